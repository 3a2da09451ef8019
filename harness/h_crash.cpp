// Crashes at any operation (C01), failing operations (C02), damaged commits (C26).
#include "world.h"
#include <thread>
#include "recdir.h"
#include <dlfcn.h>
#include <sys/uio.h>
#include "IndexCommit.h"
#include "IndexDeletionPolicy.h"
#include "SegmentInfos.h"
#include "SegmentInfo.h"
using namespace vf;

extern "C" int vf_assert_off;

// ---- system calls of the harness process, for the file system directories
namespace sys {
struct Watch {
    std::recursive_mutex m;
    std::string root;                      // only files below it are watched
    std::map<std::string, uint64_t> synced;  // path -> hash of the content at its last fsync
    std::function<int(const char* call, const std::string& path)> fault;  // errno to fail with, 0: go on
    int64_t fsyncs = 0, writes = 0, unlinks = 0, faults = 0, shortWrites = 0;
    bool shortFirst = false;
};
Watch& W() { static Watch* w = new Watch; return *w; }
std::atomic<bool> on{false};

std::string pathOf(int fd) {
    char l[64], b[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return "";
    return std::string(b, (size_t)n);
}
bool watched(const std::string& p) { return !W().root.empty() && p.compare(0, W().root.size(), W().root) == 0; }
std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
int check(const char* call, const std::string& p) {
    if (!W().fault) return 0;
    int e = W().fault(call, p);
    if (e) ++W().faults;
    return e;
}
}

extern "C" int fsync(int fd) {
    static int (*real)(int) = (int (*)(int))dlsym(RTLD_NEXT, "fsync");
    if (sys::on) {
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        std::string p = sys::pathOf(fd);
        if (sys::watched(p)) {
            if (int e = sys::check("fsync", p)) { errno = e; return -1; }
            ++sys::W().fsyncs;
            sys::W().synced[p] = Hash().add(sys::slurp(p)).h;
        }
    }
    return real(fd);
}
extern "C" int fdatasync(int fd) { return fsync(fd); }
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    static ssize_t (*real)(int, const void*, size_t) = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
    if (sys::on) {
        std::string p = sys::pathOf(fd);
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        if (sys::watched(p)) {
            ++sys::W().writes;
            if (int e = sys::check("write", p)) {
                if (sys::W().shortFirst && n > 1) { ++sys::W().shortWrites; ssize_t k = real(fd, b, n / 2); (void)k; }
                errno = e;
                return -1;
            }
        }
    }
    return real(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
    static ssize_t (*real)(int, const struct iovec*, int) = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
    if (sys::on) {
        std::string p = sys::pathOf(fd);
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        if (sys::watched(p)) {
            ++sys::W().writes;
            if (int e = sys::check("write", p)) {
                if (sys::W().shortFirst && n > 0 && v[0].iov_len > 1) {
                    ++sys::W().shortWrites;
                    struct iovec x = v[0];
                    x.iov_len /= 2;
                    ssize_t k = real(fd, &x, 1);
                    (void)k;
                }
                errno = e;
                return -1;
            }
        }
    }
    return real(fd, v, n);
}
static int gone(const char* p, int (*real)(const char*)) {
    if (sys::on) {
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        if (sys::watched(p)) {
            if (int e = sys::check("unlink", p)) { errno = e; return -1; }
            ++sys::W().unlinks;
            sys::W().synced.erase(p);
        }
    }
    return real(p);
}
extern "C" int unlink(const char* p) {
    static int (*real)(const char*) = (int (*)(const char*))dlsym(RTLD_NEXT, "unlink");
    return gone(p, real);
}
extern "C" int remove(const char* p) {
    static int (*real)(const char*) = (int (*)(const char*))dlsym(RTLD_NEXT, "remove");
    return gone(p, real);
}

namespace {

class KeepAll : public IndexDeletionPolicy {
public:
    virtual ~KeepAll() {}
    LUCENE_CLASS(KeepAll);
    virtual void onInit(Collection<IndexCommitPtr> commits) {}
    virtual void onCommit(Collection<IndexCommitPtr> commits) {}
};

int64_t genOfName(const WS& n) { return n.size() > 9 ? (int64_t)wcstoll(n.c_str() + 9, 0, 36) : 0; }
std::string uidsOf(const std::vector<DocM>& v) { std::string s; for (auto& d : v) s += std::to_string(d.uid) + " "; return s; }
std::string liveUids(const IndexReaderPtr& rd) {
    std::string s;
    for (int32_t i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) s += u8(rd->document(i)->get(L"uid")) + " ";
    return s;
}

typedef std::shared_ptr<const std::vector<DocM>> Docs;

struct Crash : World {
    RecDirPtr rec;
    std::mutex cm;
    Docs acked, inflight;           // contents a crash may leave
    std::map<int64_t, Docs> kept;   // acknowledged commits under KeepAll
    bool keepAll;
    struct Shot { CrashImage im; Docs acked, inflight; std::map<int64_t, Docs> kept; };
    std::vector<Shot> shots;
    int budget, density;
    bool committing = false;
    Rng ir;

    Crash(Case& c) : World(c, "crash", true, 0), ir(c.rng.next()) {
        rec = newLucene<RecDir>();
        dir = rec;
        dirKind = 9;
        keepAll = r.oneIn(3);
        budget = (int)r.range(6, 14);
        density = (int)r.pick({2, 6, 15});
        rec->st->before = [this](const char* kind, const std::string& name) {
            if (shots.size() >= 6 || budget <= 0) return;
            if (kind[0] == 'r' || kind[0] == 'l' || !strcmp(kind, "open")) return;
            bool hot = name.compare(0, 8, "segments") == 0 || !strcmp(kind, "sync") || !strcmp(kind, "delete");
            if (!ir.oneIn(hot || committing ? (uint64_t)density : 60)) return;
            --budget;
            Shot s;
            s.im = rec->st->image();
            s.im.op = std::string(kind) + " " + name;
            std::lock_guard<std::mutex> l(cm);
            s.acked = acked;
            s.inflight = inflight;
            s.kept = kept;
            shots.push_back(std::move(s));
        };
    }
    ~Crash() { if (w) { try { w->rollback(); } catch (...) {} } std::lock_guard<std::recursive_mutex> l(rec->st->m); rec->st->before = nullptr; rec->st->onFull = nullptr; }
    void begin() { std::lock_guard<std::mutex> l(cm); committing = true; inflight = std::make_shared<std::vector<DocM>>(pending); }
    void end(bool landedAll = true) {
        String current = landedAll && keepAll ? SegmentInfos::getCurrentSegmentFileName(dir) : String();  // (takes the lock of rec)
        std::lock_guard<std::mutex> l(cm);
        committing = false;
        if (landedAll) { acked = inflight; everCommitted = true; committed = *acked; }
        inflight.reset();
        if (landedAll && keepAll) kept[genOfName(current)] = acked;
    }
    void open() {
        cfg = makeCfg(r);
        bool create = !everCommitted;
        if (create) { pending.clear(); begin(); }
        int mfl = s.opts.maxFieldLength == 0x7fffffff ? IndexWriter::MaxFieldLengthUNLIMITED : s.opts.maxFieldLength;
        if (keepAll) w = newLucene<IndexWriter>(dir, an, create, newLucene<KeepAll>(), mfl);
        else w = newLucene<IndexWriter>(dir, an, create, mfl);
        if (create) end();
        applyCfg(w, cfg);
        say("open writer " + cfg.str() + (keepAll ? " keepAll" : ""));
    }
    void commitOp() {
        begin();
        if (r.oneIn(4)) { w->prepareCommit(); say("prepareCommit"); }
        w->commit();
        end();
        say("commit");
        count("op_commit");
    }
    void closeOp() {
        begin();
        w->close(r.oneIn(2));
        w.reset();
        end();
        say("close");
    }
    void rollbackOp() {
        if (r.oneIn(2)) { begin(); w->prepareCommit(); end(false); }
        w->rollback();
        w.reset();
        pending = committed;
        say("rollback");
    }
    void readerCommit() {
        if (!everCommitted || committed.empty()) return;
        IndexReaderPtr rd = keepAll ? IndexReader::open(dir, IndexDeletionPolicyPtr(newLucene<KeepAll>()), false) : IndexReader::open(dir, false);
        const DocM victim = committed[(size_t)r.below(committed.size())];
        rd->deleteDocuments(T(L"uid", std::to_wstring(victim.uid)));
        pending = committed;
        erase(L"uid", std::to_wstring(victim.uid));
        begin();
        if (r.oneIn(2)) rd->commit(MapStringString());
        rd->close();
        end();
        say("reader deletes uid " + std::to_string(victim.uid));
        count("reader_commits");
    }
    void evaluate() {
        std::vector<Shot> todo;
        {
            std::lock_guard<std::recursive_mutex> l(rec->st->m);
            todo.swap(shots);
        }
        for (auto& sh : todo) {
            for (int style : {0, 1, 2, 2}) {
                RecStorePtr st = afterCrash(sh.im, r, style);
                RecDirPtr d = newLucene<RecDir>(st);
                std::string ctx = fmt("crash before op %llu (%s), style %d; acked %s; in progress %s; found:", (unsigned long long)sh.im.opNo, sh.im.op.c_str(), style,
                                      sh.acked ? uidsOf(*sh.acked).c_str() : "nothing", sh.inflight ? uidsOf(*sh.inflight).c_str() : "nothing");
                for (auto& f : st->files) ctx += " " + f.first + fmt(":%zu", f.second->data.size());
                std::vector<DocM> found;
                bool opened = false;
                IndexReaderPtr rd;
                try {
                    rd = IndexReader::open(d, true);
                    opened = true;
                } catch (LuceneException& e) {
                    VF_CHECK(!sh.acked, "crash.open", what(e) + " " + ctx);
                }
                count("crash_images");
                tick();
                if (opened) {
                    std::string u = liveUids(rd);
                    if (sh.inflight && u == uidsOf(*sh.inflight)) { found = *sh.inflight; if (!sh.acked || u != uidsOf(*sh.acked)) count("images_with_new_commit"); }
                    else {
                        VF_CHECK(sh.acked, "crash.content", "an index is visible before its first commit: " + u + ctx);
                        VF_EQ(u, uidsOf(*sh.acked), "crash.content", ctx);
                        found = *sh.acked;
                        count("images_with_old_commit");
                    }
                    checkReader(rd, found, "crash.image", ctx);
                    rd->close();
                    if (r.oneIn(4)) checkIndexClean(d, "crash.image", ctx);
                    if (keepAll && r.oneIn(3)) {
                        Collection<IndexCommitPtr> cs;
                        try { cs = IndexReader::listCommits(d); } catch (LuceneException& e) { fail("crash.kept.list", what(e) + " " + ctx); }
                        std::map<int64_t, IndexCommitPtr> by;
                        for (int32_t i = 0; i < cs.size(); ++i) by[cs[i]->getGeneration()] = cs[i];
                        for (auto& k : sh.kept) {
                            VF_CHECK(by.count(k.first), "crash.kept.missing", fmt("generation %lld ", (long long)k.first) + ctx);
                            if (!r.oneIn(3)) continue;
                            IndexReaderPtr old = IndexReader::open(by[k.first], true);
                            VF_EQ(liveUids(old), uidsOf(*k.second), "crash.kept.content", fmt("generation %lld ", (long long)k.first) + ctx);
                            old->close();
                            count("kept_commits_checked");
                        }
                    }
                }
                if (!opened) continue;
                if (r.oneIn(2)) continue;
                // life goes on
                guarded("crash.goOn", [&]() {
                    std::string got;
                    DocM nd = makeDoc(r, s, 1000000 + uid, 0);
                    bool create = !opened;
                    IndexWriterPtr w2 = newLucene<IndexWriter>(d, an, create, IndexWriter::MaxFieldLengthUNLIMITED);
                    w2->setMergeScheduler(newLucene<SerialMergeScheduler>());
                    w2->addDocument(toDocument(nd));
                    if (r.oneIn(4)) w2->optimize();
                    if (r.oneIn(3)) w2->commit();
                    w2->close();
                    found.push_back(nd);
                    IndexReaderPtr r2 = IndexReader::open(d, true);
                    checkReader(r2, found, "crash.goOn", ctx);
                    r2->close();
                    // what the crash left behind is gone
                    std::set<std::string> want;
                    SegmentInfosPtr infos = newLucene<SegmentInfos>();
                    infos->read(d);
                    HashSet<String> fs = infos->files(d, true);
                    for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) want.insert(u8(*f));
                    want.insert("segments.gen");
                    std::string extra;
                    for (auto& n : st->names()) if (!want.count(n)) extra += n + " ";
                    VF_EQ(extra, std::string(), "crash.debris", ctx);
                    count("writers_after_crash");
                });
            }
        }
        count("shots", (int64_t)todo.size());
    }
    void go() {
        int steps = (int)r.range(15, r.oneIn(4) ? 80 : 40);
        for (int i = 0; i < steps; ++i) {
            if (!w) { if (r.oneIn(4)) readerCommit(); open(); }
            else {
                int k = (int)r.below(100);
                if (k < 40) add();
                else if (k < 52) update();
                else if (k < 60) deleteTerm();
                else if (k < 63) deleteQuery();
                else if (k < 65) poison();
                else if (k < 79) commitOp();
                else if (k < 85) closeOp();
                else if (k < 88) rollbackOp();
                else if (k < 92) { w->optimize(r.oneIn(2) ? 1 : 2); say("optimize"); }
                else if (k < 94) { w->expungeDeletes(); say("expungeDeletes"); }
                else if (k < 96) addIndexesOp();
                else if (k < 98) { IndexReaderPtr n = w->getReader(); n->close(); say("nrt"); }
                else tune();
            }
            evaluate();
        }
        if (w) closeOp();
        evaluate();
        checkCommitted(true);
    }
};

// ---- failing operations

struct Faults : World {
    RecDirPtr rec;
    std::mutex fm;
    std::string kind;
    int64_t countdown = 0;
    int mode = 0;  // 0 off, 1 once, 2 from then on, 3 now and then
    int64_t fired = 0;
    std::string firedAt;
    bool onlySegments = false;
    bool inBackground = false;       // a fault hit another thread since the last commit
    std::thread::id mainThread = std::this_thread::get_id();
    bool uncertain = false;          // a failed call left it open which uncommitted changes survive
    std::set<int> maybe;             // uids that may be there or not
    std::vector<DocM> universe;      // order of all documents that may be there
    std::vector<DocM> since;         // every document given to the writer since the last commit
    Rng ir;

    Faults(Case& c) : World(c, "faults", true, 0), ir(c.rng.next()) {
        rec = newLucene<RecDir>();
        dir = rec;
        dirKind = 9;
        rec->st->before = [this](const char* k, const std::string& name) {
            std::lock_guard<std::mutex> l(fm);
            if (!mode || (kind != "any" && kind != k)) return;
            if (onlySegments && name.compare(0, 8, "segments")) return;
            if (mode == 3) { if (!ir.oneIn((uint64_t)countdown + 1)) return; }
            else if (countdown-- > 0) return;
            if (mode == 1) mode = 0;
            ++fired;
            if (std::this_thread::get_id() != mainThread) inBackground = true;
            firedAt += std::string(k) + " " + name + ", ";
            boost::throw_exception(IOException(L"verif: injected failure"));
        };
        rec->st->onFull = [this] { std::lock_guard<std::mutex> l(fm); if (std::this_thread::get_id() != mainThread) inBackground = true; };
    }
    ~Faults() { disarm(); if (w) { try { w->rollback(); } catch (...) {} } std::lock_guard<std::recursive_mutex> l(rec->st->m); rec->st->before = nullptr; }
    void arm() {
        std::lock_guard<std::mutex> l(fm);
        kind = r.pick({"write", "write", "sync", "create", "open", "read", "closeout", "delete", "list", "any"});
        onlySegments = r.oneIn(4);
        mode = (int)r.pick({1, 1, 1, 2, 3});
        countdown = mode == 3 ? (int64_t)r.range(1, 20) : r.skewed(onlySegments ? 4 : 60);
        fired = 0;
        firedAt.clear();
    }
    void disarm() { std::lock_guard<std::mutex> l(fm); mode = 0; rec->st->capacity = -1; }

    // a failed commit may have landed as long as its segments file cannot be deleted, and be gone again once it can
    std::vector<DocM> alt;
    bool hasAlt = false;
    // the documents that are there must explain themselves by the history
    void settle(const IndexReaderPtr& rd, const std::string& ctx) {
        std::vector<int> got;
        for (int32_t i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) got.push_back((int)wcstol(rd->document(i)->get(L"uid").c_str(), 0, 10));
        std::map<int, size_t> at;
        for (size_t i = 0; i < universe.size(); ++i) at[universe[i].uid] = i;
        std::set<int> sure;
        for (auto& d : pending) if (!maybe.count(d.uid)) sure.insert(d.uid);
        std::vector<DocM> docs;
        long last = -1;
        for (int u : got) {
            VF_CHECK(at.count(u), key + ".unknown", fmt("uid %d ", u) + ctx);
            VF_CHECK((long)at[u] > last, key + ".order", fmt("uid %d out of order or twice ", u) + ctx);
            last = (long)at[u];
            VF_CHECK(sure.count(u) || maybe.count(u), key + ".undead", fmt("uid %d was deleted ", u) + ctx);
            sure.erase(u);
            docs.push_back(universe[at[u]]);
        }
        VF_CHECK(sure.empty(), key + ".lost", fmt("uid %d is gone ", sure.empty() ? 0 : *sure.begin()) + ctx);
        checkReader(rd, docs, key + ".settled", ctx);
        pending = docs;
        uncertain = false;
        maybe.clear();
        universe.clear();
        count("settled_after_failure");
    }
    void becomeUncertain(const std::vector<DocM>& before, const std::vector<DocM>& after) {
        // everything not committed may be lost, everything deleted since the commit may come back
        std::vector<DocM> u = uncertain ? universe : std::vector<DocM>();
        std::set<int> have;
        for (auto& d : u) have.insert(d.uid);
        auto put = [&](const std::vector<DocM>& v) { for (auto& d : v) if (have.insert(d.uid).second) u.push_back(d); };
        put(committed);
        put(before);
        put(after);
        put(since);
        std::sort(u.begin(), u.end(), [](const DocM& a, const DocM& b) { return a.uid < b.uid; });
        std::set<int> com, inBefore, inAfter;
        for (auto& d : committed) com.insert(d.uid);
        for (auto& d : before) inBefore.insert(d.uid);
        for (auto& d : after) inAfter.insert(d.uid);
        for (auto& d : u) if (!(com.count(d.uid) && inBefore.count(d.uid) && inAfter.count(d.uid)) || maybe.count(d.uid)) maybe.insert(d.uid);
        universe = u;
        uncertain = true;
        // the model carries all candidates on, so that later deletes apply to them
        pending = u;
    }
    void checkOnDisk(const std::vector<DocM>* other, const std::string& ctx) {
        if (!everCommitted) return;
        IndexReaderPtr rd;
        try { rd = IndexReader::open(dir, true); } catch (LuceneException& e) { fail(key + ".open", what(e) + " " + ctx); }
        std::string u = liveUids(rd);
        if (u != uidsOf(committed)) {
            if (hasAlt && u == uidsOf(alt)) { std::swap(committed, alt); }
            else if (other && u == uidsOf(*other)) { alt = committed; hasAlt = true; committed = *other; count("failed_commits_that_landed"); }
            else if (other && uncertain) { std::vector<DocM> was = committed; settle(rd, ctx); committed = pending; alt = was; hasAlt = true; rd->close(); return; }
            else fail(key + ".content", "found " + u + " committed " + uidsOf(committed) + (other ? " or " + uidsOf(*other) : "") + ctx);
        }
        checkReader(rd, committed, key + ".disk", ctx);
        rd->close();
        // (a complete segments file of a failed commit that cannot be deleted misleads CheckIndex, not readers)
        if (r.oneIn(4) && firedAt.find("delete segments") == std::string::npos) checkIndexClean(dir, key, ctx);
        count("disk_checks");
    }
    std::string listing() { std::string s; for (auto& n : rec->st->names()) s += n + " "; return s; }
    void op(int k, bool& commitOp, std::vector<DocM>& after) {
        // like World's operations, with the model changed only when the call returned
        commitOp = false;
        if (k < 45) {
            DocM d = makeDoc(r, s, uid++, (int)r.below((uint64_t)s.idSpace));
            after.push_back(d); since.push_back(d);
            say("add uid=" + std::to_string(d.uid));
            w->addDocument(toDocument(d));
        } else if (k < 60) {
            WS id = idOf((int)r.below((uint64_t)s.idSpace));
            DocM d = makeDoc(r, s, uid++, (int)wcstol(id.c_str() + 1, 0, 10));
            std::vector<DocM> kk;
            for (auto& x : after) if (!x.has(L"id", id)) kk.push_back(x);
            after.swap(kk);
            after.push_back(d); since.push_back(d);
            say("update id=" + u8(id) + " uid=" + std::to_string(d.uid));
            w->updateDocument(T(L"id", id), toDocument(d));
        } else if (k < 68) {
            WS id = idOf((int)r.below((uint64_t)s.idSpace));
            std::vector<DocM> kk;
            for (auto& x : after) if (!x.has(L"id", id)) kk.push_back(x);
            after.swap(kk);
            say("delete id=" + u8(id));
            w->deleteDocuments(T(L"id", id));
        } else if (k < 82) {
            commitOp = true;
            say("commit");
            w->commit();
        } else if (k < 88) {
            commitOp = true;
            say("close");
            w->close(r.oneIn(2));
            w.reset();
        } else if (k < 91) {
            say("optimize");
            w->optimize();
        } else if (k < 93) {
            say("expungeDeletes");
            w->expungeDeletes();
        } else if (k < 96) {
            say("nrt");
            IndexReaderPtr rd = w->getReader();
            if (!uncertain && !mode && !inBackground) checkReader(rd, pending, key + ".nrt", "");
            rd->close();
        } else {
            // index of another directory
            std::vector<DocM> docs;
            DirectoryPtr d2 = newLucene<RAMDirectory>();
            IndexWriterPtr w2 = newLucene<IndexWriter>(d2, an, true, IndexWriter::MaxFieldLengthUNLIMITED);
            w2->setMergeScheduler(newLucene<SerialMergeScheduler>());
            w2->setMaxBufferedDocs(2);
            int n = (int)r.range(1, 5);
            for (int i = 0; i < n; ++i) { DocM d = makeDoc(r, s, uid++, (int)r.below((uint64_t)s.idSpace)); w2->addDocument(toDocument(d)); after.push_back(d); since.push_back(d); }
            w2->close();
            Collection<DirectoryPtr> dirs = Collection<DirectoryPtr>::newInstance();
            dirs.add(d2);
            say("addIndexesNoOptimize");
            w->addIndexesNoOptimize(dirs);
        }
    }
    void reopen() {
        cfg = makeCfg(r);
        bool create = !everCommitted;
        w = newLucene<IndexWriter>(dir, an, create, IndexWriter::MaxFieldLengthUNLIMITED);
        applyCfg(w, cfg);
        if (getenv("VERIF_INFO")) w->setInfoStream(newLucene<ErrInfo>());
        say("open writer " + cfg.str());
        if (create) { everCommitted = true; committed.clear(); }
        if (fired && firedAt.find("segments_") != std::string::npos && !create) {
            disarm();
            // (a fault while the newest commit is read makes the writer start from an older one, if there is one)
            IndexReaderPtr rd = w->getReader();
            std::string u = liveUids(rd);
            rd->close();
            if (u != uidsOf(committed)) {
                disarm();
                w->rollback();
                w.reset();
                fail(key + ".fellback", "a writer opened with a fault at " + firedAt + " starts from " + u + " instead of the commit " + uidsOf(committed));
            }
        }
        hasAlt = false;
        pending = committed;
        uncertain = false;
        maybe.clear();
        since.clear();
        inBackground = false;
    }
    void afterCommit(const std::string& ctx) {
        if (getenv("VERIF_INFO")) for (auto& f : rec->st->files) fprintf(stderr, "@@   %s %d\n", f.first.c_str(), (int)f.second->data.size());
        IndexReaderPtr rd;
        try { rd = IndexReader::open(dir, true); } catch (LuceneException& e) { fail(key + ".acked.open", what(e) + " " + ctx); }
        if (inBackground) {
            // known finding: a merge thread flushes buffered documents when their doc store is open; if that
            // fails they are gone and nobody is told
            std::set<int> got, want;
            for (int32_t i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) got.insert((int)wcstol(rd->document(i)->get(L"uid").c_str(), 0, 10));
            for (auto& d : pending) want.insert(d.uid);
            for (auto& d : since) {
                if (maybe.count(d.uid)) continue;
                if (want.count(d.uid) != got.count(d.uid)) { say(fmt("uid %d", d.uid)); fail(key + ".backgroundflush", "a document added or deleted since the last commit is wrong after a fault in a merge thread's flush " + ctx); }
            }
            for (auto& d : committed) {
                if (maybe.count(d.uid)) continue;
                if (!want.count(d.uid) && got.count(d.uid)) { say(fmt("uid %d", d.uid)); fail(key + ".backgroundflush", "a buffered delete is gone after a fault in a merge thread's flush " + ctx); }
            }
            inBackground = false;
            count("background_faults_survived");
        }
        if (uncertain) settle(rd, ctx);
        else checkReader(rd, pending, key + ".acked", ctx);
        rd->close();
        committed = pending;
        hasAlt = false;
        since.clear();
        everCommitted = true;
        if (r.oneIn(5)) checkIndexClean(dir, key + ".acked", ctx);
    }
    void go() {
        int steps = (int)r.range(20, r.oneIn(4) ? 90 : 50);
        int healthy = (int)r.below(8);
        for (int i = 0; i < steps; ++i) {
            if (!w) {
                bool faulty = i > healthy && r.oneIn(4);
                if (faulty) arm();
                try { reopen(); } catch (LuceneException& e) {
                    disarm();
                    if (!fired) fail(key + ".spurious", "opening a writer failed without a fault: " + what(e));
                    say("open failed at " + firedAt);
                    w.reset();
                    count("failed_opens");
                    checkOnDisk(nullptr, "after a writer could not be opened, fault at " + firedAt + listing());
                }
                disarm();
                continue;
            }
            bool faulty = i > healthy && r.oneIn(4);
            bool disk = faulty && r.oneIn(5);
            std::vector<DocM> before = pending, after = pending;
            bool commitOp = false, threw = false;
            int k = (int)r.below(100);
            if (faulty && r.oneIn(3)) k = (int)r.range(68, 99);
            if (disk) { arm(); disarm(); fired = 0; rec->st->capacity = rec->st->used + r.skewed(4000); }
            else if (faulty) arm();
            std::string err;
            try {
                op(k, commitOp, after);
            } catch (LuceneException& e) {
                threw = true;
                err = what(e);
            }
            std::string at = disk ? "disk full" : firedAt;
            bool hit = faulty && (disk || fired > 0);
            bool closeFailed = threw && k >= 82 && k < 88;
            std::string ctx = std::string("fault ") + at + " error " + err + " files " + listing();
            if (threw) {
                say("FAILED " + err + " at " + at);
                VF_CHECK(hit, key + ".spurious", "a call failed without a fault: " + err + (uncertain ? " (after an earlier failure)" : ""));
                count(disk ? "failed_disk_full" : "failed_" + kind);
                if (r.oneIn(3)) disarm();
                bool closed = false;
                if (commitOp && r.oneIn(2)) {
                    disarm();
                    becomeUncertain(before, after);
                    std::vector<DocM> cand = after;
                    checkOnDisk(&cand, ctx);
                    if (!uncertain) { becomeUncertain(committed, committed); }
                } else { becomeUncertain(before, after); }
                // go on with the same writer, or give up
                if (closeFailed && r.oneIn(2)) {
                    // a writer whose close failed takes no more documents, but can be closed again
                    disarm();
                    try { w->close(); } catch (LuceneException& e) { fail(key + ".closeAgain", "close fails although the fault is gone: " + what(e) + ctx); }
                    w.reset();
                    afterCommit("after the second close " + ctx);
                } else if (closeFailed || r.oneIn(2)) {
                    try { w->rollback(); closed = true; } catch (LuceneException& e) { say("rollback failed: " + what(e)); count("failed_rollbacks"); }
                    disarm();
                    if (!closed) { try { w->rollback(); closed = true; } catch (LuceneException& e) { fail(key + ".rollback", "rollback fails although the fault is gone: " + what(e) + ctx); } }
                    w.reset();
                    std::vector<DocM> cand = after;
                    checkOnDisk(commitOp ? &cand : nullptr, ctx);
                    uncertain = false;
                    pending = committed;
                    since.clear();
                }
                disarm();
                continue;
            }
            disarm();
            if (hit) count("survived_fault");
            if (!uncertain) pending = after;
            else {
                // candidates: replay on the model of all that may be there
                std::set<int> now;
                for (auto& d : after) now.insert(d.uid);
                for (auto& d : after) { bool have = false; for (auto& x : universe) have = have || x.uid == d.uid; if (!have) universe.push_back(d); }
                std::set<int> k2;
                for (int u : maybe) if (now.count(u)) k2.insert(u);
                maybe = k2;
                pending = after;
            }
            if (commitOp) afterCommit("after an acknowledged commit " + ctx);
            if (!w && !commitOp) fail(key + ".internal", "no writer");
        }
        disarm();
        if (w) { w->close(); w.reset(); say("close"); afterCommit("at the end"); }
        reopen();
        add();
        w->close();
        w.reset();
        afterCommit("fresh writer at the end");
        checkIndexClean(dir, key, "at the end");
    }
};

// ---- file system directories: every file of an acknowledged commit was synced with the content it has; failing system calls

struct OnDisk : World {
    std::string root;
    int64_t fired = 0;
    OnDisk(Case& c) : World(c, "ondisk", true, 0) {
        root = c.freshDir("fs");
        char b[4096];
        if (realpath(root.c_str(), b)) root = b;
        dirKind = (int)r.range(1, 3);
        if (dirKind == 1) dir = newLucene<SimpleFSDirectory>(ws(root));
        else if (dirKind == 2) dir = newLucene<MMapDirectory>(ws(root));
        else dir = FSDirectory::open(ws(root));
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        sys::W().root = root + "/";
        sys::W().synced.clear();
        sys::W().fault = nullptr;
        sys::on = true;
    }
    ~OnDisk() {
        if (w) { try { w->rollback(); } catch (...) {} }
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        sys::on = false;
        count("fsyncs", sys::W().fsyncs);
        count("write_calls", sys::W().writes);
        count("unlinks", sys::W().unlinks);
        count("syscall_faults", sys::W().faults);
        count("short_writes", sys::W().shortWrites);
        sys::W().fsyncs = sys::W().writes = sys::W().unlinks = sys::W().faults = sys::W().shortWrites = 0;
        sys::W().fault = nullptr;
        sys::W().root.clear();
    }
    void durable(const std::string& when) {
        SegmentInfosPtr infos = newLucene<SegmentInfos>();
        infos->read(dir);
        HashSet<String> fs = infos->files(dir, true);
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) {
            std::string p = root + "/" + u8(*f);
            auto it = sys::W().synced.find(p);
            VF_CHECK(it != sys::W().synced.end(), key + ".unsynced", u8(*f) + " belongs to a commit but was never synced, " + when);
            VF_EQ(it->second, Hash().add(sys::slurp(p)).h, key + ".changedAfterSync", u8(*f) + " " + when);
            count("durable_files");
        }
    }
    void arm() {
        std::string call = r.pick({"write", "write", "fsync", "unlink"});
        bool once = r.oneIn(2);
        auto n = std::make_shared<int64_t>(r.skewed(40));
        int err = r.pick({ENOSPC, EIO, EDQUOT});
        fired = 0;
        std::lock_guard<std::recursive_mutex> l(sys::W().m);
        sys::W().shortFirst = r.oneIn(3);
        sys::W().fault = [=](const char* c, const std::string& p) -> int {
            if (call != c) return 0;
            if (*n > 0) { --*n; return 0; }
            if (once && fired) return 0;
            ++fired;
            return err;
        };
    }
    void disarm() { std::lock_guard<std::recursive_mutex> l(sys::W().m); sys::W().fault = nullptr; }
    void onDisk(const std::vector<DocM>* other, const std::string& ctx) {
        if (!everCommitted) return;
        IndexReaderPtr rd;
        try { rd = IndexReader::open(dir, true); } catch (LuceneException& e) { fail(key + ".open", what(e) + " " + ctx); }
        std::string u = liveUids(rd);
        if (u != uidsOf(committed)) {
            VF_CHECK(other && u == uidsOf(*other), key + ".content", "found " + u + " committed " + uidsOf(committed) + ctx);
            committed = *other;
        }
        checkReader(rd, committed, key + ".disk", ctx);
        rd->close();
        count("disk_checks");
    }
    void go() {
        openWriter(true);
        durable("at creation");
        everCommitted = true;
        committed.clear();
        int steps = (int)r.range(15, 50);
        for (int i = 0; i < steps; ++i) {
            if (!w) { openWriter(true); continue; }
            bool faulty = r.oneIn(7);
            int k = (int)r.below(100);
            std::vector<DocM> before = pending;
            if (faulty) arm();
            bool isCommit = false, threw = false;
            std::string err;
            try {
                if (k < 45) add();
                else if (k < 60) update();
                else if (k < 70) deleteTerm();
                else if (k < 82) { isCommit = true; w->commit(); say("commit"); }
                else if (k < 90) { isCommit = true; w->close(); w.reset(); say("close"); }
                else if (k < 94) { w->optimize(); say("optimize"); }
                else { IndexReaderPtr n = w->getReader(); n->close(); }
            } catch (LuceneException& e) { threw = true; err = what(e); }
            std::string ctx = " error: " + err;
            if (faulty) { disarm(); }
            if (threw) {
                VF_CHECK(fired > 0, key + ".spurious", err);
                say("FAILED " + err);
                count("failed_calls");
                std::vector<DocM> cand = pending;
                try { w->rollback(); } catch (LuceneException& e) { fail(key + ".rollback", what(e)); }
                w.reset();
                onDisk(isCommit ? &cand : nullptr, ctx);
                pending = committed;
                continue;
            }
            if (isCommit) {
                committed = pending;
                durable("after commit");
                onDisk(nullptr, "after an acknowledged commit");
            }
        }
        if (w) { w->close(); w.reset(); committed = pending; durable("at the end"); onDisk(nullptr, "at the end"); }
        checkIndexClean(dir, key);
    }
};

// ---- damage

struct Damage : World {
    RecDirPtr rec;
    struct CM { int64_t gen; std::vector<DocM> docs; };
    std::vector<CM> written;
    bool keepAll;
    Damage(Case& c) : World(c, "damage", false, 0) {
        rec = newLucene<RecDir>();
        dir = rec;
        keepAll = r.oneIn(2);
    }
    void note() {
        IndexReaderPtr rd = IndexReader::open(dir, true);
        int64_t g = genOfName(rd->getIndexCommit()->getSegmentsFileName());
        rd->close();
        if (written.empty() || written.back().gen != g) written.push_back({g, pending});
    }
    void build() {
        cfg = makeCfg(r, false);
        cfg.mergeFactor = (int)r.pick({3, 10});
        int n = (int)r.range(1, 4);
        for (int k = 0; k < n; ++k) {
            bool create = k == 0;
            if (keepAll) w = newLucene<IndexWriter>(dir, an, create, newLucene<KeepAll>(), IndexWriter::MaxFieldLengthUNLIMITED);
            else w = newLucene<IndexWriter>(dir, an, create, IndexWriter::MaxFieldLengthUNLIMITED);
            applyCfg(w, cfg);
            if (create) note();
            int m = (int)r.range(1, 14);
            for (int i = 0; i < m; ++i) {
                int q = (int)r.below(10);
                if (q < 7) add(); else if (q < 8) update(); else if (q < 9) deleteTerm();
                else { w->commit(); note(); }
            }
            if (r.oneIn(6)) w->optimize();
            w->close();
            w.reset();
            note();
        }
        everCommitted = true;
        committed = pending;
    }
    RecStorePtr copy() {
        RecStorePtr s2 = std::make_shared<RecStore>();
        for (auto& f : rec->st->files) {
            MemFilePtr m = std::make_shared<MemFile>();
            m->data = f.second->data;
            m->everSynced = true;
            m->dirty = false;
            s2->files[f.first] = m;
        }
        return s2;
    }
    static bool ioFamily(LuceneException& e) {
        LuceneException::ExceptionType t = e.getType();
        return t == LuceneException::IO || t == LuceneException::CorruptIndex || t == LuceneException::FileNotFound || t == LuceneException::LockObtainFailed || t == LuceneException::StaleReader || t == LuceneException::NoSuchDirectory;
    }
    // never other content than some commit
    void probe(const RecStorePtr& st, const std::string& what_, bool mustOpenNewest) {
        struct Off { Off() { vf_assert_off = 1; } ~Off() { vf_assert_off = 0; } } off;
        RecDirPtr d = newLucene<RecDir>(st);
        count("damaged_indexes");
        tick();
        IndexReaderPtr rd;
        try {
            rd = IndexReader::open(d, true);
        } catch (LuceneException& e) {
            VF_CHECK(!mustOpenNewest, key + ".refused", what(e) + " after " + what_);
            VF_CHECK(ioFamily(e), key + ".exceptionType", what(e) + " after " + what_);
            count("refused");
            return;
        }
        std::string u;
        try { u = liveUids(rd); } catch (LuceneException& e) { fail(key + ".halfReadable", what(e) + " after " + what_); }
        int64_t g = genOfName(rd->getIndexCommit()->getSegmentsFileName());
        const CM* cm = nullptr;
        for (auto& m : written) if (m.gen == g) cm = &m;
        VF_CHECK(cm, key + ".phantom", "a commit was opened that was never written, after " + what_);
        VF_EQ(u, uidsOf(cm->docs), key + ".content", fmt("generation %lld after ", (long long)g) + what_);
        if (r.oneIn(6)) checkReader(rd, cm->docs, key + ".content", what_);
        if (mustOpenNewest) VF_EQ(g, written.back().gen, key + ".notNewest", what_);
        count(cm == &written.back() ? "opened_newest" : "fell_back");
        rd->close();
    }
    void hurt(std::string& d, std::string& what_, bool removalToo, RecStorePtr st, const std::string& name) {
        switch (r.below(removalToo ? 7 : 6)) {
        case 0: case 1: case 2: {
            size_t p = (size_t)r.below(d.size());
            char old = d[p];
            do { d[p] = (char)r.below(256); } while (d[p] == old);
            what_ = fmt("byte %zu of %zu of %s changed from %02x to %02x", p, d.size(), name.c_str(), (unsigned char)old, (unsigned char)d[p]);
            break;
        }
        case 3: case 4: {
            size_t n = (size_t)r.below(d.size());
            what_ = fmt("%s truncated from %zu to %zu", name.c_str(), d.size(), n);
            d.resize(n);
            break;
        }
        case 5: {
            size_t p = (size_t)r.below(d.size()), n = 1 + (size_t)r.below(d.size() - p);
            std::string old = d;
            for (size_t i = p; i < p + n; ++i) d[i] = (char)(r.oneIn(2) ? 0 : r.below(256));
            if (d == old) d[p] ^= 1;
            what_ = fmt("bytes %zu..%zu of %s scrambled", p, p + n, name.c_str());
            break;
        }
        default:
            what_ = name + " removed";
            st->files.erase(name);
        }
    }
    static std::string segOf(const std::string& f) {
        size_t i = 1;
        while (i < f.size() && isalnum((unsigned char)f[i])) ++i;
        return f.substr(0, i);
    }
    void go() {
        build();
        checkIndexClean(dir, key, "freshly written");
        SegmentInfosPtr infos = newLucene<SegmentInfos>();
        infos->read(dir);
        std::string newest = u8(infos->getCurrentSegmentFileName());
        probe(copy(), "nothing", true);
        int n = (int)r.range(10, 30);
        for (int i = 0; i < n; ++i) {
            RecStorePtr st = copy();
            std::string how;
            if (r.oneIn(3)) { st->files.erase("segments.gen"); }
            hurt(st->files[newest]->data, how, true, st, newest);
            probe(st, how, false);
        }
        // every byte and every length of the newest segments file, now and then
        if (r.oneIn(12)) {
            size_t len = rec->st->files[newest]->data.size();
            for (size_t p = 0; p < len; ++p) {
                RecStorePtr st = copy();
                st->files[newest]->data[p] ^= (char)(1 << r.below(8));
                probe(st, fmt("byte %zu of %zu of %s flipped", p, len, newest.c_str()), false);
                RecStorePtr st2 = copy();
                st2->files[newest]->data.resize(p);
                probe(st2, fmt("%s truncated from %zu to %zu", newest.c_str(), len, p), false);
            }
            count("full_sweeps");
        }
        // segments.gen is only a hint
        for (int i = 0; i < 4; ++i) {
            RecStorePtr st = copy();
            std::string how;
            if (!st->files.count("segments.gen") || st->files["segments.gen"]->data.empty()) break;
            hurt(st->files["segments.gen"]->data, how, true, st, "segments.gen");
            probe(st, how, true);
            count("gen_damaged");
        }
        // files of segments
        HashSet<String> fs = infos->files(dir, false);
        std::vector<std::string> files;
        for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) files.push_back(u8(*f));
        std::sort(files.begin(), files.end());
        for (int i = 0; i < 4 && !files.empty(); ++i) {
            RecStorePtr st = copy();
            std::string f = r.pick(files);
            std::string ext = f.substr(f.find('.') + 1);
            bool remove = r.oneIn(2);
            std::string how;
            if (remove) { st->files.erase(f); how = f + " removed"; }
            else {
                std::string& d = st->files[f]->data;
                if (d.empty()) continue;
                size_t k = r.oneIn(2) ? 0 : (size_t)r.below(d.size());
                how = fmt("%s truncated from %zu to %zu", f.c_str(), d.size(), k);
                d.resize(k);
            }
            say(how);
            struct Off { Off() { vf_assert_off = 1; } ~Off() { vf_assert_off = 0; } } off;
            RecDirPtr d = newLucene<RecDir>(st);
            CheckIndexPtr ci = newLucene<CheckIndex>(d);
            IndexStatusPtr status;
            try { status = ci->checkIndex(); } catch (LuceneException& e) { fail(key + ".checkindex.exception", what(e) + " after " + how); }
            count("checkindex_damaged");
            // which segments are hurt by it
            std::set<int> hurtUids;
            std::vector<DocM> keep;
            SegmentInfosPtr in2 = newLucene<SegmentInfos>();
            in2->read(dir);
            IndexReaderPtr whole = IndexReader::open(dir, true);
            Collection<IndexReaderPtr> subs = whole->getSequentialSubReaders();
            int base = 0;
            std::set<int> keepU;
            int hurtSegs = 0, unsure = 0;
            static const std::set<std::string> storeExts = {"fdt", "fdx", "tvx", "tvd", "tvf", "cfx"};
            for (int32_t q = 0; q < in2->size(); ++q) {
                SegmentInfoPtr si = in2->info(q);
                HashSet<String> sf = si->files();
                bool bad = sf.contains(ws(f));
                IndexReaderPtr sub = subs[q];
                // vector files of a shared store may be of no use to this segment; a cut may spare its part, or hit deleted documents only
                // (and a segment without tvx is taken for one whose documents with vectors all failed)
                // (nor is the second half of the entry in tvx of a document without vectors)
                bool noUse = (ext == "tvx" && (remove || st->files[f]->data.size() + 8 >= (size_t)dir->fileLength(ws(f)))) || ext.compare(0, 2, "tv") == 0 && sub->getFieldNames(IndexReader::FIELD_OPTION_INDEXED_WITH_TERMVECTOR).empty();
                bool maybeSpared = bad && (noUse || (!remove && (sub->hasDeletions() || (storeExts.count(ext) && si->getDocStoreOffset() != -1))));
                if (maybeSpared) ++unsure;
                else if (bad) ++hurtSegs;
                for (int32_t x = 0; x < sub->maxDoc(); ++x) if (!bad && !sub->isDeleted(x)) keepU.insert((int)wcstol(sub->document(x)->get(L"uid").c_str(), 0, 10));
                base += sub->maxDoc();
            }
            whole->close();
            if (hurtSegs) VF_CHECK(!status->clean, key + ".undetected", "CheckIndex reports an index as clean after " + how);
            VF_CHECK(status->numBadSegments >= hurtSegs && status->numBadSegments <= hurtSegs + unsure, key + ".badSegments", fmt("%d bad, %d to %d expected, ", status->numBadSegments, hurtSegs, hurtSegs + unsure) + how);
            if (unsure && status->numBadSegments == 0) { count("spared"); continue; }
            ci->fixIndex(status);
            IndexReaderPtr rd = IndexReader::open(d, true);
            std::set<int> there;
            for (int32_t x = 0; x < rd->maxDoc(); ++x) if (!rd->isDeleted(x)) there.insert((int)wcstol(rd->document(x)->get(L"uid").c_str(), 0, 10));
            for (int u : keepU) VF_CHECK(there.count(u), key + ".fixed.lost", fmt("uid %d of an undamaged segment is gone after the repair of ", u) + how);
            if (!unsure) VF_EQ(there.size(), keepU.size(), key + ".fixed.extra", how);
            for (auto& dm : committed) if (there.count(dm.uid)) keep.push_back(dm);
            VF_EQ(liveUids(rd), uidsOf(keep), key + ".fixed", how);
            checkReader(rd, keep, key + ".fixed", how);
            rd->close();
            checkIndexClean(d, key + ".fixed", how);
            count("repairs");
            if (r.oneIn(3)) {
                IndexWriterPtr w2 = newLucene<IndexWriter>(d, an, false, IndexWriter::MaxFieldLengthUNLIMITED);
                w2->setMergeScheduler(newLucene<SerialMergeScheduler>());
                DocM nd = makeDoc(r, s, uid++, 0);
                w2->addDocument(toDocument(nd));
                w2->optimize();
                w2->close();
                keep.push_back(nd);
                IndexReaderPtr r3 = IndexReader::open(d, true);
                checkReader(r3, keep, key + ".afterRepair", how);
                r3->close();
            }
        }
    }
};
}

VF_MODE(crash) { Crash x(c); x.go(); if (wantSample()) sample(c.log.str()); }
VF_MODE(faults) { Faults x(c); x.go(); if (wantSample()) sample(c.log.str()); }
VF_MODE(ondisk) { OnDisk x(c); x.go(); if (wantSample()) sample(c.log.str()); }
VF_MODE(damage) { Damage x(c); x.go(); if (wantSample()) sample(c.log.str()); }

int main(int argc, char** argv) {
    SegmentInfos::setDefaultGenFileRetryPauseMsec(0);
    return ::vf::mainImpl(argc, argv);
}
