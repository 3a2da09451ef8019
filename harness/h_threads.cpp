// Several threads on one writer (C06), on failing and slow directories (C08), on shared readers, searchers and caches (C07).
// Threads only record; what they recorded is checked after they have ended, so that the checking adds no synchronisation.
#include "world.h"
#include "corpus.h"
#include "sorting.h"
#include "SingleInstanceLockFactory.h"
#include "FilterManager.h"
#include <thread>
#include <dirent.h>
using namespace vf;

namespace {
typedef std::map<std::string, int64_t> Counts;

// ---- a directory that dawdles and fails
struct Trouble {
    std::atomic<int> delayPct{0}, failPermille{0};
    std::atomic<uint64_t> ops{0}, failures{0}, seed{1};
    Rng& rng() { static thread_local Rng r(mix(seed.fetch_add(1, std::memory_order_relaxed))); return r; }
    void delay() {
        int d = delayPct.load(std::memory_order_relaxed);
        if (!d) return;
        Rng& r = rng();
        if (!r.chance(d)) return;
        if (r.oneIn(3)) std::this_thread::yield();
        else std::this_thread::sleep_for(std::chrono::microseconds(r.below(r.oneIn(20) ? 3000 : 200)));
    }
    void op(const char* what) {
        ops.fetch_add(1, std::memory_order_relaxed);
        delay();
        int f = failPermille.load(std::memory_order_relaxed);
        if (f && rng().below(1000) < (uint64_t)f) {
            failures.fetch_add(1, std::memory_order_relaxed);
            boost::throw_exception(IOException(L"verif: injected failure of " + ws(what)));
        }
    }
};
typedef std::shared_ptr<Trouble> TroubleP;
class TOutput : public IndexOutput {
public:
    TroubleP t; IndexOutputPtr o;
    TOutput(const TroubleP& tr, const IndexOutputPtr& out) : t(tr), o(out) {}
    LUCENE_CLASS(TOutput);
    virtual void writeByte(uint8_t b) { if (t->failPermille.load(std::memory_order_relaxed) && t->rng().oneIn(64)) t->op("write"); o->writeByte(b); }
    virtual void writeBytes(const uint8_t* b, int32_t off, int32_t len) { t->op("write"); o->writeBytes(b, off, len); }
    virtual void flush() { o->flush(); }
    virtual void close() { o->close(); t->op("close"); }
    virtual int64_t getFilePointer() { return o->getFilePointer(); }
    virtual void seek(int64_t p) { o->seek(p); }
    virtual int64_t length() { return o->length(); }
};
class TDir : public Directory {
public:
    TroubleP t; DirectoryPtr d;
    TDir(const TroubleP& tr, const DirectoryPtr& dir) : t(tr), d(dir) { setLockFactory(newLucene<SingleInstanceLockFactory>()); }
    LUCENE_CLASS(TDir);
    virtual HashSet<String> listAll() { return d->listAll(); }
    virtual bool fileExists(const String& n) { return d->fileExists(n); }
    virtual uint64_t fileModified(const String& n) { return d->fileModified(n); }
    virtual void touchFile(const String& n) { d->touchFile(n); }
    // (a half written segments file whose deletion fails for good is left out: a writer refuses such an index)
    virtual void deleteFile(const String& n) { if (n.compare(0, 9, L"segments_") != 0) t->op("delete"); d->deleteFile(n); }
    virtual int64_t fileLength(const String& n) { return d->fileLength(n); }
    virtual IndexOutputPtr createOutput(const String& n) { t->op("create"); return newLucene<TOutput>(t, d->createOutput(n)); }
    virtual void sync(const String& n) { t->op("sync"); d->sync(n); }
    virtual IndexInputPtr openInput(const String& n) { t->delay(); return d->openInput(n); }
    virtual IndexInputPtr openInput(const String& n, int32_t b) { t->delay(); return d->openInput(n, b); }
    virtual void close() { isOpen = false; }
    virtual String getLockID() { return L"verif-tdir"; }
};

// ---- what threads record
struct OpRec { char kind; int id, uid; uint64_t start, end; bool ok, maybe; };  // kind: a add, u update, d delete; maybe: failed, so it may or may not have happened
struct Snap { std::string label; uint64_t t0, t1; std::vector<int> uids; bool full = false; Dump dump; };
struct Log {
    std::vector<OpRec> ops;
    std::vector<Snap> snaps;
    std::vector<DocM> docs;
    Counts counts;
    std::string violationKey, violationMsg;
    std::vector<std::string> said;
};
std::atomic<uint64_t> theClock{1};
uint64_t now() { return theClock.fetch_add(1, std::memory_order_relaxed); }

int taskCount() {
    int n = 0;
    DIR* d = opendir("/proc/self/task");
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n;
    closedir(d);
    return n;
}
// how many threads more than before are left once the dying ones have had time to end
int threadsLeft(int before) {
    int n = 0;
    for (int i = 0; i < 3000; ++i) { n = taskCount() - before; if (n <= 0) return 0; usleep(1000); }
    return n;
}

Snap snapshot(const IndexReaderPtr& rd, const Schema& s, const std::string& label, uint64_t t0, uint64_t t1, bool full) {
    Snap sn;
    sn.label = label; sn.t0 = t0; sn.t1 = t1; sn.full = full;
    for (int u : uidsOf(rd)) if (u >= 0) sn.uids.push_back(u);
    VF_CHECK((int)sn.uids.size() == rd->numDocs(), label + ".numDocs", fmt("%d live documents, numDocs %d", (int)sn.uids.size(), rd->numDocs()));
    if (full) sn.dump = dumpFor(rd, s, label);
    return sn;
}

struct History {
    std::vector<OpRec> ops;
    std::map<int, std::vector<const OpRec*>> byId;
    std::map<int, const OpRec*> creator;
    std::map<int, const DocM*> docs;
    void collect(std::vector<Log>& logs) {
        for (auto& l : logs) ops.insert(ops.end(), l.ops.begin(), l.ops.end());
        for (auto& o : ops) { byId[o.id].push_back(&o); if (o.kind != 'd') creator[o.uid] = &o; }
        for (auto& l : logs) for (auto& d : l.docs) docs[d.uid] = &d;
    }
    static std::string show(const OpRec& o) { return fmt("%c id=%d uid=%d [%llu,%llu]%s", o.kind, o.id, o.uid, (unsigned long long)o.start, (unsigned long long)o.end, o.ok ? "" : o.maybe ? " maybe" : " failed"); }
    std::string about(int id) { std::string s; for (auto* o : byId[id]) s += "  " + show(*o) + "\n"; return s; }
    void check(const Snap& sn, const Schema& s, const std::string& key, bool faults = false) {
        std::set<int> seen;
        std::map<int, int> perId;
        std::string when = fmt(" in %s [%llu,%llu]\n", sn.label.c_str(), (unsigned long long)sn.t0, (unsigned long long)sn.t1);
        for (int u : sn.uids) {
            VF_CHECK(seen.insert(u).second, key + ".twice", fmt("document uid=%d found twice", u) + when);
            auto it = creator.find(u);
            VF_CHECK(it != creator.end(), key + ".unknown", fmt("document uid=%d was never added", u) + when);
            const OpRec& a = *it->second;
            VF_CHECK(a.ok || a.maybe, key + ".failedAdd", fmt("document uid=%d, whose addition failed, is there", u) + when + about(a.id));
            VF_CHECK(a.start < sn.t1, key + ".future", fmt("document uid=%d is visible before it was added", u) + when + about(a.id));
            for (auto* b : byId[a.id])
                if (b != &a && b->ok && b->kind != 'a' && b->start > a.end && b->end < sn.t0) fail(key + ".notDeleted", fmt("document uid=%d is visible though deleted by ", u) + show(*b) + when + about(a.id));
            if (a.kind == 'u' && !faults) { VF_CHECK(++perId[a.id] == 1, key + ".duplicate", fmt("two versions of id %d are visible", a.id) + when + about(a.id)); }
        }
        int64_t certain = 0;
        for (auto& a : ops) {
            if (a.kind == 'd' || !a.ok || a.end >= sn.t0) continue;
            ++certain;
            if (seen.count(a.uid)) continue;
            bool gone = false;
            for (auto* b : byId[a.id]) if (b != &a && b->kind != 'a' && (b->ok || b->maybe) && b->end > a.start && b->start < sn.t1) gone = true;
            VF_CHECK(gone, key + ".lost", fmt("document uid=%d is missing", a.uid) + when + about(a.id));
        }
        // an update replaces: one version or the next is always there
        for (auto& kv : byId) {
            bool must = false;
            for (auto* a : kv.second) if (a->kind == 'u' && a->ok && a->end < sn.t0) must = true;
            if (!must) continue;
            bool visible = false, deleted = false;
            for (auto* o : kv.second) {
                if (o->kind == 'd' && o->start < sn.t1) deleted = true;
                if (o->kind != 'd' && seen.count(o->uid)) visible = true;
            }
            if (deleted) continue;
            VF_CHECK(visible, key + ".torn", fmt("no version of id %d is visible, though it was only updated", kv.first) + when + about(kv.first));
            count("updates_atomic");
        }
        if (sn.full) {
            std::vector<const DocM*> list;
            for (int u : sn.uids) list.push_back(docs[u]);
            compareDumps(sn.dump, expectedDump(list, s.opts), key + ".content", when);
            count("full_contents");
        }
        count("snapshots");
        count("acknowledged_ops_checked", certain);
        Hash h;
        for (int u : sn.uids) h.add((uint64_t)u);
        sig(h.h);
    }
};

template <class F> void inThread(Log& l, F f) {
    try {
        f();
    } catch (Violation& v) {
        l.violationKey = v.key; l.violationMsg = v.msg;
    } catch (LuceneException& e) {
        l.violationKey = "threads.exception.lucene." + luceneType(e); l.violationMsg = what(e);
    } catch (std::exception& e) {
        l.violationKey = "threads.exception.std." + exType(typeid(e)); l.violationMsg = e.what();
    }
}
void settle(std::vector<Log>& logs) {
    for (auto& l : logs) for (auto& kv : l.counts) count(kv.first, kv.second);
    for (size_t i = 0; i < logs.size(); ++i)
        if (!logs[i].violationKey.empty()) {
            std::string said;
            for (auto& x : logs[i].said) said += x + "\n";
            fail(logs[i].violationKey, fmt("in thread %zu: ", i) + logs[i].violationMsg + "\n" + said);
        }
}

class Warmer : public IndexReaderWarmer {
public:
    std::atomic<int> warmed{0};
    LUCENE_CLASS(Warmer);
    virtual void warm(const IndexReaderPtr& rd) {
        int live = 0;
        for (int i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) { rd->document(i); ++live; }
        if (live) warmed.fetch_add(1, std::memory_order_relaxed);
    }
};
typedef boost::shared_ptr<Warmer> WarmerPtr;

bool expectedTrouble(int type) {
    switch (type) {
    case LuceneException::AlreadyClosed: case LuceneException::IO: case LuceneException::FileNotFound: case LuceneException::CorruptIndex: case LuceneException::Merge:
    case LuceneException::MergeAborted: case LuceneException::IllegalState: case LuceneException::LockObtainFailed: case LuceneException::StaleReader: case LuceneException::Runtime:
        return true;
    default: return false;
    }
}

struct Shared {
    Case& c;
    Schema s;
    DirectoryPtr dir;
    TroubleP trouble = std::make_shared<Trouble>();
    ModelAnalyzerPtr an;
    WriterCfg cfg;
    IndexWriterPtr w;
    int nThreads, sharedIds;
    std::vector<Log> logs;
    Shared(Case& cs, bool wrap) : c(cs), s(makeSchema(cs.rng)) {
        Rng& r = c.rng;
        s.opts.maxFieldLength = 0x7fffffff;
        dir = makeDir(r, c);
        if (wrap) { dir = newLucene<TDir>(trouble, dir); trouble->seed = r.next(); if (r.oneIn(2)) trouble->delayPct = (int)r.pick({3, 10, 40}); }
        an = newLucene<ModelAnalyzer>(s.opts.posGap, s.opts.offGap);
        cfg = makeCfg(r);
        cfg.scheduler = r.oneIn(4) ? 0 : 1;
        open();
        nThreads = (int)r.range(2, r.oneIn(5) ? 12 : 6);
        sharedIds = (int)r.range(1, 8);
        logs.resize((size_t)nThreads);
    }
    void open() {
        w = newLucene<IndexWriter>(dir, an, true, IndexWriter::MaxFieldLengthUNLIMITED);
        applyCfg(w, cfg);
        if (cfg.scheduler == 1) {
            ConcurrentMergeSchedulerPtr ms = boost::dynamic_pointer_cast<ConcurrentMergeScheduler>(w->getMergeScheduler());
            if (ms) ms->setMaxThreadCount((int)c.rng.range(1, 3));
        }
        c.log << "dir " << cfg.str() << " threads\n";
    }
};

struct Worker {
    Shared& sh;
    Log& l;
    Rng r;
    int me, n = 0, uidBase;
    bool faulty;
    Worker(Shared& s, int i, uint64_t seed, bool f) : sh(s), l(s.logs[(size_t)i]), r(seed), me(i), uidBase(i * 100000), faulty(f) {}
    template <class F> bool attempt(OpRec& o, F f) {
        o.start = now();
        o.ok = o.maybe = false;
        try {
            f();
            o.ok = true;
        } catch (LuceneException& e) {
            if (!faulty) throw;
            if (!expectedTrouble((int)e.getType())) throw;
            o.maybe = true;
            ++l.counts["failed_calls"];
        }
        o.end = now();
        tick();
        l.ops.push_back(o);
        return o.ok;
    }
    void docOp() {
        bool shared = r.oneIn(3);
        bool keep = r.oneIn(4);  // these are updated only
        int id = shared ? (int)r.below((uint64_t)sh.sharedIds) : 1000 * (me + 1) + (int)r.below(12);
        if (keep) id = shared ? 100 : 1000 * (me + 1) + 100;
        int k = (int)r.below(shared ? 4 : 6);
        if (keep) k = 2;
        OpRec o{};
        o.id = id;
        o.uid = -1;
        if (shared && k == 3) k = 5;
        if (!shared && k == 0 && r.oneIn(6)) { poison(); return; }
        if (k <= 3) {
            o.uid = uidBase + n++;
            o.kind = shared || k >= 2 ? 'u' : 'a';
            if (o.kind == 'a') o.id = 1000 * (me + 1) + 500 + n;  // added once: never two
            DocM d = makeDoc(r, sh.s, o.uid, o.id);
            DocumentPtr doc = toDocument(d);
            l.docs.push_back(std::move(d));
            if (o.kind == 'a') attempt(o, [&] { sh.w->addDocument(doc); });
            else attempt(o, [&] { sh.w->updateDocument(T(L"id", idOf(o.id)), doc); });
            ++l.counts[o.kind == 'a' ? "adds" : "updates"];
        } else {
            o.kind = 'd';
            if (!shared && r.oneIn(2) && n) o.id = 1000 * (me + 1) + 500 + (int)r.range(1, n);
            int how = (int)r.below(3);
            attempt(o, [&] {
                if (how == 0) sh.w->deleteDocuments(T(L"id", idOf(o.id)));
                else if (how == 1) sh.w->deleteDocuments(newLucene<TermQuery>(T(L"id", idOf(o.id))));
                else { Collection<TermPtr> ts = Collection<TermPtr>::newInstance(); ts.add(T(L"id", idOf(o.id))); ts.add(T(L"id", L"nothing")); sh.w->deleteDocuments(ts); }
            });
            ++l.counts["deletes"];
        }
    }
    void poison() {
        OpRec o{};
        o.kind = 'a'; o.id = 1000 * (me + 1) + 900; o.uid = uidBase + n++;
        DocM d = makeDoc(r, sh.s, o.uid, o.id);
        DocumentPtr doc = toDocument(d);
        std::vector<Tok> toks;
        int k = (int)r.range(1, 6);
        for (int i = 0; i < k; ++i) { Tok t; t.term = sh.s.vocab[(size_t)r.below(sh.s.vocab.size())]; t.start = i; t.end = i + 1; toks.push_back(t); }
        TokenStreamPtr ts = newLucene<ModelStream>(toks, k, (int)r.below((uint64_t)k));
        FieldPtr bad = newLucene<Field>(r.pick({L"body", L"aaa", L"zzz", L"title"}), ts, r.oneIn(2) ? AbstractField::TERM_VECTOR_NO : AbstractField::TERM_VECTOR_WITH_POSITIONS_OFFSETS);
        bad->setOmitNorms(true);
        doc->add(bad);
        o.start = now();
        bool threw = false;
        try { sh.w->addDocument(doc); } catch (IOException&) { threw = true; } catch (AlreadyClosedException&) { if (!faulty) throw; threw = true; }
        o.end = now();
        VF_CHECK(threw, "writers.poison", "a failing token stream was not reported by addDocument");
        l.ops.push_back(o);  // neither ok nor maybe: must never be seen
        tick();
        ++l.counts["poisoned"];
    }
    void look() {
        // a near-real-time reader, and what becomes of it
        uint64_t t0 = now();
        IndexReaderPtr rd = sh.w->getReader();
        uint64_t t1 = now();
        bool full = r.oneIn(3);
        l.snaps.push_back(snapshot(rd, sh.s, "writers.nrt", t0, t1, full));
        ++l.counts["nrt_readers"];
        if (r.oneIn(2)) {
            if (r.oneIn(2)) docOp();
            uint64_t t2 = now();
            IndexReaderPtr nr = rd->reopen();
            uint64_t t3 = now();
            l.snaps.push_back(snapshot(nr, sh.s, "writers.nrtReopened", t2, t3, r.oneIn(3)));
            if (full) {
                Dump again = dumpFor(rd, sh.s, "writers.snapshotAgain");
                compareDumps(again, l.snaps[l.snaps.size() - 2].dump, "writers.snapshotChanged", "an open reader changed");
            }
            ++l.counts["nrt_reopens"];
            if (nr != rd) nr->close();
        }
        rd->close();
        tick();
    }
    std::vector<std::pair<uint64_t, uint64_t>> commits;
    void commit() {
        uint64_t t0 = now();
        sh.w->commit();
        commits.push_back({t0, now()});
        ++l.counts["commits"];
        if (r.oneIn(2)) {
            IndexReaderPtr rd = IndexReader::open(sh.dir, true);
            uint64_t t1 = now();
            l.snaps.push_back(snapshot(rd, sh.s, "writers.committed", t0, t1, r.oneIn(3)));
            rd->close();
        }
        tick();
    }
    void maintain() {
        switch (r.below(5)) {
        case 0: sh.w->optimize((int)r.range(1, 4), r.oneIn(2)); ++l.counts["optimizes"]; break;
        case 1: sh.w->expungeDeletes(r.oneIn(2)); ++l.counts["expunges"]; break;
        case 2: sh.w->maybeMerge(); break;
        case 3: sh.w->waitForMerges(); break;
        default: sh.w->numDocs(); sh.w->maxDoc(); sh.w->ramSizeInBytes(); sh.w->numRamDocs(); sh.w->hasDeletions(); break;
        }
        tick();
    }
};
}

VF_MODE(writers) {
    int before = taskCount();
    Shared sh(c, c.rng.oneIn(2));
    Rng& r = c.rng;
    WarmerPtr warmer;
    if (r.oneIn(3)) { warmer = newLucene<Warmer>(); sh.w->setMergedSegmentWarmer(warmer); }
    int steps = (int)r.range(10, r.oneIn(4) ? 120 : 50);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < sh.nThreads; ++i) seeds.push_back(r.next());
    std::vector<std::unique_ptr<Worker>> ws_;
    for (int i = 0; i < sh.nThreads; ++i) ws_.emplace_back(new Worker(sh, i, seeds[(size_t)i], false));
    int lookPct = (int)r.pick({3, 10, 25}), commitPct = (int)r.pick({0, 3, 10}), maintPct = (int)r.pick({0, 3, 8});
    std::vector<std::thread> ts;
    for (int i = 0; i < sh.nThreads; ++i)
        ts.emplace_back([&, i] {
            Worker& k = *ws_[(size_t)i];
            inThread(k.l, [&] {
                for (int j = 0; j < steps; ++j) {
                    if (k.r.chance(lookPct)) k.look();
                    else if (k.r.chance(commitPct)) k.commit();
                    else if (k.r.chance(maintPct)) k.maintain();
                    else k.docOp();
                }
            });
        });
    for (auto& t : ts) t.join();
    settle(sh.logs);
    History h;
    h.collect(sh.logs);
    for (auto& l : sh.logs) for (auto& sn : l.snaps) h.check(sn, sh.s, sn.label);
    int end = (int)r.below(4);
    uint64_t t0 = now();
    if (end == 0) {
        uint64_t lo = 0, hi = 0;
        for (auto& k : ws_) for (auto& cm : k->commits) { lo = std::max(lo, cm.first); hi = std::max(hi, cm.second); }
        sh.w->rollback();
        IndexReaderPtr rd = IndexReader::open(sh.dir, true);
        h.check(snapshot(rd, sh.s, "writers.rolledBack", lo, hi, true), sh.s, "writers.rolledBack");
        rd->close();
        count("rollbacks");
    } else {
        if (end == 1) sh.w->close(false);
        else sh.w->close();
        IndexReaderPtr rd = IndexReader::open(sh.dir, true);
        h.check(snapshot(rd, sh.s, "writers.final", t0, now(), true), sh.s, "writers.final");
        rd->close();
    }
    sh.w.reset();
    checkIndexClean(sh.dir, "writers.final");
    int left = threadsLeft(before);
    VF_CHECK(left == 0, "writers.threadsLeft", fmt("%d threads are left after close", left));
    if (warmer) count("warmed", warmer->warmed.load());
    count("threads", sh.nThreads);
    maxi("threads", sh.nThreads);
    if (wantSample()) sample(c.log.str() + fmt("%d threads, %zu operations", sh.nThreads, h.ops.size()));
}

// Everything returns: merges that fail or are aborted, slow and failing directories, close and rollback from any thread.
VF_MODE(progress) {
    int before = taskCount();
    Shared sh(c, true);
    Rng& r = c.rng;
    int steps = (int)r.range(10, r.oneIn(4) ? 100 : 40);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < sh.nThreads; ++i) seeds.push_back(r.next());
    std::vector<std::unique_ptr<Worker>> ws_;
    for (int i = 0; i < sh.nThreads; ++i) ws_.emplace_back(new Worker(sh, i, seeds[(size_t)i], true));
    sh.w->commit();
    bool faults = r.oneIn(2);
    int faultLevel = (int)r.pick({2, 10, 50, 200, 1000});
    int ender = (int)r.below((uint64_t)sh.nThreads + 1);  // this thread ends the writer at some moment (the last: none does)
    int enders = r.oneIn(4) ? 2 : 1;
    int how = (int)r.below(4);
    bool ended = ender < sh.nThreads;
    std::vector<std::thread> ts;
    std::atomic<int> closed{0};
    for (int i = 0; i < sh.nThreads; ++i)
        ts.emplace_back([&, i] {
            Worker& k = *ws_[(size_t)i];
            inThread(k.l, [&] {
                int endAt = (i == ender || (enders == 2 && ender < sh.nThreads && i == (ender + 1) % sh.nThreads)) ? (int)k.r.range(0, steps) : -1;
                for (int j = 0; j < steps; ++j) {
                    try {
                        if (faults && k.r.oneIn(20)) { sh.trouble->failPermille = k.r.oneIn(2) ? 0 : faultLevel; }
                        if (j == endAt) {
                            ++k.l.counts["ends"];
                            for (int tries = 0; tries < 20; ++tries) {
                                try {
                                    if (how == 0) sh.w->rollback();
                                    else sh.w->close(how != 1);
                                    closed = 1;
                                    break;
                                } catch (LuceneException& e) {
                                    if (!expectedTrouble((int)e.getType())) throw;
                                    ++k.l.counts["failed_ends"];
                                }
                            }
                        } else if (k.r.chance(6)) { sh.w->getReader()->close(); ++k.l.counts["nrt_readers"]; }
                        else if (k.r.chance(8)) { sh.w->commit(); ++k.l.counts["commits"]; }
                        else if (k.r.chance(10)) k.maintain();
                        else k.docOp();
                    } catch (LuceneException& e) {
                        if (!expectedTrouble((int)e.getType())) throw;
                        ++k.l.counts["failed_calls"];
                    }
                    tick();
                }
            });
        });
    for (auto& t : ts) t.join();
    count("injected_failures", (int64_t)sh.trouble->failures.load());
    sh.trouble->failPermille = 0;
    settle(sh.logs);
    // with the trouble gone the writer closes, or refuses because it is closed already
    try { sh.w->close(); } catch (AlreadyClosedException&) {} catch (LuceneException& e) {
        if (!expectedTrouble((int)e.getType())) throw;
        count("failed_last_close");
        try { sh.w->rollback(); } catch (AlreadyClosedException&) {}
    }
    sh.w.reset();
    int left = threadsLeft(before);
    VF_CHECK(left == 0, "progress.threadsLeft", fmt("%d threads are left after close", left));
    checkIndexClean(sh.dir, "progress.final");
    // a new writer goes on from there
    IndexWriterPtr w2 = newLucene<IndexWriter>(sh.dir, sh.an, false, IndexWriter::MaxFieldLengthUNLIMITED);
    applyCfg(w2, sh.cfg);
    int before2 = w2->numDocs();
    w2->addDocument(toDocument(makeDoc(r, sh.s, 7777777, 7)));
    w2->close();
    IndexReaderPtr rd = IndexReader::open(sh.dir, true);
    VF_CHECK(rd->numDocs() == before2 + 1, "progress.goOn", fmt("%d documents after adding one to %d", rd->numDocs(), before2));
    History h;
    h.collect(sh.logs);
    // nothing unknown, nothing twice, nothing of a failed document
    uint64_t end = now();
    Snap sn = snapshot(rd, sh.s, "progress.final", 0, end, false);
    std::vector<int> u;
    for (int x : sn.uids) if (x != 7777777) u.push_back(x);
    sn.uids = u;
    h.check(sn, sh.s, "progress.final", faults);  // a failure may keep a document whose deletion of its predecessor was lost
    rd->close();
    if (ended) count("ended_while_busy");
    count("threads", sh.nThreads);
    maxi("threads", sh.nThreads);
    Hash hs;
    for (auto& o : h.ops) hs.add((uint64_t)o.id * 4 + (uint64_t)o.kind).add((uint64_t)o.ok);
    sig(hs.h);
    if (wantSample()) sample(c.log.str() + fmt("%d threads, %zu operations", sh.nThreads, h.ops.size()));
}

// Threads that share a reader, its searcher, caching filters, the field cache, clones and reopened readers get the answers one thread gets.
VF_MODE(sharing) {
    int before = taskCount();
    {
    Corpus co(c);
    Rng& r = c.rng;
    co.noCustom = true;
    int n = (int)r.range(5, 60);
    co.generate(n);
    int kind = 0;
    DirectoryPtr dir = makeDir(r, c, &kind);
    {
        IndexWriterPtr w = co.writer(dir);
        for (int i = 0; i < n; ++i) { w->addDocument(co.lib(co.docs[(size_t)i])); if (r.oneIn(9)) w->commit(); }
        for (int i = 0; i < n / 8; ++i) w->deleteDocuments(newLucene<Term>(L"uid", std::to_wstring(r.below((uint64_t)n))));
        w->close();
    }
    // what one thread sees, with a reader of its own
    struct Want { QueryPtr q; std::map<int, double> hits; std::string s; };
    std::vector<Want> wants;
    std::vector<int> uids;
    std::vector<std::string> stored;
    Dump dump;
    IndexReaderPtr alone = IndexReader::open(dir, true);
    uids = uidsOf(alone);
    dump = dumpReader(alone, "sharing.alone");
    {
        IndexSearcherPtr is = newLucene<IndexSearcher>(alone);
        int nq = (int)r.range(3, 10);
        for (int i = 0; i < nq; ++i) {
            RQP q = co.query((int)r.below(3));
            Want w;
            w.q = q->make();
            w.s = q->str();
            AllCollectorPtr col = newLucene<AllCollector>(true);
            is->search(w.q, col);
            for (auto& h : col->hits) w.hits[h.doc] = h.score;
            wants.push_back(w);
        }
    }
    // shared
    bool readOnly = r.oneIn(2);
    IndexReaderPtr rd = IndexReader::open(dir, readOnly);
    IndexSearcherPtr is = newLucene<IndexSearcher>(rd);
    std::vector<FilterPtr> filters;
    for (size_t i = 0; i < wants.size(); ++i) {
        FilterPtr inner = newLucene<QueryWrapperFilter>(wants[i].q);
        filters.push_back(r.oneIn(2) ? (FilterPtr)newLucene<CachingWrapperFilter>(inner, r.oneIn(2) ? CachingWrapperFilter::DELETES_IGNORE : CachingWrapperFilter::DELETES_RECACHE) : inner);
    }
    FilterManagerPtr fm = FilterManager::getInstance();
    if (r.oneIn(2)) FieldCache::DEFAULT()->purgeAllCaches();
    int nt = (int)r.range(2, r.oneIn(4) ? 10 : 6), steps = (int)r.range(5, 30);
    std::vector<Log> logs((size_t)nt);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
    bool together = r.oneIn(3);  // all start with the same step: first use races
    int firstStep = (int)r.below(9);
    size_t firstQ = (size_t)r.below(wants.size());
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i)
        ts.emplace_back([&, i] {
            Log& l = logs[(size_t)i];
            Rng tr(seeds[(size_t)i]);
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
            inThread(l, [&] {
                for (int j = 0; j < steps; ++j) {
                    int what = together && j == 0 ? firstStep : (int)tr.below(11);
                    size_t qi = together && j == 0 ? firstQ : (size_t)tr.below(wants.size());
                    Want& w = wants[qi];
                    auto same = [&](const std::vector<Hit>& hits, bool score, const char* k) {
                        if (hits.size() != w.hits.size()) fail(std::string("sharing.") + k, fmt("%zu hits, one thread found %zu: ", hits.size(), w.hits.size()) + w.s);
                        for (auto& h : hits) {
                            auto it = w.hits.find(h.doc);
                            if (it == w.hits.end() || (score && !near(it->second, h.score))) fail(std::string("sharing.") + k, fmt("document %d: ", h.doc) + w.s);
                        }
                        ++l.counts["shared_searches"];
                    };
                    switch (what) {
                    case 0: { AllCollectorPtr col = newLucene<AllCollector>(true); is->search(w.q, col); same(col->hits, true, "collector"); break; }
                    case 1: {
                        TopDocsPtr t = is->search(w.q, FilterPtr(), std::max(1, n));
                        std::vector<Hit> h;
                        for (int32_t k = 0; k < t->scoreDocs.size(); ++k) h.push_back({t->scoreDocs[k]->doc, t->scoreDocs[k]->score});
                        same(h, true, "topdocs");
                        break;
                    }
                    case 2: { AllCollectorPtr col = newLucene<AllCollector>(true, false); is->search(newLucene<MatchAllDocsQuery>(), filters[qi], col); same(col->hits, false, "filter"); ++l.counts["shared_filters"]; break; }
                    case 3: {
                        // field cache through a sort and directly
                        TopFieldDocsPtr t = is->search(w.q, FilterPtr(), std::max(1, n), newLucene<Sort>(newLucene<SortField>(L"uid", SortField::INT, tr.oneIn(2))));
                        std::vector<Hit> h;
                        for (int32_t k = 0; k < t->scoreDocs.size(); ++k) h.push_back({t->scoreDocs[k]->doc, 0});
                        same(h, false, "sort");
                        Collection<int32_t> v = FieldCache::DEFAULT()->getInts(rd, L"uid");
                        for (size_t k = 0; k < uids.size(); ++k) if (uids[k] >= 0) VF_CHECK(v[(int32_t)k] == uids[k], "sharing.fieldcache", "");
                        StringIndexPtr si = FieldCache::DEFAULT()->getStringIndex(rd, L"uid");
                        for (size_t k = 0; k < uids.size(); ++k) if (uids[k] >= 0) VF_CHECK(si->lookup[si->order[(int32_t)k]] == std::to_wstring(uids[k]), "sharing.stringindex", "");
                        ++l.counts["shared_caches"];
                        break;
                    }
                    case 4: { Dump d = dumpReader(rd, "sharing.dump"); compareDumps(d, dump, "sharing.dump", "shared reader"); ++l.counts["shared_dumps"]; break; }
                    case 5: {
                        for (int k = 0; k < 10; ++k) {
                            int d = (int)tr.below((uint64_t)n);
                            if (d >= rd->maxDoc() || rd->isDeleted(d)) continue;
                            VF_CHECK(rd->document(d)->get(L"uid") == std::to_wstring(uids[(size_t)d]), "sharing.stored", "");
                        }
                        break;
                    }
                    case 6: {
                        IndexReaderPtr cl = readOnly || tr.oneIn(2) ? boost::dynamic_pointer_cast<IndexReader>(rd->clone(true)) : rd->reopen();
                        VF_CHECK(cl->numDocs() == rd->numDocs(), "sharing.clone", "");
                        for (int k = 0; k < rd->maxDoc(); ++k) if (!cl->isDeleted(k)) { cl->document(k); break; }
                        IndexSearcherPtr cs = newLucene<IndexSearcher>(cl);
                        AllCollectorPtr col = newLucene<AllCollector>(true);
                        cs->search(w.q, col);
                        same(col->hits, true, "clone");
                        if (cl != rd) cl->close();
                        ++l.counts["clones"];
                        break;
                    }
                    case 7: {
                        IndexReaderPtr own = IndexReader::open(dir, true);
                        IndexSearcherPtr cs = newLucene<IndexSearcher>(own);
                        AllCollectorPtr col = newLucene<AllCollector>(true);
                        cs->search(w.q, col);
                        same(col->hits, true, "own");
                        own->close();
                        ++l.counts["own_readers"];
                        break;
                    }
                    case 8: {
                        rd->incRef();
                        FilterPtr f = fm->getFilter(newLucene<CachingWrapperFilter>(newLucene<QueryWrapperFilter>(w.q)));
                        VF_CHECK((bool)f->getDocIdSet(rd->getSequentialSubReaders() ? rd->getSequentialSubReaders()[0] : rd), "sharing.manager", "");
                        rd->decRef();
                        break;
                    }
                    case 9: {
                        HashSet<String> fl = dir->listAll();
                        for (HashSet<String>::iterator f = fl.begin(); f != fl.end(); ++f) { if ((*f)[0] == L'x') continue; VF_CHECK(dir->fileExists(*f), "sharing.exists", ""); IndexInputPtr in = dir->openInput(*f); if (in->length()) in->readByte(); in->close(); dir->fileModified(*f); }
                        ++l.counts["listings"];
                        break;
                    }
                    default: {
                        IndexOutputPtr o = dir->createOutput(L"x" + std::to_wstring(i) + L".tmp");
                        int len = (int)tr.below(3000);
                        for (int k = 0; k < len; ++k) o->writeByte((uint8_t)(k * 7 + i));
                        o->close();
                        IndexInputPtr in = dir->openInput(L"x" + std::to_wstring(i) + L".tmp");
                        VF_CHECK(in->length() == len, "sharing.file", "");
                        for (int k = 0; k < len; ++k) VF_CHECK(in->readByte() == (uint8_t)(k * 7 + i), "sharing.file", "");
                        in->close();
                        dir->deleteFile(L"x" + std::to_wstring(i) + L".tmp");
                        ++l.counts["files"];
                        break;
                    }
                    }
                    tick();
                }
            });
        });
    for (auto& t : ts) t.join();
    settle(logs);
    is->close();
    rd->close();
    alone->close();
    count("threads", nt);
    maxi("threads", nt);
    Hash h;
    for (auto& w : wants) h.add(w.s);
    sig(h.h);
    if (wantSample()) sample(fmt("%d threads, %d documents, %zu queries, %s directory", nt, n, wants.size(), kind ? "file" : "RAM"));
    }
    (void)before;
}

VF_MAIN
