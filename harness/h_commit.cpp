// Two-phase commits and rollback (C24), life of index files (C09), merges and their policy (C29).
#include "world.h"
#include "recdir.h"
#include "IndexCommit.h"
#include "IndexDeletionPolicy.h"
#include "KeepOnlyLastCommitDeletionPolicy.h"
#include "SnapshotDeletionPolicy.h"
#include "MergePolicy.h"
#include "LogDocMergePolicy.h"
#include "LogByteSizeMergePolicy.h"
#include "SegmentInfos.h"
#include "SegmentInfo.h"
using namespace vf;

namespace {

typedef std::map<std::string, std::string> UD;
MapStringString udOf(const UD& u) {
    MapStringString m = MapStringString::newInstance();
    for (auto& kv : u) m.put(ws(kv.first), ws(kv.second));
    return m;
}
UD udFrom(MapStringString m) {
    UD u;
    if (m) for (MapStringString::iterator i = m.begin(); i != m.end(); ++i) u[u8(i->first)] = u8(i->second);
    return u;
}
std::string udStr(const UD& u) { std::string s = "{"; for (auto& kv : u) s += kv.first + "=" + kv.second + ","; return s + "}"; }

// keeps every commit
class KeepAll : public IndexDeletionPolicy {
public:
    virtual ~KeepAll() {}
    LUCENE_CLASS(KeepAll);
    virtual void onInit(Collection<IndexCommitPtr> commits) {}
    virtual void onCommit(Collection<IndexCommitPtr> commits) {}
};

struct CommitM { int64_t gen = 0, version = 0; std::vector<DocM> docs; UD ud; };

int64_t genOfName(const WS& n) { return n.size() > 9 ? (int64_t)wcstoll(n.c_str() + 9, 0, 36) : -1; }

bool sameDocs(const std::vector<DocM>& a, const std::vector<DocM>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].uid != b[i].uid) return false;
    return true;
}

struct TwoPhase : World {
    std::vector<CommitM> commitsOnDisk;
    bool prepared = false;
    std::vector<DocM> preparedDocs;
    UD preparedUD, writerUD;
    RecDirPtr rec;
    bool failNext = false;
    std::string failKind;

    TwoPhase(Case& c) : World(c, "twophase", true, c.rng.oneIn(3) ? -1 : 0) {
        if (r.oneIn(2)) { rec = newLucene<RecDir>(); dir = rec; dirKind = 9; }
        if (rec) rec->st->before = [this](const char* kind, const std::string& name) {
            if (failNext && failKind == kind && (failKind != "write" || name.compare(0, 8, "segments") == 0)) {
                failNext = false;
                boost::throw_exception(IOException(L"verif: injected failure"));
            }
        };
    }
    UD someUD() { UD u; int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) u["k" + std::to_string(r.below(4))] = "v" + std::to_string(r.below(1000)); return u; }
    CommitM* last() { return commitsOnDisk.empty() ? nullptr : &commitsOnDisk.back(); }

    void openAt(CommitM* cm) {
        cfg = makeCfg(r);
        int mfl = s.opts.maxFieldLength == 0x7fffffff ? IndexWriter::MaxFieldLengthUNLIMITED : s.opts.maxFieldLength;
        IndexDeletionPolicyPtr pol = newLucene<KeepAll>();
        if (cm) {
            IndexCommitPtr ic = find(*cm);
            w = newLucene<IndexWriter>(dir, an, pol, mfl, ic);
            pending = cm->docs;
            writerUD = last()->ud;  // counters and user data stay those of the latest commit
            say("open writer at generation " + std::to_string(cm->gen));
            count("opens_at_commit");
        } else {
            bool create = commitsOnDisk.empty();
            w = newLucene<IndexWriter>(dir, an, create, pol, mfl);
            if (last()) { pending = last()->docs; writerUD = last()->ud; }
            say("open writer");
        }
        applyCfg(w, cfg);
        committed = pending;
        prepared = false;
        count("writer_opens");
        if (commitsOnDisk.empty()) {
            // creating an index commits an empty one
            pending.clear();
            writerUD.clear();
            landed(pending, writerUD, "creation");
        }
    }
    static std::vector<IndexCommitPtr> listed(const DirectoryPtr& dir) {
        Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
        std::vector<IndexCommitPtr> v;
        for (int32_t i = 0; i < cs.size(); ++i) v.push_back(cs[i]);
        std::sort(v.begin(), v.end(), [](const IndexCommitPtr& a, const IndexCommitPtr& b) { return a->getGeneration() < b->getGeneration(); });
        return v;
    }
    ~TwoPhase() {
        if (rec) { std::lock_guard<std::recursive_mutex> l(rec->st->m); rec->st->before = nullptr; }
    }
    IndexCommitPtr find(const CommitM& cm) {
        Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
        for (int32_t i = 0; i < cs.size(); ++i) if (cs[i]->getGeneration() == cm.gen) return cs[i];
        fail(key + ".list.missing", fmt("commit of generation %lld is not listed", (long long)cm.gen));
    }
    // Nothing but the known commits may be seen by anyone.
    void checkDisk(const std::string& when) {
        if (commitsOnDisk.empty()) {
            VF_CHECK(!IndexReader::indexExists(dir), key + ".visible", "an index exists before the first commit, " + when);
            return;
        }
        IndexReaderPtr rd = IndexReader::open(dir, true);
        VF_EQ(genOfName(rd->getIndexCommit()->getSegmentsFileName()), last()->gen, key + ".newest", when);
        if (r.oneIn(2)) checkReader(rd, last()->docs, key + ".last", when);
        VF_EQ(rd->numDocs(), (int)last()->docs.size(), key + ".last.numDocs", when);
        VF_EQ(udStr(udFrom(rd->getCommitUserData())), udStr(last()->ud), key + ".userdata", when);
        VF_EQ(rd->getVersion(), last()->version, key + ".version", when);
        VF_EQ(udStr(udFrom(IndexReader::getCommitUserData(dir))), udStr(last()->ud), key + ".userdata.static", when);
        VF_EQ(IndexReader::getCurrentVersion(dir), last()->version, key + ".version.static", when);
        VF_CHECK(rd->isCurrent(), key + ".isCurrent", when);
        rd->close();
        count("disk_checks");
    }
    void checkList() {
        if (commitsOnDisk.empty()) return;
        std::vector<IndexCommitPtr> cs = listed(dir);
        std::string got, want;
        for (size_t i = 0; i < cs.size(); ++i) got += fmt("%lld/%lld", (long long)cs[i]->getGeneration(), (long long)cs[i]->getVersion()) + udStr(udFrom(cs[i]->getUserData())) + " ";
        for (auto& m : commitsOnDisk) want += fmt("%lld/%lld", (long long)m.gen, (long long)m.version) + udStr(m.ud) + " ";
        VF_EQ(got, want, key + ".list", "listCommits");
        for (size_t i = 1; i < commitsOnDisk.size(); ++i)
            VF_CHECK(commitsOnDisk[i].gen > commitsOnDisk[i - 1].gen && commitsOnDisk[i].version != commitsOnDisk[i - 1].version, key + ".order", "generation or version did not advance");
        int k = (int)r.below(commitsOnDisk.size());
        CommitM& m = commitsOnDisk[(size_t)k];
        IndexReaderPtr rd = IndexReader::open(cs[(size_t)k], true);
        checkReader(rd, m.docs, key + ".old", "commit of generation " + std::to_string(m.gen));
        VF_EQ(udStr(udFrom(rd->getCommitUserData())), udStr(m.ud), key + ".old.userdata", "");
        VF_EQ(rd->isOptimized(), cs[(size_t)k]->isOptimized(), key + ".old.optimized", "");
        VF_EQ(rd->isCurrent(), k + 1 == (int)commitsOnDisk.size(), key + ".old.isCurrent", "");
        rd->close();
        count("list_checks");
    }
    // After a call that may have written a commit: find out whether it did and what it must be.
    void landed(const std::vector<DocM>& docs, const UD& ud, const std::string& how) {
        bool exists = IndexReader::indexExists(dir);
        bool must = commitsOnDisk.empty() || !sameDocs(docs, last()->docs);
        if (!exists) { VF_CHECK(!must, key + ".commit.lost", how + ": no index after a commit"); return; }
        IndexReaderPtr rd = IndexReader::open(dir, true);
        int64_t g = genOfName(rd->getIndexCommit()->getSegmentsFileName());
        if (!commitsOnDisk.empty() && g == last()->gen) {
            VF_CHECK(!must, key + ".commit.lost", how + ": the commit left the old generation");
            rd->close();
            return;
        }
        VF_CHECK(commitsOnDisk.empty() || g > last()->gen, key + ".generation", how);
        CommitM m;
        m.gen = g;
        m.version = rd->getVersion();
        m.docs = docs;
        m.ud = ud;
        checkReader(rd, docs, key + ".commit", how);
        rd->close();
        commitsOnDisk.push_back(m);
        writerUD = ud;
        everCommitted = true;
        committed = docs;
        checkDisk(how);
        count("commits_landed");
    }
    void prepare() {
        UD u;
        bool withUD = r.oneIn(2);
        if (withUD) u = someUD();
        if (prepared) {
            bool surely = commitsOnDisk.empty() || !sameDocs(preparedDocs, last()->docs);
            try {
                w->prepareCommit();
                VF_CHECK(!surely, key + ".prepare.twice", "a second prepareCommit was accepted");
                preparedDocs = pending;
                preparedUD = writerUD;
            } catch (IllegalStateException&) { count("prepare_refused"); }
            say("prepare again");
            return;
        }
        if (withUD) w->prepareCommit(udOf(u)); else w->prepareCommit();
        say("prepare" + (withUD ? udStr(u) : std::string()));
        prepared = true;
        preparedDocs = pending;
        preparedUD = withUD ? u : writerUD;
        count("prepares");
        checkDisk("after prepareCommit");
    }
    void commitOp() {
        UD u;
        bool withUD = r.oneIn(2);
        if (withUD) u = someUD();
        bool was = prepared;
        std::vector<DocM> docs = was ? preparedDocs : pending;
        UD ud = was ? preparedUD : withUD ? u : writerUD;
        if (was && !(commitsOnDisk.empty() || !sameDocs(preparedDocs, last()->docs))) {
            // the preparation may have found nothing to do, then commit prepares afresh: make it unambiguous
            w->rollback();
            w.reset();
            prepared = false;
            say("rollback");
            checkDisk("after rollback");
            return;
        }
        if (withUD) w->commit(udOf(u)); else w->commit();
        prepared = false;
        say("commit" + udStr(ud));
        landed(docs, ud, was ? "commit of a prepared commit" : "commit");
        count("op_commit");
    }
    void rollbackOp() {
        w->rollback();
        w.reset();
        prepared = false;
        say("rollback");
        checkDisk("after rollback");
        checkList();
        count("op_rollback");
        // what is there afterwards is what a new writer starts with
        try { IndexWriterPtr x; } catch (...) {}
    }
    void closeOp() {
        if (prepared) { if (r.oneIn(2)) commitOp(); else rollbackOp(); if (!w) return; }
        w->close();
        w.reset();
        say("close");
        landed(pending, writerUD, "close");
        count("op_close");
    }
    void failedCommit() {
        // the commit fails while syncing or while writing the segments file
        if (prepared) return;
        bool surely = commitsOnDisk.empty() || !sameDocs(pending, last()->docs);
        if (!surely) return;
        failKind = r.oneIn(2) ? "sync" : "write";
        failNext = true;
        bool threw = false;
        bool viaPrepare = r.oneIn(2);
        try {
            if (viaPrepare) w->prepareCommit(); else w->commit();
        } catch (LuceneException&) { threw = true; }
        bool fired = !failNext;
        failNext = false;
        say(std::string("failing ") + (viaPrepare ? "prepare" : "commit") + " by " + failKind + (threw ? " threw" : " did not throw"));
        VF_EQ(threw, fired, key + ".failure.unreported", "injected failure in " + failKind);
        if (!threw) { if (viaPrepare) { prepared = true; preparedDocs = pending; preparedUD = writerUD; checkDisk("after prepareCommit"); } else landed(pending, writerUD, "commit"); return; }
        count("failed_commits");
        checkDisk("after failed commit");
        if (r.oneIn(2)) rollbackOp();
        else {
            // a failed attempt leaves the writer usable
            w->commit();
            say("commit again");
            landed(pending, writerUD, "commit after a failed one");
        }
    }
    void readerCommit() {
        // a reader opened on some commit deletes documents and commits
        if (commitsOnDisk.empty() || w) return;
        CommitM m = commitsOnDisk[(size_t)r.below(commitsOnDisk.size())];
        if (m.docs.empty()) return;
        IndexReaderPtr rd = IndexReader::open(find(m), newLucene<KeepAll>(), false);
        const DocM victim = m.docs[(size_t)r.below(m.docs.size())];
        int n = rd->deleteDocuments(T(L"uid", std::to_wstring(victim.uid)));
        VF_EQ(n, 1, key + ".reader.delete", "");
        checkDisk("reader with pending delete");
        std::vector<DocM> docs;
        for (auto& d : m.docs) if (d.uid != victim.uid) docs.push_back(d);
        UD u;
        bool withUD = r.oneIn(2);
        if (withUD) { u = someUD(); rd->commit(udOf(u)); } else rd->commit(MapStringString());
        rd->close();
        say("reader commit on generation " + std::to_string(m.gen) + " deleting uid " + std::to_string(victim.uid) + udStr(u));
        landed(docs, u, "reader commit");
        count("reader_commits");
    }
    void go() {
        int steps = (int)r.range(20, r.oneIn(4) ? 100 : 45);
        for (int i = 0; i < steps; ++i) {
            if (!w) {
                int k = (int)r.below(4);
                if (k == 0) { readerCommit(); checkList(); }
                if (!commitsOnDisk.empty() && r.oneIn(3)) openAt(&commitsOnDisk[(size_t)r.below(commitsOnDisk.size())]);
                else openAt(nullptr);
                continue;
            }
            int k = (int)r.below(100);
            if (k < 36) add();
            else if (k < 44) update();
            else if (k < 50) deleteTerm();
            else if (k < 53) deleteQuery();
            else if (k < 56) { w->optimize(); say("optimize"); }
            else if (k < 58) tune();
            else if (k < 62) checkNRT();
            else if (k < 72) prepare();
            else if (k < 83) commitOp();
            else if (k < 88) rollbackOp();
            else if (k < 92) closeOp();
            else if (k < 96 && rec) failedCommit();
            else { checkDisk("any time"); checkList(); }
        }
        if (w) { if (r.oneIn(2)) rollbackOp(); else closeOp(); }
        checkList();
        for (auto& m : commitsOnDisk) {
            IndexReaderPtr rd = IndexReader::open(find(m), true);
            checkReader(rd, m.docs, key + ".final", "commit of generation " + std::to_string(m.gen));
            rd->close();
        }
        maxi("commits_kept", (int64_t)commitsOnDisk.size());
    }
};

// ---- life of files

struct Ledger {
    struct C { std::string seg; std::set<std::string> files; std::map<std::string, uint64_t> hashes; bool kept = true; };
    RecStorePtr st;
    std::string key;
    std::map<std::string, C> commits;   // by segments file name
    std::string snapshot;
    std::string problem;
    int calls = 0;
    std::set<std::string> protectedFiles() {
        std::set<std::string> p;
        for (auto& kv : commits) if (kv.second.kept || kv.first == snapshot) p.insert(kv.second.files.begin(), kv.second.files.end());
        return p;
    }
    void note(const std::string& p) { if (problem.empty()) problem = p; }
    void seen(const IndexCommitPtr& ic) {
        std::string seg = u8(ic->getSegmentsFileName());
        HashSet<String> fs = ic->getFileNames();
        C c;
        c.seg = seg;
        for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) c.files.insert(u8(*f));
        if (!c.files.count(seg)) note("commit " + seg + " does not name its own segments file");
        for (auto& f : c.files) { uint64_t h = st->hashOf(f); if (!h) note("commit " + seg + " names missing file " + f); c.hashes[f] = h; }
        auto it = commits.find(seg);
        if (it == commits.end()) commits[seg] = c;
        else {
            if (it->second.files != c.files) note("the file list of commit " + seg + " changed");
            it->second.kept = true;
        }
    }
    void verifyHashes(const std::string& when) {
        for (auto& kv : commits) {
            if (!kv.second.kept && kv.first != snapshot) continue;
            for (auto& h : kv.second.hashes) {
                uint64_t now = st->hashOf(h.first);
                if (!now) note("file " + h.first + " of kept commit " + kv.first + " is gone (" + when + ")");
                else if (now != h.second) note("file " + h.first + " of kept commit " + kv.first + " was modified (" + when + ")");
            }
        }
    }
};
typedef std::shared_ptr<Ledger> LedgerPtr;

class TestPolicy : public IndexDeletionPolicy {
public:
    LedgerPtr led;
    Rng rng;
    int style;  // 0 keep all, 1 only last, 2 last two, 3 last four, 4 arbitrary but the last, 5 arbitrary (may drop the last at init)
    TestPolicy(const LedgerPtr& l, uint64_t seed, int st) : led(l), rng(seed), style(st) {}
    virtual ~TestPolicy() {}
    LUCENE_CLASS(TestPolicy);
    virtual void onInit(Collection<IndexCommitPtr> commits) { decide(commits, true); }
    virtual void onCommit(Collection<IndexCommitPtr> commits) { decide(commits, false); }
    void decide(Collection<IndexCommitPtr> commits, bool init) {
        std::lock_guard<std::recursive_mutex> l(led->st->m);
        ++led->calls;
        int n = commits.size();
        std::set<std::string> given;
        for (int i = 0; i < n; ++i) {
            if (i && commits[i - 1]->getGeneration() >= commits[i]->getGeneration()) led->note("policy was given commits out of order");
            led->seen(commits[i]);
            given.insert(u8(commits[i]->getSegmentsFileName()));
        }
        for (auto& kv : led->commits) if ((kv.second.kept || kv.first == led->snapshot) && !given.count(kv.first)) led->note("kept commit " + kv.first + " was not offered to the policy");
        for (int i = 0; i < n; ++i) {
            bool drop = false;
            int fromEnd = n - 1 - i;
            if (style == 1) drop = fromEnd >= 1;
            else if (style == 2) drop = fromEnd >= 2;
            else if (style == 3) drop = fromEnd >= 4;
            else if (style == 4) drop = fromEnd >= 1 && rng.oneIn(3);
            if (drop) {
                std::string seg = u8(commits[i]->getSegmentsFileName());
                led->commits[seg].kept = false;
                commits[i]->deleteCommit();
            }
        }
        // forget what nothing protects any more
        for (auto it = led->commits.begin(); it != led->commits.end();) { if (!it->second.kept && it->first != led->snapshot) it = led->commits.erase(it); else ++it; }
    }
};

struct Life : World {
    RecDirPtr rec;
    LedgerPtr led = std::make_shared<Ledger>();
    std::map<std::string, std::vector<DocM>> contents;  // by segments file
    SnapshotDeletionPolicyPtr snap;
    boost::shared_ptr<TestPolicy> pol;
    std::map<std::string, uint64_t> foreign;
    std::vector<std::pair<IndexReaderPtr, std::vector<DocM>>> held;
    Life(Case& c) : World(c, "lifecycle", true, 0) {
        rec = newLucene<RecDir>();
        rec->st->windows = false; (void)r.oneIn(4);
        dir = rec;
        dirKind = rec->st->windows ? 8 : 9;
        led->st = rec->st;
        for (const char* n : {"README", "x.tmp", "backup.zip", "segment", "_notes", "write.lck"}) {
            if (!r.oneIn(2)) continue;
            IndexOutputPtr o = dir->createOutput(ws(n));
            o->writeString(L"not yours");
            o->close();
            foreign[n] = rec->st->hashOf(n);
        }
        LedgerPtr l = led;
        std::set<std::string>* fs = new std::set<std::string>;
        for (auto& kv : foreign) fs->insert(kv.first);
        std::shared_ptr<std::set<std::string>> fsp(fs);
        RecStore* st = rec->st.get();
        rec->st->before = [l, fsp, st](const char* kind, const std::string& name) {
            bool del = !strcmp(kind, "delete"), cre = !strcmp(kind, "create");
            if (!del && !cre) return;
            if (fsp->count(name)) l->note(std::string(kind) + " of foreign file " + name);
            if (name == "segments.gen") return;
            for (auto& kv : l->commits)
                if ((kv.second.kept || kv.first == l->snapshot) && kv.second.files.count(name)) l->note(std::string(kind) + " of file " + name + " of kept commit " + kv.first);
            if (cre && st->files.count(name)) {
                // an index file is written once; what exists already may only be debris
                if (st->files[name]->inputs > 0) l->note("create over open file " + name);
                count("recreated_debris");
            }
        };
    }
    void ok() {
        if (!led->problem.empty()) fail(key + "." + cls(led->problem), led->problem);
        count("ledger_checks");
    }
    static std::string cls(const std::string& p) {
        std::string o;
        std::istringstream in(p);
        std::string t;
        int n = 0;
        while (in >> t && n < 7) { bool name = t.find('_') != std::string::npos || t.find('.') != std::string::npos; o += (n ? "-" : "") + (name ? "F" : t); ++n; }
        return o;
    }
    void openW() {
        cfg = makeCfg(r);
        int mfl = IndexWriter::MaxFieldLengthUNLIMITED;
        pol = newLucene<TestPolicy>(led, r.next(), (int)r.below(5));
        IndexDeletionPolicyPtr p = pol;
        snap.reset();
        if (r.oneIn(2)) { snap = newLucene<SnapshotDeletionPolicy>(pol); p = snap; }
        led->snapshot.clear();
        IndexCommitPtr at;
        if (everCommitted && r.oneIn(4)) {
            Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
            at = cs[(int32_t)r.below((uint64_t)cs.size())];
            pol->style = 0;
        }
        if (at) {
            w = newLucene<IndexWriter>(dir, an, p, mfl, at);
            pending = contents[u8(at->getSegmentsFileName())];
            say("open writer at " + u8(at->getSegmentsFileName()));
            count("opens_at_commit");
        } else {
            w = newLucene<IndexWriter>(dir, an, !everCommitted, p, mfl);
            say("open writer style " + std::to_string(pol->style));
        }
        applyCfg(w, cfg);
        if (getenv("VERIF_INFO")) w->setInfoStream(newLucene<ErrInfo>());
        count("writer_opens");
        if (!everCommitted) { pending.clear(); afterCommit(); }  // creating an index commits an empty one
        ok();
    }
    WS newestSeg() {
        WS best;
        int64_t g = -1;
        for (auto& n : rec->st->names()) if (n.compare(0, 9, "segments_") == 0 && genOfName(ws(n)) > g) { g = genOfName(ws(n)); best = ws(n); }
        return best;
    }
    void afterCommit() {
        committed = pending;
        everCommitted = true;
        WS n = newestSeg();
        contents[u8(n)] = pending;
        led->verifyHashes("after commit");
        ok();
        count("commits");
    }
    void checkKept() {
        // every commit the policy keeps opens with its original content
        if (!everCommitted) return;
        Collection<IndexCommitPtr> cs = IndexReader::listCommits(dir);
        for (int32_t i = 0; i < cs.size(); ++i) {
            if (!r.oneIn(3) && i + 1 < cs.size()) continue;
            std::string seg = u8(cs[i]->getSegmentsFileName());
            if (!contents.count(seg)) fail(key + ".unknownCommit", seg);
            IndexReaderPtr rd = IndexReader::open(cs[i], true);
            checkReader(rd, contents[seg], key + ".kept", seg);
            rd->close();
            count("kept_checks");
        }
        led->verifyHashes("later");
        ok();
    }
    void takeSnapshot() {
        if (!snap || !led->snapshot.empty() || !everCommitted || !w) return;
        IndexCommitPtr ic;
        try { ic = snap->snapshot(); } catch (IllegalStateException&) { return; }
        led->snapshot = u8(ic->getSegmentsFileName());
        if (!led->commits.count(led->snapshot)) { led->seen(ic); led->commits[led->snapshot].kept = false; }
        say("snapshot " + led->snapshot);
        HashSet<String> fs = ic->getFileNames();
        for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) VF_CHECK(dir->fileExists(*f), key + ".snapshot.missing", u8(*f));
        count("snapshots");
        ok();
    }
    void releaseSnapshot() {
        if (!snap || led->snapshot.empty()) return;
        led->verifyHashes("before release");
        ok();
        snap->release();
        forgetSnapshot();  // it stays until the policy is asked the next time
        say("release");
    }
    void finalListing(const std::string& when) {
        if (w || !held.empty()) return;
        std::set<std::string> want;
        for (auto& kv : led->commits) if (kv.second.kept) want.insert(kv.second.files.begin(), kv.second.files.end());
        for (auto& kv : foreign) { want.insert(kv.first); VF_EQ(rec->st->hashOf(kv.first), kv.second, key + ".foreign", kv.first); }
        std::set<std::string> got = rec->st->names();
        got.erase("segments.gen");
        want.erase("segments.gen");
        std::string extra, missing;
        for (auto& n : got) if (!want.count(n)) extra += n + " ";
        for (auto& n : want) if (!got.count(n)) missing += n + " ";
        VF_CHECK(missing.empty(), key + ".final.missing", missing + when);
        VF_CHECK(extra.empty(), key + ".final.leftover", extra + when);
        VF_EQ(rec->st->openInputs, 0, key + ".final.openInputs", when);
        VF_EQ(rec->st->openOutputs, 0, key + ".final.openOutputs", when);
        count("final_listings");
    }
    void readerChange() {
        if (w || !everCommitted || committed.empty()) return;
        TestPolicy* tp = new TestPolicy(led, r.next(), (int)r.below(5));
        IndexDeletionPolicyPtr p(tp);
        led->snapshot.clear();
        IndexReaderPtr rd = IndexReader::open(dir, p, false);
        WS id = committed[(size_t)r.below(committed.size())].stored(L"id");
        rd->deleteDocuments(T(L"id", id));
        rd->close();
        pending = committed;
        erase(L"id", id);
        say("reader delete " + u8(id));
        afterCommit();
        count("reader_commits");
    }
    void closeW() {
        if (!led->snapshot.empty() && r.oneIn(2)) releaseSnapshot();
        w->close(r.oneIn(4) ? false : true);
        w.reset();
        say("close");
        afterCommit();
        forgetSnapshot();
    }
    void forgetSnapshot() {
        // the snapshot ends with its writer; its files go at the next chance
        if (led->snapshot.empty()) return;
        std::string s = led->snapshot;
        led->snapshot.clear();
        if (led->commits.count(s) && !led->commits[s].kept) led->commits[s].kept = true;  // still on disk, offered to the next policy
    }
    void go() {
        int steps = (int)r.range(20, r.oneIn(4) ? 110 : 50);
        openW();
        for (int i = 0; i < steps; ++i) {
            if (!w) {
                if (r.oneIn(3)) readerChange();
                if (!rec->st->windows) finalListing("between writers");
                openW();
                continue;
            }
            int k = (int)r.below(100);
            if (k < 36) add();
            else if (k < 46) update();
            else if (k < 53) deleteTerm();
            else if (k < 56) poison();
            else if (k < 59) { w->optimize(r.oneIn(2)); say("optimize"); count("op_optimize"); }
            else if (k < 61) { w->expungeDeletes(); say("expunge"); }
            else if (k < 63) tune();
            else if (k < 73) { w->commit(); say("commit"); afterCommit(); }
            else if (k < 78) closeW();
            else if (k < 81) { w->rollback(); w.reset(); pending = committed; say("rollback"); forgetSnapshot(); ok(); count("op_rollback"); }
            else if (k < 85) takeSnapshot();
            else if (k < 87) releaseSnapshot();
            else if (k < 90) checkKept();
            else if (k < 93 && everCommitted) { IndexReaderPtr rd = r.oneIn(2) ? IndexReader::open(dir, true) : w->getReader(); bool nrt = rd->isCurrent() && false; (void)nrt; held.push_back({rd, {}}); held.back().second.clear(); count("held_readers"); if (held.size() > 4) { held[0].first->close(); held.erase(held.begin()); } }
            else if (k < 95 && !held.empty()) { held[0].first->close(); held.erase(held.begin()); }
            else if (k < 96) addIndexesOp();
            else if (k < 97) { w->maybeMerge(); }
            else checkKept();
            ok();
        }
        if (w) closeW();
        ok();
        checkKept();
        for (auto& h : held) h.first->close();
        held.clear();
        // readers may have kept files from being deleted, and snapshots may be stale: the next writer cleans up
        if (rec->st->windows || r.oneIn(2)) { openW(); if (r.oneIn(2)) { w->rollback(); w.reset(); pending = committed; say("rollback"); forgetSnapshot(); } else closeW(); }
        ok();
        finalListing("at the end");
        checkKept();
        count("policy_calls", led->calls);
        count("files_created", (int64_t)rec->st->created);
        count("files_deleted", (int64_t)rec->st->deleted);
        if (everCommitted) checkIndexClean(dir, key);
        Hash h;
        for (auto& n : rec->st->names()) h.add(n).add(rec->st->hashOf(n));
        sig(h.h);
    }
};

// ---- merges and their policy

struct Spy {
    std::string problem;
    std::mutex m;
    int64_t found = 0, optimizeFound = 0, expungeFound = 0;
    void note(const std::string& p) { std::lock_guard<std::mutex> l(m); if (problem.empty()) problem = p; }
};

template <class Base> class SpyPolicy : public Base {
public:
    std::shared_ptr<Spy> spy;
    std::function<void(const SegmentInfosPtr&)> sched;
    SpyPolicy(const IndexWriterPtr& w, const std::shared_ptr<Spy>& s) : Base(w), spy(s) {}
    virtual ~SpyPolicy() {}
    virtual String getClassName() { return L"SpyPolicy"; }
    int64_t sizeOf(const SegmentInfoPtr& i) { return this->size(i); }
    virtual MergeSpecificationPtr findMerges(const SegmentInfosPtr& infos) {
        MergeSpecificationPtr s = Base::findMerges(infos);
        check(infos, s, 0, 0);
        return s;
    }
    virtual MergeSpecificationPtr findMergesForOptimize(const SegmentInfosPtr& infos, int32_t maxSegmentCount, SetSegmentInfo segmentsToOptimize) {
        MergeSpecificationPtr s = Base::findMergesForOptimize(infos, maxSegmentCount, segmentsToOptimize);
        check(infos, s, 1, maxSegmentCount);
        return s;
    }
    virtual MergeSpecificationPtr findMergesToExpungeDeletes(const SegmentInfosPtr& infos) {
        MergeSpecificationPtr s = Base::findMergesToExpungeDeletes(infos);
        check(infos, s, 2, 0);
        if (s) {
            // every segment with deletions takes part, no other
            for (int32_t i = 0; i < infos->size(); ++i) {
                bool in = false;
                for (int32_t k = 0; k < s->merges.size(); ++k) in = in || s->merges[k]->segments->contains(infos->info(i));
                bool del = IndexWriterPtr(this->_writer)->numDeletedDocs(infos->info(i)) > 0;
                if (del != in) spy->note(del ? "segment with deletions left out by expunge" : "segment without deletions taken by expunge");
            }
        }
        return s;
    }
    void check(const SegmentInfosPtr& infos, const MergeSpecificationPtr& s, int what, int maxSegs) {
        if (!s) return;
        std::set<int> used;
        for (int32_t k = 0; k < s->merges.size(); ++k) {
            SegmentInfosPtr ss = s->merges[k]->segments;
            if (ss->size() == 0) { spy->note("empty merge selected"); continue; }
            int at = -1;
            for (int32_t i = 0; i < infos->size(); ++i) if (infos->info(i) == ss->info(0)) at = i;
            if (at < 0) { spy->note("merge of a segment that is not in the index"); continue; }
            for (int32_t i = 0; i < ss->size(); ++i) {
                if (at + i >= infos->size() || infos->info(at + i) != ss->info(i)) { spy->note("merge of segments that are not adjacent"); break; }
                if (!used.insert(at + i).second) spy->note("two selected merges share a segment");
                if (what == 0) {
                    int64_t docs = ss->info(i)->docCount;
                    if (docs >= this->getMaxMergeDocs()) {
                        int64_t live = docs - IndexWriterPtr(this->_writer)->numDeletedDocs(ss->info(i));
                        if (!this->getCalibrateSizeByDeletes() || live >= this->getMaxMergeDocs()) spy->note("segment above maxMergeDocs was selected");
                    }
                    if (sizeOf(ss->info(i)) >= this->maxMergeSize) spy->note("segment above the maximum merge size was selected");
                }
            }
            if (what == 0 && ss->size() != this->getMergeFactor()) spy->note("a normal merge takes other than mergeFactor segments");
            if (what != 0 && ss->size() > std::max(this->getMergeFactor(), maxSegs + this->getMergeFactor())) spy->note("merge takes too many segments");
            std::lock_guard<std::mutex> l(spy->m);
            ++(what == 0 ? spy->found : what == 1 ? spy->optimizeFound : spy->expungeFound);
        }
    }
};

struct Merging : World {
    std::shared_ptr<Spy> spy = std::make_shared<Spy>();
    boost::shared_ptr<SpyPolicy<LogDocMergePolicy>> byDoc;
    boost::shared_ptr<SpyPolicy<LogByteSizeMergePolicy>> bySize;
    boost::shared_ptr<LogMergePolicy> lp;
    Merging(Case& c) : World(c, "merging") {}
    void openM() {
        openWriter(true);
        if (r.oneIn(2)) {
            byDoc = newLucene<SpyPolicy<LogDocMergePolicy>>(w, spy);
            if (r.oneIn(2)) byDoc->setMinMergeDocs((int)r.pick({1, 5, 20, 1000}));
            bySize.reset();
            lp = byDoc;
        } else {
            bySize = newLucene<SpyPolicy<LogByteSizeMergePolicy>>(w, spy);
            if (r.oneIn(2)) bySize->setMinMergeMB(r.pick({0.0001, 0.001, 1.6}));
            if (r.oneIn(3)) bySize->setMaxMergeMB(r.pick({0.001, 0.004, 0.02}));
            byDoc.reset();
            lp = bySize;
        }
        w->setMergePolicy(lp);
        w->setMergeFactor(cfg.mergeFactor);
        w->setMaxMergeDocs(cfg.maxMergeDocs);
        lp->setUseCompoundFile(cfg.compound);
        lp->setUseCompoundDocStore(r.oneIn(2));
        lp->setNoCFSRatio(r.pick({0.0, 0.1, 1.0}));
        lp->setCalibrateSizeByDeletes(r.oneIn(2));
        say("policy " + std::string(byDoc ? "doc" : "size"));
    }
    void ok() { if (!spy->problem.empty()) { std::string k; for (char ch : spy->problem) k += ch == ' ' ? '-' : ch; fail(key + "." + k, spy->problem); } }
    static int segs(const IndexReaderPtr& rd) { Collection<IndexReaderPtr> s = rd->getSequentialSubReaders(); return s ? s.size() : 1; }
    void settled() {
        // all merges that became possible have been done: the number of segments is within the policy's bound
        w->commit();
        committedNow();
        w->waitForMerges();  // a merge that runs keeps its segments from being considered
        w->maybeMerge();
        w->waitForMerges();
        w->commit();
        SegmentInfosPtr infos = newLucene<SegmentInfos>();
        infos->read(dir);
        int n = infos->size(), large = 0;
        double maxLevel = 0, norm = std::log((double)lp->getMergeFactor());
        for (int i = 0; i < n; ++i) {
            int64_t sz = byDoc ? byDoc->sizeOf(infos->info(i)) : bySize->sizeOf(infos->info(i));
            if (sz >= lp->maxMergeSize || infos->info(i)->docCount - w->numDeletedDocs(infos->info(i)) >= lp->getMaxMergeDocs() || infos->info(i)->docCount >= lp->getMaxMergeDocs()) ++large;
            maxLevel = std::max(maxLevel, std::log((double)std::max<int64_t>(sz, 1)) / norm);
        }
        double floor_ = lp->minMergeSize <= 0 ? 0 : std::log((double)lp->minMergeSize) / norm;
        int levels = 2 + (int)std::max(0.0, std::floor((maxLevel - std::min(floor_, maxLevel)) / 0.75));
        int mf = lp->getMergeFactor();
        VF_CHECK(n <= (mf - 1) * levels + mf * large, key + ".settled", fmt("%d segments after merges settled, mergeFactor %d levels %d too large %d", n, mf, levels, large));
        count("settled_checks");
        maxi("segments", n);
        IndexReaderPtr rd = IndexReader::open(dir, true);
        checkReader(rd, committed, key + ".content", "after merges settled");
        rd->close();
    }
    void go() {
        int steps = (int)r.range(30, r.oneIn(4) ? 200 : 80);
        openM();
        for (int i = 0; i < steps; ++i) {
            if (!w) { openM(); continue; }
            int k = (int)r.below(100);
            if (k < 62) add();
            else if (k < 72) update();
            else if (k < 80) deleteTerm();
            else if (k < 83) { w->commit(); committedNow(); checkCommitted(r.oneIn(4)); count("op_commit"); }
            else if (k < 87) {
                int n = r.oneIn(2) ? 1 : (int)r.range(1, 5);
                w->optimize(n);
                say("optimize " + std::to_string(n));
                w->commit();
                committedNow();
                IndexReaderPtr rd = IndexReader::open(dir, true);
                VF_CHECK(segs(rd) <= n, key + ".optimize", fmt("%d segments after optimize(%d)", segs(rd), n));
                if (n == 1 && segs(rd) > 0) VF_CHECK(rd->isOptimized() && rd->numDeletedDocs() == 0, key + ".optimize.one", "deletions left after optimize");
                checkReader(rd, committed, key + ".optimize", "after optimize");
                rd->close();
                count("op_optimize");
            } else if (k < 90) {
                w->commit();  // deletes that are only buffered are not in any segment yet
                committedNow();
                w->waitForMerges();  // merges that began before the last deletes would carry them on
                w->expungeDeletes();
                say("expungeDeletes");
                w->commit();
                committedNow();
                IndexReaderPtr rd = IndexReader::open(dir, true);
                VF_EQ(rd->numDeletedDocs(), 0, key + ".expunge", "deletions left after expungeDeletes");
                checkReader(rd, committed, key + ".expunge", "after expungeDeletes");
                rd->close();
                count("op_expunge");
            } else if (k < 93) settled();
            else if (k < 95) checkNRT();
            else if (k < 97) closeWriter();
            else if (k < 98) addIndexesOp();
            else if (k < 99) { int m = (int)r.range(2, 6); cfg.mergeFactor = m; w->setMergeFactor(m); }
            else { poison(); }
            ok();
        }
        if (w) { settled(); ok(); closeWriter(); }
        ok();
        checkIndexClean(dir, key);
        count("merges_selected", spy->found);
        count("optimize_merges", spy->optimizeFound);
        count("expunge_merges", spy->expungeFound);
    }
};
}

VF_MODE(twophase) { TwoPhase t(c); t.go(); if (wantSample()) sample(c.log.str()); }
VF_MODE(lifecycle) { Life l(c); l.go(); if (wantSample()) sample(c.log.str()); }
VF_MODE(merging) { Merging m(c); m.go(); if (wantSample()) sample(c.log.str()); }

VF_MAIN
