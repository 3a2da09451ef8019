// Readers as point-in-time snapshots (C04) and changes made through readers (C25).
#include "world.h"
#include "IndexCommit.h"
using namespace vf;

namespace {

int newestGen(const DirectoryPtr& dir) {
    HashSet<String> fs = dir->listAll();
    long best = -1;
    for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) {
        if (f->compare(0, 9, L"segments_") == 0) best = std::max(best, wcstol(f->c_str() + 9, 0, 36));
    }
    return (int)best;
}
int genOf(const WS& name) { return name.size() > 9 ? (int)wcstol(name.c_str() + 9, 0, 36) : -1; }

struct Held {
    IndexReaderPtr r;
    std::vector<DocM> docs;
    std::string kind;
    bool nrt = false;
    int gen = -1;       // generation of the commit it shows
    uint64_t hash = 0;
    int writerNo = 0;   // of NRT readers: the writer they came from
};

struct Snap : World {
    std::vector<Held> held;
    int writerNo = 0;
    Snap(Case& c) : World(c, "snapshot") {}
    void verify(Held& h, const std::string& when) {
        DumpStats st;
        Dump got = dumpFor(h.r, s, key, &st);
        Dump want = expectedDump(h.docs, s.opts);
        normalizeNoTF(want, s.noTFNames);
        compareDumps(got, want, key + "." + h.kind, when + " reader of kind " + h.kind);
        uint64_t hh = dumpHash(got);
        h.hash = hh;
        count("snapshot_checks");
        count("postings_checked", st.postings);
        sig(Hash().add(hh).add(h.kind).h);
        tick();
    }
    void truth(Held& h) {
        // isCurrent against the directory listing (commits) or against the content (near real time)
        if (h.nrt) {
            if (w && h.writerNo == writerNo && !same(h.docs, pending)) {
                VF_CHECK(!h.r->isCurrent(), key + ".isCurrent.nrt", "near-real-time reader claims to be current though the writer has changed");
                count("iscurrent_checks");
            }
            return;
        }
        int g = newestGen(dir);
        VF_EQ(h.r->isCurrent(), h.gen == g, key + ".isCurrent", fmt("reader of generation %d, newest is %d", h.gen, g));
        VF_EQ(genOf(h.r->getIndexCommit()->getSegmentsFileName()), h.gen, key + ".commitOf", h.kind);
        count("iscurrent_checks");
    }
    static bool same(const std::vector<DocM>& a, const std::vector<DocM>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (a[i].uid != b[i].uid) return false;
        return true;
    }
    void take() {
        Held h;
        int k = (int)r.below(4);
        if (k == 0 && w) {
            h.r = w->getReader();
            h.docs = pending;
            h.kind = "nrt";
            h.nrt = true;
            h.writerNo = writerNo;
        } else {
            if (!everCommitted) return;
            h.kind = k == 1 ? "readonly" : k == 2 ? "readwrite" : "divisor";
            if (k == 3) h.r = IndexReader::open(dir, IndexDeletionPolicyPtr(), true, (int)r.range(1, 4));
            else h.r = IndexReader::open(dir, k == 1);
            h.docs = committed;
            h.gen = newestGen(dir);
        }
        if (r.oneIn(2)) verify(h, "just opened");
        say("take " + h.kind);
        held.push_back(std::move(h));
        count("readers_taken");
    }
    void reopen() {
        if (held.empty()) return;
        size_t i = (size_t)r.below(held.size());
        if (held[i].nrt && (!w || held[i].writerNo != writerNo)) return;
        bool ro = r.oneIn(2);
        IndexReaderPtr n;
        bool clone = r.oneIn(3);
        say(std::string(clone ? "clone " : "reopen ") + held[i].kind);
        if (clone) n = boost::dynamic_pointer_cast<IndexReader>(ro ? held[i].r->clone(true) : held[i].r->clone());
        else if (r.oneIn(2)) n = held[i].r->reopen();
        else n = held[i].r->reopen(ro || held[i].nrt);
        if (clone) {
            VF_CHECK(n != held[i].r, key + ".clone.same", "clone returned the same object");
            Held h;
            h.r = n;
            h.docs = held[i].docs;
            h.gen = held[i].gen;
            h.nrt = held[i].nrt;
            h.writerNo = held[i].writerNo;
            h.kind = "clone";
            verify(h, "after clone");
            held.push_back(std::move(h));
            count("clones");
            return;
        }
        Held h;
        h.r = n;
        h.nrt = held[i].nrt;
        h.writerNo = held[i].writerNo;
        h.docs = h.nrt ? pending : committed;
        h.gen = h.nrt ? -1 : newestGen(dir);
        h.kind = "reopened";
        if (n == held[i].r) {
            // unchanged: must already show what a new one would
            VF_CHECK(same(held[i].docs, h.docs), key + ".reopen.stale", "reopen returned the old reader although the index has changed");
            count("reopen_same");
            return;
        }
        verify(h, "after reopen");
        if (!h.nrt && r.oneIn(2)) {
            IndexReaderPtr fresh = IndexReader::open(dir, true);
            VF_EQ(fresh->maxDoc(), n->maxDoc(), key + ".reopen.maxDoc", "reopened and fresh readers disagree");
            VF_EQ(fresh->getVersion(), n->getVersion(), key + ".reopen.version", "reopened and fresh readers disagree");
            VF_EQ(fresh->isOptimized(), n->isOptimized(), key + ".reopen.optimized", "");
            for (int d = 0; d < fresh->maxDoc(); ++d) VF_EQ(fresh->isDeleted(d), n->isDeleted(d), key + ".reopen.deleted", std::to_string(d));
            fresh->close();
        }
        held.push_back(std::move(h));
        count("reopens");
    }
    void drop(size_t i) {
        if (r.oneIn(2)) verify(held[i], "before close");
        held[i].r->close();
        held.erase(held.begin() + (long)i);
    }
    void run() {
        openWriter(false);
        writerNo = 1;
        int steps = (int)r.range(20, r.oneIn(4) ? 120 : 50);
        for (int i = 0; i < steps; ++i) {
            int k = (int)r.below(100);
            if (k < 55) { bool had = !!w; step(); if (w && !had) ++writerNo; }
            else if (k < 68) take();
            else if (k < 80) reopen();
            else if (k < 92 && !held.empty()) { Held& h = held[(size_t)r.below(held.size())]; verify(h, "later"); truth(h); }
            else if (!held.empty()) { if (held.size() > 4 || r.oneIn(3)) drop((size_t)r.below(held.size())); }
            if (r.oneIn(10)) for (auto& h : held) truth(h);
        }
        // the directory changes under them once more
        if (w) { if (r.oneIn(3)) rollback(); else { w->optimize(); closeWriter(); } }
        for (auto& h : held) { verify(h, "at the end"); truth(h); }
        r.shuffle(held);
        while (!held.empty()) drop(held.size() - 1);
        if (everCommitted) checkIndexClean(dir, key + ".final");
    }
};

// ---- changes through readers

struct Phys { DocM doc; bool alive = true; };
typedef std::map<std::pair<int, WS>, int> Norms;
struct View {  // what one reader shows
    IndexReaderPtr r;
    std::vector<Phys> docs;
    Norms norms;
    bool readOnly = false, changed = false, stale = false, lost = false;
    int gen = 0;
};

struct ReaderOps : World {
    std::map<int, DocM> all;
    Norms norms;             // committed
    std::vector<Phys> phys;  // committed
    std::vector<View> views;
    ReaderOps(Case& c) : World(c, "readerops", false) {}

    void loadPhys() {
        // learn the physical order, deleted documents included, from an undeleted copy
        RAMDirectoryPtr copy = newLucene<RAMDirectory>(dir);
        IndexReaderPtr rd = IndexReader::open(copy, false);
        phys.clear();
        std::vector<bool> del;
        for (int i = 0; i < rd->maxDoc(); ++i) del.push_back(rd->isDeleted(i));
        rd->undeleteAll();
        VF_EQ(rd->numDocs(), rd->maxDoc(), key + ".undeleteAll", "");
        for (int i = 0; i < rd->maxDoc(); ++i) {
            int u = std::stoi(u8(rd->document(i)->get(L"uid")));
            Phys p;
            VF_CHECK(all.count(u), key + ".unknownDoc", std::to_string(u));
            p.doc = all[u];
            p.alive = !del[(size_t)i];
            phys.push_back(std::move(p));
        }
        rd->close();
    }
    void verify(View& v, const std::string& when) {
        DumpStats st;
        Dump got = dumpFor(v.r, s, key, &st);
        std::vector<const DocM*> live;
        VF_EQ(v.r->maxDoc(), (int)v.docs.size(), key + ".maxDoc", when);
        for (size_t i = 0; i < v.docs.size(); ++i) {
            VF_EQ(v.r->isDeleted((int)i), !v.docs[i].alive, key + ".isDeleted", when + " doc " + std::to_string(i));
            if (v.docs[i].alive) live.push_back(&v.docs[i].doc);
        }
        Dump want = expectedDump(live, s.opts, &v.norms);
        normalizeNoTF(want, s.noTFNames);
        compareDumps(got, want, key, when);
        count("content_checks");
        count("postings_checked", st.postings);
        sig(dumpHash(got));
        tick();
    }
    View fresh(bool ro) {
        View v;
        v.r = IndexReader::open(dir, ro);
        v.docs = phys;
        v.norms = norms;
        v.readOnly = ro;
        v.gen = newestGen(dir);
        return v;
    }
    View* holder() { for (auto& v : views) if (v.changed) return &v; return nullptr; }
    // may this view take (or does it have) the write lock?
    template <class F> void change(View& v, F f, const std::string& what) {
        View* h = holder();
        int g = newestGen(dir);
        say("change by view " + std::to_string(&v - views.data()) + " gen=" + std::to_string(v.gen) + (v.readOnly ? " readonly " : " ") + what);
        try {
            f();
            VF_CHECK(!v.readOnly, key + ".readonly", what + " accepted by a read-only reader");
            VF_CHECK(!h || h == &v, key + ".exclusive", what + " accepted while another reader holds changes");
            VF_CHECK(v.gen == g, key + ".stale", what + " accepted by a reader that is not current");
            VF_CHECK(!w, key + ".exclusiveWriter", what + " accepted while a writer is open");
            v.changed = true;
            say("  done");
            count("changes");
        } catch (UnsupportedOperationException&) {
            VF_CHECK(v.readOnly, key + ".refused.unsupported", what);
            count("refused_readonly");
        } catch (StaleReaderException&) {
            VF_CHECK(v.gen != g, key + ".refused.stale", what + " refused as stale though current");
            count("refused_stale");
        } catch (LockObtainFailedException&) {
            VF_CHECK((h && h != &v) || w, key + ".refused.lock", what + " refused though nobody holds the lock");
            count("refused_lock");
        }
    }
    void commitView(View& v, bool close) {
        if (close) v.r->close();
        else if (r.oneIn(2)) v.r->commit(MapStringString());
        else v.r->flush();
        if (v.changed) {
            phys = v.docs;
            norms = v.norms;
            v.changed = false;
            v.gen = newestGen(dir);
            count("reader_commits");
            say(close ? "close saves" : "commit saves");
            View f = fresh(true);
            verify(f, "fresh reader after a reader's commit");
            f.r->close();
        }
    }
    void op(View& v) {
        if (v.docs.empty()) return;
        switch (r.below(8)) {
        case 0: case 1: case 2: {
            int n = (int)r.below(v.docs.size());
            bool did = false;
            change(v, [&] { v.r->deleteDocument(n); did = true; }, "deleteDocument");
            if (did) v.docs[(size_t)n].alive = false;
            count("op_delete");
            break;
        }
        case 3: {
            WS f = r.oneIn(2) ? L"id" : L"body";
            WS t = f == L"id" ? idOf((int)r.below((uint64_t)s.idSpace)) : s.vocab[(size_t)r.below(std::min<size_t>(6, s.vocab.size()))];
            int hits = 0, n = -1;
            for (auto& p : v.docs) if (p.alive && p.doc.has(f, t)) ++hits;
            if (!hits) {
                // nothing to delete: no lock is needed
                if (!v.readOnly) VF_EQ(v.r->deleteDocuments(T(f, t)), 0, key + ".deleteCount", "");
                break;
            }
            change(v, [&] { n = v.r->deleteDocuments(T(f, t)); }, "deleteDocuments");
            if (n >= 0) {
                VF_EQ(n, hits, key + ".deleteCount", u8(f) + ":" + u8(t));
                for (auto& p : v.docs) if (p.doc.has(f, t)) p.alive = false;
            }
            count("op_delete_term");
            break;
        }
        case 4: {
            if (!r.oneIn(3)) break;
            bool did = false;
            change(v, [&] { v.r->undeleteAll(); did = true; }, "undeleteAll");
            if (did) for (auto& p : v.docs) p.alive = true;
            count("op_undelete");
            break;
        }
        default: {
            int n = (int)r.below(v.docs.size());
            if (!v.docs[(size_t)n].alive) break;
            WS f = r.pick({L"body", L"title", L"pay", L"id"});
            Inverted inv = invert(v.docs[(size_t)n].doc, s.opts);
            auto it = inv.fields.find(f);
            if (it == inv.fields.end() || it->second.noNorms) break;
            int b = (int)r.below(256);
            bool did = false;
            if (r.oneIn(3)) {
                double boost = r.pick({0.0, 0.125, 1.0, 3.0, 17.5, 1e9});
                b = encode315(boost);
                change(v, [&] { v.r->setNorm(n, f, boost); did = true; }, "setNorm");
            } else change(v, [&] { v.r->setNorm(n, f, (uint8_t)b); did = true; }, "setNorm");
            if (did) v.norms[{v.docs[(size_t)n].doc.uid, f}] = b;
            count("op_setnorm");
        }
        }
    }
    void cloneView(size_t i) {
        View n;
        bool ro = r.oneIn(3);
        bool reopen = r.oneIn(2);
        if (reopen) {
            IndexReaderPtr x = views[i].r->reopen();
            say("reopen view " + std::to_string(i));
            if (x == views[i].r) {
                VF_CHECK(views[i].changed || views[i].gen == newestGen(dir), key + ".reopen", "reopen kept an old reader");
                return;
            }
            n.r = x;
            n.docs = phys;
            n.norms = norms;
            n.gen = newestGen(dir);
            n.readOnly = views[i].readOnly;
        } else {
            bool keep = r.oneIn(2);
            say("clone view " + std::to_string(i) + std::string(" ") + (views[i].changed ? " of changed" : ""));
            bool newRo = keep ? views[i].readOnly : ro;
            // a read-only clone of a reader with changes is given up: the changes would have no owner
            if (newRo && views[i].changed) return;
            n.r = boost::dynamic_pointer_cast<IndexReader>(keep ? views[i].r->clone() : views[i].r->clone(ro));
            n.docs = views[i].docs;
            n.norms = views[i].norms;
            n.gen = views[i].gen;
            n.readOnly = newRo;
            n.changed = views[i].changed;  // pending changes move to the clone
            if (views[i].changed) { views[i].changed = false; views[i].lost = true; count("changes_moved"); }
        }
        verify(n, "clone or reopened");
        views.push_back(std::move(n));
        count("clones");
    }
    void tryWriter() {
        bool locked = holder() != nullptr;
        try {
            IndexWriterPtr x = newLucene<IndexWriter>(dir, an, false, IndexWriter::MaxFieldLengthUNLIMITED);
            VF_CHECK(!locked, key + ".writerExcluded", "a writer was opened while a reader holds uncommitted changes");
            if (r.oneIn(2)) { x->rollback(); return; }
            applyCfg(x, makeCfg(r, false));
            w = x;
            count("writers_let_in");
        } catch (LockObtainFailedException&) {
            VF_CHECK(locked, key + ".writerRefused", "a writer was refused though no reader holds changes");
            count("writers_refused");
            return;
        }
        // while it is open no reader may change anything
        for (auto& v : views) if (!v.docs.empty() && !v.readOnly && r.oneIn(2)) { change(v, [&] { v.r->deleteDocument(0); }, "deleteDocument under a writer"); }
        std::vector<DocM> before = liveDocs();
        pending = before;
        int n = (int)r.below(6);
        for (int i = 0; i < n; ++i) { if (r.oneIn(3)) deleteTerm(); else { add(); all[pending.back().uid] = pending.back(); } }
        if (r.oneIn(3)) w->optimize();
        bool keep = !r.oneIn(4);
        if (keep) w->close(); else w->rollback();
        w.reset();
        committed = keep ? pending : before;
        if (!keep) pending = before;
        IndexReaderPtr rd = IndexReader::open(dir, true);
        DumpStats st;
        Dump got = dumpFor(rd, s, key, &st);
        Dump want = expectedDump(committed, s.opts, &norms);
        normalizeNoTF(want, s.noTFNames);
        compareDumps(got, want, key + ".afterWriter", "deletes and norms made by a reader, seen after a writer worked on");
        count("survival_checks");
        rd->close();
        loadPhys();
    }
    std::vector<DocM> liveDocs() {
        std::vector<DocM> o;
        for (auto& p : phys) if (p.alive) o.push_back(p.doc);
        return o;
    }
    void run() {
        IndexWriter::setDefaultWriteLockTimeout(20);
        openWriter(false);
        int n = (int)r.range(3, 40);
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(10);
            if (k < 7) { add(); all[pending.back().uid] = pending.back(); }
            else if (k < 8) deleteTerm();
            else if (k < 9) w->commit();
            else { update(); all[pending.back().uid] = pending.back(); }
        }
        w->close();
        w.reset();
        everCommitted = true;
        loadPhys();
        views.push_back(fresh(false));
        int steps = (int)r.range(10, r.oneIn(4) ? 100 : 40);
        for (int i = 0; i < steps; ++i) {
            if (views.empty()) views.push_back(fresh(r.oneIn(5)));
            size_t vi = (size_t)r.below(views.size());
            int k = (int)r.below(100);
            if (k < 55) op(views[vi]);
            else if (k < 62) { for (auto& v : views) verify(v, "later"); }
            else if (k < 70) { if (views.size() < 5) cloneView(vi); }
            else if (k < 78) commitView(views[vi], false);
            else if (k < 84) { commitView(views[vi], true); views.erase(views.begin() + (long)vi); }
            else if (k < 90) { if (views.size() < 5) views.push_back(fresh(r.oneIn(5))); }
            else if (k < 95) tryWriter();
            else { View f = fresh(true); verify(f, "fresh reader sees only what is committed"); f.r->close(); }
            if (r.oneIn(8)) verify(views.empty() ? (views.push_back(fresh(true)), views[0]) : views[(size_t)r.below(views.size())], "spot check");
        }
        // those with changes last to close win; only one can have any
        for (auto& v : views) verify(v, "at the end");
        r.shuffle(views);
        for (auto& v : views) commitView(v, true);
        views.clear();
        View f = fresh(true);
        verify(f, "final");
        f.r->close();
        checkIndexClean(dir, key + ".final");
    }
};
}

VF_MODE(snapshot) {
    Snap s(c);
    s.run();
    if (wantSample()) sample(c.log.str());
}

VF_MODE(readerops) {
    ReaderOps s(c);
    s.run();
    if (wantSample()) sample(c.log.str());
}

VF_MAIN
