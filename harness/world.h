// One writer with its sequential model: the committed and the pending list of documents.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "model.h"

namespace vf {
struct ErrInfo : public InfoStream {
    LUCENE_CLASS(ErrInfo);
    InfoStream& operator<<(const String& t) override { if (t.size() > 16 && t.find(L":") != 0) fprintf(stderr, "   %s\n", u8(t).c_str()); return *this; }
};

struct World {
    Case& c;
    Rng& r;
    Schema s;
    DirectoryPtr dir;
    int dirKind = 0;
    ModelAnalyzerPtr an;
    WriterCfg cfg;
    IndexWriterPtr w;
    std::vector<DocM> pending, committed;
    int uid = 0;
    int commits = 0;
    bool everCommitted = false;
    std::string key;

    World(Case& cs, const std::string& k, bool threads = true, int kind = -1) : c(cs), r(cs.rng), s(makeSchema(cs.rng)), key(k) {
        dir = makeDir(r, c, &dirKind, kind);
        an = newLucene<ModelAnalyzer>(s.opts.posGap, s.opts.offGap);
        cfg = makeCfg(r, threads);
    }
    void say(const std::string& t) { c.log << t << "\n"; tick(); if (getenv("VERIF_INFO")) fprintf(stderr, "@@ %s\n", t.c_str()); }
    void openWriter(bool newCfg) {
        if (newCfg) cfg = makeCfg(r);
        bool create = !everCommitted;
        w = newLucene<IndexWriter>(dir, an, create, s.opts.maxFieldLength == 0x7fffffff ? IndexWriter::MaxFieldLengthUNLIMITED : s.opts.maxFieldLength);
        applyCfg(w, cfg);
        if (getenv("VERIF_INFO")) w->setInfoStream(newLucene<ErrInfo>());
        if (create) { committed.clear(); pending.clear(); }
        say(std::string("open writer dir=") + std::to_string(dirKind) + " " + cfg.str());
        count("writer_opens");
    }
    void add() {
        int id = (int)r.below((uint64_t)s.idSpace);
        DocM d = makeDoc(r, s, uid++, id);
        w->addDocument(toDocument(d));
        say("add uid=" + std::to_string(d.uid) + " id=" + std::to_string(id));
        pending.push_back(std::move(d));
        count("op_add");
    }
    void update() {
        int id = (int)r.below((uint64_t)s.idSpace);
        DocM d = makeDoc(r, s, uid++, id);
        w->updateDocument(T(L"id", idOf(id)), toDocument(d));
        say("update id=" + std::to_string(id) + " uid=" + std::to_string(d.uid));
        erase(L"id", idOf(id));
        pending.push_back(std::move(d));
        count("op_update");
    }
    void erase(const WS& f, const WS& t) {
        std::vector<DocM> k;
        for (auto& d : pending) if (!d.has(f, t)) k.push_back(std::move(d));
        pending.swap(k);
    }
    void poison() {
        // a document whose token stream fails part way: it must leave no trace
        DocM d = makeDoc(r, s, uid++, (int)r.below((uint64_t)s.idSpace));
        DocumentPtr doc = toDocument(d);
        std::vector<Tok> toks;
        int n = (int)r.range(1, 6);
        for (int i = 0; i < n; ++i) { Tok t; t.term = s.vocab[(size_t)r.below(s.vocab.size())]; t.start = i; t.end = i + 1; toks.push_back(t); }
        TokenStreamPtr ts = newLucene<ModelStream>(toks, n, (int)r.below((uint64_t)n));
        // placed among the other fields so that some are inverted before the failure
        FieldPtr bad = newLucene<Field>(r.pick({L"body", L"aaa", L"zzz", L"title"}), ts, r.oneIn(2) ? AbstractField::TERM_VECTOR_NO : AbstractField::TERM_VECTOR_WITH_POSITIONS_OFFSETS);
        bad->setOmitNorms(true);  // a field that once had norms keeps them
        doc->add(bad);
        bool threw = false;
        try {
            w->addDocument(doc);
        } catch (IOException&) {
            threw = true;
        }
        VF_CHECK(threw, key + ".poison", "a failing token stream was not reported by addDocument");
        say("poison");
        count("op_poison");
    }
    void deleteTerm() {
        WS f, t;
        if (r.oneIn(2)) { f = L"id"; t = idOf((int)r.below((uint64_t)s.idSpace)); }
        else { f = r.pick({L"body", L"title", L"tag", L"omit", L"pay"}); t = s.vocab[(size_t)r.below(s.vocab.size())]; if (r.oneIn(2) && !r.oneIn(3)) { f = L"id"; t = idOf((int)r.below((uint64_t)s.idSpace)); } }
        if (r.oneIn(3)) {
            Collection<TermPtr> ts = Collection<TermPtr>::newInstance();
            ts.add(T(f, t));
            WS t2 = idOf((int)r.below((uint64_t)s.idSpace));
            ts.add(T(L"id", t2));
            w->deleteDocuments(ts);
            erase(L"id", t2);
        } else w->deleteDocuments(T(f, t));
        erase(f, t);
        say("delete " + u8(f) + ":" + u8(t));
        count("op_delete_term");
    }
    struct UsedQuery { bool boolean; int a, b; WS word; };
    std::vector<UsedQuery> usedQueries;
    void deleteQuery() {
        int a = (int)r.below((uint64_t)s.idSpace), b = (int)r.below((uint64_t)s.idSpace);
        WS word = s.vocab[(size_t)r.below(std::min<size_t>(4, s.vocab.size()))];
        bool boolean = r.oneIn(2);
        if (!usedQueries.empty() && r.oneIn(2)) {
            // the same query again, for the documents added since
            UsedQuery u = usedQueries[usedQueries.size() - 1 - (size_t)std::min(r.below(usedQueries.size()), r.below(usedQueries.size()))];
            a = u.a, b = u.b, word = u.word, boolean = u.boolean;
            count("op_repeated_delete_query");
        } else usedQueries.push_back({boolean, a, b, word});
        if (boolean) {
            BooleanQueryPtr q = newLucene<BooleanQuery>();
            q->add(newLucene<TermQuery>(T(L"id", idOf(a))), BooleanClause::MUST);
            q->add(newLucene<TermQuery>(T(L"body", word)), BooleanClause::MUST_NOT);
            w->deleteDocuments(q);
            std::vector<DocM> k;
            for (auto& d : pending) if (!(d.has(L"id", idOf(a)) && !d.has(L"body", word))) k.push_back(std::move(d));
            pending.swap(k);
        } else {
            WS lo = std::min(idOf(a), idOf(b)), hi = std::max(idOf(a), idOf(b));
            w->deleteDocuments(newLucene<TermRangeQuery>(L"id", lo, hi, true, false));
            std::vector<DocM> k;
            for (auto& d : pending) { WS x = d.stored(L"id"); if (!(x >= lo && x < hi)) k.push_back(std::move(d)); }
            pending.swap(k);
        }
        say("delete by query");
        count("op_delete_query");
    }
    void checkReader(const IndexReaderPtr& rd, const std::vector<DocM>& docs, const std::string& k, const std::string& ctx) {
        VF_EQ(rd->numDocs(), (int)docs.size(), k + ".numDocs", ctx);
        DumpStats st;
        Dump got = dumpFor(rd, s, k, &st);
        Dump want = expectedDump(docs, s.opts);
        normalizeNoTF(want, s.noTFNames);
        compareDumps(got, want, k, ctx);
        count("content_checks");
        count("postings_checked", st.postings);
        count("docs_checked", st.docs);
        sig(dumpHash(got));
        tick();
    }
    void committedNow() {
        committed = pending;
        everCommitted = true;
        ++commits;
    }
    void checkCommitted(bool check) {
        IndexReaderPtr rd = IndexReader::open(dir, r.oneIn(2));
        checkReader(rd, committed, key + ".committed", "after commit");
        VF_CHECK(rd->isCurrent(), key + ".isCurrent", "freshly opened reader is not current");
        // an independent way to find documents: every live uid by term query
        IndexSearcherPtr is = newLucene<IndexSearcher>(rd);
        for (int k = 0; k < 3 && !committed.empty(); ++k) {
            const DocM& d = committed[(size_t)r.below(committed.size())];
            TopDocsPtr td = is->search(newLucene<TermQuery>(T(L"uid", std::to_wstring(d.uid))), 10);
            VF_EQ(td->totalHits, 1, key + ".findByUid", std::to_string(d.uid));
        }
        is->close();
        rd->close();
        if (check) checkIndexClean(dir, key);
    }
    void checkNRT() {
        IndexReaderPtr rd = w->getReader();
        checkReader(rd, pending, key + ".nrt", "near-real-time reader");
        rd->close();
        count("op_nrt");
    }
    void commit() {
        w->commit();
        committedNow();
        say("commit");
        count("op_commit");
        checkCommitted(r.oneIn(4));
    }
    void closeWriter() {
        w->close(r.oneIn(3) ? false : true);
        w.reset();
        committedNow();
        say("close");
        count("op_close");
        checkCommitted(r.oneIn(3));
    }
    void rollback() {
        w->rollback();
        w.reset();
        pending = committed;
        say("rollback");
        count("op_rollback");
        if (everCommitted) checkCommitted(r.oneIn(3));
    }
    void addIndexesOp() {
        int n = (int)r.range(1, 3);
        Collection<DirectoryPtr> dirs = Collection<DirectoryPtr>::newInstance();
        std::vector<DocM> extra;
        for (int i = 0; i < n; ++i) {
            DirectoryPtr d2 = makeDir(r, c);
            IndexWriterPtr w2 = newLucene<IndexWriter>(d2, an, true, IndexWriter::MaxFieldLengthUNLIMITED);
            applyCfg(w2, makeCfg(r, false));
            int m = (int)r.below(12);
            std::vector<DocM> docs;
            for (int k = 0; k < m; ++k) {
                DocM d = makeDoc(r, s, uid++, (int)r.below((uint64_t)s.idSpace));
                w2->addDocument(toDocument(d));
                docs.push_back(std::move(d));
            }
            if (m && r.oneIn(2)) {
                WS id = docs[(size_t)r.below(docs.size())].stored(L"id");
                w2->deleteDocuments(T(L"id", id));
                std::vector<DocM> k;
                for (auto& d : docs) if (!d.has(L"id", id)) k.push_back(d);
                docs.swap(k);
            }
            w2->close();
            for (auto& d : docs) extra.push_back(d);
            dirs.add(d2);
        }
        if (r.oneIn(2)) {
            w->addIndexesNoOptimize(dirs);
            say("addIndexesNoOptimize");
        } else {
            Collection<IndexReaderPtr> rs = Collection<IndexReaderPtr>::newInstance();
            for (int32_t i = 0; i < dirs.size(); ++i) rs.add(IndexReader::open(dirs[i], true));
            w->addIndexes(rs);
            for (int32_t i = 0; i < rs.size(); ++i) rs[i]->close();
            say("addIndexes(readers)");
        }
        for (auto& d : extra) pending.push_back(d);
        count("op_addIndexes");
    }
    void tune() {
        if (r.oneIn(2)) { cfg.compound = !cfg.compound; w->setUseCompoundFile(cfg.compound); }
        if (r.oneIn(3)) { cfg.mergeFactor = (int)r.range(2, 6); w->setMergeFactor(cfg.mergeFactor); }
        if (r.oneIn(3)) { cfg.maxDelTerms = (int)r.range(1, 5); w->setMaxBufferedDeleteTerms(cfg.maxDelTerms); }
        say("tune");
    }
    void step() {
        int k = (int)r.below(100);
        if (!w) { openWriter(r.oneIn(2)); return; }
        if (k < 42) add();
        else if (k < 56) update();
        else if (k < 66) deleteTerm();
        else if (k < 71) deleteQuery();
        else if (k < 74) poison();
        else if (k < 80) commit();
        else if (k < 84) checkNRT();
        else if (k < 87) closeWriter();
        else if (k < 89) rollback();
        else if (k < 91) { w->optimize(r.oneIn(2) ? 1 : (int)r.range(1, 4)); say("optimize"); count("op_optimize"); }
        else if (k < 93) { w->expungeDeletes(); say("expungeDeletes"); count("op_expunge"); }
        else if (k < 95) addIndexesOp();
        else if (k < 97) tune();
        else if (k < 98) { w->maybeMerge(); say("maybeMerge"); }
        else if (k < 99 && r.oneIn(3)) { w->deleteAll(); pending.clear(); say("deleteAll"); count("op_deleteAll"); }
        else {
            // buffered documents and counters the writer itself reports
            int n = w->maxDoc();
            VF_CHECK(n >= (int)pending.size(), key + ".maxDoc", fmt("writer.maxDoc %d < live %d", n, (int)pending.size()));
            add();
        }
    }
};
}
#endif
