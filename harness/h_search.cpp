// Queries against their definitions (C13), scores against the documented formula and explain (C14), cursors (C30).
#include "corpus.h"
using namespace vf;

static std::string docsStr(const std::map<int, double>& m) { std::string o; for (auto& x : m) o += std::to_string(x.first) + " "; return o; }
static std::string hitsStr(const std::vector<Hit>& m) { std::string o; for (auto& x : m) o += std::to_string(x.doc) + " "; return o; }

static void checkSet(const std::vector<Hit>& hits, const std::map<int, double>& want, const std::string& key, const std::string& ctx) {
    std::set<int> seen;
    for (auto& h : hits) {
        VF_CHECK(seen.insert(h.doc).second, key + ".twice", fmt("document %d reported twice: ", h.doc) + ctx);
        VF_CHECK(want.count(h.doc), key + ".extra", fmt("document %d does not match: ", h.doc) + ctx + "\ngot " + hitsStr(hits) + "\nexpected " + docsStr(want));
    }
    if (seen.size() != want.size()) fail(key + ".missing", ctx + "\ngot " + hitsStr(hits) + "\nexpected " + docsStr(want));
    count("hit_sets");
    count("hits_checked", (int64_t)hits.size());
}
static void checkScores(const std::vector<Hit>& hits, const std::map<int, double>& want, const std::string& key, const std::string& ctx) {
    for (auto& h : hits) {
        auto it = want.find(h.doc);
        if (it == want.end()) continue;
        VF_CHECK(near(h.score, it->second), key, fmt("document %d scored %.9g, formula gives %.9g: ", h.doc, h.score, it->second) + ctx);
        count("scores_checked");
    }
}

static std::vector<Hit> topDocs(const TopDocsPtr& t) {
    std::vector<Hit> h;
    for (int32_t i = 0; i < t->scoreDocs.size(); ++i) h.push_back({t->scoreDocs[i]->doc, t->scoreDocs[i]->score});
    return h;
}

static std::vector<Hit> byScorer(Setup& s, const WeightPtr& w, Rng& r, int how) {
    std::vector<int> bases;
    std::vector<IndexReaderPtr> lv = s.leaves(bases);
    std::vector<Hit> hits;
    for (size_t i = 0; i < lv.size(); ++i) {
        ScorerPtr sc = w->scorer(lv[i], true, false);
        if (!sc) continue;
        int doc = -1;
        for (;;) {
            if (how == 0 || (how == 2 && r.oneIn(2))) doc = sc->nextDoc();
            else doc = sc->advance(doc + 1);
            if (doc == DocIdSetIterator::NO_MORE_DOCS) break;
            double v = sc->score();
            hits.push_back({doc + bases[i], v});
            tick();
        }
    }
    return hits;
}

// every way to collect gives the documents the definition gives
static void runMatches(Case& c, bool scores) {
    Setup s(c, 60);
    Rng& r = c.rng;
    int n = (int)r.range(8, s.large ? 10 : 20);
    std::string K = scores ? "scores" : "matches";
    for (int k = 0; k < n; ++k) {
        RQP q = s.co.query((int)r.below(4));
        std::string ctx = q->str() + fmt(" (%d docs, %d live)", s.rd->maxDoc(), s.rd->numDocs());
        std::map<int, double> want = evaluate(q, s.co.docs, s.uids, s.st);
        QueryPtr lq = q->make();
        int total = s.rd->maxDoc() + 1;
        String before = lq->toString(L"body");
        auto judge = [&](const std::vector<Hit>& h, const std::string& how) {
            if (!scores) checkSet(h, want, K + "." + how, ctx);
            else if (q->scored) checkScores(h, want, K + "." + how, ctx);
        };
        TopDocsPtr td = s.is->search(lq, total);
        judge(topDocs(td), "topdocs");
        if (!scores) VF_EQ(td->totalHits, (int)want.size(), K + ".totalHits", ctx);
        std::vector<Hit> ref;
        {
            AllCollectorPtr a = newLucene<AllCollector>(false);
            s.is->search(lq, a);
            if (getenv("VERIF_EXPLAIN"))
                for (auto& h : a->hits)
                    if (want.count(h.doc) && !near(h.score, want[h.doc])) fprintf(stderr, "%s\n", u8(s.is->explain(lq, h.doc)->toString()).c_str());
            judge(a->hits, "inorder");
            VF_CHECK(scores || !a->sawDisorder, K + ".disorder", "documents out of order for a collector that does not accept it: " + ctx);
            ref = a->hits;
        }
        {
            AllCollectorPtr a = newLucene<AllCollector>(true);
            s.is->search(lq, a);
            judge(a->hits, "outoforder");
            if (a->sawDisorder) count("out_of_order");
            if (scores) { std::map<int, double> m; for (auto& h : ref) m[h.doc] = h.score; checkScores(a->hits, m, K + ".orders", ctx); }
        }
        WeightPtr w = lq->weight(s.is);
        for (int how = 0; how < 3; ++how) {
            std::vector<Hit> h = byScorer(s, w, r, how);
            judge(h, how == 0 ? "nextDoc" : how == 1 ? "advance" : "mixed");
            if (scores) { std::map<int, double> m; for (auto& x : ref) m[x.doc] = x.score; checkScores(h, m, K + ".cursor", ctx); }
        }
        {
            // with a filter
            RFP f = s.co.filter(1);
            std::map<int, double> w2;
            for (auto& x : want) if (f->match(s.co.docs[(size_t)s.uids[(size_t)x.first]])) w2.insert(x);
            TopDocsPtr t2 = s.is->search(lq, f->make(), total);
            if (!scores) checkSet(topDocs(t2), w2, K + ".filter", ctx + " filter " + f->str());
            else {
                std::map<int, double> m;
                for (auto& x : ref) m[x.doc] = x.score;
                checkScores(topDocs(t2), m, K + ".filtered", ctx + " filter " + f->str());
            }
        }
        if (scores) {
            double mx = 0;
            for (auto& h : ref) mx = std::max(mx, h.score);
            if (!ref.empty()) VF_CHECK(near(td->maxScore, mx), K + ".maxScore", ctx);
            std::map<int, double> m;
            for (auto& h : ref) m[h.doc] = h.score;
            int checks = 0;
            for (int i = 0; i < s.rd->maxDoc() && checks < 14; ++i) {
                bool hit = m.count(i) > 0;
                if (!hit && !r.oneIn(4)) continue;
                if (s.rd->isDeleted(i)) continue;
                ++checks;
                ExplanationPtr e = s.is->explain(lq, i);
                if (hit) {
                    VF_CHECK(near(e->getValue(), m[i]), K + ".explain", fmt("document %d scored %.9g, explained %.9g: ", i, m[i], e->getValue()) + ctx + "\n" + u8(e->toString()));
                    VF_CHECK(e->isMatch() || m[i] == 0.0, K + ".explainMatch", fmt("document %d matches but explain says no: ", i) + ctx + "\n" + u8(e->toString()));
                } else VF_CHECK(!e->isMatch(), K + ".explainNoMatch", fmt("document %d does not match but explain says yes: ", i) + ctx + "\n" + u8(e->toString()));
                count("explanations");
            }
        } else if (r.oneIn(3)) {
            // rewritten queries, clones and equal queries match the same
            QueryPtr rw = s.is->rewrite(lq);
            AllCollectorPtr a = newLucene<AllCollector>(r.oneIn(2), false);
            s.is->search(rw, a);
            checkSet(a->hits, want, K + ".rewritten", ctx);
            QueryPtr cl = boost::dynamic_pointer_cast<Query>(lq->clone());
            VF_CHECK(cl->equals(lq) && lq->equals(cl) && cl->hashCode() == lq->hashCode(), K + ".cloneEquals", ctx);
            AllCollectorPtr b = newLucene<AllCollector>(r.oneIn(2), false);
            s.is->search(cl, b);
            checkSet(b->hits, want, K + ".cloned", ctx);
            // the string form can always be built
            cl->toString(L"body");
        }
        VF_CHECK(lq->toString(L"body") == before, K + ".changed", "searching changed the query itself: " + ctx + " is now " + u8(lq->toString(L"body")));
        count("queries");
        if (!want.empty()) {
            Hash h;
            h.add(q->str());
            for (auto& x : want) h.add((uint64_t)x.first);
            sig(h.h);
        } else count("empty_queries");
        if (wantSample() && !want.empty()) sample(ctx + " -> " + docsStr(want));
    }
}
VF_MODE(matches) { runMatches(c, false); }
VF_MODE(scores) { runMatches(c, true); }

VF_MAIN
