// Orderings of results (C15), cursors (C30).
#include "sorting.h"
#include "TopScoreDocCollector.h"
#include "TopFieldCollector.h"
#include "PositiveScoresOnlyCollector.h"
#include "DocIdSet.h"
#include "DocIdSetIterator.h"
using namespace vf;

// all hits in the documented order
static std::vector<Hit> ordered(const Setup& s, std::vector<Hit> h, const std::vector<Key>& ks) {
    std::stable_sort(h.begin(), h.end(), [&](const Hit& a, const Hit& b) {
        const SDoc& da = s.co.docs[(size_t)s.uids[(size_t)a.doc]];
        const SDoc& db = s.co.docs[(size_t)s.uids[(size_t)b.doc]];
        for (auto& k : ks) {
            int c = k.val(da, a.doc, a.score).cmp(k.val(db, b.doc, b.score));
            if (k.score) c = -c;  // best score first
            if (k.rev) c = -c;
            if (c) return c < 0;
        }
        return a.doc < b.doc;
    });
    return h;
}

static std::vector<Hit> collect(Setup& s, const QueryPtr& q, const FilterPtr& f, bool ooo) {
    AllCollectorPtr a = newLucene<AllCollector>(ooo);
    s.is->search(q, f, a);
    std::vector<Hit> h = a->hits;
    std::sort(h.begin(), h.end(), [](const Hit& x, const Hit& y) { return x.doc < y.doc; });
    return h;
}
static double maxOf(const std::vector<Hit>& h) { double m = -std::numeric_limits<double>::infinity(); for (auto& x : h) m = std::max(m, x.score); return m; }

static void checkTop(const TopDocsPtr& t, const std::vector<Hit>& all, size_t start, size_t n, bool scores, const std::string& key, const std::string& ctx) {
    VF_EQ(t->totalHits, (int)all.size(), key + ".totalHits", ctx);
    size_t want = start >= all.size() ? 0 : std::min(n, all.size() - start);
    VF_EQ((size_t)t->scoreDocs.size(), want, key + ".size", ctx);
    for (size_t i = 0; i < want; ++i) {
        const Hit& h = all[start + i];
        ScoreDocPtr d = t->scoreDocs[(int32_t)i];
        if (d->doc != h.doc) {
            // the same score summed in another order may differ in its last digit
            double mine = std::nan("");
            for (auto& x : all) if (x.doc == d->doc) mine = x.score;
            if (mine != h.score && near(mine, h.score)) { count("near_ties"); continue; }
        }
        VF_CHECK(d->doc == h.doc, key + ".order", fmt("rank %zu of %zu is document %d, expected %d: ", start + i, all.size(), d->doc, h.doc) + ctx);
        if (scores) VF_CHECK(near(d->score, h.score), key + ".score", fmt("rank %zu: %.17g, expected %.17g: ", start + i, d->score, h.score) + ctx);
        else VF_CHECK(std::isnan(d->score), key + ".score", "score tracked although not asked for: " + ctx);
    }
    count("top_lists");
    count("ranks_checked", (int64_t)want);
}
static void checkValues(Setup& s, const TopDocsPtr& t, const std::vector<Key>& ks, const std::string& key, const std::string& ctx) {
    for (int32_t i = 0; i < t->scoreDocs.size(); ++i) {
        FieldDocPtr fd = boost::dynamic_pointer_cast<FieldDoc>(t->scoreDocs[i]);
        VF_CHECK(fd && fd->fields && fd->fields.size() == (int32_t)ks.size(), key + ".fields", ctx);
        const SDoc& d = s.co.docs[(size_t)s.uids[(size_t)fd->doc]];
        for (size_t j = 0; j < ks.size(); ++j) {
            Val v = ks[j].val(d, fd->doc, fd->score);
            if (ks[j].score && std::isnan(fd->score)) continue;
            ComparableValue c = fd->fields[(int32_t)j];
            bool ok;
            std::string got;
            if (v.kind == 2) { WS g = VariantUtils::get<String>(c); ok = g == v.s; got = u8(g); }
            else if (v.kind == 1) { double g = VariantUtils::get<double>(c); ok = g == v.d || (ks[j].score && near(g, v.d)); got = fmt("%.17g", g); }
            else {
                int64_t g = VariantUtils::typeOf<int64_t>(c) ? VariantUtils::get<int64_t>(c) : VariantUtils::typeOf<uint8_t>(c) ? VariantUtils::get<uint8_t>(c) : VariantUtils::get<int32_t>(c);
                ok = g == v.l;
                got = std::to_string(g);
            }
            VF_CHECK(ok, key + ".value", fmt("document %d key %zu reported ", fd->doc, j) + got + " but has " + v.str() + ": " + ctx);
            count("values_checked");
        }
    }
}

VF_MODE(sorting) {
    Setup s(c, 60);
    Rng& r = c.rng;
    int n = (int)r.range(6, 14);
    for (int k = 0; k < n; ++k) {
        RQP q = s.co.query((int)r.below(3));
        if (r.oneIn(3)) q = std::make_shared<RAll>();
        std::string ctx = q->str() + fmt(" (%d docs, %d live) ", s.rd->maxDoc(), s.rd->numDocs());
        QueryPtr lq = q->make();
        FilterPtr f;
        if (r.oneIn(4)) { RFP rf = s.co.filter(1); f = rf->make(); ctx += "filter " + rf->str() + " "; }
        // searching with a filter is always in order; otherwise the weight decides
        WeightPtr w = lq->weight(s.is);
        bool ooo = w->scoresDocsOutOfOrder() && !f;
        std::vector<Hit> hits = collect(s, lq, f, ooo), hitsIn = collect(s, lq, f, false);
        size_t total = hits.size();
        size_t N = total && r.oneIn(3) ? (size_t)r.range(1, (int64_t)total) : (size_t)r.pick({1, 2, 3, 5, 10, 50, 300});
        // by score
        std::vector<Key> byScore(1);
        byScore[0].rev = false;
        byScore[0].score = true;
        byScore[0].val = [](const SDoc&, int, double sc) { return vd(sc); };
        std::vector<Hit> best = ordered(s, hits, byScore), bestIn = ordered(s, hitsIn, byScore);
        {
            TopDocsPtr t = s.is->search(lq, f, (int32_t)N);
            checkTop(t, best, 0, N, true, "sorting.relevance", ctx + fmt("n=%zu", N));
            if (total) VF_CHECK(near(t->maxScore, maxOf(hits)), "sorting.relevance.maxScore", ctx);
            bool inOrder = f || r.oneIn(2);
            TopScoreDocCollectorPtr tc = TopScoreDocCollector::create((int32_t)N, inOrder);
            s.is->search(lq, f, tc);
            size_t st = (size_t)r.below(N + 3), hm = (size_t)r.range(1, 20);
            if (N && r.oneIn(2)) {
                TopDocsPtr p = tc->topDocs((int32_t)st, (int32_t)hm);
                size_t have = std::min(N, total);
                size_t want = st >= have ? 0 : std::min(hm, have - st);
                VF_EQ((size_t)p->scoreDocs.size(), want, "sorting.page.size", ctx + fmt("n=%zu start=%zu howMany=%zu", N, st, hm));
                for (size_t i = 0; i < want; ++i) if (p->scoreDocs[(int32_t)i]->score == (inOrder ? bestIn : best)[st + i].score || !near(p->scoreDocs[(int32_t)i]->score, (inOrder ? bestIn : best)[st + i].score)) VF_EQ(p->scoreDocs[(int32_t)i]->doc, (inOrder ? bestIn : best)[st + i].doc, "sorting.page.order", ctx + fmt("n=%zu start=%zu howMany=%zu", N, st, hm));
                count("pages");
            } else checkTop(tc->topDocs(), inOrder ? bestIn : best, 0, N, true, "sorting.collector", ctx + fmt("n=%zu", N));
            if (!inOrder) VF_CHECK(tc->acceptsDocsOutOfOrder(), "sorting.collector.accepts", ctx);
            if (r.oneIn(3)) {
                TopScoreDocCollectorPtr t2 = TopScoreDocCollector::create((int32_t)N, true);
                CollectorPtr pc = newLucene<PositiveScoresOnlyCollector>(t2);
                // hands its inner collector only documents in the order it gets them
                std::vector<Hit> pos;
                for (auto& h : pc->acceptsDocsOutOfOrder() ? hits : hitsIn) if (h.score > 0) pos.push_back(h);
                s.is->search(lq, f, pc);
                checkTop(t2->topDocs(), ordered(s, pos, byScore), 0, N, true, "sorting.positive", ctx);
            }
        }
        // by keys
        int sorts = (int)r.range(1, 4);
        for (int j = 0; j < sorts; ++j) {
            std::vector<Key> ks;
            int nk = (int)r.pick({1, 1, 2, 3, 4});
            for (int i = 0; i < nk; ++i) ks.push_back(sortKey(r, s.co));
            Collection<SortFieldPtr> sfs = Collection<SortFieldPtr>::newInstance();
            for (auto& x : ks) sfs.add(x.sf);
            SortPtr sort = newLucene<Sort>(sfs);
            std::string cx = ctx + "sort " + keysStr(ks) + fmt(" n=%zu", N);
            std::vector<Hit> all = ordered(s, hits, ks), allIn = ordered(s, hitsIn, ks);
            bool track = r.oneIn(2), trackMax = track && r.oneIn(2);
            s.is->setDefaultFieldSortScoring(track, trackMax);
            TopFieldDocsPtr t = s.is->search(lq, f, (int32_t)N, sort);
            checkTop(t, all, 0, N, track, "sorting.sort", cx);
            checkValues(s, t, ks, "sorting.sort", cx);
            if (trackMax && total) VF_CHECK(near(t->maxScore, maxOf(hits)), "sorting.sort.maxScore", cx);
            VF_EQ(t->fields.size(), sfs.size(), "sorting.sort.fields", cx);
            // the collector itself, in all its kinds
            bool fill = r.oneIn(2), sc = r.oneIn(2), mx = r.oneIn(2), inOrder = f || r.oneIn(2);
            TopFieldCollectorPtr tc = TopFieldCollector::create(sort, (int32_t)N, fill, sc, mx, inOrder);
            s.is->search(lq, f, tc);
            TopDocsPtr t2 = tc->topDocs();
            bool scores = sc || mx;
            checkTop(t2, inOrder ? allIn : all, 0, N, scores, "sorting.fieldcollector", cx + fmt(" fill=%d scores=%d max=%d inorder=%d", fill, sc, mx, inOrder));
            if (fill) checkValues(s, t2, ks, "sorting.fieldcollector", cx);
            if (mx && total) VF_CHECK(near(t2->maxScore, maxOf(inOrder ? hitsIn : hits)), "sorting.fieldcollector.maxScore", cx);
            Hash h;
            h.add(keysStr(ks)).add(q->str()).add((uint64_t)total);
            if (total > 1) sig(h.h);
            count(nk > 1 ? "multi_key_sorts" : "single_key_sorts");
            if (total > N) count("cut_lists");
        }
        if (ooo) count("out_of_order");
        count("queries");
        if (wantSample() && total) sample(ctx + fmt("%zu hits, top %zu", total, N));
    }
}

// ---- cursors

struct Cur { int doc; double score; };
static double scoreOf(const ScorerPtr& s) { return s->score(); }
static double scoreOf(const DocIdSetIteratorPtr& s) { return 0; }
// drives an iterator with a random mixture and compares with the full sequence
template <class It> static void driveDocs(const It& it, const std::vector<Cur>& want, Rng& r, int maxDoc, bool score, const std::string& key, const std::string& ctx) {
    size_t at = 0;  // next expected element
    int last = -1;
    int style = (int)r.below(4);
    for (int steps = 0;; ++steps) {
        int got, target = -1;
        bool adv = style == 0 ? false : style == 1 ? true : r.oneIn(2);
        if (!adv) got = it->nextDoc();
        else {
            int gap = style == 3 && r.oneIn(2) ? (int)r.below((uint64_t)maxDoc + 2) : (int)r.pick({1, 1, 2, 3, 5, 17, 40});
            target = last + gap;
            if (target <= last) target = last + 1;
            while (at < want.size() && want[at].doc < target) ++at;
            got = it->advance(target);
        }
        int exp = at < want.size() ? want[at].doc : DocIdSetIterator::NO_MORE_DOCS;
        VF_CHECK(got == exp, key + (adv ? ".advance" : ".next"), fmt("at %d, %s %d gave %d, expected %d: ", last, adv ? "advance" : "next", target, got, exp) + ctx);
        VF_CHECK(it->docID() == exp, key + ".docID", fmt("docID %d after %d: ", it->docID(), exp) + ctx);
        count("cursor_steps");
        if (exp == DocIdSetIterator::NO_MORE_DOCS) return;
        if (score && !r.oneIn(3)) {
            double v = scoreOf(it);
            VF_CHECK(near(v, want[at].score), key + ".score", fmt("document %d: %.9g, expected %.9g ", got, v, want[at].score) + ctx);
            if (r.oneIn(3)) VF_CHECK(near(scoreOf(it), v), key + ".scoreTwice", ctx);
        }
        last = exp;
        ++at;
    }
}

struct SpanAt { int doc, start, end; bool operator==(const SpanAt& o) const { return doc == o.doc && start == o.start && end == o.end; } };
static std::string spanStr(const SpanAt& x) { return fmt("%d:%d-%d", x.doc, x.start, x.end); }

static void scorers(Setup& s, Rng& r) {
    std::vector<int> bases;
    std::vector<IndexReaderPtr> lv = s.leaves(bases);
    RQP q = s.co.query((int)r.below(4));
    std::string ctx = q->str() + fmt(" (%d docs, %d live)", s.rd->maxDoc(), s.rd->numDocs());
    QueryPtr lq = q->make();
    WeightPtr w = lq->weight(s.is);
    for (size_t i = 0; i < lv.size(); ++i) {
        if (lv.size() > 6 && !r.oneIn(3)) continue;
        std::vector<Cur> want;
        ScorerPtr a = w->scorer(lv[i], true, false);
        if (a) {
            VF_CHECK(a->docID() == -1 || a->docID() == DocIdSetIterator::NO_MORE_DOCS, "cursors.scorer.before", ctx);
            for (int d; (d = a->nextDoc()) != DocIdSetIterator::NO_MORE_DOCS;) {
                VF_CHECK(!lv[i]->isDeleted(d), "cursors.scorer.deleted", ctx);
                want.push_back({d, a->score()});
            }
        }
        // independent of the library: the documents the definition matches
        std::vector<int> ref;
        for (int d = 0; d < lv[i]->maxDoc(); ++d) { int u = s.uids[(size_t)(d + bases[i])]; if (u >= 0 && q->match(s.co.docs[(size_t)u])) ref.push_back(d); }
        bool same = ref.size() == want.size();
        for (size_t k = 0; same && k < ref.size(); ++k) same = ref[k] == want[k].doc;
        VF_CHECK(same, "cursors.scorer.set", ctx);
        for (int k = 0; k < 3; ++k) {
            ScorerPtr b = w->scorer(lv[i], true, false);
            VF_CHECK((bool)b == (bool)a, "cursors.scorer.null", ctx);
            if (b) driveDocs(b, want, r, lv[i]->maxDoc(), true, "cursors.scorer", ctx);
        }
        if (want.size()) { Hash h; h.add(ctx).add((uint64_t)i); for (auto& x : want) h.add((uint64_t)x.doc); sig(h.h); }
    }
    count("scorer_queries");
}
static void filters(Setup& s, Rng& r) {
    std::vector<int> bases;
    std::vector<IndexReaderPtr> lv = s.leaves(bases);
    RFP f = s.co.filter((int)r.below(3));
    FilterPtr lf = f->make();
    std::string ctx = "filter " + f->str() + fmt(" (%d docs, %d live)", s.rd->maxDoc(), s.rd->numDocs());
    for (size_t i = 0; i < lv.size(); ++i) {
        if (lv.size() > 6 && !r.oneIn(3)) continue;
        DocIdSetPtr set = lf->getDocIdSet(lv[i]);
        std::vector<Cur> want;
        DocIdSetIteratorPtr a = set ? set->iterator() : DocIdSetIteratorPtr();
        if (a) for (int d; (d = a->nextDoc()) != DocIdSetIterator::NO_MORE_DOCS;) {
            want.push_back({d, 0});
            VF_CHECK(want.size() <= (size_t)lv[i]->maxDoc(), "cursors.filter.endless", ctx);
        }
        for (size_t k = 1; k < want.size(); ++k) VF_CHECK(want[k].doc > want[k - 1].doc, "cursors.filter.order", ctx);
        // filters may include deleted documents; live ones must be right
        std::set<int> got;
        for (auto& x : want) got.insert(x.doc);
        for (int d = 0; d < lv[i]->maxDoc(); ++d) { int u = s.uids[(size_t)(d + bases[i])]; if (u >= 0) VF_CHECK(got.count(d) == (f->match(s.co.docs[(size_t)u]) ? 1u : 0u), "cursors.filter.set", fmt("document %d ", d) + ctx); }
        for (int k = 0; k < 3 && set; ++k) {
            DocIdSetIteratorPtr b = set->iterator();
            if (b) driveDocs(b, want, r, lv[i]->maxDoc(), false, "cursors.filter", ctx);
        }
    }
    count("filter_sets");
}
static void spans(Setup& s, Rng& r) {
    RSP q = s.co.span((int)r.below(4), true);
    SpanQueryPtr sq = boost::dynamic_pointer_cast<SpanQuery>(s.is->rewrite(q->make()));
    IndexReaderPtr rd = s.rd;
    std::vector<int> bases;
    std::vector<IndexReaderPtr> lv = s.leaves(bases);
    int base = 0;
    if (r.oneIn(2)) { size_t i = (size_t)r.below(lv.size()); rd = lv[i]; base = bases[i]; }
    std::string ctx = q->str() + fmt(" (%d docs, %d live, base %d)", s.rd->maxDoc(), s.rd->numDocs(), base);
    std::vector<SpanAt> want;
    SpansPtr a = sq->getSpans(rd);
    std::set<int> docs;
    while (a->next()) {
        SpanAt x{a->doc(), a->start(), a->end()};
        VF_CHECK(x.doc >= 0 && x.doc < rd->maxDoc() && !rd->isDeleted(x.doc), "cursors.spans.deleted", ctx);
        VF_CHECK(x.start >= 0 && x.end > x.start, "cursors.spans.extent", spanStr(x) + " " + ctx);
        if (!want.empty()) VF_CHECK(x.doc > want.back().doc || (x.doc == want.back().doc && x.start >= want.back().start), "cursors.spans.order", spanStr(x) + " after " + spanStr(want.back()) + " " + ctx);
        want.push_back(x);
        docs.insert(x.doc);
        tick();
    }
    for (int d = 0; d < rd->maxDoc(); ++d) { int u = s.uids[(size_t)(d + base)]; if (u >= 0) VF_CHECK(docs.count(d) == (q->match(s.co.docs[(size_t)u]) ? 1u : 0u), "cursors.spans.set", fmt("document %d ", d) + ctx); }
    for (int k = 0; k < 4; ++k) {
        SpansPtr b = sq->getSpans(rd);
        size_t at = 0;
        int last = -1, style = (int)r.below(3);
        for (;;) {
            bool skip = style == 0 ? true : style == 1 ? r.oneIn(2) : r.oneIn(5);
            bool more;
            int target = -1;
            if (skip) {
                target = last + (int)r.pick({1, 1, 2, 3, 7, 20});
                while (at < want.size() && want[at].doc < target) ++at;
                more = b->skipTo(target);
            } else more = b->next();
            std::string op = skip ? fmt("skipTo(%d) from %d ", target, last) : fmt("next from %d ", last);
            VF_CHECK(more == (at < want.size()), "cursors.spans.end", op + fmt("gave %d, expected %d: ", more, at < want.size()) + ctx);
            count("span_steps");
            if (!more) break;
            SpanAt x{b->doc(), b->start(), b->end()};
            VF_CHECK(x == want[at], skip ? "cursors.spans.skip" : "cursors.spans.next", op + "gave " + spanStr(x) + ", expected " + spanStr(want[at]) + ": " + ctx);
            last = x.doc;
            ++at;
        }
    }
}

struct Post { int doc, freq; std::vector<int> pos; };
static void terms(Setup& s, Rng& r) {
    IndexReaderPtr rd = s.rd;
    std::vector<int> bases;
    std::vector<IndexReaderPtr> lv = s.leaves(bases);
    int base = 0;
    if (r.oneIn(2)) { size_t i = (size_t)r.below(lv.size()); rd = lv[i]; base = bases[i]; }
    std::string cx = fmt("(%d docs, %d live, base %d)", s.rd->maxDoc(), s.rd->numDocs(), base);
    auto truth = [&](const WS& f, const WS& t) {
        std::vector<Post> v;
        for (int d = 0; d < rd->maxDoc(); ++d) {
            int u = s.uids[(size_t)(d + base)];
            if (u < 0) continue;
            auto o = s.co.docs[(size_t)u].occ(f, t);
            if (!o) continue;
            Post p{d, (int)o->size(), {}};
            for (auto& x : *o) p.pos.push_back(x.pos);
            v.push_back(p);
        }
        return v;
    };
    TermDocsPtr td = rd->termDocs();
    TermPositionsPtr tp = rd->termPositions();
    for (int k = 0; k < 8; ++k) {
        WS f = r.oneIn(4) ? L"title" : L"body", t = r.oneIn(12) ? L"zzz" : s.co.word();
        std::vector<Post> want = truth(f, t);
        bool positions = r.oneIn(2);
        std::string ctx = u8(f) + ":" + u8(t) + " " + cx;
        TermDocsPtr c = positions ? boost::static_pointer_cast<TermDocs>(tp) : td;
        if (r.oneIn(4)) { if (positions) { tp = rd->termPositions(newLucene<Term>(f, t)); c = tp; } else { td = rd->termDocs(newLucene<Term>(f, t)); c = td; } }
        else if (r.oneIn(3)) { TermEnumPtr e = rd->terms(newLucene<Term>(f, t)); TermPtr x = e->term(); if (x && x->field() == f && x->text() == t) c->seek(e); else c->seek(newLucene<Term>(f, t)); }
        else c->seek(newLucene<Term>(f, t));
        size_t at = 0;
        int last = -1, style = (int)r.below(4);
        Collection<int32_t> docs = Collection<int32_t>::newInstance(5), freqs = Collection<int32_t>::newInstance(5);
        for (;;) {
            int how = style == 0 ? 0 : style == 1 ? 1 : (int)r.below(positions ? 2 : 3);
            if (how == 2) {
                int n = c->read(docs, freqs);
                VF_CHECK(n > 0 ? at + (size_t)n <= want.size() : at == want.size(), "cursors.termdocs.read", fmt("read %d with %zu left: ", n, want.size() - at) + ctx);
                for (int i = 0; i < n; ++i, ++at) VF_CHECK(docs[i] == want[at].doc && freqs[i] == want[at].freq, "cursors.termdocs.read", fmt("read %d/%d expected %d/%d: ", docs[i], freqs[i], want[at].doc, want[at].freq) + ctx);
                count("bulk_reads");
                if (n == 0) break;
                last = docs[n - 1];
                continue;
            }
            bool more;
            int target = -1;
            if (how == 1) {
                target = last + (int)r.pick({1, 1, 2, 3, 9, 33});
                while (at < want.size() && want[at].doc < target) ++at;
                more = c->skipTo(target);
            } else more = c->next();
            std::string op = how == 1 ? fmt("skipTo(%d) from %d ", target, last) : fmt("next from %d ", last);
            VF_CHECK(more == (at < want.size()), "cursors.termdocs.end", op + fmt("gave %d with %zu left: ", more, want.size() - at) + ctx);
            count("postings_steps");
            if (!more) break;
            VF_CHECK(c->doc() == want[at].doc && c->freq() == want[at].freq, "cursors.termdocs.doc", op + fmt("gave %d/%d, expected %d/%d: ", c->doc(), c->freq(), want[at].doc, want[at].freq) + ctx);
            if (positions) {
                int m = (int)r.below((uint64_t)want[at].freq + 1);
                if (r.oneIn(2)) m = want[at].freq;
                for (int i = 0; i < m; ++i) { int p = tp->nextPosition(); VF_CHECK(p == want[at].pos[(size_t)i], "cursors.positions", fmt("position %d of document %d is %d, expected %d: ", i, want[at].doc, p, want[at].pos[(size_t)i]) + ctx); }
                count("positions_read", m);
            }
            last = want[at].doc;
            ++at;
        }
    }
    td->close();
    tp->close();
    {
        // all live documents
        TermDocsPtr all = rd->termDocs(TermPtr());
        int last = -1;
        for (;;) {
            bool skip = r.oneIn(2);
            int target = skip ? last + (int)r.pick({1, 2, 5, 30}) : last + 1;
            int exp = target;
            while (exp < rd->maxDoc() && rd->isDeleted(exp)) ++exp;
            bool more = skip ? all->skipTo(target) : all->next();
            VF_CHECK(more == (exp < rd->maxDoc()), "cursors.alldocs.end", fmt("from %d to %d: ", last, target) + cx);
            if (!more) break;
            VF_CHECK(all->doc() == exp && all->freq() == 1, "cursors.alldocs", fmt("from %d to %d gave %d: ", last, target, all->doc()) + cx);
            last = exp;
            count("alldocs_steps");
        }
    }
    // term enumerations: every term from any starting point
    std::vector<std::pair<WS, WS>> seq;
    {
        TermEnumPtr e = rd->terms();
        while (e->next()) { TermPtr t = e->term(); seq.push_back({t->field(), t->text()}); }
        for (size_t i = 1; i < seq.size(); ++i) VF_CHECK(seq[i - 1] < seq[i], "cursors.terms.order", cx);
        e->close();
    }
    for (int k = 0; k < 6; ++k) {
        std::pair<WS, WS> from = seq.empty() || r.oneIn(4) ? std::make_pair(WS(L"body"), s.co.word() + L"a") : seq[r.below(seq.size())];
        if (r.oneIn(6)) from.second = L"";
        size_t at = (size_t)(std::lower_bound(seq.begin(), seq.end(), from) - seq.begin());
        TermEnumPtr e = rd->terms(newLucene<Term>(from.first, from.second));
        int steps = (int)r.below(12);
        for (int i = 0; i <= steps; ++i, ++at) {
            TermPtr t = e->term();
            VF_CHECK((bool)t == (at < seq.size()), "cursors.terms.end", u8(from.second) + " " + cx);
            if (!t) { VF_CHECK(!e->next(), "cursors.terms.final", cx); break; }
            VF_CHECK(std::make_pair(WS(t->field()), WS(t->text())) == seq[at], "cursors.terms.seek", u8(t->toString()) + " expected " + u8(seq[at].second) + " " + cx);
            int df = 0;
            { TermDocsPtr x = rd->termDocs(t); while (x->next()) ++df; }
            VF_CHECK(df <= e->docFreq() && e->docFreq() == rd->docFreq(t), "cursors.terms.docFreq", cx);
            count("term_steps");
            bool more = e->next();
            VF_CHECK(more == (at + 1 < seq.size()), "cursors.terms.next", cx);
        }
        e->close();
    }
}

VF_MODE(cursors) {
    Setup s(c, 80);
    Rng& r = c.rng;
    int n = (int)r.range(4, 10);
    for (int k = 0; k < n; ++k) {
        scorers(s, r);
        filters(s, r);
        spans(s, r);
        terms(s, r);
    }
    if (wantSample()) sample(fmt("%d docs, %d live, %zu terms", s.rd->maxDoc(), s.rd->numDocs(), s.co.vocab.size()));
}

VF_MAIN
