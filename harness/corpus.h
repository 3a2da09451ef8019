// A corpus of model documents, indexed with random segmentation and deletions, and a generator of queries over it.
#ifndef VERIF_CORPUS_H
#define VERIF_CORPUS_H
#include "search.h"

namespace vf {
struct Corpus {
    Case& c;
    Rng& r;
    std::vector<WS> vocab, titles, cats;
    std::vector<SDoc> docs;              // in insertion order, deleted ones included
    int step = 4;
    bool synonyms = false, boosts = false, noNorms = false;
    bool constOnly = false;              // no query that is rewritten differently for each index
    bool noCustom = false;
    int heavy = 0;                       // one field in so many repeats a word very often
    bool shortDocs = false, large = false;
    ModelOpts opts;

    explicit Corpus(Case& cs) : c(cs), r(cs.rng) {
        int v = (int)r.pick({4, 6, 8, 12, 20});
        std::set<WS> s;
        while ((int)s.size() < v) {
            WS w;
            int n = (int)r.range(1, 6);
            for (int i = 0; i < n; ++i) w += (wchar_t)(r.oneIn(9) ? (r.oneIn(2) ? 0xe9 : 0x4e2d) : L'a' + r.below(4));
            s.insert(w);
        }
        vocab.assign(s.begin(), s.end());
        r.shuffle(vocab);
        for (int i = 0; i < 8; ++i) cats.push_back(WS(1, (wchar_t)(L'A' + i)) + vocab[r.below(vocab.size())]);
        step = (int)r.pick({1, 2, 3, 4, 6, 8, 16, 32, 64});
        synonyms = r.oneIn(3);
        boosts = r.oneIn(2);
        noNorms = r.oneIn(5);
        heavy = (int)r.pick({0, 8, 20, 40});
    }
    WS word() { size_t i = (size_t)std::min(r.below(vocab.size()), r.below(vocab.size())); return vocab[i]; }
    FieldM text(const WS& name, int n) {
        FieldM f;
        f.name = name;
        f.indexed = f.tokenized = f.viaStream = true;
        f.noNorms = noNorms && name == L"body";
        f.boost = boosts && r.oneIn(4) ? r.pick({0.5, 2.0, 3.0}) : 1.0;
        std::set<WS> here;
        for (int i = 0; i < n; ++i) {
            Tok t;
            t.term = word();
            t.inc = i == 0 ? 1 : synonyms && r.oneIn(6) ? 0 : r.oneIn(8) ? (int)r.range(2, 3) : 1;
            if (t.inc == 0 && here.count(t.term)) t.inc = 1;
            if (t.inc) here.clear();
            here.insert(t.term);
            t.start = i * 3;
            t.end = i * 3 + 2;
            f.toks.push_back(t);
        }
        if (heavy && r.oneIn(heavy)) {
            // one word many times, around the sizes of caches
            WS w = word();
            int want = (int)r.pick({16, 31, 32, 33, 34, 48, 64, 100}), have = 0;
            for (auto& t : f.toks) if (t.term == w) ++have;
            for (; have < want; ++have) {
                Tok t;
                t.term = w;
                t.inc = 1;
                t.start = n * 3;
                t.end = n * 3 + 2;
                f.toks.push_back(t);
                ++n;
            }
        }
        f.endOffset = n * 3;
        return f;
    }
    FieldM raw(const WS& name, const WS& v, bool stored) {
        FieldM f;
        f.name = name;
        f.value = v;
        f.stored = stored;
        f.indexed = true;
        f.noNorms = true;
        return f;
    }
    SDoc makeDoc(int uid) {
        SDoc d;
        d.d.uid = uid;
        d.d.boost = boosts && r.oneIn(6) ? 2.0 : 1.0;
        d.d.fields.push_back(raw(L"uid", std::to_wstring(uid), true));
        d.d.fields.push_back(raw(L"fs", std::to_wstring(uid % 7), false));
        if (!r.oneIn(12)) d.d.fields.push_back(text(L"body", (int)r.range(1, shortDocs ? 3 : r.oneIn(6) ? 30 : 12)));
        if (!r.oneIn(3)) d.d.fields.push_back(text(L"title", (int)r.range(1, 4)));
        d.hasCat = !r.oneIn(6);
        if (d.hasCat) { d.cat = r.pick(cats); d.d.fields.push_back(raw(L"cat", d.cat, false)); }
        d.hasNum = !r.oneIn(8);
        d.num = r.oneIn(10) ? (r.oneIn(2) ? INT32_MIN : INT32_MAX) : r.oneIn(3) ? (int32_t)r.next() : (int32_t)r.range(-20, 20);
        d.lng = r.oneIn(10) ? (r.oneIn(2) ? INT64_MIN : INT64_MAX) : r.oneIn(3) ? (int64_t)r.next() : r.range(-20, 20);
        d.dbl = r.oneIn(10) ? r.pick({0.0, 1e300, -1e300, 1e-300, -1e-300}) : r.oneIn(2) ? (r.unit() - 0.5) * 100 : (double)r.range(-20, 20) / 2;
        d.inv = invert(d.d, opts);
        return d;
    }
    DocumentPtr lib(const SDoc& d) {
        DocumentPtr doc = toDocument(d.d);
        if (d.hasNum) {
            doc->add(newLucene<NumericField>(L"num", step)->setIntValue(d.num));
            doc->add(newLucene<NumericField>(L"lng", step)->setLongValue(d.lng));
            doc->add(newLucene<NumericField>(L"dbl", step)->setDoubleValue(d.dbl));
        }
        return doc;
    }
    IndexWriterPtr writer(const DirectoryPtr& dir) {
        IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<ModelAnalyzer>(0, 1), true, IndexWriter::MaxFieldLengthUNLIMITED);
        w->setMergeScheduler(newLucene<SerialMergeScheduler>());
        w->setMaxBufferedDocs(large ? (int)r.pick({400, 1100, 10000}) : (int)r.pick({2, 3, 5, 10, 100}));
        w->setMergeFactor((int)r.pick({2, 3, 10, 50}));
        w->setUseCompoundFile(r.oneIn(2));
        w->setTermIndexInterval((int)r.pick({1, 4, 128}));
        return w;
    }
    void generate(int n) { for (int i = 0; i < n; ++i) docs.push_back(makeDoc(i)); }
    // documents [from, to) into a new directory; some of them deleted
    DirectoryPtr index(size_t from, size_t to, int delPct) {
        DirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = writer(dir);
        for (size_t i = from; i < to; ++i) w->addDocument(lib(docs[i]));
        bool opt = r.oneIn(6);
        if (opt) w->optimize();
        for (size_t i = from; i < to; ++i)
            if (docs[i].alive && r.chance(delPct)) {
                w->deleteDocuments(newLucene<Term>(L"uid", std::to_wstring(docs[i].d.uid)));
                docs[i].alive = false;
            } else if (!docs[i].alive) w->deleteDocuments(newLucene<Term>(L"uid", std::to_wstring(docs[i].d.uid)));
        if (r.oneIn(8)) w->optimize();
        w->close();
        return dir;
    }

    // ---- filters
    RFP filter(int depth) {
        auto f = std::make_shared<RFn>();
        switch (r.below(depth > 0 ? 9 : 7)) {
        case 0: { WS p = word().substr(0, 1); f->mk = [=] { return newLucene<PrefixFilter>(newLucene<Term>(L"body", p)); }; f->m = [=](const SDoc& d) { auto it = d.inv.fields.find(L"body"); if (it == d.inv.fields.end()) return false; for (auto& t : it->second.terms) if (t.first.compare(0, p.size(), p) == 0) return true; return false; }; f->s = "prefix " + u8(p); break; }
        case 1: {
            WS lo = r.pick(cats), hi = r.pick(cats);
            bool il = r.oneIn(2), ih = r.oneIn(2);
            f->mk = [=] { return newLucene<TermRangeFilter>(L"cat", lo, hi, il, ih); };
            f->m = [=](const SDoc& d) { return d.hasCat && (il ? d.cat >= lo : d.cat > lo) && (ih ? d.cat <= hi : d.cat < hi); };
            f->s = "termrange " + u8(lo) + "-" + u8(hi) + fmt("%d%d", il, ih);
            break;
        }
        case 2: {
            int32_t a = (int32_t)r.range(-22, 22), b2 = (int32_t)r.range(-22, 22);
            int st = step;
            f->mk = [=] { return NumericRangeFilter::newIntRange(L"num", st, a, b2, true, true); };
            f->m = [=](const SDoc& d) { return d.hasNum && d.num >= a && d.num <= b2; };
            f->s = fmt("num %d..%d", a, b2);
            break;
        }
        case 3: {
            WS lo = r.pick(cats), hi = r.pick(cats);
            bool il = r.oneIn(2), ih = r.oneIn(2), hl = !r.oneIn(4), hh = !r.oneIn(4);
            if (!hl) lo = L"";
            if (!hh) hi = L"";
            f->mk = [=] { return FieldCacheRangeFilter::newStringRange(L"cat", lo, hi, il, ih); };
            // both bounds empty means unbounded; documents without a value are never in a bounded range
            f->m = [=](const SDoc& d) { return d.hasCat && (lo.empty() || (il ? d.cat >= lo : d.cat > lo)) && (hi.empty() || (ih ? d.cat <= hi : d.cat < hi)); };
            f->s = "fcrange " + u8(lo) + "-" + u8(hi) + fmt("%d%d", il, ih);
            if (!hl && !hh) { WS x = r.pick(cats); f->mk = [=] { return FieldCacheRangeFilter::newStringRange(L"cat", x, x, true, true); }; f->m = [=](const SDoc& d) { return d.hasCat && d.cat == x; }; f->s = "fcrange =" + u8(x); }
            break;
        }
        case 4: {
            std::set<WS> ts;
            int n = (int)r.range(1, 4);
            for (int i = 0; i < n; ++i) ts.insert(r.pick(cats));
            f->mk = [=] { Collection<String> c2 = Collection<String>::newInstance(); for (auto& t : ts) c2.add(t); return newLucene<FieldCacheTermsFilter>(L"cat", c2); };
            f->m = [=](const SDoc& d) { return d.hasCat && ts.count(d.cat); };
            f->s = "fcterms";
            break;
        }
        case 5: {
            int64_t a = r.range(-22, 22), b2 = r.range(-22, 22);
            bool il = r.oneIn(2), ih = r.oneIn(2);
            f->mk = [=] { return FieldCacheRangeFilter::newLongRange(L"lng", FieldCache::NUMERIC_UTILS_LONG_PARSER(), a, b2, il, ih); };
            // documents without a value count as zero in a field cache of numbers
            f->m = [=](const SDoc& d) { int64_t v = d.hasNum ? d.lng : 0; return (il ? v >= a : v > a) && (ih ? v <= b2 : v < b2); };
            f->s = fmt("fclong %lld..%lld %d%d", (long long)a, (long long)b2, il, ih);
            break;
        }
        case 6: {
            double a = (double)r.range(-44, 44) / 4, b2 = (double)r.range(-44, 44) / 4;
            bool il = r.oneIn(2), ih = r.oneIn(2);
            f->mk = [=] { return FieldCacheRangeFilter::newDoubleRange(L"dbl", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER(), a, b2, il, ih); };
            f->m = [=](const SDoc& d) { double v = d.hasNum ? d.dbl : 0; return (il ? v >= a : v > a) && (ih ? v <= b2 : v < b2); };
            f->s = fmt("fcdouble %g..%g %d%d", a, b2, il, ih);
            break;
        }
        case 7: {
            RQP q = query(depth - 1);
            bool cache = r.oneIn(2);
            if (cache) { auto keep = std::make_shared<FilterPtr>(); f->mk = [=] { if (!*keep) *keep = newLucene<CachingWrapperFilter>(newLucene<QueryWrapperFilter>(q->make())); return *keep; }; }
            else f->mk = [=] { return newLucene<QueryWrapperFilter>(q->make()); };
            f->m = [=](const SDoc& d) { return q->match(d); };
            f->s = std::string(cache ? "cached " : "") + "query " + q->str();
            break;
        }
        default: {
            RSP q = span(1, true);
            f->mk = [=] { return newLucene<SpanQueryFilter>(boost::dynamic_pointer_cast<SpanQuery>(q->make())); };
            f->m = [=](const SDoc& d) { return q->match(d); };
            f->s = "spanfilter " + q->str();
        }
        }
        return f;
    }
    RSP spanTerm(const WS& f) { auto t = std::make_shared<RSpanTerm>(); t->f = f; t->t = word(); return t; }
    // spans whose enumeration the definition fixes: flat near over distinct terms
    RSP span(int depth, bool any) {
        WS f = r.oneIn(5) ? L"title" : L"body";
        return spanOn(f, depth);
    }
    RSP spanOn(const WS& f, int depth) {
        switch (depth > 0 ? r.below(6) : 0) {
        case 0: return spanTerm(f);
        case 1: {
            auto o = std::make_shared<RSpanOr>();
            o->f = f;
            int n = (int)r.range(1, 3);
            for (int i = 0; i < n; ++i) o->cl.push_back(spanOn(f, depth - 1));
            for (auto& x : o->cl) if (!x->exactSpans) o->exactSpans = false;
            return o;
        }
        case 2: { auto o = std::make_shared<RSpanFirst>(); o->f = f; o->m = spanOn(f, depth - 1); o->end = (int)r.range(1, 8); o->exactSpans = o->m->exactSpans; return o; }
        case 3: {
            auto o = std::make_shared<RSpanNot>();
            o->f = f;
            o->inc = r.oneIn(2) ? spanTerm(f) : flatNear(f);
            o->exc = spanTerm(f);
            o->exactSpans = o->inc->exactSpans && o->exc->exactSpans;
            return o;
        }
        default: return flatNear(f);
        }
    }
    RSP flatNear(const WS& f) {
        auto o = std::make_shared<RSpanNear>();
        o->f = f;
        o->slop = (int)r.range(0, 5);
        o->ordered = r.oneIn(2);
        std::set<WS> used;
        int n = (int)r.range(2, 3);
        for (int i = 0; i < n; ++i) {
            auto t = std::make_shared<RSpanTerm>();
            t->f = f;
            for (int k = 0; k < 20; ++k) { t->t = word(); if (!used.count(t->t)) break; }
            if (used.count(t->t)) break;
            used.insert(t->t);
            o->cl.push_back(t);
        }
        if (o->cl.size() < 2) return spanTerm(f);
        o->exactSpans = false;  // which of several overlapping matches are enumerated is the library's choice
        return o;
    }
    RQP phrase(bool multi) {
        auto p = std::make_shared<RPhrase>();
        p->f = r.oneIn(5) ? L"title" : L"body";
        p->multi = multi;
        int n = (int)r.range(multi ? 1 : 2, 4);
        bool sloppy = !synonyms && r.oneIn(2);  // see the known finding on sloppy phrases over stacked terms
        std::set<WS> used;
        int at = !sloppy && r.oneIn(5) ? (int)r.range(0, 2) : 0;
        for (int i = 0; i < n; ++i) {
            std::vector<WS> alts;
            int m = multi ? (int)r.range(1, 3) : 1;
            for (int k = 0; k < m; ++k) {
                WS w = word();
                for (int tries = 0; sloppy && used.count(w) && tries < 20; ++tries) w = word();
                if (sloppy && used.count(w)) continue;
                if (std::find(alts.begin(), alts.end(), w) != alts.end()) continue;
                used.insert(w);
                alts.push_back(w);
            }
            if (alts.empty()) continue;
            p->terms.push_back(alts);
            p->pos.push_back(at);
            at += r.oneIn(6) ? 2 : 1;
        }
        if (p->terms.empty()) { p->terms.push_back({word()}); p->pos.push_back(0); }
        p->slop = sloppy && p->terms.size() > 1 ? (int)r.range(1, 6) : 0;
        if (multi && synonyms) p->scored = false;  // two alternatives at one position: counted once or twice
        return p;
    }
    RQP multiTerm() {
        auto m = std::make_shared<RMulti>();
        m->f = r.oneIn(5) ? L"title" : L"body";
        m->method = constOnly ? 1 : (int)r.below(4);
        WS f = m->f;
        switch (r.pick(constOnly ? std::vector<int>{0, 1, 3} : std::vector<int>{0, 1, 2, 3})) {
        case 0: {
            WS w = word();
            WS p = w.substr(0, (size_t)r.range(r.oneIn(8) ? 0 : 1, (int64_t)w.size()));
            m->accept = [=](const WS& t) { return t.compare(0, p.size(), p) == 0 ? 1.0 : -1.0; };
            m->mk = [=] { return newLucene<PrefixQuery>(newLucene<Term>(f, p)); };
            m->s = u8(p) + "*(prefix)";
            break;
        }
        case 1: {
            WS p = word();
            int n = (int)r.range(0, 2);
            for (int i = 0; i <= n; ++i) { size_t at = (size_t)r.below(p.size() + 1); if (r.oneIn(2)) p.insert(at, 1, r.oneIn(2) ? L'*' : L'?'); else if (at < p.size()) p[at] = r.oneIn(2) ? L'*' : L'?'; }
            m->accept = [=](const WS& t) { return wildMatch(p, 0, t, 0) ? 1.0 : -1.0; };
            m->mk = [=] { return newLucene<WildcardQuery>(newLucene<Term>(f, p)); };
            m->s = u8(p) + "(wild)";
            break;
        }
        case 2: {
            WS w = word();
            if (r.oneIn(2)) w[r.below(w.size())] = (wchar_t)(L'a' + r.below(5));
            if (r.oneIn(3)) w.insert((size_t)r.below(w.size() + 1), 1, L'b');
            double ms = r.pick({0.01, 0.31, 0.45, 0.5, 0.55, 0.7});
            int pl = r.oneIn(2) ? 0 : (int)r.range(1, 3);
            m->method = -1;
            bool exact = !((double)w.size() > 1.0 / (1.0 - ms));
            if (exact) m->accept = [=](const WS& t) { return t == w ? 1.0 : -1.0; };
            else m->accept = [=](const WS& t) { double s = fuzzySim(w, pl, t); return s > ms ? (s - ms) / (1 - ms) : -1.0; };
            if (exact) m->scored = false;  // rewritten to a plain term query without the boost
            m->mk = [=] { return newLucene<FuzzyQuery>(newLucene<Term>(f, w), ms, pl); };
            m->s = u8(w) + fmt("~%g/%d", ms, pl);
            break;
        }
        default: {
            WS lo = word(), hi = word();
            bool il = r.oneIn(2), ih = r.oneIn(2), hl = !r.oneIn(5), hh = !r.oneIn(5);
            m->accept = [=](const WS& t) { return (!hl || (il ? t >= lo : t > lo)) && (!hh || (ih ? t <= hi : t < hi)) ? 1.0 : -1.0; };
            m->mk = [=] { return newLucene<TermRangeQuery>(f, hl ? StringValue(lo) : StringValue(VariantUtils::null()), hh ? StringValue(hi) : StringValue(VariantUtils::null()), il, ih); };
            m->s = std::string(il ? "[" : "{") + (hl ? u8(lo) : "*") + " TO " + (hh ? u8(hi) : "*") + (ih ? "]" : "}");
        }
        }
        return m;
    }
    RQP numeric() {
        auto n = std::make_shared<RNum>();
        n->type = (int)r.below(3);
        n->f = n->type == 0 ? L"num" : n->type == 1 ? L"lng" : L"dbl";
        n->step = step;
        n->method = (int)r.pick({0, 1, 1, 2});
        if (step > 8 || step < 1 || constOnly) n->method = 1;  // a boolean rewrite may exceed the clause limit
        n->hasLo = !r.oneIn(5);
        n->hasHi = !r.oneIn(5);
        if (n->type == 0 && !n->hasLo && !n->hasHi) n->hasLo = true;  // nothing would tell the type
        n->incLo = r.oneIn(2);
        n->incHi = r.oneIn(2);
        auto pickL = [&]() -> int64_t {
            if (!docs.empty() && r.oneIn(2)) { const SDoc& d = docs[r.below(docs.size())]; return n->type == 0 ? d.num : d.lng; }
            if (r.oneIn(8)) return n->type == 0 ? (r.oneIn(2) ? INT32_MIN : INT32_MAX) : (r.oneIn(2) ? INT64_MIN : INT64_MAX);
            return r.range(-22, 22);
        };
        auto pickD = [&]() -> double {
            if (!docs.empty() && r.oneIn(2)) return docs[r.below(docs.size())].dbl;
            return r.oneIn(8) ? r.pick({-1e308, 1e308, 0.0}) : (double)r.range(-44, 44) / 4;
        };
        n->llo = pickL();
        n->lhi = pickL();
        n->lo = pickD();
        n->hi = pickD();
        if (r.chance(70)) { if (n->llo > n->lhi) std::swap(n->llo, n->lhi); if (n->lo > n->hi) std::swap(n->lo, n->hi); }
        return n;
    }
    RQP term() {
        auto t = std::make_shared<RTerm>();
        int k = (int)r.below(10);
        t->f = k < 7 ? L"body" : k < 9 ? L"title" : L"cat";
        t->t = k < 9 ? (r.oneIn(15) ? L"nosuchterm" : word()) : r.pick(cats);
        return t;
    }
    bool safe(const RQP& q) { return q->coordSafe; }
    RQP query(int depth) {
        RQP q = query1(depth);
        if (r.oneIn(4) && !q->fold) q->boost = r.pick({0.5, 2.0, 3.5, 10.0});
        return q;
    }
    RQP query1(int depth) {
        int k = (int)r.below(depth > 0 ? 20 : 9);
        if (k < 4) return term();
        if (k == 4) return phrase(false);
        if (k == 5) { RQP q = multiTerm(); q->coordSafe = false; return q; }
        if (k == 6) { RQP q = numeric(); q->coordSafe = false; return q; }
        if (k == 7) { if (r.oneIn(2)) { RSP s = span(2, true); if (!s->exactSpans) s->scored = false; return s; } return phrase(true); }
        if (k == 8) { if (r.oneIn(3)) return std::make_shared<RFieldScore>(); return std::make_shared<RAll>(); }
        if (k < 15) {
            auto bq = std::make_shared<RBool>();
            int n = (int)r.range(1, r.oneIn(5) ? 7 : 4), shoulds = 0;
            bool onlyShould = r.oneIn(2);
            for (int i = 0; i < n; ++i) {
                RQP s = query(depth - 1);
                int o = onlyShould ? (r.oneIn(5) ? 2 : 0) : (int)r.pick({0, 0, 0, 1, 1, 2});
                if (o == 0) ++shoulds;
                if (!s->scored && o != 2) bq->scored = false;
                bq->cl.push_back({s, o});
            }
            if (r.oneIn(3) && shoulds) bq->minShould = (int)r.range(1, shoulds + (r.oneIn(6) ? 1 : 0));
            if (bq->cl.size() == 1 && bq->minShould == 0 && bq->cl[0].first->nonlinear()) bq->fold = true;
            bool unsafe = false;
            for (auto& s : bq->cl) if (!s.first->coordSafe) unsafe = true;
            bq->noCoord = unsafe || r.oneIn(3);
            bq->coordSafe = false;
            // a prohibited clause still counts in the sum when only one clause is left after rewriting
            return bq;
        }
        if (k == 15) {
            auto d = std::make_shared<RDisMax>();
            int n = (int)r.range(1, 4);
            for (int i = 0; i < n; ++i) { RQP s = query(depth - 1); if (!s->scored) d->scored = false; d->cl.push_back(s); }
            if (d->cl.size() == 1 && d->cl[0]->nonlinear()) d->fold = true;
            d->tie = r.pick({0.0, 0.1, 0.5, 1.0});
            d->coordSafe = false;
            return d;
        }
        if (k == 16) { auto f = std::make_shared<RFiltered>(); f->q = query(depth - 1); f->f = filter(depth - 1); f->scored = f->q->scored; f->coordSafe = false; return f; }
        if (k == 17) { auto f = std::make_shared<RConstF>(); f->f = filter(depth - 1); f->coordSafe = false; return f; }
        if (k == 18) {
            auto cq = std::make_shared<RCustom>();
            cq->q = query(depth - 1);
            cq->hasVal = !r.oneIn(3);
            cq->strict = r.oneIn(3);
            cq->v.boost = r.oneIn(3) ? 2.0 : 1.0;
            cq->scored = cq->q->scored;
            cq->coordSafe = false;
            return cq;
        }
        { RSP s = span(3, true); if (!s->exactSpans) s->scored = false; return s; }
    }
};

// ---- collecting

struct Hit { int doc; double score; };
class AllCollector : public Collector {
public:
    std::vector<Hit> hits;
    bool outOfOrder, wantScore;
    int base = 0;
    ScorerPtr scorer;
    int lastDoc = -1;
    bool sawDisorder = false;
    AllCollector(bool ooo, bool ws = true) : outOfOrder(ooo), wantScore(ws) {}
    virtual ~AllCollector() {}
    LUCENE_CLASS(AllCollector);
    virtual void setScorer(const ScorerPtr& s) { scorer = s; }
    virtual void collect(int32_t doc) {
        if (doc + base <= lastDoc) sawDisorder = true;
        lastDoc = doc + base;
        hits.push_back({doc + base, wantScore ? scorer->score() : 0});
    }
    virtual void setNextReader(const IndexReaderPtr& reader, int32_t docBase) { base = docBase; }
    virtual bool acceptsDocsOutOfOrder() { return outOfOrder; }
};
typedef boost::shared_ptr<AllCollector> AllCollectorPtr;

inline std::vector<int> uidsOf(const IndexReaderPtr& r) {
    std::vector<int> u((size_t)r->maxDoc(), -1);
    for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) {
        WS v = r->document(i)->get(L"uid");
        if (v.empty()) fail("uids.missing", fmt("live document %d of %d has no uid: ", i, r->maxDoc()) + storedLine(r->document(i)));
        u[(size_t)i] = (int)std::stol(std::string(u8(v)));
    }
    return u;
}
inline Stats statsOf(const IndexReaderPtr& r) {
    Stats s;
    s.maxDoc = r->maxDoc();
    s.df = [r](const WS& f, const WS& t) { return r->docFreq(newLucene<Term>(f, t)); };
    s.terms = [r](const WS& f) {
        std::vector<WS> v;
        TermEnumPtr e = r->terms(newLucene<Term>(f, L""));
        do { TermPtr t = e->term(); if (!t || t->field() != f) break; v.push_back(t->text()); } while (e->next());
        e->close();
        return v;
    };
    return s;
}
inline bool near(double a, double b) { double m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= 1e-6 * m + 1e-12; }

struct Expect { std::map<int, double> score; };  // docid -> score of the matching live documents
inline std::map<int, double> evaluate(const RQP& q, const std::vector<SDoc>& docs, const std::vector<int>& uids, const Stats& st) {
    double ss = q->sumSq(st);
    q->normalize(1.0 / std::sqrt(ss));
    std::map<int, double> m;
    for (size_t i = 0; i < uids.size(); ++i) {
        if (uids[i] < 0) continue;
        const SDoc& d = docs[(size_t)uids[i]];
        if (q->match(d)) m[(int)i] = q->score(d);
    }
    return m;
}

struct Setup {
    Corpus co;
    IndexReaderPtr rd;
    IndexSearcherPtr is;
    std::vector<int> uids;
    Stats st;
    bool large = false;
    Setup(Case& c, int maxDocs) : co(c) {
        large = c.rng.oneIn(150) || (c.no % 400) == 7;
        co.shortDocs = large;
        if (large) co.heavy = 0;
        co.generate(large ? (int)c.rng.range(2000, 4500) : (int)c.rng.range(1, c.rng.oneIn(5) ? maxDocs * 4 : maxDocs));
        co.large = large;
        DirectoryPtr dir = co.index(0, co.docs.size(), (int)c.rng.pick({0, 0, 10, 40}));
        if (large) count("large_indexes");
        rd = IndexReader::open(dir, true);
        is = newLucene<IndexSearcher>(rd);
        uids = uidsOf(rd);
        st = statsOf(rd);
        maxi("segments", rd->getSequentialSubReaders() ? rd->getSequentialSubReaders().size() : 1);
    }
    std::vector<IndexReaderPtr> leaves(std::vector<int>& bases) {
        std::vector<IndexReaderPtr> v;
        int base = 0;
        std::function<void(IndexReaderPtr)> rec = [&](IndexReaderPtr r) {
            Collection<IndexReaderPtr> s = r->getSequentialSubReaders();
            if (!s) { v.push_back(r); bases.push_back(base); base += r->maxDoc(); }
            else for (int32_t i = 0; i < s.size(); ++i) rec(s[i]);
        };
        rec(rd);
        return v;
    }
};
}
#endif
