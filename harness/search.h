// Reference query evaluation: every query is a tree that knows the library query it stands for, which documents its
// definition matches and which score the documented formula gives.
#ifndef VERIF_SEARCH_H
#define VERIF_SEARCH_H
#include "model.h"
#include "ScoreDoc.h"
#include "TopDocs.h"
#include "TopFieldDocs.h"
#include "FieldDoc.h"
#include "Collector.h"
#include "Scorer.h"
#include "Weight.h"
#include "Explanation.h"
#include "FilteredQuery.h"
#include "ConstantScoreQuery.h"
#include "DisjunctionMaxQuery.h"
#include "PhraseQuery.h"
#include "MultiPhraseQuery.h"
#include "FuzzyQuery.h"
#include "WildcardQuery.h"
#include "PrefixQuery.h"
#include "PrefixFilter.h"
#include "TermRangeQuery.h"
#include "TermRangeFilter.h"
#include "NumericField.h"
#include "NumericRangeQuery.h"
#include "NumericRangeFilter.h"
#include "FieldCacheRangeFilter.h"
#include "FieldCacheTermsFilter.h"
#include "FieldCache.h"
#include "SpanNearQuery.h"
#include "SpanNotQuery.h"
#include "SpanFirstQuery.h"
#include "SpanOrQuery.h"
#include "SpanTermQuery.h"
#include "SpanQueryFilter.h"
#include "CachingSpanFilter.h"
#include "CachingWrapperFilter.h"
#include "QueryWrapperFilter.h"
#include "FieldScoreQuery.h"
#include "CustomScoreQuery.h"
#include "MatchAllDocsQuery.h"
#include "DefaultSimilarity.h"
#include "DocIdSet.h"
#include "Spans.h"
#include "VariantUtils.h"
#include "Sort.h"
#include "SortField.h"

namespace vf {
inline wchar_t lower(wchar_t c) { return c; }

struct SDoc {
    DocM d;
    Inverted inv;
    bool hasNum = false, hasCat = false;
    int32_t num = 0;
    int64_t lng = 0;
    double dbl = 0;
    WS cat;
    bool alive = true;
    const std::vector<Inverted::Occ>* occ(const WS& f, const WS& t) const {
        auto it = inv.fields.find(f);
        if (it == inv.fields.end()) return nullptr;
        auto jt = it->second.terms.find(t);
        return jt == it->second.terms.end() ? nullptr : &jt->second;
    }
    int freq(const WS& f, const WS& t) const { auto o = occ(f, t); return o ? (int)o->size() : 0; }
    double norm(const WS& f) const {
        auto it = inv.fields.find(f);
        if (it == inv.fields.end()) return decode315(encode315(1.0)) * 0 + normMissing;
        if (it->second.noNorms) return 1.0;
        return decode315(encode315(it->second.boost / std::sqrt((double)it->second.length)));
    }
    double normMissing = 1.0;
};

struct Stats {
    std::function<int(const WS&, const WS&)> df;
    std::function<std::vector<WS>(const WS&)> terms;  // all terms of a field, in order
    int maxDoc = 0;
    double idf(const WS& f, const WS& t) const { return std::log((double)maxDoc / (double)(df(f, t) + 1)) + 1.0; }
};

struct RQ {
    double boost = 1.0;
    bool scored = true;       // the reference knows the score
    bool coordSafe = true;    // its scorer is never missing in a segment, so a parent's coord counts it always
    bool fold = false;        // rewritten to its only clause, a query whose score is not linear in its boost
    virtual bool nonlinear() { return fold; }
    virtual ~RQ() {}
    virtual QueryPtr make() = 0;
    virtual bool match(const SDoc& d) = 0;
    virtual double sumSq(const Stats& s) { return 0; }
    virtual void normalize(double n) {}
    virtual double score(const SDoc& d) { return 0; }
    virtual std::string str() = 0;
    std::string b() { return boost == 1.0 ? "" : fmt("^%g", boost); }
    QueryPtr boosted(const QueryPtr& q) { if (boost != 1.0) q->setBoost(boost); return q; }
};
typedef std::shared_ptr<RQ> RQP;

struct RTerm : RQ {
    WS f, t;
    double idf = 0, w = 0;
    QueryPtr make() override { return boosted(newLucene<TermQuery>(T())); }
    TermPtr T() { return newLucene<Term>(f, t); }
    bool match(const SDoc& d) override { return d.freq(f, t) > 0; }
    double sumSq(const Stats& s) override { idf = s.idf(f, t); w = idf * boost; return w * w; }
    void normalize(double n) override { w = w * n * idf; }
    double score(const SDoc& d) override { return std::sqrt((double)d.freq(f, t)) * w * d.norm(f); }
    std::string str() override { return u8(f) + ":" + u8(t) + b(); }
};

struct RAll : RQ {
    double w = 0;
    QueryPtr make() override { return boosted(newLucene<MatchAllDocsQuery>()); }
    bool match(const SDoc& d) override { return true; }
    double sumSq(const Stats&) override { w = boost; return w * w; }
    void normalize(double n) override { w *= n; }
    double score(const SDoc&) override { return w; }
    std::string str() override { return "*:*" + b(); }
};

// anything that scores a constant
struct RConst : RQ {
    double w = 0;
    double sumSq(const Stats&) override { w = boost; return w * w; }
    void normalize(double n) override { w *= n; }
    double score(const SDoc&) override { return w; }
};

struct RPhrase : RQ {
    WS f;
    std::vector<std::vector<WS>> terms;  // alternatives per position
    std::vector<int> pos;
    int slop = 0;
    bool multi = false;
    double idf = 0, w = 0;
    QueryPtr make() override {
        if (multi) {
            MultiPhraseQueryPtr q = newLucene<MultiPhraseQuery>();
            for (size_t i = 0; i < terms.size(); ++i) {
                Collection<TermPtr> ts = Collection<TermPtr>::newInstance();
                for (auto& t : terms[i]) ts.add(newLucene<Term>(f, t));
                q->add(ts, pos[i]);
            }
            q->setSlop(slop);
            return boosted(q);
        }
        PhraseQueryPtr q = newLucene<PhraseQuery>();
        for (size_t i = 0; i < terms.size(); ++i) q->add(newLucene<Term>(f, terms[i][0]), pos[i]);
        q->setSlop(slop);
        return boosted(q);
    }
    std::vector<int> positions(const SDoc& d, size_t i) {
        std::vector<int> r;
        for (auto& t : terms[i]) { auto o = d.occ(f, t); if (o) for (auto& x : *o) r.push_back(x.pos - pos[i]); }
        std::sort(r.begin(), r.end());
        return r;
    }
    double freq(const SDoc& d) {
        std::vector<std::vector<int>> ps;
        for (size_t i = 0; i < terms.size(); ++i) { ps.push_back(positions(d, i)); if (ps.back().empty()) return 0; }
        if (slop == 0) {
            // every start at which each position holds one of its terms
            std::map<int, int> c;
            double n = 0;
            std::set<int> starts(ps[0].begin(), ps[0].end());
            for (int s : starts) {
                bool all = true;
                for (auto& p : ps) if (!std::binary_search(p.begin(), p.end(), s)) { all = false; break; }
                if (all) n += 1;
            }
            return n;
        }
        // the documented sloppy frequency: sum of 1/(distance+1) over the minimal alignments, advancing the rearmost term
        size_t n = ps.size();
        std::vector<size_t> at(n, 0);
        double fr = 0;
        int end = INT32_MIN;
        for (size_t i = 0; i < n; ++i) end = std::max(end, ps[i][0]);
        auto less = [&](size_t a, size_t b) { int x = ps[a][at[a]], y = ps[b][at[b]]; return x != y ? x < y : pos[a] < pos[b]; };
        bool done = false;
        while (!done) {
            size_t lo = 0;
            for (size_t i = 1; i < n; ++i) if (less(i, lo)) lo = i;
            size_t nx = n;
            for (size_t i = 0; i < n; ++i) if (i != lo && (nx == n || less(i, nx))) nx = i;
            int start = ps[lo][at[lo]], next = ps[nx][at[nx]];
            int p = start;
            while (p <= next) {
                start = p;
                if (++at[lo] >= ps[lo].size()) { done = true; break; }
                p = ps[lo][at[lo]];
            }
            int len = end - start;
            if (len <= slop) fr += 1.0 / (len + 1);
            if (!done && p > end) end = p;
        }
        return fr;
    }
    bool match(const SDoc& d) override {
        if (slop == 0 || terms.size() == 1) return freq(d) > 0;
        // definition: some choice of positions whose spread is within the slop
        std::vector<std::vector<int>> ps;
        for (size_t i = 0; i < terms.size(); ++i) { ps.push_back(positions(d, i)); if (ps.back().empty()) return false; }
        std::function<bool(size_t, int, int)> rec = [&](size_t i, int lo, int hi) {
            if (hi - lo > slop && i) return false;
            if (i == ps.size()) return true;
            for (int p : ps[i]) if (rec(i + 1, i ? std::min(lo, p) : p, i ? std::max(hi, p) : p)) return true;
            return false;
        };
        return rec(0, 0, 0);
    }
    // a phrase of one position is rewritten to a disjunction of its terms
    std::vector<RTerm> single;
    double sumSq(const Stats& s) override {
        idf = 0;
        if (multi && terms.size() == 1) {
            single.clear();
            double x = 0;
            for (auto& t : terms[0]) { RTerm r; r.f = f; r.t = t; x += r.sumSq(s); single.push_back(r); }
            return x * boost * boost;
        }
        for (auto& a : terms) for (auto& t : a) idf += s.idf(f, t);
        w = idf * boost;
        return w * w;
    }
    void normalize(double n) override { if (!single.empty()) for (auto& t : single) t.normalize(n * boost); else w = w * n * idf; }
    double score(const SDoc& d) override {
        if (!single.empty()) { double x = 0; for (auto& t : single) if (t.match(d)) x += t.score(d); return x; }
        return std::sqrt(freq(d)) * w * d.norm(f);
    }
    std::string str() override {
        std::string o = u8(f) + ":\"";
        for (size_t i = 0; i < terms.size(); ++i) {
            o += i ? " " : "";
            for (size_t k = 0; k < terms[i].size(); ++k) o += (k ? "|" : "") + u8(terms[i][k]);
            o += "@" + std::to_string(pos[i]);
        }
        return o + "\"~" + std::to_string(slop) + b();
    }
};

struct RBool : RQ {
    std::vector<std::pair<RQP, int>> cl;  // 0 should, 1 must, 2 not
    int minShould = 0;
    bool noCoord = false;
    QueryPtr make() override {
        BooleanQueryPtr q = newLucene<BooleanQuery>(noCoord);
        for (auto& c : cl) q->add(c.first->make(), c.second == 0 ? BooleanClause::SHOULD : c.second == 1 ? BooleanClause::MUST : BooleanClause::MUST_NOT);
        if (minShould) q->setMinimumNumberShouldMatch(minShould);
        return boosted(q);
    }
    bool match(const SDoc& d) override {
        int should = 0, must = 0;
        for (auto& c : cl) {
            bool m = c.first->match(d);
            if (c.second == 1 && !m) return false;
            if (c.second == 2 && m) return false;
            if (c.second == 0 && m) ++should;
            if (c.second == 1) ++must;
        }
        if (should < minShould) return false;
        return must > 0 || should > 0;
    }
    double sumSq(const Stats& s) override {
        double x = 0;
        for (auto& c : cl) { double v = c.first->sumSq(s); if (c.second != 2) x += v; }
        return x * boost * boost;
    }
    void normalize(double n) override { for (auto& c : cl) c.first->normalize(n * boost); }
    double score(const SDoc& d) override {
        int n = 0, m = 0;
        double x = 0;
        for (auto& c : cl) {
            if (c.second == 2) continue;
            ++n;
            if (c.first->match(d)) { ++m; x += c.first->score(d); }
        }
        return noCoord || !n ? x : x * ((double)m / (double)n);
    }
    std::string str() override {
        std::string o = "(";
        for (auto& c : cl) o += (o.size() > 1 ? " " : "") + std::string(c.second == 0 ? "" : c.second == 1 ? "+" : "-") + c.first->str();
        o += ")";
        if (minShould) o += "~" + std::to_string(minShould);
        return o + (noCoord ? "!c" : "") + b();
    }
};

struct RDisMax : RQ {
    std::vector<RQP> cl;
    double tie = 0;
    QueryPtr make() override {
        DisjunctionMaxQueryPtr q = newLucene<DisjunctionMaxQuery>(tie);
        for (auto& c : cl) q->add(c->make());
        return boosted(q);
    }
    bool match(const SDoc& d) override { for (auto& c : cl) if (c->match(d)) return true; return false; }
    double sumSq(const Stats& s) override {
        double mx = 0, sum = 0;
        for (auto& c : cl) { double v = c->sumSq(s); sum += v; mx = std::max(mx, v); }
        return ((sum - mx) * tie * tie + mx) * boost * boost;
    }
    void normalize(double n) override { for (auto& c : cl) c->normalize(n * boost); }
    double score(const SDoc& d) override {
        double mx = 0, sum = 0;
        for (auto& c : cl) if (c->match(d)) { double v = c->score(d); sum += v; mx = std::max(mx, v); }
        return mx + (sum - mx) * tie;
    }
    std::string str() override { std::string o = "("; for (auto& c : cl) o += (o.size() > 1 ? " | " : "") + c->str(); return o + ")" + fmt("~%g", tie) + b(); }
};

struct RFilter {
    virtual ~RFilter() {}
    virtual FilterPtr make() = 0;
    virtual bool match(const SDoc& d) = 0;
    virtual std::string str() = 0;
};
typedef std::shared_ptr<RFilter> RFP;
struct RFn : RFilter {
    std::function<FilterPtr()> mk;
    std::function<bool(const SDoc&)> m;
    std::string s;
    FilterPtr make() override { return mk(); }
    bool match(const SDoc& d) override { return m(d); }
    std::string str() override { return s; }
};

struct RFiltered : RQ {
    RQP q;
    RFP f;
    QueryPtr make() override { return boosted(newLucene<FilteredQuery>(q->make(), f->make())); }
    bool match(const SDoc& d) override { return f->match(d) && q->match(d); }
    double sumSq(const Stats& s) override { return q->sumSq(s) * boost * boost; }
    void normalize(double n) override { q->normalize(n); }
    double score(const SDoc& d) override { return q->score(d) * boost; }
    std::string str() override { return "filtered(" + q->str() + ")->" + f->str() + b(); }
};
struct RConstF : RConst {
    RFP f;
    QueryPtr make() override { return boosted(newLucene<ConstantScoreQuery>(f->make())); }
    bool match(const SDoc& d) override { return f->match(d); }
    std::string str() override { return "const(" + f->str() + ")" + b(); }
};

// prefix, wildcard, fuzzy, term range: a set of terms with a weight each
struct RMulti : RQ {
    WS f;
    std::function<double(const WS&)> accept;  // <0: no, otherwise the factor of the rewritten term query
    std::function<QueryPtr()> mk;
    int method = 0;  // 0 auto, 1 filter, 2 constant boolean, 3 scoring boolean; -1 the query's own (fuzzy)
    std::string s;
    double w = 0, lastN = 0;
    std::vector<RTerm> ts;
    bool isConst() { return method != 3 && method != -1; }
    QueryPtr make() override {
        QueryPtr q = mk();
        boost::shared_ptr<MultiTermQuery> m = boost::dynamic_pointer_cast<MultiTermQuery>(q);
        if (m && method >= 0) m->setRewriteMethod(method == 0 ? MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT() : method == 1 ? MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE() : method == 2 ? MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE() : MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE());
        return boosted(q);
    }
    bool match(const SDoc& d) override {
        auto it = d.inv.fields.find(f);
        if (it == d.inv.fields.end()) return false;
        for (auto& t : it->second.terms) if (accept(t.first) >= 0) return true;
        return false;
    }
    double sumSq(const Stats& st) override {
        if (isConst()) { w = boost; return w * w; }
        ts.clear();
        double x = 0;
        for (auto& t : st.terms(f)) {
            double a = accept(t);
            if (a < 0) continue;
            RTerm r;
            r.f = f;
            r.t = t;
            r.boost = boost * a;
            x += r.sumSq(st);
            ts.push_back(r);
        }
        return x;
    }
    void normalize(double n) override { if (isConst()) w *= n; else for (auto& t : ts) t.normalize(n); }
    double score(const SDoc& d) override {
        if (isConst()) return w;
        double x = 0;
        for (auto& t : ts) if (t.match(d)) x += t.score(d);
        return x;
    }
    std::string str() override { return u8(f) + ":" + s + fmt("#%d", method) + b(); }
};

struct RNum : RConst {
    int type = 0;  // 0 int 1 long 2 double
    int step = 4;
    bool hasLo = true, hasHi = true, incLo = true, incHi = true;
    double lo = 0, hi = 0;
    int64_t llo = 0, lhi = 0;
    WS f;
    int method = 0;
    NumericValue nv(bool has, int64_t l, double d) { if (!has) return VariantUtils::null(); if (type == 0) return (int32_t)l; if (type == 1) return l; return d; }
    QueryPtr make() override {
        NumericRangeQueryPtr q = NumericRangeQuery::newNumericRange(f, step, nvLo(), nvHi(), incLo, incHi);
        q->setRewriteMethod(method == 0 ? MultiTermQuery::CONSTANT_SCORE_AUTO_REWRITE_DEFAULT() : method == 1 ? MultiTermQuery::CONSTANT_SCORE_FILTER_REWRITE() : MultiTermQuery::CONSTANT_SCORE_BOOLEAN_QUERY_REWRITE());
        return boosted(q);
    }
    NumericValue nvLo() { return nv(hasLo, llo, lo); }
    NumericValue nvHi() { return nv(hasHi, lhi, hi); }
    bool match(const SDoc& d) override {
        if (!d.hasNum) return false;
        if (type == 2) {
            if (hasLo && (incLo ? d.dbl < lo : d.dbl <= lo)) return false;
            if (hasHi && (incHi ? d.dbl > hi : d.dbl >= hi)) return false;
            return true;
        }
        int64_t v = type == 0 ? d.num : d.lng;
        if (hasLo && (incLo ? v < llo : v <= llo)) return false;
        if (hasHi && (incHi ? v > lhi : v >= lhi)) return false;
        return true;
    }
    std::string str() override {
        std::string o = u8(f) + ":" + (incLo ? "[" : "{");
        o += hasLo ? (type == 2 ? fmt("%.17g", lo) : std::to_string(llo)) : "*";
        o += " TO ";
        o += hasHi ? (type == 2 ? fmt("%.17g", hi) : std::to_string(lhi)) : "*";
        return o + (incHi ? "]" : "}") + fmt("s%d#%d", step, method) + b();
    }
};

// ---- spans by definition: all (start, end) pairs

typedef std::vector<std::pair<int, int>> SpanList;
struct RSpan : RQ {
    virtual SpanQueryPtr span() = 0;
    virtual SpanList spans(const SDoc& d) = 0;   // complete set of matches as the definition gives them
    virtual void termsOf(std::set<WS>& s) = 0;
    bool exactSpans = true;  // the library's enumeration is the complete set
    WS f;
    double idf = 0, w = 0;
    QueryPtr make() override { SpanQueryPtr q = span(); if (boost != 1.0) q->setBoost(boost); return q; }
    bool match(const SDoc& d) override { return !spans(d).empty(); }
    double sumSq(const Stats& s) override {
        std::set<WS> ts;
        termsOf(ts);
        idf = 0;
        for (auto& t : ts) idf += s.idf(f, t);
        w = idf * boost;
        return w * w;
    }
    void normalize(double n) override { w = w * n * idf; }
    double score(const SDoc& d) override {
        double fr = 0;
        for (auto& s : spans(d)) fr += 1.0 / (s.second - s.first + 1);
        return std::sqrt(fr) * w * d.norm(f);
    }
};
typedef std::shared_ptr<RSpan> RSP;
struct RSpanTerm : RSpan {
    WS t;
    SpanQueryPtr span() override { return newLucene<SpanTermQuery>(newLucene<Term>(f, t)); }
    SpanList spans(const SDoc& d) override { SpanList r; auto o = d.occ(f, t); if (o) for (auto& x : *o) r.push_back({x.pos, x.pos + 1}); return r; }
    void termsOf(std::set<WS>& s) override { s.insert(t); }
    std::string str() override { return "span:" + u8(t) + b(); }
};
struct RSpanOr : RSpan {
    std::vector<RSP> cl;
    SpanQueryPtr span() override { Collection<SpanQueryPtr> c = Collection<SpanQueryPtr>::newInstance(); for (auto& x : cl) c.add(x->span()); return newLucene<SpanOrQuery>(c); }
    SpanList spans(const SDoc& d) override { SpanList r; for (auto& c : cl) for (auto& s : c->spans(d)) r.push_back(s); std::sort(r.begin(), r.end()); return r; }
    void termsOf(std::set<WS>& s) override { for (auto& c : cl) c->termsOf(s); }
    std::string str() override { std::string o = "spanOr("; for (auto& c : cl) o += c->str() + " "; return o + ")" + b(); }
};
struct RSpanFirst : RSpan {
    RSP m;
    int end = 1;
    SpanQueryPtr span() override { return newLucene<SpanFirstQuery>(m->span(), end); }
    SpanList spans(const SDoc& d) override { SpanList r; for (auto& s : m->spans(d)) if (s.second <= end) r.push_back(s); return r; }
    void termsOf(std::set<WS>& s) override { m->termsOf(s); }
    std::string str() override { return "spanFirst(" + m->str() + "," + std::to_string(end) + ")" + b(); }
};
struct RSpanNot : RSpan {
    RSP inc, exc;
    SpanQueryPtr span() override { return newLucene<SpanNotQuery>(inc->span(), exc->span()); }
    SpanList spans(const SDoc& d) override {
        SpanList r, e = exc->spans(d);
        for (auto& s : inc->spans(d)) {
            bool hit = false;
            for (auto& x : e) if (x.first < s.second && s.first < x.second) hit = true;
            if (!hit) r.push_back(s);
        }
        return r;
    }
    void termsOf(std::set<WS>& s) override { inc->termsOf(s); }
    std::string str() override { return "spanNot(" + inc->str() + "," + exc->str() + ")" + b(); }
};
struct RSpanNear : RSpan {
    std::vector<RSP> cl;
    int slop = 0;
    bool ordered = true;
    SpanQueryPtr span() override { Collection<SpanQueryPtr> c = Collection<SpanQueryPtr>::newInstance(); for (auto& x : cl) c.add(x->span()); return newLucene<SpanNearQuery>(c, slop, ordered, false); }
    SpanList spans(const SDoc& d) override {
        std::vector<SpanList> ss;
        for (auto& c : cl) { ss.push_back(c->spans(d)); if (ss.back().empty()) return {}; }
        std::set<std::pair<int, int>> r;
        std::function<void(size_t, int, int, int, std::pair<int, int>)> rec = [&](size_t i, int lo, int hi, int len, std::pair<int, int> prev) {
            if (i == ss.size()) { if (hi - lo - len <= slop) r.insert({lo, hi}); return; }
            for (auto& s : ss[i]) {
                if (ordered && i && !(prev.first < s.first || (prev.first == s.first && prev.second < s.second))) continue;
                if (ordered && i && s.first < prev.second) continue;
                rec(i + 1, i ? std::min(lo, s.first) : s.first, i ? std::max(hi, s.second) : s.second, len + s.second - s.first, s);
            }
        };
        rec(0, 0, 0, 0, {0, 0});
        return SpanList(r.begin(), r.end());
    }
    void termsOf(std::set<WS>& s) override { for (auto& c : cl) c->termsOf(s); }
    std::string str() override { std::string o = "spanNear("; for (auto& c : cl) o += c->str() + " "; return o + fmt(",%d,%d)", slop, (int)ordered) + b(); }
};

// ---- field scores and custom scores
struct RFieldScore : RQ {
    double w = 0;
    QueryPtr make() override { return boosted(newLucene<FieldScoreQuery>(L"fs", FieldScoreQuery::INT)); }
    bool match(const SDoc&) override { return true; }
    double sumSq(const Stats&) override { w = boost; return w * w; }
    void normalize(double n) override { w *= n; }
    double score(const SDoc& d) override { return w * (double)(d.d.uid % 7); }
    std::string str() override { return "fieldscore(fs)" + b(); }
};
struct RCustom : RQ {
    bool nonlinear() override { return true; }
    RQP q;
    RFieldScore v;
    bool hasVal = true, strict = false;
    double w = 0;
    QueryPtr make() override {
        CustomScoreQueryPtr c;
        if (hasVal) c = newLucene<CustomScoreQuery>(q->make(), boost::dynamic_pointer_cast<ValueSourceQuery>(v.make()));
        else c = newLucene<CustomScoreQuery>(q->make());
        c->setStrict(strict);
        return boosted(c);
    }
    bool match(const SDoc& d) override { return q->match(d); }
    double sumSq(const Stats& s) override {
        double x = q->sumSq(s);
        if (hasVal) { double y = v.sumSq(s); if (!strict) x += y; }
        return x * boost * boost;
    }
    void normalize(double n) override {
        n *= boost;
        q->normalize(n);
        if (hasVal) v.normalize(strict ? 1.0 : n);
        w = boost;
    }
    double score(const SDoc& d) override { return w * q->score(d) * (hasVal ? v.score(d) : 1.0); }
    std::string str() override { return "custom(" + q->str() + (hasVal ? ",fs" : "") + (strict ? ",strict" : "") + ")" + b(); }
};

// ---- definitions on terms
inline bool wildMatch(const WS& p, size_t i, const WS& s, size_t j) {
    for (; i < p.size(); ++i, ++j) {
        if (p[i] == L'*') { for (size_t k = j; k <= s.size(); ++k) if (wildMatch(p, i + 1, s, k)) return true; return false; }
        if (j >= s.size() || (p[i] != L'?' && p[i] != s[j])) return false;
    }
    return j == s.size();
}
inline int editDistance(const WS& a, const WS& b) {
    std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1, 0));
    for (size_t i = 0; i <= a.size(); ++i)
        for (size_t j = 0; j <= b.size(); ++j) {
            if (!i || !j) { d[i][j] = (int)(i + j); continue; }
            d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1)});
        }
    return d[a.size()][b.size()];
}
inline double fuzzySim(const WS& term, int prefix, const WS& t) {
    size_t p = std::min<size_t>((size_t)prefix, term.size());
    if (t.compare(0, p, term, 0, p) != 0) return -1;
    WS a = term.substr(p), b = t.substr(p);
    size_t den = p + std::min(a.size(), b.size());
    if (!den) return 0;
    return 1.0 - (double)editDistance(a, b) / (double)den;
}
}
#endif
