// The query parser: total on any text, faithful to the documented syntax, stable under its own string form (C18).
#include "verif.h"
#include "QueryParser.h"
#include "MultiFieldQueryParser.h"
#include "QueryParseError.h"
#include "WhitespaceAnalyzer.h"
#include "SimpleAnalyzer.h"
#include "StandardAnalyzer.h"
#include "StopAnalyzer.h"
#include "KeywordAnalyzer.h"
#include "TermQuery.h"
#include "PhraseQuery.h"
#include "PrefixQuery.h"
#include "WildcardQuery.h"
#include "FuzzyQuery.h"
#include "TermRangeQuery.h"
#include "BooleanQuery.h"
#include "BooleanClause.h"
#include "MatchAllDocsQuery.h"
#include "MultiTermQuery.h"
#include "Term.h"
#include "StringUtils.h"
using namespace vf;
using namespace Lucene;
typedef std::wstring WS;

struct Settings {
    bool andOp = false, leading = false, lower = true;
    int slop = 0, prefixLength = 0;
    double sim = 0.5;
    QueryParserPtr make(const WS& field, const AnalyzerPtr& a) const {
        QueryParserPtr p = newLucene<QueryParser>(LuceneVersion::LUCENE_CURRENT, field, a);
        set(p);
        return p;
    }
    void set(const QueryParserPtr& p) const {
        p->setDefaultOperator(andOp ? QueryParser::AND_OPERATOR : QueryParser::OR_OPERATOR);
        p->setAllowLeadingWildcard(leading);
        p->setLowercaseExpandedTerms(lower);
        p->setPhraseSlop(slop);
        p->setFuzzyPrefixLength(prefixLength);
        p->setFuzzyMinSim(sim);
    }
};
static Settings someSettings(Rng& r) {
    Settings s;
    s.andOp = r.oneIn(2); s.leading = r.oneIn(2); s.lower = !r.oneIn(3);
    s.slop = r.oneIn(2) ? 0 : (int)r.range(1, 5);
    s.prefixLength = r.oneIn(2) ? 0 : (int)r.range(1, 3);
    s.sim = r.pick({0.5, 0.1, 0.7});
    return s;
}
static const WS special = L"\\+-!():^[]\"{}~*?|&";

// a word, and how to write it
static WS someWord(Rng& r, bool odd) {
    WS w;
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; ++i) {
        if (odd && r.oneIn(3)) w += special[(size_t)r.below(special.size())];
        else if (odd && r.oneIn(6)) w += r.pick({(wchar_t)0xe9, (wchar_t)0x3b1, (wchar_t)0x4e2d, (wchar_t)0xfffd, (wchar_t)L'#', (wchar_t)L'/', (wchar_t)L'\'', (wchar_t)L'=', (wchar_t)L'$', (wchar_t)L'.', (wchar_t)L'_'});
        else w += (wchar_t)(L'a' + r.below(r.oneIn(2) ? 3 : 26));
    }
    if (w == L"to" || w == L"and" || w == L"or" || w == L"not") w += L"x";
    return w;
}
static WS written(Rng& r, const WS& w, bool quoted = false) {
    WS o;
    for (wchar_t c : w) {
        if (r.oneIn(12) && (uint32_t)c < 0x10000) {
            o += L"\\u";
            for (int k = 12; k >= 0; k -= 4) { int d = (c >> k) & 15; o += (wchar_t)(d < 10 ? L'0' + d : (r.oneIn(2) ? L'a' : L'A') + d - 10); }
        } else if (special.find(c) != WS::npos ? (!quoted || c == L'"' || c == L'\\' || r.oneIn(2)) : (c != L'u' && r.oneIn(20))) { o += L'\\'; o += c; }
        else o += c;
    }
    return o;
}
static WS lowered(WS w) { StringUtils::toLower(w); return w; }
static WS upperSome(Rng& r, WS w) { for (wchar_t& c : w) if (c >= L'a' && c <= L'z' && r.oneIn(3)) c = (wchar_t)(c - 32); return w; }
static WS space(Rng& r) { return r.pick<WS>({L" ", L"  ", L"\t", L"\n", L" \r\n", L"\u3000"}); }
static WS maybeSpace(Rng& r) { return r.oneIn(4) ? space(r) : WS(); }

struct Gen {
    Rng& r;
    Settings s;
    bool odd;      // terms with every kind of character, kept whole by the analyzer
    bool plain;    // only what the string form of queries can express
    Gen(Rng& q) : r(q) {}
    double someBoost(WS& text) {
        if (!r.oneIn(4)) return 1.0;
        std::pair<const wchar_t*, double> b[] = {{L"2", 2.0}, {L"0.5", 0.5}, {L"10.25", 10.25}, {L"3.0", 3.0}, {L"0", 0.0}, {L"100", 100.0}, {L"007", 7.0}};
        auto x = b[r.below(7)];
        text += L"^"; text += x.first;
        count("boosts");
        return x.second;
    }
    QueryPtr clause(WS& text, const WS& field, int depth) {
        WS f = field, pre;
        if (r.oneIn(4)) {
            if (!plain && r.oneIn(8)) { f = someWord(r, true); pre = written(r, f) + maybeSpace(r) + L":" + maybeSpace(r); }
            else { f = r.pick<WS>({L"f", L"g", L"title", L"field"}); pre = f + L":" + maybeSpace(r); }
            count("fields");
        }
        if (depth > 0 && r.oneIn(4)) {
            WS in;
            QueryPtr q = query(in, f, depth - 1);
            text += pre + L"(" + maybeSpace(r) + in + maybeSpace(r) + L")";
            WS b; double x = someBoost(b);
            text += b;
            if (!b.empty()) q->setBoost(x);
            count("groups");
            return q;
        }
        QueryPtr q;
        WS b;
        switch (r.below(11)) {
        case 0: case 1: case 2: {
            WS w = someWord(r, odd);
            text += pre + written(r, w);
            q = newLucene<TermQuery>(newLucene<Term>(f, w));
            count("terms");
            break; }
        case 3: case 4: { // phrase
            int n = (int)r.range(1, 4);
            if (odd) n = 1; // (the analyzer keeps it whole)
            WS t;
            PhraseQueryPtr p = newLucene<PhraseQuery>();
            WS last;
            for (int i = 0; i < n; ++i) {
                last = someWord(r, odd);
                if (odd && r.oneIn(2)) { last += L" "; last += someWord(r, odd); }
                if (i) t += space(r);
                t += odd ? written(r, last, true) : last;
                p->add(newLucene<Term>(f, last));
            }
            text += pre + L"\"" + t + L"\"";
            int slop = s.slop;
            if (r.oneIn(3)) { slop = (int)r.range(0, 12); text += fmtw(L"~", slop); }
            if (n == 1) q = newLucene<TermQuery>(newLucene<Term>(f, last));
            else { p->setSlop(slop); q = p; }
            count("phrases");
            break; }
        case 5: {
            WS w = upperSome(r, someWord(r, odd));
            // an escaped star in front counts as a leading wildcard too (as in Java)
            if (!s.leading && w[0] == L'*') w = L"k" + w;
            text += pre + written(r, w) + L"*";
            q = newLucene<PrefixQuery>(newLucene<Term>(f, s.lower ? lowered(w) : w));
            count("prefixes");
            break; }
        case 6: {
            // the part before keeps the wildcards
            WS w, t;
            int n = (int)r.range(2, 5);
            bool any = false;
            for (int i = 0; i < n; ++i) {
                if ((i || s.leading) && r.oneIn(3)) { wchar_t c = r.oneIn(2) ? L'*' : L'?'; w += c; t += c; any = true; }
                else { wchar_t c = (wchar_t)(L'a' + r.below(4)); if (r.oneIn(4)) c = (wchar_t)(c - 32); w += c; t += c; }
            }
            if (!any || w.find_first_not_of(L"*?") == WS::npos || w.find(L'?') == WS::npos) { w += L"?x"; t += L"?x"; }
            text += pre + t;
            q = newLucene<WildcardQuery>(newLucene<Term>(f, s.lower ? lowered(w) : w));
            count("wildcards");
            break; }
        case 7: {
            WS w = upperSome(r, someWord(r, odd));
            double sim = s.sim;
            text += pre + written(r, w) + L"~";
            if (r.oneIn(2)) { auto x = r.pick<std::pair<const wchar_t*, double>>({{L"0.5", 0.5}, {L"0.25", 0.25}, {L"0", 0.0}, {L"0.875", 0.875}}); text += x.first; sim = x.second; }
            q = newLucene<FuzzyQuery>(newLucene<Term>(f, s.lower ? lowered(w) : w), sim, s.prefixLength);
            count("fuzzies");
            break; }
        case 8: case 9: {
            bool in = r.oneIn(2);
            WS lo = someWord(r, false), hi = someWord(r, false);
            if (r.oneIn(2)) { lo = upperSome(r, lo); hi = upperSome(r, hi); }
            auto bound = [&](const WS& w) { return r.oneIn(4) ? L"\"" + w + L"\"" : w; };
            auto blank = [&](bool may) { return may && r.oneIn(2) ? WS() : WS((size_t)r.range(1, 2), L' '); }; // (only blanks separate in ranges)
            text += pre + (in ? L"[" : L"{") + blank(true) + bound(lo) + blank(false) + L"TO" + blank(false) + bound(hi) + blank(true) + (in ? L"]" : L"}");
            q = newLucene<TermRangeQuery>(f, s.lower ? lowered(lo) : lo, s.lower ? lowered(hi) : hi, in, in);
            count("ranges");
            break; }
        default:
            text += L"*:*";
            q = newLucene<MatchAllDocsQuery>();
            count("all");
        }
        double x = someBoost(b);
        text += b;
        if (!b.empty()) q->setBoost(x);
        return q;
    }
    static WS fmtw(const wchar_t* p, int n) { return WS(p) + StringUtils::toString(n); }
    QueryPtr query(WS& text, const WS& field, int depth) {
        int n = r.oneIn(3) ? 1 : (int)r.range(2, 5);
        struct C { QueryPtr q; int conj, mod; };
        std::vector<C> cs;
        for (int i = 0; i < n; ++i) {
            C c{QueryPtr(), 0, 0};
            if (i) {
                c.conj = r.oneIn(2) ? 0 : (int)r.range(1, 2);
                text += space(r);
                if (c.conj) text += WS(c.conj == 1 ? (r.oneIn(2) ? L"AND" : L"&&") : (r.oneIn(2) ? L"OR" : L"||")) + space(r);
            }
            c.mod = r.oneIn(3) ? (int)r.range(1, 2) : 0;
            if (c.mod) text += c.mod == 1 ? WS(L"+") + maybeSpace(r) : r.oneIn(2) ? WS(L"-") + maybeSpace(r) : r.oneIn(2) ? WS(L"!") + maybeSpace(r) : WS(L"NOT") + space(r);
            c.q = clause(text, field, depth);
            cs.push_back(c);
        }
        if (n == 1 && !cs[0].mod) return cs[0].q;
        // What each clause becomes: negated ones are prohibited.  With OR as the default, a clause is required when marked
        // so or joined by AND; with AND as the default, unless joined by OR.
        std::vector<BooleanClause::Occur> o((size_t)n);
        for (int i = 0; i < n; ++i) {
            if (cs[(size_t)i].mod == 2) { o[(size_t)i] = BooleanClause::MUST_NOT; continue; }
            bool andBefore = cs[(size_t)i].conj == 1, andAfter = i + 1 < n && cs[(size_t)i + 1].conj == 1;
            bool orBefore = cs[(size_t)i].conj == 2, orAfter = i + 1 < n && cs[(size_t)i + 1].conj == 2;
            bool must;
            if (!s.andOp) must = cs[(size_t)i].mod == 1 || andBefore || andAfter;
            else must = orAfter ? false : andAfter ? true : !orBefore;
            o[(size_t)i] = must ? BooleanClause::MUST : BooleanClause::SHOULD;
        }
        BooleanQueryPtr b = newLucene<BooleanQuery>();
        for (int i = 0; i < n; ++i) b->add(cs[(size_t)i].q, o[(size_t)i]);
        count("booleans");
        return b;
    }
};
static QueryPtr parsed(const QueryParserPtr& p, const WS& text, const std::string& key) {
    try {
        QueryPtr q = p->parse(text);
        VF_CHECK(!!q, key + ".null", "'" + u8(text) + "' gave no query");
        return q;
    } catch (QueryParserError& e) {
        fail(key + ".refused", "'" + u8(text) + "': " + u8(e.getError()));
    }
    return QueryPtr();
}
static void same(const QueryPtr& got, const QueryPtr& want, const std::string& key, const std::string& ctx) {
    VF_CHECK(got->toString(L"f") == want->toString(L"f"), key, ctx + "\n gave " + u8(got->toString(L"f")) + "\n not  " + u8(want->toString(L"f")));
    VF_CHECK(got->equals(want) && want->equals(got), key + ".equals", ctx + "\n " + u8(got->toString(L"f")));
    VF_EQ(got->hashCode(), want->hashCode(), key + ".hashCode", ctx);
}
static void faithful(Case& c) {
    Rng& r = c.rng;
    for (int i = 0; i < 25; ++i) {
        tick();
        Gen g(r);
        g.s = someSettings(r);
        g.odd = r.oneIn(2);
        g.plain = !g.odd;
        AnalyzerPtr a = g.odd ? AnalyzerPtr(newLucene<KeywordAnalyzer>()) : r.oneIn(2) ? AnalyzerPtr(newLucene<WhitespaceAnalyzer>()) : AnalyzerPtr(newLucene<SimpleAnalyzer>());
        WS text = maybeSpace(r);
        QueryPtr want = g.query(text, L"f", (int)r.range(0, 3));
        text += maybeSpace(r);
        QueryParserPtr p = g.s.make(L"f", a);
        if (r.oneIn(3)) { try { p->parse(r.pick<WS>({L"(a", L"\"b", L"a^", L"[a TO", L"\\", L"a AND", L"+"})); fail("qp.accepted", "a text that is no query was accepted"); } catch (QueryParserError&) {} }
        std::string ctx = "'" + u8(text) + "'" + (g.s.andOp ? " AND" : " OR") + (g.s.lower ? "" : " keep case");
        QueryPtr got = parsed(p, text, "qp.faithful");
        same(got, want, "qp.faithful", ctx);
        // again, by the same parser
        same(parsed(p, text, "qp.again"), want, "qp.again", ctx);
        // the string form parses back
        if (g.plain) {
            Settings o = g.s;
            o.andOp = false; o.lower = false; o.leading = true; o.slop = 0;
            QueryParserPtr p2 = o.make(L"f", newLucene<WhitespaceAnalyzer>());
            WS form = got->toString(L"f");
            QueryPtr back = parsed(p2, form, "qp.stable");
            same(back, got, "qp.stable", ctx + " as " + u8(form));
            count("round_trips");
        }
        sig(Hash().add(got->toString(L"")).h);
        count("faithful_queries");
    }
}
static void literal(Case& c) {
    Rng& r = c.rng;
    for (int i = 0; i < 20; ++i) {
        WS t;
        int n = (int)r.range(1, 12);
        for (int k = 0; k < n; ++k) {
            switch (r.below(5)) {
            case 0: case 1: t += special[(size_t)r.below(special.size())]; break;
            case 2: t += (wchar_t)r.range(33, 126); break;
            case 3: { wchar_t ch = (wchar_t)r.range(0xa0, 0xd7ff); t += ch == 0x3000 ? L'x' : ch; break; }
            default: t += (wchar_t)(L'a' + r.below(26));
            }
        }
        if (t == L"AND" || t == L"OR" || t == L"NOT" || t == L"&&" || t == L"||") t += L"x";
        Settings s = someSettings(r);
        QueryParserPtr p = s.make(L"f", newLucene<KeywordAnalyzer>());
        QueryPtr want = newLucene<TermQuery>(newLucene<Term>(L"f", t));
        same(parsed(p, QueryParser::escape(t), "qp.escape"), want, "qp.escape", "escaped '" + u8(t) + "'");
        WS with = t + space(r) + someWord(r, true);
        same(parsed(p, L"\"" + QueryParser::escape(with) + L"\"", "qp.escapeQuoted"), newLucene<TermQuery>(newLucene<Term>(L"f", with)), "qp.escapeQuoted", "escaped '" + u8(with) + "'");
        count("escaped_texts", 2);
    }
}
static void total(Case& c) {
    Rng& r = c.rng;
    const std::vector<WS> toks = {L"a", L"foo", L"AND", L"OR", L"NOT", L"&&", L"||", L"+", L"-", L"!", L"(", L")", L":", L"^", L"^2", L"[", L"]", L"{", L"}", L"TO", L"\"", L"~", L"~0.5", L"~1", L"~1.0", L"~2", L"*", L"?", L"\\", L"\\u0041",
        L"\\u00", L" ", L" ", L" ", L"\t", L"1", L"2.5", L"f:", L"g:(", L"*:*", L"&", L"|", L"bar*", L"b?r", L"[a TO b]", L"{a TO b}", L"\"x y\"", L"\"x y\"~3", L"[* TO b]", L"[\"a b\" TO \"c\"]", L"the", L"1/1/02", L"[1/1/2002 TO 2/3/2004]",
        L"\u3000", L"\u00e9", L"\U0001F600", L"99999999999999999999", L"~99999999999", L"^99999999999999999999999", L"''", L";", L"~-1", L"^-1", L"[a TO", L"TO b]"};
    AnalyzerPtr as[] = {newLucene<WhitespaceAnalyzer>(), newLucene<SimpleAnalyzer>(), newLucene<StandardAnalyzer>(LuceneVersion::LUCENE_CURRENT), newLucene<StopAnalyzer>(LuceneVersion::LUCENE_CURRENT), newLucene<KeywordAnalyzer>()};
    for (int i = 0; i < 60; ++i) {
        tick();
        WS t;
        if (r.oneIn(25)) { int d = (int)r.range(1, 300); t = WS((size_t)d, L'(') + L"a" + WS((size_t)(r.oneIn(2) ? d : (int)r.below((uint64_t)d + 2)), L')'); }
        else if (r.oneIn(30)) { int d = (int)r.range(1000, 1100); for (int k = 0; k < d; ++k) t += L"a" + StringUtils::toString(k) + L" "; }
        else if (r.oneIn(10)) { int n = (int)r.range(1, 5000); t = WS((size_t)n, r.pick({L'a', L'*', L'"', L' ', L'\\', L'~'})); if (r.oneIn(2)) t += L"b"; }
        else {
            int n = (int)r.range(0, 14);
            for (int k = 0; k < n; ++k) {
                if (r.oneIn(10)) t += (wchar_t)(r.oneIn(3) ? r.range(0, 31) : r.oneIn(2) ? r.range(32, 127) : r.range(128, 0xd7ff));
                else t += r.pick(toks);
                if (r.oneIn(3)) t += L" ";
            }
        }
        Settings s = someSettings(r);
        QueryParserPtr p;
        bool multi = r.oneIn(6);
        AnalyzerPtr a = as[r.below(5)];
        if (multi) {
            Collection<String> fs = Collection<String>::newInstance();
            fs.add(L"f"); fs.add(L"g");
            p = newLucene<MultiFieldQueryParser>(LuceneVersion::LUCENE_CURRENT, fs, a);
            s.set(p);
        } else p = s.make(L"f", a);
        if (r.oneIn(4)) p->setDateResolution(DateTools::RESOLUTION_DAY);
        if (r.oneIn(4)) p->setEnablePositionIncrements(false);
        c.log << "text '" << u8(t.substr(0, 200)) << "'\n";
        try {
            QueryPtr q = p->parse(t);
            VF_CHECK(!!q, "qp.total.null", u8(t));
            String form = q->toString(L"f");
            VF_CHECK(q->equals(q->clone()), "qp.total.clone", u8(t));
            VF_EQ(q->hashCode(), q->clone()->hashCode(), "qp.total.cloneHash", u8(t));
            // the same again
            QueryPtr q2 = p->parse(t);
            VF_CHECK(q2->toString(L"f") == form && q2->equals(q), "qp.total.again", u8(t) + " gave " + u8(form) + " and " + u8(q2->toString(L"f")));
            count("parsed");
            sig(Hash().add(form).h);
        } catch (QueryParserError& e) {
            count("refused");
            bool again = false;
            try { p->parse(t); } catch (QueryParserError&) { again = true; }
            VF_CHECK(again, "qp.total.refusedOnce", u8(t));
        }
        // an error leaves the parser usable
        QueryPtr ok = p->parse(L"alpha");
        if (!multi) VF_CHECK(ok->toString(L"f") == L"alpha", "qp.total.after", u8(t));
        c.log.str("");
    }
}
static void fields(Case& c) {
    Rng& r = c.rng;
    for (int i = 0; i < 6; ++i) {
        int n = (int)r.range(1, 4);
        Collection<String> fs = Collection<String>::newInstance();
        MapStringDouble boosts = MapStringDouble::newInstance();
        bool boosted = r.oneIn(2);
        std::vector<WS> names;
        for (int k = 0; k < n; ++k) { names.push_back(L"field" + StringUtils::toString(k)); fs.add(names.back()); if (!r.oneIn(3)) boosts.put(names.back(), (double)r.range(1, 8)); }
        MultiFieldQueryParserPtr p = boosted ? newLucene<MultiFieldQueryParser>(LuceneVersion::LUCENE_CURRENT, fs, newLucene<WhitespaceAnalyzer>(), boosts) : newLucene<MultiFieldQueryParser>(LuceneVersion::LUCENE_CURRENT, fs, newLucene<WhitespaceAnalyzer>());
        WS w = someWord(r, false), x = someWord(r, false);
        int kind = (int)r.below(5), slop = (int)r.range(1, 4);
        WS text = kind == 0 ? w : kind == 1 ? w + L"*" : kind == 2 ? L"\"" + w + L" " + x + L"\"~" + StringUtils::toString(slop) : kind == 3 ? w + L"~0.5" : L"[" + w + L" TO " + x + L"]";
        BooleanQueryPtr want = newLucene<BooleanQuery>(true);
        for (const WS& f : names) {
            QueryPtr q;
            if (kind == 0) q = newLucene<TermQuery>(newLucene<Term>(f, w));
            else if (kind == 1) q = newLucene<PrefixQuery>(newLucene<Term>(f, w));
            else if (kind == 2) { PhraseQueryPtr ph = newLucene<PhraseQuery>(); ph->add(newLucene<Term>(f, w)); ph->add(newLucene<Term>(f, x)); ph->setSlop(slop); q = ph; }
            else if (kind == 3) q = newLucene<FuzzyQuery>(newLucene<Term>(f, w), 0.5, 0);
            else q = newLucene<TermRangeQuery>(f, w, x, true, true);
            if (boosted && boosts.contains(f) && (kind == 0 || kind == 2)) q->setBoost(boosts.get(f)); // (boosts are documented for words and phrases)
            want->add(q, BooleanClause::SHOULD);
        }
        same(parsed(p, text, "qp.fields"), want, "qp.fields", u8(text));
        WS named = names[0] + L":" + text;
        QueryPtr one = parsed(p, named, "qp.fields");
        VF_CHECK(!MiscUtils::typeOf<BooleanQuery>(one), "qp.fields.named", u8(named) + " gave " + u8(one->toString()));
        count("field_queries");
    }
}
VF_MODE(parser) {
    faithful(c);
    literal(c);
    total(c);
    fields(c);
    if (wantSample()) sample(c.log.str());
}
VF_MAIN
