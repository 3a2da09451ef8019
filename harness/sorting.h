// Sort keys with the value each document has for them.
#ifndef VERIF_SORTING_H
#define VERIF_SORTING_H
#include "corpus.h"
#include "FieldComparator.h"
#include "FieldComparatorSource.h"

namespace vf {
// ---- a custom comparator: uid modulo something, computed from the field cache
class ModComparator : public FieldComparator {
public:
    int mod;
    std::vector<int> vals;
    Collection<int32_t> cur;
    int bottom = 0;
    ModComparator(int n, int m) : mod(m), vals((size_t)n) {}
    LUCENE_CLASS(ModComparator);
    virtual int32_t compare(int32_t a, int32_t b) { return vals[(size_t)a] - vals[(size_t)b]; }
    virtual void setBottom(int32_t s) { bottom = vals[(size_t)s]; }
    virtual int32_t compareBottom(int32_t d) { return bottom - cur[d] % mod; }
    virtual void copy(int32_t s, int32_t d) { vals[(size_t)s] = cur[d] % mod; }
    virtual void setNextReader(const IndexReaderPtr& r, int32_t) { cur = FieldCache::DEFAULT()->getInts(r, L"uid"); }
    virtual ComparableValue value(int32_t s) { return (int32_t)vals[(size_t)s]; }
};
class ModSource : public FieldComparatorSource {
public:
    int mod;
    ModSource(int m) : mod(m) {}
    LUCENE_CLASS(ModSource);
    virtual FieldComparatorPtr newComparator(const String&, int32_t n, int32_t, bool) { return newLucene<ModComparator>(n, mod); }
};

// a value documents are ordered by
struct Val {
    int kind;  // 0 number (long), 1 double, 2 string
    int64_t l = 0;
    double d = 0;
    WS s;
    int cmp(const Val& o) const {
        if (kind == 0) return l < o.l ? -1 : l > o.l;
        if (kind == 1) return d < o.d ? -1 : d > o.d;
        return s < o.s ? -1 : s > o.s;
    }
    std::string str() const { return kind == 0 ? std::to_string(l) : kind == 1 ? fmt("%.17g", d) : u8(s); }
};
struct Key {
    SortFieldPtr sf;
    bool rev, score = false;
    std::function<Val(const SDoc&, int doc, double score)> val;
    std::string s;
};
inline Val vl(int64_t x) { Val v; v.kind = 0; v.l = x; return v; }
inline Val vd(double x) { Val v; v.kind = 1; v.d = x; return v; }
inline Val vs(const WS& x) { Val v; v.kind = 2; v.s = x; return v; }

inline Key sortKey(Rng& r, const Corpus& co) {
    Key k;
    k.rev = r.oneIn(2);
    switch (r.below(13)) {
    case 0: k.sf = newLucene<SortField>(L"", SortField::SCORE, k.rev); k.val = [](const SDoc&, int, double s) { return vd(s); }; k.score = true; k.s = "score"; break;
    case 1: k.sf = newLucene<SortField>(L"", SortField::DOC, k.rev); k.val = [](const SDoc&, int d, double) { return vl(d); }; k.s = "doc"; break;
    case 2: k.sf = newLucene<SortField>(L"cat", SortField::STRING, k.rev); k.val = [](const SDoc& d, int, double) { return vs(d.hasCat ? d.cat : L""); }; k.s = "string"; break;
    case 3: k.sf = newLucene<SortField>(L"cat", SortField::STRING_VAL, k.rev); k.val = [](const SDoc& d, int, double) { return vs(d.hasCat ? d.cat : L""); }; k.s = "string_val"; break;
    case 4: k.sf = newLucene<SortField>(L"fs", SortField::BYTE, k.rev); k.val = [](const SDoc& d, int, double) { return vl(d.d.uid % 7); }; k.s = "byte"; break;
    case 5: k.sf = newLucene<SortField>(L"uid", SortField::INT, k.rev); k.val = [](const SDoc& d, int, double) { return vl(d.d.uid); }; k.s = "int(uid)"; break;
    case 6: k.sf = newLucene<SortField>(L"fs", SortField::LONG, k.rev); k.val = [](const SDoc& d, int, double) { return vl(d.d.uid % 7); }; k.s = "long(fs)"; break;
    case 7: k.sf = newLucene<SortField>(L"fs", SortField::DOUBLE, k.rev); k.val = [](const SDoc& d, int, double) { return vd(d.d.uid % 7); }; k.s = "double(fs)"; break;
    case 8: k.sf = r.oneIn(2) ? newLucene<SortField>(L"num", SortField::INT, k.rev) : newLucene<SortField>(L"num", FieldCache::NUMERIC_UTILS_INT_PARSER(), k.rev); k.val = [](const SDoc& d, int, double) { return vl(d.hasNum ? d.num : 0); }; k.s = "int(num)"; break;
    case 9: k.sf = r.oneIn(2) ? newLucene<SortField>(L"lng", SortField::LONG, k.rev) : newLucene<SortField>(L"lng", FieldCache::NUMERIC_UTILS_LONG_PARSER(), k.rev); k.val = [](const SDoc& d, int, double) { return vl(d.hasNum ? d.lng : 0); }; k.s = "long(lng)"; break;
    case 10: k.sf = r.oneIn(2) ? newLucene<SortField>(L"dbl", SortField::DOUBLE, k.rev) : newLucene<SortField>(L"dbl", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER(), k.rev); k.val = [](const SDoc& d, int, double) { return vd(d.hasNum ? d.dbl : 0); }; k.s = "double(dbl)"; break;
    case 11: { int m = (int)r.range(1, 5); k.sf = newLucene<SortField>(L"uid", newLucene<ModSource>(m), k.rev); k.val = [m](const SDoc& d, int, double) { return vl(d.d.uid % m); }; k.s = fmt("custom%%%d", m); break; }
    default: k.sf = newLucene<SortField>(L"cat", std::locale::classic(), k.rev); k.val = [](const SDoc& d, int, double) { return vs(d.hasCat ? d.cat : L""); }; k.s = "locale"; break;
    }
    if (k.rev) k.s += "!";
    return k;
}

inline std::string keysStr(const std::vector<Key>& ks) { std::string o; for (auto& k : ks) o += k.s + ","; return o; }
}
#endif
