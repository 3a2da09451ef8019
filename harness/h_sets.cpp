// Sets, queues and collections against their mathematical models (C20); numeric and date encodings and ranges (C17).
#include "verif.h"
#include "BitVector.h"
#include "BitSet.h"
#include "OpenBitSet.h"
#include "VariantUtils.h"
#include "OpenBitSetIterator.h"
#include "OpenBitSetDISI.h"
#include "SortedVIntList.h"
#include "DocIdBitSet.h"
#include "BitUtil.h"
#include "PriorityQueue.h"
#include "ScorerDocQueue.h"
#include "FilteredDocIdSet.h"
#include "Scorer.h"
#include "Similarity.h"
#include "NumericUtils.h"
#include "NumericTokenStream.h"
#include "NumericField.h"
#include "NumericRangeQuery.h"
#include "NumericRangeFilter.h"
#include "FieldCacheRangeFilter.h"
#include "FieldCache.h"
#include "NumberTools.h"
#include "DateTools.h"
#include "MiscUtils.h"
#include "KeywordAnalyzer.h"
#include "TermAttribute.h"
#include "PositionIncrementAttribute.h"
#include "TypeAttribute.h"
#include <cmath>
#include <cfloat>
using namespace vf;
using namespace Lucene;
typedef std::set<int> ISet;

static int someIndex(Rng& r, int n) {
    if (n <= 1) return 0;
    int i;
    switch (r.below(4)) {
    case 0: i = (int)(64 * r.range(0, n / 64) + r.range(-1, 1)); break;
    case 1: i = (int)(8 * r.range(0, n / 8) + r.range(-1, 1)); break;
    case 2: i = r.oneIn(2) ? 0 : n - 1; break;
    default: i = (int)r.below((uint64_t)n);
    }
    return std::min(std::max(i, 0), n - 1);
}
static int someSize(Rng& r) {
    switch (r.below(5)) {
    case 0: return (int)r.range(1, 9);
    case 1: return (int)(64 * r.range(1, 20) + r.range(-1, 1));
    case 2: return (int)(8 * r.range(1, 40) + r.range(-1, 1));
    case 3: return (int)r.range(1, 3000);
    default: return (int)r.range(1, 200);
    }
}
static ISet someSet(Rng& r, int n) {
    ISet s;
    switch (r.below(5)) {
    case 0: break;
    case 1: for (int i = 0; i < n; ++i) s.insert(i); break;
    case 2: { int k = (int)r.below(6); for (int i = 0; i < k; ++i) s.insert(someIndex(r, n)); break; }
    case 3: { int p = (int)r.range(1, 99); for (int i = 0; i < n; ++i) if (r.chance(p)) s.insert(i); break; }
    default: { int a = someIndex(r, n), b = someIndex(r, n); for (int i = std::min(a, b); i < std::max(a, b); ++i) s.insert(i); if (r.oneIn(2)) s.insert(someIndex(r, n)); }
    }
    return s;
}
static std::string setStr(const ISet& s) { std::string t = fmt("%zu:", s.size()); int k = 0; for (int x : s) { if (++k > 60) { t += ".."; break; } t += fmt(" %d", x); } return t; }

// an iterator over a sorted set: nextDoc and advance in any mixture
static void checkIterator(Rng& r, const DocIdSetIteratorPtr& itIn, const ISet& s, const std::string& key) {
    if (!itIn) { VF_CHECK(s.empty(), key + ".null", "no iterator for a set of " + setStr(s)); return; }
    DocIdSetIteratorPtr it = itIn;
    int mode = (int)r.below(3), cur = -1;
    for (;;) {
        bool adv = mode == 1 || (mode == 2 && r.oneIn(2));
        int got;
        int target = cur + 1;
        if (adv) {
            target = r.oneIn(3) ? cur + 1 : cur + (int)r.range(1, r.oneIn(4) ? 700 : 70);
            got = it->advance(target);
            count("advances");
        } else got = it->nextDoc();
        auto w = s.lower_bound(target);
        int want = w == s.end() ? DocIdSetIterator::NO_MORE_DOCS : *w;
        VF_CHECK(got == want, key, fmt("%s(%d) from %d gave %d instead of %d; ", adv ? "advance" : "next", target, cur, got, want) + setStr(s));
        VF_CHECK(it->docID() == want, key + ".docID", fmt("docID() is %d instead of %d", it->docID(), want));
        count("iterator_steps");
        if (want == DocIdSetIterator::NO_MORE_DOCS) break;
        cur = want;
    }
}
namespace {
class ListIterator : public DocIdSetIterator {
public:
    std::vector<int> v; int i = -1;
    ListIterator(const ISet& s) : v(s.begin(), s.end()) {}
    LUCENE_CLASS(ListIterator);
    virtual int32_t docID() { return i < 0 ? -1 : i >= (int)v.size() ? NO_MORE_DOCS : v[(size_t)i]; }
    virtual int32_t nextDoc() { if (i < (int)v.size()) ++i; return docID(); }
    virtual int32_t advance(int32_t t) { do ++i; while (i < (int)v.size() && v[(size_t)i] < t); return docID(); }
};
class ListScorer : public Scorer {
public:
    ListIterator it;
    ListScorer(const ISet& s) : Scorer(SimilarityPtr()), it(s) {}
    LUCENE_CLASS(ListScorer);
    virtual int32_t docID() { return it.docID(); }
    virtual int32_t nextDoc() { return it.nextDoc(); }
    virtual int32_t advance(int32_t t) { return it.docID() >= t ? it.docID() : it.advance(t); }
    virtual double score() { return it.docID() * 0.5; }
};
class Odd : public FilteredDocIdSet {
public:
    int k; bool nothing = false;
    Odd(const DocIdSetPtr& in, int kk) : FilteredDocIdSet(in), k(kk) {}
    LUCENE_CLASS(Odd);
    virtual bool match(int32_t d) { return !nothing && d % k == 0; }
};
struct Box { int v; int id; };
typedef boost::shared_ptr<Box> BoxP;
class BoxQueue : public PriorityQueue<BoxP> {
public:
    BoxQueue(int n) : PriorityQueue<BoxP>(n) {}
    virtual bool lessThan(const BoxP& a, const BoxP& b) { return a->v < b->v; }
};
class SentinelQueue : public PriorityQueue<BoxP> {
public:
    SentinelQueue(int n) : PriorityQueue<BoxP>(n) {}
    virtual bool lessThan(const BoxP& a, const BoxP& b) { return a->v < b->v; }
    virtual BoxP getSentinelObject() { BoxP b(new Box); b->v = -1; b->id = -1; return b; }
};
}
static ISet odd(const ISet& s, int k) { ISet o; for (int x : s) if (x % k == 0) o.insert(x); return o; }
static void sigSet(const ISet& s, uint64_t kind) { Hash h; h.add(kind); for (int x : s) h.add((uint64_t)x); sig(h.h); }

static void bitVector(Case& c) {
    Rng& r = c.rng;
    int n = someSize(r);
    if (r.oneIn(20)) n = (int)r.range(20000, 80000);
    BitVectorPtr b = newLucene<BitVector>(n);
    ISet s;
    int steps = (int)r.range(1, n > 10000 ? 40 : 150);
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    c.log << "BitVector " << n << "\n";
    for (int j = 0; j < steps; ++j) {
        int i = someIndex(r, n);
        switch (r.below(10)) {
        case 0: case 1: case 2: b->set(i); s.insert(i); break;
        case 3: { bool was = b->getAndSet(i); VF_EQ(was, s.count(i) > 0, "sets.bitvector.getAndSet", fmt("bit %d", i)); s.insert(i); break; }
        case 4: b->clear(i); s.erase(i); break;
        case 5: VF_EQ(b->get(i), s.count(i) > 0, "sets.bitvector.get", fmt("bit %d", i)); break;
        case 6: VF_EQ(b->count(), (int)s.size(), "sets.bitvector.count", fmt("size %d", n)); VF_EQ(b->getRecomputedCount(), (int)s.size(), "sets.bitvector.count", "recomputed"); break;
        case 7: { // a burst
            int a = someIndex(r, n), z = std::min(n, a + (int)r.range(1, n)); bool on = r.oneIn(2);
            for (int k = a; k < z; ++k) { if (on) { b->set(k); s.insert(k); } else { b->clear(k); s.erase(k); } }
            break; }
        case 8: { // persistence, sparse and dense
            b->write(dir, L"bits");
            BitVectorPtr d = newLucene<BitVector>(dir, L"bits");
            VF_EQ(d->size(), n, "sets.bitvector.readSize", "");
            VF_EQ(d->count(), (int)s.size(), "sets.bitvector.readCount", "");
            for (int k = 0; k < n; ++k) if (d->get(k) != (s.count(k) > 0)) fail("sets.bitvector.read", fmt("bit %d of %d read back as %d; ", k, n, d->get(k)) + setStr(s));
            dir->deleteFile(L"bits");
            count("bitvectors_read");
            if (b->isSparse()) count("sparse_bitvectors");
            if (r.oneIn(2)) b = d;
            break; }
        default: {
            BitVectorPtr k = boost::dynamic_pointer_cast<BitVector>(b->clone());
            int f = someIndex(r, n);
            BitVectorPtr before = b;
            k->set(f);
            VF_EQ(b->get(f), s.count(f) > 0, "sets.bitvector.clone", "a clone shares its bits");
            int from = someIndex(r, n), to = std::min(n, from + (int)r.range(0, 70));
            BitVectorPtr sub = b->subset(from, to);
            VF_EQ(sub->size(), to - from, "sets.bitvector.subsetSize", "");
            for (int x = from; x < to; ++x) VF_EQ(sub->get(x - from), s.count(x) > 0, "sets.bitvector.subset", fmt("[%d,%d) at %d", from, to, x));
        }
        }
        count("bitvector_ops");
    }
    for (int k = 0; k < n; ++k) if (b->get(k) != (s.count(k) > 0)) fail("sets.bitvector.final", fmt("bit %d of %d", k, n));
    bool threw = false;
    try { b->set(n); } catch (LuceneException&) { threw = true; }
    VF_CHECK(threw, "sets.bitvector.beyond", "setting a bit beyond the end was not refused");
    sigSet(s, 1);
}
static ISet apply(int op, const ISet& a, const ISet& b) {
    ISet o;
    switch (op) {
    case 0: for (int x : a) if (b.count(x)) o.insert(x); break;
    case 1: o = a; o.insert(b.begin(), b.end()); break;
    case 2: for (int x : a) if (!b.count(x)) o.insert(x); break;
    default: for (int x : a) if (!b.count(x)) o.insert(x); for (int x : b) if (!a.count(x)) o.insert(x);
    }
    return o;
}
static void checkBitSet(Rng& r, const BitSetPtr& b, const ISet& s, int n, const std::string& key) {
    VF_EQ((int)b->cardinality(), (int)s.size(), key + ".cardinality", setStr(s));
    VF_EQ(b->isEmpty(), s.empty(), key + ".isEmpty", "");
    for (int i = 0; i < n + 70; ++i) if (b->get((uint32_t)i) != (s.count(i) > 0)) fail(key + ".get", fmt("bit %d: ", i) + setStr(s));
    int at = 0;
    ISet seen;
    while ((at = b->nextSetBit((uint32_t)at)) >= 0) { seen.insert(at); ++at; }
    VF_CHECK(seen == s, key + ".nextSetBit", setStr(seen) + " instead of " + setStr(s));
    VF_CHECK(b->nextSetBit((uint32_t)(n + 500)) == -1, key + ".nextSetBitBeyond", "");
    checkIterator(r, newLucene<DocIdBitSet>(b)->iterator(), s, key + ".docIdBitSet");
    count("bitset_checks");
}
static BitSetPtr toBitSet(Rng& r, const ISet& s, int n) {
    BitSetPtr b = r.oneIn(2) ? newLucene<BitSet>((uint32_t)n) : newLucene<BitSet>();
    for (int x : s) b->set((uint32_t)x);
    return b;
}
static void bitSet(Case& c) {
    Rng& r = c.rng;
    int n = someSize(r);
    ISet s = someSet(r, n);
    BitSetPtr b = toBitSet(r, s, n);
    int steps = (int)r.range(1, 60);
    c.log << "BitSet " << n << "\n";
    for (int j = 0; j < steps; ++j) {
        int i = someIndex(r, n), a = someIndex(r, n), z = someIndex(r, n);
        if (a > z) std::swap(a, z);
        c.log << fmt("step %d i %d a %d z %d size %u\n", j, i, a, z, b->size());
        switch (r.below(12)) {
        case 0: b->set((uint32_t)i); s.insert(i); break;
        case 1: { bool v = r.oneIn(2); b->set((uint32_t)i, v); if (v) s.insert(i); else s.erase(i); break; }
        case 2: b->clear((uint32_t)i); s.erase(i); break;
        case 3: { bool v = r.oneIn(2); if (v && r.oneIn(2)) b->set((uint32_t)a, (uint32_t)z); else b->set((uint32_t)a, (uint32_t)z, v); for (int k = a; k < z; ++k) if (v) s.insert(k); else s.erase(k); break; }
        case 4: b->clear((uint32_t)a, (uint32_t)z); for (int k = a; k < z; ++k) s.erase(k); break;
        case 5: b->flip((uint32_t)i); if (!s.erase(i)) s.insert(i); break;
        case 6: b->flip((uint32_t)a, (uint32_t)z); for (int k = a; k < z; ++k) if (!s.erase(k)) s.insert(k); break;
        case 7: if (r.oneIn(6)) { b->clear(); s.clear(); } else b->clear((uint32_t)(n + r.below(130))); break;
        case 8: {
            int m = r.oneIn(2) ? n : someSize(r);
            ISet t = someSet(r, m);
            BitSetPtr o = toBitSet(r, t, m);
            VF_EQ(b->intersectsBitSet(o), !apply(0, s, t).empty(), "sets.bitset.intersects", setStr(s) + " | " + setStr(t));
            int op = (int)r.below(4);
            if (op == 0) b->_and(o); else if (op == 1) b->_or(o); else if (op == 2) b->andNot(o); else b->_xor(o);
            s = apply(op, s, t);
            n = std::max(n, m);
            checkBitSet(r, o, t, m, "sets.bitset.operand");
            checkBitSet(r, b, s, n, fmt("sets.bitset.op%d", op));
            break; }
        case 9: checkBitSet(r, b, s, n, "sets.bitset"); break;
        case 10: {
            BitSetPtr k = boost::dynamic_pointer_cast<BitSet>(b->clone());
            VF_CHECK(k->equals(b) && b->equals(k) && k->hashCode() == b->hashCode(), "sets.bitset.cloneEquals", setStr(s));
            k->flip((uint32_t)i);
            VF_CHECK(!k->equals(b) && !b->equals(k), "sets.bitset.equals", "sets that differ are equal");
            checkBitSet(r, b, s, n, "sets.bitset.cloned");
            BitSetPtr again = toBitSet(r, s, n);
            VF_CHECK(again->equals(b) && b->equals(again), "sets.bitset.sameContent", "sets of the same content are not equal " + setStr(s));
            VF_CHECK(again->hashCode() == b->hashCode(), "sets.bitset.sameHash", "equal sets have different hash codes " + setStr(s));
            break; }
        default:
            if ((int)b->size() > i && i < n) {
                if (b->get((uint32_t)i)) { b->fastClear((uint32_t)i); s.erase(i); } else if (i < (int)b->bitSet.size()) { b->fastSet((uint32_t)i); s.insert(i); }
            }
        }
        count("bitset_ops");
    }
    checkBitSet(r, b, s, n, "sets.bitset.final");
    sigSet(s, 2);
}
static void checkOpen(Rng& r, const OpenBitSetPtr& b, const ISet& s, int n, const std::string& key) {
    VF_EQ((int)b->cardinality(), (int)s.size(), key + ".cardinality", setStr(s));
    VF_EQ(b->isEmpty(), s.empty(), key + ".isEmpty", setStr(s));
    for (int i = 0; i < n + 70; ++i) {
        if (b->get((int32_t)i) != (s.count(i) > 0) || b->get((int64_t)i) != (s.count(i) > 0)) fail(key + ".get", fmt("bit %d: ", i) + setStr(s));
    }
    int at = 0;
    ISet seen;
    while ((at = b->nextSetBit((int32_t)at)) >= 0) { VF_EQ((int)b->nextSetBit((int64_t)at), at, key + ".nextSetBit64", ""); seen.insert(at); ++at; }
    VF_CHECK(seen == s, key + ".nextSetBit", setStr(seen) + " instead of " + setStr(s));
    checkIterator(r, b->iterator(), s, key + ".iterator");
    count("openbitset_checks");
}
static OpenBitSetPtr toOpen(Rng& r, const ISet& s, int n) {
    OpenBitSetPtr b = r.oneIn(2) ? newLucene<OpenBitSet>((int64_t)n) : newLucene<OpenBitSet>((int64_t)r.range(0, 64));
    for (int x : s) b->set((int64_t)x);
    return b;
}
static void openBitSet(Case& c) {
    Rng& r = c.rng;
    int n = someSize(r);
    ISet s = someSet(r, n);
    OpenBitSetPtr b = toOpen(r, s, n);
    int steps = (int)r.range(1, 60);
    c.log << "OpenBitSet " << n << "\n";
    for (int j = 0; j < steps; ++j) {
        int i = someIndex(r, n), a = someIndex(r, n), z = someIndex(r, n);
        if (a > z) std::swap(a, z);
        int op = (int)r.below(15);
        c.log << fmt("op %d i %d a %d z %d words %d\n", op, i, a, z, b->getNumWords());
        bool in = i < b->getNumWords() * 64; // the fast operations do not grow the set
        switch (op) {
        case 0: b->set((int64_t)i); s.insert(i); break;
        case 1: if (in) { b->fastSet((int32_t)i); s.insert(i); } break;
        case 2: b->clear((int64_t)i); s.erase(i); break;
        case 3: b->set((int64_t)a, (int64_t)z); for (int k = a; k < z; ++k) s.insert(k); break;
        case 4: if (r.oneIn(2)) b->clear((int32_t)a, (int32_t)z); else b->clear((int64_t)a, (int64_t)z); for (int k = a; k < z; ++k) s.erase(k); break;
        case 5: b->flip((int64_t)i); if (!s.erase(i)) s.insert(i); break;
        case 6: b->flip((int64_t)a, (int64_t)z); for (int k = a; k < z; ++k) if (!s.erase(k)) s.insert(k); break;
        case 7: if (in) { bool was = r.oneIn(2) ? b->getAndSet((int32_t)i) : b->getAndSet((int64_t)i); VF_EQ(was, s.count(i) > 0, "sets.openbitset.getAndSet", fmt("%d", i)); s.insert(i); } break;
        case 8: if (in) { bool is = r.oneIn(2) ? b->flipAndGet((int32_t)i) : b->flipAndGet((int64_t)i); if (!s.erase(i)) s.insert(i); VF_EQ(is, s.count(i) > 0, "sets.openbitset.flipAndGet", fmt("%d", i)); } break;
        case 9: if (in) { b->fastFlip((int32_t)i); if (!s.erase(i)) s.insert(i); VF_EQ(b->getBit(i), (int)s.count(i), "sets.openbitset.getBit", ""); VF_EQ(b->fastGet((int32_t)i), s.count(i) > 0, "sets.openbitset.fastGet", ""); } break;
        case 10: case 11: {
            int m = r.oneIn(2) ? n : someSize(r);
            ISet t = someSet(r, m);
            OpenBitSetPtr o = toOpen(r, t, m);
            VF_EQ(b->intersects(o), !apply(0, s, t).empty(), "sets.openbitset.intersects", "");
            VF_EQ((int)OpenBitSet::intersectionCount(b, o), (int)apply(0, s, t).size(), "sets.openbitset.intersectionCount", "");
            VF_EQ((int)OpenBitSet::unionCount(b, o), (int)apply(1, s, t).size(), "sets.openbitset.unionCount", "");
            VF_EQ((int)OpenBitSet::andNotCount(b, o), (int)apply(2, s, t).size(), "sets.openbitset.andNotCount", "");
            VF_EQ((int)OpenBitSet::xorCount(b, o), (int)apply(3, s, t).size(), "sets.openbitset.xorCount", "");
            int k = (int)r.below(4);
            bool alias = r.oneIn(2);
            if (k == 0) { if (alias) b->_and(o); else b->intersect(o); } else if (k == 1) { if (alias) b->_or(o); else b->_union(o); } else if (k == 2) { if (alias) b->andNot(o); else b->remove(o); } else b->_xor(o);
            s = apply(k, s, t);
            n = std::max(n, m);
            checkOpen(r, o, t, m, "sets.openbitset.operand");
            checkOpen(r, b, s, n, fmt("sets.openbitset.op%d", k));
            break; }
        case 12: b->trimTrailingZeros(); break;
        case 13: {
            OpenBitSetPtr k = boost::dynamic_pointer_cast<OpenBitSet>(b->clone());
            VF_CHECK(k->equals(b) && b->equals(k) && k->hashCode() == b->hashCode(), "sets.openbitset.cloneEquals", setStr(s));
            k->flip((int64_t)i);
            VF_CHECK(!k->equals(b) && !b->equals(k), "sets.openbitset.equals", "sets that differ are equal");
            checkOpen(r, b, s, n, "sets.openbitset.cloned");
            OpenBitSetPtr again = toOpen(r, s, n);
            VF_CHECK(again->equals(b) && b->equals(again), "sets.openbitset.sameContent", "sets of the same content are not equal");
            VF_CHECK(again->hashCode() == b->hashCode(), "sets.openbitset.sameHash", "equal sets have different hash codes");
            break; }
        default:
            if (r.oneIn(2)) b->ensureCapacity((int64_t)someIndex(r, 2 * n)); else checkOpen(r, b, s, n, "sets.openbitset");
        }
        count("openbitset_ops");
    }
    checkOpen(r, b, s, n, "sets.openbitset.final");
    // in place with iterators
    OpenBitSetDISIPtr d = r.oneIn(2) ? newLucene<OpenBitSetDISI>(n) : newLucene<OpenBitSetDISI>(newLucene<ListIterator>(s), n);
    ISet t = d->cardinality() ? s : ISet();
    for (int j = 0; j < 5; ++j) {
        ISet o = someSet(r, n);
        DocIdSetIteratorPtr it = newLucene<ListIterator>(o);
        int k = (int)r.below(4);
        if (k == 0) d->inPlaceAnd(it); else if (k == 1) d->inPlaceOr(it); else if (k == 2) d->inPlaceNot(it); else d->inPlaceXor(it);
        t = apply(k, t, o);
        checkOpen(r, d, t, n, fmt("sets.disi.op%d", k));
    }
    sigSet(s, 3);
}
static void lists(Case& c) {
    Rng& r = c.rng;
    int n = someSize(r);
    if (r.oneIn(6)) n = 0x7ffffff0;
    ISet s;
    if (n > 10000) { int k = (int)r.range(0, 200); for (int i = 0; i < k; ++i) s.insert(r.oneIn(2) ? (int)r.below((uint64_t)n) : (int)((1LL << (7 * r.range(1, 4))) + r.range(-2, 2))); }
    else s = someSet(r, n);
    Collection<int32_t> v = Collection<int32_t>::newInstance(s.begin(), s.end());
    SortedVIntListPtr l;
    switch (r.below(n > 10000 ? 3 : 5)) {
    case 0: l = newLucene<SortedVIntList>(v); break;
    case 1: v.add(0); l = newLucene<SortedVIntList>(v, (int32_t)s.size()); break;
    case 2: l = newLucene<SortedVIntList>(newLucene<ListIterator>(s)); break;
    case 3: l = newLucene<SortedVIntList>(toBitSet(r, s, n)); break;
    default: l = newLucene<SortedVIntList>(toOpen(r, s, n));
    }
    VF_EQ(l->size(), (int)s.size(), "sets.vintlist.size", "");
    for (int k = 0; k < 3; ++k) checkIterator(r, l->iterator(), s, "sets.vintlist");
    int k = (int)r.range(1, 5);
    boost::shared_ptr<Odd> o = newLucene<Odd>(l, k);
    for (int j = 0; j < 2; ++j) checkIterator(r, o->iterator(), odd(s, k), "sets.filtered");
    o->nothing = true;
    checkIterator(r, o->iterator(), ISet(), "sets.filteredEmpty");
    count("vint_lists");
    if (s.size() > 1) {
        Collection<int32_t> bad = Collection<int32_t>::newInstance(s.begin(), s.end());
        std::swap(bad[0], bad[1]);
        bool threw = false;
        try { newLucene<SortedVIntList>(bad); } catch (IllegalArgumentException&) { threw = true; }
        VF_CHECK(threw, "sets.vintlist.unsorted", "an unsorted list was not refused");
    }
    sigSet(s, 4);
}
static void queues(Case& c) {
    Rng& r = c.rng;
    int n = (int)r.range(0, r.oneIn(3) ? 5 : 60);
    boost::shared_ptr<BoxQueue> q = newLucene<BoxQueue>(n);
    std::multiset<int> m;
    VF_EQ(q->maxSize(), n, "sets.queue.maxSize", "");
    int steps = (int)r.range(1, 200), range = (int)r.pick({3, 50, 100000});
    for (int j = 0; j < steps; ++j) {
        BoxP b(new Box);
        b->v = (int)r.below((uint64_t)range);
        int op = (int)r.below(8);
        if (op < 2) {
            if ((int)m.size() < n) { m.insert(b->v); BoxP t = q->add(b); VF_EQ(t->v, *m.begin(), "sets.queue.add", ""); }
            else if (n) { bool threw = false; try { boost::shared_ptr<BoxQueue> full = newLucene<BoxQueue>(0); full->add(b); full->add(b); } catch (LuceneException&) { threw = true; } VF_CHECK(threw, "sets.queue.overfull", "adding to a full queue was not refused"); }
        } else if (op < 5) {
            BoxP out = q->addOverflow(b);
            if ((int)m.size() < n) { VF_CHECK(!out, "sets.queue.addOverflow", "something was dropped though there is room"); m.insert(b->v); }
            else {
                VF_CHECK(!!out, "sets.queue.addOverflow", "nothing was dropped by a full queue");
                if (m.empty() || b->v < *m.begin()) VF_CHECK(out == b, "sets.queue.addOverflow", "the least was not the one dropped");
                else { VF_EQ(out->v, std::min(b->v, *m.begin()), "sets.queue.addOverflow", "the least was not the one dropped"); m.insert(b->v); m.erase(m.find(out->v)); }
            }
        } else if (op == 5) {
            BoxP p = q->pop();
            if (m.empty()) VF_CHECK(!p, "sets.queue.pop", "an empty queue gave something");
            else { VF_EQ(p->v, *m.begin(), "sets.queue.pop", "not the least"); m.erase(m.begin()); }
        } else if (op == 6 && !m.empty()) {
            BoxP t = q->top();
            VF_EQ(t->v, *m.begin(), "sets.queue.top", "not the least");
            m.erase(m.begin());
            t->v = (int)r.below((uint64_t)range);
            m.insert(t->v);
            VF_EQ(q->updateTop()->v, *m.begin(), "sets.queue.updateTop", "not the least");
        } else if (r.oneIn(30)) { q->clear(); m.clear(); }
        VF_EQ(q->size(), (int)m.size(), "sets.queue.size", "");
        VF_EQ(q->empty(), m.empty(), "sets.queue.empty", "");
        count("queue_ops");
    }
    while (!m.empty()) { VF_EQ(q->pop()->v, *m.begin(), "sets.queue.drain", ""); m.erase(m.begin()); }
    // a queue filled with sentinels keeps the greatest
    n = (int)r.range(1, 20);
    boost::shared_ptr<SentinelQueue> sq = newLucene<SentinelQueue>(n);
    VF_EQ(sq->size(), n, "sets.queue.sentinels", "");
    std::vector<int> all;
    int k = (int)r.range(0, 50);
    for (int i = 0; i < k; ++i) { int v = (int)r.below(1000); all.push_back(v); if (v > sq->top()->v) { sq->top()->v = v; sq->updateTop(); } }
    std::sort(all.rbegin(), all.rend());
    for (int i = n - 1; i >= 0; --i) { BoxP p = sq->pop(); VF_EQ(p->v, i < k ? all[(size_t)i] : -1, "sets.queue.sentinelOrder", fmt("%d of %d", i, n)); }
    // scorers ordered by their documents
    int ns = (int)r.range(1, 12);
    ScorerDocQueuePtr sd = newLucene<ScorerDocQueue>(ns);
    std::vector<ISet> ls;
    std::multimap<int, int> model;  // doc -> scorer
    std::vector<ScorerPtr> sc;
    for (int i = 0; i < ns; ++i) {
        ls.push_back(someSet(r, 150));
        ScorerPtr p = newLucene<ListScorer>(ls.back());
        sc.push_back(p);
        if (p->nextDoc() != DocIdSetIterator::NO_MORE_DOCS) {
            if (r.oneIn(2)) sd->put(p); else VF_CHECK(sd->insert(p), "sets.scorerQueue.insert", "refused though there is room");
            model.insert(std::make_pair(p->docID(), i));
        }
    }
    auto which = [&](const ScorerPtr& p) { for (size_t i = 0; i < sc.size(); ++i) if (sc[i] == p) return (int)i; return -1; };
    auto take = [&](int doc, int w) { for (auto e = model.lower_bound(doc); e != model.end() && e->first == doc; ++e) if (e->second == w) { model.erase(e); return true; } return false; };
    while (!model.empty()) {
        VF_EQ(sd->size(), (int)model.size(), "sets.scorerQueue.size", "");
        int doc = sd->topDoc();
        VF_EQ(doc, model.begin()->first, "sets.scorerQueue.topDoc", "not the least document");
        int w = which(sd->top());
        VF_EQ(sd->topScore(), doc * 0.5, "sets.scorerQueue.topScore", "");
        VF_CHECK(take(doc, w), "sets.scorerQueue.top", "the top is not at its document");
        int op = (int)r.below(4), target = doc + (int)r.range(1, 30);
        bool stays = true;
        if (op == 0) stays = sd->topNextAndAdjustElsePop();
        else if (op == 1) stays = sd->topSkipToAndAdjustElsePop(target);
        else if (op == 2) { VF_EQ(which(sd->pop()), w, "sets.scorerQueue.pop", ""); stays = false; }
        else { if (sc[(size_t)w]->nextDoc() == DocIdSetIterator::NO_MORE_DOCS) { sd->pop(); stays = false; } else sd->adjustTop(); }
        if (op != 2) {
            auto nx = ls[(size_t)w].lower_bound(op == 1 ? target : doc + 1);
            VF_EQ(stays, nx != ls[(size_t)w].end(), "sets.scorerQueue.stays", fmt("op %d", op));
            if (stays) model.insert(std::make_pair(*nx, w));
        }
        count("scorer_queue_ops");
    }
    VF_EQ(sd->size(), 0, "sets.scorerQueue.end", "");
}
static void words(Case& c) {
    Rng& r = c.rng;
    for (int j = 0; j < 60; ++j) {
        int64_t x = r.oneIn(3) ? (int64_t)(1ULL << r.below(64)) : (int64_t)(r.next() << r.below(64));
        if (r.oneIn(20)) x = 0;
        VF_EQ(BitUtil::pop(x), (int)__builtin_popcountll((uint64_t)x), "sets.words.pop", fmt("%llx", (long long)x));
        if (x) {
            VF_EQ(BitUtil::ntz(x), (int)__builtin_ctzll((uint64_t)x), "sets.words.ntz", fmt("%llx", (long long)x));
            VF_EQ(BitUtil::ntz2(x), (int)__builtin_ctzll((uint64_t)x), "sets.words.ntz2", fmt("%llx", (long long)x));
            VF_EQ(BitUtil::ntz3(x), (int)__builtin_ctzll((uint64_t)x), "sets.words.ntz3", fmt("%llx", (long long)x));
        }
        int32_t y = (int32_t)(x >> 13);
        if (y) VF_EQ(BitUtil::ntz(y), (int)__builtin_ctz((uint32_t)y), "sets.words.ntz32", fmt("%x", y));
        if (y > 0) {
            VF_EQ(BitUtil::isPowerOfTwo(y), (y & (y - 1)) == 0, "sets.words.isPowerOfTwo", fmt("%d", y));
            if (y <= (1 << 30)) { int32_t p = 1; while (p < y) p <<= 1; VF_EQ(BitUtil::nextHighestPowerOfTwo(y), p, "sets.words.nextPowerOfTwo", fmt("%d", y)); }
        }
        if (x > 0 && x <= (1LL << 62)) { int64_t p = 1; while (p < x) p <<= 1; VF_EQ(BitUtil::nextHighestPowerOfTwo(x), p, "sets.words.nextPowerOfTwo64", fmt("%lld", (long long)x)); VF_EQ(BitUtil::isPowerOfTwo(x), (x & (x - 1)) == 0, "sets.words.isPowerOfTwo64", ""); }
        count("words");
    }
    int n = (int)r.range(1, 70), off = (int)r.below((uint64_t)n);
    std::vector<int64_t> a, b;
    for (int i = 0; i < n; ++i) { a.push_back(r.oneIn(3) ? -1 : (int64_t)r.next()); b.push_back(r.oneIn(3) ? 0 : (int64_t)r.next()); }
    int64_t w[5] = {0, 0, 0, 0, 0};
    for (int i = off; i < n; ++i) {
        uint64_t x = (uint64_t)a[(size_t)i], y = (uint64_t)b[(size_t)i];
        w[0] += __builtin_popcountll(x); w[1] += __builtin_popcountll(x & y); w[2] += __builtin_popcountll(x | y); w[3] += __builtin_popcountll(x & ~y); w[4] += __builtin_popcountll(x ^ y);
    }
    VF_EQ(BitUtil::pop_array(&a[0], off, n - off), w[0], "sets.words.popArray", fmt("%d from %d", n - off, off));
    VF_EQ(BitUtil::pop_intersect(&a[0], &b[0], off, n - off), w[1], "sets.words.popIntersect", "");
    VF_EQ(BitUtil::pop_union(&a[0], &b[0], off, n - off), w[2], "sets.words.popUnion", "");
    VF_EQ(BitUtil::pop_andnot(&a[0], &b[0], off, n - off), w[3], "sets.words.popAndNot", "");
    VF_EQ(BitUtil::pop_xor(&a[0], &b[0], off, n - off), w[4], "sets.words.popXor", "");
}
static void collections(Case& c) {
    Rng& r = c.rng;
    Collection<int32_t> a = Collection<int32_t>::newInstance();
    std::vector<int> m;
    HashSet<int32_t> hs = HashSet<int32_t>::newInstance();
    ISet ms;
    HashMap<String, int32_t> hm = HashMap<String, int32_t>::newInstance();
    Map<int32_t, String> om = Map<int32_t, String>::newInstance();
    std::map<std::wstring, int> mm;
    std::map<int, std::wstring> mo;
    int steps = (int)r.range(1, 150);
    for (int j = 0; j < steps; ++j) {
        int v = (int)r.below(20), p = m.empty() ? 0 : (int)r.below(m.size());
        switch (r.below(9)) {
        case 0: case 1: a.add(v); m.push_back(v); break;
        case 2: a.add(p, v); m.insert(m.begin() + p, v); break;
        case 3: if (!m.empty()) { VF_EQ(a.removeFirst(), m.front(), "sets.collection.removeFirst", ""); m.erase(m.begin()); } break;
        case 4: if (!m.empty()) { VF_EQ(a.removeLast(), m.back(), "sets.collection.removeLast", ""); m.pop_back(); } break;
        case 5: a.remove(v); m.erase(std::remove(m.begin(), m.end(), v), m.end()); break;
        case 6: VF_EQ(a.contains(v), std::find(m.begin(), m.end(), v) != m.end(), "sets.collection.contains", ""); break;
        case 7: { Collection<int32_t> o = Collection<int32_t>::newInstance(m.begin(), m.end()); VF_CHECK(a.equals(o), "sets.collection.equals", ""); o.add(1); VF_CHECK(!a.equals(o), "sets.collection.notEquals", ""); a.addAll(o.begin(), o.end()); std::vector<int> x = m; m.insert(m.end(), x.begin(), x.end()); m.push_back(1); if (m.size() > 400) { a.clear(); m.clear(); } break; }
        default: if (!m.empty()) { a[p] = v; m[(size_t)p] = v; a.remove(a.begin() + p); m.erase(m.begin() + p); }
        }
        VF_EQ(a.size(), (int)m.size(), "sets.collection.size", "");
        for (size_t i = 0; i < m.size(); ++i) if (a[(int)i] != m[i]) fail("sets.collection.content", fmt("at %zu", i));
        switch (r.below(4)) {
        case 0: VF_EQ(hs.add(v), ms.insert(v).second, "sets.hashset.add", ""); break;
        case 1: VF_EQ(hs.remove(v), ms.erase(v) > 0, "sets.hashset.remove", ""); break;
        case 2: VF_EQ(hs.contains(v), ms.count(v) > 0, "sets.hashset.contains", ""); break;
        default: { ISet got(hs.begin(), hs.end()); VF_CHECK(got == ms && hs.size() == (int)ms.size(), "sets.hashset.content", ""); }
        }
        std::wstring k = ws(fmt("k%d", v));
        switch (r.below(4)) {
        case 0: hm.put(k, j); mm[k] = j; om.put(v, k); mo[v] = k; break;
        case 1: VF_EQ(hm.remove(k), mm.erase(k) > 0, "sets.hashmap.remove", ""); VF_EQ(om.remove(v), mo.erase(v) > 0, "sets.map.remove", ""); break;
        case 2: VF_EQ(hm.contains(k), mm.count(k) > 0, "sets.hashmap.contains", ""); VF_EQ(hm.get(k), mm.count(k) ? mm[k] : 0, "sets.hashmap.get", ""); VF_CHECK(om.get(v) == (mo.count(v) ? mo[v] : L""), "sets.map.get", ""); break;
        default: { std::map<std::wstring, int> got; for (HashMap<String, int32_t>::iterator e = hm.begin(); e != hm.end(); ++e) got[e->first] = e->second; VF_CHECK(got == mm && hm.size() == (int)mm.size(), "sets.hashmap.content", "");
            std::vector<std::pair<int, std::wstring>> g2, w2(mo.begin(), mo.end()); for (Map<int32_t, String>::iterator e = om.begin(); e != om.end(); ++e) g2.push_back({e->first, e->second}); VF_CHECK(g2 == w2, "sets.map.content", "not the entries in order"); }
        }
        count("collection_ops");
    }
    ByteArray arr = ByteArray::newInstance((int32_t)r.range(1, 300));
    std::vector<uint8_t> ma((size_t)arr.size());
    for (int i = 0; i < arr.size(); ++i) { arr[i] = (uint8_t)r.next(); ma[(size_t)i] = arr[i]; }
    int ns = (int)r.range(1, 600);
    arr.resize(ns);
    VF_EQ(arr.size(), ns, "sets.array.size", "");
    for (int i = 0; i < ns && i < (int)ma.size(); ++i) VF_EQ((int)arr[i], (int)ma[(size_t)i], "sets.array.resize", "");
}
VF_MODE(sets) {
    bitVector(c); tick();
    bitSet(c); tick();
    openBitSet(c); tick();
    lists(c); tick();
    queues(c); tick();
    words(c); collections(c); tick();
    if (wantSample()) sample(c.log.str());
}

// ---- numbers and dates
static int64_t someLong(Rng& r) {
    switch (r.below(8)) {
    case 0: return r.pick({(int64_t)INT64_MIN, (int64_t)INT64_MIN + 1, (int64_t)INT64_MAX, (int64_t)INT64_MAX - 1, (int64_t)0, (int64_t)-1, (int64_t)1});
    case 1: return (int64_t)((1ULL << r.below(64)) + (uint64_t)r.range(-2, 2));
    case 2: return -(int64_t)((1ULL << r.below(63)) + (uint64_t)r.range(-2, 2));
    case 3: return (int64_t)r.next() >> r.below(64);
    case 4: return r.range(-300, 300);
    default: return (int64_t)r.next();
    }
}
static int32_t someInt(Rng& r) { return r.oneIn(6) ? r.pick({(int32_t)INT32_MIN, (int32_t)INT32_MIN + 1, (int32_t)INT32_MAX, (int32_t)INT32_MAX - 1, 0, -1}) : r.oneIn(2) ? (int32_t)someLong(r) : (int32_t)(someLong(r) >> 32); }
static double someDouble(Rng& r) {
    switch (r.below(6)) {
    case 0: return r.pick({0.0, -0.0, 1.0, -1.0, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 5e-324, -5e-324, (double)INFINITY, -(double)INFINITY});
    case 1: return (double)r.range(-1000, 1000) / 8;
    case 2: return std::ldexp((double)r.range(-1000000, 1000000), (int)r.range(-1000, 900));
    case 3: { int64_t x = someLong(r); double d; memcpy(&d, &x, 8); return std::isnan(d) ? 3.25 : d; }
    default: return (double)r.range(-100000, 100000) * 0.1;
    }
}
namespace {
struct Part { int64_t lo, hi; int shift; };
class LB : public LongRangeBuilder { public: std::vector<Part> v; virtual void addRange(int64_t a, int64_t b, int32_t s) { v.push_back({a, b, s}); } };
class LS : public LongRangeBuilder { public: std::vector<std::pair<String, String>> v; virtual void addRange(const String& a, const String& b) { v.push_back({a, b}); } };
class IB : public IntRangeBuilder { public: std::vector<Part> v; virtual void addRange(int32_t a, int32_t b, int32_t s) { v.push_back({a, b, s}); } };
}
static int sgn(int64_t a, int64_t b) { return a < b ? -1 : a > b ? 1 : 0; }
static int sgn(double a, double b) { return a < b ? -1 : a > b ? 1 : 0; }
static int sgn(const String& a, const String& b) { int x = a.compare(b); return x < 0 ? -1 : x > 0 ? 1 : 0; }
static void cover(std::vector<Part> v, int64_t lo, int64_t hi, int step, int bits, const std::string& ctx) {
    std::sort(v.begin(), v.end(), [](const Part& a, const Part& b) { return a.lo < b.lo; });
    __int128 at = lo;
    std::map<int, int> perShift;
    for (auto& p : v) {
        int64_t mask = p.shift >= 64 ? -1 : (int64_t)((1ULL << p.shift) - 1);
        VF_CHECK(p.shift % step == 0 && p.shift < bits, "numeric.split.shift", fmt("shift %d ", p.shift) + ctx);
        int64_t end = p.hi | mask;
        VF_CHECK((__int128)p.lo == at, "numeric.split.cover", fmt("a part begins at %lld instead of %lld ", (long long)p.lo, (long long)at) + ctx);
        VF_CHECK((p.lo & mask) == 0, "numeric.split.aligned", fmt("%lld with shift %d ", (long long)p.lo, p.shift) + ctx);
        VF_CHECK(end >= p.lo, "numeric.split.empty", ctx);
        VF_CHECK(++perShift[p.shift] <= 2, "numeric.split.parts", fmt("more than two parts with shift %d ", p.shift) + ctx);
        at = (__int128)end + 1;
    }
    VF_CHECK(at == (__int128)hi + 1, "numeric.split.end", fmt("the parts end at %lld instead of %lld ", (long long)(at - 1), (long long)hi) + ctx);
    count("ranges_split");
}
static void encodings(Case& c) {
    Rng& r = c.rng;
    for (int j = 0; j < 40; ++j) {
        int64_t a = someLong(r), b = r.oneIn(3) ? (int64_t)((uint64_t)a + (uint64_t)r.range(-2, 2)) : someLong(r);
        int sh = (int)r.below(64);
        VF_EQ(NumericUtils::prefixCodedToLong(NumericUtils::longToPrefixCoded(a)), a, "numeric.long.decode", "");
        VF_EQ(NumericUtils::prefixCodedToLong(NumericUtils::longToPrefixCoded(a, sh)), (a >> sh) << sh, "numeric.long.decodeShift", fmt("%lld >> %d", (long long)a, sh));
        VF_EQ(sgn(NumericUtils::longToPrefixCoded(a, sh), NumericUtils::longToPrefixCoded(b, sh)), sgn(a >> sh, b >> sh), "numeric.long.order", fmt("%lld %lld >> %d", (long long)a, (long long)b, sh));
        int32_t x = someInt(r), y = r.oneIn(3) ? (int32_t)((uint32_t)x + (uint32_t)r.range(-2, 2)) : someInt(r);
        int s2 = (int)r.below(32);
        VF_EQ(NumericUtils::prefixCodedToInt(NumericUtils::intToPrefixCoded(x)), x, "numeric.int.decode", "");
        VF_EQ(NumericUtils::prefixCodedToInt(NumericUtils::intToPrefixCoded(x, s2)), (x >> s2) << s2, "numeric.int.decodeShift", fmt("%d >> %d", x, s2));
        VF_EQ(sgn(NumericUtils::intToPrefixCoded(x, s2), NumericUtils::intToPrefixCoded(y, s2)), sgn((int64_t)(x >> s2), (int64_t)(y >> s2)), "numeric.int.order", fmt("%d %d >> %d", x, y, s2));
        double d = someDouble(r), e = someDouble(r);
        int want = d == 0 && e == 0 ? sgn((int64_t)-std::signbit(d), (int64_t)-std::signbit(e)) : sgn((double)d, (double)e);
        VF_EQ(sgn(NumericUtils::doubleToSortableLong(d), NumericUtils::doubleToSortableLong(e)), want, "numeric.double.order", fmt("%g %g", d, e));
        VF_EQ(sgn(NumericUtils::doubleToPrefixCoded(d), NumericUtils::doubleToPrefixCoded(e)), want, "numeric.double.codedOrder", fmt("%g %g", d, e));
        double back = NumericUtils::prefixCodedToDouble(NumericUtils::doubleToPrefixCoded(d));
        VF_CHECK(memcmp(&back, &d, 8) == 0, "numeric.double.decode", fmt("%g became %g", d, back));
        double back2 = NumericUtils::sortableLongToDouble(NumericUtils::doubleToSortableLong(d));
        VF_CHECK(memcmp(&back2, &d, 8) == 0, "numeric.double.sortable", fmt("%g became %g", d, back2));
        if (a != INT64_MIN && b != INT64_MIN) {
            VF_EQ(NumberTools::stringToLong(NumberTools::longToString(a)), a, "numeric.numberTools.decode", "");
            VF_EQ(sgn(NumberTools::longToString(a), NumberTools::longToString(b)), sgn(a, b), "numeric.numberTools.order", fmt("%lld %lld", (long long)a, (long long)b));
        }
        for (int k = 0; k < 2; ++k) {
            bool threw = false;
            try { if (k) NumericUtils::longToPrefixCoded(a, r.oneIn(2) ? 64 : -1); else NumericUtils::intToPrefixCoded(x, r.oneIn(2) ? 32 : -1); } catch (IllegalArgumentException&) { threw = true; }
            VF_CHECK(threw, "numeric.badShift", "a shift beyond the value was not refused");
        }
        String t = NumericUtils::longToPrefixCoded(a, sh);
        t[(size_t)r.below(t.size())] = (wchar_t)r.pick({0x80, 0x100, 0xffff, 0x7f});
        try { NumericUtils::prefixCodedToLong(t); } catch (LuceneException&) {}
        try { NumericUtils::prefixCodedToInt(t); } catch (LuceneException&) {}
        count("values_coded", 4);
    }
    for (int j = 0; j < 12; ++j) {
        int64_t lo = someLong(r), hi = someLong(r);
        if (r.oneIn(3)) hi = (int64_t)((uint64_t)lo + r.below(600));
        if (lo > hi) std::swap(lo, hi);
        int step = r.oneIn(8) ? 64 : r.oneIn(5) ? (int)r.range(1, 70) : (int)r.pick({1, 2, 4, 6, 8, 16, 32});
        boost::shared_ptr<LB> b = newLucene<LB>();
        NumericUtils::splitLongRange(b, step, lo, hi);
        std::string ctx = fmt("[%lld, %lld] step %d", (long long)lo, (long long)hi, step);
        cover(b->v, lo, hi, step, 64, ctx);
        boost::shared_ptr<LS> s = newLucene<LS>();
        NumericUtils::splitLongRange(s, step, lo, hi);
        VF_EQ(s->v.size(), b->v.size(), "numeric.split.coded", ctx);
        for (size_t i = 0; i < b->v.size(); ++i) {
            VF_CHECK(s->v[i].first == NumericUtils::longToPrefixCoded(b->v[i].lo, b->v[i].shift) && s->v[i].second == NumericUtils::longToPrefixCoded(b->v[i].hi, b->v[i].shift), "numeric.split.coded", ctx);
        }
        int32_t il = someInt(r), ih = r.oneIn(3) ? (int32_t)std::min<int64_t>(INT32_MAX, (int64_t)il + (int64_t)r.below(600)) : someInt(r);
        if (il > ih) std::swap(il, ih);
        int is = r.oneIn(6) ? (int)r.range(1, 40) : (int)r.pick({1, 2, 4, 8, 16, 32});
        boost::shared_ptr<IB> ib = newLucene<IB>();
        NumericUtils::splitIntRange(ib, is, il, ih);
        cover(ib->v, il, ih, is, 32, fmt("[%d, %d] step %d", il, ih, is));
        boost::shared_ptr<LB> none = newLucene<LB>();
        if (lo < hi) { NumericUtils::splitLongRange(none, step, hi, lo); VF_CHECK(none->v.empty(), "numeric.split.reversed", "an empty range has parts"); }
    }
    // the tokens of a numeric field
    int step = (int)r.pick({1, 2, 4, 6, 8, 16, 32, 64});
    NumericTokenStreamPtr ts = newLucene<NumericTokenStream>(step);
    TermAttributePtr ta = ts->addAttribute<TermAttribute>();
    PositionIncrementAttributePtr pa = ts->addAttribute<PositionIncrementAttribute>();
    for (int j = 0; j < 4; ++j) {
        int kind = (int)r.below(3);
        int64_t lv = someLong(r); int32_t iv = someInt(r); double dv = someDouble(r);
        if (kind == 0) ts->setLongValue(lv); else if (kind == 1) ts->setIntValue(iv); else { ts->setDoubleValue(dv); lv = NumericUtils::doubleToSortableLong(dv); }
        ts->reset();
        int sh = 0, bits = kind == 1 ? 32 : 64;
        while (ts->incrementToken()) {
            VF_CHECK(sh < bits, "numeric.tokens.many", fmt("step %d", step));
            VF_CHECK(ta->term() == (kind == 1 ? NumericUtils::intToPrefixCoded(iv, sh) : NumericUtils::longToPrefixCoded(lv, sh)), "numeric.tokens.term", fmt("shift %d", sh));
            VF_EQ(pa->getPositionIncrement(), sh == 0 ? 1 : 0, "numeric.tokens.increment", "");
            sh += step;
        }
        VF_CHECK(sh >= bits, "numeric.tokens.few", fmt("step %d ended at shift %d", step, sh));
        count("numeric_streams");
    }
}
// civil calendar, days from 1970-01-01
static int64_t daysOf(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (unsigned)(m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static void civil(int64_t z, int64_t& y, int& m, int& d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y += m <= 2; }
static void dates(Case& c) {
    Rng& r = c.rng;
    const int64_t lo = daysOf(1400, 1, 1) * 86400000LL, hi = daysOf(9999, 12, 31) * 86400000LL + 86399999;
    auto some = [&]() -> int64_t {
        int64_t t;
        switch (r.below(4)) {
        case 0: t = r.range(-5000, 5000); break;
        case 1: t = daysOf(r.range(1400, 9999), (int)r.range(1, 12), 1) * 86400000LL + r.range(-2, 2); break;
        case 2: t = r.range(-3000000000000LL, 8000000000000LL); break;
        default: t = lo + (int64_t)(r.next() % (uint64_t)(hi - lo));
        }
        return std::min(std::max(t, lo), hi);
    };
    static const size_t len[] = {0, 4, 6, 8, 10, 12, 14, 17};
    for (int j = 0; j < 20; ++j) {
        int64_t t = some(), u = r.oneIn(2) ? std::min(std::max(t + r.range(-100000, 100000), lo), hi) : some();
        for (int k = 1; k <= 7; ++k) {
            DateTools::Resolution res = (DateTools::Resolution)k;
            auto rounded = [&](int64_t x) {
                int64_t day = x >= 0 ? x / 86400000 : -((-x + 86399999) / 86400000), ms = x - day * 86400000, y; int m, d;
                civil(day, y, m, d);
                if (k == 1) return daysOf(y, 1, 1) * 86400000LL;
                if (k == 2) return daysOf(y, m, 1) * 86400000LL;
                int64_t unit = k == 3 ? 86400000 : k == 4 ? 3600000 : k == 5 ? 60000 : k == 6 ? 1000 : 1;
                return day * 86400000LL + ms / unit * unit;
            };
            String s = DateTools::timeToString(t, res), v = DateTools::timeToString(u, res);
            std::string ctx = fmt("%lld at resolution %d is '%s'", (long long)t, k, u8(s).c_str());
            VF_EQ(s.size(), len[k], "numeric.dates.length", ctx);
            VF_EQ(DateTools::round(t, res), rounded(t), "numeric.dates.round", ctx);
            VF_EQ(DateTools::stringToTime(s), rounded(t), "numeric.dates.decode", ctx);
            VF_EQ(sgn(s, v), sgn((int64_t)rounded(t), (int64_t)rounded(u)), "numeric.dates.order", ctx + fmt(" and %lld '%s'", (long long)u, u8(v).c_str()));
            boost::posix_time::ptime p(boost::gregorian::date(1970, 1, 1), boost::posix_time::milliseconds(t));
            VF_CHECK(DateTools::dateToString(p, res) == s, "numeric.dates.ptime", ctx);
            count("dates_coded");
        }
    }
}
// every kind of range over documents with extreme values
static void ranges(Case& c) {
    Rng& r = c.rng;
    int n = (int)r.range(1, r.oneIn(5) ? 200 : 40), step = r.oneIn(6) ? 64 : (int)r.range(1, 33);
    int istep = std::min(step, 32);
    std::vector<int64_t> L; std::vector<int32_t> I; std::vector<double> D; std::vector<bool> dead;
    RAMDirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<KeywordAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    if (r.oneIn(2)) w->setMaxBufferedDocs((int)r.range(2, 30));
    w->setMergeFactor((int)r.range(2, 12));
    int64_t base = someLong(r);
    for (int i = 0; i < n; ++i) {
        DocumentPtr doc = newLucene<Document>();
        L.push_back(r.oneIn(3) ? (int64_t)((uint64_t)base + (uint64_t)r.range(-9, 9)) : someLong(r)); I.push_back(someInt(r)); D.push_back(someDouble(r));
        doc->add(newLucene<NumericField>(L"l", step)->setLongValue(L.back()));
        doc->add(newLucene<NumericField>(L"i", istep)->setIntValue(I.back()));
        doc->add(newLucene<NumericField>(L"d", step)->setDoubleValue(D.back()));
        doc->add(newLucene<Field>(L"id", ws(fmt("%d", i)), Field::STORE_NO, Field::INDEX_NOT_ANALYZED));
        w->addDocument(doc);
        dead.push_back(false);
    }
    if (r.oneIn(2)) for (int i = 0; i < n; ++i) if (r.oneIn(6)) { w->deleteDocuments(newLucene<Term>(L"id", ws(fmt("%d", i)))); dead[(size_t)i] = true; }
    if (r.oneIn(2)) { w->commit(); }
    w->close();
    IndexReaderPtr rd = IndexReader::open(dir, true);
    IndexSearcherPtr is = newLucene<IndexSearcher>(rd);
    TermDocsPtr td = rd->termDocs();
    std::vector<int> idOf((size_t)rd->maxDoc(), -1);
    for (int i = 0; i < n; ++i) if (!dead[(size_t)i]) { td->seek(newLucene<Term>(L"id", ws(fmt("%d", i)))); VF_CHECK(td->next(), "numeric.ranges.setup", "a document is missing"); idOf[(size_t)td->doc()] = i; }
    auto compare = [&](const QueryPtr& q, const FilterPtr& f, const std::function<bool(int)>& m, const std::string& ctx) {
        ISet want, got;
        for (int i = 0; i < n; ++i) if (!dead[(size_t)i] && m(i)) want.insert(i);
        TopDocsPtr t = f ? is->search(q, f, n + 10) : is->search(q, n + 10);
        for (int k = 0; k < t->scoreDocs.size(); ++k) got.insert(idOf[(size_t)t->scoreDocs[k]->doc]);
        VF_CHECK(got == want && t->totalHits == (int)want.size(), "numeric.ranges", ctx + " gave " + setStr(got) + " instead of " + setStr(want));
        count("ranges_searched");
        if (!want.empty() && (int)want.size() < n) count("ranges_partial");
        Hash h; h.add(mix((uint64_t)base)); for (int x : want) h.add((uint64_t)x); sig(h.h);
    };
    QueryPtr all = newLucene<MatchAllDocsQuery>();
    for (int j = 0; j < 12; ++j) {
        tick();
        bool il = r.oneIn(2), ih = r.oneIn(2), nl = r.oneIn(6), nh = r.oneIn(6);
        auto in = [&](auto v, auto lo, auto hi) { return (nl || (il ? v >= lo : v > lo)) && (nh || (ih ? v <= hi : v < hi)); };
        {
            int64_t a = r.oneIn(2) ? r.pick(L) : someLong(r), b = r.oneIn(2) ? r.pick(L) : someLong(r);
            if (a > b && !r.oneIn(5)) std::swap(a, b);
            std::string ctx = fmt("long %s%lld %s, %lld%s step %d", il ? "[" : "(", (long long)a, nl ? "none" : "", (long long)b, nh ? " none" : ih ? "]" : ")", step);
            auto m = [&](int i) { return in(L[(size_t)i], a, b); };
            if (nl || nh) { if (!(nl && nh)) {
                NumericValue lo = nl ? NumericValue(VariantUtils::null()) : NumericValue(a), hi = nh ? NumericValue(VariantUtils::null()) : NumericValue(b);
                compare(NumericRangeQuery::newNumericRange(L"l", step, lo, hi, il, ih), FilterPtr(), m, ctx);
                compare(all, NumericRangeFilter::newNumericRange(L"l", step, lo, hi, il, ih), m, "filter " + ctx);
            } }
            else {
                compare(NumericRangeQuery::newLongRange(L"l", step, a, b, il, ih), FilterPtr(), m, ctx);
                NumericRangeQueryPtr q = NumericRangeQuery::newLongRange(L"l", step, a, b, il, ih);
                VF_CHECK(q->getMin() == NumericValue(a) && q->getMax() == NumericValue(b) && q->includesMin() == il && q->includesMax() == ih && q->getField() == L"l", "numeric.bounds", "a range does not report its bounds " + ctx);
                compare(all, NumericRangeFilter::newLongRange(L"l", step, a, b, il, ih), m, "filter " + ctx);
                compare(all, FieldCacheRangeFilter::newLongRange(L"l", FieldCache::NUMERIC_UTILS_LONG_PARSER(), a, b, il, ih), m, "cached " + ctx);
            }
        }
        {
            int32_t a = r.oneIn(2) ? r.pick(I) : someInt(r), b = r.oneIn(2) ? r.pick(I) : someInt(r);
            if (a > b && !r.oneIn(5)) std::swap(a, b);
            std::string ctx = fmt("int %s%d %s, %d%s step %d", il ? "[" : "(", a, nl ? "none" : "", b, nh ? " none" : ih ? "]" : ")", istep);
            auto m = [&](int i) { return in(I[(size_t)i], a, b); };
            if (nl || nh) { if (!(nl && nh)) {
                NumericValue lo = nl ? NumericValue(VariantUtils::null()) : NumericValue(a), hi = nh ? NumericValue(VariantUtils::null()) : NumericValue(b);
                compare(NumericRangeQuery::newNumericRange(L"i", istep, lo, hi, il, ih), FilterPtr(), m, ctx);
                compare(all, NumericRangeFilter::newNumericRange(L"i", istep, lo, hi, il, ih), m, "filter " + ctx);
            } }
            else {
                compare(NumericRangeQuery::newIntRange(L"i", istep, a, b, il, ih), FilterPtr(), m, ctx);
                NumericRangeQueryPtr q = NumericRangeQuery::newIntRange(L"i", istep, a, b, il, ih);
                VF_CHECK(q->getMin() == NumericValue(a) && q->getMax() == NumericValue(b) && q->includesMin() == il && q->includesMax() == ih && q->getField() == L"i", "numeric.bounds", "a range does not report its bounds " + ctx);
                compare(all, NumericRangeFilter::newIntRange(L"i", istep, a, b, il, ih), m, "filter " + ctx);
                compare(all, FieldCacheRangeFilter::newIntRange(L"i", FieldCache::NUMERIC_UTILS_INT_PARSER(), a, b, il, ih), m, "cached " + ctx);
            }
        }
        {
            double a = r.oneIn(2) ? r.pick(D) : someDouble(r), b = r.oneIn(2) ? r.pick(D) : someDouble(r);
            if (a > b && !r.oneIn(5)) std::swap(a, b);
            if (a == 0 || b == 0) { a = a == 0 ? -1e-300 : a; b = b == 0 ? 1e-300 : b; }  // (the sign of a zero bound matters to the trie only)
            std::string ctx = fmt("double %s%g %s, %g%s step %d", il ? "[" : "(", a, nl ? "none" : "", b, nh ? " none" : ih ? "]" : ")", step);
            auto m = [&](int i) { return in(D[(size_t)i], a, b); };
            if (nl || nh) { if (!(nl && nh)) {
                NumericValue lo = nl ? NumericValue(VariantUtils::null()) : NumericValue(a), hi = nh ? NumericValue(VariantUtils::null()) : NumericValue(b);
                compare(NumericRangeQuery::newNumericRange(L"d", step, lo, hi, il, ih), FilterPtr(), m, ctx);
                compare(all, NumericRangeFilter::newNumericRange(L"d", step, lo, hi, il, ih), m, "filter " + ctx);
            } }
            else {
                compare(NumericRangeQuery::newDoubleRange(L"d", step, a, b, il, ih), FilterPtr(), m, ctx);
                NumericRangeQueryPtr q = NumericRangeQuery::newDoubleRange(L"d", step, a, b, il, ih);
                VF_CHECK(q->getMin() == NumericValue(a) && q->getMax() == NumericValue(b) && q->includesMin() == il && q->includesMax() == ih && q->getField() == L"d", "numeric.bounds", "a range does not report its bounds " + ctx);
                compare(all, NumericRangeFilter::newDoubleRange(L"d", step, a, b, il, ih), m, "filter " + ctx);
                compare(all, FieldCacheRangeFilter::newDoubleRange(L"d", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER(), a, b, il, ih), m, "cached " + ctx);
            }
        }
    }
    is->close();
    rd->close();
}
VF_MODE(numeric) {
    encodings(c); tick();
    dates(c); tick();
    ranges(c);
    if (wantSample()) sample(c.log.str());
}
VF_MAIN
