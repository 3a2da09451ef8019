// Composite readers and searchers against one index (C16), caches against uncached answers (C21).
#include "sorting.h"
#include "MultiReader.h"
#include "ParallelReader.h"
#include "FilterIndexReader.h"
#include "MultiSearcher.h"
#include "ParallelMultiSearcher.h"
#include "FieldSelector.h"
#include "MapFieldSelector.h"
#include "FilterManager.h"
#include "SimpleLRUCache.h"
#include "SpanFilterResult.h"
#include "DocIdSet.h"
#include "DocIdSetIterator.h"
#include "OpenBitSetDISI.h"
using namespace vf;

namespace {
enum Part { ALL, LEFT, RIGHT };
bool inPart(const WS& f, Part p) { bool left = f == L"body" || f == L"cat" || f == L"num"; return p == ALL || (p == LEFT) == left; }

struct Composite {
    Corpus co;
    Rng& r;
    int n;
    std::vector<size_t> cuts;
    Composite(Case& c) : co(c), r(c.rng) {
        n = (int)r.range(1, r.oneIn(5) ? 120 : 40);
        co.generate(n);
        int del = (int)r.pick({0, 0, 10, 40});
        for (auto& d : co.docs) if (r.chance(del)) d.alive = false;
        int k = (int)r.range(1, 5);
        cuts.push_back(0);
        for (int i = 1; i < k; ++i) cuts.push_back((size_t)r.range(0, n));
        cuts.push_back((size_t)n);
        std::sort(cuts.begin(), cuts.end());
    }
    DirectoryPtr build(size_t from, size_t to, Part part) {
        DirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = co.writer(dir);
        for (size_t i = from; i < to; ++i) {
            SDoc d = co.docs[i];
            std::vector<FieldM> fs;
            for (auto& f : d.d.fields) if (inPart(f.name, part)) fs.push_back(f);
            d.d.fields = fs;
            bool num = d.hasNum;
            d.hasNum = false;
            DocumentPtr doc = co.lib(d);
            if (num) {
                if (inPart(L"num", part)) doc->add(newLucene<NumericField>(L"num", co.step)->setIntValue(d.num));
                if (inPart(L"lng", part)) doc->add(newLucene<NumericField>(L"lng", co.step)->setLongValue(d.lng));
                if (inPart(L"dbl", part)) doc->add(newLucene<NumericField>(L"dbl", co.step)->setDoubleValue(d.dbl));
            }
            w->addDocument(doc);
        }
        if (r.oneIn(4)) w->optimize();
        w->close();
        IndexReaderPtr rd = IndexReader::open(dir, false);
        VF_EQ(rd->maxDoc(), (int)(to - from), "composite.setup", "");
        for (size_t i = from; i < to; ++i) if (!co.docs[i].alive) rd->deleteDocument((int32_t)(i - from));
        rd->close();
        return dir;
    }
    bool wrapped = false, writable = false;
    IndexReaderPtr wrap(const IndexReaderPtr& x) {
        if (writable || !r.oneIn(3)) return x;
        wrapped = true;  // a FilterIndexReader cannot be cloned
        return newLucene<FilterIndexReader>(x);
    }
    IndexReaderPtr open(const DirectoryPtr& d) { return IndexReader::open(d, !writable); }
    // a tree of readers over parts [a, b)
    std::vector<DirectoryPtr> dirs;
    IndexReaderPtr tree(size_t a, size_t b) {
        if (b - a == 1) {
            DirectoryPtr d = build(cuts[a], cuts[a + 1], ALL);
            if (r.oneIn(4)) {
                ParallelReaderPtr p = newLucene<ParallelReader>();
                p->add(open(build(cuts[a], cuts[a + 1], LEFT)));
                p->add(open(build(cuts[a], cuts[a + 1], RIGHT)));
                return wrap(p);
            }
            return wrap(open(d));
        }
        Collection<IndexReaderPtr> subs = Collection<IndexReaderPtr>::newInstance();
        size_t i = a;
        while (i < b) {
            size_t j = i + 1 + (size_t)r.below(b - i);
            if (i == a && j == b && b - a > 1) j = i + 1;
            subs.add(tree(i, j));
            i = j;
        }
        return wrap(newLucene<MultiReader>(subs, true));
    }
    SearcherPtr searcherTree(size_t a, size_t b) {
        if (b - a == 1) return newLucene<IndexSearcher>(tree(a, b));
        Collection<SearchablePtr> subs = Collection<SearchablePtr>::newInstance();
        size_t i = a;
        while (i < b) {
            size_t j = i + 1 + (size_t)r.below(b - i);
            if (i == a && j == b && b - a > 1) j = i + 1;
            subs.add(r.oneIn(2) || j - i == 1 ? SearcherPtr(newLucene<IndexSearcher>(tree(i, j))) : searcherTree(i, j));
            i = j;
        }
        return r.oneIn(2) ? SearcherPtr(newLucene<MultiSearcher>(subs)) : SearcherPtr(newLucene<ParallelMultiSearcher>(subs));
    }
};

void compareReaders(Composite& x, const IndexReaderPtr& a, const IndexReaderPtr& b, const std::string& key, const std::string& ctx) {
    VF_EQ(b->maxDoc(), a->maxDoc(), key + ".maxDoc", ctx);
    VF_EQ(b->numDocs(), a->numDocs(), key + ".numDocs", ctx);
    VF_EQ(b->hasDeletions(), a->hasDeletions(), key + ".hasDeletions", ctx);
    for (int i = 0; i < a->maxDoc(); ++i) VF_EQ(b->isDeleted(i), a->isDeleted(i), key + ".isDeleted", ctx);
    DumpStats st;
    Dump da = dumpReader(a, key, &st), db = dumpReader(b, key, &st);
    compareDumps(db, da, key, ctx);
    // terms with their document frequencies (deleted documents included)
    TermEnumPtr ea = a->terms(), eb = b->terms();
    for (;;) {
        bool ma = ea->next(), mb = eb->next();
        VF_EQ(mb, ma, key + ".terms", ctx);
        if (!ma) break;
        VF_CHECK(ea->term()->equals(eb->term()), key + ".terms", u8(ea->term()->toString()) + " " + u8(eb->term()->toString()) + " " + ctx);
        VF_EQ(eb->docFreq(), ea->docFreq(), key + ".docFreq", u8(ea->term()->toString()) + " " + ctx);
        if (x.r.oneIn(4)) VF_EQ(b->docFreq(ea->term()), ea->docFreq(), key + ".docFreq", u8(ea->term()->toString()) + " " + ctx);
    }
    // from the middle
    for (int i = 0; i < 6; ++i) {
        TermPtr t = newLucene<Term>(x.r.pick({L"body", L"title", L"cat", L"num", L"zz"}), x.r.oneIn(4) ? WS(L"") : x.co.word());
        TermEnumPtr fa = a->terms(t), fb = b->terms(t);
        for (int k = 0; k < 4; ++k) {
            TermPtr ta = fa->term(), tb = fb->term();
            VF_CHECK((bool)ta == (bool)tb && (!ta || (ta->equals(tb) && fa->docFreq() == fb->docFreq())), key + ".seek", u8(t->toString()) + fmt(" step %d gave ", k) + (tb ? u8(tb->toString()) : "null") + " expected " + (ta ? u8(ta->toString()) : "null") + " " + ctx);
            bool na = fa->next(), nb = fb->next();
            VF_EQ(nb, na, key + ".seekNext", ctx);
            if (!na) break;
        }
    }
    for (int o = 0; o < 4; ++o) {
        IndexReader::FieldOption opt = x.r.pick({IndexReader::FIELD_OPTION_ALL, IndexReader::FIELD_OPTION_INDEXED, IndexReader::FIELD_OPTION_UNINDEXED, IndexReader::FIELD_OPTION_TERMVECTOR, IndexReader::FIELD_OPTION_OMIT_TERM_FREQ_AND_POSITIONS, IndexReader::FIELD_OPTION_STORES_PAYLOADS});
        std::set<WS> na, nb;
        HashSet<String> ha = a->getFieldNames(opt), hb = b->getFieldNames(opt);
        for (HashSet<String>::iterator f = ha.begin(); f != ha.end(); ++f) na.insert(*f);
        for (HashSet<String>::iterator f = hb.begin(); f != hb.end(); ++f) nb.insert(*f);
        VF_CHECK(na == nb, key + ".fieldNames", fmt("option %d ", (int)opt) + ctx);
    }
    count("reader_comparisons");
    count("postings_compared", st.postings);
}

void compareHits(Composite& x, const TopDocsPtr& a, const TopDocsPtr& b, const std::string& key, const std::string& ctx, bool sorted = false) {
    VF_EQ(b->totalHits, a->totalHits, key + ".totalHits", ctx);
    VF_EQ(b->scoreDocs.size(), a->scoreDocs.size(), key + ".size", ctx);
    std::map<int, double> ma, mb;
    for (int32_t i = 0; i < a->scoreDocs.size(); ++i) {
        ScoreDocPtr p = a->scoreDocs[i], q = b->scoreDocs[i];
        VF_CHECK(std::isnan(p->score) ? std::isnan(q->score) : near(p->score, q->score), key + ".score", fmt("rank %d: document %d scored %.9g, expected document %d %.9g: ", i, q->doc, q->score, p->doc, p->score) + ctx);
        ma[p->doc] = p->score;
        mb[q->doc] = q->score;
        
    }
    for (int32_t i = 0; i < b->scoreDocs.size(); ++i) {
        // the last digit of a score may come out differently, so each list is in the order of its own scores
        ScoreDocPtr q = b->scoreDocs[i], e = a->scoreDocs[i];
        if (!sorted && i) { ScoreDocPtr l = b->scoreDocs[i - 1]; VF_CHECK(l->score > q->score || (l->score == q->score && l->doc < q->doc), key + ".order", fmt("rank %d: document %d (%.17g) after document %d (%.17g): ", i, q->doc, q->score, l->doc, l->score) + ctx); }
        if (sorted) VF_CHECK(e->doc == q->doc, key + ".order", fmt("rank %d: document %d, expected %d: ", i, q->doc, e->doc) + ctx);
        if (ma.count(q->doc)) VF_CHECK(std::isnan(q->score) || near(ma[q->doc], q->score), key + ".docScore", fmt("document %d %.9g, expected %.9g: ", q->doc, q->score, ma[q->doc]) + ctx);
        else VF_CHECK(!sorted && near(q->score, a->scoreDocs[a->scoreDocs.size() - 1]->score), key + ".wrongDocument", fmt("document %d: ", q->doc) + ctx);
    }
    if (a->totalHits == a->scoreDocs.size()) for (auto& m : ma) VF_CHECK(mb.count(m.first), key + ".missing", fmt("document %d ", m.first) + ctx);
    count("hit_lists");
    count("ranks", a->scoreDocs.size());
}
void compareFields(const TopFieldDocsPtr& a, const TopFieldDocsPtr& b, const std::string& key, const std::string& ctx) {
    for (int32_t i = 0; i < a->scoreDocs.size(); ++i) {
        FieldDocPtr p = boost::dynamic_pointer_cast<FieldDoc>(a->scoreDocs[i]), q = boost::dynamic_pointer_cast<FieldDoc>(b->scoreDocs[i]);
        if (p->doc != q->doc) continue;
        VF_EQ(q->fields.size(), p->fields.size(), key + ".fields", ctx);
        for (int32_t j = 0; j < p->fields.size(); ++j) {
            bool eq = VariantUtils::equalsType(p->fields[j], q->fields[j]);
            if (eq && VariantUtils::typeOf<double>(p->fields[j])) eq = near(VariantUtils::get<double>(p->fields[j]), VariantUtils::get<double>(q->fields[j]));
            else if (eq) eq = VariantUtils::compareTo(p->fields[j], q->fields[j]) == 0;
            VF_CHECK(eq, key + ".value", fmt("rank %d key %d ", i, j) + ctx);
        }
    }
}

void compareSearchers(Composite& x, const SearcherPtr& a, const SearcherPtr& b, const IndexReaderPtr& one, const std::string& key, bool multi) {
    Rng& r = x.r;
    VF_EQ(b->maxDoc(), a->maxDoc(), key + ".maxDoc", "");
    for (int i = 0; i < 5; ++i) { TermPtr t = newLucene<Term>(L"body", x.co.word()); VF_EQ(b->docFreq(t), a->docFreq(t), key + ".docFreq", u8(t->toString())); }
    for (int i = 0; i < std::min(5, x.n); ++i) { int d = (int)r.below((uint64_t)x.n); if (!one->isDeleted(d)) VF_CHECK(a->doc(d)->get(L"uid") == b->doc(d)->get(L"uid"), key + ".doc", fmt("%d", d)); }
    int qs = (int)r.range(3, 8);
    for (int k = 0; k < qs; ++k) {
        x.co.constOnly = multi;
        RQP q = x.co.query((int)r.below(4));
        QueryPtr lq = q->make();
        RFP rf;
        FilterPtr f;
        if (r.oneIn(3)) { rf = x.co.filter(1); f = rf->make(); }
        x.co.constOnly = false;
        std::string ctx = q->str() + (rf ? " filter " + rf->str() : "") + fmt(" (%d docs, %d parts)", x.n, (int)x.cuts.size() - 1);
        std::string sa = u8(lq->toString());
        int N = (int)r.pick({1, 3, 10, 200, x.n + 1});
        TopDocsPtr ta = a->search(lq, f, N), tb = b->search(lq, f, N);
        compareHits(x, ta, tb, key + ".search", ctx + fmt(" n=%d", N));
        if (ta->totalHits) VF_CHECK(near(ta->maxScore, tb->maxScore), key + ".maxScore", ctx);
        {
            AllCollectorPtr ca = newLucene<AllCollector>(false), cb = newLucene<AllCollector>(false);
            a->search(lq, f, ca);
            b->search(lq, f, cb);
            VF_EQ(cb->hits.size(), ca->hits.size(), key + ".collect", ctx);
            for (size_t i = 0; i < ca->hits.size(); ++i) VF_CHECK(ca->hits[i].doc == cb->hits[i].doc && near(ca->hits[i].score, cb->hits[i].score), key + ".collect", fmt("hit %zu: %d %.9g, expected %d %.9g ", i, cb->hits[i].doc, cb->hits[i].score, ca->hits[i].doc, ca->hits[i].score) + ctx);
        }
        for (int i = 0; i < 6; ++i) {
            int d = (int)r.below((uint64_t)x.n);
            if (one->isDeleted(d)) continue;
            ExplanationPtr e1 = a->explain(lq, d), e2 = b->explain(lq, d);
            VF_CHECK(e1->isMatch() == e2->isMatch() && (!e1->isMatch() || near(e1->getValue(), e2->getValue())), key + ".explain", fmt("document %d: %.9g, expected %.9g ", d, e2->getValue(), e1->getValue()) + ctx + "\n" + u8(e2->toString()) + "\nexpected\n" + u8(e1->toString()));
            count("explanations");
        }
        int sorts = (int)r.range(1, 3);
        for (int j = 0; j < sorts; ++j) {
            std::vector<Key> ks;
            int nk = (int)r.pick({1, 1, 2, 3});
            Collection<SortFieldPtr> sfs = Collection<SortFieldPtr>::newInstance();
            for (int i = 0; i < nk; ++i) { ks.push_back(sortKey(r, x.co)); sfs.add(ks.back().sf); }
            SortPtr sort = newLucene<Sort>(sfs);
            std::string cx = ctx + " sort " + keysStr(ks) + fmt(" n=%d", N);
            TopFieldDocsPtr fa = a->search(lq, f, N, sort), fb = b->search(lq, f, N, sort);
            bool byScore = false;
            for (auto& y : ks) byScore = byScore || y.score;
            if (byScore) { VF_EQ(fb->totalHits, fa->totalHits, key + ".sort.totalHits", cx); }  // near ties may swap
            else { compareHits(x, fa, fb, key + ".sort", cx, true); compareFields(fa, fb, key + ".sort", cx); }
            count("sorted_lists");
        }
        VF_CHECK(u8(lq->toString()) == sa, key + ".changed", ctx);
        Hash h;
        h.add(ctx).add((uint64_t)ta->totalHits);
        if (ta->totalHits) sig(h.h);
        count("queries");
        if (wantSample() && ta->totalHits) sample(ctx + fmt(" -> %d hits", ta->totalHits));
    }
}
}

namespace {
// a query that is rewritten to other terms in each index is combined as alternatives, which excludes documents only
// when all of them exclude them (known finding)
void multiSearcherRewrite(bool parallel) {
    Collection<SearchablePtr> subs = Collection<SearchablePtr>::newInstance();
    const wchar_t* words[2] = {L"ab", L"ac"};
    for (int i = 0; i < 2; ++i) {
        DirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"body", WS(L"x ") + words[i], Field::STORE_NO, Field::INDEX_ANALYZED));
        w->addDocument(d);
        w->close();
        subs.add(newLucene<IndexSearcher>(dir, true));
    }
    BooleanQueryPtr q = newLucene<BooleanQuery>();
    q->add(newLucene<TermQuery>(newLucene<Term>(L"body", L"x")), BooleanClause::MUST);
    PrefixQueryPtr p = newLucene<PrefixQuery>(newLucene<Term>(L"body", L"a"));
    p->setRewriteMethod(MultiTermQuery::SCORING_BOOLEAN_QUERY_REWRITE());
    q->add(p, BooleanClause::MUST_NOT);
    SearcherPtr m = parallel ? SearcherPtr(newLucene<ParallelMultiSearcher>(subs)) : SearcherPtr(newLucene<MultiSearcher>(subs));
    VF_EQ(m->search(q, FilterPtr(), 10)->totalHits, 0, "composite.multisearcherRewrite", "+x -a* over two indexes with one matching document each");
}
}

VF_MODE(composite) {
    if (c.no == 0) return multiSearcherRewrite(false);
    if (c.no == 1) return multiSearcherRewrite(true);
    Composite x(c);
    Rng& r = x.r;
    x.writable = r.oneIn(3);
    IndexReaderPtr one = x.open(x.build(0, (size_t)x.n, ALL));
    std::string cx = fmt("%d docs, %d parts", x.n, (int)x.cuts.size() - 1);
    IndexReaderPtr comp;
    bool parallel = r.oneIn(3);
    if (parallel) {
        // the same documents split by field
        ParallelReaderPtr p = newLucene<ParallelReader>();
        bool swap = r.oneIn(2);
        p->add(x.wrap(x.open(x.build(0, (size_t)x.n, swap ? RIGHT : LEFT))));
        p->add(x.wrap(x.open(x.build(0, (size_t)x.n, swap ? LEFT : RIGHT))));
        comp = p;
        cx += " parallel";
    } else comp = x.tree(0, x.cuts.size() - 1);
    bool wrapped = x.wrapped;
    compareReaders(x, one, comp, "composite.reader", cx);
    SearcherPtr so = newLucene<IndexSearcher>(one);
    compareSearchers(x, so, newLucene<IndexSearcher>(comp), one, "composite.multireader", false);
    compareSearchers(x, so, x.searcherTree(0, x.cuts.size() - 1), one, "composite.multisearcher", true);
    // clones and reopened composites show the same
    if (r.oneIn(3)) {
        if (!wrapped) {
            IndexReaderPtr cl = boost::dynamic_pointer_cast<IndexReader>(comp->clone());
            compareReaders(x, one, cl, "composite.clone", cx);
            cl->close();
            count("clones");
        }
        IndexReaderPtr re = wrapped ? comp : comp->reopen();
        VF_CHECK(re == comp, "composite.reopenSame", "nothing changed but reopen gave another reader: " + cx);
        compareReaders(x, one, comp, "composite.afterClone", cx);
    }
    if (!x.writable) return;
    // deletions and norms set through the composite reach the right documents, in memory and after a commit
    std::vector<IndexReaderPtr> olds;
    int steps = (int)r.range(1, 4);
    for (int s = 0; s < steps; ++s) {
        DumpStats st;
        Dump before = dumpReader(comp, "composite.before", &st);
        bool keep = r.oneIn(2);
        IndexReaderPtr snap;
        if (keep) {
            // the clone takes over the right to change the index, the original stays as it is
            snap = comp;
            comp = boost::dynamic_pointer_cast<IndexReader>(comp->clone());
            compareReaders(x, one, comp, "composite.writableClone", cx);
        }
        int ops = (int)r.range(1, 6);
        bool changed = false;
        for (int i = 0; i < ops; ++i) {
            int d = (int)r.below((uint64_t)x.n);
            switch (r.pick({0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3})) {
            case 0:
                if (one->isDeleted(d)) break;
                one->deleteDocument(d);
                comp->deleteDocument(d);
                count("deletes_through_composite");
                changed = true;
                break;
            case 1: {
                WS f = r.pick({L"body", L"title"});
                bool has = false;
                if (one->isDeleted(d) || !one->hasNorms(f)) break;
                for (auto& fm : x.co.docs[(size_t)d].d.fields) has = has || (fm.name == f && !fm.noNorms);
                if (!has) break;  // a part without the field has no norms to change
                uint8_t v = (uint8_t)r.range(1, 255);
                one->setNorm(d, f, v);
                comp->setNorm(d, f, v);
                count("norms_through_composite");
                changed = true;
                break;
            }
            case 2: {
                TermPtr t = newLucene<Term>(L"body", x.co.word());
                VF_EQ(comp->deleteDocuments(t), one->deleteDocuments(t), "composite.deleteByTerm", u8(t->toString()) + " " + cx);
                changed = true;
                break;
            }
            default:
                one->undeleteAll();
                comp->undeleteAll();
                changed = true;
                count("undeletes_through_composite");
            }
        }
        (void)changed;
        compareReaders(x, one, comp, "composite.changed", cx);
        if (snap) { compareDumps(dumpReader(snap, "composite.snap", &st), before, "composite.snapshot", cx); snap->close(); count("snapshots"); }
        if (r.oneIn(2)) {
            one->flush();
            comp->flush();
            IndexReaderPtr fresh = comp->reopen();
            compareReaders(x, one, fresh, "composite.committed", cx);
            if (fresh != comp) { olds.push_back(comp); comp = fresh; }
            count("commits_through_composite");
        } else if (r.oneIn(2)) {
            one->flush();
            comp->flush();
            if (comp->maxDoc() == one->maxDoc()) compareSearchers(x, newLucene<IndexSearcher>(one), newLucene<IndexSearcher>(comp), one, "composite.changedSearch", false);
        }
    }
    for (auto& o : olds) o->close();
    comp->close();
    one->close();
}


// ---------------------------------------------------------------- C21: caches

namespace {
class SameHashFilter : public Filter {
public:
    int id, h;
    SameHashFilter(int i, int hh) : id(i), h(hh) {}
    virtual ~SameHashFilter() {}
    LUCENE_CLASS(SameHashFilter);
    virtual DocIdSetPtr getDocIdSet(const IndexReaderPtr& r) { OpenBitSetPtr b = newLucene<OpenBitSet>(r->maxDoc()); for (int i = 0; i < r->maxDoc(); ++i) if (i % (id + 1) == 0) b->set((int32_t)i); return b; }
    virtual bool equals(const LuceneObjectPtr& o) { boost::shared_ptr<SameHashFilter> f = boost::dynamic_pointer_cast<SameHashFilter>(o); return f && f->id == id && f->h == h; }
    virtual int32_t hashCode() { return h; }
};

struct View { IndexReaderPtr rd; std::set<int> live; bool open = true; int age; };  // age: number of deletion steps before it

struct Cached {
    RFP model;
    FilterPtr f;
    RSP spans;
    int mode;          // 0 ignore, 1 recache, 2 dynamic
    bool span = false;
    int lastAge = -1;  // ignore and dynamic: only readers that see no more documents than the ones before
    std::string s;
};

std::set<int> run(const IndexReaderPtr& rd, const QueryPtr& q, const FilterPtr& f) {
    IndexSearcherPtr is = newLucene<IndexSearcher>(rd);
    AllCollectorPtr col = newLucene<AllCollector>(true, false);
    is->search(q, f, col);
    std::set<int> out;
    for (auto& h : col->hits) out.insert(std::stoi(u8(rd->document(h.doc)->get(L"uid"))));
    VF_EQ(out.size(), col->hits.size(), "caches.twice", "");
    return out;
}
std::string diff(const std::set<int>& got, const std::set<int>& want) {
    std::string o;
    for (int x : got) if (!want.count(x)) o += fmt("extra %d ", x);
    for (int x : want) if (!got.count(x)) o += fmt("missing %d ", x);
    return o;
}

void checkFieldCache(Corpus& co, const IndexReaderPtr& rd, const std::string& ctx) {
    Rng& r = co.r;
    FieldCachePtr fc = FieldCache::DEFAULT();
    std::vector<int> docs;
    std::vector<const SDoc*> ms;
    for (int i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) { docs.push_back(i); ms.push_back(&co.docs[(size_t)std::stoi(u8(rd->document(i)->get(L"uid")))]); }
    auto each = [&](const char* what, std::function<bool(int, const SDoc&)> ok) {
        for (size_t i = 0; i < docs.size(); ++i) VF_CHECK(ok(docs[i], *ms[i]), std::string("caches.field.") + what, fmt("document %d uid %d ", docs[i], ms[i]->d.uid) + ctx);
        count("field_arrays");
        count("field_values", docs.size());
    };
    int n = (int)r.range(1, 4);
    for (int k = 0; k < n; ++k) switch (r.below(9)) {
    case 0: { Collection<int32_t> a = fc->getInts(rd, L"uid"); VF_EQ(a.size(), rd->maxDoc(), "caches.field.size", ctx); each("int", [&](int d, const SDoc& m) { return a[d] == m.d.uid; }); break; }
    case 1: { Collection<uint8_t> a = fc->getBytes(rd, L"fs"); each("byte", [&](int d, const SDoc& m) { return a[d] == m.d.uid % 7; }); break; }
    case 2: { Collection<int64_t> a = fc->getLongs(rd, L"lng", FieldCache::NUMERIC_UTILS_LONG_PARSER()); each("long", [&](int d, const SDoc& m) { return a[d] == (m.hasNum ? m.lng : 0); }); break; }
    case 3: { Collection<double> a = fc->getDoubles(rd, L"dbl", FieldCache::NUMERIC_UTILS_DOUBLE_PARSER()); each("double", [&](int d, const SDoc& m) { return a[d] == (m.hasNum ? m.dbl : 0); }); break; }
    case 4: { Collection<String> a = fc->getStrings(rd, L"cat"); each("string", [&](int d, const SDoc& m) { return a[d] == (m.hasCat ? m.cat : WS()); }); break; }
    case 5: {
        StringIndexPtr a = fc->getStringIndex(rd, L"cat");
        each("index", [&](int d, const SDoc& m) { return a->order[d] == 0 ? !m.hasCat : m.hasCat && a->lookup[a->order[d]] == m.cat; });
        for (int i = 2; i < a->lookup.size(); ++i) VF_CHECK(a->lookup[i - 1] < a->lookup[i], "caches.field.lookup", ctx);
        for (int i = 0; i < 5; ++i) {
            WS x = r.pick(co.cats);
            int at = a->binarySearchLookup(x);
            bool there = false;
            for (int j = 1; j < a->lookup.size(); ++j) there = there || a->lookup[j] == x;
            VF_CHECK(there ? at > 0 && a->lookup[at] == x : at < 0, "caches.field.binarySearch", u8(x) + fmt(" at %d ", at) + ctx);
        }
        break;
    }
    case 6: { Collection<int32_t> a = fc->getInts(rd, L"num", FieldCache::NUMERIC_UTILS_INT_PARSER()); each("num", [&](int d, const SDoc& m) { return a[d] == (m.hasNum ? m.num : 0); }); break; }
    case 7: { Collection<double> a = fc->getDoubles(rd, L"fs"); each("fsdouble", [&](int d, const SDoc& m) { return a[d] == m.d.uid % 7; }); break; }
    default: { Collection<int64_t> a = fc->getLongs(rd, L"fs"), b = fc->getLongs(rd, L"fs"); each("fslong", [&](int d, const SDoc& m) { return a[d] == m.d.uid % 7 && b[d] == a[d]; }); }
    }
}

void checkView(Corpus& co, View& v, std::vector<Cached>& pool, const std::string& ctx) {
    Rng& r = co.r;
    for (auto& cf : pool) {
        if (!r.oneIn(2)) continue;
        if (cf.mode != 1) { if (v.age < cf.lastAge) continue; cf.lastAge = v.age; }
        std::set<int> want;
        for (int u : v.live) if (cf.model->match(co.docs[(size_t)u])) want.insert(u);
        std::string cx = cf.s + " " + ctx;
        std::set<int> got = run(v.rd, newLucene<MatchAllDocsQuery>(), cf.f);
        VF_CHECK(got == want, "caches.filter", diff(got, want) + cx);
        count("cached_filter_checks");
        Hash h;
        h.add(cf.s);
        for (int u : want) h.add((uint64_t)u);
        if (!want.empty()) sig(h.h);
        if (cf.mode == 0) continue;
        got = run(v.rd, newLucene<ConstantScoreQuery>(cf.f), FilterPtr());
        VF_CHECK(got == want, "caches.constant", diff(got, want) + cx);
        if (cf.span && cf.mode == 1) {
            // which positions a cached span filter reports
            std::vector<IndexReaderPtr> leaves;
            std::function<void(IndexReaderPtr)> rec = [&](IndexReaderPtr x) { Collection<IndexReaderPtr> s = x->getSequentialSubReaders(); if (!s) leaves.push_back(x); else for (int32_t i = 0; i < s.size(); ++i) rec(s[i]); };
            rec(v.rd);
            for (auto& lf : leaves) {
                SpanFilterResultPtr a = boost::dynamic_pointer_cast<SpanFilter>(cf.f)->bitSpans(lf);
                SpanFilterResultPtr b = newLucene<SpanQueryFilter>(boost::dynamic_pointer_cast<SpanQuery>(cf.spans->make()))->bitSpans(lf);
                VF_EQ(a->getPositions().size(), b->getPositions().size(), "caches.spans.docs", cx);
                for (int32_t i = 0; i < b->getPositions().size(); ++i) {
                    PositionInfoPtr p = a->getPositions()[i], q = b->getPositions()[i];
                    VF_EQ(p->getDoc(), q->getDoc(), "caches.spans.doc", cx);
                    VF_EQ(p->getPositions().size(), q->getPositions().size(), "caches.spans.count", cx);
                    for (int32_t j = 0; j < q->getPositions().size(); ++j) VF_CHECK(p->getPositions()[j]->getStart() == q->getPositions()[j]->getStart() && p->getPositions()[j]->getEnd() == q->getPositions()[j]->getEnd(), "caches.spans.position", cx);
                }
                count("span_results");
            }
        }
    }
    std::vector<IndexReaderPtr> leaves;
    std::function<void(IndexReaderPtr)> rec = [&](IndexReaderPtr x) { Collection<IndexReaderPtr> s = x->getSequentialSubReaders(); if (!s) leaves.push_back(x); else for (int32_t i = 0; i < s.size(); ++i) rec(s[i]); };
    rec(v.rd);
    for (auto& lf : leaves) if (r.oneIn(2)) checkFieldCache(co, lf, ctx + " leaf");
    // sorting by a cached field, filtered by one
    if (r.oneIn(2)) {
        Key k;
        do k = sortKey(r, co); while (k.score || k.s.compare(0, 3, "doc") == 0);
        Collection<SortFieldPtr> sf = Collection<SortFieldPtr>::newInstance();
        sf.add(k.sf);
        TopFieldDocsPtr t = newLucene<IndexSearcher>(v.rd)->search(newLucene<MatchAllDocsQuery>(), FilterPtr(), 1000, newLucene<Sort>(sf));
        VF_EQ((size_t)t->totalHits, v.live.size(), "caches.sort.hits", ctx);
        Val last;
        for (int32_t i = 0; i < t->scoreDocs.size(); ++i) {
            Val x = k.val(co.docs[(size_t)std::stoi(u8(v.rd->document(t->scoreDocs[i]->doc)->get(L"uid")))], t->scoreDocs[i]->doc, 1);
            if (i) { int cmp = last.cmp(x); VF_CHECK(k.rev ? cmp >= 0 : cmp <= 0, "caches.sort.order", k.s + " " + last.str() + " before " + x.str() + " " + ctx); }
            last = x;
        }
        count("cached_sorts");
    }
}

std::vector<Cached> filterPool(Corpus& co) {
    Rng& r = co.r;
    std::vector<Cached> pool;
    int n = (int)r.range(2, 6);
    for (int i = 0; i < n; ++i) {
        Cached cf;
        cf.mode = (int)r.below(3);
        cf.span = r.oneIn(4);
        CachingWrapperFilter::DeletesMode dm = cf.mode == 0 ? CachingWrapperFilter::DELETES_IGNORE : cf.mode == 1 ? CachingWrapperFilter::DELETES_RECACHE : CachingWrapperFilter::DELETES_DYNAMIC;
        if (cf.span) {
            if (cf.mode == 2) { cf.mode = 1; dm = CachingWrapperFilter::DELETES_RECACHE; }
            cf.spans = co.span(1, true);
            auto m = std::make_shared<RFn>();
            RSP sp = cf.spans;
            m->m = [sp](const SDoc& d) { return sp->match(d); };
            m->s = "span " + sp->str();
            cf.model = m;
            cf.f = newLucene<CachingSpanFilter>(newLucene<SpanQueryFilter>(boost::dynamic_pointer_cast<SpanQuery>(sp->make())), dm);
        } else {
            do cf.model = co.filter(1); while (cf.model->str().find("cached") != std::string::npos);
            cf.f = newLucene<CachingWrapperFilter>(cf.model->make(), dm);
        }
        cf.s = fmt("mode %d %s", cf.mode, cf.model->str().c_str());
        pool.push_back(cf);
    }
    return pool;
}
}

namespace {
// a filter cached without regard to deletions while some documents were deleted misses them for an older reader (known finding)
void cachedThenOlder(int mode) {
    DirectoryPtr dir = newLucene<RAMDirectory>();
    IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
    for (int i = 0; i < 3; ++i) {
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"uid", std::to_wstring(i), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
        w->addDocument(d);
    }
    IndexReaderPtr older = w->getReader();
    w->deleteDocuments(newLucene<Term>(L"uid", L"1"));
    IndexReaderPtr newer = w->getReader();
    FilterPtr f = newLucene<CachingWrapperFilter>(newLucene<QueryWrapperFilter>(newLucene<MatchAllDocsQuery>()), mode == 0 ? CachingWrapperFilter::DELETES_IGNORE : CachingWrapperFilter::DELETES_DYNAMIC);
    VF_EQ(run(newer, newLucene<MatchAllDocsQuery>(), f).size(), (size_t)2, "caches.newer", "");
    std::set<int> got = run(older, newLucene<MatchAllDocsQuery>(), f);
    VF_EQ(got.size(), (size_t)3, "caches.cachedThenOlder", mode == 0 ? "DELETES_IGNORE" : "DELETES_DYNAMIC");
    older->close();
    newer->close();
    w->close();
}
}

VF_MODE(caches) {
    if (c.no < 2) return cachedThenOlder((int)c.no);
    Corpus co(c);
    Rng& r = c.rng;
    co.noCustom = true;
    int n = (int)r.range(2, 40);
    co.generate(n + 40);
    std::vector<Cached> pool = filterPool(co);
    std::vector<View> views;
    int age = 0;
    auto drop = [&](size_t i) { views[i].rd->close(); views.erase(views.begin() + (long)i); };
    if (r.oneIn(2)) {
        // a writer goes on, readers are reopened
        DirectoryPtr dir = newLucene<RAMDirectory>();
        IndexWriterPtr w = co.writer(dir);
        std::set<int> live;
        int next = 0;
        for (; next < n; ++next) { w->addDocument(co.lib(co.docs[(size_t)next])); live.insert(next); }
        w->commit();
        views.push_back({w->getReader(), live, true, age});
        int steps = (int)r.range(3, 12);
        for (int s = 0; s < steps; ++s) {
            int ops = (int)r.range(0, 4);
            for (int i = 0; i < ops; ++i) {
                if (r.oneIn(3) && next < (int)co.docs.size()) { w->addDocument(co.lib(co.docs[(size_t)next])); live.insert(next++); }
                else if (!live.empty()) { auto it = live.begin(); std::advance(it, (long)r.below(live.size())); w->deleteDocuments(newLucene<Term>(L"uid", std::to_wstring(*it))); live.erase(it); ++age; }
            }
            if (r.oneIn(10)) { w->optimize(); count("optimizes"); }
            View v;
            v.live = live;
            v.age = age;
            if (r.oneIn(2)) v.rd = w->getReader();
            else {
                w->commit();
                bool nrt = r.oneIn(2) && !views.empty();
                v.rd = nrt ? views.back().rd->reopen() : IndexReader::open(dir, true);
                if (nrt && v.rd == views.back().rd) v.rd->incRef();
                // a reader from IndexReader::open shares nothing with the others
            }
            views.push_back(v);
            count("readers");
            while (views.size() > 4 || (views.size() > 1 && r.oneIn(5))) drop((size_t)r.below(views.size() - 1));
            int checks = (int)r.range(1, 3);
            for (int i = 0; i < checks; ++i) { size_t at = (size_t)r.below(views.size()); checkView(co, views[at], pool, fmt("step %d, reader of age %d of %d, %d docs", s, views[at].age, age, n)); }
            if (r.oneIn(15)) { FieldCache::DEFAULT()->purgeAllCaches(); count("purges"); }
            if (r.oneIn(20)) { pool = filterPool(co); }
        }
        while (!views.empty()) drop(views.size() - 1);
        w->close();
    } else {
        // documents are deleted (and undeleted) through a reader, which is cloned at times
        DirectoryPtr dir = newLucene<RAMDirectory>();
        {
            IndexWriterPtr w = co.writer(dir);
            for (int i = 0; i < n; ++i) w->addDocument(co.lib(co.docs[(size_t)i]));
            w->close();
        }
        std::set<int> live;
        for (int i = 0; i < n; ++i) live.insert(i);
        View cur{IndexReader::open(dir, false), live, true, 0};
        int steps = (int)r.range(3, 14);
        for (int s = 0; s < steps; ++s) {
            if (r.oneIn(4)) {
                View old = cur;
                cur.rd = boost::dynamic_pointer_cast<IndexReader>(cur.rd->clone());
                views.push_back(old);
                count("clones");
            }
            int ops = (int)r.range(0, 3);
            for (int i = 0; i < ops && !cur.live.empty(); ++i) {
                auto it = cur.live.begin();
                std::advance(it, (long)r.below(cur.live.size()));
                VF_EQ(cur.rd->deleteDocuments(newLucene<Term>(L"uid", std::to_wstring(*it))), 1, "caches.delete", "");
                cur.live.erase(it);
                cur.age = ++age;
                count("reader_deletes");
            }
            if (r.oneIn(12)) {
                cur.rd->undeleteAll();
                for (int i = 0; i < n; ++i) cur.live.insert(i);
                // caches that do not follow deletions are not meant for this
                std::vector<Cached> p2;
                for (auto& x : pool) if (x.mode == 1) p2.push_back(x);
                pool = p2;
                count("undeletes");
            }
            if (r.oneIn(6)) cur.rd->flush();
            while (views.size() > 3 || (!views.empty() && r.oneIn(6))) drop((size_t)r.below(views.size()));
            int checks = (int)r.range(1, 3);
            for (int i = 0; i < checks; ++i) {
                if (!views.empty() && r.oneIn(2)) { size_t at = (size_t)r.below(views.size()); checkView(co, views[at], pool, fmt("step %d, clone of age %d of %d, %d docs", s, views[at].age, age, n)); }
                else checkView(co, cur, pool, fmt("step %d, reader itself, %d deletions, %d docs", s, age, n));
            }
            // the composite reader's own arrays hold as long as nothing is deleted and brought back
            if (s == 0) checkFieldCache(co, cur.rd, "composite");
        }
        while (!views.empty()) drop(views.size() - 1);
        cur.rd->close();
    }
    // the filter manager hands out an equal filter
    {
        FilterManagerPtr fm = FilterManager::getInstance();
        for (int i = 0; i < 10; ++i) {
            FilterPtr f = r.oneIn(2) ? FilterPtr(newLucene<SameHashFilter>((int)r.below(4), (int)r.below(2))) : FilterPtr(newLucene<TermRangeFilter>(L"cat", r.pick(co.cats), r.pick(co.cats), r.oneIn(2), r.oneIn(2)));
            FilterPtr g = fm->getFilter(f);
            VF_CHECK(g && g->equals(f), "caches.manager", u8(f->toString()) + " gave " + u8(g->toString()));
            VF_CHECK(fm->getFilter(g)->equals(f), "caches.manager", u8(f->toString()));
            count("managed_filters");
        }
    }
    // the LRU cache against a list
    {
        int cap = (int)r.range(1, 6);
        typedef SimpleLRUCache<int, int, boost::hash<int>, std::equal_to<int>> LRU;
        boost::shared_ptr<LRU> lru = newLucene<LRU>(cap);
        std::list<std::pair<int, int>> model;
        auto find = [&](int k) { return std::find_if(model.begin(), model.end(), [&](const std::pair<int, int>& x) { return x.first == k; }); };
        int ops = (int)r.range(5, 60);
        for (int i = 0; i < ops; ++i) {
            int k = (int)r.below(9);
            switch (r.below(3)) {
            case 0: { int v = (int)r.range(1, 1000); lru->put(k, v); auto it = find(k); if (it != model.end()) model.erase(it); model.push_front({k, v}); if ((int)model.size() > cap) model.pop_back(); break; }
            case 1: { auto it = find(k); int want = 0; if (it != model.end()) { want = it->second; model.splice(model.begin(), model, it); } VF_EQ(lru->get(k), want, "caches.lru.get", fmt("key %d step %d capacity %d", k, i, cap)); break; }
            default: VF_EQ(lru->contains(k), find(k) != model.end(), "caches.lru.contains", fmt("key %d step %d capacity %d", k, i, cap));
            }
            VF_EQ((size_t)lru->size(), model.size(), "caches.lru.size", fmt("step %d capacity %d", i, cap));
            count("lru_operations");
        }
        auto m = model.begin();
        for (auto it = lru->begin(); it != lru->end(); ++it, ++m) VF_CHECK(it->first == m->first && it->second == m->second, "caches.lru.order", "");
    }
}

VF_MAIN
