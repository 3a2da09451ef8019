// What the inverted index records (C05): hostile documents, every field setting, sequential and random access.
#include "model.h"
#include "FieldSelector.h"
#include "SetBasedFieldSelector.h"
#include "MapFieldSelector.h"
#include "LoadFirstFieldSelector.h"
#include "TermVectorMapper.h"
#include "SortedTermVectorMapper.h"
#include "FieldSortedTermVectorMapper.h"
#include "PositionBasedTermVectorMapper.h"
#include "TermVectorEntryFreqSortedComparator.h"
#include "TermVectorEntry.h"
#include "SegmentReader.h"
using namespace vf;

namespace {

struct FieldKind {
    WS name;
    bool stored, tokenized, noNorms, noTF, binary, stream, indexed;
    int tv;  // 5: varies
    bool payloads;
};

struct Posting { int doc; std::vector<std::pair<int, std::string>> pos; int freq; };
typedef std::pair<WS, WS> TermKey;

// collects what a vector mapper is given
class CollectMapper : public TermVectorMapper {
public:
    std::map<WS, std::string> lines;
    std::map<WS, int> expected, got;
    WS field;
    int docNo = -1;
    CollectMapper(bool ip, bool io) : TermVectorMapper(ip, io) {}
    virtual ~CollectMapper() {}
    LUCENE_CLASS(CollectMapper);
    virtual void setExpectations(const String& f, int32_t n, bool off, bool pos) { field = f; expected[f] = n; lines[f] = ""; }
    virtual void map(const String& term, int32_t freq, Collection<TermVectorOffsetInfoPtr> off, Collection<int32_t> pos) {
        std::string& tv = lines[field];
        ++got[field];
        tv += u8(term) + ":" + std::to_string(freq);
        if (pos) { tv += "["; for (int32_t j = 0; j < pos.size(); ++j) tv += std::to_string(pos[j]) + ","; tv += "]"; }
        if (off) { tv += "{"; for (int32_t j = 0; j < off.size(); ++j) tv += std::to_string(off[j]->getStartOffset()) + "-" + std::to_string(off[j]->getEndOffset()) + ","; tv += "}"; }
        tv += " ";
    }
    virtual void setDocumentNumber(int32_t n) { docNo = n; }
};

class MapSelector : public FieldSelector {
public:
    std::map<WS, FieldSelectorResult> m;
    FieldSelectorResult dflt = SELECTOR_LOAD;
    virtual ~MapSelector() {}
    LUCENE_CLASS(MapSelector);
    virtual FieldSelectorResult accept(const String& f) { auto i = m.find(f); return i == m.end() ? dflt : i->second; }
};

struct Inv {
    Case& c;
    Rng& r;
    ModelOpts o;
    std::vector<FieldKind> kinds;
    std::vector<WS> vocab;
    std::vector<DocM> docs;
    std::set<std::string> noTF;
    const std::string key = "inverted";
    Inv(Case& cs) : c(cs), r(cs.rng) {}

    WS word() { return vocab[(size_t)(r.oneIn(2) ? r.below(std::min<size_t>(vocab.size(), 3)) : r.below(vocab.size()))]; }

    void schema() {
        o.posGap = r.pick({0, 0, 1, 10, 100});
        o.offGap = r.pick({1, 1, 0, 7});
        if (r.oneIn(6)) o.maxFieldLength = (int)r.range(1, 20);
        bool uni = r.oneIn(2);
        int v = (int)r.pick({2, 8, 40, 300, 900});
        std::set<WS> seen;
        while ((int)seen.size() < v) {
            WS w = randWord(r, uni);
            if (r.oneIn(20)) { int n = (int)r.range(20, 255); w.assign((size_t)n, (wchar_t)(L'a' + r.below(3))); }
            seen.insert(w);
        }
        if (r.oneIn(5)) { seen.insert(WS(1, (wchar_t)0x10ffff)); seen.insert(WS(1, (wchar_t)0xfffd)); seen.insert(WS(2, (wchar_t)0xe000)); seen.insert(L"a" + WS(1, (wchar_t)0x10000)); seen.insert(L"a" + WS(1, (wchar_t)0xffee)); }
        vocab.assign(seen.begin(), seen.end());
        r.shuffle(vocab);
        int nf = (int)(r.oneIn(8) ? r.range(10, 40) : r.range(1, 7));
        std::set<WS> names;
        while ((int)names.size() < nf) names.insert(r.oneIn(3) ? randWord(r, true) : r.pick<WS>({L"a", L"b", L"body", L"title", L"A", L"aa", L"z", L"f.1", L"f 2", L"f:3"}) + (r.oneIn(2) ? L"" : std::to_wstring(r.below(50))));
        for (auto& n : names) {
            if (n == L"id" || n == L"uid") continue;
            FieldKind k;
            k.name = n;
            k.binary = r.oneIn(9);
            k.indexed = !k.binary && !r.oneIn(9);
            k.stored = k.binary || !k.indexed || r.oneIn(2);
            k.tokenized = !r.oneIn(4);
            k.noNorms = r.oneIn(3);
            k.noTF = k.indexed && r.oneIn(4);
            k.stream = r.oneIn(3);
            k.tv = (int)r.below(7);
            if (k.tv == 6) k.tv = 0;
            k.payloads = r.oneIn(2);
            if (k.noTF) noTF.insert(u8(n));
            kinds.push_back(k);
        }
        r.shuffle(kinds);
    }
    FieldM instance(const FieldKind& k, bool big) {
        FieldM f;
        f.name = k.name;
        f.stored = k.stored;
        if (k.binary) {
            f.binary = true;
            int len = (int)r.pick({1, 2, 17, 300, 3000});  // empty values are rejected by the Field constructor's contract
            for (int i = 0; i < len; ++i) f.bytes += (char)r.below(256);
            return f;
        }
        f.indexed = k.indexed;
        f.tokenized = k.tokenized;
        f.noNorms = k.noNorms;
        f.noTF = k.noTF;
        f.tv = k.indexed ? (k.tv == 5 ? (int)r.below(5) : k.tv) : 0;
        // a field that is cut short has no defined end offset, unless its stream says so at any time
        if (o.maxFieldLength != 0x7fffffff && !k.stream && f.tv >= 3) f.tv -= 2;
        if (r.oneIn(8)) f.boost = r.pick({0.5, 2.0, 3.25, 0.0078125, 100.0});
        int n = (int)(big ? r.range(50, 1500) : r.range(k.noNorms || !k.indexed ? 0 : 1, r.oneIn(6) ? 60 : 8));
        if (k.indexed && k.stream) {
            f.viaStream = true;
            f.tokenized = true;
            int at = 0;
            if (n == 0) n = 1;
            for (int i = 0; i < n; ++i) {
                Tok t;
                t.term = r.oneIn(40) ? WS((size_t)r.pick({1000, 16382, 16383, 16384, 20000}), L'x') : word();
                if (i == 0 && (int)t.term.size() > o.maxTerm) t.term = word();
                t.inc = r.oneIn(4) ? 0 : r.oneIn(6) ? (int)r.range(2, 100000) : 1;
                if (i == 0 && t.inc == 0) t.inc = 1;
                t.start = at;
                t.end = at + (int)std::min<size_t>(t.term.size(), 30);
                if (r.oneIn(3)) at = t.end + (int)r.below(3);
                if (k.payloads && !k.noTF && r.oneIn(2)) {
                    t.hasPayload = true;
                    int len = (int)r.pick({0, 1, 1, 3, 3, 3, 20, 200, 5000});
                    if (big) len = std::min(len, 20);
                    for (int q = 0; q < len; ++q) t.payload += (char)r.below(256);
                }
                f.toks.push_back(t);
                f.endOffset = std::max(f.endOffset, t.end);
            }
            if (f.stored) { f.value = L"stored apart from the stream"; }
            return f;
        }
        if (!f.tokenized || !f.indexed) {
            f.value = r.oneIn(10) && (k.noNorms || !k.indexed) ? L"" : word() + (r.oneIn(3) ? L" " + word() : L"");
            Tok t; t.term = f.value; t.end = (int)f.value.size(); f.toks.push_back(t);
            return f;
        }
        for (int i = 0; i < n; ++i) { if (i) f.value += L' '; if (r.oneIn(10)) f.value += L' '; f.value += word(); }
        f.toks = splitSpaces(f.value);
        f.endOffset = (int)f.value.size();
        return f;
    }
    DocM makeOne(int uid, bool big) {
        DocM d;
        d.uid = uid;
        if (r.oneIn(8)) d.boost = r.pick({0.25, 2.0, 7.5});
        FieldM f; f.name = L"uid"; f.value = std::to_wstring(uid); f.stored = f.indexed = f.noNorms = true;
        Tok t; t.term = f.value; t.end = (int)f.value.size(); f.toks.push_back(t);
        d.fields.push_back(f);
        for (auto& k : kinds) {
            int n = r.oneIn(3) ? 0 : r.oneIn(4) ? (int)r.range(2, 4) : 1;
            for (int i = 0; i < n; ++i) d.fields.push_back(instance(k, big && r.oneIn(3)));
        }
        if (r.oneIn(4)) { std::vector<FieldM> rest(d.fields.begin() + 1, d.fields.end()); r.shuffle(rest); std::copy(rest.begin(), rest.end(), d.fields.begin() + 1); }
        return d;
    }

    std::map<TermKey, std::vector<Posting>> postings(const std::vector<int>& ids) {
        std::map<TermKey, std::vector<Posting>> m;
        for (size_t n = 0; n < docs.size(); ++n) {
            Inverted inv = invert(docs[n], o);
            for (auto& kv : inv.fields)
                for (auto& te : kv.second.terms) {
                    Posting p;
                    p.doc = ids[n];
                    p.freq = kv.second.noTF ? 1 : (int)te.second.size();
                    if (!kv.second.noTF) for (auto& oc : te.second) p.pos.push_back({oc.pos, oc.hasPayload ? oc.payload : std::string()});
                    m[{kv.first, te.first}].push_back(p);
                }
        }
        return m;
    }

    void randomAccess(const IndexReaderPtr& rd, const std::string& k) {
        std::vector<int> ids;
        for (int i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) ids.push_back(i);
        VF_EQ(ids.size(), docs.size(), k + ".live", "");
        std::map<TermKey, std::vector<Posting>> m = postings(ids);
        std::vector<TermKey> keys;
        for (auto& kv : m) keys.push_back(kv.first);
        bool noDel = !rd->hasDeletions();
        TermDocsPtr td;
        TermPositionsPtr tp;
        int rounds = (int)std::min<size_t>(keys.size(), thorough() ? 60 : 30);
        for (int q = 0; q < rounds; ++q) {
            // the most frequent terms have skip data: prefer them
            TermKey tk = keys[(size_t)r.below(keys.size())];
            if (r.oneIn(2)) { for (int j = 0; j < 6; ++j) { TermKey o2 = keys[(size_t)r.below(keys.size())]; if (m[o2].size() > m[tk].size()) tk = o2; } }
            const std::vector<Posting>& ps = m[tk];
            TermPtr t = T(tk.first, tk.second);
            if (noDel) VF_EQ(rd->docFreq(t), (int)ps.size(), k + ".docFreq", u8(tk.first) + ":" + u8(tk.second));
            else VF_CHECK(rd->docFreq(t) >= (int)ps.size(), k + ".docFreq", u8(tk.first) + ":" + u8(tk.second));
            bool withPos = r.oneIn(2);
            bool tfOmitted = noTF.count(u8(tk.first)) > 0;
            if (withPos && tfOmitted) withPos = false;
            std::string trace = u8(tk.first) + ":" + u8(tk.second) + fmt(" df=%d ", (int)ps.size());
            TermDocsPtr d;
            TermPositionsPtr dp;
            if (withPos) { if (!tp || r.oneIn(3)) tp = rd->termPositions(); dp = tp; d = tp; tp->seek(t); }
            else { if (!td || r.oneIn(3)) td = rd->termDocs(); d = td; td->seek(t); }
            size_t at = (size_t)-1;
            bool bulk = !withPos && r.oneIn(3);
            for (int step = 0; step < 40; ++step) {
                if (bulk && r.oneIn(2)) {
                    int n = (int)r.pick({1, 3, 32, 100});
                    Collection<int32_t> dd = Collection<int32_t>::newInstance(n), ff = Collection<int32_t>::newInstance(n);
                    int got = d->read(dd, ff);
                    trace += fmt("read %d ", n);
                    if (got == 0) { VF_EQ(at + 1, ps.size(), k + ".read.end", trace); break; }
                    VF_CHECK(got <= n, k + ".read.n", trace);
                    for (int j = 0; j < got; ++j) {
                        ++at;
                        VF_CHECK(at < ps.size(), k + ".read.tooMany", trace);
                        VF_EQ(dd[j], ps[at].doc, k + ".read.doc", trace);
                        VF_EQ(ff[j], ps[at].freq, k + ".read.freq", trace);
                    }
                    count("bulk_reads");
                    // after a bulk read the cursor itself is not defined
                    continue;
                }
                bool ok;
                if (r.oneIn(2) || bulk) { ok = d->next(); ++at; trace += "next "; }
                else {
                    int cur = at == (size_t)-1 ? -1 : ps[at].doc;
                    int target = (int)r.pick<int64_t>({cur + 1, cur + 2, cur + r.range(1, 40), cur + r.range(1, std::max(2, rd->maxDoc())), std::max(0, cur - (int)r.below(3)), r.range(0, rd->maxDoc() + 3)});
                    if (target < 0) target = 0;
                    ok = d->skipTo(target);
                    trace += fmt("skipTo(%d) ", target);
                    do ++at; while (at < ps.size() && ps[at].doc < target);
                    count("skips");
                }
                VF_EQ(ok, at < ps.size(), k + ".cursor.end", trace);
                if (!ok) { VF_CHECK(!d->next(), k + ".cursor.afterEnd", trace); break; }
                VF_EQ(d->doc(), ps[at].doc, k + ".cursor.doc", trace);
                VF_EQ(d->freq(), ps[at].freq, k + ".cursor.freq", trace);
                if (dp && r.oneIn(2)) {
                    int n = (int)r.range(0, ps[at].freq);
                    for (int j = 0; j < n; ++j) {
                        VF_EQ(dp->nextPosition(), ps[at].pos[(size_t)j].first, k + ".cursor.position", trace);
                        int len = dp->getPayloadLength();
                        VF_EQ(len, (int)ps[at].pos[(size_t)j].second.size(), k + ".cursor.payloadLength", trace);
                        if (len > 0 && r.oneIn(2)) {
                            VF_CHECK(dp->isPayloadAvailable(), k + ".cursor.payload", trace);
                            int off = (int)r.below(4);
                            ByteArray b = ByteArray::newInstance(off + len + (int)r.below(3));
                            ByteArray p = r.oneIn(2) ? dp->getPayload(b, off) : dp->getPayload(ByteArray(), off);
                            // an array that is too small (or absent) is replaced by one that starts at 0
                            std::string s((char*)p.get() + (p.get() == b.get() ? off : 0), (size_t)len);
                            VF_EQ(hex(s), hex(ps[at].pos[(size_t)j].second), k + ".cursor.payload", trace);
                            VF_CHECK(!dp->isPayloadAvailable(), k + ".cursor.payloadTwice", trace);
                            count("payloads_read");
                        }
                        count("positions_checked");
                    }
                }
            }
            count("cursor_walks");
            maxi("docfreq", (int64_t)ps.size());
        }
        // term dictionary: seek to present and absent terms
        std::vector<TermKey> all;
        if (noDel) all = keys;
        for (int q = 0; q < 25 && !keys.empty(); ++q) {
            TermKey tk = keys[(size_t)r.below(keys.size())];
            switch (r.below(4)) {
            case 0: break;
            case 1: tk.second += L'a'; break;
            case 2: if (!tk.second.empty()) tk.second.pop_back(); break;
            default: tk.second = word(); tk.first = kinds[(size_t)r.below(kinds.size())].name;
            }
            TermEnumPtr te = rd->terms(T(tk.first, tk.second));
            std::string ctx = "seek " + u8(tk.first) + ":" + u8(tk.second);
            if (noDel) {
                auto it = m.lower_bound(tk);
                int n = (int)r.range(1, 6);
                for (int j = 0; j < n; ++j) {
                    TermPtr t = te->term();
                    if (it == m.end()) { VF_CHECK(!t, k + ".seek.end", ctx); break; }
                    VF_CHECK(t, k + ".seek.missing", ctx);
                    VF_EQ(u8(t->field()) + ":" + u8(t->text()), u8(it->first.first) + ":" + u8(it->first.second), k + ".seek.term", ctx);
                    VF_EQ(te->docFreq(), (int)it->second.size(), k + ".seek.docFreq", ctx);
                    ++it;
                    VF_EQ(te->next(), it != m.end(), k + ".seek.next", ctx);
                }
            } else {
                TermPtr t = te->term();
                if (t) VF_CHECK(!(TermKey(t->field(), t->text()) < tk), k + ".seek.before", ctx);
                auto it = m.lower_bound(tk);
                if (it != m.end()) VF_CHECK(t && !(it->first < TermKey(t->field(), t->text())), k + ".seek.missed", ctx);
            }
            te->close();
            count("term_seeks");
        }
        VF_EQ(rd->docFreq(T(L"nosuchfield", L"x")), 0, k + ".docFreq.absent", "");
        // all documents
        TermDocsPtr ad = rd->termDocs(TermPtr());
        size_t i = 0;
        while (true) {
            bool ok;
            if (r.oneIn(4)) {
                int n = (int)r.range(1, 40);
                Collection<int32_t> dd = Collection<int32_t>::newInstance(n), ff = Collection<int32_t>::newInstance(n);
                int got = ad->read(dd, ff);
                VF_CHECK(got <= n && (got > 0) == (i < ids.size()), k + ".allDocs.read", fmt("%d of %d", got, n));
                for (int j = 0; j < got; ++j, ++i) VF_CHECK(i < ids.size() && dd[j] == ids[i] && ff[j] == 1, k + ".allDocs.read.doc", "");
                if (!got) break;
                continue;
            }
            if (r.oneIn(3) && i < ids.size()) { int target = (i ? ids[i - 1] + 1 : 0) + (int)r.below(5); ok = ad->skipTo(target); while (i < ids.size() && ids[i] < target) ++i; }
            else ok = ad->next();
            VF_EQ(ok, i < ids.size(), k + ".allDocs.end", "");
            if (!ok) break;
            VF_EQ(ad->doc(), ids[i], k + ".allDocs", "");
            ++i;
        }
    }

    void vectors(const IndexReaderPtr& rd, const std::string& k) {
        int n = 0;
        std::vector<int> ids;
        for (int i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) ids.push_back(i);
        for (size_t j = 0; j < docs.size(); ++j) {
            if (docs.size() > 12 && !r.oneIn(docs.size() / 8)) continue;
            Inverted inv = invert(docs[j], o);
            for (int round = 0; round < 2; ++round) {
                bool ip = r.oneIn(2), io = r.oneIn(2);
                std::map<WS, std::string> want;
                for (auto& kv : inv.fields) {
                    auto& s = kv.second;
                    if (!s.tv || s.terms.empty()) continue;
                    std::string tv;
                    for (auto& te : s.terms) {
                        tv += u8(te.first) + ":" + std::to_string(te.second.size());
                        if ((s.tv & 2) && !ip) { tv += "["; for (auto& oc : te.second) tv += std::to_string(oc.pos) + ","; tv += "]"; }
                        if ((s.tv & 4) && !io) { tv += "{"; for (auto& oc : te.second) tv += std::to_string(oc.start) + "-" + std::to_string(oc.end) + ","; tv += "}"; }
                        tv += " ";
                    }
                    want[kv.first] = tv;
                }
                boost::shared_ptr<CollectMapper> cm = newLucene<CollectMapper>(ip, io);
                if (round == 0) rd->getTermFreqVector(ids[j], cm);
                else if (!want.empty()) {
                    auto it = want.begin();
                    std::advance(it, (long)r.below(want.size()));
                    std::map<WS, std::string> one;
                    one.insert(*it);
                    want = one;
                    rd->getTermFreqVector(ids[j], want.begin()->first, cm);
                } else continue;
                std::map<WS, std::string> got;
                for (auto& l : cm->lines) if (!l.second.empty()) got.insert(l);
                for (auto& w : want) VF_EQ(got[w.first], w.second, k + ".mapper", u8(w.first));
                VF_EQ(got.size(), want.size(), k + ".mapper.fields", "");
                for (auto& e : cm->expected) VF_EQ(cm->got[e.first], e.second, k + ".mapper.expectations", u8(e.first));
                ++n;
            }
            // frequencies sorted by the supplied order
            SortedTermVectorMapperPtr sm = newLucene<SortedTermVectorMapper>(TermVectorEntryFreqSortedComparator::compare);
            WS field;
            for (auto& kv : inv.fields) if (kv.second.tv && !kv.second.terms.empty()) field = kv.first;
            if (!field.empty()) {
                rd->getTermFreqVector(ids[j], field, sm);
                Collection<TermVectorEntryPtr> es = sm->getTermVectorEntrySet();
                auto& s = inv.fields[field];
                VF_EQ(es.size(), (int)s.terms.size(), k + ".sorted.size", u8(field));
                int prev = 0x7fffffff;
                for (int32_t q = 0; q < es.size(); ++q) {
                    VF_CHECK(es[q]->getFrequency() <= prev, k + ".sorted.order", u8(field));
                    prev = es[q]->getFrequency();
                    auto te = s.terms.find(es[q]->getTerm());
                    VF_CHECK(te != s.terms.end() && (int)te->second.size() == es[q]->getFrequency(), k + ".sorted.entry", u8(field));
                }
                TermFreqVectorPtr fv = rd->getTermFreqVector(ids[j], field);
                VF_CHECK(fv, k + ".vector.missing", u8(field));
                VF_EQ(fv->size(), (int)s.terms.size(), k + ".vector.size", u8(field));
                int idx = 0;
                for (auto& te : s.terms) {
                    if (r.oneIn(3)) VF_EQ(fv->indexOf(te.first), idx, k + ".vector.indexOf", u8(te.first));
                    ++idx;
                }
                VF_EQ(fv->indexOf(L"\x1" L"nosuch"), -1, k + ".vector.indexOf.absent", "");
                PositionBasedTermVectorMapperPtr pm = newLucene<PositionBasedTermVectorMapper>();
                if ((s.tv & 2)) {
                    rd->getTermFreqVector(ids[j], field, pm);
                    MapStringMapIntTermVectorsPositionInfo all = pm->getFieldToTerms();
                    MapIntTermVectorsPositionInfo byPos = all.get(field);
                    std::map<int, std::multiset<WS>> want;
                    for (auto& te : s.terms) for (auto& oc : te.second) want[oc.pos].insert(te.first);
                    VF_EQ(byPos.size(), (int)want.size(), k + ".byPosition.size", u8(field));
                    for (MapIntTermVectorsPositionInfo::iterator p = byPos.begin(); p != byPos.end(); ++p) {
                        Collection<String> ts = p->second->getTerms();
                        std::multiset<WS> got;
                        for (int32_t q = 0; q < ts.size(); ++q) got.insert(ts[q]);
                        VF_CHECK(got == want[p->first], k + ".byPosition", u8(field) + fmt(" position %d", p->first));
                    }
                }
                ++n;
            }
        }
        count("vector_checks", n);
    }

    static std::string sizeBytes(int n) { std::string s; for (int i = 3; i >= 0; --i) s += (char)(n >> (8 * i)); return s; }

    void storedFields(const IndexReaderPtr& rd, const std::string& k) {
        std::vector<int> ids;
        for (int i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) ids.push_back(i);
        int n = 0;
        for (int q = 0; q < 12 && !docs.empty(); ++q) {
            size_t j = (size_t)r.below(docs.size());
            const DocM& d = docs[j];
            FieldSelectorPtr sel;
            std::map<WS, int> act;
            typedef FieldSelector FS;
            boost::shared_ptr<MapSelector> ms = newLucene<MapSelector>();
            std::vector<WS> names = {L"uid"};
            for (auto& kd : kinds) names.push_back(kd.name);
            int style = (int)r.below(4);
            if (style == 0) {
                for (auto& nm : names) ms->m[nm] = r.pick({FS::SELECTOR_LOAD, FS::SELECTOR_LOAD, FS::SELECTOR_LAZY_LOAD, FS::SELECTOR_NO_LOAD, FS::SELECTOR_LOAD_AND_BREAK, FS::SELECTOR_SIZE, FS::SELECTOR_SIZE_AND_BREAK, FS::SELECTOR_NULL});
                sel = ms;
            }
            else if (style == 1) {
                HashSet<String> load = HashSet<String>::newInstance(), lazy = HashSet<String>::newInstance();
                ms->dflt = FS::SELECTOR_NO_LOAD;
                for (auto& nm : names) { if (r.oneIn(3)) { load.add(nm); ms->m[nm] = FS::SELECTOR_LOAD; } if (r.oneIn(4)) { lazy.add(nm); ms->m[nm] = FS::SELECTOR_LAZY_LOAD; } }
                sel = newLucene<SetBasedFieldSelector>(load, lazy);
            } else if (style == 2) {
                Collection<String> fs = Collection<String>::newInstance();
                ms->dflt = FS::SELECTOR_NO_LOAD;
                for (auto& nm : names) if (r.oneIn(2)) { fs.add(nm); ms->m[nm] = FS::SELECTOR_LOAD; }
                sel = newLucene<MapFieldSelector>(fs);
            } else { sel = newLucene<LoadFirstFieldSelector>(); ms->dflt = FS::SELECTOR_LOAD_AND_BREAK; }
            std::string want;
            for (auto& f : d.fields) {
                if (!f.stored) continue;
                FS::FieldSelectorResult a = ms->accept(f.name);
                if (a == FS::SELECTOR_LOAD || a == FS::SELECTOR_LAZY_LOAD || a == FS::SELECTOR_LOAD_AND_BREAK) want += u8(f.name) + (f.binary ? "#" + hex(f.bytes) : "=" + u8(f.value)) + ";";
                else if (a == FS::SELECTOR_SIZE || a == FS::SELECTOR_SIZE_AND_BREAK) want += u8(f.name) + "#" + hex(sizeBytes(f.binary ? (int)f.bytes.size() : 2 * (int)u8(f.value).size())) + ";";
                if (a == FS::SELECTOR_LOAD_AND_BREAK || a == FS::SELECTOR_SIZE_AND_BREAK) break;
            }
            DocumentPtr doc = rd->document(ids[j], sel);
            DocumentPtr other;
            if (r.oneIn(2)) other = rd->document(ids[(size_t)r.below(ids.size())]);  // lazy fields must not depend on what is read in between
            VF_EQ(storedLine(doc), want, k + ".stored", "uid " + std::to_string(d.uid));
            // the same again through the document's own accessors
            for (auto& nm : names) {
                std::vector<WS> vs;
                for (auto& f : d.fields) if (f.stored && !f.binary && f.name == nm) vs.push_back(f.value);
                if (q % 3 == 0) {
                    DocumentPtr full = rd->document(ids[j]);
                    Collection<String> got = full->getValues(nm);
                    VF_EQ(got ? got.size() : 0, (int)vs.size(), k + ".getValues", u8(nm));
                    for (size_t i = 0; i < vs.size(); ++i) VF_CHECK(got[(int32_t)i] == vs[i], k + ".getValues.value", u8(nm));
                    WS one = full->get(nm);
                    VF_CHECK(one == (vs.empty() ? WS() : vs[0]), k + ".get", u8(nm));
                }
            }
            ++n;
        }
        count("stored_checks", n);
    }

    void normsAndNames(const IndexReaderPtr& rd, const std::string& k) {
        std::vector<int> ids;
        for (int i = 0; i < rd->maxDoc(); ++i) if (!rd->isDeleted(i)) ids.push_back(i);
        std::set<WS> withNorms, indexed, unindexed, tv, all;
        for (auto& d : docs) for (auto& f : d.fields) {
            if (f.indexed) indexed.insert(f.name); else unindexed.insert(f.name);
            if (f.indexed && f.tv) tv.insert(f.name);
            all.insert(f.name);
        }
        if (!rd->hasDeletions()) {
            // names of fields, when no deleted document can contribute any
            auto names = [&](IndexReader::FieldOption op) { std::set<WS> s; HashSet<String> h = rd->getFieldNames(op); for (HashSet<String>::iterator i = h.begin(); i != h.end(); ++i) s.insert(*i); return s; };
            VF_CHECK(names(IndexReader::FIELD_OPTION_ALL) == all || keptAll, k + ".fieldNames.all", "");
            std::set<WS> ix = names(IndexReader::FIELD_OPTION_INDEXED), un = names(IndexReader::FIELD_OPTION_UNINDEXED), ntv = names(IndexReader::FIELD_OPTION_INDEXED_NO_TERMVECTOR);
            for (auto& s : indexed) VF_CHECK(ix.count(s), k + ".fieldNames.indexed", u8(s));
            for (auto& s : ntv) VF_CHECK(ix.count(s), k + ".fieldNames.noTermVector", u8(s));
            for (auto& s : unindexed) VF_CHECK(un.count(s) || indexed.count(s), k + ".fieldNames.unindexed", u8(s));
        }
        for (auto& kd : kinds) {
            if (!kd.indexed) continue;
            int off = (int)r.below(3);
            ByteArray b = ByteArray::newInstance(off + rd->maxDoc());
            MiscUtils::arrayFill(b.get(), 0, b.size(), 77);
            bool known = indexed.count(kd.name) > 0;
            if (!known) continue;
            rd->norms(kd.name, b, off);
            for (int i = 0; i < off; ++i) VF_EQ((int)b[i], 77, k + ".norms.offset", u8(kd.name));
            for (size_t j = 0; j < docs.size(); ++j) {
                Inverted inv = invert(docs[j], o);
                auto it = inv.fields.find(kd.name);
                int w = 124;
                if (it == inv.fields.end()) continue;
                if (!it->second.noNorms) w = encode315(it->second.boost / std::sqrt((double)it->second.length));
                VF_EQ((int)b[off + ids[j]], w, k + ".norms.bytes", u8(kd.name) + " uid " + std::to_string(docs[j].uid));
            }
            count("norms_checks");
        }
    }
    bool keptAll = false;

    void check(const IndexReaderPtr& rd, const std::string& k) {
        DumpStats st;
        Dump got = dumpReader(rd, k, &st);
        normalizeNoTF(got, noTF);
        Dump want = expectedDump(docs, o);
        normalizeNoTF(want, noTF);
        compareDumps(got, want, k, "");
        sig(dumpHash(got));
        count("content_checks");
        count("postings_checked", st.postings);
        count("terms_checked", st.terms);
        randomAccess(rd, k + ".access");
        vectors(rd, k + ".vectors");
        storedFields(rd, k + ".fields");
        normsAndNames(rd, k + ".meta");
    }

    void go() {
        schema();
        DirectoryPtr dir = makeDir(r, c);
        ModelAnalyzerPtr an = newLucene<ModelAnalyzer>(o.posGap, o.offGap);
        WriterCfg cfg = makeCfg(r, false);
        int n = (int)(r.oneIn(6) ? r.range(100, thorough() ? 1500 : 500) : r.range(1, 40));
        if (n > 60) { kinds.resize(std::min<size_t>(kinds.size(), 2)); cfg.maxBuffered = r.oneIn(2) ? -1 : (int)r.range(30, 300); }
        bool bigDocs = n < 8 && r.oneIn(2);
        c.log << cfg.str() << " docs=" << n << " fields=" << kinds.size() << " vocab=" << vocab.size() << "\n";
        IndexWriterPtr w = newLucene<IndexWriter>(dir, an, true, o.maxFieldLength == 0x7fffffff ? IndexWriter::MaxFieldLengthUNLIMITED : o.maxFieldLength);
        applyCfg(w, cfg);
        for (int i = 0; i < n; ++i) {
            DocM d = makeOne(i, bigDocs);
            w->addDocument(toDocument(d));
            docs.push_back(std::move(d));
            tick();
        }
        int del = r.oneIn(2) ? 0 : (int)r.below((uint64_t)n);
        for (int i = 0; i < del; ++i) {
            if (docs.size() <= 1) break;
            size_t j = (size_t)r.below(docs.size());
            w->deleteDocuments(T(L"uid", std::to_wstring(docs[j].uid)));
            docs.erase(docs.begin() + (long)j);
        }
        keptAll = del > 0;
        w->commit();
        c.log << "deleted " << del << "\n";
        IndexReaderPtr rd = IndexReader::open(dir, IndexDeletionPolicyPtr(), r.oneIn(2), (int)r.pick({1, 1, 1, 2, 5, 100}));
        check(rd, "inverted");
        rd->close();
        if (r.oneIn(2)) {
            if (r.oneIn(3)) { w->setUseCompoundFile(!cfg.compound); }
            w->optimize();
            c.log << "optimize\n";
            w->commit();
            count("optimized");
            rd = IndexReader::open(dir, r.oneIn(2));
            check(rd, "inverted.optimized");
            // loadable also as a plain segment reader
            rd->close();
        }
        w->close();
        checkIndexClean(dir, "inverted");
    }
};
}

VF_MODE(inverted) { Inv i(c); i.go(); if (wantSample()) sample(c.log.str()); }

VF_MAIN
