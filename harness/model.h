// Documents as plain values, an independent prediction of what an index of them holds, and a dump of what it does hold.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "verif.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
#include "PositionIncrementAttribute.h"
#include "PayloadAttribute.h"
#include "Payload.h"
#include "TermPositions.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
#include "SerialMergeScheduler.h"
#include "ConcurrentMergeScheduler.h"
#include "CheckIndex.h"
#include "_CheckIndex.h"
#include "FilterIndexReader.h"
#include "SnapshotDeletionPolicy.h"
#include "Similarity.h"
#include "SegmentReader.h"
#include "SegmentInfo.h"
#include <cmath>

namespace vf {
using namespace Lucene;
typedef std::wstring WS;

struct Tok {
    WS term;
    int inc = 1, start = 0, end = 0;
    bool hasPayload = false;
    std::string payload;
};

struct FieldM {
    WS name, value;
    bool stored = false, binary = false;
    std::string bytes;
    bool indexed = false, tokenized = false, noNorms = false, noTF = false;
    int tv = 0;  // 0 none, 1 terms, 2 +positions, 3 +offsets, 4 both
    double boost = 1.0;
    bool viaStream = false;  // tokens handed over as a ready-made stream
    std::vector<Tok> toks;
    int endOffset = 0;
};

struct DocM {
    int uid = 0;
    double boost = 1.0;
    std::vector<FieldM> fields;
    bool has(const WS& field, const WS& term) const {
        for (auto& f : fields)
            if (f.indexed && f.name == field)
                for (auto& t : f.toks) if (t.term == term) return true;
        return false;
    }
    WS stored(const WS& field) const {
        for (auto& f : fields) if (f.stored && !f.binary && f.name == field) return f.value;
        return L"";
    }
};

inline std::vector<Tok> splitSpaces(const WS& s) {
    std::vector<Tok> r;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] == L' ') ++i;
        size_t b = i;
        while (i < s.size() && s[i] != L' ') ++i;
        if (i > b) { Tok t; t.term = s.substr(b, i - b); t.start = (int)b; t.end = (int)i; r.push_back(t); }
    }
    return r;
}

// ---- feeding the library

class ModelStream : public TokenStream {
public:
    std::vector<Tok> toks;
    size_t pos = 0;
    int finalOffset = 0, throwAt = -1;
    TermAttributePtr term;
    OffsetAttributePtr off;
    PositionIncrementAttributePtr inc;
    PayloadAttributePtr pay;
    ModelStream(const std::vector<Tok>& t, int fo, int ta = -1) : toks(t), finalOffset(fo), throwAt(ta) {
        term = addAttribute<TermAttribute>();
        off = addAttribute<OffsetAttribute>();
        inc = addAttribute<PositionIncrementAttribute>();
        pay = addAttribute<PayloadAttribute>();
    }
    virtual ~ModelStream() {}
    LUCENE_CLASS(ModelStream);
    virtual bool incrementToken() {
        if ((int)pos == throwAt) boost::throw_exception(IOException(L"verif: token stream fails"));
        if (pos >= toks.size()) return false;
        clearAttributes();
        const Tok& t = toks[pos++];
        term->setTermBuffer(t.term);
        off->setOffset(t.start, t.end);
        inc->setPositionIncrement(t.inc);
        if (t.hasPayload) {
            ByteArray b = ByteArray::newInstance((int32_t)t.payload.size());
            if (!t.payload.empty()) memcpy(b.get(), t.payload.data(), t.payload.size());
            pay->setPayload(newLucene<Payload>(b));
        }
        return true;
    }
    virtual void end() { off->setOffset(finalOffset, finalOffset); }
    virtual void reset() { pos = 0; }
};
typedef boost::shared_ptr<ModelStream> ModelStreamPtr;

class ModelAnalyzer : public Analyzer {
public:
    int posGap = 0, offGap = 1;
    ModelAnalyzer(int pg = 0, int og = 1) : posGap(pg), offGap(og) {}
    virtual ~ModelAnalyzer() {}
    LUCENE_CLASS(ModelAnalyzer);
    virtual TokenStreamPtr tokenStream(const String& fieldName, const ReaderPtr& reader) { return newLucene<WhitespaceTokenizer>(reader); }
    virtual int32_t getPositionIncrementGap(const String& fieldName) { return posGap; }
    virtual int32_t getOffsetGap(const FieldablePtr& field) { return field->isTokenized() ? offGap : 0; }
};
typedef boost::shared_ptr<ModelAnalyzer> ModelAnalyzerPtr;

inline ByteArray bytesOf(const std::string& s) {
    ByteArray b = ByteArray::newInstance((int32_t)s.size());
    if (!s.empty()) memcpy(b.get(), s.data(), s.size());
    return b;
}

inline DocumentPtr toDocument(const DocM& d) {
    DocumentPtr doc = newLucene<Document>();
    doc->setBoost(d.boost);
    for (auto& f : d.fields) {
        FieldPtr fp;
        static const AbstractField::TermVector TV[] = {AbstractField::TERM_VECTOR_NO, AbstractField::TERM_VECTOR_YES, AbstractField::TERM_VECTOR_WITH_POSITIONS, AbstractField::TERM_VECTOR_WITH_OFFSETS, AbstractField::TERM_VECTOR_WITH_POSITIONS_OFFSETS};
        if (f.binary) {
            fp = newLucene<Field>(f.name, bytesOf(f.bytes), AbstractField::STORE_YES);
        } else if (f.indexed && f.viaStream && !f.stored) {
            TokenStreamPtr ts = newLucene<ModelStream>(f.toks, f.endOffset);
            fp = newLucene<Field>(f.name, ts, TV[f.tv]);
        } else {
            AbstractField::Index ix = !f.indexed ? AbstractField::INDEX_NO : f.tokenized ? (f.noNorms ? AbstractField::INDEX_ANALYZED_NO_NORMS : AbstractField::INDEX_ANALYZED) : (f.noNorms ? AbstractField::INDEX_NOT_ANALYZED_NO_NORMS : AbstractField::INDEX_NOT_ANALYZED);
            fp = newLucene<Field>(f.name, f.value, f.stored ? AbstractField::STORE_YES : AbstractField::STORE_NO, ix, f.indexed ? TV[f.tv] : TV[0]);
            if (f.indexed && f.viaStream) {
                TokenStreamPtr ts = newLucene<ModelStream>(f.toks, f.endOffset);
                fp->setTokenStream(ts);
            }
        }
        if (f.indexed) {
            if (f.noNorms) fp->setOmitNorms(true);
            if (f.noTF) fp->setOmitTermFreqAndPositions(true);
            fp->setBoost(f.boost);
        }
        doc->add(fp);
    }
    return doc;
}

// ---- canonical content: key -> value, comparable and printable

typedef std::map<std::string, std::string> Dump;

inline std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
inline double decode315(int b) {
    if (b == 0) return 0;
    uint32_t bits = ((uint32_t)b << 21) + ((63u - 15u) << 24);
    float f;
    memcpy(&f, &bits, 4);
    return f;
}
inline int encode315(double f) {
    if (!(f > 0)) return 0;
    int lo = 1;
    for (int b = 1; b < 256; ++b) if (decode315(b) <= f) lo = b;
    return lo;
}

struct ModelOpts {
    int posGap = 0, offGap = 1, maxFieldLength = 0x7fffffff, maxTerm = 16383;
};

// What the inverter makes of one document (the documented rules of positions, gaps, offsets and norms).
struct Inverted {
    struct Occ { int pos, start, end; bool hasPayload; std::string payload; };
    struct F { int length = 0, position = 0, offset = 0, overlap = 0, tv = 0; double boost = 1; bool noNorms = true, noTF = false, indexed = false; std::map<WS, std::vector<Occ>> terms; };
    std::map<WS, F> fields;
};
inline Inverted invert(const DocM& d, const ModelOpts& o) {
    Inverted r;
    for (auto& f : d.fields) {
        if (!f.indexed) continue;
        auto it = r.fields.find(f.name);
        if (it == r.fields.end()) { it = r.fields.insert({f.name, Inverted::F()}).first; it->second.boost = d.boost; }
        Inverted::F& s = it->second;
        s.indexed = true;
        s.noNorms = s.noNorms && f.noNorms;
        s.noTF = s.noTF || f.noTF;
        if (f.tv) s.tv |= f.tv == 1 ? 1 : f.tv == 2 ? 3 : f.tv == 3 ? 5 : 7;
        if (s.length > 0) s.position += o.posGap;
        bool any;
        if (!f.tokenized && !f.viaStream) {
            if ((int)f.value.size() <= o.maxTerm) s.terms[f.value].push_back({s.position, s.offset, s.offset + (int)f.value.size(), false, ""});
            s.offset += (int)f.value.size();
            ++s.length;
            ++s.position;
            any = !f.value.empty();
        } else {
            int startLen = s.length;
            bool cut = false;
            for (auto& t : f.toks) {
                s.position += t.inc;
                if (s.position > 0) --s.position;
                if (t.inc == 0) ++s.overlap;
                if ((int)t.term.size() <= o.maxTerm) s.terms[t.term].push_back({s.position, s.offset + t.start, s.offset + t.end, t.hasPayload && !t.payload.empty(), t.payload});
                ++s.position;
                if (++s.length >= o.maxFieldLength) { cut = true; break; }
            }
            (void)cut;
            s.offset += f.endOffset;
            any = s.length > startLen;
        }
        if (any) s.offset += (f.tokenized || f.viaStream) ? o.offGap : 0;
        s.boost *= f.boost;
    }
    return r;
}

inline std::string postKey(const WS& f, const WS& t) { return "post/" + u8(f) + "/" + u8(t); }

inline Dump expectedDump(const std::vector<const DocM*>& docs, const ModelOpts& o, const std::map<std::pair<int, WS>, int>* normOverride = nullptr) {
    Dump r;
    for (size_t n = 0; n < docs.size(); ++n) {
        const DocM& d = *docs[n];
        std::string st;
        for (auto& f : d.fields) if (f.stored) st += u8(f.name) + (f.binary ? "#" + hex(f.bytes) : "=" + u8(f.value)) + ";";
        r["doc/" + std::to_string(n)] = st;
        Inverted inv = invert(d, o);
        for (auto& kv : inv.fields) {
            const WS& fn = kv.first;
            auto& s = kv.second;
            if (!s.noNorms) {
                int b = encode315(s.boost / std::sqrt((double)s.length));
                if (normOverride) { auto it = normOverride->find({d.uid, fn}); if (it != normOverride->end()) b = it->second; }
                if (b != 124) r["norm/" + u8(fn) + "/" + std::to_string(n)] = std::to_string(b);
            }
            std::string tv;
            for (auto& te : s.terms) {
                std::string& p = r[postKey(fn, te.first)];
                p += std::to_string(n) + ":";
                if (s.noTF) p += "1";
                else {
                    p += std::to_string(te.second.size()) + "(";
                    for (auto& oc : te.second) p += std::to_string(oc.pos) + (oc.hasPayload ? "|" + hex(oc.payload) : "") + ",";
                    p += ")";
                }
                p += " ";
                if (s.tv) {
                    tv += u8(te.first) + ":" + std::to_string(te.second.size());
                    if (s.tv & 2) { tv += "["; for (auto& oc : te.second) tv += std::to_string(oc.pos) + ","; tv += "]"; }
                    if (s.tv & 4) { tv += "{"; for (auto& oc : te.second) tv += std::to_string(oc.start) + "-" + std::to_string(oc.end) + ","; tv += "}"; }
                    tv += " ";
                }
            }
            if (s.tv && !s.terms.empty()) r["tv/" + std::to_string(n) + "/" + u8(fn)] = tv;
        }
    }
    return r;
}
inline Dump expectedDump(const std::vector<DocM>& docs, const ModelOpts& o, const std::map<std::pair<int, WS>, int>* no = nullptr) {
    std::vector<const DocM*> p;
    for (auto& d : docs) p.push_back(&d);
    return expectedDump(p, o, no);
}

inline std::string storedLine(const DocumentPtr& doc) {
    std::string st;
    Collection<FieldablePtr> fs = doc->getFields();
    for (int32_t i = 0; i < fs.size(); ++i) {
        FieldablePtr f = fs[i];
        if (f->isBinary()) {
            ByteArray b = f->getBinaryValue();
            int off = f->getBinaryOffset(), len = f->getBinaryLength();
            st += u8(f->name()) + "#" + hex(std::string((char*)b.get() + off, (size_t)len)) + ";";
        } else st += u8(f->name()) + "=" + u8(f->stringValue()) + ";";
    }
    return st;
}

inline std::string tvLine(const TermFreqVectorPtr& v) {
    std::string tv;
    Collection<String> terms = v->getTerms();
    Collection<int32_t> freqs = v->getTermFrequencies();
    TermPositionVectorPtr pv = boost::dynamic_pointer_cast<TermPositionVector>(v);
    for (int32_t i = 0; i < terms.size(); ++i) {
        tv += u8(terms[i]) + ":" + std::to_string(freqs[i]);
        if (pv) {
            Collection<int32_t> p = pv->getTermPositions(i);
            if (p) { tv += "["; for (int32_t j = 0; j < p.size(); ++j) tv += std::to_string(p[j]) + ","; tv += "]"; }
            Collection<TermVectorOffsetInfoPtr> of = pv->getOffsets(i);
            if (of) { tv += "{"; for (int32_t j = 0; j < of.size(); ++j) tv += std::to_string(of[j]->getStartOffset()) + "-" + std::to_string(of[j]->getEndOffset()) + ","; tv += "}"; }
        }
        tv += " ";
    }
    return tv;
}

struct DumpStats { int64_t terms = 0, postings = 0, positions = 0, docs = 0; };

// Live documents are numbered 0.. in document order, so dumps compare across different segmentations.
inline Dump dumpReader(const IndexReaderPtr& r, const std::string& key, DumpStats* stats = nullptr, bool vectors = true) {
    Dump d;
    int maxDoc = r->maxDoc(), live = 0;
    std::vector<int> rank((size_t)maxDoc, -1);
    for (int i = 0; i < maxDoc; ++i) if (!r->isDeleted(i)) rank[(size_t)i] = live++;
    VF_EQ(r->numDocs(), live, key + ".numDocs", "");
    VF_EQ(r->numDeletedDocs(), maxDoc - live, key + ".numDeletedDocs", "");
    VF_EQ(r->hasDeletions(), live != maxDoc, key + ".hasDeletions", "");
    HashSet<String> names = r->getFieldNames(IndexReader::FIELD_OPTION_INDEXED);
    for (int i = 0; i < maxDoc; ++i) {
        int n = rank[(size_t)i];
        if (n < 0) continue;
        d["doc/" + std::to_string(n)] = storedLine(r->document(i));
        if (vectors) {
            Collection<TermFreqVectorPtr> vs = r->getTermFreqVectors(i);
            if (vs)
                for (int32_t k = 0; k < vs.size(); ++k)
                    if (vs[k] && vs[k]->size() > 0) d["tv/" + std::to_string(n) + "/" + u8(vs[k]->getField())] = tvLine(vs[k]);
        }
    }
    for (HashSet<String>::iterator f = names.begin(); f != names.end(); ++f) {
        if (!r->hasNorms(*f)) continue;
        ByteArray nb = r->norms(*f);
        if (!nb) continue;
        VF_CHECK(nb.size() >= maxDoc, key + ".norms.size", u8(*f));
        for (int i = 0; i < maxDoc; ++i)
            if (rank[(size_t)i] >= 0 && nb[i] != 124) d["norm/" + u8(*f) + "/" + std::to_string(rank[(size_t)i])] = std::to_string(nb[i]);
    }
    TermEnumPtr te = r->terms();
    TermPositionsPtr tp = r->termPositions();
    TermPtr prev;
    while (te->next()) {
        TermPtr t = te->term();
        if (prev) {
            bool inc = prev->field() < t->field() || (prev->field() == t->field() && prev->text() < t->text());
            VF_CHECK(inc, key + ".termOrder", u8(prev->toString()) + " then " + u8(t->toString()));
        }
        prev = t;
        int df = te->docFreq(), seen = 0;
        tp->seek(te);
        std::string p;
        int last = -1;
        while (tp->next()) {
            int doc = tp->doc();
            VF_CHECK(doc > last && doc < maxDoc, key + ".docOrder", fmt("%d after %d (maxDoc %d) ", doc, last, maxDoc) + u8(t->toString()));
            last = doc;
            ++seen;
            VF_CHECK(rank[(size_t)doc] >= 0, key + ".deletedInPostings", u8(t->toString()));
            int freq = tp->freq();
            p += std::to_string(rank[(size_t)doc]) + ":" + std::to_string(freq);
            std::string ps;
            bool real = true;
            int lastPos = -1;
            for (int k = 0; k < freq; ++k) {
                int pos = tp->nextPosition();
                VF_CHECK(pos >= lastPos, key + ".positionOrder", u8(t->toString()));
                lastPos = pos;
                ps += std::to_string(pos);
                if (tp->isPayloadAvailable()) {
                    int len = tp->getPayloadLength();
                    ByteArray b = tp->getPayload(ByteArray(), 0);
                    ps += "|" + hex(std::string((char*)b.get(), (size_t)len));
                }
                ps += ",";
            }
            p += "(" + ps + ") ";
            (void)real;
            if (stats) { ++stats->postings; stats->positions += freq; }
        }
        VF_CHECK(seen <= df, key + ".docFreq", fmt("docFreq %d but %d live docs ", df, seen) + u8(t->toString()));
        if (live == maxDoc) VF_CHECK(seen == df, key + ".docFreq", fmt("docFreq %d but %d docs, no deletions ", df, seen) + u8(t->toString()));
        if (seen) d[postKey(t->field(), t->text())] = p;
        if (stats) ++stats->terms;
    }
    te->close();
    tp->close();
    if (stats) stats->docs += live;
    return d;
}

// Fields that omit term frequencies have no positions; their dump shows freq 1 and position 0 from the reader.
inline void normalizeNoTF(Dump& d, const std::set<std::string>& noTF) {
    for (auto& kv : d) {
        if (kv.first.rfind("post/", 0) != 0) continue;
        std::string f = kv.first.substr(5, kv.first.find('/', 5) - 5);
        if (!noTF.count(f)) continue;
        std::string o, &v = kv.second;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i] == '(') { while (i < v.size() && v[i] != ')') ++i; continue; }
            o += v[i];
        }
        v = o;
    }
}

inline std::string diff(const Dump& got, const Dump& want) {
    std::string o;
    int n = 0;
    for (auto& kv : want) {
        auto it = got.find(kv.first);
        if (it == got.end()) { o += "missing " + kv.first + " = " + kv.second.substr(0, 300) + "\n"; ++n; }
        else if (it->second != kv.second) { o += "differs " + kv.first + ": got " + it->second.substr(0, 300) + " expected " + kv.second.substr(0, 300) + "\n"; ++n; }
        if (n > 5) return o;
    }
    for (auto& kv : got) if (!want.count(kv.first)) { o += "unexpected " + kv.first + " = " + kv.second.substr(0, 300) + "\n"; if (++n > 8) break; }
    return o;
}
inline std::string diffClass(const Dump& got, const Dump& want) {
    for (auto& kv : want) { auto it = got.find(kv.first); if (it == got.end() || it->second != kv.second) return kv.first.substr(0, kv.first.find('/')); }
    for (auto& kv : got) if (!want.count(kv.first)) return kv.first.substr(0, kv.first.find('/'));
    return "none";
}
inline void compareDumps(const Dump& got, const Dump& want, const std::string& key, const std::string& ctx) {
    if (got != want) fail(key + "." + diffClass(got, want), ctx + "\n" + diff(got, want));
}
inline uint64_t dumpHash(const Dump& d) { Hash h; for (auto& kv : d) h.add(kv.first).add(kv.second); return h.h; }

// ---- document generator

struct Schema {
    ModelOpts opts;
    std::vector<WS> vocab;
    bool bodyStored, bodyNoNorms, idNoNorms, usePayloads, useNoTF, useBinary, useTags, unicode, bigDocs, boosts;
    int titleTV, bodyTV;
    int idSpace;
    std::set<std::string> noTFNames;
};

inline WS randWord(Rng& r, bool unicode) {
    WS w;
    int n = (int)r.range(1, r.oneIn(12) ? 14 : 5);
    for (int i = 0; i < n; ++i) {
        if (unicode && r.oneIn(4)) {
            wchar_t c;
            do {
                switch (r.below(4)) {
                case 0: c = (wchar_t)r.range(0xa1, 0x24f); break;
                case 1: c = (wchar_t)r.range(0x370, 0x5ff); break;
                case 2: c = (wchar_t)r.range(0x4e00, 0x9fa5); break;
                default: c = (wchar_t)r.range(0x10300, 0x1f64f); break;
                }
            } while (c == 0x85 || c == 0xa0 || c == 0x1680);
            w += c;
        } else w += (wchar_t)(L'a' + r.below(r.oneIn(3) ? 26 : 4));
    }
    return w;
}

inline Schema makeSchema(Rng& r) {
    Schema s;
    s.opts.posGap = r.pick({0, 0, 1, 10, 100});
    s.opts.offGap = r.pick({1, 1, 0, 7});
    s.unicode = r.oneIn(2);
    int v = (int)r.pick({5, 20, 60, 200});
    std::set<WS> seen;
    while ((int)seen.size() < v) seen.insert(randWord(r, s.unicode));
    s.vocab.assign(seen.begin(), seen.end());
    r.shuffle(s.vocab);
    s.bodyStored = r.oneIn(2);
    s.bodyNoNorms = r.oneIn(4);
    s.idNoNorms = r.oneIn(2);
    s.usePayloads = r.oneIn(2);
    s.useNoTF = r.oneIn(2);
    s.useBinary = r.oneIn(2);
    s.useTags = r.oneIn(2);
    s.bigDocs = r.oneIn(6);
    s.boosts = r.oneIn(3);
    s.titleTV = (int)r.below(6);  // 5: varies by document
    s.bodyTV = r.oneIn(3) ? (int)r.below(5) : 0;
    s.idSpace = (int)r.pick({3, 8, 30, 100});
    s.noTFNames.insert("omit");
    return s;
}

inline WS idOf(int i) { return L"k" + std::to_wstring(i); }

inline DocM makeDoc(Rng& r, const Schema& s, int uid, int id) {
    DocM d;
    d.uid = uid;
    auto word = [&]() { return s.vocab[(size_t)(r.oneIn(2) ? r.below(std::min<size_t>(s.vocab.size(), 4)) : r.below(s.vocab.size()))]; };
    auto words = [&](int n) {
        WS t;
        for (int i = 0; i < n; ++i) { if (i) t += L' '; if (r.oneIn(10)) t += L' '; t += word(); }
        return t;
    };
    auto bst = [&]() { return s.boosts && r.oneIn(3) ? r.pick({0.5, 2.0, 3.25, 0.0078125, 100.0}) : 1.0; };
    if (s.boosts && r.oneIn(4)) d.boost = r.pick({0.25, 2.0, 7.5});
    {
        FieldM f; f.name = L"uid"; f.value = std::to_wstring(uid); f.stored = true; f.indexed = true; f.noNorms = true;
        Tok t; t.term = f.value; t.end = (int)f.value.size(); f.toks.push_back(t);
        d.fields.push_back(f);
    }
    {
        FieldM f; f.name = L"id"; f.value = idOf(id); f.stored = true; f.indexed = true; f.noNorms = s.idNoNorms;
        Tok t; t.term = f.value; t.end = (int)f.value.size(); f.toks.push_back(t);
        d.fields.push_back(f);
    }
    int nb = r.oneIn(8) ? 0 : (int)r.range(1, 2);
    for (int i = 0; i < nb; ++i) {
        FieldM f; f.name = L"body"; f.stored = s.bodyStored; f.indexed = f.tokenized = true; f.noNorms = s.bodyNoNorms; f.tv = s.bodyTV; f.boost = bst();
        f.value = words((int)(s.bigDocs ? r.skewed(400) : r.range(0, 12)) + (s.bodyNoNorms ? 0 : 1));
        f.toks = splitSpaces(f.value);
        f.endOffset = (int)f.value.size();
        d.fields.push_back(f);
    }
    if (!r.oneIn(3)) {
        FieldM f; f.name = L"title"; f.stored = true; f.indexed = f.tokenized = true; f.tv = s.titleTV == 5 ? (int)r.below(5) : s.titleTV; f.boost = bst();
        f.value = words((int)r.range(1, 5));
        f.toks = splitSpaces(f.value);
        f.endOffset = (int)f.value.size();
        d.fields.push_back(f);
    }
    if (s.useTags) {
        int n = (int)r.below(4);
        for (int i = 0; i < n; ++i) {
            FieldM f; f.name = L"tag"; f.stored = true; f.indexed = true; f.noNorms = true; f.tv = s.titleTV == 4 ? 4 : 0;
            f.value = word();
            Tok t; t.term = f.value; t.end = (int)f.value.size(); f.toks.push_back(t);
            d.fields.push_back(f);
        }
    }
    if (s.useNoTF && !r.oneIn(3)) {
        FieldM f; f.name = L"omit"; f.indexed = f.tokenized = true; f.noTF = true; f.stored = r.oneIn(2);
        f.value = words((int)r.range(1, 6));
        f.toks = splitSpaces(f.value);
        f.endOffset = (int)f.value.size();
        d.fields.push_back(f);
    }
    if (s.usePayloads && !r.oneIn(3)) {
        FieldM f; f.name = L"pay"; f.indexed = f.tokenized = true; f.viaStream = true; f.tv = s.titleTV % 5; f.boost = bst();
        int n = (int)r.range(1, 8), at = 0;
        for (int i = 0; i < n; ++i) {
            Tok t;
            t.term = word();
            t.inc = r.oneIn(4) ? 0 : r.oneIn(4) ? (int)r.range(2, 300) : 1;
            if (i == 0 && t.inc == 0) t.inc = 1;
            t.start = at;
            t.end = at + (int)t.term.size();
            at = t.end + (int)r.below(3);
            if (r.oneIn(2)) {
                t.hasPayload = true;
                int len = (int)r.pick({0, 1, 1, 3, 3, 20, 200});
                for (int k = 0; k < len; ++k) t.payload += (char)r.below(256);
            }
            f.toks.push_back(t);
        }
        f.endOffset = at;
        d.fields.push_back(f);
    }
    if (s.useBinary && r.oneIn(2)) {
        FieldM f; f.name = L"bin"; f.stored = f.binary = true;
        int len = (int)r.pick({1, 2, 17, 300});
        for (int k = 0; k < len; ++k) f.bytes += (char)r.below(256);
        d.fields.push_back(f);
    }
    return d;
}

inline TermPtr T(const WS& f, const WS& t) { return newLucene<Term>(f, t); }

inline Dump dumpFor(const IndexReaderPtr& r, const Schema& s, const std::string& key, DumpStats* st = nullptr) {
    Dump d = dumpReader(r, key, st);
    normalizeNoTF(d, s.noTFNames);
    return d;
}

// CheckIndex as a second, independent reader of everything on disk.
inline void checkIndexClean(const DirectoryPtr& dir, const std::string& key, const std::string& ctx = "") {
    CheckIndexPtr ci = newLucene<CheckIndex>(dir);
    IndexStatusPtr st = ci->checkIndex();
    if (!st->clean) {
        struct Text : public InfoStream {
            std::string s;
            InfoStream& operator<<(const String& t) override { s += StringUtils::toUTF8(t); return *this; }
        };
        boost::shared_ptr<Text> text = newLucene<Text>();
        ci->setInfoStream(text);
        try { ci->checkIndex(); } catch (LuceneException& e) { text->s += StringUtils::toUTF8(e.getError()); }
        try {
            SegmentInfosPtr sis = newLucene<SegmentInfos>();
            sis->read(dir);
            for (int i = 0; i < sis->size(); ++i) {
                try { SegmentReader::get(true, sis->info(i), 1)->close(); } catch (LuceneException& e) { text->s += "\n" + StringUtils::toUTF8(sis->info(i)->name) + ": " + StringUtils::toUTF8(e.getError()); }
            }
            HashSet<String> names = dir->listAll();
            for (HashSet<String>::iterator n = names.begin(); n != names.end(); ++n) text->s += fmt("\n%s %lld", StringUtils::toUTF8(*n).c_str(), (long long)dir->fileLength(*n));
        } catch (LuceneException& e) { text->s += StringUtils::toUTF8(e.getError()); }
        size_t at = text->s.find("FAILED");
        fail(key + ".checkindex", "CheckIndex reports the index as not clean " + ctx + (at == std::string::npos ? text->s : text->s.substr(at > 600 ? at - 600 : 0, 2500)));
    }
    count("checkindex_runs");
}

// ---- writer configuration

struct WriterCfg {
    int maxBuffered, mergeFactor, maxMergeDocs, maxDelTerms, termInterval, scheduler;
    double ramMB;
    bool compound, docPolicy;
    std::string str() const { return fmt("buf=%d ram=%.3f mf=%d mmd=%d deltT=%d ti=%d cfs=%d docp=%d sched=%d", maxBuffered, ramMB, mergeFactor, maxMergeDocs, maxDelTerms, termInterval, compound, docPolicy, scheduler); }
};
inline WriterCfg makeCfg(Rng& r, bool allowThreads = true) {
    WriterCfg c;
    c.maxBuffered = r.oneIn(5) ? -1 : (int)r.range(2, r.oneIn(2) ? 5 : 25);
    c.ramMB = c.maxBuffered < 0 ? (r.oneIn(2) ? 0.1 : 16.0) : (r.oneIn(3) ? 0.1 : 16.0);
    c.mergeFactor = (int)r.pick({2, 2, 3, 5, 10});
    c.maxMergeDocs = r.oneIn(5) ? (int)r.range(5, 60) : 0x7fffffff;
    c.maxDelTerms = r.oneIn(3) ? (int)r.range(1, 6) : -1;
    c.termInterval = (int)r.pick({1, 2, 3, 16, 128, 128});
    c.compound = r.oneIn(2);
    c.docPolicy = r.oneIn(2);
    c.scheduler = allowThreads && r.oneIn(4) ? 1 : 0;
    return c;
}
inline void applyCfg(const IndexWriterPtr& w, const WriterCfg& c) {
    if (c.docPolicy) w->setMergePolicy(newLucene<LogDocMergePolicy>(w));
    if (c.scheduler == 0) w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    else w->setMergeScheduler(newLucene<ConcurrentMergeScheduler>());
    w->setRAMBufferSizeMB(c.ramMB);
    w->setMaxBufferedDocs(c.maxBuffered < 0 ? IndexWriter::DISABLE_AUTO_FLUSH : c.maxBuffered);
    w->setMergeFactor(c.mergeFactor);
    w->setMaxMergeDocs(c.maxMergeDocs);
    w->setMaxBufferedDeleteTerms(c.maxDelTerms < 0 ? IndexWriter::DISABLE_AUTO_FLUSH : c.maxDelTerms);
    w->setTermIndexInterval(c.termInterval);
    w->setUseCompoundFile(c.compound);
}

inline DirectoryPtr makeDir(Rng& r, Case& c, int* kindOut = nullptr, int kind = -1) {
    if (kind < 0) kind = (int)r.pick({0, 0, 0, 1, 2});
    if (kindOut) *kindOut = kind;
    if (kind == 0) return newLucene<RAMDirectory>();
    std::string p = c.freshDir();
    if (kind == 1) return newLucene<SimpleFSDirectory>(ws(p));
    return newLucene<MMapDirectory>(ws(p));
}
}
#endif
