// Directories and their files against plain byte arrays (C11); encodings and text conversions (C12).
#include "verif.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "FileSwitchDirectory.h"
#include "BufferedIndexInput.h"
#include "CompoundFileReader.h"
#include "CompoundFileWriter.h"
#include "ChecksumIndexInput.h"
#include "ChecksumIndexOutput.h"
#include "UTF8Stream.h"
#include "UnicodeUtils.h"
#include "StringUtils.h"
#include "FileUtils.h"
#include "FileReader.h"
#include "StringReader.h"
#include "BufferedReader.h"
#include "InputStreamReader.h"
#include "CompressionTools.h"
#include "NumberTools.h"
#include "DateField.h"
#include "Base64.h"
#include "SmallDouble.h"
#include "MiscUtils.h"
#include "BitVector.h"
#include "CharFolder.h"
#include <zlib.h>
using namespace vf;
using namespace Lucene;
typedef std::vector<uint8_t> Bytes;
typedef std::wstring WS;
typedef std::shared_ptr<const Bytes> BytesP;

template <class F> static void expectIO(F f, const std::string& key, const std::string& ctx) {
    bool threw = false;
    try {
        f();
    } catch (IOException&) {
        threw = true;
    } catch (LuceneException& e) {
        fail(key + ".type", "raised " + u8(e.getError()) + " which is no IOException: " + ctx);
    }
    VF_CHECK(threw, key, "no IOException: " + ctx);
    count("refusals");
}

static Bytes randomBytes(Rng& r, size_t n) {
    Bytes b(n);
    for (size_t i = 0; i < n; i += 8) { uint64_t x = r.next(); for (size_t j = i; j < n && j < i + 8; ++j) b[j] = (uint8_t)(x >> (8 * (j - i))); }
    return b;
}
static size_t someSize(Rng& r) {
    switch (r.below(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (size_t)(r.pick({1024, 2048, 3072, 4096, 16384}) + r.range(-2, 2));
    case 3: return (size_t)r.range(10000, 50000);
    case 4: return (size_t)r.range(1000, 5000);
    default: return (size_t)r.range(2, 300);
    }
}

namespace {
struct DirWorld {
    Case& c;
    Rng& r;
    DirectoryPtr dir;
    std::string kind, K;
    RAMDirectoryPtr ram;
    bool isMMap = false;
    std::map<WS, BytesP> disk;
    struct Out { WS name; IndexOutputPtr out; Bytes content; int64_t pos = 0; };
    struct In { WS name; IndexInputPtr in; BytesP content; int64_t pos = 0; bool compound = false; bool dead = false; DirectoryPtr keep; bool orig = true; };
    std::vector<Out> outs;
    std::vector<In> ins;
    std::vector<WS> names;

    explicit DirWorld(Case& cs) : c(cs), r(cs.rng) {
        kind = r.pick({"ram", "fs", "mmap", "switch-ram-fs", "switch-fs-mmap", "copied-ram"});
        std::string p = c.freshDir("fs"), p2 = c.freshDir("fs2");
        WS wp = ws(p);
        if (r.oneIn(4)) wp += L"/k ey";
        if (kind == "ram" || kind == "copied-ram") dir = ram = newLucene<RAMDirectory>();
        else if (kind == "fs") dir = newLucene<SimpleFSDirectory>(wp);
        else if (kind == "mmap") { dir = newLucene<MMapDirectory>(wp); isMMap = true; }
        else {
            HashSet<String> ext = HashSet<String>::newInstance();
            ext.add(L"fdt"); ext.add(L"tis");
            DirectoryPtr a = kind == "switch-ram-fs" ? DirectoryPtr(newLucene<RAMDirectory>()) : DirectoryPtr(newLucene<SimpleFSDirectory>(wp));
            DirectoryPtr b = kind == "switch-ram-fs" ? DirectoryPtr(newLucene<SimpleFSDirectory>(wp)) : DirectoryPtr(newLucene<MMapDirectory>(ws(p2)));
            if (a->getLockID().empty() || b->getLockID().empty()) fail("dirs.lockid", "empty lock id");
            // nothing is listed before the directory exists
            { IndexOutputPtr o = a->createOutput(L"x"); o->close(); a->deleteFile(L"x"); o = b->createOutput(L"x"); o->close(); b->deleteFile(L"x"); }
            dir = newLucene<FileSwitchDirectory>(ext, a, b, true);
        }
        K = "dirs";
        say("directory " + kind);
        names = {L"a.fdt", L"b.tis", L"c.frq", L"_1.prx", L"segments", L"d", L"segments.gen", L"e.x.fdt"};
        if (kind == "fs" || kind == "mmap") { IndexOutputPtr o = dir->createOutput(L"first"); o->close(); dir->deleteFile(L"first"); }
    }
    void say(const std::string& s) { c.log << s << "\n"; }
    bool writing(const WS& n) { for (auto& o : outs) if (o.name == n) return true; return false; }
    std::string ctx(const WS& n) { return kind + " " + u8(n); }

    void create() {
        WS n = r.pick(names);
        if (writing(n) || outs.size() > 3) return;
        Out o;
        o.name = n;
        o.out = dir->createOutput(n);
        say("create " + u8(n));
        VF_EQ(o.out->getFilePointer(), (int64_t)0, K + ".newOutput", ctx(n));
        disk.erase(n);
        outs.push_back(o);
        count("creates");
    }
    void put(Out& o, const Bytes& b) {
        if ((size_t)o.pos + b.size() > o.content.size()) o.content.resize((size_t)o.pos + b.size());
        std::copy(b.begin(), b.end(), o.content.begin() + (long)o.pos);
        o.pos += (int64_t)b.size();
    }
    void write() {
        if (outs.empty()) return create();
        Out& o = outs[r.below(outs.size())];
        int k = (int)r.below(10);
        if (k < 2) {
            int n = (int)r.range(1, 40);
            Bytes b = randomBytes(r, (size_t)n);
            for (auto x : b) o.out->writeByte(x);
            put(o, b);
        } else if (k < 6) {
            Bytes b = randomBytes(r, someSize(r));
            int off = (int)r.below(std::min<size_t>(b.size() + 1, 5));
            o.out->writeBytes(b.data(), off, (int32_t)b.size() - off);
            put(o, Bytes(b.begin() + off, b.end()));
        } else if (k < 7) {
            int32_t v = (int32_t)r.next();
            o.out->writeInt(v);
            uint32_t u = (uint32_t)v;
            put(o, {(uint8_t)(u >> 24), (uint8_t)(u >> 16), (uint8_t)(u >> 8), (uint8_t)u});
        } else if (k < 8 && !o.content.empty()) {
            int64_t p = r.oneIn(3) ? (int64_t)o.content.size() : r.range(0, (int64_t)o.content.size());
            o.out->seek(p);
            o.pos = p;
            count("output_seeks");
        } else if (k < 9) {
            o.out->flush();
            VF_EQ(o.out->length(), (int64_t)o.content.size(), K + ".flushedLength", ctx(o.name));
        } else if (!ins.empty()) {
            In& i = ins[r.below(ins.size())];
            if (i.dead) return;
            int64_t left = (int64_t)i.content->size() - i.pos;
            int64_t n = r.range(0, left);
            o.out->copyBytes(i.in, n);
            put(o, Bytes(i.content->begin() + i.pos, i.content->begin() + i.pos + n));
            i.pos += n;
            VF_EQ(i.in->getFilePointer(), i.pos, K + ".copyBytes.source", ctx(i.name));
            count("copy_bytes");
        }
        VF_EQ(o.out->getFilePointer(), o.pos, K + ".outputPointer", ctx(o.name));
        count("writes");
        tick();
    }
    void closeOut(size_t i) {
        Out o = outs[i];
        outs.erase(outs.begin() + (long)i);
        o.out->close();
        if (r.oneIn(8)) o.out->close();
        disk[o.name] = std::make_shared<Bytes>(o.content);
        say(fmt("close %s at %zu bytes", u8(o.name).c_str(), o.content.size()));
        VF_EQ(dir->fileLength(o.name), (int64_t)o.content.size(), K + ".fileLength", ctx(o.name));
        if (r.oneIn(3)) dir->sync(o.name);
        count("closes");
        if (r.oneIn(3)) { In in; in.name = o.name; in.in = open(o.name); in.content = disk[o.name]; readAll(in); in.in->close(); }
    }
    IndexInputPtr open(const WS& n) {
        count("opens");
        if (r.oneIn(3)) return dir->openInput(n);
        return dir->openInput(n, (int)r.pick({1, 2, 7, 16, 100, 1023, 1024, 4096, 70000}));
    }
    void readAll(In& i) {
        VF_EQ(i.in->length(), (int64_t)i.content->size(), K + ".inputLength", ctx(i.name));
        i.in->seek(0);
        Bytes b(i.content->size() + 1);
        i.in->readBytes(b.data(), 0, (int32_t)i.content->size());
        b.pop_back();
        VF_CHECK(b == *i.content, K + ".content", ctx(i.name));
        expectIO([&]() { i.in->readByte(); }, K + ".pastEnd", ctx(i.name) + " after reading all");
        i.in->seek(i.pos);
        count("full_reads");
    }
    void openIn() {
        if (disk.empty() || ins.size() > 6) return;
        auto it = disk.begin();
        std::advance(it, (long)r.below(disk.size()));
        In i;
        i.name = it->first;
        i.in = open(i.name);
        i.content = it->second;
        VF_EQ(i.in->getFilePointer(), (int64_t)0, K + ".newInput", ctx(i.name));
        VF_EQ(i.in->length(), (int64_t)i.content->size(), K + ".inputLength", ctx(i.name));
        ins.push_back(i);
    }
    void read() {
        if (ins.empty()) return openIn();
        In& i = ins[r.below(ins.size())];
        int64_t len = (int64_t)i.content->size(), left = len - i.pos;
        std::string cx = ctx(i.name) + fmt(" at %lld of %lld%s", (long long)i.pos, (long long)len, i.compound ? " in a compound file" : "");
        int k = (int)r.below(12);
        if (k < 3) {
            int n = (int)r.range(1, 30);
            while (n-- > 0 && i.pos < len) { uint8_t b = i.in->readByte(); VF_CHECK(b == (*i.content)[(size_t)i.pos], K + ".readByte", cx); ++i.pos; }
        } else if (k < 6) {
            int64_t n = r.oneIn(4) ? left : std::min<int64_t>(left, (int64_t)someSize(r));
            Bytes b((size_t)n + 8, 0xa5);
            int off = (int)r.below(4);
            if (r.oneIn(3)) i.in->readBytes(b.data(), off, (int32_t)n, r.oneIn(2));
            else i.in->readBytes(b.data(), off, (int32_t)n);
            VF_CHECK(std::equal(b.begin() + off, b.begin() + off + n, i.content->begin() + i.pos), K + ".readBytes", cx + fmt(" %lld bytes", (long long)n));
            for (int j = 0; j < off; ++j) VF_CHECK(b[(size_t)j] == 0xa5, K + ".readBytes.outside", cx);
            for (size_t j = (size_t)off + (size_t)n; j < b.size(); ++j) VF_CHECK(b[j] == 0xa5, K + ".readBytes.outside", cx);
            i.pos += n;
        } else if (k < 9) {
            int64_t p = r.oneIn(6) ? len : r.range(0, len);
            if (r.oneIn(3)) p = std::min<int64_t>(len, std::max<int64_t>(0, i.pos + r.range(-40, 40)));
            i.in->seek(p);
            i.pos = p;
            count("seeks");
        } else if (k < 10) {
            // past the end
            int64_t n = left + r.range(1, 5000);
            Bytes b((size_t)n);
            if (r.oneIn(3) && left == 0) expectIO([&]() { i.in->readByte(); }, K + ".pastEnd", cx);
            else expectIO([&]() { i.in->readBytes(b.data(), 0, (int32_t)n); }, K + ".pastEnd", cx + fmt(" reading %lld", (long long)n));
            i.in->seek(i.pos);
        } else if (k < 11) {
            if (ins.size() > 8) return;
            In n = i;
            n.in = boost::dynamic_pointer_cast<IndexInput>(i.in->clone());
            VF_CHECK(n.in && n.in != i.in, K + ".clone", cx);
            n.orig = false;
            VF_EQ(n.in->getFilePointer(), i.pos, K + ".clonePointer", cx);
            VF_EQ(n.in->length(), len, K + ".cloneLength", cx);
            ins.push_back(n);
            count("clones");
        } else {
            BufferedIndexInputPtr bi = boost::dynamic_pointer_cast<BufferedIndexInput>(i.in);
            if (bi) { bi->setBufferSize((int)r.pick({1, 3, 8, 64, 1000, 1024, 2048, 9000})); count("buffer_sizes"); }
        }
        In& j = ins.back();
        VF_EQ(j.in->getFilePointer(), j.pos, K + ".inputPointer", ctx(j.name));
        count("reads");
        tick();
    }
    void closeIn() {
        if (ins.empty()) return;
        size_t k = r.below(ins.size());
        In i = ins[k];
        // an input is closed before its clones only in a documented way: never here
        if (i.orig) {
            for (auto& o : ins) if (&o != &ins[k] && !o.orig && o.content == i.content) return;
        }
        ins.erase(ins.begin() + (long)k);
        i.in->close();
    }
    void remove() {
        WS n = r.pick(names);
        if (writing(n)) return;
        if (disk.count(n)) {
            dir->deleteFile(n);
            disk.erase(n);
            say("delete " + u8(n));
            VF_CHECK(!dir->fileExists(n), K + ".deleted", ctx(n));
            count("deletes");
        } else {
            expectIO([&]() { dir->deleteFile(n); }, K + ".deleteMissing", ctx(n));
            VF_CHECK(!dir->fileExists(n), K + ".deleteMissing", ctx(n));
        }
    }
    void missing() {
        WS n = r.oneIn(2) ? WS(L"nothere.tis") : r.pick(names);
        if (disk.count(n) || writing(n)) return;
        expectIO([&]() { open(n); }, K + ".openMissing", ctx(n));
        VF_CHECK(!dir->fileExists(n), K + ".openMissing.created", ctx(n));
    }
    void listing() {
        std::set<WS> want, got;
        for (auto& d : disk) want.insert(d.first);
        for (auto& o : outs) want.insert(o.name);
        HashSet<String> l = dir->listAll();
        for (auto& x : l) got.insert(x);
        std::string g, w;
        for (auto& x : got) g += u8(x) + " ";
        for (auto& x : want) w += u8(x) + " ";
        VF_CHECK(got == want && l.size() == (int)want.size(), K + ".listing", kind + " got " + g + " expected " + w);
        for (auto& n : names) VF_EQ(dir->fileExists(n), want.count(n) > 0, K + ".exists", ctx(n));
        for (auto& d : disk) VF_EQ(dir->fileLength(d.first), (int64_t)d.second->size(), K + ".fileLength", ctx(d.first));
        if (ram && outs.empty()) {
            int64_t sum = 0;
            for (auto& d : disk) sum += (int64_t)d.second->size();
            VF_CHECK(ram->sizeInBytes() >= sum && ram->sizeInBytes() <= sum + (int64_t)disk.size() * 2048, K + ".sizeInBytes", fmt("%lld for %lld bytes in %zu files", (long long)ram->sizeInBytes(), (long long)sum, disk.size()));
        }
        count("listings");
    }
    void touch() {
        if (disk.empty()) return;
        auto it = disk.begin();
        std::advance(it, (long)r.below(disk.size()));
        uint64_t a = dir->fileModified(it->first);
        dir->touchFile(it->first);
        uint64_t b = dir->fileModified(it->first);
        VF_CHECK(b + 86400000 >= a && a > 0, K + ".touch", fmt("%llu then %llu ", (unsigned long long)a, (unsigned long long)b) + ctx(it->first));
        In in;
        in.name = it->first;
        in.in = open(in.name);
        in.content = it->second;
        readAll(in);
        in.in->close();
    }
    // an input sees the file as long as it was when the input was opened
    void growing() {
        IndexOutputPtr o = dir->createOutput(L"grow.fdt");
        Bytes a = randomBytes(r, someSize(r)), b = randomBytes(r, 1 + someSize(r));
        o->writeBytes(a.data(), (int32_t)a.size());
        o->flush();
        {
            In in;
            in.name = L"grow.fdt";
            in.in = open(in.name);
            in.content = std::make_shared<Bytes>(a);
            bool early = r.oneIn(2);
            if (early) o->writeBytes(b.data(), (int32_t)b.size());
            if (early && r.oneIn(2)) o->flush();
            readAll(in);
            if (!early) { o->writeBytes(b.data(), (int32_t)b.size()); o->flush(); readAll(in); }
            In cl = in;
            cl.in = boost::dynamic_pointer_cast<IndexInput>(in.in->clone());
            readAll(cl);
            in.in->close();
        }
        o->close();
        a.insert(a.end(), b.begin(), b.end());
        {
            In in;
            in.name = L"grow.fdt";
            in.in = open(in.name);
            in.content = std::make_shared<Bytes>(a);
            readAll(in);
            in.in->close();
        }
        dir->deleteFile(L"grow.fdt");
        count("growing_files");
    }
    void compound() {
        if (disk.size() < 2) return;
        WS cn = L"comp" + std::to_wstring(c.dirs) + std::to_wstring(r.below(100000)) + L".tis";
        std::vector<WS> in;
        for (auto& d : disk) if (r.oneIn(2)) in.push_back(d.first);
        if (in.empty()) in.push_back(disk.begin()->first);
        r.shuffle(in);
        CompoundFileWriterPtr w = newLucene<CompoundFileWriter>(dir, cn);
        for (auto& n : in) w->addFile(n);
        w->close();
        CompoundFileReaderPtr cr = r.oneIn(2) ? newLucene<CompoundFileReader>(dir, cn) : newLucene<CompoundFileReader>(dir, cn, (int)r.pick({1, 10, 1024, 5000}));
        HashSet<String> l = cr->listAll();
        VF_EQ((size_t)l.size(), in.size(), K + ".compound.listing", kind);
        for (auto& n : in) {
            VF_CHECK(l.contains(n) && cr->fileExists(n), K + ".compound.listing", ctx(n));
            VF_EQ(cr->fileLength(n), (int64_t)disk[n]->size(), K + ".compound.length", ctx(n));
        }
        expectIO([&]() { cr->openInput(L"nothere"); }, K + ".compound.openMissing", kind);
        VF_CHECK(!cr->fileExists(L"nothere"), K + ".compound.exists", kind);
        for (auto& n : in) {
            In i;
            i.name = n;
            i.in = r.oneIn(2) ? cr->openInput(n) : cr->openInput(n, (int)r.pick({1, 5, 300, 4096}));
            i.content = disk[n];
            i.compound = true;
            i.keep = cr;
            readAll(i);
            if (ins.size() < 9) ins.push_back(i);
        }
        // the file behind it may go while it is open
        dir->deleteFile(cn);
        count("compound_files");
    }
    void copyAll() {
        if (!outs.empty()) return;
        RAMDirectoryPtr d2 = newLucene<RAMDirectory>();
        Directory::copy(dir, d2, false);
        HashSet<String> l = d2->listAll();
        // only index files are copied
        for (auto& d : disk) {
            if (!l.contains(d.first)) { VF_CHECK(d.first == L"d" || d.first == L"e.x.fdt" || d.first == L"c.frq" || d.first == L"a.fdt" || d.first == L"b.tis", K + ".copy.missing", ctx(d.first)); continue; }
            IndexInputPtr i = d2->openInput(d.first);
            VF_EQ(i->length(), (int64_t)d.second->size(), K + ".copy.length", ctx(d.first));
            Bytes b(d.second->size() + 1);
            i->readBytes(b.data(), 0, (int32_t)d.second->size());
            b.pop_back();
            VF_CHECK(b == *d.second, K + ".copy.content", ctx(d.first));
            count("copied_files");
        }
        for (auto& x : l) VF_CHECK(disk.count(x), K + ".copy.extra", ctx(x));
    }
    void step() {
        switch (r.below(30)) {
        case 0: case 1: return create();
        case 2: case 3: case 4: case 5: case 6: case 7: return write();
        case 8: case 9: if (!outs.empty()) closeOut(r.below(outs.size())); return;
        case 10: case 11: case 12: return openIn();
        case 13: return closeIn();
        case 14: return remove();
        case 15: return missing();
        case 16: return listing();
        case 17: if (r.oneIn(4)) touch(); return;
        case 18: if (r.oneIn(3)) compound(); return;
        case 19: if (r.oneIn(6)) copyAll(); return;
        case 20: if (r.oneIn(3)) growing(); return;
        default: return read();
        }
    }
    void finish() {
        while (!outs.empty()) closeOut(0);
        listing();
        for (auto& i : ins) readAll(i);
        for (size_t pass = 0; pass < 2; ++pass)
            for (auto& i : ins) if (i.orig == (pass == 1)) i.in->close();
        ins.clear();
        copyAll();
        Hash h;
        h.add(kind);
        for (auto& d : disk) h.add(d.first).add(d.second->data(), d.second->size());
        sig(h.h);
        if (wantSample()) sample(c.log.str());
        for (auto& d : disk) dir->deleteFile(d.first);
        VF_EQ(dir->listAll().size(), 0, K + ".listing", "everything deleted");
        if (ram) VF_EQ(ram->sizeInBytes(), (int64_t)0, K + ".sizeInBytes", "everything deleted");
        dir->close();
    }
};
}

VF_MODE(dirs) {
    DirWorld w(c);
    int n = (int)c.rng.range(60, 400);
    for (int i = 0; i < n; ++i) w.step();
    w.finish();
}

// ---------------------------------------------------------------- encodings

static const uint32_t REPLACEMENT = 0xfffd;
static bool validCp(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
static std::string enc(uint32_t c) { return u8(WS(1, (wchar_t)(validCp(c) ? c : REPLACEMENT))); }
static std::string enc(const WS& s) { std::string o; for (wchar_t x : s) o += enc((uint32_t)x); return o; }
static WS clean(const WS& s) { WS o; for (wchar_t x : s) o += (wchar_t)(validCp((uint32_t)x) ? (uint32_t)x : REPLACEMENT); return o; }

static uint32_t someCp(Rng& r, bool valid) {
    for (;;) {
        uint32_t c;
        switch (r.below(12)) {
        case 0: c = (uint32_t)r.below(32); break;
        case 1: c = (uint32_t)r.range(0x7e, 0x82); break;
        case 2: c = (uint32_t)r.range(0x7fe, 0x802); break;
        case 3: c = (uint32_t)r.range(0xfff0, 0x10005); break;
        case 4: c = (uint32_t)r.range(0x10fff0, 0x10ffff); break;
        case 5: c = (uint32_t)r.below(0x110000); break;
        case 6: c = (uint32_t)r.range(0xd7fe, 0xe002); break;
        case 7: c = (uint32_t)r.pick({0x1ffff, 0x1fffd, 0xfffd, 0x2fffe, 0xdbff, 0xdfff, 0xd800, 0xdc00}); break;
        case 8: c = valid ? 'x' : (uint32_t)r.pick({0x110000, 0x7ffffffe, 0x200000, 0xdc01, 0xd801}); break;
        default: c = (uint32_t)r.range(32, 126);
        }
        if (!valid || validCp(c)) return c;
    }
}
static WS someText(Rng& r, bool valid, size_t max = 60) {
    WS s;
    size_t n = (size_t)r.skewed((int64_t)max);
    bool plain = r.oneIn(3);
    for (size_t i = 0; i < n; ++i) s += (wchar_t)(plain ? (uint32_t)r.range(32, 126) : someCp(r, valid));
    return s;
}
static std::string show(const WS& s) { std::string o; for (wchar_t c : s) o += fmt(c >= 32 && c < 127 ? "%c" : "\\x{%x}", (unsigned)c); return o; }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s) o += fmt("%02x ", c); return o; }

// typed values written through the stream classes, checked byte by byte and read back
static void typed(Case& c) {
    Rng& r = c.rng;
    const std::string K = "encodings.typed";
    DirectoryPtr dir;
    switch (r.below(3)) {
    case 0: dir = newLucene<RAMDirectory>(); break;
    case 1: dir = newLucene<SimpleFSDirectory>(ws(c.freshDir("t"))); break;
    default: dir = newLucene<MMapDirectory>(ws(c.freshDir("t")));
    }
    struct Item { int kind; int64_t v; WS s; std::map<WS, WS> m; };
    std::vector<Item> items;
    std::string bytes;
    IndexOutputPtr raw = dir->createOutput(L"f"), out = raw;
    ChecksumIndexOutputPtr sum;
    if (r.oneIn(2)) out = sum = newLucene<ChecksumIndexOutput>(raw);
    int n = (int)r.range(1, 400);
    auto vint = [&](uint64_t v) { std::string o; while (v >= 128) { o += (char)((v & 127) | 128); v >>= 7; } o += (char)v; return o; };
    auto be = [&](uint64_t v, int k) { std::string o; for (int i = k - 1; i >= 0; --i) o += (char)(v >> (8 * i)); return o; };
    for (int i = 0; i < n; ++i) {
        Item it;
        it.kind = (int)r.below(9);
        int bits = (int)r.range(0, 64);
        it.v = (int64_t)(bits == 64 ? r.next() : r.next() & ((1ull << bits) - 1));
        if (r.oneIn(6)) it.v = r.pick({(int64_t)0, (int64_t)127, (int64_t)128, (int64_t)16383, (int64_t)16384, (int64_t)INT32_MAX, (int64_t)INT32_MIN, INT64_MAX, INT64_MIN, (int64_t)-1});
        if (it.kind < 2) it.v &= 0xff;
        if (it.kind == 1) { out->writeByte((uint8_t)it.v); bytes += (char)it.v; }
        else if (it.kind == 0) { out->writeByte((uint8_t)it.v); bytes += (char)it.v; }
        else if (it.kind == 2) { it.v = (int32_t)it.v; out->writeInt((int32_t)it.v); bytes += be((uint64_t)it.v, 4); }
        else if (it.kind == 3) { out->writeLong(it.v); bytes += be((uint64_t)it.v, 8); }
        else if (it.kind == 4) { it.v = (int32_t)it.v; out->writeVInt((int32_t)it.v); bytes += vint((uint32_t)(int32_t)it.v); }
        else if (it.kind == 5) { out->writeVLong(it.v); bytes += vint((uint64_t)it.v); }
        else if (it.kind == 6) { it.s = someText(r, false, 200); out->writeString(it.s); std::string e = enc(it.s); bytes += vint(e.size()) + e; }
        else if (it.kind == 7) {
            // modified UTF-8 of old indexes, characters of the basic plane
            WS t = someText(r, true, 60);
            for (wchar_t x : t) if (x < 0x10000) it.s += x;
            out->writeVInt((int32_t)it.s.size());
            out->writeChars(it.s, 0, (int32_t)it.s.size());
            std::string e;
            for (wchar_t x : it.s) { if (x == 0) { e += (char)0xc0; e += (char)0x80; } else e += enc((uint32_t)x); }
            bytes += vint(it.s.size()) + e;
        } else {
            MapStringString m = MapStringString::newInstance();
            int k = (int)r.below(5);
            for (int j = 0; j < k; ++j) { WS a = someText(r, true, 20), b = someText(r, true, 20); it.m[a] = b; m.put(a, b); }
            bool none = k == 0 && r.oneIn(2);
            out->writeStringStringMap(none ? MapStringString() : m);
            bytes += std::string();  // its order is that of a hash table: compared by reading
            std::string e = be((uint64_t)it.m.size(), 4);
            // the order in the file is that of the table itself
            for (MapStringString::iterator x = m.begin(); x != m.end(); ++x) { std::string a = enc(x->first), b = enc(x->second); e += vint(a.size()) + a + vint(b.size()) + b; }
            bytes += e;
        }
        items.push_back(it);
    }
    VF_EQ(out->getFilePointer(), (int64_t)bytes.size(), K + ".pointer", "");
    uint32_t crc = (uint32_t)crc32(0, (const Bytef*)bytes.data(), (uInt)bytes.size());
    if (sum) {
        VF_EQ(sum->getChecksum(), (int64_t)crc, K + ".checksum", "written");
        sum->prepareCommit();
        {
            // not readable as committed before the end
            IndexInputPtr p = dir->openInput(L"f");
            p->seek((int64_t)bytes.size());
            VF_CHECK(p->readLong() != (int64_t)crc, K + ".prepared", "the prepared checksum is already right");
            p->close();
        }
        sum->finishCommit();
    }
    out->close();
    IndexInputPtr in = dir->openInput(L"f", (int)r.pick({1, 2, 3, 5, 10, 1024}));
    ChecksumIndexInputPtr csum;
    if (r.oneIn(2)) in = csum = newLucene<ChecksumIndexInput>(in);
    VF_EQ(in->length(), (int64_t)bytes.size() + (sum ? 8 : 0), K + ".length", "");
    {
        IndexInputPtr p = dir->openInput(L"f");
        std::string got(bytes.size(), 0);
        p->readBytes((uint8_t*)got.data(), 0, (int32_t)got.size());
        VF_CHECK(got == bytes, K + ".format", "the bytes in the file are not those of the documented format");
        p->close();
    }
    for (size_t i = 0; i < items.size(); ++i) {
        Item& it = items[i];
        std::string cx = fmt("item %zu kind %d value %lld ", i, it.kind, (long long)it.v) + show(it.s);
        if (it.kind < 2) VF_EQ((int64_t)in->readByte(), it.v, K + ".byte", cx);
        else if (it.kind == 2) VF_EQ((int64_t)in->readInt(), it.v, K + ".int", cx);
        else if (it.kind == 3) VF_EQ(in->readLong(), it.v, K + ".long", cx);
        else if (it.kind == 4) VF_EQ((int64_t)in->readVInt(), it.v, K + ".vint", cx);
        else if (it.kind == 5) VF_EQ(in->readVLong(), it.v, K + ".vlong", cx);
        else if (it.kind == 6) {
            WS g = in->readString();
            VF_CHECK(g == clean(it.s), K + ".string", cx + " read " + show(g));
        } else if (it.kind == 7) {
            if (r.oneIn(3)) { int32_t k = in->readVInt(); VF_EQ((size_t)k, it.s.size(), K + ".chars", cx); in->skipChars(k); }
            else { WS g = in->readModifiedUTF8String(); VF_CHECK(g == it.s, K + ".chars", cx + " read " + show(g)); }
        } else {
            MapStringString m = in->readStringStringMap();
            VF_EQ((size_t)m.size(), it.m.size(), K + ".map", cx);
            for (auto& x : it.m) VF_CHECK(m.contains(x.first) && m.get(x.first) == x.second, K + ".map", cx + show(x.first));
        }
        count("typed_values");
        tick();
    }
    if (csum) VF_EQ(csum->getChecksum(), (int64_t)crc, K + ".checksum", "read");
    if (sum) VF_EQ(in->readLong(), (int64_t)crc, K + ".checksum", "stored");
    expectIO([&]() { in->readByte(); }, K + ".pastEnd", "");
    in->close();
    Hash h;
    h.add(bytes);
    sig(h.h);
}

// arbitrary bytes read as anything: an exception or a value, within the file
static void garbage(Case& c) {
    Rng& r = c.rng;
    const std::string K = "encodings.garbage";
    DirectoryPtr dir;
    if (r.oneIn(2)) dir = newLucene<RAMDirectory>(); else dir = newLucene<SimpleFSDirectory>(ws(c.freshDir("g")));
    Bytes b = randomBytes(r, (size_t)r.range(1, 300));
    if (r.oneIn(2)) for (auto& x : b) if (r.oneIn(3)) x |= 0x80;
    if (r.oneIn(3)) for (auto& x : b) if (r.oneIn(2)) x &= 0x1f;
    IndexOutputPtr o = dir->createOutput(L"f");
    o->writeBytes(b.data(), (int32_t)b.size());
    o->close();
    for (int k = 0; k < 30; ++k) {
        IndexInputPtr in = dir->openInput(L"f", (int)r.pick({1, 4, 16, 1024}));
        in->seek(r.range(0, (int64_t)b.size()));
        int64_t before = in->getFilePointer();
        try {
            for (int j = 0; j < 10; ++j) {
                before = in->getFilePointer();
                switch (r.below(7)) {
                case 0: in->readInt(); VF_EQ(in->getFilePointer(), before + 4, K + ".int", ""); break;
                case 1: in->readLong(); VF_EQ(in->getFilePointer(), before + 8, K + ".long", ""); break;
                case 2: in->readVInt(); VF_CHECK(in->getFilePointer() <= before + 5, K + ".vint", ""); break;
                case 3: in->readVLong(); VF_CHECK(in->getFilePointer() <= before + 10, K + ".vlong", ""); break;
                case 4: { WS s = in->readString(); VF_CHECK((int64_t)s.size() < in->getFilePointer() - before, K + ".string", "longer than its bytes"); for (wchar_t x : s) VF_CHECK(validCp((uint32_t)x), K + ".string.char", show(s)); break; }
                case 5: { WS s = in->readModifiedUTF8String(); VF_CHECK((int64_t)s.size() < in->getFilePointer() - before, K + ".chars", "longer than its bytes"); break; }
                default: in->readStringStringMap();
                }
                VF_CHECK(in->getFilePointer() <= (int64_t)b.size(), K + ".pastEnd", "");
                count("garbage_values");
            }
        } catch (IOException&) {
            count("garbage_refused");
        }
        in->close();
    }
    Hash h;
    h.add(b.data(), b.size());
    sig(h.h);
}

static void unicode(Case& c) {
    Rng& r = c.rng;
    const std::string K = "encodings.unicode";
    for (int k = 0; k < 40; ++k) {
        WS s = someText(r, false), t = clean(s);
        std::string want = enc(s);
        VF_CHECK(StringUtils::toUTF8(s) == want, K + ".toUTF8", show(s) + " -> " + show(StringUtils::toUTF8(s)) + " expected " + show(want));
        UTF8ResultPtr u = newLucene<UTF8Result>();
        StringUtils::toUTF8(s.c_str(), (int32_t)s.size(), u);
        VF_CHECK(std::string((const char*)u->result.get(), (size_t)u->length) == want, K + ".toUTF8Result", show(s));
        VF_CHECK(StringUtils::toUnicode(want) == t, K + ".toUnicode", show(t) + " -> " + show(StringUtils::toUnicode(want)));
        UnicodeResultPtr un = newLucene<UnicodeResult>();
        StringUtils::toUnicode((const uint8_t*)want.data(), (int32_t)want.size(), un);
        VF_CHECK(WS(un->result.get(), (size_t)un->length) == t, K + ".toUnicodeResult", show(t));
        // into an array too small for it: a prefix, and nothing beyond the array
        {
            int32_t room = (int32_t)r.range(1, (int64_t)want.size() + 2);
            ByteArray a = ByteArray::newInstance(room);
            int32_t n = StringUtils::toUTF8(s.c_str(), (int32_t)s.size(), a);
            VF_CHECK(n >= 0 && n <= room && want.compare(0, (size_t)n, std::string((const char*)a.get(), (size_t)n)) == 0, K + ".toUTF8Array", show(s) + fmt(" into %d bytes gives %d", room, n));
            VF_CHECK(n + 4 > std::min<int32_t>(room, (int32_t)want.size()), K + ".toUTF8Array", show(s) + fmt(" into %d bytes gives only %d", room, n));
            CharArray ca = CharArray::newInstance(room);
            int32_t m = StringUtils::toUnicode((const uint8_t*)want.data(), (int32_t)want.size(), ca);
            VF_CHECK(m == std::min<int32_t>(room, (int32_t)t.size()) && t.compare(0, (size_t)m, WS(ca.get(), (size_t)m)) == 0, K + ".toUnicodeArray", show(t) + fmt(" into %d gives %d", room, m));
        }
        // damage in the middle of valid text does not take the text around it along
        {
            WS a = someText(r, true, 20), b = L"|" + someText(r, true, 20);
            std::string junk;
            int n = (int)r.range(1, 6);
            for (int i = 0; i < n; ++i) junk += (char)r.pick({0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 0xf8, 0xff, 0xfe, 0x41});
            std::string all = enc(a) + junk + enc(b);
            WS g = StringUtils::toUnicode(all);
            VF_CHECK(g.size() >= a.size() + b.size() && g.compare(0, a.size(), a) == 0 && g.compare(g.size() - b.size(), b.size(), b) == 0, K + ".damaged", show(all) + " -> " + show(g));
            for (wchar_t x : g) VF_CHECK(validCp((uint32_t)x), K + ".damaged.char", show(all) + " -> " + show(g));
            count("damaged_texts");
        }
        // UTF-16
        {
            std::vector<uint16_t> u16;
            bool broken = r.oneIn(3);
            WS v = someText(r, true), w;
            for (wchar_t x : v) {
                if (broken && r.oneIn(6)) { u16.push_back((uint16_t)r.range(0xdc00, 0xdfff)); w += (wchar_t)REPLACEMENT; }
                if (broken && r.oneIn(6)) { u16.push_back((uint16_t)r.range(0xd800, 0xdbff)); u16.push_back('a'); w += (wchar_t)REPLACEMENT; w += L'a'; }
                if (x > 0xffff) { uint32_t y = (uint32_t)x - 0x10000; u16.push_back((uint16_t)(0xd800 + (y >> 10))); u16.push_back((uint16_t)(0xdc00 + (y & 0x3ff))); }
                else u16.push_back((uint16_t)x);
                w += x;
            }
            std::vector<wchar_t> outb(u16.size() + 1);
            UTF16DecoderPtr d = newLucene<UTF16Decoder>(u16.data(), u16.data() + u16.size());
            int32_t n = d->utf16to32(outb.data(), (int32_t)outb.size());
            if (w.empty()) VF_EQ(n, (int32_t)Reader::READER_EOF, K + ".utf16", "empty");
            else VF_CHECK(n == (int32_t)w.size() && WS(outb.data(), (size_t)n) == w, K + ".utf16", show(w) + fmt(" gives %d: ", n) + show(WS(outb.data(), (size_t)std::max(0, n))));
        }
        // case conversions are per character and keep the length
        const WS ct = t; WS lo = StringUtils::toLower(ct), up = StringUtils::toUpper(ct); const WS clo = lo;
        VF_CHECK(lo.size() == t.size() && up.size() == t.size() && StringUtils::toLower(clo) == lo, K + ".case", show(t));
        for (size_t i = 0; i < t.size(); ++i) VF_CHECK(lo[i] == CharFolder::toLower(t[i]), K + ".case", show(t));
        count("texts");
        Hash h;
        h.add(s);
        sig(h.h);
        tick();
    }
}

static void readers(Case& c) {
    Rng& r = c.rng;
    const std::string K = "encodings.readers";
    WS text;
    size_t n = r.oneIn(4) ? (size_t)r.range(900, 20000) : (size_t)r.range(0, 300);
    int nl = (int)r.pick({5, 20, 80});
    for (size_t i = 0; i < n; ++i) text += (wchar_t)(r.oneIn((uint64_t)nl) ? r.pick({10, 13}) : someCp(r, true));
    std::string u = enc(text);
    std::string path = c.freshPath("txt");
    { FILE* f = fopen(path.c_str(), "wb"); fwrite(u.data(), 1, u.size(), f); fclose(f); }
    int kind = (int)r.below(6);
    ReaderPtr rd;
    BufferedReaderPtr br;
    WS want = text;
    std::string name;
    auto bytesOf = [&]() { WS w; for (unsigned char x : u) w += (wchar_t)x; return w; };
    switch (kind) {
    case 0: rd = newLucene<StringReader>(text); name = "string"; break;
    case 1: rd = newLucene<Lucene::FileReader>(ws(path)); want = bytesOf(); name = "file"; break;
    case 2: rd = newLucene<InputStreamReader>(newLucene<Lucene::FileReader>(ws(path))); name = "stream"; break;
    case 3: rd = br = newLucene<BufferedReader>(newLucene<StringReader>(text), (int)r.pick({1, 2, 7, 100, 8192})); name = "buffered"; break;
    case 4: rd = br = newLucene<BufferedReader>(newLucene<InputStreamReader>(newLucene<Lucene::FileReader>(ws(path))), (int)r.pick({1, 3, 50, 8192})); name = "buffered stream"; break;
    default: rd = newLucene<InputStreamReader>(newLucene<StringReader>(bytesOf())); name = "stream of string";
    }
    if (kind == 0 || kind == 1) VF_EQ(rd->length(), (int64_t)want.size(), K + ".length", name);
    for (int pass = 0; pass < 2; ++pass) {
        size_t pos = 0;
        bool lines = br && r.oneIn(2);
        int steps = 0;
        bool early = r.oneIn(3);
        for (;;) {
            if (early && ++steps > 20) break;
            std::string cx = name + fmt(" at %zu of %zu", pos, want.size());
            if (lines && r.oneIn(3)) {
                String line = L"left over";
                bool ok = br->readLine(line);
                VF_EQ(ok, pos < want.size(), K + ".readLine", cx);
                if (!ok) { VF_CHECK(line.empty(), K + ".readLine", cx); break; }
                size_t e = want.find_first_of(L"\r\n", pos);
                WS l = want.substr(pos, e == WS::npos ? WS::npos : e - pos);
                VF_CHECK(line == l, K + ".line", cx + " got " + show(line) + " expected " + show(l));
                if (e == WS::npos) pos = want.size();
                else pos = e + (want[e] == L'\r' && e + 1 < want.size() && want[e + 1] == L'\n' ? 2 : 1);
                count("lines");
            } else if (r.oneIn(3)) {
                int32_t x = br && r.oneIn(3) ? br->peek() : -2;
                if (x != -2) VF_EQ(x, pos < want.size() ? (int32_t)want[pos] : -1, K + ".peek", cx);
                x = rd->read();
                VF_EQ(x, pos < want.size() ? (int32_t)want[pos] : -1, K + ".read", cx);
                if (pos >= want.size()) break;
                ++pos;
            } else {
                int32_t len = (int32_t)r.pick({1, 2, 5, 64, 1000, 5000}), off = (int32_t)r.below(3);
                std::vector<wchar_t> b((size_t)(len + off) + 4, L'#');
                int32_t g = rd->read(b.data(), off, len);
                if (pos >= want.size()) { VF_EQ(g, -1, K + ".end", cx); break; }
                VF_CHECK(g >= 1 && g <= len && pos + (size_t)g <= want.size(), K + ".count", cx + fmt(" asked %d got %d", len, g));
                WS w(b.data() + off, (size_t)g);
                VF_CHECK(want.compare(pos, (size_t)g, w) == 0, K + ".text", cx + fmt(" %d characters", g));
                for (int32_t j = 0; j < off; ++j) VF_CHECK(b[(size_t)j] == L'#', K + ".outside", cx);
                for (size_t j = (size_t)(off + len); j < b.size(); ++j) VF_CHECK(b[j] == L'#', K + ".outside", cx);
                pos += (size_t)g;
            }
            count("reader_calls");
        }
        if (pass == 0) { if (!r.oneIn(2)) break; rd->reset(); count("resets"); }
    }
    rd->close();
    Hash h;
    h.add(name).add(want);
    sig(h.h);
}

static void packed(Case& c) {
    Rng& r = c.rng;
    const std::string K = "encodings.packed";
    // compression
    {
        size_t n = r.oneIn(3) ? (size_t)r.range(0, 20) : r.oneIn(3) ? (size_t)r.range(3000, 40000) : (size_t)r.range(0, 3000);
        Bytes b = randomBytes(r, n);
        if (r.oneIn(2)) for (auto& x : b) x &= 3;
        ByteArray a = ByteArray::newInstance((int32_t)n);
        std::copy(b.begin(), b.end(), a.get());
        ByteArray z;
        int off = 0;
        switch (r.below(3)) {
        case 0: z = CompressionTools::compress(a); break;
        case 1: off = (int)r.range(0, (int64_t)n); z = CompressionTools::compress(a.get(), off, (int32_t)n - off); break;
        default: z = CompressionTools::compress(a.get(), 0, (int32_t)n, (int)r.range(0, 9));
        }
        ByteArray back = CompressionTools::decompress(z);
        VF_CHECK(back.size() == (int32_t)n - off && std::equal(b.begin() + off, b.end(), back.get()), K + ".compress", fmt("%zu bytes from %d", n, off));
        // damaged or cut
        if (z.size() > 2) {
            ByteArray d = ByteArray::newInstance(z.size());
            std::copy(z.get(), z.get() + z.size(), d.get());
            bool cut = r.oneIn(2);
            if (cut) d.resize((int32_t)r.range(1, z.size() - 1));
            else d[(int32_t)r.below((uint64_t)z.size())] ^= (uint8_t)(1 << r.below(8));
            try {
                ByteArray g = CompressionTools::decompress(d);
                VF_CHECK(!cut && g.size() == back.size() && std::equal(g.get(), g.get() + g.size(), back.get()), K + (cut ? ".cut" : ".damaged"), fmt("%d of %d bytes decompressed to %d of %d without an exception", d.size(), z.size(), g.size(), back.size()));
            } catch (LuceneException& e) {
                VF_EQ((int)e.getType(), (int)LuceneException::Compression, K + ".damaged.type", u8(e.getError()));
            }
            count("damaged_compressions");
        }
        WS s = someText(r, false, 500);
        VF_CHECK(CompressionTools::decompressString(CompressionTools::compressString(s)) == clean(s), K + ".compressString", show(s));
        // base 64
        static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        size_t m = std::min<size_t>(n, (size_t)r.range(0, 200));
        std::string want;
        for (size_t i = 0; i < m; i += 3) {
            uint32_t v = (uint32_t)b[i] << 16 | (i + 1 < m ? (uint32_t)b[i + 1] << 8 : 0) | (i + 2 < m ? b[i + 2] : 0);
            want += A[v >> 18]; want += A[(v >> 12) & 63];
            want += i + 1 < m ? A[(v >> 6) & 63] : '=';
            want += i + 2 < m ? A[v & 63] : '=';
        }
        VF_CHECK(u8(Base64::encode(b.data(), (int32_t)m)) == want, K + ".base64.encode", fmt("%zu bytes", m));
        ByteArray dec = Base64::decode(ws(want));
        VF_CHECK(dec.size() == (int32_t)m && std::equal(b.begin(), b.begin() + (long)m, dec.get()), K + ".base64.decode", want);
        // anything may be given to the decoder
        WS any = r.oneIn(2) ? someText(r, false) : ws(want.substr(0, (size_t)r.range(0, (int64_t)want.size())));
        try { ByteArray g = Base64::decode(any); VF_CHECK((size_t)g.size() <= any.size(), K + ".base64.any", show(any)); } catch (LuceneException&) { }
        count("packed");
        Hash h;
        h.add(b.data(), b.size());
        sig(h.h);
    }
    for (int k = 0; k < 60; ++k) {
        int bits = (int)r.range(0, 64);
        int64_t v = (int64_t)(bits == 64 ? r.next() : r.next() & ((1ull << bits) - 1));
        if (r.oneIn(4)) v = r.pick({(int64_t)0, (int64_t)1, (int64_t)-1, INT64_MAX, INT64_MIN, INT64_MIN + 1, (int64_t)35, (int64_t)36, (int64_t)-36, (int64_t)INT32_MIN});
        if (r.oneIn(3)) v = (int64_t)(0 - (uint64_t)v);
        // numbers in a base
        int base = (int)r.pick({2, 3, 8, 10, 16, 36, 35, 7});
        uint64_t a = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
        std::string want;
        do { want.insert(want.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[a % (uint64_t)base]); a /= (uint64_t)base; } while (a);
        if (v < 0) want = "-" + want;
        VF_CHECK(u8(StringUtils::toString(v, base)) == want, K + ".toString", fmt("%lld in base %d gives ", (long long)v, base) + u8(StringUtils::toString(v, base)));
        if (v >= 0) VF_EQ(StringUtils::toLong(ws(want), base), v, K + ".toLong", want);
        VF_EQ(StringUtils::toLong(std::to_wstring(v)), v, K + ".toLong10", std::to_string(v));
        VF_EQ(StringUtils::toInt(std::to_wstring((int32_t)v)), (int32_t)v, K + ".toInt", std::to_string((int32_t)v));
        double dv = (double)(int32_t)v / (double)r.pick({1, 2, 4, 1024});
        VF_EQ(StringUtils::toDouble(ws(fmt("%.17g", dv))), dv, K + ".toDouble", fmt("%.17g", dv));
        // numbers as strings
        WS n = NumberTools::longToString(v);
        VF_EQ((int)n.size(), (int)NumberTools::STR_SIZE(), K + ".number.size", std::to_string(v) + " " + u8(n));
        VF_EQ(NumberTools::stringToLong(n), v, K + ".number", u8(n));
        int64_t w2 = r.oneIn(2) ? v ^ (int64_t)(1ull << r.below(64)) : (int64_t)r.next();
        VF_EQ(n < NumberTools::longToString(w2), v < w2, K + ".number.order", fmt("%lld %lld", (long long)v, (long long)w2));
        // dates as strings
        int64_t d = (int64_t)((uint64_t)v % 31536000000000ull), d2 = (int64_t)((uint64_t)w2 % 31536000000000ull);
        WS ds = DateField::timeToString(d);
        VF_EQ(DateField::stringToTime(ds), d, K + ".date", u8(ds));
        VF_EQ(ds < DateField::timeToString(d2), d < d2, K + ".date.order", fmt("%lld %lld", (long long)d, (long long)d2));
        VF_CHECK(ds >= DateField::MIN_DATE_STRING() && ds <= DateField::MAX_DATE_STRING(), K + ".date.bounds", u8(ds));
        // what does not fit is refused
        int64_t far = r.oneIn(2) ? -1 - d : (int64_t)(101559956668416ull + (uint64_t)(v & 0xffffffffffffll));
        bool refused = false;
        try { DateField::timeToString(far); } catch (LuceneException&) { refused = true; }
        VF_CHECK(refused, K + ".date.range", fmt("%lld", (long long)far));
        count("numbers");
        tick();
    }
    // small floats
    for (int b = 0; b < 256; ++b) {
        double f = SmallDouble::byteToDouble((uint8_t)b);
        VF_EQ((int)SmallDouble::doubleToByte(f), b, K + ".smallDouble", "");
        if (b) VF_CHECK(f > SmallDouble::byteToDouble((uint8_t)(b - 1)), K + ".smallDouble.order", "");
    }
    for (int k = 0; k < 50; ++k) {
        double f = std::pow(10.0, (r.unit() - 0.5) * 24) * (r.oneIn(6) ? -1 : 1);
        int b = SmallDouble::doubleToByte(f);
        double lo = SmallDouble::byteToDouble((uint8_t)b);
        if (f <= 0) VF_EQ(b, 0, K + ".smallDouble.negative", "");
        else if (b > 1) { VF_CHECK((float)lo <= (float)f, K + ".smallDouble.truncate", fmt("%g", f)); if (b < 255) VF_CHECK((float)f < (float)SmallDouble::byteToDouble((uint8_t)(b + 1)), K + ".smallDouble.truncate", fmt("%g", f)); }
        else if (b == 1) VF_CHECK((float)f < (float)SmallDouble::byteToDouble(2), K + ".smallDouble.small", fmt("%g", f));
        else fail(K + ".smallDouble.zero", fmt("%g became 0", f));
    }
}

VF_MODE(encodings) {
    switch (c.no % 5) {
    case 0: return typed(c);
    case 1: return garbage(c);
    case 2: return unicode(c);
    case 3: return readers(c);
    default: return packed(c);
    }
}

VF_MAIN
