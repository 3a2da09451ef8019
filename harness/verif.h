// Common frame of all harnesses: seeded cases, counters, distinct-case signatures, violations with replay.
#ifndef VERIF_H
#define VERIF_H
#include "LuceneHeaders.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }  // inclusive
    bool chance(int pct) { return (int)below(100) < pct; }
    bool oneIn(uint64_t n) { return below(n) == 0; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
    // small numbers most of the time, now and then big ones
    int64_t skewed(int64_t max) {
        int64_t m = max;
        int k = (int)below(4);
        while (k-- > 0 && m > 4) m = m / 4 + 1;
        return range(0, m);
    }
};

struct Violation {
    std::string key, msg;
};

struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& add(const void* p, size_t n) {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
        return *this;
    }
    Hash& add(const std::string& s) { uint64_t n = s.size(); add(&n, 8); return add(s.data(), s.size()); }
    Hash& add(const std::wstring& s) { uint64_t n = s.size(); add(&n, 8); return add(s.data(), s.size() * sizeof(wchar_t)); }
    Hash& add(uint64_t v) { return add(&v, 8); }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list a;
    va_start(a, f);
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, a);
    va_end(a);
    return buf;
}

// independent UTF-8 writer (does not use the code under test)
inline std::string u8(const std::wstring& w) {
    std::string o;
    for (wchar_t wc : w) {
        uint32_t c = (uint32_t)wc;
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xc0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xe0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xf0 | ((c >> 18) & 7)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    }
    return o;
}
inline std::wstring ws(const std::string& s) { return std::wstring(s.begin(), s.end()); }

inline std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct Globals {
    std::string mode, tier = "quick", outPath, scratch;
    uint64_t seed = 1, caseNo = 0;
    FILE* out = nullptr;
    std::map<std::string, int64_t> counters;
    std::unordered_set<uint64_t> sigs;
    std::vector<std::string> samples;
    std::mutex m;
    std::atomic<uint64_t>* status = nullptr;  // [0] case number + 1, [1] progress counter
    std::atomic<uint64_t> localStatus[2];
    bool verbose = false;
    int sampleLimit = 3;
};
inline Globals& G() { static Globals* g = new Globals; return *g; }

inline void tick(uint64_t n = 1) { G().status[1].fetch_add(n, std::memory_order_relaxed); }
inline void count(const std::string& name, int64_t n = 1) { std::lock_guard<std::mutex> l(G().m); G().counters[name] += n; }
inline void maxi(const std::string& name, int64_t n) { std::lock_guard<std::mutex> l(G().m); auto& v = G().counters["max_" + name]; if (n > v) v = n; }
// one distinct non-trivial case, state or execution
inline void sig(uint64_t h) { std::lock_guard<std::mutex> l(G().m); G().sigs.insert(h); }
inline bool wantSample() { return (int)G().samples.size() < G().sampleLimit; }
inline void sample(const std::string& text) { std::lock_guard<std::mutex> l(G().m); if (wantSample()) G().samples.push_back(text.substr(0, 1500)); }
inline bool thorough() { return G().tier == "thorough"; }

inline void report(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(G().m);
    fprintf(G().out, "{\"type\":\"violation\",\"case\":%llu,\"key\":%s,\"msg\":%s}\n", (unsigned long long)G().caseNo, jesc(key).c_str(), jesc(msg.substr(0, 6000)).c_str());
    fflush(G().out);
    if (G().verbose) fprintf(stderr, "VIOLATION %s: %s\n", key.c_str(), msg.c_str());
}
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
#define VF_CHECK(cond, key, msg) do { if (!(cond)) ::vf::fail(key, std::string("(" #cond ") ") + (msg)); } while (0)

template <class A, class B> std::string show2(const A& a, const B& b) { std::ostringstream o; o << "got " << a << " expected " << b; return o.str(); }
#define VF_EQ(got, want, key, msg) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) ::vf::fail(key, ::vf::show2(g_, w_) + " [" #got "] " + (msg)); } while (0)

struct Case {
    Rng rng;
    uint64_t no;
    std::string scratchDir;
    int dirs = 0;
    std::ostringstream log;  // what the case did, for the report
    Case(uint64_t seed, uint64_t n) : rng(seed), no(n) {}
    std::string freshPath(const std::string& tag = "d") {
        if (scratchDir.empty()) {
            scratchDir = G().scratch + "/c" + std::to_string(no);
            ::mkdir(scratchDir.c_str(), 0755);
        }
        return scratchDir + "/" + tag + std::to_string(dirs++);
    }
    std::string freshDir(const std::string& tag = "d") { std::string p = freshPath(tag); ::mkdir(p.c_str(), 0755); return p; }
    ~Case() {
        if (!scratchDir.empty() && scratchDir.rfind(G().scratch + "/c", 0) == 0 && G().scratch.size() > 8) {
            std::error_code ec;
            std::filesystem::remove_all(scratchDir, ec);
        }
    }
};

typedef std::function<void(Case&)> Mode;
inline std::map<std::string, Mode>& modes() { static std::map<std::string, Mode> m; return m; }
struct Register { Register(const char* n, Mode m) { modes()[n] = m; } };
#define VF_MODE(name) static void mode_##name(::vf::Case& c); static ::vf::Register reg_##name(#name, mode_##name); static void mode_##name(::vf::Case& c)

inline std::string exType(const std::type_info& t) {
    int st = 0;
    char* d = abi::__cxa_demangle(t.name(), 0, 0, &st);
    std::string r = d ? d : t.name();
    free(d);
    return r;
}
inline std::string luceneType(Lucene::LuceneException& e) { return std::to_string((int)e.getType()); }
inline std::string what(Lucene::LuceneException& e) { return "LuceneException type " + luceneType(e) + ": " + u8(e.getError()); }

// Runs f; any library or standard exception becomes a violation `key`.
template <class F> void guarded(const std::string& key, F f) {
    try {
        f();
    } catch (Violation&) {
        throw;
    } catch (Lucene::LuceneException& e) {
        fail(key + ".exception", what(e));
    } catch (std::exception& e) {
        fail(key + ".exception", exType(typeid(e)) + ": " + e.what());
    }
}

inline void runCase(const Mode& mode, uint64_t no) {
    G().caseNo = no;
    G().status[0].store(no + 1);
    tick();
    Hash h;
    h.add(G().mode);
    Case c(mix(G().seed) ^ mix(h.h) ^ mix(no * 2654435761ull + 17), no);
    try {
        mode(c);
    } catch (Violation& v) {
        report(v.key, v.msg + "\n" + c.log.str());
    } catch (Lucene::LuceneException& e) {
        report("exception.lucene." + luceneType(e), what(e) + "\n" + c.log.str());
    } catch (std::exception& e) {
        report("exception.std." + exType(typeid(e)), std::string(e.what()) + "\n" + c.log.str());
    }
    count("cases");
}

inline int mainImpl(int argc, char** argv) {
    Globals& g = G();
    uint64_t from = 0, to = 1, stride = 1;
    std::string statusPath;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--mode") g.mode = val();
        else if (a == "--seed") g.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") g.tier = val();
        else if (a == "--out") g.outPath = val();
        else if (a == "--status") statusPath = val();
        else if (a == "--scratch") g.scratch = val();
        else if (a == "--verbose") g.verbose = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    if (!modes().count(g.mode)) {
        fprintf(stderr, "no mode %s\n", g.mode.c_str());
        return 3;
    }
    bool ownScratch = g.scratch.empty();
    if (ownScratch) {
        char t[] = "/dev/shm/vf-XXXXXX";
        g.scratch = mkdtemp(t);
    }
    g.out = g.outPath.empty() ? stdout : fopen(g.outPath.c_str(), "a");
    if (g.outPath.empty()) g.verbose = true;
    g.status = g.localStatus;
    if (!statusPath.empty()) {
        int fd = ::open(statusPath.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) g.status = (std::atomic<uint64_t>*)p;
        }
        ::close(fd);
    }
    Mode mode = modes()[g.mode];
    for (uint64_t i = from; i < to; i += stride) runCase(mode, i);
    std::string s = "{\"type\":\"stats\",\"counters\":{";
    bool first = true;
    for (auto& kv : g.counters) { s += (first ? "" : ",") + jesc(kv.first) + ":" + std::to_string(kv.second); first = false; }
    s += "},\"samples\":[";
    for (size_t i = 0; i < g.samples.size(); ++i) s += (i ? "," : "") + jesc(g.samples[i]);
    s += "],\"sigs\":" + std::to_string(g.sigs.size()) + "}\n";
    if (!g.outPath.empty()) {
        FILE* f = fopen((g.outPath + ".sig").c_str(), "ab");
        for (uint64_t x : g.sigs) fwrite(&x, 8, 1, f);
        fclose(f);
    }
    fputs(s.c_str(), g.out);
    fflush(g.out);
    if (ownScratch) { std::error_code ec; std::filesystem::remove_all(g.scratch, ec); }
    return 0;
}
}

#define VF_MAIN int main(int argc, char** argv) { return ::vf::mainImpl(argc, argv); }
#endif
