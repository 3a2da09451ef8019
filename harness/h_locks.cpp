// Locks: at most one holder, over threads, processes, factories and names of the directory (C10).
#include "verif.h"
#include "NativeFSLockFactory.h"
#include "SimpleFSLockFactory.h"
#include "SingleInstanceLockFactory.h"
#include "SimpleFSDirectory.h"
#include "MMapDirectory.h"
#include "RAMDirectory.h"
#include "IndexWriter.h"
#include "IndexReader.h"
#include "Lock.h"
#include "WhitespaceAnalyzer.h"
#include "Document.h"
#include "Field.h"
#include "Term.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <thread>
using namespace vf;
using namespace Lucene;

static std::string freshDir(Case& c, const char* what) {
    std::string d = c.freshPath(what);
    mkdir(d.c_str(), 0777);
    return d;
}
static String wide(const std::string& s) { return String(s.begin(), s.end()); }
// other names of the same directory
static String spelled(Rng& r, const std::string& d) {
    std::string name = d.substr(d.rfind('/') + 1), up = d.substr(0, d.rfind('/'));
    switch (r.below(7)) {
    case 0: return wide(d + "/");
    case 1: return wide(d + "/.");
    case 2: return wide(up + "/./" + name);
    case 3: return wide(d + "/../" + name);
    case 4: { std::string l = d + "-link"; if (symlink(d.c_str(), l.c_str()) != 0 && errno != EEXIST) return wide(d); return wide(l); }
    case 5: { char cwd[4096]; std::string w = std::string(getcwd(cwd, sizeof cwd)) + "/"; return wide(d.compare(0, w.size(), w) == 0 ? d.substr(w.size()) : d); }
    default: return wide(d);
    }
}

enum Kind { NATIVE, SIMPLE };
struct Actor {
    // in one process: some directories over the same place and some locks of theirs
    std::vector<DirectoryPtr> dirs;
    std::vector<LockPtr> locks;
    void open(Rng& r, Kind kind, const std::string& index, const std::string& lockDir, int nd, int nl) {
        for (int i = 0; i < nd; ++i) {
            LockFactoryPtr f;
            bool apart = !lockDir.empty();
            String where = spelled(r, apart ? lockDir : index);
            bool given = apart || r.oneIn(2); // the directory itself may be named as the place of the locks
            if (kind == NATIVE) f = given ? newLucene<NativeFSLockFactory>(where) : (r.oneIn(2) ? LockFactoryPtr(newLucene<NativeFSLockFactory>()) : LockFactoryPtr());
            else f = given ? newLucene<SimpleFSLockFactory>(where) : newLucene<SimpleFSLockFactory>();
            String name = spelled(r, index);
            if (r.oneIn(3)) dirs.push_back(newLucene<MMapDirectory>(name, f));
            else if (r.oneIn(2)) dirs.push_back(newLucene<SimpleFSDirectory>(name, f));
            else dirs.push_back(f ? FSDirectory::open(name, f) : FSDirectory::open(name));
        }
        for (int i = 0; i < nl; ++i) locks.push_back(dirs[(size_t)i % dirs.size()]->makeLock(L"write.lock"));
    }
    // one operation: 'o' obtain, 'r' release, 'i' isLocked, 'd' drop the lock object and make another, 'c' clear, 'w' writer?, 't' obtain with a short timeout
    char act(char op, int k) {
        try {
            switch (op) {
            case 'o': return locks[(size_t)k]->obtain() ? 'y' : 'n';
            case 't': return locks[(size_t)k]->obtain(1) ? 'y' : 'n';
            case 'r': locks[(size_t)k]->release(); return 'y';
            case 'i': return locks[(size_t)k]->isLocked() ? 'y' : 'n';
            case 'd': { DirectoryPtr d = dirs[(size_t)k % dirs.size()]; locks[(size_t)k].reset(); locks[(size_t)k] = d->makeLock(L"write.lock"); return 'y'; }
            case 'c': dirs[(size_t)k % dirs.size()]->clearLock(L"write.lock"); return 'y';
            case 'W': { IndexWriterPtr w = newLucene<IndexWriter>(dirs[(size_t)k % dirs.size()], newLucene<WhitespaceAnalyzer>(), IndexWriter::MaxFieldLengthUNLIMITED); w->close(); return 'y'; }
            case 'R': { IndexReaderPtr rd = IndexReader::open(dirs[(size_t)k % dirs.size()], false); char x = 'y'; try { rd->deleteDocument(0); } catch (LockObtainFailedException&) { x = 'n'; } rd->undeleteAll(); rd->close(); return x; }
            case 'L': return IndexWriter::isLocked(dirs[(size_t)k % dirs.size()]) ? 'y' : 'n';
            }
        } catch (LockObtainFailedException&) {
            return 'n';
        } catch (LockReleaseFailedException&) {
            return 'f';
        } catch (LuceneException& e) {
            fprintf(stderr, "lock operation %c: %s\n", op, u8(e.getError()).c_str());
            return 'e';
        } catch (std::exception& e) {
            fprintf(stderr, "lock operation %c: %s\n", op, e.what());
            return 'x';
        }
        return '?';
    }
};
struct Proc {
    pid_t pid = -1;
    int in = -1, out = -1;
    char ask(char op, int k) {
        char m[2] = {op, (char)k}, a = 0;
        if (write(out, m, 2) != 2) return '!';
        ssize_t n;
        do n = read(in, &a, 1); while (n < 0 && errno == EINTR);
        return n == 1 ? a : '!';
    }
    void kill9() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } shut(); }
    void shut() { if (in >= 0) close(in); if (out >= 0) close(out); in = out = -1; pid = -1; }
    void quit() { if (pid > 0) { if (write(out, "q", 1) != 1) kill(pid, SIGKILL); char m = 0; if (write(out, &m, 1) != 1) kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } shut(); }
};
static Proc spawn(uint64_t seed, Kind kind, const std::string& index, const std::string& lockDir, int nd, int nl, const std::vector<Proc>& others) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) fail("harness.pipe", "");
    Proc p;
    p.pid = fork();
    if (p.pid == 0) {
        close(a[1]); close(b[0]);
        for (const Proc& o : others) { if (o.in >= 0) close(o.in); if (o.out >= 0) close(o.out); }
        signal(SIGPIPE, SIG_DFL);
        Rng r(seed);
        IndexWriter::setDefaultWriteLockTimeout(1);
        Actor act;
        act.open(r, kind, index, lockDir, nd, nl);
        for (;;) {
            char m[2];
            ssize_t n = read(a[0], m, 2);
            if (n <= 0 || m[0] == 'q') _exit(0);
            char ans = act.act(m[0], m[1]);
            if (write(b[1], &ans, 1) != 1) _exit(0);
        }
    }
    close(a[0]); close(b[1]);
    p.out = a[1]; p.in = b[0];
    return p;
}

// commands to several processes, answers compared with a model
static void commanded(Case& c) {
    signal(SIGPIPE, SIG_IGN);
    Rng& r = c.rng;
    Kind kind = r.oneIn(3) ? SIMPLE : NATIVE;
    std::string index = freshDir(c, "index"), lockDir = r.oneIn(2) ? freshDir(c, "locks") : "";
    int np = (int)r.range(1, 3), nd = (int)r.range(1, 4), nl = (int)r.range(nd, 6);
    { // an index with documents for the writers and readers
        IndexWriterPtr w = newLucene<IndexWriter>(FSDirectory::open(wide(index)), newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
        for (int i = 0; i < 3; ++i) { DocumentPtr d = newLucene<Document>(); d->add(newLucene<Field>(L"f", L"a b c", Field::STORE_NO, Field::INDEX_ANALYZED)); w->addDocument(d); }
        w->close();
    }
    std::vector<Proc> ps;
    for (int i = 0; i < np; ++i) ps.push_back(spawn(r.next(), kind, index, lockDir, nd, nl, ps));
    int hp = -1, hl = -1; // who holds it; hp -2: a dead process left a simple lock behind
    int steps = (int)r.range(20, 80);
    c.log << fmt("%s locks %s, %d processes, %d directories, %d locks\n", kind == NATIVE ? "native" : "simple", lockDir.empty() ? "in the index" : "apart", np, nd, nl);
    Hash h;
    auto expect = [&](int p, char op, int k, char want) {
        char got = ps[(size_t)p].ask(op, k);
        c.log << fmt("process %d %c lock %d: %c\n", p, op, k, got);
        h.add((uint64_t)op).add((uint64_t)want);
        if (got != want) fail(fmt("locks.%s.%c", kind == NATIVE ? "native" : "simple", op), fmt("process %d %c lock %d answered %c, not %c; held by process %d lock %d\n", p, op, k, got, want, hp, hl));
        count("lock_operations");
    };
    try {
        for (int j = 0; j < steps; ++j) {
            tick();
            int p = (int)r.below((uint64_t)np), k = (int)r.below((uint64_t)nl);
            bool held = hp != -1, mine = hp == p && hl == k;
            if (held && hp >= 0 && r.oneIn(3)) { p = hp; if (r.oneIn(2)) k = hl; mine = k == hl; }
            switch (r.below(14)) {
            case 0: case 1: case 2: case 3:
                expect(p, r.oneIn(4) ? 't' : 'o', k, held ? 'n' : 'y');
                if (!held) { hp = p; hl = k; count("obtained"); } else count(hp == p ? "refused_in_process" : "refused_across_processes");
                break;
            case 4: case 5: case 6:
                if (mine) { expect(p, 'r', k, 'y'); hp = hl = -1; count("released"); }
                else if (kind == NATIVE) { expect(p, 'r', k, held ? 'f' : 'y'); if (held) count("refused_releases"); }
                break;
            case 7: case 8: expect(p, 'i', k, held ? 'y' : 'n'); break;
            case 9: // the object goes away: a native lock goes with it
                if (kind == NATIVE || !mine) { expect(p, 'd', k, 'y'); if (mine) hp = hl = -1; count("dropped"); }
                break;
            case 10:
                if (kind == NATIVE) { expect(p, 'c', k, 'y'); count("cleared"); }  // leaves a held lock alone
                else if (hp == -2 || !held) { expect(p, 'c', k, 'y'); hp = hl = -1; count("cleared"); }
                break;
            case 11:
                if (r.oneIn(3)) {
                    ps[(size_t)p].kill9();
                    count(hp == p ? "killed_holders" : "killed");
                    c.log << fmt("process %d killed\n", p);
                    if (hp == p) { if (kind == NATIVE) hp = hl = -1; else hp = -2; }
                    ps[(size_t)p] = spawn(r.next(), kind, index, lockDir, nd, nl, ps);
                }
                break;
            case 12: if (held && r.oneIn(10)) { expect(p, 'R', k, 'n'); count("readers_refused"); } else expect(p, 'L', k, held ? 'y' : 'n'); break;
            default:
                if (held && r.oneIn(8)) { expect(p, 'W', k, 'n'); count("writers_refused"); }
                else if (!held) { expect(p, 'W', k, 'y'); count("writers_opened"); }
            }
        }
        // whoever is left can take it, when it is free
        if (hp >= 0) { expect(hp, 'r', hl, 'y'); hp = hl = -1; }
        if (hp == -2) { expect(0, 'c', 0, 'y'); hp = hl = -1; }
        for (int p = 0; p < np; ++p) { expect(p, 'o', 0, 'y'); expect((p + 1) % np, 'i', nl - 1, 'y'); expect(p, 'r', 0, 'y'); }
    } catch (...) {
        for (Proc& p : ps) p.kill9();
        throw;
    }
    for (Proc& p : ps) p.quit();
    sig(h.h);
}

// processes and threads compete; a second exclusion by O_EXCL finds two holders
static void compete(const LockPtr& l, const std::string& flag, Rng& r, int rounds, std::atomic<int>* in, int* got, int* bad) {
    for (int i = 0; i < rounds; ++i) {
        bool ok = false;
        try { ok = l->obtain(); } catch (LuceneException&) { *bad |= 4; }
        if (!ok) { if (r.oneIn(4)) usleep((useconds_t)r.below(200)); continue; }
        if (in && in->fetch_add(1) != 0) *bad |= 1;
        int fd = open(flag.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0600);
        if (fd < 0) *bad |= 2;
        if (r.oneIn(3)) usleep((useconds_t)r.below(300));
        if (fd >= 0) { close(fd); unlink(flag.c_str()); }
        if (in) in->fetch_sub(1);
        ++*got;
        try { l->release(); } catch (LuceneException&) { *bad |= 8; }
        if (r.oneIn(2)) usleep((useconds_t)r.below(100));
    }
}
static void racing(Case& c) {
    Rng& r = c.rng;
    Kind kind = r.oneIn(2) ? SIMPLE : NATIVE;
    std::string index = freshDir(c, "race"), lockDir = r.oneIn(2) ? freshDir(c, "locks") : "", flag = index + "-flag";
    int np = (int)r.range(1, 4), nt = (int)r.range(1, 4), rounds = (int)r.range(50, 400);
    c.log << fmt("racing %s, %d processes of %d threads\n", kind == NATIVE ? "native" : "simple", np, nt);
    std::vector<pid_t> ps;
    std::vector<int> res;
    for (int i = 0; i < np; ++i) {
        uint64_t seed = r.next();
        int fd[2];
        if (pipe(fd)) fail("harness.pipe", "");
        pid_t pid = fork();
        if (pid == 0) {
            int out[2] = {0, 0};
            Rng q(seed);
            Actor a;
            a.open(q, kind, index, lockDir, nt, nt);
            std::vector<int> got((size_t)nt), bad((size_t)nt);
            std::vector<std::thread> ts;
            static std::atomic<int> in(0);
            for (int t = 0; t < nt; ++t) { uint64_t s = q.next(); ts.emplace_back([&, t, s] { Rng x(s); compete(a.locks[(size_t)t], flag, x, rounds, &in, &got[(size_t)t], &bad[(size_t)t]); }); }
            for (auto& t : ts) t.join();
            for (int t = 0; t < nt; ++t) { out[0] += got[(size_t)t]; out[1] |= bad[(size_t)t]; }
            if (write(fd[1], out, sizeof out) != sizeof out) _exit(1);
            _exit(0);
        }
        close(fd[1]);
        ps.push_back(pid); res.push_back(fd[0]);
    }
    int got = 0, bad = 0;
    for (size_t i = 0; i < ps.size(); ++i) {
        int out[2] = {0, 64};
        ssize_t n;
        do n = read(res[i], out, sizeof out); while (n < 0 && errno == EINTR);
        close(res[i]);
        waitpid(ps[i], nullptr, 0);
        got += out[0]; bad |= out[1];
    }
    tick();
    VF_CHECK(!(bad & 3), fmt("locks.%s.two", kind == NATIVE ? "native" : "simple"), "two held the lock at the same time");
    VF_CHECK(!(bad & 4), "locks.obtainFailed", "an attempt ended with an exception other than failing");
    VF_CHECK(!(bad & 8), "locks.releaseFailed", "the holder could not release its lock");
    VF_CHECK(!(bad & 64), "locks.died", "a process died");
    VF_CHECK(got > 0, "locks.starved", "nobody ever got the lock");
    // nobody holds it now
    Actor a;
    a.open(r, kind, index, lockDir, 1, 1);
    VF_EQ(a.act('o', 0), 'y', "locks.free", "the lock is free but cannot be obtained");
    VF_EQ(a.act('r', 0), 'y', "locks.free", "the lock cannot be released");
    count("races"); count("race_holders", got); count("race_processes", np);
}
// one instance for all
static void single(Case& c) {
    Rng& r = c.rng;
    LockFactoryPtr f = newLucene<SingleInstanceLockFactory>();
    DirectoryPtr d = newLucene<RAMDirectory>();
    d->setLockFactory(f);
    const String names[] = {L"write.lock", L"commit.lock", L"x"};
    std::vector<std::pair<int, LockPtr>> ls;
    for (int i = 0; i < 6; ++i) { int n = (int)r.below(3); ls.push_back({n, r.oneIn(2) ? d->makeLock(names[n]) : f->makeLock(names[n])}); }
    int holder[3] = {-1, -1, -1};
    for (int j = 0; j < 60; ++j) {
        int k = (int)r.below(6), n = ls[(size_t)k].first;
        switch (r.below(6)) {
        case 0: case 1: { bool got = ls[(size_t)k].second->obtain(); VF_EQ(got, holder[n] < 0, "locks.single.obtain", ""); if (got) holder[n] = k; break; }
        case 2: if (holder[n] == k) { ls[(size_t)k].second->release(); holder[n] = -1; } break;
        case 3: VF_EQ(ls[(size_t)k].second->isLocked(), holder[n] >= 0, "locks.single.isLocked", ""); break;
        case 4: if (holder[n] < 0 || r.oneIn(4)) { d->clearLock(names[n]); holder[n] = -1; } break;
        default: if (holder[n] >= 0 && holder[n] != k) { LockPtr again = d->makeLock(names[n]); VF_CHECK(!again->obtain(), "locks.single.again", "another lock of the name was obtained"); again.reset(); VF_CHECK(ls[(size_t)k].second->isLocked(), "locks.single.dropped", "a failed attempt freed the lock"); }
        }
        count("single_operations");
    }
    int nt = (int)r.range(2, 6), rounds = (int)r.range(50, 300);
    std::atomic<int> in(0);
    std::vector<int> got((size_t)nt), bad((size_t)nt);
    std::vector<std::thread> ts;
    std::string flag = freshDir(c, "single") + "/flag";
    d->clearLock(L"write.lock");
    for (int t = 0; t < nt; ++t) { uint64_t s = r.next(); LockPtr l = d->makeLock(L"write.lock"); ts.emplace_back([&, t, s, l] { Rng x(s); compete(l, flag, x, rounds, &in, &got[(size_t)t], &bad[(size_t)t]); }); }
    for (auto& t : ts) t.join();
    for (int t = 0; t < nt; ++t) VF_EQ(bad[(size_t)t], 0, "locks.single.two", "two held the lock at the same time");
    tick();
}
// writers and modifying readers of this process
static void writers(Case& c) {
    Rng& r = c.rng;
    bool ram = r.oneIn(3);
    std::string index = freshDir(c, "w");
    DirectoryPtr mem = newLucene<RAMDirectory>();
    Kind kind = r.oneIn(3) ? SIMPLE : NATIVE;
    std::string lockDir = r.oneIn(2) ? freshDir(c, "locks") : "";
    auto dir = [&]() -> DirectoryPtr { if (ram) return mem; Actor a; a.open(r, kind, index, lockDir, 1, 0); return a.dirs[0]; };
    auto doc = [&]() { DocumentPtr d = newLucene<Document>(); d->add(newLucene<Field>(L"f", L"a b", Field::STORE_NO, Field::INDEX_ANALYZED)); return d; };
    { IndexWriterPtr w = newLucene<IndexWriter>(dir(), newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED); for (int i = 0; i < 30; ++i) w->addDocument(doc()); w->close(); }
    IndexWriterPtr w;
    IndexReaderPtr holder;
    std::vector<IndexReaderPtr> idle;
    DirectoryPtr wdir;
    int left = 30, steps = (int)r.range(10, 40);
    auto locked = [&]() { return w || holder; };
    for (int j = 0; j < steps; ++j) {
        tick();
        DirectoryPtr d = dir();
        int op = (int)r.below(9);
        c.log << fmt("op %d locked %d\n", op, (int)locked());
        switch (op) {
        case 0: case 1: {
            if (locked() && !r.oneIn(3)) break; // (waits a second)
            int64_t was = IndexWriter::getDefaultWriteLockTimeout();
            IndexWriter::setDefaultWriteLockTimeout(1);
            IndexWriterPtr n;
            bool refused = false;
            try { n = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), IndexWriter::MaxFieldLengthUNLIMITED); } catch (LockObtainFailedException&) { refused = true; }
            IndexWriter::setDefaultWriteLockTimeout(was);
            VF_EQ(refused, locked(), "locks.writer.second", refused ? "a writer was refused though nobody holds the lock" : "a second writer was opened");
            if (n) { w = n; wdir = d; count("writers_opened"); } else count("writers_refused");
            break; }
        case 2: if (w) { if (r.oneIn(3)) { w->addDocument(doc()); w->commit(); ++left; } else if (r.oneIn(2)) w->close(); else w->rollback(); if (IndexWriter::isLocked(wdir)) { if (!r.oneIn(20)) break; } else w.reset(); } break;
        case 3: case 4: { // a reader that wants to change something
            if (locked() && !r.oneIn(4)) break; // (waits a second)
            if (idle.size() < 3) idle.push_back(IndexReader::open(dir(), false));
            size_t k = r.below(idle.size());
            bool refused = false, stale = false;
            try { idle[k]->deleteDocument((int32_t)r.below((uint64_t)idle[k]->maxDoc())); } catch (LockObtainFailedException&) { refused = true; } catch (StaleReaderException&) { stale = true; }
            if (locked() && !stale) VF_CHECK(refused, "locks.reader.second", "a reader could change the index while another holds its lock");
            if (!locked()) VF_CHECK(!refused, "locks.reader.free", "a reader was refused though nobody holds the lock");
            if (refused) count("readers_refused");
            if (!refused && !stale) { holder = idle[k]; idle.erase(idle.begin() + (long)k); count("readers_holding"); }
            break; }
        case 5: if (holder) { holder->close(); holder.reset(); } break;
        case 6: if (!idle.empty()) { size_t k = r.below(idle.size()); idle[k]->close(); idle.erase(idle.begin() + (long)k); } break; // releases nothing of others
        default: VF_EQ(IndexWriter::isLocked(d), locked(), "locks.isLocked", "");
        }
        VF_EQ(IndexWriter::isLocked(d), locked(), "locks.state", fmt("after op %d", op));
        count("writer_steps");
    }
    if (w) w->close();
    if (holder) holder->close();
    for (auto& i : idle) i->close();
    VF_CHECK(!IndexWriter::isLocked(dir()), "locks.left", "a lock is left after everything was closed");
}
VF_MODE(locks) {
    commanded(c);
    single(c);
    writers(c);
    if (c.no % 3 == 0) racing(c);
    if (wantSample()) sample(c.log.str());
}
VF_MAIN
