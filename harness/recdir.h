// A directory that records every operation, keeps what has been synced apart from what has not, and can be told to fail.
#ifndef VERIF_RECDIR_H
#define VERIF_RECDIR_H
#include "verif.h"
#include "Directory.h"
#include "BufferedIndexInput.h"
#include "BufferedIndexOutput.h"
#include "SingleInstanceLockFactory.h"

namespace vf {
using namespace Lucene;

struct MemFile {
    std::string data;      // what a running process sees
    std::string durable;   // what survives for certain
    bool everSynced = false, dirty = true;
    int outputs = 0, inputs = 0;
    uint64_t hash() const { return Hash().add(data).h; }
};
typedef std::shared_ptr<MemFile> MemFilePtr;

// What a crash may leave: for every name the versions of the file that may be found.
struct CrashImage {
    struct V { std::string data, durable; bool everSynced, dirty, deleted; };
    std::map<std::string, std::vector<V>> files;
    uint64_t opNo = 0;
    std::string op;
};

struct RecStore {
    std::recursive_mutex m;
    std::map<std::string, MemFilePtr> files;
    std::vector<std::pair<std::string, MemFilePtr>> ghosts;  // deleted or overwritten, the removal may not be durable
    uint64_t ops = 0;
    int64_t used = 0, capacity = -1;
    bool windows = false;      // open files cannot be deleted
    int openInputs = 0, openOutputs = 0;
    std::map<std::string, int64_t> kinds;
    // called before an operation takes effect; may throw
    std::function<void(const char* kind, const std::string& name)> before;
    std::function<void()> onFull;  // called when the disk is full, before the operation fails
    uint64_t created = 0, deleted = 0, overwritten = 0;

    void op(const char* kind, const std::string& name) {
        std::lock_guard<std::recursive_mutex> l(m);
        ++ops;
        ++kinds[kind];
        if (before) before(kind, name);
    }
    CrashImage image() {
        std::lock_guard<std::recursive_mutex> l(m);
        CrashImage im;
        im.opNo = ops;
        for (auto& f : files) im.files[f.first].push_back({f.second->data, f.second->durable, f.second->everSynced, f.second->dirty, false});
        size_t from = ghosts.size() > 12 ? ghosts.size() - 12 : 0;
        for (size_t i = from; i < ghosts.size(); ++i) {
            auto& f = ghosts[i];
            im.files[f.first].push_back({f.second->data, f.second->durable, f.second->everSynced, f.second->dirty, true});
        }
        return im;
    }
    std::set<std::string> names() {
        std::lock_guard<std::recursive_mutex> l(m);
        std::set<std::string> s;
        for (auto& f : files) s.insert(f.first);
        return s;
    }
    uint64_t hashOf(const std::string& n) {
        std::lock_guard<std::recursive_mutex> l(m);
        auto it = files.find(n);
        return it == files.end() ? 0 : it->second->hash();
    }
};
typedef std::shared_ptr<RecStore> RecStorePtr;

class RecInput : public BufferedIndexInput {
public:
    RecStorePtr st;
    MemFilePtr f;
    std::string name;
    int64_t pos = 0;
    bool isClone = false, open = true;
    RecInput(const RecStorePtr& s, const MemFilePtr& file, const std::string& n, int32_t bufSize) : BufferedIndexInput(bufSize), st(s), f(file), name(n) {
        std::lock_guard<std::recursive_mutex> l(st->m);
        ++f->inputs;
        ++st->openInputs;
    }
    RecInput() { open = false; isClone = true; }
    virtual ~RecInput() {}
    LUCENE_CLASS(RecInput);
    virtual void readInternal(uint8_t* b, int32_t offset, int32_t length) {
        st->op("read", name);
        std::lock_guard<std::recursive_mutex> l(st->m);
        int64_t at = getFilePointer();
        if (at < 0 || at + length > (int64_t)f->data.size()) boost::throw_exception(IOException(L"verif: read past EOF"));
        memcpy(b + offset, f->data.data() + at, (size_t)length);
    }
    virtual void seekInternal(int64_t p) { pos = p; }
    virtual int64_t length() {
        std::lock_guard<std::recursive_mutex> l(st->m);
        return (int64_t)f->data.size();
    }
    virtual void close() {
        if (!isClone && open) {
            std::lock_guard<std::recursive_mutex> l(st->m);
            open = false;
            --f->inputs;
            --st->openInputs;
        }
    }
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr()) {
        LuceneObjectPtr c = BufferedIndexInput::clone(other ? other : newLucene<RecInput>());
        boost::shared_ptr<RecInput> r = boost::dynamic_pointer_cast<RecInput>(c);
        r->st = st;
        r->f = f;
        r->name = name;
        r->pos = pos;
        r->isClone = true;
        return c;
    }
};

class RecOutput : public BufferedIndexOutput {
public:
    RecStorePtr st;
    MemFilePtr f;
    std::string name;
    int64_t pos = 0;
    bool open = true;
    RecOutput(const RecStorePtr& s, const MemFilePtr& file, const std::string& n) : st(s), f(file), name(n) {
        std::lock_guard<std::recursive_mutex> l(st->m);
        ++f->outputs;
        ++st->openOutputs;
    }
    virtual ~RecOutput() {}
    LUCENE_CLASS(RecOutput);
    virtual void flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
        if (length == 0) return;
        st->op("write", name);
        std::lock_guard<std::recursive_mutex> l(st->m);
        int64_t n = length;
        bool full = false;
        int64_t grow = std::max<int64_t>(0, pos + n - (int64_t)f->data.size());
        if (st->capacity >= 0 && st->used + grow > st->capacity) {
            full = true;
            n = std::max<int64_t>(0, n - (st->used + grow - st->capacity));
        }
        if ((int64_t)f->data.size() < pos + n) { st->used += pos + n - (int64_t)f->data.size(); f->data.resize((size_t)(pos + n)); }
        memcpy(&f->data[0] + pos, b + offset, (size_t)n);
        f->dirty = true;
        pos += n;
        if (full && st->onFull) st->onFull();
        if (full) boost::throw_exception(IOException(L"verif: disk full"));
    }
    virtual void seek(int64_t p) { BufferedIndexOutput::seek(p); pos = p; }
    virtual int64_t length() {
        std::lock_guard<std::recursive_mutex> l(st->m);
        return (int64_t)f->data.size();
    }
    virtual void close() {
        if (!open) return;
        // the descriptor is released even when the last write fails
        LuceneException finally;
        try { BufferedIndexOutput::close(); } catch (LuceneException& e) { finally = e; }
        {
            std::lock_guard<std::recursive_mutex> l(st->m);
            open = false;
            --f->outputs;
            --st->openOutputs;
        }
        finally.throwException();
        st->op("closeout", name);
    }
};

class RecDir : public Directory {
public:
    RecStorePtr st;
    RecDir(const RecStorePtr& s = std::make_shared<RecStore>()) : st(s) { setLockFactory(newLucene<SingleInstanceLockFactory>()); }
    virtual ~RecDir() {}
    LUCENE_CLASS(RecDir);
    static std::string n8(const String& n) { return u8(n); }
    virtual HashSet<String> listAll() {
        st->op("list", "");
        std::lock_guard<std::recursive_mutex> l(st->m);
        HashSet<String> r = HashSet<String>::newInstance();
        for (auto& f : st->files) r.add(ws(f.first));
        return r;
    }
    virtual bool fileExists(const String& name) {
        std::lock_guard<std::recursive_mutex> l(st->m);
        return st->files.count(n8(name)) > 0;
    }
    virtual uint64_t fileModified(const String& name) { return 1000; }
    virtual void touchFile(const String& name) {}
    virtual void deleteFile(const String& name) {
        std::string n = n8(name);
        std::lock_guard<std::recursive_mutex> l(st->m);
        if (!st->files.count(n)) boost::throw_exception(IOException(L"verif: delete of missing file " + name));
        if (st->windows && (st->files[n]->inputs > 0 || st->files[n]->outputs > 0)) boost::throw_exception(IOException(L"verif: cannot delete open file " + name));
        st->op("delete", n);
        MemFilePtr f = st->files[n];
        st->used -= (int64_t)f->data.size();
        st->ghosts.push_back({n, f});
        st->files.erase(n);
        ++st->deleted;
    }
    virtual int64_t fileLength(const String& name) {
        std::lock_guard<std::recursive_mutex> l(st->m);
        auto it = st->files.find(n8(name));
        if (it == st->files.end()) boost::throw_exception(FileNotFoundException(name));
        return (int64_t)it->second->data.size();
    }
    virtual IndexOutputPtr createOutput(const String& name) {
        std::string n = n8(name);
        std::lock_guard<std::recursive_mutex> l(st->m);
        st->op("create", n);
        if (st->files.count(n)) {
            st->used -= (int64_t)st->files[n]->data.size();
            st->ghosts.push_back({n, st->files[n]});
            ++st->overwritten;
        }
        MemFilePtr f = std::make_shared<MemFile>();
        st->files[n] = f;
        ++st->created;
        return newLucene<RecOutput>(st, f, n);
    }
    virtual IndexInputPtr openInput(const String& name) { return openInput(name, BufferedIndexInput::BUFFER_SIZE); }
    virtual IndexInputPtr openInput(const String& name, int32_t bufferSize) {
        std::string n = n8(name);
        std::lock_guard<std::recursive_mutex> l(st->m);
        st->op("open", n);
        auto it = st->files.find(n);
        if (it == st->files.end()) boost::throw_exception(FileNotFoundException(name));
        return newLucene<RecInput>(st, it->second, n, bufferSize);
    }
    virtual void sync(const String& name) {
        std::string n = n8(name);
        std::lock_guard<std::recursive_mutex> l(st->m);
        st->op("sync", n);
        auto it = st->files.find(n);
        if (it == st->files.end()) boost::throw_exception(FileNotFoundException(name));
        // a journalling file system: what a sync makes durable includes the removals (of any file) before it
        st->ghosts.clear();
        it->second->durable = it->second->data;
        it->second->everSynced = true;
        it->second->dirty = false;
    }
    virtual void close() { isOpen = false; }
    virtual String getLockID() { return L"verif-recdir"; }
};
typedef boost::shared_ptr<RecDir> RecDirPtr;

// One of the directories that may be found after the crash.
inline RecStorePtr afterCrash(const CrashImage& im, Rng& r, int style) {
    // style 0: everything unsynced lost; 1: everything as it was; 2: any combination
    RecStorePtr s = std::make_shared<RecStore>();
    for (auto& kv : im.files) {
        std::vector<const CrashImage::V*> live, gone;
        for (auto& v : kv.second) (v.deleted ? gone : live).push_back(&v);
        const CrashImage::V* v = live.empty() ? nullptr : live[0];
        if (style == 2 && !gone.empty() && !(v && v->everSynced) && r.oneIn(3)) v = gone.back();  // the removal or replacement was lost (a sync makes the name durable too)
        if (style == 0 && v && !v->everSynced && !gone.empty() && gone.back()->everSynced && r.oneIn(2)) v = gone.back();
        if (!v) continue;
        MemFilePtr f = std::make_shared<MemFile>();
        bool lossy = v->dirty;
        if (!lossy || style == 1) f->data = v->data;
        else if (style == 0) {
            if (!v->everSynced) continue;
            f->data = v->durable;
        } else {
            const std::string& d = v->data;
            switch (r.below(6)) {
            case 0: if (!v->everSynced) continue; f->data = v->durable; break;
            case 1: f->data = d; break;
            case 2: f->data = ""; break;
            case 3: f->data = d.substr(0, (size_t)r.below(d.size() + 1)); break;
            case 4: f->data = std::string(d.size(), '\0'); break;
            default: {
                f->data = d;
                size_t cut = (size_t)r.below(d.size() + 1);
                for (size_t i = cut; i < d.size(); ++i) f->data[i] = (char)(r.oneIn(2) ? 0 : r.below(256));
            }
            }
            if (v->everSynced && f->data.size() < v->durable.size()) f->data = v->durable;
            if (v->everSynced) for (size_t i = 0; i < v->durable.size(); ++i) f->data[i] = v->durable[i];
        }
        f->durable = f->data;
        f->everSynced = true;
        f->dirty = false;
        s->used += (int64_t)f->data.size();
        s->files[kv.first] = f;
    }
    return s;
}
}
#endif
