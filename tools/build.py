#!/usr/bin/env python3
"""Content-addressed builder for the sanitizer builds of /repo and of the harnesses.

  build.py VARIANT [HARNESS...]      build the library variant and the named harness programs

Objects live in /verif/.cache/obj/<key>.o where key hashes the compiler flags, the translation unit and
every project header it reaches (comments and blank space stripped, so that a comment does not trigger a
rebuild).  Nothing depends on time stamps: what is compiled is always what /repo's working tree says now.
"""
import hashlib, os, re, subprocess, sys, glob, json, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
OBJ = os.path.join(CACHE, "obj")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

UBSAN = ("alignment,bool,builtin,bounds,enum,float-cast-overflow,integer-divide-by-zero,nonnull-attribute,null,"
         "object-size,return,returns-nonnull-attribute,shift-exponent,unreachable,vla-bound")
COMMON = ["-std=c++17", "-fPIC", "-w", "-g1", "-fno-omit-frame-pointer", "-pthread"]
VARIANTS = {
    # address + undefined; BOOST_ASSERTs on and routed to harness/support/assert.cpp
    "asan": {"cxx": "clang++", "cc": "clang", "flags": ["-O1", "-fsanitize=address", "-fsanitize=" + UBSAN,
             "-DBOOST_ENABLE_ASSERT_HANDLER", "-D_GLIBCXX_ASSERTIONS"]},
    "tsan": {"cxx": "clang++", "cc": "clang", "flags": ["-O1", "-fsanitize=thread", "-DNDEBUG"]},
    # what users run: optimised, assertions off
    "plain": {"cxx": "clang++", "cc": "clang", "flags": ["-O1", "-DNDEBUG"]},
}
BOOST_LIBS = ["-lboost_date_time", "-lboost_filesystem", "-lboost_iostreams", "-lboost_regex", "-lboost_thread",
              "-lboost_system", "-lboost_chrono", "-lz"]


def gen_config():
    src = open(os.path.join(REPO, "include/config_h/Config.h.in")).read()
    for k, v in {"USE_BOOST_INTEGER": "undef", "USE_CYCLIC_CHECK": "undef", "LPP_SHARED_DLL": "define"}.items():
        src = src.replace("@%s@" % k, v)
    d = os.path.join(CACHE, "gen", hashlib.sha256(src.encode()).hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "Config.h")
    if not os.path.exists(p):
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(src)
        os.rename(p + ".%d" % os.getpid(), p)
    return d


def sources():
    out = []
    core, contrib = os.path.join(REPO, "src/core"), os.path.join(REPO, "src/contrib")
    for d in ("search", "analysis", "document", "index", "queryparser", "store"):
        out += glob.glob("%s/%s/**/*.cpp" % (core, d), recursive=True)
    for e in ("c", "cpp", "cc", "cxx"):
        out += glob.glob("%s/util/**/*.%s" % (core, e), recursive=True)
    for d in ("analyzers", "highlighter", "memory", "index", "snowball"):
        out += glob.glob("%s/%s/**/*.cpp" % (contrib, d), recursive=True)
    sb = contrib + "/snowball/libstemmer_c/"
    out += [sb + "libstemmer/libstemmer_utf8.c"]
    out += glob.glob(sb + "src_c/**/*.c", recursive=True) + glob.glob(sb + "runtime/**/*.c", recursive=True)
    return sorted(set(out))


def include_dirs():
    return [gen_config(), REPO + "/include/lucene++", REPO + "/src/core/include", REPO + "/src/contrib/include",
            REPO + "/src/contrib/snowball/libstemmer_c/include", VERIF + "/harness"]


STRIP = re.compile(r'//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\')', re.S)
INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', re.M)


class Hasher:
    def __init__(self, dirs):
        self.dirs, self.files, self.closures = dirs, {}, {}

    def load(self, path):
        if path not in self.files:
            text = open(path, encoding="utf-8", errors="surrogateescape").read()
            text = STRIP.sub(lambda m: m.group(1) or " ", text)
            body = "\n".join(l for l in (" ".join(x.split()) for x in text.split("\n")) if l)
            # Names relative to their tree, so the key does not depend on where a copy lies.
            deps = []
            for name in INC.findall(text):
                for d in [os.path.dirname(path)] + self.dirs:
                    p = os.path.normpath(os.path.join(d, name))
                    if os.path.isfile(p):
                        deps.append(p)
                        break
            self.files[path] = (hashlib.sha256(body.encode("utf-8", "surrogateescape")).hexdigest(), deps)
        return self.files[path]

    def closure(self, path):
        seen, todo = set(), [path]
        while todo:
            p = todo.pop()
            if p not in seen:
                seen.add(p)
                todo += self.load(p)[1]
        return seen

    def key(self, path, cmd):
        h = hashlib.sha256(json.dumps(cmd).encode())
        for d in sorted((os.path.basename(p), self.load(p)[0]) for p in self.closure(path)):
            h.update(repr(d).encode())
        return h.hexdigest()[:32]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class BuildError(Exception):
    pass


def compile_all(variant, srcs, hasher, extra):
    v = VARIANTS[variant]
    inc = ["-I" + d for d in hasher.dirs]
    jobs, objs = [], []
    for s in srcs:
        c = s.endswith(".c")
        cmd = [v["cc"] if c else v["cxx"]] + [f for f in COMMON if not (c and f.startswith("-std"))] + v["flags"] + extra(s)
        key = hasher.key(s, cmd)
        o = os.path.join(OBJ, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(s), cmd + inc + ["-c", s, "-o", o + ".%d.tmp" % os.getpid()], s, o))
    jobs.sort(reverse=True)

    def one(j):
        rc, out = run(j[1])
        if rc:
            return "%s:\n%s" % (j[2], "\n".join([l for l in out.split("\n") if "error:" in l][:12]) + "\n" + out[-3000:])
        os.replace(j[1][-1], j[3])
    with ThreadPoolExecutor(JOBS) as pool:
        errs = [e for e in pool.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))
    return objs, len(jobs)


def link(variant, objs, out_dir, name, args, shared):
    v = VARIANTS[variant]
    key = hashlib.sha256(json.dumps([objs, args, v["flags"], shared]).encode()).hexdigest()[:32]
    out = os.path.join(out_dir, name + "." + key + (".so" if shared else ""))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(out_dir, name + ".*")):
            if time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
        san = [f for f in v["flags"] if f.startswith("-fsanitize=")]
        rsp = out + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        lld = "/usr/lib/llvm-18/bin/ld.lld"
        fuse = ["--ld-path=" + lld] if os.path.exists(lld) else []
        cmd = [v["cxx"], "-pthread"] + fuse + san + (["-shared"] if shared else []) + ["@" + rsp] + args + ["-o", out + ".tmp"]
        rc, log = run(cmd)
        if rc:
            raise BuildError(log[-6000:])
        os.replace(out + ".tmp", out)
        os.unlink(rsp)
    os.utime(out)
    return out


def build(variant, harnesses, quiet=False):
    t0 = time.time()
    os.makedirs(OBJ, exist_ok=True)
    libdir = os.path.join(CACHE, "bin", variant)
    os.makedirs(libdir, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = Hasher(include_dirs())
        objs, n = compile_all(variant, sources() + sorted(glob.glob(VERIF + "/harness/support/*.cpp")), h,
                              lambda s: ["-DLPP_BUILDING_LIB", "-DLPP_HAVE_VERIF_HOOKS"])
        lib = link(variant, objs, libdir, "liblucene", BOOST_LIBS, True)
        bins, n2 = {}, 0
        for hn in harnesses:
            hobjs, k = compile_all(variant, [VERIF + "/harness/%s.cpp" % hn], h,
                                   lambda s: ["-DLPP_EXPOSE_INTERNAL", "-DLPP_HAVE_VERIF_HOOKS", "-fno-access-control"])
            n2 += k
            bins[hn] = link(variant, hobjs, libdir, hn, [lib, "-Wl,-rpath," + libdir] + BOOST_LIBS, False)
    if not quiet:
        print("build %s: %d library and %d harness objects compiled, %.1f s" % (variant, n, n2, time.time() - t0), flush=True)
    return lib, bins


if __name__ == "__main__":
    try:
        lib, bins = build(sys.argv[1], sys.argv[2:])
        print(lib, *bins.values())
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(4)
