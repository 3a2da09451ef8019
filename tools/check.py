#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the monitored workloads of one property against a build of /repo's current tree.
exit 0: held on everything explored; 1: VIOLATION line printed; 3: no answer (does not build, ran nothing).
"""
import argparse, ctypes, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

TOOLS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(TOOLS)
sys.path.insert(0, TOOLS)
import build as B
from props import PROPS

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
STALL = int(os.environ.get("VERIF_STALL", "60"))
MAXV = 6

SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:suppressions=%s/harness/tsan.supp" % VERIF,
    "LSAN_OPTIONS": "exitcode=78:suppressions=%s/harness/lsan.supp" % VERIF,
    "LC_ALL": "C.UTF-8",
}


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def norm_fn(f):
    f = re.sub(r"boost::shared_ptr<([\w:]+)>", r"\1Ptr", f)
    f = re.sub(r"\(.*", "", f)
    f = re.sub(r"<.*", "", f)
    return f.strip().split(" ")[-1][:80]


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (\S*?/(?:src|include)/\S*?|\S*/harness/\S*?):(\d+)")


def frames(text):
    out = []
    for m in FRAME.finditer(text):
        if "/harness/support/" not in m.group(2):
            out.append((norm_fn(m.group(1)), os.path.basename(m.group(2))))
    return out


def crash_key(text, rc):
    m = re.search(r"VERIF-ASSERT ([^\n]*)", text)
    if m:
        return "assert:" + re.sub(r":\d+", "", m.group(1))[:140], text[m.start():][:4000]
    m = re.search(r"([^\n]*): runtime error: ([^\n]*)", text)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(2))
        where = os.path.basename(m.group(1).split(":")[0])
        fr = frames(text[m.start():])
        return "ubsan:%s:%s:%s" % (what[:60], where, fr[0][0] if fr else ""), text[max(0, m.start() - 100):][:4000]
    m = re.search(r"ERROR: (Address|Leak)Sanitizer:? ([^\n]*)", text)
    if m:
        fr = frames(text[m.start():])
        kind = m.group(2).split(" ")[0]
        return "asan:%s:%s" % (kind, fr[0][0] if fr else "?"), text[m.start():][:6000]
    m = re.search(r"terminate called[^\n]*\n?[^\n]*", text)
    if m:
        return "terminate:" + m.group(0)[:100].replace("\n", " "), text[m.start():][:3000]
    return "exit:%s" % rc, text[-3000:]


def tsan_reports(text):
    out = []
    for blk in re.split(r"={18}\n", text):
        if "WARNING: ThreadSanitizer" not in blk:
            continue
        kind = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]*)", blk).group(1).strip()
        stacks, cur = [], None
        for line in blk.split("\n"):
            if re.match(r"^  \S", line):
                cur = [line.strip(), None, []]
                stacks.append(cur)
            elif cur is not None and re.match(r"^    #\d", line):
                m = re.match(r"^    #\d+ (.*?) (\S+?)(?::\d+)*(?: \(.*)?$", line)
                if m:
                    cur[2].append((norm_fn(m.group(1)), m.group(2)))
        tops = []
        for head, _, fr in stacks:
            if re.match(r"(Read|Write|Previous|Atomic|Cycle|Mutex .* acquired here)", head) or "write of size" in head or "read of size" in head:
                t = next((f for f, path in fr if "/repo/" in path or "lucene" in path.lower() and "/include/boost" not in path and "/c++/" not in path), None)
                h = next((f for f, path in fr if "/harness/" in path), None)
                tops.append(t or h or (fr[0][0] if fr else "?"))
        out.append(("tsan:%s:%s" % (kind, "|".join(sorted(set(tops[:2])))), blk[:6000]))
    return out


class Status:
    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def get(self):
        return struct.unpack("QQ", self.m[:16])


def thread_states(pid):
    st, sw = [], 0
    for t in glob.glob("/proc/%d/task/*" % pid):
        try:
            s = open(t + "/stat").read().rsplit(")", 1)[1].split()
            st.append((s[0], int(s[11]) + int(s[12])))
        except (OSError, IndexError):
            pass
    return st


def stacks(pid):
    try:
        p = subprocess.run(["gdb", "-batch", "-p", str(pid), "-ex", "thread apply all bt 14"], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=60)
        lines = [l[:180] for l in p.stdout.decode("utf-8", "replace").split("\n") if re.match(r"^(Thread|#)", l)]
        return "\n".join(lines)[:12000]
    except Exception as e:
        return "no stacks: %s" % e


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.spec = PROPS[prop]
        self.lock = threading.Lock()
        self.viol, self.known_hit, self.counters, self.samples = [], {}, {}, []
        self.sigs = set()
        self.evals = 0
        self.stop = False
        self.notes = []
        self.known = known_findings(prop)
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix="vchk-%s-" % prop, dir=base)
        self.mono = int(os.environ.get("VERIF_BUDGET", "0")) or (self.spec.get("budget_quick", 150) if tier == "quick" else self.spec.get("budget_thorough", 3000))

    def add_violation(self, run, case, key, msg, extra=None):
        with self.lock:
            if self.spec.get("only_keys") and not re.match(self.spec["only_keys"], key):
                self.counters["other_reports_left_to_their_property"] = self.counters.get("other_reports_left_to_their_property", 0) + 1
                return
            for k in self.known:
                if re.fullmatch(k["key"], key) and (not k.get("msg") or re.search(k["msg"], msg, re.S)):
                    self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                    return
            self.viol.append({"run": run, "case": case, "key": key, "msg": msg})
            if len(self.viol) >= MAXV:
                self.stop = True

    def deadline(self):
        return time.time() - self.t0 > self.mono + self.build_s

    def exec_chunk(self, run, exe, a, b, wid, alone=False):
        """one process over cases [a,b); returns the next case to run"""
        d = os.path.join(self.tmp, "w%d" % wid)
        os.makedirs(d, exist_ok=True)
        out, err, stf, scr = d + "/out", d + "/err", d + "/status", d + "/scratch"
        for f in (out, out + ".sig", err):
            if os.path.exists(f):
                os.unlink(f)
        shutil.rmtree(scr, ignore_errors=True)
        os.makedirs(scr)
        st = Status(stf)
        env = dict(os.environ)
        env.update(SAN)
        env.update(run.get("env", {}))
        cmd = [exe, "--mode", run["mode"], "--seed", str(self.seed + run.get("seed_offset", 0)), "--from", str(a), "--to", str(b), "--tier", self.tier,
               "--out", out, "--status", stf, "--scratch", scr]
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env, start_new_session=True, cwd=scr)
        last, lastt, hang = None, time.time(), None
        stall = run.get("stall", STALL)
        while True:
            try:
                p.wait(0.05 if time.time() - lastt < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = st.get()
            if cur != last:
                last, lastt = cur, time.time()
            elif time.time() - lastt > stall:
                s1 = thread_states(p.pid)
                time.sleep(3)
                s2 = thread_states(p.pid)
                if st.get() != cur:
                    continue
                idle = all(x[0] in "SD" for x in s1 + s2) and sum(x[1] for x in s2) - sum(x[1] for x in s1) <= 3
                hang = ("blocked" if idle else "busy", stacks(p.pid))
                break
            if self.stop and not alone:
                break
            if self.deadline() and not alone:
                break
        finished = p.poll() is not None
        if not finished:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        else:
            try:  # children of the harness
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        case = st.get()[0] - 1
        text = open(err, "rb").read().decode("utf-8", "replace")
        done = max(0, case - a) if case >= a else 0
        got_stats = False
        if os.path.exists(out):
            for line in open(out, encoding="utf-8", errors="replace"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j["type"] == "violation":
                    self.add_violation(run, j["case"], j["key"], j["msg"])
                else:
                    got_stats = True
                    with self.lock:
                        for k, v in j["counters"].items():
                            if k.startswith("max_"):
                                self.counters[k] = max(self.counters.get(k, 0), v)
                            else:
                                self.counters[k] = self.counters.get(k, 0) + v
                        if len(self.samples) < 6:
                            self.samples += j["samples"][:2]
        if os.path.exists(out + ".sig"):
            data = open(out + ".sig", "rb").read()
            with self.lock:
                self.sigs.update(struct.unpack("%dQ" % (len(data) // 8), data))
        if run["variant"] == "tsan":
            for key, blk in tsan_reports(text):
                self.add_violation(run, a if a + 1 == b else "%d-%d" % (a, b), key, blk)
        if hang:
            kind, bt = hang
            if kind == "blocked" or alone:
                self.add_violation(run, case, "hang:" + kind, "no progress for %d s in case %d\n%s" % (stall, case, bt))
            else:
                with self.lock:
                    self.notes.append("case %d of %s stalled while busy, run again alone" % (case, run["mode"]))
                run.setdefault("again", []).append(case)
            nxt = case + 1
            done += 1
        elif not finished:
            nxt = b
        elif got_stats and (p.returncode == 0 or run["variant"] == "tsan" and p.returncode == 66):
            nxt, done = b, b - a
        elif got_stats and p.returncode == 78 or (got_stats and "LeakSanitizer" in text):
            key, msg = crash_key(text, p.returncode)
            self.add_violation(run, "%d-%d" % (a, b), key, msg)
            nxt, done = b, b - a
        elif case < a:
            raise RuntimeError("harness did not start: rc=%s %s" % (p.returncode, text[-2000:]))
        else:
            key, msg = crash_key(text, p.returncode)
            self.add_violation(run, case, key, "case %d ended with status %s\n%s" % (case, p.returncode, msg))
            nxt, done = case + 1, case - a + 1
        with self.lock:
            self.evals += done
        shutil.rmtree(d, ignore_errors=True)
        return nxt

    def go(self, only=None):
        bt = time.time()
        exes = {}
        need = {}
        for r in self.spec["runs"]:
            need.setdefault(r["variant"], set()).add(r["harness"])
        for v, hs in sorted(need.items()):
            exes[v] = B.build(v, sorted(hs), quiet=True)[1]
        self.build_s = time.time() - bt
        if only:
            run = next(r for r in self.spec["runs"] if r["mode"] == only["mode"] and r["variant"] == only["variant"])
            a, b = only["case"], only["case"] + 1
            if isinstance(a, str):
                a, b = [int(x) for x in a.split("-")]
            reps = only.get("repeat", 1)
            for i in range(reps):
                x = a
                while x < b:
                    x = self.exec_chunk(run, exes[run["variant"]][run["harness"]], x, b, 0, alone=True)
                if self.viol:
                    break
            return
        work = []
        for ri, r in enumerate(self.spec["runs"]):
            n = r["quick"] if self.tier == "quick" else r["thorough"]
            n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
            ch = r.get("chunk") or max(1, min(200, n // (JOBS * r.get("rounds", 4)) or 1))
            items = [(r, s, min(s + ch, n)) for s in range(0, n, ch)]
            work.append(items)
        # interleave the runs so that a deadline cuts all of them evenly
        queue = []
        total = sum(len(w) for w in work)
        order = []
        for w in work:
            for i, it in enumerate(w):
                order.append(((i + 1) / len(w), it))
        order.sort(key=lambda x: x[0])
        queue = [it for _, it in order]
        pos = [0]
        errs = []
        width = min([JOBS] + [r.get("jobs", JOBS) for r in self.spec["runs"]])

        def worker(wid):
            while True:
                with self.lock:
                    if pos[0] >= len(queue) or self.stop or errs:
                        return
                    if self.deadline():
                        return
                    run, a, b = queue[pos[0]]
                    pos[0] += 1
                try:
                    while a < b and not self.stop and not self.deadline():
                        a = self.exec_chunk(run, exes[run["variant"]][run["harness"]], a, b, wid)
                except Exception as e:
                    with self.lock:
                        errs.append(repr(e))
                    return
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(width)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for run in self.spec["runs"]:
            for case in run.get("again", [])[:2]:
                if not self.viol:
                    self.exec_chunk(run, exes[run["variant"]][run["harness"]], case, case + 1, 0, alone=True)
        if pos[0] < len(queue):
            self.notes.append("time budget reached after %d of %d work items" % (pos[0], len(queue)))
        if errs and not self.viol:
            raise RuntimeError(errs[0])

    def finish(self, replaying):
        shutil.rmtree(self.tmp, ignore_errors=True)
        rc = 0
        for k in self.known:
            if not replaying and self.known_hit.get(k["id"]):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            elif not replaying and k.get("always"):
                print("KNOWN-FINDING: property=%s %s (not met in this run)" % (self.prop, k["what"]))
        ev = os.path.join(VERIF, "evidence")
        seen = set()
        if self.viol:
            rc = 1
            os.makedirs(ev + "/replay", exist_ok=True)
            for v in self.viol:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                h = hashlib.sha256((v["key"] + str(v["case"])).encode()).hexdigest()[:10]
                path = "%s/replay/%s-%s.json" % (ev, self.prop, h)
                r = v["run"]
                if not replaying:
                    json.dump({"property": self.prop, "harness": r["harness"], "mode": r["mode"], "variant": r["variant"], "seed": self.seed,
                               "tier": self.tier, "case": v["case"], "repeat": r.get("replay_repeat", 1), "key": v["key"], "msg": v["msg"]},
                              open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  key: %s\n  case: %s of %s/%s seed %d\n  %s" % (v["key"], v["case"], r["harness"], r["mode"], self.seed, v["msg"][:3000].replace("\n", "\n  ")))
        if not replaying:
            os.makedirs(ev, exist_ok=True)
            cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.sigs), "rule": self.spec["rule"],
                   "samples": [s for s in self.samples][:4], "observed": dict(sorted(self.counters.items())),
                   "workloads": ["%s/%s on the %s build" % (r["harness"], r["mode"], r["variant"]) for r in self.spec["runs"]],
                   "notes": self.notes, "known_findings_met": self.known_hit, "build_s": round(self.build_s, 1)}
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.spec.get("level", "exploration"), "coverage": cov,
                       "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(seen)},
                      open("%s/%s.json" % (ev, self.prop), "w"), indent=1)
            if rc == 0 and (self.evals == 0 or any(self.counters.get(c, 0) <= 0 for c in self.spec.get("must_observe", []))):
                print("no answer: the workload did not reach what it has to observe: %s" % {c: self.counters.get(c, 0) for c in self.spec.get("must_observe", [])})
                return 3
            if rc == 0:
                print("%s held: %d executions, %d distinct, %.1f s (build %.1f s)" % (self.prop, self.evals, len(self.sigs), time.time() - self.t0, self.build_s))
        elif rc == 0:
            print("replay of %s: no violation" % self.prop)
        return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        a.seed, a.tier = only["seed"], only["tier"]
    r = Runner(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    try:
        r.go(only)
    except B.BuildError as e:
        shutil.rmtree(r.tmp, ignore_errors=True)
        print("no answer: build failed\n%s" % e)
        return 3
    except RuntimeError as e:
        shutil.rmtree(r.tmp, ignore_errors=True)
        print("no answer: %s" % e)
        return 3
    return r.finish(bool(only))


if __name__ == "__main__":
    sys.exit(main())
