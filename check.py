#!/usr/bin/env python3
"""Runs the monitors deciding one property of Easy-Factor-Graph.

usage: check.py <ID>              run the check (VERIF_SEED, VERIF_TIER)
       check.py <ID> --replay F   run again what a replay file describes
       check.py --build           build everything (setup)

exit 0: held on everything explored; exit 1 + VIOLATION line: violated;
exit 2: error of the check itself.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

COMMON = ["-std=c++17", "-w", "-DEFG_JSON_IO=1", "-pthread"]
VARIANTS = {
    "rel": ("g++", ["-O1", "-g1"]),
    "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVF_ASAN"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-DVF_TSAN"]),
    "cov": ("g++", ["-O0", "-g1", "--coverage", "-fprofile-abs-path"]),
}
ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=165",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4",
    "LC_ALL": "C.UTF-8",
}


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".hxx", ".inl", ".ipp", ".tpp")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + read(p))
    return h.hexdigest()


def compile_one(cmd, out):
    if os.path.exists(out):
        return
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    os.rename(tmp, out)


def plan(src, variant, libs):
    """-> (compilations, (link command, executable)) of harness/<src>, from the current tree"""
    cxx, flags = VARIANTS[variant]
    flags = COMMON + flags
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    srcdir = os.path.join(REPO, "src", "src")
    incs = ["-I" + os.path.join(REPO, "src", "header"), "-I" + srcdir]
    # optional parts of the library, with stand-ins of the libraries they use that are not available offline
    if "learn" in libs or "xml" in libs:
        incs.append("-I" + os.path.join(HARNESS, "stubs"))
    if "learn" in libs:
        flags = flags + ["-DEFG_LEARNING_ENABLED=1", "-isystem", "/usr/include/eigen3"]
    if "xml" in libs:
        flags = flags + ["-DEFG_XML_IO=1"]
    hh = headers_hash([os.path.join(REPO, "src"), os.path.join(HARNESS, "stubs")])
    jobs, objs = [], []
    for p in sorted(glob.glob(os.path.join(srcdir, "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, srcdir)
        if rel.startswith("io/json") and "json" not in libs:
            continue
        if rel.startswith("io/xml") and "xml" not in libs:
            continue
        o = os.path.join(out, "l%s.o" % sha(cxx, flags, REPO, rel, read(p), hh))
        jobs.append(([cxx] + flags + incs + ["-c", p], o))
        objs.append(o)
    hp = os.path.join(HARNESS, src + ".cpp")
    ho = os.path.join(out, "h%s.o" % sha(cxx, flags, REPO, src, read(hp), hh, headers_hash([HARNESS])))
    jobs.insert(0, ([cxx] + flags + incs + ["-I" + HARNESS, "-c", hp], ho))
    exe = os.path.join(out, "%s-%s" % (src, sha(ho, objs)))
    return jobs, ([cxx] + flags + [ho] + objs, exe)


def build_all(items):
    """builds many harnesses together -> their executables"""
    plans = [plan(*i) for i in items]
    todo = {}
    # the harnesses take longer, they start first
    for j in [p[0][0] for p in plans] + [j for p in plans for j in p[0][1:]]:
        todo.setdefault(j[1], j[0])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(compile_one, c, o) for o, c in todo.items()]:
            f.result()
        for f in [ex.submit(compile_one, *p[1]) for p in plans]:
            f.result()
    return [p[1][1] for p in plans]


def build(src, variant, libs):
    return build_all([(src, variant, libs)])[0]


def read_progress(p):
    try:
        return int(read(p).split()[0])
    except (OSError, IndexError, ValueError):
        return None


POLL = 0.2


def run_proc(cmd, env, log, progress, stall, limit, stop=lambda: False):
    """-> (kind, returncode). kind: exit | hang | budget"""
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env,
                             start_new_session=True, cwd=os.path.dirname(log))
        # the stall is counted in polls, as the time goes on also when the whole machine is suspended
        last, still, start = None, 0, time.time()
        while True:
            try:
                rc = p.wait(timeout=POLL)
                return "exit", rc
            except subprocess.TimeoutExpired:
                pass
            cur = read_progress(progress)
            still = still + 1 if cur == last else 0
            last = cur
            hang = still * POLL > stall
            if hang or time.time() - start > limit or stop():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                return ("hang" if hang else "budget"), None


def crash_key(text, rc):
    m = re.search(r"SUMMARY: (\w+): (\S+)(.*)", text)
    if m:
        where = re.search(r"in (\S+)", m.group(3))
        return "%s:%s:%s" % (m.group(1), m.group(2), where.group(1) if where else "?")
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "ub:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
    m = re.search(r"Assertion '(.*)' failed", text)
    if m:
        return "assertion:" + m.group(1)[:80]
    m = re.search(r"==\d+== ((?:Invalid|Conditional|Use of|Syscall|Mismatched).*)", text)
    if m:
        return "memcheck:" + m.group(1)[:60]
    m = re.search(r"terminate called.*", text)
    if m:
        return "terminate"
    return "crash:%s" % (signal.Signals(-rc).name if rc is not None and rc < 0 else rc)


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.failures = []
        self.notes = []
        self.stalls = []
        self.start = time.time()
        self.whole = 780 if tier == "quick" else 6 * 3600
        self.tot = {"done": 0, "counters": {}, "maxima": {}, "distinct": set(), "samples": []}
        self.per_run = []

    def left(self):
        """seconds left; few when there already is something to report"""
        left = self.whole - (time.time() - self.start)
        if self.failures and self.tier == "quick":
            left = min(left, 300 - (time.time() - self.start))
        return left

    def over(self):
        return self.left() <= 0 or any(f["key"] == "hang" for f in self.failures)

    def worker(self, run, exe, tmp, w, procs, n):
        """one of the processes of a run: goes on after a crash or a hang"""
        begin = w
        res = []
        guard = 0
        while begin < n and guard < 4 and not self.over():
            guard += 1
            tag = "%s-%d-%d" % (run["name"], w, guard)
            out, log, prog = (os.path.join(tmp, tag + e) for e in (".json", ".log", ".prog"))
            base = run.get("wrapper", []) + [exe, "--seed", str(self.seed), "--tier", self.tier]
            env = dict(os.environ)
            env.update(ENV)
            env.update(run.get("env", {}))
            cmd = base + ["--begin", str(begin), "--end", str(n), "--stride", str(procs),
                          "--progress", prog, "--out", out]
            stall = run.get("stall", 120)
            limit = run.get("limit", 420 if self.tier == "quick" else 7200)
            kind, rc = run_proc(cmd, env, log, prog, stall, limit, self.over)
            text = read(log).decode("utf-8", "replace")
            at = read_progress(prog)
            replay = {"run": run["name"], "src": run["src"], "variant": run["variant"],
                      "seed": self.seed, "tier": self.tier, "begin": begin, "stride": procs, "case": at}
            if kind == "budget":
                self.notes.append("%s: time budget reached at case %s (inconclusive for the rest)" % (tag, at))
                break
            if kind == "exit" and rc in (0, 1):
                try:
                    d = json.loads(read(out))
                except (OSError, ValueError):
                    raise CheckError("no output of %s (exit %s)\n%s" % (tag, rc, text[-3000:]))
                res.append(d)
                for f in d["failures"]:
                    r = dict(replay)
                    r["case"] = f["case"]
                    self.failures.append(dict(f, replay=r))
                break
            if kind == "exit" and rc == 3:
                raise CheckError("harness error in %s\n%s" % (tag, text[-3000:]))
            if at is None:
                raise CheckError("%s did not start (exit %s)\n%s" % (tag, rc, text[-3000:]))
            if kind == "hang" or rc == -signal.SIGKILL:
                # run again the case alone: a stall on a loaded machine is no verdict
                out2, log2, prog2 = (os.path.join(tmp, tag + "-again" + e) for e in (".json", ".log", ".prog"))
                cmd2 = base + ["--begin", str(at), "--end", str(at + 1), "--progress", prog2, "--out", out2]
                if kind == "hang":
                    self.stalls.append(at)
                for _ in range(5):
                    kind2, rc2 = run_proc(cmd2, env, log2, prog2, stall, 2 * stall, self.over)
                    if kind2 != "exit" or rc2 != 0:
                        break
                if kind2 == "budget" and self.over():
                    break
                if kind2 in ("hang", "budget"):
                    self.failures.append({"case": at, "key": "hang", "replay": replay, "desc": "",
                                          "msg": "no progress twice, in the run and alone"})
                elif rc2 == 0 and len(self.stalls) > 1:
                    self.failures.append({"case": at, "key": "hang", "replay": replay, "desc": "",
                                          "msg": "no progress for %d s in the cases %s" % (stall, self.stalls)})
                elif rc2 == 1:
                    d = json.loads(read(out2))
                    for f in d["failures"]:
                        self.failures.append(dict(f, replay=replay))
                elif rc2 != 0:
                    t2 = read(log2).decode("utf-8", "replace")
                    self.failures.append({"case": at, "key": crash_key(t2, rc2), "msg": t2[:6000],
                                          "desc": "", "replay": replay})
                else:
                    self.notes.append("%s: case %d stalled once, not when run again" % (tag, at))
            else:
                self.failures.append({"case": at, "key": crash_key(text, rc), "msg": text[-9000:],
                                      "desc": "", "replay": replay})
            begin = at + procs
        return res

    def run(self, run):
        t0 = time.time()
        exe = build(run["src"], run["variant"], run.get("libs", ()))
        tb = time.time() - t0
        n = run[self.tier]
        procs = max(1, min(run.get("procs", 8), n, os.cpu_count() or 4))
        if run["variant"] == "tsan":
            run = dict(run)
            run["wrapper"] = tsan_wrapper(exe, run)
        tmp = tempfile.mkdtemp(prefix="vf-%s-" % self.pid)
        try:
            with cf.ThreadPoolExecutor(max_workers=procs) as ex:
                fs = [ex.submit(self.worker, run, exe, tmp, w, procs, n) for w in range(procs)]
                parts = [d for f in fs for d in f.result()]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        done = 0
        for d in parts:
            done += d["done"]
            for k, v in d["counters"].items():
                self.tot["counters"][k] = self.tot["counters"].get(k, 0) + v
            for k, v in d["maxima"].items():
                self.tot["maxima"][k] = max(self.tot["maxima"].get(k, v), v)
            self.tot["distinct"] |= set(d["distinct"])
            self.tot["samples"] += d["samples"][:1]
        self.tot["done"] += done
        self.per_run.append({"run": run["name"], "instrumentation": run["variant"], "processes": procs,
                             "cases_requested": n, "cases_completed": done,
                             "build_s": round(tb, 1), "wall_s": round(time.time() - t0, 1)})


def tsan_wrapper(exe, run):
    env = dict(os.environ)
    env.update(ENV)
    for w in (run.get("wrapper", []), ["setarch", "-R"] + run.get("wrapper", [])):
        try:
            r = subprocess.run(w + [exe, "--begin", "0", "--end", "0"], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if r.returncode == 0:
            return w
    raise CheckError("the thread sanitizer can't run here")


def known_findings(pid):
    res = []
    try:
        for line in read(os.path.join(HERE, "known-findings.txt")).decode().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append({"key": m.group(2), "match": m.group(3), "what": m.group(4)})
    except OSError:
        pass
    return res


def matches(f, k):
    return f["key"] == k["key"] and (k["match"] == "-" or k["match"] in f.get("msg", "") + f.get("desc", ""))


def main_check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = PROPS[pid]
    r = Runner(pid, tier, seed)
    build_all(sorted({(run["src"], run["variant"], tuple(run.get("libs", ()))) for run in conf["runs"]}))
    for run in conf["runs"]:
        run = dict(run)
        run.setdefault("name", run["src"] + "-" + run["variant"])
        if r.over():
            r.notes.append("%s: not run, no time left" % run["name"])
            continue
        try:
            r.run(run)
        except CheckError as e:
            if not r.failures:
                raise
            r.notes.append(str(e)[:2000])
    known = known_findings(pid)
    hits, fresh = {}, []
    for f in r.failures:
        for k in known:
            if matches(f, k):
                hits[k["what"]] = k
                break
        else:
            fresh.append(f)
    cov = {
        "evaluations": r.tot["done"],
        "distinct_nontrivial": len(r.tot["distinct"]),
        "rule": conf["rule"],
        "samples": r.tot["samples"][:3],
        "observed": r.tot["counters"],
        "maxima": r.tot["maxima"],
        "runs": r.per_run,
    }
    if r.notes:
        cov["inconclusive"] = r.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
          "coverage": cov, "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for w in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for f in fresh:
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            rp = os.path.join(HERE, "replays", "%s-%s-%s.json" % (pid, f["replay"]["run"], f["case"]))
            with open(rp, "w") as fp:
                json.dump({"property": pid, "key": f["key"], "msg": f["msg"], "desc": f.get("desc", ""),
                           "replay": f["replay"]}, fp, indent=1)
            print("violated [%s] case %s: %s" % (f["key"], f["case"], f["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not r.tot["distinct"]:
        raise CheckError("nothing relevant was observed")
    print("%s: held on %d cases (%d distinct and non trivial), %.1f s; %s" % (
        pid, r.tot["done"], len(r.tot["distinct"]), time.time() - t0,
        " ".join("%s=%s" % kv for kv in sorted(r.tot["counters"].items()))))
    return 0


def main_replay(pid, path):
    d = json.loads(read(path))
    rp = d["replay"]
    conf = [x for x in PROPS[pid]["runs"] if x.get("name", x["src"] + "-" + x["variant"]) == rp["run"]][0]
    exe = build(conf["src"], conf["variant"], conf.get("libs", ()))
    env = dict(os.environ)
    env.update(ENV)
    env.update(conf.get("env", {}))
    wrapper = conf.get("wrapper", [])
    if conf["variant"] == "tsan":
        wrapper = tsan_wrapper(exe, conf)
    base = wrapper + [exe, "--seed", str(rp["seed"]), "--tier", rp["tier"]]
    bad = 0
    # the case alone, then with all what came before it in its process
    for cmd in ([base + ["--begin", str(rp["case"]), "--end", str(rp["case"] + 1), "--verbose", "1"]] * 3 +
                [base + ["--begin", str(rp["begin"]), "--end", str(rp["case"] + 1), "--stride", str(rp["stride"])]]):
        print("$ " + " ".join(cmd))
        bad = subprocess.run(cmd, env=env).returncode
        if bad:
            break
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main_build():
    todo = {}
    for p in PROPS.values():
        for run in p["runs"]:
            todo[(run["src"], run["variant"])] = tuple(run.get("libs", ()))
    t0 = time.time()
    build_all([(src, variant, libs) for (src, variant), libs in sorted(todo.items())])
    print("built %d harnesses in %.1f s" % (len(todo), time.time() - t0), flush=True)
    return 0


if __name__ == "__main__":
    try:
        if len(sys.argv) >= 2 and sys.argv[1] == "--build":
            sys.exit(main_build())
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            sys.exit(main_replay(sys.argv[1], sys.argv[3]))
        if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
            print(__doc__)
            sys.exit(2)
        sys.exit(main_check(sys.argv[1]))
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
