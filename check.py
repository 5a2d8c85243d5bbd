#!/usr/bin/env python3
"""Runtime-monitoring checks for mini_opt.

  check.py C07                  run the check of a property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C07 --tier thorough
  check.py C07 --replay FILE    rerun the case recorded in a replay file
  check.py --selftest           verify the toolchain (setup_cmd)
  check.py --list

Every check compiles the library sources of /repo's working tree together with a driver from
harness/, runs the driver on generated workloads (sharded over the cores) and turns what its
oracles and the sanitizers report into a verdict:
  exit 0  the property held on everything observed (known findings are printed)
  exit 1  a line "VIOLATION property=<id> replay=<path>"
  exit 2  no verdict (build failure of the harness, watchdog, nothing observed)
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MINI_OPT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)

CPUS = max(1, min(8, os.cpu_count() or 1))

DEFS = ["-DMINI_OPT_SERIALIZATION", "-DMINI_OPT_TRACING", "-DFMT_HEADER_ONLY"]
INCS = ["-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3", "-I" + HARNESS]
NO_EIGEN = ["-DNDEBUG", "-DEIGEN_NO_DEBUG"]
# Eigen forms references to elements of empty matrices: the null/alignment/pointer groups only
# report those, while real out-of-bounds accesses are reported by ASan and by Eigen's assertions.
UBSAN = ["-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr,object-size,pointer-overflow,function",
         "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # as shipped (NDEBUG), cheap to build
    "plain": dict(cxx="g++", flags=["-O1", "-g1"] + NO_EIGEN, link=["-lpthread"]),
    # -O2 like the release build, for long runs
    "fast": dict(cxx="g++", flags=["-O2", "-g1"] + NO_EIGEN, link=["-lpthread"]),
    # memory / UB sanitizers plus Eigen's own dimension assertions
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"] + UBSAN + ["-include", os.path.join(HARNESS, "eigen_hook.hpp")],
                 link=["-fsanitize=address,undefined", "-lpthread"], extra=["eigen_hook.cc"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-w", "-fsanitize=thread"] + NO_EIGEN,
                 link=["-fsanitize=thread", "-lpthread"]),
    # without tracing: the lock of the trace collector would order the threads and hide races
    "tsan_notrace": dict(cxx="clang++", defs=[d for d in DEFS if "TRACING" not in d], flags=["-O1", "-g1", "-w", "-fsanitize=thread"] + NO_EIGEN,
                         link=["-fsanitize=thread", "-lpthread"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-w", "-fsanitize=fuzzer-no-link"] + UBSAN + NO_EIGEN,
                 link=["-fsanitize=fuzzer,address,undefined", "-lpthread"]),
    # what valgrind can digest
    "valgrind": dict(cxx="g++", flags=["-O1", "-g1", "-DVH_NO_HEAP"] + NO_EIGEN, link=["-lpthread"]),
}

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1",
}


VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes"]


class NoVerdict(Exception):
    pass


# --------------------------------------------------------------------------------------------
# Building

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def repo_sources():
    src = sorted(glob.glob(os.path.join(REPO, "source", "**", "*.cc"), recursive=True) +
                 glob.glob(os.path.join(REPO, "source", "**", "*.cpp"), recursive=True))
    if not src:
        raise NoVerdict("no sources under %s/source" % REPO)
    return src


def header_digest():
    parts = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "source")):
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".inl", ".ipp", ".tpp")):
                    parts.append(f)
                    parts.append(read(os.path.join(d, f)))
    return sha(*parts)


def compile_one(cxx, flags, src, digest):
    key = sha(cxx, " ".join(flags), src, read(src), digest)
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cmd = [cxx, "-std=c++17"] + flags + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise NoVerdict("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    os.replace(tmp, out)
    return out


def build(pairs):
    """Build {(driver, variant)}; returns {(driver, variant): path}."""
    hd = header_digest()
    harness_hd = sha(*[read(p) for p in sorted(glob.glob(os.path.join(HARNESS, "*.hpp")))])
    tasks = {}
    for drv, var in pairs:
        v = VARIANTS[var]
        flags = v["flags"] + v.get("defs", DEFS) + INCS
        for s in repo_sources():
            tasks[(v["cxx"], tuple(flags), s, hd)] = None
        for s in [drv + ".cc"] + v.get("extra", []):
            tasks[(v["cxx"], tuple(flags), os.path.join(HARNESS, s), sha(hd, harness_hd))] = None
    # biggest first
    order = sorted(tasks, key=lambda t: -os.path.getsize(t[2]) - (10 ** 7 if t[2].endswith("qp.cc") else 0))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = {t: ex.submit(compile_one, t[0], list(t[1]), t[2], t[3]) for t in order}
        for t, f in futs.items():
            tasks[t] = f.result()
    out = {}

    def link(drv, var):
        v = VARIANTS[var]
        flags = v["flags"] + v.get("defs", DEFS) + INCS
        objs = []
        for s in [drv + ".cc"] + v.get("extra", []):
            objs.append(tasks[(v["cxx"], tuple(flags), os.path.join(HARNESS, s), sha(hd, harness_hd))])
        for s in repo_sources():
            objs.append(tasks[(v["cxx"], tuple(flags), s, hd)])
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (drv, var, sha(*objs)))
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([v["cxx"]] + objs + v["link"] + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise NoVerdict("linking %s failed:\n%s" % (drv, r.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, exe)
        return exe

    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = {p: ex.submit(link, *p) for p in pairs}
        for p, f in fs.items():
            out[p] = f.result()
    return out


# --------------------------------------------------------------------------------------------
# Running

def san_summary(err):
    """A short, stable key for what a sanitizer (or Eigen's assertion hook) reported."""
    m = re.search(r"EIGEN-ASSERT: (.*)", err)
    if m:
        cond = re.sub(r" at .*?([^/]+:\d+)$", r" at \1", m.group(1))
        return "eigen-assert:" + cond[:140]
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Syscall param|Mismatched|"
                  r"Source and destination)[^\n]*)", err)
    if m:
        fm = re.search(r"(?:at|by) 0x[0-9A-F]+: (mini_opt[^\n(]*|[^\n(]*mini_opt[^\n(]*)", err)
        return "valgrind:%s:%s" % (m.group(1)[:60], re.sub(r"<[^>]*>", "", fm.group(1))[:80].strip() if fm else "")
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", err)
    loc = ""
    fm = re.search(r"#\d+ 0x[0-9a-f]+ in ([^\n]*mini_opt[^\n(]*)", err)
    if fm:
        loc = re.sub(r"<[^>]*>", "", fm.group(1))[:80].strip()
    if m:
        return "san:%s:%s:%s" % (m.group(1), m.group(2), loc)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "san:UBSan:" + re.sub(r"[0-9.e+-]+", "#", m.group(1))[:100]
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "terminate:" + m.group(1)
    return None


class Shard:
    def __init__(self, job, exe, idx, start, end, tmp, seed, prop, wrapper=None):
        self.job, self.exe, self.idx, self.start, self.end = job, exe, idx, start, end
        self.progress = os.path.join(tmp, "p%s_%d" % (job["id"], idx))
        self.sigs = os.path.join(tmp, "s%s_%d" % (job["id"], idx))
        self.out = os.path.join(tmp, "o%s_%d" % (job["id"], idx))
        self.err = os.path.join(tmp, "e%s_%d" % (job["id"], idx))
        self.tmp, self.seed, self.prop = tmp, seed, prop
        self.wrapper = wrapper or []

    def cmd(self, only=None, start=None, end=None):
        c = self.wrapper + [self.exe, "--seed", str(self.seed), "--start", str(self.start if start is None else start),
                            "--cases", str(self.end if end is None else end)]
        if self.prop:
            c += ["--prop", self.prop]
        for k, v in self.job.get("args", {}).items():
            c += ["--" + k, str(v)]
        if only is not None:
            c += ["--only", str(only)]
        return c

    def env(self):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(self.job.get("env", {}))
        e["VH_TMP"] = self.tmp
        return e

    def run(self, stop):
        """Returns (status, detail): status in ok, crash, hang, error."""
        c = self.cmd() + ["--progress", self.progress, "--sigs", self.sigs]
        limit = self.job.get("case_limit", 60)
        with open(self.out, "wb") as fo, open(self.err, "wb") as fe:
            p = subprocess.Popen(c, stdout=fo, stderr=fe, env=self.env(), cwd=self.tmp, start_new_session=True)
            last, since = None, time.monotonic()
            while True:
                try:
                    p.wait(0.1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.current()
                now = time.monotonic()
                if cur != last:
                    last, since = cur, now
                elif now - since > limit:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    return "hang", (cur if cur is not None else self.start)
                if stop():
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    return "stopped", None
        if p.returncode in (0, 3):
            return "ok", None
        if p.returncode == -signal.SIGKILL:
            return "error", "killed (out of memory?)"
        return "crash", p.returncode

    def current(self):
        try:
            with open(self.progress) as f:
                return int(f.read().strip())
        except (OSError, ValueError):
            return None

    def lines(self):
        res = []
        with open(self.out, errors="replace") as f:
            for line in f:
                if line.startswith("{"):
                    try:
                        res.append(json.loads(line))
                    except ValueError:
                        pass
        return res


def rerun(shard, only, limit, start=None, end=None):
    """Run one case again. Returns ('ok'|'crash'|'hang', returncode, stderr, lines)."""
    c = shard.cmd(only=only, start=start, end=end)
    try:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=shard.env(), timeout=limit,
                           cwd=shard.tmp, start_new_session=True)
    except subprocess.TimeoutExpired:
        return "hang", None, "", []
    lines = []
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("{"):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
    return ("ok" if r.returncode in (0, 3) else "crash"), r.returncode, r.stderr.decode(errors="replace"), lines


def load_known():
    known, fixed = [], []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
            if m:
                fixed.append(dict(property=m.group(1), commit=m.group(2), what=m.group(3)))
    return known, fixed


def run_check(prop, cfg, tier, seed, t0):
    jobs = []
    for i, j in enumerate(cfg["jobs"]):
        if j.get("tier", tier) != tier and not (j.get("tier") == "both"):
            continue
        j = dict(j)
        j["id"] = i
        jobs.append(j)
    exes = build(sorted({(j["driver"], j["variant"]) for j in jobs}))
    t_build = time.time() - t0
    tmp = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    violations, counters, samples, sigs = [], {}, [], set()
    evaluations = 0
    errors = []
    try:
        for j in jobs:
            exe = exes[(j["driver"], j["variant"])]
            cases = j["cases"] if tier == "quick" else j.get("thorough", j["cases"] * 20)
            nsh = min(j.get("shards", CPUS), max(1, cases))
            bounds = [cases * k // nsh for k in range(nsh + 1)]
            wrapper = j.get("wrapper") or (VALGRIND if j["variant"] == "valgrind" else None)
            shards = [Shard(j, exe, k, bounds[k], bounds[k + 1], tmp, seed, None if j.get("all_props") else prop, wrapper)
                      for k in range(nsh)]
            stopflag = threading.Event()
            with cf.ThreadPoolExecutor(nsh) as ex:
                res = list(ex.map(lambda s: s.run(stopflag.is_set), shards))
            tag = j.get("tag", "%s%s" % (j["driver"], ("-" + j["variant"]) if j["variant"] not in ("plain", "fast") else ""))
            for s, (st, detail) in zip(shards, res):
                summary = None
                for l in s.lines():
                    if l.get("t") == "violation":
                        violations.append(dict(key=l["key"], msg=l["msg"], shard=s, case=l["case"], kind="oracle"))
                    elif l.get("t") == "summary":
                        summary = l
                if summary:
                    evaluations += summary["evaluations"]
                    for k, v in summary["counters"].items():
                        if v is None:
                            v = float("inf")
                        if k.startswith("max:"):
                            counters[k] = max(counters.get(k, -1e308), v)
                        else:
                            counters[k] = counters.get(k, 0) + v
                    samples += [x for x in summary["samples"]]
                    try:
                        raw = read(s.sigs)
                        sigs.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
                    except OSError:
                        pass
                if st == "error":
                    errors.append("%s shard %d: %s" % (tag, s.idx, detail))
                elif st == "hang":
                    lim = max(2 * j.get("case_limit", 60), 120)
                    st2, _, _, _ = rerun(s, detail, lim)
                    if st2 == "hang":
                        violations.append(dict(key="hang", msg="case %d did not finish within %d s, twice" % (detail, lim),
                                               shard=s, case=detail, kind="hang"))
                    else:
                        errors.append("%s shard %d: case %d exceeded the watchdog once and finished when run again" % (tag, s.idx, detail))
                elif st == "crash":
                    err = read(s.err).decode(errors="replace")
                    cur = s.current()
                    key = san_summary(err)
                    if key is None and detail < 0:
                        key = "signal:%d" % -detail
                    if key is None:
                        errors.append("%s shard %d: exit code %s\n%s" % (tag, s.idx, detail, err[-2000:]))
                    else:
                        violations.append(dict(key=key, msg=err[:6000], shard=s, case=cur if cur is not None else s.start, kind="crash"))
                elif summary is None and st == "ok":
                    errors.append("%s shard %d: no summary" % (tag, s.idx))
    finally:
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)

    known, _ = load_known()
    mine = [k for k in known if k["property"] == prop]
    new, seen_known = [], {}
    for v in violations:
        if any(k["key"] == v["key"] for k in mine):
            seen_known[v["key"]] = seen_known.get(v["key"], 0) + 1
        else:
            new.append(v)

    # required observations: a run that did not see what it is meant to see gives no verdict
    missing = []
    for name, least in cfg.get("require", {}).items():
        if counters.get(name, 0) < least * (1 if tier == "quick" else 1):
            missing.append("%s: %s < %s" % (name, counters.get(name, 0), least))
    ev = dict(
        property=prop, tier=tier, seed=seed, level=cfg["level"],
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(sigs), rule=cfg["rule"],
                      samples=samples[:6] or ["none"], observed=counters,
                      jobs=[dict(driver=j["driver"], variant=j["variant"], args=j.get("args", {}),
                                 cases=(j["cases"] if tier == "quick" else j.get("thorough", j["cases"] * 20))) for j in jobs]),
        assumptions=cfg.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    ev["coverage"]["build_s"] = round(t_build, 2)
    ev["coverage"]["known_findings_observed"] = {k: v for k, v in seen_known.items()}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in mine:
        print("KNOWN-FINDING: property=%s %s [%s; seen in this run: %s]" % (prop, k["what"], k["key"], "yes" if k["key"] in seen_known else "no"))
    if new:
        rdir = os.path.join(VERIF, "build", "replays")
        os.makedirs(rdir, exist_ok=True)
        by_key = {}
        for v in new:
            by_key.setdefault(v["key"], v)
        for n, (key, v) in enumerate(list(by_key.items())[:10]):
            s = v["shard"]
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=key, case=v["case"], driver=s.job["driver"], variant=s.job["variant"],
                               args=s.job.get("args", {}), seed=seed, start=s.start, kind=v["kind"], message=v["msg"],
                               all_props=bool(s.job.get("all_props"))), f, indent=1)
            print("  [%s] case %s: %s" % (key, v["case"], v["msg"][:700].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("no verdict for %s:" % prop)
        for e in errors[:5]:
            print("  " + e)
        return 2
    if missing:
        print("no verdict for %s: too little observed: %s" % (prop, "; ".join(missing)))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d build=%.1fs wall=%.1fs" %
          (prop, tier, seed, evaluations, len(sigs), t_build, time.time() - t0))
    return 0


def replay(prop, path):
    r = json.load(open(path))
    exe = build([(r["driver"], r["variant"])])[(r["driver"], r["variant"])]
    tmp = os.path.join(BUILD, "run", "replay-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        s = Shard(dict(id=0, args=r["args"], driver=r["driver"], variant=r["variant"]), exe, 0, r["start"], r["case"] + 1, tmp,
                  r["seed"], None if r.get("all_props") else prop, VALGRIND if r["variant"] == "valgrind" else None)
        st, rc, err, lines = rerun(s, r["case"], 300)
        if st == "ok" and not any(l.get("t") == "violation" for l in lines):
            st, rc, err, lines = rerun(s, None, 900)  # needs the cases before it
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(err[-6000:])
    hit = st != "ok"
    for l in lines:
        if l.get("t") == "violation":
            hit = True
            print("[%s] case %s: %s" % (l["key"], l["case"], l["msg"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from checks import CHECKS
    if a.list:
        for k, v in CHECKS.items():
            print(k, [(j["driver"], j["variant"], j["cases"]) for j in v["jobs"]])
        return 0
    if a.selftest:
        for tool in ("g++", "clang++"):
            if not shutil.which(tool):
                print("missing tool: " + tool)
                return 2
        for k, v in CHECKS.items():
            for j in v["jobs"]:
                if not os.path.exists(os.path.join(HARNESS, j["driver"] + ".cc")):
                    print("missing driver: " + j["driver"])
                    return 2
        print("ok: %d checks" % len(CHECKS))
        return 0
    if a.prop not in CHECKS:
        print("unknown property " + str(a.prop))
        return 2
    try:
        if a.replay:
            return replay(a.prop, a.replay)
        tier = "thorough" if a.tier == "thorough" else "quick"
        return run_check(a.prop, CHECKS[a.prop], tier, a.seed, t0)
    except NoVerdict as e:
        print("no verdict for %s: %s" % (a.prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
