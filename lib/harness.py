"""Driver and worker of all checks.

driver:  python3 lib/harness.py PID [--replay FILE] [--cases N] [--jobs N]
worker:  (internal) python lib/harness.py --worker ...

A check is a module checks/PID.py with
    VARIANT   'plain' or 'asan' (default plain)
    LEVEL     evidence level
    RULE      text for the evidence
    CASES     {'quick': n, 'thorough': n}
    REQUIRE   {counter: minimum}  - fewer observations make the run inconclusive
    run_case(ctx, idx)
and optionally setup(ctx) (once per worker) and N_DIRECTED (idx < N_DIRECTED are
deterministic cases), CPU_LIMIT (seconds per case), AS_LIMIT (bytes of address space).
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "lib"))
sys.path.insert(0, str(VERIF))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The harness itself could not do its work: inconclusive, never a violation"""


class Ctx:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, Path(tmp)
        self.counters = {}
        self.maxima = {}
        self.distinct = set()
        self.samples = []
        self.idx = None
        self.rng = None
        self.info = {}

    def start(self, idx):
        self.idx = idx
        self.rng = random.Random(f"{self.seed}/{self.pid}/{idx}")
        self.info = {}
        import numpy as np
        self.nrng = np.random.default_rng(self.rng.getrandbits(64))

    # observation bookkeeping
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, value):
        if value > self.maxima.get(name, -1):
            self.maxima[name] = value

    def nontrivial(self, *key):
        """record a distinct, non-trivial case (key is hashed)"""
        h = hashlib.blake2b(digest_size=8)
        for k in key:
            h.update(k if isinstance(k, (bytes, bytearray)) else repr(k).encode())
            h.update(b"\0")
        self.distinct.add(h.hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # verdicts
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def path(self, name):
        return str(self.tmp / name)

    def write(self, name, data):
        p = self.tmp / name
        try:
            p.write_bytes(data)
        except OSError as e:
            raise HarnessError(f"cannot write {p}: {e}")
        return str(p)


def load_check(pid):
    return importlib.import_module(f"checks.{pid}")


# ---------------------------------------------------------------------- worker
def is_harness_problem(exc):
    if isinstance(exc, (HarnessError, MemoryError)):
        return True
    if isinstance(exc, OSError) and exc.errno in (28, 24, 23, 12, 11, 122):  # ENOSPC, EMFILE, ENFILE, ENOMEM, EAGAIN, EDQUOT
        return True
    return False


def watch_lines():
    """record the executed lines of the package (each location is reported once, thus without cost)"""
    lines = {}
    try:
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, "verif")
    except (AttributeError, ValueError):
        return lines

    def line(code, number):
        f = code.co_filename
        k = f.rfind("/eventio/")
        if k >= 0 and not f.endswith(".pyx"):
            lines.setdefault(f[k + 9:], set()).add(number)
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    return lines


def code_lines(path):
    """lines with code inside of functions"""
    todo, out = [compile(path.read_text(), str(path), "exec")], set()
    while todo:
        c = todo.pop()
        subs = [x for x in c.co_consts if hasattr(x, "co_code")]
        todo += subs
        if c.co_name != "<module>" and not c.co_flags & 0x2 == 0:
            out |= {n for _, _, n in c.co_lines() if n and n != c.co_firstlineno}
    return out


def worker(a):
    out = Path(a.out)
    tmp = Path(a.tmp)
    tmp.mkdir(parents=True, exist_ok=True)
    os.chdir(tmp)
    import warnings
    warnings.simplefilter("always")
    warnings.showwarning = lambda *args, **kw: None
    import logging
    logging.disable(logging.CRITICAL)
    lines = watch_lines()
    mod = load_check(a.pid)
    if getattr(mod, "AS_LIMIT", None):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mod.AS_LIMIT, mod.AS_LIMIT))
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx(a.pid, a.tier, a.seed, tmp)
    known = dict(known_findings(a.pid))
    marker = os.open(out / f"marker-{a.shard}", os.O_RDWR | os.O_CREAT, 0o600)
    os.pwrite(marker, b"%-20d" % -1, 0)
    res = {"violations": [], "errors": [], "done": 0}
    try:
        ctx.start(-1)
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        indices = [a.only] if a.only is not None else range(a.shard, a.n, a.nshards)
        deadline = time.time() + a.budget
        for idx in indices:
            if a.skip and idx in a.skip:
                continue
            if time.time() > deadline:
                res["stopped_at"] = idx
                break
            os.pwrite(marker, b"%-20d" % idx, 0)
            ctx.start(idx)
            cpu0 = time.process_time()
            try:
                mod.run_case(ctx, idx)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
                    raise
                tb = traceback.format_exc()
                rec = {"idx": idx, "message": f"{type(e).__name__}: {e}"[:4000], "traceback": tb[-6000:],
                       "info": {k: str(v)[:2000] for k, v in ctx.info.items()},
                       "key": getattr(e, "key", None)}
                if rec["key"] is not None and rec["key"] in known:
                    ctx.count("known_finding_hits")
                elif is_harness_problem(e):
                    res["errors"].append(rec)
                else:
                    res["violations"].append(rec)
                if len(res["violations"]) >= 3 or len(res["errors"]) >= 3:
                    break
            res["done"] += 1
            ctx.peak("case_cpu_ms", int((time.process_time() - cpu0) * 1000))
            for p in tmp.iterdir():
                if p.name.startswith("keep"):
                    continue
                if p.is_dir() and not p.is_symlink():
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    try:
                        p.unlink()
                    except OSError:
                        pass
    except BaseException as e:
        res["errors"].append({"idx": ctx.idx, "message": f"{type(e).__name__}: {e}", "traceback": traceback.format_exc()[-6000:]})
        if isinstance(e, Violation) or (ctx.idx == -1 and not is_harness_problem(e)):
            # the set-up of the check exercises the code under test, too
            res["violations"].append(dict(res["errors"].pop(), key=getattr(e, "key", None)))
    os.pwrite(marker, b"%-20d" % -2, 0)
    res["lines"] = {k: sorted(v) for k, v in lines.copy().items()}
    res.update(counters=ctx.counters, maxima=ctx.maxima, distinct=sorted(ctx.distinct), samples=ctx.samples)
    tmpf = out / f"result-{a.shard}.tmp"
    tmpf.write_text(json.dumps(res, default=str))
    tmpf.rename(out / f"result-{a.shard}.json")
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------------- driver
def cpu_time(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        fields = s.rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def known_findings(pid):
    out = []
    p = VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def driver(a):
    import build
    t0 = time.time()
    mod = load_check(a.pid)
    tier, seed = a.tier, a.seed
    variant = getattr(mod, "VARIANT", "plain")
    try:
        src = build.build(variant)
        extra = {}
        for v in getattr(mod, "EXTRA_VARIANTS", ()):
            extra[v] = build.build(v)
    except build.BuildError as e:
        print("build failed:", str(e)[-3000:], file=sys.stderr)
        return 2
    t_build = time.time() - t0
    env = build.env_for(variant, src)
    for v, s in extra.items():
        env[f"VERIF_BUILD_{v.upper()}"] = str(s)
    if getattr(mod, "PRELOAD", None):
        try:
            so = str(build.preload(mod.PRELOAD))
        except build.BuildError as e:
            print("build failed:", str(e)[-3000:], file=sys.stderr)
            return 2
        env.update(LD_PRELOAD=so, VERIF_PRELOAD=so)
    n = a.cases or mod.CASES[tier]
    jobs = min(a.jobs, n)
    only = None
    if a.replay:
        rec = json.loads(Path(a.replay).read_text())
        only, seed, tier = rec["idx"], rec["seed"], rec["tier"]
        jobs = 1
    base = Path(tempfile.mkdtemp(prefix=f"verif-{a.pid}-"))
    cpu_limit = getattr(mod, "CPU_LIMIT", 60)
    wall_limit = max(300, 4 * cpu_limit)
    budget = a.budget or {"quick": 420, "thorough": 780}[tier]
    violations, errors = [], []
    results = []
    try:
        procs = {}

        def launch(shard, skip):
            cmd = [build.PY, str(VERIF / "lib" / "harness.py"), a.pid, "--worker", "--tier", tier, "--seed", str(seed),
                   "--shard", str(shard), "--nshards", str(jobs), "--n", str(n), "--out", str(base),
                   "--tmp", str(base / f"w{shard}"), "--budget", str(max(1, budget - (time.time() - t0 - t_build)))]
            if only is not None:
                cmd += ["--only", str(only)]
            if skip:
                cmd += ["--skip", ",".join(map(str, skip))]
            log = open(base / f"log-{shard}", "ab")
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)
            log.close()
            procs[shard] = dict(p=p, idx=None, cpu=0.0, wall=time.time(), skip=skip, hang=None)

        def marker(shard):
            try:
                return int((base / f"marker-{shard}").read_bytes().split()[0])
            except (OSError, ValueError, IndexError):
                return -1

        for s in range(jobs):
            launch(s, [])
        while procs:
            time.sleep(0.05)
            for s, st in list(procs.items()):
                p = st["p"]
                idx = marker(s)
                if p.poll() is None:
                    c = cpu_time(p.pid)
                    if idx != st["idx"]:
                        st.update(idx=idx, cpu=c or 0.0, wall=time.time())
                    elif idx >= -1 and c is not None:
                        if c - st["cpu"] > cpu_limit or time.time() - st["wall"] > wall_limit:
                            st["hang"] = f"no end of case {idx}: {c - st['cpu']:.0f} s CPU, {time.time() - st['wall']:.0f} s wall"
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)   # stray children
                except OSError:
                    pass
                del procs[s]
                rf = base / f"result-{s}.json"
                log = (base / f"log-{s}").read_text(errors="replace")
                if p.returncode == 0 and rf.exists():
                    results.append(json.loads(rf.read_text()))
                    continue
                rc = p.returncode
                rec = {"idx": idx, "key": None, "traceback": log[-8000:], "info": {}}
                if st["hang"]:
                    rec["message"] = "hang: " + st["hang"]
                elif rc == 99 or "AddressSanitizer" in log or "runtime error:" in log:
                    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", log)
                    rec["message"] = "sanitizer report: " + (m.group(1) if m else "")
                elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                    rec["message"] = f"interpreter died with signal {-rc}"
                else:
                    rec["message"] = f"worker ended with {rc}"
                    errors.append(rec)
                    continue
                violations.append(rec)
        for r in results:
            violations += r["violations"]
            errors += r["errors"]
    finally:
        for st in list(procs.values()):
            try:
                os.killpg(st["p"].pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)

    counters, maxima, distinct, samples = {}, {}, set(), []
    done = 0
    for r in results:
        done += r["done"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(v, maxima.get(k, v))
        distinct.update(r["distinct"])
        samples += r["samples"]

    lines, missed = {}, {}
    for r in results:
        for k, v in r.get("lines", {}).items():
            lines.setdefault(k, set()).update(v)
    package = {}
    for p in sorted((build.REPO / "src" / "eventio").rglob("*.py")):
        k = str(p.relative_to(build.REPO / "src" / "eventio"))
        try:
            all_lines = code_lines(p)
        except (OSError, SyntaxError):
            continue
        if all_lines and lines.get(k):
            package[k] = f"{len(all_lines & lines[k])} of {len(all_lines)}"
        missed[k] = sorted(all_lines - lines.get(k, set()))
    if os.environ.get("VERIF_LINES"):
        Path(os.environ["VERIF_LINES"]).write_text(json.dumps(missed))

    # known findings
    known = dict(known_findings(a.pid))
    fresh = []
    for v in violations:
        if v.get("key") in known:
            counters["known_finding_hits"] = counters.get("known_finding_hits", 0) + 1
        else:
            fresh.append(v)
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={a.pid} {text}")

    status = 0
    (VERIF / "replay").mkdir(exist_ok=True)
    fresh.sort(key=lambda v: (v["idx"] if v["idx"] is not None else 10**12))
    for v in fresh[:3]:
        rp = VERIF / "replay" / f"{a.pid}-{tier}-{seed}-{v['idx']}.json"
        rp.write_text(json.dumps(dict(v, pid=a.pid, tier=tier, seed=seed), indent=1, default=str))
        print(f"VIOLATION property={a.pid} replay={rp.relative_to(VERIF)}")
        print("  case", v["idx"], "-", v["message"][:600].replace("\n", "\n  "))
        if a.verbose or a.replay:
            print(v["traceback"])
            print(v.get("info"))
        status = 1
    if status == 0 and not a.replay:
        for e in errors[:3]:
            print("inconclusive:", e["message"][:500], "\n", e["traceback"][-2500:], file=sys.stderr)
            status = 2
        if not a.cases:
            for k, minimum in getattr(mod, "REQUIRE", {}).items():
                if counters.get(k, 0) < minimum:
                    print(f"inconclusive: observed only {counters.get(k, 0)} of {k}, expected at least {minimum}", file=sys.stderr)
                    status = 2
    wall = time.time() - t0
    if not a.replay:
        ev = {
            "property": a.pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": done, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                "samples": samples[:6] or ["no case completed"], "observed": dict(sorted(counters.items())),
                "maxima": maxima, "cases_planned": n, "workers": jobs,
                "lines_in_functions_executed": package,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", [
                "the format descriptions in lib/spec.py are right (cross-checked against the checked-in real files)"]),
            "wall_s": round(wall, 2), "violations": len(fresh),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        t = VERIF / "evidence" / f".{a.pid}.tmp{os.getpid()}"
        t.write_text(json.dumps(ev, indent=1, default=str))
        t.rename(VERIF / "evidence" / f"{a.pid}.json")
    print(f"{a.pid} {tier} seed={seed}: {done}/{n if only is None else 1} cases, {len(distinct)} distinct, "
          f"{len(fresh)} violations, {len(errors)} errors, build {t_build:.1f} s, total {wall:.1f} s")
    if a.verbose:
        print(json.dumps(dict(sorted(counters.items()))), json.dumps(maxima))
    return status


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", "--verbose", action="store_true")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int)
    ap.add_argument("--n", type=int)
    ap.add_argument("--out")
    ap.add_argument("--tmp")
    ap.add_argument("--only", type=int)
    ap.add_argument("--skip", type=lambda s: set(map(int, s.split(","))))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.worker:
        if not a.budget:
            a.budget = 600
        worker(a)
    else:
        sys.exit(driver(a))


if __name__ == "__main__":
    main()
