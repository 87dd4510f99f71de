"""
Engine: runs the cases of one property (deterministic in seed, property and case number) in forked workers,
collects what the monitors observed, prints verdict lines and writes the evidence file.

exit 0  held on everything observed
exit 1  VIOLATION line printed
exit 2  harness error / watchdog     exit 3  inconclusive (monitor not reached)
"""
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import time
import traceback

HOME = os.environ["HSV_HOME"]
REPO = os.environ["HSV_REPO"]
SCRATCH = os.environ["HSV_SCRATCH"]


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def is_rejection(e):
    """True for anything the code under test may raise to report an error."""
    return isinstance(e, Exception) or type(e).__name__ == "PanicException"


class Out:
    """Outcome of a call into the code under test."""

    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        if self.ok:
            return f"returned {short(self.value)}"
        return f"raised {type(self.exc).__name__}: {short(str(self.exc))}"


def short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except BaseException as e:  # reprs of broken objects
        s = f"<unprintable {type(x).__name__}: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


class Mon:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.case = None
        self.log = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def decided(self, n=1):
        """One oracle decision was taken."""
        self.count("evaluations", n)

    def distinct(self, *key):
        h = hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()
        self.keys.add(h)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(short(s, 1500))

    def call(self, fn, *a, **k):
        self.count("api_calls")
        try:
            return Out(True, fn(*a, **k), None)
        except CaseTimeout:
            raise
        except BaseException as e:
            if not is_rejection(e):
                raise
            self.count("rejections")
            return Out(False, None, e)

    def check(self, cond, msg, **detail):
        self.decided()
        if not cond:
            raise Violation(msg, **{k: short(v, 3000) for k, v in detail.items()})

    def fail(self, msg, **detail):
        self.check(False, msg, **detail)


def cpu_alarm(*_):
    raise CaseTimeout()


def run_case(mod, mon, i, limit):
    rng = random.Random(f"{mon.seed}/{mon.prop}/{i}")
    mon.case = i
    cdir = os.path.join(SCRATCH, f"case{os.getpid()}_{i}")
    os.makedirs(cdir)
    mon.dir = cdir
    home = os.getcwd()
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.case(rng, i, mon)
        return None
    except Violation as v:
        return {"msg": v.msg, "detail": v.detail}
    except CaseTimeout:
        return {"msg": f"call did not terminate within {limit} s of CPU time",
                "detail": {"trace": traceback.format_exc()[-3000:]}}
    except MemoryError:
        raise
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
            raise
        return {"msg": f"unexpected {type(e).__name__} while observing the case: {short(str(e))}",
                "detail": {"trace": traceback.format_exc()[-3000:]}}
    except Exception as e:
        return {"msg": f"unexpected {type(e).__name__} while observing the case: {short(str(e))}",
                "detail": {"trace": traceback.format_exc()[-3000:]}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(home)
        shutil.rmtree(cdir, ignore_errors=True)


def worker(mod, prop, seed, tier, cases, out, limit):
    signal.signal(signal.SIGVTALRM, cpu_alarm)
    fd = os.open(os.path.join(SCRATCH, f"log{os.getpid()}"), os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    sys.stdout.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    mon = Mon(prop, seed, tier)
    res = {"violations": [], "done": 0}
    try:
        if hasattr(mod, "setup"):
            mod.setup(mon)
        for i in cases:
            v = run_case(mod, mon, i, limit)
            res["done"] += 1
            if v is not None:
                v["case"] = i
                res["violations"].append(v)
                break
    except BaseException:
        res["error"] = traceback.format_exc()[-4000:]
    res.update(counters=mon.counters, keys=sorted(mon.keys), samples=mon.samples)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("HSV_WORKERS") or 8))
    args = ap.parse_args()
    prop = args.prop
    if args.replay:
        r = json.load(open(args.replay))
        args.seed, args.case, args.tier = r["seed"], r["case"], r["tier"]
    t0 = time.time()
    import hyperstate

    if not os.path.realpath(hyperstate.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("harness error: hyperstate is imported from", hyperstate.__file__)
        return 2
    mod = importlib.import_module(f"props.{prop.lower()}")
    ncases = args.cases or mod.CASES[args.tier]
    limit = getattr(mod, "CPU_LIMIT", 30)
    watchdog = getattr(mod, "WATCHDOG", {}).get(args.tier, 780 if args.tier == "quick" else 7200)

    if args.case is not None:
        signal.signal(signal.SIGVTALRM, cpu_alarm)
        mon = Mon(prop, args.seed, args.tier)
        if hasattr(mod, "setup"):
            mod.setup(mon)
        v = run_case(mod, mon, args.case, limit)
        print(json.dumps({"counters": mon.counters, "samples": mon.samples}, indent=1))
        if v is None:
            print("case held")
            return 0
        print(v["msg"])
        for k, d in v["detail"].items():
            print(f"--- {k}:\n{d}")
        print(f"VIOLATION property={prop} replay={args.replay or 'case'}")
        return 1

    nw = max(1, min(args.workers, ncases))
    pids = {}
    sys.stdout.flush()
    for w in range(nw):
        out = os.path.join(SCRATCH, f"res{w}.json")
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            worker(mod, prop, args.seed, args.tier, range(w, ncases, nw), out, limit)
            os._exit(0)
        pids[pid] = out
    errors, results = [], []
    live = dict(pids)
    while live:
        if time.time() - t0 > watchdog:
            for p in live:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            errors.append("wall clock watchdog fired")
            break
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            time.sleep(0.02)
            continue
        out = live.pop(pid, None)
        if out is None:
            continue
        if not os.path.exists(out):
            errors.append(f"worker died with status {st}")
    for out in pids.values():
        if os.path.exists(out):
            results.append(json.load(open(out)))
    for r in results:
        if "error" in r:
            errors.append(r["error"])

    counters, keys, samples, viols, done = {}, set(), [], [], 0
    for r in results:
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        keys.update(r["keys"])
        samples.extend(r["samples"])
        viols.extend(r["violations"])
        done += r["done"]
    viols.sort(key=lambda v: v["case"])

    # Recorded genuine defects: re-observed on every run, never suppressing anything else
    kf_lines = []
    kf = json.load(open(os.path.join(HOME, "known_findings.json")))
    for f in kf["known"]:
        if f["property"] == prop:
            probe = getattr(mod, "PROBES", {}).get(f["id"])
            if probe is None:
                errors.append(f"no probe for known finding {f['id']}")
                continue
            d = os.path.join(SCRATCH, "probe_" + f["id"])
            os.makedirs(d, exist_ok=True)
            try:
                r = run_probe(probe, d)
            except BaseException:
                # whatever the code under test does here now, it is not this finding
                print(f"probe {f['id']}: {traceback.format_exc()[-600:]}", file=sys.stderr)
                counters["known_finding_probe_errors"] = counters.get("known_finding_probe_errors", 0) + 1
                continue
            counters["known_finding_probes"] = counters.get("known_finding_probes", 0) + 1
            if r:
                kf_lines.append(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")

    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": counters.pop("evaluations", 0),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:6],
            "cases": done,
            "observed": dict(sorted(counters.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    ep = os.path.join(HOME, "evidence", f"{prop}.json")
    with open(ep + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(ep + ".tmp", ep)

    for line in kf_lines:
        print(line)
    print(f"{prop} {args.tier} seed={args.seed}: {done}/{ncases} cases, "
          f"{ev['coverage']['evaluations']} decisions, {len(keys)} distinct, {wall:.1f} s")
    if os.environ.get("HSV_VERBOSE"):
        print(json.dumps(ev["coverage"]["observed"], indent=1))
    if viols:
        rd = os.path.join(HOME, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in viols[:3]:
            rp = os.path.join(rd, f"{prop}-{args.seed}-{v['case']}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": args.seed, "tier": args.tier, **v}, f, indent=1)
            print(f"  case {v['case']}: {short(v['msg'], 400)}")
            if os.environ.get("HSV_VERBOSE"):
                for k, d in v["detail"].items():
                    print(f"  --- {k}:\n{d}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print("harness error:")
        for e in errors[:3]:
            print(e)
        return 2
    for k, n in getattr(mod, "REQUIRE", {}).items():
        have = len(keys) if k == "distinct" else ev["coverage"]["evaluations"] if k == "evaluations" else counters.get(k, 0)
        if have < n * (1 if done >= mod.CASES["quick"] else 0):
            print(f"inconclusive: observed {have} of '{k}', need {n}")
            return 3
    return 0


def isolated(fn):
    """Runs fn in a forked child: (value, None) with a JSON-able value, or (None, what happened)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = json.dumps(["ok", fn()])
        except Violation as v:
            data = json.dumps(["violation", v.msg, v.detail])
        except BaseException:
            data = json.dumps(["error", traceback.format_exc()[-3000:]])
        os.write(w, data.encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return None, f"process killed by signal {os.WTERMSIG(st)}"
    if not data:
        return None, f"process ended with status {st}"
    kind, *rest = json.loads(data)
    if kind == "ok":
        return rest[0], None
    if kind == "violation":
        raise Violation(rest[0], **rest[1])
    return None, rest[0]


def run_probe(probe, d):
    """Runs in a child with output silenced."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            n = os.open(os.devnull, os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            res = probe(d)
            os.write(w, b"1" if res else b"0")
            code = 0
        except BaseException:
            os.write(w, ("E" + traceback.format_exc()[-1500:]).encode("utf-8", "replace"))
        os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if data in (b"0", b"1"):
        return data == b"1"
    raise RuntimeError(data.decode("utf-8", "replace"))


if __name__ == "__main__":
    # props modules do `import core`: make both names one module
    sys.modules["core"] = sys.modules["__main__"]
    sys.exit(main())
