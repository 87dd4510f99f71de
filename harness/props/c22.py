"""C22 Concurrent checkpoint writers never expose a partial checkpoint."""
import os
import random
import select
import shutil
import signal
import sys
import threading
import time
import traceback

import hyperstate
import fsm
import runs
from core import Violation
from hyperstate import StateManager

LEVEL = "exploration"
RULE = ("one case = 2-5 writers (processes; in a quarter of the cases free-running processes or threads with injected delays) saving to "
        "the same or different targets; a scheduler outside the writers releases one file operation at a time and inspects every "
        "target between any two operations; some writers are killed or get an error at one operation; readers load what they see; "
        "non-trivial = distinct interleavings of operations")
CASES = {"quick": 1200, "thorough": 30000}
REQUIRE = {"distinct": 450, "operations": 30000, "switches": 8000, "shared_targets": 400, "exclusive_success": 250, "xdev": 250,
           "overtaken": 60, "failed_writers": 150, "killed_writers": 40, "injected_errors": 40, "visible_inspected": 15000,
           "reader_loads": 250, "free_running": 100, "preexisting": 80}
WATCHDOG = {"quick": 780, "thorough": 7200}


def kind_of(paths, targets):
    """Stable name of an operation for counting interleavings."""
    op, p1, p2 = paths
    for i, t in enumerate(targets):
        if p1 == t or p1.startswith(t + "/") or p2 == t:
            return f"{op}@{i}"
        if p1.startswith(t + ".") or p2.startswith(t + "."):
            return f"{op}~{i}"
    return op + ":" + os.path.basename(p1)[-6:]


class Case:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.root = os.path.realpath(mon.dir)
        self.fs1 = os.path.join(self.root, "fs1")
        os.makedirs(self.fs1)
        self.tmp = os.path.join(self.root, "fs2")
        runs.use_tmp(self.tmp)
        self.xdev = rng.random() < 0.5
        fsm.reset(self.root, xdev=self.fs1 if self.xdev else None)
        if self.xdev:
            mon.count("xdev")
        self.n = rng.choice([2, 2, 2, 3, 3, 4, 5])
        key = self.key = rng.choice(list(runs.STATES))
        names = rng.sample(["target", f"latest-{key}000000000007", "ckpt-1", "best", "a.tmp", "x/y/run"], rng.randint(1, 2))
        self.targets = [os.path.join(self.fs1, x) for x in names]
        for t in self.targets:
            os.makedirs(os.path.dirname(t), exist_ok=True)
        # which writer writes which target
        self.aim = [rng.choice(self.targets) for _ in range(self.n)]
        if rng.random() < 0.3:
            self.aim[0] = os.path.join(self.fs1, "only0")
            self.targets.append(self.aim[0])
        self.spelled = [str(runs.spell(rng, t)) for t in self.aim]
        self.classes, self.sms, self.expect, self.want = [], [], [], []
        scls, ccls = rng.choice(runs.STATES[key]), rng.choice([runs.Conf, runs.VConf])
        self.scls, self.ccls = scls, ccls
        for i in range(self.n):
            # every writer has state and config of its own; sometimes of a differently shaped class
            s = scls if rng.random() < 0.7 else rng.choice(runs.STATES[key])
            sm = StateManager(ccls, s, lambda c, x: runs.initial(s, key, random.Random(f"{i}"), 0))
            runs.advance(sm, key, 100 + i, rng, big=rng.random() < 0.2)
            self.classes.append(s)
            self.sms.append(sm)
            solo = os.path.join(self.root, f"solo{i}")
            sm.checkpoint(solo)
            self.expect.append(content(solo))
            self.want.append(runs.take(sm))
        self.pre = {}
        for t in self.targets:
            if rng.random() < 0.2:
                sm = StateManager(ccls, scls, lambda c, x: runs.initial(scls, key, random.Random("pre"), 0))
                runs.advance(sm, key, 999, rng)
                sm.checkpoint(t)
                self.pre[t] = content(t)
                mon.count("preexisting")
        self.visible = dict.fromkeys(self.targets)
        self.info = dict(writers=[os.path.relpath(a, self.root) for a in self.aim], xdev=self.xdev,
                         preexisting=[os.path.relpath(p, self.root) for p in self.pre], key=key)
        self.done = {}    # writer -> "ok" / text of the exception / "killed"
        self.trace = []
        for t in self.targets:
            if self.aim.count(t) > 1:
                mon.count("shared_targets")

    def owner(self, t, c, when):
        for i, e in enumerate(self.expect):
            if self.aim[i] == t and e == c:
                return i
        if self.pre.get(t) == c:
            return "pre"
        self.mon.fail(f"{when}: the checkpoint visible at a target is not the complete checkpoint of one writer", target=t,
                      found=brief(c), expected=[brief(self.expect[i]) for i in range(self.n) if self.aim[i] == t],
                      trace=self.trace[-60:], **self.info)

    def inspect(self, when):
        for t in self.targets:
            if not os.path.lexists(t):
                continue
            self.visible[t] = self.owner(t, content(t), when)
            self.mon.decided()
            self.mon.count("visible_inspected")

    def finish(self):
        """Everything is over: decide from the outcomes."""
        mon = self.mon
        info = dict(outcomes=self.done, trace=self.trace[-60:], **self.info)
        for t in self.targets:
            here = [i for i in range(self.n) if self.aim[i] == t]
            own = self.owner(t, content(t), "at the end") if os.path.lexists(t) else None
            if t in self.pre or self.visible[t] is not None:
                mon.check(own is not None, "a visible checkpoint disappeared", target=t, **info)
            if any(self.done[i] == "ok" for i in here):
                mon.check(own is not None, "a writer reported success but there is no checkpoint", target=t, **info)
                mon.check(own != "pre", "a writer reported success but the target still has the checkpoint from before", target=t, **info)
            if isinstance(own, int):
                mon.check(self.done[own] in ("ok", "killed", "fault"), "the visible checkpoint is that of a writer that failed", owner=own,
                          target=t, **info)
            if len(here) == 1 and t not in self.pre:
                if self.done[here[0]] == "ok":
                    mon.check(own == here[0], "a successful writer does not find its own checkpoint", target=t, **info)
                    mon.count("exclusive_success")
                else:
                    mon.check(self.done[here[0]] in ("killed", "fault"), "a writer alone on its target failed", target=t, **info)
            elif t not in self.pre and any(self.done[i] not in ("killed", "fault") for i in here):
                mon.check(own is not None, "no writer of a shared target succeeded", target=t, **info)
            if own is not None and own != "pre":
                self.load(t, own, info)
        for i, r in self.done.items():
            if r == "killed":
                mon.count("killed_writers")
            elif r == "fault":
                mon.count("injected_errors")
            elif r != "ok":
                mon.count("failed_writers")

    def load(self, t, own, info):
        sm = StateManager(self.ccls, self.classes[own], lambda c, x: 1 / 0, init_path=t, checkpoint_key=self.key)
        out = self.mon.call(runs.take, sm)
        self.mon.check(out.ok, "a visible checkpoint cannot be loaded", outcome=out, target=t, **info)
        r = runs.same(self.want[own], out.value)
        self.mon.check(r is None, "a visible checkpoint does not hold the state of its writer", problem=r, target=t, **info)
        self.mon.count("reader_loads")


def content(d):
    """{path: bytes} of a directory (None entries for directories); other things give a marker."""
    if os.path.islink(d) or not os.path.isdir(d):
        return {"": "not a directory"}
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(base, x), d)] = None
        for x in fs:
            p = os.path.join(base, x)
            try:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = f.read()
            except OSError as e:
                out[os.path.relpath(p, d)] = f"unreadable {e.errno}"
    return out


def brief(c):
    return {k: len(v) if isinstance(v, bytes) else v for k, v in c.items()}


# ------------------------------------------------------------------------------------ controlled interleavings
class Writer:
    def __init__(self, case, i):
        self.i = i
        ask_r, ask_w = os.pipe()
        go_r, go_w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = b"?"
            try:
                os.close(ask_r)
                os.close(go_w)
                for w in case.ws:
                    os.close(w.ask)
                    os.close(w.go)
                fsm.lib().fsm_sched(ask_w, go_r, fsm.MUT)
                try:
                    case.sms[i].checkpoint(case.spelled[i])
                    fsm.disarm()
                    code = b"ok"
                except Exception as e:
                    fsm.disarm()
                    code = f"{type(e).__name__}: {e}".encode("utf-8", "replace")[:400]
            except BaseException:
                fsm.disarm()
                code = b"harness " + traceback.format_exc().encode()[-400:]
            try:
                os.write(ask_w, b"done\x1f" + code.replace(b"\x1e", b" ").replace(b"\x1f", b" ") + b"\x1e")
            except OSError:
                pass
            os._exit(0)
        os.close(ask_w)
        os.close(go_r)
        self.ask, self.go = ask_r, go_w
        self.buf = b""
        self.waiting = None   # operation it is about to do
        self.nops = 0
        self.fault = False

    def feed(self):
        """Reads what the writer reported: None, ("op", ...) or ("done", text)."""
        d = os.read(self.ask, 65536)
        if not d:
            return ("done", "process ended without a report")
        self.buf += d
        if b"\x1e" in self.buf:
            rec, self.buf = self.buf.split(b"\x1e", 1)
            f = [os.fsdecode(x) for x in rec.split(b"\x1f")]
            if f[0] == "done":
                return ("done", f[1])
            return ("op", tuple(f + [""])[:3])
        return None

    def end(self, kill=False):
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        os.close(self.go)
        os.close(self.ask)
        os.waitpid(self.pid, 0)


def controlled(case):
    rng, mon = case.rng, case.mon
    case.ws = []
    for i in range(case.n):
        case.ws.append(Writer(case, i))
    live = {w.ask: w for w in case.ws}
    kill = (rng.randrange(case.n), rng.randint(1, 70)) if rng.random() < 0.25 else None
    fault = (rng.randrange(case.n), rng.randint(1, 60)) if rng.random() < 0.25 else None
    style = rng.choice(["random", "random", "sticky", "lockstep", "hold", "hold", "priority"])
    victim, at = rng.randrange(case.n), rng.randint(1, 45)
    prio = [rng.random() for _ in range(case.n)]
    last, seq, sw, idle = None, [], 0, 0
    try:
        while live:
            busy = [w for w in live.values() if w.waiting is None]
            if busy:
                # writers that wait for each other (locks) must not stop the rest
                have_parked = any(w.waiting for w in live.values())
                r, _, _ = select.select([w.ask for w in busy], [], [], 1.0 if have_parked else 60.0)
                if not r and not have_parked:
                    mon.fail("all writers are stuck", trace=case.trace[-60:], **case.info)
                for fd in r:
                    w = live[fd]
                    m = w.feed()
                    if m is None:
                        continue
                    if m[0] == "done":
                        text = m[1]
                        if text.startswith("harness "):
                            raise RuntimeError(text)
                        case.done[w.i] = "fault" if w.fault and text != "ok" else text
                        case.trace.append((w.i, "done", text))
                        del live[fd]
                        w.end()
                        if text == "ok" and any(x.nops for x in live.values()):
                            mon.count("overtaken")
                    else:
                        w.waiting = m[1]
                        w.nops += 1
                if len(r) < len(busy) and not (not r and have_parked):
                    continue
            parked = [w for w in live.values() if w.waiting]
            if not parked:
                continue
            case.inspect(f"after {case.trace[-1] if case.trace else 'start'}")
            if kill:
                k = [w for w in parked if w.i == kill[0] and w.nops >= kill[1]]
                if k:
                    w = k[0]
                    case.done[w.i] = "killed"
                    case.trace.append((w.i, "killed before", w.waiting))
                    del live[w.ask]
                    w.end(kill=True)
                    kill = None
                    continue
            if style == "random":
                w = rng.choice(parked)
            elif style == "sticky":
                same = [x for x in parked if x.i == last]
                w = same[0] if same and rng.random() < 0.9 else rng.choice(parked)
            elif style == "lockstep":
                w = min(parked, key=lambda x: (x.nops, x.i))
            elif style == "hold":
                free = [x for x in parked if not (x.i == victim and x.nops >= at)]
                w = rng.choice(free or parked)
            else:
                w = max(parked, key=lambda x: prio[x.i])
                if rng.random() < 0.08:
                    prio[w.i] = rng.random() - 1
            if last is not None and last != w.i:
                sw += 1
            last = w.i
            k = kind_of(w.waiting, case.targets)
            seq.append((w.i, k))
            case.trace.append((w.i, w.waiting[0], *[os.path.relpath(p, case.root) for p in w.waiting[1:] if p]))
            w.waiting = None
            hit = fault and w.i == fault[0] and w.nops >= fault[1]
            if hit:
                fault = None
                w.fault = True
                case.trace.append((w.i, "fails"))
            mon.count("operations")
            os.write(w.go, b"f" if hit else b"g")
        case.inspect("at the end")
    finally:
        for w in list(live.values()):
            try:
                w.end(kill=True)
            except OSError:
                pass
    mon.count("switches", sw)
    mon.distinct(seq)
    case.finish()
    mon.sample({"writers": case.info["writers"], "style": style, "outcomes": case.done, "operations": len(seq), "switches": sw})


# ------------------------------------------------------------------------------------ free-running writers
def free(case):
    rng, mon = case.rng, case.mon
    mon.count("free_running")
    threads = rng.random() < 0.5
    L = fsm.lib()
    results = {}

    def write(i):
        try:
            case.sms[i].checkpoint(case.spelled[i])
            return "ok"
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    stop = []
    seen = []

    def observe():
        """Polls the targets; a snapshot counts only if the same directory was there before and after."""
        for t in case.targets:
            try:
                a = os.stat(t).st_ino
                c = content(t)
                b = os.stat(t).st_ino
            except OSError:
                continue
            if a == b:
                seen.append(1)
                case.visible[t] = case.owner(t, c, "while writing")
    if threads:
        def body(i):
            results[i] = write(i)
        L.fsm_delay(rng.randrange(1 << 30), fsm.MUT)
        ts = [threading.Thread(target=body, args=(i,)) for i in range(case.n)]
        try:
            for t in ts:
                t.start()
            while any(t.is_alive() for t in ts):
                observe()
                time.sleep(0.0005)
        finally:
            for t in ts:
                t.join()
            fsm.disarm()
    else:
        pids = {}
        r, w = os.pipe()
        for i in range(case.n):
            seed = rng.randrange(1 << 30)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    L.fsm_delay(seed, fsm.MUT)
                    res = write(i)
                    fsm.disarm()
                    os.write(w, f"{i}\x1f{res[:400]}\x1e".encode("utf-8", "replace"))
                finally:
                    os._exit(0)
            pids[pid] = i
        os.close(w)
        try:
            while pids:
                observe()
                p, _ = os.waitpid(-1, os.WNOHANG)
                if p in pids:
                    del pids[p]
                time.sleep(0.0005)
        finally:
            for p in pids:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
        data = b""
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
        os.close(r)
        for rec in data.split(b"\x1e"):
            if rec:
                i, res = rec.split(b"\x1f")
                results[int(i)] = res.decode()
    for i in range(case.n):
        case.done[i] = results.get(i, "process ended without a report")
    mon.count("free_snapshots", len(seen))
    mon.decided(len(seen))
    observe()
    case.finish()
    mon.distinct(case.info["writers"], sorted(case.done.items()))


def case(rng, i, mon):
    c = Case(rng, mon)
    try:
        (free if i % 4 == 3 else controlled)(c)
    finally:
        fsm.reset()
