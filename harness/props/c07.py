"""C07 A crash at any point of a step loses nothing."""
import os
import random
import shutil

import core
import fsm
import runs
from hyperstate import StateManager

LEVEL = "fault_enumeration"
RULE = ("one case = one step of a run (first or later, freshly started or resumed, temporary files on the same or another filesystem), "
        "repeated in child processes killed before every mutating file operation and in the middle of every write; after each kill a new "
        "state manager recovers, sometimes continues and is killed again; non-trivial = distinct (situation, kill point)")
CASES = {"quick": 100, "thorough": 3000}
REQUIRE = {"distinct": 2000, "kills": 2500, "partial_writes": 300, "recovered_old": 700, "recovered_new": 150, "recovered_fresh": 200,
           "xdev_kills": 1000, "continued": 300, "second_kills": 200, "completed": 100}
CPU_LIMIT = 300


class Run:
    def __init__(self, rng, mon):
        self.mon = mon
        self.rng = random.Random(rng.random())
        self.root = os.path.realpath(mon.dir)
        self.dir = os.path.join(self.root, "fs1", "run")
        os.makedirs(os.path.join(self.root, "fs1"))
        runs.use_tmp(os.path.join(self.root, "fs2"))
        self.key = rng.choice(list(runs.STATES))
        self.scls = rng.choice(runs.STATES[self.key])
        self.ccls = rng.choice([runs.Conf, runs.VConf])
        self.xdev = rng.random() < 0.5
        sched = rng.random() < 0.5
        self.ovs = [f'lr="{self.key}: 1.0@0 lin 0.0@100"'] if sched else []
        if sched and rng.random() < 0.5:
            self.ovs.append(f'opt.bs="{self.key}: 8@0 step 64@10"')
        self.calls = []
        self.seed = rng.random()

    def initial(self, cfg, ctx):
        self.calls.append(1)
        return runs.initial(self.scls, self.key, random.Random(self.seed))

    def manager(self, d=None):
        return StateManager(self.ccls, self.scls, self.initial, checkpoint_dir=runs.spell(self.rng, d or self.dir), overrides=self.ovs, checkpoint_key=self.key)

    def arm_fs(self):
        fsm.reset(self.root, xdev=os.path.join(self.root, "fs1") if self.xdev else None)

    def recover(self, old, new, what, view=lambda x: x, **info):
        """A new manager sees exactly old or new (None old: nothing completed so far). Returns (which, manager)."""
        mon = self.mon
        del self.calls[:]
        out = mon.call(self.manager)
        mon.check(out.ok, f"{what}: a new state manager cannot be created", outcome=out, **info)
        sm = out.value
        out = mon.call(runs.take, sm)
        mon.check(out.ok, f"{what}: the run cannot be resumed", outcome=out, listing=self.listing(), **info)
        got = view(out.value)
        if new is not None:
            r_new = runs.same(new, got)
            if r_new is None and not self.calls:
                return "new", sm
        else:
            r_new = "-"
        if old is None:
            mon.check(bool(self.calls), f"{what}: resumed from a mixture or partial checkpoint", against_new=r_new,
                      listing=self.listing(), got=got, **info)
            return "fresh", sm
        mon.check(not self.calls, f"{what}: started from a fresh initial state although a checkpoint was completed", listing=self.listing(),
                  **info)
        r_old = runs.same(old, got)
        mon.check(r_old is None, f"{what}: resumed state is neither the previous nor the new one", against_old=r_old, against_new=r_new,
                  listing=self.listing(), **info)
        return "old", sm

    def listing(self):
        return sorted(fsm.tree(self.dir))


def unscheduled(snap):
    """Without the fields whose momentary value is only set by step."""
    c = snap["config"]
    return {"state": snap["state"], "config": {**{k: v for k, v in c.items() if k != "lr"},
                                               "opt": {k: v for k, v in c["opt"].items() if k != "bs"}}}


def case(rng, i, mon):
    run = Run(rng, mon)
    run.arm_fs()
    big = rng.random() < 0.15
    prep = rng.choice([0, 1, 1, 2, 3])
    sm = run.manager()
    g = 0
    old = None
    for k in range(prep):
        g += 1
        runs.advance(sm, run.key, g, rng, big=big)
        out = mon.call(sm.step)
        mon.check(out.ok, "step failed without any fault", outcome=out)
        old = runs.take(sm)
    resumed = prep > 0 and rng.random() < 0.5
    if resumed:
        sm = run.manager()
    g += 1
    partial = resumed and rng.random() < 0.5
    runs.advance(sm, run.key, g, rng, partial=partial, big=big)
    situation = (run.scls.__name__, run.ccls.__name__, run.key, run.xdev, prep, resumed, partial, big)
    # what the step is going to persist
    saved = os.path.join(run.root, "saved")
    shutil.copytree(run.dir, saved) if os.path.isdir(run.dir) else os.makedirs(saved)
    def restore():
        shutil.rmtree(os.path.join(run.root, "fs1"))
        shutil.rmtree(os.path.join(run.root, "fs2"))
        os.makedirs(os.path.join(run.root, "fs1"))
        os.makedirs(os.path.join(run.root, "fs2"))
        shutil.copytree(saved, run.dir)
    def traced():
        with fsm.Log(os.path.join(os.environ["HSV_SCRATCH"], f"ops{os.getpid()}")) as log:
            fsm.arm(fsm.COUNT)
            sm.step()
            n, _ = fsm.disarm()
        ops = [o[0] for o in log.ops if o[1].startswith(run.root) or o[2].startswith(run.root)]
        # what a new manager sees after an undisturbed step is what this process holds in memory
        return [n, ops, runs.same(runs.take(sm), runs.take(run.manager()))]
    res, bad = core.isolated(traced)
    mon.check(bad is None, "step failed without any fault", happened=bad, situation=situation)
    n, ops, r = res
    mon.check(r is None, "a new manager does not see what was stepped", problem=r, situation=situation)
    mon.check(n > 0, "a step performs no file operation", situation=situation)
    restore()
    if fsm.crash(sm.step, 10**9) != "done":
        mon.fail("step failed without any fault", situation=situation)
    new_of = runs.take(run.manager())
    points = [(k, False) for k in range(1, n + 2)]
    points += [(k, True) for k in range(1, n + 1) if len(ops) != n or ops[k - 1] == "write"]
    info = dict(situation=situation, operations=n)
    mon.sample({"situation": situation, "operations": n})
    for k, partial_write in points:
        restore()
        res = fsm.crash(sm.step, k, partial_write)
        if res == "done" and partial_write:
            continue
        info["point"] = (k, partial_write)
        mon.check(res in ("killed", "done"), "step failed without a fault being injected", result=res, **info)
        if res == "killed":
            mon.count("kills")
            if partial_write:
                mon.count("partial_writes")
            if run.xdev:
                mon.count("xdev_kills")
        which, sm3 = run.recover(old, new_of, f"killed at operation {k} of {n}", **info)
        mon.count(f"recovered_{which}")
        if res == "done":
            mon.count("completed")
            mon.check(which == "new", "crash after a completed step does not resume from it", which=which, **info)
        mon.distinct(situation, k, partial_write)
        if rng.random() < 0.3:
            # life goes on: another step, possibly killed again
            here = {"new": new_of, "old": old, "fresh": None}[which]
            runs.advance(sm3, run.key, g + 1, rng)
            if rng.random() < 0.6:
                k2 = rng.randint(1, n + 6)
                p2 = rng.random() < 0.3
                res = fsm.crash(sm3.step, k2, p2)
                info["second"] = (k2, p2, res)
                newer = unscheduled(runs.take(sm3))
                w2, sm4 = run.recover(here and unscheduled(here), newer, f"killed again at operation {k2}", view=unscheduled, **info)
                mon.check(res != "done" or w2 == "new", "crash after a completed step does not resume from it", **info)
                mon.count("second_kills")
                info.pop("second")
            else:
                out = mon.call(sm3.step)
                mon.check(out.ok, "a recovered run cannot step", outcome=out, **info)
                newer = runs.take(sm3)
                w2, _ = run.recover(here, newer, "after recovery and another step", **info)
                mon.check(w2 == "new", "a step after recovery is not the one that is resumed", which=w2, **info)
            mon.count("continued")
    fsm.reset()
