"""C08 A failing step keeps the last good checkpoint."""
import errno
import os
import shutil

import core
import fsm
import runs
from props.c07 import Run, unscheduled

LEVEL = "fault_enumeration"
RULE = ("one case = one step of a run (first or later, fresh or resumed, temporary files on the same or another filesystem), repeated in "
        "child processes in which each of its file operations in turn fails (once, or from there on; short writes included); then the "
        "checkpoint directory is recovered, the fault removed and the step retried; non-trivial = distinct (situation, fault)")
CASES = {"quick": 48, "thorough": 2500}
REQUIRE = {"distinct": 2500, "faults_injected": 3000, "reported": 1500, "old_kept": 500, "new_complete": 300, "retried": 1500,
           "sticky": 600, "short_writes": 60, "xdev_faults": 800, "read_faults": 60, "stat_faults": 200, "further_steps": 500, "second_faults": 500}
CPU_LIMIT = 300
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS, errno.EPERM, errno.EMFILE]


def case(rng, i, mon):
    run = Run(rng, mon)
    run.arm_fs()
    prep = rng.choice([0, 1, 1, 2])
    big = rng.random() < 0.15
    sm = run.manager()
    g, old = 0, None
    for k in range(prep):
        g += 1
        runs.advance(sm, run.key, g, rng, big=big)
        out = mon.call(sm.step)
        mon.check(out.ok, "step failed without any fault", outcome=out)
        old = runs.take(sm)
    resumed = prep > 0 and rng.random() < 0.5
    if resumed:
        sm = run.manager()
    g += 1
    runs.advance(sm, run.key, g, rng, partial=resumed and rng.random() < 0.5, big=big)
    situation = (run.scls.__name__, run.ccls.__name__, run.key, run.xdev, prep, resumed, big)
    saved = os.path.join(run.root, "saved")
    shutil.copytree(run.dir, saved)

    def restore():
        for d in ("fs1", "fs2"):
            shutil.rmtree(os.path.join(run.root, d))
            os.makedirs(os.path.join(run.root, d))
        shutil.copytree(saved, run.dir)
    counts = {}
    for mask in (fsm.MUT, fsm.MUT | fsm.CL, fsm.RD, fsm.ST, fsm.MUT | fsm.RD | fsm.CL):
        def traced():
            fsm.arm(fsm.COUNT, mask=mask)
            sm.step()
            n, _ = fsm.disarm()
            return n
        n, bad = core.isolated(traced)
        mon.check(bad is None, "step failed without any fault", happened=bad, situation=situation)
        counts[mask] = n
        restore()
    # the complete new state, as stepped in a child
    if fsm.crash(sm.step, 10**9) != "done":
        mon.fail("step failed without any fault", situation=situation)
    new = runs.take(run.manager())
    restore()
    points = []
    for k in range(1, counts[fsm.MUT] + 1):
        points.append((fsm.FAIL, k, False, fsm.MUT))
        points.append((fsm.FAIL, k, True, fsm.MUT))
        if rng.random() < 0.3:
            points.append((fsm.SHORT, k, True, fsm.MUT))
        if rng.random() < 0.5:
            # a short write that is not an error
            points.append((fsm.SHORT, k, False, fsm.MUT))
    for mask in (fsm.MUT | fsm.CL, fsm.RD, fsm.ST, fsm.MUT | fsm.RD | fsm.CL):
        for k in range(1, counts[mask] + 1):
            if rng.random() < 0.25:
                points.append((fsm.FAIL, k, rng.random() < 0.5, mask))
    mon.sample({"situation": situation, "operations": counts})
    seeds = [rng.random() for _ in points]
    for (mode, k, sticky, mask), sd in zip(points, seeds):
        import random
        r = random.Random(sd)
        err = r.choice(ERRNOS)
        info = dict(situation=situation, fault=(("fail", "short")[mode == fsm.SHORT], k, "sticky" if sticky else "once", errno.errorcode[err]),
                    operations=counts[mask], mask=mask)

        def child():
            c0 = dict(mon.counters)
            fsm.arm(mode, k, err, sticky, mask)
            out = mon.call(sm.step)
            n, last = fsm.disarm()
            info["failed_operation"] = last
            info["step"] = repr(out)
            which, _ = run.recover(old, new, "after a failed step", **info)
            mon.check(not out.ok or which == "new", "step reported success but its state is not the one that is resumed", which=which, **info)
            hit = n >= k
            if hit:
                mon.count("faults_injected")
                for cond, name in ((sticky, "sticky"), (mode == fsm.SHORT, "short_writes"), (run.xdev, "xdev_faults"), (mask == fsm.RD, "read_faults"), (mask == fsm.ST, "stat_faults"),
                                   (not out.ok, "reported"), (which == "new", "new_complete"), (which == "old", "old_kept"),
                                   (which == "fresh", "fresh")):
                    if cond:
                        mon.count(name)
            if r.random() < 0.35:
                # another step fails as well, and perhaps one more
                base = unscheduled(new) if which == "new" else old and unscheduled(old)
                for n in range(r.choice([1, 1, 2])):
                    fsm.reset()
                    runs.advance(sm, run.key, g + 1 + n, r)
                    newer = unscheduled(runs.take(sm))
                    run.arm_fs()
                    fsm.arm(mode, r.randint(1, counts[fsm.MUT] + 2), r.choice(ERRNOS), r.random() < 0.5, fsm.MUT)
                    again = mon.call(sm.step)
                    fsm.disarm()
                    which, _ = run.recover(base, newer, "after several failed steps", view=unscheduled, second=again, **info)
                    mon.check(not again.ok or which == "new", "step reported success but its state is not the one that is resumed",
                              which=which, second=again, listing=run.listing(), **info)
                    mon.count("second_faults", not again.ok)
                    base = newer if which == "new" else base
                return {a: b - c0.get(a, 0) for a, b in mon.counters.items()}
            # the fault is gone
            if not out.ok or r.random() < 0.3:
                again = mon.call(sm.step)
                mon.check(again.ok, "calling step again after the fault went away fails", again=again, listing=run.listing(), **info)
                which, _ = run.recover(old, new, "after retrying the step", **info)
                mon.check(which == "new", "retried step is not the one that is resumed", which=which, listing=run.listing(), **info)
                mon.count("retried")
            if r.random() < 0.5:
                runs.advance(sm, run.key, g + 1, r)
                out = mon.call(sm.step)
                mon.check(out.ok, "a later step fails although the fault went away", outcome=out, listing=run.listing(), **info)
                newer = unscheduled(runs.take(sm))
                which, _ = run.recover(unscheduled(new), newer, "after a later step", view=unscheduled, **info)
                mon.check(which == "new", "a later step is not the one that is resumed", which=which, listing=run.listing(), **info)
                mon.count("further_steps")
            return {a: b - c0.get(a, 0) for a, b in mon.counters.items()}
        res, bad = core.isolated(child)
        mon.check(bad is None, "step with a failing file operation crashed the process", happened=bad, **info)
        for a, b in res.items():
            mon.count(a, b)
        mon.distinct(situation, mode, k, sticky, mask, err)
        restore()
    fsm.reset()
