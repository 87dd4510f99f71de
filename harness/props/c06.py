"""C06 Interrupted and resumed runs equal uninterrupted ones."""
import copy
import dataclasses
import os
import random
import shutil
from pathlib import Path
from typing import Optional

import hyperstate
from hyperstate import Lazy, StateManager
import gen
import runs
import sched
from gen import Opts
from props.c10 import make, schedule_some

LEVEL = "exploration"
RULE = ("one case = a generated config (schedules, nested, versioned) and state class (plain fields, blobs), trained deterministically "
        "for 3-8 steps once without restarts and once with restarts, repeated steps, idle restarts and partial reads at random points; "
        "config, state and blobs are compared at every step; non-trivial = distinct (classes, restart pattern)")
CASES = {"quick": 1600, "thorough": 40000}
REQUIRE = {"unusual_directories": 60, "distinct": 1200, "restarts": 3000, "snapshots_compared": 8000, "idle_restarts": 400, "steps_without_progress": 400,
           "unread_blobs": 800, "init_ignored": 1500, "moved_directory": 100, "scheduled": 500, "overridden_restarts": 500, "init_from_checkpoint": 150,
           "spelled_paths": 2000, "directory_set_later": 300, "arrays_changed_in_place": 1000, "other_directory": 100}
OPTS = Opts(versioned=0.15, max_fields=4, weird_numbers=False, reuse=0.2)


def make_state(rng, o, key):
    """A state class with counters for schedules, generated plain fields and blobs."""
    body = gen.gen_struct(rng, o, rng.choice([0, 1, 2]), nmin=0)
    body.cls
    taken = set(sched.XNAMES) | {key, "net", "opt", "buf", "version", "set_deserialize_ctx"}
    free = [f for f in body.fields if f.name not in taken]
    items = [(n, int if n in ("step", "items") else float) for n in sched.XNAMES]
    if key not in sched.XNAMES:
        items.append((key, int))
    blobs = rng.sample(["net", "opt", "buf"], rng.randint(0, 3))
    for b in blobs:
        items.append((b, Optional[runs.Net] if b == "buf" else runs.Net if b == "net" else runs.Opti))
    items += [(f.name, gen.pytype(f.t)) for f in free]
    rng.shuffle(items)
    bases = (Lazy,) if blobs else rng.choice([(), (Lazy,)])
    return dataclasses.make_dataclass("TrainState", items, bases=bases, eq=False), blobs, free


IN_PLACE = [0]


def train(r, sm, key, blobs, free, scheds, fixed, k, st, o):
    """Deterministic in r; depends on the current config and state."""
    s, c = sm.state, sm.config
    digest = sum(len(repr(v)) for v in vars(c).values())
    setattr(s, key, getattr(s, key) + r.choice([1, 1, 2, 50]))
    for x in sched.XNAMES:
        if x != key and r.random() < 0.7:
            v = sched.interesting_x(r, list(scheds.values()), x)
            setattr(s, x, int(v) if x in ("step", "items") else float(v))
    s.loss = s.loss if r.random() < 0.5 else float(digest)
    for b in blobs:
        q = r.random()
        new = runs.blob_payload(random.Random(r.random()), k)
        if q < 0.3:
            setattr(s, b, (runs.Opti if b == "opt" else runs.Net)(new))
        elif q < 0.5 and getattr(s, b) is not None:
            getattr(s, b).payload = {"old": getattr(s, b).payload, "k": k, "digest": digest}
        elif q < 0.6 and b == "buf":
            s.buf = None
        elif q < 0.9 and getattr(s, b) is not None:
            # in place, as optimizers do it
            p = getattr(s, b).payload
            while isinstance(p, dict) and "w" not in p:
                p = p.get("old")
            if isinstance(p, dict):
                p["w"][...] = k
                IN_PLACE[0] += 1
    for f in free:
        q = r.random()
        v = gen.gen_value(f.t, r, o)
        if q < 0.3:
            setattr(s, f.name, v)
    paths = [(p, f) for p, f in sched.live_paths(st, c) if p not in fixed]
    for _ in range(r.randint(0, 2)):
        if paths:
            p, f = r.choice(paths)
            v = gen.gen_value(f.t, r, o)
            # only leaves, so that scheduled fields stay where they are
            if not any(isinstance(t, gen.St) for t in gen.walk_types(f.t)):
                sched.put(c, p, v)


def case(rng, i, mon):
    o = OPTS
    st = make(rng, o)
    obj = gen.gen_value(st, rng, o)
    node = gen.to_node(st, obj, rng)
    if node == ["m", []]:
        return
    p = rng.choice([0, 0.5, 0.5])
    node, ovs, scheds = schedule_some(rng, st, obj, node, p)
    text = gen.render(node, rng)
    fixed = set(scheds)
    for path, f in sched.live_paths(st, obj):
        if path not in scheds and isinstance(f.t, (gen.Int, gen.Str)) and rng.random() < 0.15:
            ovs.append(".".join(path) + "=" + (str(rng.randint(-5, 5)) if isinstance(f.t, gen.Int) else rng.choice(["x", "a=b", "", "1.0"])))
            fixed.add(path)
    key = rng.choice(["step", "items", "global_step"])
    scls, blobs, free = make_state(rng, o, key)
    seed0 = rng.random()
    info = dict(type=st, text=text, overrides=ovs, state=[(f.name, str(f.type)) for f in dataclasses.fields(scls)], key=key)
    ncalls = []

    def initial(cfg, ctx):
        ncalls.append(cfg)
        r = random.Random(seed0)
        kw = {}
        for f in dataclasses.fields(scls):
            if f.name in blobs:
                kw[f.name] = (runs.Opti if f.name == "opt" else runs.Net)(runs.blob_payload(r, -1)) if f.name != "buf" or r.random() < 0.5 else None
            elif f.name in [x.name for x in free]:
                kw[f.name] = gen.gen_value(next(x for x in free if x.name == f.name).t, r, o)
            else:
                kw[f.name] = 0 if f.type is int else 0.0
                if f.name == key:
                    kw[f.name] = r.choice([0] * 6 + [-2, -101, 10 ** 12 - 2, 10 ** 12 - 101, 10 ** 13 - 3])
        return scls(**kw)

    def forbidden(cfg, ctx):
        ncalls.append("forbidden")
        return initial(cfg, ctx)
    init = os.path.join(mon.dir, "config.ron")
    with open(init, "w", encoding="utf-8") as fh:
        fh.write(text)

    def manager(d, fn=initial, init_path=init, ov=ovs):
        late = d is not None and rng.random() < 0.1
        spelled = runs.spell(rng, d) if d is not None else None
        if spelled != d:
            mon.count("spelled_paths")
        if init_path is not None:
            init_path = runs.spell(rng, init_path, None if os.path.isdir(init_path) else
                                   rng.choice(["plain", "rel", "dot", "up", "path", "relpath"]))
        sm = StateManager(st.cls, scls, fn, init_path=init_path, checkpoint_dir=None if late else spelled,
                          overrides=list(ov) if ov or rng.random() < 0.5 else None, checkpoint_key=key)
        if late:
            sm.checkpoint_dir = Path(spelled)
            mon.count("directory_set_later")
        return sm
    K = rng.randint(3, 8)
    # the uninterrupted run; sometimes it itself starts from an explicit checkpoint of another run
    if rng.random() < 0.15:
        pre = manager(None)
        out = mon.call(lambda: (pre.state, pre.config))
        mon.check(out.ok, "config or initial state does not load", outcome=out, **info)
        train(random.Random(f"{seed0}/pre"), pre, key, blobs, free, scheds, fixed, -2, st, o)
        out = mon.call(pre.checkpoint, str(runs.spell(rng, os.path.join(mon.dir, "explicit"))))
        mon.check(out.ok, "explicit checkpoint failed", outcome=out, **info)
        init = os.path.join(mon.dir, "explicit")
        mon.count("init_from_checkpoint")
    from_ckpt = os.path.isdir(init)
    del ncalls[:]
    a = manager(os.path.join(mon.dir, "a"), init_path=init)
    out = mon.call(lambda: (a.state, a.config))
    mon.check(out.ok, "config or initial state does not load", outcome=out, **info)
    mon.check(len(ncalls) == (0 if from_ckpt else 1), "initial state function was not called exactly once without a checkpoint, "
              "or was called with one", calls=len(ncalls), **info)
    first = runs.take(a)
    snaps = []
    for k in range(K):
        train(random.Random(f"{seed0}/{k}"), a, key, blobs, free, scheds, fixed, k, st, o)
        out = mon.call(a.step)
        mon.check(out.ok, "step failed", outcome=out, **info)
        snaps.append(runs.take(a))
    mon.check(len(ncalls) == (0 if from_ckpt else 1), "initial state function was called again", **info)
    # the interrupted run
    d = os.path.join(mon.dir, rng.choice(["b"] * 4 + ["runs/exp 1/b", "lauf [1-3]*?", f"latest-{key}7", "b.ron", "läufe/%s{step}", "~", f"{key}000000000007"]))
    mon.count("unusual_directories", os.path.basename(d) != "b")
    del ncalls[:]
    b = manager(d, init_path=init)
    mon.check(runs.same(first, runs.take(b)) is None, "two runs with the same inputs start differently", **info)
    mon.check(len(ncalls) == (0 if from_ckpt else 1), "initial state function was not called exactly once", calls=len(ncalls), **info)
    trace = []
    for k in range(K):
        train(random.Random(f"{seed0}/{k}"), b, key, blobs, free, scheds, fixed, k, st, o)
        out = mon.call(b.step)
        mon.check(out.ok, "step failed after a restart", outcome=out, trace=trace, **info)
        r = runs.same(snaps[k], runs.take(b))
        mon.check(r is None, "interrupted run differs from the uninterrupted one", problem=r, step=k, trace=trace, **info)
        mon.count("snapshots_compared")
        while rng.random() < 0.3:
            out = mon.call(b.step)
            mon.check(out.ok, "stepping again without progress failed", outcome=out, trace=trace, **info)
            r = runs.same(snaps[k], runs.take(b))
            mon.check(r is None, "stepping without progress changed config or state", problem=r, trace=trace, **info)
            mon.count("steps_without_progress")
            trace.append("again")
        idle = 0
        while rng.random() < (0.6 if idle == 0 else 0.3):
            # stop and restart
            idle += 1
            if rng.random() < 0.1:
                nd = os.path.join(mon.dir, f"moved{k}{idle}")
                os.rename(d, nd)
                d = nd
                mon.count("moved_directory")
            how = rng.choice(["same", "same", "garbage", "missing", "none", "other"])
            ip = init
            if how == "garbage":
                ip = os.path.join(mon.dir, "garbage.ron")
                with open(ip, "w") as fh:
                    fh.write("Garbage(")
            elif how == "missing":
                ip = os.path.join(mon.dir, "nothing-here")
            elif how == "none":
                ip = None
            elif how == "other":
                ip = os.path.join(mon.dir, "a", [x for x in os.listdir(os.path.join(mon.dir, "a"))][0])
            trace.append((k, how))
            # overrides are stored in the checkpoint: passing them again or not makes no difference for fields the program left alone
            again = [] if rng.random() < 0.5 else ovs
            if again:
                mon.count("overridden_restarts")
            out = mon.call(manager, d, forbidden, ip, again)
            mon.check(out.ok, "restart failed", outcome=out, trace=trace, **info)
            del ncalls[:]
            b = out.value
            if rng.random() < 0.1:
                # go on in another directory, decided before or after the state is first used
                if rng.random() < 0.5:
                    out = mon.call(lambda: b.state)
                    mon.check(out.ok, "restarted run does not load its checkpoint", outcome=out, trace=trace, **info)
                d = os.path.join(mon.dir, f"elsewhere{k}{idle}")
                out = mon.call(lambda: (setattr(b, "checkpoint_dir", Path(d)), b.step()))
                mon.check(out.ok, "run cannot go on in another directory", outcome=out, trace=trace, **info)
                trace.append("elsewhere")
                mon.count("other_directory")
            r = rng.random()
            if r < 0.3:
                out = mon.call(lambda: b.config)
            elif r < 0.6:
                out = mon.call(lambda: b.state)
            else:
                out = mon.call(lambda: None)
            mon.check(out.ok, "restarted run does not load its checkpoint", outcome=out, trace=trace, **info)
            if ip is not None:
                mon.count("init_ignored")
            mon.count("restarts")
            if idle > 1:
                mon.count("idle_restarts")
            if rng.random() < 0.5:
                # leave the blobs unread for now
                mon.count("unread_blobs", len(blobs))
                if rng.random() < 0.5:
                    out = mon.call(b.step)
                    mon.check(out.ok, "step right after a restart failed", outcome=out, trace=trace, **info)
                    trace.append("step")
                continue
            out = mon.call(runs.take, b)
            mon.check(out.ok, "restarted run cannot read its state", outcome=out, trace=trace, **info)
            r = runs.same(snaps[k], out.value)
            mon.check(r is None, "restarted run differs from its last step", problem=r, trace=trace, **info)
            mon.check(not ncalls, "initial state function was called although there is a checkpoint", trace=trace, **info)
            mon.count("snapshots_compared")
    mon.check(not ncalls or from_ckpt or "forbidden" not in ncalls, "initial state function was called although there is a checkpoint",
              trace=trace, **info)
    if scheds:
        mon.count("scheduled")
    mon.count("arrays_changed_in_place", IN_PLACE[0])
    IN_PLACE[0] = 0
    mon.distinct(gen.describe(st), str(info["state"]), tuple(trace))
    mon.sample({"text": text, "state": info["state"], "trace": trace})
