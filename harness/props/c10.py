"""C10 Schedules follow their piecewise definition at every step."""
import copy
import os
from dataclasses import dataclass

import hyperstate
import gen
import ovr
import sched
from gen import Opts, St, F, INT, FLT, Opt

LEVEL = "exploration"
RULE = ("one case = a config class with schedules on int/float fields at several depths (in the file or as overrides), a state with "
        "4 counters and 14 steps that put the counters on, beside, between and outside the knots, in any order; after each, "
        "every field is compared with an independent evaluation; non-trivial = distinct (schedule, counter value)")
CASES = {"quick": 3000, "thorough": 100000}
REQUIRE = {"distinct": 15000, "field_checks": 20000, "knots": 3000, "int_fields": 5000, "depth3": 500, "overridden": 300,
           "jumps": 1000, "jump_before_all": 150, "jump_after_all": 150, "before_the_state": 1500, "resumed": 1200}
OPTS = Opts(versioned=0.1, max_fields=4, weird_numbers=False, union=True, reuse=0.2)


@dataclass
class State:
    step: int = 0
    epoch: float = 0.0
    loss: float = 0.0
    items: int = 0


def make(rng, o, nmin=1, depth=None):
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 3]) if depth is None else depth, nmin=nmin)
    # numeric fields everywhere
    for t in list(gen.walk_types(st)):
        if isinstance(t, St) and t._cls is None and rng.random() < 0.7:
            used = {f.name for f in t.fields} | {"version", "self"}
            t.fields.insert(0, F(gen.fresh_name(rng, used), rng.choice([INT, FLT, FLT, Opt(FLT), Opt(INT)])))
            if rng.random() < 0.5:
                t.fields.insert(0, F(gen.fresh_name(rng, used), rng.choice([INT, FLT])))
    return st


def schedule_some(rng, st, obj, node, p=0.5, xnames=sched.XNAMES):
    """(document with schedules, overrides with schedules, {path: schedule})"""
    scheds, ovs = {}, []
    for path, f in sched.live_paths(st, obj):
        t = sched.numeric(f.t)
        if t is None or rng.random() > p:
            continue
        s = sched.gen_sched(rng, isinstance(t, gen.Int), xnames)
        text = s.text(rng)
        scheds[path] = s
        if rng.random() < 0.2:
            ovs.append(".".join(path) + "=" + gen.render_str(text))
        else:
            node = ovr.set_path(st, node, path, ["s", text])
    return node, ovs, scheds


def set_state(rng, state, scheds):
    for x in sched.XNAMES:
        if rng.random() < 0.6:
            v = sched.interesting_x(rng, list(scheds.values()), x)
            setattr(state, x, int(v) if x in ("step", "items") else float(v))


def resume(rng, mon, st, sm, state, scheds, plain, k, info):
    """A manager started on a checkpoint of this one: its schedules hold as soon as the state is there."""
    top = os.path.join(mon.dir, f"ckpt{k}")
    os.makedirs(top)
    d = os.path.join(top, f"latest-step{k:012}")
    out = mon.call(sm.checkpoint, d)
    mon.check(out.ok, "checkpoint fails", outcome=out, **info)
    new = hyperstate.StateManager(st.cls, State, lambda cfg, ctx: State(), **rng.choice([{"init_path": d}, {"checkpoint_dir": top}]))
    first = rng.choice(["state", "config", "step"])
    out = mon.call(lambda: new.state if first == "state" else new.config if first == "config" else new.step())
    mon.check(out.ok, "checkpoint does not load", outcome=out, **info)
    if first == "config":
        # before the state is there, schedules are at zero
        out = mon.call(lambda: new.state)
        mon.check(out.ok, "checkpoint does not load", outcome=out, **info)
    mon.check(gen.diff(state, new.state) is None, "checkpoint restores another state", want=state, got=new.state, **info)
    sched.check_config(mon, st, new.config, new.state, scheds, plain, when=f"resumed at {k} ({first})", **info)
    mon.count("resumed")
    return new, new.config, new.state, plain


def case(rng, i, mon):
    o = OPTS
    st = make(rng, o)
    obj = gen.gen_value(st, rng, o)
    node = gen.to_node(st, obj, rng)
    if node == ["m", []]:
        return
    node, ovs, scheds = schedule_some(rng, st, obj, node)
    if not scheds:
        return
    text = gen.render(node, rng)
    info = dict(type=st, text=text, overrides=ovs)
    p = os.path.join(mon.dir, "config.ron")
    with open(p, "w", encoding="utf-8") as fh:
        fh.write(text)
    start = State()
    if rng.random() < 0.7:
        set_state(rng, start, scheds)
    calls = []

    def initial(cfg, ctx):
        calls.append(copy.deepcopy(cfg))
        return copy.deepcopy(start)
    sm = hyperstate.StateManager(st.cls, State, initial, init_path=p, overrides=list(ovs))
    out = mon.call(lambda: sm.config if rng.random() < 0.5 else (sm.state, sm.config)[1])
    mon.check(out.ok, "config with schedules does not load", outcome=out, **info)
    cfg = out.value
    r = gen.nonconforming(st, cfg)
    mon.check(r is None, "scheduled config does not have the declared types", problem=r, **info)
    plain = copy.deepcopy(obj)
    state = sm.state
    for seen in calls:
        sched.check_config(mon, st, seen, State(), scheds, copy.deepcopy(obj), when="initial_state", **info)
        mon.count("before_the_state")
    if rng.random() < 0.3:
        out = mon.call(hyperstate.load, st.cls, p, list(ovs))
        mon.check(out.ok, "config with schedules does not load", outcome=out, **info)
        sched.check_config(mon, st, out.value, State(), scheds, copy.deepcopy(obj), when="load", **info)
        mon.count("before_the_state")
    sched.check_config(mon, st, cfg, state, scheds, plain, when="first access", **info)
    mon.check(len(calls) == 1 and gen.diff(start, state) is None, "initial state was changed", **info)
    mon.count("overridden", len(ovs))
    for k in range(14):
        set_state(rng, state, scheds)
        if rng.random() < 0.15:
            # the program changes a field that has no schedule: that value stays
            free = [(q, f) for q, f in sched.live_paths(st, cfg) if q not in scheds and isinstance(f.t, (gen.Int, gen.Flt, gen.Str))]
            if free:
                q, f = rng.choice(free)
                v = gen.gen_value(f.t, rng, o)
                sched.put(cfg, q, v)
                sched.put(plain, q, v)
        if rng.random() < 0.1:
            q = rng.choice(list(scheds))
            sched.put(cfg, q, type(sched.get(cfg, q))(1))  # overwritten by the schedule
        before = copy.deepcopy(state)
        out = mon.call(sm.step)
        mon.check(out.ok, "step failed", outcome=out, state=state, **info)
        mon.check(sm.config is cfg and sm.state is state, "config or state object was replaced", **info)
        mon.check(gen.diff(before, state) is None, "stepping changed the state", before=before, after=state, **info)
        sched.check_config(mon, st, cfg, state, scheds, plain, when=f"step {k}", **info)
        for q, s in scheds.items():
            x = getattr(state, s.xname)
            mon.distinct(repr(s), x)
            mon.count("field_checks")
            if any(a == x for a, _ in s.points):
                mon.count("knots")
            if len(set(a for a, _ in s.points)) < len(s.points):
                mon.count("jumps")
                xs = [a for a, _ in s.points]
                mon.count("jump_before_all", xs[0] == xs[1] and x < xs[0])
                mon.count("jump_after_all", xs[-1] == xs[-2] and x > xs[-1])
            if type(sched.get(cfg, q)) is int:
                mon.count("int_fields")
            if len(q) > 2:
                mon.count("depth3")
        if rng.random() < 0.06:
            # the program ends here and another one goes on
            sm, cfg, state, plain = resume(rng, mon, st, sm, state, scheds, plain, k, info)
    mon.sample({"text": text, "overrides": ovs})
