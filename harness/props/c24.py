"""C24 The config dictionary mirrors the current config."""
import copy
import dataclasses
import os

import hyperstate
import gen
import sched
from gen import Opts, St, Opt, Lst, Dct, Tup, Un, En
from props import c10

LEVEL = "exploration"
RULE = ("one case = two identical managed runs of a generated config class (with schedules), one of which asks for the config dictionary at "
        "random points (before and after steps, after the program edits the config, after a resume), compares it with an independent "
        "conversion, overwrites everything in it and asks again; at the end the checkpoints of both runs are compared byte by byte; "
        "non-trivial = distinct dictionaries")
CASES = {"quick": 1500, "thorough": 60000}
REQUIRE = {"distinct": 4000, "dicts": 8000, "leaves": 40000, "containers_overwritten": 15000, "scheduled_values": 2500, "versions": 1500,
           "enum_leaves": 1500, "unions": 800, "checkpoints_compared": 1200, "edits": 1500, "resumed": 400, "first_access": 300}
OPTS = Opts(versioned=0.3, max_fields=4, reuse=0.2)


def convert(t, v, mon):
    if isinstance(t, Opt):
        return None if v is None else convert(t.t, v, mon)
    if isinstance(t, Lst):
        return [convert(t.t, x, mon) for x in v]
    if isinstance(t, Tup):
        return tuple(convert(x, y, mon) for x, y in zip(t.ts, v))
    if isinstance(t, Dct):
        return {convert(t.k, k, mon): convert(t.t, x, mon) for k, x in v.items()}
    if isinstance(t, En):
        mon.count("enum_leaves")
        return v.value
    if isinstance(t, Un):
        mon.count("unions")
        return convert([s for s in t.sts if type(v) is s.cls][0], v, mon)
    if isinstance(t, St):
        d = {}
        if t.version is not None:
            d["version"] = t.version
            mon.count("versions")
        for f in t.fields:
            d[f.name] = convert(f.t, getattr(v, f.name), mon)
        return d
    mon.count("leaves")
    return v


def vandalise(x, mon):
    """Overwrites everything mutable inside x."""
    if isinstance(x, dict):
        mon.count("containers_overwritten")
        for k in list(x):
            vandalise(x[k], mon)
            x[k] = "overwritten"
        x["added"] = object()
        if len(x) % 2:
            x.clear()
    elif isinstance(x, list):
        mon.count("containers_overwritten")
        for i, y in enumerate(x):
            vandalise(y, mon)
            x[i] = ["overwritten"]
        x.append(object())
    elif isinstance(x, tuple):
        for y in x:
            vandalise(y, mon)
    elif dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            vandalise(getattr(x, f.name), mon)
            setattr(x, f.name, "overwritten")




def state_class():
    import typing
    return dataclasses.make_dataclass("RunState", [("hist", typing.List[float], dataclasses.field(default_factory=list))],
                                      bases=(c10.State,))


RunState = state_class()


def edit(rng, o, st, cfgs, scheds):
    """The program changes a field that has no schedule, the same way in both runs."""
    paths = [(q, f) for q, f in sched.live_paths(st, cfgs[0])
             if not any(s[:len(q)] == q for s in scheds)]
    if not paths:
        return False
    q, f = rng.choice(paths)
    t = f.t
    old = sched.get(cfgs[0], q)
    if isinstance(t, Lst) and rng.random() < 0.5:
        x = gen.gen_value(t.t, rng, o)
        for c in cfgs:
            sched.get(c, q).append(copy.deepcopy(x))
    elif isinstance(t, Dct) and old and rng.random() < 0.5:
        k = rng.choice(list(old))
        x = gen.gen_value(t.t, rng, o)
        for c in cfgs:
            sched.get(c, q)[k] = copy.deepcopy(x)
    else:
        x = gen.gen_value(t, rng, o)
        for c in cfgs:
            sched.put(c, q, copy.deepcopy(x))
    return True


def tree(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def observe(mon, sm, st, scheds, rng, info):
    sm.state  # applies the schedules to the config
    want = convert(st, sm.config, mon)
    cfg, state = copy.deepcopy(sm.config), copy.deepcopy(sm.state)
    got = mon.call(sm.config_dict)
    mon.check(got.ok, "config_dict failed", outcome=got, **info)
    d = gen.diff(want, got.value)
    mon.check(d is None, "dictionary differs from the config", diff=d, want=want, got=got.value, **info)
    mon.distinct(want)
    mon.count("dicts")
    for q in scheds:
        x = got.value
        for s in q:
            x = x[s]
        mon.check(gen.diff(x, sched.get(sm.config, q)) is None, "scheduled field is not its momentary value", path=q, got=x, **info)
        mon.count("scheduled_values")
    if rng.random() < 0.8:
        vandalise(got.value, mon)
    d = gen.diff(cfg, sm.config)
    mon.check(d is None, "changing the dictionary changed the config", diff=d, **info)
    d = gen.diff(state, sm.state)
    mon.check(d is None, "changing the dictionary changed the state", diff=d, **info)
    if rng.random() < 0.4:
        d = gen.diff(want, mon.call(sm.config_dict).value)
        mon.check(d is None, "second dictionary differs", diff=d, **info)


def case(rng, i, mon):
    o = OPTS
    st = c10.make(rng, o)
    if rng.random() < 0.5:
        st.version = rng.choice([0, 1, 12])
    obj = gen.gen_value(st, rng, o)
    node = gen.to_node(st, obj, rng)
    if node == ["m", []]:
        return
    node, ovs, scheds = c10.schedule_some(rng, st, obj, node, rng.choice([0.0, 0.3, 0.6]))
    text = gen.render(node, rng)
    p = os.path.join(mon.dir, "config.ron")
    with open(p, "w", encoding="utf-8") as fh:
        fh.write(text)
    info = dict(type=st, text=text, overrides=ovs)

    def initial(cfg, ctx):
        return RunState(hist=[1.0])
    dirs = [os.path.join(mon.dir, x) for x in "ab"]
    sms = [hyperstate.StateManager(st.cls, RunState, initial, init_path=p, overrides=list(ovs), checkpoint_dir=d) for d in dirs]
    first = rng.random() < 0.3
    if first:
        # before anything else was accessed
        r = mon.call(sms[0].config_dict)
        mon.check(r.ok, "config_dict failed", outcome=r, **info)
        mon.count("first_access")
    for sm in sms:
        r = mon.call(lambda: (sm.config, sm.state))
        mon.check(r.ok, "config does not load", outcome=r, **info)
    a, b = sms
    if not scheds or not first:
        d = gen.diff(b.config, a.config)
        mon.check(d is None, "config differs after asking for the dictionary", diff=d, **info)
    observe(mon, a, st, scheds, rng, info)
    step = 0
    for k in range(rng.choice([2, 4, 6])):
        c10.set_state(rng, a.state, scheds)
        step += rng.choice([1, 1, 5])
        for x in sched.XNAMES:
            setattr(b.state, x, getattr(a.state, x))
        a.state.step = b.state.step = step
        if rng.random() < 0.5 and edit(rng, o, st, (a.config, b.config), scheds):
            mon.count("edits")
            observe(mon, a, st, scheds, rng, info)
        for sm in sms:
            r = mon.call(sm.step)
            mon.check(r.ok, "step failed", outcome=r, **info)
        observe(mon, a, st, scheds, rng, info)
        d = gen.diff(b.config, a.config)
        mon.check(d is None, "configs of the runs with and without dictionaries differ", diff=d, **info)
        x, y = tree(dirs[0]), tree(dirs[1])
        mon.check(x == y, "checkpoints of the runs with and without dictionaries differ", files=[x, y], **info)
        mon.count("checkpoints_compared")
        if rng.random() < 0.25:
            sms = [hyperstate.StateManager(st.cls, RunState, initial, init_path=p, checkpoint_dir=d) for d in dirs]
            a, b = sms
            r = mon.call(lambda: (a.config, b.config))
            mon.check(r.ok, "run cannot be resumed", outcome=r, **info)
            mon.count("resumed")
            observe(mon, a, st, scheds, rng, info)
    mon.sample({"type": gen.describe(st), "text": text})
