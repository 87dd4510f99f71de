"""C11 Schedules survive checkpoints and config upgrades."""
import copy
import os
import shutil

import hyperstate
import pyron
import cli
import evo
import gen
import ovr
import sched
from gen import Opts, St
from props.c10 import State, make, schedule_some, set_state

LEVEL = "exploration"
RULE = ("one case = a scheduled config driven through 2-5 process lives (new state managers on the same directory, sometimes resuming "
        "from an explicit checkpoint), the stored documents parsed and compared with the schedules; or a scheduled config file, "
        "possibly of an older version whose rules move the scheduled fields, rewritten by upgrade-config; "
        "non-trivial = distinct (schedules, history)")
CASES = {"quick": 2000, "thorough": 50000}
REQUIRE = {"distinct": 600, "restarts": 1000, "stored_schedules": 4000, "upgraded_files": 400, "moved_schedules": 150, "value_equals_default": 60,
           "explicit_checkpoints": 150, "unscheduled_by_override": 60, "saved_first": 150}
OPTS = Opts(versioned=0.1, max_fields=4, weird_numbers=False, reuse=0.2)


def stored(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def check_document(mon, st, file, cfg, scheds, **info):
    text = open(file, encoding="utf-8").read()
    doc = pyron.loads(text, preserve_class_names=True)
    for path, s in scheds.items():
        v = stored(doc, path)
        mon.check(isinstance(v, str) and "@" in v and sched.parse(v).same(s), "stored document does not hold the schedule",
                  path=path, stored=v, schedule=s, document=text, **info)
        mon.count("stored_schedules")
    for path, f in sched.live_paths(st, cfg):
        if path not in scheds and sched.numeric(f.t) is not None:
            try:
                v = stored(doc, path)
            except (KeyError, TypeError):
                continue  # default left out
            mon.check(not (isinstance(v, str) and "@" in v), "plain field is stored as a schedule", path=path, document=text, **info)


def lives(rng, i, mon):
    o = OPTS
    st = make(rng, o)
    obj = gen.gen_value(st, rng, o)
    node = gen.to_node(st, obj, rng)
    if node == ["m", []]:
        return
    node, ovs, scheds = schedule_some(rng, st, obj, node)
    if not scheds:
        return
    text = gen.render(node, rng)
    init = os.path.join(mon.dir, "config.ron")
    with open(init, "w", encoding="utf-8") as fh:
        fh.write(text)
    ckpt = os.path.join(mon.dir, "run")
    plain = copy.deepcopy(obj)
    want_state = None
    step = 0
    info = dict(type=st, text=text, overrides=ovs)
    pass_ovs = list(ovs)
    source = init
    trace = []
    for life in range(rng.randint(2, 5)):
        sm = hyperstate.StateManager(st.cls, State, lambda c, x: State(), init_path=source,
                                     checkpoint_dir=ckpt, overrides=list(pass_ovs))
        first = rng.random()
        early = os.path.join(mon.dir, f"early{life}") if first > 0.85 else None
        if early:
            # saving is the first thing that happens
            out = mon.call(sm.checkpoint, early)
        elif first > 0.7:
            out = mon.call(sm.config_dict)
        elif first > 0.6:
            out = mon.call(sm.step)
        else:
            out = mon.call(lambda: (sm.config, sm.state) if first < 0.3 else (sm.state, sm.config))
        mon.check(out.ok, "scheduled config does not load after a restart", outcome=out, trace=trace, **info)
        if early:
            check_document(mon, st, os.path.join(early, "config.ron"), sm.config, scheds, trace=trace, **info)
            mon.count("saved_first")
        cfg, state = sm.config, sm.state
        if want_state is not None:
            mon.check(gen.diff(want_state, state) is None, "restored state differs", want=want_state, got=state, **info)
            mon.count("restarts")
        # schedules given as overrides hold in the first life only if they are not passed again: they are stored by then
        sched.check_config(mon, st, cfg, state, scheds, plain, when=f"life {life}", trace=trace, **info)
        for k in range(rng.randint(1, 4)):
            set_state(rng, state, scheds)
            step += rng.choice([1, 1, 5])
            state.step = step
            out = mon.call(sm.step)
            mon.check(out.ok, "step failed", outcome=out, trace=trace, **info)
            sched.check_config(mon, st, cfg, state, scheds, plain, when=f"life {life} step {k}", trace=trace, **info)
            trace.append((life, repr(state)))
            d = os.path.join(ckpt, f"latest-step{step:012}")
            check_document(mon, st, os.path.join(d, "config.ron"), cfg, scheds, trace=trace, **info)
        want_state = copy.deepcopy(state)
        pass_ovs = list(ovs) if rng.random() < 0.5 else []
        if rng.random() < 0.2:
            # continue from an explicit checkpoint in a new directory
            target = os.path.join(mon.dir, f"explicit{life}")
            out = mon.call(sm.checkpoint, target)
            mon.check(out.ok, "explicit checkpoint failed", outcome=out, **info)
            check_document(mon, st, os.path.join(target, "config.ron"), cfg, scheds, trace=trace, **info)
            source = target
            ckpt = os.path.join(mon.dir, f"run{life}")
            mon.count("explicit_checkpoints")
        if scheds and rng.random() < 0.15:
            # an override turns a schedule into a plain value for good
            path = rng.choice(list(scheds))
            f = dict(sched.live_paths(st, cfg))[path]
            v = gen.gen_value(sched.numeric(f.t), rng, o)
            pass_ovs = [x for x in pass_ovs if not x.startswith(".".join(path) + "=")] + [".".join(path) + "=" + repr(v)]
            ovs = [x for x in ovs if not x.startswith(".".join(path) + "=")]
            del scheds[path]
            sched.put(plain, path, v)
            mon.count("unscheduled_by_override")
    mon.distinct(repr(scheds), tuple(trace))
    mon.sample({"text": text, "trace": trace})


def files(rng, i, mon):
    """upgrade-config on a scheduled file, possibly of an old version."""
    o = OPTS
    st = make(rng, o)
    h = evo.History(rng, o, st, rng.choice([0, 1, 1, 2]), [1, 2, 3], maps=False, checks=False)
    new, spec = h.new, rng.choice(h.specs)
    node = evo.gen_node(new, rng, o, drop=0.0, pdef=rng.choice([0.0, 0.3]), spec=spec)
    # unique numbers stand for the schedules while the reference upgrades the document
    marks = {}

    def mark(t, n, f=None):
        if isinstance(t, gen.Opt):
            return mark(t.t, n, f) if n[0] != "n" else n
        if isinstance(t, St):
            if n[0] == "m":
                n = ["r", "", [[a[1], b] for a, b in n[1]]]
            return ["r", n[1], [[a, b if t.field(a) is None else mark(t.field(a).t, b, t.field(a))] for a, b in n[2]]]
        if isinstance(t, (gen.Int, gen.Flt)) and rng.random() < 0.5:
            m = 700000 + len(marks) + 1
            s = sched.gen_sched(rng, isinstance(t, gen.Int))
            if f is not None and f.has_default and f.default is not None and abs(f.default) < 1e15 and rng.random() < 0.5:
                # the momentary value equals the default
                x0 = s.points[0][0]
                s = sched.Sched(s.xname, [(x - min(x0, 0.0), float(f.default) if x == x0 else y) for x, y in s.points], s.joins)
                mon.count("value_equals_default")
            marks[m] = (s, isinstance(t, gen.Int))
            return ["i", m]
        return n
    if node == ["m", []] or node[0] == "m" or not node[2]:
        return
    # keep field order: mark() does not reorder
    node = mark(spec, node)
    if not marks:
        return
    status, want = gen.ref_load(new, node)
    if status != gen.OK:
        return
    texts = {m: s.text(rng) for m, (s, _) in marks.items()}

    def subst(n):
        if n[0] == "i" and n[1] in texts:
            return ["s", texts[n[1]]]
        if n[0] == "r":
            return ["r", n[1], [[a, subst(b)] for a, b in n[2]]]
        return n
    text = gen.render(subst(node), rng)
    scheds = {}
    for path, f in sched.live_paths(new, want):
        v = sched.get(want, path)
        if sched.numeric(f.t) is not None and v is not None and int(v) in marks and v == int(v):
            scheds[path] = marks[int(v)][0]
    moved = 0
    old_names = {f.name for f in spec.fields}
    if spec is not new:
        moved = len(scheds)
    p = os.path.join(mon.dir, "c.ron")
    with open(p, "w", encoding="utf-8") as fh:
        fh.write(text)
    args = ["upgrade-config", p] + (["--include-defaults"] if rng.random() < 0.5 else [])
    info = dict(new=new, rules=h.real, text=text, args=args[2:])
    res = cli.run(hyperstate.schema_evolution_cli, args, new.cls)
    mon.check(res.code == 0, "upgrade-config failed on a valid scheduled file", outcome=res, **info)
    after = open(p, encoding="utf-8").read()
    check_document(mon, new, p, want, scheds, **info)
    mon.count("upgraded_files")
    mon.count("moved_schedules", moved)
    mon.distinct(repr(scheds), text)
    # a run on the upgraded file follows the same schedules
    sm = hyperstate.StateManager(new.cls, State, lambda c, x: State(), init_path=p)
    out = mon.call(lambda: (sm.config, sm.state))
    mon.check(out.ok, "upgraded scheduled file does not load", outcome=out, after=after, **info)
    plain = want
    for k in range(4):
        sched.check_config(mon, new, sm.config, sm.state, scheds, plain, when=k, after=after, **info)
        set_state(rng, sm.state, scheds)
        sm.step()
    # upgrading again changes nothing
    res = cli.run(hyperstate.schema_evolution_cli, args, new.cls)
    mon.check(res.code == 0 and open(p, encoding="utf-8").read() == after, "upgrading a scheduled file twice changes it",
              after=after, again=open(p, encoding="utf-8").read(), **info)


def case(rng, i, mon):
    (lives if i % 2 == 0 else files)(rng, i, mon)
