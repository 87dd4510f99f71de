"""C05 Overrides win over version upgrades."""
import os

import hyperstate
import evo
import gen
import ovr
from gen import Opts
from props.c15 import add_nested

LEVEL = "exploration"
RULE = ("one case = a class with 1-3 older versions (also nested versioned classes) and 8 (old document, override list) pairs "
        "whose overrides hit renamed, moved, mapped, defaulted, checked and absent fields; oracle: reference upgrade, then the "
        "override values written at the named paths; non-trivial = distinct (class, document, overrides)")
CASES = {"quick": 1500, "thorough": 50000}
REQUIRE = {"distinct": 5000, "loaded": 3500, "touched": 2500, "moved": 200, "rejected": 200, "nested_old": 60}
OPTS = Opts(versioned=0.0, max_fields=5, weird_numbers=False)


def case(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 1, 2, 2]), nmin=2)
    hs = add_nested(rng, o, st, {})
    h = evo.History(rng, o, st, rng.choice([1, 1, 2, 3]), [1, 2, 3])
    named = {}
    for ms in h.model.values():
        for m in ms:
            for p in (m[1], m[2] if m[0] == "rename" else m[1]):
                named[p] = m[0]
    for j in range(8):
        spec = rng.choice(h.specs[:-1])
        node = evo.gen_node(h.new, rng, o, drop=rng.choice([0, 0, 0, 0.1]), pdef=rng.choice([0.2, 0.5, 0.9]), spec=spec)
        text = gen.render(node, rng)
        ovs = ovr.gen_overrides(rng, h.new, o, rng.choice([1, 1, 2, 3, 5]))
        # favour fields the rules deal with
        ps = [(p, f) for p, f in ovr.paths(h.new) if p in named or p[:-1] in named]
        for p, f in rng.sample(ps, min(len(ps), rng.choice([0, 1, 2]))):
            t, n = ovr.token(rng, f.t, gen.gen_value(f.t, rng, o))
            ovs.insert(rng.randint(0, len(ovs)), (".".join(p) + "=" + t, p, n))
        texts = [x[0] for x in ovs]
        up = ovr.to_current(h.new, node)
        if up is None:
            status, want = gen.REJ, None
        else:
            try:
                status, want = gen.ref_load(h.new, ovr.apply(h.new, up, ovs))
            except ovr.Rejected:
                status, want = gen.REJ, None
        via = rng.choice(["loads", "load", "manager"])
        if via == "loads":
            out = mon.call(hyperstate.loads, h.new.cls, text, overrides=list(texts))
        else:
            p = os.path.join(mon.dir, f"d{j}.ron")
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(text)
            if via == "load":
                out = mon.call(hyperstate.load, h.new.cls, p, list(texts))
            else:
                out = mon.call(lambda: hyperstate.StateManager(h.new.cls, h.new.cls, lambda c, x: c, init_path=p,
                                                               overrides=list(texts)).config)
        info = dict(old=spec, new=h.new, rules=h.real, text=text, overrides=texts, via=via, outcome=out)
        mon.distinct(gen.describe(h.new), text, tuple(texts))
        if status == gen.OK:
            mon.check(out.ok, "old document with valid overrides rejected", **info)
            d = gen.diff(want, out.value)
            mon.check(d is None, "upgraded and overridden config differs from the upgraded document with the override values",
                      diff=d, **info)
            mon.count("loaded")
            if any(x[1] in named for x in ovs):
                mon.count("touched")
            if any(named.get(x[1]) == "rename" for x in ovs):
                mon.count("moved")
            if len(hs) and any(len(x[1]) > 1 and h.new.field(x[1][0]).t in [q.new for _, q in hs.values()] for x in ovs):
                mon.count("nested_old")
        elif status == gen.REJ:
            mon.check(not out.ok, "rejected or incomplete configuration accepted", **info)
            mon.count("rejected")
    mon.sample({"new": gen.describe(h.new), "rules": repr(h.model), "text": text, "overrides": texts})
