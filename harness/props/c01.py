"""C01 Dumped configs load back exactly."""
import copy
import os
from pathlib import Path

import hyperstate
import pyron
import gen
from gen import Opts

LEVEL = "exploration"
RULE = ("one case = a generated dataclass hierarchy and 4 generated objects of it; each object is dumped and reloaded "
        "through string and file, with and without default elision; non-trivial = distinct (type skeleton, dump text)")
CASES = {"quick": 1200, "thorough": 60000}
REQUIRE = {"distinct": 2000, "reloads": 5000, "elided_smaller": 100, "defaults_left_out": 1500}
OPTS = Opts(versioned=0.3, nan=True, reuse=0.2)


def case(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 3, 3]), version=rng.randint(0, 4) if rng.random() < 0.4 else None)
    cls = st.cls
    prev = None
    for j in range(4):
        obj = gen.gen_value(st, rng, o)
        snap = copy.deepcopy(obj)
        out = mon.call(hyperstate.dumps, obj)
        mon.check(out.ok, "dumps failed on a supported object", type=st, obj=obj, outcome=out)
        text = out.value
        mon.distinct(gen.shape(st), text)
        d = gen.diff(snap, obj)
        mon.check(d is None, "dumping modified the object", type=st, diff=d)
        back = mon.call(hyperstate.loads, cls, text)
        mon.check(back.ok, "dumped object does not load", type=st, text=text, outcome=back)
        d = gen.diff(obj, back.value)
        mon.check(d is None, "reloaded object differs", type=st, text=text, diff=d)
        mon.count("reloads")
        again = mon.call(hyperstate.dumps, back.value)
        mon.check(again.ok and again.value == text, "dump of the reloaded object differs", type=st, text=text, again=again)
        # elided
        el = mon.call(hyperstate.dumps, obj, elide_defaults=True)
        mon.check(el.ok, "eliding dump failed", type=st, outcome=el)
        if len(el.value) < len(text):
            mon.count("elided_smaller")
        back = mon.call(hyperstate.loads, cls, el.value)
        mon.check(back.ok, "dump without defaults does not load", type=st, text=el.value, outcome=back)
        d = gen.diff(obj, back.value, loose_zero=True)
        mon.check(d is None, "leaving out defaults changed the loaded object", type=st, text=el.value, diff=d)
        mon.check(gen.diff(snap, obj) is None, "dumping modified the object", type=st)
        mon.count("reloads")
        n, bad = gen.not_left_out(st, obj, pyron.loads(el.value, preserve_class_names=True))
        mon.check(not bad, "a dump without defaults writes default values out", fields=bad, type=st, text=el.value)
        mon.count("defaults_left_out", n)
        if j == 0:
            for as_path in (False, True):
                p = os.path.join(mon.dir, f"f{as_path}.ron")
                q = Path(p) if as_path else p
                elide = rng.random() < 0.5
                w = mon.call(hyperstate.dump, obj, q, elide_defaults=elide)
                mon.check(w.ok, "dump to file failed", type=st, outcome=w)
                back = mon.call(hyperstate.load, cls, q)
                mon.check(back.ok, "dumped file does not load", type=st, outcome=back)
                d = gen.diff(obj, back.value, loose_zero=elide)
                mon.check(d is None, "object reloaded from file differs", type=st, diff=d)
                mon.count("reloads")
            # an existing, longer file is replaced completely
            w = mon.call(hyperstate.dump, obj, p)
            small = gen.gen_value(st, rng, o)
            w = mon.call(hyperstate.dump, small, p, elide_defaults=True)
            back = mon.call(hyperstate.load, cls, p)
            mon.check(back.ok, "overwritten file does not load", type=st, outcome=back)
            d = gen.diff(small, back.value, loose_zero=True)
            mon.check(d is None, "overwritten file loads another object", type=st, diff=d)
        # two loads of one document share no mutable parts
        if prev is not None:
            d = gen.diff(prev[0], prev[1])
            mon.check(d is None, "an earlier loaded object changed", type=st, diff=d)
        prev = (back.value, copy.deepcopy(back.value))
    mon.sample({"type": gen.describe(st), "text": text})
