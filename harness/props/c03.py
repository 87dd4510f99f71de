"""C03 No field is dropped, invented or mixed up on load."""
import os
import copy
from pathlib import Path

import hyperstate
import gen
from gen import Opts

LEVEL = "exploration"
RULE = ("one case = a generated class and 8 documents with random subsets and orders of its fields at every depth, some "
        "with unknown fields or missing required values at random depths, loaded strictly and ignoring extra fields; "
        "compared with the reference loader; non-trivial = distinct (type skeleton, document)")
CASES = {"quick": 2400, "thorough": 60000}
REQUIRE = {"distinct": 4000, "extra_deep": 300, "ignored_extra": 300, "missing": 500, "nested_default": 200, "files_loaded": 4000,
           "files_rejected_load": 1000, "files_rejected_manager": 1000, "files_rejected_ignoring_manager": 300}
OPTS = Opts(versioned=0.2, max_fields=6, weird_numbers=True, reuse=0.2)


def structs(node, path=()):
    for p, n in gen.subnodes(node):
        if n[0] == "r" and n[2]:
            yield p, n


def drop_some(rng, st, node, p):
    """Leave out fields at every depth."""
    def go(t, n):
        if isinstance(t, gen.Opt):
            return n if n[0] == "n" else go(t.t, n)
        if isinstance(t, gen.Lst):
            return ["l", [go(t.t, x) for x in n[1]]]
        if isinstance(t, gen.Tup):
            return ["t", [go(tt, x) for tt, x in zip(t.ts, n[1])]]
        if isinstance(t, gen.Dct):
            return ["m", [[a, go(t.t, b)] for a, b in n[1]]]
        if isinstance(t, gen.Un):
            for s in t.sts:
                if s.name == n[1]:
                    return go(s, n)
        if isinstance(t, gen.St):
            if n[0] == "m":
                items = [[k, b] for k, b in n[1]]
                items = [[k, b if k[1] == "version" else go(t.field(k[1]).t, b)] for k, b in items
                         if k[1] == "version" or keep(t, k[1])]
                return ["m", items]
            items = [[a, b if a == "version" and t.version is not None else go(t.field(a).t, b)] for a, b in n[2]
                     if (a == "version" and t.version is not None) or keep(t, a)]
            if not items and not n[1]:
                return ["m", []]
            return ["r", n[1], items]
        return n

    def keep(t, name):
        f = t.field(name)
        if f.has_default or isinstance(f.t, gen.St):
            return rng.random() > 0.5
        return rng.random() > p
    return go(st, node)


def case(rng, i, mon):
    versioned = rng.random() < 0.3
    st = gen.gen_struct(rng, OPTS, rng.choice([1, 2, 3, 3]), version=rng.randint(0, 4) if versioned else None)
    for j in range(8):
        obj = gen.gen_value(st, rng, OPTS)
        node = gen.to_node(st, obj, rng)
        node = drop_some(rng, st, node, rng.choice([0, 0, 0, 0.05, 0.3]))
        nextra = rng.choice([0, 0, 1, 1, 2])
        deep = False
        for _ in range(nextra):
            ss = list(structs(node))
            if not ss:
                break
            path, n = rng.choice(ss)
            deep = deep or len(path) > 0
            used = {a for a, _ in n[2]} | {"version"}
            for t in gen.walk_types(st):
                if isinstance(t, gen.St):
                    used |= {f.name for f in t.fields}
            name = gen.fresh_name(rng, used) if rng.random() < 0.95 else gen.CONSTANT
            if rng.random() < 0.3 and n[2]:
                base = rng.choice(n[2])[0]
                name = rng.choice([base + "_", base.upper() + "1", base[:-1] + "zq"])
                if name in used:
                    continue
            items = list(n[2])
            items.insert(rng.randint(0, len(items)), [name, gen.random_node(rng, 1)])
            node = gen.set_at(node, path, ["r", n[1], items])
        text = gen.render(node, rng)
        mon.distinct(gen.shape(st), text)
        for extra in (False, True):
            out = mon.call(hyperstate.loads, st.cls, text, ignore_extra_fields=extra)
            status, want = gen.ref_load(st, node, extra)
            if status == gen.OK:
                mon.check(out.ok, "valid document rejected", type=st, text=text, ignore=extra, outcome=out)
                d = gen.diff(want, out.value)
                mon.check(d is None, "loaded fields differ from the document and the defaults", type=st, text=text,
                          ignore=extra, diff=d)
                if nextra and extra:
                    mon.count("ignored_extra")
                if not nextra and len(text) < 40:
                    mon.count("nested_default")
            elif status == gen.REJ:
                mon.check(not out.ok, "document with unknown or missing fields accepted", type=st, text=text,
                          ignore=extra, outcome=out)
                if nextra and not extra and deep:
                    mon.count("extra_deep")
                if not nextra or extra:
                    mon.count("missing")
        # loaded defaults are the caller's own: changing them does not leak into the next load
        if out.ok and j == 0 and status == gen.OK and not shares_default_objects(st):
            scramble(out.value)
            again = mon.call(hyperstate.loads, st.cls, text, ignore_extra_fields=True)
            status2, want2 = gen.ref_load(st, node, True)
            if status2 == gen.OK:
                mon.check(again.ok and gen.diff(want2, again.value) is None, "a loaded object leaks into later loads",
                          type=st, text=text, outcome=again)
                mon.count("leak_probe")
        if j in (2, 5, 7):
            p = os.path.join(mon.dir, f"c{j}.ron")
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
            for route in ("load", "manager", "ignoring manager"):
                ignoring = route == "ignoring manager"
                if route == "load":
                    out = mon.call(hyperstate.load, st.cls, Path(p) if rng.random() < 0.5 else p)
                else:
                    kw = dict(ignore_extra_fields=ignoring) if ignoring or rng.random() < 0.3 else {}
                    out = mon.call(lambda: hyperstate.StateManager(st.cls, st.cls, lambda c, x: c, init_path=p, **kw).config)
                status, want = gen.ref_load(st, node, ignoring)
                if status == gen.OK:
                    mon.check(out.ok and gen.diff(want, out.value) is None, "loading the file gives something else",
                              route=route, type=st, text=text, outcome=out)
                    mon.count("files_loaded")
                elif status == gen.REJ and not (versioned and route != "load"):
                    mon.check(not out.ok, "a file with unknown or missing fields is accepted", route=route, type=st, text=text, outcome=out)
                    mon.count("files_rejected_" + route.replace(" ", "_"))
        if j == 2:
            mon.sample({"type": gen.describe(st), "text": text})


def mutable(v):
    import dataclasses
    return isinstance(v, (list, dict)) or dataclasses.is_dataclass(v) or isinstance(v, tuple) and any(map(mutable, v))


def shares_default_objects(st):
    """Defaults that are not made by a factory are shared by design of dataclasses."""
    for t in gen.walk_types(st):
        if isinstance(t, gen.St):
            for f in t.fields:
                if f.has_default and not f.factory and not isinstance(f.default, (list, dict)) and mutable(f.default):
                    return True
    return False


def scramble(v, depth=0):
    import dataclasses
    if isinstance(v, list):
        for x in v:
            scramble(x)
        v.append("scrambled")
    elif isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v["scrambled"] = 1
    elif dataclasses.is_dataclass(v):
        for n in v.__dataclass_fields__:
            scramble(getattr(v, n))
            if not isinstance(getattr(v, n), (list, dict)) and not dataclasses.is_dataclass(getattr(v, n)):
                setattr(v, n, "scrambled")
