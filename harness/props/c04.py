"""C04 Overrides set exactly the named fields."""
import os
from pathlib import Path

import hyperstate
import gen
import ovr
from gen import Opts, St, Opt, Un, Boo, Int, Flt, Lit, En, Str
from props.c03 import drop_some

LEVEL = "exploration"
RULE = ("one case = a generated class and 6 (document, override list) pairs, applied through loads, load, load(None) and the "
        "state manager, with valid, repeated, conflicting, unknown, malformed and ill-typed overrides; oracle: the reference "
        "loader on the document with the values written at the named paths; non-trivial = distinct (type, text, overrides)")
CASES = {"quick": 1600, "thorough": 60000}
REQUIRE = {"distinct": 4000, "accepted": 2500, "unknown_names": 400, "no_equals": 150, "ill_typed": 300, "deep": 800,
           "absent_struct": 300, "multi_unknown": 100}
OPTS = Opts(versioned=0.15, max_fields=5, reuse=0.2)
BAD_BOOL = ["yes", "no", "TRUE", "2", "", "tRUE", "off", "None", " true", "true ", "1.0", "0.0", "00", "truE", "ff", "y", "10", "01", "+1", "-1", "-0", "+0", "tt", "truthy", "Falsey",
            "1,", "[true]", "(1)", "\"true\"", "'1'", "1 ", "0x1", "1e0"]
BAD = {
    Int: ["1.5", '"abc"', "true1", "[1]", "None", '"1.5"', "", "x y", "1e-3", "inf", '"nan"'],
    Flt: ['"abc"', "[1.0]", "None", "", "1..2", "(1.0,)", "0.1.2"],
}


def ill_typed(rng, st, o):
    ps = [(p, f) for p, f in ovr.paths(st) if not isinstance(f.t, (St, Str))]
    if not ps:
        return None
    path, f = rng.choice(ps)
    if isinstance(f.t, Boo):
        return ".".join(path) + "=" + rng.choice(BAD_BOOL), path, None
    if type(f.t) in BAD and rng.random() < 0.7:
        return ".".join(path) + "=" + rng.choice(BAD[type(f.t)]), path, None
    node = gen.random_node(rng, 1)
    if not gen.parseable(node) or node[0] in ("id", "r", "b"):
        node = ["l", [["n"], ["b", True]]]
    if gen.ref_load(f.t, node)[0] != gen.REJ:
        return None
    return ".".join(path) + "=" + gen.render(node), path, None


def unknown(rng, st):
    ps = list(ovr.paths(st))
    path, f = rng.choice(ps)
    r = rng.random()
    known = {p for p, _ in ps}
    if r < 0.3:
        new = path[:-1] + (path[-1] + rng.choice(["x", "_", "2"]),)
    elif r < 0.5:
        new = path + (rng.choice(gen.WORDS),)
    elif r < 0.65 and len(path) > 1:
        new = path[1:]
    elif r < 0.75:
        new = path[:-1] + (rng.choice(["version", gen.CONSTANT]),)
    elif r < 0.8:
        k = rng.randrange(len(path))
        new = path[:k] + (rng.choice([path[k].replace("_", "-"), path[k].upper(), path[k].capitalize(), path[k].replace("_", ""),
                                      path[k] + "[0]", path[k].replace("_", " ")]),) + path[k + 1:]
    elif r < 0.85:
        new = (rng.choice(["", " " + path[0], path[0].upper(), path[0] + " "]),) + path[1:]
    else:
        new = (rng.choice(gen.WORDS) + "_zz",) + path[1:]
    if new in known:
        return None
    return ".".join(new)


def case(rng, i, mon):
    o = OPTS
    versioned = rng.random() < 0.2
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2, 3]), version=rng.randint(0, 3) if versioned else None)
    for j in range(6):
        mode = rng.choice(["doc", "doc", "file", "none", "manager", "loads"])
        if mode == "none":
            node = ["m", []]
        else:
            node = gen.to_node(st, gen.gen_value(st, rng, o), rng)
            node = drop_some(rng, st, node, rng.choice([0, 0, 0.15]))
            if node == ["m", []]:
                mode = "none"
        ovs = ovr.gen_overrides(rng, st, o, rng.choice([0, 1, 1, 2, 2, 3, 5]))
        if mode == "none":
            # give required values so that most of these load
            for p, f in ovr.paths(st):
                if not f.has_default and not isinstance(f.t, St) and rng.random() < 0.97 and \
                        (len(p) == 1 or rng.random() < 0.8):
                    text, n = ovr.token(rng, f.t, gen.gen_value(f.t, rng, o))
                    ovs.append((".".join(p) + "=" + text, p, n))
        bad = None
        texts = [x[0] for x in ovs]
        r = rng.random()
        names = []
        if r < 0.15:
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = unknown(rng, st)
                if u is not None and "=" not in u:
                    names.append(u)
                    texts.insert(rng.randint(0, len(texts)), u + "=" + rng.choice(["1", "x", "", "true", "a=b"]))
            if names:
                bad = "unknown"
        elif r < 0.22:
            p = rng.choice(list(ovr.paths(st)))[0]
            texts.insert(rng.randint(0, len(texts)), rng.choice([".".join(p), ".".join(p) + ":1", "", ".".join(p) + " 1"]))
            bad = "no_equals"
        elif r < 0.34:
            b = ill_typed(rng, st, o)
            if b is not None:
                texts.append(b[0])
                bad = "ill_typed"
        text = gen.render(node, rng)
        mon.distinct(gen.shape(st), text, tuple(texts))
        given = list(texts)
        if mode in ("doc", "loads"):
            out = mon.call(hyperstate.loads, st.cls, text, overrides=given)
        elif mode == "none":
            out = mon.call(hyperstate.load, st.cls, None, overrides=given)
        else:
            p = os.path.join(mon.dir, f"c{j}.ron")
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(text)
            if mode == "file":
                out = mon.call(hyperstate.load, st.cls, Path(p) if rng.random() < 0.5 else p, overrides=given)
            else:
                out = mon.call(lambda: hyperstate.StateManager(st.cls, st.cls, lambda c, x: c, init_path=p,
                                                               overrides=given).config)
        mon.check(given == texts, "the caller's override list was modified", before=texts, after=given)
        info = dict(type=st, text=text, overrides=texts, mode=mode, outcome=out)
        if bad:
            mon.check(not out.ok, f"load with a bad override ({bad}) succeeded", **info)
            if bad == "unknown":
                mon.count("unknown_names")
                if len(names) > 1:
                    mon.count("multi_unknown")
                msg = str(out.exc)
                for u in names:
                    mon.check(u in msg, "unknown name is not reported", name=u, **info)
            else:
                mon.count(bad)
            continue
        want_node = ovr.apply(st, node, ovs) if ovs or mode == "none" else node
        status, want = gen.ref_load(st, want_node)
        if status == gen.OK:
            mon.check(out.ok, "valid overrides rejected", **info)
            d = gen.diff(want, out.value)
            mon.check(d is None, "overridden config differs from the document with the values at the named paths",
                      diff=d, **info)
            mon.count("accepted")
            if any(len(x[1]) > 1 for x in ovs):
                mon.count("deep")
                base = gen.ref_load(st, node)
                if any(x[1][0] + ":" not in text for x in ovs if len(x[1]) > 1):
                    mon.count("absent_struct")
        elif status == gen.REJ:
            mon.check(not out.ok, "incomplete or ill-typed configuration accepted", **info)
        if j == 0:
            mon.sample({"type": gen.describe(st), "text": text, "overrides": texts})
