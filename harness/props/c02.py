"""C02 Loading yields only values of the declared types."""
import hyperstate
import gen
from gen import Opts

LEVEL = "exploration"
RULE = ("one case = a generated class and 8 documents obtained from a valid one by replacing 1-3 random nodes with nodes "
        "of other kinds; the loaded object is walked against the declared types and compared with the reference loader "
        "where the reference is definite; non-trivial = distinct (type skeleton, document)")
CASES = {"quick": 1600, "thorough": 60000}
REQUIRE = {"distinct": 4000, "accepted": 500, "rejected": 2000, "accepted_mutant": 300, "definite": 5000}
OPTS = Opts(versioned=0.15, max_fields=5, reuse=0.2)


# texts that look like other values
LOOKS = {"1": ["i", 1], "2.0": ["f", 2.0], "True": ["b", True], "None": ["n"], "7": ["i", 7], "-1": ["i", -1]}


def mutate(rng, node):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        subs = list(gen.subnodes(node))
        path, old = rng.choice(subs[1:] if len(subs) > 1 else subs)
        r = rng.random()
        if r < 0.35 and old[0] in ("i", "f"):
            v = old[1]
            new = rng.choice([["s", repr(v)], ["f", float(v)], ["s", str(v) + "0" if old[0] == "f" else str(v) + ".0"],
                              ["f", v + 0.5], ["s", f"{v}.5"], ["b", bool(v)], ["i", int(v)] if abs(v) < 2**62 else ["n"],
                              ["s", "9007199254740993"], ["s", "4503599627370497.5"]])
        elif r < 0.45 and old[0] in ("l", "t"):
            xs = list(old[1])
            if xs and rng.random() < 0.5:
                xs.pop(rng.randrange(len(xs)))
            else:
                xs.insert(rng.randint(0, len(xs)), rng.choice(xs) if xs else gen.random_node(rng, 1))
            new = [rng.choice([old[0], old[0], "l"]) if xs else "l", xs]
        elif r < 0.65 and old[0] == "s" and old[1] in LOOKS:
            new = LOOKS[old[1]]
        elif r < 0.5:
            new = rng.choice(subs)[1]
        else:
            new = gen.random_node(rng)
        node = gen.set_at(node, path, new)
    return node


def case(rng, i, mon):
    st = gen.gen_struct(rng, OPTS, rng.choice([1, 2, 2, 3]), version=rng.randint(0, 4) if rng.random() < 0.3 else None)
    for j in range(8):
        obj = gen.gen_value(st, rng, OPTS)
        node = gen.to_node(st, obj, rng, omit=0.5)
        if j:
            node = mutate(rng, node)
            if not gen.parseable(node):
                continue
        text = gen.render(node, rng)
        mon.distinct(gen.shape(st), text)
        extra = rng.random() < 0.2
        out = mon.call(hyperstate.loads, st.cls, text, ignore_extra_fields=extra)
        status, want = gen.ref_load(st, node, extra)
        if out.ok:
            mon.count("accepted")
            if j:
                mon.count("accepted_mutant")
            r = gen.nonconforming(st, out.value)
            mon.check(r is None, "loaded value is not of the declared type", type=st, text=text, problem=r)
        else:
            mon.count("rejected")
        if status != gen.UNK:
            mon.count("definite")
        if status == gen.OK:
            mon.check(out.ok, "valid document rejected", type=st, text=text, outcome=out)
            d = gen.diff(want, out.value)
            mon.check(d is None, "loaded value differs from the one written", type=st, text=text, diff=d)
        elif status == gen.REJ:
            mon.check(not out.ok, "ill-typed document accepted", type=st, text=text, outcome=out)
        if j == 3:
            mon.sample({"type": gen.describe(st), "text": text, "status": status})
