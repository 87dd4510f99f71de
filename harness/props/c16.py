"""C16 Each rewrite rule changes exactly what it names."""
import copy

import known
import hyperstate
import evo
import gen
from gen import Opts

LEVEL = "exploration"
PROBES = known.PROBES["C16"]
RULE = ("one case = a class, 1-6 random edits of it with their rewrite rules, and 8 documents of the old class (fields, nested "
        "dataclasses and optional parents left out or None at random); oracle: an independent interpreter of the rules on "
        "documents followed by the reference loader; non-trivial = distinct (rules, document)")
CASES = {"quick": 2600, "thorough": 80000}
REQUIRE = {"distinct": 6000, "upgraded": 5000, "rejected": 300, "rename": 500, "move": 60, "delete": 150, "chdef": 300,
           "droped": 300, "map": 500, "check": 200, "noop": 300, "newstruct": 200, "flatten": 50, "thin": 300, "leftover": 100, "lookalikes": 50, "swap": 200}
OPTS = Opts(versioned=0.0, max_fields=5, weird_numbers=False)


def add_optional(rng, o, st):
    """A dataclass that may be None, all fields of which have defaults."""
    s = gen.gen_struct(rng, o, rng.choice([0, 0, 1]), nmin=1)
    for f in s.fields:
        if not f.has_default:
            gen.add_default(rng, o, f)
    f = gen.F(gen.fresh_name(rng, {f.name for f in st.fields} | {"version", "self"}), gen.Opt(s))
    if rng.random() < 0.6:
        f.default = None
        st.fields.append(f)
    else:
        st.fields.insert(0, f)
    return (f.name,)


def thin(rng, node, model):
    """Leaves only those fields in one of the nested dataclasses that the rules are about; whether there is one."""
    paths = [list(p) for m in model for p in (m[1], m[2] if m[0] == "rename" else ()) if len(p) > 1]
    rng.shuffle(paths)
    gone = {tuple(m[1]) for m in model if m[0] == "delete"}
    if rng.random() < 0.6:
        paths.sort(key=lambda p: tuple(p) not in gone)
    for path in paths:
        n = node
        for seg in path[:-1]:
            it = evo.lookup(n, seg) if n[0] in ("r", "w") else None
            n = it[1] if it else ["n"]
        if n[0] == "r" and n[2]:
            names = {p[len(path) - 1] for p in paths if len(p) >= len(path) and p[:len(path) - 1] == path[:-1]}
            if rng.random() < 0.5:
                names = {path[-1]}
            if rng.random() < 0.5:
                n[1] = ""
            n[2][:] = [x for x in n[2] if x[0] in names]
            if not n[2] and not n[1]:
                n[:] = ["m", []]  # () is not an empty dataclass
            return True
    return False


def leftover(rng, node, model):
    """Adds an entry where a rule moves a value to; whether it did."""
    if node[0] != "r":
        return False
    used = {m[1][0] for m in model} | {m[2][0] for m in model if m[0] == "rename" and len(m[2]) > 1}
    targets = [m[2][0] for m in model if m[0] == "rename" and len(m[2]) == 1 and m[2][0] not in used and len(m[1]) == 1
               and evo.lookup(node, m[1][0])]
    if not targets:
        return False
    name = rng.choice(targets)
    if evo.lookup(node, name):
        return False
    v = copy.deepcopy(evo.lookup(node, [m[1][0] for m in model if m[0] == "rename" and list(m[2]) == [name]][0])[1])
    node[2].insert(rng.randint(0, len(node[2])), [name, rng.choice([v, ["i", 99], ["s", "left over"], ["n"]])])
    return True


def lookalike(rng, node, model):
    """Replaces a value that a rule checks by one with the same text; whether it did."""
    if any(m[0] == "map" for m in model):
        return False
    done = False
    for m in model:
        if m[0] not in ("check", "reject"):
            continue
        n = node
        for seg in m[1]:
            it = evo.lookup(n, seg) if n[0] in ("r", "w") else None
            if it is None:
                break
            n = it[1]
        else:
            v = rng.choice(sorted(m[2], key=repr) or [0])
            new = ["s", str(v)] if not isinstance(v, str) else ["i", int(v)] if v.isdigit() else ["n"] if v == "None" else None
            if new:
                it[1] = new
                done = True
    return done


def case(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2, 3]), nmin=2)
    focus = add_optional(rng, o, st) if rng.random() < 0.3 else None
    h = evo.History(rng, o, st, 1, [1, 1, 2, 3, 6], focus=focus)
    for k in h.evolver.kinds:
        mon.count(k)
    keep = [copy.deepcopy(r) if not hasattr(r, "map_fn") else None for r in h.real.get(0, [])]
    if i % 2 == 1:
        h.new.cls  # class created before or after the documents
    for j in range(8):
        node = evo.gen_node(h.new, rng, o, drop=rng.choice([0, 0, 0, 0.1]), pdef=rng.choice([0.2, 0.5, 0.9]), spec=h.specs[0])
        if node[0] == "r" and not node[2]:
            continue
        if node[0] == "r" and rng.random() < 0.4 and thin(rng, node, h.model.get(0, [])):
            mon.count("thin")
        if node[0] == "r" and rng.random() < 0.3 and lookalike(rng, node, h.model.get(0, [])):
            mon.count("lookalikes")
        if rng.random() < 0.15 and leftover(rng, node, h.model.get(0, [])):
            mon.count("leftover")
        text = gen.render(node, rng)
        extra = rng.random() < 0.1
        status, want = gen.ref_load(h.new, node, extra)
        out = mon.call(hyperstate.loads, h.new.cls, text, ignore_extra_fields=extra)
        info = dict(old=h.specs[0], new=h.new, rules=h.real, text=text, outcome=out)
        mon.distinct(gen.describe(h.new), text)
        if status == gen.OK:
            mon.check(out.ok, "upgraded document rejected", **info)
            d = gen.diff(want, out.value)
            mon.check(d is None, "upgraded document does not have the meaning the rules describe", diff=d, **info)
            mon.count("upgraded")
        elif status == gen.REJ:
            mon.check(not out.ok, "document rejected by the rules or incomplete was accepted", want=want, **info)
            mon.count("rejected")
    for a, b in zip(keep, h.real.get(0, [])):
        mon.check(a is None or repr(a) == repr(b), "a rule was modified by applying it", before=a, after=b)
    mon.sample({"old": gen.describe(st), "rules": repr(h.model), "text": text})
