"""C19 Proposed fixes make old configs load with their meaning."""
import copy
import os

import known
import hyperstate
import cli
import evo
import gen
from gen import Opts, St, Opt, Lst, Dct, Tup, Un, Lit, En, Int, Flt, Boo, Str, F, NODEF
from hyperstate.schema.schema_change import (EnumVariantValueChanged, FieldAdded, FieldRemoved, FieldRenamed, TypeChanged)
from hyperstate.schema.rewrite_rule import MapFieldValue
from hyperstate.schema.schema_checker import SchemaChecker, Severity, schema_evolution_cli
from hyperstate.schema.types import load_schema
from props import c18
from props.c23 import plain

LEVEL = "exploration"
PROBES = known.PROBES["C19"]
RULE = ("one case = a class and an edited copy of it (renames, moves, additions, removals, changes of defaults, types, enum values and "
        "literals, 1-5 at a time) without upgrade rules; monitors: each removed and added field against the reported changes; if every "
        "change has a fix, the proposed rules are added, the version bumped, the check repeated, and 8 old configs loaded and compared "
        "field by field with what the reported changes say; non-trivial = distinct (old class, new class)")
CASES = {"quick": 3500, "thorough": 150000}
REQUIRE = {"distinct": 3000, "in_two_places": 100, "fixed_pairs": 1200, "configs_loaded": 6000, "configs_rejected": 100, "values_compared": 20000,
           "renames_reported": 800, "moved_fields": 200, "clear_renames": 300, "fields_accounted": 4000, "old_defaults_kept": 800,
           "values_mapped": 100, "wrapped_values": 100, "second_rounds": 5, "pairs_without_fix": 300, "exchanged_members": 40}
OPTS = Opts(versioned=0.0, weird_numbers=False, max_fields=5)


class Reject(Exception):
    pass


# ------------------------------------------------------------------------------------------------- edits
def pick(rng, st, pred):
    c = [(p, s, f, o) for p, s, o in evo.structs(st) for f in s.fields if evo.editable(f) is None and pred(f.t, f)]
    return rng.choice(c) if c else None


def bare(t):
    return t.t if isinstance(t, Opt) else t


def rewrap(t, new):
    return Opt(new) if isinstance(t, Opt) else new


def redefault(rng, o, f, new, conv):
    """Default of a field whose type becomes `new`: kept in meaning, another one or dropped."""
    if f.has_default:
        r = rng.random()
        if r < 0.5:
            try:
                f.default = conv(f.default)
            except Reject:
                f.default = gen.gen_value(new, rng, o)
        elif r < 0.75:
            f.default = gen.gen_value(new, rng, o)
        else:
            f.default = NODEF
    f.t = new


def listwrap(rng, st, o):
    c = pick(rng, st, lambda t, f: not isinstance(bare(t), (Lst, Un, St)) and not any(isinstance(x, St) for x in gen.walk_types(t)))
    if not c:
        return False
    f = c[2]
    if isinstance(f.t, Opt) and rng.random() < 0.6:
        redefault(rng, o, f, Opt(Lst(f.t.t)), lambda v: None if v is None else [v])
    else:
        redefault(rng, o, f, Lst(f.t), lambda v: [v])
    return True


def tolit(rng, st, o):
    c = pick(rng, st, lambda t, f: isinstance(bare(t), (Str, Int)))
    if not c:
        return False
    f = c[2]
    t = bare(f.t)
    vals = {gen.gen_value(t, rng, o) for _ in range(6)}
    if f.has_default and f.default is not None and rng.random() < 0.8:
        vals.add(f.default)
    if isinstance(t, Int):
        vals |= {0, 1, 2}

    def conv(v):
        if v is not None and v not in vals:
            raise Reject
        return v
    redefault(rng, o, f, rewrap(f.t, Lit(sorted(vals))), conv)
    return True


def lits(rng, st, o):
    c = pick(rng, st, lambda t, f: isinstance(bare(t), Lit))
    if not c:
        return False
    f = c[2]
    old = bare(f.t).values
    vals = [v for v in old if rng.random() < 0.6] or [old[0]]
    if rng.random() < 0.5:
        vals.append("fresh" if isinstance(old[0], str) else 4321)
    rng.shuffle(vals)

    def conv(v):
        if v is not None and v not in vals:
            raise Reject
        return v
    redefault(rng, o, f, rewrap(f.t, Lit(vals)), conv)
    return True


def enums(rng, st, o):
    c = pick(rng, st, lambda t, f: isinstance(bare(t), En) and not bare(t).mixin)
    if not c:
        return False
    f = c[2]
    e = bare(f.t)
    ms, m = [], {}
    for a, b in e.members:
        r = rng.random()
        if r < 0.4:
            b2 = f"{b}-v2" if isinstance(b, str) else b + 1000
            m[b] = b2
            ms.append((a, b2))
        elif r < 0.6:
            ms.append((a + "_NEW", b))
        elif r < 0.65 and len(e.members) > 1:
            continue
        else:
            ms.append((a, b))
    if rng.random() < 0.3 or not ms:
        n = f"QX{rng.randrange(10**6)}"
        ms.insert(rng.randint(0, len(ms)), (n, n.lower()))
    new = En(e.name, ms)

    def conv(v):
        if v is None:
            return None
        x = [k for k in new.cls if k.value == m.get(v.value, v.value)]
        if not x:
            raise Reject
        return x[0]
    redefault(rng, o, f, rewrap(f.t, new), conv)
    return True


def addfield(rng, st, o):
    p, s, _ = rng.choice(list(evo.structs(st)))
    t = gen.gen_leaf(rng, o)
    k = rng.choice(["opt", "list", "plain", "default"])
    t = Opt(t) if k == "opt" and not isinstance(t, Opt) else Lst(t) if k == "list" else t
    f = F(gen.fresh_name(rng, {x.name for x in s.fields} | {"version", "self"}), t)
    if k == "default" or rng.random() < 0.2:
        gen.add_default(rng, o, f)
    s.fields.append(f)
    return True


def deeper(rng, st, o):
    c = pick(rng, st, lambda t, f: isinstance(t, (Lst, Tup, Dct, Opt)) and not f.has_default and not any(isinstance(x, (St, Un)) for x in gen.walk_types(t)))
    if not c:
        return False
    c[2].t = c18.rework(c[2].t, rng)
    return True


def retype(rng, st, o):
    c = pick(rng, st, lambda t, f: not isinstance(t, (St, Un)) and not any(isinstance(x, (St, Un)) for x in gen.walk_types(t)))
    if not c:
        return False
    f = c[2]
    wide = rng.random() < 0.7
    new = (c18.widen if wide else c18.narrow)(f.t, rng, o)
    if new is None:
        return False
    c18.new_default(f, new, rng, o, keep=wide and rng.random() < 0.6)
    f.t = new
    return True


def required(rng, st, o):
    """A field gets another name and loses its default."""
    fs = [(s, f) for _, s, _ in evo.structs(st) for f in s.fields if f.has_default and not isinstance(f.t, St)]
    if not fs:
        return False
    s, f = rng.choice(fs)
    n = variants(rng, f.name, {x.name for x in s.fields} | {"version", "self"})
    if not n:
        return False
    f.name = n
    f.default = NODEF
    return True


def variants(rng, name, used):
    """A new name of a field that is obviously the same field."""
    c = [name.replace("_", ""), name + "s", name + "_2", name[:-1] if len(name) > 4 else name + "x", name.capitalize()]
    if name.count("_") == 1 and all(name.split("_")):
        c.append("".join(w[0] for w in name.split("_")))
    if "_" not in name and len(name) > 3:
        c.append(name[:2] + "_" + name[2:])
    c = [x for x in c if x not in used and x != name and x.isidentifier()]
    import keyword
    c = [x for x in c if not keyword.iskeyword(x)]
    return rng.choice(c) if c else None


# ------------------------------------------------------------------------------------------------- leaves of class pairs
def leaves(a, b, path=()):
    """
    Paths of the fields of a, seen beside b (the class at the same place on the other side, or None): dataclasses are entered, as are
    optional dataclasses when there is one at the same place on the other side.
    """
    for f in a.fields:
        q = path + (f.name,)
        g = b.field(f.name) if b is not None else None
        gt = g.t if g else None
        if isinstance(f.t, St):
            if f.t.fields:
                yield from leaves(f.t, gt if isinstance(gt, St) else None, q)
            elif not isinstance(gt, St):
                yield q, f, "empty"
        elif isinstance(f.t, Opt) and isinstance(f.t.t, St) and isinstance(gt, Opt) and isinstance(gt.t, St):
            yield q, f, "pair"
            yield from leaves(f.t.t, gt.t, q)
        else:
            yield q, f, "leaf"


def kind_at(st, path):
    """What is at path: 'struct', 'opt' (optional dataclass), 'leaf' or None."""
    t = st
    for seg in path:
        t = t.t if isinstance(t, Opt) else t
        f = t.field(seg) if isinstance(t, St) else None
        if f is None:
            return None
        t = f.t
    return "struct" if isinstance(t, St) else "opt" if isinstance(t, Opt) and isinstance(t.t, St) else "leaf"


def value_at(v, path):
    for seg in path:
        if v is None:
            return None, False
        v = getattr(v, seg)
    return v, True


def type_at(st, path):
    t = st
    for seg in path:
        t = (t.t if isinstance(t, Opt) else t).field(seg).t
    return t


# ------------------------------------------------------------------------------------------------- expectation
def carried(a, b, v, w, emap, mon, path):
    """None if w (type b) is what v (type a) means in the new class, else a description; Reject if b has no such value."""
    if isinstance(b, Opt):
        if v is None:
            return None if w is None else f"{path}: was None, is {w!r}"
        if w is None:
            return f"{path}: was {v!r}, is None"
        return carried(a.t if isinstance(a, Opt) else a, b.t, v, w, emap, mon, path)
    if isinstance(b, Lst) and not isinstance(a, Lst):
        mon.count("wrapped_values")
        bad = f"{path}: was {v!r}, is {w!r}"
        return bad if type(w) is not list or len(w) != 1 or c18.shared(a, b.t, v, w[0], mon) else None
    if isinstance(b, En) and isinstance(a, En):
        x = emap.get(path, {}).get(v.value, v.value)
        if x is not v.value:
            mon.count("values_mapped")
        return None if gen.diff(x, w.value) is None else f"{path}: was {v!r}, is {w!r}"
    if isinstance(b, Lit):
        v = v.value if isinstance(a, En) else v
        return None if gen.diff(v, w) is None else f"{path}: was {v!r}, is {w!r}"
    return c18.shared(a, b, v, w, mon, path)


def allowed(a, b, v, emap, path):
    """Whether the new type has a value for v."""
    if v is None and isinstance(b, Opt):
        return True
    if isinstance(a, Opt) and not isinstance(b, Lst):
        return v is not None and allowed(a.t, b.t if isinstance(b, Opt) else b, v, emap, path)
    if isinstance(b, Opt):
        return allowed(a, b.t, v, emap, path)
    if isinstance(b, Lit):
        v = v.value if isinstance(a, En) else v
        return any(x == v and type(x) is type(v) for x in b.values)
    if isinstance(b, En) and isinstance(a, En):
        return True  # removed variants have no fix
    return True


class Plan:
    """What the reported changes say about every field of the new class."""

    def __init__(self, old, new, changes):
        self.old, self.new = old, new
        self.renames = {tuple(c.new_name): tuple(c.field) for c in changes if isinstance(c, FieldRenamed)}
        self.emap = {}
        for c in changes:
            if isinstance(c, EnumVariantValueChanged):
                self.emap.setdefault(tuple(c.field), {})[c.old_value] = c.new_value
        self.oldleaves = {q for q, f, k in leaves(old, new) if k != "pair"}

    def each(self, v, paired=True):
        """(path, field of new, source path or None, kind) for every field of the new class, below optional dataclasses that are set."""
        def walk(b, a, path):
            for g in b.fields:
                q = path + (g.name,)
                f = a.field(g.name) if a is not None else None
                if isinstance(g.t, St):
                    yield from walk(g.t, f.t if f and isinstance(f.t, St) else None, q)
                elif isinstance(g.t, Opt) and isinstance(g.t.t, St) and f and isinstance(f.t, Opt) and isinstance(f.t.t, St):
                    x, there = value_at(v, q)
                    yield q, g, q, "pair"
                    if x is not None:
                        yield from walk(g.t.t, f.t.t, q)
                else:
                    yield q, g, self.renames.get(q, q if q in self.oldleaves else None), "leaf"
        yield from walk(self.new, self.old, ())

    def admits(self, v):
        return all(k == "pair" or src is None or allowed(type_at(self.old, src), g.t, value_at(v, src)[0], self.emap, q)
                   for q, g, src, k in self.each(v))

    def compare(self, v, w, mon):
        for q, g, src, k in self.each(v):
            got, there = value_at(w, q)
            if k == "pair":
                x = value_at(v, q)[0]
                if (x is None) != (got is None):
                    return f"{q}: was {x!r}, is {got!r}"
                continue
            mon.count("values_compared")
            if src is None:
                want = g.default if g.has_default else None if isinstance(g.t, Opt) else []
                r = None if gen.diff(want, got) is None else f"{q}: new field is {got!r}"
            else:
                r = carried(type_at(self.old, src), g.t, value_at(v, src)[0], got, self.emap, mon, q)
            if r:
                return r
        return None


def crosses(st, old_path, new, new_path):
    """Whether a rename leaves or enters an optional dataclass."""
    a = [p for p in range(1, len(old_path)) if kind_at(st, old_path[:p]) == "opt"]
    b = [p for p in range(1, len(new_path)) if kind_at(new, new_path[:p]) == "opt"]
    return [old_path[:p] for p in a] != [new_path[:p] for p in b]


def known_shape(old, new, changes):
    """Shapes of the recorded findings (see known_findings.json)."""
    olds = {q for q, f, k in leaves(old, new)}
    news = {q for q, f, k in leaves(new, old)}
    for q in olds | news:
        for p in range(1, len(q) + 1):
            x, y = kind_at(old, q[:p]), kind_at(new, q[:p])
            if {x, y} == {"struct", "opt"} or (x and y and x != y and "leaf" in (x, y)):
                return "replaced"
    for a, b in ((old, new), (new, old)):
        for p, s, _ in evo.structs_all(a):
            for f in s.fields:
                if isinstance(f.t, St) and f.has_default and kind_at(b, p + (f.name,)) != "struct":
                    return "struct default"
    for c in changes:
        if isinstance(c, FieldRenamed) and crosses(old, tuple(c.field), new, tuple(c.new_name)):
            return "optional"
        if isinstance(c, FieldRenamed) and (defaulted(old, tuple(c.field), tuple(c.new_name)) or
                                            defaulted(new, tuple(c.new_name), tuple(c.field))):
            return "struct default"
        if isinstance(c, EnumVariantValueChanged):
            same = [d for d in changes if isinstance(d, EnumVariantValueChanged) and tuple(d.field) == tuple(c.field)]
            if any(d.old_value == c.new_value for d in same) or [d.old_value for d in same].count(c.old_value) > 1:
                return "enum chain"
        if tuple(c.field) in olds and not isinstance(c, (FieldAdded, FieldRemoved, FieldRenamed)):
            if not c.severity() > Severity.INFO:
                continue
            t = bare(type_at(old, tuple(c.field)))
            if isinstance(t, (Lst, Dct, Tup, Un)) and type(c).__name__ not in ("DefaultValueChanged", "DefaultValueRemoved"):
                return "inside list"
            if isinstance(t, (Boo, Flt)) and isinstance(bare(type_at(new, tuple(c.field))), Lit):
                return "equal values of other types"  # True == 1 == 1.0: not claimed either way
    return None


def defaulted(st, path, other):
    """Whether a field that moves from or to `other` is below a dataclass field with a default of its own."""
    same = 0
    while same < min(len(path), len(other)) - 1 and path[same] == other[same]:
        same += 1
    t = st
    for k, seg in enumerate(path[:-1]):
        f = (t.t if isinstance(t, Opt) else t).field(seg)
        if k >= same and f.has_default and isinstance(f.t, St):
            return True
        t = f.t
    return False


def class_pair(rng, mon, o):
    """Two versions of a class without upgrade rules: (old, new, edits, the rename if it is the only edit)."""
    wide = rng.random() < 0.03
    st = gen.wide_struct(rng, o) if wide else gen.gen_struct(rng, o, rng.choice([1, 2, 2]), nmin=2)
    mon.count("wide", wide)
    st.version = rng.choice([0, 1, 5])
    old = st
    kind = rng.choice(["clear", "mix", "mix", "mix", "types", "types"])
    edits, clear = [], None
    pair = kind == "types" and rng.random() < 0.2
    if pair:
        c18.enum_pair(rng, old)
    elif kind == "types" and rng.random() < 0.3:
        n = gen.fresh_name(rng, {f.name for f in old.fields} | {"version", "self"})
        old.fields.insert(0, F(n, c18.composite(rng, rng.randint(1, 3))))
    new = evo.clone(old)
    new.version = old.version + rng.choice([0, 0, 0, 1, 1, 3])
    if pair and c18.exchange(new, rng):
        edits.append("exchange")
        mon.count("exchanged_members")
    if kind == "clear":
        p, s, _ = rng.choice(list(evo.structs(new)))
        if s.fields:
            f = rng.choice(s.fields)
            n = variants(rng, f.name, {x.name for x in s.fields} | {"version", "self"})
            if n and not any(isinstance(x, St) for x in gen.walk_types(f.t)):
                clear = (p + (f.name,), p + (n,))
                edits.append(clear)
                f.name = n
    else:
        def evolve():
            e = evo.Evolver(rng, o, checks=False, maps=False)
            nst, _ = e.evolve(new, 1)
            edits.extend(e.kinds)
            return nst
        for _ in range(rng.choice([0, 0, 1, 2]) if edits else rng.choice([1, 1, 2, 2, 3, 5])):
            if kind == "mix" and rng.random() < 0.6:
                new2 = evolve()
                new2.version = new.version
                new = new2
            else:
                for _ in range(5):
                    k = rng.choice([listwrap, tolit, lits, lits, enums, enums, addfield, retype, deeper, required])
                    if k(rng, new, o):
                        edits.append(k.__name__)
                        break
        if wide:
            del new.fields[rng.randint(1, len(new.fields)):]
        for _, s, _ in list(evo.structs(new)):
            evo.resort(s)
    if not clear and rng.random() < 0.12:
        old, new = c18.in_two_places(old, new, rng)
        mon.count("in_two_places")
    return old, new, edits, clear


def case(rng, i, mon):
    o = OPTS
    old, new, edits, clear = class_pair(rng, mon, o)
    p = os.path.join(mon.dir, "schema.ron")
    res = cli.run(schema_evolution_cli, ["dump-schema", p], old.cls)
    info = dict(edits=edits, old=old, new=new)
    mon.check(res.code == 0, "schema cannot be dumped", outcome=res, **info)
    chk = mon.call(lambda: SchemaChecker(load_schema(p), new.cls))
    mon.check(chk.ok, "the check fails", outcome=chk, **info)
    chk = chk.value
    changes = list(chk.changes)
    info["changes"] = changes
    mon.distinct(gen.describe(old), gen.describe(new))

    # ---- every removed and added field is accounted for exactly once
    olds = {q for q, f, k in leaves(old, new)}
    news = {q for q, f, k in leaves(new, old) if k != "empty"}
    gone, came = {}, {}
    for c in changes:
        if isinstance(c, (FieldRemoved, FieldRenamed)):
            gone[tuple(c.field)] = gone.get(tuple(c.field), 0) + 1
        if isinstance(c, FieldRenamed):
            came[tuple(c.new_name)] = came.get(tuple(c.new_name), 0) + 1
        if isinstance(c, FieldAdded):
            came[tuple(c.field)] = came.get(tuple(c.field), 0) + 1
    mon.check(gone == {q: 1 for q in olds - news}, "removed fields are not accounted for by exactly one change each", reported=gone,
              removed=sorted(olds - news), **info)
    mon.check(came == {q: 1 for q in news - olds}, "added fields are not accounted for by exactly one change each", reported=came,
              added=sorted(news - olds), **info)
    mon.count("fields_accounted", len(gone) + len(came))
    renames = [c for c in changes if isinstance(c, FieldRenamed)]
    mon.count("renames_reported", len(renames))
    mon.count("moved_fields", sum(tuple(c.field)[:-1] != tuple(c.new_name)[:-1] for c in renames))
    if clear:
        mon.check([(tuple(c.field), tuple(c.new_name)) for c in renames] == [clear], "an obvious rename is not reported as one", rename=clear,
                  **info)
        mon.count("clear_renames")
    sev = chk.severity()
    out = cli.run(schema_evolution_cli, ["check-schema", p], new.cls)
    text = plain(out.out)
    mon.check(out.code == 0 and ("Schema compatible" in text) == (sev == Severity.INFO) and
              all(c.field_name in text for c in changes), "the report differs from the check", outcome=out, **info)
    if known_shape(old, new, changes):
        return mon.count("known_finding_shapes")
    todo = [c for c in changes if c.severity() > Severity.INFO]
    if sev >= Severity.ERROR:
        mon.check(any(c.proposed_fix() is None for c in todo), "all changes have a fix but the check reports an error", **info)
        return mon.count("pairs_without_fix")

    # ---- apply the fixes
    plan = Plan(old, new, changes)
    rules, addressed, wrapped = [], [], set()
    new.version = old.version + 1
    new._cls = None
    new.rules = lambda: {old.version: list(rules)}
    for rnd in range(4):
        if not todo:
            break
        for c in todo:
            fix = c.proposed_fix()
            mon.check(fix is not None, "a change is reported as a warning without a fix", change=c, **info)
        mon.check(all(f.proposed_fix() in chk.proposed_fixes or isinstance(f.proposed_fix(), MapFieldValue) for f in todo) and
                  len(chk.proposed_fixes) >= len(todo), "a fix is missing in the proposed fixes", **info)
        rules += chk.proposed_fixes
        info["rules"] = rules
        addressed += [(type(c), tuple(c.field)) for c in todo]
        wrapped |= {tuple(c.field) for c in todo if isinstance(c, TypeChanged) and isinstance(c.proposed_fix(), MapFieldValue)}
        again = mon.call(lambda: SchemaChecker(load_schema(p), new.cls))
        mon.check(again.ok, "the check fails with the proposed rules in place", outcome=again, **info)
        chk = again.value
        todo = [c for c in chk.changes if c.severity() > Severity.INFO and
                not (isinstance(c, TypeChanged) and tuple(c.field) in wrapped)]  # known finding map-keeps-type
        info["rest"] = todo
        left = [c for c in todo if (type(c), tuple(c.field)) in addressed]
        mon.check(not left, "changes are reported again although the proposed rules address them", again=left, **info)
        mon.count("second_rounds", bool(todo))
        if wrapped and todo:
            return mon.count("known_finding_shapes")
    mon.check(not todo, "changes remain although all proposed rules were added", **info)
    mon.count("fixed_pairs")

    # ---- old configs
    for j in range(8):
        if j == 0:
            node = evo.gen_node(old, rng, o, 0.0, 1.0, spec=old)
        elif j < 3:
            node = gen.to_node(old, gen.gen_value(old, rng, o), rng)
        else:
            node = evo.gen_node(old, rng, o, 0.0, rng.choice([0.0, 0.3, 0.7]), spec=old)
        s, want = gen.ref_load(old, node)
        if s != gen.OK:
            continue
        doc = gen.render(node, rng)
        base = mon.call(hyperstate.loads, old.cls, doc)
        mon.check(base.ok and gen.diff(want, base.value) is None, "old config does not load with the old class", outcome=base, text=doc,
                  **info)
        out = mon.call(hyperstate.loads, new.cls, doc)
        if not plan.admits(want):
            mon.check(not out.ok, "a config with a value the new type does not allow is accepted", outcome=out, text=doc, **info)
            mon.count("configs_rejected")
            continue
        mon.check(out.ok, "an old config does not load with the proposed rules", outcome=out, text=doc, **info)
        r = plan.compare(want, out.value, mon)
        mon.check(r is None, "an old config loads with another meaning", difference=r, text=doc, loaded=out.value, was=want, **info)
        mon.count("configs_loaded")
        mon.count("old_defaults_kept", sum(type(c).__name__ in ("DefaultValueChanged", "DefaultValueRemoved") for c in changes))
    mon.sample({"edits": [str(e) for e in edits], "old": gen.describe(old), "new": gen.describe(new)})
