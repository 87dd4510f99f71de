"""C18 A compatible verdict means old configs still load."""
import copy
import os

import known
import hyperstate
import evo
import gen
from gen import Opts, St, Opt, Lst, Dct, Tup, Un, Lit, En, Int, Flt, Boo, Str, F, INT, FLT, STR, BOO, NODEF
from hyperstate.schema.schema_checker import SchemaChecker, Severity, schema_evolution_cli
from hyperstate.schema.types import load_schema
import cli

LEVEL = "exploration"
PROBES = known.PROBES["C18"]
RULE = ("one case = an old class whose schema file is checked against a new class made by widening, additive, narrowing or arbitrary "
        "edits, with or without upgrade rules; under a compatible verdict 8 generated configs valid for the old class (full, partly and "
        "fully elided) are loaded with the new class and every shared field is compared; non-trivial = distinct (old class, new class)")
CASES = {"quick": 3500, "thorough": 120000}
REQUIRE = {"distinct": 3000, "in_two_places": 100, "compatible_pairs": 1200, "incompatible_pairs": 700, "configs_loaded": 8000, "shared_fields": 20000,
           "configs_with_omitted_fields": 1500, "widening_pairs": 700, "ruled_compatible": 200, "mixed_compatible": 60, "exchanged_members": 60}
OPTS = Opts(versioned=0.0, weird_numbers=False, max_fields=5)


# ------------------------------------------------------------------------------------------------- edits of types
def clone_type(t):
    """Types are shared between old and new class unless edited; dataclasses get classes of their own."""
    return t


def widen(t, rng, o):
    """A type that admits every value of t, different from t, or None."""
    ks = ["opt"]
    if isinstance(t, Int):
        ks += ["num"] * 3
    if isinstance(t, Lit):
        ks += ["lit"] * 3 + (["prim"] * 2 if len({type(v) for v in t.values}) == 1 else [])
    if isinstance(t, En):
        ks += ["en"] * 4
    if isinstance(t, (Lst, Dct, Tup)):
        ks += ["in"] * 4
    if isinstance(t, Un):
        ks += ["un"] * 4
    k = rng.choice(ks)
    if k == "opt":
        return None if isinstance(t, (Opt, Un, St)) else Opt(t)
    if k == "num":
        return FLT
    if k == "lit":
        return Lit(t.values + [v for v in (["wide", "wider"] if rng.random() < 0.7 else [99]) if v not in t.values])
    if k == "prim":
        return STR if isinstance(t.values[0], str) else INT
    if k == "en":
        if t.mixin:
            return None
        n = unused(t.members)
        extra = [(f"EXTRA{n}", rng.choice([f"extra{n}", 77 + n])), (f"MORE{n}", f"more{n}")][:rng.randint(1, 2)]
        return En(t.name, (t.members + extra) if rng.random() < 0.5 else (extra + t.members), t.mixin)
    if k == "in":
        if isinstance(t, Lst):
            x = widen(t.t, rng, o)
            return x and Lst(x)
        if isinstance(t, Dct):
            x = widen(t.t, rng, o)
            return x and Dct(t.k, x)
        i = rng.randrange(len(t.ts))
        x = widen(t.ts[i], rng, o)
        return x and Tup(t.ts[:i] + [x] + t.ts[i + 1:])
    if k == "un":
        return Un(t.sts + [gen.gen_struct(rng, o, 0)])


def unused(members):
    """A number that is in no name or value of the members of an enum."""
    n = len(members)
    while any(str(x).endswith(str(n)) for m in members for x in m):
        n += 1
    return n


def narrow(t, rng, o):
    """Some other type: narrower, incomparable or sometimes equal in effect."""
    if isinstance(t, Opt) and rng.random() < 0.5:
        return t.t if rng.random() < 0.5 else (lambda x: x and (x if isinstance(x, (Opt, Un)) else Opt(x)))(narrow(t.t, rng, o))
    if isinstance(t, Flt) and rng.random() < 0.5:
        return INT
    if isinstance(t, Lit) and len(t.values) > 1 and rng.random() < (0.7 if len({type(v) for v in t.values}) == 1 else 0.3):
        return Lit(rng.sample(t.values, len(t.values) - 1))
    if isinstance(t, Lit) and rng.random() < 0.7:
        return rng.choice([INT, STR, STR, FLT])
    if isinstance(t, Str) and rng.random() < 0.5:
        return gen.gen_lit(rng)
    if isinstance(t, En) and not t.mixin and rng.random() < 0.8:
        ms = list(t.members)
        i = rng.randrange(len(ms))
        r = rng.random()
        if r < 0.35 and len(ms) > 1:
            del ms[i]
        elif r < 0.7:
            ms[i] = (f"NEWNAME{rng.randrange(10**6)}", ms[i][1])   # renamed member of the same value
        elif r < 0.85:
            ms[i] = (ms[i][0], f"new value {rng.randrange(10**6)}")
        else:
            ms[i] = (ms[i][0] + rng.choice(["S", "_2", "X"]), f"new value {rng.randrange(10**6)}")   # renamed, of another value
        return En(t.name, ms)
    if isinstance(t, Lst) and rng.random() < 0.7:
        x = narrow(t.t, rng, o)
        return x and Lst(x)
    if isinstance(t, Dct) and rng.random() < 0.7:
        if rng.random() < 0.4 and not isinstance(t.k, En):
            return Dct(rng.choice([INT, STR, FLT]), t.t)
        x = narrow(t.t, rng, o)
        return x and Dct(t.k, x)
    if isinstance(t, Tup) and rng.random() < 0.8:
        if rng.random() < 0.5:
            return Tup(t.ts + [INT]) if rng.random() < 0.5 or len(t.ts) == 1 else Tup(t.ts[:-1])
        i = rng.randrange(len(t.ts))
        x = narrow(t.ts[i], rng, o)
        return x and Tup(t.ts[:i] + [x] + t.ts[i + 1:])
    if isinstance(t, Un) and len(t.sts) > 2 and rng.random() < 0.8:
        return Un(rng.sample(t.sts, len(t.sts) - 1))
    if isinstance(t, (St, Un)):
        return None
    return gen.gen_leaf(rng, o)


def inner(t, rng, o, edit):
    """Edits the fields of a dataclass inside a list, tuple, dict, union or optional."""
    if isinstance(t, St):
        if t.version is not None:
            return None
        n = St(t.name, [F(f.name, f.t, f.default, f.factory, f.doc) for f in t.fields], doc=t.doc)
        return n if edit(n, rng, o) else None
    if isinstance(t, (Lst, Opt)):
        x = inner(t.t, rng, o, edit)
        return x and type(t)(x)
    if isinstance(t, Dct):
        x = inner(t.t, rng, o, edit)
        return x and Dct(t.k, x)
    if isinstance(t, (Tup, Un)):
        xs = t.ts if isinstance(t, Tup) else t.sts
        i = rng.randrange(len(xs))
        x = inner(xs[i], rng, o, edit)
        return x and type(t)(xs[:i] + [x] + xs[i + 1:])
    return None


def new_default(f, t, rng, o, keep):
    """Default of field f after its type became t, or False."""
    if not f.has_default:
        return True
    r = convert(f.t, t, f.default) if keep else None
    if r is None:
        f.default = NODEF if not keep and rng.random() < 0.3 else gen.gen_value(t, rng, o)
        return not keep
    f.default = r[0]
    return True


def convert(a, b, v):
    """The value of type b that corresponds to v of type a, in a tuple, or None."""
    if a is b:
        return (v,)
    if isinstance(b, Opt):
        if v is None:
            return (None,)
        return convert(a.t if isinstance(a, Opt) else a, b.t, v)
    if isinstance(b, Flt) and isinstance(a, (Int, Flt)):
        return (float(v),)
    if isinstance(b, En) and isinstance(a, En):
        m = [x for x in b.cls if x.value == v.value and type(x.value) is type(v.value)]
        return (m[0],) if m else None
    if isinstance(b, Lst) and isinstance(a, Lst):
        xs = [convert(a.t, b.t, x) for x in v]
        return None if None in xs else ([x[0] for x in xs],)
    if isinstance(b, Tup) and isinstance(a, Tup) and len(a.ts) == len(b.ts):
        xs = [convert(p, q, x) for p, q, x in zip(a.ts, b.ts, v)]
        return None if None in xs else (tuple(x[0] for x in xs),)
    if isinstance(b, Dct) and isinstance(a, Dct) and a.k is b.k:
        xs = {k: convert(a.t, b.t, x) for k, x in v.items()}
        return None if None in xs.values() else ({k: x[0] for k, x in xs.items()},)
    if isinstance(b, (Lit, Int, Str, Un)) and isinstance(a, (Lit, Int, Str, Un)) and not isinstance(b, Un):
        return (v,)
    if isinstance(b, Un) and isinstance(a, Un):
        return (v,)
    return None


def edit_widen(st, rng, o):
    k = rng.choice(["type", "type", "type", "add", "add", "default", "order", "addstruct", "inner"])
    if k == "order":
        rng.shuffle(st.fields)
        evo.resort(st)
        return k
    if k == "add":
        f = F(gen.fresh_name(rng, {f.name for f in st.fields} | {"version", "self"}), gen.gen_type(rng, o, 1))
        if any(isinstance(x, (St, Un)) for x in gen.walk_types(f.t)):
            f.t = gen.gen_leaf(rng, o)
        gen.add_default(rng, o, f)
        st.fields.append(f)
        return k
    if k == "addstruct":
        s = gen.gen_struct(rng, o, 0)
        for f in s.fields:
            if not f.has_default:
                gen.add_default(rng, o, f)
        st.fields.insert(0, F(gen.fresh_name(rng, {f.name for f in st.fields} | {"version", "self"}), s))
        return k
    if not st.fields:
        return None
    f = rng.choice(st.fields)
    if k == "default":
        if f.has_default or isinstance(f.t, St) or any(isinstance(x, (St, Un)) for x in gen.walk_types(f.t)):
            return None
        gen.add_default(rng, o, f)
        evo.resort(st)
        return k
    if k == "inner":
        if f.has_default or isinstance(f.t, (St, Opt)):
            return None
        t = inner(f.t, rng, o, edit_widen)
        if t is None:
            return None
        f.t = t
        return "inner"
    t = widen(f.t, rng, o)
    if t is None:
        return None
    g = F(f.name, f.t, f.default)
    if not new_default(g, t, rng, o, keep=True):
        return None
    f.default, f.t = g.default, t
    return k


def edit_any(st, rng, o):
    if rng.random() < 0.35:
        return edit_widen(st, rng, o)
    k = rng.choice(["type", "type", "remove", "rename", "retypename", "chdef", "dropdef", "addreq", "inner", "emptyopt", "addopt"])
    if k in ("addreq", "addopt"):
        t = gen.gen_leaf(rng, o)
        if k == "addopt":
            t = Opt(t)
        st.fields.insert(0, F(gen.fresh_name(rng, {f.name for f in st.fields} | {"version", "self"}), t))
        return k
    if not st.fields:
        return None
    f = rng.choice(st.fields)
    if k == "remove":
        if len(st.fields) < 2:
            return None
        st.fields.remove(f)
        return k
    if k == "rename":
        f.name = gen.fresh_name(rng, {x.name for x in st.fields} | {"version", "self"})
        return k
    if k == "retypename":
        # renamed, and of another type at once
        t = rng.choice([widen, narrow])(f.t, rng, o)
        if t is None or any(x.name == f.name + "s" for x in st.fields):
            return None
        new_default(f, t, rng, o, keep=rng.random() < 0.5)
        f.name, f.t = f.name + "s", t
        evo.resort(st)
        return k
    if k == "chdef":
        if not f.has_default:
            return None
        f.default = gen.gen_value(f.t, rng, o)
        return k
    if k == "dropdef":
        if not f.has_default:
            return None
        f.default = NODEF
        evo.resort(st)
        return k
    if k == "inner":
        if f.has_default or isinstance(f.t, St):
            return None
        t = inner(f.t, rng, o, edit_any)
        if t is None:
            return None
        f.t = t
        return k
    if k == "emptyopt":
        if not isinstance(f.t, St) or f.has_default:
            return None
        f.t = Opt(f.t)
        if rng.random() < 0.5:
            f.default = None
            evo.resort(st)
        return k
    t = narrow(f.t, rng, o)
    if t is None:
        return None
    new_default(f, t, rng, o, keep=rng.random() < 0.5)
    f.t = t
    evo.resort(st)
    return k


def composite(rng, depth, o=None):
    """A deeply nested container type; with o also of dataclasses and unions."""
    if o and depth <= 1 and rng.random() < 0.4:
        ss = [gen.gen_struct(rng, o, 0, nmin=1) for _ in range(rng.choice([1, 2, 2, 3]))]
        return Un(ss) if len(ss) > 1 else ss[0]
    if depth <= 0:
        return rng.choice([INT, INT, FLT, STR, BOO, gen.gen_lit(rng), gen.gen_enum(rng)])
    k = rng.choice(["list", "tuple", "tuple", "tuple", "dict", "opt"])
    if k == "list":
        return Lst(composite(rng, depth - 1, o))
    if k == "tuple":
        return Tup([composite(rng, depth - 1 if rng.random() < 0.6 else 0, o) for _ in range(rng.randint(1, 3))])
    if k == "dict":
        return Dct(rng.choice([STR, INT, FLT]), composite(rng, depth - 1, o))
    x = composite(rng, depth - 1, o)
    return x if isinstance(x, Opt) else Opt(x)


def rework(t, rng, o=None):
    """t with one change somewhere inside."""
    if o and rng.random() < 0.12:
        x = composite(rng, rng.randint(0, 1), o)
        return x if isinstance(x, Opt) or rng.random() < 0.3 else Opt(x)
    if isinstance(t, (Lst, Opt, Dct, Tup)) and rng.random() < 0.7:
        if isinstance(t, Lst):
            return Lst(rework(t.t, rng, o))
        if isinstance(t, Opt):
            x = rework(t.t, rng, o)
            return x if isinstance(x, Opt) else Opt(x)
        if isinstance(t, Dct):
            return Dct(t.k, rework(t.t, rng, o))
        i = rng.randrange(len(t.ts))
        return Tup(t.ts[:i] + [rework(t.ts[i], rng, o)] + t.ts[i + 1:])
    if o and isinstance(t, (St, Un)):
        r = rng.random()
        if r < 0.25:
            # another type that may hold a dataclass or nothing
            return rng.choice([Opt(gen.gen_struct(rng, o, 0, nmin=1)), Opt(composite(rng, 0)), gen.gen_struct(rng, o, 0, nmin=1), Lst(t)])
        if r < 0.33:
            return Opt(t)
        if isinstance(t, Un) and r < 0.55:
            return Un(rng.sample(t.sts, len(t.sts) - 1)) if len(t.sts) > 2 and r < 0.42 else Un(t.sts + [gen.gen_struct(rng, o, 0)])
        if isinstance(t, Un) and r < 0.62:
            return Opt(rng.choice(t.sts))
        for _ in range(6):
            x = inner(t, rng, o, edit_any)
            if x is not None:
                return x
    if isinstance(t, Tup):
        r = rng.random()
        if r < 0.4:
            return Tup(t.ts + [composite(rng, 0)])
        if r < 0.6:
            return Tup([composite(rng, 0)] + t.ts)
        if r < 0.8 and len(t.ts) > 1:
            return Tup(t.ts[:-1] if rng.random() < 0.5 else t.ts[1:])
        return Lst(t.ts[0])
    if isinstance(t, Dct):
        return Dct(rng.choice([x for x in (STR, INT, FLT) if x is not t.k]), t.t)
    if isinstance(t, Opt):
        return t.t
    if isinstance(t, Int):
        return rng.choice([FLT, STR, BOO, Opt(INT), Lst(INT)])
    if isinstance(t, Flt):
        return rng.choice([INT, STR, Opt(FLT)])
    if isinstance(t, Lit):
        vs = t.values + ["more"] if rng.random() < 0.5 or len(t.values) == 1 else rng.sample(t.values, len(t.values) - 1)
        return rng.choice([Lit(vs), Lit(vs), STR, INT])
    if isinstance(t, En) and not t.mixin:
        ms = list(t.members)
        r = rng.random()
        if r < 0.3 and len(ms) > 1:
            del ms[rng.randrange(len(ms))]
        elif r < 0.6:
            n = unused(ms)
            ms.insert(rng.randint(0, len(ms)), (f"ADDED{n}", f"added{n}"))
        else:
            i = rng.randrange(len(ms))
            n, v = ms[i]
            ms[i] = rng.choice([(n, f"changed{unused(ms)}"), (f"CHANGED{unused(ms)}", v), (f"{n}{unused(ms)}", f"changed{unused(ms)}")])
        return En(t.name, ms)
    return Opt(t) if rng.random() < 0.5 else Lst(t)


def mixed_literal(rng):
    """A literal of values of several types."""
    vs = rng.sample(["a", "b", "c"], rng.randint(1, 2)) + rng.sample([4, 5, 6], rng.randint(1, 2)) + rng.choice([[], [], [True]])
    rng.shuffle(vs)
    return Lit(vs)


def enum_pair(rng, old):
    """Two enum fields for `exchange`."""
    used = {f.name for f in old.fields} | {"version", "self"}
    deep = gen.fresh_name(rng, set()) if rng.random() < 0.4 else None
    for _ in range(2):
        e = gen.gen_enum(rng)
        t = En(e.name, e.members + [(f"XTRA{rng.randrange(3)}", f"xtra{rng.randrange(3)}")])
        if deep:
            # fields of the same name in two classes
            t = St(e.name + "Holder", [F(deep, t)])
        old.fields.insert(0, F(gen.fresh_name(rng, used), t))
        used.add(old.fields[0].name)


def exchange(st, rng):
    """A member leaves one enum; one of the same or another name and value joins another one."""
    fs = [f for _, s, _ in evo.structs(st) for f in s.fields if isinstance(f.t, En) and not f.t.mixin and not f.has_default and len(f.t.members) > 1]
    if len(fs) < 2:
        return False
    f, g = rng.sample(fs, 2)
    ms = list(f.t.members)
    name, value = ms.pop(rng.randrange(len(ms)))
    name2 = name if rng.random() < 0.5 else name + "_X"
    value2 = value if rng.random() < 0.5 else f"{value}-x"
    others = g.t.members
    if any(name2 == a or value2 == b for a, b in others):
        return False
    f.t = En(f.t.name, ms)
    g.t = En(g.t.name, others + [(name2, value2)])
    return True


def in_two_places(old, new, rng, same=0.5):
    """Both versions of a class as the type of two fields of another one; `same`: how often both places change."""
    used = {"version", "self"}
    names = []
    for _ in range(2):
        names.append(gen.fresh_name(rng, used))
        used.add(names[-1])
    a, b = rng.sample([True, False], 2) if rng.random() >= same else (True, True)
    versions = old.version, new.version
    keep = evo.clone(old)
    for st in (old, new, keep):
        st.version, st._cls = None, None
    name = f"Outer{rng.randrange(10**6)}"
    out = []
    for v, places in zip(versions, ((old, old), (new if a else keep, new if b else keep))):
        st = St(name, [F(n, x) for n, x in zip(names, places)], version=v)
        if rng.random() < 0.3:
            st.fields.append(F("inner", St(f"Inner{name}", [F("more", places[1])])))
        out.append(st)
    if len(out[0].fields) != len(out[1].fields):
        for st in out:
            del st.fields[2:]
    return out


# ------------------------------------------------------------------------------------------------- comparison
def shared(a, b, v, w, mon, path=(), touched=()):
    """First difference between the shared fields of old value v (type a) and new value w (type b)."""
    if path and any(path[:len(p)] == p or p[:len(path)] == path for p in touched):
        if not (isinstance(a, St) and isinstance(b, St) and all(p != path[:len(p)] for p in touched)):
            return None
    if isinstance(a, Opt) or isinstance(b, Opt):
        if v is None or w is None:
            return None if v is w else f"{path}: was {v!r}, is {w!r}"
        return shared(a.t if isinstance(a, Opt) else a, b.t if isinstance(b, Opt) else b, v, w, mon, path, touched)
    if isinstance(a, St) and isinstance(b, St):
        for f in a.fields:
            g = b.field(f.name)
            if g is not None:
                r = shared(f.t, g.t, getattr(v, f.name), getattr(w, f.name), mon, path + (f.name,), touched)
                if r:
                    return r
        return None
    mon.count("shared_fields")
    bad = f"{path}: was {v!r}, is {w!r}"
    if isinstance(a, Un) and isinstance(b, Un):
        p = [s for s in a.sts if type(v) is s.cls][0]
        q = [s for s in b.sts if type(w) is s.cls and s.name == p.name]
        return shared(p, q[0], v, w, mon, path + ("|",), touched) if q else bad
    if isinstance(a, Lst) and isinstance(b, Lst):
        if type(w) is not list or len(v) != len(w):
            return bad
        for i, (x, y) in enumerate(zip(v, w)):
            r = shared(a.t, b.t, x, y, mon, path + (i,), touched)
            if r:
                return r
        return None
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(v) != len(w):
            return bad
        for i, (x, y) in enumerate(zip(v, w)):
            r = shared(a.ts[i], b.ts[i], x, y, mon, path + (i,), touched)
            if r:
                return r
        return None
    if isinstance(a, Dct) and isinstance(b, Dct):
        if isinstance(a.k, En):
            key = lambda k: k.value  # noqa
            v, w = {key(k): x for k, x in v.items()}, {key(k): x for k, x in w.items()}
        if list(v) != list(w):
            return bad
        for k in v:
            r = shared(a.t, b.t, v[k], w[k], mon, path + (k,), touched)
            if r:
                return r
        return None
    if isinstance(a, En) and isinstance(b, En):
        return None if gen.diff(v.value, w.value) is None else bad
    if isinstance(b, Flt) and type(v) is int:  # an int, or one of the values of a literal
        return None if type(w) is float and w == v else bad
    return None if gen.diff(v, w) is None else bad


def touched_paths(h):
    out = []
    for ms in h.model.values():
        for m in ms:
            out.append(tuple(m[1]))
            if m[0] == "rename":
                out.append(tuple(m[2]))
    return out


def case(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2]), nmin=2)
    kind = rng.choice(["widen", "widen", "any", "any", "ruled", "ruled", "ruled+"])
    touched, edits = (), []
    if kind.startswith("ruled"):
        h = evo.History(rng, o, st, rng.choice([1, 1, 2, 3]), [1, 1, 2], base=rng.choice([0, 0, 3]), checks=False)
        old, new = rng.choice(h.specs[:-1]), h.new
        if h.evolver.opt_moves:
            return mon.count("known_finding_shapes")
        touched = touched_paths(h)
        if {"addreq", "map"} & set(h.evolver.kinds):
            kind = "ruled"  # the schema does not know the type of values that rules introduce or map
        if kind == "ruled+":
            for _ in range(rng.randint(1, 2)):
                e = rng.choice(list(evo.structs(new)))
                edits.append(edit_any(e[1], rng, o))
    else:
        old = st
        old.version = rng.choice([0, 1, 5])
        deep = pair = lit = None
        if kind == "any" and rng.random() < 0.4:
            deep = gen.fresh_name(rng, {f.name for f in old.fields} | {"version", "self"})
            rich = rng.random() < 0.6
            old.fields.insert(0, F(deep, composite(rng, rng.randint(0 if rich else 1, 3), o if rich else None)))
        elif kind == "any" and rng.random() < 0.3:
            pair = True
            enum_pair(rng, old)
        elif kind == "any" and rng.random() < 0.2:
            lit = gen.fresh_name(rng, {f.name for f in old.fields} | {"version", "self"})
            old.fields.insert(0, F(lit, mixed_literal(rng)))
        new = evo.clone(old)
        new.version = old.version + rng.choice([0, 1, 1])
        if deep:
            new.field(deep).t = rework(new.field(deep).t, rng, o)
            edits.append("rework")
        if pair and exchange(new, rng):
            edits.append("exchange")
            mon.count("exchanged_members")
        if lit:
            new.field(lit).t = rng.choice([STR, INT, FLT, BOO, Opt(STR), Lit(rng.sample(old.field(lit).t.values, 1))])
            edits.append("literal")
        for _ in range(rng.choice([0, 0, 1]) if edits else rng.choice([1, 1, 2, 3])):
            for _ in range(6):
                e = rng.choice(list(evo.structs(new)))
                k = (edit_widen if kind == "widen" else edit_any)(e[1], rng, o)
                if k:
                    edits.append(k)
                    break
        if rng.random() < 0.12:
            old, new = in_two_places(old, new, rng, 0.3)
            mon.count("in_two_places")
    p = os.path.join(mon.dir, "schema.ron")
    info = dict(kind=kind, edits=edits, old=old, new=new, rules=getattr(new, "real", None))
    res = cli.run(schema_evolution_cli, ["dump-schema", p], old.cls)
    mon.check(res.code == 0, "schema cannot be dumped", outcome=res, **info)
    chk = mon.call(lambda: SchemaChecker(load_schema(p), new.cls))
    if not chk.ok:
        # rules that do not fit the schema at all
        mon.check(kind.startswith("ruled"), "the check fails", outcome=chk, **info)
        mon.count("unchecked_pairs")
        return
    sev = chk.value.severity()
    info["changes"] = chk.value.changes
    mon.distinct(gen.describe(old), gen.describe(new))
    if kind == "widen":
        mon.check(sev < Severity.ERROR, "widening or additive change reported as an error", severity=sev, **info)
        mon.count("widening_pairs")
    if sev >= Severity.WARN:
        mon.count("incompatible_pairs")
        return
    mon.count("compatible_pairs")
    mon.count({"ruled": "ruled_compatible", "any": "mixed_compatible"}.get(kind, kind + "_compatible"))
    for j in range(8):
        if j == 0:
            node = evo.gen_node(old, rng, o, 0.0, 1.0, spec=old)
        elif j < 3:
            node = gen.to_node(old, gen.gen_value(old, rng, o), rng)
        else:
            node = evo.gen_node(old, rng, o, 0.0, rng.choice([0.0, 0.3, 0.7]), spec=old)
        s, want = gen.ref_load(old, node)
        if s != gen.OK:
            continue
        text = gen.render(node, rng)
        base = mon.call(hyperstate.loads, old.cls, text)
        mon.check(base.ok and gen.diff(want, base.value) is None, "old config does not load with the old class", outcome=base, text=text,
                  **info)
        out = mon.call(hyperstate.loads, new.cls, text)
        mon.check(out.ok, "config valid for the old class does not load although the classes are reported compatible", outcome=out, text=text,
                  **info)
        r = shared(old, new, want, out.value, mon, touched=touched)
        mon.check(r is None, "a shared field changes its value although the classes are reported compatible", difference=r, text=text,
                  loaded=out.value, **info)
        if kind.startswith("ruled") and not edits:
            s2, v2 = gen.ref_load(new, node)
            mon.check(s2 != gen.OK or gen.diff(v2, out.value) is None, "upgraded config differs from its rules", text=text, expected=v2,
                      loaded=out.value, **info)
        mon.count("configs_loaded")
        if len([x for x in (node[2] if node[0] != "m" else node[1])]) < len(old.fields):
            mon.count("configs_with_omitted_fields")
    mon.sample({"kind": kind, "edits": edits, "old": gen.describe(old), "new": gen.describe(new)})
