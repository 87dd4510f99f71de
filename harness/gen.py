"""
Types, values and documents owned by the harness. Nothing here uses code of hyperstate except the base class Versioned.
"""
import copy
import dataclasses
import enum
import math
import random
import struct
import typing

from hyperstate import Versioned

NODEF = object()


# ---------------------------------------------------------------------------------------------------- types
class T:
    def __repr__(self):
        return describe(self)


class Int(T):
    pass


class Flt(T):
    pass


class Boo(T):
    pass


class Str(T):
    pass


INT, FLT, BOO, STR = Int(), Flt(), Boo(), Str()


class Lit(T):
    def __init__(self, values):
        self.values = list(values)


class En(T):
    def __init__(self, name, members, mixin=None):
        self.name, self.members, self.mixin = name, list(members), mixin
        self._cls = None

    @property
    def cls(self):
        if self._cls is None:
            if self.mixin == "str":
                self._cls = enum.Enum(self.name, self.members, type=str)
            elif self.mixin == "int":
                self._cls = enum.IntEnum(self.name, self.members)
            else:
                self._cls = enum.Enum(self.name, self.members)
        return self._cls


class Lst(T):
    def __init__(self, t):
        self.t = t


class Tup(T):
    def __init__(self, ts):
        self.ts = list(ts)


class Dct(T):
    def __init__(self, k, t):
        self.k, self.t = k, t


class Opt(T):
    flip = False  # written as Union[None, T]

    def __init__(self, t):
        self.t = t


class Un(T):
    def __init__(self, sts):
        self.sts = list(sts)


class F:
    def __init__(self, name, t, default=NODEF, factory=False, doc=None):
        self.name, self.t, self.default, self.factory, self.doc = name, t, default, factory, doc

    @property
    def has_default(self):
        return self.default is not NODEF

    def fresh_default(self):
        return copy.deepcopy(self.default)


CONSTANT = "CLASS_CONSTANT"


class St(T):
    def __init__(self, name, fields, version=None, rules=None, doc=False, bases=(), before=()):
        self.name, self.fields, self.version, self.rules = name, fields, version, rules
        self.doc = doc
        self.bases = bases  # extra python base classes
        self.before = before
        self.split = None  # number of fields declared in a base class
        self._cls = None

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        return None

    @property
    def cls(self):
        if self._cls is None:
            items = []
            for f in self.fields:
                if not f.has_default:
                    items.append((f.name, pytype(f.t)))
                elif f.factory or isinstance(f.default, (list, dict, set)):
                    items.append((f.name, pytype(f.t), dataclasses.field(default_factory=f.fresh_default)))
                else:
                    items.append((f.name, pytype(f.t), dataclasses.field(default=f.default)))
            ns = {"__module__": "generated"}
            bases = tuple(self.bases)
            if self.split is not None:
                k = min(self.split, len(items))
                base = items[:k]
                rest = items[k:]
                r = random.Random(f"{self.name}/{k}")
                for j in range(k):
                    if r.random() < 0.3:
                        # declared again, with another default
                        rest.append(items[j])
                        if self.fields[j].has_default:
                            other = gen_value(self.fields[j].t, r, Opts())
                            base[j] = (items[j][0], items[j][1], dataclasses.field(default_factory=lambda other=other: copy.deepcopy(other)))
                bases = (dataclasses.make_dataclass(self.name + "Base", base, namespace={"__module__": "generated"}),) + bases
                items = rest
            if random.Random(f"{self.name}/constant").random() < 0.15:
                items.insert(0, (CONSTANT, typing.ClassVar[int], 3))  # not a field
            if self.version is not None:
                bases = bases + (Versioned,)
                version, spec = self.version, self
                ns["version"] = classmethod(lambda clz: version)
                r = random.Random(f"{self.name}/minimum")
                if r.random() < 0.1:
                    lowest = r.randint(0, version)
                    ns["minimum_version"] = classmethod(lambda clz: lowest)
                # read through the spec so that rules can be added later
                ns["upgrade_rules"] = classmethod(lambda clz: spec.rules() if callable(spec.rules) else (spec.rules or {}))
            if self.doc:
                ns["__doc__"] = docstring(self)
            self._cls = dataclasses.make_dataclass(self.name, items, bases=bases, namespace=ns)
            self._cls.__module__ = "generated"
        return self._cls


def docstring(st):
    lines = [f"Settings of {st.name}.", ""]
    for f in st.fields:
        if f.doc:
            lines.append(f":param {f.name}: {f.doc}")
    return "\n".join(lines)


def pytype(t):
    if isinstance(t, Int):
        return int
    if isinstance(t, Flt):
        return float
    if isinstance(t, Boo):
        return bool
    if isinstance(t, Str):
        return str
    if isinstance(t, Lit):
        return typing.Literal[tuple(t.values)]
    if isinstance(t, (En, St)):
        return t.cls
    if isinstance(t, Lst):
        return typing.List[pytype(t.t)]
    if isinstance(t, Tup):
        return typing.Tuple[tuple(pytype(x) for x in t.ts)]
    if isinstance(t, Dct):
        return typing.Dict[pytype(t.k), pytype(t.t)]
    if isinstance(t, Opt):
        return typing.Union[None, pytype(t.t)] if t.flip else typing.Optional[pytype(t.t)]
    if isinstance(t, Un):
        return typing.Union[tuple(s.cls for s in t.sts)]
    raise AssertionError(t)


def describe(t, deep=True):
    if isinstance(t, (Int, Flt, Boo, Str)):
        return type(t).__name__.lower()
    if isinstance(t, Lit):
        return f"Lit{t.values}"
    if isinstance(t, En):
        return f"{t.name}{dict(t.members)}"
    if isinstance(t, Lst):
        return f"List[{describe(t.t)}]"
    if isinstance(t, Tup):
        return f"Tuple[{', '.join(map(describe, t.ts))}]"
    if isinstance(t, Dct):
        return f"Dict[{describe(t.k)}, {describe(t.t)}]"
    if isinstance(t, Opt):
        return f"Opt[{describe(t.t)}]"
    if isinstance(t, Un):
        return f"Union[{', '.join(describe(s) for s in t.sts)}]"
    if isinstance(t, St):
        v = "" if t.version is None else f"@{t.version}"
        return f"{t.name}{v}({', '.join(f'{f.name}: {describe(f.t)}' + (f' = {f.default!r}' if f.has_default else '') for f in t.fields)})"
    raise AssertionError(t)


def shape(t):
    """Type skeleton, for counting distinct kinds of cases."""
    if isinstance(t, (Int, Flt, Boo, Str)):
        return type(t).__name__[0]
    if isinstance(t, Lit):
        return "L"
    if isinstance(t, En):
        return "E" + (t.mixin or "")
    if isinstance(t, Lst):
        return f"[{shape(t.t)}]"
    if isinstance(t, Tup):
        return f"({''.join(map(shape, t.ts))})"
    if isinstance(t, Dct):
        return "{" + shape(t.k) + shape(t.t) + "}"
    if isinstance(t, Opt):
        return shape(t.t) + "?"
    if isinstance(t, Un):
        return "|".join(shape(s) for s in t.sts)
    return "<" + ("v" if t.version is not None else "") + "".join(
        shape(f.t) + ("=" if f.has_default else "") for f in t.fields) + ">"


def walk_types(t):
    yield t
    if isinstance(t, (Lst, Opt)):
        yield from walk_types(t.t)
    elif isinstance(t, Tup):
        for x in t.ts:
            yield from walk_types(x)
    elif isinstance(t, Dct):
        yield from walk_types(t.k)
        yield from walk_types(t.t)
    elif isinstance(t, Un):
        for x in t.sts:
            yield from walk_types(x)
    elif isinstance(t, St):
        for f in t.fields:
            yield from walk_types(f.t)


# ---------------------------------------------------------------------------------------------------- generators
WORDS = ("lr steps batch_size epochs name size alpha beta gamma net opt task seed mode rate decay clip width depth "
         "heads layers dropout warmup momentum hidden label score path weight norm bias grid env actor critic tag "
         "kind scale shift limit count level rank temp").split()
STRINGS = ["", "a", "hello world", "it's", 'say "hi"', "back\\slash", "tab\tnew\nline", "\r\n", " lead", "trail ",
           "None", "true", "1", "1.5", "a=b", "a.b.c", "x@y: 3", "ünïcödé", "日本語", "🙂", "\x00", "\x7f", "\u2028",
           "{}", "()", "[1, 2]", "// c", "/* c */", "<blob>", "\\u{41}", "\\'", "1.0.0", "'", '"', "\\", "inf",
           "#", "%s", "e\u0301", "0.1.0", '"1.5.0"', "a,b", ":", "A(b: 1)"]
INTS = [0, 1, -1, 2, 3, 7, 10, 42, 255, 1000, -5, 2**31, -(2**31), 2**53, 2**53 + 1, 2**63 - 1, -(2**63), 2**63,
        10**30, -(10**30), 123456789]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, 2.5e-5, 1e-17, 1e-20, 5e-324, 1e16, 1e22, 1.7976931348623157e308, 3.0,
          -2.25, 0.30000000000000004, 1e-7, 123456.789, float("inf"), float("-inf"), 2.2250738585072014e-308,
          2.220446049250313e-16, 9007199254740993.0]
ENUM_NAMES = "RED GREEN BLUE ADAM SGD RELU TANH SMALL LARGE FAST".split()


class Opts:
    """What the type generator may use."""

    def __init__(self, depth=3, union=True, dicts=True, tuples=True, lists=True, structs=True, versioned=0.0,
                 enums=True, lits=True, opts=True, max_fields=6, struct_defaults=True, docs=False, nan=False,
                 weird_numbers=True, list_structs=True, dict_keys=("str", "int", "enum", "float") * 2 + ("bool", "lit", "tuple"), reuse=0.0):
        self.__dict__.update(locals())


def fresh_name(rng, used, words=WORDS):
    while True:
        n = rng.choice(words)
        if rng.random() < 0.25:
            n += rng.choice(["_", "2", "_x", "_max", "_rate", "Size"])
        if n not in used:
            used.add(n)
            return n


_struct_counter = [0]
_made = []  # classes that are complete, of the outermost class that is being made
_making = [0]


def gen_struct(rng, o, depth, name=None, version=None, nmin=1):
    if not _making[0]:
        del _made[:]
    _making[0] += 1
    try:
        st = _gen_struct(rng, o, depth, name, version, nmin)
        _made.append(st)
        return st
    finally:
        _making[0] -= 1


def wide_struct(rng, o):
    """A class with many fields."""
    w = copy.copy(o)
    w.max_fields = 60
    return gen_struct(rng, w, 0, nmin=25)


def _gen_struct(rng, o, depth, name, version, nmin):
    used = {"version", "self"}
    if name is None:
        _struct_counter[0] += 1
        name = rng.choice(["Opt", "Net", "Task", "Env", "Part", "Sub"]) + str(_struct_counter[0])
    fields = []
    for _ in range(rng.randint(nmin, o.max_fields)):
        t = gen_type(rng, o, depth)
        fn = fresh_name(rng, used)
        f = F(fn, t)
        if rng.random() < 0.5:
            add_default(rng, o, f)
        if o.docs and rng.random() < 0.5:
            f.doc = rng.choice(["How fast to go.", "The number of things", "Uses 'quotes' and \"more\"", "lower = better"])
        fields.append(f)
    fields.sort(key=lambda f: f.has_default)
    st = St(name, fields, version=version, doc=o.docs)
    if rng.random() < 0.12:
        st.split = rng.randint(0, len(fields))
    return st


def add_default(rng, o, f):
    if isinstance(f.t, St) and not o.struct_defaults:
        return
    if isinstance(f.t, Opt) and rng.random() < 0.5:
        f.default = None
    else:
        f.default = gen_value(f.t, rng, o)
    f.factory = rng.random() < 0.3
    if o.reuse and any(isinstance(x, St) for x in walk_types(f.t)):
        f.factory = True  # objects that are defaults are shared by all uses of the class


def gen_leaf(rng, o):
    r = rng.random()
    if r < 0.2:
        return INT
    if r < 0.4:
        return FLT
    if r < 0.52:
        return BOO
    if r < 0.72:
        return STR
    if r < 0.86 and o.enums:
        return gen_enum(rng)
    if o.lits:
        return gen_lit(rng)
    return INT


def gen_enum(rng):
    _struct_counter[0] += 1
    names = rng.sample(ENUM_NAMES, rng.randint(1, 4))
    kind = rng.random()
    if kind < 0.15:
        return En(f"Kind{_struct_counter[0]}", [(n, n.lower()) for n in names], "str")
    if kind < 0.3:
        return En(f"Kind{_struct_counter[0]}", [(n, i) for i, n in enumerate(names)], "int")
    if kind < 0.5:
        return En(f"Kind{_struct_counter[0]}", [(n, i + 1) for i, n in enumerate(names)])
    if kind < 0.6:
        return En(f"Kind{_struct_counter[0]}", [(n, (i if i % 2 else n)) for i, n in enumerate(names)])
    if kind < 0.68:
        # the names of other members as values
        return En(f"Kind{_struct_counter[0]}", [(n, names[i - 1]) for i, n in enumerate(names)])
    return En(f"Kind{_struct_counter[0]}", [(n, n.title()) for n in names])


def gen_lit(rng):
    if rng.random() < 0.25:
        return Lit(rng.sample([2, 3, 5, 10, 64], rng.randint(1, 3)))
    vals = rng.sample(["adam", "sgd", "a b", "it's", "Big", "none", "x"], rng.randint(1, 4))
    if rng.random() < 0.15:
        # texts that look like other values
        vals += rng.sample(["1", "2.0", "True", "None", "7", "-1"], rng.randint(1, 3))
    if rng.random() < 0.3:
        vals.append(rng.choice([7, 8]))
    return Lit(vals)


def gen_type(rng, o, depth):
    if depth <= 0 or rng.random() < 0.5:
        return gen_leaf(rng, o)
    for _ in range(20):
        k = rng.choice(["list", "tuple", "dict", "opt", "opt", "struct", "struct", "union"])
        if k == "list" and o.lists:
            inner = gen_type(rng, o, depth - 1)
            if not o.list_structs and any(isinstance(x, (St, Un)) for x in walk_types(inner)):
                continue
            return Lst(inner)
        if k == "tuple" and o.tuples:
            return Tup([gen_type(rng, o, depth - 1) for _ in range(rng.randint(1, 3))])
        if k == "dict" and o.dicts:
            kk = rng.choice(o.dict_keys)
            kt = {"str": STR, "int": INT, "float": FLT, "bool": BOO}.get(kk)
            if kt is None:
                kt = gen_lit(rng) if kk == "lit" else gen_enum(rng)
            if kk == "tuple":
                kt = Tup([rng.choice([INT, STR, BOO, kt]) for _ in range(rng.randint(1, 3))])
            return Dct(kt, gen_type(rng, o, depth - 1))
        if k == "opt" and o.opts:
            inner = gen_type(rng, o, depth - 1)
            if isinstance(inner, Opt):
                continue
            t = Opt(inner)
            t.flip = rng.random() < 0.15
            return t
        if k == "struct" and o.structs:
            if o.reuse and _made and rng.random() < o.reuse:
                return rng.choice(_made)
            v = rng.randint(0, 3) if rng.random() < o.versioned else None
            return gen_struct(rng, o, depth - 1, version=v)
        if k == "union" and o.union:
            n = rng.randint(2, 3)
            sts, before = [], len(_made)
            for _ in range(n):
                sts.append(gen_struct(rng, o, depth - 1, nmin=0))
                del _made[before:]  # may still be changed
            if rng.random() < 0.25:
                # classes that differ in nothing but their names, or in one field
                x, y = rng.sample(sts, 2)
                y.fields = [F(f.name, f.t, copy.deepcopy(f.default) if f.has_default else NODEF, f.factory, f.doc) for f in x.fields]
                if y.fields and rng.random() < 0.3:
                    y.fields.pop(rng.randrange(len(y.fields)))
            return Un(sts)
    return gen_leaf(rng, o)


def gen_int(rng, o=None):
    r = rng.random()
    if r < 0.4:
        return rng.choice(INTS) if (o is None or o.weird_numbers) else rng.randint(-10, 100)
    if r < 0.8:
        return rng.randint(-100, 1000)
    if o is not None and not o.weird_numbers:
        return rng.randint(-(2**40), 2**40)
    return rng.randint(-(2**62), 2**62)


def gen_float(rng, o=None):
    r = rng.random()
    if o is not None and not o.weird_numbers:
        return rng.choice([0.5, 1.0, 0.1, 2.25, 1e-3, 100.0, -4.0]) if r < 0.5 else round(rng.uniform(-10, 10), 4)
    if o is not None and o.nan and r < 0.02:
        return float("nan")
    if r < 0.45:
        return rng.choice(FLOATS)
    if r < 0.8:
        return round(rng.uniform(-100, 100), rng.randint(0, 6))
    while True:
        f = struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0]
        if f == f:
            return f


def gen_str(rng):
    if rng.random() < 0.6:
        return rng.choice(STRINGS)
    if rng.random() < 0.01:
        return rng.choice(["long ", "x", "a'b\"", "é"]) * rng.choice([50, 300, 2000])
    return "".join(rng.choice("abcXYZ019 _-.,:;=@'\"\\/(){}[]<>!?\n\té日") for _ in range(rng.randint(1, 12)))


def gen_value(t, rng, o=None):
    if isinstance(t, Int):
        return gen_int(rng, o)
    if isinstance(t, Flt):
        return gen_float(rng, o)
    if isinstance(t, Boo):
        return rng.random() < 0.5
    if isinstance(t, Str):
        return gen_str(rng)
    if isinstance(t, Lit):
        return rng.choice(t.values)
    if isinstance(t, En):
        return rng.choice(list(t.cls))
    if isinstance(t, Lst):
        n = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.01 and isinstance(t.t, (Int, Flt, Boo, Str)):
            n = rng.choice([9, 17, 33, 65, 130, 300])
        return [gen_value(t.t, rng, o) for _ in range(n)]
    if isinstance(t, Tup):
        return tuple(gen_value(x, rng, o) for x in t.ts)
    if isinstance(t, Dct):
        d = {}
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = gen_value(t.k, rng, o)
            if isinstance(t.k, Flt) and (k != k or k == 0):
                continue
            d[k] = gen_value(t.t, rng, o)
        return d
    if isinstance(t, Opt):
        return None if rng.random() < 0.35 else gen_value(t.t, rng, o)
    if isinstance(t, Un):
        return gen_value(rng.choice(t.sts), rng, o)
    if isinstance(t, St):
        kw = {}
        for f in t.fields:
            if f.has_default and rng.random() < 0.35:
                continue
            kw[f.name] = gen_value(f.t, rng, o)
        return t.cls(**kw)
    raise AssertionError(t)


# ---------------------------------------------------------------------------------------------------- comparison
def fbits(f):
    return struct.pack("<d", f)


def diff(a, b, loose_zero=False, path=""):
    """None if a and b are the same value of the same types, else a description of the first difference."""
    if type(a) is not type(b):
        return f"{path or '.'}: {type(a).__name__} {a!r} vs {type(b).__name__} {b!r}"
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        for n in a.__dataclass_fields__:
            d = diff(getattr(a, n), getattr(b, n), loose_zero, f"{path}.{n}")
            if d:
                return d
        ka = {k for k in vars(a) if not k.startswith("_")}
        kb = {k for k in vars(b) if not k.startswith("_")}
        if ka != kb:
            return f"{path}: attributes {sorted(ka ^ kb)}"
        return None
    if isinstance(a, float):
        if math.isnan(a) and math.isnan(b):
            return None
        if a == b and (loose_zero or fbits(a) == fbits(b)):
            return None
        return f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, loose_zero, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} entries"
        kb = {(type(k), k): k for k in b}
        for k in a:
            if (type(k), k) not in kb:
                return f"{path}: key {k!r} missing"
            d = diff(a[k], b[kb[(type(k), k)]], loose_zero, f"{path}[{k!r}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} vs {b!r}"


def nonconforming(t, v, path=""):
    """None if v is a value of type t at every depth, else a description."""
    def bad():
        return f"{path or '.'}: {v!r} ({type(v).__name__}) is not a {describe(t)}"
    if isinstance(t, Int):
        return None if isinstance(v, int) else bad()
    if isinstance(t, Flt):
        return None if isinstance(v, float) else bad()
    if isinstance(t, Boo):
        return None if isinstance(v, bool) else bad()
    if isinstance(t, Str):
        return None if isinstance(v, str) else bad()
    if isinstance(t, Lit):
        return None if any(v == x for x in t.values) else bad()
    if isinstance(t, En):
        return None if isinstance(v, t.cls) else bad()
    if isinstance(t, Opt):
        return None if v is None else nonconforming(t.t, v, path)
    if isinstance(t, Lst):
        if not isinstance(v, list):
            return bad()
        for i, x in enumerate(v):
            r = nonconforming(t.t, x, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(t, Tup):
        if not isinstance(v, tuple) or len(v) != len(t.ts):
            return bad()
        for i, (tt, x) in enumerate(zip(t.ts, v)):
            r = nonconforming(tt, x, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(t, Dct):
        if not isinstance(v, dict):
            return bad()
        for k, x in v.items():
            r = nonconforming(t.k, k, f"{path}.key") or nonconforming(t.t, x, f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(t, Un):
        for s in t.sts:
            if type(v) is s.cls:
                return nonconforming(s, v, path)
        return bad()
    if isinstance(t, St):
        if type(v) is not t.cls:
            return bad()
        for f in t.fields:
            if not hasattr(v, f.name):
                return f"{path}.{f.name} is missing"
            r = nonconforming(f.t, getattr(v, f.name), f"{path}.{f.name}")
            if r:
                return r
        return None
    raise AssertionError(t)


# ---------------------------------------------------------------------------------------------------- documents
# nodes: ("i", int) ("f", float) ("s", str) ("b", bool) ("n",) ("l", [..]) ("t", [..]) ("m", [[k, v]..])
#        ("r", name, [[field, node]..]) ("id", name)
I64 = (-(2**63), 2**63 - 1)


def num_node(v):
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["i", v] if I64[0] <= v <= I64[1] else ["s", str(v)]
    if math.isfinite(v):
        return ["f", v]
    return ["s", {math.inf: "inf", -math.inf: "-inf"}.get(v, "nan")]


def to_node(t, v, rng=None, omit=0.0, style=None):
    """Document node for value v of type t. omit: probability to leave out a field equal to its default."""
    if isinstance(t, Opt):
        return ["n"] if v is None else to_node(t.t, v, rng, omit, style)
    if isinstance(t, (Int, Flt)):
        if isinstance(t, Flt) and rng is not None and math.isfinite(v) and v == int(v) and abs(v) < 2**53 \
                and not (v == 0 and math.copysign(1, v) < 0) and rng.random() < 0.3:
            return ["i", int(v)]
        return num_node(v)
    if isinstance(t, Boo):
        return ["b", v]
    if isinstance(t, Str):
        return ["s", v]
    if isinstance(t, Lit):
        return ["s", v] if isinstance(v, str) else num_node(v)
    if isinstance(t, En):
        x = v.value
        return ["s", x] if isinstance(x, str) else num_node(x)
    if isinstance(t, Lst):
        return ["l", [to_node(t.t, x, rng, omit, style) for x in v]]
    if isinstance(t, Tup):
        return ["t", [to_node(tt, x, rng, omit, style) for tt, x in zip(t.ts, v)]]
    if isinstance(t, Dct):
        return ["m", [[to_node(t.k, k, rng, omit, style), to_node(t.t, x, rng, omit, style)] for k, x in v.items()]]
    if isinstance(t, Un):
        for s in t.sts:
            if type(v) is s.cls:
                return _st_node(s, v, rng, omit, "named")
        raise AssertionError
    if isinstance(t, St):
        return _st_node(t, v, rng, omit, style)
    raise AssertionError(t)


def _st_node(t, v, rng, omit, style):
    items = []
    for f in t.fields:
        x = getattr(v, f.name)
        if f.has_default and rng is not None and omit and rng.random() < omit and diff(x, f.default) is None:
            continue
        # nested unions force names only for themselves
        items.append([f.name, to_node(f.t, x, rng, omit, None if style == "named" else style)])
    if rng is not None and rng.random() < 0.3:
        rng.shuffle(items)
    if t.version is not None:
        items.insert(0, ["version", ["i", t.version]])
    name = t.name
    if style != "named" and rng is not None:
        r = rng.random()
        if r < 0.3:
            name = ""
        elif r < 0.4:
            return ["m", [[["s", k], n] for k, n in items]] if items else ["m", []]
    if name == "" and not items:
        return ["m", []]
    return ["r", name, items]


ESC = {"\n": "\\n", "\r": "\\r", "\t": "\\t", '"': '\\"', "\\": "\\\\"}


def render_str(s):
    return '"' + "".join(ESC.get(c, c) for c in s) + '"'


def render(n, rng=None, ind=0):
    k = n[0]
    ws = "" if rng is None else rng.choice(["", "", " ", "\n", " /* x */ ", "\n  // note\n  "])
    if k == "i":
        return str(n[1])
    if k == "f":
        return repr(n[1])
    if k == "s":
        return render_str(n[1])
    if k == "b":
        return "true" if n[1] else "false"
    if k == "n":
        return "None"
    if k == "id":
        return n[1]
    if k == "raw":
        return n[1]
    tail = "" if rng is None or rng.random() < 0.5 else ","
    if k == "l":
        return "[" + ws + ", ".join(render(x, rng) for x in n[1]) + (tail if n[1] else "") + "]"
    if k == "t":
        if len(n[1]) == 1:
            tail = ","
        return "(" + ", ".join(render(x, rng) for x in n[1]) + (tail if n[1] else "") + ")"
    if k == "m":
        return "{" + ws + ", ".join(f"{render(a, rng)}: {render(b, rng)}" for a, b in n[1]) + (tail if n[1] else "") + "}"
    if k == "r":
        if not n[2] and not n[1]:
            return "{}"  # () is read as None
        if not n[2]:
            return n[1] + ("()" if rng is None or rng.random() < 0.7 else "")
        return n[1] + "(" + ws + ", ".join(f"{a}: {render(b, rng)}" for a, b in n[2]) + tail + ")"
    raise AssertionError(n)


# ---------------------------------------------------------------------------------------------------- reference loader
OK, REJ, UNK = "ok", "rej", "unk"


def parse_int_text(s):
    from fractions import Fraction
    try:
        return int(s)
    except ValueError:
        pass
    f = float(s)
    if math.isinf(f) or math.isnan(f):
        raise ValueError
    x = Fraction(s.strip().replace("_", ""))
    if x.denominator != 1:
        raise ValueError
    return int(x)


def ref_default(t, weak=(), extra=False):
    """
    Default instance of a dataclass a document omits: (status, value). `weak` holds values that rewrite rules supply
    for fields of omitted dataclasses.
    """
    kw = {}
    weak = dict(weak)
    status = []
    for f in t.fields:
        w = weak.get(f.name)
        if w is not None and w[0] != "w":
            s, v = ref_load(f.t, w, extra)
        elif f.has_default:
            continue
        elif isinstance(f.t, St):
            s, v = ref_default(f.t, w[2] if w else (), extra)
        else:
            s, v = REJ, None
        status.append(s)
        kw[f.name] = v
    for s in (REJ, UNK):
        if s in status:
            return s, None
    return OK, t.cls(**kw)


def ref_load(t, n, extra=False, want_version=True):
    """
    Meaning of document node n as type t: (OK, value), (REJ, None) if loading must fail,
    (UNK, None) where the properties do not say which of the two.
    """
    k = n[0]
    if isinstance(t, Opt):
        if k == "n":
            return OK, None
        return ref_load(t.t, n, extra)
    if isinstance(t, Int):
        if k == "i":
            return OK, n[1]
        if k == "f":
            return (OK, int(n[1])) if math.isfinite(n[1]) and n[1] == int(n[1]) else (REJ, None)
        if k == "s":
            if "@" in n[1] or n[1] != n[1].strip() or "_" in n[1]:
                return UNK, None
            try:
                return OK, parse_int_text(n[1])
            except (ValueError, OverflowError):
                return REJ, None
        return (UNK, None) if k == "b" else (REJ, None)
    if isinstance(t, Flt):
        if k == "f":
            return OK, n[1]
        if k == "i":
            return OK, float(n[1])
        if k == "s":
            if "@" in n[1] or n[1] != n[1].strip() or "_" in n[1]:
                return UNK, None
            try:
                return OK, float(n[1])
            except ValueError:
                return REJ, None
        return (UNK, None) if k == "b" else (REJ, None)
    if isinstance(t, Boo):
        return (OK, n[1]) if k == "b" else (REJ, None)
    if isinstance(t, Str):
        return (OK, n[1]) if k == "s" else (UNK, None) if k in ("id", "r") else (REJ, None)
    if isinstance(t, Lit):
        if k in ("s", "i"):
            for x in t.values:
                if type(x) is type(n[1]) and x == n[1]:
                    return OK, x
            return REJ, None
        return (UNK, None) if k in ("id", "r", "f", "b") else (REJ, None)
    if isinstance(t, En):
        if k in ("s", "i"):
            for m in t.cls:
                if type(m.value) is type(n[1]) and m.value == n[1]:
                    return OK, m
            return REJ, None
        return (UNK, None) if k in ("f", "b", "id") else (REJ, None)
    if isinstance(t, Lst):
        if k != "l":
            return (UNK, None) if k == "t" else (REJ, None)
        return _all([ref_load(t.t, x, extra) for x in n[1]], list)
    if isinstance(t, Tup):
        if k != "t":
            return (UNK, None) if k == "l" else (REJ, None)
        if len(n[1]) != len(t.ts):
            return REJ, None
        return _all([ref_load(tt, x, extra) for tt, x in zip(t.ts, n[1])], tuple)
    if isinstance(t, Dct):
        if k != "m":
            return (UNK, None) if k == "r" else (REJ, None)
        ks = _all([ref_load(t.k, a, extra) for a, _ in n[1]], list)
        vs = _all([ref_load(t.t, b, extra) for _, b in n[1]], list)
        if REJ in (ks[0], vs[0]):
            return REJ, None
        if UNK in (ks[0], vs[0]):
            return UNK, None
        d = dict(zip(ks[1], vs[1]))
        return (OK, d) if len(d) == len(ks[1]) else (UNK, None)
    if isinstance(t, Un):
        if k == "r":
            for s in t.sts:
                if s.name == n[1]:
                    return ref_load(s, n, extra)
        if k == "id":
            for s in t.sts:
                if s.name == n[1]:
                    return ref_load(s, ["r", n[1], []], extra)
        return REJ, None
    if isinstance(t, St):
        if k == "r":
            items = n[2]
            if not items and not n[1]:
                return UNK, None
        elif k == "m":
            if any(a[0] != "s" for a, _ in n[1]):
                return UNK, None
            items = [[a[1], b] for a, b in n[1]]
        elif k == "id":
            return UNK, None
        else:
            return (UNK, None) if k == "t" else (REJ, None)
        names = [a for a, _ in items]
        if len(set(names)) != len(names):
            return UNK, None
        items = dict((a, b) for a, b in items)
        status = []
        if t.version is not None:
            v = items.pop("version", None)
            if v is None or v[0] != "i":
                return UNK, None
            if v[1] != t.version:
                if v[1] > t.version or not hasattr(t, "model"):
                    return UNK, None
                import evo
                up = evo.upgrade(["r", t.name, [[a, b] for a, b in items.items()]], t.model, v[1], t.version)
                if up is None:
                    return REJ, None
                items = dict((a, b) for a, b in up[2])
        kw = {}
        weak = {a: b for a, b in items.items() if b[0] == "w"}
        items = {a: b for a, b in items.items() if b[0] != "w"}
        for a, b in items.items():
            f = t.field(a)
            if f is None:
                if not extra:
                    status.append(REJ)
                continue
            s, x = ref_load(f.t, b, extra)
            status.append(s)
            kw[a] = x
        for f in t.fields:
            if f.name not in items and not f.has_default:
                if isinstance(f.t, St):
                    s, x = ref_default(f.t, weak[f.name][2] if f.name in weak else (), extra)
                    status.append(s)
                    kw[f.name] = x
                else:
                    status.append(REJ)
        if REJ in status:
            return REJ, None
        if UNK in status:
            return UNK, None
        return OK, t.cls(**kw)
    raise AssertionError(t)


def _all(rs, ctor):
    if any(s == REJ for s, _ in rs):
        return REJ, None
    if any(s == UNK for s, _ in rs):
        return UNK, None
    return OK, ctor(v for _, v in rs)


# ---------------------------------------------------------------------------------------------------- node helpers
def subnodes(n, path=()):
    """All (path, node) pairs; a path can be used with set_at."""
    yield path, n
    if n[0] in ("l", "t"):
        for i, x in enumerate(n[1]):
            yield from subnodes(x, path + ((1, i),))
    elif n[0] == "m":
        for i, (a, b) in enumerate(n[1]):
            yield from subnodes(a, path + ((1, i), 0))
            yield from subnodes(b, path + ((1, i), 1))
    elif n[0] == "r":
        for i, (a, b) in enumerate(n[2]):
            yield from subnodes(b, path + ((2, i), 1))


def set_at(n, path, new):
    if not path:
        return new
    n = copy.deepcopy(n)
    cur = n
    steps = []
    for p in path:
        if isinstance(p, tuple):
            steps.extend(p)
        else:
            steps.append(p)
    for s in steps[:-1]:
        cur = cur[s]
    cur[steps[-1]] = new
    return n


def parseable(n):
    """False for documents whose maps have keys that cannot be dict keys or coincide, or absurd version numbers."""
    for _, x in subnodes(n):
        if x[0] == "m" and any(a[0] not in ("i", "f", "s", "b", "n") for a, _ in x[1]):
            return False
        if x[0] == "m" and len({None if a[0] == "n" else a[1] for a, _ in x[1]}) < len(x[1]):
            return False
        if x[0] == "r" and any(a == "version" and b[0] in ("i", "f") and not -100 < b[1] < 100 for a, b in x[2]):
            return False
        if x[0] == "m" and any(a[1:] == ["version"] and b[0] in ("i", "f") and not -100 < b[1] < 100 for a, b in x[1]):
            return False
    return True


def random_node(rng, depth=2):
    k = rng.choice(["i", "f", "s", "s", "b", "n", "id", "l", "t", "m", "r"] if depth > 0 else ["i", "f", "s", "b", "n", "id"])
    if k == "i":
        return ["i", rng.choice([0, 1, -1, 2, 3, 7, 64, 2**53 + 1, 2**62])]
    if k == "f":
        return ["f", rng.choice([0.0, 1.0, 1.5, -2.0, 3.25, 1e300, 7.0, 1e-9])]
    if k == "s":
        return ["s", rng.choice(["1", "2.0", "1.5", "1e3", "-7", "9007199254740993", "12345678901234567.0", "inf",
                                 "-inf", "abc", "", "true", "None", "adam", "Red", "red", "1e-5", "0x10", "1e400",
                                 "0.1", "123456789012345678901234567890"])]
    if k == "b":
        return ["b", rng.random() < 0.5]
    if k == "n":
        return ["n"]
    if k == "id":
        return ["id", rng.choice(["A", "RED", "adam", "Foo", "none"])]
    if k in ("l", "t"):
        xs = [random_node(rng, depth - 1) for _ in range(rng.randint(0 if k == "l" else 1, 3))]
        return [k, xs]
    if k == "m":
        keys = [["i", 1], ["i", 64], ["s", "a"], ["s", "lr"], ["f", 1.5], ["b", True]]
        return ["m", [[k, random_node(rng, depth - 1)] for k in rng.sample(keys, rng.randint(0, 2))]]
    return ["r", rng.choice(["", "A", "Opt"]), [[w, random_node(rng, depth - 1)] for w in rng.sample(WORDS, rng.randint(1, 2))]]


def not_left_out(t, v, doc, path=""):
    """(fields with a plain default value that they have, those of them that the document names nevertheless)"""
    n, bad = 0, []

    def go(t, v, doc, path):
        nonlocal n
        if isinstance(t, Opt):
            if v is not None:
                go(t.t, v, doc, path)
        elif isinstance(t, Lst):
            for k, (x, d) in enumerate(zip(v, doc)):
                go(t.t, x, d, f"{path}[{k}]")
        elif isinstance(t, Tup):
            for k, (tt, x, d) in enumerate(zip(t.ts, v, doc)):
                go(tt, x, d, f"{path}[{k}]")
        elif isinstance(t, Un):
            go([s for s in t.sts if type(v) is s.cls][0], v, doc, path)
        elif isinstance(t, St):
            if not isinstance(doc, dict):
                return
            for f in t.fields:
                x = getattr(v, f.name)
                if f.has_default and (x is None or type(x) in (int, float, bool, str)) and diff(x, f.default) is None \
                        and not (type(x) in (int, float) and not -2**63 <= x < 2**63):  # written as strings
                    n += 1
                    if f.name in doc:
                        bad.append(f"{path}.{f.name}")
                elif f.name in doc:
                    go(f.t, x, doc[f.name], f"{path}.{f.name}")

    go(t, v, doc, path)
    return n, bad
