"""
Schema evolution: random edits of classes with the rewrite rules that describe them, and the meaning of the rules on
documents (an interpreter over document nodes, independent of hyperstate's).
"""
import copy

import gen
from gen import St, Opt, Lst, Lit, En, Str, Int, Flt, Boo, F, NODEF, INT, FLT, STR
from hyperstate.schema import rewrite_rule as rr


# ------------------------------------------------------------------------------------------ reference interpreter
def raw(n):
    k = n[0]
    if k in ("i", "f", "s", "b"):
        return n[1]
    if k == "n":
        return None
    if k == "l":
        return [raw(x) for x in n[1]]
    raise AssertionError(n)


def unraw(v):
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, (int, float)):
        return gen.num_node(v)
    if isinstance(v, list):
        return ["l", [unraw(x) for x in v]]
    raise AssertionError(v)


def is_struct(n):
    """Structs are ["r"..] nodes; string-keyed maps are converted in place when a rule walks into them."""
    if n[0] == "m" and all(a[0] == "s" for a, _ in n[1]):
        n[:] = ["r", "", [[a[1], b] for a, b in n[1]]]
    return n[0] in ("r", "w")


def lookup(n, name):
    for it in n[2]:
        if it[0] == name:
            return it
    return None


def remove(root, path, take=True):
    """(value node or None, weak)"""
    cur, weak = root, False
    for seg in path[:-1]:
        it = lookup(cur, seg)
        if it is None or not is_struct(it[1]):
            return None, False
        cur = it[1]
        weak = weak or cur[0] == "w"
    it = lookup(cur, path[-1])
    if it is None:
        return None, False
    if take:
        cur[2].remove(it)
    return it[1], weak or it[1][0] == "w"


def insert(root, path, value, strong):
    cur = root
    for seg in path[:-1]:
        it = lookup(cur, seg)
        if it is None:
            it = [seg, ["r" if strong else "w", "", []]]
            cur[2].append(it)
        cur = it[1]
        if not is_struct(cur):
            return
        if strong and cur[0] == "w":
            cur[0] = "r"
    it = lookup(cur, path[-1])
    if it is not None:
        cur[2].remove(it)
    cur[2].append([path[-1], value])


class Rejected(Exception):
    pass


def apply_model(root, m):
    op, path = m[0], m[1]
    if op == "rename":
        v, weak = remove(root, path)
        if v is not None:
            insert(root, m[2], v, strong=not weak)
    elif op == "delete":
        remove(root, path)
    elif op == "map":
        v, _ = remove(root, path)
        if v is not None:
            insert(root, path, unraw(m[2](raw(v))), strong=False)
    elif op in ("chdef", "adddef"):
        v, _ = remove(root, path, take=False)
        if v is None or (op == "chdef" and v[0] == "w"):
            insert(root, path, copy.deepcopy(m[2]), strong=False)
    elif op == "check":
        v, _ = remove(root, path, take=False)
        if v is not None and raw(v) not in m[2]:
            raise Rejected
    elif op == "reject":
        v, _ = remove(root, path, take=False)
        if v is not None and raw(v) in m[2]:
            raise Rejected
    else:
        raise AssertionError(op)


def upgrade(root, model, v, n):
    """Document node (without version) of version v rewritten to version n, or None if a rule rejects it."""
    root = copy.deepcopy(root)
    try:
        for k in range(v, n):
            for m in model.get(k, []):
                apply_model(root, m)
    except Rejected:
        return None
    return root


# ------------------------------------------------------------------------------------------ class edits
def editable(f):
    """The dataclass whose fields may be edited; dataclasses that occur in default values are left alone for good."""
    t = f.t
    if f.has_default and f.default is not None:
        f.opaque = True
    if getattr(f, "opaque", False):
        return None
    if isinstance(t, St):
        return t if not f.has_default and t.version is None else None
    if isinstance(t, Opt) and isinstance(t.t, St) and (not f.has_default or f.default is None):
        return t.t if t.t.version is None else None
    return None


def clone(st):
    c = St(st.name, [], version=st.version, doc=st.doc, bases=st.bases)
    c.split = st.split
    for f in st.fields:
        e = editable(f)
        t = f.t
        if e is not None:
            t = clone(e) if isinstance(t, St) else Opt(clone(e))
        g = F(f.name, t, f.default, f.factory, f.doc)
        g.opaque = getattr(f, "opaque", False)
        c.fields.append(g)
    return c


def structs(st, prefix=(), opt=False):
    yield prefix, st, opt
    for f in st.fields:
        e = editable(f)
        if e is not None:
            yield from structs(e, prefix + (f.name,), opt or isinstance(f.t, Opt))


def structs_all(st, prefix=(), opt=False):
    """The same for all dataclasses on field paths, editable or not."""
    yield prefix, st, opt
    for f in st.fields:
        t = f.t.t if isinstance(f.t, Opt) else f.t
        if isinstance(t, St):
            yield from structs_all(t, prefix + (f.name,), opt or isinstance(f.t, Opt))


def resort(st):
    st.fields.sort(key=lambda f: f.has_default)


def rule(m, rng):
    """The real rule for a model rule; m[-1] is the python value of defaults."""
    op = m[0]

    def p(x):
        return tuple(x) if rng.random() < 0.6 else list(x)
    if op == "rename":
        return rr.RenameField(p(m[1]), p(m[2]))
    if op == "delete":
        return rr.DeleteField(p(m[1]))
    if op == "map":
        return rr.MapFieldValue(p(m[1]), m[2])
    if op == "chdef":
        return rr.ChangeDefault(p(m[1]), m[3], m[4])
    if op == "adddef":
        return rr.AddDefault(p(m[1]), m[3])
    if op == "check":
        return rr.CheckValue(p(m[1]), set(m[2]))
    if op == "reject":
        return rr.RejectValues(p(m[1]), set(m[2]))
    raise AssertionError(op)


def boom(x):
    raise RuntimeError("map function of an absent field was called")


class Evolver:
    def __init__(self, rng, o, consistent=False, checks=True, maps=True):
        self.rng, self.o, self.consistent, self.checks, self.maps = rng, o, consistent, checks, maps
        self.kinds = []
        self.opt_moves = False  # fields were moved out of optional dataclasses

    def evolve(self, st, n, focus=None):
        """(new class, model rules); half of the edits are made below the field `focus` (a path of length 1)."""
        st = clone(st)
        self.model = []
        self.focus = focus
        self.dead = []  # names that were removed and may be reused
        for _ in range(n):
            for _ in range(8):
                before = len(self.model)
                k = self.rng.choice(["rename", "rename", "move", "delete", "chdef", "chdef", "droped", "add", "addreq", "map", "map",
                                     "check", "noop", "newstruct", "flatten", "swap"])
                if focus and self.rng.random() < 0.15:
                    k = "delete"
                if getattr(self, k)(st):
                    self.kinds.append(k)
                    break
        for _, s, _ in list(structs(st)):
            resort(s)
        return st, self.model

    # -- helpers
    def emit(self, *m):
        self.model.append(m)
        return True

    def pick(self, st, pred=lambda p, s, f, opt: True):
        c = [(p, s, f, opt) for p, s, opt in structs(st) for f in s.fields if pred(p, s, f, opt)]
        if self.focus and self.rng.random() < 0.5:
            c = [x for x in c if x[0][:1] == self.focus] or c
        return self.rng.choice(c) if c else None

    def name(self, s):
        used = {f.name for f in s.fields} | {"version", "self"}
        free = [d for d in self.dead if d not in used]
        if free and self.rng.random() < 0.4:
            return self.rng.choice(free)
        return gen.fresh_name(self.rng, used)

    def node(self, t, v):
        return gen.to_node(t, v)

    # -- edits
    def rename(self, st):
        c = self.pick(st)
        if not c:
            return False
        p, s, f, _ = c
        new = self.name(s)
        self.dead.append(f.name)
        old, f.name = f.name, new
        return self.emit("rename", p + (old,), p + (new,))

    def swap(self, st):
        c = self.pick(st, lambda p, s, f, o: len(s.fields) > 1)
        if not c:
            return False
        p, s, f, _ = c
        g = self.rng.choice([x for x in s.fields if x is not f])
        tmp = "tmp_swap"
        self.emit("rename", p + (f.name,), p + (tmp,))
        self.emit("rename", p + (g.name,), p + (f.name,))
        self.emit("rename", p + (tmp,), p + (g.name,))
        f.name, g.name = g.name, f.name
        return True

    def move(self, st):
        c = self.pick(st, lambda p, s, f, o: editable(f) is None or isinstance(f.t, St))
        if not c:
            return False
        p, s, f, opt = c
        own = {id(x) for _, x, _ in structs(editable(f))} if editable(f) else set()
        targets = [(q, x) for q, x, o in structs(st) if not o and x is not s and id(x) not in own]
        if not targets:
            return False
        q, x = self.rng.choice(targets)
        self.opt_moves |= opt
        new = f.name if all(g.name != f.name for g in x.fields) and self.rng.random() < 0.5 else self.name(x)
        s.fields.remove(f)
        self.dead.append(f.name)
        old, f.name = f.name, new
        x.fields.append(f)
        return self.emit("rename", p + (old,), q + (new,))

    def newstruct(self, st):
        c = self.pick(st, lambda p, s, f, o: editable(f) is None)
        if not c:
            return False
        p, s, f, opt = c
        host = [(q, x) for q, x, o in structs(st) if not o]
        q, x = self.rng.choice(host)
        self.opt_moves |= opt
        n = self.name(x)
        gen._struct_counter[0] += 1
        new = St(f"New{gen._struct_counter[0]}", [])
        s.fields.remove(f)
        x.fields.append(F(n, new))
        new.fields.append(f)
        old = f.name
        if self.rng.random() < 0.5:
            f.name = self.name(new)
        return self.emit("rename", p + (old,), q + (n, f.name))

    def flatten(self, st):
        c = self.pick(st, lambda p, s, f, o: isinstance(f.t, St) and editable(f) is not None)
        if not c:
            return False
        p, s, f, opt = c
        for g in list(f.t.fields):
            new = self.name(s)
            self.emit("rename", p + (f.name, g.name), p + (new,))
            g.name = new
            s.fields.append(g)
        s.fields.remove(f)
        return self.emit("delete", p + (f.name,))

    def delete(self, st):
        c = self.pick(st, lambda p, s, f, o: len(s.fields) > 1)
        if not c:
            return False
        p, s, f, _ = c
        s.fields.remove(f)
        self.dead.append(f.name)
        return self.emit("delete", p + (f.name,))

    def chdef(self, st):
        c = self.pick(st, lambda p, s, f, o: f.has_default and editable(f) is None)
        if not c:
            return False
        p, s, f, _ = c
        old = f.default
        f.default = gen.gen_value(f.t, self.rng, self.o)
        if isinstance(f.t, gen.Un) and self.rng.random() < 0.5:
            # the same values in another class
            for s in f.t.sts:
                o = next(x for x in f.t.sts if x.cls is type(old))
                if s is not o and [(x.name, gen.describe(x.t)) for x in s.fields] == [(x.name, gen.describe(x.t)) for x in o.fields]:
                    f.default = s.cls(**copy.deepcopy(vars(old)))
        return self.emit("chdef", p + (f.name,), self.node(f.t, old), copy.deepcopy(old), copy.deepcopy(f.default))

    def droped(self, st):
        """Remove a default."""
        c = self.pick(st, lambda p, s, f, o: f.has_default and editable(f) is None)
        if not c:
            return False
        p, s, f, _ = c
        old, f.default = f.default, NODEF
        return self.emit("adddef", p + (f.name,), self.node(f.t, old), copy.deepcopy(old))

    def add(self, st):
        p, s, _ = self.rng.choice(list(structs(st)))
        f = F(self.name(s), gen.gen_leaf(self.rng, self.o))
        gen.add_default(self.rng, self.o, f)
        s.fields.append(f)
        return True

    def addreq(self, st):
        p, s, _ = self.rng.choice(list(structs(st)))
        t = gen.gen_type(self.rng, self.o, 1) if self.rng.random() < 0.3 else gen.gen_leaf(self.rng, self.o)
        if isinstance(t, St) or (isinstance(t, Opt) and isinstance(t.t, St)):
            return False
        f = F(self.name(s), t)
        v = gen.gen_value(t, self.rng, self.o)
        s.fields.append(f)
        return self.emit("adddef", p + (f.name,), self.node(t, v), v)

    def map(self, st):
        def ok(p, s, f, o):
            t = f.t.t if isinstance(f.t, Opt) else f.t
            return isinstance(t, (Int, Flt, Boo, Str, Lit, En))
        c = self.pick(st, ok) if self.maps else None
        if not c:
            return False
        p, s, f, _ = c
        opt = isinstance(f.t, Opt)
        t = f.t.t if opt else f.t
        r = self.rng.random()
        conv = None  # python-level conversion of defaults
        if isinstance(t, (Int, Flt)):
            if isinstance(t, Int) and r < 0.25:
                new, fn = STR, str
            elif r < 0.5:
                k = self.rng.choice([2, 3, -1])
                new, fn = t, lambda x: x * k
            elif r < 0.75:
                new, fn = t, lambda x: x + 1
            else:
                new, fn = Lst(t), lambda x: [x]
        elif isinstance(t, Boo):
            new, fn = (t, lambda x: not x) if r < 0.5 else (INT, lambda x: 1 if x else 0)
        elif isinstance(t, Str):
            new, fn = (t, lambda x: x + "!") if r < 0.6 else (Lst(t), lambda x: [x, x])
        elif isinstance(t, Lit):
            m = {v: (v + "_new" if isinstance(v, str) else v + 1000) for v in t.values if self.rng.random() < 0.7}
            new, fn = Lit([m.get(v, v) for v in t.values]), lambda x: m.get(x, x)
        else:
            if t.mixin:
                return False
            m = {v: (f"{v}-2" if isinstance(v, str) else v + 100) for _, v in t.members if self.rng.random() < 0.7}
            new = En(t.name, [(a, m.get(b, b)) for a, b in t.members])
            fn = lambda x: m.get(x, x)  # noqa
            conv = lambda x: new.cls[x.name]  # noqa
        conv = conv or fn
        if opt:
            if r < 0.1 and isinstance(t, (Int, Flt)):
                full, fo, co = new, (lambda x: fn(0) if x is None else fn(x)), (lambda x: conv(0) if x is None else conv(x))
            else:
                full, fo, co = Opt(new), (lambda x: None if x is None else fn(x)), (lambda x: None if x is None else conv(x))
        else:
            full, fo, co = new, fn, conv
        f.t = full
        if f.has_default:
            if self.consistent or self.rng.random() < 0.6 or opt or full is not t:
                f.default = co(f.default)
        if isinstance(full, Flt) and f.has_default:
            f.default = float(f.default)
        return self.emit("map", p + (f.name,), fo)

    def check(self, st):
        c = self.pick(st, lambda p, s, f, o: isinstance(f.t.t if isinstance(f.t, Opt) else f.t, (Int, Str, Lit))) \
            if self.checks else None
        if not c:
            return False
        p, s, f, _ = c
        t = f.t.t if isinstance(f.t, Opt) else f.t
        vals = set(t.values) if isinstance(t, Lit) else {gen.gen_value(t, self.rng, self.o) for _ in range(12)} | {0, 1, ""}
        some = {v for v in vals if self.rng.random() < 0.5}
        if isinstance(f.t, Opt) and self.rng.random() < 0.8:
            some |= {None}
        if self.rng.random() < 0.5:
            return self.emit("check", p + (f.name,), some)
        return self.emit("reject", p + (f.name,), some - {None} or {"zzz"})

    def noop(self, st):
        p, s, _ = self.rng.choice(list(structs(st)))
        used = {f.name for f in s.fields} | set(self.dead)
        n = gen.fresh_name(self.rng, used) + "_q"
        q = p + ((n,) if self.rng.random() < 0.6 else (n, "deep"))
        k = self.rng.choice(["rename", "delete", "map", "check", "reject"])
        if k == "rename":
            m = p + (gen.fresh_name(self.rng, used) + "_w",)
            return self.emit("rename", q, m)
        if k == "delete":
            return self.emit("delete", q)
        if k == "map":
            return self.emit("map", q, boom)
        if k == "check":
            return self.emit("check", q, set())
        return self.emit("reject", q, {None, 0, ""})


class History:
    """A versioned class with all its older versions: specs[i] is the class at version base + i."""

    def __init__(self, rng, o, st, nver, nrules, wrap=None, base=0, focus=None, **kw):
        self.base = base
        st.version = base
        self.specs = [st]
        self.model, self.real = {}, {}
        self.evolver = Evolver(rng, o, **kw)
        for v in range(base, base + nver):
            new, model = self.evolver.evolve(self.specs[-1], rng.choice(nrules), focus)
            new.version = v + 1
            self.specs.append(new)
            if model:
                self.model[v] = model
                rules = [rule(m, rng) for m in model]
                if wrap:
                    rules = [wrap(v, i, r) for i, r in enumerate(rules)]
                self.real[v] = rules
        # versions may be listed in any order
        self.order = list(self.real)
        if rng.random() < 0.5:
            rng.shuffle(self.order)
        for k, s in enumerate(self.specs):
            s.model = self.model
            s.real = self.real
            s.rules = (lambda lim: lambda: {v: self.real[v] for v in self.order if v < lim})(base + k)
            s.history = self.specs[:k + 1]

    @property
    def new(self):
        return self.specs[-1]


def gen_node(t, rng, o, drop=0.0, pdef=0.4, spec=None):
    """Random document node of type t, leaving out fields; versioned dataclasses at a random recorded version."""
    if isinstance(t, Opt):
        return ["n"] if rng.random() < 0.3 else gen_node(t.t, rng, o, drop, pdef)
    if isinstance(t, Lst):
        return ["l", [gen_node(t.t, rng, o, drop, pdef) for _ in range(rng.choice([0, 1, 2]))]]
    if isinstance(t, gen.Tup):
        return ["t", [gen_node(x, rng, o, drop, pdef) for x in t.ts]]
    if isinstance(t, gen.Dct):
        d = {}
        for _ in range(rng.choice([0, 1, 2])):
            k = gen.gen_value(t.k, rng, o)
            d[k] = [gen.to_node(t.k, k), gen_node(t.t, rng, o, drop, pdef)]
        return ["m", list(d.values())]
    if isinstance(t, gen.Un):
        s = rng.choice(t.sts)
        n = gen_node(s, rng, o, drop, pdef)
        if n[0] == "m":
            n = ["r", "", [[a[1], b] for a, b in n[1]]]
        return ["r", s.name, n[2]]
    if isinstance(t, St):
        s = spec or (rng.choice(t.history) if hasattr(t, "history") else t)
        items = []
        for f in s.fields:
            optional = f.has_default or isinstance(f.t, St)
            if rng.random() < (pdef if optional else drop):
                continue
            items.append([f.name, gen_node(f.t, rng, o, drop, pdef)])
        if rng.random() < 0.3:
            rng.shuffle(items)
        if s.version is not None:
            items.insert(rng.choice([0, 0, len(items)]), ["version", ["i", s.version]])
        r = rng.random()
        if not items:
            return ["m", []] if r < 0.5 else ["r", s.name, []]
        if r < 0.1:
            return ["m", [[["s", a], b] for a, b in items]]
        return ["r", s.name if r < 0.6 else "", items]
    return gen.to_node(t, gen.gen_value(t, rng, o), rng)
