"""C17 An unchanged class is compatible with its own schema."""
import copy
import dataclasses
import enum
import math
import os
import re

import hyperstate
import cli
import evo
import gen
from gen import Opts, St, Opt, Lst, Dct, Tup, Un, Lit, En, Int, Flt, Boo, Str
from hyperstate.schema import types as t
from hyperstate.schema.schema_checker import SchemaChecker, Severity
from hyperstate.schema.types import load_schema

LEVEL = "exploration"
RULE = ("one case = a generated versioned class whose schema is dumped, read back and compared with the definition, checked against "
        "itself and upgraded; or a class and an edited version of it, checked and upgraded from the old schema file; the schema file is "
        "compared before and after every command; non-trivial = distinct classes")
CASES = {"quick": 2000, "thorough": 80000}
REQUIRE = {"distinct": 1700, "fields_compared": 8000, "defaults_compared": 3500, "self_checks": 1100, "pairs_compatible": 200,
           "pairs_incompatible": 120, "schema_rewritten": 120, "schema_kept": 120, "nested_structs": 1000}
OPTS = Opts(versioned=0.2, docs=True, reuse=0.2)
SELF = 0.6


def norm(v):
    """Value of a default as the schema sees it."""
    if dataclasses.is_dataclass(v):
        return {"": type(v).__name__, **{f.name: norm(getattr(v, f.name)) for f in dataclasses.fields(v)}}
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return {"": type(v).__name__, **{k: norm(x) for k, x in zip(v._fields, v)}}
    if isinstance(v, enum.Enum):
        return norm(v.value)
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    return v


def same(a, b):
    """Defaults agree; structs may have lost their name, numbers beyond the notation may be text."""
    if isinstance(a, dict) and isinstance(b, dict):
        if "" in a and "" in b and a[""] != b[""]:
            return False
        ka, kb = [k for k in a if k != ""], [k for k in b if k != ""]
        if "" in b and "" not in a and not ka and not kb:
            return True
        return len(ka) == len(kb) and all(any(same(x, y) and same(a[x], b[y]) for y in kb) for x in ka)
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and not a and isinstance(b, dict) and set(b) <= {""}:
        return True
    if isinstance(a, str) and isinstance(b, (int, float)) and not isinstance(b, bool):
        if isinstance(b, float):
            return math.isinf(b) and a in ("inf", "-inf") and float(a) == b
        return not -(2 ** 63) <= b < 2 ** 63 and a == str(b)
    if isinstance(a, float) and isinstance(b, float):
        return gen.fbits(a) == gen.fbits(b)
    return type(a) is type(b) and a == b


def compare(mon, spec, s, path, info):
    """Loaded schema node s against the definition."""
    def check(cond, what):
        mon.check(cond, f"schema differs from the class: {what}", path=path, spec=spec, schema=repr(s), **info)
    if isinstance(spec, (Int, Flt, Boo, Str)):
        want = {Int: "int", Flt: "float", Boo: "bool", Str: "str"}[type(spec)]
        check(isinstance(s, t.Primitive) and s.type == want, "type")
    elif isinstance(spec, Lit):
        check(isinstance(s, t.Literal) and sorted(map(repr, s.allowed_values)) == sorted(map(repr, spec.values)), "literal values")
    elif isinstance(spec, En):
        check(isinstance(s, t.Enum) and s.name == spec.name, "enum")
        check([(k, type(v), v) for k, v in s.variants.items()] == [(k, type(v), v) for k, v in spec.members], "enum members")
    elif isinstance(spec, Lst):
        check(isinstance(s, t.List), "type")
        compare(mon, spec.t, s.inner, path + "[]", info)
    elif isinstance(spec, Opt):
        check(isinstance(s, t.Option), "type")
        compare(mon, spec.t, s.type, path + "?", info)
    elif isinstance(spec, Tup):
        check(isinstance(s, t.Tuple) and len(s.inner) == len(spec.ts), "tuple length")
        for i, (a, b) in enumerate(zip(spec.ts, s.inner)):
            compare(mon, a, b, f"{path}[{i}]", info)
    elif isinstance(spec, Dct):
        check(isinstance(s, t.Dict), "type")
        compare(mon, spec.k, s.key, path + "{k}", info)
        compare(mon, spec.t, s.val, path + "{v}", info)
    elif isinstance(spec, Un):
        check(isinstance(s, t.Union) and len(s.types) == len(spec.sts), "union members")
        for a, b in zip(spec.sts, s.types):
            compare(mon, a, b, f"{path}|{a.name}", info)
    elif isinstance(spec, St):
        check(isinstance(s, t.Struct) and s.name == spec.name, "struct name")
        check(s.version == spec.version and type(s.version) is type(spec.version), "version")
        check(list(s.fields) == [f.name for f in spec.fields], "field names")
        mon.count("nested_structs", 1 if path else 0)
        for f in spec.fields:
            x = s.fields[f.name]
            p = f"{path}.{f.name}"
            check(x.name == f.name, "field name")
            mon.count("fields_compared")
            check(x.has_default == f.has_default, f"{p} has_default")
            if f.has_default:
                mon.count("defaults_compared")
                a, b = norm(x.default), norm(f.default)
                mon.check(same(a, b), "schema differs from the class: default value", path=p, want=b, got=a, **info)
            compare(mon, f.t, x.type, p, info)
    else:
        raise AssertionError(spec)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def verdict(mon, res, what, info):
    """True / False from the output of check-schema."""
    text = re.sub(r"\x1b\[[0-9;]*m", "", res.out).lower()
    yes, no = "schema compatible" in text, "schema incompatible" in text
    mon.check(yes != no, f"{what} gives no verdict", output=res, **info)
    return yes


def run(mon, cls, *args):
    mon.count("api_calls")
    return cli.run(hyperstate.schema_evolution_cli, args, cls)


def own(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2, 3]), version=rng.choice([0, 0, 1, 2, 7]), nmin=rng.choice([0, 1, 2]))
    p = os.path.join(mon.dir, rng.choice(["config-schema.ron", "s.ron", "schema with space.ron"]))
    info = dict(type=st)
    res = run(mon, st.cls, "dump-schema", p)
    mon.check(res.code == 0 and os.path.exists(p), "schema cannot be dumped", outcome=res, **info)
    text = read(p)
    info["file"] = text.decode("utf-8")
    out = mon.call(load_schema, p)
    mon.check(out.ok, "dumped schema cannot be loaded", outcome=out, **info)
    compare(mon, st, out.value, "", info)
    chk = mon.call(SchemaChecker, out.value, st.cls)
    mon.check(chk.ok, "class cannot be checked against its own schema", outcome=chk, **info)
    mon.check(list(chk.value.changes) == [], "changes reported for an unchanged class", changes=chk.value.changes, **info)
    mon.check(chk.value.severity() == Severity.INFO and not chk.value.proposed_fixes, "unchanged class reported incompatible",
              fixes=chk.value.proposed_fixes, **info)
    res = run(mon, st.cls, "check-schema", p)
    mon.check(res.code == 0, "check-schema fails", outcome=res, **info)
    mon.check(verdict(mon, res, "check-schema", info), "check-schema reports an unchanged class as incompatible", outcome=res, **info)
    mon.check(read(p) == text, "check-schema modified the schema file", after=read(p), **info)
    res = run(mon, st.cls, "upgrade-schema", p)
    mon.check(res.code == 0, "upgrade-schema fails on an unchanged class", outcome=res, **info)
    mon.check(read(p) == text, "upgrading the schema of an unchanged class changes it", after=read(p), **info)
    mon.count("self_checks")
    mon.distinct(gen.describe(st))
    mon.sample(gen.describe(st))


def pair(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2]), nmin=2)
    h = evo.History(rng, o, st, rng.choice([1, 1, 2, 3]), [0, 1, 1, 2], base=rng.choice([0, 0, 1, 4]), checks=False)
    new, old = h.new, rng.choice(h.specs[:-1])
    forgot = rng.random() < 0.4
    if forgot:
        # rules missing for the last edits, and sometimes the version not bumped either
        lim = rng.choice([old.version, new.version - 1])
        new.rules = lambda: {v: r for v, r in h.real.items() if v < lim}
        if rng.random() < 0.5:
            new.version = lim = max(lim, old.version)
    additive = rng.random() < 0.3
    if additive:
        # same class with optional fields added
        old, new = st, evo.clone(st)
        new.version = st.version = 1
        for _ in range(rng.randint(1, 2)):
            _, s, _ = rng.choice(list(evo.structs(new)))
            f = gen.F(gen.fresh_name(rng, {x.name for x in s.fields}), gen.gen_leaf(rng, o))
            gen.add_default(rng, o, f)
            s.fields.append(f)
    p, q = os.path.join(mon.dir, "old.ron"), os.path.join(mon.dir, "new.ron")
    info = dict(old=old, new=new, rules=None if additive else h.real)
    for c, f in ((old, p), (new, q)):
        res = run(mon, c.cls, "dump-schema", f)
        mon.check(res.code == 0, "schema cannot be dumped", outcome=res, **info)
    before, target = read(p), read(q)
    out = mon.call(lambda: SchemaChecker(load_schema(p), new.cls))
    for k in range(rng.choice([1, 2])):
        res = run(mon, new.cls, "check-schema", p)
        mon.check(read(p) == before, "check-schema modified the schema file", after=read(p), **info)
    up = run(mon, new.cls, "upgrade-schema", p)
    after = read(p)
    if not out.ok:
        mon.check(res.code != 0 and up.code != 0, "the check fails but the commands do not", outcome=out, check=res, upgrade=up, **info)
        mon.check(after == before, "failing upgrade-schema modified the schema file", after=after, **info)
        mon.count("pairs_rejected")
        return
    mon.check(res.code == 0, "check-schema fails", outcome=res, **info)
    ok = out.value.severity() < Severity.WARN
    mon.check(verdict(mon, res, "check-schema", info) == ok, "check-schema and its report disagree", outcome=res, severity=out.value.severity(),
              **info)
    if ok:
        mon.check(up.code == 0 and after == target, "upgrade-schema did not write the current schema although it is compatible",
                  outcome=up, after=after, want=target, **info)
        mon.count("schema_rewritten", 1 if before != target else 0)
        mon.count("pairs_compatible")
        again = run(mon, new.cls, "check-schema", p)
        mon.check(again.code == 0 and verdict(mon, again, "check-schema", info), "the upgraded schema is not compatible with the class",
                  outcome=again, **info)
    else:
        mon.check(after == before, "upgrade-schema modified the schema file despite incompatible changes", outcome=up, after=after, **info)
        mon.count("schema_kept")
        mon.count("pairs_incompatible")
    mon.distinct(gen.describe(old), gen.describe(new))


def case(rng, i, mon):
    (own if i % 5 < 3 else pair)(rng, i, mon)
