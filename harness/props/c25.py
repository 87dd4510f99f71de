"""C25 The schema report says what was found and suggests working rules."""
import copy
import os
import re

import hyperstate
import cli
import evo
import gen
from gen import Boo, Flt, Int, Lst, Opt, Opts, St, Str
from hyperstate.schema import rewrite_rule
from hyperstate.schema.schema_change import (DefaultValueChanged, DefaultValueRemoved, EnumVariantAdded, EnumVariantRemoved, EnumVariantRenamed,
                                             EnumVariantValueChanged, FieldAdded, FieldRenamed, LiteralValuesAdded, LiteralValuesRemoved, TypeChanged)
from hyperstate.schema.schema_checker import SchemaChecker, Severity, schema_evolution_cli
from hyperstate.schema.types import load_schema
from props import c18, c19

LEVEL = "exploration"
RULE = ("one case = two versions of a generated class; the report of check-schema is parsed line by line and compared with the changes the "
        "checker found, and the text of the suggested rules is evaluated as code and put into the class, which then has to load 6 old configs "
        "like the class with the rules of the checker itself; non-trivial = distinct (old class, new class)")
CASES = {"quick": 3000, "thorough": 100000}
REQUIRE = {"wide": 30, "distinct": 2500, "in_two_places": 100, "lines": 6000, "compatible": 300, "incompatible": 1200, "rules_pasted": 2000, "same_version": 700, "bumped": 400,
           "configs_compared": 4000, "mapping_rules": 150, "differences": 4500}
OPTS = Opts(versioned=0.0, weird_numbers=False, max_fields=5)
NAMES = {Severity.INFO: "info", Severity.WARN: "warn", Severity.ERROR: "error"}


def fields(st, path=()):
    """path -> (declared type, default), for every field at every level, also of structs that may be absent or are in a list"""
    out = {}
    for f in st.fields:
        out[path + (f.name,)] = (f.t, f.default)
        t = f.t
        while isinstance(t, (Opt, Lst)):
            t = t.t
        if isinstance(t, St):
            out.update(fields(t, path + (f.name,)))
    return out


def touches(c, path):
    """Whether a change is about the field at a path, or about what contains it or is in it."""
    mine = [tuple(c.field)] + ([tuple(c.new_name)] if isinstance(c, FieldRenamed) else [])
    return any(m[:len(path)] == path[:len(m)] for m in mine)


def differences(old, new):
    """Paths of fields that only one of the classes has, that have another plain type, or another plain default."""
    a, b = fields(old), fields(new)
    for path in sorted(a.keys() ^ b.keys()):
        if path in b and isinstance(b[path][0], St) and not any(p[:len(path)] == path and not isinstance(b[p][0], St) for p in b):
            continue  # a new dataclass without any fields
        yield path, "only one version has it"
    for path in sorted(a.keys() & b.keys()):
        (t, d), (u, e) = a[path], b[path]
        if type(t) is not type(u):
            yield path, "its type is another one"
        elif type(t) in (Int, Flt, Str, Boo):
            if d is not gen.NODEF and (e is gen.NODEF or type(d) is type(e) and d != e):
                yield path, "its default is another one"


def values(x):
    """Everything inside a value."""
    if type(x) in (list, tuple, set, frozenset):
        for y in x:
            yield from values(y)
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from values(k)
            yield from values(v)
    else:
        yield x


def details(c):
    """What the line about a change has to mention besides its field."""
    if isinstance(c, FieldRenamed):
        return [".".join(c.new_name)]
    if isinstance(c, TypeChanged):
        return [c.old, c.new]
    if isinstance(c, DefaultValueChanged):
        return [c.old, c.new]
    if isinstance(c, DefaultValueRemoved):
        return [c.old]
    if isinstance(c, EnumVariantValueChanged):
        return [c.variant, c.old_value, c.new_value]
    if isinstance(c, (EnumVariantAdded, EnumVariantRemoved)):
        return [c.variant]
    if isinstance(c, EnumVariantRenamed):
        return [c.old_variant_name, c.new_variant_name]
    if isinstance(c, (LiteralValuesAdded, LiteralValuesRemoved)):
        return list(c.values)
    return []


def mentions(line, c):
    """Whether the line about a change mentions what has changed, and says the truth about defaults."""
    if isinstance(c, FieldAdded) and ("without default" in line) == c.has_default:
        return False
    if isinstance(c, (TypeChanged, DefaultValueChanged, EnumVariantValueChanged)):
        # the old one before the new one
        a, b = details(c)[-2:]
        if not any(re.search(re.escape(x) + r"['\"`]?\s*(?:to|into|->|=>|,)\s*['\"`]?" + re.escape(y), line)
                   for x in (str(a), repr(a)) for y in (str(b), repr(b))):
            return False
    return all(str(d) in line or repr(d) in line for d in details(c))


def printable(rules):
    """Whether repr of the values in the rules is code: not so for enum members, dataclasses and infinite numbers."""
    for r in rules:
        for k, v in vars(r).items():
            if k in ("map_fn", "rendered"):
                continue
            for x in values(v):
                if not (x is None or type(x) in (bool, int, str) or type(x) is float and x - x == 0):
                    return False
    return True


def assign(spans):
    """A span of its own for every change (bipartite matching): span -> number of the change."""
    taken = {}

    def place(n, seen):
        for x in spans[n]:
            if x not in seen:
                seen.add(x)
                if x not in taken or place(taken[x], seen):
                    taken[x] = n
                    return True
        return False
    for n in range(len(spans)):
        place(n, set())
    return taken


def parse(text, mon, info):
    """(lines about changes, verdict, version warning, version of the rules, rules, version suggested)"""
    m = re.search(r"^Schema (compatible|incompatible)$", text, re.M)
    mon.check(m and len(re.findall(r"^Schema (?:compatible|incompatible)$", text, re.M)) == 1, "the report has no single verdict", **info)
    head, tail = text[:m.start()], text[m.end():]
    b = re.findall(r"bump version to (-?\d+)", tail)
    r = re.search(r"add upgrade rules:\s*\n(.*?\n    \],)", tail, re.S)
    return head, m.group(1) == "compatible", "version identical" in head, r.group(1) if r else None, [int(x) for x in b]


def case(rng, i, mon):
    o = OPTS
    old, new, edits, _ = c19.class_pair(rng, mon, o)
    p = os.path.join(mon.dir, "schema.ron")
    info = dict(edits=edits, old=old, new=new)
    res = cli.run(schema_evolution_cli, ["dump-schema", p], old.cls)
    mon.check(res.code == 0, "schema cannot be dumped", outcome=res, **info)
    chk = mon.call(lambda: SchemaChecker(load_schema(p), new.cls))
    mon.check(chk.ok, "the check fails", outcome=chk, **info)
    chk = chk.value
    changes = list(chk.changes)
    out = cli.run(schema_evolution_cli, ["check-schema", p], new.cls)
    text = c19.plain(out.out)
    info.update(changes=changes, report=text)
    mon.check(out.code == 0, "check-schema fails", outcome=out, **info)
    mon.distinct(gen.describe(old), gen.describe(new))
    head, compatible, same, rules, bumps = parse(text, mon, info)

    # ---- one line for every change
    spans = []
    for c in changes:
        starts = [m.start() for m in re.finditer(r"(?m)^" + NAMES[c.severity()] + r"\s", head)]
        mine = []
        for m in re.finditer(r"(?m): " + re.escape(".".join(c.field)) + r"$", head):
            # the nearest line start before the field at which the line is about this change: values may contain line breaks
            for k in reversed([k for k in starts if k < m.start()]):
                if mentions(head[k:m.end()], c):
                    mine.append((k, m.end()))
                    break
        spans.append(sorted(mine, key=lambda x: x[1] - x[0]))
    taken = assign(spans)
    for n, c in enumerate(changes):
        mon.check(n in taken.values(), "a change is not reported on a line with its severity, field and details", change=c, **info)
        mon.count("lines")
    rest = head
    for k, e in sorted(taken, reverse=True):
        rest = rest[:k] + rest[e + 1:]
    left = [x for x in rest.splitlines() if x.strip() and "version identical" not in x]
    mon.check(not left, "the report lists a change that was not found", left=left, **info)

    # ---- verdict and suggestions
    paths = set(fields(old)) | set(fields(new))
    for c in changes:
        mon.check(tuple(c.field) in paths, "the report names a field that neither version has", change=c, **info)
    for path, what in differences(old, new):
        mon.check(any(touches(c, path) for c in changes), "a field that differs is not mentioned in the report", path=path, what=what, **info)
        mon.count("differences")
    worst = max([c.severity().value for c in changes], default=1)
    bad = worst > 1
    mon.check(compatible == (not bad), "the verdict does not follow from the changes", **info)
    mon.check(same == (bad and old.version == new.version), "the warning about the unchanged version is wrong", **info)
    if bad and old.version == new.version:
        mon.check(bumps == [old.version + 1], "the report does not suggest the next version", suggested=bumps, **info)
        mon.count("same_version")
    else:
        mon.check(not bumps, "the report suggests a version although none is needed", suggested=bumps, **info)
        mon.count("bumped", bad)
    mon.count("incompatible" if bad else "compatible")
    if not bad:
        mon.check(rules is None, "rules are suggested for compatible classes", **info)
        return
    fixes = list(chk.proposed_fixes)
    mon.check((rules is not None) == bool(fixes), "suggested rules are missing or made up", **info)
    if not fixes:
        return
    if not printable(fixes):
        return mon.count("values_without_code")

    # ---- the rules as code
    space = {k: getattr(rewrite_rule, k) for k in dir(rewrite_rule) if isinstance(getattr(rewrite_rule, k), type)}
    try:
        printed = eval("{" + rules + "}", space)
    except Exception as e:
        mon.fail("the suggested rules are not code", error=repr(e), rules=rules, **info)
    mon.check(list(printed) == [old.version], "the rules are suggested for another version", **info)
    printed = printed[old.version]
    mon.check([type(r) for r in printed] == [type(r) for r in fixes], "the printed rules are not the proposed ones", **info)
    for a, b in zip(printed, fixes):
        for k, v in vars(b).items():
            if k not in ("map_fn", "rendered"):
                w = getattr(a, k)
                mon.check(v == w if not isinstance(v, (list, tuple)) else list(v) == list(w), "a printed rule differs from the proposed one",
                          printed=a, proposed=b, **info)
        mon.count("mapping_rules", hasattr(b, "map_fn"))
        mon.count("rules_pasted")
    version = old.version + 1

    def with_rules(rs):
        n = evo.clone(new)
        n.version = version
        n.rules = lambda: {old.version: list(rs)}
        return n.cls
    a, b = with_rules(printed), with_rules(fixes)
    for j in range(6):
        node = gen.to_node(old, gen.gen_value(old, rng, o), rng) if j < 3 else evo.gen_node(old, rng, o, 0.0, rng.choice([0.0, 0.4, 1.0]), spec=old)
        doc = gen.render(node, rng)
        x, y = mon.call(hyperstate.loads, a, doc), mon.call(hyperstate.loads, b, doc)
        mon.check(x.ok == y.ok and (not x.ok or hyperstate.dumps(x.value) == hyperstate.dumps(y.value)),
                  "old configs load differently with the rules as printed", text=doc, printed=x, proposed=y, **info)
        mon.count("configs_compared")
    mon.sample({"edits": [str(e) for e in edits], "report": text})
