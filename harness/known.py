"""
Probes of the recorded genuine defects (known_findings.json): each re-observes one defect on the real code and returns whether it is
still there. They suppress nothing: the generators keep clear of the mechanisms named there, everything else is checked.
"""
import dataclasses
import enum
import os
from typing import List, Optional

import hyperstate
from hyperstate import StateManager
from hyperstate.schema.rewrite_rule import RenameField
from hyperstate.schema.schema_change import FieldRemoved, FieldRenamed, TypeChanged
from hyperstate.schema.schema_checker import SchemaChecker, Severity, schema_evolution_cli
from hyperstate.schema.types import load_schema
from hyperstate.schema.versioned import Versioned


def versioned(name, fields, version=0, rules=None):
    ns = {"version": classmethod(lambda c: version), "upgrade_rules": classmethod(lambda c: rules or {}), "__module__": "known"}
    cls = dataclasses.make_dataclass(name, fields, bases=(Versioned,), namespace=ns)
    cls.__module__ = "known"
    return cls


def plain(name, fields):
    cls = dataclasses.make_dataclass(name, fields)
    cls.__module__ = "known"
    return cls


def check(d, old, new):
    import cli
    p = os.path.join(d, "schema.ron")
    cli.run(schema_evolution_cli, ["dump-schema", p], old)
    return SchemaChecker(load_schema(p), new)


def loads(cls, text):
    try:
        return hyperstate.loads(cls, text)
    except Exception as e:
        return e


# ---- C15
def unversioned_state_manager(d):
    new = versioned("C", [("b", int)], 1, {0: [RenameField(("a",), ("b",))]})
    p = os.path.join(d, "c.ron")
    with open(p, "w") as f:
        f.write("C(b: 3)")
    strict = loads(new, "C(b: 3)")
    sm = StateManager(new, plain("S", [("step", int, 0)]), lambda c, x: None, init_path=p)
    return isinstance(strict, Exception) and sm.config.b == 3


# ---- C16
def rules_inside_lists(d):
    item = plain("Item", [("new", int)])
    new = versioned("C", [("items", List[item])], 1, {0: [RenameField(("items", "old"), ("items", "new"))]})
    return isinstance(loads(new, "C(version: 0, items: [Item(old: 3)])"), Exception)


# ---- C18
def rename_out_of_optional(d):
    tag = plain("Tag", [("layers", int), ("x", int, 1)])
    old = versioned("C", [("tag", Optional[tag]), ("a", int, 0)])
    tag2 = plain("Tag", [("x", int, 1)])
    new = versioned("C", [("tag", Optional[tag2]), ("layers", int), ("a", int, 0)], 1,
                    {0: [RenameField(("tag", "layers"), ("layers",))]})
    chk = check(d, old, new)
    return chk.severity() == Severity.INFO and isinstance(loads(new, "C(version: 0, tag: None)"), Exception)


def added_struct_with_default(d):
    s = plain("S", [("a", int)])
    old = versioned("C", [("x", int)])
    new = versioned("C", [("x", int), ("s", s, dataclasses.field(default_factory=lambda: s(3)))])
    return check(d, old, new).severity() == Severity.ERROR and not isinstance(loads(new, "C(version: 0, x: 1)"), Exception)


# ---- C19
def map_keeps_type(d):
    old = versioned("C", [("x", int)])
    new = versioned("C", [("x", List[int])], 1)
    rules = check(d, old, new).proposed_fixes
    new = versioned("C", [("x", List[int])], 1, {0: rules})
    return any(isinstance(c, TypeChanged) for c in check(d, old, new).changes)


def enum_value_chain(d):
    e = enum.Enum("E", [("A", 1), ("B", 2)])
    e2 = enum.Enum("E", [("A", 2), ("B", 3)])
    old, new = versioned("C", [("e", e)]), versioned("C", [("e", e2)], 1)
    new = versioned("C", [("e", e2)], 1, {0: check(d, old, new).proposed_fixes})
    r = loads(new, "C(version: 0, e: 1)")
    return isinstance(r, Exception) or r.e is not e2.A


def struct_becomes_optional(d):
    s = plain("S", [("a", int), ("b", int, 2)])
    old, new = versioned("C", [("s", s)]), versioned("C", [("s", Optional[s])], 1)
    chk = check(d, old, new)
    return any(isinstance(c, FieldRemoved) and tuple(c.field) == ("s", "a") for c in chk.changes)


def leaf_becomes_struct(d):
    s = plain("S", [("rate", int), ("warmup", int)])
    old, fs = versioned("C", [("rates", int), ("warmup", int)]), [("rates", s)]
    chk = check(d, old, versioned("C", fs, 1))
    r = loads(versioned("C", fs, 1, {0: chk.proposed_fixes}), "C(version: 0, rates: 5, warmup: 7)")
    return len(chk.proposed_fixes) == 2 and (isinstance(r, Exception) or (r.rates.rate, r.rates.warmup) != (5, 7))


def fixes_inside_lists(d):
    e = enum.Enum("E", [("A", 1), ("B", 2)])
    e2 = enum.Enum("E", [("A", 11), ("B", 2)])
    old, new = versioned("C", [("e", List[e])]), versioned("C", [("e", List[e2])], 1)
    chk = check(d, old, new)
    new = versioned("C", [("e", List[e2])], 1, {0: chk.proposed_fixes})
    return bool(chk.proposed_fixes) and isinstance(loads(new, "C(version: 0, e: [1])"), Exception)


def rename_crosses_optional(d):
    tag, tag2 = plain("Tag", [("layers", int), ("x", int, 1)]), plain("Tag", [("x", int, 1)])
    old = versioned("C", [("tag", Optional[tag])])
    fs = [("tag", Optional[tag2]), ("layers", int)]
    chk = check(d, old, versioned("C", fs, 1))
    return any(isinstance(c, FieldRenamed) for c in chk.changes) and isinstance(
        loads(versioned("C", fs, 1, {0: chk.proposed_fixes}), "C(version: 0, tag: None)"), Exception)


def struct_default_lost(d):
    s = plain("S", [("path", str)])
    old = versioned("C", [("layers", s, dataclasses.field(default_factory=lambda: s("a")))])
    fs = [("layer", s, dataclasses.field(default_factory=lambda: s("b")))]
    chk = check(d, old, versioned("C", fs, 1))
    r = loads(versioned("C", fs, 1, {0: chk.proposed_fixes}), "C(version: 0)")
    return not isinstance(r, Exception) and r.layer.path == "b" and chk.severity() < Severity.ERROR


PROBES = {
    "C15": {"unversioned-config-as-current": unversioned_state_manager},
    "C16": {"rules-inside-lists": rules_inside_lists},
    "C18": {"rename-out-of-optional": rename_out_of_optional, "added-struct-with-default-error": added_struct_with_default},
    "C19": {"map-keeps-type": map_keeps_type, "enum-value-chain": enum_value_chain, "struct-becomes-optional": struct_becomes_optional,
            "leaf-becomes-struct": leaf_becomes_struct, "fixes-inside-lists": fixes_inside_lists,
            "rename-crosses-optional": rename_crosses_optional, "struct-default-lost": struct_default_lost},
}
