"""C15 Upgrades apply each version's rules once, in order."""
import copy
import dataclasses
import os
import zlib
from collections import Counter

import known
import hyperstate
import pyron
import evo
import gen
from gen import Opts, St, Opt, Lst, Dct, Un, F, STR
from hyperstate.schema.rewrite_rule import (AddDefault, DeleteField, MapFieldValue, RenameField,
                                            RewriteRule)
from props.c03 import scramble, shares_default_objects

LEVEL = "exploration"
PROBES = known.PROBES["C15"]
RULE = ("one case = a class with 1-4 older versions (also nested versioned classes with their own histories), recording rules, and "
        "6 documents at random versions loaded in an interleaved order, or a family of versioned classes derived from each other; monitors: log of rule applications, reference upgrade, "
        "one-version-at-a-time upgrade, repeated loads around mutation, versions in dumps; non-trivial = distinct (class, document)")
CASES = {"quick": 1500, "thorough": 50000}
REQUIRE = {"distinct": 3500, "rules_applied": 6000, "nested_rules_applied": 500, "stepwise": 300, "current_version": 300,
           "repeat": 1500, "dump_versions": 1500, "nested_versions_dumped": 200,
           "family_docs": 600, "family_rules": 800, "family_wrapped": 60}
OPTS = Opts(versioned=0.0, max_fields=4, weird_numbers=False)
LOG = []


class Recorder(RewriteRule):
    def __init__(self, tag, inner):
        self.tag, self.inner = tag, inner

    def apply(self, state_dict):
        LOG.append(self.tag)
        if zlib.crc32(repr(self.tag).encode()) % 3 == 0 and isinstance(state_dict, dict):
            # rules may return another document than the one they are given
            return self.inner.apply(copy.deepcopy(state_dict))
        return self.inner.apply(state_dict)

    def apply_to_schema(self, schema):
        self.inner.apply_to_schema(schema)


def tags_from(name, h, v):
    return [(name, k, i) for k in range(v, h.new.version) for i in range(len(h.real.get(k, [])))]


def instances(t, n, out):
    """(St, version or None) of versioned instances in a document node of type t (current layout)."""
    if isinstance(t, Opt):
        if n[0] != "n":
            instances(t.t, n, out)
    elif isinstance(t, Lst):
        for x in n[1]:
            instances(t.t, x, out)
    elif isinstance(t, Dct):
        for _, x in n[1]:
            instances(t.t, x, out)
    elif isinstance(t, gen.Tup):
        for tt, x in zip(t.ts, n[1]):
            instances(tt, x, out)
    elif isinstance(t, Un):
        for s in t.sts:
            if s.name == n[1]:
                instances(s, n, out)
    elif isinstance(t, St):
        items = n[2] if n[0] == "r" else [[a[1], b] for a, b in n[1]]
        d = dict((a, b) for a, b in items)
        s = t
        if t.version is not None and "version" in d:
            out.append((t, d["version"][1]))
            for x in getattr(t, "history", []):
                if x.version == d["version"][1]:
                    s = x
        for f in s.fields:
            if f.name in d:
                instances(f.t, d[f.name], out)


def dumped_versions(t, v, doc, mon, info):
    """Walk a parsed dump next to the object."""
    if isinstance(t, Opt):
        if v is not None:
            dumped_versions(t.t, v, doc, mon, info)
    elif isinstance(t, (Lst, gen.Tup)):
        for i, x in enumerate(v):
            dumped_versions(t.t if isinstance(t, Lst) else t.ts[i], x, doc[i], mon, info)
    elif isinstance(t, Un):
        for s in t.sts:
            if type(v) is s.cls:
                dumped_versions(s, v, doc, mon, info)
    elif isinstance(t, St):
        if isinstance(doc, tuple) and not doc:
            doc = {}
        if t.version is not None:
            mon.check(doc.get("version") == t.version, "dump does not carry the current version", cls=t.name, **info)
            mon.check("version" not in vars(v) and callable(v.version), "version appears as a field value", **info)
            mon.count("dump_versions")
            if t is not info["new"]:
                mon.count("nested_versions_dumped")
        else:
            mon.check("version" not in doc, "dump of an unversioned class carries a version", cls=t.name, **info)
        for f in t.fields:
            dumped_versions(f.t, getattr(v, f.name), doc[f.name], mon, info)


def add_nested(rng, o, st, hs):
    used = {f.name for f in st.fields} | {"version", "self"}
    for k in range(rng.choice([0, 0, 1, 1, 2])):
        base = gen.gen_struct(rng, o, rng.choice([0, 1]))
        name = f"n{k}"
        h = evo.History(rng, o, base, rng.choice([1, 2]), [0, 1, 2], checks=False, base=rng.choice([0, 0, 1, 3]),
                        wrap=lambda v, i, r, name=name: Recorder((name, v, i), r))
        hs[id(h.new)] = (name, h)
        t = h.new
        r = rng.random()
        if r < 0.2:
            t = Opt(t)
        elif r < 0.4:
            t = Lst(t)
        elif r < 0.5:
            t = Dct(STR, t)
        elif r < 0.65:
            t = Un([t, gen.gen_struct(rng, o, 0)])
        st.fields.insert(0, F(gen.fresh_name(rng, used), t))
    return hs


# ------------------------------------------------------------------- versioned classes derived from versioned classes
class Fam:
    """A class of ints (possibly derived from another one) with its version, own fields and, unless inherited, rules."""

    def __init__(self, rng, name, parent, ids):
        self.name, self.parent = name, parent
        self.own = [f"f{next(ids)}" for _ in range(rng.choice([0, 1, 1, 2]) if parent else rng.choice([1, 2, 3]))]
        self.fields = (parent.fields if parent else []) + self.own
        # rules are found going backwards from the final fields
        self.mode = "own" if parent is None else rng.choice(["own", "own", "own", "inherit", "super"])
        low = parent.version if parent and self.mode != "own" else 0
        self.own_version = parent is None or rng.random() < 0.8
        self.version = max(low, rng.choice([1, 2, 2, 3, 4])) if self.own_version else parent.version
        self.model = {}
        cur = set(self.fields)
        steps = range(self.version)
        if self.mode != "own":
            steps = range(parent.version, self.version) if self.mode == "super" else []
        for k in reversed(steps):
            rules = []
            for _ in range(rng.choice([0, 1, 1, 2, 2])):
                op = rng.choice(["rename", "map", "map", "delete", "adddef"])
                if op == "delete" or not cur:
                    f = f"x{next(ids)}"
                    rules.append(("delete", f))
                    cur = cur | {f}
                    continue
                f = rng.choice(sorted(cur))
                if op == "rename":
                    g = f"o{next(ids)}"
                    rules.append(("rename", g, f))
                    cur = cur - {f} | {g}
                elif op == "map":
                    rules.append(("map", f, rng.choice([2, 3, -1]), rng.randint(-5, 5)))
                else:
                    rules.append(("adddef", f, rng.randint(-100, 100)))
                    cur = cur - {f}
            self.model[k] = rules[::-1]
        if self.mode != "own":
            self.model = {**parent.model, **self.model}
        ns = {"__annotations__": {f: int for f in self.own}}
        fam = self

        def real(k, rules, who):
            out = []
            for j, m in enumerate(rules):
                r = {"rename": lambda: RenameField((m[1],), (m[2],)), "delete": lambda: DeleteField((m[1],)),
                     "map": lambda: MapFieldValue((m[1],), lambda x, a=m[2], b=m[3]: a * x + b),
                     "adddef": lambda: AddDefault((m[1],), m[2])}[m[0]]()
                out.append(Recorder((who, k, j), r))
            return out
        mine = {k: real(k, r, name) for k, r in self.model.items() if self.mode == "own" or k in steps}
        self.owner = {k: name if k in mine else parent.owner[k] for k in self.model}
        if self.own_version:
            ns["version"] = classmethod(lambda cls: fam.version)
        if rng.random() < 0.2:
            ns["minimum_version"] = classmethod(lambda cls, m=rng.randint(0, self.version): m)  # rules run for older documents, too
        if self.mode == "own":
            ns["upgrade_rules"] = classmethod(lambda cls: mine)
        elif self.mode == "super":
            ns["upgrade_rules"] = classmethod(lambda cls: {**parent.cls.upgrade_rules(), **mine})
        self.cls = dataclasses.dataclass(type(name, (parent.cls if parent else hyperstate.Versioned,), ns))

    def fields_at(self, v):
        """Fields a document of version v may have: walk the rules backwards."""
        cur, optional = set(self.fields), set()
        for k in range(self.version - 1, v - 1, -1):
            for m in reversed(self.model.get(k, [])):
                if m[0] == "rename" and m[2] in cur:
                    cur = cur - {m[2]} | {m[1]}
                    if m[2] in optional:
                        optional = optional - {m[2]} | {m[1]}
                elif m[0] == "delete":
                    cur = cur | {m[1]}
                    optional = optional | {m[1]}
                elif m[0] == "adddef":
                    optional = optional | {m[1]}
        return cur, optional

    def upgrade(self, doc, v):
        doc, log = dict(doc), []
        for k in range(v, self.version):
            for j, m in enumerate(self.model.get(k, [])):
                log.append((self.owner[k], k, j))
                if m[0] == "rename" and m[1] in doc:
                    doc[m[2]] = doc.pop(m[1])
                elif m[0] == "delete":
                    doc.pop(m[1], None)
                elif m[0] == "map" and m[1] in doc:
                    doc[m[1]] = m[2] * doc[m[1]] + m[3]
                elif m[0] == "adddef":
                    doc.setdefault(m[1], m[2])
        return doc, log

    def document(self, rng):
        v = rng.randint(0, self.version)
        cur, optional = self.fields_at(v)
        doc = {f: rng.randint(-1000, 1000) for f in sorted(cur) if f not in optional or rng.random() < 0.5}
        return v, doc

    def text(self, v, doc):
        return f"{self.name}(version: {v}, " + ", ".join(f"{f}: {x}" for f, x in doc.items()) + ")"


def family_case(rng, mon):
    ids = iter(range(1000))
    fams = [Fam(rng, "Fa", None, ids)]
    for n in range(rng.choice([1, 2, 3])):
        fams.append(Fam(rng, "F" + "bcd"[n], rng.choice(fams), ids))
    wrap = dataclasses.make_dataclass("Wrap", [(f"m{n}", f.cls) for n, f in enumerate(fams)])
    info = dict(family=[(f.name, f.parent and f.parent.name, f.mode, f.version, f.fields, f.model) for f in fams])

    def expect(f, got, doc, v, **kw):
        want, _ = f.upgrade(doc, v)
        mon.check(type(got) is f.cls and vars(got) == want and all(type(x) is int for x in vars(got).values()),
                  "upgrade of a class in a family of versioned classes does not follow its own rules",
                  cls=f.name, version=v, document=doc, expected=want, got=vars(got), **kw)

    seen = []
    for _ in range(rng.choice([4, 6, 8])):
        if rng.random() < 0.2:
            docs = [f.document(rng) for f in fams]
            text = "Wrap(" + ", ".join(f"m{n}: {f.text(*d)}" for n, (f, d) in enumerate(zip(fams, docs))) + ")"
            del LOG[:]
            out = mon.call(hyperstate.loads, wrap, text)
            log = list(LOG)
            mon.check(out.ok, "document with several classes of a family rejected", text=text, outcome=out, **info)
            for n, (f, (v, d)) in enumerate(zip(fams, docs)):
                expect(f, getattr(out.value, f"m{n}"), d, v, text=text, **info)
            want = [t for f, (v, d) in zip(fams, docs) for t in f.upgrade(d, v)[1]]
            mon.check(sorted(log) == sorted(want), "rules of several classes of a family not applied exactly once",
                      expected=want, log=log, text=text, **info)
            mon.count("family_wrapped")
        else:
            f = rng.choice(fams)
            v, d = rng.choice([x for x in seen if x[0] is f] or [(f,) + f.document(rng)])[1:] if rng.random() < 0.3 \
                else f.document(rng)
            seen.append((f, v, d))
            text = f.text(v, d)
            want, wlog = f.upgrade(d, v)
            del LOG[:]
            out = mon.call(hyperstate.loads, f.cls, text)
            log = list(LOG)
            mon.distinct(repr(info), text)
            mon.check(out.ok, "document of a class in a family of versioned classes rejected", cls=f.name, text=text,
                      outcome=out, **info)
            expect(f, out.value, d, v, **info)
            mon.check(log == wlog, "rules applied differ from the ones of the class", cls=f.name, expected=wlog, log=log,
                      text=text, **info)
            mon.count("family_rules", len(log))
            dumped = mon.call(hyperstate.dumps, out.value)
            mon.check(dumped.ok, "dump failed", outcome=dumped, **info)
            doc = pyron.loads(dumped.value)
            mon.check(doc.get("version") == f.version, "dump does not carry the version of the object's class",
                      cls=f.name, dump=dumped.value, **info)
            back = mon.call(hyperstate.loads, f.cls, dumped.value)
            mon.check(back.ok, "dump does not load", dump=dumped.value, outcome=back, **info)
            expect(f, back.value, want, f.version, dump=dumped.value, **info)
        mon.count("family_docs")


def case(rng, i, mon):
    if rng.random() < 0.12:
        return family_case(rng, mon)
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 1, 2]), nmin=2)
    hs = add_nested(rng, o, st, {})
    consistent = rng.random() < 0.5
    h = evo.History(rng, o, st, rng.choice([1, 2, 3, 4]), [0, 1, 1, 2, 3], base=rng.choice([0, 0, 0, 1, 2, 5]),
                    consistent=consistent, checks=not consistent, wrap=lambda v, i, r: Recorder(("root", v, i), r))
    done = []
    for j in range(6):
        spec = rng.choice(h.specs)
        node = evo.gen_node(h.new, rng, o, drop=rng.choice([0, 0, 0, 0.05]), pdef=rng.choice([0.2, 0.5]), spec=spec)
        text = gen.render(node, rng)
        status, want = gen.ref_load(h.new, node)
        del LOG[:]
        via = rng.choice(["loads", "loads", "load", "manager"])
        if via == "loads":
            out = mon.call(hyperstate.loads, h.new.cls, text)
        else:
            p = os.path.join(mon.dir, f"d{j}.ron")
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(text)
            if via == "load":
                out = mon.call(hyperstate.load, h.new.cls, p)
            else:
                sm = hyperstate.StateManager(h.new.cls, h.new.cls, lambda c, x: c, init_path=p)
                out = mon.call(lambda: sm.config)
                n = len(LOG)
                if out.ok:
                    sm.config
                    mon.check(len(LOG) == n, "reading the config again applied rules again", rules=h.model, text=text)
        log = list(LOG)
        info = dict(new=h.new, rules=h.real, text=text, outcome=out, log=log, via=via)
        mon.distinct(gen.describe(h.new), text)
        # exactly once, in order, root and nested
        root = [t for t in log if t[0] == "root"]
        exp = tags_from("root", h, spec.version)
        if out.ok:
            mon.check(root == exp, "rules applied differ from the ones registered for the versions in between",
                      expected=exp, **info)
            inst = []
            # layout of the document: walk with the class of its version
            instances(spec, node, inst)
            for sid, (name, nh) in hs.items():
                seqs = [tags_from(name, nh, v) for t, v in inst if t is nh.new]
                got = [t for t in log if t[0] == name]
                if spec.version != h.new.version:
                    # rules of the outer class may move, delete or default nested documents
                    full = tags_from(name, nh, nh.new.history[0].version)
                    ok = all(t in full for t in got)
                    mon.check(ok, "unregistered rule applied", **info)
                    continue
                parts, cur = [], []
                last = tags_from(name, nh, nh.new.history[0].version)
                for t in got:
                    cur.append(t)
                    if t == last[-1]:
                        parts.append(cur)
                        cur = []
                if cur:
                    parts.append(cur)
                mon.check(sorted(parts) == sorted(s for s in seqs if s),
                          "rules of a nested versioned class were not applied exactly once in order",
                          expected=seqs, **info)
                mon.count("nested_rules_applied", len(got))
            if spec.version == h.new.version:
                mon.count("current_version")
            mon.count("rules_applied", len(root))
        else:
            mon.check(root == exp[:len(root)], "rules applied out of order before the document was rejected",
                      expected=exp, **info)
        if status == gen.OK:
            mon.check(out.ok, "document rejected", **info)
            d = gen.diff(want, out.value)
            mon.check(d is None, "upgraded config differs from applying each version's rules once in order", diff=d, **info)
            dumped = mon.call(hyperstate.dumps, out.value)
            mon.check(dumped.ok, "upgraded config cannot be dumped", **info)
            dumped_versions(h.new, out.value, pyron.loads(dumped.value, preserve_class_names=True), mon,
                            dict(new=h.new, dump=dumped.value))
            back = mon.call(hyperstate.loads, h.new.cls, dumped.value)
            mon.check(back.ok and gen.diff(want, back.value) is None, "dumped upgraded config is upgraded again",
                      dump=dumped.value, **info)
            done.append((node, text, want, out.value))
        elif status == gen.REJ:
            mon.check(not out.ok, "incomplete or rejected document accepted", **info)
        # upgrading one version at a time
        if status == gen.OK and consistent and spec.version < h.new.version:
            cur, rnode, ok = text, node, True
            for s in h.specs:
                if s.version <= spec.version:
                    continue
                rs, rv = gen.ref_load(s, rnode)
                if rs != gen.OK:
                    ok = False
                    break
                step = mon.call(hyperstate.loads, s.cls, cur)
                mon.check(step.ok and gen.diff(rv, step.value) is None, "intermediate upgrade differs from the rules",
                          to=s, expected=rv, outcome=step, rules=h.real, text=cur)
                rnode = gen.to_node(s, rv)
                cur = mon.call(hyperstate.dumps, step.value).value
            if ok and gen.diff(rv, want) is None:
                mon.check(gen.diff(step.value, out.value) is None,
                          "upgrading one version at a time gives another config", **info)
                mon.count("stepwise")
            else:
                mon.count("stepwise_incomparable")
    # independent of what was loaded before and of what happens to loaded configs
    safe = not shares_default_objects(h.new)
    for node, text, want, obj in reversed(done):
        if safe:
            scramble(obj)
    for node, text, want, obj in rng.sample(done, min(3, len(done))):
        out = mon.call(hyperstate.loads, h.new.cls, text)
        mon.check(out.ok and gen.diff(want, out.value) is None, "the result of an upgrade depends on earlier loads",
                  rules=h.real, text=text, outcome=out)
        mon.count("repeat")
        if safe:
            scramble(out.value)
    mon.sample({"new": gen.describe(h.new), "rules": repr(h.model), "text": text})
