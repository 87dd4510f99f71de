"""Overrides: generation, and their meaning on documents."""
import copy
import math

import gen
from gen import St, Opt, Lit, Str, Boo, En, Int, Flt

TRUE, FALSE = ["true", "True", "1", "t", "T"], ["false", "False", "0", "f", "F"]


def paths(st, prefix=()):
    """All (path, field) that can be named: through dataclasses and optional dataclasses."""
    for f in st.fields:
        yield prefix + (f.name,), f
        t = f.t.t if isinstance(f.t, Opt) else f.t
        if isinstance(t, St):
            yield from paths(t, prefix + (f.name,))


def token(rng, t, v):
    """Text of an override value for v of type t, and its document node."""
    if isinstance(t, Str):
        return v, ["s", v]
    if isinstance(t, Boo):
        return rng.choice(TRUE if v else FALSE), ["b", v]
    if isinstance(t, Lit) and isinstance(v, str) and v.isidentifier() and v.lower() not in ("none", "some", "true", "false") \
            and rng.random() < 0.6:
        return v, ["s", v]
    n = gen.to_node(t, v, rng)
    if isinstance(t, Flt) and math.isfinite(v) and rng.random() < 0.2:
        return gen.render_str(repr(v)), ["s", repr(v)]
    if isinstance(t, Int) and abs(v) < 2**53 and rng.random() < 0.15:
        return repr(float(v)), ["f", float(v)]
    return gen.render(n), n


def set_path(st, node, path, new):
    """Document with the named field set; absent structs start from their declared default."""
    k = node[0]
    assert k in ("r", "m")
    if k == "m" and not node[1]:
        node = ["r", "", []]
    elif k == "m":
        node = ["r", "", [[a[1], b] for a, b in node[1]]]
    items = [list(x) for x in node[2]]
    name = path[0]
    idx = next((i for i, (a, _) in enumerate(items) if a == name), None)
    if len(path) == 1:
        sub = new
    else:
        f = st.field(name)
        inner = f.t.t if isinstance(f.t, Opt) else f.t
        if idx is not None:
            sub = items[idx][1]
        elif f.has_default:
            sub = gen.to_node(f.t, f.default)
        else:
            sub = ["m", []]
        if sub == ["n"]:
            sub = ["m", []]
        if sub[0] == "w":  # values that upgrade rules supply for an omitted dataclass
            sub = ["r", inner.name, sub[2]]
        if sub[0] == "m" and not sub[1]:
            sub = ["r", inner.name, []]
        if inner.version is not None:
            names = [a for a, _ in (sub[2] if sub[0] == "r" else [[a[1], b] for a, b in sub[1]])]
            if "version" not in names:
                if sub[0] == "m":
                    sub = ["r", "", [[a[1], b] for a, b in sub[1]]]
                sub = ["r", sub[1], [["version", ["i", inner.version]]] + sub[2]]
            else:
                sub = to_current(inner, sub)
                if sub is None:
                    raise Rejected
        sub = set_path(inner, sub, path[1:], new)
    if idx is None:
        items.append([name, sub])
    else:
        items[idx] = [name, sub]
    return ["r", node[1] or st.name, items]


class Rejected(Exception):
    """The rules of an older version reject the document."""


def to_current(st, node):
    """Document of a versioned class rewritten to its current version; None if a rule rejects it."""
    import evo
    if node[0] == "m":
        node = ["r", "", [[a[1], b] for a, b in node[1]]]
    v = dict((a, b) for a, b in node[2])["version"][1]
    if v == st.version or not hasattr(st, "model"):
        return node
    up = evo.upgrade(["r", node[1], [[a, b] for a, b in node[2] if a != "version"]], st.model, v, st.version)
    if up is None:
        return None
    return ["r", up[1], [["version", ["i", st.version]]] + up[2]]


def gen_overrides(rng, st, o, n, whole_structs=True):
    """[(text, path, node)]"""
    ps = list(paths(st))
    out = []
    for _ in range(n):
        if not ps:
            break
        path, f = rng.choice(ps)
        leaf = [p for p in ps if not isinstance(p[1].t, St)]
        if isinstance(f.t, St) and (not whole_structs or rng.random() < 0.6) and leaf:
            path, f = rng.choice(leaf)
        if out and rng.random() < 0.15:
            path = rng.choice(out)[1]
            f = dict(ps)[path]
        v = gen.gen_value(f.t, rng, o)
        text, node = token(rng, f.t, v)
        out.append((".".join(path) + "=" + text, path, node))
    return out


def apply(st, node, ovs):
    if node == ["m", []]:
        node = ["r", st.name, [] if st.version is None else [["version", ["i", st.version]]]]
    for _, path, new in ovs:
        node = set_path(st, node, path, copy.deepcopy(new))
    return node
