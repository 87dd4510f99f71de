"""C23 Help shows every hyperparameter truthfully."""
import dataclasses
import enum
import re

import hyperstate
import cli
import gen
from gen import Opts, St, Opt, Lst, Dct, Tup, Un, Lit, En, Int, Flt, Boo, Str, F
from hyperstate.command import command

LEVEL = "exploration"
RULE = ("one case = a generated config class (documented in several docstring styles, inherited fields, redeclared fields) whose full help is "
        "parsed line by line and compared with the definition, and 12 queries (existing names at every level, misspelt, paths, garbage) whose "
        "printed fields are checked and in which all exactly matching fields must occur; non-trivial = distinct (class, query)")
CASES = {"quick": 2000, "thorough": 80000}
REQUIRE = {"distinct": 15000, "lines": 10000, "defaults": 5000, "falsy_defaults": 350, "docs": 4000, "docs_of_several_lines": 400, "depth2": 4000, "queries": 15000,
           "exact": 9000, "exact_nested": 2000, "query_lines": 20000, "inherited": 2000, "cli": 300, "classes_used_twice": 60, "wide": 80}
OPTS = Opts(versioned=0.1, max_fields=6, docs=False, reuse=0.4)
DOCS = ["How fast to go.", "The number of things", "Uses 'quotes' and \"more\"", "lower = better", "# of layers", "größe", "see a.b.c",
        "learning rate (0.1 to 1.0)", "true or false", "a, b and c", "How many\nof them there are", "First line.\nSecond: line\nthird (line)",
        "The rate\nlr = 0.1"]


def inner(t):
    """Dataclass shown below a field."""
    while isinstance(t, (Opt, Lst)):
        t = t.t
    return t if isinstance(t, St) else None


def typetext(t):
    """Regular expression of the printed type."""
    if isinstance(t, (Int, Flt, Boo, Str)):
        return {Int: "int", Flt: "float", Boo: "bool", Str: "str"}[type(t)]
    if isinstance(t, Opt):
        return r"Optional\[" + typetext(t.t) + r"\]"
    if isinstance(t, Lst):
        return r"List\[" + typetext(t.t) + r"\]"
    if isinstance(t, Dct):
        return r"Dict\[" + typetext(t.k) + r",\s*" + typetext(t.t) + r"\]"
    if isinstance(t, Tup):
        return r"Tuple\[\[?" + r",\s*".join(typetext(x) for x in t.ts) + r"\]?\]"
    if isinstance(t, Un):
        # printed in full where they are nested
        return r"Union\[" + r",\s*".join(typetext(x) for x in t.sts) + r"\]"
    if isinstance(t, Lit):
        return r"\|".join(re.escape(x) for x in sorted(repr(v) for v in t.values))
    if isinstance(t, En):
        return r"\w*\(?[^()]*" + re.escape(t.name) + ".*?" + ".*?".join(
            re.escape(repr(k)) + ".*?" + re.escape(repr(v)) for k, v in t.members) + r"[\]})]*"
    if isinstance(t, St):
        return re.escape(t.name) + r"(?:\(.*?\))?"
    raise AssertionError(t)


def default_texts(f):
    v = f.default
    out = [repr(v)]
    if isinstance(v, enum.Enum):
        out += [repr(v.value), str(v), v.name]
    return out


def plain(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


def check_line(mon, rest, f, info, parse_default=True, need_doc=True):
    """rest: what follows `name:`."""
    rest = rest.strip()
    m = re.match("(?:" + typetext(f.t) + r")(?=$|\s)", rest)
    mon.check(m is not None, "help prints another type than the declared one", field=f.name, want=typetext(f.t), line=rest, **info)
    # types may be followed by anything they contain: take the longest prefix after which default and documentation match
    tails = [rest[m.end():]]
    if isinstance(f.t, (En, St, Un)) or any(isinstance(x, (En, St, Un)) for x in gen.walk_types(f.t)):
        tails = [rest[k:] for k in range(m.end(), len(rest) + 1) if re.fullmatch(typetext(f.t), rest[:k])]
    why = None
    for tail in tails:
        why = tail_problem(tail, f, parse_default, need_doc)
        if why is None:
            break
    mon.check(why is None, why, field=f.name, line=rest, want=f.default if f.has_default else None, doc=f.doc, **info)


def tail_problem(tail, f, parse_default, need_doc):
    tail = tail.strip()
    if f.has_default and parse_default:
        hit = [d for d in default_texts(f) if re.match(r"=\s*" + re.escape(d) + r"(?=$|\s)", tail)]
        if hit:
            tail = re.sub(r"^=\s*", "", tail)[len(hit[0]):].strip()
        elif f.default is not None:
            return "help does not print the declared default"
    if tail.startswith("="):
        return "help prints a default that is not declared" if not f.has_default or parse_default else None
    if f.doc and need_doc:
        return None if re.fullmatch(r"#\s*" + words(f.doc), tail) else "help does not print the documentation of the field"
    return None if not tail or f.doc and re.fullmatch(r"#\s*" + words(f.doc), tail) else "unexpected text in the line of a field"


def words(doc):
    """Regular expression of a documentation that may be broken into lines."""
    return r"\s+(?:#\s*)?".join(re.escape(x) for x in doc.split())


def with_doc(lines, k, f):
    """(line k with the lines that continue the documentation of f, how many there are)"""
    if not f.doc or "\n" not in f.doc or "\n" in lines[k] or re.search(r"#\s*" + words(f.doc) + r"\s*$", lines[k]):
        return lines[k], 1
    n = 1
    for part in f.doc.split("\n")[1:]:
        if k + n >= len(lines) or lines[k + n].strip().lstrip("# ") != part.strip().lstrip("# "):
            break
        n += 1
    return "\n".join(lines[k:k + n]), n


def expected(st, depth=0, path=()):
    for f in st.fields:
        yield depth, path + (f.name,), f
        s = inner(f.t)
        if s is not None:
            yield from expected(s, depth + 1, path + (f.name,))


def listing(mon, st, text, info):
    lines = [x for x in plain(text).split("\n")]
    mon.check(lines[-1] == "", "help does not end with a newline", **info)
    lines = lines[:-1]
    want = list(expected(st))
    k = 0
    for depth, path, f in want:
        mon.check(k < len(lines), "field missing from help", field=path, help=text, **info)
        line, n = with_doc(lines, k, f)
        k += n
        indent = len(line) - len(line.lstrip(" "))
        mon.check(line.lstrip(" ").startswith(f.name + ":"), "help lists another field", field=path, line=line, help=text, **info)
        mon.check(indent == 2 * depth, "field is not nested under its parent", field=path, line=line, help=text, **info)
        check_line(mon, line.lstrip(" ")[len(f.name) + 1:], f, dict(info, help=text))
        mon.count("lines")
        mon.count("depth2", depth > 0)
        mon.count("defaults", f.has_default)
        mon.count("falsy_defaults", f.has_default and f.default is not None and not isinstance(f.default, enum.Enum) and not f.default)
        mon.count("docs", bool(f.doc))
        mon.count("docs_of_several_lines", bool(f.doc) and "\n" in f.doc)
    mon.check(len(lines) == k, "help lists more than the fields", extra=lines[k:][:3], help=text, **info)


def query(mon, st, q, text, info):
    fields = {".".join(p): (f, d) for d, p, f in expected(st)}
    exact = {p for p, (f, _) in fields.items() if f.name == q}
    shown, parent = set(), None
    lines, at = plain(text).split("\n"), 0
    while at < len(lines):
        line = lines[at]
        at += 1
        if not line:
            continue
        indent = len(line) - len(line.lstrip(" "))
        name, sep, rest = line.lstrip(" ").partition(":")
        path = name if not indent else f"{parent}.{name}"
        mon.check(sep and path in fields, "help for a query prints a field that does not exist", line=line, help=text, **info)
        f = fields[path][0]
        line, n = with_doc(lines, at - 1, f)
        at += n - 1
        rest = line.lstrip(" ").partition(":")[2]
        if not indent:
            parent = name
            mon.check(path not in shown, "help for a query prints a field twice", line=line, help=text, **info)
            shown.add(path)
        check_line(mon, rest, f, dict(info, help=text), parse_default=inner(f.t) is None, need_doc=False)
        mon.count("query_lines")
    missing = exact - shown
    mon.check(not missing, "help for a query does not show an exactly matching field", missing=sorted(missing), help=text, **info)
    mon.count("exact", len(exact))
    mon.count("exact_nested", len([p for p in exact if "." in p]))


def docstring(rng, st, fields):
    style = rng.choice(["google", "rest", "numpy", "epy", "attributes"])
    docs = [(f.name, f.doc) for f in fields if f.doc]
    if not docs:
        return rng.choice([None, "", f"Settings of {st.name}."])
    deep = "\n        "
    docs = [(n, d.replace("\n", "\n    " if style in ("rest", "epy", "numpy") else deep)) for n, d in docs]
    lines = [f"Settings of {st.name}.", ""]
    if rng.random() < 0.3:
        lines += ["More text about: things", ""]
    if style == "rest":
        lines += [f":param {n}: {d}" for n, d in docs]
    elif style == "epy":
        lines += [f"@param {n}: {d}" for n, d in docs]
    elif style == "numpy":
        lines += ["Parameters", "----------"]
        for n, d in docs:
            lines += [n, "    " + d]
    else:
        lines += ["Args:" if style == "google" else "Attributes:"] + [f"    {n}: {d}" for n, d in docs]
    return "\n".join(lines)


def document(rng, st):
    """Documentation for a class that has not been created yet."""
    import docstring_parser
    for f in st.fields:
        f.doc = rng.choice(DOCS) if rng.random() < 0.5 else None
    doc = docstring(rng, st, st.fields)
    # only styles the parser understands for these texts
    try:
        got = {p.arg_name: p.description for p in docstring_parser.parse(doc or "").params}
    except Exception:
        got = {"?": None}
    if got != {f.name: f.doc for f in st.fields if f.doc}:
        doc = None
        for f in st.fields:
            f.doc = None
    return doc


class Documented(St):
    """A class with its own docstring, perhaps derived from another one."""
    text = None
    base = None

    @property
    def cls(self):
        if self._cls is None:
            items = []
            for f in self.own:
                if not f.has_default:
                    items.append((f.name, gen.pytype(f.t)))
                elif f.factory or isinstance(f.default, (list, dict)):
                    items.append((f.name, gen.pytype(f.t), dataclasses.field(default_factory=f.fresh_default)))
                else:
                    items.append((f.name, gen.pytype(f.t), dataclasses.field(default=f.default)))
            ns = {"__module__": "generated"}
            if self.text is not None:
                ns["__doc__"] = self.text
            bases = (self.base.cls,) if self.base else ()
            if self.version is not None:
                version = self.version
                ns["version"] = classmethod(lambda c: version)
                if not self.base:
                    bases = (hyperstate.Versioned,)
            self._cls = dataclasses.make_dataclass(self.name, items, bases=bases, namespace=ns)
        return self._cls


def remake(rng, st, mon, top=False):
    """Documents st in place (before its class exists)."""
    if st._cls is not None or isinstance(st, Documented):
        return
    st.__class__ = Documented
    st.own = st.fields
    if len(st.fields) > 1 and rng.random() < 0.35:
        # the first fields come from a base class
        n = rng.randint(1, len(st.fields) - 1)
        base = Documented(st.name + "Base", st.fields[:n], version=st.version)
        base.own = base.fields
        base.text = document(rng, base)
        st.base = base
        st.own = st.fields[n:]
        mon.count("inherited", n)
        redo = [f for f in base.fields if f.has_default or all(not x.has_default for x in st.own)]
        rng.shuffle(redo)
        st.own = list(st.own)
        for f in redo[:rng.choice([0, 0, 1])]:
            g = F(f.name, f.t, gen.gen_value(f.t, rng, OPTS) if f.has_default else gen.NODEF)
            st.own.append(g)
            if not f.has_default:
                st.own.sort(key=lambda x: x.has_default)
            st.fields = [g if x is f else x for x in st.fields]
        tmp = Documented(st.name, st.own)
        st.text = document(rng, tmp)
        for f in st.own:
            old = base.field(f.name)
            if old is not None and f.doc is None:
                f.doc = old.doc
    else:
        st.text = document(rng, st)


def remake_all(rng, t, mon):
    """Leaves first, so that nested classes exist when their parents' defaults are made."""
    for x in list(gen.walk_types(t)):
        if isinstance(x, St):
            remake(rng, x, mon)


def misspell(rng, n):
    k = rng.choice(["drop", "double", "upper", "swap", "prefix", "suffix", "underscore"])
    i = rng.randrange(len(n))
    if k == "drop" and len(n) > 1:
        return n[:i] + n[i + 1:]
    if k == "double":
        return n[:i] + n[i] + n[i:]
    if k == "upper":
        return n.upper()
    if k == "swap" and i + 1 < len(n):
        return n[:i] + n[i + 1] + n[i] + n[i + 2:]
    if k == "prefix":
        return n[:max(1, i)]
    if k == "underscore":
        return n.replace("_", "") if "_" in n else n[:i] + "_" + n[i:]
    return n + "_x"


def case(rng, i, mon):
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2, 3]), nmin=rng.choice([0, 2, 3]), version=rng.choice([None, None, 3]))
    if rng.random() < 0.08:
        # one name at many places
        used = {f.name for f in st.fields} | {"version", "self"}
        n = gen.fresh_name(rng, set())
        for _ in range(rng.randint(5, 9)):
            sub = St(f"Wide{len(used)}", [F(n, rng.choice([gen.INT, gen.FLT, gen.STR]), gen.NODEF)])
            st.fields.insert(0, F(gen.fresh_name(rng, used), sub, gen.NODEF))
            used.add(st.fields[0].name)
        mon.count("wide")
    remake_all(rng, st, mon)
    # the same name at several levels
    want = list(expected(st))
    nested = [id(inner(f.t)) for _, _, f in want if inner(f.t) is not None]
    mon.count("classes_used_twice", len(set(nested)) < len(nested))
    info = dict(type=st, docs=[(".".join(p), f.doc) for _, p, f in want if f.doc])
    res = cli.run(hyperstate.help, [], st.cls)
    mon.count("api_calls")
    mon.check(res.exc is None and res.code == 0, "help fails", outcome=res, **info)
    listing(mon, st, res.out, info)
    names = sorted({f.name for _, _, f in want})
    queries = rng.sample(names, min(len(names), 6))
    queries += [misspell(rng, n) for n in queries[:3]]
    queries += [".".join(p) for _, p, _ in rng.sample(want, min(2, len(want)))]
    queries += [rng.choice(["x", "?", ".", " ", "lr", "[", "日本", "a" * 200, "\\", "None", "0", "%s", "=", "learning_rate", "_", "-h"])]
    for q in queries:
        res = cli.run(hyperstate.help, [], st.cls, q)
        mon.count("api_calls")
        mon.check(res.exc is None and res.code == 0, "help for a query fails", query=q, outcome=res, **info)
        query(mon, st, q, res.out, dict(info, query=q))
        mon.count("queries")
        mon.distinct(gen.describe(st), q)
    if i % 4 == 0:
        # the same through a decorated program
        ran = []
        q = rng.choice(queries + ["", ""])
        if not q.startswith("-"):
            via = cli.run(command(st.cls)(lambda cfg: ran.append(cfg)), ["--hps-info"] + ([q] if q else []))
            direct = cli.run(hyperstate.help, [], st.cls, q)
            mon.check(via.code == 0 and via.exc is None and plain(via.out) == plain(direct.out) and not ran,
                      "asking a program for hyperparameters does not print the help", query=q, outcome=via, ran=ran, **info)
            mon.count("cli")
    mon.sample({"type": gen.describe(st), "queries": queries})
