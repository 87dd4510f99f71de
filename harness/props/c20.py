"""C20 upgrade-config keeps the meaning of every config file."""
import collections
import copy
import os

import hyperstate
import pyron
import cli
import evo
import gen
import sched
from gen import Opts, St, Opt, Lst, Dct, Tup, Un, En
from props import c10, c15

LEVEL = "exploration"
RULE = ("one case = a class with 0-4 older versions (also nested versioned classes) and 1-4 config files at random versions, some of them not "
        "loadable; sequences of upgrade-config calls (dry run, with and without defaults, repeated, several files at once), and after each "
        "call the bytes of every file, the configs they load as, the versions they carry and the rules that ran are compared; "
        "non-trivial = distinct (class, file)")
CASES = {"quick": 3000, "thorough": 60000}
REQUIRE = {"wide": 30, "distinct": 3500, "upgraded": 4500, "old_versions": 1200, "nested_versioned": 300, "unloadable": 700, "dry_runs": 700,
           "again_unchanged": 2500, "with_defaults": 900, "without_defaults": 900, "several_files": 500, "scheduled": 300,
           "fields_written_out": 5000, "defaults_left_out": 1800,
           "plain_defaults_left_out": 1500, "previews": 1500, "previews_nothing": 300}
OPTS = Opts(versioned=0.15, max_fields=4)
LOG = c15.LOG


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError):
        return None


def run(mon, cls, args):
    mon.count("api_calls")
    return cli.run(hyperstate.schema_evolution_cli, args, cls)


def walk_doc(t, v, doc, mon, info, full):
    """Parsed document next to the config it stands for: versions, and whether defaults are written out or left out."""
    if isinstance(t, Opt):
        if v is not None:
            walk_doc(t.t, v, doc, mon, info, full)
    elif isinstance(t, Lst):
        for x, d in zip(v, doc):
            walk_doc(t.t, x, d, mon, info, full)
    elif isinstance(t, Tup):
        for tt, x, d in zip(t.ts, v, doc):
            walk_doc(tt, x, d, mon, info, full)
    elif isinstance(t, Un):
        walk_doc([s for s in t.sts if type(v) is s.cls][0], v, doc, mon, info, full)
    elif isinstance(t, St):
        if not isinstance(doc, dict):
            doc = {}
        if t.version is not None:
            mon.check(doc.get("version") == t.version, "upgraded file does not carry the current version", cls=t.name, **info)
        for f in t.fields:
            x = getattr(v, f.name)
            if full:
                mon.check(f.name in doc, "a field is not written out although defaults are included", field=f.name, cls=t.name, **info)
                mon.count("fields_written_out")
            elif f.name not in doc:
                mon.check(f.has_default, "a field without default is left out", field=f.name, cls=t.name, **info)
                mon.count("defaults_left_out")
            if f.name in doc:
                walk_doc(f.t, x, doc[f.name], mon, info, full)


def schedule(rng, spec, node):
    """Puts schedules on fields of a document of the current version."""
    n = 0
    if node[0] != "r":
        return n
    for it in node[2]:
        f = spec.field(it[0])
        t = f and sched.numeric(f.t)
        if t is not None and it[1][0] in ("i", "f") and rng.random() < 0.5:
            it[1] = ["s", sched.gen_sched(rng, isinstance(t, gen.Int)).text(rng)]
            n += 1
        elif f is not None and isinstance(f.t, St):
            n += schedule(rng, f.t, it[1])
    return n


def spoil(rng, h, o, mon):
    """Bytes that are probably not loadable, or None for a file that does not exist."""
    node = evo.gen_node(h.new, rng, o, drop=0.0, pdef=0.3, spec=rng.choice(h.specs))
    text = gen.render(node, rng)
    k = rng.choice(["garbage", "empty", "cut", "unknown", "type", "noversion", "missing", "latin", "missing_file", "newer", "tail"])
    mon.count("spoiled_" + k)
    if k == "garbage":
        return rng.choice([b"not ron (", b"}{", b"\x00\x01", b"Config(version: 1, lr: )", b"[1, 2]", b"3", b"None", b"()"])
    if k == "empty":
        return b""
    if k == "cut":
        return text.encode()[:rng.randrange(max(1, len(text)))]
    if k == "latin":
        return text.encode() + b' // \xff\xfe caf\xe9 "'
    if k == "tail":
        return text.encode() + rng.choice([b" )", b" garbage", b'"'])
    if k == "missing_file":
        return None
    if node[0] != "r":
        return b"{1: "
    if k == "unknown":
        node[2].append(["no_such_field", ["i", 1]])
    elif k == "type" and len(node[2]) > 1:
        rng.choice([x for x in node[2] if x[0] != "version"])[1] = ["l", [["t", [["n"]]]]]
    elif k == "noversion":
        node[2] = [x for x in node[2] if x[0] != "version"]
    elif k == "newer":
        for x in node[2]:
            if x[0] == "version":
                x[1] = ["i", h.new.version + rng.choice([1, 100])]
    else:
        node[2] = [x for x in node[2] if x[0] == "version"]
    return gen.render(node, rng).encode()


def managed(st, p):
    return hyperstate.StateManager(st.cls, c10.State, lambda c, x: c10.State(), init_path=p)


def follow(mon, st, p, states, info, what):
    """The values a run takes on when started from the file."""
    out = mon.call(lambda: managed(st, p))
    sm = out.value
    res = []
    r = mon.call(lambda: (sm.config, sm.state))
    mon.check(r.ok, f"the {what} file does not load in a run", outcome=r, **info)
    for s in states:
        for k, v in s.items():
            setattr(sm.state, k, v)
        r = mon.call(sm.step)
        mon.check(r.ok, f"a run on the {what} file cannot step", outcome=r, **info)
        res.append(copy.deepcopy(sm.config))
    return res


def shown(out):
    """Lines that the output of a dry run shows as removed and as added."""
    lines = [x for x in out.split("\n") if not x.startswith(("--- ", "+++ ")) and x not in ("---", "+++")]
    return [x[1:] for x in lines if x[:1] == "-"], [x[1:] for x in lines if x[:1] == "+"]


def preview(mon, st, p, before, after, full, info):
    """A dry run on the file as it was must show the lines that the upgrade took out and put in."""
    q = os.path.join(mon.dir, "preview.ron")
    with open(q, "wb") as f:
        f.write(before)
    res = run(mon, st.cls, ["upgrade-config", "--dry-run"] + (["--include-defaults"] if full else []) + [q])
    a, b = before.decode("utf-8").splitlines(), after.decode("utf-8").splitlines()
    os.remove(q)
    if any(x.startswith(("-- ", "++ ")) or x in ("--", "++") for x in a + b):
        return
    minus, plus = shown(res.out)
    mon.check(res.code == 0, "a dry run fails although the upgrade succeeds", outcome=res, **info)
    left = collections.Counter(a)
    left.subtract(minus)
    mon.check(min(left.values(), default=0) >= 0, "a dry run shows removed lines that the file does not have", removed=minus, outcome=res, **info)
    left.update(plus)
    mon.check(+left == collections.Counter(b), "a dry run does not show the lines that the upgrade removes and adds",
              removed=minus, added=plus, outcome=res, **info)
    mon.count("previews")
    mon.count("shown_lines", len(minus) + len(plus))
    mon.count("previews_nothing", a == b)


def case(rng, i, mon):
    o = OPTS
    wide = rng.random() < 0.03
    st = gen.wide_struct(rng, o) if wide else gen.gen_struct(rng, o, rng.choice([1, 2, 2]), nmin=2)
    mon.count("wide", wide)
    hs = c15.add_nested(rng, o, st, {}) if rng.random() < 0.5 else {}
    h = evo.History(rng, o, st, rng.choice([0, 1, 2, 3]), [0, 1, 2, 3], base=rng.choice([0, 0, 1, 4]), checks=rng.random() < 0.3,
                    wrap=lambda v, j, r: c15.Recorder(("root", v, j), r))
    new = h.new
    d = os.path.join(mon.dir, "files")
    os.mkdir(d)
    files, content, scheduled = [], {}, set()
    for j in range(rng.choice([1, 1, 2, 3, 4])):
        p = os.path.join(d, rng.choice([f"c{j}.ron", f"config {j}.ron", f"ünï{j}.ron"]))
        files.append(p)
        if rng.random() < 0.25:
            content[p] = spoil(rng, h, o, mon)
        else:
            spec = rng.choice(h.specs)
            node = evo.gen_node(new, rng, o, drop=0.0, pdef=rng.choice([0.0, 0.2, 0.6]), spec=spec)
            if spec is new and rng.random() < 0.7 and schedule(rng, new, node):
                scheduled.add(p)
            content[p] = gen.render(node, rng).encode()
            mon.distinct(gen.describe(new), content[p])
            if spec is not new:
                mon.count("old_versions")
            mon.count("nested_versioned", len(hs))
        if content[p] is not None:
            with open(p, "wb") as f:
                f.write(content[p])
    want = {}
    for p in files:
        r = mon.call(hyperstate.load, new.cls, p)
        want[p] = r.value if r.ok else None
        mon.count("loadable" if r.ok else "unloadable")
    states = [{x: rng.choice([0, 1, 7, 30, 1000]) if x in ("step", "items") else rng.uniform(-5, 200) for x in sched.XNAMES} for _ in range(3)]
    info = dict(new=new, rules=h.real)
    runs = {p: follow(mon, new, p, states, dict(info, text=content[p]), "original") for p in scheduled if want[p] is not None}
    mon.count("scheduled", len(runs))
    last = dict(content)
    done = {}
    for k in range(rng.choice([2, 3, 4])):
        which = rng.sample(files, rng.randint(1, len(files))) if rng.random() < 0.5 else list(files)
        args = ["upgrade-config"] + which
        full, dry = rng.random() < 0.5, rng.random() < 0.3
        if full:
            args.insert(rng.randint(1, len(args)), "--include-defaults")
        if dry:
            args.insert(rng.randint(1, len(args)), "--dry-run")
        del LOG[:]
        res = run(mon, new.cls, args)
        log = list(LOG)
        mon.count("several_files", len(which) > 1)
        mon.check(sorted(os.listdir(d)) == sorted(os.path.basename(p) for p in files if content[p] is not None),
                  "upgrade-config left or removed files", files=os.listdir(d), args=args, **info)
        bad = [p for p in which if want[p] is None]
        mon.check((res.code != 0) == bool(bad), "upgrade-config does not report files that cannot be loaded" if bad else
                  "upgrade-config fails although every file can be loaded", outcome=res, args=args, files=content, **info)
        ok_until = which.index(bad[0]) if bad else len(which)
        for p in files:
            after = read(p)
            fi = dict(info, args=args, file=os.path.basename(p), original=content[p], before=last[p], after=after)
            if p not in which or dry or want[p] is None:
                mon.check(after == last[p], "a file was changed although it was not to be upgraded" if p not in which else
                          "a dry run changed a file" if dry else "a file that cannot be loaded was changed", **fi)
                mon.count("dry_runs", dry and p in which)
                continue
            if which.index(p) > ok_until and after == last[p]:
                continue  # not reached
            mon.count("upgraded")
            mon.count("with_defaults" if full else "without_defaults")
            del LOG[:]
            out = mon.call(hyperstate.load, new.cls, p)
            mon.check(out.ok, "upgraded file does not load", outcome=out, **fi)
            mon.check(not LOG, "rules run again when the upgraded file is loaded", rules_run=list(LOG), **fi)
            x = gen.diff(want[p], out.value, loose_zero=True)
            mon.check(x is None, "upgraded file loads as another config", diff=x, **fi)
            doc = pyron.loads(after.decode("utf-8"), preserve_class_names=True)
            mon.check(isinstance(doc, dict) and doc.get("version") == new.version, "upgraded file does not carry the current version", **fi)
            if p not in scheduled:
                walk_doc(new, out.value, doc, mon, fi, full)
                if not full:
                    n, named = gen.not_left_out(new, out.value, doc)
                    mon.check(not named, "default values are written out", fields=named, **fi)
                    mon.count("plain_defaults_left_out", n)
            else:
                now = follow(mon, new, p, states, fi, "upgraded")
                for a, b in zip(runs[p], now):
                    x = gen.diff(a, b, loose_zero=True)
                    mon.check(x is None, "a run on the upgraded file takes other values", diff=x, **fi)
            if rng.random() < 0.5:
                preview(mon, new, p, last[p], after, full, fi)
            if done.get(p) == full:
                mon.check(after == last[p], "upgrading a file again changed it", **fi)
                mon.count("again_unchanged")
            else:
                res2 = run(mon, new.cls, ["upgrade-config"] + (["--include-defaults"] if full else []) + [p])
                mon.check(res2.code == 0 and read(p) == after, "upgrading a file again changes it", again=read(p), outcome=res2, **fi)
                mon.count("again_unchanged")
            done[p] = full
            last[p] = after
    mon.sample({"new": gen.describe(new), "rules": repr(h.model), "files": repr(content)})
