"""C14 Loading never executes stored code without opt-in."""
import builtins
import copy
import dataclasses
import os
import pickle
import struct
import subprocess
import sys
from enum import Enum
from typing import Dict, List, Literal, Optional, Union

import msgpack
import numpy as np

import core
import hyperstate
from hyperstate import Lazy, Serializable, StateManager, Versioned, blob
from hyperstate.schema.rewrite_rule import RenameField

LEVEL = "exploration"
RULE = ("one case = a checkpoint whose config, state and blob files are replaced by generated hostile content (pickles, code in "
        "strings, python-object arrays, extension types, unknown markers, legacy pickled fields), loaded and read through every entry "
        "point with the opt-in variable unset or set; monitors: canary payloads, unpickler frames, audit events for process, "
        "import and foreign-function activity; non-trivial = distinct (hostile file, entry point)")
CASES = {"quick": 8000, "thorough": 60000}
REQUIRE = {"distinct": 2500, "hostile_documents_loaded": 600, "legacy_refused": 1000, "legacy_allowed": 800, "hostile_documents": 1200, "hostile_blobs": 800,
           "object_arrays": 100, "extensions": 80, "other_variables": 500, "frames_seen": 1000, "canaries_armed": 3000, "self_test": 8}
VAR = "UNSAFE_DESERIALIZE_PICKLE"
FIRED = []
EVENTS = []
FRAMES = [0]
PICKLED = []
WATCH = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "socket.connect", "ctypes.dlopen",
         "pickle.find_class")
ACTIVE = [False]
EXT = [False]


def fire(*a):
    FIRED.append(a)
    return 4711


class Canary:
    """Runs code when it is unpickled."""

    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        return fire, (self.tag,)


def profile(frame, event, arg):
    if event == "call":
        FRAMES[0] += 1
        co = frame.f_code
        fn = co.co_filename.replace("\\", "/")
        if (fn.endswith("/pickle.py") or fn.endswith("/_pickle.py") or fn.endswith("/dill.py") or "cloudpickle" in fn or
                fn.endswith("/shelve.py")) and "load" in co.co_name:
            PICKLED.append(f"{fn}:{co.co_name}")


def audit(event, args):
    if ACTIVE[0] and (event in WATCH):
        EVENTS.append((event, repr(args)[:200]))


HOOKED = [False]


def setup(mon):
    if not HOOKED[0]:
        HOOKED[0] = True
        sys.addaudithook(audit)
        builtins.hsv_fire = fire
    # the monitors see what they are meant to see
    reset()
    watched(lambda: pickle.loads(pickle.dumps(Canary("self-test"))))
    if not (FIRED and PICKLED and FRAMES[0]):
        raise RuntimeError(f"monitors are blind: {FIRED} {PICKLED} {FRAMES}")
    mon.count("self_test")
    os.environ.pop(VAR, None)


def reset():
    del FIRED[:], EVENTS[:], PICKLED[:]


def watched(fn):
    old = sys.getprofile()
    sys.setprofile(profile)
    ACTIVE[0] = True
    try:
        return fn()
    finally:
        ACTIVE[0] = False
        sys.setprofile(old)


class Color(Enum):
    RED = "red"
    BLUE = "blue"


@dataclasses.dataclass
class A:
    x: int = 1


@dataclasses.dataclass
class B:
    y: str = "b"


@dataclasses.dataclass
class Inner(Versioned):
    s: str = "inner"
    o: Optional[float] = None

    @classmethod
    def version(cls):
        return 2

    @classmethod
    def upgrade_rules(cls):
        return {1: [RenameField(("s0",), ("s",))]}


@dataclasses.dataclass
class Config(Versioned):
    i: int = 1
    f: float = 0.5
    s: str = "text"
    b: bool = False
    c: Color = Color.RED
    lit: Literal["p", "q"] = "p"
    o: Optional[str] = None
    l: List[str] = dataclasses.field(default_factory=list)
    d: Dict[str, str] = dataclasses.field(default_factory=dict)
    u: Union[A, B] = dataclasses.field(default_factory=A)
    n: Inner = dataclasses.field(default_factory=Inner)
    li: List[A] = dataclasses.field(default_factory=list)

    @classmethod
    def version(cls):
        return 1

    @classmethod
    def upgrade_rules(cls):
        return {0: [RenameField(("text",), ("s",))]}


class P(Serializable):
    def __init__(self, payload):
        self.payload = payload

    def serialize(self):
        return self.payload

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict)


class Q(P):
    pass


class Plain:
    pass


PM = blob(Plain, P)


@dataclasses.dataclass
class State(Lazy):
    step: int
    params: P
    opt: Q
    mix: PM
    maybe: Optional[P]
    note: str = "note"
    lr: float = 0.1


SER = {"params": P, "opt": Q, "mix": PM, "maybe": P}
CODE = ["hsv_fire('x')", "__import__('builtins').hsv_fire('x')", "eval(\"hsv_fire('x')\")", "exec(\"hsv_fire('x')\")",
        "builtins.hsv_fire(1)", "!!python/object/apply:builtins.hsv_fire ['x']", "!!python/object/new:builtins.hsv_fire [1]",
        "[hsv_fire(1)]", "{hsv_fire(1): 1}", "lambda: hsv_fire(1)", "{0.__class__}", "%(hsv_fire)s", "${hsv_fire(1)}", "`hsv_fire(1)`",
        "$(hsv_fire 1)", "1 if hsv_fire(1) else 0", "cbuiltins\nhsv_fire\n(S'x'\ntR.", "__class__", "hsv_fire(1)@step", "@hsv_fire(1)",
        "step: 0.1@0 lin hsv_fire(1)@5", "step: hsv_fire(1)@0 lin 1@5", "hsv_fire(1): 1@0 lin 2@5", "hsv_fire(1)()", "<BLOB>",
        "<blob:pickle>", "<blob:msgpack>", "<blob:code>", "f\"{hsv_fire(1)}\"", "data:;base64,", "{{hsv_fire(1)}}"]


def pickles(rng):
    c = Canary("stored")
    v = rng.choice([c, {"a": c}, [1, c], (c,), {"state": {"w": [c]}}])
    return pickle.dumps(v, protocol=rng.randrange(0, pickle.HIGHEST_PROTOCOL + 1))


def code_str(rng):
    r = rng.random()
    if r < 0.8:
        return rng.choice(CODE)
    if r < 0.9:
        return pickles(rng).decode("latin-1")
    import base64
    return base64.b64encode(pickles(rng)).decode()


def q(s):
    import gen
    return gen.render_str(s)


def hostile_node(rng, depth=2):
    """RON text of arbitrary shape carrying code."""
    r = rng.random()
    if depth <= 0 or r < 0.4:
        return rng.choice([q(code_str(rng)), q(code_str(rng)), "1", "true", "None", "()", "hsv_fire(1)", "os.system(\"true\")", "Canary()",
                           "__import__(\"os\")", "Canary(tag: \"x\")", "eval(\"hsv_fire(1)\")"])
    if r < 0.6:
        return "[" + ", ".join(hostile_node(rng, depth - 1) for _ in range(rng.randint(0, 3))) + "]"
    if r < 0.8:
        return "{" + ", ".join(f"{q(code_str(rng))}: {hostile_node(rng, depth - 1)}" for _ in range(rng.randint(0, 3))) + "}"
    name = rng.choice(["Canary", "hsv_fire", "eval", "exec", "__import__", "A", "B", "P", "Popen", "Config", "State", "__class__", ""])
    fs = ", ".join(f"{rng.choice(['x', 'y', 's', '__class__', '__init__', '__reduce__', 'args', 'tag', '__dict__'])}: "
                   f"{hostile_node(rng, depth - 1)}" for _ in range(rng.randint(0, 2)))
    return f"{name}({fs})"


def code_schedule(rng):
    """A schedule with code in one of its places."""
    parts = ["step", "0.5", "0", rng.choice(["lin", "cos", "step"]), "1", "5"]
    parts[rng.choice([0, 1, 1, 2, 2, 3, 4, 5])] = rng.choice(
        ["hsv_fire(1)", "hsv_fire('x')", "1-hsv_fire(1)", "hsv_fire(1)or(1)", "__import__('builtins').hsv_fire(1)", "eval('hsv_fire(1)')",
         "(lambda:hsv_fire(1))()", "{hsv_fire(1)}", "[hsv_fire(1)]", "0.1*hsv_fire(1)"])
    return "{}: {}@{} {} {}@{}".format(*parts)


def typed_config(rng):
    """A valid config whose strings are code, and whose numbers may be."""
    c = lambda: q(code_str(rng))
    number = lambda v: v if rng.random() < 0.8 else q(code_schedule(rng) if rng.random() < 0.7 else rng.choice(CODE))
    opts = {"i": number(rng.choice(["1", "\"12\""])), "f": number("0.5"), "s": c(), "b": "true", "c": "\"blue\"", "lit": "\"q\"", "o": c(), "l": f"[{c()}, {c()}]",
            "d": "{%s: %s}" % (c(), c()), "u": f"B(y: {c()})",
            "n": rng.choice([f"Inner(version: 1, s0: {c()})", f"Inner(version: 2, s: {c()})"]), "li": "[A(x: 1), A(x: 2)]"}
    pick = rng.sample(list(opts), rng.randint(1, len(opts)))
    v = rng.choice([0, 1])
    fs = [f"{'text' if k == 's' and v == 0 else k}: {opts[k]}" for k in pick] + [f"version: {v}"]
    rng.shuffle(fs)
    return "Config(" + ", ".join(fs) + ")"


def hostile_config(rng):
    if rng.random() < 0.5:
        return typed_config(rng)
    fields = []
    for f in rng.sample([x.name for x in dataclasses.fields(Config)] + ["version", "__class__", "__reduce__", "__init__", "text"],
                        rng.randint(1, 6)):
        if f in ("s", "o", "text") and rng.random() < 0.6:
            v = q(code_str(rng))
        elif f == "l" and rng.random() < 0.6:
            v = f"[{q(code_str(rng))}, {q(code_str(rng))}]"
        elif f == "d" and rng.random() < 0.6:
            v = "{%s: %s}" % (q(code_str(rng)), q(code_str(rng)))
        elif f == "u" and rng.random() < 0.5:
            v = f"B(y: {q(code_str(rng))})"
        elif f == "n" and rng.random() < 0.5:
            v = f"Inner(version: {rng.choice(['1', '2', q(code_str(rng))])}, {rng.choice(['s', 's0'])}: {q(code_str(rng))})"
        elif f == "version":
            v = rng.choice(["0", "1", q(code_str(rng)), "-1"])
        else:
            v = hostile_node(rng)
        fields.append(f"    {f}: {v},")
    if rng.random() < 0.8 and not any(x.startswith("    version") for x in fields):
        fields.append(f"    version: {rng.choice([0, 1])},")
    return f"{rng.choice(['Config', 'Config', '', 'hsv_fire', 'eval'])}(\n" + "\n".join(fields) + "\n)"


def quiet(mon, what, **info):
    mon.check(not FIRED, f"{what} executed stored code", fired=FIRED, **info)
    mon.check(not PICKLED, f"{what} unpickled stored data", frames=PICKLED[:5], **info)
    mon.check(not EVENTS, f"{what} caused process, import or foreign code activity", events=EVENTS, **info)
    mon.count("frames_seen", 1 if FRAMES[0] else 0)
    FRAMES[0] = 0


def read_all(obj, depth=0):
    if depth > 6:
        return
    if dataclasses.is_dataclass(obj):
        for f in dataclasses.fields(obj):
            try:
                v = getattr(obj, f.name)
            except Exception:
                continue
            read_all(v, depth + 1)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            read_all(v, depth + 1)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            read_all(v, depth + 1)


def config_case(rng, mon):
    text = hostile_config(rng)
    p = os.path.join(mon.dir, "config.ron")
    r = rng.random()
    data = text.encode("utf-8", "surrogatepass")
    if r < 0.1:
        data = pickles(rng)
    elif r < 0.15:
        data = data + pickles(rng)
    elif r < 0.2:
        data = b"#!/usr/bin/env python\n" + data
    with open(p, "wb") as f:
        f.write(data)
    # neighbours that nothing refers to
    for nm in ("config.pickle", "config.ron.pickle", "config.py", "__init__.py", "state.pickle", "sitecustomize.py"):
        with open(os.path.join(mon.dir, nm), "wb") as f:
            f.write(pickles(rng) if nm.endswith("pickle") else b"import builtins; builtins.hsv_fire('import')\n")
    ovs = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            ovs.append(rng.choice(["s", "i", "f", "o", "l", "u", "c", "n.s", "d", "lit"]) + "=" +
                       (code_str(rng) if rng.random() < 0.5 else hostile_node(rng)))
    via = rng.choice(["load", "loads", "manager", "ignore", "state"])
    info = dict(text=data[:1500], overrides=ovs, via=via)
    reset()
    mon.count("canaries_armed")

    def go():
        if via == "load":
            o = hyperstate.load(Config, p, overrides=ovs)
        elif via == "loads":
            o = hyperstate.loads(Config, data.decode("utf-8", "replace"), overrides=ovs)
        elif via == "ignore":
            o = hyperstate.loads(Config, data.decode("utf-8", "replace"), overrides=ovs, ignore_extra_fields=True)
        else:
            sm = StateManager(Config, State, lambda c, x: State(0, P(1), Q(2), PM(3), None), init_path=p, overrides=ovs)
            o = sm.config
            if via == "state":
                sm.state
                sm.config_dict()
        read_all(o)
        copy.deepcopy(o)
        hyperstate.dumps(o)
        return o
    out = mon.call(watched, go)
    mon.count("hostile_documents")
    if out.ok:
        mon.count("hostile_documents_loaded")
    quiet(mon, "loading a config", **info)
    mon.distinct("config", data, tuple(ovs), via)
    # schema files are stored data as well
    if rng.random() < 0.2:
        from hyperstate.schema.types import load_schema
        sp = os.path.join(mon.dir, "schema.ron")
        with open(sp, "wb") as f:
            f.write(data if rng.random() < 0.5 else
                    f"Struct(name: {q(code_str(rng))}, version: 0, fields: {{\"a\": Field(name: \"a\", type: "
                    f"Primitive(type: {q(code_str(rng))}), default: {hostile_node(rng)}, has_default: true, docstring: {q(code_str(rng))}"
                    f")}})".encode("utf-8", "replace"))
        reset()
        mon.call(watched, lambda: load_schema(sp))
        quiet(mon, "loading a schema", **info)
    mon.sample(text)


def fresh_state(rng, k=0):
    return State(rng.randint(0, 10**6), P({"w": [1, 2, k]}), Q([k]), PM("mix"), P("maybe") if rng.random() < 0.5 else None, "n", 0.25)


def state_dir(rng, mon, legacy):
    """A checkpoint directory in which the fields in `legacy` ({name: (marker, pickled value)}) are legacy fields."""
    d = os.path.join(mon.dir, "ckpt", f"latest-step{7:012}")
    st = fresh_state(rng)
    st.step = 7
    sm = StateManager(Config, State, lambda c, x: st)
    sm.state
    sm.checkpoint(d) if os.path.isdir(os.path.dirname(d)) else (os.makedirs(os.path.dirname(d)), sm.checkpoint(d))
    sp = os.path.join(d, "state.ron")
    text = open(sp, encoding="utf-8").read()
    for f, (marker, data) in legacy.items():
        new = []
        for line in text.split("\n"):
            if line.strip().startswith(f + ":"):
                line = f"    {f}: {q(marker)},"
            new.append(line)
        text = "\n".join(new)
        mp = os.path.join(d, f"state.{f}.msgpack")
        if os.path.exists(mp) and rng.random() < 0.7:
            os.unlink(mp)
        with open(os.path.join(d, f if marker == "<BLOB>" else f"state.{f}.pickle"), "wb") as fh:
            fh.write(data)
    with open(sp, "w", encoding="utf-8") as fh:
        fh.write(text)
    return d, st


def open_state(rng, d, via):
    if via == "load":
        return hyperstate.load(State, os.path.join(d, "state.ron")), None
    if via == "resume":
        sm = StateManager(Config, State, lambda c, x: None, checkpoint_dir=os.path.dirname(d))
    else:
        sm = StateManager(Config, State, lambda c, x: None, init_path=d)
    return sm.state, sm


def legacy_case(rng, mon):
    names = rng.sample(list(SER), rng.randint(1, 4))
    legacy, values = {}, {}
    for f in names:
        marker = rng.choice(["<BLOB>", "<blob:pickle>"])
        if rng.random() < 0.5:
            v = rng.choice([{"w": [1.5, 2]}, [1, "a", None], "text", 42, {"n": np.arange(5)}, (1, 2), {1, 2}])
            legacy[f] = (marker, pickle.dumps(v, protocol=rng.randrange(0, 5)))
            values[f] = v
        else:
            legacy[f] = (marker, pickles(rng))
            mon.count("canaries_armed")
            values[f] = Canary
    d, st = state_dir(rng, mon, legacy)
    via = rng.choice(["load", "resume", "init"])
    set_at_load = rng.random() < 0.3
    info = dict(legacy={k: v[0] for k, v in legacy.items()}, via=via, set_at_load=set_at_load)
    reset()
    try:
        if set_at_load:
            os.environ[VAR] = "1"
        out = mon.call(watched, lambda: open_state(rng, d, via))
        os.environ.pop(VAR, None)
        mon.check(out.ok, "checkpoint with legacy fields does not load", outcome=out, **info)
        quiet(mon, "loading a checkpoint without reading its fields", **info)
        s, sm = out.value
        done = set()
        for k in range(rng.randint(2, 7)):
            op = rng.choice(["get", "get", "get", "dump", "other", "allow", "allow", "hasattr", "repr", "checkpoint", "copy"])
            f = rng.choice(names)
            reset()
            info["op"] = (op, f)
            left = [x for x in names if x not in done]
            if op == "get":
                out = mon.call(watched, lambda: getattr(s, f))
                if f in done:
                    mon.check(out.ok, "field read before is gone", outcome=out, **info)
                else:
                    mon.check(not out.ok, "legacy pickled field was read without opt-in", outcome=out, **info)
                    mon.count("legacy_refused")
            elif op == "hasattr":
                mon.call(watched, lambda: hasattr(s, f))
            elif op == "repr":
                out = mon.call(watched, lambda: repr(s))
                mon.check(bool(not left) or not out.ok, "printing the state reads legacy fields", outcome=out, **info)
            elif op == "copy":
                mon.call(watched, lambda: copy.copy(s))
            elif op in ("dump", "checkpoint"):
                t = os.path.join(mon.dir, f"out{k}")
                if op == "checkpoint" and sm is not None:
                    out = mon.call(watched, lambda: sm.checkpoint(t))
                else:
                    os.makedirs(t)
                    out = mon.call(watched, lambda: hyperstate.dump(s, os.path.join(t, "state.ron")))
                if left:
                    mon.check(not out.ok, "saving a state read its legacy fields without opt-in", outcome=out, **info)
            elif op == "other":
                for x in list(SER) + ["step", "note", "lr"]:
                    if x not in names:
                        out = mon.call(watched, lambda: getattr(s, x))
                        mon.check(out.ok, "another field cannot be read", field=x, outcome=out, **info)
            elif op == "allow":
                os.environ[VAR] = "1"
                out = mon.call(getattr, s, f)
                os.environ.pop(VAR, None)
                mon.check(out.ok, "legacy pickled field is not loaded with the opt-in set", outcome=out, **info)
                if f not in done:
                    mon.check(type(out.value) is SER[f], "legacy field has the wrong type", outcome=out, **info)
                    v = out.value.payload
                    if values[f] is Canary:
                        mon.check(bool(FIRED) and "4711" in repr(v), "legacy field did not load its pickled value", value=v, **info)
                    else:
                        mon.check(repr(v) == repr(values[f]) and type(v) is type(values[f]), "legacy field did not load its pickled value",
                                  value=v, want=values[f], **info)
                    mon.count("legacy_allowed")
                done.add(f)
                reset()
            quiet(mon, f"{op} without opt-in", **info)
    finally:
        os.environ.pop(VAR, None)
    mon.distinct("legacy", repr(sorted((k, v) for k, v in legacy.items())), via, set_at_load)


def raw_ext(code, data):
    """An extension value of any code, those that are reserved included."""
    if len(data) in (1, 2, 4, 8, 16):
        return bytes([{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[len(data)], code & 255]) + data
    if len(data) < 256:
        return struct.pack(">BBB", 0xc7, len(data), code & 255) + data
    return struct.pack(">BHB", 0xc8, len(data), code & 255) + data


def extensions(rng):
    """Stored data with values of extension types that hold code: anywhere in it, of one code or of all of them."""
    def one(code):
        r = rng.random()
        pk = pickles(rng)
        data = pk if r < 0.7 else msgpack.packb(pk) if r < 0.8 else code_str(rng).encode("utf-8", "replace") if r < 0.9 else \
            msgpack.packb({b"__tensor__": "numpy", b"dtype": "|O", b"shape": [1], b"data": pk})
        return raw_ext(code, data[:60000])
    if rng.random() < 0.5:
        codes = [rng.randrange(0, 128)]
    elif rng.random() < 0.3:
        codes = [rng.randrange(-128, 0)]
    else:
        codes = rng.sample(range(0, 128), 128)
    exts = [one(c) for c in codes]
    place = rng.choice(["top", "list", "dict", "key", "deep"]) if len(exts) == 1 else "list"
    n = msgpack.packb
    if place == "top":
        return exts[0]
    if place == "list":
        return struct.pack(">BH", 0xdc, len(exts) + 1) + n("w") + b"".join(exts)
    if place == "dict":
        return b"\x81" + n("w") + exts[0]
    if place == "key":
        return b"\x81" + exts[0] + n(1)
    return b"\x82" + n("state") + b"\x81" + n("w") + b"\x92" + n(1) + exts[0] + n("step") + n(3)


def hostile_blob(rng):
    """(bytes, is a python object array)"""
    EXT[0] = False
    r = rng.random()
    pk = pickles(rng)
    if r < 0.15:
        return pk, False
    if r < 0.3:
        return msgpack.packb(rng.choice([pk, {"pickle": pk}, [pk, code_str(rng)], {b"__pickle__": pk}, {b"__tensor__": "pickle", b"data": pk},
                                         {"__reduce__": [code_str(rng), [1]]}, {b"__class__": "builtins.hsv_fire", b"args": [1]},
                                         {"py/object": "builtins.hsv_fire"}, {"py/reduce": ["builtins.hsv_fire", [1]]}])), False
    if r < 0.43:
        EXT[0] = True
        return extensions(rng), False
    if r < 0.5:
        return msgpack.packb({b"nd": True, b"kind": b"O", b"type": "|O", b"shape": [1], b"data": pk}), False
    n = rng.randint(1, 3)
    if r < 0.75:
        dt = rng.choice(["|O", "O", "object", "O8", "O,i4", "i4,O", "(2,)O", "|O8"])
        data = rng.choice([b"\x41" * 64, b"\0" * 64, pk + b"\0" * 64, struct.pack("<q", id(fire)) * 8])
        return msgpack.packb({b"__tensor__": rng.choice(["numpy", "torch", "pickle"]), b"dtype": dt, b"shape": [n], b"data": data}), True
    dt = rng.choice(["i4", "S4", "f8", code_str(rng), "V8", "", "hsv_fire(1)"])
    return msgpack.packb({b"__tensor__": "numpy", b"dtype": dt, b"shape": rng.choice([[1], [2**40], [-1], code_str(rng), pk]), b"data":
                          rng.choice([b"\0" * 8, pk, code_str(rng), 5])}), False


def poke(v):
    """Touch restored data the way programs do."""
    if isinstance(v, P):
        poke(v.payload)
    elif isinstance(v, np.ndarray):
        if v.size < 1000:
            v.tolist()
        repr(v.dtype)
    elif isinstance(v, dict):
        for a, b in v.items():
            poke(b)
    elif isinstance(v, list):
        for a in v:
            poke(a)
    else:
        str(v)


def blob_case(rng, mon):
    f = rng.choice(list(SER))
    marker = rng.choice(["<blob:msgpack>"] * 6 + ["<blob:PICKLE>", "<blob:pickle >", "<blob>", "<pickle>", "<blob:cloudpickle>", "<blob:torch>",
                                                  "<blob:npy>", "builtins.hsv_fire", code_str(rng)])
    data, objects = hostile_blob(rng)
    d, st = state_dir(rng, mon, {f: (marker, data)} if marker != "<blob:msgpack>" else {})
    pk = pickles(rng)
    if marker == "<blob:msgpack>":
        if f == "maybe" and not os.path.exists(os.path.join(d, "state.maybe.msgpack")):
            f = "opt"
        with open(os.path.join(d, f"state.{f}.msgpack"), "wb") as fh:
            fh.write(data)
        # a pickle beside it must not be used instead
        if rng.random() < 0.6:
            with open(os.path.join(d, f"state.{f}.pickle"), "wb") as fh:
                fh.write(pk)
            with open(os.path.join(d, f), "wb") as fh:
                fh.write(pk)
            if rng.random() < 0.3:
                os.unlink(os.path.join(d, f"state.{f}.msgpack"))
    via = rng.choice(["load", "resume", "init"])
    optin = rng.random() < 0.3
    info = dict(field=f, marker=marker, data=data[:300], via=via, optin=optin, objects=objects)
    mon.count("canaries_armed")
    reset()

    def go():
        if optin:
            os.environ[VAR] = "1"
        try:
            s, sm = open_state(rng, d, via)
            for x in ("step", "note", f):
                poke(getattr(s, x))
            hyperstate.dumps(s)
        finally:
            os.environ.pop(VAR, None)

    def child():
        out = mon.call(watched, go)
        return [out.ok, repr(out)[:300], [repr(x) for x in FIRED], PICKLED[:5], EVENTS[:5], FRAMES[0]]
    legacy = marker in ("<BLOB>", "<blob:pickle>")
    if objects:
        mon.count("object_arrays")
        res, bad = core.isolated(child)
        mon.check(bad is None, "reading a stored array used stored bytes as python objects", happened=bad, **info)
        FIRED[:], PICKLED[:], EVENTS[:], FRAMES[0] = res[2], res[3], res[4], res[5]
    else:
        child()
    mon.count("hostile_blobs")
    if EXT[0]:
        mon.count("extensions")
    if not (legacy and optin):
        quiet(mon, "reading hostile binary data", **info)
    mon.distinct("blob", f, marker, data, via, optin)


DECOYS = ["NO_" + VAR, VAR + "_NOT", VAR.lower(), "HYPERSTATE_" + VAR, VAR.replace("_PICKLE", ""), "UNSAFE_PICKLE", "DEBUG", "CI"]


def case(rng, i, mon):
    assert VAR not in os.environ
    decoy = rng.choice(DECOYS) if rng.random() < 0.3 else None
    if decoy is None:
        return _case(rng, mon)
    assert decoy not in os.environ or decoy in ("DEBUG", "CI")
    old = os.environ.get(decoy)
    os.environ[decoy] = rng.choice(["1", VAR, VAR + "=1"])
    mon.count("other_variables")
    try:
        _case(rng, mon)
    finally:
        if old is None:
            del os.environ[decoy]
        else:
            os.environ[decoy] = old


def _case(rng, mon):
    r = rng.random()
    if r < 0.45:
        config_case(rng, mon)
    elif r < 0.7:
        legacy_case(rng, mon)
    else:
        blob_case(rng, mon)
