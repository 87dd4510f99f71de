"""C13 Binary state is restored bit for bit."""
import copy
import dataclasses
import os
import struct

import numpy as np

import hyperstate
from hyperstate import Lazy, Serializable, StateManager

LEVEL = "exploration"
RULE = ("one case = a state with 1-4 serializable fields holding generated payloads (scalars, containers, numpy arrays), saved and "
        "restored two generations (dump/load, state manager restarts, resaving without access); decided by bit comparison; "
        "non-trivial = distinct payload; the counters give dtypes, layouts and shapes observed")
CASES = {"quick": 4000, "thorough": 60000}
REQUIRE = {"distinct": 3000, "arrays": 5000, "second_generation": 2500, "empty_arrays": 200, "zero_d": 200, "non_contiguous": 800,
           "swapped": 800, "int_keys": 200, "bytes_keys": 200, "dtypes_chars": 3000, "case_differs": 100, "saved_over_itself": 200}


class Blob(Serializable):
    def __init__(self, payload):
        self.payload = payload

    def serialize(self):
        return self.payload

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict)


@dataclasses.dataclass
class Config:
    a: int = 1


NAMES = [("b0", "b1", "b2", "b3"), ("w", "W", "wW", "Ww"), ("net", "net_0", "net_", "net__0"), ("state", "msgpack", "state_msgpack", "pickle"),
         ("x" * 90, "x" * 91, "a", "ab"), ("BLOB", "blob", "Blob", "b")]


def make(names):
    return dataclasses.make_dataclass("State", [("step", int)] + [(k, Blob) for k in names], bases=(Lazy,), eq=False)


CLS = {(n, names): make(names[:n]) for n in range(1, 5) for names in NAMES}
DTYPES = ["?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "e", "f", "d", "g", "F", "D", "G", "S1", "S7", "U1", "U5", "M8[ns]",
          "M8[D]", "M8[25s]", "M8[Y]", "m8[us]", "m8[h]", "m8", "S3", "U2", "m8[ms]", "M8[as]"]


def gen_dtype(rng):
    dt = np.dtype(rng.choice(DTYPES))
    if rng.random() < 0.4:
        dt = dt.newbyteorder(rng.choice("<>"))
    return dt


def gen_array(rng, mon, big=False):
    dt = gen_dtype(rng)
    nd = rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
    shape = tuple(rng.choice([0, 1, 1, 2, 3, 4, 5]) if rng.random() < 0.25 else rng.randint(1, 5) for _ in range(nd))
    if big:
        shape = (rng.randint(20000, 200000),)
    elif rng.random() < 0.03:
        shape = (1,) * rng.randint(5, 20) + (2,)
    n = int(np.prod(shape, dtype=int))
    raw = rng.choice([lambda: rng.getrandbits(8 * n * dt.itemsize).to_bytes(n * dt.itemsize, "little") if n else b"",
                      lambda: bytes(n * dt.itemsize),
                      lambda: b"\xff" * (n * dt.itemsize)])()
    if dt.kind == "U":
        # code points must be valid for the array to be printable; raw bytes are still compared
        a = np.array(["".join(rng.choice("aé\u4e2d\U0001f600\0 z") for _ in range(rng.randint(0, 5))) for _ in range(n)], dtype=dt
                     ).reshape(shape) if n else np.zeros(shape, dt)
    elif dt.char == "?":
        a = np.array([rng.random() < 0.5 for _ in range(n)], dtype=dt).reshape(shape)
    elif dt.kind in "iufc" and rng.random() < 0.4 and dt.char not in "gG":
        with np.errstate(all="ignore"):
            a = np.array([rng.choice([0.0, -0.0, 1.0, float("inf"), -float("inf"), float("nan"), 1e-310, 3.25, -7.0]
                                     if dt.kind in "fc" else [0, 1, 2, 100, 127]) for _ in range(n)]).astype(dt).reshape(shape)
    else:
        a = np.frombuffer(bytearray(raw), dtype=dt, count=n).reshape(shape) if n else np.zeros(shape, dt)
    lay = rng.random()
    if lay < 0.15:
        a = np.asfortranarray(a) if a.ndim else a
    elif lay < 0.3 and a.ndim:
        a = a[::-1]
    elif lay < 0.4 and a.ndim >= 2:
        a = a.T
    elif lay < 0.5 and a.ndim:
        a = np.repeat(a, 2, axis=0)[::2]
    elif lay < 0.56 and a.ndim and a.shape[0]:
        a = np.broadcast_to(a[:1], (rng.randint(1, 4),) + a.shape[1:])
    elif lay < 0.62 and a.ndim:
        a = a[1:]
    elif lay < 0.66:
        a = a.copy()
        a.setflags(write=False)
    elif lay < 0.72 and n:
        # unaligned view
        buf = bytearray(1 + a.nbytes)
        buf[1:] = a.tobytes()
        a = np.frombuffer(memoryview(buf)[1:], dtype=a.dtype).reshape(a.shape)
    mon.count("arrays")
    mon.count("dtypes_chars")
    mon.count("dtype " + a.dtype.str)
    if a.size == 0:
        mon.count("empty_arrays")
    if a.ndim == 0:
        mon.count("zero_d")
    if not a.flags.c_contiguous:
        mon.count("non_contiguous")
    if a.dtype.byteorder == ">":
        mon.count("swapped")
    return a


def gen_float(rng):
    r = rng.random()
    if r < 0.4:
        return struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
    return rng.choice([0.0, -0.0, 1.5, float("inf"), -float("inf"), float("nan"), 5e-324, 1.7976931348623157e308, 0.1, 1e16, 2.0])


INTS = [0, 1, -1, 127, 128, 255, 256, -32, -33, -128, -129, 65535, 65536, -32768, -32769, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31,
        -2**31 - 1, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, -2**63]
STRS = ["", "a", "é", "\u4e2d\u6587", "\U0001f600", "a\0b", "x" * 31, "x" * 32, "x" * 255, "x" * 256, "\n\t\"'\\", "__tensor__", "data",
        "<BLOB>", "0", "None", "dtype", "shape"]
BYTES = [b"", b"\0", b"a", b"\xff\xfe", b"x" * 31, b"x" * 32, b"y" * 255, b"z" * 256, b"\x80", b"dtype", b"data", b"shape", b"numpy",
         b"__tensor_", bytes(range(256))]


def gen_scalar(rng):
    r = rng.random()
    if r < 0.1:
        return None
    if r < 0.2:
        return rng.random() < 0.5
    if r < 0.4:
        return rng.choice(INTS) if rng.random() < 0.6 else rng.randint(-2**63, 2**64 - 1)
    if r < 0.6:
        return gen_float(rng)
    if r < 0.8:
        return rng.choice(STRS)
    return rng.choice(BYTES) if rng.random() < 0.8 else bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 70)))


def gen_payload(rng, mon, depth, top=True):
    r = rng.random()
    if depth <= 0 or r < 0.2:
        return gen_scalar(rng)
    if r < 0.5:
        return gen_array(rng, mon, big=top and rng.random() < 0.01)
    if r < 0.7:
        n = rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.95 else rng.choice([15, 16, 17, 300])
        if n > 10:
            return [gen_scalar(rng) for _ in range(n)]
        return [gen_payload(rng, mon, depth - 1, False) for _ in range(n)]
    if r < 0.72:
        x = gen_payload(rng, mon, 1, False)
        for _ in range(rng.randint(1, 150)):
            x = [x] if rng.random() < 0.5 else {"k": x}
        return x
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.95 else rng.choice([15, 16, 17])):
        q = rng.random()
        if q < 0.4:
            k = rng.choice(STRS)
        elif q < 0.7:
            k = rng.choice(INTS)
            mon.count("int_keys")
        else:
            k = rng.choice(BYTES)
            mon.count("bytes_keys")
        d[k] = gen_payload(rng, mon, depth - 1, False)
    if d and rng.random() < 0.03:
        d[b"__tensor__"] = gen_scalar(rng)
        for k in (b"dtype", b"data", b"shape"):
            d.pop(k, None)
    return d


def differ(a, b, path="payload"):
    """None or a description; a original, b restored."""
    if isinstance(a, np.ndarray):
        if type(b) is not np.ndarray:
            return f"{path}: array became {type(b).__name__}"
        if a.dtype.str != b.dtype.str or a.dtype != b.dtype:
            return f"{path}: dtype {a.dtype.str} became {b.dtype.str}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} became {b.shape}"
        if a.tobytes() != b.tobytes():
            return f"{path}: bytes of array {a.dtype.str}{a.shape} strides {a.strides} changed"
        return None
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, float):
        return None if struct.pack(">d", a) == struct.pack(">d", b) else f"{path}: float {a!r} became {b!r}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, dict):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries became {len(b)}"
        kb = {(type(k), k): k for k in b}
        for k, x in a.items():
            if (type(k), k) not in kb:
                return f"{path}: key {k!r} lost"
            r = differ(x, b[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    return None if a == b else f"{path}: {a!r} became {b!r}"


def snapshot(x):
    """Deep copy that keeps arrays' dtype, shape and bytes."""
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return x


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, list):
        for v in x:
            yield from arrays(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)


def check_arrays(mon, got, info):
    """Restored arrays are ordinary and writable, and independent of each other."""
    arrs = list(arrays(got))
    for a in arrs:
        mon.check(a.flags.writeable, "restored array is read-only", dtype=a.dtype.str, shape=a.shape, **info)
        if a.size:
            before = a.tobytes()
            out = mon.call(a.__setitem__, (Ellipsis,), a[(0,) * a.ndim])
            mon.check(out.ok, "restored array cannot be written", outcome=out, dtype=a.dtype.str, **info)
            others = [b for b in arrs if b is not a]
            mon.check(not any(np.shares_memory(a, b) for b in others[:4]), "restored arrays share memory", **info)
            a[...] = np.frombuffer(before, dtype=a.dtype).reshape(a.shape)


def case(rng, i, mon):
    n = rng.choice([1, 1, 2, 3, 4])
    names = rng.choice(NAMES) if rng.random() < 0.5 else NAMES[0]
    cls = CLS[n, names]
    if n > 1 and names[0] == "w":
        mon.count("case_differs")
    pays = [gen_payload(rng, mon, rng.choice([1, 2, 3])) for _ in range(n)]
    orig = [snapshot(p) for p in pays]
    info = dict(payloads=orig, names=names[:n])
    obj = cls(rng.randint(0, 10**9), *[Blob(p) for p in pays])
    via = rng.choice(["dump", "manager", "checkpoint"])
    d = os.path.join(mon.dir, "a")
    gens = rng.choice([1, 2, 2, 3])
    cur = obj
    prev = None
    for g in range(gens):
        target = os.path.join(mon.dir, f"g{g}")
        if via == "dump":
            if g and rng.random() < 0.4:
                # over the files this object came from
                target = src
                k = rng.randrange(n)
                if rng.random() < 0.7:
                    pay = gen_payload(rng, mon, 1)
                    setattr(cur, names[k], Blob(pay))
                    orig[k] = snapshot(pay)
                mon.count("saved_over_itself")
            os.makedirs(target, exist_ok=True)
            out = mon.call(hyperstate.dump, cur, os.path.join(target, "state.ron"))
            src = target
        else:
            sm = prev or StateManager(Config, cls, lambda c, x: cur, checkpoint_dir=d if via == "manager" else None)
            if via == "manager":
                sm.state.step += 1
                out = mon.call(sm.step)
                obj.step = sm.state.step
            else:
                sm.state
                out = mon.call(sm.checkpoint, target)
        mon.check(out.ok, "state cannot be saved", outcome=out, via=via, generation=g, **info)
        if g == 0:
            for k in range(n):
                r = differ(orig[k], pays[k])
                mon.check(r is None, "saving changed the object's own data", problem=r, **info)
        if via == "dump":
            out = mon.call(hyperstate.load, cls, os.path.join(target, "state.ron"))
        else:
            prev = StateManager(Config, cls, lambda c, x: None, checkpoint_dir=d if via == "manager" else None,
                                init_path=None if via == "manager" else target)
            out = mon.call(lambda: prev.state)
        mon.check(out.ok, "state cannot be loaded", outcome=out, via=via, generation=g, **info)
        cur = out.value
        mon.check(cur.step == obj.step, "step changed", **info)
        read = range(n) if g == gens - 1 else [k for k in range(n) if rng.random() < 0.5]
        for k in read:
            out = mon.call(getattr, cur, names[k])
            mon.check(out.ok, "field cannot be read", field=k, outcome=out, via=via, generation=g, **info)
            r = differ(orig[k], out.value.payload)
            mon.check(r is None, "restored data differs from the saved data", problem=r, field=k, via=via, generation=g, **info)
            check_arrays(mon, out.value.payload, info)
            if g:
                mon.count("second_generation")
    for p in orig:
        mon.distinct(describe(p))
    mon.sample(describe(orig)[:300])


def describe(p):
    if isinstance(p, np.ndarray):
        return f"array({p.dtype.str},{p.shape},{hash(p.tobytes())})"
    if isinstance(p, list):
        return "[" + ",".join(map(describe, p)) + "]"
    if isinstance(p, dict):
        return "{" + ",".join(f"{k!r}:{describe(v)}" for k, v in p.items()) + "}"
    return repr(p)


