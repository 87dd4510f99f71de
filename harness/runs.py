"""Runs of a training program under the state manager: classes, deterministic progress, snapshots."""
import dataclasses
import os
import tempfile
from pathlib import Path
from typing import Dict, List, Optional, Tuple

import numpy as np

import hyperstate
from hyperstate import Lazy, Serializable, StateManager, Versioned
from props.c13 import differ, snapshot


class Blob(Serializable):
    def __init__(self, payload):
        self.payload = payload

    def serialize(self):
        return self.payload

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict)


class Net(Blob):
    pass


class Opti(Blob):
    pass


@dataclasses.dataclass
class OptConf:
    bs: int = 8
    tag: int = 0
    momentum: float = 0.9


@dataclasses.dataclass
class Conf:
    opt: OptConf
    lr: float = 0.1
    tag: int = 0
    name: str = "run"
    sizes: List[int] = dataclasses.field(default_factory=lambda: [1, 2])


@dataclasses.dataclass
class VConf(Conf, Versioned):
    @classmethod
    def version(cls):
        return 3


@dataclasses.dataclass
class Stats:
    tag: int = 0
    mean: float = 0.0


def make_states(key):
    plain = dataclasses.make_dataclass("PlainState", [
        (key, int), ("tag", int), ("hist", List[float]), ("meta", Dict[str, int]), ("stats", Stats)])
    lazy1 = dataclasses.make_dataclass("LazyState", [(key, int), ("net", Net), ("tag", int)], bases=(Lazy,), eq=False)
    lazy3 = dataclasses.make_dataclass("BigState", [
        ("net", Net), (key, int), ("opt", Opti), ("buf", Optional[Net]), ("tag", int), ("stats", Stats), ("hist", List[float])],
        bases=(Lazy,), eq=False)

    class VState(lazy3, Versioned):
        @classmethod
        def version(cls):
            return 1
    VState.__name__ = "VState"
    vstate = dataclasses.dataclass(VState, eq=False)
    return [plain, lazy1, lazy3, vstate]


STATES = {k: make_states(k) for k in ("step", "epoch", "iters")}


def blob_payload(rng, g, big=False):
    r = rng.random()
    if big:
        return {"gen": g, "w": np.full(rng.choice([3000, 20000]), g, dtype=np.float64)}
    if r < 0.3:
        return {"gen": g, "w": np.full(rng.randint(0, 40), g, dtype=rng.choice(["f4", "i8", ">f8", "?"]))}
    if r < 0.5:
        return [g, f"gen{g}", b"\0" * rng.randint(0, 50)]
    return {"gen": g, 1: {b"k": [None, True, float(g)]}}


def initial(cls, key, rng, g=0):
    kw = {}
    for f in dataclasses.fields(cls):
        if f.name == key:
            # negative counters, and counters around the width of the numbers in directory names
            kw[f.name] = rng.choice([0] * 6 + [-3, -1001, 10 ** 12 - 2, 10 ** 12 - 1001, 10 ** 13 - 3])
        elif f.name == "tag":
            kw[f.name] = g
        elif f.name in ("net", "buf"):
            kw[f.name] = Net(blob_payload(rng, g)) if f.name == "net" or rng.random() < 0.5 else None
        elif f.name == "opt":
            kw[f.name] = Opti(blob_payload(rng, g))
        elif f.name == "hist":
            kw[f.name] = [float(g)]
        elif f.name == "meta":
            kw[f.name] = {"gen": g}
        elif f.name == "stats":
            kw[f.name] = Stats(g, g / 2)
    return cls(**kw)


def advance(sm, key, g, rng, inc=None, partial=False, big=False):
    """One generation of progress: every part of config and state carries g (unless partial)."""
    s, c = sm.state, sm.config
    setattr(s, key, getattr(s, key) + (inc or rng.choice([1, 1, 1, 7, 1000])))
    for f in dataclasses.fields(s):
        if partial and rng.random() < 0.5:
            continue
        if f.name == "tag":
            s.tag = g
        elif f.name in ("net", "opt"):
            r = rng.random()
            old = getattr(s, f.name).payload if r < 0.25 else None
            if isinstance(old, dict) and "w" in old and not big:
                # in place, as optimizers do it
                old["w"][...] = g
                old["gen"] = g
            elif r < 0.5:
                getattr(s, f.name).payload = blob_payload(rng, g, big and f.name == "net")
            else:
                setattr(s, f.name, (Net if f.name == "net" else Opti)(blob_payload(rng, g)))
        elif f.name == "buf":
            s.buf = Net(blob_payload(rng, g)) if rng.random() < 0.6 else None
        elif f.name == "hist":
            s.hist.append(float(g))
        elif f.name == "meta":
            s.meta["gen"] = g
        elif f.name == "stats":
            s.stats.tag = g
            s.stats.mean = g / 2
    if not partial or rng.random() < 0.5:
        c.tag = g
        c.opt.tag = g
        c.sizes = [g] * rng.randint(0, 3)


def plain(x):
    """Comparable structure of an object, reading everything."""
    if isinstance(x, Blob):
        return {"__blob__": type(x).__name__, "payload": snapshot(x.payload)}
    if dataclasses.is_dataclass(x):
        d = {f.name: plain(getattr(x, f.name)) for f in dataclasses.fields(x)}
        d["__class__"] = type(x).__name__
        return d
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return {"__tuple__": [plain(v) for v in x]}
    if isinstance(x, dict):
        return {("k", k) if not isinstance(k, (str, int, bytes)) else k: plain(v) for k, v in x.items()}
    return x


def take(sm):
    """Snapshot of everything a program sees."""
    state = sm.state
    return {"config": plain(sm.config), "state": plain(state)}


def same(a, b):
    return differ(a, b, "run")


def use_tmp(d):
    os.makedirs(d, exist_ok=True)
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d


def spell(rng, p, kind=None):
    """The same place written differently: relative, with redundant segments, with a trailing slash, as a Path."""
    kind = kind or rng.choice(["plain", "plain", "plain", "rel", "rel", "slash", "dot", "up", "double", "path", "relpath"])
    base, name = os.path.split(p)
    if kind in ("rel", "relpath"):
        p = os.path.relpath(p)
        return Path(p) if kind == "relpath" else p
    if kind == "slash":
        return p + rng.choice(["/", "//", "/."])
    if kind == "dot":
        return os.path.join(base, ".", name)
    if kind == "up":
        return os.path.join(base, "..", os.path.basename(base), name)
    if kind == "double":
        return base + "//" + name
    return Path(p) if kind == "path" else p
