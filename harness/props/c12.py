"""C12 Lazy fields load on first access, once, with the right context."""
import copy
import os
import sys
import shutil
import dataclasses
from typing import List, Optional

import hyperstate
from hyperstate import Lazy, Serializable, StateManager, blob

LEVEL = "exploration"
RULE = ("one case = a generated Lazy state class with 2-5 serializable fields (plain, optional, blob mixins), saved and loaded by a "
        "state manager or load(), then 12 random operations (access, assign, damage, repair, save again, dependent access); monitors: "
        "audit hook on file opens, call log of deserialize; non-trivial = distinct operation history")
CASES = {"quick": 4000, "thorough": 60000}
REQUIRE = {"distinct": 3000, "first_access": 2000, "repeat_access": 2000, "repeat_none": 100, "assigned_unloaded": 500, "damaged_access": 300,
           "untouched_damaged": 500, "saved_unaccessed": 1500, "dependent": 200, "ctx_checked": 800, "relative_paths": 300, "from_init_path": 500,
           "saved_over": 80, "copies": 1000, "contexts_apart": 1000}
OPENS = []
CALLS = []
HOOKED = [False]


def setup(mon):
    if not HOOKED[0]:
        sys.addaudithook(lambda e, a: OPENS.append(str(a[0])) if e == "open" else None)
        HOOKED[0] = True


@dataclasses.dataclass
class Config:
    width: int = 3
    name: str = "n"


class Base(Serializable):
    """Records how it is deserialized. payload may name another field to be read meanwhile."""

    def __init__(self, payload):
        self.payload = payload

    def serialize(self):
        return self.payload

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        dep = None
        if isinstance(state_dict, dict) and "depends" in state_dict:
            dep = getattr(state, state_dict["depends"])
        seen = dict(ctx)
        # deserializers may leave things in the context for the other fields of the same state
        note = seen.pop("note", state)
        CALLS.append((cls, state_dict, config, state, seen, dep, note))
        ctx["note"] = state
        if isinstance(state_dict, dict) and state_dict.get("fail") and ctx.get("fail", True):
            raise RuntimeError("deserialize failed")
        if isinstance(state_dict, dict) and "gone" in state_dict:
            return None
        return cls(state_dict)


class PA(Base):
    pass


class PB(Base):
    """Falsy, and equal to everything."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True


class Plain:
    def __init__(self, payload):
        self.payload = payload


class Mixin(Base):
    def __init__(self, payload):
        Plain.__init__(self, payload)


PM = blob(Plain, Mixin)
KINDS = [PA, PB, PM]
PAYLOADS = [0, 1, None, "", "text", [], [1, 2], {}, {"a": 1}, False, True, b"", b"bytes", 1.5, -7, [None], {"x": [1, {"y": "z"}]},
            {1: "int key"}, 0.0]


def make_state(rng, n):
    items = [("step", int)]
    lazy = {}
    for k in range(n):
        name = ["params", "opt", "buffer", "net_w", "extra"][k]
        cls = rng.choice(KINDS)
        opt = rng.random() < 0.25
        lazy[name] = (cls, opt)
        items.append((name, Optional[cls] if opt else cls))
        if rng.random() < 0.5:
            items.append((f"plain{k}", rng.choice([str, float, int])))
    if rng.random() < 0.3:
        rng.shuffle(items)
    return dataclasses.make_dataclass("State", items, bases=(Lazy,), eq=rng.random() < 0.5), items, lazy


def instance(rng, cls, items, lazy, tag):
    kw, pay = {}, {}
    names = list(lazy)
    for n, t in items:
        if n in lazy:
            c, opt = lazy[n]
            if opt and rng.random() < 0.3:
                kw[n], pay[n] = None, "NONE"
            else:
                p = copy.deepcopy(rng.choice(PAYLOADS)) if rng.random() < 0.6 else {"tag": f"{tag}-{n}"}
                i = names.index(n)
                if i > 0 and rng.random() < 0.3:
                    p = {"depends": names[rng.randrange(i)], "tag": f"{tag}-{n}"}
                if opt and rng.random() < 0.25:
                    p = {"gone": f"{tag}-{n}"}
                kw[n], pay[n] = c(p), p
        else:
            kw[n] = {int: 5, str: f"s{tag}", float: 0.5}[t]
    return cls(**kw), pay


def restored(v, cls, p):
    """Whether v is what is deserialized from payload p."""
    if isinstance(p, dict) and "gone" in p:
        return v is None
    return type(v) is cls and same(v.payload, p)


def same(a, b):
    return type(a) is type(b) and a == b


class Model:
    def __init__(self, pay):
        self.pay = pay
        self.loaded = {n for n, p in pay.items() if isinstance(p, str) and p == "NONE"}
        self.value = {}
        self.assigned = set()
        self.damaged = set()

    def ready(self, n):
        return n in self.loaded or n in self.assigned


def case(rng, i, mon):
    n = rng.randint(2, 5)
    cls, items, lazy = make_state(rng, n)
    tag = f"t{i}"
    obj, pay = instance(rng, cls, items, lazy, tag)
    obj.step = rng.randint(0, 1000)
    ops = []
    use_manager = rng.random() < 0.6
    ckpt = os.path.join(mon.dir, "run")
    ctx = {}
    if use_manager:
        sm = StateManager(Config, cls, lambda c, x: obj, checkpoint_dir=ckpt, overrides=["width=9"])
        sm.state
        sm.step()
        sdir = os.path.join(ckpt, f"latest-step{obj.step:012}")
    else:
        sdir = os.path.join(mon.dir, "saved")
        os.makedirs(sdir)
        hyperstate.dump(obj, os.path.join(sdir, "state.ron"))
    del OPENS[:], CALLS[:]
    relative = rng.random() < 0.2
    if relative:
        os.chdir(mon.dir)
    info = dict(state=[(a, str(b)) for a, b in items], payloads=pay, ops=ops, relative=relative)
    if use_manager:
        if rng.random() < 0.3:
            sm = StateManager(Config, cls, lambda c, x: None, init_path=os.path.relpath(sdir, mon.dir) if relative else sdir)
            mon.count("from_init_path")
        else:
            sm = StateManager(Config, cls, lambda c, x: None, checkpoint_dir="run" if relative else ckpt)
        for k in rng.sample(["device", "mode", "x"], rng.randint(0, 2)):
            ctx[k] = object() if rng.random() < 0.3 else k * 2
            sm.set_deserialize_ctx(k, ctx[k])
        out = mon.call(lambda: sm.state)
        mon.check(out.ok, "state does not load", outcome=out, **info)
        st = out.value
        config = sm.config
    else:
        out = mon.call(hyperstate.load, cls, os.path.join("saved" if relative else sdir, "state.ron"))
        mon.check(out.ok, "state does not load", outcome=out, **info)
        st = out.value
        config = None
    if relative:
        # the program goes elsewhere before it accesses the fields
        os.chdir("/")
        mon.count("relative_paths")
    blobs = {nm: os.path.join(sdir, f) for nm in lazy for f in os.listdir(sdir) if f.startswith(f"state.{nm}.")}

    def blob_opens():
        return [o for o in OPENS if any(os.path.basename(b) == os.path.basename(o) for b in blobs.values())]
    mon.check(not CALLS and not blob_opens(), "loading read or deserialized a lazy field that was not accessed",
              calls=len(CALLS), opens=blob_opens(), **info)
    m = Model(pay)
    healthy = {nm: open(b, "rb").read() for nm, b in blobs.items()}
    copies = []
    del OPENS[:]

    def needs(nm, seen=()):
        """Fields whose data is read by accessing nm."""
        if m.ready(nm):
            return []
        out = []
        p = pay[nm]
        if isinstance(p, dict) and "depends" in p and nm not in m.damaged:
            out += needs(p["depends"])
        return [nm] + [x for x in out if x != nm]

    def access(nm, how):
        del OPENS[:], CALLS[:]
        fresh = needs(nm)
        broken = [x for x in fresh if x in m.damaged]
        out = mon.call({0: lambda: getattr(st, nm), 1: lambda: st.__getattribute__(nm),
                        2: lambda: getattr(st, nm, None) if not broken else getattr(st, nm)}[how])
        opened = blob_opens()
        for o in opened:
            mon.check(any(os.path.basename(blobs[x]) == os.path.basename(o) for x in fresh if x in blobs),
                      "access read the data of another field", field=nm, opened=opened, **info)
        if broken:
            mon.check(not out.ok, "access to a field with damaged or missing data succeeded", field=nm, outcome=out, **info)
            mon.count("damaged_access")
            resync(fresh)
            return
        mon.check(out.ok, "access to a lazy field failed", field=nm, outcome=out, **info)
        v = out.value
        if nm in m.assigned:
            mon.check(v is m.value[nm], "stored data replaced an assigned value", field=nm, **info)
            mon.check(not opened and not CALLS, "data of an assigned field was read", field=nm, **info)
            return
        if nm in m.loaded:
            if pay[nm] == "NONE":
                mon.check(v is None, "None field changed", field=nm, **info)
            elif nm in m.value:
                mon.check(v is m.value[nm], "second access gives another object", field=nm, **info)
            mon.check(not opened and not CALLS, "field was read or deserialized again", field=nm, calls=CALLS, **info)
            m.value[nm] = v
            mon.count("repeat_access")
            mon.count("repeat_none", v is None and pay[nm] != "NONE")
            return
        mon.check(len(opened) == len(fresh), "data was not read exactly once", field=nm, opened=opened, **info)
        mon.check(len(CALLS) == len(fresh), "deserialize was not called exactly once", field=nm, calls=CALLS, **info)
        for c in CALLS:
            mon.check(c[2] is config if not use_manager else c[2] == config and type(c[2]) is Config, "wrong config passed to deserialize",
                      got=c[2], want=config, **info)
            mon.check(c[3] is st, "wrong owning state passed to deserialize", **info)
            mon.check(c[4] == ctx, "wrong deserialization context", got=c[4], want=ctx, **info)
            mon.check(c[6] is st or any(c[6] is x for x in copies), "the context holds what was left there for another state", **info)
            if ctx:
                mon.count("ctx_checked")
        mine = [c for c in CALLS if c[0] is lazy[nm][0] and same(c[1], pay[nm])]
        mon.check(bool(mine), "field deserialized from other data than was saved for it", field=nm, calls=CALLS, **info)
        mon.check(restored(v, lazy[nm][0], pay[nm]), "accessed value differs from the saved one", field=nm, value=v.payload
                  if hasattr(v, "payload") else v, **info)
        m.loaded.add(nm)
        m.value[nm] = v
        mon.count("first_access")
        if len(fresh) > 1:
            mon.count("dependent")
        resync(fresh)

    def resync(names):
        """Fields read on the way may or may not be loaded now; access the healthy ones so that the model knows."""
        for x in names:
            need = needs(x)
            if need and not any(y in m.damaged for y in need):
                del OPENS[:], CALLS[:]
                out = mon.call(getattr, st, x)
                mon.check(out.ok, "access to an undamaged lazy field failed", field=x, outcome=out, **info)
                v = out.value
                mon.check(restored(v, lazy[x][0], pay[x]), "value differs from the saved one", field=x, **info)
                m.value[x] = v
                m.loaded.update(need)

    for k in range(12):
        op = rng.choice(["access", "access", "access", "assign", "damage", "repair", "plain", "save", "ctx", "probe", "copy"])
        nm = rng.choice(list(lazy))
        ops.append((op, nm))
        if op == "access":
            access(nm, rng.randrange(3))
        elif op == "assign":
            v = rng.choice([lazy[nm][0]({"assigned": k}), lazy[nm][0](None)] + ([None] if lazy[nm][1] else []))
            del OPENS[:], CALLS[:]
            if not m.ready(nm):
                mon.count("assigned_unloaded")
            out = mon.call(setattr, st, nm, v)
            mon.check(out.ok and not blob_opens() and not CALLS, "assignment failed or read the stored data", outcome=out, **info)
            m.assigned.add(nm)
            m.value[nm] = v
        elif op == "damage" and nm in blobs and nm not in m.damaged:
            b = blobs[nm]
            data = healthy[nm]
            r = rng.random()
            if not os.path.exists(os.path.dirname(b)):
                continue
            if r < 0.4:
                os.unlink(b)
            elif r < 0.7 and len(data) > 1:
                with open(b, "wb") as f:
                    f.write(data[:rng.randrange(len(data))])
            else:
                with open(b, "wb") as f:
                    f.write(b"\xc1" + data)
            m.damaged.add(nm)
        elif op == "repair" and m.damaged:
            x = rng.choice(sorted(m.damaged))
            with open(blobs[x], "wb") as f:
                f.write(healthy[x])
            m.damaged.discard(x)
        elif op == "plain":
            del OPENS[:], CALLS[:]
            for a, t in items:
                if a not in lazy:
                    out = mon.call(getattr, st, a)
                    mon.check(out.ok and out.value == getattr(obj, a), "plain field changed", field=a, outcome=out, **info)
            mon.check(not blob_opens() and not CALLS, "reading plain fields read lazy data", **info)
            if m.damaged:
                mon.count("untouched_damaged")
        elif op == "ctx":
            key = rng.choice(["late", "mode"])
            ctx[key] = k
            st.set_deserialize_ctx(key, k)
        elif op == "probe":
            del OPENS[:], CALLS[:]
            out = mon.call(hasattr, st, "no_such_attribute")
            mon.check(out.ok and out.value is False and not CALLS and not blob_opens(), "probing an attribute loads fields", **info)
        elif op == "copy":
            # a copy loads, or is given, fields of its own
            c = copy.copy(st)
            copies.append(c)
            if any(x in m.damaged for x in needs(nm)):
                continue
            if rng.random() < 0.3:
                out = mon.call(setattr, c, nm, lazy[nm][0]({"copy": k}))
                mon.check(out.ok, "assignment to a copy failed", outcome=out, **info)
            else:
                out = mon.call(getattr, c, nm)
                mon.check(out.ok, "access to a lazy field of a copy failed", outcome=out, **info)
                if nm in m.assigned or nm in m.loaded and pay[nm] != "NONE" and nm in m.value:
                    mon.check(out.value is m.value[nm], "a copy has another value than the original", field=nm, **info)
                elif pay[nm] == "NONE":
                    mon.check(out.value is None, "None field changed in a copy", field=nm, **info)
                else:
                    mon.check(restored(out.value, lazy[nm][0], pay[nm]), "a field of a copy differs from the saved one", field=nm, **info)
            mon.count("copies")
            if rng.random() < 0.5:
                access(nm, 0)
        elif op == "save":
            save_check(rng, mon, st, cls, lazy, m, pay, needs, info, items, sm if use_manager else None, k)
            for x in lazy:
                if not m.ready(x) and x not in m.damaged:
                    resync([x])
    mon.distinct(str(items), tuple(ops))
    mon.sample({"state": [(a, str(b)) for a, b in items], "ops": ops})


def save_check(rng, mon, st, cls, lazy, m, pay, needs, info, items, sm, k):
    target = os.path.join(mon.dir, f"again{k}" if sm is not None or rng.random() < 0.5 else "again")
    unread = [x for x in lazy if not m.ready(x)]
    broken = any(y in m.damaged for x in lazy for y in needs(x))
    if sm is not None:
        out = mon.call(sm.checkpoint, target)
    else:
        mon.count("saved_over", os.path.exists(target))
        os.makedirs(target, exist_ok=True)
        out = mon.call(hyperstate.dump, st, os.path.join(target, "state.ron"))
    if broken:
        mon.check(not out.ok, "saving an object whose data is missing succeeded", outcome=out, **info)
        return
    mon.check(out.ok, "saving again failed", outcome=out, **info)
    out = mon.call(hyperstate.load, cls, os.path.join(target, "state.ron"))
    mon.check(out.ok, "saved again, does not load", outcome=out, **info)
    back = out.value
    for x in lazy:
        del CALLS[:]
        got = mon.call(getattr, back, x)
        mon.check(got.ok, "field saved again does not load", field=x, outcome=got, **info)
        for c in CALLS:
            mon.check(not c[4] and c[3] is back and c[6] is back, "a state without context sees that of another", got=c[4], **info)
            mon.count("contexts_apart")
        if x in m.assigned:
            want = m.value[x]
            ok = (got.value is None) if want is None else type(got.value) is type(want) and same(got.value.payload, want.payload)
            mon.check(ok, "assigned value was not saved", field=x, **info)
        elif pay[x] == "NONE":
            mon.check(got.value is None, "None field changed by saving again", field=x, **info)
        else:
            mon.check(restored(got.value, lazy[x][0], pay[x]),
                      "saving again changed the data of a field", field=x, never_accessed=x in unread, value=got.value, **info)
            if x in unread:
                mon.count("saved_unaccessed")
    for a, t in items:
        if a not in lazy:
            mon.check(getattr(back, a) == getattr(st, a), "plain field changed by saving again", field=a, **info)


@dataclasses.dataclass
class Holder:
    net: PA


@dataclasses.dataclass
class NestedState(Lazy):
    step: int
    holder: Holder


@dataclasses.dataclass
class NotLazy:
    step: int
    net: PA


@dataclasses.dataclass
class TwoA(Lazy):
    step: int
    net: PA


def probe_nested(d):
    hyperstate.dump(NestedState(1, Holder(PA({"w": 1}))), os.path.join(d, "state.ron"))
    return hyperstate.load(NestedState, os.path.join(d, "state.ron")).holder.net is None


def probe_not_lazy(d):
    hyperstate.dump(NotLazy(1, PA({"w": 1})), os.path.join(d, "state.ron"))
    return hyperstate.load(NotLazy, os.path.join(d, "state.ron")).net is None


def probe_clobber(d):
    hyperstate.dump(TwoA(1, PA("a")), os.path.join(d, "a.ron"))
    hyperstate.dump(TwoA(2, PA("b")), os.path.join(d, "b.ron"))
    return hyperstate.load(TwoA, os.path.join(d, "a.ron")).net.payload == "b"


PROBES = {"nested-serializable-none": probe_nested, "serializable-in-non-lazy-none": probe_not_lazy,
          "two-dumps-one-directory": probe_clobber}
