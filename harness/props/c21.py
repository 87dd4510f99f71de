"""C21 Command decorators run the program only on the config asked for."""
import copy
import dataclasses
import json
import os
import re
import subprocess
import sys
import typing

import hyperstate
import cli
import gen
import ovr
from gen import Opts, St
from hyperstate import StateManager
from hyperstate.command import command, stateful_command
from props.c03 import drop_some
from props.c04 import ill_typed, unknown
from props.c23 import plain

LEVEL = "exploration"
RULE = ("one case = a generated config class behind both decorators and 6 command lines (config file, overrides, resume and checkpoint "
        "locations, hyperparameter info, in any order; valid, incomplete, ill-typed, unknown, malformed, contradictory), run in-process with a "
        "recording program, some as real processes; monitors: calls of the program with their config and state, exit status, output; "
        "non-trivial = distinct (class, command line, file)")
CASES = {"quick": 1600, "thorough": 60000}
REQUIRE = {"distinct": 6000, "ran": 3500, "config_errors": 1200, "unknown_names": 500, "no_equals": 150, "ill_typed": 250, "info": 500,
           "resumed": 300, "auto_resumed": 300, "resume_ignored": 60, "contradictory": 60, "usage_errors": 150, "program_errors": 100,
           "bad_files": 300, "other_key": 300, "processes": 25}
OPTS = Opts(versioned=0.15, max_fields=5, reuse=0.2)


class Rec:
    """What the program was given."""

    def __init__(self):
        self.calls, self.initial = [], []


class Boom(Exception):
    pass


def make_state(key):
    return dataclasses.make_dataclass("RunState", [
        (key, int), ("tag", str), ("hist", typing.List[float], dataclasses.field(default_factory=list))])


STATES = {k: make_state(k) for k in ("step", "epoch", "seen")}


def shown(res):
    return plain(res.out) + "\n" + plain(res.err) + "\n" + (str(res.exc) if res.exc is not None else "")


def names_offender(mon, res, words, info):
    text = shown(res).lower()
    words = [w.lower().strip("'\"") for w in words]
    # of long values, some part: they may be shown as Python values
    parts = [p for w in words for p in re.findall(r"[\w.]+", w)]
    parts += ["''" for w in words if '""' in w]
    mon.check(any(w in text for w in words) or any(re.search(r"(?<!\w)" + re.escape(p) + r"(?!\w)", text) for p in parts), "the error names neither the offending field nor its value", expected=words, outcome=res, **info)


def arrange(rng, opts, pos):
    """Options in random order; positional arguments together, before or after them."""
    opts = list(opts)
    rng.shuffle(opts)
    parts = [list(x) for x in opts]
    if pos:
        k = rng.randint(0, len(parts))
        parts.insert(k, list(pos))
    flat = []
    for x in parts:
        if len(x) == 2 and x[0].startswith("--") and rng.random() < 0.3:
            flat.append(x[0] + "=" + x[1])
        else:
            flat += x
    return flat


def checkpoint(rng, st, state_cls, key, value, cfg, where, name=None):
    """A stored run, made through the public interface."""
    text = gen.render(gen.to_node(st, cfg))
    p = where + ".init.ron"
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)
    s = state_cls(value, f"stored {value}", [float(value), 0.5])
    if name is None:
        sm = StateManager(st.cls, state_cls, lambda c, x: s, init_path=p, checkpoint_dir=where, checkpoint_key=key)
        sm.step()
    else:
        sm = StateManager(st.cls, state_cls, lambda c, x: s, init_path=p)
        sm.state
        os.makedirs(where, exist_ok=True)
        sm.checkpoint(os.path.join(where, name))
    return copy.deepcopy(s)


def line(rng, st, o, j, mon):
    stateful = rng.random() < 0.5
    key = rng.choice(["step", "step", "epoch", "seen"])
    state_cls = STATES[key]
    rec = Rec()
    ret = object()
    behave = rng.choice(["ok"] * 12 + ["boom", "exit"])
    steps = rng.random() < 0.5

    def program(x):
        rec.calls.append(x)
        if stateful:
            rec.cfg = copy.deepcopy(x.config)
            rec.state = copy.deepcopy(x.state)
            if steps:
                setattr(x.state, key, getattr(x.state, key) + 3)
                x.step()
        else:
            rec.cfg = x
        if behave == "boom":
            raise Boom("program failed")
        if behave == "exit":
            sys.exit(7)
        return ret

    def initial(cfg, ctx):
        rec.initial.append(copy.deepcopy(cfg))
        return state_cls(0, "fresh", [0.25])
    if stateful:
        kw = {} if key == "step" and rng.random() < 0.5 else {"checkpoint_key": key}
        main = stateful_command(st.cls, state_cls, initial, **kw)(program)
    else:
        main = command(st.cls)(program)

    # ---- the command line
    d = os.path.join(mon.dir, f"l{j}")
    os.mkdir(d)
    opts, texts, bad, words, spoiled, sound = [], [], None, [], None, None
    info = dict(type=st, stateful=stateful, key=key)
    node, source = ["m", []], "none"
    kinds = ["file", "file", "file", "none"]
    if stateful:
        kinds += ["resume", "resume", "auto", "auto", "auto+resume", "auto+file"]
    source = rng.choice(kinds)
    stored, ckpt, want_state = None, None, state_cls(0, "fresh", [0.25])
    if "file" in source:
        node = gen.to_node(st, gen.gen_value(st, rng, o), rng)
        node = drop_some(rng, st, node, rng.choice([0, 0, 0.15]))
        if node == ["m", []]:
            node = ["r", st.name, []] if st.version is None else ["r", st.name, [["version", ["i", st.version]]]]
        text = gen.render(node, rng)
        sound = copy.deepcopy(node)
        if source == "file" and rng.random() < 0.2:
            bad = rng.choice(["nofile", "garbage", "extra", "type"])
            if bad == "garbage":
                text = rng.choice(["((", "lr: 3", text + " )", text + " junk"])
            elif bad == "extra":
                if node[0] == "r":
                    text = gen.render([node[0], node[1], node[2] + [["no_such_field", ["i", 1]]]], rng)
                    words = ["no_such_field"]
                else:
                    bad = None
            elif bad == "type":
                c = [x for x in (node[2] if node[0] == "r" else []) if x[0] != "version"]
                if c:
                    it = rng.choice(c)
                    it[1] = ["l", [["t", [["n"], ["s", "odd value"]]]]]
                    if gen.ref_load(st, node)[0] == gen.REJ:
                        text = gen.render(node, rng)
                        words, spoiled = [it[0], "odd value"], it[0]
                    else:
                        bad = "skip"
                else:
                    bad = None
        p = os.path.join(d, rng.choice(["config.ron", "my config.ron", "c.txt"]))
        if bad == "nofile":
            words = [os.path.basename(p)]
        else:
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(text)
            info["text"] = text
        opts.append(["--config", p])
    if bad == "skip":
        return
    if "resume" in source:
        cfg = gen.gen_value(st, rng, o)
        base = os.path.join(d, "stored")
        v = rng.choice([1, 50, 10**9])
        want_state = checkpoint(rng, st, state_cls, key, v, cfg, base, "c")
        node = gen.to_node(st, cfg)
        opts.append(["--resume-from", os.path.join(base, "c")])
    if stateful and ("auto" in source or rng.random() < 0.3):
        ckpt = os.path.join(d, "ckpt")
        if "auto" in source:
            cfg = gen.gen_value(st, rng, o)
            want_state = checkpoint(rng, st, state_cls, key, rng.choice([2, 99, 12345]), cfg, ckpt)
            node = gen.to_node(st, cfg)
        opts.append(["--checkpoint-dir", ckpt])
    ovs = ovr.gen_overrides(rng, st, o, rng.choice([0, 0, 1, 1, 2, 3]))
    sound = node if sound is None else sound
    ovs = [x for x in ovs if x[1][0] != spoiled]  # an override may well repair the file
    if source == "none":
        for q, f in ovr.paths(st):
            if not f.has_default and not isinstance(f.t, St) and rng.random() < 0.97:
                t, n = ovr.token(rng, f.t, gen.gen_value(f.t, rng, o))
                ovs.append((".".join(q) + "=" + t, q, n))
    texts = [x[0] for x in ovs]
    names = []
    r = rng.random()
    if bad is None and st.fields:
        if r < 0.12:
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = unknown(rng, st)
                if u is not None and "=" not in u and not u.startswith("-"):
                    names.append(u)
                    texts.insert(rng.randint(0, len(texts)), u + "=" + rng.choice(["1", "x", "true"]))
            if names:
                bad = "unknown"
        elif r < 0.17:
            q = rng.choice(list(ovr.paths(st)))[0]
            w = rng.choice([".".join(q), ".".join(q) + ":1", "oops", q[-1] + "5"])
            texts.insert(rng.randint(0, len(texts)), w)
            bad, words = "no_equals", [w]
        elif r < 0.26:
            b = ill_typed(rng, st, o)
            if b is not None:
                texts.append(b[0])
                bad = "ill_typed"
                words = [b[1][-1], b[0].split("=", 1)[1], "`version`"]  # (the last: a value of a versioned class that has none)
    extra = rng.random()
    if extra < 0.04 and stateful and source in ("file", "resume"):
        # both
        other = ["--resume-from", os.path.join(d, "x")] if source == "file" else ["--config", os.path.join(d, "x.ron")]
        opts.append(other)
        bad, words = "contradictory", ["--config", "--resume-from"]
    elif extra < 0.08:
        w = rng.choice(["--no-such-option", "--lr", "--frobnicate"])
        opts.append([w])
        bad, words = "usage", [w]
    elif extra < 0.1 and not stateful:
        opts.append(["--checkpoint-dir", os.path.join(d, "x")])
        bad, words = "usage", ["--checkpoint-dir"]
    ask = rng.random() < 0.08 and bad != "usage"
    if rng.random() < 0.15:
        opts.append([rng.choice(["-v", "--verbose"])])
    if ask:
        # last, so that it takes no override as its query
        q = rng.choice(["", "lr"] + [f.name for f in st.fields])
        if any(x.startswith("-") for x in texts):
            return
        args = arrange(rng, opts, texts) + (["--hps-info"] + ([q] if q else []) if rng.random() < 0.7 or not q else ["--hps-info=" + q])
    else:
        args = arrange(rng, opts, texts)
    if any(x.startswith("-") for x in texts):
        return
    info["args"] = args
    mon.distinct(gen.describe(st), args, info.get("text"))
    mon.count("api_calls")
    res = cli.run(main, args)
    info["outcome"] = res
    info["bad"] = bad

    # ---- verdicts
    if ask:
        mon.check(not rec.calls and not rec.initial and res.code == 0 and res.exc is None, "asking for hyperparameter information fails or runs "
                  "the program", ran=rec.calls, **info)
        direct = cli.run(hyperstate.help, [], st.cls, q)
        mon.check(plain(res.out) == plain(direct.out), "hyperparameter information differs from the help", query=q, **info)
        mon.count("info")
        return
    if bad in ("usage", "contradictory", "no_equals"):
        mon.check(not rec.calls and not rec.initial, "the program runs although the arguments are invalid", ran=rec.calls, **info)
        names_offender(mon, res, words, {k: v for k, v in info.items() if k != "outcome"})
        if bad != "no_equals":
            mon.check(res.code != 0, "invalid arguments are not reported as a failure", **info)
        mon.count({"usage": "usage_errors"}.get(bad, bad))
        return
    status, want = gen.REJ, None
    if bad is None:
        try:
            status, want = gen.ref_load(st, ovr.apply(st, node, ovs) if ovs or source == "none" else node)
        except ovr.Rejected:
            return
    only = True  # nothing else is wrong: several mistakes need not all be named
    if bad not in (None, "nofile", "garbage"):
        try:
            only = gen.ref_load(st, ovr.apply(st, sound, ovs) if ovs or source == "none" else sound)[0] == gen.OK
        except ovr.Rejected:
            only = False
    got_config = rec.calls and hasattr(rec, "cfg")
    if status == gen.REJ:
        mon.check(not got_config and not rec.initial, "the program gets a config although it is invalid", ran=getattr(rec, "cfg", None), **info)
        mon.check(res.code != 0, "a config error does not make the process fail", **info)
        rest = {k: v for k, v in info.items() if k != "outcome"}
        for u in names:
            names_offender(mon, res, [u], rest)
            mon.count("unknown_names")
        if words and only:
            names_offender(mon, res, words, rest)
        mon.check(len(shown(res).strip()) > 0, "a config error is not explained", **info)
        mon.count("config_errors")
        mon.count("ill_typed", bad == "ill_typed")
        mon.count("bad_files", bad in ("nofile", "garbage", "extra", "type"))
        return
    if status != gen.OK:
        return
    mon.check(len(rec.calls) == 1, "the program is not run exactly once", ran=len(rec.calls), **info)
    if stateful:
        mon.check(isinstance(rec.calls[0], StateManager) and got_config, "the program does not get a working state manager", **info)
    x = gen.diff(want, rec.cfg)
    mon.check(x is None, "the program gets another config than the one asked for", diff=x, **info)
    mon.count("ran")
    if behave == "boom":
        mon.check(res.code != 0 and isinstance(res.exc, Boom), "failure of the program is not passed on", **info)
        mon.count("program_errors")
    elif behave == "exit":
        mon.check(res.code == 7 and res.exc is None, "exit status of the program is not passed on", **info)
        mon.count("program_errors")
    else:
        mon.check(res.code == 0 and res.exc is None and res.value is ret, "result of the program is not passed on", **info)
    if not stateful:
        return
    x = gen.diff(want_state, rec.state)
    mon.check(x is None, "the program gets another state than the one asked for", diff=x, **info)
    fresh = "auto" not in source and "resume" not in source
    mon.check(len(rec.initial) == (1 if fresh else 0), "initial state is created although a run is resumed, or more than once",
              created=len(rec.initial), **info)
    if fresh:
        mon.check(gen.diff(want, rec.initial[0]) is None, "initial state is created for another config", **info)
    mon.count("resumed", source == "resume")
    mon.count("auto_resumed", "auto" in source)
    mon.count("resume_ignored", source == "auto+resume")
    mon.count("other_key", key != "step")
    if ckpt:
        if steps:
            value = getattr(want_state, key) + 3
            mon.check(sorted(os.listdir(ckpt)) == [f"latest-{key}{value:012}"], "the run is not stored in the checkpoint directory",
                      files=os.listdir(ckpt), **info)
            sm = StateManager(st.cls, state_cls, initial, checkpoint_dir=ckpt, checkpoint_key=key)
            mon.check(gen.diff(want, sm.config) is None and getattr(sm.state, key) == value, "the stored run is another one", **info)
        elif "auto" in source:
            mon.check(len(os.listdir(ckpt)) == 1, "the checkpoint directory was changed", files=os.listdir(ckpt), **info)


PROGRAM = '''
import json, sys
from dataclasses import dataclass, asdict
sys.path.insert(0, %(repo)r)
from hyperstate import command, stateful_command, StateManager

@dataclass
class Opt:
    lr: float = 0.1
    name: str = "adam"

@dataclass
class Config:
    opt: Opt
    steps: int
    wide: bool = False

@dataclass
class State:
    step: int = 0
    loss: float = 1.5

def note(**kw):
    print("RAN " + json.dumps(kw))

if %(stateful)r:
    @stateful_command(Config, State, lambda c, x: State(step=c.steps))
    def main(sm: StateManager):
        note(config=asdict(sm.config), state=asdict(sm.state))
        sm.state.step += 1
        sm.step()
else:
    @command(Config)
    def main(cfg: Config):
        note(config=asdict(cfg))

if __name__ == "__main__":
    main()
'''


def process(rng, i, mon):
    """The same for real processes."""
    import core
    stateful = rng.random() < 0.6
    script = os.path.join(mon.dir, "prog.py")
    with open(script, "w") as f:
        f.write(PROGRAM % dict(repo=core.REPO, stateful=stateful))
    cfg = {"opt": {"lr": 0.1, "name": "adam"}, "steps": 0, "wide": False}
    args, bad, word = [], None, None
    if rng.random() < 0.5:
        p = os.path.join(mon.dir, "c.ron")
        cfg["steps"] = rng.randint(1, 99)
        cfg["opt"]["lr"] = rng.choice([0.5, 2.0])
        with open(p, "w") as f:
            f.write(f"Config(opt: Opt(lr: {cfg['opt']['lr']}), steps: {cfg['steps']})")
        args += ["--config", p]
    else:
        cfg["steps"] = rng.randint(1, 99)
        args += [f"steps={cfg['steps']}"]
    if "--config" in args or rng.random() < 0.5:
        cfg["opt"]["name"] = rng.choice(["a=b", "x y", "sgd"])
        args += ["opt.name=" + cfg["opt"]["name"]]
    k = rng.choice(["ok", "ok", "unknown", "value", "noeq", "info", "both", "option"])
    if k == "unknown":
        args.append("opt.lrr=3")
        bad, word = True, "lrr"
    elif k == "value":
        args.append("wide=maybe")
        bad, word = True, "wide"
    elif k == "noeq":
        args.append("opt.lr")
        bad, word = "print", "opt.lr"
    elif k == "info":
        args.append("--hps-info")
        bad, word = "print", "lr: float = 0.1"
    elif k == "both":
        if not stateful:
            k = "ok"
        else:
            args += ["--resume-from", "x"] + ([] if "--config" in args else ["--config", "y"])
            bad, word = True, "--resume-from"
    elif k == "option":
        args.append("--nonsense")
        bad, word = True, "--nonsense"
    ckpt = os.path.join(mon.dir, "ck")
    if stateful and bad is None:
        args += ["--checkpoint-dir", ckpt]
    env = dict(os.environ)
    runs = 2 if stateful and bad is None else 1
    want_step = cfg["steps"]
    for _ in range(runs):
        # options and their values first: positional arguments must stay together
        pos = [a for n, a in enumerate(args) if not a.startswith("-") and not (n and args[n - 1] in ("--config", "--resume-from", "--checkpoint-dir"))]
        opt = [a for n, a in enumerate(args) if a not in pos]
        r = subprocess.run([sys.executable, script] + pos + opt if rng.random() < 0.5 else [sys.executable, script] + opt + (
            [] if k == "info" else pos), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=mon.dir, timeout=120)
        out, err = plain(r.stdout.decode()), plain(r.stderr.decode())
        info = dict(args=args, status=r.returncode, stdout=out, stderr=err, stateful=stateful)
        ran = [json.loads(x[4:]) for x in out.splitlines() if x.startswith("RAN ")]
        mon.count("processes")
        if bad:
            mon.check(not ran, "the program runs although the command line is invalid", **info)
            mon.check((r.returncode != 0) == (bad is True), "wrong exit status", **info)
            mon.check(word in out + err, "the output does not name the offender", expected=word, **info)
            return
        mon.check(r.returncode == 0 and len(ran) == 1, "the program does not run once", **info)
        mon.check(ran[0]["config"] == cfg, "the program gets another config", want=cfg, **info)
        if stateful:
            mon.check(ran[0]["state"] == {"step": want_step, "loss": 1.5}, "the program gets another state", want=want_step, **info)
            want_step += 1
            mon.check(os.listdir(ckpt) == [f"latest-step{want_step:012}"], "checkpoint is not stored", files=os.listdir(ckpt), **info)


def case(rng, i, mon):
    if i % 50 == 0:
        return process(rng, i, mon)
    o = OPTS
    st = gen.gen_struct(rng, o, rng.choice([1, 2, 2, 3]), version=rng.randint(0, 3) if rng.random() < 0.2 else None)
    for j in range(6):
        line(rng, st, o, j, mon)
    mon.sample({"type": gen.describe(st)})
