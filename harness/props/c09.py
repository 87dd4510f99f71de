"""C09 Checkpointing touches only its own files."""
import os
import random
import shutil
import uuid

import hyperstate
import fsm
import runs
from hyperstate import StateManager

LEVEL = "exploration"
RULE = ("one case = a checkpoint directory and surroundings filled with bystanders (many with names resembling checkpoints), a run of 2-4 "
        "lives with steps, repeated steps, explicit checkpoints and idle restarts; every mutating file operation of the process is "
        "traced and compared with what the run owns, directory trees are compared before and after; non-trivial = distinct "
        "(bystanders, history)")
CASES = {"quick": 900, "thorough": 25000}
REQUIRE = {"distinct": 800, "steps": 3000, "operations": 80000, "bystanders": 6000, "lookalike_dirs": 2000, "resumes": 1200,
           "explicit": 500, "xdev": 400, "latest_replaced": 1500, "onto_something": 300}


def lookalikes(rng, key):
    n = rng.choice(["000000000999", "999999999999", "000000000001", "000000001000"])
    return [f"latest", "latest-", f"latest-{key}", f"latest-{key}-{n}", f"latest-{key}{n}.bak", f"latest-{key}{n[1:]}", f"latest-{key}0{n}",
            f"latest-{key}+{n[1:]}", f"latest-{key}{n[:6]}_{n[7:]}", f"latest-{key} {n[1:]}", f"xlatest-{key}{n}", f"Latest-{key}{n}",
            f"{key}{n}", f"ckpt-{n}", n, f"best-{key}{n}", f"latest-{key}s{n}", f"latest-other{n}", f"latest-{key}{n}.{uuid.UUID(int=rng.getrandbits(128))}.tmp",
            f".latest-{key}{n}", f"latest-{key}{n}~", f"latest_{key}{n}", f"latest-{key[:-1]}{n}", f"my-latest-{key}{n}", f"latestbackup{n}",
            f"latest-{key}{n}.tmp", f"checkpoint", f"tmp{n}", f"latest-{key}\uff11\uff12{n[2:]}", f"{key}-{n}-latest"]


def perfect(name, key):
    """Is this exactly the name the state manager gives to a checkpoint at some progress?"""
    v = name[len("latest-" + key):]
    try:
        return name.startswith("latest-" + key) and name == f"latest-{key}{int(v):012}"
    except ValueError:
        return False


def fill(rng, d, kind):
    if kind == "file":
        with open(d, "wb") as f:
            f.write(os.urandom(0) + bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 30))))
        return
    if kind == "link":
        os.symlink(rng.choice(["nowhere", "/nonexistent/x", "."]), d)
        return
    os.makedirs(d)
    if kind == "empty":
        return
    for nm in rng.sample(["config.ron", "state.ron", "state.net.msgpack", "notes.txt", "events.log"], rng.randint(1, 4)):
        with open(os.path.join(d, nm), "w") as f:
            f.write(rng.choice(["", "garbage(", "State(tag: 1)", "{}"]))
    if rng.random() < 0.3:
        os.makedirs(os.path.join(d, "sub"))
        with open(os.path.join(d, "sub", "x"), "w") as f:
            f.write("deep")


def case(rng, i, mon):
    root = os.path.realpath(mon.dir)
    fs1 = os.path.join(root, "fs1")
    os.makedirs(fs1)
    tmp = os.path.join(root, "fs2")
    runs.use_tmp(tmp)
    key = rng.choice(list(runs.STATES))
    scls, ccls = rng.choice(runs.STATES[key]), rng.choice([runs.Conf, runs.VConf])
    xdev = rng.random() < 0.5
    fsm.reset(root, xdev=fs1 if xdev else None)
    if xdev:
        mon.count("xdev")
    ck = os.path.join(fs1, rng.choice(["run", f"latest-{key}000000000500", "deep/er/run", "run.tmp", "latest"]))
    os.makedirs(ck)
    seed = rng.random()
    fresh = []

    def initial(cfg, ctx):
        fresh.append(1)
        return runs.initial(scls, key, random.Random(seed))
    # another run provides complete bystanders and initial checkpoints
    other_dir = os.path.join(fs1, "otherrun")
    other = StateManager(ccls, scls, initial, checkpoint_dir=other_dir, checkpoint_key=key)
    runs.advance(other, key, 77, rng, inc=rng.choice([5, 999]))
    other.step()
    other_ck = os.path.join(other_dir, os.listdir(other_dir)[0])
    names = []
    for base, pool in ((ck, lookalikes(rng, key)), (os.path.dirname(ck), lookalikes(rng, key)), (tmp, ["tmpabc", "checkpoint", "latest-x", "keep"])):
        for nm in rng.sample(pool, rng.randint(0, min(8, len(pool)))):
            p = os.path.join(base, nm)
            if os.path.lexists(p) or (base == ck and perfect(nm, key)):
                continue
            kind = rng.choice(["file", "empty", "dir", "dir", "copy", "copy", "link"])
            if kind == "copy":
                shutil.copytree(other_ck, p)
            else:
                fill(rng, p, kind)
            names.append((os.path.relpath(p, root), kind))
            mon.count("bystanders")
            if kind in ("empty", "dir", "copy") and base == ck:
                mon.count("lookalike_dirs")
    if rng.random() < 0.4:
        # a file (not a directory) with a perfect checkpoint name
        p = os.path.join(ck, f"latest-{key}{10**7 + 13:012}")
        if not os.path.lexists(p):
            fill(rng, p, "file")
            names.append((os.path.relpath(p, root), "file"))
    init = rng.choice([None, "config", "config", other_ck, "inside"])
    if init == "config":
        init = os.path.join(rng.choice([ck, root, fs1]), rng.choice(["config.ron", f"latest-{key}.ron"]))
        with open(init, "w") as f:
            f.write(hyperstate.dumps(runs.take and ccls(runs.OptConf(), tag=5)))
    elif init == "inside":
        init = os.path.join(ck, rng.choice(["initial", f"best-{key}000000007777"]))
        if os.path.lexists(init):
            init = None
        else:
            shutil.copytree(other_ck, init)
    before = fsm.tree(root)
    explicit, latest, want = {}, None, None
    hist = []
    info = dict(key=key, bystanders=names, xdev=xdev, history=hist, init=init and os.path.relpath(init, root))
    rel = lambda p: os.path.relpath(p, root)
    ck_rel, tmp_rel = rel(ck), rel(tmp)
    top = lambda p, base: base + "/" + p[len(base) + 1:].split("/")[0]
    targets = []

    def verdict(ops, own_latest):
        """Every effective mutation stays within new entries of the checkpoint and temporary directories and owned checkpoints."""
        for op, p1, p2, res, e in ops:
            if res < 0:
                continue
            mon.count("operations")
            for p in (p1, p2):
                if not p or (p == p2 and op == "write"):
                    continue
                if p.endswith(" (deleted)"):
                    p = p[:-10]
                ok = False
                if p.startswith(root + "/"):
                    r = rel(p)
                    for base in (ck_rel, tmp_rel):
                        if r == base:
                            ok = op in ("mkdir",) and False
                        elif r.startswith(base + "/"):
                            t = top(r, base)
                            if t not in before and t not in [rel(x) for x in explicit]:
                                ok = True
                    for t in targets[-1:]:
                        if r == t or r.startswith(t + "/") or (os.path.dirname(r) == os.path.dirname(t) and r not in before) or \
                                any(r.startswith(os.path.dirname(t) + "/") and top(r, os.path.dirname(t)) not in before for _ in (0,)):
                            ok = True
                mon.check(ok, "an operation modified something the state manager does not own", operation=(op, p1, p2), **info)

    def surroundings(when):
        now = fsm.tree(root)
        for r, e in before.items():
            mon.check(r in now, f"{when}: something that belongs to others is gone", path=r, **info)
            same = now[r][0] == e[0] and now[r][2] == e[2] and (e[0] != "file" or now[r][1] == e[1]) and (e[0] != "dir" or now[r][1] == e[1])
            mon.check(same, f"{when}: something that belongs to others was modified", path=r, was=e, now=now[r], **info)
        for t, tree in explicit.items():
            mon.check(fsm.tree(t) == tree, f"{when}: an explicit checkpoint was modified", path=rel(t), **info)
        new_ck = sorted({top(r, ck_rel) for r in now if r.startswith(ck_rel + "/")} - set(before) - {rel(t) for t in explicit})
        new_tmp = sorted({top(r, tmp_rel) for r in now if r.startswith(tmp_rel + "/")} - set(before))
        mon.check(not new_tmp, f"{when}: temporary leftovers", leftovers=new_tmp, **info)
        expect = [f"{ck_rel}/{latest}"] if latest else []
        mon.check(new_ck == expect, f"{when}: the checkpoint directory does not contain exactly one latest checkpoint named after the step",
                  found=new_ck, expected=expect, **info)
        rest = sorted(r for r in now if r not in before and not r.startswith(ck_rel + "/") and not r.startswith(tmp_rel + "/")
                      and not any(r == rel(t) or r.startswith(rel(t) + "/") for t in explicit))
        mon.check(not rest, f"{when}: new files outside the checkpoint directory", found=rest, **info)
    g = 0
    logfile = os.path.join(os.environ["HSV_SCRATCH"], f"c09log{os.getpid()}")
    for life in range(rng.randint(2, 4)):
        del fresh[:]
        with fsm.Log(logfile) as log:
            sm = StateManager(ccls, scls, initial, init_path=init, checkpoint_dir=runs.spell(rng, ck), checkpoint_key=key)
            out = mon.call(runs.take, sm)
        mon.check(out.ok, "run cannot be started or resumed next to unrelated entries", outcome=out, **info)
        if want is not None:
            r = runs.same(want, out.value)
            mon.check(r is None and not fresh, "unrelated entries change which checkpoint is resumed", problem=r, fresh=len(fresh), **info)
            mon.count("resumes")
        else:
            mon.check(len(fresh) == (0 if init and os.path.isdir(init) else 1), "a run without own checkpoint did not start from its initial "
                      "state or checkpoint", fresh=len(fresh), **info)
        verdict(log.ops, latest)
        surroundings("after starting")
        for k in range(rng.randint(0, 4)):
            act = rng.choice(["step", "step", "step", "again", "explicit", "dump", "onto"])
            hist.append((life, act))
            if act == "step":
                g += 1
                runs.advance(sm, key, g, rng)
            with fsm.Log(logfile) as log:
                if act in ("step", "again"):
                    if act == "again" and latest is None:
                        hist[-1] = (life, "first")
                    out = mon.call(sm.step)
                elif act == "explicit":
                    t = os.path.join(rng.choice([ck, root, fs1, os.path.join(fs1, "new")]), rng.choice(["exp", f"latest-{key}-exp", "ckpt.tmp"]) + str(g) + str(k) + str(life))
                    if not os.path.isdir(os.path.dirname(t)):
                        os.makedirs(os.path.dirname(t))
                        before[rel(os.path.dirname(t))] = ("dir", os.stat(os.path.dirname(t)).st_mode, None)
                    targets.append(rel(t))
                    out = mon.call(sm.checkpoint, str(runs.spell(rng, t)))
                elif act == "onto":
                    # there is something already: at best an error, never a loss
                    full = [r for r, e in before.items() if e[0] == "file" or e[0] == "dir" and any(x.startswith(r + "/") for x in before)]
                    full = [r for r in full if r not in (ck_rel, tmp_rel) and not ck_rel.startswith(r + "/") and not tmp_rel.startswith(r + "/")]
                    t = rng.choice([os.path.join(root, r) for r in full] + list(explicit))
                    out = mon.call(sm.checkpoint, str(runs.spell(rng, t)))
                else:
                    out = mon.call(lambda: (hyperstate.dumps(sm.config), sm.config_dict()))
            if act == "dump":
                log.ops = [o for o in log.ops]
            if act == "onto":
                mon.check(not out.ok, "a checkpoint replaced something that was there", path=rel(t), **info)
                mon.count("onto_something")
                # the failed attempt may leave its temporary copy beside the target
                log.ops = [o for o in log.ops if not (o[1].startswith(t + ".") and rel(o[1]) not in before)]
                for nm in os.listdir(os.path.dirname(t)):
                    p = os.path.join(os.path.dirname(t), nm)
                    if p.startswith(t + ".") and p.endswith(".tmp") and rel(p) not in before and p not in explicit:
                        shutil.rmtree(p)
            else:
                mon.check(out.ok, f"{act} failed", outcome=out, **info)
            if act == "explicit" and any(o[0] == "mkdir" and o[1] == os.path.join(fs1, "new") for o in log.ops):
                log.ops = [o for o in log.ops if o[1] != os.path.join(fs1, "new")]
            verdict(log.ops, latest)
            if act == "explicit":
                explicit[t] = fsm.tree(t)
                mon.count("explicit")
            elif act in ("step", "again"):
                new = f"latest-{key}{getattr(sm.state, key):012}"
                if latest and new != latest:
                    mon.count("latest_replaced")
                latest = new
                if act == "step" or want is None:
                    want = runs.take(sm)
                mon.count("steps")
            surroundings(f"after {act}")
    mon.distinct(tuple(names), tuple(hist))
    mon.sample({"bystanders": names, "history": hist, "init": info["init"]})
    fsm.reset()
