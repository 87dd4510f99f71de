"""Schedules: generation, independent evaluation, parsing."""
import math

import gen
from gen import Int, Flt, Opt, St


def num(rng, v):
    """Text of a number."""
    if isinstance(v, float) and rng.random() < 0.3:
        return f"{v:e}" if float(f"{v:e}") == v else repr(v)
    if v == int(v) and abs(v) < 1e15:
        return rng.choice([str(int(v)), repr(float(v)), f"{v:g}" if float(f"{v:g}") == v else str(int(v))])
    return repr(v)


class Sched:
    """points: [(x, y)], joins: interpolation between consecutive points."""

    def __init__(self, xname, points, joins):
        self.xname, self.points, self.joins = xname, points, joins

    def text(self, rng):
        out = [self.xname + ":"]
        last = "lin"
        for i, (x, y) in enumerate(self.points):
            if i:
                j = self.joins[i - 1]
                # An interpolation applies until the next one is named
                if j != last or rng.random() < 0.5:
                    out.append(j)
                last = j
            out.append(f"{num(rng, y)}@{num(rng, x)}")
        return " ".join(out)

    def eval(self, x):
        """Possible values at x (more than one only at a jump), and whether they are exact."""
        ps = self.points
        if x < ps[0][0]:
            return [ps[0][1]], True
        if x > ps[-1][0]:
            return [ps[-1][1]], True
        at = [y for a, y in ps if a == x]
        if at:
            return at, True
        for (x0, y0), (x1, y1), j in zip(ps, ps[1:], self.joins):
            if x0 < x < x1:
                p = (x - x0) / (x1 - x0)
                if j == "step":
                    return [y0], True
                if j == "lin":
                    return [y0 + (y1 - y0) * p], False
                return [y1 + (y0 - y1) * (1 + math.cos(math.pi * p)) / 2], False
        raise AssertionError

    def scale(self):
        return max(abs(y) for _, y in self.points) or 1.0

    def accepts(self, x, v, integer):
        vals, exact = self.eval(x)
        if exact and not any(a == x for a, _ in self.points):
            # rounding may put x on a knot that is only a few ulps away
            vals = vals + [b for a, b in self.points if abs(a - x) <= 1e-12 * max(1.0, abs(a))]
        for want in vals:
            if exact:
                if integer and v == int(want) or not integer and v == want:
                    return True
            else:
                tol = 1e-9 * self.scale()
                if integer:
                    if v in (int(want), int(want - tol), int(want + tol)):
                        return True
                elif abs(v - want) <= tol:
                    return True
        return False

    def __repr__(self):
        return f"{self.xname}:{self.points}{self.joins}"

    def same(self, other):
        return self.xname == other.xname and self.points == other.points and self.joins == other.joins


def parse(text):
    parts = text.split()
    if not parts or not parts[0].endswith(":"):
        raise ValueError(text)
    points, joins, j = [], [], "lin"
    for p in parts[1:]:
        if "@" in p:
            y, x = p.split("@")
            if points:
                joins.append(j)
            points.append((float(x), float(y)))
        else:
            j = p
    return Sched(parts[0][:-1], points, joins)


XNAMES = ("step", "epoch", "loss", "items")


def gen_sched(rng, integer, xnames=XNAMES):
    n = rng.choice([2, 2, 3, 4, 6])
    big = rng.random()
    if big < 0.3:
        xs = sorted(rng.sample(range(0, 40), n))
    elif big < 0.5:
        xs = sorted(float(x) for x in rng.sample(range(0, 400 * 10 ** 6, 50000), n))
    elif big < 0.7:
        xs = sorted(round(rng.uniform(-5, 20), 3) for _ in range(n))
        if len(set(xs)) < n:
            xs = list(range(n))
    else:
        xs = sorted(rng.sample(range(-20, 200), n))
    xs = [float(x) for x in xs]
    if n >= 3 and rng.random() < 0.3 or rng.random() < 0.04:
        k = rng.randrange(n - 1)
        xs[k + 1] = xs[k]  # jump, also at the first or last knot
    ys = []
    for _ in range(n):
        r = rng.random()
        if integer:
            ys.append(float(rng.choice([rng.randint(-20, 600), rng.randint(0, 10), round(rng.uniform(-10, 10), 2)])))
        elif r < 0.7:
            ys.append(round(rng.uniform(-2, 2), rng.randint(1, 5)))
        else:
            ys.append(rng.choice([0.0, 1.0, 1e-4, 3e-5, 100.0, -1.5, 0.1]))
    if rng.random() < 0.1:
        ys = [ys[0]] * n
    joins = [rng.choice(["lin", "lin", "cos", "step"]) for _ in range(n - 1)]
    if rng.random() < 0.3:
        joins = [rng.choice(["lin", "cos", "step"])] * (n - 1)
    return Sched(rng.choice(xnames), list(zip(xs, ys)), joins)


def interesting_x(rng, scheds, xname):
    """A value for the state field: on, beside, between and outside the knots."""
    ps = [p for s in scheds if s.xname == xname for p in s.points]
    if not ps:
        return float(rng.randint(0, 100))
    x = rng.choice(ps)[0]
    r = rng.random()
    if r < 0.35:
        return x
    if r < 0.5:
        return x + rng.choice([-1, 1])
    if r < 0.6:
        return math.nextafter(x, rng.choice([-math.inf, math.inf])) if hasattr(math, "nextafter") else x + 1e-9
    lo, hi = min(p[0] for p in ps), max(p[0] for p in ps)
    if r < 0.85:
        return rng.uniform(lo, hi)
    return rng.choice([lo - 5, hi + 5, hi * 2 + 100, -1e9, 1e12, 0.0])


def numeric(t):
    if isinstance(t, Opt):
        t = t.t
    return t if isinstance(t, (Int, Flt)) else None


def live_paths(st, v, prefix=()):
    """(path, field) of fields of the object v, through present dataclasses."""
    for f in st.fields:
        yield prefix + (f.name,), f
        t = f.t.t if isinstance(f.t, Opt) else f.t
        x = getattr(v, f.name)
        if isinstance(t, St) and x is not None:
            yield from live_paths(t, x, prefix + (f.name,))


def get(v, path):
    for p in path:
        v = getattr(v, p)
    return v


def put(v, path, x):
    setattr(get(v, path[:-1]), path[-1], x)


def check_config(mon, st, cfg, state, scheds, plain, **info):
    """All scheduled fields follow their schedule, all others keep their plain value. plain: a deep copy of the config."""
    for path, s in scheds.items():
        f = dict(live_paths(st, cfg))[path]
        integer = isinstance(numeric(f.t), Int)
        x, v = getattr(state, s.xname), get(cfg, path)
        mon.check(type(v) is (int if integer else float), "scheduled field has a value of another type", path=path, value=v, **info)
        mon.check(s.accepts(x, v, integer), "scheduled field differs from its schedule", path=path, x=x, value=v,
                  want=s.eval(x), schedule=s, **info)
        put(plain, path, v)
    d = gen.diff(plain, cfg)
    mon.check(d is None, "a field without schedule changed", diff=d, **info)
