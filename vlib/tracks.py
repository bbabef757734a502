"""Scenes for the tracking checks: tracks on a whole-millimetre grid seen by up to four parallel-projection cameras."""
ROWS_U = [(5, 0, 0), (4, 0, -3), (5, 0, 0), (4, 0, 3)]
ROWS_V = [(0, -5, 0), (0, -5, 0), (0, -4, 3), (0, -5, 0)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


class Scene:
    """Frames of particles (positions in mm), targets in half pixels; text() is the harness input."""

    def __init__(self, rng, kind="f", n=None, tracks=None, add=None, ghosts=0.1, size=None, amax=None, ncams=None, crowd=None, lost=None, noise=None):
        self.lost, self.noise = lost, noise
        self.rng, self.kind = rng, kind
        k = ncams or rng.choice((1, 2, 2, 3, 3, 4, 4, 4))
        self.cams = sorted(rng.sample(range(4), k)) if rng.random() < .5 else rng.sample(range(4), k)
        self.imx, self.imy = size or rng.choice(((323, 295), (203, 231), (263, 187), (163, 171)))
        self.first = rng.choice((1, 1, 2, 9, 99, 10001))
        self.n = n or rng.choice((2, 3, 3, 4, 4, 5, 6, 8))
        self.last = self.first + self.n - 1
        self.bounds(amax or rng.choice((1, 2, 2, 3, 4)))
        self.dacc = rng.choice((1030, 1210, 1370, 1570, 1810, 2130, 2470, 2710, 3530, 4690, 6130, 11270))
        self.dang = rng.choice((3000, 15300, 40000, 77000, 120300, 201000))
        self.add = rng.random() < .4 if add is None else add
        self.zlo, self.zhi = rng.choice(((-25, 25), (-13, 13), (-5, 25), (-9, 3)))
        self.stale = 1
        self.ghost_pts = []
        self.frames = []
        self.tracks(rng.choice((1, 2, 3, 4, 6, 9)) if tracks is None else tracks, ghosts, rng.random() < .4 if crowd is None else crowd)

    def bounds(self, a):
        rng = self.rng
        while True:
            dv = []
            for _ in range(3):
                lo, hi = (a, a) if rng.random() < .7 else rng.choice(((a, 1), (1, a), (a, 0)))
                dv += [-100 * lo - rng.randint(3, 47), 100 * hi + rng.randint(3, 47)]
            if all(5 <= s % 50 <= 45 for c in self.cams for row in (ROWS_U[c], ROWS_V[c])
                   for s in (sum(min(r * dv[2 * i], r * dv[2 * i + 1]) for i, r in enumerate(row)),
                             sum(max(r * dv[2 * i], r * dv[2 * i + 1]) for i, r in enumerate(row)))):
                self.dv, self.a = dv, a
                return

    def proj(self, c, x):
        h = [2 * v for v in x]
        return self.imx + dot(ROWS_U[c], h), self.imy + dot(ROWS_V[c], h)

    def inside(self, t):
        return 3 <= t[0] <= 2 * self.imx - 3 and 3 <= t[1] <= 2 * self.imy - 3

    def tracks(self, count, ghosts, crowd):
        rng = self.rng
        rx, ry = max(4, self.imx // 12), max(4, self.imy // 12)
        if crowd is True:
            rx, ry = min(rx, 5), min(ry, 5)
        at = self.local() if crowd in ("local", "back") else self.flow(count, rx, ry)
        if crowd == "back":
            at.reverse()
        lost = self.lost if self.lost is not None else rng.choice((0, 0, .1, .25))       # a particle seen but not in the particle list
        unseen = rng.choice((0, 0, .1, .3))      # a particle not seen in some camera
        shaky = rng.choice((0, .3, .6))
        decoy = rng.choice((0, .3)) * (lost > 0)
        noise = self.noise if self.noise is not None else rng.choice((0, 0, .5, 2)) * (ghosts > 0)
        for f in range(self.n):
            parts, tg = [], [[] for _ in self.cams]
            here, decoys = list(at[f]), []
            rng.shuffle(here)
            for k, x in here:
                gone = rng.random() < lost
                if gone:
                    self.ghost_pts.append(x)
                own = None
                if not gone:
                    own = len(parts)
                    parts.append({"x": x, "k": k, "prev": -1, "next": -2, "corr": [-1] * len(self.cams)})
                for i, c in enumerate(self.cams):
                    t = self.proj(c, x)
                    if not gone and rng.random() < shaky:
                        t = (t[0] + rng.randint(-2, 2), t[1] + rng.randint(-2, 2))
                    if rng.random() >= unseen and self.inside(t) and all((u[0], u[1]) != t for u in tg[i]):
                        tg[i].append((t[0], t[1], -1 if gone else own, len(self.ghost_pts) if gone else 0))
                        if gone and rng.random() < decoy:      # a wrong unclaimed target beside the right one
                            u = (t[0] + rng.randint(-5, 5), t[1] + rng.randint(-5, 5))
                            if self.inside(u) and all((w[0], w[1]) != u for w in tg[i]):
                                decoys.append((i, u))
            for i, u in decoys:
                self.ghost_pts.append((0, 0, 0))
                tg[i].append((u[0], u[1], -1, len(self.ghost_pts)))
            for _ in range(int(noise + rng.random())):
                x = (rng.randint(-rx, rx), rng.randint(-ry, ry), rng.randint(-5, 5))
                self.ghost_pts.append(x)
                for i, c in enumerate(self.cams):
                    t = self.proj(c, x)
                    if rng.random() < .6 and self.inside(t) and all((u[0], u[1]) != t for u in tg[i]):
                        tg[i].append((t[0], t[1], -1, len(self.ghost_pts)))
            for i in range(len(self.cams)):
                tg[i].sort(key=lambda t: t[1])
                for j, t in enumerate(tg[i]):
                    if t[2] >= 0:
                        parts[t[2]]["corr"][i] = j
            self.frames.append((parts, tg))

    def flow(self, count, rx, ry):
        """Tracks of slowly changing velocity."""
        rng = self.rng
        at = [[] for _ in range(self.n)]
        for k in range(count):
            x = [rng.randint(-rx, rx), rng.randint(-ry, ry), rng.randint(-5, 5)]
            v = [rng.randint(-self.a, self.a) if rng.random() < .8 else 0 for _ in range(3)]
            born = 0 if rng.random() < .7 else rng.randrange(self.n)
            dies = self.n if rng.random() < .8 else rng.randrange(self.n + 1)
            for f in range(self.n):
                if born <= f < dies and all(abs(c) < 60 for c in x):
                    at[f].append((k, tuple(x)))
                if rng.random() < .4:
                    d = rng.randrange(3)
                    v[d] += rng.choice((-1, 1))
                x = [a + b for a, b in zip(x, v)]
        return at

    def local(self):
        """One or two tracks, and around where they are expected next a handful of rival continuations."""
        rng = self.rng
        at, k = [[] for _ in range(self.n)], 0
        x0, v0 = [rng.randint(-6, 6), rng.randint(-6, 6), rng.randint(-3, 3)], [rng.randint(-self.a, self.a) for _ in range(3)]
        most = rng.choice((1, 4))        # rivals for the same continuation, or many continuations
        for t in range(rng.choice((1, 2, 2, 3))):
            x = [c + rng.randint(-2, 2) * (t > 0) for c in x0]
            v = [c + rng.randint(-1, 1) * (t > 0) for c in v0]
            start = rng.choice((1, 2, 2)) if most > 1 else 2
            for f in range(self.n):
                r = 0 if f < start else rng.choice((1, 1, 2))
                spots = {tuple(c + rng.randint(-r, r) for c in x) for _ in range(1 if f < start else rng.randint(t == 0, max(0, most - t)))}
                spots = [p for p in spots if p not in [q for _, q in at[f]]]
                for i, p in enumerate(spots):      # one per frame belongs to the track before, and one to the track after the rivals appear
                    k += 1
                    at[f].append((k if i else 1000 + t if f < start else 2000 + t, p))
                if spots and rng.random() < .5:
                    x = list(rng.choice(sorted(spots)))
                x = [c + d for c, d in zip(x, v)]
        return at

    def link(self, keep):
        """Links along the true tracks, each kept with probability `keep`, plus a few others."""
        rng = self.rng
        for f in range(self.n - 1):
            a, b = self.frames[f][0], self.frames[f + 1][0]
            where = {p["k"]: j for j, p in enumerate(b)}
            for h, p in enumerate(a):
                j = where.get(p["k"])
                if rng.random() < .05 and b:
                    j = rng.randrange(len(b))
                if j is not None and b[j]["prev"] == -1 and rng.random() < keep:
                    p["next"], b[j]["prev"] = j, h

    def text(self):
        s = ["run", self.kind, self.imx, self.imy, len(self.cams), *self.cams, *self.dv, self.dacc, self.dang, int(self.add),
             self.zlo, self.zhi, self.stale, self.first, self.last, len(self.ghost_pts)]
        for g in self.ghost_pts:
            s += [2 * v for v in g]
        s.append(len(self.frames))
        for parts, tg in self.frames:
            s.append(len(parts))
            for p in parts:
                s += [2 * v for v in p["x"]] + [p["prev"], p["next"]] + p["corr"]
            for t in tg:
                s.append(len(t))
                for q in t:
                    s += q
        return " ".join(map(str, s)) + "\n"


def dense(rng, big, add=None, drop=(0, 5, 20, 40)):
    """Input of h_links: a random scene with near cameras."""
    n = rng.choice((2, 5, 10, 20, 30) + ((60, 100) if big else ()))
    spread = rng.choice((100, 300, 800, 2000))
    return (f"run {rng.randrange(1 << 30)} {rng.choice((1, 2, 3, 4, 4))} {rng.choice((2, 3, 4, 5, 6))} {n} "
            f"{rng.randint(0, 1) if add is None else int(add)} {rng.randint(0, 1)} {rng.randint(0, 1)} {spread} {rng.choice((30, 100, 300, spread // 2))} "
            f"{rng.choice(drop)} {rng.choice((0, 0, 5, 20))} {rng.choice((1, 1, 42, 10001))}\n")
