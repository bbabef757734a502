"""C24 determinism: the same jobs under different memory contents, in different processes and orders, and with the cameras in
another order (TraceTwin); design: Determinism (two executions side by side) and CamOrder."""
import hashlib, random
from vlib.core import *
from vlib.calls import family, line
from vlib.tracks import Scene, dense

DET = "SPECIFICATION Spec\nCONSTANTS Cells = {{1,2{c}}}\nValues = {{0,1}}\nLen_ = {n}\nDiscipline = {d}\nINVARIANTS Same Twice\nCHECK_DEADLOCK FALSE\n"
ORD = "SPECIFICATION Spec\nCONSTANTS Cams = {c}\nSlots = {s}\nIds = {{1,2,3}}\nKeepFirst = {k}\nINVARIANT OrderFree\nCHECK_DEADLOCK FALSE\n"


def models(c):
    c.model("Determinism", DET.format(c="", n=5 if c.thorough else 4, d="TRUE"), timeout=840)
    c.model("CamOrder", ORD.format(c=3, s=2, k=0))
    if c.thorough:
        c.model("Determinism", DET.format(c=",3", n=4, d="TRUE"), timeout=840)
        c.model("CamOrder", ORD.format(c=4, s=2, k=0), timeout=840)
    # neither invariant is vacuous
    if c.model("Determinism", DET.format(c="", n=2, d="FALSE"), expect_ok=False).ok or c.model("CamOrder", ORD.format(c=2, s=2, k=2), expect_ok=False).ok:
        raise ToolError("Determinism or CamOrder accepts a design that reads what it has not written")


def image(rng):
    w, h = rng.randint(3, 20), rng.randint(3, 20)
    px = [rng.randint(0, 12) for _ in range(w * h)] if rng.random() < .6 else [rng.randint(0, 255) for _ in range(w * h)]
    for _ in range(rng.randint(1, 8)):
        x, y, top, r = rng.randrange(w), rng.randrange(h), rng.randint(40, 255), rng.randint(0, 3)
        for i in range(w * h):
            d = max(abs(i % w - x), abs(i // w - y))
            if d <= r:
                px[i] = max(px[i], top - 9 * d)
    return w, h, px


def segment(rng, im=None):
    w, h, px = im or image(rng)
    return f"image {w} {h} {rng.randint(0, 3)} {rng.choice((5, 12, 30, 90))} {rng.choice((0, 5, 30, 255))} 0 {w} 0 {h} 1 {rng.choice((9, 9999))} 1 99 1 99 {rng.choice((0, 200))} {' '.join(map(str, px))}\n"


def fit(rng):
    kind = rng.choice(("fit", "fit", "raw"))
    return f"{kind} {rng.randrange(50)} {rng.randint(0, 1)} {rng.randint(0, 1)} {rng.choice((12, 20))} {0 if kind == 'raw' else rng.randrange(1024)} 0 {rng.choice((0, 1))} {rng.choice((0, 1, 2))} 0 0 0\n"


def grid(rng):
    imx, imy, eps, nf, nt = 400, 300, rng.choice((5, 25)), rng.choice((1, 20, 60)), rng.choice((0, 5, 90))
    s = f"grid 0 {rng.randrange(10 ** 6)} {imx} {imy} {eps} {nf} " + " ".join(f"{rng.randint(-300, 300)} {rng.randint(-300, 300)} {rng.randint(-100, 100)}" for _ in range(nf)) + f" {nt}"
    for _ in range(nt):
        s += f" {rng.randrange(nf)} {rng.randint(-128, 128)} {rng.randint(-128, 128)}" if rng.random() < .8 else f" -1 {rng.randrange(64 * imx)} {rng.randrange(64 * imy)}"
    return s + "\n"


def digest(v):
    return hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]


def digests(rec):
    return {k: digest(v) for k, v in rec.items()} if isinstance(rec, dict) else {"answer": digest(rec)}


def env(fill):
    return {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("165", str(fill)).replace("1000000000", "4000000")}


def same(c, name, cases, per=1, alone=10, **kw):
    """Run the jobs `cases` of one harness in several ways; `per` answers per job."""
    ways = [(True, (), 0xA5), (True, ("-ftrivial-auto-var-init=pattern",), 0), (True, ("-ftrivial-auto-var-init=zero",), 0xFF), (False, (), 0x3C)]
    n = len(cases)
    got = [[] for _ in cases]

    def group(out, order):
        return [(order[i], out[i * per:(i + 1) * per]) for i in range(len(order))]
    with ThreadPoolExecutor(8) as ex:
        futs = []
        for w, (san, extra, fill) in enumerate(ways):
            exe = build_harness(name, san=san, extra=extra, **kw)
            order = list(range(n))
            if w == 1:
                order.reverse()
            elif w > 1:
                random.Random(c.seed + w).shuffle(order)
            if w == 2:
                order = [i for i in order for _ in (0, 1)]        # every job twice in a row
            e = dict(env(fill), MALLOC_PERTURB_=str(fill))
            futs.append(ex.submit(lambda exe=exe, order=order, e=e: group(c.drive(exe, "".join(cases[i] for i in order), timeout=600, env=e), order)))
        exe = build_harness(name, san=True, **kw)
        pick = random.Random(c.seed).sample(range(n), min(n, alone))
        for i in pick:      # in a process of its own
            futs.append(ex.submit(lambda i=i: group(c.drive(exe, cases[i], timeout=600, env=env(0x7F)), [i])))
        for f in futs:
            for i, out in f.result():
                got[i].append(out)
    recs = []
    for i in range(n):
        runs = [{f"{k}:{f}" if per > 1 else f: v for k, r in enumerate(o) for f, v in digests(r).items()} for o in got[i]]
        recs.append({"kind": "same", "job": cases[i][:300], "runs": runs})
    c.judge("TraceTwin", recs, c.validate("TraceTwin", recs))
    c.detail.setdefault("jobs", {})[name] = {"jobs": n, "executions": sum(map(len, got))}


def same_py(c, script, jobs):
    ways = [(0xA5, 1), (0, -1), (0xFF, 1)]
    cmd, e = c.py(script)
    got = [[] for _ in jobs]
    with ThreadPoolExecutor(3) as ex:
        def go(w):
            fill, step = w
            order = list(range(len(jobs)))[::step]
            d = tempfile.mkdtemp(prefix="twin-", dir=c.work)
            return order, c.drive(cmd[0], "".join(json.dumps(jobs[i]) + "\n" for i in order), timeout=600, env=dict(e, **env(fill)), args=cmd[1:], cwd=d)
        for order, out in ex.map(go, ways):
            if len(out) != len(order):
                raise ToolError(f"{script} answered {len(out)} of {len(order)}")
            for i, r in zip(order, out):
                got[i].append(digests(r))
    recs = [{"kind": "same", "job": json.dumps(j)[:300], "runs": g} for j, g in zip(jobs, got)]
    c.judge("TraceTwin", recs, c.validate("TraceTwin", recs))
    c.detail.setdefault("jobs", {})[script] = {"jobs": len(jobs), "executions": 3 * len(jobs)}


def turned(c, rng, k):
    """Cameras in another order."""
    exe = build_harness("h_twin")
    cases, sizes = [], []
    for _ in range(150 * k):
        cams = rng.choice((2, 3, 4, 4))
        perms = [list(range(cams))]
        for _ in range(3):
            p = perms[0][:]
            rng.shuffle(p)
            perms.append(p)
        tail = f"{rng.randrange(10 ** 6)} {rng.choice((1, 3, 6, 9))} {rng.choice((0, 0, 10, 30))}\n"
        cases += [f"scene {cams} {' '.join(map(str, p + [0] * (4 - cams)))} {tail}" for p in perms]
    out = c.drive_cases(exe, cases, timeout=600)
    recs = [{"kind": "match", "job": cases[i], "runs": out[i:i + 4]} for i in range(0, len(cases), 4) if None not in out[i:i + 4]]
    clear = sum(all(r["clear"] for r in x["runs"]) for x in recs)
    c.detail["unambiguous_scenes_matched_in_4_orders"] = clear
    if clear < len(recs) // 3:
        raise ToolError(f"only {clear} of {len(recs)} scenes are unambiguous")
    c.judge("TraceTwin", recs, c.validate("TraceTwin", recs))
    # tracking
    exe = build_harness("h_links")
    cases = []
    for _ in range(60 * k):
        cams = rng.choice((2, 3, 4, 4))
        t = f"run {rng.randrange(1 << 30)} {cams} {rng.choice((3, 4, 6))} {rng.choice((2, 3, 4))} 0 {rng.randint(0, 1)} {rng.randint(0, 1)} 2500 {rng.choice((15, 30))} {rng.choice((0, 0, 10))} 0 1\n"
        for i in range(3):
            p = list(range(cams))
            if i:
                rng.shuffle(p)
            cases.append(f"turn {' '.join(map(str, p + list(range(cams, 4))))} {t}")
    out = c.drive_cases(exe, cases, timeout=600)

    def view(r):
        return digests({f"{w} {f}": [x[f] for x in r[w]] for w in ("fw", "bw") for f in ("next", "prev", "corr", "own")})
    recs = [{"kind": "same", "job": cases[i], "runs": [view(x) for x in out[i:i + 3]]} for i in range(0, len(cases), 3)
            if None not in out[i:i + 3] and all(x["sparse"] for x in out[i:i + 3])]
    if len(recs) < 15 * k:
        raise ToolError(f"only {len(recs)} of {60 * k} tracking scenes are sparse")
    c.judge("TraceTwin", recs, c.validate("TraceTwin", recs))
    c.detail["tracking_jobs_in_3_camera_orders"] = len(recs)


def body(c):
    models(c)
    rng = random.Random(c.seed)
    k = 12 if c.thorough else 1
    same(c, "h_track", [Scene(rng).text() for _ in range(100 * k)] + [Scene(rng, crowd="local", n=4).text() for _ in range(100 * k)] + [Scene(rng, kind="b", add=False).text() for _ in range(40 * k)])
    same(c, "h_links", [dense(rng, False) for _ in range(60 * k)])
    same(c, "h_run", [f"hist {f} {f + 3} 6 " + " ".join(o) + "\n" for f in (1, 98) for o in ("rssfFB", "FBrssf", "rsrssf", "FFBBFB")])
    same(c, "h_corr", [f"scene {rng.choice((2, 3, 4))} {rng.randint(1, 10 ** 6)} {rng.choice((4, 12, 25))} {rng.choice((0, 2))} {rng.randint(0, 1)} {rng.choice((0, 4))} {int(rng.random() < .2)}\n"
                       for _ in range(30 * k)], per=2)
    same(c, "h_segment", [segment(rng) for _ in range(200 * k)] + [segment(rng, im) for im in [image(rng) for _ in range(30 * k)] for _ in range(4)])
    # jobs that share most of their arguments, next to one another
    same(c, "h_calls", [line(x) for _ in range(250 * k) for x in family(rng)])
    same(c, "h_orient", [fit(rng) for _ in range(60 * k)])
    same(c, "h_sortgrid", [grid(rng) for _ in range(150 * k)])
    turned(c, rng, k)
    same_py(c, "py_corr.py", [{"cams": rng.choice((1, 2, 3, 4)), "seed": rng.randint(1, 10 ** 6), "n": rng.choice((0, 1, 5, 16))} for _ in range(20 * k)])
    jobs = []
    for _ in range(60 * k):
        w, h, px = image(rng)
        jobs.append(dict(w=w, h=h, cam=rng.randint(0, 3), thres=rng.choice((5, 30)), disco=rng.choice((5, 255)), win=[0, w, 0, h], lim=[1, 10 ** 6, 1, 1000, 1, 1000, 0], img=px, layout=0, full=1))
    same_py(c, "py_segment.py", jobs)
    jobs = []
    for _ in range(12 * k):
        s = Scene(rng, n=rng.choice((3, 5)), tracks=10, add=False, ghosts=0, ncams=rng.choice((2, 3)), amax=2, crowd=False)
        if all(p for p, _ in s.frames):
            jobs.append(dict(job="hist", first=s.first, last=s.last, ops=list(rng.choice(("F", "FB", "rssrF", "FFB"))), imx=s.imx, imy=s.imy, cams=s.cams, dv=s.dv, dacc=s.dacc, dang=s.dang,
                             zlo=-25, zhi=25, frames=[[[[*p["x"], *p["corr"]] for p in parts], tg] for parts, tg in s.frames]))
    same_py(c, "py_tracker.py", jobs)


main("C24", body, assumptions=["camera order: matching is compared on scenes that leave no doubt, tracking on scenes where no two particles come near one another in any image"])
