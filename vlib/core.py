"""Shared machinery: building /repo's sources into scratch, running harnesses, running TLC,
validating traces, recording evidence, reporting violations.

Exit protocol of every check: 0 = held on everything explored, 1 = VIOLATION line printed,
2 = the check itself failed (toolchain, timeout of TLC, ...)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VENV_PY = "/opt/optv-venv/bin/python"

SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=165",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99"}


class ToolError(Exception):
    """The check could not do its work (never a verdict about the code)."""


class HarnessDeath(Exception):
    """The code under test crashed, hung or was stopped by a sanitizer."""
    def __init__(self, why, out, err):
        super().__init__(why)
        self.why, self.out, self.err = why, out, err


def _hash_tree(*roots, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
                           if not f.endswith((".so", ".pyc")))
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, timeout=300, env=None, cwd=None, input=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, input=input,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


# ------------------------------------------------------------------ building

def build_lib(san=True, extra=()):
    """liboptv objects compiled from /repo's working tree (with `extra` compiler flags); returns (static lib, include dir)."""
    src, inc = f"{REPO}/liboptv/src", f"{REPO}/liboptv/include"
    flags = ["-g", "-O1", "-fno-omit-frame-pointer", "-w", "-std=gnu11", "-fPIC", "-fno-inline"]
    if san:
        flags += ["-fsanitize=address"]
    flags += extra
    key = _hash_tree(src, inc, extra=" ".join(flags))
    out = f"{BUILD}/lib-{'san' if san else 'plain'}-{key}"
    lib = f"{out}/liboptv.a"
    if not os.path.exists(lib):
        tmp = tempfile.mkdtemp(prefix="lib-", dir=_mk(BUILD))
        srcs = sorted(f for f in os.listdir(src) if f.endswith(".c"))

        def cc(f):
            return run(["gcc", *flags, "-I", inc, "-c", f"{src}/{f}", "-o", f"{tmp}/{f[:-2]}.o"])
        with ThreadPoolExecutor(8) as ex:
            for f, r in zip(srcs, ex.map(cc, srcs)):
                if r.returncode:
                    raise ToolError(f"compiling {f} failed:\n{r.stderr}")
        r = run(["ar", "rcs", f"{tmp}/liboptv.a"] + [f"{tmp}/{f[:-2]}.o" for f in srcs])
        if r.returncode:
            raise ToolError(r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return lib, inc


def build_harness(name, san=True, weaken=(), defs=(), extra=(), wrap=()):
    """Compile harness/<name>.c with the library.  `weaken`: library functions the harness replaces by its own;
    `wrap`: system functions whose calls go through the harness (__wrap_x)."""
    lib, inc = build_lib(san, extra)
    srcf = f"{HARNESS}/{name}.c"
    flags = ["-g", "-O1", "-w", "-std=gnu11", "-fno-omit-frame-pointer"] + (["-fsanitize=address"] if san else [])
    flags += [f"-D{d}" for d in defs]
    key = _hash_tree(srcf, f"{HARNESS}/hcommon.h", f"{HARNESS}/hscene.h", extra=lib + repr((sorted(weaken), sorted(defs), sorted(wrap))))
    exe = f"{BUILD}/h-{name}-{'san' if san else 'plain'}-{key}"
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}"
        if weaken:
            wl = tmp + ".a"
            r = run(["objcopy", *[f"--weaken-symbol={w}" for w in weaken], lib, wl])
            if r.returncode:
                raise ToolError(r.stderr)
            lib = wl
        r = run(["gcc", *flags, "-I", inc, "-I", HARNESS, srcf, lib, "-lm", *[f"-Wl,--wrap={w}" for w in wrap], "-o", tmp])
        if r.returncode:
            raise ToolError(f"compiling harness {name} failed:\n{r.stderr}")
        os.rename(tmp, exe)
        if weaken:
            os.unlink(lib)
    return exe


def build_bindings(san=False, wrap=()):
    """The Python bindings built from /repo's working tree; returns a directory for PYTHONPATH.  `wrap`: as in build_harness,
    the __wrap_ functions come from a preloaded library."""
    key = _hash_tree(f"{REPO}/liboptv/src", f"{REPO}/liboptv/include", f"{REPO}/py_bind/optv")
    out = f"{BUILD}/py-{'san-' if san else ''}{'-'.join((*wrap, ''))}{key}"
    if os.path.exists(f"{out}/.done"):
        return out
    tmp = tempfile.mkdtemp(prefix="py-", dir=_mk(BUILD))
    shutil.copytree(f"{REPO}/py_bind/optv", f"{tmp}/optv",
                    ignore=shutil.ignore_patterns("*.c", "*.so", "__pycache__"))
    shutil.copytree(f"{REPO}/liboptv/include", f"{tmp}/include/optv")
    for f in os.listdir(f"{tmp}/include/optv"):
        shutil.copy(f"{tmp}/include/optv/{f}", f"{tmp}/include/{f}")
    q = run([VENV_PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);"
             "print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"])
    if q.returncode:
        raise ToolError(q.stderr)
    pyinc, npinc, suffix = q.stdout.split()
    lib, _ = build_lib(san)
    mods = sorted(f[:-4] for f in os.listdir(f"{tmp}/optv") if f.endswith(".pyx"))

    def one(m):
        r = run([VENV_PY, "-m", "cython", "-2", f"optv/{m}.pyx"], cwd=tmp, timeout=300)
        if r.returncode:
            return r
        return run(["gcc", "-shared", "-fPIC", "-O1", "-w", *(["-g", "-fsanitize=address"] if san else []), "-I", pyinc, "-I", npinc, "-I", ".", "-I", "include",
                    "-I", "include/optv", f"optv/{m}.c", lib, "-lm", *[f"-Wl,--wrap={w}" for w in wrap], "-o", f"optv/{m}{suffix}"], cwd=tmp, timeout=300)
    with ThreadPoolExecutor(8) as ex:
        for m, r in zip(mods, ex.map(one, mods)):
            if r.returncode:
                raise ToolError(f"building binding {m} failed:\n{r.stderr[-3000:]}{r.stdout[-2000:]}")
    open(f"{tmp}/.done", "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self, code, out):
        self.code, self.out = code, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = code == 0 and "No error has been found" in out


def tlc(module, cfg, workdir, files=None, workers="auto", timeout=600, simulate=None, extra=(), heap="4g"):
    """Run TLC on specs/<module>.tla with the given cfg text in its own directory."""
    d = tempfile.mkdtemp(prefix=f"tlc-{module}-", dir=_mk(workdir))
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(f"{SPECS}/{f}", d)
    for name, content in (files or {}).items():
        with open(f"{d}/{name}", "w") as fh:
            fh.write(content)
    with open(f"{d}/{module}.cfg", "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", TLA_CP, "tlc2.TLC",
           "-config", f"{module}.cfg", "-workers", str(workers), "-metadir", f"{d}/meta", "-noGenerateSpecTE",
           "-lncheck", "final"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [f"{module}.tla"]
    try:
        r = run(cmd, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} exceeded {timeout}s")
    res = TlcResult(r.returncode, r.stdout + r.stderr)
    res.dir = d
    if "Exception in thread" in res.out or "OutOfMemoryError" in res.out or "Parsing or semantic analysis failed" in res.out \
            or r.returncode < 0:
        brief = "\n".join(x for x in res.out.splitlines() if not x.startswith(("Parsing file", "Semantic processing")))
        raise ToolError(f"TLC on {module} died:\n{brief[-3000:]}")
    return res


TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
{consts}
"""


class Check:
    def __init__(self, prop, argv=None):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if argv and "--thorough" in argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"work-{prop}-", dir=_mk(BUILD))
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.detail = [], [], {}
        self.violations = []
        if os.path.isdir(f"{BUILD}/replay"):
            for f in os.listdir(f"{BUILD}/replay"):
                if f.startswith(prop + "-"):
                    os.unlink(f"{BUILD}/replay/{f}")
        self.known = load_known(prop)
        self.known_hit = []

    # -- model checking the design
    def model(self, module, cfg, expect_ok=True, **kw):
        r = tlc(module, cfg, self.work, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.detail.setdefault("models", []).append(
            {"module": module, "distinct_states": r.distinct, "states_generated": r.generated})
        if expect_ok and not r.ok:
            raise ToolError(f"the specification {module} violates its own properties:\n{r.out[-4000:]}")
        return r

    def generate(self, module, cfg, **kw):
        """Run a generator specification (it prints "GEN <json>" per behaviour); returns the decoded behaviours."""
        r = self.model(module, cfg, **kw)
        got = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"GEN (.*)"$', r.out, re.M)]
        self.detail["behaviours_enumerated_by_tlc"] = self.detail.get("behaviours_enumerated_by_tlc", 0) + len(got)
        return got

    # -- running code under test
    def py(self, script, san=True, wrap=(), preload=None):
        """(argv, env) to run a Python driver on the bindings built from /repo."""
        d = build_bindings(san, wrap)
        env = {"PYTHONPATH": f"{d}:{HARNESS}", "PYTHONDONTWRITEBYTECODE": "1", "MALLOC_PERTURB_": "165"}
        if san:
            so = run(["gcc", "-print-file-name=libasan.so"]).stdout.strip()
            env.update(LD_PRELOAD=so, PYTHONMALLOC="malloc", MALLOC_PERTURB_="0")
        if preload:
            src = f"{HARNESS}/{preload}.c"
            so = f"{BUILD}/{preload}-{_hash_tree(src)}.so"
            if not os.path.exists(so):
                r = run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-fno-builtin", src, "-o", f"{so}.{os.getpid()}"])
                if r.returncode:
                    raise ToolError(r.stderr)
                os.rename(f"{so}.{os.getpid()}", so)
            env["LD_PRELOAD"] = " ".join(filter(None, (env.get("LD_PRELOAD"), so)))
        return [VENV_PY, "-B", f"{HARNESS}/{script}"], env

    def drive_py(self, script, cases, timeout=300):
        """Python drivers read one JSON case per line and answer '@ {json}' per case."""
        cmd, env = self.py(script)
        return self.drive_cases(cmd[0], [json.dumps(x) + "\n" for x in cases], timeout=timeout, env=env, args=cmd[1:])

    def check_records(self, module, exe, cases, timeout=300, vtimeout=800, ident=None, env=None, consts=""):
        """The usual round: run every case in the real code, validate the answers, re-run what is rejected."""
        recs = self.drive_cases(exe, cases, timeout=timeout, env=env)
        idx = [i for i, r in enumerate(recs) if r is not None]
        live = [recs[i] for i in idx]
        if live:
            self.sample(live[0]); self.sample(live[-1])
        rej = self.validate(module, live, consts, timeout=vtimeout)
        self.judge(module, live, rej, rerun=lambda i: self.drive(exe, cases[idx[i]], env=env)[0], ident=ident, consts=consts)
        return recs

    def check_records_py(self, module, script, cases, timeout=300, ident=None, consts="", san=True, env=None, wrap=(), preload=None):
        cmd, e = self.py(script, san, wrap, preload)
        env = dict(e, **(env or {}))
        cases = [json.dumps(x) + "\n" for x in cases]
        recs = self.drive_cases(cmd[0], cases, timeout=timeout, env=env, args=cmd[1:])
        idx = [i for i, r in enumerate(recs) if r is not None]
        live = [recs[i] for i in idx]
        if live:
            self.sample(live[0])
        rej = self.validate(module, live, consts)
        self.judge(module, live, rej, ident=ident, consts=consts,
                   rerun=lambda i: self.drive(cmd[0], cases[idx[i]], env=env, args=cmd[1:])[0])
        return recs

    def drive(self, exe, text, timeout=120, cwd=None, env=None, args=(), stall=120):
        """One run of a driver; it is given up after `timeout` seconds, or `stall` seconds without a further answer."""
        e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
        with tempfile.TemporaryFile("w+", dir=self.work) as fi, tempfile.TemporaryFile("w+", dir=self.work, errors="replace") as fo, \
                tempfile.TemporaryFile("w+", dir=self.work, errors="replace") as fe:
            fi.write(text); fi.flush(); fi.seek(0)
            p = subprocess.Popen([exe, *args], stdin=fi, stdout=fo, stderr=fe, env=e, cwd=cwd or self.work)
            t0 = t1 = time.time()
            size, late = 0, 0
            while True:
                try:
                    p.wait(min(.5, .01 + (time.time() - t0) / 20))
                    break
                except subprocess.TimeoutExpired:
                    now, s = time.time(), os.fstat(fo.fileno()).st_size
                    if s != size:
                        size, t1 = s, now
                    late = timeout if now - t0 > timeout else stall if now - t1 > stall else 0
                    if late:
                        p.kill(); p.wait()
                        break
            fo.seek(0); fe.seek(0)
            out, err = fo.read(), fe.read()
        if late:
            raise HarnessDeath(f"no answer within {late}s", out, err)
        if p.returncode == -9:
            raise ToolError("the driver was killed (memory?)")
        if p.returncode:
            raise HarnessDeath(f"exit status {p.returncode}", out, err)
        return [json.loads(x[2:]) for x in out.splitlines() if x.startswith("@ ")]

    def drive_cases(self, exe, cases, timeout=120, describe=None, **kw):
        """Run the harness on a list of per-case input texts; the harness answers one JSON line
        (prefix '@ ') per case.  A crash or hang is attributed to its case (re-run alone to confirm)
        and reported as a violation.  Returns list of records, None for those that died."""
        res, start, hung = [], 0, 0
        while start < len(cases):
            try:
                out = self.drive(exe, "".join(cases[start:]), timeout=timeout, **kw)
                if len(out) != len(cases) - start:
                    raise ToolError(f"harness answered {len(out)} of {len(cases) - start} cases")
                res += out
                break
            except HarnessDeath as d:
                done = [json.loads(x[2:]) for x in d.out.splitlines() if x.startswith("@ ") and x.endswith("}")]
                res += done
                bad = start + len(done)
                late = d.why.startswith("no answer")
                hung += late
                if bad >= len(cases):
                    self.violation({"case": cases[-1][:4000], "why": "died after its last case: " + d.why, "stderr": d.err[-3000:]})
                    break
                try:
                    self.drive(exe, cases[bad], timeout=min(timeout, 60), **kw)
                    # not reproducible alone: try from the beginning once more
                    try:
                        self.drive(exe, "".join(cases[start:bad + 1]), timeout=timeout, **kw)
                        if late:
                            raise ToolError(f"driver hung once and not again: {d.why} {d.err[-2000:]}")
                        raise d
                    except HarnessDeath as d3:
                        self.violation({"case": cases[bad][:4000], "why": "crash or hang: " + d3.why,
                                        "stderr": d3.err[-3000:]})
                        res.append(None)
                except HarnessDeath as d2:
                    self.violation({"case": cases[bad][:4000], "why": "crash or hang: " + d2.why,
                                    "stderr": d2.err[-3000:]})
                    res.append(None)
                start = bad + 1
                if len(self.violations) >= 5 or hung >= 2:
                    res += [None] * (len(cases) - len(res))
                    break
        return res

    # -- trace validation
    def validate(self, module, records, consts="", timeout=800, count=True, jobs=8, chunk=None, key="trace"):
        """Check every record against the trace specification `module` (which prints
        <<"REJECT", index, reasons>> for a record it cannot explain).
        Returns list of (index, reasons)."""
        records = list(records)
        if not records:
            return []
        n = chunk or max(1, (len(records) + jobs - 1) // jobs)
        parts = [(i, records[i:i + n]) for i in range(0, len(records), n)]

        def one(p):
            return p[0], self._validate_chunk(module, p[1], consts, timeout)
        rejects = []
        with ThreadPoolExecutor(jobs) as ex:
            for base, (rej, gen, dist) in ex.map(one, parts):
                rejects += [(base + i, why) for i, why in rej]
                self.transitions += gen
                self.states += dist
        if count:
            self.traces += len(records)
        d = self.detail.setdefault("trace_specs", {})
        d[module] = d.get(module, 0) + len(records)
        return rejects

    def _validate_chunk(self, module, recs, consts, timeout, depth=0):
        if depth == 0:
            bad = [(i, w) for i, w in ((i, check_ints(r)) for i, r in enumerate(recs)) if w]
            if bad:
                ok = [i for i in range(len(recs)) if i not in dict(bad)]
                rej, g, n = self._validate_chunk(module, [recs[i] for i in ok], consts, timeout) if ok else ([], 0, 0)
                return bad + [(ok[i], w) for i, w in rej], g, n
        text = "".join(json.dumps(r) + "\n" for r in recs)
        r = tlc(module, TRACE_CFG.format(consts=consts), self.work, files={"trace.ndjson": text}, workers=1,
                timeout=timeout, heap="3g")
        if depth == 0 and '"AMBIG"' in r.out:
            self.detail["undecidable_steps"] = self.detail.get("undecidable_steps", 0) + r.out.count('"AMBIG"')
        rej = [(int(m.group(1)) - 1, m.group(2)) for m in re.finditer(r'^"REJECT (\d+) (.*)"$', r.out, re.M)]
        if r.ok and not rej:
            shutil.rmtree(r.dir, ignore_errors=True)
            return [], r.generated, r.distinct
        m = re.search(r"TRACE-DONE\D+(\d+)", r.out)
        if m and int(m.group(1)) == len(recs):
            return rej, r.generated, r.distinct
        # TLC could not evaluate some record: isolate it
        if len(recs) == 1:
            if m and int(m.group(1)) == 0 and not rej:
                return [(0, "no action of the specification explains the next step")], 0, 0
            if rej:
                return rej, r.generated, r.distinct
            if "Error" in r.out:
                return [(0, "not evaluable: " + r.out[r.out.find("Error"):][:1500])], 0, 0
            raise ToolError(f"TLC on {module}:\n{r.out[-3000:]}")
        mid = len(recs) // 2
        a = self._validate_chunk(module, recs[:mid], consts, timeout, depth + 1)
        b = self._validate_chunk(module, recs[mid:], consts, timeout, depth + 1)
        return a[0] + [(i + mid, w) for i, w in b[0]], a[1] + b[1], a[2] + b[2]

    def judge(self, module, records, rejects, rerun=None, ident=None, limit=5, consts=""):
        """Report rejected records; `rerun(i)` re-executes the i-th case and returns a fresh record."""
        for i, why in rejects:
            rec = records[i]
            if ident and ident(rec, why) in self.known_hit:
                continue
            note = ""
            if rerun is not None:
                again = rerun(i)
                if again is not None:
                    rj = self.validate(module, [again], consts, count=False)
                    if rj:
                        rec, why = again, rj[0][1]
                    else:
                        # the drivers are deterministic: the code's answer depends on earlier calls or on memory it never set
                        note = "accepted when run alone: the answer depends on earlier calls or on uninitialised memory"
            self.violation({"spec": module, "record": rec, "rejected_because": why, "note": note}, ident=ident(rec, why) if ident else None)
            if len(self.violations) >= limit:
                break

    # -- verdict
    def violation(self, what, ident=None):
        if ident is not None and ident in self.known:
            if ident not in self.known_hit:
                self.known_hit.append(ident)
            return
        _mk(f"{BUILD}/replay")
        p = f"{BUILD}/replay/{self.prop}-{len(self.violations)}.json"
        with open(p, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, **what}, f, default=str)
        self.violations.append(p)

    def sample(self, x):
        if len(self.samples) < 6:
            s = json.dumps(x, default=str)
            self.samples.append(x if len(s) < 2500 else s[:2500] + "...")

    def finish(self, level="model_checking", assumptions=()):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["none"], **self.detail},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        _mk(f"{VERIF}/evidence")
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k}: {self.known[k]}")
        for p in self.violations:
            print(f"VIOLATION property={self.prop} replay={p}")
        if not self.violations:
            print(f"{self.prop}: held on everything explored "
                  f"({self.states} states, {self.traces} implementation traces, {ev['wall_s']}s)")
        return 1 if self.violations else 0


def check_ints(x):
    """TLC integers are 32 bit and JSON reals are not supported; the drivers scale and clip everything they answer, so a value
    that does not fit is not one the code may produce.  Returns what is wrong, or None."""
    if isinstance(x, bool) or isinstance(x, str):
        return None
    if isinstance(x, int):
        return None if -2**31 < x < 2**31 else f"integer {x} is outside what the specification can hold"
    if isinstance(x, (dict, list, tuple)):
        return next((w for w in map(check_ints, x.values() if isinstance(x, dict) else x) if w), None)
    return f"value {x!r} is no integer"


def load_known(prop):
    """known_findings.txt: 'known: property=<id> <ident> | <text>'; 'fixed: ...' lines suppress nothing."""
    res = {}
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (\S+) \| (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(prop, body, **kw):
    """Entry point of a check module."""
    c = Check(prop, sys.argv)
    try:
        body(c)
        sys.exit(c.finish(**kw))
    except HarnessDeath as d:
        c.violation({"why": "crash or hang: " + d.why, "stderr": d.err[-4000:], "stdout": d.out[-2000:]})
        sys.exit(c.finish(**kw))
    except ToolError as e:
        if c.violations:      # already established on the real code
            sys.exit(c.finish(**kw))
        shutil.rmtree(c.work, ignore_errors=True)
        print(f"ERROR in check {prop}: {e}")
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        shutil.rmtree(c.work, ignore_errors=True)
        if c.violations:
            sys.exit(c.finish(**kw))
        print(f"ERROR in check {prop}")
        sys.exit(2)
