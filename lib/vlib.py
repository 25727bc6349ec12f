"""Common machinery of the checks: build harness from the repository's working tree, run TLC
(model checking, behaviour generation, trace validation), report and write evidence."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 4)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXXFLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-DNDEBUG", "-DFMT_DEPRECATED_OSTREAM", "-DCHECK_THROW",
            "-fopenmp"]
LIBS = ["-lfmt", "-lyaml-cpp", "-lstdc++fs", "-lpthread"]


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict about the property)."""


def sh(cmd, timeout=600, env=None, cwd=None, input=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=e, cwd=cwd, input=input, errors="replace")


# ------------------------------------------------------------------------------------ building
def _hash_files(cmd, files):
    h = hashlib.sha256(" ".join(cmd).encode())
    for f in files:
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            h.update(b"?missing")
        h.update(f.encode())
    return h.hexdigest()


def _deps(dfile):
    with open(dfile) as f:
        txt = f.read().replace("\\\n", " ")
    return [x for x in txt.split(":", 1)[1].split() if not x.startswith(("/usr/", "/lib/"))]


def compile_obj(src, out, flags):
    """Compiles one translation unit; reuses the object if no input has changed."""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["g++", *CXXFLAGS, *flags, "-MMD", "-MF", out + ".d", "-c", src, "-o", out]
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and os.path.exists(out + ".d"):
        if open(stamp).read() == _hash_files(cmd, _deps(out + ".d")):
            return None
    r = sh(cmd, timeout=800)
    if r.returncode != 0:
        return r.stdout
    with open(stamp, "w") as f:
        f.write(_hash_files(cmd, _deps(out + ".d")))
    return None


_gen_done = {}


def gen_ekf(yaml=None, name="rtk_ekf", sub="core/ekf"):
    """Runs the repository's EKF code generator; returns the include root of the generated code."""
    root = os.path.join(BUILD, "gen")
    dst = os.path.join(root, sub)
    key = (yaml, dst)
    if key in _gen_done:
        return root
    os.makedirs(dst, exist_ok=True)
    yaml = yaml or os.path.join(REPO, "core/ekf/rtk_ekf.yaml")
    tmp = tempfile.mkdtemp(prefix="ekfgen", dir=BUILD)
    try:
        r = sh(["python3", os.path.join(REPO, "core/ekf/ekf_gen/ekf_gen.py"), "--config_file", yaml,
                "--destination", tmp], timeout=300,
               env={"PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"})
        if r.returncode != 0:
            raise CheckError("EKF generator failed:\n" + r.stdout[-3000:])
        for f in os.listdir(tmp):
            p = os.path.join(tmp, f)
            if not os.path.isfile(p):
                continue
            txt = open(p).read().replace(tmp, dst)
            q = os.path.join(dst, f)
            if not os.path.exists(q) or open(q).read() != txt:
                open(q, "w").write(txt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _gen_done[key] = True
    return root


def build(name, harness, repo_srcs=(), flags=(), gen=False, gen_srcs=(), libs=(), extra=()):
    """Builds harness/<harness> with the given repository sources; returns the program's path."""
    os.makedirs(BUILD, exist_ok=True)
    inc = []
    if gen:
        root = gen_ekf()
        inc = ["-I" + root]
    flags = list(flags) + ["-I" + HARNESS] + inc + ["-I" + REPO, "-I/usr/include/eigen3"]
    jobs = []
    hsrc = [os.path.join(HARNESS, h) for h in ([harness] if isinstance(harness, str) else harness)]
    for s in hsrc:
        jobs.append((s, os.path.join(BUILD, "obj", name, os.path.basename(s) + ".o")))
    for s in repo_srcs:
        jobs.append((os.path.join(REPO, s), os.path.join(BUILD, "obj", name, s + ".o")))
    for s in gen_srcs:
        jobs.append((os.path.join(BUILD, "gen", s), os.path.join(BUILD, "obj", name, "gen", s + ".o")))
    for s in extra:
        jobs.append((s, os.path.join(BUILD, "obj", name, "extra", os.path.basename(s) + ".o")))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = list(ex.map(lambda j: compile_obj(j[0], j[1], flags), jobs))
    for e in errs:
        if e:
            raise CheckError("compilation failed:\n" + e[-4000:])
    exe = os.path.join(BUILD, "bin", name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    r = sh(["g++", "-fopenmp", "-o", exe, *[j[1] for j in jobs], *libs, *LIBS], timeout=300)
    if r.returncode != 0 and "undefined reference" in r.stdout:
        # code may have moved to another source file: link against everything in common/ and utils/
        r = sh(["g++", "-fopenmp", "-o", exe, *[j[1] for j in jobs], base_lib(flags, set(repo_srcs)), *libs, *LIBS],
               timeout=300)
    if r.returncode != 0:
        raise CheckError("link failed:\n" + r.stdout[-4000:])
    return exe


def base_lib(flags, without):
    srcs = []
    for d, _, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel.split(os.sep)[0] not in ("common", "utils"):
            continue
        srcs += [os.path.join(rel, f) for f in files if f.endswith(".cxx") and "test" not in f and "bench" not in f]
    srcs = sorted(s for s in srcs if s not in without)
    outs = [os.path.join(BUILD, "obj", "base", s + ".o") for s in srcs]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = list(ex.map(lambda p: compile_obj(os.path.join(REPO, p[0]), p[1], flags), zip(srcs, outs)))
    lib = os.path.join(BUILD, "obj", "base", "base.a")
    if os.path.exists(lib):
        os.unlink(lib)
    sh(["ar", "rcs", lib, *[o for o, e in zip(outs, errs) if not e]])
    return lib


# ------------------------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = int(m[-1].replace(",", ""))


def tlc(module, cfg, env=None, workers="auto", timeout=800, extra=(), heap="3g", dot=None):
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    t0 = time.time()
    try:
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-cp", TLA_CP,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfgp, *extra, os.path.join(SPEC, module)]
        try:
            r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        return TlcResult(r.stdout, r.returncode, time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_OPRE = re.compile(r'"((?:[^"\\]|\\.)*)"')


def tlc_generate(module, cfg, env=None, timeout=300, extra=(), workers="auto"):
    """Behaviours generated by TLC: the specification prints one sequence of command strings per
    behaviour, as <<"GEN", "cmd", ...>>."""
    r = tlc(module, cfg, env=env, timeout=timeout, extra=extra, workers=workers)
    segs = []
    # TLC breaks long values over several lines
    txt = r.out
    for m in re.finditer(r'<<\s*"GEN",(.*?)>>', txt, re.S):
        cmds = _OPRE.findall(m.group(1))
        if cmds:
            segs.append(cmds)
    if not segs:
        raise CheckError("TLC generated no behaviour from %s:\n%s" % (module, r.out[-3000:]))
    return segs, r


# ------------------------------------------------------------------------------------ running the code
def run_driver(exe, segs, workdir=None, timeout=600, args=(), env=None, shards=None):
    """Feeds segments (lists of command strings, the first starting a new segment) to the driver and
    returns for each segment its list of events (dicts) as recorded from the real code."""
    shards = shards or min(NCPU, max(1, len(segs) // 50 + 1))
    tmp = tempfile.mkdtemp(prefix="drv", dir=BUILD)
    parts = [segs[i::shards] for i in range(shards)]

    def one(k):
        w = os.path.join(tmp, "w%d" % k)
        t = os.path.join(tmp, "t%d" % k)
        with open(w, "w") as f:
            for s in parts[k]:
                f.write("\n".join(s) + "\n")
        wd = os.path.join(tmp, "scratch%d" % k)
        os.makedirs(wd)
        r = sh([exe, w, t, *args], timeout=timeout, cwd=wd, env=env)
        if r.returncode != 0:
            raise CheckError("driver failed rc=%d: %s" % (r.returncode, r.stdout[-2000:]))
        res = [[] for _ in parts[k]]
        with open(t, "rb") as f:
            for line in f:
                if not line.strip():
                    continue
                try:
                    e = json.loads(line.decode("latin1"))
                except ValueError:
                    raise CheckError("bad event from driver: %r" % line[:300])
                g = e.pop("seg")
                res[g].append(e)
        return res

    try:
        out = [None] * len(segs)
        with cf.ThreadPoolExecutor(shards) as ex:
            for k, res in enumerate(ex.map(one, range(shards))):
                for j, ev in enumerate(res):
                    out[k + j * shards] = ev
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------ trace validation
def _validate_file(module, cfg, traces, env, timeout):
    """One TLC run over the concatenated traces. Returns (index of rejected trace or None, detail, result)"""
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        for t in traces:
            for e in t:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
    try:
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap="2g",
                extra=["-deadlock"])
    finally:
        os.unlink(path)
    m = re.search(r'"REJECTED",\s*(\d+)', r.out)
    if m:
        line = int(m.group(1)) - 1
        n = 0
        for k, t in enumerate(traces):
            if line < n + len(t):
                return k, line - n, r
            n += len(t)
        raise CheckError("rejection beyond the trace:\n" + r.out[-2000:])
    if "ACCEPTED" not in r.out or not r.ok:
        # TLC could not evaluate an event (e.g. a value of an unexpected shape): find it by its index
        m = re.findall(r"/\\ l = (\d+)", r.out) or re.findall(r"^l = (\d+)", r.out, re.M)
        if m and "The behavior up to this point" in r.out:
            line = int(m[-1]) - 1
            n = 0
            for k, t in enumerate(traces):
                if line < n + len(t):
                    return k, line - n, r
                n += len(t)
        raise CheckError("TLC did not complete on a trace of %s:\n%s" % (module, r.out[-4000:]))
    return None, None, r


def validate(module, cfg, traces, env=None, timeout=850, chunk_events=6000, max_rejects=3, enough=6):
    """Checks recorded traces against the trace specification. Returns (list of (trace index, event
    index, tlc output), stats)."""
    chunks, cur, n = [], [], 0
    for i, t in enumerate(traces):
        cur.append(i)
        n += len(t)
        if n >= chunk_events:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)
    stats = dict(states=0, transitions=0, accepted=0)
    total = [0]

    def one(chunk):
        rej = []
        left = list(chunk)
        gen = dis = acc = 0
        while left:
            if total[0] >= enough:
                break
            k, ev, r = _validate_file(module, cfg, [traces[i] for i in left], env, timeout)
            gen += r.generated
            dis += r.distinct
            if k is None:
                acc += len(left)
                break
            acc += k
            rej.append((left[k], ev, r.out[-3000:]))
            left = left[k + 1:]
            total[0] += 1
            if len(rej) >= max_rejects:
                break
        return rej, gen, dis, acc

    rejects = []
    with cf.ThreadPoolExecutor(min(NCPU, max(1, len(chunks)))) as ex:
        for rej, gen, dis, acc in ex.map(one, chunks):
            rejects += rej
            stats["transitions"] += gen
            stats["states"] += dis
            stats["accepted"] += acc
    rejects.sort()
    return rejects, stats


# ------------------------------------------------------------------------------------ a check's run
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.opcount = {}
        self.models = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.notes = {}
        os.makedirs(BUILD, exist_ok=True)
        p = os.path.join(VERIF, "known_findings.json")
        self.findings = []
        if os.path.exists(p):
            self.findings = [f for f in json.load(open(p))["known"] if f["property"] == prop]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model_check(self, module, cfg, env=None, timeout=850, extra=(), expect_violation=None, heap="6g"):
        """Checks the specification itself. A failure here is a defect of the specification (it does not
        depend on the code), so it is an error of the check and not a verdict."""
        r = tlc(module, cfg, env=env, timeout=timeout, extra=extra, heap=heap)
        if expect_violation:
            if expect_violation not in r.out:
                raise CheckError("the weakened model %s/%s was expected to fail with %r:\n%s" %
                                 (module, cfg, expect_violation, r.out[-3000:]))
        elif not r.ok:
            raise CheckError("model checking of %s/%s failed:\n%s" % (module, cfg, r.out[-5000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(dict(module=module, cfg=cfg, distinct=r.distinct, generated=r.generated,
                                depth=r.depth, wall_s=round(r.wall, 1),
                                **({"expected_violation": expect_violation} if expect_violation else {})))
        return r

    def conform(self, module, cfg, exe, segs, env=None, drv_args=(), drv_env=None, label="", chunk_events=6000,
                post=None, self_test=None, classify=None):
        """Runs segments on the real code and validates what was recorded against the specification."""
        traces = run_driver(exe, segs, args=drv_args, env=drv_env)
        if post:
            traces = [post(t) for t in traces]
        self.check_traces(module, cfg, segs, traces, env=env, label=label, chunk_events=chunk_events,
                          rerun=lambda s: [post(t) if post else t for t in
                                           run_driver(exe, [s], args=drv_args, env=drv_env)][0],
                          self_test=self_test, classify=classify,
                          rerun_all=lambda k: [post(t) if post else t for t in
                                               [run_driver(exe, segs, args=drv_args, env=drv_env)[k]]][0])
        return traces

    def check_traces(self, module, cfg, segs, traces, env=None, label="", chunk_events=6000, rerun=None,
                     self_test=None, classify=None, rerun_all=None):
        for i, t in enumerate(traces):
            if not t:
                raise CheckError("driver recorded nothing for segment %r" % (segs[i][:3],))
        many = dict(max_rejects=400, enough=4000) if self.findings and classify else {}
        rejects, st = validate(module, cfg, traces, env=env, chunk_events=chunk_events, **many)
        self.transitions += st["transitions"]
        self.states += st["states"]
        self.traces += st["accepted"]
        for t in traces:
            self.events += len(t)
            for e in t:
                k = e.get("op", "?")
                self.opcount[k] = self.opcount.get(k, 0) + 1
        if traces and len(self.samples) < 6:
            k = max(range(min(len(traces), 200)), key=lambda i: len(set(e.get("op") for e in traces[i])))
            self.samples.append(dict(module=module, commands=[c[:200] for c in segs[k][:12]],
                                     events=json.loads(json.dumps(traces[k][:6])[:4000] if False else
                                                       json.dumps(_short(traces[k][:6])))))
        for (i, ev, out) in rejects:
            if len(self.violations) >= 3:
                break
            seg, tr = segs[i], traces[i]
            # a rejection counts only if it happens again
            if rerun is not None:
                tr2 = rerun(seg)
                rej2, _ = validate(module, cfg, [tr2], env=env)
                if not rej2 and rerun_all is not None:
                    # perhaps it needs what the runs before it left behind (files, say)
                    tr2 = rerun_all(i)
                    rej2, _ = validate(module, cfg, [tr2], env=env)
                if not rej2:
                    raise CheckError("a rejected run was accepted when repeated: %s event %d: %r" %
                                     (module, ev, tr[ev] if ev < len(tr) else None))
                ev, tr, out = rej2[0][1], tr2, rej2[0][2]
            bad = tr[ev] if ev < len(tr) else None
            sig = classify(seg, tr, ev) if classify else None
            kf = next((f for f in self.findings if sig is not None and f["signature"] == sig), None)
            if kf:
                if kf not in self.known:
                    self.known.append(kf)
                continue
            self.violation(dict(module=module, cfg=cfg, label=label, commands=seg, event_index=ev,
                                rejected_event=bad, trace=tr[max(0, ev - 8):ev + 1], signature=sig,
                                tlc=out[-1500:]))
        if self_test and not rejects:
            self._self_test(module, cfg, traces, self_test, env)

    def _self_test(self, module, cfg, traces, corrupt, env):
        """The specification must reject a corrupted recording (guards against a vacuous acceptor)."""
        cand = [t for t in traces if len(t) > 1]
        self.rng.shuffle(cand)
        done = 0
        for t in cand[:200]:
            c = corrupt(json.loads(json.dumps(t)), self.rng)
            if c is None:
                continue
            rej, _ = validate(module, cfg, [c], env=env)
            if not rej:
                raise CheckError("the trace specification %s accepted a corrupted trace: %s" %
                                 (module, json.dumps(c)[:3000]))
            done += 1
            if done >= self.pick(2, 8):
                break
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + done

    def violation(self, info):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, repo=REPO, **info), f, indent=1,
                      default=str)
        self.violations.append(p)
        print("  rejected: %s" % json.dumps(_short(info.get("rejected_event")), default=str)[:400])

    def finish(self, level="model_checking", extra=None):
        need = getattr(self, "required_ops", ())
        if not self.violations:
            for op in need:
                if not self.opcount.get(op):
                    raise CheckError("no event of kind %r was recorded: the run is vacuous" % op)
        for kf in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   events_validated=self.events, events_by_kind=dict(sorted(self.opcount.items())),
                   models=self.models, **self.notes)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
                  seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        print("%s %s: %d states, %d transitions, %d traces (%d events) validated, %d violations, %.1fs" %
              (self.prop, self.tier, self.states, self.transitions, self.traces, self.events,
               len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def _short(x, n=24):
    if isinstance(x, list):
        return [_short(y, n) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: _short(v, n) for k, v in x.items()}
    return x
