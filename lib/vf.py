"""Verification runner: design model checking, behaviour generation, conformance driver, trace validation.

A check for one property is a list of steps (see lib/registry.py):
  Model(module, cfg)   exhaustive TLC run of a design model           -> states / transitions
  Gen(module, cfg)     TLC enumerates / simulates spec behaviours      -> inputs for the driver (ndjson)
  Trace(module, cfg)   TLC validates what the driver recorded from /repo's code
Verdict lines printed by a trace specification (PrintT) look like  <<"VERDICT", "json...">>.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """the check itself failed; says nothing about the property"""


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.states = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.states, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.states:
            self.states = int(m[-1].replace(",", ""))

    @property
    def error_text(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-1500:]


def tlc(module, cfg, work, env=None, workers=1, extra=(), timeout=600, xmx="2g"):
    """run TLC in its own copy of spec/ (work/tlc-*), so concurrent runs never share files"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    e["SPECDIR"] = SPEC
    e["DIALECT"] = (env or {}).get("DIALECT", "dialect.json")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m", f"-Xmx{xmx}",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace"), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t0)


def printed(out, tag):
    """the JSON payloads of PrintT(<<tag, ToJson(x)>>)"""
    res = []
    pat = re.compile(r'^<<"%s", "(.*)">>$' % re.escape(tag))
    for line in out.splitlines():
        m = pat.match(line.strip())
        if m:
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


class Model:
    """exhaustive (or bounded) check of a design model; needs no code"""
    def __init__(self, module, cfg=None, min_distinct=10, thorough_cfg=None, workers=2):
        self.module, self.cfg, self.min_distinct = module, cfg or module + ".cfg", min_distinct
        self.thorough_cfg, self.workers = thorough_cfg, workers

    def run(self, ctx):
        cfg = self.thorough_cfg if ctx.tier == "thorough" and self.thorough_cfg else self.cfg
        r = tlc(self.module, cfg, ctx.work, env=ctx.env(), workers=self.workers if ctx.tier == "quick" else 8,
                timeout=300 if ctx.tier == "quick" else 3000, xmx="4g" if ctx.tier == "quick" else "16g")
        if r.rc != 0:
            raise Machinery(f"design model {self.module}/{cfg} rc={r.rc}: {r.error_text}")
        if r.distinct < self.min_distinct:
            raise Machinery(f"design model {self.module} explored only {r.distinct} states")
        return r


class Gen:
    """spec-generated behaviours, printed by the spec as <<"GEN", json>>; replayed by the driver"""
    def __init__(self, module, cfg=None, sim=None, name="gen", limit=None, thorough_sim=None):
        self.module, self.cfg, self.sim, self.name, self.limit = module, cfg or module + ".cfg", sim, name, limit
        self.thorough_sim = thorough_sim

    def run(self, ctx):
        sim = self.thorough_sim if ctx.tier == "thorough" and self.thorough_sim else self.sim
        extra = []
        if sim:
            num, depth = sim
            extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(ctx.seed + 1000)]
        r = tlc(self.module, self.cfg, ctx.work, env=ctx.env(), workers=1, extra=extra,
                timeout=300 if ctx.tier == "quick" else 1500, xmx="4g")
        if r.rc != 0:
            raise Machinery(f"behaviour generation {self.module} rc={r.rc}: {r.error_text}")
        items = printed(r.out, "GEN")
        seen, uniq = set(), []
        for it in items:
            k = json.dumps(it, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(it)
        if not uniq:
            raise Machinery(f"behaviour generation {self.module} produced nothing")
        with open(os.path.join(ctx.work, self.name + ".ndjson"), "w") as f:
            for it in uniq:
                f.write(json.dumps(it) + "\n")
        r.count = len(uniq)
        return r


class Trace:
    """trace specification; the driver wrote <name>*.ndjson into the work directory"""
    def __init__(self, module, cfg=None, name="trace"):
        self.module, self.cfg, self.name = module, cfg or "Trace.cfg", name


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work

    def env(self):
        return {"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier}


def run_driver(ctx, driver):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update({"PYTHONPATH": os.path.join(VERIF, "drivers") + ":" + REPO, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
                "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "VERIF_REPO": REPO,
                "VERIF_SEED": str(ctx.seed), "VERIF_TIER": ctx.tier, "HOME": ctx.work, "MAVLINK20": ""})
    env.pop("MAVLINK20")
    log = os.path.join(ctx.work, "driver.log")
    with open(log, "wb") as lf:
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "drivers", "main.py"), driver, ctx.prop, ctx.work],
                             cwd=ctx.work, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=500 if ctx.tier == "quick" else 2400)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
    text = open(log, errors="replace").read()
    return rc, text


def trace_files(ctx, name):
    return sorted(f for f in os.listdir(ctx.work) if re.fullmatch(re.escape(name) + r"(-\w+)?\.ndjson", f))


def validate(ctx, tr, fname):
    path = os.path.join(ctx.work, fname)
    n = sum(1 for _ in open(path))
    if n == 0:
        raise Machinery(f"empty trace {fname}")
    env = ctx.env()
    env["TRACE"] = path
    env["DIALECT"] = "dialect_min.json" if fname.endswith("-min.ndjson") else "dialect.json"
    r = tlc(tr.module, tr.cfg, ctx.work, env=env, workers=1, timeout=600 if ctx.tier == "quick" else 2400, xmx="3g")
    v = printed(r.out, "VERDICT")
    if r.rc == 0 and len(v) == 1 and v[0]["lines"] == n:
        return r, n, v[0]["viol"]
    # An evaluation error inside a spec that accepts the unchanged tree's traces: the recorded value has a shape
    # the specification does not admit at all.  Parse/JVM/resource failures stay machinery errors.
    if re.search(r"Error: (TLC threw|Evaluating|The (first|second) argument|Attempted|Overflow|The exception|In applying|In evaluation)", r.out) \
            and "OutOfMemory" not in r.out and "StackOverflow" not in r.out and "Parsing or semantic" not in r.out:
        m = re.findall(r"/\\ l = (\d+)", r.out) or re.findall(r"^l = (\d+)", r.out, re.M)
        return r, n, [{"l": int(m[-1]) if m else 0, "clause": "TraceNotEvaluable", "key": "", "info": r.error_text[:600]}]
    raise Machinery(f"trace validation {tr.module} rc={r.rc}: {r.error_text}")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def match_known(prop, v, known):
    for k in known["known"]:
        if k["property"] == prop and v["clause"] in k["clauses"] and v["key"] in k["keys"]:
            return k
    return None


def check(prop, entry, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    ctx = Ctx(prop, tier, seed, work)
    try:
        return _check(ctx, prop, entry, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(ctx, prop, entry, t0):
    models = [s for s in entry["steps"] if isinstance(s, Model)]
    gens = [s for s in entry["steps"] if isinstance(s, Gen)]
    traces = [s for s in entry["steps"] if isinstance(s, Trace)]
    states = trans = 0
    with ThreadPoolExecutor(6) as ex:
        fm = [ex.submit(m.run, ctx) for m in models]
        fg = [ex.submit(g.run, ctx) for g in gens]
        gres = [f.result() for f in fg]
        rc, text = run_driver(ctx, entry["driver"])
        viols = []
        stats = {}
        sp = os.path.join(ctx.work, "stats.json")
        if os.path.exists(sp):
            stats = json.load(open(sp))
        if rc != 0:
            if rc == -9:
                viols.append({"l": 0, "clause": "DriverTimeout", "key": "", "info": "code under test did not finish", "trace": ""})
            elif stats.get("crash_in_repo"):
                viols.append({"l": 0, "clause": "CrashInCode", "key": "", "info": stats["crash_in_repo"], "trace": ""})
            else:
                raise Machinery(f"driver {entry['driver']} rc={rc}: {text[-3000:]}")
        tres = []
        if rc == 0:
            jobs = []
            for t in traces:
                fs = trace_files(ctx, t.name)
                if not fs:
                    raise Machinery(f"no trace file {t.name}")
                jobs += [(t, f) for f in fs]
            tres = [(t, f, fut) for t, f, fut in [(t, f, ex.submit(validate, ctx, t, f)) for t, f in jobs]]
            tres = [(t, f, fut.result()) for t, f, fut in tres]
        mres = [f.result() for f in fm]
    lines = 0
    for t, f, (r, n, vs) in tres:
        lines += n
        states += r.distinct
        trans += r.states
        for v in vs:
            v["trace"] = f
            viols.append(v)
    design_states = sum(r.distinct for r in mres)
    design_trans = sum(r.states for r in mres)
    known = load_known()
    new, old = [], {}
    for v in viols:
        k = match_known(prop, v, known)
        if k:
            old.setdefault(k["id"], (k, set()))[1].add(v["key"])
        else:
            new.append(v)
    for kid, (k, keys) in sorted(old.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{len(keys)} of {len(k['keys'])} listed cases seen]")
    need = entry.get("min_events", 1)
    if rc == 0 and lines < need and not new:
        raise Machinery(f"only {lines} recorded events, expected at least {need}")
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    evidence = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": entry["level"],
        "coverage": {
            "states": design_states + states + sum(r.distinct for r in gres),
            "transitions": design_trans + trans + sum(r.states for r in gres),
            "design_model_distinct_states": design_states,
            "spec_generated_behaviours_replayed": sum(r.count for r in gres),
            "traces_validated_against_impl": stats.get("traces", len(tres)),
            "trace_events_validated": lines,
            "evaluations": stats.get("evaluations", lines),
            "distinct_nontrivial": stats.get("distinct", 0),
            "rule": entry.get("rule", ""),
            "event_counts": stats.get("events", {}),
            "samples": stats.get("samples", [])[:6],
            "exhaustive": False,
        },
        "assumptions": entry.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if new:
        rd = os.path.join(ev_dir, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + ".json")
        out = []
        for v in new[:20]:
            rec = dict(v)
            if v.get("trace") and v.get("l"):
                with open(os.path.join(ctx.work, v["trace"])) as f:
                    for i, line in enumerate(f, 1):
                        if i == v["l"]:
                            rec["event"] = json.loads(line)
                            break
            out.append(rec)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": ctx.seed, "tier": ctx.tier, "violations": out,
                       "how": f"VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} python3 bin/check {prop}  # deterministic given the seed"},
                      f, indent=1)
        for f in {v["trace"] for v in new if v.get("trace")}:
            shutil.copy(os.path.join(ctx.work, f), os.path.join(rd, f"{prop}-{f}"))
        for v in new[:8]:
            print(f"  clause={v['clause']} key={v['key']} event={v['l']} {str(v.get('info',''))[:200]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} design_states={design_states} behaviours={sum(r.count for r in gres)} events={lines} "
          f"wall={evidence['wall_s']}s")
    return 0
