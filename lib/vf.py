"""Machinery shared by the checks: generation with TLC, execution of the real code, trace validation with TLC,
evidence and reporting."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True
import build

VERIF = build.VERIF
SPECS = VERIF + "/specs"
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = None

def classpath():
    global COMMUNITY
    if COMMUNITY is None:
        # what the tlc wrapper uses
        text = open(shutil.which("tlc") or "/usr/local/bin/tlc").read()
        m = re.search(r"-cp\s+\"?([^\s\"]+)", text)
        COMMUNITY = m.group(1) if m else JAR
    return COMMUNITY

class Failure(Exception):
    pass

def brief(out, n=1500):
    lines = [l for l in out.split("\n") if l.strip() and not re.match(r"(Parsing file|Semantic processing|Linting of|TLC2 Version|Warning: Please run|\(Use the -nowarning|Running |Starting|Finished in)", l)]
    return "\n".join(lines)[:n]

class Context:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.start = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.executions = 0
        self.trace_steps = 0
        self.counts = {}
        self.models = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.jobs = max(2, (os.cpu_count() or 8))
        self.n = 0

    def path(self, name):
        self.n += 1
        d = f"{self.scratch}/{self.n}-{name}"
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

# ------------------------------------------------------------------------------ TLC

def tlc(ctx, module, cfg, args=(), env=None, workers="auto", timeout=600, heap="3g", props=(), defs=None):
    """module: path relative to specs without .tla; cfg: text; defs: definitions the cfg refers to. Returns (exit code, output)"""
    d = ctx.path("tlc")
    spec = f"{SPECS}/{module}.tla"
    if defs:
        base = os.path.basename(module)
        spec = f"{d}/{base}Run.tla"
        open(spec, "w").write(f"---- MODULE {base}Run ----\nEXTENDS {base}\n{defs}\n====\n")
    c = f"{d}/run.cfg"
    open(c, "w").write(cfg)
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=" + ("1" if workers == 1 and False else "4"),
           f"-Djava.io.tmpdir={d}", f"-DTLA-Library={os.path.dirname(f'{SPECS}/{module}')}:{SPECS}/lib", *props, "-cp", classpath(), "tlc2.TLC", "-config", c, "-metadir", d + "/meta",
           "-workers", str(workers), "-noGenerateSpecTE", *args, spec]
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        out, code = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, code = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
    shutil.rmtree(d + "/meta", ignore_errors=True)
    return code, out

def model_check(ctx, name, module, cfg, timeout=600, actions=(), simulate=None, defs=None):
    """exhaustive check of a small instance of the specification (design level).
    It must succeed: a failure is an error of the specification, not a verdict on the code."""
    t = time.time()
    args = ["-coverage", "10000"] if actions else []
    if simulate: args += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    code, out = tlc(ctx, module, cfg, args, timeout=timeout, heap="8g", defs=defs)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out.replace(",", "").replace(" distinct", ", distinct").replace(" states left", " states left")) or \
        re.search(r"(\d+) states generated,? (\d+) distinct states found,? (\d+) states left", out.replace(",", ""))
    if simulate and code == 0 and not m:
        m2 = re.findall(r"(\d+) states (?:generated|checked)", out.replace(",", ""))
        gen = int(m2[-1]) if m2 else 0
        ctx.transitions += gen
        ctx.models.append({"model": name, "mode": "simulate", "transitions": gen, "wall_s": round(time.time() - t, 1)})
        return out
    if code != 0 or not m:
        raise Failure(f"model {name} ({module}) failed with {code}:\n" + brief(out))
    g, s = int(m.group(1)), int(m.group(2))
    ctx.states += s; ctx.transitions += g
    ctx.models.append({"model": name, "states": s, "transitions": g, "wall_s": round(time.time() - t, 1)})
    return out

def generate(ctx, module, cfg, num, depth=400, seed=0, timeout=300, defs=None):
    """behaviours of a Gen module: it prints <<"SCRIPT", json>> per behaviour. Returns list of lists of lines"""
    jobs = 4 if num >= 40 else 1
    def one(k):
        n = num // jobs + (1 if k < num % jobs else 0)
        code, out = tlc(ctx, module, cfg, ["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(ctx.seed * 1000 + seed * 10 + k)],
                        workers=1, timeout=timeout, defs=defs)
        scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^<<"SCRIPT", "(.*)">>$', out, re.M)]
        if code != 0 or len(scripts) < n:
            raise Failure(f"generation with {module} failed ({code}, {len(scripts)} of {n}):\n" + brief(out))
        return scripts[:n]
    with cf.ThreadPoolExecutor(jobs) as pool:
        return [s for part in pool.map(one, range(jobs)) for s in part]

# ------------------------------------------------------------------------------ execution

def execute(ctx, driver, executions, timeout=120, per=None, env=None, jobs=None):
    """executions: list of lists of lines, each starting with a 'boot' line.
    Runs them in batches on several driver processes; returns a list of event lists, in order."""
    jobs = jobs or ctx.jobs
    per = per or max(1, -(-len(executions) // jobs))
    parts = [executions[i:i + per] for i in range(0, len(executions), per)]
    def one(part):
        result, todo, broken = [], part, 0
        while todo:
            d = ctx.path("run")
            open(d + "/script", "w").write("".join(l + "\n" for x in todo for l in x))
            os.makedirs(d + "/tmp")
            e = build.environment(d + "/tmp")
            e.update(env or {})
            if os.environ.get("VF_LOG"): e["CASUAL_LOG"] = os.environ["VF_LOG"]
            r = subprocess.run([sys.executable, "-B", VERIF + "/lib/vfrun.py", str(timeout), build.OUT + "/bin/drv_" + driver, d + "/script", d + "/out"],
                               env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            traces = []
            if os.path.exists(d + "/out"):
                for line in open(d + "/out", errors="replace"):
                    try: ev = json.loads(line)
                    except ValueError: ev = {"e": "garbled"}
                    if ev["e"] == "boot": traces.append([])
                    if not traces: traces.append([{"e": "boot"}])
                    traces[-1].append(ev)
            if not traces: traces = [[{"e": "boot"}]]
            if r.returncode != 0 or len(traces) < len(todo):
                traces[-1].append({"e": "died", "code": r.returncode, "output": (r.stdout or "")[-300:]})
            else:
                if traces[-1] and traces[-1][-1]["e"] == "end": traces[-1].pop()
            if os.environ.get("VF_KEEP") and any(ev["e"] in ("timeout", "died") for x in traces for ev in x):
                subprocess.run(["cp", d + "/script", d + "/out", d + "/tmp/casual.log", tempfile.mkdtemp(dir=os.environ["VF_KEEP"])])
            shutil.rmtree(d, ignore_errors=True)
            result += traces[:len(todo)]
            todo = todo[len(traces):]
            broken += any(ev["e"] in ("timeout", "died") for ev in traces[-1])
            if broken >= 4:
                # enough has been seen: every further one may cost a whole timeout
                result += [None] * len(todo)
                break
        return result
    with cf.ThreadPoolExecutor(jobs) as pool:
        traces = [t for part in pool.map(one, parts) for t in part]
    assert len(traces) == len(executions)
    return traces

# ------------------------------------------------------------------------------ validation

def validate(ctx, module, cfg, traces, timeout=600, jobs=None, dfs=False, count=True, defs=None):
    """returns indices of rejected traces with the position of the first event that is not explained"""
    jobs = min(jobs or ctx.jobs, max(1, len(traces)))
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    groups = [order[k::jobs] for k in range(jobs)]
    groups = [g for g in groups if g]
    def one(group):
        d = ctx.path("val")
        f = d + "/traces.json"
        # every trace ends with an event of its own, so that a truncated one is no prefix of an accepted one
        json.dump([traces[i] + [{"e": "end"}] for i in group], open(f, "w"))
        code, out = tlc(ctx, module, cfg, ["-deadlock"] if "CHECK_DEADLOCK" not in cfg else [], env={"TRACES": f}, workers=1, timeout=timeout, defs=defs,
                        props=["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else [])
        rejected = {}
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out.replace(",", "").replace("generated ", "generated, "))
        steps = int(m.group(1)) if m else 0
        for m in re.finditer(r'<<"REJECTED", (\d+), (\d+)>>', out):
            rejected[group[int(m.group(1)) - 1]] = int(m.group(2))
        inv = re.search(r"Invariant (\w+) is violated", out)
        if "Model checking completed. No error" in out:
            return rejected, steps
        if code == 124 or ("Error:" not in out and not inv) or "java.lang.OutOfMemoryError" in out or "Parsing or semantic analysis failed" in out:
            raise Failure(f"validation with {module} failed ({code}):\n" + brief(out))
        # an invariant is violated, or an event is one the specification gives no meaning to: the exploration is incomplete
        if len(group) > 1:
            result = {}
            half = len(group) // 2
            for part in (group[:half], group[half:]):
                r, s = one(part)
                result.update(r); steps += s
            return result, steps
        pos = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
        why = re.search(r"Error: .*(?:\n.*){0,6}", out)
        print(f"  (trace not evaluated to its end: {why.group(0)[:700] if why else ''})", flush=True)
        return {group[0]: max(list(rejected.values()) + pos + [1])}, steps
    result, steps = {}, 0
    with cf.ThreadPoolExecutor(jobs) as pool:
        for rejected, s in pool.map(one, groups):
            result.update(rejected); steps += s
    if count:
        ctx.traces += len(traces)
        ctx.events += sum(len(t) for t in traces)
        ctx.trace_steps += steps
        for t in traces:
            for e in t: ctx.counts[e["e"]] = ctx.counts.get(e["e"], 0) + 1
    return result

# ------------------------------------------------------------------------------ conformance

def known_findings():
    path = VERIF + "/known-findings.json"
    return json.load(open(path)) if os.path.exists(path) else []

def conform(ctx, name, driver, executions, module, cfg, repeat=8, timeout=120, env=None, dfs=False, jobs=None, defs=None):
    """executes and validates; a rejection counts when a new execution of the same script is rejected too"""
    if not executions: return
    traces = execute(ctx, driver, executions, timeout=timeout, env=env, jobs=jobs)
    executions = [x for x, t in zip(executions, traces) if t is not None]
    traces = [t for t in traces if t is not None]
    rejected = validate(ctx, module, cfg, traces, dfs=dfs, defs=defs)
    ctx.executions += len(executions)
    if len(ctx.samples) < 4:
        ctx.samples.append({"name": name, "script": executions[0][:40], "events": traces[0][:12]})
    if not rejected: return
    findings = [f for f in known_findings() if f.get("kind") == "finding" and f["property"] == ctx.prop]
    todo = sorted(rejected)[:12]
    confirmed = {}
    for i in todo:
        again = [t for t in execute(ctx, driver, [executions[i]] * repeat, timeout=timeout, env=env) if t is not None]
        r = validate(ctx, module, cfg, again, dfs=dfs, count=False, defs=defs)
        if r: confirmed[i] = (again[min(r)], r[min(r)])
        else: print(f"note: {ctx.prop}: a rejection did not repeat ({name}, execution {i}): {json.dumps(traces[i][max(0, rejected[i]-1):rejected[i]])[:400]}", flush=True)
        if len(confirmed) >= 3: break
    for i, (trace, pos) in confirmed.items():
        ctx.violation(name, {"driver": driver, "module": module, "cfg": cfg, "defs": defs, "script": executions[i], "trace": trace, "rejected_at": pos,
                             "event": trace[pos - 1] if pos <= len(trace) else {"e": "end"}}, findings)

def _violation(self, name, data, findings=()):
    text = json.dumps(data, indent=1)
    for f in findings:
        if f["match"] in data.get("script", []):
            if f not in self.known: self.known.append(f)
            return
    d = build.OUT + "/replay"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{self.prop}-{name}-{hashlib.sha1(text.encode()).hexdigest()[:8]}.json"
    open(path, "w").write(text)
    ev = data.get("event")
    print(f"  {name}: not allowed by the specification: {json.dumps(ev)[:600]}", flush=True)
    self.violations.append(path)
Context.violation = _violation

# ------------------------------------------------------------------------------ entry

def main(prop, tier, level, body, drivers, note=""):
    ctx = Context(prop, tier)
    code = 2
    try:
        build.ensure(drivers)
        body(ctx)
        code = 1 if ctx.violations else 0
        evidence = {
            "property": prop, "tier": tier, "seed": ctx.seed, "level": level,
            "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                         "executions": ctx.executions, "events": ctx.events, "trace_steps": ctx.trace_steps, "events_by_kind": dict(sorted(ctx.counts.items())), "models": ctx.models, "samples": ctx.samples},
            "wall_s": round(time.time() - ctx.start, 1),
            "violations": len(ctx.violations),
            "assumptions": ctx.assumptions,
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(evidence, f, indent=1)
        for f in ctx.known:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        for p in ctx.violations[:1]:
            print(f"VIOLATION property={prop} replay={p}")
        print(f"{prop} {tier}: states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} events={ctx.events} wall={evidence['wall_s']}s violations={len(ctx.violations)}")
    except Failure as x:
        print("ERROR:", x)
    finally:
        ctx.close()
    sys.exit(code)
