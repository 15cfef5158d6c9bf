"""Check runner: build drivers from /repo's working tree, record traces of the real code, let TLC decide them.

  python3 lib/vf.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)

Exit 0: property held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: the machinery failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CHUNK = 200

NOBI = "-DSPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION -DSPROUT_CONFIG_DISABLE_BUILTIN_COPYSIGN_FUNCTION -DSPROUT_CONFIG_DISABLE_BUILTIN_BIT_OPERATION"
VARIANTS = {
    "cxx11": "-std=c++11 -DVF_VARIANT=11",
    "cxx17": "-std=c++17 -DVF_VARIANT=17",
    "noindex11": "-std=c++11 -DVF_VARIANT=11 -DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION -DSPROUT_CONFIG_DISABLE_SUPPORT_EFFICIENT_ARRAY_ITERATION",
    "noindex17": "-std=c++17 -DVF_VARIANT=17 -DSPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION -DSPROUT_CONFIG_DISABLE_SUPPORT_EFFICIENT_ARRAY_ITERATION",
    "nobuiltin11": "-std=c++11 -DVF_VARIANT=11 " + NOBI,
    "nobuiltin17": "-std=c++17 -DVF_VARIANT=17 " + NOBI,
}


class Broken(Exception):
    """The machinery itself failed (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd,
                           text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return -999, d(x.stdout), d(x.stderr)


def tlc(module, cfg, work, env=None, workers=NCPU, timeout=800, heap="6g", extra=()):
    meta = tempfile.mkdtemp(dir=work, prefix="tlc")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + meta,
           f"-DTLA-Library={VERIF}/spec", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers",
           str(workers), "-config", os.path.join(VERIF, "spec", cfg), *extra, os.path.join(VERIF, "spec", module + ".tla")]
    rc, out, err = run(cmd, timeout, env, cwd=meta)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    shutil.rmtree(meta, ignore_errors=True)
    return dict(rc=rc, out=out, err=err, gen=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0)


# ---------------------------------------------------------------------------------------------------------- models
def run_model(name, work, tier):
    """Exhaustive design-level run of a MC module; any error is a defect of the specification, not of the code."""
    mod, cfg = (name, name) if isinstance(name, str) else name
    t = time.time()
    r = tlc(mod, cfg + ".cfg", work, workers=4)
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise Broken(f"model {mod}/{cfg} failed (rc {r['rc']}):\n" + r["out"][-3000:] + r["err"][-1000:])
    return dict(model=cfg, states=r["distinct"], transitions=r["gen"], wall_s=round(time.time() - t, 1))


# --------------------------------------------------------------------------------------------------------- drivers
def compile_driver(src, variant, work, flags="", defs=""):
    exe = os.path.join(work, f"{os.path.basename(src)[:-4]}.{variant}" + (hashlib.md5(defs.encode()).hexdigest()[:6] if defs else ""))
    cmd = ["g++", *VARIANTS[variant].split(), "-O0", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "drivers"),
           *flags.split(), *defs.split(), "-o", exe, os.path.join(VERIF, "drivers", src)]
    rc, out, err = run(cmd, 600)
    if rc == -999:
        raise Broken(f"compiling {src} for {variant} timed out")
    return dict(src=src, variant=variant, exe=exe, rc=rc, err=err, cmd=" ".join(cmd), defs=defs)


def run_driver(b, work, seed, tier, args=(), limit=150):
    out = b["exe"] + ".trace"
    cmd = [b["exe"], out, str(seed), tier, *map(str, args)]
    rc, so, se = run(cmd, limit + 30, env={"VF_LIMIT": str(limit)}, cwd=work)
    return dict(b, trace=out, rrc=rc, rerr=se, rcmd=" ".join(cmd))


# ---------------------------------------------------------------------------------------------------------- traces
def tlc_trace(module, histories, work, workers, timeout=800, heap="6g"):
    """Validate histories (lists of JSON event texts). Returns (rejected [(h,e)], states, transitions)."""
    fd, path = tempfile.mkstemp(dir=work, suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for h in histories:
            f.write("[" + ",".join(h) + "]\n")
    r = tlc(module, "Trace.cfg", work, env={"TRACE": path}, workers=workers, timeout=timeout, heap=heap)
    os.unlink(path)
    rej = sorted({(int(a) - 1, int(b) - 1) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r["out"])})
    ok = r["rc"] == 0 and "No error has been found" in r["out"]
    return rej, ok, r


def validate(module, histories, work, workers, budget=None):
    """As tlc_trace, but an event the specification cannot even evaluate is isolated and counted as rejected."""
    bad, states, gen = [], 0, 0
    idx = list(range(len(histories)))
    hs = list(histories)
    for attempt in range(12):
        rej, ok, r = tlc_trace(module, hs, work, workers)
        if ok:
            expect = sum(len(h) for h in hs) + len(hs) + 1
            stopped = 'TRUNC' in r["out"]
            if r["distinct"] != expect and not stopped and not rej:
                raise Broken(f"{module}: TLC explored {r['distinct']} states, expected {expect}")
            bad += [(idx[h], e) for h, e in rej]
            return bad, states + r["distinct"], gen + r["gen"]
        m = re.findall(r"/\\ c = (\d+)\n/\\ p = (\d+)", r["out"])
        if r["rc"] == -999 or not m or attempt == 11:
            raise Broken(f"{module}: TLC failed (rc {r['rc']}):\n" + r["out"][-4000:] + r["err"][-1500:])
        h, e = int(m[-1][0]) - 1, int(m[-1][1])
        if h < 0 or h >= len(hs) or e >= len(hs[h]):
            raise Broken(f"{module}: TLC failed:\n" + r["out"][-4000:])
        bad.append((idx[h], e))
        log(f"{module}: event not evaluable: {hs[h][e][:300]}\n" + r["out"][-1500:])
        # drop the rest of that history (its events before e were fine) and go on
        hs[h] = hs[h][:e] if e else []
        if not hs[h]:
            del hs[h], idx[h]
        if not hs:
            return bad, states, gen
    raise Broken("unreachable")


def split_workers(n):
    return max(1, NCPU // max(1, n))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def known_match(k, ev):
    for f, v in k["match"].items():
        x = ev.get(f)
        if isinstance(v, dict) and "in" in v:
            if x not in v["in"]:
                return False
        elif x != v:
            return False
    return True


def check(prop):
    import registry
    reg = registry.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vf_{prop}_")
    replays = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(replays, ignore_errors=True)
    violations, known_hits = [], {}

    perop = {}

    def violation(kind, info):
        ev = info.get("event", {})
        op = (str(ev.get("o", "?")) + ("/" + str(ev["fn"]) if isinstance(ev.get("fn"), str) else "")) if ev else kind
        perop[op] = perop.get(op, 0) + 1
        violations.append(kind)
        if perop[op] <= 3 and len(violations) - sum(max(0, n - 3) for n in perop.values()) <= 60:
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, f"{len(violations):05d}.json")
            json.dump(dict(property=prop, kind=kind, seed=seed, tier=tier, **info), open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            print("  " + kind + ": " + str(info.get("event") or info.get("detail"))[:600], str(info.get("variants", ""))[:300], flush=True)

    try:
        pool = cf.ThreadPoolExecutor(NCPU)
        # 1. design level: the specification itself, exhaustively within small constants
        models = [pool.submit(run_model, m, work, tier) for m in reg.get("models", []) + (reg.get("deep_models", []) if tier == "thorough" else [])]
        # 2. the real code, built from the working tree in each configuration
        jobs = []
        for d in reg["drivers"]:
            parts = d.get("parts", [""])
            for v in d.get("variants", ["cxx11", "cxx17"]):
                for part in parts:
                    jobs.append((d, v, part))
        def job(j):
            d, v, part = j
            b = compile_driver(d["src"], v, work, d.get("flags", ""), part)
            if b["rc"] != 0:
                b2 = compile_driver(d["src"], v, work, d.get("flags", ""), part)
                return dict(b2, d=d, stage="compile" if b2["rc"] else "flaky")
            r = run_driver(b, work, seed, tier, d.get("args", ()), d.get("limit", 150))
            if r["rrc"] != 0:
                r2 = run_driver(b, work, seed, tier, d.get("args", ()), d.get("limit", 150))
                if r2["rrc"] != 0:
                    return dict(r2, d=d, stage="run")
                r = r2
            return dict(r, d=d, stage="ok")
        results = list(pool.map(job, jobs))
        log(f"{prop}: drivers done at {time.time()-t0:.1f}s")
        groups = {}          # trace module -> {history text tuple: variants}
        recorded = 0
        for r in results:
            name = f"{r['src']}{(' ' + r['defs']) if r['defs'] else ''} [{r['variant']}]"
            if r["stage"] == "flaky":
                raise Broken("compiler failure that did not repeat: " + name)
            if r["stage"] == "compile":
                if re.search(r"internal compiler error|Killed|cannot allocate|virtual memory exhausted|No space left", r["err"]):
                    raise Broken("compiler died on " + name + "\n" + r["err"][-2000:])
                errs = [l for l in r["err"].splitlines() if "error" in l][:5]
                violation("driver-does-not-compile", dict(detail=name + ": " + " | ".join(errs), command=r["cmd"], stderr=r["err"][-6000:]))
                continue
            if r["stage"] == "run":
                if r["rrc"] == 71:
                    raise Broken(f"driver {name}: {r['rerr'][-2000:]}")
                violation("driver-died", dict(detail=f"{name} exit {r['rrc']}: {r['rerr'][-1500:]}", command=r["rcmd"]))
            if os.path.exists(r["trace"]):
                for line in open(r["trace"], errors="replace"):
                    line, _, tag = line.rstrip("\n").partition("\t")
                    if not line or line[-1] not in "]}":
                        continue
                    recorded += 1
                    mod = r["d"]["trace"]
                    groups.setdefault(mod, {}).setdefault(line, set()).add(r["variant"] + (":" + tag if tag else ""))
        # 3. TLC decides every recorded event / history against the specification
        tot_states = tot_gen = n_events = n_hist = 0
        samples = []
        tasks = []
        for mod, lines in groups.items():
            evs = [l for l in lines if l[0] == "{"]
            hist = [[l] for l in lines if l[0] == "["]
            hs = [evs[i:i + CHUNK] for i in range(0, len(evs), CHUNK)]
            hl = []
            for l in hist:
                hl.append([json.dumps(x, separators=(",", ":")) for x in json.loads(l[0])])
            allh = [(h, None) for h in hs] + [(h, l[0]) for h, l in zip(hl, hist)]
            total = sum(len(h) for h, _ in allh)
            nparts = max(1, min(4, total // 60000 + 1))
            for k in range(nparts):
                tasks.append((mod, allh[k::nparts]))
            n_events += total
            n_hist += len(allh)
            if evs:
                samples += [json.loads(x) for x in evs[:: max(1, len(evs) // 3)][:3]]
            elif hl:
                samples.append([json.loads(x) for x in hl[0][:6]])
        par = min(4, max(1, len(tasks)))
        wk = max(2, NCPU // par)
        def vtask(t):
            mod, hs = t
            return mod, hs, validate(mod, [h for h, _ in hs], work, wk)
        with cf.ThreadPoolExecutor(par) as vp:
            vres = list(vp.map(vtask, tasks))
        log(f"{prop}: traces decided at {time.time()-t0:.1f}s")
        known = [k for k in load_known() if k["property"] == prop]
        for mod, hs, (bad, st, gen) in vres:
            tot_states += st
            tot_gen += gen
            confirm = bad
            if bad:  # a rejection counts only if a second run repeats it
                sel = sorted({h for h, _ in bad})
                bad2, _, _ = validate(mod, [hs[h][0] for h in sel], work, NCPU)
                rep = {(sel[h], e) for h, e in bad2}
                confirm = [x for x in bad if x in rep]
                if not confirm:
                    raise Broken(f"{mod}: rejections did not repeat")
            for h, e in confirm:
                ev = json.loads(hs[h][0][e])
                key = hs[h][1] or hs[h][0][e]
                variants = sorted(groups[mod].get(key, []))
                for k in known:
                    if known_match(k, ev):
                        known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
                        break
                else:
                    info = dict(spec=mod, event=ev, variants=variants)
                    if hs[h][1]:
                        info["history"] = [json.loads(x) for x in hs[h][0][:e + 1]][-40:]
                        info["position"] = e
                    violation("rejected-by-specification", info)
        mres = [m.result() for m in models]
        for k in known:
            if k["id"] in known_hits:
                print(f"KNOWN-FINDING: property={prop} {k['what']} ({known_hits[k['id']]} events)", flush=True)
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=sum(m["states"] for m in mres) + tot_states,
                                transitions=sum(m["transitions"] for m in mres) + tot_gen,
                                traces_validated_against_impl=n_hist,
                                events_recorded=recorded, distinct_events_validated=n_events,
                                models=mres, trace_specs=sorted(groups),
                                configurations=sorted({f"{r['src']}[{r['variant']}]{r['defs']}" for r in results}),
                                known_findings_hit=known_hits,
                                samples=samples or ["no event recorded"]),
                  assumptions=reg.get("assumptions", []) + ["TLC, the JSON reader of CommunityModules and g++ are trusted",
                                                            "inputs outside the generated set are not observed"],
                  wall_s=round(time.time() - t0, 1), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        if n_events == 0 and not violations:
            raise Broken("no events were recorded")
        if perop:
            print(f"{prop}: violations by operation: {perop}", flush=True)
        print(f"{prop}: {recorded} events recorded, {n_events} distinct decided by TLC in {n_hist} histories, "
              f"{len(violations)} violations, {time.time()-t0:.1f}s", flush=True)
        return 1 if violations else 0
    except Broken as x:
        log("BROKEN:", x)
        if violations:
            return 1
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(check(sys.argv[1]))
