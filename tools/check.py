#!/usr/bin/env python3
"""Run the check of one property: tools/check.py <PROPERTY>

1. TLC explores the property's specifications (exhaustively and by simulation),
   checks their invariants and prints the behaviours; at the same time the
   conformance harness is built from /repo's working tree.
2. The harness replays every behaviour in the real code and compares what it
   observes with what the specification says ("spec -> code"), or records runs
   of the real code that TLC then validates ("code -> spec").
3. evidence/<PROPERTY>.json is rewritten.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


def run_tlc(job, out_dir, seed, timeout):
    """One TLC run. Returns (stats, list of trace lines)."""
    name = job["name"]
    cfg = os.path.join(out_dir, name + ".cfg")
    sim = job.get("simulate")
    depth = job.get("depth", 20)
    consts = dict(job.get("constants", {}))
    if job.get("emit", True):
        consts["SimDepth"] = depth
    text = ["SPECIFICATION " + job.get("spec", "Spec"), "CONSTANTS"]
    for k, v in consts.items():
        text.append(f"  {k} <- {v[2:]}" if isinstance(v, str) and v.startswith("<-") else f"  {k} = {v}")
    if job.get("invariants"):
        text.append("INVARIANTS " + " ".join(job["invariants"]))
    if job.get("properties"):
        text.append("PROPERTIES " + " ".join(job["properties"]))
    if not sim and job.get("view", True):
        text.append("VIEW View")
    if job.get("constraint"):
        text.append("CONSTRAINT " + job["constraint"])
    if job.get("emit", True):
        text.append("ACTION_CONSTRAINT " + ("EmitEnd" if sim else "Emit"))
    text.append("CHECK_DEADLOCK FALSE")
    open(cfg, "w").write("\n".join(text) + "\n")
    workers = str(job.get("workers", 4))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + job.get("heap", "4g"), "-Xss16m", "-cp", CP, "tlc2.TLC",
           "-metadir", os.path.join(out_dir, "meta-" + name), "-workers", workers,
           "-noGenerateSpecTE", "-config", cfg]
    if sim:
        per = max(1, -(-sim // int(workers)))
        cmd += ["-simulate", f"num={per}", "-depth", str(depth + 1), "-seed", str(seed)]
    cmd.append(job["module"] + ".tla")
    log = os.path.join(out_dir, name + ".log")
    t0 = time.time()
    with open(log, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {name}")
    shutil.rmtree(os.path.join(out_dir, "meta-" + name), ignore_errors=True)
    traces, states, distinct, tail = [], 0, 0, []
    prefix = '<<"TRACE", "'
    with open(log) as f:
        for line in f:
            if line.startswith(prefix):
                traces.append(json.loads('"' + line.rstrip()[len(prefix):-3] + '"'))
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct", line)
            if m:
                states, distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                states = int(m.group(1))
            tail.append(line)
            tail = tail[-60:]
    if r.returncode != 0:
        raise ToolError(f"TLC failed on {name} (exit {r.returncode}):\n" + "".join(tail))
    os.remove(log)
    if job.get("emit", True) and not traces:
        raise ToolError(f"TLC printed no behaviours for {name}")
    stats = {"name": name, "module": job["module"], "mode": "simulation" if sim else "exhaustive",
             "states": states, "distinct_states": distinct, "behaviours": len(traces),
             "constants": consts, "invariants": job.get("invariants", []), "seconds": round(time.time() - t0, 1)}
    return stats, traces


def forget_stale_build():
    """cargo goes by modification times; go by contents as well."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "examples", "benches", "tests"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    stamp = os.path.join(HARNESS, "target", "repo.sha256")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    for d in glob.glob(os.path.join(HARNESS, "target", "debug", ".fingerprint", "rawdio-*")):
        shutil.rmtree(d)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    open(stamp, "w").write(h.hexdigest())


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--cfg rawdio_verif -Awarnings")
    env.pop("CARGO_TARGET_DIR", None)
    forget_stale_build()
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(HARNESS, "target", "debug", "conform")


def harness(exe, args, timeout):
    r = subprocess.run([exe] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise ToolError(f"harness failed ({r.returncode}) on {args}:\n" + r.stderr[-3000:])


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == prop:
                found.append((re.compile(m.group(2)), m.group(3)))
    return found


def validate(job, out_dir, exe, seed, timeout):
    """Code -> spec: record runs with the harness, have TLC validate each."""
    name = job["name"]
    rec = os.path.join(out_dir, name + ".rec.json")
    harness(exe, ["record", job["kind"], rec, "--seed", str(seed), "--count", str(job["count"])], timeout)
    data = json.load(open(rec))
    res = {"violations": list(data["violations"]), "traces": 0, "states": 0, "lines": 0, "samples": []}

    def one(i, chunk):
        path = os.path.join(out_dir, f"{name}-{i}.json")
        json.dump([t["trace"] for t in chunk], open(path, "w"))
        cfg = os.path.join(out_dir, f"{name}-{i}.cfg")
        consts = dict(job.get("constants", {}))
        text = ["SPECIFICATION TraceSpec", "CONSTANTS"] if consts else ["SPECIFICATION TraceSpec"]
        text += [f"  {k} = {v}" for k, v in consts.items()]
        text += ["INVARIANTS " + " ".join(job["invariants"])] if job.get("invariants") else []
        text += ["VIEW View"] if job.get("view") else []
        text += ["CONSTRAINT Progress", "POSTCONDITION Report", "CHECK_DEADLOCK FALSE"]
        open(cfg, "w").write("\n".join(text) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx2g", "-Xss16m", "-cp", CP, "tlc2.TLC", "-workers", "1",
               "-metadir", os.path.join(out_dir, f"meta-{name}-{i}"), "-noGenerateSpecTE", "-config", cfg, job["module"] + ".tla"]
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(os.environ, TRACE_FILE=path))
        shutil.rmtree(os.path.join(out_dir, f"meta-{name}-{i}"), ignore_errors=True)
        m = re.search(r'<<\s*"REACHED",\s*"(.*?)"\s*>>', r.stdout, re.S)
        if not m:
            raise ToolError(f"TLC failed on {name}-{i} (exit {r.returncode}):\n" + r.stdout[-3000:])
        reached = json.loads(json.loads('"' + m.group(1) + '"'))
        n = re.findall(r"([\d,]+) states generated", r.stdout)
        return chunk, reached, int(n[-1].replace(",", "")) if n else 0

    runs = data["runs"]
    size = max(1, -(-len(runs) // 8))
    chunks = [runs[i:i + size] for i in range(0, len(runs), size)]
    with cf.ThreadPoolExecutor(8) as ex:
        for chunk, reached, states in ex.map(lambda a: one(*a), enumerate(chunks)):
            res["states"] += states
            for t, l in zip(chunk, reached):
                n = len(t["trace"]["lines"])
                res["traces"] += 1
                res["lines"] += n
                if l <= n:
                    lines = t["trace"]["lines"]
                    res["violations"].append({
                        "message": f"line {l} of the recorded run is not a step of the specification: {json.dumps(lines[l - 1])[:300]}"
                                   f" after {json.dumps(lines[max(0, l - 4):l - 1])[:600]}",
                        "record": t})
    if runs:
        t = runs[0]["trace"]
        res["samples"].append({"recorded": {**t, "lines": t["lines"][:12]}})
    return res


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    limit = 840 if tier == "quick" else 6 * 3600
    out_dir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    rep_dir = os.path.join(VERIF, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    jobs = [j for j in plan["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    tlc_jobs = [j for j in jobs if not j.get("validate")]
    val_jobs = [j for j in jobs if j.get("validate")]

    with cf.ThreadPoolExecutor(5) as ex:
        b = ex.submit(build)
        futs = [(j, ex.submit(run_tlc, j, out_dir, seed, limit)) for j in tlc_jobs]
        exe = b.result()
        stats, violations, samples = [], [], []
        checks = replayed = 0
        for j, f in futs:
            st, traces = f.result()
            stats.append(st)
            if not traces:
                continue
            tf = os.path.join(out_dir, j["name"] + ".traces")
            with open(tf, "w") as o:
                o.write("\n".join(sorted(set(traces))) + "\n")
            del traces
            rf = os.path.join(out_dir, j["name"] + ".result")
            harness(exe, ["replay-all", j["kind"], tf, rf, "--seed", str(seed), "--params", json.dumps(j.get("params", {}))],
                    limit - (time.time() - t0) + 20)
            res = json.load(open(rf))
            st.update(replayed=res["traces"], executions=res["runs"], comparisons=res["checks"])
            checks += res["checks"]
            replayed += res["traces"]
            violations += [dict(v, job=j["name"]) for v in res["violations"]]
            samples += res["samples"][:1]
            os.remove(tf)
    for j in val_jobs:
        res = validate(j, out_dir, exe, seed, limit)
        stats.append({"name": j["name"], "module": j["module"], "mode": "validation of recorded runs",
                      "states": res["states"], "behaviours": res["traces"], "lines": res["lines"]})
        replayed += res["traces"]
        checks += res["lines"]
        violations += [dict(v, job=j["name"]) for v in res["violations"]]
        samples += res["samples"]

    known = known_findings(prop)
    new, seen_known = [], set()
    for v in violations:
        hit = next((k for k in known if k[0].search(v["message"])), None)
        if hit:
            seen_known.add(hit[1])
        else:
            new.append(v)
    for text in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {text}")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(s.get("distinct_states") or s["states"] for s in stats),
            "transitions": sum(s["states"] for s in stats),
            "traces_validated_against_impl": replayed,
            "implementation_executions": sum(s.get("executions", 0) for s in stats),
            "comparisons_with_the_specification": checks,
            "runs": stats,
            "samples": samples[:3],
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {evidence['coverage']['transitions']} transitions of the specification, {replayed} behaviours"
          f" bound to the code, {checks} comparisons, {len(new)} violations, {evidence['wall_s']} s")
    shutil.rmtree(out_dir, ignore_errors=True)
    if new:
        for i, v in enumerate(new[:5]):
            path = os.path.join(rep_dir, f"{prop}-{i + 1}.json")
            json.dump(v, open(path, "w"), indent=1)
            print(f"  {v['job']}: {v['message'][:400]}")
            if i == 0:
                first = path
        print(f"VIOLATION property={prop} replay={os.path.relpath(first, VERIF)}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (ToolError, subprocess.TimeoutExpired) as e:
        print(f"ERROR: {e}", file=sys.stderr)
        sys.exit(2)
