#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only SECTION]: decide one property.

exit 0: held on everything explored; exit 1: VIOLATION line printed."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

VERIF = B.VERIF
CHECKS = json.load(open(os.path.join(HERE, "checks.json")))
KNOWN = os.path.join(VERIF, "known_findings.json")


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    return tempfile.mkdtemp(prefix="mcscratch-", dir=base)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--bench", action="store_true")
    a = ap.parse_args()
    spec = CHECKS[a.id]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = [k for k in json.load(open(KNOWN))["known"] if k["property"] == a.id] if os.path.exists(KNOWN) else []
    out = tempfile.mkdtemp(prefix="mcout-", dir="/tmp")
    sc = scratch()
    results, violations, hits = [], [], {}
    try:
        kf = os.path.join(out, "known.txt")
        with open(kf, "w") as f:
            for k in known:
                f.write(k["key"] + "\n")
        cap = a.cap or (480 if a.tier == "quick" else 6 * 3600)
        for n, h in enumerate(spec["harnesses"]):
            exe, tb, nb = B.build(h["name"], h["src"], h.get("components", ["eckit"]), h.get("variant", "O1"), h.get("rt", []), h.get("flags", []),
                                  h.get("libs", []), h.get("link", []))
            o = os.path.join(out, str(n))
            os.makedirs(o)
            env = dict(os.environ)
            for k in list(env):
                if k.startswith("ECKIT") or k in ("TMPDIR", "DEBUG"):
                    env.pop(k)
            env.update(h.get("env", {}))
            env["OMP_NUM_THREADS"] = env.get("OMP_NUM_THREADS", "2")
            env["MC_REPO"] = B.REPO
            env["MC_VERIF"] = VERIF
            cmd = [exe, "--out", o, "--scratch", os.path.join(sc, str(n)), "--tier", a.tier, "--known", kf, "--jobs", os.environ.get("MC_JOBS") or str(os.cpu_count() or 8),
                   "--cap", str(cap)]
            if h.get("no_aslr"):
                cmd = ["setarch", "-R"] + cmd
            if a.only:
                cmd += ["--only", a.only]
            if a.replay:
                r = json.load(open(a.replay))
                if r["harness"] != h["name"]:
                    continue
                cmd += ["--replay", r["section"], ",".join(map(str, r["choices"]))]
                sys.exit(subprocess.call(cmd, env=env))
            tr = time.time()
            p = subprocess.Popen(cmd, env=env, stdout=sys.stderr, start_new_session=True)
            try:
                rc = p.wait()
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            rf = os.path.join(o, "result.json")
            if rc not in (0, 1) or not os.path.exists(rf):
                print("harness %s failed with status %s" % (h["name"], rc), file=sys.stderr)
                sys.exit(2)
            r = json.load(open(rf))
            r["harness"] = h["name"]
            r["build_s"] = round(tb, 1)
            r["run_s"] = round(time.time() - tr, 1)
            results.append(r)
            for k, c in r["known"].items():
                hits[k] = hits.get(k, 0) + c
            for v in r["violations"]:
                v["harness"] = h["name"]
                violations.append(v)
            if violations:
                break
    except B.BuildError as e:
        print("build error: %s" % e, file=sys.stderr)
        sys.exit(2)
    finally:
        shutil.rmtree(sc, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)

    secs = [dict(s, harness=r["harness"]) for r in results for s in r["sections"]]
    if a.only or a.bench:
        for s in secs:
            print({k: v for k, v in s.items() if k not in ("sample_choices", "sample_trace", "outcome_samples", "harness", "capped_workers")}, s["outcome_samples"][:1] if s["outcome_samples"] else "")
        for r in results:
            print(r["harness"], "build", r["build_s"], "run", r["run_s"], r["note"])
    ex = sum(s["executions"] for s in secs)
    steps = sum(s["transitions"] for s in secs)
    states = sum(s["states"] for s in secs)
    evals = sum(s["evaluations"] for s in secs)
    nontriv = sum(s["nontrivial"] for s in secs)
    exhaustive = all(s["exhaustive"] for s in secs)
    samples = []
    for s in secs:
        if len(samples) < 6 and (s["sample_trace"] or s["outcome_samples"]):
            samples.append({"section": s["name"], "trace": s["sample_trace"][:30], "outcomes": s["outcome_samples"][:4]})
    cov = {"sections": [{k: s[k] for k in ("harness", "name", "executions", "transitions", "evaluations", "states", "outcomes", "exhaustive")} for s in secs],
           "rule": spec["rule"], "samples": samples, "exhaustive": bool(exhaustive and not violations), "bound": spec.get("bound_" + a.tier, spec.get("bound", ""))}
    level = spec["level"]
    if level == "model_checking":
        cov.update({"states": states, "transitions": steps, "traces_validated_against_impl": ex})
    else:
        cov.update({"evaluations": evals + ex, "distinct_nontrivial": nontriv if nontriv else ex})
    ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if hits.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s (%s)" % (a.id, k["key"], k["what"]))
    if violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations):
            p = os.path.join(rd, "%s-%d.json" % (a.id, i))
            with open(p, "w") as f:
                json.dump({"property": a.id, "harness": v["harness"], "section": v["section"], "choices": v["choices"], "message": v["message"],
                           "key": v["key"], "trace": v["trace"], "how": "python3 mc/check.py %s --replay %s" % (a.id, p)}, f, indent=1)
            print("  %s/%s: %s" % (v["harness"], v["section"], v["message"]))
            for t in v["trace"][-40:]:
                print("    | " + t)
            print("VIOLATION property=%s replay=%s" % (a.id, p))
        sys.exit(1)
    if ex == 0:
        print("nothing explored", file=sys.stderr)
        sys.exit(2)
    print("OK property=%s tier=%s executions=%d states=%d transitions=%d evaluations=%d exhaustive=%s wall=%.1fs" % (
        a.id, a.tier, ex, states, steps, evals, exhaustive, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
