#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's working tree, explore, write evidence.

  check.py C18              run the check (tier from --tier or VERIF_TIER, default quick)
  check.py C18 --replay F   replay a violation found earlier
"""
import argparse, fcntl, glob, hashlib, json, os, subprocess, sys, time

MC = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(MC)
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_OUT", os.path.join(VERIF, "build"))
sys.path.insert(0, MC)
from checks import CHECKS


def drop_stale():
    """Removes objects made from sources whose contents have changed: times of files are not trusted."""
    now = {"repo": REPO}
    for top in ("lib", "include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith((".cc", ".c", ".h", ".in")):
                    q = os.path.join(d, f)
                    with open(q, "rb") as fd:
                        now[q] = hashlib.sha256(fd.read()).hexdigest()
    mf = os.path.join(OUT, "sources.json")
    try:
        with open(mf) as fd:
            was = json.load(fd)
    except (OSError, ValueError):
        was = {}
    other = was.get("repo") != REPO
    changed = {q for q in set(now) | set(was) if now.get(q) != was.get(q)}
    if changed:
        for d in glob.glob(os.path.join(OUT, "*/*.d")):
            with open(d) as fd:
                if other or changed & set(fd.read().replace("\\\n", " ").replace(":", " ").split()):
                    for q in (d, d[:-2] + ".o"):
                        if os.path.exists(q):
                            os.unlink(q)
        if other or any(q.endswith(".in") for q in changed):
            for q in glob.glob(os.path.join(OUT, "*/*.o")) + glob.glob(os.path.join(OUT, "gen/*")):
                os.unlink(q)
        for q in glob.glob(os.path.join(OUT, "bin/*")):
            os.unlink(q)
        with open(mf, "w") as fd:
            json.dump(now, fd)


def build(harnesses):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drop_stale()
        t = [os.path.join(OUT, "bin", h) for h in sorted(set(harnesses))]
        r = subprocess.run(["make", "-s", "-j8", "-C", MC, "REPO=" + REPO, "OUT=" + OUT] + t,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print("ERROR: the harness did not build")
        sys.exit(3)


QUICK_S = 760        # of the 900 s that a check gets, building included


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only this scenario")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    c = CHECKS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    runs = c["runs"]
    if not a.no_build:
        build([r["h"] for r in runs])
    if a.replay:
        scn = [l.split()[1] for l in open(a.replay) if l.startswith("harness ")]
        h = scn[0] if scn else runs[0]["h"]
        sys.exit(subprocess.run([os.path.join(OUT, "bin", h), "--replay", a.replay]).returncode)
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf))["findings"]:
            if k["property"] == a.prop and k["status"] == "known":
                known.append(k)
    results, rc = [], 0
    for i, r in enumerate(runs):
        if a.only and r["s"] != a.only:
            continue
        o = dict(r)
        o.update(r.get(a.tier, {}))
        if o.get("skip"):
            continue
        limit = float(o.get("time", 200))
        if a.tier == "quick":           # an answer within the time a check gets, on a slow machine too
            left = t0 + QUICK_S - time.time()
            if left < 5:
                print("%s %s: left out, no time remains" % (r["h"], r["s"]))
                results.append({"scenario": r["s"], "params": o.get("params", {}), "exhaustive": False, "capped": "not run: no time remained"})
                continue
            limit = min(limit, left)
        js = os.path.join(OUT, "res-%s-%d.json" % (a.prop, i))
        rp = os.path.join(VERIF, "replays", "%s-%s.txt" % (a.prop, r["s"]))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        for f in (js, rp):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [os.path.join(OUT, "bin", r["h"]), "--scenario", r["s"], "--json", js, "--replay-out", rp,
               "--seed", str(seed), "--preempt", str(o.get("p", 0)), "--env", str(o.get("e", 0)),
               "--total", str(o.get("t", 99)), "--time", "%g" % limit]
        for k, v in o.get("params", {}).items():
            cmd += ["--param", "%s=%d" % (k, v)]
        for k in known:
            cmd += ["--known", k["sig"]]
        for k in ("exec_timeout", "workers"):
            if k in o:
                cmd += ["--" + k.replace("_", "-"), str(o[k])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(p.stdout[-20000:])
        sys.stdout.flush()
        res = json.load(open(js)) if os.path.exists(js) else {}
        results.append(res)
        if p.returncode == 1 and res.get("violation"):
            with open(rp) as f:
                body = f.read()
            with open(rp, "w") as f:
                f.write("harness %s\n" % r["h"] + body)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            rc = 1
            break
        if p.returncode != 0:
            print("ERROR: %s %s exited with %d" % (r["h"], r["s"], p.returncode))
            rc = 4
    S = lambda k: sum(int(x.get(k, 0)) for x in results)
    cov = {
        "states": S("nodes"), "transitions": S("transitions") + S("nodes"),
        "traces_validated_against_impl": S("executions"),
        "model_comparisons": S("compared"), "distinct_outcomes": S("distinct_outcomes"),
        "exhaustive": bool(results) and all(x.get("exhaustive") for x in results),
        "explanation": "states: distinct nodes of the tree of choices (inputs, environment answers, thread switches) reached on the "
                       "real code; transitions: choices taken plus scheduler steps and operations executed; every execution ran the "
                       "implementation built from /repo and was compared with the reference/oracle.",
        "bounds": [{k: x.get(k) for k in ("scenario", "params", "preempt", "env", "total", "executions", "by_cost", "distinct_states",
                                           "pruned", "max_choice_depth", "distinct_outcomes", "exhaustive", "capped", "wall_s")} for x in results],
        "samples": [{"scenario": x.get("scenario"), "default_execution": x.get("sample", "")} for x in results],
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": c.get("level", "model_checking"), "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        print("OK property=%s tier=%s executions=%d exhaustive=%s wall=%.1fs" % (a.prop, a.tier, S("executions"), cov["exhaustive"], time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
