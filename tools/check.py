#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current working tree.

exit 0: every harness of the property was explored completely, every check held on every path, every required
cover point was reached, and sampled paths behave natively as they do in the engine.
exit 1: a violation which the natively compiled code reproduces and known-findings.txt does not list.
exit 2: no answer (build failure, time limit, something the engine cannot execute, disagreement with the native run).
"""
import argparse, fcntl, json, os, random, re, shutil, subprocess, sys, threading, time
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS

FINDINGS = os.path.join(vlib.VERIF, "known-findings.txt")


def say(s):
    print(s, flush=True)


def known(prop):
    """lines `known: property=C03 entry=h_c03_imports check="..." <what fails>`"""
    out = []
    for l in open(FINDINGS):
        m = re.match(r'known: property=(\S+) entry=(\S+) check="([^"]*)" (.*)', l)
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


class NativeRun:
    """the harness entry compiled natively, under one assignment"""

    def __init__(self, exe):
        self.exe = exe
        os.makedirs(os.path.join(vlib.BUILD, "replay"), exist_ok=True)

    def __call__(self, entry, inputs, timeout=60):
        f = os.path.join(vlib.BUILD, "replay", "values.%d" % os.getpid())
        with open(f, "w") as h:
            for n, _, v in inputs:
                h.write("%s %d\n" % (n, v))
        # the virtual files of a harness are real files under /tmp/vsr in a native run
        with open(os.path.join(vlib.BUILD, "replay.lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            try:
                p = subprocess.run([self.exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                                   env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
                out, rc = p.stdout.decode("utf8", "replace"), p.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = (e.stdout or b"").decode("utf8", "replace"), "timeout"
        lines = [l for l in out.split("\n") if l]
        r = {"fails": [l[10:] for l in lines if l.startswith("CHECKFAIL ")],
             "panics": [l[6:] for l in lines if l.startswith("PANIC ")],
             "notes": [l[5:] for l in lines if l.startswith("NOTE ")],
             "end": next((l[4:] for l in lines if l.startswith("END ")), None),
             "assume": "ASSUME" in lines, "rc": rc}
        return r


def symex(entry, tier, spec, ll, jobs, limit):
    out = os.path.join(vlib.BUILD, "out-%s-%d.json" % (entry, os.getpid()))
    cmd = [os.path.join(vlib.BUILD, "engine/release/symex"), "--ll", ll, "--entry", entry, "--out", out,
           "--jobs", str(jobs), "--limit", str(limit)]
    if tier == "thorough":
        cmd.append("--strict")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return [{"entry": entry, "complete": False, "errors": ["engine exited with %s: %s" % (p.returncode, p.stderr[-600:])]}]
    d = json.load(open(out))
    os.unlink(out)
    return d


def confirm(run, entry, v):
    """does the real code, compiled natively, fail the same way? (several runs: hash seeds differ between them)"""
    last = None
    for _ in range(6):
        r = last = run(entry, v["inputs"])
        if v["kind"] == "check" and v["id"] in r["fails"]:
            return True, r
        if v["kind"] in ("panic", "crash") and (r["panics"] or (r["end"] is None and not r["assume"])):
            return True, r
        if r["fails"]:
            v["id"] = r["fails"][0]
            v["kind"] = "check"
            return True, r
    return False, last


def decide(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    entries = dict(spec["quick"])
    if tier == "thorough":
        entries.update(spec.get("thorough", {}))
    errors, native_exe = [], [None]
    with vlib.Lock():
        vlib.engine()
        ll, build_s = vlib.ir()
        exe = vlib.native()
    t_build = time.time() - t0
    budget = 780 if tier == "quick" else 6 * 3600
    run = NativeRun(exe)
    tot, covers, checks, funcs, samples = Counter(), Counter(), Counter(), set(), []
    violations, per = [], {}
    for entry in entries:
        left = budget - (time.time() - t0)
        if left < 5:
            errors.append("%s: no time left" % entry)
            continue
        parts = symex(entry, tier, spec, ll, os.cpu_count() or 4, int(left))
        e = Counter()
        ecov = Counter()
        for d in parts:
            for k in ("paths", "infeasible", "forks", "steps", "checks_solver", "checks_const", "queries", "sat", "unsat",
                      "unknown", "solver_us"):
                e[k] += d.get(k, 0)
            ecov.update(d.get("covers", {}))
            checks.update(d.get("check_ids", {}))
            funcs.update(d.get("functions", []))
            errors += ["%s: %s" % (entry, x) for x in d.get("errors", [])[:3]]
            if not d.get("complete"):
                errors.append("%s: exploration incomplete" % entry)
            for v in d.get("violations", []):
                v["entry"] = entry
                violations.append(v)
            for s in d.get("samples", []):
                samples.append((entry, s))
        if e["unknown"]:
            errors.append("%s: %d queries without an answer" % (entry, e["unknown"]))
        for c in entries[entry]["covers"]:
            if not ecov[c]:
                errors.append("%s: cover point '%s' not reached" % (entry, c))
        tot.update(e)
        covers.update(ecov)
        per[entry] = {"bounds": entries[entry]["bounds"], "paths": e["paths"], "queries": e["queries"], "covers": dict(ecov)}

    # violations: grouped by what fails; a group counts once the native build reproduces one of its members
    groups = {}
    for v in violations:
        groups.setdefault((v["entry"], v["kind"], v["id"]), []).append(v)
    reported, listed, nfind = [], [], known(prop)
    for (entry, kind, ident), vs in sorted(groups.items()):
        ok = False
        for v in vs[:4]:
            ok, r = confirm(run, entry, v)
            if ok:
                break
        if not ok:
            errors.append("%s: the native build does not reproduce %s '%s' for %s: %s" % (entry, kind, ident, vs[0]["inputs"], r))
            continue
        k = [f for f in nfind if f[0] == entry and f[1] == v["id"]]
        if k:
            listed.append((k[0], v))
            continue
        d = os.path.join(vlib.BUILD, "replay")
        p = os.path.join(d, "%s-%d.json" % (prop, len(reported)))
        with open(p, "w") as h:
            json.dump({"property": prop, "entry": entry, "kind": v["kind"], "check": v["id"], "inputs": v["inputs"],
                       "notes": v["notes"], "trace": v["trace"], "native": r,
                       "replay": "python3 tools/replay.py %s" % p}, h, indent=1)
        reported.append((p, v))

    # translator validation: sampled paths, run natively, pass the same checks and covers in the same order
    rnd = random.Random(seed)
    byentry = {}
    for e, s in samples:
        byentry.setdefault(e, []).append(s)
    validated, n = 0, (40 if tier == "quick" else 300)
    bad = {(v["entry"]) for v in violations}
    shown = []
    for e, ss in sorted(byentry.items()):
        rnd.shuffle(ss)
        for s in ss[:max(6, n // max(1, len(byentry)))]:
            r = run(e, s["inputs"])
            notes = [x.replace("\n", "\\n") for x in s["notes"]]
            if len(shown) < 12 and not any(x["entry"] == e and x["notes"] == s["notes"] for x in shown):
                shown.append({"entry": e, "inputs": {i[0]: i[2] for i in s["inputs"]}, "notes": s["notes"]})
            if r["end"] == s["ev"] and r["notes"] == notes:
                validated += 1
            elif e not in bad:
                errors.append("%s: native run differs from the engine for %s: %s" % (e, s["inputs"], r))
    for k in {tuple(k) for k, _ in listed}:
        say("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for k in nfind:
        if k not in [x for x, _ in listed]:
            say("note: known finding no longer occurs: %s" % k[2])
    wall = time.time() - t0
    repo_funcs = sorted(f for f in funcs if "jinja_lsp" in f)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
          "violations": len(reported),
          "coverage": {
              "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated,
              "samples": shown, "exhaustive": not errors,
              "rule": "a state is one feasible symbolic path of a harness entry (a set of inputs that take the same decisions); "
                      "a transition is one executed LLVM instruction",
              "harness_entries": per, "bounds": spec["bounds"], "outside_bounds": spec["outside"],
              "forks": tot["forks"], "infeasible_paths": tot["infeasible"],
              "checks_decided_by_solver": tot["checks_solver"], "checks_decided_on_path": tot["checks_const"],
              "check_sites": dict(checks), "covers": dict(covers),
              "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"],
              "queries_unknown": tot["unknown"], "solver_s": round(tot["solver_us"] / 1e6, 3),
              "build_s": round(t_build, 1),
              "functions_encoded": len(funcs), "repo_functions_encoded": repo_funcs,
              "known_findings": [k[2] for k, _ in listed], "errors": errors[:20]},
          "assumptions": spec.get("assumptions", []) + [
              "clang 18 and rustc translate the sources to LLVM IR faithfully; the engine's semantics of that IR is validated by native replay of sampled paths",
              "allocation never fails; the file system is the set of files the harness declares",
          ]}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    say("%s %s: %d entries, %d paths, %d checks (%d by solver), %d queries %.1f s solver, %d traces validated, build %.0f s, %.0f s"
        % (prop, tier, len(per), tot["paths"], tot["checks_const"] + tot["checks_solver"], tot["checks_solver"], tot["queries"],
           tot["solver_us"] / 1e6, validated, t_build, wall))
    for e in errors[:12]:
        say("error: " + e[:1500])
    for p, v in reported:
        say("  %s: %s '%s' %s %s" % (v["entry"], v["kind"], v["id"], v["inputs"], v["notes"]))
        say("VIOLATION property=%s replay=%s" % (prop, p))
    if reported:
        return 1
    return 2 if errors else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    o = a.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        rc = decide(o.property, o.tier, seed)
    except vlib.BuildError as e:
        say("error: build failed: %s" % e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
