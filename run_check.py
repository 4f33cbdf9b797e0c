#!/usr/bin/env python3
"""Runs one check: rebuilds from /repo, explores, writes evidence/<ID>.json.

usage: run_check.py ID [quick|thorough]      exit 0 held, 1 violated, 2 could not decide
       run_check.py --replay FILE [variant]
"""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B

ASSUMPTIONS = {}
VARIANT = {"C18": "asan"}


def env():
    e = dict(os.environ)
    e.update(TZ="UTC", LC_ALL="C", VERIF_GOLDEN=os.path.join(VERIF, "golden"),
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
             UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0", VERIF_REPO=B.REPO)
    e.pop("MALLOC_PERTURB_", None)
    return e


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            if l.startswith("known: property=%s " % pid):
                out.append(l[len("known: "):].strip())
    except OSError:
        pass
    return out


def main():
    if sys.argv[1] == "--replay":
        v = sys.argv[3] if len(sys.argv) > 3 else "fast"
        exe = B.build((v,))[v]
        sys.exit(subprocess.call([exe, "--replay", os.path.abspath(sys.argv[2])], env=env()))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    rep = os.path.join(ev, "replays")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rep, f))
    variant = VARIANT.get(pid, "fast")
    try:
        exe = B.build((variant,))[variant]
    except RuntimeError as e:
        print("could not build: %s" % e)
        sys.exit(2)
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        res = os.path.join(scratch, "result.json")
        r = subprocess.run([exe, pid, tier, rep, res], cwd=scratch, env=env(), stdin=subprocess.DEVNULL)
        if r.returncode != 0 or not os.path.exists(res):
            print("the harness failed with status %d" % r.returncode)
            sys.exit(2)
        j = json.load(open(res))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    viol = j["violations"]
    out = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": j["states"], "transitions": j["transitions"],
            "traces_validated_against_impl": j["traces"],
            "distinct_expected_outputs": j["outcomes"],
            "samples": j["samples"], "exhaustive": not j["capped"] and not viol,
            "phases": j["phases"], "bounds": j["notes"],
            "oracle_evaluations": j["evals"], "unconfirmed_discrepancies": j["unconfirmed"],
            "model_binding": "every explored transition is executed by the real decoder built from /repo and by the reference decoder, and their outputs are compared after that transition",
        },
        "assumptions": j["notes"].get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    out["coverage"]["bounds"] = {k: v for k, v in j["notes"].items() if k != "assumptions"}
    json.dump(out, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d%s %.1fs (build %.1fs)" % (
        pid, tier, j["states"], j["transitions"], j["traces"], j["outcomes"],
        " CAPPED" if j["capped"] else "", wall, tb))
    for k in j["known"]:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v in viol:
        print("  " + v["why"][:1500].replace("\n", " "))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
