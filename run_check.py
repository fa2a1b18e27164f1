#!/usr/bin/env python3
"""run_check.py <property id> [--replay FILE]

Builds the property's program(s) from /repo's working tree, explores (VERIF_SEED, VERIF_TIER), writes
evidence/<id>.json and reports.  Exit 0: held (or only known findings); 1: VIOLATION; 2: the check did not work."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
import checks as K

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_for(pid):
    """lines 'known: property=<id> match=<part && part...> :: <what fails>'"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2).strip(), m.group(3).strip()))
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = K.CHECKS[pid]
    t0 = time.time()
    progs = c["programs"]
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        prog = progs[0]
        for p in progs:
            if "program: %s\n" % p in open(f, errors="replace").read(4000):
                prog = p
        if not B.build([prog]):
            return 2
        return subprocess.run([os.path.join(B.OUT, "bin", prog), "--replay", f, "--trace"]).returncode
    if not B.build(progs):
        print("ERROR: %s: the check does not build against %s" % (pid, B.REPO))
        return 2
    build_s = time.time() - t0
    known = known_for(pid)
    kf = os.path.join(B.OUT, pid + ".known")
    with open(kf, "w") as f:
        for i, (pat, _) in enumerate(known):
            f.write("%d\t%s\n" % (i, pat))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    runs, failures, seen, skipped = [], [], {}, []
    for p in progs:
        out = os.path.join(B.OUT, p + ".json")
        if os.path.exists(out):
            os.unlink(out)
        if failures:
            skipped.append(p + " (not run: a violation has been found already)")
            continue
        budget = c.get("budget", (60, 600))[0 if tier == "quick" else 1] / len(progs)
        pdir = rdir if len(progs) == 1 else os.path.join(rdir, p)
        os.makedirs(pdir, exist_ok=True)
        cmd = [os.path.join(B.OUT, "bin", p), "--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", pdir,
               "--known", kf, "--max-seconds", str(int(budget))]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        sys.stdout.write(r.stderr[-6000:])
        if not os.path.exists(out) and "FATAL: ThreadSanitizer" in r.stderr + r.stdout:
            print("%s: %s cannot run here: %s" % (pid, p, (r.stderr + r.stdout).strip().splitlines()[-1][:200]))
            skipped.append(p)
            continue
        if not os.path.exists(out):
            print("ERROR: %s: %s ended with %s and no result\n%s" % (pid, p, r.returncode, r.stdout[-2000:]))
            return 2
        o = json.load(open(out, errors="replace"))
        o["program"] = p
        runs.append(o)
        for f in o["failures"]:
            failures.append((p, f))
        for k, v in o["known"].items():
            seen[int(k)] = seen.get(int(k), 0) + v
    samples = []
    for o in runs:
        for s in o["samples"][:3]:
            samples.append(("[%s] " % o["program"] if len(runs) > 1 else "") + s)
    cov = {
        "evaluations": sum(o["evaluations"] for o in runs),
        "distinct_nontrivial": sum(o["distinct_nontrivial"] for o in runs),
        "rule": "cases come from a seeded choice sequence (see DESIGN.md, engine): " + runs[0]["rule"],
        "samples": samples or ["(no sample: the run ended before a case was completed)"],
        "labels": {o["program"]: o["labels"] for o in runs},
        "counts": {o["program"]: o["counts"] for o in runs},
        "unrepeatable_observations": sum(o["unrepeatable"] for o in runs),
        "cases_without_verdict": sum(o.get("no_verdict", 0) for o in runs),
        "build_s": round(build_s, 1),
        "exhaustive": False,
        "skipped_programs": skipped,
    }
    if known:
        cov["known_findings_hit"] = {known[k][1]: v for k, v in seen.items()}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, (pat, what) in enumerate(known):
        print("KNOWN-FINDING: property=%s %s (matched %d cases of this run)" % (pid, what, seen.get(i, 0)))
    for p, f in failures:
        print("%s: %s" % (f["tag"], f["msg"].splitlines()[0] if f["msg"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
    if not failures:
        print("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 1 if failures else 0


if __name__ == "__main__":
    sys.exit(main())
