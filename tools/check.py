#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Builds what property ID needs from /repo's working tree, runs it, writes
/verif/evidence/ID.json.  Exit 0: held on everything explored.  Exit 1 with a
line "VIOLATION property=ID replay=PATH": broken.  Anything else: the check
itself could not run.
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from registry import RUNS

VERIF = B.VERIF

def findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    extra = []
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        else: extra.append(a)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    runs = RUNS[prop]
    if replay:
        variant = None
        for line in open(replay):
            if line.startswith("variant "): variant = line.split()[1]
        runs = [r for r in runs if variant is None or r["config"] == variant] or runs
        runs = runs[:1]
    t0 = time.time()
    evs = []
    known = findings(prop)
    tmp = os.path.join(VERIF, "evidence")
    os.makedirs(tmp, exist_ok=True)
    printed = set()
    for r in runs:
        if tier not in r.get("tiers", ("quick", "thorough")):
            continue
        (binary,) = B.build(r["config"], [r["bin"]])
        ev = os.path.join(tmp, ".%s.%s.part" % (prop, r["config"]))
        cmd = [binary, "--tier", tier, "--seed", str(seed), "--variant", r["config"],
               "--replay-dir", os.path.join(VERIF, "replays"), "--evidence", ev] + r.get("args", [])
        if tier == "quick": cmd += r.get("quick_args", [])
        for k in known: cmd += ["--known", k]
        cmd += extra
        if replay: cmd += ["--replay", replay]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "tools", "tsan.supp")
        env["VERIF_TIER"] = tier
        if "apps" in r:
            env["VP_APPS"] = B.build_apps(r["config"], r["apps"])
        env["VERIF_SEED"] = str(seed)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, env=env)
        text = p.stdout.decode(errors="replace")
        for line in text.splitlines():
            m = re.match(r"known-finding (\S+) (fails|passes)", line)
            if m:
                if m.group(2) == "fails" and m.group(1) not in printed:
                    printed.add(m.group(1))
                    print("KNOWN-FINDING: property=%s %s: %s" % (prop, m.group(1), known[m.group(1)]))
                continue
            print(line)
        if os.path.exists(ev):
            try:
                evs.append(json.load(open(ev)))
            except ValueError as e:
                print("bad evidence part:", e)
            os.unlink(ev)
        if replay:
            return p.returncode
        if p.returncode == 1:
            write(prop, tier, seed, evs, t0)
            return 1
        if p.returncode != 0:
            print("check could not run: %s exited with %d" % (binary, p.returncode))
            return 2
    write(prop, tier, seed, evs, t0)
    return 0

def write(prop, tier, seed, evs, t0):
    if not evs:
        return
    base = evs[0]
    cov = base["coverage"]
    for e in evs[1:]:
        c = e["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "discarded"):
            cov[k] += c[k]
        for k in ("per_subproperty", "classes", "excluded_known"):
            for n, v in c[k].items():
                if n not in cov[k]: cov[k][n] = v
                elif isinstance(v, dict):
                    for a in v: cov[k][n][a] += v[a]
                else: cov[k][n] += v
        cov["samples"] += c["samples"]
        cov["warnings"] += c["warnings"]
        base["violations"] = max(base["violations"], e["violations"])
    if len(evs) > 1:
        cov["rule"] += " (cases of %d build configurations added up; the same cases may be run in each)" % len(evs)
    cov["samples"] = cov["samples"][:16]
    base["wall_s"] = round(time.time() - t0, 2)
    base["tier"] = tier
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(base, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    sys.exit(main())
