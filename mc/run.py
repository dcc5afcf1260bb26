#!/usr/bin/env python3
"""run.py Cxx [--replay FILE]: builds vmime from /repo's working tree together with the
harness of property Cxx, runs it, writes evidence/Cxx.json, prints VIOLATION / KNOWN-FINDING."""
import sys, os, json, subprocess, shutil, struct, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import build as bld

def known_for(pid):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                # known: property=C01 key=<label> what=<text>
                rest = l[len("known: property="):]
                prop, rest = rest.split(" key=", 1)
                key, what = rest.split(" what=", 1)
                if prop == pid: out[key] = what
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bins = bld.build([pid])
    if bins is None: sys.exit(2)
    tb = time.time() - t0
    known = known_for(pid)
    out = os.path.join(V, "build", "run", pid)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    kf = os.path.join(out, "known.txt")
    with open(kf, "w") as f: f.write("".join(k + "\n" for k in known))
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:exitcode=86")
        sys.exit(subprocess.run([bins[pid], "--tier", rep.get("tier", "quick"), "--only", rep["case"]], env=env).returncode)
    r = subprocess.run([bins[pid], "--out", out, "--tier", tier, "--jobs", str(bld.JOBS), "--known", kf])
    done = os.path.join(out, "done")
    if r.returncode != 0 or not os.path.exists(done):
        sys.stderr.write("harness failed to run\n"); sys.exit(2)
    outcomes, states = set(), set()
    tot = dict(executed=0, transitions=0, traces=0, nviol=0); counters = {}
    meta, viol, seenknown, samples, enumerated = {}, [], set(), [], 0
    for f in glob.glob(out + "/w*.json"):
        j = json.load(open(f)); meta = j
        for k in tot: tot[k] += j[k]
        enumerated = max(enumerated, j["enumerated"])
        for k, n in j["counters"].items(): counters[k] = counters.get(k, 0) + n
        viol += [tuple(x) for x in j["violations"]]
        seenknown |= set(j["known"])
        for s in j["samples"]:
            if s not in samples: samples.append(s)
        with open(f + ".set", "rb") as g:
            d = g.read()
        n = struct.unpack_from("<Q", d, 0)[0]
        outcomes.update(struct.unpack_from("<%dQ" % n, d, 8))
        m = struct.unpack_from("<Q", d, 8 + 8 * n)[0]
        states.update(struct.unpack_from("<%dQ" % m, d, 16 + 8 * n))
    incomplete = open(done).read() != "complete"
    ncrash = 0
    for l in open(out + "/crashes.txt", errors="replace"):
        k, kind, why = l.rstrip("\n").split("\t", 2)
        if kind == "K": seenknown.add(k)
        else: viol.append((k, why)); tot["nviol"] += 1
        ncrash += 1
    viol = sorted(set(viol), key=lambda v: (len(v[0]), v[0]))
    # report the shortest case of every (family, message prefix) first
    first, rest, seen = [], [], set()
    for k, m in viol:
        sig = (k.split("|")[0], m[:40])
        (rest if sig in seen else first).append((k, m)); seen.add(sig)
    viol = first + rest
    rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    for f in glob.glob(os.path.join(rd, pid + "-*.json")): os.unlink(f)
    level = meta.get("level", "exploration")
    cov = {"samples": [s[:300] for s in sorted(samples)[:12]], "exhaustive": bool(meta.get("exhaustive", True)) and not incomplete,
           "rule": meta.get("rule", "")}
    if level == "model_checking":
        cov.update(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                   executions=tot["executed"])
        if outcomes: cov["distinct_outcomes"] = len(outcomes)
    else:
        cov.update(evaluations=tot["executed"], distinct_nontrivial=len(outcomes))
        if tot["transitions"]: cov["transitions"] = tot["transitions"]
        if states: cov["states"] = len(states)
    if counters: cov["counters"] = counters
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": tot["nviol"],
          "build_s": round(tb, 2), "known_findings_seen": len(seenknown)}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known:
        if k in seenknown: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k[:200]))
    shutil.rmtree(out, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    if viol:
        for i, (k, m) in enumerate(viol[:12]):
            rp = os.path.join(rd, "%s-%d.json" % (pid, i))
            with open(rp, "w") as f: json.dump({"property": pid, "tier": tier, "case": k, "what": m,
                "replay_cmd": "/verif/check %s --replay %s" % (pid, rp)}, f, indent=1)
            if i < 12: print("  case %s\n    %s" % (k[:500], m[:900]))
        print("%d violating cases (%d executed, %d distinct outcomes, %.1fs)" % (tot["nviol"], tot["executed"], len(outcomes), time.time() - t0))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rd, pid + "-0.json")))
        sys.exit(1)
    if incomplete or enumerated == 0 or (tot["executed"] + ncrash < enumerated):
        sys.stderr.write("exploration incomplete\n"); sys.exit(2)
    print("%s: held on all %d cases (%d distinct outcomes, %d states, %d transitions), build %.1fs, total %.1fs" % (
        pid, tot["executed"], len(outcomes), len(states), tot["transitions"], tb, time.time() - t0))
    sys.exit(0)
main()
