#!/usr/bin/env python3
"""Decides one property: check.py <property> <quick|thorough>

Builds the harness and its IR from /repo's current tree, runs the symbolic engine on every harness
of the property, replays what it found and a sample of what it did not find against the native build,
and writes evidence/<property>.json."""
import collections, glob, json, os, re, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import build
import native
import props

B = os.path.join(V, "build")


def run_engine(paths, entry, args, secs, out, steps=400_000_000):
    for f in glob.glob(out + "*"):
        os.remove(f)
    cmd = [paths["engine"], "--lldir", paths["lldir"], "--entry", entry, "--out", out, "--secs", str(secs), "--jobs", str(os.cpu_count() or 8),
           "--sample-every", "1", "--max-steps", str(steps)]
    for a in args:
        cmd += ["--arg", str(a)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 120)
        log, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = str(e.stdout)[-3000:], 99
    r = dict(entry=entry, args=list(args), wall=time.time() - t0, rc=rc, log=log[-3000:], stat=collections.Counter(), marks=collections.Counter(),
             errors=collections.Counter(), viol=[], violcount=collections.Counter(), samples=[], fns=set(), workers=None)
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            f = l.rstrip("\n").split("\t")
            k = f[0]
            if k == "stat":
                r["stat"][f[1]] += float(f[2]) if "." in f[2] else int(f[2])
            elif k == "mark":
                r["marks"][f[1]] += int(f[2])
            elif k == "error":
                r["errors"][f[1]] += int(f[2])
            elif k == "violcount":
                r["violcount"][f[1]] += int(f[2])
            elif k == "viol":
                r["viol"].append((f[1], f[2], f[3]))
            elif k == "sample":
                r["samples"].append((f[1], f[2], f[3]))
            elif k == "fn":
                r["fns"].add(f[1])
            elif k == "workers":
                r["workers"] = f[1:]
        os.remove(out)
    else:
        r["errors"]["the engine wrote no result"] += 1
    return r


def crate_of(fn):
    """crate names in a mangled symbol, the defining one first"""
    out = []
    for m in re.finditer(r"C[sS]?[0-9A-Za-z]*_(\d+)", fn):
        n = int(m.group(1))
        s = fn[m.end():m.end() + n + 1].lstrip("_")
        out.append(s[:n])
    return out


def short(fn):
    """readable tail of a mangled name"""
    parts, i = [], 0
    for m in re.finditer(r"(?<![0-9])(\d{1,2})(_?[A-Za-z_][A-Za-z0-9_]*)", fn):
        n = int(m.group(1))
        s = m.group(2)
        if m.group(2).startswith("_") and len(s) > n:
            s = s[1:]
        parts.append(s[:n])
    return "::".join(parts[:5])


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    build.main()
    paths = json.load(open(os.path.join(B, "paths.json")))
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k.get("property") == pid and k.get("status") == "known"]
    runs = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    os.makedirs(os.path.join(B, "out"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    budget = 780 if tier == "quick" else 20000
    res, problems, violations, findings = [], [], [], {}
    validated = disagreements = 0
    samples = []
    for i, (entry, args, secs) in enumerate(runs):
        left = budget - (time.time() - t0)
        if left < 10:
            res.append(dict(entry=entry, args=list(args), skipped=True))
            continue
        r = run_engine(paths, entry, args, int(min(secs, left)), os.path.join(B, "out", f"{pid}.{os.getpid()}.{i}"))
        res.append(r)
        for e, n in r["errors"].items():
            problems.append(f"{entry}{args}: engine: {e} ({n} paths)")
        # every violation is replayed natively before it is believed
        seen = collections.Counter()
        for label, hexin, where in r["viol"]:
            if seen[label] >= 2:
                continue
            k = next((k for k in known if k["label"] == label and entry in k["entries"]), None)
            n = native.run(paths, entry, args, hexin)
            if n.failed and native.same(n, label):
                seen[label] += 1
                if k:
                    findings[k["id"]] = k
                else:
                    violations.append((label, entry, args, hexin, n))
            else:
                seen[label] += 1
                problems.append(f"{entry}{args}: counterexample {hexin} for '{label}' does not reproduce natively ({n.summary()})")
        # and models of explored paths are compared with the native build
        cap = P.get("replays", 24 if tier == "quick" else 60)
        for hexin, end, notes in native.choose(r["samples"], cap, seed):
            n = native.run(paths, entry, args, hexin)
            validated += 1
            want = [x for x in notes.split(",") if x]
            if n.failed or n.notes != want:
                disagreements += 1
                problems.append(f"{entry}{args}: engine and native build disagree on {hexin}: {n.summary()} notes {str(want)[:80]} / {str(n.notes)[:80]}")
            elif len(samples) < 8:
                samples.append(dict(harness=entry, args=list(args), input_bytes=hexin, observed=n.summary()))
        if violations and tier == "quick":
            break
    done = [r for r in res if not r.get("skipped")]
    marks = sum((r["marks"] for r in done), collections.Counter())
    if not violations:
        for m in P.get("marks", []):
            if not marks.get(m):
                problems.append(f"vacuous: no path reached '{m}'")
    fns = set().union(*[r["fns"] for r in done]) if done else set()
    own = sorted({short(f) for f in fns if crate_of(f)[:1] and crate_of(f)[0].startswith("bulloak")} |
                 {short(f) for f in fns if not crate_of(f)[:1] and "bulloak" in f})
    st = sum((r["stat"] for r in done), collections.Counter())
    complete = all(not r.get("skipped") and r["stat"]["unexplored"] == 0 and r["stat"]["unknown"] == 0 and r["rc"] == 0 for r in res) and not violations
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(st["paths"] + st["pruned"]), transitions=int(st["forks"] + st["implied"]),
            traces_validated_against_impl=validated, samples=samples or [dict(note="none")],
            exhaustive=complete, complete_within_bounds=complete,
            paths_to_end=int(st["paths"]), infeasible_or_assumed_away=int(st["pruned"]), paths_not_explored=int(st["unexplored"]),
            instructions_executed=int(st["steps"]), solver_queries=int(st["queries"]), queries_sat=int(st["sat"]), queries_unsat=int(st["unsat"]),
            queries_unknown=int(st["unknown"]), solver_seconds=round(float(st["solver_time"]), 2),
            assertions_checked=int(st["asserts"]), assertions_with_symbolic_condition=int(st["sym_asserts"]),
            reached=dict(marks), functions_encoded=len(fns), functions_encoded_of_bulloak=own[:120],
            disagreements=disagreements,
            bounds=[dict(harness=r["entry"], args=r["args"], range=props.BOUNDS.get(r["entry"], "").format(*(list(r["args"]) + [0, 0, 0])),
                         complete=(not r.get("skipped") and r["stat"]["unexplored"] == 0 and r["rc"] == 0),
                         paths=int(r["stat"]["paths"]) if not r.get("skipped") else 0, seconds=round(r.get("wall", 0), 1)) for r in res],
            problems=[p[:300] for p in problems[:10]],
        ),
        assumptions=props.ASSUMPTIONS + P.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    out = os.path.join(V, "evidence", pid + ".json")
    json.dump(ev, open(out + ".part", "w"), indent=1)
    os.rename(out + ".part", out)
    for k in findings.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violations:
        os.makedirs(os.path.join(B, "replays"), exist_ok=True)
        for j, (label, entry, args, hexin, n) in enumerate(violations[:5]):
            rp = os.path.join(B, "replays", f"{pid}_{j}.json")
            json.dump(dict(property=pid, what=label, harness=entry, args=list(args), input_bytes=hexin, native=n.text[-4000:],
                           replay_cmd=f"python3 /verif/tools/replay.py {rp}"), open(rp, "w"), indent=1)
            print(f"violated: {label} [{entry} {list(args)} input {hexin}] {n.summary()}")
            print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if problems:
        for p in problems[:10]:
            print("PROBLEM " + p[:600])
        sys.exit(2)
    print(f"{pid} {tier}: held on {int(st['paths'])} paths ({'complete' if complete else 'INCOMPLETE'} within bounds), {int(st['queries'])} queries, "
          f"{st['solver_time']:.1f}s solver, {validated} replays, {time.time()-t0:.0f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
