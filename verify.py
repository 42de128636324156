#!/usr/bin/env python3
"""check <ID> [--tier quick|thorough]: decides one property by symbolic execution of /repo's current code. setup: builds the machinery."""
import argparse, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import pipeline as P
from vlib.registry import CHECKS

KNOWN = os.path.join(P.VERIF, "known_findings.json")
EVID = os.path.join(P.VERIF, "evidence")


def native(chk, rlib, entries, undefined, defined):
    """Builds the replay program of each entry against the same library."""
    out = {}
    src = open(os.path.join(P.HARNESS, "replay.rs")).read()
    d = os.path.join(P.BUILD, "replay", chk.id)
    os.makedirs(d, exist_ok=True)
    e = P.cargo_env()
    sr = P.sysroot()
    defs = []
    for o in chk.overrides:
        sub, to = o.split("=")
        defs += [f"-Clink-arg=-Wl,--defsym={u}={to}" for u in undefined if sub in u]
        # defined in a dependency: redirect the references to it
        defs += [a for u in defined if sub in u for a in (f"-Clink-arg=-Wl,--wrap={u}", f"-Clink-arg=-Wl,--defsym=__wrap_{u}={to}")]

    def one(en):
        rs = os.path.join(d, en + ".rs")
        head = "#![feature(rustc_private)]\nextern crate rustc_driver;\n" if chk.pkg == "aquascope" else ""
        crate = chk.pkg.replace("-", "_")
        with open(rs, "w") as f:
            f.write(head + f"extern crate {crate};\n" + src.replace("ENTRY", en))
        exe = os.path.join(d, en)
        cmd = ["rustc", "--edition", "2021", "-Awarnings", "--target", P.HOST, "-o", exe, rs, "--extern", f"{crate}={rlib}", "-L", "dependency=" + os.path.join(P.TARGET, P.HOST, "debug", "deps"),
               "-L", "dependency=" + os.path.join(P.TARGET, "debug", "deps")] + defs
        P.run(cmd, env=e, what=f"building the replay of {en}")
        return en, exe
    with P.ThreadPoolExecutor(4) as ex:
        out = dict(ex.map(one, entries))
    return out, os.path.join(sr, "lib")


def replay(exe, libdir, values, params, scratch, secs=60):
    os.makedirs(scratch, exist_ok=True)
    f = os.path.join(scratch, "model.txt")
    with open(f, "w") as h:
        h.write("\n".join(str(v) for v in values) + "\n")
    e = dict(os.environ, LD_LIBRARY_PATH=libdir, RUST_BACKTRACE="0")
    try:
        r = subprocess.run([exe, f] + [str(p) for p in params], env=e, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, "replay timed out"


def check(pid, tier):
    t0 = time.time()
    chk = CHECKS[pid]
    chk.id = pid
    P.build_engine()
    bc, deps, rlib = P.build_crate(chk.pkg, [f'aquascope_verif="{c}"' for c in chk.cfgs])
    runs = [r for r in chk.runs if tier in r.tiers]
    entries = sorted({r.entry for r in runs})
    ll = os.path.join(P.BUILD, "ll", pid + ".ll")
    undefined = P.link(bc, deps, entries + list(chk.stubs_used()), ll)
    t_build = time.time() - t0
    known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid] if os.path.exists(KNOWN) else []
    exes, libdir = native(chk, rlib, entries, undefined, P.defined(deps) if chk.overrides else ())
    errors, viols, found, seen = [], [], [], []
    tot = dict(paths=0, pruned=0, forks=0, queries=0, sat=0, unsat=0, small=0, solver=0.0, instr=0, asserts=0, asserts_sym=0)
    fns, runrep, samples, validated = set(), [], [], 0
    for i, r in enumerate(runs):
        # leave room for the remaining runs
        left = (chk.limit if tier == "quick" else 6 * 3600) - (time.time() - t0)
        secs = int(max(20, min(r.secs, left)))
        res = P.vsym(ll, r.entry, os.path.join(P.BUILD, "run", f"{pid}-{i}"), params=r.params, secs=secs, stubs=chk.stubs, nops=chk.nops, max_inst=r.max_inst, hang=r.hang)
        s = res["summary"]
        fns |= res["fns"]
        tot["paths"] += s["paths"]; tot["pruned"] += s["pruned"]; tot["forks"] += s["forks"]; tot["queries"] += s["queries"]
        tot["sat"] += s["sat"]; tot["unsat"] += s["unsat"]; tot["small"] += s["small_domain_decisions"]; tot["solver"] += s["solver_seconds"]
        tot["instr"] += s["instructions"]; tot["asserts"] += s["asserts"]; tot["asserts_sym"] += s["asserts_symbolic"]
        here = 0
        for vid, vs in sorted(res["viol"].items()):
            # several counterexamples of one assertion: one that reproduces is enough
            bad = None
            for v in sorted(vs, key=lambda v: len(v["inputs"]))[:6]:
                vals = [x[2] for x in v["inputs"]]
                rc, out = replay(exes[r.entry], libdir, vals, r.params, os.path.join(P.BUILD, "replay", pid, "scratch"), 20 if v["kind"] == "hang" else 60)
                ok = v["kind"] == "hang" and rc == -1 or rc == 1 and ("REPLAY-VIOLATION " in out and "REPLAY-VIOLATION panic" not in out or v["kind"] == "panic" and "REPLAY-PANIC" in out)
                if ok:
                    break
                bad = bad or f"counterexample for '{vid}' in {r.entry} does not reproduce natively (exit {rc}), inputs {[f'{n}={x}' for n, w, x in v['inputs']][:60]}: {out[-300:]}"
            if not ok:
                errors.append(bad)
                continue
            rec = dict(property=pid, entry=r.entry, params=list(r.params), violation=vid, kind=v["kind"], inputs=v["inputs"], notes=v["notes"], stack=[P.demangle(x) for x in v["stack"]], replay_exit=rc, replay_output=out[-2000:])
            here += 1
            k = next((k for k in known if k["violation"] == vid and k["entry"] == r.entry), None)
            if k:
                seen.append(k)
                continue
            os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
            path = os.path.join(EVID, "replays", f"{pid}-{len(viols)}.json")
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            viols.append((vid, path))
        for e in res["errors"]:
            errors.append(f"{r.entry}: {e}")
        missing = [c for c in r.covers if c not in res["covers"]]
        if missing and not here:
            errors.append(f"{r.entry}: never reached: {missing}")
        # the witnesses of reachability are run against the real code too
        for c, inp in sorted(res["covers"].items()):
            rc, out = replay(exes[r.entry], libdir, [x[2] for x in inp], r.params, os.path.join(P.BUILD, "replay", pid, "scratch"))
            if f"REPLAY-COVER {c}" in out and (rc == 0 or here):
                validated += 1
            elif not here:
                errors.append(f"{r.entry}: the witness of '{c}' behaves differently natively (exit {rc}): {out[-300:]}")
            if len(samples) < 12:
                samples.append(dict(entry=r.entry, reaches=c, inputs=[f"{n}={v}" for n, w, v in inp][:40]))
        runrep.append(dict(entry=r.entry, params=list(r.params), bounds=r.bounds, covers=sorted(res["covers"]), **{k: s[k] for k in s if k not in ("entry", "fatal", "solver")}))
        if viols and tier == "quick":
            break
    ours = sorted({P.demangle(f) for f in fns if chk.pkg.replace("-", "_") in f and "verif" not in f})
    deps_n = len(fns) - len([f for f in fns if chk.pkg.replace("-", "_") in f])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["instr"], traces_validated_against_impl=validated, samples=samples,
                            rule="states: complete symbolic paths of the harnesses (each stands for every input satisfying its path condition); transitions: compiler-IR instructions executed symbolically plus forks; traces: reachability witnesses re-run on the natively compiled code with the same outcome",
                            functions_encoded=ours, library_functions_encoded=deps_n, paths_excluded_by_assumptions=tot["pruned"],
                            assertions_evaluated=tot["asserts"], assertions_sent_to_solver=tot["asserts_sym"],
                            queries=dict(total=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], solver_seconds=round(tot["solver"], 2), decided_by_byte_domain_tables=tot["small"]),
                            runs=runrep, bounds=[r.bounds for r in runs], outside_bounds=chk.outside, errors=errors[:20], build_seconds=round(t_build, 1)),
              assumptions=chk.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viols))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in seen}:
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")
    for vid, path in viols:
        print(f"violated: {vid}")
        print(f"VIOLATION property={pid} replay={path}")
    if viols:
        return 1
    if errors:
        for e in errors[:20]:
            print("ERROR:", e)
        return 2
    print(f"{pid}: held on {tot['paths']} symbolic paths, {tot['queries']} solver queries ({tot['solver']:.1f} s), {validated} witnesses replayed, {time.time() - t0:.0f} s")
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    sub.add_parser("setup")
    a = ap.parse_args()
    try:
        if a.cmd == "setup":
            P.build_engine()
            e = dict(os.environ, VSYM_SOLVER="simple")
            print(subprocess.run([P.VSYM, "--selftest"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.strip())
            P.std_bitcode()
            return 0
        return check(a.id, a.tier)
    except P.Broken as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
