"""Builds the symbolic engine and the bitcode of /repo's crates, and runs harnesses on it."""
from concurrent.futures import ThreadPoolExecutor
import glob, json, os, re, shutil, subprocess, sys, time
from . import mirror

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WS = os.path.join(BUILD, "ws")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(VERIF, "harness")
TOOLCHAIN = "nightly-2024-12-15"
HOST = "x86_64-unknown-linux-gnu"
VSYM = os.path.join(BUILD, "engine", "release", "vsym")


class Broken(Exception):
    """The machinery could not produce a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, env=None, cwd=None, timeout=None, what=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise Broken(f"{what or cmd[0]} failed ({r.returncode}):\n{r.stdout[-6000:]}")
    return r.stdout


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUST_")) and k not in ("CARGO_HOME",):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_engine():
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
    run(["cargo", "build", "--release", "--offline"], env=e, cwd=os.path.join(VERIF, "engine"), what="building the engine")
    return VSYM


def sysroot():
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    return run(["rustc", "--print", "sysroot"], env=e).strip()


_sr = None


def tools():
    global _sr
    if _sr is None:
        _sr = sysroot()
    return os.path.join(_sr, "lib", "rustlib", HOST, "bin")


def std_bitcode():
    """The bitcode embedded in the standard library's rlibs."""
    out = os.path.join(BUILD, "std")
    done = os.path.join(out, ".done")
    names = ["core", "alloc", "std", "hashbrown", "std_detect"]
    if not os.path.exists(done):
        b = tools()
        os.makedirs(out, exist_ok=True)
        lib = os.path.join(_sr, "lib", "rustlib", HOST, "lib")
        for n in names:
            c = glob.glob(os.path.join(lib, f"lib{n}-*.rlib"))
            if len(c) != 1:
                raise Broken(f"no single rlib of {n}")
            tmp = os.path.join(out, "x")
            os.makedirs(tmp, exist_ok=True)
            run([os.path.join(b, "llvm-ar"), "x", "--output=" + tmp, c[0]])
            objs = sorted(glob.glob(os.path.join(tmp, "*.o")))
            bcs = []
            for i, o in enumerate(objs):
                bc = os.path.join(tmp, f"{i}.bc")
                run([os.path.join(b, "llvm-objcopy"), f"--dump-section=.llvmbc={bc}", o, "/dev/null"])
                bcs.append(bc)
            run([os.path.join(b, "llvm-link"), "-o", os.path.join(out, n + ".bc")] + bcs)
            for f in glob.glob(os.path.join(tmp, "*")):
                os.remove(f)
        open(done, "w").close()
    return [os.path.join(out, n + ".bc") for n in names]


def cargo_env():
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
    e["CARGO_PROFILE_DEV_PANIC"] = "unwind"
    e["RUSTFLAGS"] = "--emit=llvm-bc -Ccodegen-units=1 -Cdebuginfo=0 -Zshare-generics=no -Cno-prepopulate-passes"
    e["AQUASCOPE_VERIF_DIR"] = HARNESS
    return e


def build_crate(pkg, cfgs):
    """Compiles the crate (and its dependencies) to bitcode with the given cfgs; returns (its .bc, deps' .bc, its rlib)."""
    ws = WS
    if any("aq_interp" in c for c in cfgs):
        ws = WS + "_interp"
        mirror.mirror(REPO, ws, {"miri": os.path.join(HARNESS, "miri")}, ("crates/aquascope/tests/",), mirror.WITH_MIRI)
    else:
        mirror.mirror(REPO, WS, {})
    e = cargo_env()
    cmd = ["cargo", "rustc", "-p", pkg, "--lib", "--offline", "--target", HOST, "--message-format=json", "--"]
    for c in cfgs:
        cmd += ["--cfg", c]
    cmd += ["--cfg", cfgs[0].replace("aquascope_verif", "aquascope_stubs")]
    r = subprocess.run(cmd, env=e, cwd=ws, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    arts, msgs = [], []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    arts.append((m["package_id"], m["target"]["name"], f))
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msgs.append(m["message"].get("rendered") or m["message"]["message"])
    if r.returncode != 0:
        raise Broken(f"{pkg} does not compile:\n" + "".join(msgs)[-6000:] + r.stderr[-3000:])
    host = os.path.join(TARGET, HOST, "debug")
    main, deps = None, []
    cname = pkg.replace("-", "_")
    for pid, name, f in arts:
        if not f.startswith(host + os.sep):
            continue
        if os.path.dirname(f) != os.path.join(host, "deps"):
            # the uplifted copy: find the hashed one
            cand = glob.glob(os.path.join(host, "deps", f"lib{name.replace('-', '_')}-*.rlib"))
            same = [c for c in cand if os.path.samefile(c, f)]
            f = same[0] if same else max(cand, key=os.path.getmtime)
        bc = os.path.join(os.path.dirname(f), os.path.basename(f)[3:-5] + ".bc")
        if not os.path.exists(bc):
            continue
        if name.replace("-", "_") == cname:
            main = (bc, f)
        else:
            deps.append(bc)
    if main is None:
        raise Broken(f"no bitcode for {pkg}")
    return main[0], sorted(set(deps)), main[1]


def defined(files):
    """The symbols that the bitcode files define for others."""
    b = tools()
    with ThreadPoolExecutor(8) as ex:
        return sorted({n for r in ex.map(lambda f: run([os.path.join(b, "llvm-nm"), "--defined-only", "--extern-only", "--just-symbol-name", f]).split(), files) for n in r})


def link(main, deps, entries, out, ignore_undefined=()):
    """One .ll with everything reachable from the entries."""
    b = tools()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    t = lambda n: os.path.join(b, n)
    std = std_bitcode()
    tmp = out + ".tmp"
    api = ",".join(entries)
    trim = [t("opt"), "-strip-debug", "-passes=internalize,globaldce", f"-internalize-public-api-list={api}"]
    run(trim + [main, "-o", tmp + "0.bc"])
    files = deps + std

    def defined(f):
        return f, set(run([t("llvm-nm"), "--defined-only", "--extern-only", "--just-symbol-name", f]).split())
    with ThreadPoolExecutor(8) as ex:
        defs = dict(ex.map(defined, files))
    cur, und = tmp + "0.bc", None
    for i in range(1, 40):
        und = set(run([t("llvm-nm"), "--undefined-only", "--just-symbol-name", cur]).split())
        need = [f for f in files if defs[f] & und]
        if not need:
            break
        nxt = f"{tmp}{i}.bc"
        run([t("llvm-link"), "--only-needed", "--suppress-warnings", cur, "-o", nxt] + need)
        os.remove(cur)
        cur = nxt
    trim[2] = "-passes=internalize,globaldce,function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,sroa<modify-cfg>,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce"
    run(trim + [cur, "-o", cur + ".t"])
    os.replace(cur + ".t", cur)
    run([t("llvm-dis"), cur, "-o", out])
    os.remove(cur)
    return sorted(und)


def vsym(ll, entry, outdir, params=(), secs=300, jobs=8, stubs=(), nops=(), max_inst=400_000_000, timeout_ms=60000, stop_first=False, hang=False, mem_gb=24):
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir)
    cmd = [VSYM, "--ll", ll, "--entry", entry, "--out", outdir, "--secs", str(secs), "--jobs", str(jobs), "--max-inst", str(max_inst), "--timeout-ms", str(timeout_ms)]
    for p in params:
        cmd += ["--param", str(p)]
    for s in stubs:
        cmd += ["--stub", s]
    for s in nops:
        cmd += ["--nop", s]
    if stop_first:
        cmd += ["--stop-first"]
    if hang:
        cmd += ["--hang"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 120)
    sm = os.path.join(outdir, "summary.json")
    if r.returncode != 0 or not os.path.exists(sm):
        raise Broken(f"engine failed on {entry} ({r.returncode}): {r.stdout[-3000:]}")
    s = json.load(open(sm))
    res = dict(summary=s, viol={}, covers={}, errors=[], fns=set())
    for p in sorted(glob.glob(os.path.join(outdir, "part.*"))):
        for line in open(p, errors="replace"):
            j = json.loads(line)
            if j["t"] == "viol":
                res["viol"].setdefault(j["id"], []).append(j)
            elif j["t"] == "cover":
                res["covers"].setdefault(j["id"], j["inputs"])
            elif j["t"] == "error":
                res["errors"].append(j["msg"])
            elif j["t"] == "fn":
                res["fns"].add(j["name"])
    if s["fatal"]:
        res["errors"].append(s["fatal"])
    if s["unknown"]:
        res["errors"].append(f"{s['unknown']} solver answers unknown")
    return res


def demangle(n):
    m = re.match(r"_ZN(.*)E$", n)
    if not m:
        return n
    r, out = m.group(1), []
    while r and r[0].isdigit():
        d = re.match(r"\d+", r).group(0)
        k = int(d)
        out.append(r[len(d):len(d) + k])
        r = r[len(d) + k:]
    if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
        out.pop()
    s = "::".join(out)
    for a, c in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]"), ("$u27$", "'"), ("$u3b$", ";"), ("..", "::")):
        s = s.replace(a, c)
    return s.lstrip("_")
