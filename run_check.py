#!/usr/bin/env python3
"""Builds ripcalc from /repo's working tree and decides one property by running it under its monitor.

usage: run_check.py PROPERTY [--tier quick|thorough] [--seed N] [--only-index N] [--seconds S]
       run_check.py --setup       (builds the monitor and the dependencies)

exit status: 0 held on everything observed, 1 violated (VIOLATION line), 2 could not build, 3 nothing observed
"""
import argparse, concurrent.futures, fcntl, ipaddress, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RIPCALC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
API = {"P26", "P27", "P28", "P29", "P40"}
RELEASE = {"P17", "P21", "P24"}
REDUCED = {"P34"}
SHIM = {"P23", "P24", "P30"}
SANITIZED = {"P37"}
PACKAGES = {"P38", "P39"}
OTHER = {"P40"}
# 32 bits; big-endian; both
PLATFORMS = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu"]

def env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def cargo(args, target, cwd, more={}):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=dict(env(target), **more), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode == 0, p.stdout

VARIANTS = {
    # overflow checks and debug assertions are on in the three dev variants
    "plain": (["rustc", "--offline", "--bin", "ripcalc"], [], "debug"),
    "batch": (["rustc", "--offline", "--bin", "ripcalc"], ["--cfg", "ripcalc_verif"], "debug"),
    "api": (["rustc", "--offline", "--bin", "ripcalc"], ["--cfg", "ripcalc_verif", "--cfg", "ripcalc_verif_api"], "debug"),
    "release": (["rustc", "--offline", "--release", "--bin", "ripcalc"], [], "release"),
    # builds with fewer features
    "bare": (["rustc", "--offline", "--bin", "ripcalc", "--no-default-features"], [], "debug"),
    "only-console": (["rustc", "--offline", "--bin", "ripcalc", "--no-default-features", "--features", "console"], [], "debug"),
    "only-num-bigint": (["rustc", "--offline", "--bin", "ripcalc", "--no-default-features", "--features", "num-bigint"], [], "debug"),
}
# builds under observation, by the nightly toolchain
NIGHTLY = {
    "asan": (["+nightly", "rustc", "--offline", "--bin", "ripcalc"], "-Zsanitizer=address --cfg ripcalc_verif --cap-lints allow", {"CARGO_PROFILE_DEV_OPT_LEVEL": "1"}),
    # with the standard library instrumented too (from the toolchain's rust-src)
    "msan": (["+nightly", "rustc", "--offline", "-Zbuild-std", "--bin", "ripcalc"], "-Zsanitizer=memory --cfg ripcalc_verif --cap-lints allow", {"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0"}),
    "miri": (["+nightly", "miri", "run", "--offline", "--bin", "ripcalc"], "--cfg ripcalc_verif -Awarnings", {"MIRIFLAGS": "-Zmiri-disable-isolation"}),
}
REDUCED_VARIANTS = ["bare", "only-console", "only-num-bigint"]

def build(variant):
    """Builds one variant of the program; returns (path or None, output)."""
    args, cfg, profile = VARIANTS[variant]
    target = os.path.join(BUILD, "ripcalc-" + variant)
    prints = os.path.join(target, profile, ".fingerprint")
    # never trust modification times: the crate itself is rebuilt every time
    if os.path.isdir(prints):
        for n in os.listdir(prints):
            if n.startswith("ripcalc-"):
                shutil.rmtree(os.path.join(prints, n), ignore_errors=True)
    lock = os.path.join(REPO, "Cargo.lock")
    extra = ["--locked"] if os.path.exists(lock) else []
    # the serving variants are optimized for throughput, with overflow checks and debug assertions left on
    more = {"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0"} if variant in ("batch", "api") else {}
    ok, out = cargo(args + extra + ["--"] + cfg, target, REPO, more)
    return (os.path.join(target, profile, "ripcalc") if ok else None), out

def toolchain_bin():
    p = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return os.path.join(p.stdout.strip(), "bin")

def build_nightly(variant):
    """Builds one variant with the nightly toolchain; returns (path or None, output). That of miri is what its runner wants."""
    args, flags, more = NIGHTLY[variant]
    target = os.path.join(BUILD, "ripcalc-" + variant)
    try:
        p = subprocess.run(["rustc", "+nightly", "-vV"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        host = re.search(r"(?m)^host: (\S+)$", p.stdout).group(1)
    except (OSError, AttributeError): return None, "no nightly toolchain\n"
    out = os.path.join(target, "miri" if variant == "miri" else ".", host, "debug")
    for d in (os.path.join(out, "build"), os.path.join(out, ".fingerprint")):
        for n in os.listdir(d) if os.path.isdir(d) else []:
            if n == "ripcalc" or n.startswith("ripcalc-"): shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    path = os.path.join(out, "ripcalc")
    if os.path.exists(path): os.unlink(path)
    if os.path.exists(os.path.join(REPO, "Cargo.lock")): args = args + ["--locked"]
    args = args + (["--", "--help"] if variant == "miri" else ["--target", host])
    ok, text = cargo(args, target, REPO, dict(more, RUSTFLAGS=flags, CARGO_INCREMENTAL="0"))
    return (path if ok and os.path.exists(path) else None), text

def build_platform(triple):
    """Builds the program for another platform, to be interpreted; returns (path, whether with the API hook, sysroot, output), the path None if it does not build."""
    target = os.path.join(BUILD, "platform-" + triple)
    out, cache = os.path.join(target, "miri", triple, "debug"), os.path.join(target, "cache")
    path, said = os.path.join(out, "ripcalc"), ""
    # build scripts cannot try out what a compiler can do that has no standard library for the platform; what it can do here, it can do there
    can = set()
    for at, _, names in os.walk(os.path.join(BUILD, "ripcalc-plain", "debug", "build")):
        if "output" in names:
            with open(os.path.join(at, "output"), errors="replace") as f: can.update(re.findall(r"(?m)^cargo::?rustc-cfg=(has_\w+)$", f.read()))
    able = "".join(" --cfg " + x for x in sorted(can))
    for hook in ("--cfg ripcalc_verif --cfg ripcalc_verif_api", "--cfg ripcalc_verif"):
        for d in (os.path.join(out, "build"), os.path.join(out, ".fingerprint")):
            for n in os.listdir(d) if os.path.isdir(d) else []:
                if n == "ripcalc" or n.startswith("ripcalc-"): shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        if os.path.exists(path): os.unlink(path)
        locked = ["--locked"] if os.path.exists(os.path.join(REPO, "Cargo.lock")) else []
        args = ["+nightly", "miri", "run", "--offline", "--bin", "ripcalc", "--target", triple] + locked + ["--", "--help"]
        # a standard library of its own, so that several can be made at a time
        os.makedirs(cache, exist_ok=True)
        ok, text = cargo(args, target, REPO, {"XDG_CACHE_HOME": cache, "RUSTFLAGS": hook + able + " -Awarnings", "CARGO_INCREMENTAL": "0", "MIRIFLAGS": "-Zmiri-disable-isolation"})
        said += text
        if os.path.exists(path) and "could not compile" not in text and "error: aborting due to" not in text: return path, hook.endswith("_api"), os.path.join(cache, "miri"), said
    return None, False, None, said

def build_monitor():
    target = os.path.join(BUILD, "monitor")
    ok, out = cargo(["build", "--offline", "--locked"], target, os.path.join(VERIF, "monitor"))
    return (os.path.join(target, "debug", "rvmon") if ok else None), out

def build_shim():
    """Builds the preloaded library; the checks that use it do without if there is no C compiler."""
    src, lib = os.path.join(VERIF, "monitor", "shim", "shim.c"), os.path.join(BUILD, "shim.so")
    for cc in ("cc", "gcc", "clang"):
        try: p = subprocess.run([cc, "-shared", "-fPIC", "-O1", "-o", lib, src], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except OSError: continue
        if p.returncode == 0: return lib
    return None

def packages(o):
    """The packaging scripts have a monitor of their own."""
    scratch, notes = tempfile.mkdtemp(prefix="rvmon-"), []
    try:
        shutil.copytree(os.path.join(REPO, "contrib"), os.path.join(scratch, "contrib")) if os.path.isdir(os.path.join(REPO, "contrib")) else os.mkdir(os.path.join(scratch, "contrib"))
        replay = os.path.join(VERIF, "evidence", o.prop + "-replay.txt")
        if os.path.exists(replay): os.unlink(replay)
        cmd = [sys.executable, os.path.join(VERIF, "monitor", "deb", "debmon.py"), "--prop", o.prop, "--tier", o.tier, "--seed", str(o.seed), "--threads", str(o.threads),
               "--contrib", os.path.join(scratch, "contrib"), "--evidence", os.path.join(VERIF, "evidence", o.prop + ".json"), "--replay", replay]
        if o.prop == "P38":
            with open(os.path.join(BUILD, "lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                path, out = build("release")
                if path is None: notes.append("The release build of the program did not build on this tree; only made-up programs were packaged.")
                else: cmd += ["--program", shutil.copy2(path, os.path.join(scratch, "ripcalc-release"))]
        if o.only_index is not None:
            cmd[cmd.index("--evidence") + 1] = os.path.join(scratch, "evidence.json")
            cmd += ["--only-index", str(o.only_index)]
        if o.seconds is not None: cmd += ["--seconds", str(o.seconds)]
        for n in notes: cmd += ["--note", n]
        sys.stdout.flush()
        return subprocess.run(cmd, stdin=subprocess.DEVNULL).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def literals():
    """Number and text literals in the program's source, which direct the workload."""
    numbers, texts = set(), set()
    for top, dirs, files in os.walk(os.path.join(REPO, "src")):
        for n in sorted(files):
            if not n.endswith(".rs") or n.startswith("verif_"): continue
            with open(os.path.join(top, n), errors="replace") as f: t = f.read(1 << 20)
            t = re.sub(r"(?m)^\s*//.*$", "", t.split("#[cfg(test)]")[0])
            for s in re.findall(r'"((?:[^"\\\n]|\\.){1,40})"', t):
                if re.fullmatch(r"[!-z|~]+", s): texts.add(s)
                for a in re.findall(r"[0-9A-Fa-f:.]{2,}", s):
                    try: numbers.add(int(ipaddress.ip_address(a)))
                    except ValueError: pass
            for s in re.findall(r"\b0[xX][0-9a-fA-F_]+|\b0b[01_]+|\b[0-9][0-9_]*", t):
                try: v = int(s.replace("_", ""), 0 if s[1:2] in ("x", "X", "b") else 10)
                except ValueError: continue
                if v < 1 << 128: numbers.add(v)
            for s in re.findall(r"Ipv[46]Addr(?:ess)?::(?:new|from)\(([^()]*)\)", t):
                parts = [int(x.replace("_", ""), 0) for x in re.split(r"[,\s]+", s) if re.fullmatch(r"0x[0-9a-fA-F_]+|[1-9][0-9_]*|0", x)]
                for bits in (8, 16, 64):
                    if len(parts) * bits in (32, 128) and all(x < 1 << bits for x in parts):
                        v = 0
                        for x in parts: v = v << bits | x
                        numbers.add(v)
    lines = ["n%d" % v for v in sorted(numbers)] + ["t%s" % s for s in sorted(texts)]
    # those that were not there when the monitors were written are the more interesting
    try: known = set(open(os.path.join(VERIF, "monitor", "literals.txt")).read().splitlines())
    except OSError: known = set(lines)
    return "".join(l + "\n" for l in lines for _ in range(1 if l in known else 12))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--only-index", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--threads", type=int, default=8)
    o = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    want = ["plain", "batch"]
    if o.setup or o.prop in API: want.append("api")
    if o.setup or o.prop in RELEASE: want.append("release")
    if o.setup or o.prop in REDUCED: want += REDUCED_VARIANTS
    if o.setup or o.prop in SANITIZED: want += list(NIGHTLY)
    if not o.setup and not o.prop: ap.error("which property?")
    if o.prop in PACKAGES: return packages(o)

    scratch = tempfile.mkdtemp(prefix="rvmon-")
    try:
        with open(os.path.join(BUILD, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                mon = pool.submit(build_monitor)
                built = {v: pool.submit(build_nightly if v in NIGHTLY else build, v) for v in want}
                mon_path, mon_out = mon.result()
                built = {v: f.result() for v, f in built.items()}
                others = {t: pool.submit(build_platform, t) for t in PLATFORMS} if o.setup or o.prop in OTHER else {}
                others = {t: f.result() for t, f in others.items()}
            if mon_path is None:
                print(mon_out); print("the monitor does not build"); return 2
            if built["plain"][0] is None:
                print(built["plain"][1]); print("ripcalc does not build"); return 2
            notes = []
            shim = build_shim() if o.setup or o.prop in SHIM else None
            if o.prop in SHIM and shim is None: notes.append("The preloaded library did not build; nothing was observed with it.")
            for v in want:
                if built[v][0] is None:
                    print(built[v][1][-1500:])
                    print("variant %s does not build, going on without it" % v)
                    notes.append("The %s variant of the program did not build on this tree; %s." % (v, "nothing was observed of it" if v in REDUCED_VARIANTS or v in NIGHTLY else "its executions were replaced by fresh processes of the plain program"))
            for t, f in others.items():
                if f[0] is None:
                    print(f[3][-1500:])
                    print("the program does not build for %s, going on without it" % t)
                    notes.append("The program did not build for %s on this tree; nothing was observed of it." % t)
            if o.setup: return 0
            # private copies, so that concurrent checks cannot exchange each other's programs
            paths = {}
            broken = []
            for v in want:
                if built[v][0] is None and v in REDUCED_VARIANTS and "could not compile `ripcalc`" in built[v][1]:
                    broken.append((v, os.path.join(scratch, v + ".log")))
                    with open(broken[-1][1], "w") as f: f.write(built[v][1])
                if built[v][0] is not None:
                    paths[v] = os.path.join(scratch, "ripcalc-" + v)
                    shutil.copy2(built[v][0], paths[v])
            machines = []
            for t, f in others.items():
                if f[0] is not None:
                    machines.append("%s,%s,%s,%s" % (t, "api" if f[1] else "no", f[2], shutil.copy2(f[0], os.path.join(scratch, "ripcalc-" + t))))
                # whatever else the compiler complains about may be for want of what the platform offers
                elif re.search(r"E0080|this arithmetic operation will overflow|literal out of range for", f[3]) and built.get("batch", (None,))[0] is not None:
                    # here it does build
                    broken.append(("platform-" + t, os.path.join(scratch, t + ".log")))
                    with open(broken[-1][1], "w") as log: log.write(f[3])
            if shim:
                shutil.copy2(shim, os.path.join(scratch, "shim.so"))
                shim = os.path.join(scratch, "shim.so")
            prog = os.path.join(scratch, "rvmon")
            shutil.copy2(mon_path, prog)
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        replay = os.path.join(VERIF, "evidence", o.prop + "-replay.txt")
        if os.path.exists(replay): os.unlink(replay)
        cmd = [prog, "--prop", o.prop, "--tier", o.tier, "--seed", str(o.seed), "--dir", work, "--threads", str(o.threads),
               "--evidence", os.path.join(VERIF, "evidence", o.prop + ".json"), "--replay", replay]
        if o.only_index is not None:
            cmd[cmd.index("--evidence") + 1] = os.path.join(scratch, "evidence.json")
            cmd += ["--only-index", str(o.only_index)]
        if o.seconds is not None: cmd += ["--seconds", str(o.seconds)]
        for n in notes: cmd += ["--note", n]
        for v, p in broken: cmd += ["--unbuilt-" + v, p]
        for v, p in paths.items(): cmd += ["--" + v, p]
        if shim: cmd += ["--shim", shim]
        for m in machines: cmd += ["--platform", m]
        if machines or "miri" in paths: cmd += ["--runner", os.path.join(toolchain_bin(), "cargo-miri")]
        with open(os.path.join(scratch, "literals"), "w") as f: f.write(literals())
        cmd += ["--literals", os.path.join(scratch, "literals")]
        cmd += ["--readme", os.path.join(REPO, "README.md")]
        sys.stdout.flush()
        return subprocess.run(cmd, cwd=work, stdin=subprocess.DEVNULL).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
