#!/usr/bin/env python3
"""Run the check of one property against /repo's working tree.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check could not decide (build error, hang, out of memory).
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
FMA = "-C target-feature=+avx2,+fma"
# build configurations of the crate under test: cargo features of the harness, RUSTFLAGS
CONFIGS = {
    "std": ("k-std", ""),
    "all": ("k-std,k-parallel,k-simd,k-x86,k-pre,k-ctr,k-slow,k-avx,k-hooks", ""),
    "nostd": ("", ""),
    "sse": ("k-std,k-sse", ""),
    "native": ("k-std,k-x86", FMA),
    "par": ("k-std,k-parallel", ""),
    "pre": ("k-std,k-pre,k-simd", ""),
    "soa-nostd": ("k-simd,k-x86,k-ctr", ""),
    "all-native": ("k-std,k-parallel,k-simd,k-x86,k-pre,k-ctr,k-slow,k-avx,k-hooks", "-C target-cpu=native"),
}
ALL3 = ["std", "all", "nostd"]
# property -> (configurations quick, configurations added by thorough)
PLAN = {
    "C01": (ALL3 + ["native"], ["sse", "all-native"]),
    "C02": (ALL3 + ["native"], ["sse", "all-native"]),
    "C03": (ALL3 + ["native"], ["sse", "all-native"]),
    "C04": (ALL3 + ["native"], ["sse", "all-native"]),
    "C05": (ALL3 + ["native"], ["sse", "all-native", "soa-nostd"]),
    "C06": (ALL3 + ["native"], ["par", "all-native"]),
    "C07": (ALL3, ["native", "sse", "soa-nostd"]),
    "C08": (["std", "all", "nostd", "sse", "native"], ["par", "pre", "soa-nostd", "all-native"]),
    "C09": (ALL3, ["native", "sse"]),
    "C10": (ALL3 + ["native"], ["sse", "all-native", "soa-nostd"]),
    "C11": (ALL3, ["pre", "native", "sse"]),
    "C12": (ALL3 + ["native"], ["sse"]),
    "C26": (["std", "all"], []),
    "C27": (["std"], ["all"]),
    "C28": (ALL3 + ["native"], ["sse", "all-native", "soa-nostd"]),
    "C33": (ALL3 + ["native"], ["sse", "all-native", "soa-nostd"]),
    "C34": (ALL3 + ["native"], ["sse", "par", "all-native"]),
    "C37": (ALL3, ["native", "sse", "soa-nostd"]),
    # memory is counted per thread, so not in the builds that hand work to other threads
    "C38": (["std", "nostd", "native"], ["sse", "pre", "soa-nostd"]),
}
DEFAULT = (ALL3, ["native"])
TOOLS = ("C29", "C30", "C31", "C32", "C35", "C36")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGBUS}


class Undecided(Exception):
    pass


EXTRA = {}  # builds made up for this run (C08)


def say(*a):
    print(*a, flush=True)


def cpu_flags():
    try:
        return set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return set()


def cargo(args, target, rustflags="", cwd=None, timeout=800):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    env.pop("RUSTC_WRAPPER", None)
    env["RUSTFLAGS"] = rustflags
    try:
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Undecided("build timed out")
    if p.returncode != 0:
        raise Undecided("build failed:\n" + p.stdout[-3000:])


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(prop, cfg):
    """Build the harness for one configuration; returns the binary."""
    feats, flags = CONFIGS[cfg]
    out = os.path.join(TARGET, "bin")
    os.makedirs(out, exist_ok=True)
    dst = os.path.join(out, f"{prop}-{cfg}")
    tdir = os.path.join(TARGET, "chk" if not flags else "chk-" + re.sub(r"\W+", "", flags))
    with Lock():
        cargo(["build", "--release", "--offline", "--features", ",".join([prop.lower()] + ([feats] if feats else []))], tdir, flags, cwd=os.path.join(VERIF, "harness"))
        tmp = dst + ".tmp"
        shutil.copy(os.path.join(tdir, "release", "vpk"), tmp)
        os.replace(tmp, dst)
    return dst


def spawn(cmd, timeout):
    """Returns the exit status (negative: signal)."""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", cwd=os.path.join(TARGET))
    except subprocess.TimeoutExpired:
        raise Undecided("no answer within %d s: %s" % (timeout, " ".join(cmd)))
    return p.returncode, p.stdout


def evidence_path(name):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


def run_config(prop, cfg, exe, seed, tier, extra, timeout):
    """Run one binary; returns (sub-reports, failure or None)."""
    rep = evidence_path(f".{prop}-{cfg}.json")
    if os.path.exists(rep):
        os.remove(rep)
    base = [exe, prop, "--config", cfg, "--seed", str(seed), "--tier", tier] + extra
    rc, out = spawn(base + ["--threads", str(os.cpu_count() or 4), "--out", rep], timeout)
    if rc in (0, 1, 2) and os.path.exists(rep):
        subs = json.load(open(rep))
        os.remove(rep)
        errs = [s["error"] for s in subs if s.get("error")]
        listed = [(k["sub"], k["case"], k["reason"]) for k in known(prop)]
        fails = [s["failure"] for s in subs if s.get("failure")]
        fails = [f for f in fails if not any(f["sub"] == s and f["case"] == c and f["reason"] == r for s, c, r in listed)]
        if fails:
            return subs, fails[0]
        if errs or rc == 2:
            raise Undecided(f"{cfg}: {errs[:1]}")
        if rc == 1 and not any(s.get("failure") for s in subs):
            raise Undecided(f"{cfg}: failed without a report\n{out[-2000:]}")
        return subs, None
    if rc < 0 and -rc in CRASH:
        # find the case that kills the process, one at a time
        trace = evidence_path(f".{prop}-{cfg}.trace")
        rc2, _ = spawn(base + ["--trace", trace], timeout * 2)
        if rc2 < 0 and -rc2 in CRASH and os.path.exists(trace):
            t = json.load(open(trace))
            os.remove(trace)
            return [], {"sub": t["sub"], "case": t["case"], "reason": f"the process dies with signal {-rc2} ({signal.Signals(-rc2).name})"}
        raise Undecided(f"{cfg}: died with signal {-rc} once, status {rc2} when traced")
    raise Undecided(f"{cfg}: status {rc}\n{out[-2000:]}")


def known(prop):
    """Open findings: lines `known: property=<id> sub=<sub> case=<json> reason=<text> # what fails`.
    Only the same case of the same sub-check failing for the same reason is one."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sub=(\S+) case=(.*?) reason=(.*?) # (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append({"sub": m.group(2), "case": json.loads(m.group(3)), "reason": m.group(4), "what": m.group(5)})
    return res


def replay(prop, path, timeout):
    """Run the one recorded case again; 1 when it still fails, 0 when it holds."""
    cfg = json.load(open(path))["config"]
    extra = ["--replay", path]
    rec = json.load(open(path))
    try:
        if prop == "C08" and rec["sub"] == "feature-sets":
            import features_check
            with Lock():
                why = features_check.judge(rec["case"], sys.modules[__name__])
            say(why or "holds")
            if why:
                say(f"VIOLATION property={prop} replay={path}")
            return 1 if why else 0
        if prop in TOOLS:
            import tools_check
            exe = tools_check.build(tools_check.KIT[prop], sys.modules[__name__])
        else:
            if prop == "C08":
                cfgs = [c for c in PLAN[prop][0] if c != "std"]
                if rec.get("builds"):
                    CONFIGS.update(rec["builds"])
                    cfgs += list(rec["builds"])
                extra += ["--peers", ",".join(f"{c}={build(prop, c)}" for c in cfgs)]
            exe = build(prop, cfg)
        rc, out = spawn([exe, prop, "--config", cfg, "--out", os.devnull] + extra, timeout)
    except Undecided as e:
        say(f"ERROR property={prop}: {e}")
        return 2
    say(out.strip()[-2000:])
    if rc == 0:
        return 0
    if rc == 1 or (rc < 0 and -rc in CRASH):
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    return 2


def setup():
    """Compile the dependencies (and one harness) of every target directory the quick checks use."""
    build("C28", "std")
    if {"avx2", "fma"} <= cpu_flags():
        build("C28", "native")
    import tools_check
    for kit in tools_check.KITS:
        tools_check.build(kit, sys.modules[__name__])


def main():
    if sys.argv[1] == "--setup":
        return setup()
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    timeout = 600 if tier == "quick" else 6 * 3600
    reports, failure, bad_cfg = [], None, None
    if "--replay" in sys.argv:
        sys.exit(replay(prop, sys.argv[sys.argv.index("--replay") + 1], timeout))
    for k in known(prop):
        say(f"KNOWN-FINDING: property={prop} {k['what']}")
    try:
        if prop in TOOLS:
            import tools_check
            reports, failure, bad_cfg = tools_check.run(prop, seed, tier, timeout, sys.modules[__name__])
        else:
            quick, more = PLAN.get(prop, DEFAULT)
            cfgs = quick + (more if tier == "thorough" else [])
            have = cpu_flags()
            if not {"avx2", "fma"} <= have:
                cfgs = [c for c in cfgs if c not in ("native", "all-native")]
            if prop == "C08":
                import features_check
                sub, failure = features_check.run(seed, tier, sys.modules[__name__])
                reports.append(("cargo-check", sub))
                bad_cfg = "cargo-check"
                if failure:
                    cfgs = []
                if tier == "thorough":
                    for i, k in enumerate(features_check.random_builds(seed, 5)):
                        CONFIGS[f"random{i}"] = EXTRA[f"random{i}"] = (k, "")
                        cfgs.append(f"random{i}")
            if prop == "C08" and cfgs:
                bins = {c: build(prop, c) for c in cfgs}
                peers = ",".join(f"{c}={bins[c]}" for c in cfgs if c != "std")
                todo = [("std", bins["std"], ["--peers", peers])]
            else:
                todo = [(c, None, []) for c in cfgs]
            for c, exe, extra in todo:
                exe = exe or build(prop, c)
                subs, fail = run_config(prop, c, exe, seed, tier, extra, timeout)
                reports += [(c, s) for s in subs]
                if fail:
                    failure, bad_cfg = fail, c
                    break
    except Undecided as e:
        say(f"ERROR property={prop}: {e}")
        sys.exit(2)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for _, s in reports),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for _, s in reports),
            "rule": "A case is one generated input of one sub-check in one build configuration; cases are drawn from per-configuration seeds and counted distinct within it. Non-trivial, per sub-check: " + "; ".join(sorted({f"{s['sub']}: {s['rule']}" for _, s in reports})),
            "samples": [{"build": c, "check": s["sub"], "case": x} for c, s in reports for x in s["samples"][:1]][:40],
            "sub_checks": [
                {"build": c, "check": s["sub"], "evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"], "classes": s["classes"], "largest_error_over_allowed": s["max_ratio"], "seconds": round(s["secs"], 2)}
                for c, s in reports
            ],
            "builds": sorted({c for c, _ in reports}),
        },
        "assumptions": ["floating-point oracles are evaluated in f64 with tolerances stated in DESIGN.md", "x86_64 host; other architectures' backends are not executed"],
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if failure else 0,
    }
    with open(evidence_path(f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if failure:
        d = evidence_path("replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{bad_cfg}.json")
        json.dump({"property": prop, "config": bad_cfg, "seed": seed, **({"builds": EXTRA} if EXTRA else {}), **failure}, open(path, "w"), indent=1)
        say(f"{bad_cfg}/{failure['sub']}: {failure['reason']}"[:1500])
        say(f"case: {json.dumps(failure['case'])}"[:1500])
        say(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    n = ev["coverage"]
    say(f"OK property={prop} tier={tier} seed={seed}: {n['evaluations']} cases, {n['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")


if __name__ == "__main__":
    main()
