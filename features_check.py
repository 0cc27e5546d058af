"""C08, the part about the builds themselves: every set of the library's cargo
features gives a library that compiles.  Sets are generated from the seed (all
single features and pairs, and random sets), a failing set is shrunk."""
import itertools, os, random, subprocess, time

FEATURES = ["std", "parallel", "x86_64", "sse", "aarch64", "wasm", "avx2", "avx512", "slow", "simd", "soa", "compile-time-rfft", "precomputed-twiddles"]


def compiles(feats, chk):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(chk.TARGET, "features"), RUSTFLAGS="")
    env.pop("RUSTC_WRAPPER", None)
    cmd = ["cargo", "check", "--offline", "--lib", "--manifest-path", os.path.join(chk.REPO, "Cargo.toml"), "--no-default-features", "--features", ",".join(feats)]
    try:
        p = subprocess.run(cmd, cwd=chk.TARGET, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise chk.Undecided("cargo check timed out")
    if p.returncode == 0:
        return True, ""
    errors = [l for l in p.stdout.splitlines() if l.startswith("error")]
    # only errors of rustc in kofft itself count; anything else is the sandbox
    if "could not compile `kofft`" in p.stdout and any("error[" in l or l.startswith("error:") for l in errors):
        return False, "; ".join(errors[:3])
    raise chk.Undecided("cargo check failed:\n" + p.stdout[-2000:])


def judge(feats, chk):
    """None, or why the set is a violation"""
    ok, why = compiles(feats, chk)
    if ok:
        return None
    if not compiles(["std"], chk)[0]:
        raise chk.Undecided("the default build does not compile")
    return f"the library does not compile with the features {feats}: {why}"


def run(seed, tier, chk):
    t0 = time.time()
    rnd = random.Random(f"features {seed}")
    single = [[f] for f in FEATURES]
    pairs = [list(p) for p in itertools.combinations(FEATURES, 2)]
    some = lambda: [f for f in FEATURES if rnd.random() < 0.5]
    if tier == "quick":
        sets = [[]] + single + rnd.sample(pairs, 14) + [some() for _ in range(8)]
    else:
        sets = [[]] + single + pairs + [some() for _ in range(120)]
    sub = {"sub": "feature-sets", "rule": "at least one feature besides std", "evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "max_ratio": 0.0, "samples": [], "secs": 0.0}
    seen = set()
    with chk.Lock():
        for s in sets:
            why = judge(s, chk)
            if why:
                # leave features out as long as it still fails
                i = 0
                while i < len(s):
                    t = s[:i] + s[i + 1:]
                    w = judge(t, chk)
                    if w:
                        s, why = t, w
                    else:
                        i += 1
                sub["secs"] = time.time() - t0
                return sub, {"sub": "feature-sets", "reason": why, "case": s}
            sub["evaluations"] += 1
            k = "with std" if "std" in s or "precomputed-twiddles" in s else "without std"
            sub["classes"][k] = sub["classes"].get(k, 0) + 1
            if set(s) - {"std"} and frozenset(s) not in seen:
                seen.add(frozenset(s))
                sub["distinct_nontrivial"] += 1
                if len(sub["samples"]) < 5:
                    sub["samples"].append(" ".join(s))
    sub["secs"] = time.time() - t0
    return sub, None


def random_builds(seed, n):
    """Harness features of further builds for C08's peers (thorough)."""
    rnd = random.Random(f"builds {seed}")
    ks = ["k-std", "k-parallel", "k-simd", "k-x86", "k-sse", "k-pre", "k-ctr", "k-slow", "k-avx", "k-hooks"]
    return [",".join(k for k in ks if rnd.random() < (0.8 if k == "k-std" else 0.4)) for _ in range(n)]
