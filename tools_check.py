"""C29, C30, C32: the tools around the library (audio reader, xtask, spectrogram
programs); C31, C35: the web front end and its server; C36: the benchmark programs."""
import os, shutil

# crate of the harness -> the programs that must sit next to each other
KITS = {
    "tools": ("harness-tools", ("vpt", "spectrogram", "sanity", "xtask-cli")),
    "web": ("harness-web", ("vpw", "web-server")),
    "bench": ("harness-bench", ("vpb", "bench-fft", "bench-readme")),
}
KIT = {"C29": "tools", "C30": "tools", "C32": "tools", "C31": "web", "C35": "web", "C36": "bench"}


def build(kit, chk):
    """Build a harness and the programs under test; returns the harness's binary."""
    crate, programs = KITS[kit]
    tdir = os.path.join(chk.TARGET, kit)
    out = os.path.join(chk.TARGET, "bin", kit)
    os.makedirs(out, exist_ok=True)
    with chk.Lock():
        chk.cargo(["build", "--release", "--offline"], tdir, "", cwd=os.path.join(chk.VERIF, crate))
        for b in programs:
            tmp = os.path.join(out, b + ".tmp")
            shutil.copy(os.path.join(tdir, "release", b), tmp)
            os.replace(tmp, os.path.join(out, b))
    return os.path.join(out, programs[0])


def run(prop, seed, tier, timeout, chk):
    kit = KIT[prop]
    subs, fail = chk.run_config(prop, kit, build(kit, chk), seed, tier, [], timeout)
    return [(kit, s) for s in subs], fail, kit
