"""Builds the symbolic executor, and the harness (with /repo's current sources) in the variants the
checks need.  Everything goes to /verif/build (git-ignored)."""
import os, subprocess, shutil, glob, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LAZ_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

VARIANTS = {
    # name: (harness crate, cfgs); p*: with the parallel half of the library
    "bare": ("harness", []),
    "real": ("harness", ["laz_verif"]),
    "g1": ("harness", ["laz_verif_ghost"]),
    "g2": ("harness", ["laz_verif_ghost", "laz_verif_ghost_int"]),
    "pb": ("harness", []),
    "p2": ("harness", ["laz_verif_ghost", "laz_verif_ghost_int"]),
    # w*: the tree writes and the snapshot in ref/ reads; x*: the other way round
    **{p + n: ("harness", c) for p in "wx" for n, c in (
        ("bare", []), ("real", ["laz_verif"]), ("g1", ["laz_verif_ghost"]), ("g2", ["laz_verif_ghost", "laz_verif_ghost_int"]))},
    # whatever the entropy decoder can return; hi: with the real integer decoder
    "hi": ("harness", ["laz_verif_ghost", "laz_verif_havoc"]),
    "hv": ("harness", ["laz_verif_ghost", "laz_verif_ghost_int", "laz_verif_havoc"]),
}


def real_of(variant):
    """the variant without stand-ins that its counterexamples are replayed on"""
    if variant[0] in "wx" and variant[1:] in ("g1", "g2"):
        return variant[0] + "bare"
    return {"g1": "bare", "g2": "bare", "hv": "bare", "hi": "bare", "p2": "pb"}.get(variant, variant)


def features(variant, *more):
    f = list(more) + {"p": ["par"], "w": ["rd_ref"], "x": ["wr_ref"]}.get(variant[0], [])
    return ["--features", ",".join(f)] if f else []


class BuildError(Exception):
    pass


def env(cfgs):
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        LAZ_VERIF_DIR=os.path.join(VERIF, "ghost"),
        RUSTFLAGS=" ".join("--cfg %s" % c for c in cfgs) + " -Awarnings",
    )
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        tail = open(log).read()[-4000:]
        raise BuildError("%s failed in %s (log %s)\n%s" % (" ".join(cmd), cwd, log, tail))


class lock:
    def __init__(self, name):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    """the symbolic executor's path"""
    with lock("symx"):
        t = os.path.join(OUT, "symx")
        e = env([])
        e["RUSTFLAGS"] = ""
        run(["cargo", "build", "--release", "--offline", "--target-dir", t],
            os.path.join(VERIF, "symx"), e, os.path.join(OUT, "symx.log"))
        return os.path.join(t, "release", "symx")


def _crate(crate):
    d = os.path.join(VERIF, crate)
    return d


def ir(variant):
    """LLVM IR of the harness in this variant, compiled from /repo's current sources"""
    crate, cfgs = VARIANTS[variant]
    with lock("ir-" + variant):
        t = os.path.join(OUT, "ir-" + variant)
        for f in glob.glob(t + "/release/deps/harness*.ll"):
            os.remove(f)
        # the .ll is only rewritten when rustc runs: make sure it does
        for f in glob.glob(t + "/release/.fingerprint/harness-*"):
            shutil.rmtree(f)
        run(["cargo", "rustc", "--release", "--offline", "--bin", "harness"] + features(variant) + ["--target-dir", t, "--",
             "--emit=llvm-ir", "-Cno-vectorize-loops", "-Cno-vectorize-slp"],
            _crate(crate), env(cfgs), os.path.join(OUT, "ir-%s.log" % variant))
        ll = glob.glob(t + "/release/deps/harness*.ll")
        if len(ll) != 1:
            raise BuildError("expected one .ll, found %s" % ll)
        return ll[0]


def native(variant, profile):
    """native replay program: the same harness, reading its inputs from a file"""
    crate, cfgs = VARIANTS[variant]
    with lock("native-%s-%s" % (variant, profile)):
        t = os.path.join(OUT, "native-" + variant)
        run(["cargo", "build", "--profile", profile, "--offline"] + features(variant, "native") + ["--target-dir", t],
            _crate(crate), env(cfgs), os.path.join(OUT, "native-%s-%s.log" % (variant, profile)))
        return os.path.join(t, "debug" if profile == "dev" else profile, "harness")


if __name__ == "__main__":
    import sys, time
    for v in sys.argv[1:]:
        t = time.time()
        if v == "engine":
            print(engine(), end=" ")
        elif v.startswith("native:"):
            print(native(*v.split(":")[1:]), end=" ")
        else:
            print(ir(v), end=" ")
        print("%.1fs" % (time.time() - t))
