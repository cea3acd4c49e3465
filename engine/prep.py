"""Type-check /repo with the pinned dependency graph under the rustc_private
driver and return the directory with the MIR dumps of the current tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OZ_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NT = os.environ.get("OZ_NIGHTLY", "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu")
PINNED = "nightly-2024-09-05"
CRATES = "openzeppelin_stylus,openzeppelin_crypto,openzeppelin_stylus_proc"


class BuildError(Exception):
    pass


def sources(root, subs, exts):
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            yield p
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith(exts):
                    yield os.path.join(d, f)


def tree_key(features):
    h = hashlib.sha256()
    for p in sources(REPO, ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "contracts", "contracts-proc", "lib"], (".rs", ".toml")):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    for p in sources(VERIF, ["driver/src", "driver/Cargo.toml"], (".rs", ".toml")):
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(features.encode())
    return h.hexdigest()[:24]


WRAP = """#!/bin/sh
# $1 is rustc; only the library crates go through the analysis driver
case " $* " in
  *" --crate-name openzeppelin_"*)
    while [ ! -e "$OZ_DRV_DONE" ]; do sleep 0.1; done
    exec "$OZ_DRV_BIN" "$@";;
esac
exec "$@"
"""

# stylus-sdk/reentrant drags in a host-side test crate whose `branches` dependency selects
# intrinsics of the pinned nightly by the channel name; without that cfg it uses stable code
WRAPDEP = """#!/bin/sh
case " $* " in
  *" --crate-name branches "*)
    n=$#
    while [ $n -gt 0 ]; do
      a=$1; shift; n=$((n-1))
      if [ "$a" = --cfg ] && [ "$1" = unstable ]; then shift; n=$((n-1)); continue; fi
      set -- "$@" "$a"
    done;;
esac
exec "$@"
"""


def script(name, text):
    p = os.path.join(CACHE, name)
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
        os.chmod(p, 0o755)
    return p


def prepare(features=""):
    """returns (dump directory, seconds)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    key = tree_key(features)
    out = os.path.join(CACHE, "dump", key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            return out, time.time() - t0
        dd = os.path.join(CACHE, "dump")
        if os.path.isdir(dd):
            old = sorted((os.path.join(dd, x) for x in os.listdir(dd)), key=os.path.getmtime)
            for o in old[:-6]:
                shutil.rmtree(o, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        drv = os.path.join(CACHE, "drv")
        tgt = os.path.join(CACHE, "target")
        binp = os.path.join(drv, "debug", "ozdump")
        done = os.path.join(tmp, ".driver-built")
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        e1 = dict(env, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=drv)
        p1 = subprocess.Popen(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=e1,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        wrap = script("wrap.sh", WRAP)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("openzeppelin"):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        e2 = dict(env, RUSTUP_TOOLCHAIN=PINNED, RUSTC=os.path.join(NT, "bin/rustc"), LD_LIBRARY_PATH=os.path.join(NT, "lib"),
                  RUSTFLAGS="-Zthreads=8 --cap-lints=warn", CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=wrap, OZ_DRV_DONE=done, OZ_DRV_BIN=binp,
                  OZDUMP_DIR=tmp, OZDUMP_CRATES=CRATES)
        cmd = ["cargo", "check", "--offline", "--locked", "-p", "openzeppelin-stylus", "-p", "openzeppelin-crypto"]
        if features:
            cmd += ["--features", features]
            e2["RUSTC_WRAPPER"] = script("wrapdep.sh", WRAPDEP)
        log2 = open(os.path.join(tmp, "cargo.log"), "w+")
        p2 = subprocess.Popen(cmd, cwd=REPO, env=e2, stdout=log2, stderr=subprocess.STDOUT, text=True)
        o1, _ = p1.communicate()
        if p1.returncode != 0:
            p2.kill()
            raise BuildError("the analysis driver does not build:\n" + o1[-4000:])
        open(done, "w").close()
        rc = p2.wait()
        if rc != 0:
            log2.seek(0)
            txt = log2.read()
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("the tree does not type-check:\n" + txt[-4000:])
        for c in CRATES.split(","):
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise BuildError(f"no dump for {c}")
        if tree_key(features) != key:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("the tree changed while it was being analysed")
        open(os.path.join(tmp, "done"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out, time.time() - t0


if __name__ == "__main__":
    try:
        print(prepare(sys.argv[1] if len(sys.argv) > 1 else ""))
    except BuildError as e:
        print(e)
        sys.exit(2)
