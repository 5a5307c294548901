"""Lays out a cargo workspace over /repo's live files, and runs the MIR driver over it.

cardano-multiplatform-lib (CML) is a git dependency that cannot be fetched, so the manifest lines and
module roots that need it are cut (as /opt/vp does for the tests), except for blockchain-source, whose
few CML types are stood in for by /verif/stubs so that all of it is analysed."""

import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", f"{VERIF}/.cache")
CML = r"^cardano-multiplatform-lib\b|^cml-[\w-]+ *="

# crate name -> (directory, package)
CRATES = {
    "dcspark_core": ("core", "dcspark-core"),
    "deps": ("deps", "deps"),
    "fraos": ("fraos", "fraos"),
    "indexed_log_map": ("indexed-log-map", "indexed-log-map"),
    "multiverse": ("multiverse", "multiverse"),
    "utxo_selection": ("utxo-selection", "utxo-selection"),
    "cardano_utils": ("cardano-utils", "cardano-utils"),
    "dcspark_blockchain_source": ("blockchain-source", "dcspark-blockchain-source"),
}


def drop(pattern):
    return lambda text: "".join(
        x for x in text.splitlines(True) if not re.search(pattern, x)
    )


def drop_modules(*names):
    n = "|".join(names)
    return drop(rf"^(pub(\([^)]*\))? )?(mod ({n});|use (self::)?({n})::)")


def stub_cml(text):
    return re.sub(
        r"^(cml-[\w-]+) *=.*$",
        lambda m: f'{m[1]} = {{ path = "{VERIF}/stubs/{m[1]}" }}',
        text,
        flags=re.M,
    )


PARTIAL = {
    "utxo-selection": {
        "Cargo.toml": drop(CML + r"|^cardano-utils\b"),
        "src/estimators/mod.rs": drop_modules("cml_fee_estimator", "thermostat_estimator"),
    },
    "cardano-utils": {
        "Cargo.toml": drop(CML),
        "src/lib.rs": drop_modules(
            "multisig_plan", "network_id", "payment_credentials", "utxo"
        ),
    },
    "blockchain-source": {"Cargo.toml": stub_cml},
}


def rm(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.remove(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    rm(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst) as f:
            if f.read() == text:
                return
    rm(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def read(p):
    with open(p) as f:
        return f.read()


def mirror(ws):
    os.makedirs(ws, exist_ok=True)
    members = []
    for d, _ in CRATES.values():
        members.append(d)
        src, dst = f"{REPO}/{d}", f"{ws}/{d}"
        if d not in PARTIAL:
            link(src, dst)
            continue
        if os.path.islink(dst):
            os.remove(dst)
        want = set()
        for base, dirs, files in os.walk(src):
            dirs[:] = [x for x in dirs if x != "target"]
            for n in files:
                rel = os.path.relpath(os.path.join(base, n), src)
                if rel == "Cargo.lock":
                    continue
                want.add(rel)
                if rel in PARTIAL[d]:
                    write(f"{dst}/{rel}", PARTIAL[d][rel](read(f"{src}/{rel}")))
                else:
                    link(f"{src}/{rel}", f"{dst}/{rel}")
        for base, _, files in os.walk(dst):
            for n in files:
                if os.path.relpath(os.path.join(base, n), dst) not in want:
                    os.remove(os.path.join(base, n))
    root = tomllib.loads(read(f"{REPO}/Cargo.toml"))
    text = "[workspace]\nmembers = [%s]\nresolver = \"%s\"\n" % (
        ", ".join(f'"{m}"' for m in members),
        root["workspace"].get("resolver", "1"),
    )
    write(f"{ws}/Cargo.toml", text)
    if not os.path.exists(f"{ws}/Cargo.lock"):
        shutil.copy(f"{VERIF}/stubs/Cargo.lock", f"{ws}/Cargo.lock")


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    return e


def run(cmd, cwd, e):
    p = subprocess.run(
        cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True
    )
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-4000:] + p.stderr[-8000:] + "\n")
        raise RuntimeError("command failed: " + " ".join(cmd))
    return p.stdout


def driver(e):
    root = run(["rustc", "--print", "sysroot"], VERIF, e).strip()
    e["LD_LIBRARY_PATH"] = f"{root}/lib"
    e2 = dict(e)
    e2["CARGO_TARGET_DIR"] = f"{CACHE}/driver"
    run(["cargo", "build", "--offline", "--quiet"], f"{VERIF}/driver", e2)
    return f"{CACHE}/driver/debug/mirfacts"


def facts(crates):
    """-> {crate: facts}, from /repo's sources as they are now."""
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        e = env()
        drv = driver(e)
        ws = f"{CACHE}/ws"
        mirror(ws)
        out = f"{CACHE}/facts"
        rm(out)
        os.makedirs(out)
        # the wrapper must run over the analysed crates however fresh cargo thinks they are
        pk = [CRATES[c][1] for c in crates]
        for c, (_, p) in CRATES.items():
            for fp in glob.glob(f"{CACHE}/target/debug/.fingerprint/{p}-*"):
                shutil.rmtree(fp)
            rm(f"{CACHE}/target/debug/build/{p}")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRFACTS_OUT"] = out
        e["CARGO_TARGET_DIR"] = f"{CACHE}/target"
        e["CARGO_INCREMENTAL"] = "0"
        cmd = ["cargo", "check", "--offline", "--lib"]
        for p in pk:
            cmd += ["-p", p]
        run(cmd, ws, e)
        r = {}
        for f in glob.glob(f"{out}/*.json"):
            with open(f) as h:
                j = json.load(h)
            r[j["crate"]] = j
        for c in crates:
            if c not in r:
                raise RuntimeError(f"no facts for crate {c}")
        r["_secs"] = time.time() - t0
        return r


if __name__ == "__main__":
    f = facts(sys.argv[1:] or list(CRATES))
    print({k: len(v["fns"]) for k, v in f.items() if k != "_secs"}, f["_secs"])
