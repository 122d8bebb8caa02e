"""Obtain the resolved program (MIR dump) of /repo's current working tree.

A shadow workspace of symlinks to /repo is laid out under the cache directory (the git
dev-dependency of the v2 contract, which cannot be fetched here, is cut from its manifest; only
library targets are analysed, so no dev-dependency matters), and `cargo +nightly check --lib`
is run on it with the MIR driver as RUSTC_WORKSPACE_WRAPPER.  Everything is rebuilt when any
source file, manifest, lock file, driver or toolchain changed (content hash).
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
V2 = "contracts/stargaze-marketplace-v2"
MEMBERS = ["sg-marketplace", "sg_marketplace", "stargaze-reserve-auction", "stargaze_reserve_auction",
           "stargaze-marketplace-v2", "stargaze_marketplace_v2", "sg-marketplace-common", "sg_marketplace_common"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def tool_id():
    rc, out = run(["rustc", "+nightly", "-vV"], env=env())
    if rc:
        raise BuildError("rustc +nightly: " + out)
    return out


def driver():
    src = os.path.join(HERE, "driver", "main.rs")
    h = hashlib.sha256((open(src).read() + tool_id()).encode()).hexdigest()[:16]
    out = os.path.join(CACHE, "driver-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, log = run(["rustc", "+nightly", "-O", "--edition", "2021", "--cap-lints", "allow", src, "-o", tmp],
                      env=env(), cwd=CACHE)
        if rc:
            raise BuildError("driver does not build:\n" + log)
        os.rename(tmp, out)
    return out, h


def shim():
    """rustc as seen by build scripts: old crates (ahash 0.7) switch on long-gone nightly features
    when `rustc --version` says nightly, so that one question is answered without the suffix."""
    rc, real = run(["rustup", "which", "--toolchain", "nightly", "rustc"], env=env())
    real = real.strip()
    if rc or not os.path.exists(real):
        raise BuildError("no nightly rustc: " + real)
    p = os.path.join(CACHE, "rustc")
    open(p + ".tmp", "w").write(f"""#!/bin/bash
case "$*" in
  "--verbose --version"|"--version --verbose"|"--version") {real} "$@" | sed -e 's/-nightly//'; exit 0 ;;
esac
exec {real} "$@"
""")
    os.chmod(p + ".tmp", 0o755)
    os.rename(p + ".tmp", p)
    return p


def sources():
    """Every file of /repo that can influence the library build."""
    out = []
    for top in ("Cargo.toml", "Cargo.lock"):
        out.append(top)
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules", "typescript", "artifacts"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(set(out))


def src_hash(extra):
    h = hashlib.sha256(extra.encode())
    for f in sources():
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def shadow(ws):
    if os.path.isdir(ws):
        shutil.rmtree(ws)
    os.makedirs(ws)

    def link(rel):
        os.makedirs(os.path.dirname(f"{ws}/{rel}"), exist_ok=True)
        os.symlink(f"{REPO}/{rel}", f"{ws}/{rel}")

    link("Cargo.toml")
    if os.path.isdir(f"{REPO}/.cargo"):
        link(".cargo")
    for top in ("contracts", "packages"):
        for name in sorted(os.listdir(f"{REPO}/{top}")):
            rel = f"{top}/{name}"
            if rel != V2:
                link(rel)
    for name in sorted(os.listdir(f"{REPO}/{V2}")):
        if name not in ("Cargo.toml", "target"):
            link(f"{V2}/{name}")
    text = open(f"{REPO}/{V2}/Cargo.toml").read()
    text = re.sub(r'^stargaze-royalty-registry\s*=\s*\{[^}]*git\s*=\s*"[^"]*"[^}]*\}[^\n]*\n', "", text, flags=re.M)
    os.makedirs(f"{ws}/{V2}", exist_ok=True)
    open(f"{ws}/{V2}/Cargo.toml", "w").write(text)
    shutil.copy(f"{REPO}/Cargo.lock", f"{ws}/Cargo.lock")


def mir():
    """Directory holding the four crates' MIR dumps of /repo's current tree, and its hash."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv, dh = driver()
        h = src_hash(dh)
        out = os.path.join(CACHE, "mir-" + h)
        if os.path.isdir(out):
            os.utime(out)
            return out, h
        ws = os.path.join(CACHE, "ws")
        shadow(ws)
        target = os.path.join(CACHE, "target")
        for m in MEMBERS:
            for f in glob.glob(f"{target}/debug/.fingerprint/{m}-*"):
                shutil.rmtree(f)
            shutil.rmtree(f"{target}/debug/build/{m}", ignore_errors=True)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        e = env()
        e["RUSTC_WRAPPER"] = drv
        ext = os.path.join(CACHE, "ext-" + dh)
        if not os.path.isdir(ext) or not os.listdir(ext):
            # registry crates are dumped when cargo compiles them: force it
            shutil.rmtree(target, ignore_errors=True)
            os.makedirs(ext, exist_ok=True)
        e["VP_MIR_EXT"] = ext
        e["VP_MIR_CRATES"] = ",".join(m for m in MEMBERS if "_" in m)
        e["CARGO_TARGET_DIR"] = target
        e["RUSTC"] = shim()
        e["VP_MIR_OUT"] = tmp
        rc, sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env=e)
        e["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib"
        e["RUST_BACKTRACE"] = "1"
        # warnings of /repo's code are of no interest here
        rc, log = run(["cargo", "check", "--workspace", "--lib", "--offline"], env=e, cwd=ws)
        if rc:
            shutil.rmtree(tmp)
            raise BuildError("cargo check with the MIR driver failed:\n" + log[-4000:])
        got = sorted(os.listdir(tmp))
        if len(got) != 4:
            shutil.rmtree(tmp)
            raise BuildError("expected MIR of 4 crates, got %r\n%s" % (got, log[-2000:]))
        for f in sorted(os.listdir(ext)):
            shutil.copy(os.path.join(ext, f), os.path.join(tmp, "ext-" + f))
        if len(os.listdir(tmp)) != 5:
            shutil.rmtree(tmp)
            shutil.rmtree(ext)
            raise BuildError("expected MIR of one registry crate")
        os.rename(tmp, out)
        # keep the cache small
        ms = sorted(glob.glob(os.path.join(CACHE, "mir-*")), key=os.path.getmtime)
        for old in ms[:-4]:
            shutil.rmtree(old, ignore_errors=True)
        return out, h
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    print(mir())
