"""builds demo.rs against /repo (the current directory) in a scratch folder and runs it"""
import os, shutil, subprocess, sys, tempfile
here, repo = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
crate = open(os.path.join(here, "crate.txt")).read().split()
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="")
env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env["PATH"]
with tempfile.TemporaryDirectory(prefix="demo-") as d:
    os.makedirs(d + "/src")
    shutil.copy(os.path.join(here, "demo.rs"), d + "/src/main.rs")
    shutil.copy(os.path.join(here, "chain.rs"), d + "/src/chain.rs")
    shutil.copy(os.path.join(repo, "Cargo.lock"), d + "/Cargo.lock")
    deps = "".join('%s\n' % x for x in {
        "v1": ['sg-marketplace = { path = "%s/contracts/marketplace" }' % repo, 'sg-std = "2.1.0"', 'cw-utils = "0.16.0"'],
        "ra": ['stargaze-reserve-auction = { path = "%s/contracts/reserve-auction" }' % repo, 'sg-std = "2.1.0"', 'sg-marketplace-common = "=1.1.0"'],
        "v2": ['stargaze-marketplace-v2 = { path = "%s/contracts/stargaze-marketplace-v2" }' % repo],
    }[crate[0]])
    open(d + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncosmwasm-std = "1.5.4"\n'
                                       'serde = "1"\nserde_json = "1"\n' + (open(os.path.join(here, "deps.txt")).read() if os.path.exists(os.path.join(here, "deps.txt")) else "") + deps + "[workspace]\n")
    env["CARGO_TARGET_DIR"] = t = os.environ.get("DEMO_TARGET", d + "/target")
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        print(b.stdout[-6000:])
        sys.exit(3)
    r = subprocess.run([t + "/debug/demo"], cwd=d, timeout=60)
    sys.exit(1 if r.returncode else 0)
