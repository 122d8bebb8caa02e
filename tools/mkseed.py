#!/usr/bin/env python3
"""python3 tools/mkseed.py SPEC.py [ids]: makes /verif/seeded/<id> from a spec (edits, demonstration) and confirms it:
builds, passes the stable tests, the demonstration fails with the change and passes without. Says which checks catch it.
SPEC.py defines SEEDS = [dict(id, property, crate, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(HERE, "tools", "seedlib")
# scratch copies: VP_REPO (default /repo), and the build and test scripts that go with it
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", "/opt/vp/build.sh")
TEST = os.environ.get("VP_TEST", "/opt/vp/test.sh")


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git", "-C", REPO, "checkout", "--", ".")


def demo(d):
    r = sh("bash", d + "/demo.sh", cwd=REPO, env=dict(os.environ, DEMO_TARGET="/tmp/demo-target"))
    return r.returncode, r.stdout


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in seeds:
        if ids and s["id"] not in ids:
            continue
        assert not sh("git", "-C", REPO, "status", "--porcelain", "-uno").stdout.strip(), "repo not clean"
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        if s["crate"] == "ts":
            for f in ("demo.sh", "run.js", "stubs.js"):
                shutil.copy(os.path.join(LIB, "ts", f), d)
            open(d + "/demo.js", "w").write("module.exports = async ({ load, types, assert, state }) => {\n" + s["demo"].strip("\n") + "\n};\n")
        if s["crate"] == "cli":
            for f in sorted(os.listdir(os.path.join(LIB, "cli"))):
                shutil.copy(os.path.join(LIB, "cli", f), d)
            open(d + "/demo.js", "w").write("module.exports = async ({ run, state, assert }) => {\n" + s["demo"].strip("\n") + "\n};\n")
        for f in () if s["crate"] in ("ts", "cli") else ("run.py", "demo.sh"):
            shutil.copy(os.path.join(LIB, f), d)
        if s["crate"] not in ("ts", "cli"):
            shutil.copy(LIB + "/chain.rs", d)
            open(d + "/crate.txt", "w").write(s["crate"] + "\n")
            if s.get("deps"):
                open(d + "/deps.txt", "w").write(s["deps"])
            helper = open(os.path.join(LIB, s["crate"] + ".rs")).read()
            body = "#![allow(dead_code, unused_imports, ambiguous_glob_reexports)]\nmod chain;\nmod h {\n" + helper + "}\nuse h::*;\n" + s.get("use", "") + "\n\nfn main() {\n" + s["demo"].strip("\n") + "\n}\n"
            open(d + "/demo.rs", "w").write(body)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        status = []
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    status.append("EDIT-MATCHES-%d:%s" % (t.count(old), old[:40]))
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE, text=True).stdout)
            b = sh("bash", BUILD)
            if b.returncode:
                print(s["id"], "BUILD FAILS", b.stdout[-1500:])
                continue
            sh("bash", TEST, "/tmp/seed-out.json")
            o = json.load(open("/tmp/seed-out.json"))
            status.append("tests:%d/%d" % (len(o["passed"]), len(o["passed"]) + len(o["failed"])))
            if o["failed"]:
                status.append("TESTS-FAIL " + ",".join(map(str, o["failed"]))[:200])
            rc, out = demo(d)
            status.append("demo-with:%d" % rc + ("" if rc == 1 and "error[" not in out else " UNEXPECTED " + out[-700:]))
            if rc == 1 and "-v" in os.environ.get("SEEDV", ""):
                print(out)
            man = [x["property"] for x in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
            if os.environ.get("SEED_OWN"):
                man = [s["property"]]
            c = sh("python3", "check.py", *[x for x in man if x[0] == s["property"][0] or x[0] not in "MRV" and s["property"][0] not in "MRV" or x[0] in "SX"], cwd=HERE)
            hits = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            status.append("caught:" + ",".join(l.split("property=")[1].split()[0] for l in hits))
            keys = [l.strip()[:150] for l in c.stdout.splitlines() if l.startswith("  %s|" % s["property"])]
        finally:
            clean()
        rc, out = demo(d)
        status.append("demo-without:%d" % rc + ("" if rc == 0 else " UNEXPECTED " + out[-700:]))
        ok = ",".join(status)
        mark = "OK  " if s["property"] in ok.split("caught:")[1].split("demo-without")[0] else "MISS"
        print(mark, s["id"], s["property"], ok, keys[:2], flush=True)


if __name__ == "__main__":
    main()
