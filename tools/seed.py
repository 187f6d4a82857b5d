#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).
  seed.py make ID...    validate the entries of tools/seeds_src.py and write seeded/ID
  seed.py run ID... [--props C01,C02]   apply each patch, run the property's check, undo
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = """#!/bin/sh
# exits 0 where the documented behaviour holds; cwd is the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\njotdown = { path = "%s" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d"
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
timeout 200 cargo run -q --offline
"""
# demonstrations that run the tool
SCRIPT = """#!/bin/bash
# exits 0 where the documented behaviour holds; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
timeout 200 cargo build -q --offline --features cli --bin jotdown --manifest-path "$repo/Cargo.toml" --target-dir "$d/target" || exit 1
tool=$d/target/debug/jotdown
cd "$d"
fail() { echo "panicked: $*" >&2; exit 1; }
"""
PRE = "#![allow(unused)]\nuse jotdown::*;\nfn html(s: &str) -> String {\n    let mut o = String::new();\n    html::Renderer::minified().push_events(Parser::new(s), &mut o).unwrap();\n    o\n}\nfn events(s: &str) -> Vec<Event<'_>> {\n    Parser::new(s).collect()\n}\nfn main() {\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    r = sh("git -C %s status --porcelain" % REPO).stdout
    assert not r.strip(), "repo not clean: " + r


def undo():
    sh("git -C %s checkout -- ." % REPO)


def make(sid, s):
    clean()
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, "%s: %d matches in %s" % (sid, t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        patch = sh("git -C %s diff" % REPO).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        gone = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = set()
        for f, _, _ in s["edits"]:
            base |= set(sh("git -C %s show d0e1893:%s" % (REPO, f)).stdout.splitlines())
        if not any(l in base and len(l.strip()) > 3 for l in gone):
            return "NO ORIGINAL LINE CHANGED"
        body = s["demo"]
        script = s.get("script")
        if script:
            open(os.path.join(d, "demo.sh"), "w").write(SCRIPT + body.strip("\n") + "\nexit 0\n")
        else:
            open(os.path.join(d, "main.rs"), "w").write(PRE + body.strip("\n") + "\n}\n")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "BUILD FAILS " + r.stderr[-600:]
        r = sh("sh %s/demo.sh" % d, cwd=REPO)
        if r.returncode == 0:
            return "DEMO PASSES WITH PATCH"
        if "panicked" not in r.stderr and "overflow" not in r.stderr:
            return "DEMO ODD: " + r.stderr[-800:]
        sh("bash /opt/vp/test.sh /tmp/seedt.json")
        b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/seedt.json"))
        m = sorted(set(b["stable"]) - set(t["passed"]))
        if m:
            return "TESTS FAIL: %d %s" % (len(m), m[:4])
    finally:
        undo()
    r = sh("sh %s/demo.sh" % d, cwd=REPO)
    if r.returncode:
        return "DEMO FAILS ON UNCHANGED: " + r.stderr[-800:]
    return "ok"


def run(sid, props=None):
    clean()
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    if r.returncode:
        return "PATCH DOES NOT APPLY " + r.stderr
    out = []
    try:
        for p in props or [meta["property"]]:
            t = time.time()
            r = sh("python3 check.py %s --tier quick" % p, cwd=HERE)
            v = [l for l in r.stdout.splitlines() if l.startswith("counterexample")]
            out.append("%s:%s %.0fs %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d %s" % (r.returncode, (r.stdout + r.stderr)[-400:])), time.time() - t, v[0][:170] if v else ""))
    finally:
        undo()
    return " | ".join(out)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    props = None
    if "--props" in args:
        i = args.index("--props"); props = args[i + 1].split(","); del args[i:i + 2]
    if cmd == "make":
        src = {}
        exec(open(os.path.join(HERE, "tools", "seeds_src.py")).read(), src)
        S = src["SEEDS"]
        for sid in args or [k for k in S if not os.path.exists(os.path.join(HERE, "seeded", k, "meta.json"))]:
            res = make(sid, S[sid])
            print(sid, res, flush=True)
            if res != "ok":
                d = os.path.join(HERE, "seeded", sid)
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
                os.rmdir(d)
    else:
        for sid in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
            print(sid, run(sid, props), flush=True)
