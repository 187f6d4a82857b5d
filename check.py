#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree.

Builds the encoding (LLVM IR of harness + jotdown) and two native replay builds from /repo,
generates the symbolic jobs of the property, runs the symbolic executor on them, replays every
counterexample natively and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import argparse, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))
BUILD = os.environ.get("SYMX_BUILD", os.path.join(HERE, ".build"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET_DIR", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def start(cmd, cwd):
    return subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tool_source(path):
    """The source of the tool as it can be included in a module: no inner attributes or comments,
    files of its modules where they are."""
    src = open("/repo/src/main.rs").read()
    src = re.sub(r"^\s*//!.*$", "", src, flags=re.M)
    src = re.sub(r"^#!\[.*?\]\s*$", "", src, flags=re.M | re.S)
    src = re.sub(r"^(pub )?mod (\w+);", r'#[path = "/repo/src/\2.rs"] mod \2;', src, flags=re.M)
    if not os.path.exists(path) or open(path).read() != src:
        with open(path, "w") as f:
            f.write(src)
    return path


def build(crate="harness"):
    """Engine and harness builds, in parallel, each with its own target directory."""
    eng, har = os.path.join(HERE, "engine"), os.path.join(HERE, crate)
    t = lambda n: os.path.join(BUILD, n if crate == "harness" or n == "engine" else crate + "-" + n)
    if crate == "cli":
        os.makedirs(BUILD, exist_ok=True)
        ENV["SYMX_MAIN"] = tool_source(os.path.join(BUILD, "tool.rs"))
    procs = [("engine", start(["cargo", "build", "--release", "--offline", "--target-dir", t("engine")], eng))]
    procs += [
        ("encoding", start(["cargo", "rustc", "--profile", "encoded", "--features", "encoded", "--offline", "--lib",
                            "--target-dir", t("enc"), "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
                            "-C", "no-vectorize-slp"], har)),
        ("release replay", start(["cargo", "build", "--release", "--features", "native", "--offline", "--target-dir", t("rel")], har)),
        ("debug replay", start(["cargo", "build", "--features", "native", "--offline", "--target-dir", t("dev")], har)),
    ]
    if crate == "cli":
        # the tool itself and the faults for it
        shim = os.path.join(BUILD, "shim.so")
        ENV["SYMX_TOOL"] = os.path.join(t("tool"), "debug", "jotdown") + ":" + shim
        procs += [
            ("tool", start(["cargo", "build", "--offline", "--bin", "jotdown", "--features", "cli", "--manifest-path", "/repo/Cargo.toml",
                            "--target-dir", t("tool")], HERE)),
            ("shim", start(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(har, "shim.c"), "-ldl"], HERE)),
        ]
    for name, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            for _, q in procs:
                if q.poll() is None:
                    q.kill()
            raise CheckError("%s build failed:\n%s" % (name, out[-4000:]))
    r = {
        "symx": os.path.join(t("engine"), "release", "symx"),
        "ll": os.path.join(t("enc"), "encoded", "deps", crate + ".ll"),
        "rel": os.path.join(t("rel"), "release", "lib%s.so" % crate),
        "dev": os.path.join(t("dev"), "debug", "lib%s.so" % crate),
    }
    return r


def replay(b, lib, oracle, inp, choice, timeout=60):
    """One native run of a model in a subprocess; returns (outcome, hash)."""
    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        env = dict(ENV, SYMX_COST="1")  # C26 measures time here only
        p = subprocess.run([b["symx"], "replay", b[lib], str(oracle)], env=env, input="%s\n%s\n" % (inp, choice),
                           capture_output=True, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return ("timeout", None)
    if p.returncode != 0:
        return ("crash %d" % p.returncode, None)
    w = p.stdout.split()
    code = int(w[1], 16)
    return ({0: "ok", 1: "reject", 2: "panic", 3: "fail"}[code >> 32], (code & 0xffffffff, w[3]))


def show(hexs):
    b = bytes.fromhex(hexs)
    if b"\xfe" in b and b"\xff" in b[:b.index(b"\xfe")]:
        # a document made of pieces
        head, doc = b.split(b"\xfe", 1)
        p = head.split(b"\xff")
        b = b"".join(bytes([c]) if c < 0x80 or c - 0x80 >= len(p) else p[c - 0x80] for c in doc)
    return b


def known_findings(prop):
    """known_findings.json: inputs known to fail (hex, or a repeated unit), plus 'fixed' records."""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    r = [k for k in json.load(open(path)).get("known", []) if k["property"] == prop]
    for k in r:
        if "unit" in k:
            k["input"] = (k["unit"] * k["repeat"] + k.get("suffix", "")).encode().hex()
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", help="only jobs whose name contains this")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--timeout", type=float)
    ap.add_argument("--max-viol", type=int, default=3)
    a = ap.parse_args()
    t0 = time.time()
    import jobs as J
    if a.prop == "setup":
        build()
        build("maps")
        build("cli")
        return 0
    b = build(J.CRATE.get(a.prop, "harness"))
    t_build = time.time() - t0
    out_dir = os.path.join(HERE, "out")
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    jobs = J.jobs_for(a.prop, a.tier)
    if a.jobs:
        jobs = [j for j in jobs if a.jobs in j.name]
    if not jobs:
        raise CheckError("no jobs for " + a.prop)
    jf = os.path.join(out_dir, a.prop + ".jobs")
    of = os.path.join(out_dir, a.prop + ".json")
    with open(jf, "w") as f:
        f.write(J.serialise(jobs))
    if os.path.exists(of):
        os.remove(of)
    limit = a.timeout or (420 if a.tier == "quick" else 780)
    cmd = [b["symx"], "--ll", b["ll"], "--jobs", jf, "--native", b["rel"], "--native", b["dev"], "--out", of,
           "--threads", str(min(8, os.cpu_count() or 8)), "--timeout", str(limit), "--max-viol", str(12 if a.prop == "C26" else a.max_viol), "--budget", "400000000"]
    if a.verbose:
        cmd.append("--verbose")
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=None if a.verbose else subprocess.PIPE, text=True)
    if not os.path.exists(of):
        raise CheckError("executor failed (%d): %s" % (p.returncode, (p.stderr or "")[-2000:]))
    r = json.load(open(of))

    status, confirmed, known, notes = 0, [], [], []
    listed = known_findings(a.prop)
    for v in r["violations"]:
        if a.prop == "C26" and confirmed:
            break  # each takes seconds
        runs = {l: replay(b, l, v["oracle"], v["input"], v["choice"]) for l in (["rel"] if a.prop == "C26" else ["dev", "rel"])}
        bad = [l for l, (o, _) in runs.items() if o not in ("ok", "reject")]
        v["replayed"] = {l: o for l, (o, _) in runs.items()}
        v["input_text"] = show(v["input"]).decode("utf-8", "replace")
        if not bad and v["code"] >= 1 << 30:
            # C26: the growth at small sizes is a constant that large sizes absorb
            notes.append("growth not confirmed at large sizes: %r" % v["input_text"])
        elif not bad:
            notes.append("counterexample does not reproduce natively: %r" % v)
            status = 2
        elif any(k["input"] == v["input"] and k.get("choice", "") == v["choice"] for k in listed):
            known.append(v)
        else:
            confirmed.append(v)
    # listed inputs are run on the real code, whether or not a job reaches them
    for k in listed:
        if all(v["input"] != k["input"] or v["choice"] != k.get("choice", "") for v in known):
            o = replay(b, "rel", k["oracle"], k["input"], k.get("choice", ""))[0]
            if o not in ("ok", "reject"):
                known.append({"input": k["input"][:200], "input_text": k["what"], "choice": k.get("choice", ""), "replayed": {"rel": o}})
    for m in r.get("mismatches", []):
        # the native run differs from the encoding: nondeterminism of the real code, or a wrong encoding
        seen = {replay(b, "rel", m["oracle"], m["input"], m["choice"]) for _ in range(12)}
        if len(seen) > 1:
            m.update(kind="output differs between runs on the same input", input_text=show(m["input"]).decode("utf-8", "replace"))
            if a.prop == "C24":
                confirmed.append(m)
            else:
                notes.append("nondeterministic output, see C24: %r" % m["input_text"])
        else:
            notes.append("native run differs from the encoding: %r" % m)
            status = 2
    if r["errors"]:
        notes += r["errors"]
        done = sum(1 for j in r["jobs"] if j["paths"])
        if done * 2 < len(r["jobs"]) or not r["jobs"]:
            status = 2
    if r["timed_out"]:
        notes.append("time limit of %d s reached: unfinished jobs are not covered" % limit)
    if r["incomplete"]:
        notes.append("not covered completely: %d of %d jobs" % (len(r["incomplete"]), len(r["jobs"])))

    inc = {e.split(":")[0] for e in r["incomplete"]}
    complete = [j for j in r["jobs"] if j["name"] not in inc and j["paths"]]
    tot = lambda k: sum(j[k] for j in r["jobs"])
    samples = []
    for j in complete[:: max(1, len(complete) // 12)][:12]:
        if j["sample"] is not None:
            samples.append({"job": j["name"], "input": show(j["sample"]).decode("utf-8", "replace")})
    mine = [f for f in r["functions"] if "jotdown" in f[0]]
    marks = 0
    for j in r["jobs"]:
        marks |= j["marks"]
    need = J.required_marks(a.prop)
    if not a.jobs and not confirmed and not r["timed_out"] and (marks & need) != need:
        notes.append("vacuity: reachability marks %#x of %#x" % (marks & need, need))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "assumptions": J.assumptions(a.prop),
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": tot("native"),
            "samples": samples,
            "bounds": J.bounds_text(a.prop, a.tier),
            "jobs": len(r["jobs"]), "jobs_complete": len(complete), "jobs_incomplete": sorted(inc)[:50],
            "inputs_covered": str(sum(int(j["inputs"]) for j in complete)),
            "paths_ok": tot("ok"), "paths_outside_precondition": tot("reject"),
            "feasible_both_ways": tot("multi"), "ir_instructions": tot("instrs"),
            "solver_queries": r["queries"], "solver_sat": r["sat"], "solver_unsat": r["unsat"], "solver_s": r["solver_s"],
            "engine_s": r["wall_s"], "build_s": round(t_build, 1),
            "marks_reached": marks, "marks_required": need,
            "functions_encoded": len(r["functions"]),
            "functions_of_jotdown": [{"name": n, "blocks_covered": c, "blocks": t} for n, c, t in mine],
            "per_job": [{"job": j["name"], "len": j["len"], "vars": j["vars"], "paths": j["paths"], "inputs": j["inputs"]} for j in r["jobs"]][:400],
        },
        "notes": notes, "known_findings": known, "violations": confirmed,
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes[:10]:
        print("note:", n[:600])
    for v in known:
        what = next((k["what"] for k in listed if k["input"].startswith(v["input"][:200]) and k.get("choice", "") == v["choice"]), "")
        print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    print("%s %s: %d jobs (%d complete), %d paths, %s inputs, %d queries (%.1f s), %.1f s" % (
        a.prop, a.tier, len(r["jobs"]), len(complete), tot("paths"), ev["coverage"]["inputs_covered"], r["queries"], r["solver_s"], ev["wall_s"]))
    if confirmed:
        for n, v in enumerate(confirmed):
            path = os.path.join(out_dir, "%s-violation-%d.json" % (a.prop, n))
            v["property"] = a.prop
            v["how_to_replay"] = "symx replay <libharness.so> %s %s '%s'" % (v["oracle"], v["input"], v["choice"])
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("counterexample: job %s, %s (code %s), input %r choice %s, native %s" % (
                v["job"], v.get("kind"), v.get("code"), v["input_text"][:300], v["choice"], v.get("replayed")))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    return status


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("error:", e)
        sys.exit(2)
