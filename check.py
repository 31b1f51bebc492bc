#!/usr/bin/env python3
"""check.py <property> [--replay FILE] | --setup: builds the explorers against /repo's working tree, runs the
explorations of one property, merges what they report into evidence/<property>.json.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: no verdict."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")
LEVELS = {}
PROPS = json.load(open(os.path.join(ROOT, "checks.json")))


def build(crate, bins, cfg=True):
    """cargo build of some binaries of a harness crate; returns (ok, log)."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, crate if cfg or crate == "climc" else crate + "-nohooks"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    if cfg:
        env["RUSTFLAGS"] = "--cfg visqol_verif"
    cmd = ["cargo", "build", "--release", "--offline", "-q"]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout, os.path.join(env["CARGO_TARGET_DIR"], "release")


def build_tool():
    """The command line tool, from /repo's working tree."""
    if not os.path.exists("/repo/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", "/repo/Cargo.lock")  # ignored by git there, as in the regular build
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_OPT_LEVEL="2")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "-q", "-p", "visqol", "--offline", "--manifest-path", "/repo/Cargo.toml", "--target-dir", os.path.join(TARGET, "cli")],
                       cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout, os.path.join(TARGET, "cli", "debug", "visqol")


def setup():
    for d in (TARGET, OUT, os.path.join(ROOT, "evidence")):
        os.makedirs(d, exist_ok=True)
    ok = True
    for crate in ("mc", "climc"):
        bins = sorted({b for s in PROPS.values() if s["crate"] == crate for b in (s.get("pub"), s.get("seam")) if b})
        good, log, _ = build(crate, bins, cfg=crate == "mc")
        ok &= good
        if not good:
            print(log[-4000:])
    good, log, _ = build_tool()
    if not good:
        print(log[-4000:])
    return 0 if ok and good else 1


def known():
    """key -> description of every listed, unrepaired finding, per property."""
    res = {}
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l.strip())
        if m:
            res.setdefault(m[1], {})[m[2]] = m[3]
    return res


def main():
    if sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    for d in (TARGET, OUT, os.path.join(ROOT, "evidence")):
        os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="visqol-mc-")
    notes, parts = [], []
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        runs = []  # (binary path, layer)
        if spec.get("cli"):
            ok, log, exe = build_tool()
            if not ok:
                print(log[-4000:], file=sys.stderr)
                print("cannot build the command line tool", file=sys.stderr)
                return 2
            os.environ["VISQOL_BIN"] = exe
            ok, log, d = build(spec["crate"], [spec["pub"]], cfg=False)
            if not ok:
                print(log[-4000:], file=sys.stderr)
                return 2
            runs.append((os.path.join(d, spec["pub"]), "tool"))
        elif spec.get("pub"):
            ok, log, d = build(spec["crate"], [spec["pub"]])
            if not ok:
                ok, log2, d = build(spec["crate"], [spec["pub"]], cfg=False)
                notes.append("built without the hooks: they no longer fit the code")
                if not ok:
                    print(log[-4000:], log2[-4000:], file=sys.stderr)
                    print("cannot build the explorers against /repo", file=sys.stderr)
                    return 2
            runs.append((os.path.join(d, spec["pub"]), "pub"))
        if spec.get("seam"):
            ok, log, d = build(spec["crate"], [spec["seam"]])
            if ok:
                runs.append((os.path.join(d, spec["seam"]), "seam"))
            else:
                print(log[-3000:], file=sys.stderr)
                notes.append("internal exploration skipped: the internal interfaces it drives have changed shape; decided through the public interface alone")
                if not runs:
                    print("cannot build the explorer against /repo", file=sys.stderr)
                    return 2
        fcntl.flock(lock, fcntl.LOCK_UN)
        for i, (exe, layer) in enumerate(runs):
            rep = os.path.join(scratch, f"report{i}.json")
            cmd = [exe, prop, "--out", rep, "--scratch", scratch]
            if replay:
                if json.load(open(replay)).get("layer", layer) != layer:
                    continue
                cmd += ["--replay", replay]
            p = subprocess.run(cmd, cwd=scratch, env=dict(os.environ, TMPDIR=scratch))
            if p.returncode not in (0, 1) or not os.path.exists(rep):
                print(f"{exe} ended with {p.returncode} and no report", file=sys.stderr)
                return 2
            r = json.load(open(rep))
            r["layer_id"] = layer
            parts.append(r)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    listed = known().get(prop, {})
    seen, fresh = set(), []
    for r in parts:
        for v in r["violations"]:
            k = v["family"] + "/" + v["key"]
            if k in listed:
                seen.add(k)
            else:
                fresh.append((r["layer_id"], v))
    total = sum(r["violation_count"] for r in parts)
    outcomes = {}
    for r in parts:
        for k, n in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + n
    if len(outcomes) > 60:
        top = sorted(outcomes.items(), key=lambda x: -x[1])
        outcomes = dict(top[:59] + [("(other)", sum(n for _, n in top[59:]))])
    samples = [s for r in parts for s in r["samples"][:6]]
    cov = {
        "states": sum(r["states"] for r in parts),
        "transitions": sum(r["transitions"] for r in parts),
        "traces_validated_against_impl": sum(r["traces"] for r in parts),
        "samples": samples,
        "exhaustive": all(r["exhaustive"] for r in parts) and bool(parts),
        "families": [dict(f, layer=r["layer_id"]) for r in parts for f in r["families"]],
        "distinct_outcomes": outcomes,
        "notes": notes + [n for r in parts for n in r["notes"]],
        "rule": spec["rule"],
    }
    if spec["level"] == "fault_enumeration":
        cov["evaluations"] = sum(r["evaluations"] for r in parts)
        cov["distinct_nontrivial"] = cov.pop("states")
    ev = {
        "property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": spec["level"],
        "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
    }
    if not replay:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {listed[k]}")
    for r in parts:
        for f in r["families"]:
            cap = "" if f["explored"] == f["of"] else f" of {f['of']} (stopped early)"
            print(f"{prop} {r['layer_id']} {f['name']}: {f['explored']}{cap} explored in {f['wall_s']} s")
    if fresh:
        layer, v = fresh[0]
        path = replay or os.path.join(OUT, f"{prop}-violation.json")
        if not replay:
            json.dump({"property": prop, "layer": layer, "family": v["family"], "key": v["key"], "msg": v["msg"],
                       "replay": f"python3 check.py {prop} --replay {path}"}, open(path, "w"), indent=1)
        for layer, v in fresh[:5]:
            print(f"  {layer} {v['family']} [{v['key']}]: {v['msg'][:1500]}")
        print(f"  {total} violating case(s)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} holds on {cov.get('states', cov.get('distinct_nontrivial'))} states, {cov['transitions']} transitions")
    return 0


if __name__ == "__main__":
    sys.exit(main())
