#!/usr/bin/env python3
"""plant.py make DEFS.py [ID...]   creates seeded/<id>/ from definitions (replacement texts and a demonstration)
plant.py confirm [ID...]           confirms them in a scratch copy of /repo: builds, stable tests pass, demo 0 / nonzero
plant.py catch [--all] [ID...]     runs the check of the property (or all checks) against each, in scratch copies
Results go to build/plant.json."""
import concurrent.futures as cf, importlib.util, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
RESULT = os.path.join(HERE, "build", "plant.json")

DEMO_SH = """#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is not.  Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2021 --cap-lints allow -O --crate-name aga8 --crate-type rlib --cfg 'feature="extern"' src/lib.rs --out-dir "$tmp" || exit 2
rustc --edition 2021 --cap-lints allow -O --crate-name demo --extern aga8="$tmp/libaga8.rlib" "$here/demo.rs" -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo" "$here/expected.txt"
"""


def run(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)


def copy(id):
    d = tempfile.mkdtemp(prefix=f"plant-{id}-", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("target"))
    return d, r


def make(defs, ids):
    spec = importlib.util.spec_from_file_location("defs", defs)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        if ids and s["id"] not in ids:
            continue
        out = os.path.join(SEEDED, s["id"])
        d, r = copy(s["id"])
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                n, nth = 1, isinstance(old, tuple)
                if nth:
                    old, n = old          # the n-th occurrence
                parts = t.split(old)
                if len(parts) < n + 1 or (not nth and len(parts) != 2 and not s.get("first")):
                    print(f"{s['id']}: {len(parts) - 1} occurrences of {old!r}")
                    break
                t = old.join(parts[:n]) + new + old.join(parts[n:])
                open(p, "w").write(t)
            else:
                os.makedirs(out, exist_ok=True)
                diff = run(["git", "diff"], r).stdout
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.rs"), "w").write(m.PRELUDE + s["demo"])
                open(os.path.join(out, "demo.sh"), "w").write(s.get("sh", DEMO_SH))
                for name, text in s.get("files", {}).items():
                    open(os.path.join(out, name), "w").write(text)
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
                if s.get("golden"):
                    run(["git", "checkout", "--", "."], r)
                    g = run(["bash", os.path.join(out, "demo.sh")], r, env={"GOLDEN": "1"})
                    if g.returncode != 0:
                        print(s["id"], g.stdout)
                    open(os.path.join(out, "expected.txt"), "w").write(g.stdout)
                print("made", s["id"])
        finally:
            shutil.rmtree(d)


STABLE = None


def confirm(id):
    out = os.path.join(SEEDED, id)
    d, r = copy(id)
    try:
        a = run(["bash", os.path.join(out, "demo.sh")], r)
        if a.returncode != 0:
            return id, "demo fails on the unchanged tree:\n" + a.stdout[-1500:]
        p = run(["git", "apply", os.path.join(out, "patch.diff")], r)
        if p.returncode != 0:
            return id, "does not apply: " + p.stdout
        t = run(["bash", "-c", "cp -a /repo/target %s/target; export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=%s/target; cargo test --workspace --features extern --no-fail-fast --offline" % (d, d)], r, 1500)
        if t.returncode != 0:
            return id, "tests fail:\n" + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500]
        a = run(["bash", os.path.join(out, "demo.sh")], r)
        if a.returncode == 0:
            return id, "demo passes with the change"
        if a.returncode == 2:
            return id, "demo does not build:\n" + a.stdout[-1500:]
        return id, "ok"
    finally:
        shutil.rmtree(d)


def catch(id, everything):
    out = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(out, "meta.json")))
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))] if everything else [meta["property"]]
    d, r = copy(id)
    res = {}
    try:
        run(["git", "apply", os.path.join(out, "patch.diff")], r)
        for p in props:
            t0 = time.time()
            try:
                c = run([os.path.join(HERE, "check"), p], HERE, 1500, {"AGA8_REPO": r})
                res[p] = {0: "quiet", 1: "caught"}.get(c.returncode, "no answer: " + c.stdout[-300:])
                if c.returncode == 1:
                    res[p] += " (" + [l for l in c.stdout.splitlines() if l][0][:120] + ")"
            except subprocess.TimeoutExpired:
                res[p] = "timeout"
    finally:
        shutil.rmtree(d)
    return id, meta["property"], res


def main():
    what, args = sys.argv[1], sys.argv[2:]
    if what == "make":
        return make(args[0], args[1:])
    everything = "--all" in args
    ids = [a for a in args if a != "--all"] or sorted(os.listdir(SEEDED))
    old = json.load(open(RESULT)) if os.path.exists(RESULT) else {}
    if what == "confirm":
        with cf.ThreadPoolExecutor(4) as ex:
            for id, res in ex.map(confirm, ids):
                print(id, res, flush=True)
                old.setdefault(id, {})["confirmed"] = res
    else:
        with cf.ThreadPoolExecutor(3) as ex:
            for id, prop, res in ex.map(lambda i: catch(i, everything), ids):
                print(id, prop, "|", res[prop], "|", ",".join(p for p in res if res[p].startswith("caught")), "|",
                      {p: v for p, v in res.items() if not v.startswith(("caught", "quiet"))} or "", flush=True)
                old.setdefault(id, {}).setdefault("checks", {}).update(res)
    json.dump(old, open(RESULT, "w"), indent=1)


main()
