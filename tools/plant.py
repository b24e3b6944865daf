#!/usr/bin/env python3
"""Confirms planted bugs and keeps them under seeded/.

plant.py FILE...   each FILE is Python that calls
    bug(id, prop, [(file, old, new), ...], demo, needs, breaks, cfg=None)
An edit applies to a scratch copy of /repo.  The bug is kept when it builds,
passes the existing tests, and its demonstration tells the two apart.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
REPO = os.path.join(SCRATCH, "repo")
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("tests") or [])

DEMO_SH = """#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
bongo = { path = "$repo" }
thiserror = "1.0"

[workspace]
EOF
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"%s
cargo build -q --offline 2> "$d/log" || { cat "$d/log"; exit 4; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
"""

PRELUDE = open(os.path.join(VERIF, "tools", "demo_prelude.rs")).read()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq -e target -e Cargo.lock" % (REPO, REPO))


def demo(d):
    env = dict(os.environ, DEMO_TARGET=os.path.join(SCRATCH, "demo-target"))
    return sh("bash %s/demo.sh" % d, cwd=REPO, env=env)


def bug(id, prop, edits, body, needs, breaks, cfg=None, prelude=True):
    only = os.environ.get("ONLY")
    if only and id not in only.split(","):
        return
    out = os.path.join(VERIF, "seeded", id)
    reset()
    tmp = os.path.join(SCRATCH, "new", id)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    with open(tmp + "/demo.sh", "w") as f:
        f.write(DEMO_SH % (' RUSTFLAGS="--cfg bongo_verif=\\"%s\\""' % cfg if cfg else ""))
    with open(tmp + "/demo.rs", "w") as f:
        f.write((PRELUDE if prelude else "") + body)
    r = demo(tmp)
    if r.returncode != 0:
        print("%s: demo fails on the unchanged tree (%d)\n%s" % (id, r.returncode, r.stdout[-3000:]))
        return
    for path, old, new in edits:
        p = os.path.join(REPO, path)
        s = open(p).read()
        if s.count(old) != 1:
            print("%s: %d occurrences in %s of: %s" % (id, s.count(old), path, old))
            reset()
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % REPO).stdout
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=REPO, env=dict(os.environ, CARGO_TERM_COLOR="never"))
    oks = r.stdout.count(" ... ok\n")
    if r.returncode != 0 or oks < 20:
        print("%s: tests: rc %d, %d ok\n%s" % (id, r.returncode, oks, "\n".join(l for l in r.stdout.splitlines() if l.startswith(("error", "    grammar::", "    lib")) or "-->" in l)[:900]))
        reset()
        return
    r = demo(tmp)
    reset()
    if r.returncode in (0, 3, 4):
        print("%s: demo exits %d with the bug\n%s" % (id, r.returncode, r.stdout[-1500:]))
        return
    open(tmp + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    shutil.move(tmp, out)
    print("%s: kept (%s, demo exits %d)" % (id, prop, r.returncode))


if __name__ == "__main__":
    if not os.path.isdir(REPO):
        os.makedirs(SCRATCH, exist_ok=True)
        sh("cp -a /repo %s" % REPO)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (REPO, REPO))
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"))
