#!/usr/bin/env python3
"""python3 tools/mkseed.py SPEC.py... [ID...]   SPEC.py defines seeds, a list of dicts: id, property, needs, breaks, edits=[(file, old, new)], demo (Rust main.rs)
Confirms in a scratch copy that the change builds, passes the stable tests and that the demonstration separates the trees."""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# exit 0 when the demonstrated behaviour is right, non-zero otherwise; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cat > "$t/svgbobdoc.rs" <<'R'
extern crate proc_macro;
#[proc_macro]
pub fn transform(_: proc_macro::TokenStream) -> proc_macro::TokenStream { "\"\"".parse().unwrap() }
R
set -e
rustc --edition 2021 --crate-type proc-macro --crate-name svgbobdoc --out-dir "$t" "$t/svgbobdoc.rs"
rustc --edition 2021 -O --cap-lints allow --crate-type rlib --crate-name ellalgo_rs --extern svgbobdoc="$(ls "$t"/libsvgbobdoc.so)" --out-dir "$t" src/lib.rs
rustc --edition 2021 -O --cap-lints allow --extern ellalgo_rs="$t/libellalgo_rs.rlib" -L "$t" -o "$t/demo" "$here/demo.rs"
timeout 100 "$t/demo"
'''

PY_SH = r'''#!/bin/bash
# exit 0 when the demonstrated behaviour is right, non-zero otherwise; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD/python_ai"
timeout 100 python3-vt "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(w):
    """run the stable tests in a copy bound over /repo's path is not possible: rewrite the scripts' paths"""
    out = os.path.join(w, "..", "out.json")
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/repo", w).replace("/opt/vp/env.sh", os.path.join(w, "..", "env.sh"))
        open(os.path.join(w, "..", s), "w").write(t)
    open(os.path.join(w, "..", "env.sh"), "w").write(open("/opt/vp/env.sh").read().replace("/repo", w))
    r = sh("bash %s/../build.sh" % w)
    if r.returncode:
        return "build failed\n" + r.stdout[-2000:]
    r = sh("bash %s/../test.sh %s" % (w, out))
    res = json.load(open(out))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", res if isinstance(res, list) else []))
    miss = [x for x in stable if x not in passed]
    return None if not miss else "tests lost: %s" % miss[:6]


def main():
    rc = 0
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    todo = []
    for spec in sys.argv[1:]:
        if not spec.endswith(".py"):
            continue
        env = {}
        exec(open(spec).read(), env)
        todo += env["seeds"]
    for g in todo:
        if only and g["id"] not in only:
            continue
        if not only and os.path.exists(os.path.join(ROOT, "seeded", g["id"])):
            continue
        base = "/tmp/seedwork"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        w = base + "/repo"
        sh("cp -a /repo %s" % w)
        try:
            for f, a, b in g["edits"]:
                p = os.path.join(w, f)
                s = open(p).read()
                if s.count(a) != 1:
                    raise Exception("%s: %d matches in %s for %r" % (g["id"], s.count(a), f, a[:60]))
                open(p, "w").write(s.replace(a, b))
            diff = sh("git -C %s diff" % w).stdout
            e = tests(w)
            if e:
                raise Exception(e)
            d = os.path.join(base, "d")
            os.makedirs(d)
            src = "demo.py" if "pydemo" in g else "demo.rs"
            open(os.path.join(d, src), "w").write(g.get("pydemo") or g["demo"])
            open(d + "/demo.sh", "w").write(PY_SH if "pydemo" in g else DEMO_SH)
            bad = sh("bash %s/demo.sh" % d, cwd=w)
            good = sh("bash %s/demo.sh" % d, cwd="/repo")
            if good.returncode:
                raise Exception("demo fails on the unchanged tree\n" + good.stdout[-1500:])
            if not bad.returncode:
                raise Exception("demo passes with the change\n" + bad.stdout[-500:])
            if "error" in bad.stdout and "panicked" not in bad.stdout and src == "demo.rs":
                raise Exception("demo does not compile?\n" + bad.stdout[-1500:])
            o = os.path.join(ROOT, "seeded", g["id"])
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            shutil.copy(os.path.join(d, src), o)
            shutil.copy(d + "/demo.sh", o)
            json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(o + "/meta.json", "w"), indent=1)
            print(g["id"], "kept", bad.stdout.strip().splitlines()[:2], flush=True)
        except Exception as ex:
            print(g["id"], "REJECTED:", ex, flush=True)
            rc = 1
        finally:
            shutil.rmtree(base, ignore_errors=True)
    return rc


sys.exit(main())
