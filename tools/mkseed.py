#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a table entry: mkseed.py [id...]
Entries live in tools/seeds/*.py as SEED = dict(...)."""
import re, sys, os, subprocess, json, glob, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# cwd: the repository. Builds the crate and the demonstration in a scratch
# directory, with stand-ins for the lookup tables the repository leaves out.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
set -e
X=
for l in pow2_div_pow5_lut pow5_div_pow2_lut pow2_div_pow10_lut pow10_div_pow2_lut; do
    s=$R/$l/src/lib.rs
    [ -e "$s" ] || s=$H/luts/$l.rs
    rustc --edition 2021 -O --crate-type rlib --crate-name f256_$l -A warnings -o "$D/libf256_$l.rlib" "$s"
    X="$X --extern f256_$l=$D/libf256_$l.rlib"
done
rustc --edition 2021 -O FLAGS --crate-type rlib --crate-name f256 --cfg 'feature="std"' -A warnings $X -L "$D" -o "$D/libf256.rlib" "$R/src/lib.rs"
rustc --edition 2021 -O -A warnings --extern f256="$D/libf256.rlib" -L "$D" -o "$D/demo" "$H/demo.rs"
set +e
timeout 120 "$D/demo"
'''
PRE = '''use f256::f256;
#[allow(dead_code)]
fn b(hi: u128, lo: u128) -> f256 {
    f256::from_bits((hi, lo))
}
#[allow(dead_code)]
fn same(name: &str, got: f256, hi: u128, lo: u128) {
    let g = got.to_bits();
    if g != (hi, lo) {
        eprintln!("{name}: got {:032x}:{:032x}, expected {:032x}:{:032x}", g.0, g.1, hi, lo);
        std::process::exit(1);
    }
}
fn main() {
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def inline(fn):
    """the file with its #[path] modules pasted in"""
    def sub(m):
        f = os.path.normpath(os.path.join(os.path.dirname(fn), m.group(1)))
        return f"mod {m.group(2)} {{\n{inline(f)}\n}}"
    t = re.sub(r'#\[path = "(.*)"\]\s*mod (\w+);', sub, open(fn).read())
    return re.sub(r"(?m)^//!.*$|^#!\[.*$", "", t)
def make(fn):
    ns = {}
    exec(open(fn).read(), ns)
    s = ns["SEED"]
    id = os.path.basename(fn)[:-3]
    wt = f"/tmp/seedwt-{id}"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns("target"), symlinks=True)
    sh("git checkout -- .", cwd=wt)
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=wt).stdout
    assert diff
    out = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/luts")
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO_SH.replace("FLAGS ", s.get("flags", "") + " " if s.get("flags") else ""))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.rs", "w").write(PRE + s["demo"] + "}\n")
    for l in ["pow2_div_pow5_lut", "pow5_div_pow2_lut", "pow2_div_pow10_lut", "pow10_div_pow2_lut"]:
        if s.get("real_luts"):
            t = inline(f"{ROOT}/luts/{l}/src/lib.rs")
        else:
            t = open(f"/opt/vp/stubs/f256_{l}.rs").read()
        open(f"{out}/luts/{l}.rs", "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    a = sh(f"bash {out}/demo.sh", cwd="/repo")
    c = sh(f"bash {out}/demo.sh", cwd=wt)
    print(id, "clean:", a.returncode, a.stderr[-300:], "patched:", c.returncode, c.stderr.strip()[-300:], flush=True)
    shutil.rmtree(wt)
ids = sys.argv[1:]
for fn in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
    if not ids or os.path.basename(fn)[:-3] in ids:
        make(fn)
