#!/usr/bin/env python3
"""mkseed.py [ID ...]: writes seeded/<id>/ from seeds.py after confirming it in a scratch copy:
it builds, passes the stable tests, and its demonstration fails with the change and passes without."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = "/tmp/seed"
mod = {}
exec(compile(open(os.path.join(HERE, "seeds.py")).read(), "seeds.py", "exec"), mod)

DEMO = '''#!/bin/bash
# exit 0: the behaviour is as it should be; non-zero: it is not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
typelalr = { path = "$repo" }
bumpalo = "3"
regex-syntax = "0.6"
EOF
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$w" || exit 3
cargo build --offline -q > "$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
ulimit -v 8000000
timeout 100 "$w/target/debug/demo" > "$w/out" 2> "$w/err"
rc=$?
tail -3 "$w/err"
exit $rc
'''

PRE = '''#![allow(unused)]
use bumpalo::Bump;
use regex_syntax::{hir::Hir, Parser, ParserBuilder};
use std::panic::{catch_unwind, AssertUnwindSafe};
use typelalr::{codegen, lalr::{first, item, table, Lalr}, lex::{dfa::*, lex::*, nfa::*}, parse_grammar, parser::{ast, Grammar, ParserSupport}};

fn hir(r: &str) -> Hir {
    Parser::new().parse(r).unwrap()
}
fn def(n: &str, r: &str, i: u32) -> (TokenDef, Hir) {
    (TokenDef { name: n.into(), with_val: true, token_idx: Some(i) }, hir(r))
}
fn tok(n: &str, v: &str) -> Token {
    Token::new_with_val(n.into(), v)
}
fn gen(g: &str) -> (String, String) {
    let b = Bump::new();
    let a = parse_grammar(&b, g);
    let l = Lalr::new(Grammar::grammar_from_ast_productions(&b, &a));
    codegen::parse_gen::generate(&b, &a, &l).unwrap()
}
fn parse(g: &str, i: &str) {
    let b = Bump::new();
    let a = parse_grammar(&b, g);
    Lalr::new(Grammar::grammar_from_ast_productions(&b, &a)).parse(i);
}
fn ok<F: FnOnce()>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_ok()
}

fn main() {
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "stable_passing", "tests", "passing"):
        if k in b:
            return b[k]
    return b


def tests(repo):
    env = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", RUST_BACKTRACE="0", CARGO_INCREMENTAL="1")
    r = sh("cargo test --workspace --offline 2>&1", cwd=repo, env=env)
    return r


def one(sid, s):
    repo = W + "/repo"
    for d in ("src", "ts"):
        shutil.rmtree(os.path.join(repo, d), ignore_errors=True)
        shutil.copytree("/repo/" + d, os.path.join(repo, d))
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit applies %d times: %s" % (t.count(old), old[:50])
        open(p, "w").write(t.replace(old, new))
    patch = sh("diff -u -r --label x --label x /repo/src %s/src; true" % repo)
    sh("git -C %s add -A" % repo)
    patch = subprocess.run(["git", "-C", repo, "diff", "--cached", "HEAD"], stdout=subprocess.PIPE, text=True).stdout
    if not patch:
        return "no change"
    r = tests(repo)
    failed = [l for l in r.stdout.split("\n") if l.startswith("test ") and "FAILED" in l]
    if "error: could not compile" in r.stdout:
        return "does not compile\n" + r.stdout[-1500:]
    st = s.get("flaky", [])
    failed = [f for f in failed if not any(x in f for x in st)]
    if failed:
        return "tests fail: %s" % failed
    d = os.path.join(W, "demo")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    if s.get("demo"):
        open(d + "/demo.rs", "w").write(PRE + s["demo"].strip("\n") + "\n}\n" + s.get("items", ""))
    for n, x in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(x)
    bad = sh("bash %s/demo.sh" % d, cwd=repo)
    good = sh("bash %s/demo.sh" % d, cwd="/repo")
    if bad.returncode in (0, 3) or good.returncode != 0:
        return "demo: with the change %d, without %d\n%s\n--\n%s" % (bad.returncode, good.returncode, bad.stdout[-900:], good.stdout[-900:])
    out = os.path.join(ROOT, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    open(out + "/patch.diff", "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    return None


def main():
    os.makedirs(W, exist_ok=True)
    repo = W + "/repo"
    shutil.rmtree(repo, ignore_errors=True)
    sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/" % (repo, repo))
    want = sys.argv[1:]
    for sid, s in mod["S"].items():
        if want and sid not in want or not want and os.path.exists(os.path.join(ROOT, "seeded", sid)):
            continue
        x = one(sid, s)
        print(sid, "kept" if x is None else "NOT KEPT: " + x)
        sys.stdout.flush()


main()
