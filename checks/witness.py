"""Compile-fail witnesses: declarations the derive macros must refuse, each next to a near-identical one they accept."""
import json
import os
import shutil
import subprocess
import tempfile

from .xcut import PKGS, repo_root

PRE = """#![allow(dead_code, unused_imports)]
use core::mem::size_of;
use safe_discriminant::Discriminant;
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
use tpm2_rs_marshalable::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};
fn coded<T: Marshalable>() {}
fn sized<T: Marshalable + Tpm2bSimple>() {}
fn wraps<T: Tpm2bStruct>() {}
#[derive(Clone, Copy, Default, Marshalable)]
pub struct Inner { pub a: u32, pub b: u16 }
"""
D = "#[derive(Clone, Copy, Marshalable)]\n"
S = D + "#[marshalable(tpm2b_simple)]\n"
E = "#[repr(C, u16)]\n#[derive(Clone, Copy, Discriminant, Marshalable)]\n"
W = "#[derive(Clone, Copy, Marshalable, Tpm2bStruct)]\n#[marshalable(tpm2b_simple)]\n"
USE = {"c": "fn main() { coded::<T>(); }\n", "s": "fn main() { sized::<T>(); }\n", "w": "fn main() { sized::<T>(); wraps::<T>(); }\n"}
LIST = D + "pub struct T { pub count: u16, #[marshalable(length=count)] pub items: [Inner; 4] }\n"
ENUM = E + "pub enum T { A(u32) = 1, B(Inner) = 2 }\n"
BUF = S + "pub struct T { size: u16, buffer: [u8; 8] }\n"
WRAP = W + "pub struct T { size: u16, buffer: [u8; size_of::<Inner>()] }\n"

# (name, what must not compile, kind of use, refused, accepted counterpart)
CASES = [
    ("union", "a union", "c", D + "pub union T { a: u32, b: u16 }\n", D + "pub struct T { a: u32, b: u16 }\n"),
    ("field", "a field that has no codec of its own", "c", D + "pub struct T { pub a: u32, pub b: f32 }\n", D + "pub struct T { pub a: u32, pub b: i32 }\n"),
    ("variant-named", "an enum variant with named fields", "c", E + "pub enum T { A(u32) = 1, B { a: u32, b: u16 } = 2 }\n", ENUM),
    ("selector-missing", "an enum variant without an explicit selector", "c", E + "pub enum T { A(u32) = 1, B(Inner) }\n", ENUM),
    ("selector-first", "an enum whose first variant has no explicit selector", "c", E + "pub enum T { A(u32), B(Inner) = 2 }\n", ENUM),
    ("selector-own", "an enum variant without an explicit selector, with a hand-written discriminant", "c",
     "#[repr(C, u16)]\n#[derive(Clone, Copy, Marshalable)]\npub enum T { A(u32) = 1, B(Inner) }\nunsafe impl Discriminant for T { type Repr = u16; }\n",
     "#[repr(C, u16)]\n#[derive(Clone, Copy, Marshalable)]\npub enum T { A(u32) = 1, B(Inner) = 2 }\nunsafe impl Discriminant for T { type Repr = u16; }\n"),
    ("repr", "an enum without a primitive representation", "c",
     "#[derive(Clone, Copy, Marshalable)]\npub enum T { A(u32) = 1, B(Inner) = 2 }\n", ENUM),
    ("payload", "an enum variant whose payload has no codec", "c", E + "pub enum T { A(u32) = 1, B(f64) = 2 }\n", ENUM),
    ("length-scalar", "a length attribute on a field that is no array", "c",
     D + "pub struct T { pub count: u16, #[marshalable(length=count)] pub items: Inner }\n", LIST),
    ("length-late", "a length field that follows the array it counts", "c",
     D + "pub struct T { #[marshalable(length=count)] pub items: [Inner; 4], pub count: u16 }\n", LIST),
    ("length-unknown", "a length attribute naming no field", "c",
     D + "pub struct T { pub count: u16, #[marshalable(length=number)] pub items: [Inner; 4] }\n", LIST),
    ("length-array", "a length attribute naming an array", "c",
     D + "pub struct T { pub count: [u8; 2], #[marshalable(length=count)] pub items: [Inner; 4] }\n", LIST),
    ("length-struct", "a length attribute naming a structure", "c",
     D + "pub struct T { pub count: Inner, #[marshalable(length=count)] pub items: [Inner; 4] }\n", LIST),
    ("attribute-key", "a misspelt attribute on a field", "c",
     D + "pub struct T { pub count: u16, #[marshalable(lenght=count)] pub items: [Inner; 4] }\n", LIST),
    ("attribute-key-scalar", "an unknown attribute on a scalar field", "c",
     D + "pub struct T { #[marshalable(width=count)] pub count: u16, pub items: [Inner; 4] }\n", LIST),
    ("attribute-word", "an attribute without a value on an array field", "c",
     D + "pub struct T { pub count: u16, #[marshalable(length)] pub items: [Inner; 4] }\n", LIST),
    ("attribute-twice", "two attributes on one field", "c",
     D + "pub struct T { pub count: u16, pub number: u16, #[marshalable(length=count)] #[marshalable(length=number)] pub items: [Inner; 4] }\n", LIST),
    ("length-literal", "a literal in place of the length field", "c",
     D + "pub struct T { pub count: u16, #[marshalable(length=2)] pub items: [Inner; 4] }\n", LIST),
    ("length-expr", "an expression in place of the length field", "c",
     D + "pub struct T { pub count: u16, #[marshalable(length=count+1)] pub items: [Inner; 4] }\n", LIST),
    ("length-path", "a path in place of the length field", "c",
     D + "pub struct T { pub count: u16, #[marshalable(length=Self::COUNT)] pub items: [Inner; 4] }\nimpl T { pub const COUNT: u16 = 2; }\n", LIST),
    ("2b-three", "a sized buffer with a third field", "s", S + "pub struct T { size: u16, buffer: [u8; 8], extra: u16 }\n", BUF),
    ("2b-one", "a sized buffer without its array", "s", S + "pub struct T { size: u16 }\n", BUF),
    ("2b-name", "a sized buffer whose first field is not its size", "s", S + "pub struct T { length: u16, buffer: [u8; 8] }\n", BUF),
    ("2b-u32", "a sized buffer with a 32-bit size", "s", S + "pub struct T { size: u32, buffer: [u8; 8] }\n", BUF),
    ("2b-u8", "a sized buffer with an 8-bit size", "s", S + "pub struct T { size: u8, buffer: [u8; 8] }\n", BUF),
    ("2b-order", "a sized buffer whose array precedes its size", "s", S + "pub struct T { buffer: [u8; 8], size: u16 }\n", BUF),
    ("2b-words", "a sized buffer of 16-bit words", "s", S + "pub struct T { size: u16, buffer: [u16; 8] }\n", BUF),
    ("2b-scalar", "a sized buffer without an array", "s", S + "pub struct T { size: u16, buffer: u64 }\n", BUF),
    ("2b-tuple", "a sized buffer written as a tuple", "s", S + "pub struct T(u16, [u8; 8]);\n", BUF),
    ("2b-enum", "an enum declared as a sized buffer", "s",
     "#[repr(C, u16)]\n#[derive(Clone, Copy, Discriminant, Marshalable)]\n#[marshalable(tpm2b_simple)]\npub enum T { A(u32) = 1 }\n", BUF),
    ("wrap-plain", "a structure wrapper whose capacity names no structure", "w", W + "pub struct T { size: u16, buffer: [u8; 8] }\n", WRAP),
    ("wrap-call", "a structure wrapper sized by another function", "w",
     "const fn room<X>() -> usize { size_of::<X>() }\n" + W + "pub struct T { size: u16, buffer: [u8; room::<Inner>()] }\n", WRAP),
    ("wrap-uncoded", "a wrapper of a structure that has no codec", "w",
     "#[derive(Clone, Copy)]\npub struct Raw { a: u32 }\n" + W + "pub struct T { size: u16, buffer: [u8; size_of::<Raw>()] }\n", WRAP),
    ("wrap-enum", "an enum declared as a structure wrapper", "w",
     "#[repr(C, u16)]\n#[derive(Clone, Copy, Discriminant, Marshalable, Tpm2bStruct)]\npub enum T { A(u32) = 1 }\n", WRAP),
    ("wrap-extra", "a structure wrapper with a third field", "w",
     W + "pub struct T { size: u16, buffer: [u8; size_of::<Inner>()], extra: u8 }\n", WRAP),
]


def compile_all():
    """{target: [messages of its errors]} for every declaration, or None with the reason"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    root = repo_root()
    w = tempfile.mkdtemp(prefix="vp-wit.")
    try:
        os.makedirs(w + "/src/bin")
        for nm, _, use, bad, good in CASES:
            open(f"{w}/src/bin/bad-{nm}.rs", "w").write(PRE + bad + USE[use])
            open(f"{w}/src/bin/good-{nm}.rs", "w").write(PRE + good + USE[use])
        dep = "".join(f'{p} = {{ path = "{root}/{PKGS[p]}" }}\n' for p in ("tpm2-rs-marshalable", "tpm2-rs-base"))
        open(w + "/Cargo.toml", "w").write(
            '[package]\nname = "vp-witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nsafe-discriminant = "0.2.0"\n' + dep)
        shutil.copy(os.path.join(here, "probe", "Cargo.lock"), w + "/Cargo.lock")
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER"):
            env.pop(k, None)
        env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
        r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json", "--manifest-path", w + "/Cargo.toml",
                            "--target-dir", w + "/t"], env=env, capture_output=True, text=True, timeout=800)
        errs, done = {}, set()
        for ln in r.stdout.splitlines():
            try:
                m = json.loads(ln)
            except ValueError:
                continue
            t = (m.get("target") or {}).get("name")
            if m.get("reason") == "compiler-message" and m["message"].get("level", "").startswith("error"):
                if "vp-witness" not in m.get("package_id", ""):
                    return None, "the crates do not compile: " + m["message"]["message"][:200]
                errs.setdefault(t, []).append(m["message"]["message"])
            elif m.get("reason") == "compiler-artifact" and t:
                done.add(t)
        return (errs, done), r.stderr[-300:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def D01(res, tier):
    got, why = compile_all()
    if got is None:
        res.und("build", why)
        got = ({}, set())
    errs, done = got
    for nm, what, _, _, _ in CASES:
        b, g = "bad-" + nm, "good-" + nm
        where = "marshalable-derive/src/lib.rs"
        if g in errs:
            res.bad(f"refused:{nm}", f"a well-formed declaration (the counterpart of {what}) is refused: {errs[g][0][:160]}", where)
        elif g not in done:
            res.und(g, "not compiled")
            continue
        else:
            res.n("accepted declarations")
        if b in errs:
            res.n("refused declarations")
            res.funcs.add(f"{what}: {errs[b][0][:120]}")
        elif b in done:
            res.bad(f"accepted:{nm}", f"the derive macros accept {what}", where)
        else:
            res.und(b, "not compiled")
    return dict(rule="compile-fail witnesses: each declaration outside the documented forms must be a compile error when the derived codec is "
                "requested, and the declaration that differs from it only in that respect must compile",
                assumptions=["the witnesses stand for their class of declaration"],
                floors={"refused declarations": 30, "accepted declarations": 30})
