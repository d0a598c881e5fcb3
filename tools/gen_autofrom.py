#!/usr/bin/env python3
"""Writes concrete/vr/src/fixtures.rs: types for the AutoFrom derive and, for each, the expected conversion.
Deterministic; the output is committed."""
import random, os
R = random.Random(20261118)
KINDS = ["plain", "same", "vec", "opt", "box", "stdvec", "stdopt", "stdbox", "tuple", "array", "nested", "str"]
# kind -> (source type, target type, source expr from k, target expr from k)
def ty(kind, i):
    return {
        "plain": ("u64", "W", f"val(k, {i})", f"W(val(k, {i}))"),
        "same": ("u64", "u64", f"val(k, {i})", f"val(k, {i})"),
        "vec": ("Vec<u64>", "Vec<W>", f"vals(k, {i})", f"vals(k, {i}).into_iter().map(W).collect()"),
        "opt": ("Option<u64>", "Option<W>", f"opt(k, {i})", f"opt(k, {i}).map(W)"),
        "box": ("Box<u64>", "Box<W>", f"Box::new(val(k, {i}))", f"Box::new(W(val(k, {i})))"),
        "stdvec": ("std::vec::Vec<u64>", "Vec<W>", f"vals(k, {i})", f"vals(k, {i}).into_iter().map(W).collect()"),
        "stdopt": ("::std::option::Option<u64>", "Option<W>", f"opt(k, {i})", f"opt(k, {i}).map(W)"),
        "stdbox": ("std::boxed::Box<u64>", "Box<W>", f"Box::new(val(k, {i}))", f"Box::new(W(val(k, {i})))"),
        "tuple": ("(u64, u64)", "(u64, u64)", f"(val(k, {i}), val(k, {i}) ^ 1)", f"(val(k, {i}), val(k, {i}) ^ 1)"),
        "array": ("[u64; 3]", "[u64; 3]", f"[val(k, {i}), 7, val(k, {i}) ^ 3]", f"[val(k, {i}), 7, val(k, {i}) ^ 3]"),
        "nested": ("Inner", "InnerT", f"Inner {{ a: val(k, {i}), b: vals(k, {i}) }}", f"InnerT {{ b: vals(k, {i}).into_iter().map(W).collect(), a: W(val(k, {i})) }}"),
        "str": ("String", "S", f"val(k, {i}).to_string()", f"S(val(k, {i}).to_string())"),
    }[kind]
o, tests, ver = [], [], []
# what a field becomes, as a specification: (forward, backward)
def sp(kind, e):
    return {
        "plain": (f"W({e})", f"{e}.0"), "same": (e, e), "tuple": (e, e), "array": (e, e),
        "vec": (f"mapped::<u64, W>({e})", f"mapped::<W, u64>({e})"),
        "opt": (f"(match {e} {{ Some(x) => Some(W(x)), None => None }})", f"(match {e} {{ Some(x) => Some(x.0), None => None }})"),
        "box": (f"Box::new(W(*{e}))", f"Box::new((*{e}).0)"),
        "nested": (f"Inner_InnerT({e})", f"InnerT_Inner({e})"), "str": (f"S({e})", f"{e}.0"),
    }[kind.replace("std", "")]
def vspec(a, b, fwd, bwd):
    """spec impls: a -> b by fwd(v), b -> a by bwd(v), and through the wrappers"""
    n = f"{a}_{b}"
    ver.append(f"pub open spec fn {n}(v: {a}) -> {b} {{ {fwd} }}\npub open spec fn {b}_{a}(v: {b}) -> {a} {{ {bwd} }}")
    def im(src, dst, body, k):
        g = "<" + ", ".join(f"const G{i}: u16" for i in range(k)) + ">" if k else ""
        ver.append(f"impl{g} FromSpecImpl<{src}> for {dst} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(v: {src}) -> Self {{ {body} }} }}")
    im(a, b, f"{n}(v)", 0); im(b, a, f"{b}_{a}(v)", 0)
    t = b
    for k in range(1, 5):
        t = f"Versioned<{t}, G{k-1}>"
        im(a, t, f"w{k}::<{b}, " + ", ".join(f"G{i}" for i in range(k)) + f">({n}(v))", k)
        im(t, a, f"{b}_{a}(v" + ".t" * k + ")", k)
def name(i): return R.choice(["a", "f", "field_", "vec", "option", "item", "zz", "r#type_" if False else "t_", "v", "other_"]) + str(i)
def fields(n, kinds=None):
    fs, used = [], set()
    for i in range(n):
        while True:
            nm = name(R.randrange(40))
            if nm not in used: used.add(nm); break
        fs.append((nm, R.choice(kinds or KINDS), i))
    return fs
SP = ["type", "match", "fn", "self_", "item", "other", "t", "v0", "v1", "v2", "v10"]
def raw(n): return "r#" + n if n in ("type", "match", "fn") else n
def struct_named(q, fs):
    ts = fs[:]; R.shuffle(ts); us = fs[:]; R.shuffle(us)
    o.append(f"#[derive(Debug, Clone, PartialEq, AutoFrom)]\n#[auto_from(T{q})]\n#[auto_from(m{q}::U{q})]\npub struct S{q} {{ " + ", ".join(f"pub {n}: {ty(k,i)[0]}" for n, k, i in fs) + " }")
    o.append(f"#[derive(Debug, Clone, PartialEq)]\npub struct T{q} {{ " + ", ".join(f"pub {n}: {ty(k,i)[1]}" for n, k, i in ts) + " }")
    o.append(f"pub mod m{q} {{ use super::*; #[derive(Debug, Clone, PartialEq)]\npub struct U{q} {{ " + ", ".join(f"pub {n}: {ty(k,i)[1]}" for n, k, i in us) + " } }")
    s = f"S{q} {{ " + ", ".join(f"{n}: {ty(k,i)[2]}" for n, k, i in fs) + " }"
    t = f"T{q} {{ " + ", ".join(f"{n}: {ty(k,i)[3]}" for n, k, i in ts) + " }"
    u = f"m{q}::U{q} {{ " + ", ".join(f"{n}: {ty(k,i)[3]}" for n, k, i in us) + " }"
    ver.append(f"pub struct S{q} {{ " + ", ".join(f"pub {n}: {ty(k,i)[0]}" for n, k, i in fs) + " }")
    for x in "TU":
        ver.append(f"pub struct {x}{q} {{ " + ", ".join(f"pub {n}: {ty(k,i)[1]}" for n, k, i in fs) + " }")
        vspec(f"S{q}", f"{x}{q}", f"{x}{q} {{ " + ", ".join(f"{n}: {sp(k, 'v.' + n)[0]}" for n, k, i in fs) + " }", f"S{q} {{ " + ", ".join(f"{n}: {sp(k, 'v.' + n)[1]}" for n, k, i in fs) + " }")
    tests.append(f"pub fn s{q}(k: u64) -> Result<String, String> {{ both::<S{q}, T{q}>({s}, {t})?; both::<S{q}, m{q}::U{q}>({s}, {u}) }}")
def struct_unnamed(q, fs):
    o.append(f"#[derive(Debug, Clone, PartialEq, AutoFrom)]\n#[auto_from(T{q})]\npub struct S{q}(" + ", ".join(f"pub {ty(k,i)[0]}" for n, k, i in fs) + ");")
    o.append(f"#[derive(Debug, Clone, PartialEq)]\npub struct T{q}(" + ", ".join(f"pub {ty(k,i)[1]}" for n, k, i in fs) + ");")
    s = f"S{q}(" + ", ".join(ty(k,i)[2] for n, k, i in fs) + ")"
    t = f"T{q}(" + ", ".join(ty(k,i)[3] for n, k, i in fs) + ")"
    for x, z in ("S", 0), ("T", 1):
        ver.append(f"pub struct {x}{q}(" + ", ".join(f"pub {ty(k,i)[z]}" for n, k, i in fs) + ");")
    vspec(f"S{q}", f"T{q}", f"T{q}(" + ", ".join(sp(k, f"v.{j}")[0] for j, (n, k, i) in enumerate(fs)) + ")", f"S{q}(" + ", ".join(sp(k, f"v.{j}")[1] for j, (n, k, i) in enumerate(fs)) + ")")
    tests.append(f"pub fn s{q}(k: u64) -> Result<String, String> {{ both::<S{q}, T{q}>({s}, {t}) }}")
def enum(q, n):
    vs, used, c = [], set(), 0
    for j in range(n):
        while True:
            vn = R.choice(["A", "Some_", "Vec", "Option", "V", "Z", "Item"]) + str(R.randrange(60))
            if vn not in used: used.add(vn); break
        shape = R.choice(["unit", "unnamed", "unnamed", "named", "named"])
        nf = 0 if shape == "unit" else R.choice([1, 1, 2, 3, 5, 12])
        vs.append((vn, shape, [(a, b, i + 3 * j) for a, b, i in fields(nf)]))
    ts = vs[:]; R.shuffle(ts)
    def decl(v, side, shuf):
        vn, sh, fs = v
        if sh == "unit": return vn
        if sh == "unnamed": return f"{vn}(" + ", ".join(ty(k,i)[side] for _, k, i in fs) + ")"
        fs = fs[:]
        if shuf: R.shuffle(fs)
        return f"{vn} {{ " + ", ".join(f"{a}: {ty(k,i)[side]}" for a, k, i in fs) + " }"
    def val(e, v, side):
        vn, sh, fs = v
        if sh == "unit": return f"{e}::{vn}"
        if sh == "unnamed": return f"{e}::{vn}(" + ", ".join(ty(k,i)[side] for _, k, i in fs) + ")"
        return f"{e}::{vn} {{ " + ", ".join(f"{a}: {ty(k,i)[side]}" for a, k, i in fs) + " }"
    o.append(f"#[derive(Debug, Clone, PartialEq, AutoFrom)]\n#[auto_from(T{q})]\npub enum S{q} {{ " + ", ".join(decl(v, 0, False) for v in vs) + " }")
    o.append(f"#[derive(Debug, Clone, PartialEq)]\npub enum T{q} {{ " + ", ".join(decl(v, 1, True) for v in ts) + " }")
    ver.append(f"pub enum S{q} {{ " + ", ".join(decl(v, 0, False) for v in vs) + " }")
    ver.append(f"pub enum T{q} {{ " + ", ".join(decl(v, 1, False) for v in vs) + " }")
    def arm(a, b, v, z):
        vn, sh, fs = v
        if sh == "unit": return f"{a}::{vn} => {b}::{vn}"
        if sh == "unnamed": return f"{a}::{vn}(" + ", ".join(f"x{j}" for j in range(len(fs))) + f") => {b}::{vn}(" + ", ".join(sp(f[1], f"x{j}")[z] for j, f in enumerate(fs)) + ")"
        return f"{a}::{vn} {{ " + ", ".join(f"{f[0]}: x{j}" for j, f in enumerate(fs)) + f" }} => {b}::{vn} {{ " + ", ".join(f"{f[0]}: {sp(f[1], f'x{j}')[z]}" for j, f in enumerate(fs)) + " }"
    vspec(f"S{q}", f"T{q}", "match v { " + ", ".join(arm(f"S{q}", f"T{q}", v, 0) for v in vs) + " }", "match v { " + ", ".join(arm(f"T{q}", f"S{q}", v, 1) for v in vs) + " }")
    arms = " ".join(f"{j} => both::<S{q}, T{q}>({val('S'+str(q), v, 2)}, {val('T'+str(q), v, 3)})," for j, v in enumerate(vs))
    tests.append(f"pub fn s{q}(k: u64) -> Result<String, String> {{ match k % {len(vs)} {{ {arms} _ => unreachable!() }} }}")
q = 0
for k in KINDS: struct_named(q, fields(1, [k])); q += 1
for k in KINDS: struct_unnamed(q, fields(1, [k])); q += 1
for k in ["same", "plain", "vec", "opt", "box"]: struct_named(q, fields(14, [k])); q += 1
for k in ["same", "plain", "vec", "opt", "box"]: struct_unnamed(q, fields(14, [k])); q += 1
for n in [2, 3, 4, 5, 7, 9, 12, 18, 26]: struct_named(q, fields(n)); q += 1
for n in [2, 3, 4, 6, 9, 11, 13, 22]: struct_unnamed(q, fields(n)); q += 1
for n in [1, 2, 3, 4, 6, 8, 11, 16, 25]: enum(q, n); q += 1
# the ones below also go through the verifier
o1, q1 = o[:], q
o.clear(); ver.clear()
def mixed(): # every kind once, in a random order
    ks = KINDS[:]; R.shuffle(ks)
    return [(n, k, i) for k, (n, _, i) in zip(ks, fields(len(ks)))]
struct_named(q, fields(1, ["vec"])); q += 1
struct_named(q, fields(3, ["plain"])); q += 1
struct_named(q, mixed()); q += 1
struct_named(q, mixed() + [("x_last", "vec", 12), ("a_last", "same", 13)]); q += 1
struct_named(q, [(raw(s), KINDS[i], i) for i, s in enumerate(SP)]); q += 1
struct_unnamed(q, fields(1, ["opt"])); q += 1
struct_unnamed(q, mixed()); q += 1
struct_unnamed(q, mixed() + mixed()); q += 1
for n in [1, 5, 9]: enum(q, n); q += 1
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "// written by tools/gen_autofrom.py\n#![allow(clippy::all, dead_code, unused_imports, non_camel_case_types, non_snake_case)]\n"
tests.append("pub const FIX: &[(&str, fn(u64) -> Result<String, String>)] = &[" + ", ".join(f'("S{i}", s{i})' for i in range(q)) + "];")
TYPES = """use mina_serialization_types_macros::AutoFrom;
#[derive(Debug, Clone, PartialEq)]
pub struct W(pub u64);
impl From<u64> for W { fn from(v: u64) -> Self { W(v) } }
impl From<W> for u64 { fn from(v: W) -> Self { v.0 } }
#[derive(Debug, Clone, PartialEq)]
pub struct S(pub String);
impl From<String> for S { fn from(v: String) -> Self { S(v) } }
impl From<S> for String { fn from(v: S) -> Self { v.0 } }
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(InnerT)]
pub struct Inner { pub a: u64, pub b: Vec<u64> }
#[derive(Debug, Clone, PartialEq)]
pub struct InnerT { pub b: Vec<W>, pub a: W }
"""
# the types: compiled into the probe, and alone (lib target `af`) for the text the derive generates
open(H + "/concrete/vr/src/af.rs", "w").write(HEAD + "#![cfg(feature = \"full\")]\n" + TYPES + "\n".join(o1 + o) + "\n")
open(H + "/concrete/vr/src/afx.rs", "w").write(HEAD + TYPES + "\n".join(o) + "\nfn main() {}\n")
open(H + "/concrete/vr/src/fixtures.rs", "w").write(HEAD + "use af::*;\nuse crate::lib_::*;\n" + "\n".join(tests) + "\n")
inner = []
ver, inner = inner, ver
vspec("Inner", "InnerT", "InnerT { a: W(v.a), b: mapped::<u64, W>(v.b) }", "Inner { a: v.a.0, b: mapped::<W, u64>(v.b) }")
ver, inner = inner, ver
subs = "".join(f"//@sub m{i} :: U{i} =>> U{i}\n" for i in range(q1, q))
open(H + "/verus/part_autofrom.rs", "w").write("// written by tools/gen_autofrom.py\n" + "\n".join(inner + ver) + "\n" + subs)
