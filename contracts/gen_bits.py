#!/usr/bin/env python3
"""Writes bits.rs: what masks and shifts by constants mean arithmetically, proved by the
solver's bit-vector theory and used automatically wherever the terms occur."""
out = ["// generated by gen_bits.py", "use vstd::prelude::*;"]
names = []

def lemma(name, params, req, trig, ens, bv=None):
    names.append(name)
    r = f"    requires {req},\n" if req else ""
    breq = f" requires {bv if bv is not None else req}" if req else ""
    out.append(f"pub broadcast proof fn {name}({params})\n{r}    ensures #[trigger] ({trig}) == {ens},\n"
               f"{{ assert(({trig}) == {ens}) by(bit_vector){breq}; }}")

W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
for t, w in W.items():
    for k in [1, 2, 3, 4, 5, 6, 7, 8, 16, 24]:
        if k >= w:
            continue
        p = 1 << k
        lim = (1 << (w - k))
        lemma(f"shl_{t}_{k}", f"v: {t}", f"v < {lim}{t}", f"v << {k}", f"v * {p}")
        lemma(f"shr_{t}_{k}", f"v: {t}", "", f"v >> {k}", f"v / {p}")
        lemma(f"low_{t}_{k}", f"v: {t}", "", f"v & {p - 1}", f"v % {p}")
    for k in range(0, 8):
        p = 1 << k
        lemma(f"bit_{t}_{k}", f"v: {t}", "", f"v & {p}", f"(v / {p}) % 2 * {p}") if k > 0 else None
    for k in ([7, 8] if w > 8 else []) + ([16] if w > 16 else []) + ([24] if w > 24 else []):
        p = 1 << k
        lemma(f"or_{t}_{k}", f"v: {t}, b: {t}", f"v % {p} == 0, b < {p}", "v | b", "v + b")
for t, w in W.items():
    # a power of two by a computed amount: its value for every amount there is
    ks = [k for k in range(w)]
    names.append(f"one_{t}")
    vals = ", ".join(f"n == {k} ==> (1{t} << n) == {1 << k}{t}" for k in ks)
    out.append(f"pub broadcast proof fn one_{t}(n: u64)\n    requires n < {w},\n    ensures " + vals.replace(f"(1{t} << n)", f"#[trigger] (1{t} << n)", 1)
               + ",\n{ " + "assert(" + " && ".join(f"(1{t} << {k}u64) == {1 << k}{t}" for k in ks) + ") by(bit_vector); }")
lemma("or_u32_5", "v: u8, b: u8", "v % 32 == 0, b < 32", "v | b", "v + b")
for m in [0xC0, 0xE0, 0xF0, 0x60]:
    p = m & -m
    n = m // p + 1
    lemma(f"mask_u8_{m}", "v: u8", "", f"v & {m}", f"(v / {p}) % {n} * {p}")
for t, w in {"i32": 32, "i64": 64}.items():
    for k in [8, 16, 24]:
        p = 1 << k
        lim = 1 << (w - k - 1)
        lemma(f"shl_{t}_{k}", f"v: {t}", f"-{lim} <= v < {lim}", f"v << {k}", f"v * {p}", f"-{lim}{t} <= v < {lim}{t}")
    for k in [8, 16, 24]:
        p = 1 << k
        lemma(f"or_{t}_{k}", f"v: {t}, b: {t}", f"(v as int) % {p} == 0, 0 <= b < {p}", "v | b", "v + b", f"v % {p} == 0, 0{t} <= b < {p}{t}")
for t in ["i32", "i64"]:
    for k in [8, 16, 24]:
        # an arithmetic shift rounds down
        p = 1 << k
        names.append(f"shr_{t}_{k}")
        out.append(f"pub broadcast proof fn shr_{t}_{k}(v: {t})\n    ensures #[trigger] (v >> {k}) == v as int / {p},\n"
                   f"{{ let w = v >> {k}; assert(w * {p} <= v && v - w * {p} < {p} && w >= {-(1 << (63 if t == 'i64' else 31)) // p} && w <= {(1 << (63 if t == 'i64' else 31)) // p}) by(bit_vector) requires w == v >> {k}; }}")
def cast(a, b, val, bv=None):
    n = f"cast_{a}_{b}"
    names.append(n)
    out.append(f"pub broadcast proof fn {n}(v: {a})\n    ensures #[trigger] (v as {b}) == ({val}),\n{{ assert((v as {b}) == ({val})) by(bit_vector); }}")

for w in (8, 16, 32, 64):
    cast(f"u{w}", f"i{w}", f"if v < {1 << (w - 1):#x} {{ v as int }} else {{ v - {1 << w:#x} }}")
    cast(f"i{w}", f"u{w}", f"if v >= 0 {{ v as int }} else {{ v + {1 << w:#x} }}")
for a in (16, 32, 64):
    for b in (8, 16, 32):
        if b < a:
            cast(f"u{a}", f"u{b}", f"v % {1 << b:#x}")
out.append("pub broadcast group group_bits {\n    " + ",\n    ".join(names) + ",\n}")
open(__file__.replace("gen_bits.py", "bits.rs"), "w").write("\n".join(out) + "\n")
