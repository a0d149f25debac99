#!/usr/bin/env python3
"""Specifications of library functions of the number types that vstd has none for.
   python3 gen_ints.py > ints.rs"""
U = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}
S = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}
print("// generated by gen_ints.py\nuse vstd::prelude::*;\nuse vstd::arithmetic::power::pow;")
print("pub assume_specification<T>[core::convert::identity](x: T) -> (r: T)\n    ensures r == x,\n;")


def f(t, name, args, ret, ens, req=()):
    print("pub assume_specification[%s::%s](%s) -> (r: %s)" % (t, name, args, ret))
    if req:
        print("    requires %s," % ", ".join(req))
    print("    ensures %s,\n;" % ", ".join(ens))


for t, n in list(U.items()) + list(S.items()):
    s = t in S
    lo, hi, m = "%s::MIN" % t, "%s::MAX" % t, "0x1%s" % ("0" * (n // 4))
    two = "a: %s, b: %s" % (t, t)
    u = t.replace("i", "u") if s and t != "isize" else ("usize" if s else t)
    for op, sym in (("add", "+"), ("sub", "-")):
        e = "(a %s b)" % sym
        f(t, "overflowing_" + op, two, "(%s, bool)" % t,
          ["r.1 == !(%s <= %s <= %s)" % (lo, e, hi),
           "r.0 == (if %s > %s { %s - %s } else if %s < %s { %s + %s } else { %s })" % (e, hi, e, m, e, lo, e, m, e)])
    f(t, "overflowing_mul", two, "(%s, bool)" % t, ["r.1 == !(%s <= a * b <= %s)" % (lo, hi), "!r.1 ==> r.0 == a * b"])
    if s:
        for op, sym in (("add", "+"), ("sub", "-"), ("mul", "*")):
            e = "(a %s b)" % sym
            f(t, "saturating_" + op, two, t, ["r == (if %s > %s { %s as int } else if %s < %s { %s as int } else { %s })" % (e, hi, hi, e, lo, lo, e)])
        f(t, "wrapping_neg", "a: " + t, t, ["r == (if a == %s { a as int } else { -a })" % lo])
        f(t, "wrapping_abs", "a: " + t, t, ["r == (if a == %s || a >= 0 { a as int } else { -a })" % lo])
        f(t, "checked_neg", "a: " + t, "Option<%s>" % t, ["a == %s ==> r is None" % lo, "a != %s ==> r is Some && r->0 == -a" % lo])
        f(t, "checked_abs", "a: " + t, "Option<%s>" % t, ["a == %s ==> r is None" % lo, "a != %s ==> r is Some && r->0 == (if a < 0 { -a } else { a as int })" % lo])
        f(t, "unsigned_abs", "a: " + t, u, ["r == (if a < 0 { -a } else { a as int })"])
        f(t, "abs_diff", two, u, ["r == (if a < b { b - a } else { a - b })"])
        f(t, "signum", "a: " + t, t, ["r == (if a < 0 { -1int } else if a == 0 { 0int } else { 1int })"])
        f(t, "is_negative", "a: " + t, "bool", ["r == (a < 0)"])
        f(t, "is_positive", "a: " + t, "bool", ["r == (a > 0)"])
        no = ["b != 0", "!(a == %s && b == -1)" % lo]
    else:
        f(t, "wrapping_neg", "a: " + t, t, ["r == (if a == 0 { 0int } else { %s - a })" % m])
        f(t, "abs_diff", two, t, ["r == (if a < b { b - a } else { a - b })"])
        f(t, "is_power_of_two", "a: " + t, "bool", ["r == (a != 0 && (a & ((a - 1) as %s)) == 0)" % t])
        f(t, "div_ceil", two, t, ["r == (a + b - 1) / (b as int)"], ["b != 0"])
        f(t, "next_multiple_of", two, t, ["r == ((a + b - 1) / (b as int)) * b"], ["b != 0", "((a + b - 1) / (b as int)) * b <= " + hi])
        no = ["b != 0"]
    f(t, "rem_euclid", two, t, ["r == (a as int) % (b as int)"], no)
    f(t, "div_euclid", two, t, ["r == (a as int) / (b as int)"], no)
    f(t, "checked_pow", "a: %s, e: u32" % t, "Option<%s>" % t,
      ["r is Some == (%s <= pow(a as int, e as nat) <= %s)" % (lo, hi), "r is Some ==> r->0 == pow(a as int, e as nat)"])
    f(t, "checked_shl", "a: %s, k: u32" % t, "Option<%s>" % t, ["r is Some == (k < %d)" % n, "r is Some ==> r->0 == a << k"])
    f(t, "checked_shr", "a: %s, k: u32" % t, "Option<%s>" % t, ["r is Some == (k < %d)" % n, "r is Some ==> r->0 == a >> k"])
    if not s and n > 8:
        for o in ("le", "be"):
            k = [8 * i for i in range(n // 8)]
            k = k[::-1] if o == "be" else k
            print("pub fn %s_to_%s_bytes(a: %s) -> (r: [u8; %d])\n    ensures r@ == seq![%s],\n{ [%s] }" % (
                t, o, t, n // 8, ", ".join("(a >> %d) as u8" % i for i in k), ", ".join("(a >> %d) as u8" % i for i in k)))

low, up, dig = "(97 <= %s <= 122)", "(65 <= %s <= 90)", "(48 <= %s <= 57)"


def ascii(t, v):
    l, u, d = low % v, up % v, dig % v
    g = "(33 <= %s <= 126)" % v
    for name, e in [("is_ascii", "%s < 128" % v), ("is_ascii_lowercase", l), ("is_ascii_uppercase", u), ("is_ascii_alphabetic", "%s || %s" % (l, u)),
                    ("is_ascii_alphanumeric", "%s || %s || %s" % (l, u, d)), ("is_ascii_graphic", g), ("is_ascii_control", "%s < 32 || %s == 127" % (v, v)),
                    ("is_ascii_hexdigit", "%s || (97 <= %s <= 102) || (65 <= %s <= 70)" % (d, v, v)),
                    ("is_ascii_punctuation", "%s && !%s && !%s && !%s" % (g, l, u, d)),
                    ("is_ascii_whitespace", "%s == 32 || %s == 9 || %s == 10 || %s == 12 || %s == 13" % (v, v, v, v, v))]:
        f(t, name, "c: &" + t, "bool", ["r == (%s)" % e])


ascii("u8", "*c")
ascii("char", "(*c as u32)")
f("char", "is_ascii_digit", "c: &char", "bool", ["r == (%s)" % (dig % "(*c as u32)")])
f("u8", "to_ascii_lowercase", "c: &u8", "u8", ["r == (if %s { *c + 32 } else { *c as int })" % (up % "*c")])
f("u8", "to_ascii_uppercase", "c: &u8", "u8", ["r == (if %s { *c - 32 } else { *c as int })" % (low % "*c")])
