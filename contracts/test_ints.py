#!/usr/bin/env python3
"""Holds every assumed specification of ints.rs against the library itself: all values of the
   8-bit types, the boundaries and their neighbours of the wider ones, with the mathematical
   integers of the specification in i128.   python3 test_ints.py   (exit 0: all agree)"""
import os, re, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
text = open(os.path.join(here, "ints.rs")).read()
text = re.sub(r"0x1(0+)\b", lambda m: "(1i128 << %d)" % (4 * len(m.group(1))), text)
pat = re.compile(r"pub assume_specification\[(\w+)::(\w+)\]\(([^)]*)\) -> \(r: ([^;]*?)\)\n(?:    requires (.*?),\n)?    ensures (.*?),\n;", re.S)
ALL = {t: 1 for t in "u8 u16 u32 u64 usize i8 i16 i32 i64 isize char".split()}


def top(s):
    """the conjuncts of a list separated by commas outside brackets"""
    out, d, cur = [], 0, ""
    for c in s:
        d += c in "([{"
        d -= c in ")]}"
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return [x for x in out + [cur.strip()] if x]


def expr(e, t, shift):
    if "==>" in e:
        a, b = e.split("==>", 1)
        return "(!(%s) || (%s))" % (expr(a, t, shift), expr(b, t, shift))
    e = re.sub(r"(.*?) is (Some|None)\b", lambda m: m.group(1) + (".is_some()" if m.group(2) == "Some" else ".is_none()"), e)
    e = e.replace("r->0", "r.unwrap()" if shift else "W(r.unwrap())").replace("as int", "as i128").replace("1int", "1i128").replace("0int", "0i128")
    if shift:
        return e
    e = re.sub(r"\b([iu]\d+|[iu]size)::(MIN|MAX)\b", r"(\1::\2 as i128)", e)
    e = re.sub(r"pow\(a as i128, e as nat\)", "P(a, e)", e)
    e = re.sub(r"(\S+) <= (P\(a, e\)|a \* b|\(a [+-] b\)) <= (\([^)]*\))", r"(\1 <= \2 && \2 <= \3)", e)
    e = re.sub(r"\((\d+) <= (\*c|\(\*c as u32\)) <= (\d+)\)", r"(\1 <= \2 && \2 <= \3)", e)
    return e


def conv(e):
    e = e.replace("W(r.unwrap())", "(r.unwrap() as i128)")
    return e


body, n = [], 0
for m in pat.finditer(text):
    t, name, args, ret, req, ens = m.groups()
    n += 1
    params = [tuple(x.strip() for x in a.split(":")) for a in top(args)]
    shift = name in ("checked_shl", "checked_shr", "is_power_of_two")
    isc = params[0][0] == "c"
    loops, close = "", ""
    for p, ty in params:
        loops += "for &%s in vals_%s().iter() { " % (p + "0", ty.lstrip("&"))
        close += "}"
    if isc:
        call, pre = "c0.%s()" % name, "let c = &c0;"
        conds = [conv(expr(e, t, False)).replace("*c", "(*c as u32)").replace("((*c as u32) as u32)", "(*c as u32)").replace("as i128", "as u32") for e in top(ens)]
        conds = [re.sub(r"^r == \(if", "r as u32 == (if", c) for c in conds]
    else:
        call = "%s::%s(%s)" % (t, name, ", ".join(p + "0" for p, _ in params))
        if shift:
            pre = "".join("let %s = %s0;" % (p, p) for p, _ in params)
            conds = [conv(expr(e, t, True)) for e in top(ens)]
            if name == "is_power_of_two":
                conds = [c.replace("(a - 1) as %s" % t, "a.wrapping_sub(1)") for c in conds]
        else:
            pre = "".join("let %s = %s0 as i128;" % (p, p) for p, _ in params)
            conds = [conv(expr(e, t, False)) for e in top(ens)]
            if ret == "bool":
                pass
            elif ret.startswith("("):
                pre += "let mut skip = false; let _ = &mut skip;"
                conds = [re.sub(r"\br\.0 ==", "r.0 as i128 ==", c) for c in conds]
            elif not ret.startswith("Option"):
                conds = [re.sub(r"^r ==", "r as i128 ==", c) for c in conds]
            if name.endswith("euclid"):
                conds = [re.sub(r"\(a as i128\) % \(b as i128\)", "a.rem_euclid(b)", re.sub(r"\(a as i128\) / \(b as i128\)", "a.div_euclid(b)", c)) for c in conds]
    if req:
        pre += " if !(%s) { continue; }" % " && ".join(expr(e, t, False) for e in top(req))
    body.append("%s{ %s let r = %s; ok(%s, \"%s::%s\", &format!(\"{:?}\", (%s)), &mut bad); cnt += 1; } %s" % (
        loops, pre, call, " && ".join("(%s)" % c for c in conds), t, name, ", ".join(p + "0" for p, _ in params), close))
src = ["#![allow(warnings)]"]
for t in "u8 i8".split():
    src.append("fn vals_%s() -> Vec<%s> { (%s::MIN..=%s::MAX).collect() }" % (t, t, t, t))
for t in "u16 u32 u64 usize i16 i32 i64 isize".split():
    src.append("fn vals_%s() -> Vec<%s> { let mut v: Vec<%s> = vec![]; for b in [%s::MIN, %s::MAX, 0, 1, 7, 10, 127, 128, 255, 256, %s::MAX / 2, %s::MAX / 3, %s::MIN / 2, 1000] { for d in 0..3 { v.push(b.wrapping_add(d)); v.push(b.wrapping_sub(d)); } } for s in 0..%s::BITS { v.push((1 as %s) << s); } v.push(90); v.sort(); v.dedup(); v }" % (t, t, t, t, t, t, t, t, t, t))
src.append("fn vals_char() -> Vec<char> { let mut v: Vec<char> = (0..=0x2FFu32).filter_map(char::from_u32).collect(); v.extend(['\\u{2028}', '\\u{FEFF}', '\\u{10FFFF}', '\\u{D7FF}', '\\u{E000}', '\\u{660}', '\\u{FF21}']); v }")
src.append("fn P(a: i128, e: i128) -> i128 { if e == 0 { return 1 } if a == 0 || a == 1 { return a } if a == -1 { return if e % 2 == 0 { 1 } else { -1 } } let mut r = 1i128; for _ in 0..e { r *= a; if r > (1 << 66) || r < -(1 << 66) { return if a < 0 && e % 2 == 1 { -(1 << 67) } else { 1 << 67 } } } r }")
src.append("fn ok(c: bool, f: &str, a: &str, bad: &mut u32) { if !c { *bad += 1; if *bad < 20 { println!(\"differs: {} {}\", f, a) } } }")
for i, b in enumerate(body):
    src.append("fn t%d() -> (u64, u32) { let (mut cnt, mut bad) = (0u64, 0u32); %s (cnt, bad) }" % (i, b))
src.append("fn main() { let (mut k, mut bad) = (0, 0); %s println!(\"%d specifications, {} calls, {} differences\", k, bad); std::process::exit((bad > 0) as i32) }" % (
    " ".join("let x = t%d(); k += x.0; bad += x.1;" % i for i in range(len(body))), n))
want = text.count("assume_specification[") 
with tempfile.TemporaryDirectory() as d:
    open(d + "/t.rs", "w").write("\n".join(src))
    r = subprocess.run(["rustc", "-O", "--edition", "2021", "-o", d + "/t", d + "/t.rs"], capture_output=True, text=True)
    if r.returncode:
        print("\n".join(r.stderr.splitlines()[:60]))
        open("/tmp/t_ints.rs", "w").write("\n".join(src)) if "-k" in sys.argv else None
        sys.exit(2)
    r = subprocess.run([d + "/t"])
print("tested %d of %d" % (n, want))
sys.exit(r.returncode)
