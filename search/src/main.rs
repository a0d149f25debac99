// Differential search: runs the real crate against the executable specification.
//
//   search run   PROPERTY SEED SECONDS DICT OUT   look for a violation of one property
//   search show  FILE                             run one recorded case again
//   search deep  KIND                             (child) walk deeply nested input
//   search one   TARGET HEX                       (child) run one case
mod gen;
mod judge;
mod oracle;

use gen::{Dict, Gen, Node, Rng};
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const STACK: usize = 512 << 20;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    case: Mutex<(String, Vec<u8>)>,
    since: AtomicU64, // ms of the start of the current case + 1, or 0
    done: AtomicBool,
}

struct Run<'a> {
    prop: String,
    sh: Arc<Shared>,
    t0: Instant,
    evals: u64,
    nontrivial: HashSet<u64>,
    accepted: u64,
    samples: Vec<String>,
    found: Option<(String, Vec<u8>, String)>,
    by_target: std::collections::BTreeMap<String, u64>,
    dict: &'a Dict,
    /// where each case is written before it runs (to find the one that ends the process)
    trace: Option<std::fs::File>,
}

fn fnv(t: &str, d: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes().chain(d.iter().copied()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3)
    }
    h
}

/// What is wrong with this case, if anything. A panic counts as wrong.
fn judge_one(target: &str, data: &[u8]) -> judge::Verdict {
    let r = catch_unwind(AssertUnwindSafe(|| judge::run(target, data)));
    oracle::release();
    match r {
        Ok(v) => v,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panics: {}", m))
        }
    }
}

impl<'a> Run<'a> {
    fn try_case(&mut self, target: &str, data: &[u8]) -> bool {
        if self.found.is_some() {
            return true;
        }
        {
            let mut c = self.sh.case.lock().unwrap();
            c.0.clear();
            c.0.push_str(target);
            c.1.clear();
            c.1.extend_from_slice(data);
        }
        if let Some(f) = &mut self.trace {
            use std::io::Seek;
            let _ = f.set_len(0);
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(format!("target: {}\ndata: {}\n", target, hex(data)).as_bytes());
        }
        self.sh.since.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let v = judge_one(target, data);
        self.sh.since.store(0, Ordering::SeqCst);
        self.evals += 1;
        *self.by_target.entry(target.to_string()).or_insert(0) += 1;
        match v {
            Ok(acc) => {
                if acc {
                    self.accepted += 1
                }
                if acc || data.len() >= 2 {
                    if self.nontrivial.len() < 4_000_000 {
                        self.nontrivial.insert(fnv(target, data));
                    }
                    if self.samples.len() < 3 && acc || self.samples.len() < 6 && self.evals % 97 == 3 {
                        if data.len() < 200 {
                            self.samples.push(format!("{} {}{}", target, hex(data), if acc { " (accepted)" } else { " (rejected)" }))
                        }
                    }
                }
                false
            }
            Err(m) => {
                self.found = Some((target.to_string(), data.to_vec(), m));
                true
            }
        }
    }

    /// Makes a failing case smaller.
    fn shrink(&mut self) {
        let (t, mut d, mut m) = match self.found.clone() {
            Some(x) => x,
            None => return,
        };
        if t.starts_with("console") || t == "deep" || m.starts_with("does not return") {
            return;
        }
        let t1 = Instant::now();
        let mut again = true;
        while again && t1.elapsed() < Duration::from_secs(3) {
            again = false;
            let mut k = d.len() / 2;
            while k > 0 {
                let mut i = 0;
                while i + k <= d.len() {
                    let mut e = d.clone();
                    e.drain(i..i + k);
                    *self.sh.case.lock().unwrap() = (t.clone(), e.clone());
                    self.sh.since.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    if let Err(x) = judge_one(&t, &e) {
                        d = e;
                        m = x;
                        again = true
                    } else {
                        i += 1
                    }
                    if t1.elapsed() > Duration::from_secs(3) {
                        break;
                    }
                }
                k /= 2
            }
        }
        self.sh.since.store(0, Ordering::SeqCst);
        self.found = Some((t, d, m));
    }
}

fn el(id: u8, c: &[u8]) -> Vec<u8> {
    gen::tlv(id, c)
}

/// Cases that are tried on every run: the inputs of the defects found so far, and small
/// spaces completely.
/// the numbers of the sources that the reviewed tree does not have
static NEW: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();

/// numbers around those new in the sources, up to a bound
fn near(max: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in NEW.get().map(|v| &v[..]).unwrap_or(&[]).iter().filter(|k| **k > 1).take(12) {
        for m in [k / 2, k / 2 + 1, k - 1, *k, k + 1, k + 2, 2 * k - 1, 2 * k, 2 * k + 1, 4 * k + 1] {
            if m <= max as u64 {
                v.push(m as usize)
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// numbers of members: every small one, and those around what a chunk or a counter may be
fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend(near(6000));
    for n in [100usize, 128, 192, 200, 256, 384, 500, 512, 1000, 1024, 2048, 4096] {
        v.extend([n - 1, n, n + 1]);
    }
    v
}

fn fixed(prop: &str, f: &mut dyn FnMut(&str, &[u8]) -> bool) {
    macro_rules! t {
        ($t:expr, $d:expr) => {
            if f($t, $d) {
                return;
            }
        };
    }
    let ext = |last: u8, c: &[u8]| [el(6, &[0x55, 0x1d, last]), el(4, c)].concat();
    match prop {
        "C01" => {
            t!("total", &el(3, &[5]));
            t!("total", &ext(15, &[3, 1, 5]));
            t!("total", &[]);
            for a in 0..=255u8 {
                t!("total", &[a]);
                for b in 0..=255u8 {
                    t!("total", &[a, b]);
                }
                for b in [0u8, 1, 2, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0xFF] {
                    for c in 0..=255u8 {
                        t!("total", &[a, b, c]);
                        t!("total", &[a, b, c, 0, 0xFF]);
                    }
                }
            }
        }
        "C02" => {
            for id in [0x04u8, 0x30, 0x0C] {
                for n in [0usize, 1, 126, 127, 128, 129, 254, 255, 256, 257, 65535, 65536, 65537] {
                    let c = if id == 0x30 { if n > 300 { [gen::header(4, n - 5), vec![7; n - 5]].concat() } else { [5u8, 0].repeat(n / 2) } } else { vec![b'a'; n] };
                    let mut v = gen::header(id, c.len());
                    v.extend(&c);
                    t!("walk", &v);
                    v.extend([5, 0]);
                    t!("walk", &v);
                    v.truncate(v.len() - 3);
                    t!("walk", &v);
                    // not minimal
                    for k in 1..6usize {
                        let be = (c.len() as u64).to_be_bytes();
                        let w = [vec![id, 0x80 + k as u8], be[8 - k..].to_vec(), c.clone()].concat();
                        t!("walk", &w);
                    }
                }
            }
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    t!("walk", &[4, a, b]);
                    t!("walk", &[&[4u8, 0x82, a, b][..], &[0x61; 400][..]].concat());
                }
                t!("walk", &[&[4u8, a][..], &[0x61; 140][..]].concat());
                t!("walk", &[&[4u8, 0x81, a][..], &[0x61; 256][..]].concat());
                t!("walk", &[&[4u8, 0x83, 0, a, 1][..], &[0x61; 300][..]].concat());
                t!("walk", &[&[4u8, 0x84, 0, 0, a, 1][..], &[0x61; 300][..]].concat());
            }
            // 2^24 and more, with the content present
            let v = vec![0u8; (1 << 24) + 3];
            for n in [(1usize << 24) - 1, 1 << 24, (1 << 24) + 3] {
                let w = [gen::header(4, n), v[..n].to_vec()].concat();
                t!("walk", &w);
                let w = [vec![4, 0x84], (n as u32).to_be_bytes().to_vec(), v[..n].to_vec()].concat();
                t!("walk", &w);
            }
        }
        "C03" => {
            for id in 0..=255u8 {
                t!("ident", &[id]);
                for c in [&b""[..], b"\xff", b"\x00", b"a", b"\x00\x01", b"\x2a\x03", b"200101000000Z", b"20200101000000Z", b"\x05\x00", b"\x01\x01\xff"] {
                    t!("walk", &el(id, c));
                    t!("walk", &el(0x30, &[el(2, &[1]), el(id, c), el(5, &[])].concat()));
                }
            }
            t!("walk", &[0xbf, 0x1f, 0]);
            t!("walk", &[0x9f, 0x81, 0x01, 0]);
        }
        "C04" => {
            for n in sizes().into_iter().filter(|n| *n < 300) {
                for id in [0x30u8, 0x31, 0xA1] {
                    t!("walk", &[5u8, 0].repeat(n));
                    t!("walk", &el(id, &[5u8, 0].repeat(n)));
                    t!("walk", &[el(id, &[el(id, &[]), el(id, &[2, 1, 7])].concat()), vec![5, 0]].concat().repeat(n));
                    t!("walk", &[el(id, &[2, 1, 7]).repeat(n), vec![0x30, 5]].concat());
                }
            }
            let mut depths = near(1100);
            depths.extend(0..=70);
            depths.extend([100, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513]);
            for n in depths {
                let mut v = vec![5u8, 0];
                for k in 0..n {
                    v = [el([0x30u8, 0x31, 0xA5][k % 3], &v), vec![2, 1, k as u8]].concat();
                }
                t!("walk", &v);
                t!("walk", &[&v[..], &[5, 0]].concat());
                t!("walk", &[v, vec![0xFF]].concat());
            }
            // every forest with few elements
            fn forests(n: usize) -> Vec<Vec<u8>> {
                if n == 0 {
                    return vec![vec![]];
                }
                let mut out = vec![];
                for k in 1..=n {
                    for inner in forests(k - 1) {
                        for rest in forests(n - k) {
                            for id in [0x30u8, 0x31, 0xA2, 0x05, 0x15] {
                                if id == 0x05 || id == 0x15 {
                                    if k == 1 {
                                        out.push([vec![id, 0], rest.clone()].concat())
                                    }
                                } else {
                                    out.push([el(id, &inner), rest.clone()].concat())
                                }
                            }
                        }
                    }
                }
                out
            }
            for n in 0..=5 {
                for v in forests(n) {
                    t!("walk", &v);
                }
            }
        }
        "C05" => {
            // text: every character, first, last and between others
            for c in (0..=0x10FFFFu32).filter(|c| *c < 0x1_0000 || c % 97 == 0 || c & 0xFFFF >= 0xFFF0).filter_map(char::from_u32) {
                let mut buf = [0u8; 4];
                let x = c.encode_utf8(&mut buf).as_bytes().to_vec();
                t!("walk", &el(0x0C, &x));
                t!("walk", &el(0x0C, &[&x[..], b"ab"].concat()));
                t!("walk", &el(0x13, &[b"ab", &x[..]].concat()));
                t!("walk", &el(0x16, &[b"a", &x[..], &x[..], b"b"].concat()));
            }
            for id in [0x01u8, 0x02, 0x04, 0x05, 0x0C, 0x13, 0x16, 0x30, 0x31, 0x80, 0xA0] {
                t!("walk", &el(id, &[]));
                for a in 0..=255u8 {
                    t!("walk", &el(id, &[a]));
                    for b in 0..=255u8 {
                        t!("walk", &el(id, &[a, b]));
                    }
                    for b in [0x7Fu8, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0] {
                        t!("walk", &el(id, &[a, b, 0x80]));
                        t!("walk", &el(id, &[a, b, 0x80, 0x80]));
                        t!("walk", &el(id, &[b'a', a, b, 0xBF, b'z']));
                    }
                }
            }
        }
        "C06" => {
            t!("int", &[]);
            for a in 0..=255u8 {
                t!("int", &[a]);
                for b in 0..=255u8 {
                    t!("int", &[a, b]);
                    for r in [0u8, 1, 0x7F, 0x80, 0xFF] {
                        t!("int", &[a, b, r]);
                        t!("int", &[a, r, b]);
                        t!("int", &[a, b, r, r]);
                        t!("int", &[a, r, r, b]);
                        t!("int", &[r, a, b, r]);
                        t!("int", &[r, r, r, a, b]);
                    }
                }
            }
        }
        "C07" => {
            t!("walk", &el(0x17, b"990102052345Zxx"));
            for id in [0x17u8, 0x18] {
                let base: &[u8] = if id == 0x17 { b"200229235959Z" } else { b"20200229235959Z" };
                for i in 0..base.len() {
                    for a in 0..=255u8 {
                        let mut v = base.to_vec();
                        v[i] = a;
                        t!("walk", &el(id, &v));
                    }
                    for x in 0..100u8 {
                        if i + 2 < base.len() {
                            let mut v = base.to_vec();
                            v[i] = b'0' + x / 10;
                            v[i + 1] = b'0' + x % 10;
                            t!("walk", &el(id, &v));
                        }
                    }
                }
                for n in 0..base.len() {
                    t!("walk", &el(id, &base[..n]));
                }
                for s in [&b"Z"[..], b"+0000", b"0", b" "] {
                    t!("walk", &el(id, &[base, s].concat()));
                }
                // every day of the first 130 years, and the corners of every other year
                let years = if id == 0x17 { 1950..2050i64 } else { 1960..2110 };
                for y in years {
                    for m in 0..=13i64 {
                        for d in [0, 1, 2, 9, 10, 15, 19, 20, 27, 28, 29, 30, 31, 32] {
                            t!("walk", &el(id, &gen::time_text(id, y, [m, d, 0, 0, 0])));
                        }
                    }
                }
                if id == 0x18 {
                    for y in (2100..=9999i64).step_by(1) {
                        for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31)] {
                            t!("walk", &el(id, &gen::time_text(id, y, [m, d, 23, 59, 59])));
                        }
                    }
                    for y in 0..1970i64 {
                        t!("walk", &el(id, &gen::time_text(id, y, [12, 31, 23, 59, 59])));
                    }
                }
            }
        }
        "C08" => {
            for a in 0..=255u8 {
                t!("walk", &el(6, &[a]));
                for b in 0..=255u8 {
                    t!("walk", &el(6, &[a, b]));
                    for r in [0u8, 1, 0x7F, 0x80, 0x81, 0xFF] {
                        t!("walk", &el(6, &[a, r, b]));
                        t!("walk", &el(6, &[0x2a, a, r, b]));
                        t!("walk", &el(6, &[0x2a, a, r, r, b]));
                        t!("walk", &el(6, &[a, r, r, b]));
                        t!("walk", &el(6, &[a, r, r, r, b]));
                        t!("walk", &el(6, &[a, r, r, r, r, b]));
                        t!("walk", &el(6, &[0x2a, 3, a, b, r]));
                    }
                }
            }
            for n in [8usize, 16, 32, 33, 64, 100, 127, 128, 200, 300, 1000] {
                t!("walk", &el(6, &vec![1; n]));
                t!("walk", &el(6, &[0x81, 1].repeat(n)));
            }
        }
        "C09" => {
            t!("walk", &el(3, &[5]));
            t!("walk", &el(3, &[]));
            for u in 0..=255u8 {
                t!("walk", &el(3, &[u]));
                for a in 0..=255u8 {
                    t!("walk", &el(3, &[u, a]));
                }
            }
            for u in 0..9u8 {
                for n in 0..70usize {
                    let v: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
                    t!("walk", &el(3, &[vec![u], v].concat()));
                }
                for n in [127usize, 128, 255, 256, 1000, 8192] {
                    t!("walk", &el(3, &[vec![u], vec![0xA5; n]].concat()));
                }
            }
        }
        "C10" => {
            for v in 0..=255u8 {
                let alg = el(0x30, &el(6, &[0x2b, 0x65, 0x70]));
                for alt in 0..10 {
                    let mut ver = vec![2, 1, v];
                    if alt == 1 {
                        ver.extend([5, 0])
                    }
                    let mut tbs = el(0xA0, &ver);
                    tbs.extend([2, 1, 9]);
                    tbs.extend(el(0x30, &[el(6, &[0x2b, 0x65, 0x70]), if alt == 2 { vec![5, 0, 5, 0] } else { vec![] }].concat()));
                    tbs.extend([0x30, 0]);
                    let t = el(0x17, b"200101000000Z");
                    tbs.extend(el(0x30, &[t.clone(), t.clone(), if alt == 3 { t.clone() } else { vec![] }].concat()));
                    tbs.extend([0x30, 0]);
                    tbs.extend(el(0x30, &[alg.clone(), el(3, &[0, 1, 2]), if alt == 4 { vec![5, 0] } else { vec![] }].concat()));
                    if alt == 5 || alt == 7 {
                        tbs.extend([0x81, 2, 0, 0xaa])
                    }
                    if alt == 6 || alt == 7 {
                        tbs.extend([0x82, 2, 0, 0xbb])
                    }
                    if alt == 8 {
                        tbs.extend([0xA1, 4, 3, 2, 0, 0xaa])
                    }
                    if alt >= 7 {
                        tbs.extend(el(0xA3, &[0x30, 0]))
                    }
                    if alt == 9 {
                        tbs.extend([0x84, 0])
                    }
                    let c = el(0x30, &[el(0x30, &tbs), alg.clone(), el(3, &[0, 1])].concat());
                    t!("cert", &c);
                    if v < 3 {
                        t!("cert", &[c.clone(), vec![5, 0]].concat());
                        t!("cert", &[c.clone(), vec![0]].concat());
                        t!("cert", &el(0x30, &[el(0x30, &tbs), alg.clone(), el(3, &[0, 1]), vec![5, 0]].concat()));
                        t!("cert", &el(0x30, &[el(0x30, &tbs), alg.clone()].concat()));
                        t!("cert", &el(0x31, &[el(0x30, &tbs), alg.clone(), el(3, &[0, 1])].concat()));
                        for n in 0..c.len() {
                            t!("cert", &c[..n]);
                        }
                        for i in 0..c.len() {
                            for x in [0u8, 1, 2, 3, 5, 0x30, 0x31, 0x80, 0xA0, 0xFF] {
                                let mut d = c.clone();
                                d[i] = x;
                                t!("cert", &d);
                            }
                        }
                    }
                }
            }
        }
        "C11" => {
            let e = [0u64, 1, 2, 3, 59, 60, 3600, 86399, 86400, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 53, 1 << 63, (1 << 63) - 1, u64::MAX, u64::MAX - 1, 1577836800, 1577836801];
            for a in e {
                for b in e {
                    for c in e {
                        t!("validity", &[a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat());
                    }
                }
            }
        }
        "C12" => {
            t!("name", &[0x31, 5, 0x30]);
            t!("name", &[0x31, 0]);
            t!("name", &[]);
            let at = |a: u8, id: u8, t: &[u8]| el(0x30, &[el(6, &[0x55, 4, a]), el(id, t)].concat());
            for n in sizes() {
                let all: Vec<Vec<u8>> = (0..n).map(|k| el(0x31, &at([3u8, 6, 7, 8, 10, 11, 99][k % 7], 0x0C, format!("v{}", k).as_bytes()))).collect();
                t!("name", &all.concat());
                t!("name", &[all.concat(), el(0x31, &at(3, 0x13, b"last"))].concat());
                t!("name", &[all.concat(), vec![0x31, 1]].concat());
                let set: Vec<Vec<u8>> = (0..n).map(|k| at([3u8, 6, 7, 8, 10, 11, 99][k % 7], 0x0C, format!("v{}", k).as_bytes())).collect();
                t!("name", &el(0x31, &set.concat()));
            }
            for a in 0..=127u8 {
                for id in 0..=255u8 {
                    t!("name", &el(0x31, &at(a, id, b"ab")));
                }
                for b in 0..20u8 {
                    for (x, y) in [(&b"p"[..], &b"q"[..]), (b"", b"q"), (b"p", b""), (b"p", b"p")] {
                        t!("name", &[el(0x31, &at(a, 0x0C, x)), el(0x31, &at(b, 0x13, y))].concat());
                        t!("name", &el(0x31, &[at(a, 0x16, x), at(b, 0x0C, y)].concat()));
                    }
                }
            }
            for a in [3u8, 6, 7, 8, 10, 11] {
                let v = el(0x31, &at(a, 0x0C, b"abc"));
                for n in 0..v.len() {
                    t!("name", &v[..n]);
                }
                for i in 0..v.len() {
                    for x in 0..=255u8 {
                        let mut w = v.clone();
                        w[i] = x;
                        t!("name", &w);
                    }
                }
                t!("name", &el(0x31, &el(0x30, &[el(6, &[0x55, 4, a]), el(0x0C, b"x"), vec![5, 0]].concat())));
                t!("name", &[v.clone(), vec![0]].concat());
                t!("name", &[v.clone(), vec![0x30, 0]].concat());
                for b in [3u8, 6, 7, 8, 10, 11] {
                    for c in [3u8, 6, 7, 8, 10, 11] {
                        t!("name", &[el(0x31, &at(a, 0x0C, b"1")), el(0x31, &at(b, 0x0C, b"2")), el(0x31, &at(c, 0x0C, b"3"))].concat());
                    }
                }
            }
        }
        "C13" => {
            t!("ext", &ext(14, &[4, 1, 1, 5, 0]));
            t!("exts", &el(0x30, &[el(0x30, &ext(99, &[1])), vec![0x30, 5, 6]].concat()));
            for n in sizes() {
                let all: Vec<Vec<u8>> = (0..n).map(|k| el(0x30, &ext([99u8, 14, 98, 15][k % 4], [&[k as u8][..], &[4, 1, 7], &[], &[3, 2, 0, 0x80]][k % 4]))).collect();
                t!("exts", &el(0x30, &all.concat()));
                t!("exts", &el(0x30, &[all.concat(), el(0x30, &ext(19, &[0x30, 0]))].concat()));
                t!("exts", &el(0x30, &[all.concat(), vec![0x30, 1]].concat()));
                t!("ext", &ext(99, &vec![n as u8; n]));
                t!("ext", &ext(14, &el(4, &vec![n as u8; n])));
            }
            for a in 0..=127u8 {
                for c in [&b""[..], &[4, 1, 7], &[3, 2, 0, 0x80], &[0x30, 0], &[0x30, 3, 1, 1, 0xFF], &[0x0C, 1, b'a']] {
                    t!("ext", &ext(a, c));
                    for k in [0u8, 1, 0xFF] {
                        let e = [el(6, &[0x55, 0x1d, a]), el(1, &[k]), el(4, c)].concat();
                        t!("ext", &e);
                        t!("exts", &el(0x30, &el(0x30, &e)));
                        t!("exts", &el(0x30, &[el(0x30, &e), el(0x30, &ext(a, c))].concat()));
                    }
                }
            }
            let m = gen::oid_bytes(&[1, 3, 6, 1, 4, 1, 50316, 802, 1]);
            for c in [&[0x0Cu8, 1, b'a'][..], &[0x0C, 0], &[0x13, 1, b'a'], &[0x0C, 1, 0xFF], &[0x0C, 1, b'a', 5, 0], &[]] {
                t!("ext", &[el(6, &m), el(4, c)].concat());
            }
            let l = el(0x30, &[el(0x30, &ext(15, &[3, 2, 0, 0x80])), el(0x30, &ext(99, &[1]))].concat());
            for n in 0..l.len() {
                t!("exts", &l[..n]);
            }
            for i in 0..l.len() {
                for x in 0..=255u8 {
                    let mut w = l.clone();
                    w[i] = x;
                    t!("exts", &w);
                }
            }
            for s in [&[5u8, 0][..], &[0], &[0x30, 0]] {
                t!("exts", &[l.clone(), s.to_vec()].concat());
            }
        }
        "C14" => {
            t!("ext", &ext(15, &[3, 2, 0, 0b0110_0000]));
            t!("ext", &ext(15, &[3, 2, 0, 1, 5, 0]));
            t!("ext", &ext(15, &[3, 1, 5]));
            for a in 0..=255u8 {
                for u in 0..9u8 {
                    t!("ext", &ext(15, &[3, 2, u, a]));
                    for b in [0u8, 0x80, 0x40, 0x7F, 0xFF] {
                        t!("ext", &ext(15, &[3, 3, u, a, b]));
                        t!("ext", &ext(15, &[3, 4, u, a, b, 0xFF]));
                        t!("ext", &ext(15, &[3, 3, u, b, a]));
                    }
                }
                t!("ext", &ext(15, &[a, 2, 0, 0x80]));
            }
            for n in [30usize, 40, 64, 125, 200, 5000] {
                t!("ext", &ext(15, &el(3, &[vec![0], vec![0xFF; n]].concat())));
                t!("ext", &ext(15, &el(3, &[vec![0, 0xA5], vec![0; n]].concat())));
            }
        }
        "C15" => {
            t!("ext", &ext(19, &[0x30, 5, 1, 1, 255, 5, 0]));
            for b in 0..=256usize {
                let ca = if b == 256 { vec![] } else { vec![1, 1, b as u8] };
                t!("ext", &ext(19, &el(0x30, &ca)));
                for x in 0..=255u8 {
                    t!("ext", &ext(19, &el(0x30, &[ca.clone(), vec![2, 1, x]].concat())));
                }
                for i in [&[][..], &[0, 0], &[0x7F, 0xFF], &[0x80, 0], &[0, 0, 0, 1], &[0x7F, 255, 255, 255], &[0x80, 0, 0, 0], &[0, 0, 0, 0, 1], &[255; 4], &[1, 2, 3]] {
                    let c = [ca.clone(), el(2, i)].concat();
                    t!("ext", &ext(19, &el(0x30, &c)));
                    t!("ext", &ext(19, &[el(0x30, &c), vec![5, 0]].concat()));
                    t!("ext", &ext(19, &el(0x30, &[c.clone(), vec![5, 0]].concat())));
                    t!("ext", &ext(19, &el(0x30, &[el(2, i), ca.clone()].concat())));
                    t!("ext", &ext(19, &el(0x30, &[c.clone(), el(2, i)].concat())));
                }
            }
        }
        "C16" => {
            let p = |a: u32| el(6, &gen::oid_bytes(&[1, 3, 6, 1, 5, 5, 7, 3, a]));
            for a in 0..300u32 {
                t!("ext", &ext(37, &el(0x30, &p(a))));
                t!("ext", &ext(37, &el(0x30, &[p(1), p(a)].concat())));
            }
            let k = [1u32, 2, 3, 4, 8, 9];
            for a in k {
                for b in k {
                    for c in k {
                        t!("ext", &ext(37, &el(0x30, &[p(a), p(b), p(c)].concat())));
                    }
                    t!("ext", &ext(37, &el(0x30, &[p(a), p(b)].concat())));
                }
                t!("ext", &ext(37, &el(0x30, &[p(a), vec![5, 0]].concat())));
                t!("ext", &ext(37, &[el(0x30, &p(a)), vec![5, 0]].concat()));
                t!("ext", &ext(37, &el(0x30, &[p(a), vec![6, 5, 1]].concat())));
                t!("ext", &ext(37, &el(0x31, &p(a))));
                let v: Vec<u32> = vec![1, 3, 6, 1, 5, 5, 7, 3, a];
                for i in 0..9 {
                    for d in [1u32, 2, 256, 65536] {
                        let mut w = v.clone();
                        w[i] = w[i].wrapping_add(d);
                        t!("purpose", &w.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
                    }
                    t!("purpose", &v[..i].iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
                }
            }
            t!("ext", &ext(37, &[0x30, 0]));
            for n in [10usize, 40, 100] {
                t!("ext", &ext(37, &el(0x30, &p(8).repeat(n))));
            }
        }
        "C17" => {
            for id in 0x80..=0xBFu8 {
                for c in [&b""[..], b"a", b"\xff", b"\x2a\x03", b"\x80\x01", b"\x81", b"1234"] {
                    t!("ext", &ext(17, &el(0x30, &el(id, c))));
                    t!("ext", &ext(17, &el(0x30, &[el(0x82, b"q"), el(id, c)].concat())));
                    t!("ext", &ext(17, &[el(0x30, &el(id, c)), vec![5, 0]].concat()));
                    t!("ext", &ext(17, &el(0x30, &[el(id, c), vec![5, 0]].concat())));
                    t!("ext", &ext(17, &el(0x30, &[el(id, c), vec![0x82, 4, 1]].concat())));
                }
            }
            for n in [0usize, 3, 4, 5, 8, 15, 16, 17, 127, 128, 200] {
                t!("ext", &ext(17, &el(0x30, &el(0x87, &vec![7; n]))));
                t!("ext", &ext(17, &el(0x30, &el(0x82, b"x.").repeat(n))));
            }
            t!("ext", &ext(17, &[0x30, 0]));
        }
        "C18" => {
            for n in sizes() {
                t!("print", &vec![0x0A; n]);
                t!("print", &ext(17, &el(0x30, &el(0x82, b"x").repeat(n))));
                t!("print", &ext(17, &el(0x30, &(0..n).map(|k| el([0x82u8, 0x87, 0x80, 0xA4][k % 4], b"xyzw")).collect::<Vec<_>>().concat())));
                t!("print", &ext(37, &el(0x30, &(0..n).map(|k| el(6, &gen::oid_bytes(&[1, 3, 6, 1, 5, 5, 7, 3, k as u32 % 11]))).collect::<Vec<_>>().concat())));
                let rdn: Vec<u8> = (0..n).map(|k| el(0x31, &el(0x30, &[el(6, &[0x55, 4, [3u8, 6, 7, 8, 10, 11, 99][k % 7]]), el(0x0C, b"v")].concat()))).collect::<Vec<_>>().concat();
                t!("print", &rdn);
                let all: Vec<Vec<u8>> = (0..n).map(|k| el(0x30, &ext([99u8, 14, 98, 15, 19][k % 5], [&[k as u8][..], &[4, 1, 7], &[], &[3, 2, 0, 0x80], &[0x30, 0]][k % 5]))).collect();
                t!("print", &gen::cert_with_extensions(&el(0x30, &all.concat())));
                t!("print", &gen::cert_with_extensions(&el(0x30, &el(0x30, &ext(14, &el(4, &vec![7; n]))))));
            }
            for n in [0usize, 1, 15, 16, 17, 31, 32, 33, 48, 64, 100] {
                t!("print", &vec![0x55; n]);
            }
            for (i, c) in [&[4u8, 2, 1, 2][..], &[3, 3, 0, 0xFF, 0x80], &[0x30, 0], &[0x30, 6, 1, 1, 255, 2, 1, 3], &[0x30, 0], &[0x0C, 1, b'a']].iter().enumerate() {
                t!("print", &[el(6, &gen::oid_bytes(Gen::EXT_OIDS[i])), el(4, c)].concat());
            }
            for a in 0..=255u8 {
                t!("print", &[a]);
                t!("print", &[a, 1]);
            }
        }
        "C19" => {
            for id in [1u8, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 0x80, 0xA3] {
                for a in 0..=255u8 {
                    t!("pair", &el(id, &[a]));
                    for b in 0..=255u8 {
                        t!("pair", &[id, a, b]);
                        t!("pair", &el(id, &[a, b]));
                        t!("pair", &[id, 0x81, a, b]);
                    }
                }
            }
            t!("pair", &el(0x06, &[0x2a, 0x80, 1]));
            for v in [&b"200101000000Z"[..], b"20200101000000Z"] {
                let id = if v.len() == 13 { 0x17 } else { 0x18 };
                for i in 0..v.len() {
                    for x in 0..=255u8 {
                        let mut w = v.to_vec();
                        w[i] = x;
                        t!("pair", &el(id, &w));
                    }
                    for x in 0..100u8 {
                        if i + 2 < v.len() {
                            let mut w = v.to_vec();
                            w[i] = b'0' + x / 10;
                            w[i + 1] = b'0' + x % 10;
                            t!("pair", &el(id, &w));
                        }
                    }
                }
                for s in [&b"Z"[..], b"0", b" "] {
                    t!("pair", &el(id, &[v, s].concat()));
                }
            }
        }
        "C20" => {
            t!("show_int", &[]);
            t!("show_oid", &[]);
            for a in 0..=255u8 {
                t!("show_int", &[a]);
                for b in 0..=255u8 {
                    t!("show_int", &[a, b]);
                    t!("show_int", &[a, b, 0, a, b]);
                    t!("show_int", &[a, b, 0x80, a]);
                }
            }
            for n in 0..40usize {
                t!("show_int", &vec![0x0A; n]);
                t!("show_oid", &vec![0x01; n * 4]);
            }
        }
        "C21" => {
            for id in [0x02u8, 0x03, 0x04, 0x0C, 0x13, 0x16, 0x30, 0x31, 0xA0] {
                for n in [1usize, 2, 3, 5, 126, 127, 128, 129, 255, 256, 257, 70_000] {
                    let c = if id & 0x20 != 0 { [el(12, b"a"), vec![5, 0].repeat(n)].concat() } else { [&[0u8][..], &vec![b'a'; n]].concat() };
                    let c = if matches!(id, 0x0C | 0x13 | 0x16) { c[1..].to_vec() } else { c };
                    t!("views", &el(id, &c));
                    t!("views", &el(0x30, &[el(id, &c), el(5, &[]), el(id, &c)].concat()));
                }
                for a in 0..=255u8 {
                    t!("views", &el(id, &[a]));
                    t!("views", &el(id, &[0, a]));
                    t!("views", &el(id, &[a, 0]));
                    t!("views", &el(id, &[0, a, a]));
                }
            }
        }
        "C22" => {
            let c = judge::cli_case;
            let cert = std::fs::read(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/certs/512b-rsa-example-cert.der")).unwrap_or_default();
            let lists = "|--der|--certs|f|--der,m|--der,d|--der,.|--certs,m|--certs,d|--der,|--certs,|,f|--cert,f|--DER,f|-der,f|der,f|--der ,f|--,f|--help,f|--certs=f,f|f,--der|--der,f,f|--certs,f,f|--der,--der,f|--der,f,f,f|--der,--certs,f|--certs,\u{e9}|\u{e9},f|--der,f|--certs,f|--der,--der|--certs,f,|,|m,m|m,d|--help|-h,d,d|f,f,f,f,f|--der,-|--certs,-|--der,--|--certs,-f|--der,-h|--der,--help|--der,--certs|--certs,--der|--der,--der|--der,f f|--certs,\u{e9}t\u{e9}.der|--der,*|--certs,~|--der,$f|--der,@f|--der,f.|--der,.f|--der,F|--certs,f.pem|--der,f.txt|--der,\u{fffd}|-,-|--der=-,f|der,-";
            for l in lists.split('|') {
                let a: Vec<&[u8]> = if l.is_empty() { vec![] } else { l.split(',').map(|x| x.as_bytes()).collect() };
                let a = &a[..];
                for f in [&[][..], &[5, 0], &[4], &[0x30, 0x80, 0, 0], &cert] {
                    t!("cli", &c(a, f));
                }
            }
            // a file name need not be text, nor has a flag to be
            for x in [&b"\xff"[..], b"f\x80", b"\xc3", b"--\xff"] {
                for f in [&[][..], &[5, 0], &cert] {
                    t!("cli", &c(&[b"--der", x], f));
                    t!("cli", &c(&[b"--certs", x], f));
                    t!("cli", &c(&[x, b"f"], f));
                    t!("cli", &c(&[x], f));
                }
            }
            t!("cli", &c(&[b"--der\xff", b"f"], &[5, 0]));
            t!("cli", &c(&[b"--certs\xff", b"f"], &cert));
            for n in [1000usize, 4090, 4096, 5000, 8192, 9000, 65535, 65536, 70000, 200_000, 1_100_000] {
                let x = ext(99, &vec![7; n]);
                for flag in [&b"--der"[..], b"--certs"] {
                    t!("cli", &c(&[flag, b"f"], &gen::cert_with_extensions(&el(0x30, &el(0x30, &x)))));
                    t!("cli", &c(&[flag, b"f"], &el(4, &vec![n as u8; n])));
                    t!("cli", &c(&[flag, b"f"], &el(4, &vec![n as u8; n])[..n]));
                    t!("cli", &c(&[flag, b"f"], &vec![0xA5; n]));
                }
            }
        }
        _ => {}
    }
}

fn random_case(prop: &str, g: &mut Gen, i: u64) -> (&'static str, Vec<u8>) {
    let single = |g: &mut Gen, ids: &[u8]| -> Vec<u8> {
        let id = g.r.pick(ids);
        let c = g.content(id);
        let e = Node::Leaf(id, c);
        match g.r.below(8) {
            0 => el(0x30, &[e.bytes(), g.elem(0).bytes()].concat()),
            1 => [e.bytes(), g.elem(0).bytes()].concat(),
            _ => e.bytes(),
        }
    };
    match prop {
        "C21" => {
            let p = g.r.pick(&["C02", "C04", "C04", "C05", "C09", "C10", "C10", "C12", "C12", "C13", "C17"]);
            let (t, v) = random_case(p, g, i);
            // a list of extensions is looked at where it belongs
            ("views", if t == "exts" { gen::cert_with_extensions(&v) } else { v })
        }
        "C22" => {
            let file = match g.r.below(4) {
                0 => {
                    let mut f = g.forest();
                    if g.r.one_in(2) {
                        g.mutate(&mut f);
                    }
                    f.content()
                }
                1 => {
                    let mut v = g.cert().bytes();
                    if g.r.one_in(2) {
                        g.bend(&mut v)
                    }
                    v
                }
                _ => g.cert().bytes(),
            };
            let file = if g.r.one_in(3) && !g.d.new_strs.is_empty() {
                match g.r.below(3) {
                    0 => [g.around(), file].concat(),
                    1 => [file, g.around()].concat(),
                    _ => g.around(),
                }
            } else if g.r.one_in(4) && !g.d.new_ints.is_empty() {
                let b = g.num();
                match g.r.below(3) {
                    0 => [vec![b as u8; 1 + g.r.below(3)], file].concat(),
                    1 => [file, vec![b as u8; 1 + g.r.below(3)]].concat(),
                    _ => vec![g.byte(); (b % 100_000) as usize],
                }
            } else {
                file
            };
            let mut args: Vec<Vec<u8>> = vec![g.r.pick(&[&b"--der"[..], b"--certs"]).to_vec(), b"f".to_vec()];
            if g.r.one_in(3) && !g.d.new_strs.is_empty() {
                let mut w = g.around();
                w.retain(|b| *b != 0 && *b != b'/');
                args[1] = w;
            }
            if g.r.one_in(3) {
                for _ in 0..1 + g.r.below(2) {
                    let w = match g.r.below(4) {
                        0 if !g.d.strs.is_empty() => {
                            let k = g.r.below(g.d.strs.len());
                            g.d.strs[k].clone()
                        }
                        _ => g.r.pick(&[&b""[..], b"f", b"m", b"d", b"--der", b"--certs", b"-", b"--", b"-h", b"--help", b"--version", b"--cert", b"--crt", b"--csr", b"--pem"]).to_vec(),
                    };
                    let k = g.r.below(args.len() + 1);
                    match g.r.below(3) {
                        0 => args.insert(k, w),
                        1 if k < args.len() => args[k] = w,
                        _ if k < args.len() => {
                            args.remove(k);
                        }
                        _ => args.push(w),
                    }
                }
            }
            let a: Vec<&[u8]> = args.iter().map(|x| &x[..x.len().min(200)]).collect();
            ("cli", judge::cli_case(&a, &file))
        }
        "C02" => {
            let mut f = g.forest();
            if g.r.one_in(3) {
                g.mutate(&mut f);
            }
            let e = g.elem(1);
            let mut v = f.content();
            v.extend(if g.r.one_in(2) { g.odd_header(&e) } else { e.bytes() });
            if g.r.one_in(3) {
                v = el(g.r.pick(&[0x30, 0x31, 0xA1]), &v)
            }
            ("walk", v)
        }
        "C03" => {
            let id = g.byte();
            let c = g.content(id);
            ("walk", single_ctx(g, el(id, &c)))
        }
        "C04" => {
            let mut f = g.forest();
            for _ in 0..g.r.below(3) {
                g.mutate(&mut f)
            }
            let mut v = f.content();
            if g.r.one_in(8) {
                g.bend(&mut v)
            }
            ("walk", v)
        }
        "C05" => ("walk", single(g, &[0x01, 0x02, 0x04, 0x05, 0x0C, 0x13, 0x16, 0x30, 0x31, 0xA0, 0x85])),
        "C06" => {
            if g.r.one_in(2) {
                let n = 1 + g.r.below(5);
                let b = g.num().to_be_bytes();
                ("int", b[8 - n..].to_vec())
            } else {
                ("int", g.octets())
            }
        }
        "C07" => ("walk", single(g, &[0x17, 0x18])),
        "C08" => ("walk", single(g, &[0x06])),
        "C09" => ("walk", single(g, &[0x03])),
        "C10" => {
            let mut c = g.cert();
            for _ in 0..g.r.below(4).saturating_sub(1) {
                g.mutate(&mut c)
            }
            let mut v = c.bytes();
            if g.r.one_in(10) {
                g.bend(&mut v)
            }
            ("cert", v)
        }
        "C11" => {
            let (a, b) = (g.num(), g.num());
            let c = match g.r.below(4) {
                0 => a.wrapping_add(g.r.below(3) as u64).wrapping_sub(1),
                1 => b.wrapping_add(g.r.below(3) as u64).wrapping_sub(1),
                _ => g.num(),
            };
            ("validity", [a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat())
        }
        "C12" => {
            let mut n = g.name();
            for _ in 0..g.r.below(3).saturating_sub(1) + (i % 2) as usize {
                g.mutate(&mut n)
            }
            let mut v = n.content();
            if g.r.one_in(12) {
                g.bend(&mut v)
            }
            ("name", v)
        }
        "C13" => {
            if g.r.one_in(2) {
                let mut e = g.exts();
                for _ in 0..g.r.below(3).saturating_sub(1) {
                    g.mutate(&mut e)
                }
                let mut v = e.bytes();
                if g.r.one_in(12) {
                    g.bend(&mut v)
                }
                ("exts", v)
            } else {
                let mut e = g.ext(None);
                if g.r.one_in(3) {
                    g.mutate(&mut e)
                }
                ("ext", e.content())
            }
        }
        "C14" | "C15" | "C16" | "C17" => {
            let w = match prop {
                "C14" => 1,
                "C15" => 3,
                "C16" => 4,
                _ => 2,
            };
            if prop == "C16" && g.r.one_in(10) {
                let a = g.known_arcs();
                return ("purpose", a.iter().flat_map(|x| x.to_be_bytes()).collect());
            }
            let mut e = g.ext(Some(w));
            // only the contents are this property's concern
            if let Node::Cons(_, k) = &mut e {
                let n = k.len();
                if g.r.one_in(2) {
                    if g.r.one_in(2) {
                        g.mutate(&mut k[n - 1]);
                    }
                    if let Node::Cons(id, _) | Node::Leaf(id, _) = &mut k[n - 1] {
                        *id = 0x04
                    }
                    if g.r.one_in(6) {
                        let mut c = k[n - 1].content();
                        g.bend(&mut c);
                        k[n - 1] = Node::Leaf(0x04, c)
                    }
                }
            }
            ("ext", e.content())
        }
        "C18" => match g.r.below(6) {
            0 => ("print", g.octets()),
            1 => ("print", g.text()),
            2 => {
                let mut e = g.ext(None);
                if g.r.one_in(3) {
                    g.mutate(&mut e)
                }
                ("print", e.content())
            }
            3 => ("print", g.name().content()),
            _ => {
                let mut c = g.cert();
                if g.r.one_in(3) {
                    g.mutate(&mut c)
                }
                ("print", c.bytes())
            }
        },
        "C19" => {
            if g.r.one_in(4) {
                let e = g.elem(2);
                ("pair", g.odd_header(&e))
            } else {
                ("pair", single(g, &[0x01, 0x02, 0x03, 0x05, 0x06, 0x06, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x17, 0x18, 0x18]))
            }
        }
        "C20" => {
            if g.r.one_in(2) {
                let mut v = g.octets();
                v.truncate(2000);
                ("show_int", v)
            } else {
                let mut a = match g.r.below(3) {
                    0 => g.arcs(),
                    _ => g.known_arcs(),
                };
                if g.r.one_in(3) {
                    for _ in 0..g.r.below(3) {
                        let x = g.num() as u32;
                        let i = g.r.below(a.len());
                        if g.r.one_in(2) {
                            a[i] = x
                        } else {
                            a.push(x)
                        }
                    }
                }
                ("show_oid", a.iter().flat_map(|x| x.to_be_bytes()).collect())
            }
        }
        _ => {
            // C01: anything
            match g.r.below(8) {
                0 => ("total", g.octets()),
                1 => {
                    let mut e = g.ext(None);
                    g.mutate(&mut e);
                    ("total", e.content())
                }
                2 => {
                    let mut n = g.name();
                    g.mutate(&mut n);
                    ("total", n.content())
                }
                3 | 4 => {
                    let mut c = g.cert();
                    for _ in 0..g.r.below(3) {
                        g.mutate(&mut c)
                    }
                    let mut v = c.bytes();
                    if g.r.one_in(4) {
                        g.bend(&mut v)
                    }
                    ("total", v)
                }
                5 => {
                    let id = g.r.pick(&gen::IDS);
                    let c = g.content(id);
                    ("total", el(id, &c))
                }
                _ => {
                    let mut f = g.forest();
                    g.mutate(&mut f);
                    let mut v = f.content();
                    if g.r.one_in(4) {
                        g.bend(&mut v)
                    }
                    ("total", v)
                }
            }
        }
    }
}

fn single_ctx(g: &mut Gen, e: Vec<u8>) -> Vec<u8> {
    match g.r.below(4) {
        0 => el(0x30, &[g.elem(0).bytes(), e].concat()),
        1 => [e, g.elem(0).bytes()].concat(),
        _ => e,
    }
}

/// One element nested n levels deep.
fn nested(kind: &str, n: usize) -> Vec<u8> {
    let ids: &[u8] = match kind {
        "seq" => &[0x30],
        "set" => &[0x31],
        "tag" => &[0xA0],
        _ => &[0x30, 0xA3, 0x31],
    };
    let mut rev: Vec<u8> = vec![0, 5];
    for i in 0..n {
        let mut h = gen::header(ids[i % ids.len()], rev.len());
        h.reverse();
        rev.extend(h);
    }
    rev.reverse();
    rev
}

struct Count(u64, i64, i64);
impl rx509::der::ParseHandler for Count {
    fn begin_constructed(&mut self) {
        self.1 += 1;
        self.2 = self.2.max(self.1)
    }
    fn end_constructed(&mut self) {
        self.1 -= 1
    }
    fn on_type(&mut self, _: &rx509::der::ASNType) {
        self.0 += 1
    }
    fn on_error(&mut self, _: &rx509::der::ASNError) {}
}

/// Child: walks deeply nested input on a small stack; a stack overflow ends this process.
fn deep(kind: &str, n: usize) -> i32 {
    let kind = kind.to_string();
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let v = nested(&kind, n);
        let mut c = Count(0, 0, 0);
        let ok = rx509::der::parse_all(&v, &mut c).is_ok();
        let _ = rx509::x509::Certificate::parse(&v).is_ok();
        let _ = rx509::x509::Name { inner: &v }.parse().is_ok();
        let _ = rx509::x509::ext::Extension::parse(&v).is_ok();
        ok && c.0 == n as u64 + 1 && c.1 == 0 && c.2 == n as i64
    });
    match h.unwrap().join() {
        Ok(true) => 0,
        _ => 3,
    }
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn deep_check(kind: &str, n: usize) -> Result<(), String> {
    let mut ch = Command::new(me()).args(["deep", kind, &n.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return if s.success() {
                Ok(())
            } else if s.code().is_some() {
                Err(format!("wrong result or panic for {} levels of {}", n, kind))
            } else {
                Err(format!("the walk of {} levels of {} ends the process ({}): its stack grows with the nesting", n, kind, s))
            };
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("does not return within 60 s for {} levels of {}", n, kind));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// The console printers run in a child process whose output is compared.
fn console(cases: &[(char, Vec<u8>)]) -> Result<u64, (char, Vec<u8>, String)> {
    let exe = me().with_file_name("console");
    let mut n = 0;
    for chunk in cases.chunks(200) {
        let mut ch = match Command::new(&exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => return Ok(n), // not built: the printers are no longer where they were
        };
        let mut text = String::new();
        for (k, d) in chunk {
            text.push_str(&format!("{} {}\n", k, hex(d)));
        }
        let mut si = ch.stdin.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(text.as_bytes());
        });
        let out = ch.wait_with_output().map(|o| o.stdout).unwrap_or_default();
        let _ = w.join();
        let out = String::from_utf8_lossy(&out).to_string();
        let mut rest = &out[..];
        for (k, d) in chunk {
            let (got, fin) = match rest.find("\u{1}end\n") {
                Some(p) => {
                    let g = &rest[..p];
                    rest = &rest[p + 5..];
                    (g, true)
                }
                None => (rest, false),
            };
            if !fin {
                return Err((*k, d.clone(), "printing to the console panics".to_string()));
            }
            let v = catch_unwind(AssertUnwindSafe(|| judge::console_judge(*k, d, got)));
            if let Ok(Err(m)) = v {
                return Err((*k, d.clone(), m));
            }
            n += 1
        }
    }
    Ok(n)
}

fn dict(path: &str) -> Dict {
    let mut d = Dict { ints: vec![], strs: vec![], new_ints: vec![], new_strs: vec![] };
    if let Ok(f) = std::fs::File::open(path) {
        for l in std::io::BufReader::new(f).lines().map_while(Result::ok) {
            if let Some(n) = l.strip_prefix("i ") {
                if let Ok(v) = n.trim().parse() {
                    d.ints.push(v)
                }
            } else if let Some(n) = l.strip_prefix("I ") {
                if let Ok(v) = n.trim().parse() {
                    d.new_ints.push(v)
                }
            } else if let Some(s) = l.strip_prefix("S ") {
                d.new_strs.push(unhex(s))
            } else if let Some(s) = l.strip_prefix("s ") {
                d.strs.push(unhex(s))
            }
        }
    }
    d
}

fn report(r: &Run, out: &str, complete: bool) {
    let mut s = String::from("{");
    s.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"accepted\":{},\"wall_s\":{:.3},\"fixed_complete\":{},", r.evals, r.nontrivial.len(), r.accepted, r.t0.elapsed().as_secs_f64(), complete));
    s.push_str(&format!("\"by_target\":{{{}}},", r.by_target.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"samples\":[{}]", r.samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(",")));
    if let Some((t, d, m)) = &r.found {
        s.push_str(&format!(",\"violation\":{{\"target\":{},\"data\":{},\"message\":{}}}", json(t), json(&hex(d)), json(m)));
    }
    s.push('}');
    let _ = std::fs::write(out, s);
}

fn run(prop: &str, seed: u64, secs: f64, dict_path: &str, out: &str) -> i32 {
    let d = dict(dict_path);
    let sh = Arc::new(Shared { case: Mutex::new((String::new(), vec![])), since: AtomicU64::new(0), done: AtomicBool::new(false) });
    let t0 = Instant::now();
    let mut r = Run { prop: prop.to_string(), sh: sh.clone(), t0, evals: 0, nontrivial: HashSet::new(), accepted: 0, samples: vec![], found: None, by_target: Default::default(), dict: &d, trace: std::env::var("SEARCH_TRACE").ok().and_then(|p| std::fs::File::create(p).ok()) };
    // a case that does not return is a violation of C01, and of no other property
    {
        let sh = sh.clone();
        let (prop, out) = (prop.to_string(), out.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if sh.done.load(Ordering::SeqCst) {
                return;
            }
            let s = sh.since.load(Ordering::SeqCst);
            if s != 0 && t0.elapsed().as_millis() as u64 > s + 20_000 {
                let (t, d) = sh.case.lock().unwrap().clone();
                let m = "does not return within 20 s";
                let _ = std::fs::write(&out, format!("{{\"evaluations\":1,\"distinct_nontrivial\":1,\"samples\":[],\"violation\":{{\"target\":{},\"data\":{},\"message\":{}}}}}", json(&t), json(&hex(&d)), json(m)));
                let _ = prop;
                std::process::exit(1);
            }
        });
    }
    let _ = NEW.set(r.dict.new_ints.clone());
    {
        let rr = &mut r;
        fixed(prop, &mut |t, d| rr.try_case(t, d));
    }
    if r.prop == "C01" && r.found.is_none() {
        for k in ["seq", "set", "tag", "mix"] {
            r.evals += 1;
            *r.by_target.entry("deep".into()).or_insert(0) += 1;
            if let Err(m) = deep_check(k, 50_000) {
                r.found = Some(("deep".into(), k.as_bytes().to_vec(), m));
                break;
            }
        }
    }
    let mut g = Gen { r: Rng::new(seed ^ fnv(prop, b"")), d: r.dict };
    if r.prop == "C18" && r.found.is_none() {
        let mut cases: Vec<(char, Vec<u8>)> = vec![];
        for n in sizes().into_iter().filter(|n| *n < 600) {
            let e = |last: u8, c: &[u8]| [el(6, &[0x55, 0x1d, last]), el(4, c)].concat();
            cases.push(('e', e(17, &el(0x30, &el(0x82, b"x").repeat(n)))));
            cases.push(('e', e(37, &el(0x30, &el(6, &gen::oid_bytes(&[1, 3, 6, 1, 5, 5, 7, 3, n as u32 % 11])).repeat(n)))));
            cases.push(('e', e(14, &el(4, &vec![7; n]))));
            for id in [2u8, 3, 4, 0x30, 0x31, 0xA2] {
                let c = if id & 0x20 != 0 { [5u8, 0].repeat(n) } else { vec![0; n] };
                cases.push(('d', [el(id, &c), vec![5, 0]].concat()));
            }
        }
        for _ in 0..600 {
            cases.push(('d', g.forest().content()));
            let mut f = g.forest();
            g.mutate(&mut f);
            cases.push(('d', f.content()));
            cases.push(('c', g.cert().bytes()));
            cases.push(('e', g.ext(None).content()));
        }
        match console(&cases) {
            Ok(n) => {
                r.evals += n;
                r.by_target.insert("console".into(), n);
            }
            Err((k, d, m)) => r.found = Some((format!("console-{}", k), d, m)),
        }
    }
    let complete = r.found.is_none();
    let mut i = 0u64;
    while r.found.is_none() && (t0.elapsed().as_secs_f64() < secs || i < if prop == "C22" { 100 } else { 2000 }) {
        for _ in 0..64 {
            let (t, d) = random_case(prop, &mut g, i);
            i += 1;
            if r.try_case(t, &d) {
                break;
            }
        }
    }
    r.shrink();
    sh.done.store(true, Ordering::SeqCst);
    report(&r, out, complete);
    if r.found.is_some() {
        1
    } else {
        0
    }
}

fn show(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    match (get("target:"), get("data:")) {
        (Some(t), Some(d)) => {
            let d = unhex(&d);
            if t == "deep" {
                return match deep_check(&String::from_utf8_lossy(&d), 50_000) {
                    Ok(()) => 0,
                    Err(m) => {
                        println!("{}", m);
                        1
                    }
                };
            }
            if let Some(k) = t.strip_prefix("console-") {
                return match console(&[(k.chars().next().unwrap_or('d'), d)]) {
                    Ok(_) => 0,
                    Err((_, _, m)) => {
                        println!("{}", m);
                        1
                    }
                };
            }
            match judge_one(&t, &d) {
                Ok(_) => {
                    println!("no violation: the case behaves as specified");
                    0
                }
                Err(m) => {
                    println!("{}", m);
                    1
                }
            }
        }
        _ => {
            println!("no input recorded in {}", path);
            0
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("deep") => deep(&a[2], a[3].parse().unwrap()),
        Some("show") => {
            let p = a[2].clone();
            std::thread::Builder::new().stack_size(STACK).spawn(move || show(&p)).unwrap().join().unwrap_or(2)
        }
        Some("run") => {
            let b = a.clone();
            std::thread::Builder::new().stack_size(STACK).spawn(move || run(&b[2], b[3].parse().unwrap_or(1), b[4].parse().unwrap_or(5.0), &b[5], &b[6])).unwrap().join().unwrap_or(2)
        }
        _ => {
            eprintln!("usage: search run|show|deep ...");
            2
        }
    };
    std::process::exit(code)
}
