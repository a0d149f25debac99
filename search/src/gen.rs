// Generators: trees of elements, their encodings, and mutations of both.
use rx509::der::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
}

/// Numbers and texts that occur in the source of the crate: likely thresholds.
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    /// those that the reviewed tree does not have
    pub new_ints: Vec<u64>,
    pub new_strs: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub enum Node {
    Leaf(u8, Vec<u8>),
    Cons(u8, Vec<Node>),
    Raw(Vec<u8>),
}

pub fn header(id: u8, n: usize) -> Vec<u8> {
    let mut v = vec![id];
    if n < 128 {
        v.push(n as u8)
    } else {
        let b = (n as u64).to_be_bytes();
        let k = b.iter().position(|x| *x != 0).unwrap();
        v.push(0x80 + (8 - k) as u8);
        v.extend_from_slice(&b[k..]);
    }
    v
}

pub fn tlv(id: u8, c: &[u8]) -> Vec<u8> {
    let mut v = header(id, c.len());
    v.extend_from_slice(c);
    v
}

impl Node {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Node::Leaf(id, c) => tlv(*id, c),
            Node::Cons(id, _) => tlv(*id, &self.content()),
            Node::Raw(v) => v.clone(),
        }
    }
    pub fn content(&self) -> Vec<u8> {
        match self {
            Node::Leaf(_, c) => c.clone(),
            Node::Cons(_, k) => k.iter().flat_map(|n| n.bytes()).collect(),
            Node::Raw(v) => v.clone(),
        }
    }
    fn count(&self) -> usize {
        match self {
            Node::Cons(_, k) => 1 + k.iter().map(|n| n.count()).sum::<usize>(),
            _ => 1,
        }
    }
    fn at(&mut self, mut i: usize) -> &mut Node {
        if i == 0 {
            return self;
        }
        i -= 1;
        match self {
            Node::Cons(_, k) => {
                for n in k.iter_mut() {
                    let c = n.count();
                    if i < c {
                        return n.at(i);
                    }
                    i -= c;
                }
                panic!("index")
            }
            _ => panic!("index"),
        }
    }
}

pub fn sub_id(mut v: u64) -> Vec<u8> {
    let mut out = vec![(v & 0x7F) as u8];
    v >>= 7;
    while v > 0 {
        out.insert(0, 0x80 | (v & 0x7F) as u8);
        v >>= 7;
    }
    out
}

pub fn oid_bytes(a: &[u32]) -> Vec<u8> {
    let mut v = sub_id(a[0] as u64 * 40 + a[1] as u64);
    for x in &a[2..] {
        v.extend(sub_id(*x as u64));
    }
    v
}

fn digits(n: i64, w: usize) -> Vec<u8> {
    format!("{:0w$}", n, w = w).into_bytes()
}

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn time_text(id: u8, y: i64, f: [i64; 5]) -> Vec<u8> {
    let mut v = if id == 0x17 { digits(y % 100, 2) } else { digits(y, 4) };
    for x in f {
        v.extend(digits(x, 2));
    }
    v.push(b'Z');
    v
}

/// The encoding that a decoded element determines (None where it is not determined).
pub fn encode(id: u8, asn: &ASNType) -> Option<Vec<u8>> {
    let c: Vec<u8> = match asn {
        ASNType::Boolean(b) => vec![if b.value { 0xFF } else { 0 }],
        ASNType::Integer(i) => i.value.bytes.to_vec(),
        ASNType::BitString(b) => {
            let n = b.value.size();
            if n > 1 << 20 {
                return None;
            }
            let mut v = vec![((8 - n % 8) % 8) as u8];
            v.resize(1 + (n + 7) / 8, 0);
            for (i, x) in b.value.iter().enumerate() {
                if x {
                    *v.get_mut(1 + i / 8)? |= 0x80 >> (i % 8)
                }
            }
            v
        }
        ASNType::OctetString(o) => o.value.to_vec(),
        ASNType::Null => vec![],
        ASNType::ObjectIdentifier(o) => {
            let a = o.value.values();
            if a.len() < 2 {
                return None;
            }
            oid_bytes(a)
        }
        ASNType::UTF8String(s) => s.value.as_bytes().to_vec(),
        ASNType::PrintableString(s) => s.value.as_bytes().to_vec(),
        ASNType::IA5String(s) => s.value.as_bytes().to_vec(),
        ASNType::UTCTime(t) | ASNType::GeneralizedTime(t) => {
            let mut d = (t.value / 86400) as i64;
            let s = (t.value % 86400) as i64;
            if d > 3_000_000 {
                return None;
            }
            let mut y = 1970;
            while d >= 365 + leap(y) as i64 {
                d -= 365 + leap(y) as i64;
                y += 1
            }
            let mut m = 1;
            while d >= days(y, m) {
                d -= days(y, m);
                m += 1
            }
            time_text(id, y, [m, d + 1, s / 3600, s / 60 % 60, s % 60])
        }
        ASNType::Sequence(s) => s.value.to_vec(),
        ASNType::Set(s) => s.value.to_vec(),
        ASNType::ExplicitTag(t) => t.value.contents.to_vec(),
    };
    Some(tlv(id, &c))
}

pub const IDS: [u8; 13] = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31];
const LENS: [usize; 22] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255];
const TEXTS: [&str; 14] = ["", "a", "US", "Example", "é", "日本", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}"];
const BADTEXT: [&[u8]; 12] = [&[0x80], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF0, 0x80, 0x80, 0x80], &[0xFF], &[0xC3], &[0xE2, 0x82], b"ok\xfe", &[0xF8, 0x88, 0x80, 0x80, 0x80]];

pub struct Gen<'a> {
    pub r: Rng,
    pub d: &'a Dict,
}

impl<'a> Gen<'a> {
    /// A number, often a likely threshold.
    pub fn num(&mut self) -> u64 {
        let n = self.d.ints.len();
        match self.r.below(6) {
            0 | 1 if n > 0 => {
                let v = self.d.ints[self.r.below(n)];
                match self.r.below(4) {
                    0 => v.wrapping_sub(1),
                    1 => v.wrapping_add(1),
                    _ => v,
                }
            }
            2 => {
                let k = self.r.below(64);
                (1u64 << k).wrapping_sub(self.r.below(2) as u64)
            }
            3 => self.r.below(300) as u64,
            4 => self.r.next() >> self.r.below(64),
            _ => self.r.below(20) as u64,
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.r.below(4) {
            0 => self.num() as u8,
            1 => self.r.pick(&[0u8, 1, 0x7F, 0x80, 0xFF, 0xFE, 0x30, 0x31]),
            _ => self.r.byte(),
        }
    }
    pub fn len(&mut self) -> usize {
        match self.r.below(24) {
            0 => {
                let n = self.num() as usize;
                if n < 3000 { n } else { 1 }
            }
            1..=4 => self.r.pick(&LENS),
            5 if self.r.one_in(20) => self.r.pick(&[256usize, 257, 1000, 65535, 65536, 65537]),
            _ => self.r.below(9),
        }
    }
    pub fn octets(&mut self) -> Vec<u8> {
        if self.r.one_in(12) && !self.d.strs.is_empty() {
            return self.r.pick(&self.d.strs);
        }
        if self.r.one_in(8) && !self.d.new_strs.is_empty() {
            return self.around();
        }
        let n = self.len();
        let mut v: Vec<u8> = (0..n).map(|_| if self.r.one_in(3) { self.byte() } else { self.r.byte() }).collect();
        if n > 0 && self.r.one_in(6) {
            let b = self.num().to_be_bytes();
            let k = self.r.below(8);
            v = b[k..].to_vec();
        }
        if !v.is_empty() && self.r.one_in(12) {
            let k = v[0];
            v.iter_mut().for_each(|x| *x = k);
        }
        v
    }
    /// a string of the sources with something before or after it
    pub fn around(&mut self) -> Vec<u8> {
        let s = self.r.pick(&self.d.new_strs);
        let more: Vec<u8> = (0..self.r.below(5)).map(|_| if self.r.one_in(2) { b'a' + self.r.below(26) as u8 } else { self.r.byte() & 0x7F }).collect();
        match self.r.below(4) {
            0 => s,
            1 => [s, more].concat(),
            2 => [more, s].concat(),
            _ => [more.clone(), s, more].concat(),
        }
    }
    pub fn text(&mut self) -> Vec<u8> {
        if self.r.one_in(8) && !self.d.new_strs.is_empty() {
            return self.around();
        }
        match self.r.below(9) {
            0 | 1 => self.r.pick(&TEXTS).as_bytes().to_vec(),
            2 => self.r.pick(&BADTEXT).to_vec(),
            3 if !self.d.strs.is_empty() => self.r.pick(&self.d.strs),
            4 => {
                let mut v = self.r.pick(&TEXTS).as_bytes().to_vec();
                v.extend_from_slice(self.r.pick(&TEXTS).as_bytes());
                if self.r.one_in(3) {
                    v.extend_from_slice(self.r.pick(&BADTEXT))
                }
                v
            }
            5 => {
                let n = self.len();
                (0..n).map(|_| 32 + self.r.below(95) as u8).collect()
            }
            6 => {
                let n = self.r.below(6);
                (0..n).map(|_| self.r.byte()).collect()
            }
            _ => {
                let n = self.r.below(12);
                (0..n).map(|_| b'a' + self.r.below(26) as u8).collect()
            }
        }
    }
    pub fn arc(&mut self) -> u32 {
        match self.r.below(5) {
            0 => self.r.below(130) as u32,
            1 => (self.num() as u32) & 0x0FFF_FFFF,
            2 => self.r.pick(&[0u32, 1, 39, 40, 79, 80, 127, 128, 16383, 16384, 2097151, 2097152, 0x0FFF_FFFF]),
            _ => self.r.below(12) as u32,
        }
    }
    pub fn arcs(&mut self) -> Vec<u32> {
        let a0 = self.r.below(3) as u32;
        let a1 = if a0 < 2 { self.r.below(40) as u32 } else { self.arc().min(0x0FFF_FFFF - 80) };
        let n = if self.r.one_in(20) { self.r.below(40) } else { self.r.below(8) };
        let mut v = vec![a0, a1];
        for _ in 0..n {
            let x = self.arc();
            v.push(x)
        }
        v
    }
    pub fn known_arcs(&mut self) -> Vec<u32> {
        let k: [&[u32]; 30] = [
            &[2, 5, 29, 14], &[2, 5, 29, 15], &[2, 5, 29, 17], &[2, 5, 29, 19], &[2, 5, 29, 37], &[1, 3, 6, 1, 4, 1, 50316, 802, 1],
            &[2, 5, 4, 3], &[2, 5, 4, 6], &[2, 5, 4, 7], &[2, 5, 4, 8], &[2, 5, 4, 10], &[2, 5, 4, 11],
            &[1, 3, 6, 1, 5, 5, 7, 3, 1], &[1, 3, 6, 1, 5, 5, 7, 3, 2], &[1, 3, 6, 1, 5, 5, 7, 3, 3], &[1, 3, 6, 1, 5, 5, 7, 3, 4],
            &[1, 3, 6, 1, 5, 5, 7, 3, 8], &[1, 3, 6, 1, 5, 5, 7, 3, 9],
            &[1, 2, 840, 113549, 1, 1, 1], &[1, 2, 840, 113549, 1, 1, 5], &[1, 2, 840, 113549, 1, 9, 1], &[1, 3, 101, 112],
            &[2, 5, 29, 31], &[2, 5, 4, 5], &[2, 5, 4, 9], &[1, 3, 6, 1, 5, 5, 7, 3, 5], &[1, 2, 840, 113549, 1, 1, 11], &[2, 5, 29, 35], &[2, 5, 4, 4], &[1, 3, 6, 1, 5, 5, 7, 3, 0],
        ];
        let mut v = self.r.pick(&k).to_vec();
        if self.r.one_in(8) {
            match self.r.below(4) {
                0 => {
                    v.pop();
                }
                1 => {
                    let a = self.arc();
                    v.push(a)
                }
                2 => {
                    let i = self.r.below(v.len());
                    let a = self.arc();
                    v[i] = a
                }
                _ => {
                    let i = self.r.below(v.len());
                    let d = self.r.pick(&[1u32, 256, 128, 65536]);
                    v[i] = v[i].wrapping_add(d) & 0x0FFF_FFFF
                }
            }
            if v[0] > 2 || (v[0] < 2 && v[1] > 39) {
                v[0] = 2
            }
        }
        v
    }
    pub fn oid_content(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => self.octets(),
            1 => {
                // subidentifiers of any shape
                let n = self.r.below(4);
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.r.below(6);
                    for _ in 0..k {
                        let b = if self.r.one_in(3) { self.r.pick(&[0x80u8, 0x81, 0xFF, 0x87, 0x8F]) } else { 0x80 | self.byte() };
                        v.push(b)
                    }
                    let b = self.byte();
                    v.push(if self.r.one_in(10) { b } else { b & 0x7F })
                }
                v
            }
            2 | 3 => oid_bytes(&self.known_arcs()),
            _ => {
                let mut v = oid_bytes(&self.arcs());
                if self.r.one_in(4) {
                    self.bend(&mut v)
                }
                v
            }
        }
    }
    pub fn time(&mut self, id: u8) -> Vec<u8> {
        let y = match self.r.below(8) {
            0 => self.r.pick(&[1970i64, 1971, 1972, 1999, 2000, 2001, 2004, 2049, 2100, 2099, 2038, 2050, 9999, 2400, 2096, 2104]),
            1 => 1950 + self.r.below(100) as i64,
            2 => (self.num() % 10000) as i64,
            3 => 100 * self.r.below(100) as i64,
            4 => 4 * self.r.below(2500) as i64,
            _ => 1970 + self.r.below(80) as i64,
        };
        let y = if id == 0x17 { 1950 + y.rem_euclid(100) } else { y };
        let mut m = 1 + self.r.below(12) as i64;
        let mut d = 1 + self.r.below(days(y, m) as usize) as i64;
        if self.r.one_in(4) {
            m = self.r.pick(&[2, 2, 2, 12, 1]);
            d = self.r.pick(&[28, 29, 29, 31, 1, 30])
        }
        if self.r.one_in(8) {
            d = days(y, m) + self.r.below(2) as i64
        }
        let mut f = [m, d, self.r.below(24) as i64, self.r.below(60) as i64, self.r.below(60) as i64];
        if self.r.one_in(4) {
            let i = self.r.below(5);
            f[i] = self.r.pick(&[0, 1, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 99])
        }
        if self.r.one_in(8) {
            f[2..].copy_from_slice(&self.r.pick(&[[0i64, 0, 0], [23, 59, 59], [23, 59, 60], [24, 0, 0], [12, 0, 0]]))
        }
        let mut v = time_text(id, y, f);
        if self.r.one_in(6) {
            match self.r.below(5) {
                0 => self.bend(&mut v),
                1 => {
                    let i = self.r.below(v.len());
                    v[i] = self.r.pick(&[b'/', b':', b' ', b'+', b'-', b'Z', b'z', 0, b'0' + 0x80, b'0', b'9'])
                }
                2 => {
                    v.pop();
                    v.extend_from_slice(self.r.pick(&[&b"+0000"[..], b"", b"z", b"ZZ", b".5Z", b"-0100"]))
                }
                3 => {
                    let n = v.len();
                    v.drain(n - 3..n - 1);
                }
                _ => {
                    v.insert(0, self.r.pick(&[b'2', b'0', b' ', b'1']));
                    v.insert(0, self.r.pick(&[b'2', b'0', b'1']));
                }
            }
        }
        v
    }
    pub fn bits(&mut self) -> Vec<u8> {
        let mut v = vec![match self.r.below(4) {
            0 | 1 => 0,
            2 => self.r.below(9) as u8,
            _ => self.byte(),
        }];
        v.extend(self.octets());
        if self.r.one_in(20) {
            v.truncate(self.r.below(3))
        }
        v
    }
    pub fn content(&mut self, id: u8) -> Vec<u8> {
        if self.r.one_in(30) {
            return self.octets();
        }
        match id {
            0x01 => match self.r.below(6) {
                0 => self.octets(),
                1 => vec![self.byte()],
                2 | 3 => vec![0],
                _ => vec![0xFF],
            },
            0x02 => {
                let mut v = self.octets();
                if self.r.one_in(3) {
                    v.truncate(4)
                }
                if v.is_empty() && !self.r.one_in(4) {
                    v.push(1)
                }
                v
            }
            0x03 => self.bits(),
            0x05 => {
                if self.r.one_in(6) {
                    self.octets()
                } else {
                    vec![]
                }
            }
            0x06 => self.oid_content(),
            0x0C | 0x13 | 0x16 => self.text(),
            0x17 | 0x18 => self.time(id),
            _ => self.octets(),
        }
    }
    pub fn id(&mut self) -> u8 {
        match self.r.below(8) {
            0 => 0x80 + self.r.below(64) as u8,
            1 => {
                if self.r.one_in(3) {
                    self.r.byte()
                } else {
                    0xA0 + self.r.below(4) as u8
                }
            }
            _ => self.r.pick(&IDS),
        }
    }
    pub fn elem(&mut self, depth: usize) -> Node {
        let id = self.id();
        let cons = id == 0x30 || id == 0x31 || id >= 0x80 && id < 0xC0;
        if cons && depth > 0 && !self.r.one_in(6) {
            let n = self.r.below(4);
            Node::Cons(id, (0..n).map(|_| self.elem(depth - 1)).collect())
        } else {
            Node::Leaf(id, if cons && self.r.one_in(2) { vec![] } else { self.content(id) })
        }
    }
    pub fn forest(&mut self) -> Node {
        let n = 1 + self.r.below(3);
        let depth = if self.r.one_in(10) { 8 } else { 3 };
        Node::Cons(0x30, (0..n).map(|_| self.elem(depth)).collect())
    }
    /// Octets with a local change.
    pub fn bend(&mut self, v: &mut Vec<u8>) {
        let n = v.len();
        match self.r.below(8) {
            0 if n > 0 => {
                let i = self.r.below(n);
                v[i] ^= 1 << self.r.below(8)
            }
            1 if n > 0 => {
                let i = self.r.below(n);
                v[i] = self.byte()
            }
            2 if n > 0 => {
                v.remove(self.r.below(n));
            }
            3 => {
                let i = self.r.below(n + 1);
                let b = self.byte();
                v.insert(i, b)
            }
            4 => v.truncate(self.r.below(n + 1)),
            5 => {
                let b = self.byte();
                v.push(b)
            }
            6 if n > 1 => {
                let i = self.r.below(n - 1);
                v.swap(i, i + 1)
            }
            _ => {
                let k = 1 + self.r.below(3);
                for _ in 0..k {
                    let b = self.byte();
                    v.push(b)
                }
            }
        }
    }
    /// An element with an unusual header.
    pub fn odd_header(&mut self, n: &Node) -> Vec<u8> {
        let b = n.bytes();
        let c = n.content();
        if b.is_empty() {
            return b;
        }
        let id = b[0];
        let l = c.len();
        let mut v = vec![id];
        match self.r.below(9) {
            0 => v.push(0x80),
            1 => v.push(0xFF),
            2 => {
                // too many length octets
                let k = 1 + self.r.below(6);
                v.push(0x80 + k as u8);
                let be = (l as u64).to_be_bytes();
                v.extend_from_slice(&be[8 - k.min(8)..])
            }
            3 => {
                let x = l + 1 + self.r.below(3);
                return [header(id, x), c].concat();
            }
            4 => {
                let x = l.saturating_sub(1 + self.r.below(3));
                return [header(id, x), c].concat();
            }
            5 => {
                let x = self.num() as usize & 0xFFFF_FFFF;
                return [header(id, x), c].concat();
            }
            6 => {
                let b = self.byte();
                v.push(b);
                if self.r.one_in(2) {
                    v.extend(self.octets())
                }
            }
            7 => return vec![id],
            _ => {
                v.push(0x80 + self.r.below(128) as u8);
                v.extend((l as u32).to_be_bytes())
            }
        }
        v.extend(c);
        v
    }
    pub fn mutate(&mut self, root: &mut Node) {
        let total = root.count();
        let i = self.r.below(total);
        let op = self.r.below(12);
        let new = self.elem(2);
        let leaf_id = if let Node::Leaf(id, _) = root.at(i) { Some(*id) } else { None };
        match op {
            0..=4 => {
                let r = &mut self.r;
                let n = root.at(i);
                if let Node::Cons(_, k) = n {
                    match op {
                        0 if !k.is_empty() => {
                            k.remove(r.below(k.len()));
                        }
                        1 if !k.is_empty() => {
                            let x = k[r.below(k.len())].clone();
                            k.insert(r.below(k.len() + 1), x)
                        }
                        2 if k.len() > 1 => {
                            let a = r.below(k.len() - 1);
                            k.swap(a, a + 1)
                        }
                        3 => k.push(new),
                        _ => k.insert(r.below(k.len() + 1), new),
                    }
                } else if let Some(id) = leaf_id {
                    let c = self.content(id);
                    *root.at(i) = Node::Leaf(id, c)
                }
            }
            5 | 6 => {
                let id = self.id();
                match root.at(i) {
                    Node::Leaf(x, _) | Node::Cons(x, _) => *x = id,
                    _ => {}
                }
            }
            7 => {
                let mut c = root.at(i).content();
                self.bend(&mut c);
                match root.at(i) {
                    Node::Leaf(_, x) => *x = c,
                    n @ Node::Cons(..) => {
                        let id = if let Node::Cons(id, _) = n { *id } else { 0 };
                        *n = Node::Leaf(id, c)
                    }
                    _ => {}
                }
            }
            8 => {
                let n = root.at(i).clone();
                let v = self.odd_header(&n);
                *root.at(i) = Node::Raw(v)
            }
            9 => {
                let mut v = root.at(i).bytes();
                self.bend(&mut v);
                *root.at(i) = Node::Raw(v)
            }
            10 => *root.at(i) = new,
            _ => {
                if let Some(id) = leaf_id {
                    let c = self.content(id);
                    *root.at(i) = Node::Leaf(id, c)
                } else if let Node::Cons(_, k) = root.at(i) {
                    k.push(Node::Raw(vec![0x30]))
                }
            }
        }
    }
    fn leaf(&mut self, id: u8, c: Vec<u8>) -> Node {
        Node::Leaf(id, c)
    }
    pub fn alg(&mut self) -> Node {
        let o = if self.r.one_in(2) { oid_bytes(&self.known_arcs()) } else { oid_bytes(&self.arcs()) };
        let mut k = vec![Node::Leaf(0x06, o)];
        match self.r.below(4) {
            0 => {}
            1 | 2 => k.push(Node::Leaf(0x05, vec![])),
            _ => {
                let e = self.elem(2);
                k.push(e)
            }
        }
        Node::Cons(0x30, k)
    }
    pub fn good_text(&mut self) -> Vec<u8> {
        loop {
            let t = self.text();
            if std::str::from_utf8(&t).is_ok() {
                return t;
            }
        }
    }
    pub fn attr(&mut self) -> Node {
        let o = match self.r.below(6) {
            0 => oid_bytes(&self.arcs()),
            1 => oid_bytes(&self.known_arcs()),
            _ => oid_bytes(&[2, 5, 4, self.r.pick(&[3, 6, 7, 8, 10, 11])]),
        };
        let v = if self.r.one_in(8) {
            self.elem(1)
        } else {
            let id = self.r.pick(&[0x0C, 0x13, 0x16]);
            let t = self.good_text();
            self.leaf(id, t)
        };
        Node::Cons(0x30, vec![Node::Leaf(0x06, o), v])
    }
    pub fn name(&mut self) -> Node {
        let n = self.r.below(5);
        let k = (0..n)
            .map(|_| {
                let m = if self.r.one_in(5) { self.r.below(4) } else { 1 };
                let k = (0..m).map(|_| self.attr()).collect();
                Node::Cons(0x31, k)
            })
            .collect();
        Node::Cons(0x30, k)
    }
    pub fn ext_value(&mut self, which: usize) -> Node {
        match which {
            0 => {
                let o = self.octets();
                self.leaf(0x04, o)
            }
            1 => {
                if self.r.one_in(4) {
                    let b = self.bits();
                    self.leaf(0x03, b)
                } else {
                    let (a, b) = (self.byte(), self.byte());
                    let v = match self.r.below(4) {
                        0 => vec![0],
                        1 => vec![self.r.below(8) as u8, a],
                        2 => vec![self.r.below(8) as u8, a, b],
                        _ => vec![self.r.below(8) as u8, a, b, a],
                    };
                    self.leaf(0x03, v)
                }
            }
            2 => {
                let n = self.r.below(4);
                let k = (0..n)
                    .map(|_| {
                        let t = self.r.pick(&[1u8, 2, 6, 7, 8]);
                        let t = if self.r.one_in(10) { self.r.below(32) as u8 } else { t };
                        let c = match t {
                            7 => self.octets(),
                            8 => {
                                if self.r.one_in(4) {
                                    self.oid_content()
                                } else {
                                    oid_bytes(&self.arcs())
                                }
                            }
                            _ => self.text(),
                        };
                        let base = if self.r.one_in(4) { 0xA0 } else { 0x80 };
                        Node::Leaf(base + t, c)
                    })
                    .collect();
                Node::Cons(0x30, k)
            }
            3 => {
                let mut k = vec![];
                if self.r.one_in(2) {
                    let b = self.r.pick(&[0u8, 0xFF]);
                    k.push(Node::Leaf(0x01, vec![b]))
                }
                if self.r.one_in(2) {
                    let c = self.content(0x02);
                    k.push(Node::Leaf(0x02, c))
                }
                Node::Cons(0x30, k)
            }
            4 => {
                let n = self.r.below(5);
                let k = (0..n)
                    .map(|_| {
                        let a = self.r.pick(&[1u32, 2, 3, 4, 8, 9]);
                        let o = if self.r.one_in(12) { self.known_arcs() } else { vec![1, 3, 6, 1, 5, 5, 7, 3, a] };
                        Node::Leaf(0x06, oid_bytes(&o))
                    })
                    .collect();
                Node::Cons(0x30, k)
            }
            5 => {
                let t = self.text();
                self.leaf(0x0C, t)
            }
            _ => self.elem(2),
        }
    }
    pub const EXT_OIDS: [&'static [u32]; 6] = [&[2, 5, 29, 14], &[2, 5, 29, 15], &[2, 5, 29, 17], &[2, 5, 29, 19], &[2, 5, 29, 37], &[1, 3, 6, 1, 4, 1, 50316, 802, 1]];
    /// which: the recognised extension, or any
    pub fn ext(&mut self, which: Option<usize>) -> Node {
        let w = which.unwrap_or_else(|| self.r.below(8));
        let o = if w < 6 {
            oid_bytes(Self::EXT_OIDS[w])
        } else if self.r.one_in(2) {
            oid_bytes(&self.known_arcs())
        } else {
            oid_bytes(&self.arcs())
        };
        let mut k = vec![Node::Leaf(0x06, o)];
        match self.r.below(4) {
            0 => k.push(Node::Leaf(0x01, vec![0xFF])),
            1 => k.push(Node::Leaf(0x01, vec![0])),
            _ => {}
        }
        let v = self.ext_value(w);
        // the value is wrapped: a constructed node with the identifier of an OCTET STRING
        k.push(if w >= 6 && self.r.one_in(2) { Node::Leaf(0x04, self.octets()) } else { Node::Cons(0x04, vec![v]) });
        Node::Cons(0x30, k)
    }
    pub fn exts(&mut self) -> Node {
        let n = self.r.below(5);
        Node::Cons(0x30, (0..n).map(|_| self.ext(None)).collect())
    }
    pub fn cert(&mut self) -> Node {
        let mut t = vec![];
        match self.r.below(6) {
            0 => {}
            1 => {
                let c = self.content(0x02);
                t.push(Node::Cons(0xA0, vec![Node::Leaf(0x02, c)]))
            }
            _ => {
                let v = self.r.below(3) as u8;
                t.push(Node::Cons(0xA0, vec![Node::Leaf(0x02, vec![v])]))
            }
        }
        let c = loop {
            let c = self.content(0x02);
            if !c.is_empty() {
                break c;
            }
        };
        t.push(Node::Leaf(0x02, c));
        t.push(self.alg());
        t.push(self.name());
        let time = |g: &mut Self| {
            if g.r.one_in(3) {
                Node::Leaf(0x18, time_text(0x18, 1970 + g.r.below(8000) as i64, [1 + g.r.below(12) as i64, 1 + g.r.below(28) as i64, g.r.below(24) as i64, g.r.below(60) as i64, g.r.below(60) as i64]))
            } else {
                Node::Leaf(0x17, time_text(0x17, 1970 + g.r.below(80) as i64, [1 + g.r.below(12) as i64, 1 + g.r.below(28) as i64, g.r.below(24) as i64, g.r.below(60) as i64, g.r.below(60) as i64]))
            }
        };
        let (a, b) = (time(self), time(self));
        t.push(Node::Cons(0x30, vec![a, b]));
        t.push(self.name());
        let bits = |g: &mut Self| {
            let mut v = vec![if g.r.one_in(4) { g.r.below(8) as u8 } else { 0 }, g.r.byte()];
            v.extend(g.octets());
            v
        };
        let (al, bb) = (self.alg(), bits(self));
        t.push(Node::Cons(0x30, vec![al, Node::Leaf(0x03, bb)]));
        if self.r.one_in(3) {
            let b = bits(self);
            t.push(Node::Leaf(self.r.pick(&[0x81, 0x81, 0x81, 0xA1]), b))
        }
        if self.r.one_in(3) {
            let b = bits(self);
            t.push(Node::Leaf(self.r.pick(&[0x82, 0x82, 0x82, 0xA2]), b))
        }
        if self.r.one_in(2) {
            let e = self.exts();
            t.push(Node::Cons(0xA3, vec![e]))
        }
        let (al, bb) = (self.alg(), bits(self));
        Node::Cons(0x30, vec![Node::Cons(0x30, t), al, Node::Leaf(0x03, bb)])
    }
}

/// A certificate whose extensions field holds the given octets.
pub fn cert_with_extensions(x: &[u8]) -> Vec<u8> {
    let alg = tlv(0x30, &tlv(0x06, &[0x2b, 0x65, 0x70]));
    let t = tlv(0x17, b"200101000000Z");
    let mut tbs = vec![0xA0, 3, 2, 1, 2, 2, 1, 9];
    tbs.extend(&alg);
    tbs.extend([0x30, 0]);
    tbs.extend(tlv(0x30, &[t.clone(), t].concat()));
    tbs.extend([0x30, 0]);
    tbs.extend(tlv(0x30, &[alg.clone(), vec![3, 2, 0, 7]].concat()));
    tbs.extend(tlv(0xA3, x));
    tlv(0x30, &[tlv(0x30, &tbs), alg, vec![3, 2, 0, 1]].concat())
}
