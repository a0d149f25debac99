// The specification as it runs: spec/spec.rs, converted by build.rs, over a small
// sequence type whose memory is released all at once between cases.
#![allow(dead_code)]
use std::cell::RefCell;
use std::fmt;
use std::ops::Index;

pub struct Seq<T: Copy + 'static> {
    s: &'static [T],
}
impl<T: Copy> Clone for Seq<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: Copy> Copy for Seq<T> {}
impl<T: Copy + PartialEq> PartialEq for Seq<T> {
    fn eq(&self, o: &Self) -> bool {
        self.s == o.s
    }
}
impl<T: Copy + fmt::Debug> fmt::Debug for Seq<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.s)
    }
}

struct Block {
    p: *mut u8,
    layout: std::alloc::Layout,
    lo: usize, // used octets: lo..hi
    hi: usize,
}

thread_local! {
    static ARENA: RefCell<Vec<Block>> = const { RefCell::new(Vec::new()) };
}

/// Releases every sequence. No sequence made before may be used afterwards.
pub fn release() {
    SOURCE.with(|m| m.borrow_mut().clear());
    ARENA.with(|a| {
        for b in a.borrow_mut().drain(..) {
            unsafe { std::alloc::dealloc(b.p, b.layout) }
        }
    })
}

impl<T: Copy + 'static> Seq<T> {
    pub fn of(v: &[T]) -> Seq<T> {
        Seq { s: &[] }.extend(v)
    }
    /// u followed by v, in a new block with spare room before and after.
    fn fresh(u: &[T], v: &[T], before: usize, after: usize) -> Seq<T> {
        let z = std::mem::size_of::<T>();
        assert!(z > 0);
        ARENA.with(|a| unsafe {
            let layout = std::alloc::Layout::array::<T>(before + u.len() + v.len() + after).unwrap();
            let p = std::alloc::alloc(layout) as *mut T;
            assert!(!p.is_null());
            let q = p.add(before);
            std::ptr::copy_nonoverlapping(u.as_ptr(), q, u.len());
            std::ptr::copy_nonoverlapping(v.as_ptr(), q.add(u.len()), v.len());
            a.borrow_mut().push(Block { p: p as *mut u8, layout, lo: before * z, hi: (before + u.len() + v.len()) * z });
            Seq { s: std::slice::from_raw_parts(q, u.len() + v.len()) }
        })
    }
    /// The sequence followed by v. If the sequence ends where a recent block ends, the block
    /// grows in place: octets that another sequence sees never change.
    fn extend(&self, v: &[T]) -> Seq<T> {
        if v.is_empty() {
            return *self;
        }
        let z = std::mem::size_of::<T>();
        let n = self.s.len();
        let r = ARENA.with(|a| unsafe {
            let mut a = a.borrow_mut();
            let start = self.s.as_ptr() as usize;
            let end = start + n * z;
            for b in a.iter_mut().rev().take(6) {
                if n > 0 && b.layout.align() == std::mem::align_of::<T>() && b.p as usize + b.hi == end && b.hi + v.len() * z <= b.layout.size() && start >= b.p as usize + b.lo {
                    std::ptr::copy_nonoverlapping(v.as_ptr(), b.p.add(b.hi) as *mut T, v.len());
                    b.hi += v.len() * z;
                    return Some(Seq { s: std::slice::from_raw_parts(self.s.as_ptr(), n + v.len()) });
                }
            }
            None
        });
        r.unwrap_or_else(|| Self::fresh(self.s, v, 0, if n == 0 { 0 } else { n + v.len() }))
    }
    /// u followed by the sequence, in place if there is room before it.
    fn prepend(&self, u: &[T]) -> Seq<T> {
        let z = std::mem::size_of::<T>();
        let n = self.s.len();
        let r = ARENA.with(|a| unsafe {
            let mut a = a.borrow_mut();
            let start = self.s.as_ptr() as usize;
            for b in a.iter_mut().rev().take(6) {
                if b.layout.align() == std::mem::align_of::<T>() && b.p as usize + b.lo == start && b.lo >= u.len() * z && start + n * z <= b.p as usize + b.hi {
                    b.lo -= u.len() * z;
                    let q = b.p.add(b.lo) as *mut T;
                    std::ptr::copy_nonoverlapping(u.as_ptr(), q, u.len());
                    return Some(Seq { s: std::slice::from_raw_parts(q, n + u.len()) });
                }
            }
            None
        });
        r.unwrap_or_else(|| Self::fresh(u, self.s, n + u.len(), 0))
    }
    pub fn empty() -> Seq<T> {
        Seq { s: &[] }
    }
    pub fn as_slice(&self) -> &'static [T] {
        self.s
    }
    pub fn len(&self) -> i128 {
        self.s.len() as i128
    }
    pub fn push(&self, x: T) -> Seq<T> {
        self.extend(&[x])
    }
    pub fn add(&self, o: Seq<T>) -> Seq<T> {
        if self.s.is_empty() {
            return o;
        }
        if o.s.len() > self.s.len() {
            return o.prepend(self.s);
        }
        self.extend(o.s)
    }
    pub fn subrange(&self, a: i128, b: i128) -> Seq<T> {
        Seq { s: &self.s[a as usize..b as usize] }
    }
}
impl<T: Copy> Index<i128> for Seq<T> {
    type Output = T;
    fn index(&self, i: i128) -> &T {
        &self.s[i as usize]
    }
}
type Octets = Seq<u8>;
type Text = Seq<char>;

fn oct(s: Octets, i: i128) -> u8 {
    s[i]
}
fn octets_ok(s: Octets) -> bool {
    std::str::from_utf8(s.s).is_ok()
}
thread_local! {
    // which octets a text was made of
    static SOURCE: RefCell<std::collections::HashMap<usize, Octets>> = RefCell::new(Default::default());
}
fn text_of(s: Octets) -> Text {
    let t = Seq::of(&std::str::from_utf8(s.s).unwrap().chars().collect::<Vec<_>>());
    if !s.s.is_empty() {
        SOURCE.with(|m| m.borrow_mut().insert(t.s.as_ptr() as usize, s));
    }
    t
}
pub fn octets_of(t: Text) -> Option<Octets> {
    if t.s.is_empty() {
        return None;
    }
    SOURCE.with(|m| m.borrow().get(&(t.s.as_ptr() as usize)).copied())
}
fn lit(s: &str) -> Seq<char> {
    Seq::of(&s.chars().collect::<Vec<_>>())
}

include!(concat!(env!("OUT_DIR"), "/spec.rs"));
