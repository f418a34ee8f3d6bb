//! Harness functions. They run inside of the symbolic executor (/verif/engine), which gives
//! `verif_sym` bytes a symbolic value, and natively (/verif/harness/replay.c), which gives them the
//! bytes of a counterexample or of an explored path.
#![allow(dead_code)]

pub mod lex;
#[cfg(lolcode_verif)]
pub mod par;
pub mod pos;
#[cfg(lolcode_verif)]
pub mod refpar;

extern "C" {
    fn verif_sym(p: *mut u8, n: usize);
    fn verif_assume(c: bool);
    fn verif_fail(id: u64) -> !;
    fn verif_cover(id: u64);
    fn verif_observe(v: u64);
    fn verif_choose(dst: *mut u8, src: *const u8, size: usize, count: usize, sel: usize);
    fn verif_config(i: u64) -> u64;
    fn verif_concrete(v: u64) -> u64;
    fn verif_note(p: *const u8, n: usize);
}

pub fn sym<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { verif_sym(b.as_mut_ptr(), N) };
    b
}
pub fn sym_byte() -> u8 {
    sym::<1>()[0]
}
pub fn sym_vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { verif_sym(v.as_mut_ptr(), n) };
    }
    v
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { verif_assume(c) }
}
#[inline(always)]
pub fn fail(id: u64) -> ! {
    unsafe { verif_fail(id) }
}
pub fn cover(id: u64) {
    unsafe { verif_cover(id) }
}
/// from here on the property promises a result: a panic or an endless loop breaks it
pub fn promise() {
    cover(60)
}
pub fn observe(v: u64) {
    unsafe { verif_observe(v) }
}
pub fn config(i: u64) -> u64 {
    unsafe { verif_config(i) }
}
pub fn note(b: &[u8]) {
    unsafe { verif_note(b.as_ptr(), b.len()) }
}
/// a bitwise copy of the candidate with the given (symbolic) index
pub fn choose<T>(c: &[T], sel: u8) -> T {
    assume((sel as usize) < c.len());
    let mut out = std::mem::MaybeUninit::<T>::zeroed();
    unsafe {
        verif_choose(out.as_mut_ptr() as *mut u8, c.as_ptr() as *const u8, std::mem::size_of::<T>(), c.len(), sel as usize);
        out.assume_init()
    }
}
/// forks over 0..n
pub fn pick(n: u8) -> u8 {
    let b = sym_byte();
    assume(b < n);
    unsafe { verif_concrete(b as u64) as u8 }
}
/// one of the bytes of the alphabet, as one symbolic value
pub fn one_of(alphabet: &[u8]) -> u8 {
    let b = sym_byte();
    let mut ok = false;
    for a in alphabet {
        ok |= b == *a;
    }
    assume(ok);
    b
}
