//! Positions (C23).
use crate::lex::{any_text, position};
use crate::*;
use lolcode_ast::lexer::{Position, Range};
use std::cmp::Ordering;

fn fields(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}
fn slice(t: &[u8], a: usize, b: usize) -> &str {
    unsafe { std::str::from_utf8_unchecked(&t[a..b]) }
}
fn boundary(t: &[u8], k: usize) -> bool {
    k == t.len() || t[k] & 0xc0 != 0x80
}

/// config 1 = bytes of the text: all pairs of places in it
#[no_mangle]
pub extern "C" fn h_pos_pair() {
    let n = config(1) as usize;
    let t = any_text(n);
    let i = pick(n as u8 + 1) as usize;
    let j = pick(n as u8 + 1) as usize;
    if !boundary(&t, i) || !boundary(&t, j) {
        return;
    }
    note(&t);
    note(&[i as u8, j as u8]);
    let p = Position::default() + slice(&t, 0, i);
    let q = Position::default() + slice(&t, 0, j);
    if fields(&p) != position(&t, i) || fields(&q) != position(&t, j) {
        fail(23);
    }
    if (p == q) != (i == j) || (p != q) != (i != j) {
        fail(23);
    }
    if p.partial_cmp(&q) != Some(i.cmp(&j)) {
        fail(23);
    }
    if (p < q) != (i < j) || (p <= q) != (i <= j) || (p > q) != (i > j) || (p >= q) != (i >= j) {
        fail(23);
    }
    // ranges
    let whole = Position::default() + slice(&t, 0, n);
    if (Range(p, whole) == Range(q, whole)) != (i == j) || (Range(p, q) == Range(q, p)) != (i == j) {
        fail(23);
    }
    let r: Range = (p, q).into();
    let s: Range = p.into();
    if fields(&r.0) != fields(&p) || fields(&r.1) != fields(&q) || fields(&s.0) != fields(&p) || fields(&s.1) != fields(&p) || (r == s) != (i == j) {
        fail(23);
    }
    match i.cmp(&j) {
        Ordering::Less => {
            cover(2);
            if q.line != p.line {
                cover(3);
            }
            if q.chars - p.chars != q.bytes - p.bytes {
                cover(4);
            }
        }
        Ordering::Equal => cover(5),
        Ordering::Greater => cover(6),
    }
    observe(p.line as u64);
    observe(q.column as u64);
    observe(q.chars as u64);
}

/// config 1 = bytes of the text: advancing any position (config 2 = 1: with coordinates anywhere
/// up to 65535) in one step and in two
#[no_mangle]
pub extern "C" fn h_pos_advance() {
    let n = config(1) as usize;
    let b = sym::<8>();
    let c = |i: usize| b[2 * i] as i32 | (b[2 * i + 1] as i32) << 8;
    let base = Position { line: c(0), column: c(1), bytes: c(2), chars: c(3) };
    let t = any_text(n);
    let k = pick(n as u8 + 1) as usize;
    if !boundary(&t, k) {
        return;
    }
    note(&b);
    note(&t);
    note(&[k as u8]);
    let once = base + slice(&t, 0, n);
    let half = base + slice(&t, 0, k);
    let twice = half + slice(&t, k, n);
    if fields(&once) != fields(&twice) {
        fail(23);
    }
    let mut assigned = base;
    assigned += slice(&t, 0, k);
    if fields(&assigned) != fields(&half) || fields(&(half + "")) != fields(&half) {
        fail(23);
    }
    // the coordinates move as the text says
    let (l, col, by, ch) = position(&t, n);
    let column = if l == 1 { base.column + col - 1 } else { col };
    if fields(&once) != (base.line + l - 1, column, base.bytes + by, base.chars + ch) {
        fail(23);
    }
    cover(2);
    if l > 1 {
        cover(3);
    }
    observe(once.line as u64);
    observe(once.column as u64);
    observe(once.bytes as u64);
    observe(once.chars as u64);
}
