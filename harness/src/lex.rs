//! Tokenizer harnesses and the reference they are compared against.
//!
//! The reference is written from the documentation of LOLCODE and of the crate: at each place it
//! takes the longest token that can start there.
use crate::*;
use lolcode_ast::lexer::{tokenize, Keywords, NumberToken, Position, Token, TokenError, TokenType, TokenValue};

pub const KEYWORDS: [(&str, Keywords); 56] = [
    ("HAS A", Keywords::HAS_A),
    ("SRS", Keywords::SRS),
    ("TLDR", Keywords::TLDR),
    ("BUKKIT", Keywords::BUKKIT),
    ("HAI", Keywords::HAI),
    ("KTHXBYE", Keywords::KTHXBYE),
    ("I HAS A", Keywords::I_HAS_A),
    ("ITZ", Keywords::ITZ),
    ("TROOF", Keywords::TROOF),
    ("NUMBR", Keywords::NUMBR),
    ("NUMBAR", Keywords::NUMBAR),
    ("YARN", Keywords::YARN),
    ("MKAY", Keywords::MKAY),
    ("AN", Keywords::AN),
    ("SUM OF", Keywords::SUM_OF),
    ("DIFF OF", Keywords::DIFF_OF),
    ("PRODUKT OF", Keywords::PRODUKT_OF),
    ("QUOSHUNT OF", Keywords::QUOSHUNT_OF),
    ("MOD OF", Keywords::MOD_OF),
    ("BIGGR OF", Keywords::BIGGR_OF),
    ("SMALLR OF", Keywords::SMALLR_OF),
    ("BOTH SAEM", Keywords::BOTH_SAEM),
    ("BOTH OF", Keywords::BOTH_OF),
    ("EITHER OF", Keywords::EITHER_OF),
    ("WON OF", Keywords::WON_OF),
    ("NOT", Keywords::NOT),
    ("UPPIN", Keywords::UPPIN),
    ("NERFIN", Keywords::NERFIN),
    ("ALL OF", Keywords::ALL_OF),
    ("ANY OF", Keywords::ANY_OF),
    ("DIFFRINT", Keywords::DIFFRINT),
    ("SMOOSH", Keywords::SMOOSH),
    ("MAEK", Keywords::MAEK),
    ("IS NOW", Keywords::IS_NOW),
    ("VISIBLE", Keywords::VISIBLE),
    ("GIMMEH", Keywords::GIMMEH),
    ("O RLY", Keywords::O_RLY),
    ("YA RLY", Keywords::YA_RLY),
    ("NO WAI", Keywords::NO_WAI),
    ("OIC", Keywords::OIC),
    ("MEBBE", Keywords::MEBBE),
    ("WTF", Keywords::WTF),
    ("OMGWTF", Keywords::OMGWTF),
    ("OMG", Keywords::OMG),
    ("GTFO", Keywords::GTFO),
    ("IM IN YR", Keywords::IM_IN_YR),
    ("YR", Keywords::YR),
    ("TIL", Keywords::TIL),
    ("WILE", Keywords::WILE),
    ("IM OUTTA YR", Keywords::IM_OUTTA_YR),
    ("HOW IZ I", Keywords::HOW_IZ_I),
    ("IF U SAY SO", Keywords::IF_U_SAY_SO),
    ("FOUND YR", Keywords::FOUND_YR),
    ("I IZ", Keywords::I_IZ),
    ("R", Keywords::R),
    ("A", Keywords::A),
];

/// what else a keyword can denote
pub const OTHER_WORDS: [&str; 5] = ["WIN", "FAIL", "NOOB", "BTW", "OBTW"];

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Comma,
    Bang,
    Question,
    Slot,
    Ellipsis,
    LineComment,
    BlockComment,
    True,
    False,
    Noob,
    Keyword(usize),
    Int,
    Float,
    Str,
    Identifier,
    Symbol,
}

#[derive(Clone, Copy)]
pub struct RefToken {
    pub start: usize,
    pub end: usize,
    pub kind: Kind,
}

pub struct Reference {
    pub tokens: Vec<RefToken>,
    /// start of the OBTW that is never closed
    pub unclosed: Option<usize>,
}

fn is_word(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_'
}
fn is_digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn is_blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n'
}
fn at(t: &[u8], i: usize, s: &[u8]) -> bool {
    t.len() - i >= s.len() && &t[i..i + s.len()] == s
}
fn at_word(t: &[u8], i: usize, s: &[u8]) -> bool {
    at(t, i, s) && (i + s.len() == t.len() || !is_word(t[i + s.len()]))
}
fn char_len(c: u8) -> usize {
    if c < 0x80 {
        1
    } else if c < 0xe0 {
        2
    } else if c < 0xf0 {
        3
    } else {
        4
    }
}

fn token_at(t: &[u8], i: usize) -> Result<(usize, Kind), ()> {
    let n = t.len();
    let c = t[i];
    if c == b',' {
        return Ok((i + 1, Kind::Comma));
    }
    if c == b'!' {
        return Ok((i + 1, Kind::Bang));
    }
    if c == b'?' {
        return Ok((i + 1, Kind::Question));
    }
    if c == b'"' {
        let mut j = i + 1;
        while j < n {
            if t[j] == b'"' {
                return Ok((j + 1, Kind::Str));
            }
            if t[j] == b':' && j + 1 < n && (t[j + 1] == b'"' || t[j + 1] == b':') {
                j += 1;
            }
            j += 1;
        }
        return Ok((n, Kind::Str));
    }
    if at(t, i, b"'Z") {
        return Ok((i + 2, Kind::Slot));
    }
    if at(t, i, b"...") {
        return Ok((i + 3, Kind::Ellipsis));
    }
    if at(t, i, "\u{2026}".as_bytes()) {
        return Ok((i + 3, Kind::Ellipsis));
    }
    if is_word(c) {
        if at(t, i, b"BTW") {
            let mut j = i;
            while j < n && t[j] != b'\n' {
                j += 1;
            }
            return Ok((j, Kind::LineComment));
        }
        if at(t, i, b"OBTW") {
            let mut j = i + 4;
            while j < n {
                if at(t, j, b"TLDR") {
                    return Ok((j + 4, Kind::BlockComment));
                }
                j += 1;
            }
            return Err(());
        }
        if at_word(t, i, b"WIN") {
            return Ok((i + 3, Kind::True));
        }
        if at_word(t, i, b"FAIL") {
            return Ok((i + 4, Kind::False));
        }
        if at_word(t, i, b"NOOB") {
            return Ok((i + 4, Kind::Noob));
        }
        let mut best = None;
        let mut best_len = 0;
        for (k, (s, _)) in KEYWORDS.iter().enumerate() {
            if s.len() > best_len && at_word(t, i, s.as_bytes()) {
                best = Some(k);
                best_len = s.len();
            }
        }
        if let Some(k) = best {
            return Ok((i + best_len, Kind::Keyword(k)));
        }
        let mut j = i;
        while j < n && is_word(t[j]) {
            j += 1;
        }
        return Ok((j, Kind::Identifier));
    }
    // numbers
    let mut j = i;
    if c == b'+' || c == b'-' {
        j += 1;
    }
    let mut digits = 0;
    let mut dots = 0;
    while j < n {
        if is_digit(t[j]) {
            digits += 1;
        } else if t[j] == b'.' && dots == 0 {
            dots = 1;
        } else {
            break;
        }
        j += 1;
    }
    if digits > 0 {
        return Ok((j, if dots == 1 { Kind::Float } else { Kind::Int }));
    }
    Ok((i + char_len(c), Kind::Symbol))
}

pub fn reference(t: &[u8]) -> Reference {
    let mut tokens = vec![];
    let mut i = 0;
    while i < t.len() {
        if is_blank(t[i]) {
            i += 1;
            continue;
        }
        match token_at(t, i) {
            Ok((end, kind)) => {
                tokens.push(RefToken { start: i, end, kind });
                i = end;
            }
            Err(()) => return Reference { tokens, unclosed: Some(i) },
        }
    }
    Reference { tokens, unclosed: None }
}

/// value of an integer literal of at most 10 digits that is in the range of i32
fn int_value(s: &[u8]) -> Option<i32> {
    let (neg, d) = match s[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if d.len() > 10 {
        return None;
    }
    if d.len() == 10 {
        // digit by digit against the largest magnitude
        let limit = if neg { b"2147483648" } else { b"2147483647" };
        let mut less = false;
        let mut more = false;
        for i in 0..10 {
            more |= !less & (d[i] > limit[i]);
            less |= !more & (d[i] < limit[i]);
        }
        if more {
            return None;
        }
    }
    let mut v = 0i32;
    for c in d {
        let x = (*c as i32) - 48;
        v = v.wrapping_mul(10);
        v = if neg { v.wrapping_sub(x) } else { v.wrapping_add(x) };
    }
    Some(v)
}

/// does the token have the kind, and the payload spelled by its text?
fn agrees(token: &TokenType, kind: Kind, s: &[u8]) -> bool {
    match (token, kind) {
        (TokenType::Comma, Kind::Comma)
        | (TokenType::ExclamationMark, Kind::Bang)
        | (TokenType::QuestionMark, Kind::Question)
        | (TokenType::BukkitSlotAccess, Kind::Slot)
        | (TokenType::Ellipsis, Kind::Ellipsis)
        | (TokenType::Value(TokenValue::Boolean(true)), Kind::True)
        | (TokenType::Value(TokenValue::Boolean(false)), Kind::False)
        | (TokenType::Value(TokenValue::NOOB), Kind::Noob) => true,
        (TokenType::CommentSingleLine(p), Kind::LineComment) => p.as_bytes() == &s[3..],
        (TokenType::CommentMultiLine(p), Kind::BlockComment) => p.as_bytes() == &s[4..s.len() - 4],
        (TokenType::Keyword(k), Kind::Keyword(i)) => *k == KEYWORDS[i].1,
        (TokenType::Identifier(p), Kind::Identifier) | (TokenType::Symbol(p), Kind::Symbol) => p.as_bytes() == s,
        (TokenType::Value(TokenValue::String(p)), Kind::Str) => {
            // closed when it has a closing quote of its own
            let closed = s.len() > 1 && token_end_is_quote(s);
            p.as_bytes() == &s[1..s.len() - closed as usize]
        }
        (TokenType::Value(TokenValue::Number(NumberToken::Int(v))), Kind::Int) => match int_value(s) {
            Some(x) => x == *v,
            None => true,
        },
        (TokenType::Value(TokenValue::Number(NumberToken::Float(v))), Kind::Float) => {
            let text = unsafe { std::str::from_utf8_unchecked(s) };
            match text.parse::<f32>() {
                Ok(x) => x.to_bits() == v.to_bits(),
                Err(_) => false,
            }
        }
        _ => false,
    }
}

/// the literal (which starts with a quote) is closed by its last character
fn token_end_is_quote(s: &[u8]) -> bool {
    let mut j = 1;
    while j < s.len() {
        if s[j] == b'"' {
            return true;
        }
        if s[j] == b':' && j + 1 < s.len() && (s[j + 1] == b'"' || s[j + 1] == b':') {
            j += 1;
        }
        j += 1;
    }
    false
}

fn out_of_scope(kind: Kind, s: &[u8]) -> bool {
    if kind != Kind::Int {
        return false;
    }
    int_value(s).is_none()
}

fn group(k: Kind) -> u64 {
    match k {
        Kind::Keyword(_) | Kind::True | Kind::False | Kind::Noob => 5,
        Kind::Str => 6,
        Kind::Int | Kind::Float => 7,
        Kind::LineComment | Kind::BlockComment => 8,
        _ => 4,
    }
}
fn group_of(t: &TokenType) -> u64 {
    match t {
        TokenType::Keyword(_) | TokenType::Value(TokenValue::Boolean(_)) | TokenType::Value(TokenValue::NOOB) => 5,
        TokenType::Value(TokenValue::String(_)) => 6,
        TokenType::Value(TokenValue::Number(_)) => 7,
        TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_) => 8,
        _ => 4,
    }
}

pub fn text(bytes: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(bytes.to_vec()) }
}

pub fn position(t: &[u8], at: usize) -> (i32, i32, i32, i32) {
    let (mut line, mut column, mut chars) = (1, 1, 0);
    for c in &t[..at] {
        if *c == b'\n' {
            line += 1;
            column = 1;
        } else {
            column += 1;
        }
        chars += (*c & 0xc0 != 0x80) as i32;
    }
    (line, column, at as i32, chars)
}
pub fn same_position(p: &Position, t: &[u8], at: usize) -> bool {
    (p.line, p.column, p.bytes, p.chars) == position(t, at)
}

const COVER_ERR: u64 = 1;
const COVER_OK: u64 = 2;
/// covers 10.. are the groups of tokens seen
fn cover_tokens(r: &Reference) {
    for t in &r.tokens {
        cover(
            10 + match t.kind {
                Kind::Comma => 0,
                Kind::Bang => 1,
                Kind::Question => 2,
                Kind::Slot => 3,
                Kind::Ellipsis => 4,
                Kind::LineComment => 5,
                Kind::BlockComment => 6,
                Kind::True => 7,
                Kind::False => 8,
                Kind::Noob => 9,
                Kind::Keyword(_) => 10,
                Kind::Int => 11,
                Kind::Float => 12,
                Kind::Str => 13,
                Kind::Identifier => 14,
                Kind::Symbol => 15,
            },
        );
    }
}

fn cover_actual(tokens: &[Token]) {
    for t in tokens {
        cover(match &t.token_type {
            TokenType::CommentSingleLine(_) => 15,
            TokenType::CommentMultiLine(_) => 16,
            TokenType::Keyword(_) => 20,
            TokenType::Value(TokenValue::Number(NumberToken::Int(_))) => 21,
            TokenType::Value(TokenValue::Number(_)) => 22,
            TokenType::Value(TokenValue::String(_)) => 23,
            TokenType::Identifier(_) => 24,
            _ => 25,
        })
    }
}

pub fn observe_tokens(tokens: &[Token]) {
    observe(tokens.len() as u64);
    for t in tokens {
        observe(t.range.0.bytes as u64);
        observe(t.range.1.bytes as u64);
        observe(group_of(&t.token_type));
    }
}

/// Tokenizes the text and checks the property (config 0)
fn check(t: &[u8]) {
    let prop = config(0);
    note(t);
    if prop == 1 || prop >= 5 && reference(t).tokens.iter().any(|x| group(x.kind) == prop) {
        promise();
    }
    let result = tokenize(text(t));
    match prop {
        1 => {
            let r = reference(t);
            match (&result, r.unclosed) {
                (Ok(_), None) => cover(COVER_OK),
                (Err(TokenError::UnclosedMultilineComment(range)), Some(start)) => {
                    cover(COVER_ERR);
                    if !same_position(&range.0, t, start) || !same_position(&range.1, t, t.len()) {
                        fail(1);
                    }
                }
                _ => {
                    // a text where the two disagree on what comes before is not about OBTW
                    fail(1)
                }
            }
            cover_tokens(&r);
        }
        2 => {
            if let Ok(tokens) = &result {
                cover_actual(tokens);
                let mut end = 0usize;
                for k in tokens {
                    let (a, b) = (k.range.0.bytes, k.range.1.bytes);
                    if a < end as i32 || b <= a || b > t.len() as i32 {
                        fail(2);
                    }
                    let (a, b) = (a as usize, b as usize);
                    if t[a] & 0xc0 == 0x80 || (b < t.len() && t[b] & 0xc0 == 0x80) {
                        fail(2);
                    }
                    for c in &t[end..a] {
                        if !is_blank(*c) {
                            fail(2);
                        }
                    }
                    end = b;
                    cover(COVER_OK);
                    let inner = match k.token_type {
                        TokenType::Value(TokenValue::String(_)) | TokenType::CommentMultiLine(_) | TokenType::CommentSingleLine(_) => {
0
                        }
                        TokenType::Keyword(_) => 2,
                        _ => 1,
                    };
                    if inner > 0 {
                        for (i, c) in t[a..b].iter().enumerate() {
                            let allowed = inner == 2 && *c == b' ' && i > 0 && i < b - a - 1;
                            if is_blank(*c) && !allowed {
                                fail(2);
                            }
                        }
                    }
                }
                for c in &t[end..] {
                    if !is_blank(*c) {
                        fail(2);
                    }
                }
            } else {
                cover(COVER_ERR);
            }
        }
        3 => {
            if let Ok(tokens) = &result {
                cover_actual(tokens);
                for k in tokens {
                    cover(COVER_OK);
                    for p in [&k.range.0, &k.range.1] {
                        if p.bytes < 0 || p.bytes > t.len() as i32 || !same_position(p, t, p.bytes as usize) {
                            fail(3);
                        }
                        if p.line > 1 {
                            cover(3);
                        }
                        if p.chars != p.bytes {
                            cover(4);
                        }
                    }
                }
                // the ranges are those of the tokens that the text spells
                let r = reference(t);
                if r.unclosed.is_none() && r.tokens.len() == tokens.len() {
                    for (k, x) in tokens.iter().zip(&r.tokens) {
                        if agrees(&k.token_type, x.kind, &t[x.start..x.end])
                            && (!same_position(&k.range.0, t, x.start) || !same_position(&k.range.1, t, x.end))
                        {
                            fail(3);
                        }
                    }
                }
            }
        }
        _ => {
            let r = reference(t);
            if let Ok(tokens) = &result {
                for (i, k) in tokens.iter().enumerate() {
                    let bad = match r.tokens.get(i) {
                        None => true,
                        Some(x) => {
                            let s = &t[x.start..x.end];
                            if out_of_scope(x.kind, s) {
                                return;
                            }
                            k.range.0.bytes as usize != x.start || k.range.1.bytes as usize != x.end || !agrees(&k.token_type, x.kind, s)
                        }
                    };
                    if bad {
                        let g = r.tokens.get(i).map_or(4, |x| group(x.kind));
                        if prop == 4 || g == prop || group_of(&k.token_type) == prop {
                            fail(prop);
                        }
                        return;
                    }
                }
                if r.tokens.len() > tokens.len() {
                    let x = &r.tokens[tokens.len()];
                    if out_of_scope(x.kind, &t[x.start..x.end]) {
                        return;
                    }
                    if prop == 4 || group(x.kind) == prop {
                        fail(prop);
                    }
                    return;
                }
                if r.unclosed.is_some() && prop == 8 {
                    fail(8);
                }
                cover(COVER_OK);
            } else if r.unclosed.is_none() && prop == 8 {
                fail(8);
            }
            cover_tokens(&r);
        }
    }
    match &result {
        Ok(tokens) => observe_tokens(tokens),
        Err(_) => observe(99),
    }
}

// ---- symbolic texts -------------------------------------------------------------------------

/// every valid UTF-8 text of exactly n bytes
pub fn any_text(n: usize) -> Vec<u8> {
    let t = sym_vec(n);
    let cont = |c: u8| c & 0xc0 == 0x80;
    let mut i = 0;
    while i < n {
        let c = t[i];
        if c < 0x80 {
            i += 1;
        } else if c < 0xe0 {
            assume(c >= 0xc2 && i + 1 < n);
            assume(cont(t[i + 1]));
            i += 2;
        } else if c < 0xf0 {
            assume(i + 2 < n);
            assume(cont(t[i + 1]) & cont(t[i + 2]) & ((c != 0xe0) | (t[i + 1] >= 0xa0)) & ((c != 0xed) | (t[i + 1] < 0xa0)));
            i += 3;
        } else {
            assume(c <= 0xf4 && i + 3 < n);
            assume(
                cont(t[i + 1]) & cont(t[i + 2]) & cont(t[i + 3]) & ((c != 0xf0) | (t[i + 1] >= 0x90)) & ((c != 0xf4) | (t[i + 1] < 0x90)),
            );
            i += 4;
        }
    }
    t
}

/// T0: config 1 = number of bytes
#[no_mangle]
pub extern "C" fn h_lex_any() {
    let t = any_text(config(1) as usize);
    check(&t);
}

fn spelling(k: usize) -> &'static [u8] {
    if k < KEYWORDS.len() {
        KEYWORDS[k].0.as_bytes()
    } else {
        OTHER_WORDS[k - KEYWORDS.len()].as_bytes()
    }
}
fn any_spelling() -> &'static [u8] {
    let lo = config(4) as u8;
    let hi = config(5) as u8;
    spelling((lo + pick(hi - lo)) as usize)
}
fn ascii() -> u8 {
    let c = sym_byte();
    assume(c < 0x80);
    c
}

/// T1: a keyword (config 4..5) with config 1 free characters before and config 2 after it
#[no_mangle]
pub extern "C" fn h_lex_keyword() {
    let k = any_spelling();
    let mut t = vec![];
    for _ in 0..config(1) {
        t.push(ascii());
    }
    t.extend_from_slice(k);
    for _ in 0..config(2) {
        t.push(ascii());
    }
    check(&t);
}

/// T1b: a keyword with one of its characters replaced (config 1 = 0) or a character inserted
/// (config 1 = 1), and one free character after it
#[no_mangle]
pub extern "C" fn h_lex_misspelled() {
    let k = any_spelling();
    let insert = config(1) == 1;
    let at = pick(k.len() as u8) as usize;
    let mut t = k.to_vec();
    let c = ascii();
    if insert {
        t.insert(at, c);
    } else {
        t[at] = c;
    }
    if config(2) == 1 {
        t.push(ascii());
    }
    check(&t);
}

/// T1c: two keywords, with a free character between them
#[no_mangle]
pub extern "C" fn h_lex_two_keywords() {
    let k = any_spelling();
    let l = spelling(pick((KEYWORDS.len() + OTHER_WORDS.len()) as u8) as usize);
    let mut t = k.to_vec();
    t.push(ascii());
    t.extend_from_slice(l);
    check(&t);
}

/// characters that matter inside of strings; é and … as multi-byte characters
fn push_char(t: &mut Vec<u8>, alphabet: &[u8], wide: u8) {
    // wide: bit 0 adds é, bit 1 adds …, bit 2 adds 😀
    let extra = (wide & 1) + (wide >> 1 & 1) + (wide >> 2 & 1);
    let mut which = if extra > 0 { pick(1 + extra) } else { 0 };
    if which == 0 {
        t.push(one_of(alphabet));
        return;
    }
    for (bit, c) in ["é", "…", "😀"].iter().enumerate() {
        if wide >> bit & 1 == 1 {
            which -= 1;
            if which == 0 {
                t.extend_from_slice(c.as_bytes());
                return;
            }
        }
    }
}

/// T2: a string literal: quote, config 1 characters, and config 2 more after a closing quote
#[no_mangle]
pub extern "C" fn h_lex_string() {
    let mut t = vec![];
    if config(3) == 1 {
        t.push(one_of(b"x1 \n.:'"));
    }
    t.push(b'"');
    for _ in 0..config(1) {
        push_char(&mut t, b"\":a\n ", 1);
    }
    if config(2) > 0 {
        t.push(b'"');
        for _ in 0..config(2) {
            push_char(&mut t, b"\"xA1 \n,", 0);
        }
    }
    check(&t);
}

/// T2b: keywords and comment markers inside of a string
#[no_mangle]
pub extern "C" fn h_lex_string_words() {
    let mut t = vec![b'"'];
    t.push(one_of(b"\":a\n "));
    t.extend_from_slice(any_spelling());
    t.push(one_of(b"\":a\n "));
    t.push(one_of(b"\":a\n "));
    t.push(b'"');
    t.push(one_of(b"xA1 \n,\""));
    check(&t);
}

/// T3: comments. config 1 = 0: BTW, 1: OBTW; config 2 characters inside, config 3 after TLDR
#[no_mangle]
pub extern "C" fn h_lex_comment() {
    let mut t = vec![];
    if config(4) == 1 {
        t.push(one_of(b"O x\n1\","));
    }
    if config(1) == 0 {
        t.extend_from_slice(b"BTW");
        for _ in 0..config(2) {
            push_char(&mut t, b"\n aT\"", 3);
        }
    } else {
        t.extend_from_slice(b"OBTW");
        for _ in 0..config(2) {
            push_char(&mut t, b"\n TLDR\"", 1);
        }
        if config(3) > 0 {
            t.extend_from_slice(b"TLDR");
            for _ in 1..config(3) {
                push_char(&mut t, b"\n aTLDR,", 0);
            }
        }
    }
    check(&t);
}

/// T3b: two comments of either kind with free characters around them
#[no_mangle]
pub extern "C" fn h_lex_comments() {
    let mut t = vec![];
    for _ in 0..2 {
        t.push(one_of(b"a \n,\"1"));
        match pick(4) {
            0 => t.extend_from_slice(b"BTW"),
            1 => t.extend_from_slice(b"OBTW"),
            2 => t.extend_from_slice(b"TLDR"),
            _ => t.extend_from_slice("…".as_bytes()),
        }
        t.push(one_of(b"a \n,\"O"));
    }
    if pick(2) == 1 {
        t.extend_from_slice(b"TLDR");
    }
    t.push(one_of(b"a \n,"));
    check(&t);
}

/// T4: numbers without (config 2 = 0) or with dots, config 1 characters
#[no_mangle]
pub extern "C" fn h_lex_number() {
    let mut t = vec![];
    if config(3) == 1 {
        t.push(one_of(b"a\n'\"?"));
    }
    let alphabet: &[u8] = if config(2) == 0 { b"+-0123456789 x" } else { b"+-.15 x" };
    for _ in 0..config(1) {
        t.push(one_of(alphabet));
    }
    check(&t);
}

/// T4b: integers of any value: the first config 2 digits of 2147483647 and config 1 free digits,
/// optional sign, something after it
#[no_mangle]
pub extern "C" fn h_lex_integer() {
    let mut t = vec![];
    match pick(3) {
        0 => t.push(b'+'),
        1 => t.push(b'-'),
        _ => {}
    }
    t.extend_from_slice(&b"2147483647"[..config(2) as usize]);
    for _ in 0..config(1) {
        let c = sym_byte();
        assume(is_digit(c));
        t.push(c);
    }
    if pick(2) == 1 {
        let c = ascii();
        assume(c != b'.' && !is_digit(c));
        t.push(c);
    }
    check(&t);
}

/// T4c: floats of config 1 digits before and config 2 after the dot
#[no_mangle]
pub extern "C" fn h_lex_float() {
    let mut t = vec![];
    match pick(3) {
        0 => t.push(b'+'),
        1 => t.push(b'-'),
        _ => {}
    }
    let n = config(1) as usize;
    for i in 0..n + config(2) as usize {
        if i == n {
            t.push(b'.');
        }
        t.push(one_of(b"0379"));
    }
    if config(2) == 0 {
        t.push(b'.');
    }
    if pick(2) == 1 {
        t.push(one_of(b". \nax5-!"));
    }
    check(&t);
}

/// T5: one long token: config 1 = kind, config 2 = length; a free character at every place in turn
#[no_mangle]
pub extern "C" fn h_lex_long() {
    let n = config(2) as usize;
    let at = pick(n as u8) as usize;
    let mut t = vec![];
    let fill = match config(1) {
        0 => b'q',
        1 => {
            t.push(b'"');
            b' '
        }
        2 => {
            t.extend_from_slice(b"BTW");
            b'x'
        }
        3 => {
            t.extend_from_slice(b"OBTW");
            b'L'
        }
        4 => b' ',
        _ => b'&',
    };
    for i in 0..n {
        if i == at {
            t.push(ascii());
        } else {
            t.push(fill);
        }
    }
    match config(1) {
        1 => t.push(b'"'),
        3 => t.extend_from_slice(b"TLDR"),
        _ => {}
    }
    t.push(one_of(b"a \n\""));
    check(&t);
}

const MENU: [&str; 18] = [
    "HAI", "x", "17", "-1.5", "\"s\"", "BTW c\n", "OBTW c\nTLDR", ",", "!", "?", "'Z", "...", "…", "é", "I HAS A", "WIN", "\"é\n\"", "NOOB",
];

/// T6: config 1 items of a menu of tokens, with any blank (or nothing) between them
#[no_mangle]
pub extern "C" fn h_lex_sequence() {
    let n = config(1);
    let mut t = vec![];
    for i in 0..n {
        t.extend_from_slice(MENU[pick(MENU.len() as u8) as usize].as_bytes());
        if i + 1 < n {
            match pick(3) {
                0 => t.push(one_of(b" \t\n")),
                1 => {
                    t.push(one_of(b" \t\n"));
                    t.push(one_of(b" \t\n"));
                }
                _ => {}
            }
        }
    }
    check(&t);
}

// ---- C09 ------------------------------------------------------------------------------------

fn same_tokens_shifted(whole: &[Token], part: &[Token], t: &[u8], offset: usize) -> bool {
    if whole.len() != part.len() {
        return false;
    }
    for (a, b) in whole.iter().zip(part) {
        if a.token_type != b.token_type {
            return false;
        }
        let (l, _, by, ch) = position(t, offset);
        for (p, q) in [(&a.range.0, &b.range.0), (&a.range.1, &b.range.1)] {
            // the parts are split at a line feed: columns are those of the line
            if p.line != q.line + l - 1 || p.bytes != q.bytes + by || p.chars != q.chars + ch || p.column != q.column {
                return false;
            }
        }
    }
    true
}

/// the text, split at the line feed at `k`, tokenizes as its two parts do
fn check_split(t: &[u8], k: usize) {
    note(t);
    let r = reference(t);
    if r.unclosed.map_or(false, |u| u < k) {
        return;
    }
    for x in &r.tokens {
        if x.start <= k && k < x.end {
            return; // inside of a string or of a comment
        }
    }
    let first = tokenize(text(&t[..k]));
    let second = tokenize(text(&t[k + 1..]));
    promise();
    let whole = tokenize(text(t));
    match (whole, first, second) {
        (Ok(w), Ok(a), Ok(b)) => {
            cover(COVER_OK);
            if w.len() != a.len() + b.len() {
                fail(9);
            }
            if !same_tokens_shifted(&w[..a.len()], &a, t, 0) || !same_tokens_shifted(&w[a.len()..], &b, t, k + 1) {
                fail(9);
            }
            observe_tokens(&w);
        }
        (Err(_), Ok(_), Err(_)) => cover(COVER_ERR),
        _ => fail(9),
    }
}

/// config 1 = bytes before, config 2 = bytes after the line feed
#[no_mangle]
pub extern "C" fn h_lex_split() {
    let mut t = any_text(config(1) as usize);
    let k = t.len();
    t.push(b'\n');
    t.extend_from_slice(&any_text(config(2) as usize));
    check_split(&t, k);
}

/// items of the menu around the line feed
#[no_mangle]
pub extern "C" fn h_lex_split_sequence() {
    let mut t = vec![];
    for _ in 0..config(1) {
        t.extend_from_slice(MENU[pick(MENU.len() as u8) as usize].as_bytes());
        t.push(one_of(b" \n!"));
    }
    let k = t.len();
    t.push(b'\n');
    for _ in 0..config(2) {
        t.extend_from_slice(MENU[pick(MENU.len() as u8) as usize].as_bytes());
        t.push(one_of(b" \n!"));
    }
    check_split(&t, k);
}

fn same_kinds(a: &[Token], b: &[Token]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.token_type == y.token_type)
}

/// an extra blank between two tokens changes positions only
fn check_blank(t: &[u8], k: usize) {
    let r = reference(t);
    if r.unclosed.map_or(false, |u| u < k) {
        return;
    }
    for x in &r.tokens {
        if x.start < k && k < x.end {
            return;
        }
        // what follows a BTW is in the comment until the line ends; a string that's not closed
        // extends to the end of the text
        if x.end == k && (x.kind == Kind::LineComment || x.kind == Kind::Str && !token_end_is_quote(&t[x.start..x.end])) {
            return;
        }
    }
    let c = one_of(b" \t\n");
    let mut u = t[..k].to_vec();
    u.push(c);
    u.extend_from_slice(&t[k..]);
    note(&u);
    let plain = tokenize(text(t));
    promise();
    match (plain, tokenize(text(&u))) {
        (Ok(a), Ok(b)) => {
            cover(COVER_OK);
            if !same_kinds(&a, &b) {
                fail(9);
            }
            observe_tokens(&b);
        }
        (Err(_), Err(_)) => cover(COVER_ERR),
        _ => fail(9),
    }
}

/// config 1 = bytes of the text
#[no_mangle]
pub extern "C" fn h_lex_blank() {
    let t = any_text(config(1) as usize);
    let k = pick(t.len() as u8 + 1) as usize;
    if k < t.len() {
        assume(t[k] & 0xc0 != 0x80);
    }
    check_blank(&t, k);
}
#[no_mangle]
pub extern "C" fn h_lex_blank_sequence() {
    let mut t = vec![];
    for _ in 0..config(1) {
        t.extend_from_slice(MENU[pick(MENU.len() as u8) as usize].as_bytes());
        t.push(one_of(b" \n!"));
    }
    let k = pick(t.len() as u8 + 1) as usize;
    if k < t.len() && t[k] & 0xc0 == 0x80 {
        return;
    }
    check_blank(&t, k);
}
