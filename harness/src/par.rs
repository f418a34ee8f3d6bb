//! Parser harnesses.
//!
//! Tokens are symbolic: each is one of a menu of candidate tokens, selected by a symbolic byte.
//! Line breaks are symbolic bytes that are added to the line numbers.
use crate::refpar::{self, reference, Spec, CLOSE, TOKEN};
use crate::*;
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenType, TokenValue};
use lolcode_ast::parse;
use lolcode_ast::parser::expression::{ASTExpression, VariableAccess};
use lolcode_ast::parser::statements::assignment::VariableAssignment;
use lolcode_ast::parser::verif::{self, tag, Visitor};
use lolcode_ast::parser::ASTBlock;
use std::mem::{forget, ManuallyDrop};

const KW: [(&str, Keywords); 62] = [
    ("BTW", Keywords::BTW),
    ("HAS_A", Keywords::HAS_A),
    ("OBTW", Keywords::OBTW),
    ("SRS", Keywords::SRS),
    ("TLDR", Keywords::TLDR),
    ("BUKKIT", Keywords::BUKKIT),
    ("HAI", Keywords::HAI),
    ("KTHXBYE", Keywords::KTHXBYE),
    ("I_HAS_A", Keywords::I_HAS_A),
    ("ITZ", Keywords::ITZ),
    ("NOOB", Keywords::NOOB),
    ("TROOF", Keywords::TROOF),
    ("FAIL", Keywords::FAIL),
    ("WIN", Keywords::WIN),
    ("NUMBR", Keywords::NUMBR),
    ("NUMBAR", Keywords::NUMBAR),
    ("YARN", Keywords::YARN),
    ("MKAY", Keywords::MKAY),
    ("AN", Keywords::AN),
    ("SUM_OF", Keywords::SUM_OF),
    ("DIFF_OF", Keywords::DIFF_OF),
    ("PRODUKT_OF", Keywords::PRODUKT_OF),
    ("QUOSHUNT_OF", Keywords::QUOSHUNT_OF),
    ("MOD_OF", Keywords::MOD_OF),
    ("BIGGR_OF", Keywords::BIGGR_OF),
    ("SMALLR_OF", Keywords::SMALLR_OF),
    ("BOTH_SAEM", Keywords::BOTH_SAEM),
    ("BOTH_OF", Keywords::BOTH_OF),
    ("EITHER_OF", Keywords::EITHER_OF),
    ("WON_OF", Keywords::WON_OF),
    ("NOT", Keywords::NOT),
    ("UPPIN", Keywords::UPPIN),
    ("NERFIN", Keywords::NERFIN),
    ("ALL_OF", Keywords::ALL_OF),
    ("ANY_OF", Keywords::ANY_OF),
    ("DIFFRINT", Keywords::DIFFRINT),
    ("SMOOSH", Keywords::SMOOSH),
    ("MAEK", Keywords::MAEK),
    ("IS_NOW", Keywords::IS_NOW),
    ("VISIBLE", Keywords::VISIBLE),
    ("GIMMEH", Keywords::GIMMEH),
    ("O_RLY", Keywords::O_RLY),
    ("YA_RLY", Keywords::YA_RLY),
    ("NO_WAI", Keywords::NO_WAI),
    ("OIC", Keywords::OIC),
    ("MEBBE", Keywords::MEBBE),
    ("WTF", Keywords::WTF),
    ("OMGWTF", Keywords::OMGWTF),
    ("OMG", Keywords::OMG),
    ("GTFO", Keywords::GTFO),
    ("IM_IN_YR", Keywords::IM_IN_YR),
    ("YR", Keywords::YR),
    ("TIL", Keywords::TIL),
    ("WILE", Keywords::WILE),
    ("IM_OUTTA_YR", Keywords::IM_OUTTA_YR),
    ("HOW_IZ_I", Keywords::HOW_IZ_I),
    ("IF_U_SAY_SO", Keywords::IF_U_SAY_SO),
    ("FOUND_YR", Keywords::FOUND_YR),
    ("I_IZ", Keywords::I_IZ),
    ("R", Keywords::R),
    ("A", Keywords::A),
    ("NOOB", Keywords::NOOB),
];
const OTHERS: [&str; 16] = ["x", "y", "7", "1.5", "\"s\"", "WIN", "FAIL", "noob", "?", "+", "QM", "!", "'Z", ",", "...", "BTW"];

/// a String over static memory (with no capacity, so that it is never freed)
fn string(s: &'static str) -> String {
    unsafe { String::from_raw_parts(s.as_ptr() as *mut u8, s.len(), 0) }
}

/// the token a word of a menu or template stands for, and its kind for the reference
fn candidate(word: &str) -> (TokenType, u8) {
    use refpar::*;
    let value = |v| (TokenType::Value(v), VALUE);
    match word {
        "x" => return (TokenType::Identifier(string("x")), ID),
        "y" => return (TokenType::Identifier(string("y")), ID),
        "7" => return value(TokenValue::Number(NumberToken::Int(7))),
        "1.5" => return value(TokenValue::Number(NumberToken::Float(1.5))),
        "\"s\"" => return value(TokenValue::String(string("s"))),
        "WIN" => return value(TokenValue::Boolean(true)),
        "FAIL" => return value(TokenValue::Boolean(false)),
        "noob" => return value(TokenValue::NOOB),
        "?" => return (TokenType::Symbol(string("?")), QUESTION),
        "+" => return (TokenType::Symbol(string("+")), SYMBOL),
        "QM" => return (TokenType::QuestionMark, QUESTION),
        "!" => return (TokenType::ExclamationMark, BANG),
        "'Z" => return (TokenType::BukkitSlotAccess, SLOT),
        "," => return (TokenType::Comma, COMMA),
        "..." => return (TokenType::Ellipsis, ELLIPSIS),
        "BTW" => return (TokenType::CommentSingleLine(string("c")), COMMENT),
        "OBTW" => return (TokenType::CommentMultiLine(string("c")), COMMENT),
        _ => {}
    }
    let word = if word == "kWIN" { "WIN" } else { word };
    for (s, k) in KW.iter() {
        if *s == word {
            return (TokenType::Keyword(k.clone()), kw(k.clone()));
        }
    }
    // the keyword variants of the words above
    for (s, k) in [("kFAIL", Keywords::FAIL), ("kBTW", Keywords::BTW), ("kOBTW", Keywords::OBTW)] {
        if s == word {
            return (TokenType::Keyword(k.clone()), kw(k));
        }
    }
    panic!("no candidate {word}")
}

/// candidates for one token
pub struct Menu {
    tokens: ManuallyDrop<Vec<Token>>,
    kinds: Vec<u8>,
    words: Vec<&'static str>,
}

fn token(token_type: TokenType) -> Token {
    let p = Position { line: 0, column: 0, bytes: 0, chars: 0 };
    Token { token_type, range: Range(p, p) }
}

fn words(s: &'static str) -> Menu {
    let mut m = Menu { tokens: ManuallyDrop::new(vec![]), kinds: vec![], words: vec![] };
    for w in s.split(' ') {
        let (t, k) = candidate(w);
        m.tokens.push(token(t));
        m.kinds.push(k);
        m.words.push(w);
    }
    m
}

const ALL: &str = "x 7 1.5 \"s\" WIN FAIL noob ? + QM ! 'Z HAS_A SRS TLDR BUKKIT HAI KTHXBYE I_HAS_A ITZ NOOB TROOF NUMBR NUMBAR YARN MKAY AN SUM_OF DIFF_OF PRODUKT_OF QUOSHUNT_OF MOD_OF BIGGR_OF SMALLR_OF BOTH_SAEM BOTH_OF EITHER_OF WON_OF NOT UPPIN NERFIN ALL_OF ANY_OF DIFFRINT SMOOSH MAEK IS_NOW VISIBLE GIMMEH O_RLY YA_RLY NO_WAI OIC MEBBE WTF OMGWTF OMG GTFO IM_IN_YR YR TIL WILE IM_OUTTA_YR HOW_IZ_I IF_U_SAY_SO FOUND_YR I_IZ R A kWIN kFAIL kBTW kOBTW";

/// menus, by number
const MENUS: [&str; 24] = [
    // 0: every kind of token
    "x 7 1.5 \"s\" WIN FAIL noob ? + QM ! 'Z , ... BTW OBTW HAS_A SRS TLDR BUKKIT HAI KTHXBYE I_HAS_A ITZ NOOB TROOF NUMBR NUMBAR YARN MKAY AN SUM_OF DIFF_OF PRODUKT_OF QUOSHUNT_OF MOD_OF BIGGR_OF SMALLR_OF BOTH_SAEM BOTH_OF EITHER_OF WON_OF NOT UPPIN NERFIN ALL_OF ANY_OF DIFFRINT SMOOSH MAEK IS_NOW VISIBLE GIMMEH O_RLY YA_RLY NO_WAI OIC MEBBE WTF OMGWTF OMG GTFO IM_IN_YR YR TIL WILE IM_OUTTA_YR HOW_IZ_I IF_U_SAY_SO FOUND_YR I_IZ R A kWIN kFAIL kBTW kOBTW",
    // 1: every kind of token but the ones that shape lines
    ALL,
    // 2: expressions, every operator
    "x 7 1.5 \"s\" WIN noob NOOB 'Z SRS AN MKAY NOT SUM_OF DIFF_OF PRODUKT_OF QUOSHUNT_OF MOD_OF BIGGR_OF SMALLR_OF BOTH_SAEM DIFFRINT BOTH_OF EITHER_OF WON_OF ALL_OF ANY_OF SMOOSH",
    // 3: expressions, one operator of each arity
    "x 7 'Z SRS AN MKAY NOT SUM_OF ALL_OF",
    // 4: expressions without variables' parts
    "x AN MKAY NOT DIFF_OF SMOOSH",
    // 5: variables
    "x SRS 'Z",
    // 6: what can follow the first token of a simple statement
    "x 7 SRS 'Z ITZ NUMBR R HAS_A YR AN MKAY ! NOT SUM_OF SMOOSH",
    // 7: I HAS A
    "x SRS ITZ NUMBR NUMBAR YARN TROOF BUKKIT NOOB noob 7 \"s\" NOT SUM_OF AN 'Z +",
    // 8: VISIBLE
    "x 7 ! 'Z NOT SUM_OF AN SMOOSH MKAY",
    // 9: assignments and slots
    "x SRS 'Z R HAS_A ITZ 7 NOT SUM_OF AN",
    // 10: I IZ
    "x SRS 'Z YR AN MKAY 7 NOT SUM_OF ALL_OF",
    // 11: loop headers
    "x SRS 'Z UPPIN NERFIN YR TIL WILE 7 NOT BOTH_SAEM AN",
    // 12: function headers
    "x SRS YR AN 7 'Z",
    // 13: starts of simple statements
    "x SRS I_HAS_A VISIBLE GIMMEH FOUND_YR I_IZ HAI KTHXBYE GTFO NOT SUM_OF 7",
    // 14: marks of blocks
    "O_RLY QM YA_RLY MEBBE NO_WAI OIC WTF OMG OMGWTF IM_IN_YR IM_OUTTA_YR HOW_IZ_I IF_U_SAY_SO x 7",
    // 15: tokens that end or join statements, and a few others
    "x 7 , ... R SUM_OF AN VISIBLE",
    // 16: with comments
    "x 7 , ... BTW OBTW R VISIBLE",
    // 17: if blocks
    "O_RLY QM YA_RLY MEBBE NO_WAI OIC x",
    // 18: switch blocks
    "WTF QM OMG OMGWTF OIC 7 x",
    // 19: loops and functions
    "IM_IN_YR IM_OUTTA_YR HOW_IZ_I IF_U_SAY_SO x GTFO 7",
    // 20: a few of everything
    "x 7 R VISIBLE SUM_OF AN OIC O_RLY QM YA_RLY IM_IN_YR IM_OUTTA_YR",
    // 21: starts of every statement
    "x SRS I_HAS_A VISIBLE GIMMEH FOUND_YR I_IZ HAI KTHXBYE GTFO NOT SUM_OF SMOOSH 7 IM_IN_YR HOW_IZ_I WTF O_RLY MEBBE OIC OMG ! R MAEK +",
    // 22: what can follow in any statement
    "x 7 SRS 'Z ITZ NUMBR R HAS_A YR AN MKAY ! NOT SUM_OF SMOOSH QM UPPIN TIL",
    // 23
    "x 7 R",
];

/// fixed parts of programs; | is a line break
const PARTS: [&str; 32] = [
    "",
    // 1..: what comes before the free tokens
    "O_RLY QM | MEBBE",
    "WTF QM | OMG",
    "O_RLY",
    "WTF",
    "O_RLY QM | YA_RLY",
    "O_RLY QM | NO_WAI",
    "WTF QM | OMGWTF",
    "IM_IN_YR x",
    "HOW_IZ_I x",
    "I_HAS_A x ITZ",
    "x R",
    "VISIBLE",
    "I_IZ x YR",
    "FOUND_YR",
    "x HAS_A y ITZ",
    "I_HAS_A",
    "I_IZ",
    "GIMMEH",
    // 19..: what comes after them
    "| x | OIC | y",
    "| IM_OUTTA_YR x | y",
    "| x | IF_U_SAY_SO | y",
    "| y",
    "| YA_RLY | x | OIC | y",
    "| OMG 7 | x | OIC | y",
    // 25..: more of what comes before
    "IM_IN_YR x TIL",
    "IM_IN_YR x UPPIN YR",
    "SUM_OF",
    "SMOOSH x AN",
    "IM_IN_YR x | y | IM_OUTTA_YR",
    "HOW_IZ_I x | y | IF_U_SAY_SO",
    "x",
];

/// a token list: fixed and symbolic tokens on symbolic lines
pub struct Input {
    pub tokens: Vec<Token>,
    again: ManuallyDrop<Vec<Token>>,
    pub kinds: Vec<u8>,
    pub ids: Vec<u32>,
    pub breaks: Vec<bool>,
    line: i32,
    next: u32,
    shown: Vec<u8>,
}

fn native() -> bool {
    config(100) != 0
}

impl Input {
    pub fn new() -> Input {
        Input {
            tokens: vec![],
            again: ManuallyDrop::new(vec![]),
            kinds: vec![],
            ids: vec![],
            breaks: vec![],
            line: 1,
            next: 0,
            shown: vec![],
        }
    }
    fn put(&mut self, m: &Menu, sel: u8, lines: u8, id: u32) {
        let (mut t, again, kind) = if m.tokens.len() == 1 {
            unsafe { (std::ptr::read(&m.tokens[0]), std::ptr::read(&m.tokens[0]), m.kinds[0]) }
        } else {
            (choose(&m.tokens, sel), choose(&m.tokens, sel), choose(&m.kinds, sel))
        };
        self.line += lines as i32;
        if native() {
            for _ in 0..lines {
                self.shown.push(b'\n');
            }
            if lines == 0 && self.shown.len() > 0 {
                self.shown.push(b' ');
            }
            self.shown.extend_from_slice(m.words[if m.tokens.len() == 1 { 0 } else { sel as usize }].as_bytes());
        }
        let id = id as i32;
        t.range = Range(
            Position { line: self.line, column: id * 2 + 1, bytes: id, chars: id },
            Position { line: self.line, column: id * 2 + 2, bytes: id + 1, chars: id + 1 },
        );
        let mut again = again;
        again.range = t.range.clone();
        self.tokens.push(t);
        self.again.push(again);
        self.kinds.push(kind);
        self.ids.push(id as u32);
        self.breaks.push(lines != 0);
    }
    /// a token of the program
    pub fn push(&mut self, m: &Menu, sel: u8, lines: u8) {
        let id = self.next;
        self.next += 1;
        self.put(m, sel, lines, id);
    }
    /// a comma, ellipsis or comment: does not count
    pub fn push_aside(&mut self, word: &'static str, lines: u8) {
        self.put(&words(word), 0, lines, 5000 + self.tokens.len() as u32);
    }
    /// the words of a template; | is a line break
    pub fn part(&mut self, s: &'static str) {
        let mut lines = 0;
        for w in s.split(' ') {
            if w == "|" {
                lines += 1;
            } else if w != "" {
                self.push(&words(w), 0, lines);
                lines = 0;
            }
        }
    }
    pub fn show(&self) {
        if native() {
            note(&self.shown);
        }
    }
    pub fn reference(&self, valid_only: bool) -> Spec {
        reference(&self.kinds, &self.ids, &self.breaks, valid_only)
    }
    /// the tokens, to be given to the parser
    pub fn take(&mut self) -> Vec<Token> {
        std::mem::take(&mut self.tokens)
    }
}

/// what the parser made of the tokens
pub struct Shape<'a> {
    pub events: Vec<u32>,
    /// expressions and variables in the order they are opened, and where their events begin
    parts: Vec<Part<'a>>,
    open: Vec<usize>,
    assignments: Vec<&'a VariableAssignment>,
    /// the tokens of the tree in the order they are visited
    tokens: Vec<&'a Token>,
    strange: bool,
}
enum Part<'a> {
    Expression(&'a ASTExpression),
    Variable(&'a VariableAccess),
}

fn id_of(t: &Token) -> u32 {
    t.range.0.bytes as u32
}

impl<'a> Visitor for Shape<'a> {
    fn open(&mut self, tag: u32) {
        self.events.push(tag);
    }
    fn token(&mut self, t: &Token) {
        let id = id_of(t);
        if id >= 10000 {
            self.strange = true;
        }
        self.events.push(TOKEN + id % 10000);
        self.tokens.push(unsafe { &*(t as *const Token) });
    }
    fn close(&mut self) {
        self.events.push(CLOSE);
    }
    fn expression(&mut self, e: &ASTExpression) {
        self.parts.push(Part::Expression(unsafe { &*(e as *const ASTExpression) }));
        self.open.push(self.events.len());
    }
    fn variable_access(&mut self, v: &VariableAccess) {
        self.parts.push(Part::Variable(unsafe { &*(v as *const VariableAccess) }));
        self.open.push(self.events.len());
    }
    fn assignment(&mut self, a: &VariableAssignment) {
        self.assignments.push(unsafe { &*(a as *const VariableAssignment) });
    }
}

fn empty_shape<'a>() -> Shape<'a> {
    Shape { events: vec![], parts: vec![], open: vec![], assignments: vec![], tokens: vec![], strange: false }
}

fn shape(block: &ASTBlock) -> Shape<'_> {
    let mut s = empty_shape();
    verif::visit_block(block, &mut s);
    s
}

fn is_error(e: u32) -> bool {
    e > tag::FIRST_ERROR && e < TOKEN
}
fn has_error(events: &[u32]) -> bool {
    events.iter().any(|e| is_error(*e))
}

/// runs of error nodes become one `FIRST_ERROR`
fn without_errors(events: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut inside = false;
    for e in events {
        if is_error(*e) {
            inside = true;
            if r.last() != Some(&tag::FIRST_ERROR) {
                r.push(tag::FIRST_ERROR);
            }
        } else if inside {
            inside = *e != CLOSE;
        } else {
            r.push(*e);
        }
    }
    r
}

/// statements and blocks without their contents, errors with theirs
fn around_errors(events: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut stack = vec![];
    for e in events {
        if *e == CLOSE {
            if stack.pop() != Some(0) {
                r.push(CLOSE);
            }
        } else if *e >= TOKEN {
            if stack.last() == Some(&2) {
                r.push(*e);
            }
        } else {
            let keep = if is_error(*e) {
                2
            } else if *e <= tag::KTHXBYE || (*e >= tag::OMG && *e <= tag::NO_WAI) {
                1
            } else {
                0
            };
            stack.push(keep);
            if keep > 0 {
                r.push(*e);
            }
        }
    }
    r
}

fn is_missing(e: u32) -> bool {
    matches!(
        e,
        tag::MISSING_TOKEN
            | tag::MISSING_BLOCK_CLOSING_TOKEN
            | tag::MISSING_OPERANDS
            | tag::I_HAS_A_MISSING_IDENTIFIER
            | tag::I_HAS_A_EXPECTED_INITIAL_VALUE
            | tag::ASSIGNMENT_MISSING_R
            | tag::ASSIGNMENT_EXPECTED_VALUE
            | tag::O_RLY_MISSING_QUESTION_MARK
            | tag::O_RLY_MISSING_MEBBE_EXPRESSION
            | tag::HOW_IZ_I_MISSING_NAME
            | tag::I_IZ_MISSING_NAME
            | tag::I_IZ_MISSING_ARGUMENT
            | tag::I_IZ_MISSING_MKAY
            | tag::IM_IN_YR_MISSING_YR
            | tag::IM_IN_YR_MISSING_START_LABEL
            | tag::IM_IN_YR_MISSING_END_LABEL
            | tag::IM_IN_YR_MISSING_IM_OUTTA_YR
            | tag::IM_IN_YR_MISSING_OPERAND
            | tag::IM_IN_YR_MISSING_CONDITIONAL_EXPRESSION
    )
}

fn observe_events(events: &[u32]) {
    for e in events {
        observe(*e as u64);
    }
}

/// labels: every kind of node and error the reference expects
fn cover_events(events: &[u32]) {
    for e in events {
        if *e < TOKEN && *e != CLOSE {
            cover(100 + *e as u64);
        }
    }
}

const ENDED: u64 = 2;
const WITH_ERROR: u64 = 3;
const WITHOUT_ERROR: u64 = 4;

/// C22
fn check_tokens(s: &Shape, input: &Input) {
    let mut next = 0;
    // first token that belongs to the current statement
    let mut depth = 0;
    let mut missing = false;
    let mut k = 0;
    for e in &s.events {
        if *e == CLOSE {
            depth -= 1;
            missing = false;
        } else if *e < TOKEN {
            depth += 1;
            missing = is_missing(*e);
        } else {
            let t = s.tokens[k];
            k += 1;
            let id = id_of(t);
            let place = input.ids.iter().position(|x| *x == id);
            let place = match place {
                Some(p) => p,
                None => fail(22),
            };
            let original = &input.again[place];
            let (a, b) = (&t.range, &original.range);
            for (p, q) in [(&a.0, &b.0), (&a.1, &b.1)] {
                if (p.line != q.line) | (p.column != q.column) | (p.bytes != q.bytes) | (p.chars != q.chars) {
                    fail(22);
                }
            }
            if t.token_type != original.token_type {
                fail(22);
            }
            if !missing {
                if id < next {
                    fail(22);
                }
                next = id + 1;
            }
        }
    }
    let _ = depth;
}

/// C12
fn check_parts(s: &Shape, r: &Spec) {
    if s.parts.len() != r.spans.len() {
        return; // the tree itself is another one
    }
    for (part, (what, first, last)) in s.parts.iter().zip(&r.spans) {
        match part {
            Part::Expression(_) if *what == tag::EXPRESSION => {}
            Part::Variable(_) if *what == tag::VARIABLE => {}
            _ => return,
        }
        let _ = (first, last);
    }
    for (part, (_, first, last)) in s.parts.iter().zip(&r.spans) {
        let expected = r.ids(*first, *last);
        let (tokens, range): (Vec<&Token>, _) = match part {
            Part::Expression(e) => (e.tokens().take(expected.len() + 2).collect(), e.range()),
            Part::Variable(v) => (v.tokens().take(expected.len() + 2).collect(), v.range()),
        };
        check_token_list(&tokens, range, expected);
        cover(20);
    }
    for a in &s.assignments {
        let mut tokens: Vec<&Token> = vec![];
        verif::assignment_tokens(a, &mut |t| tokens.push(unsafe { &*(t as *const Token) }));
        let range = verif::assignment_range(a);
        // the variable's tokens, R, the value's tokens
        let (v, e) = verif::assignment_parts(a);
        let mut first = 0;
        let mut last = 0;
        for (part, (_, f, l)) in s.parts.iter().zip(&r.spans) {
            match part {
                Part::Variable(p) if std::ptr::eq(*p, v) => first = *f,
                Part::Expression(p) if std::ptr::eq(*p, e) => last = *l,
                _ => {}
            }
        }
        check_token_list(&tokens, range, r.ids(first, last));
        cover(21);
    }
}
fn check_token_list(tokens: &[&Token], range: (&Position, &Position), expected: &[u32]) {
    if tokens.len() != expected.len() {
        fail(12);
    }
    for (t, id) in tokens.iter().zip(expected) {
        if id_of(t) != *id {
            fail(12);
        }
    }
    let id = expected[0];
    let end = expected[expected.len() - 1];
    let (a, b) = range;
    let (c, d) = (&tokens[0].range.0, &tokens[tokens.len() - 1].range.1);
    if a.bytes as u32 != id || b.bytes as u32 != end + 1 {
        fail(12);
    }
    for (p, q) in [(a, c), (b, d)] {
        if (p.line != q.line) | (p.column != q.column) | (p.bytes != q.bytes) | (p.chars != q.chars) {
            fail(12);
        }
    }
}

/// C20
fn check_errors(block: &ASTBlock, s: &Shape) {
    let mut expected: Vec<u32> = vec![];
    let mut inside = false;
    for e in &s.events {
        inside |= is_error(*e);
        if inside {
            expected.push(*e);
            inside = *e != CLOSE;
        }
    }
    promise();
    let mut found = empty_shape();
    let mut n = 0;
    for e in block.iter_errors() {
        verif::visit_error(e, &mut found);
        n += 1;
        if found.events.len() > expected.len() {
            fail(20);
        }
    }
    if found.events != expected {
        fail(20);
    }
    if n > 1 {
        cover(22);
    }
    if n == 0 {
        cover(23);
    }
}

/// one input against the reference, as the property (config 0) demands
fn run(mut input: Input) {
    let p = config(0);
    input.show();
    let valid = p == 13 || p == 14 || p == 11;
    let early = config(9) == 1;
    let mut spec = None;
    if early {
        // only look at programs without errors
        let r = input.reference(true);
        if r.errors > 0 {
            return;
        }
        spec = Some(r);
    }
    let tokens = input.take();
    if p != 12 && p != 20 && p != 22 {
        promise();
    }
    let block = parse(tokens);
    promise();
    let s = shape(&block);
    if s.strange {
        fail(p);
    }
    match p {
        20 => check_errors(&block, &s),
        22 => check_tokens(&s, &input),
        _ => {
            let r = match spec {
                Some(r) => r,
                None => input.reference(false),
            };
            cover(if r.errors > 0 { WITH_ERROR } else { WITHOUT_ERROR });
            match p {
                10 => {
                    if has_error(&s.events) != (r.errors > 0) {
                        fail(10);
                    }
                }
                12 => check_parts(&s, &r),
                14 if r.errors > 0 => {
                    if without_errors(&s.events) != without_errors(&r.events) {
                        fail(14);
                    }
                }
                19 => {
                    if around_errors(&s.events) != around_errors(&r.events) {
                        fail(19);
                    }
                    cover_events(&r.events);
                }
                _ => {
                    if r.errors > 0 && valid {
                        // a malformed one is not taken for a well-formed one
                        if p == 11 && !has_error(&s.events) {
                            fail(11);
                        }
                    } else {
                        if s.events != r.events {
                            fail(p);
                        }
                        cover_events(&r.events);
                    }
                }
            }
        }
    }
    cover(ENDED);
    observe_events(&s.events);
    forget(s);
    forget(block);
    forget(input);
}

fn line_break(mode: u64) -> u8 {
    if mode == 0 {
        return 0;
    }
    let b = sym_byte();
    assume(b < 2);
    b
}

fn free(input: &mut Input, m: &Menu, n: u64, mode: u64) {
    for i in 0..n {
        let sel = sym_byte();
        let b = if i == 0 && input.kinds.is_empty() { 0 } else { line_break(mode) };
        input.push(m, sel, b);
    }
}

/// fixed tokens, free tokens, fixed tokens
/// config: 1 = part before, 2 = menu of the first free token (+ 1; 0 = as the others), 3 = menu of the others,
/// 4 = number of free tokens, 5 = line breaks (0 none, 1 anywhere), 6 = part after, 9 = without errors only
#[no_mangle]
pub extern "C" fn h_par() {
    let mut input = Input::new();
    input.part(PARTS[config(1) as usize]);
    let mut n = config(4);
    if config(2) > 0 {
        free(&mut input, &words(MENUS[config(2) as usize - 1]), 1, config(5));
        n -= 1;
    }
    free(&mut input, &words(MENUS[config(3) as usize]), n, config(5));
    input.part(PARTS[config(6) as usize]);
    run(input);
}

/// lines of one and of two tokens
const LINES: [(&str, &str, &str); 8] = [
    // 0: all blocks
    (
        "YA_RLY NO_WAI OMGWTF OIC IF_U_SAY_SO x",
        "O_RLY MEBBE WTF OMG IM_IN_YR IM_OUTTA_YR HOW_IZ_I",
        "QM x QM 7 x x y",
    ),
    // 1: if
    ("YA_RLY NO_WAI OIC x", "O_RLY MEBBE", "QM x"),
    // 2: switch
    ("OMGWTF OIC x", "WTF OMG", "QM 7"),
    // 3: loops and functions
    ("IF_U_SAY_SO x GTFO", "IM_IN_YR IM_OUTTA_YR HOW_IZ_I", "x x y"),
    // 4: all blocks and errors
    (
        "YA_RLY NO_WAI OMGWTF OIC IF_U_SAY_SO x MKAY GIMMEH",
        "O_RLY MEBBE WTF OMG IM_IN_YR IM_OUTTA_YR HOW_IZ_I 7 x GTFO",
        "QM x QM 7 x x y 7 7 x",
    ),
    // 5: one block of each kind and errors
    ("YA_RLY OIC IF_U_SAY_SO x MKAY", "O_RLY IM_IN_YR IM_OUTTA_YR HOW_IZ_I 7", "QM x x y 7"),
    // 6: malformed headers too
    ("YA_RLY OIC O_RLY IM_IN_YR HOW_IZ_I WTF OMG MEBBE x", "O_RLY YA_RLY IM_IN_YR IM_OUTTA_YR HOW_IZ_I WTF OMG", "QM x x x x QM 7"),
    // 7: if and loops
    ("YA_RLY OIC x", "O_RLY IM_IN_YR IM_OUTTA_YR", "QM x x"),
];

fn lines(input: &mut Input, menu: u64, n: u64) {
    let (one, two, second) = LINES[menu as usize];
    let (one, two, second) = (words(one), words(two), words(second));
    for i in 0..n {
        let b = (i > 0 || !input.kinds.is_empty()) as u8;
        if pick(2) == 0 {
            input.push(&one, sym_byte(), b);
        } else {
            let sel = sym_byte();
            input.push(&two, sel, b);
            input.push(&second, sel, 0);
        }
    }
}

/// config: 1 = menu of lines, 2 = number of lines, 3 = part before, 6 = part after, 9 = without errors only
#[no_mangle]
pub extern "C" fn h_par_lines() {
    let mut input = Input::new();
    input.part(PARTS[config(3) as usize]);
    lines(&mut input, config(1), config(2));
    input.part(PARTS[config(6) as usize]);
    run(input);
}

// ---- C15 ------------------------------------------------------------------------------------

/// what can follow
const AFTER: [&str; 8] = ["x R 7", "VISIBLE x !", "OIC | x", "IM_IN_YR x | y | IM_OUTTA_YR x", "YA_RLY | OIC", "7 7 | GTFO", "O_RLY QM | NO_WAI | x | OIC", "IF_U_SAY_SO"];

fn offset(input: &Input) -> usize {
    input.kinds.len()
}

/// the tokens from `from` on, once more
fn tokens_of(input: &Input, from: usize, to: usize) -> Vec<Token> {
    let mut r = vec![];
    for t in &input.again[from..to] {
        r.push(unsafe { std::ptr::read(t) });
    }
    r
}

/// `A` then `B` on later lines
fn check_sequence(mut input: Input, a: usize) {
    input.show();
    let n = input.kinds.len();
    let first = reference(&input.kinds[..a], &input.ids[..a], &input.breaks[..a], false);
    if first.open_block || first.open_statement {
        return;
    }
    let first_block = parse(tokens_of(&input, 0, a));
    let second_block = parse(tokens_of(&input, a, n));
    promise();
    let block = parse(input.take());
    let (x, y, s) = (shape(&first_block), shape(&second_block), shape(&block));
    let mut expected = x.events.clone();
    expected.pop();
    expected.extend_from_slice(&y.events[1..]);
    if s.events != expected {
        fail(15);
    }
    cover(if has_error(&x.events) { WITH_ERROR } else { WITHOUT_ERROR });
    cover(ENDED);
    observe_events(&s.events);
    forget((x, y, s));
    forget((first_block, second_block, block, input));
}

/// config: 1 = part before, 2 = menu of the first token + 1, 3 = menu of the others, 4 = their number, 5 = line breaks, 6 = part after (still of A),
/// 7 = what follows: 0 = one of a menu of programs, k = k - 1 free tokens
#[no_mangle]
pub extern "C" fn h_par_sequence() {
    let mut input = Input::new();
    input.part(PARTS[config(1) as usize]);
    let mut n = config(4);
    if config(2) > 0 {
        free(&mut input, &words(MENUS[config(2) as usize - 1]), 1, config(5));
        n -= 1;
    }
    free(&mut input, &words(MENUS[config(3) as usize]), n, config(5));
    input.part(PARTS[config(6) as usize]);
    let a = offset(&input);
    follow(&mut input, config(7));
    check_sequence(input, a);
}

fn follow(input: &mut Input, how: u64) {
    if how == 0 {
        let part = AFTER[pick(AFTER.len() as u8) as usize];
        let mut lines = 1 + line_break(1);
        for w in part.split(' ') {
            if w == "|" {
                lines += 1;
            } else {
                input.push(&words(w), 0, lines);
                lines = 0;
            }
        }
    } else {
        let m = words(MENUS[21]);
        input.push(&m, sym_byte(), 1);
        let m = words(MENUS[22]);
        for _ in 2..how {
            let sel = sym_byte();
            let b = line_break(1);
            input.push(&m, sel, b);
        }
    }
}

/// config: 1 = menu of lines, 2 = number of lines, 7 = as above
#[no_mangle]
pub extern "C" fn h_par_sequence_lines() {
    let mut input = Input::new();
    lines(&mut input, config(1), config(2));
    let a = offset(&input);
    follow(&mut input, config(7));
    check_sequence(input, a);
}

// ---- C16, C17, C18 ----------------------------------------------------------------------------

/// two layouts of one program
struct Layouts {
    plain: Input,
    other: Input,
    /// line breaks to come before the next token
    plain_lines: u8,
    other_lines: u8,
}

impl Layouts {
    fn new() -> Layouts {
        Layouts { plain: Input::new(), other: Input::new(), plain_lines: 0, other_lines: 0 }
    }
    fn push(&mut self, m: &Menu, sel: u8) {
        self.plain.push(m, sel, self.plain_lines);
        self.other.push(m, sel, self.other_lines);
        self.plain_lines = 0;
        self.other_lines = 0;
    }
    /// the other layout goes on as the words say: tokens that do not count, and | for line breaks
    fn aside(&mut self, s: &'static str) {
        for w in s.split(' ') {
            if w == "|" {
                self.other_lines += 1;
            } else if w != "" {
                self.other.push_aside(w, self.other_lines);
                self.other_lines = 0;
            }
        }
    }
    fn plainly(&mut self, s: &'static str) {
        for w in s.split(' ') {
            if w == "|" {
                self.plain_lines += 1;
            } else if w != "" {
                self.plain.push_aside(w, self.plain_lines);
                self.plain_lines = 0;
            }
        }
    }
    fn check(mut self, id: u64) {
        self.plain.show();
        self.other.show();
        let a = parse(self.plain.take());
        promise();
        let b = parse(self.other.take());
        let (x, y) = (shape(&a), shape(&b));
        if x.strange || y.strange || x.events != y.events {
            fail(id);
        }
        cover(if has_error(&x.events) { WITH_ERROR } else { WITHOUT_ERROR });
        cover(ENDED);
        observe_events(&y.events);
        forget((x, y));
        forget((a, b, self));
    }
}

/// between two tokens: how it is in the plain layout and in the other one; before the first and after the last token
type Gaps = (&'static [(&'static str, &'static str)], &'static [(&'static str, &'static str)]);

const COMMAS: Gaps = (
    &[("", ""), ("|", ","), ("|", ", |"), ("|", "| ,"), ("|", ", ,"), ("|", "| |"), (",", "|")],
    &[("", ""), ("", ","), ("", "| , | ,")],
);
const ELLIPSES: Gaps = (
    &[("", ""), ("", "... |"), ("|", "|"), ("", "... | |"), ("", "... | ... |"), (",", ","), ("|", "| ... |"), (",", ", ... |"), (",", "... | ,")],
    &[("", "")],
);
const COMMENTS: Gaps = (
    &[
        ("", ""),
        ("", "OBTW"),
        ("|", "|"),
        ("|", "BTW |"),
        ("|", "| OBTW"),
        ("|", "| BTW |"),
        (",", "OBTW , OBTW"),
        ("... |", "... BTW |"),
        ("... |", "OBTW ... | OBTW"),
        ("| |", "| BTW | BTW"),
    ],
    &[("", ""), ("", "OBTW"), ("", "BTW |")],
);

fn gap(l: &mut Layouts, g: &'static [(&'static str, &'static str)], all: u64) {
    let n = if all > 0 && (all as usize) < g.len() { all as usize } else { g.len() };
    let (plain, other) = g[pick(n as u8) as usize];
    l.plainly(plain);
    l.aside(other);
}

fn gaps_of(p: u64) -> Gaps {
    match p {
        16 => COMMAS,
        17 => ELLIPSES,
        _ => COMMENTS,
    }
}

/// config: 1 = part before (without a gap in it but after it), 2 = menu of the first free token + 1, 3 = menu of the others, 4 = number,
/// 5 = number of kinds of gaps (0 = all), 6 = part after (its line breaks are gaps as well), 7 = gaps around the program
#[no_mangle]
pub extern "C" fn h_par_layout() {
    let p = config(0);
    let (between, around) = gaps_of(p);
    let mut l = Layouts::new();
    if config(7) > 0 {
        gap(&mut l, around, 0);
    }
    template(&mut l, between, config(1));
    let mut first = PARTS[config(1) as usize] == "";
    for i in 0..config(4) {
        if !first {
            gap(&mut l, between, config(5));
        }
        first = false;
        let menu = if i == 0 && config(2) > 0 { config(2) as usize - 1 } else { config(3) as usize };
        let m = words(MENUS[menu]);
        let sel = sym_byte();
        l.push(&m, sel);
    }
    template(&mut l, between, config(6));
    if config(7) > 0 {
        gap(&mut l, around, 0);
    }
    l.check(p);
}

/// a fixed part; at its line breaks (all of them alike) the layouts differ
fn template(l: &mut Layouts, between: &'static [(&'static str, &'static str)], part: u64) {
    let part = PARTS[part as usize];
    if part == "" {
        return;
    }
    // one of the gaps that are statement boundaries
    let (plain, other) = if part.contains('|') { between[pick(between.len() as u8) as usize] } else { ("|", "|") };
    assume(plain == "|" || plain == ",");
    for w in part.split(' ') {
        if w == "|" {
            l.plainly(plain);
            l.aside(other);
        } else {
            l.push(&words(w), 0);
        }
    }
}

/// lines of a menu, separated by the gaps that separate statements
/// config: 1 = menu of lines, 2 = number of lines, 7 = gaps around the program
#[no_mangle]
pub extern "C" fn h_par_layout_lines() {
    let p = config(0);
    let (between, around) = gaps_of(p);
    let (one, two, second) = LINES[config(1) as usize];
    let (one, two, second) = (words(one), words(two), words(second));
    let mut l = Layouts::new();
    if config(7) > 0 {
        gap(&mut l, around, 0);
    }
    for i in 0..config(2) {
        if i > 0 {
            let g = pick(between.len() as u8) as usize;
            let (plain, other) = between[g];
            assume(plain == "|" || plain == ",");
            l.plainly(plain);
            l.aside(other);
        }
        if pick(2) == 0 {
            l.push(&one, sym_byte());
        } else {
            let sel = sym_byte();
            l.push(&two, sel);
            // inside of a statement: nothing, or a gap that does not end it
            let g = pick(2);
            let (plain, other) = if p == 16 { ("", "") } else { between[g as usize] };
            l.plainly(plain);
            l.aside(other);
            l.push(&second, sel);
        }
    }
    if config(7) > 0 {
        gap(&mut l, around, 0);
    }
    l.check(p);
}

// ---- C21 ------------------------------------------------------------------------------------

/// both ways to the tree of a text; gives its shape
fn check_text(t: &[u8], expected: Option<&Spec>) {
    note(t);
    let tokens = lolcode_ast::tokenize(lex::text(t));
    let (tokens, failed) = match tokens {
        Ok(t) => (Some(parse(t)), None),
        Err(e) => (None, Some(e)),
    };
    promise();
    let whole = lolcode_ast::tokenize_and_parse(lex::text(t));
    match (whole, tokens, failed) {
        (Ok(a), Some(b), _) => {
            let (x, y) = (shape(&a), shape(&b));
            if x.events != y.events || x.tokens.len() != y.tokens.len() {
                fail(21);
            }
            for (s, t) in x.tokens.iter().zip(&y.tokens) {
                for (p, q) in [(&s.range.0, &t.range.0), (&s.range.1, &t.range.1)] {
                    if (p.line != q.line) | (p.column != q.column) | (p.bytes != q.bytes) | (p.chars != q.chars) {
                        fail(21);
                    }
                }
                if s.token_type != t.token_type {
                    fail(21);
                }
            }
            if let Some(r) = expected {
                if x.events != r.events {
                    fail(21);
                }
            }
            observe_events(&x.events);
            cover(if has_error(&x.events) { WITH_ERROR } else { WITHOUT_ERROR });
        }
        (Err(a), None, Some(b)) => {
            if a != b || expected.is_some() {
                fail(21);
            }
            cover(5);
        }
        _ => fail(21),
    }
    cover(ENDED);
}

/// config 1 = bytes
#[no_mangle]
pub extern "C" fn h_par_text() {
    let t = lex::any_text(config(1) as usize);
    check_text(&t, None);
}

/// what is written, and the word of the menus it is
const WRITTEN: [(&str, &str); 32] = [
    ("x", "x"),
    ("7", "7"),
    ("\"s\"", "\"s\""),
    ("R", "R"),
    ("SUM OF", "SUM_OF"),
    ("AN", "AN"),
    ("VISIBLE", "VISIBLE"),
    ("O RLY", "O_RLY"),
    ("?", "QM"),
    ("OIC", "OIC"),
    ("YA RLY", "YA_RLY"),
    ("I HAS A", "I_HAS_A"),
    ("ITZ", "ITZ"),
    ("'Z", "'Z"),
    ("!", "!"),
    ("WIN", "WIN"),
    // 16
    ("NOOB", "noob"),
    ("SMOOSH", "SMOOSH"),
    ("MKAY", "MKAY"),
    ("NOT", "NOT"),
    ("HAS A", "HAS_A"),
    ("NUMBR", "NUMBR"),
    ("SRS", "SRS"),
    ("GTFO", "GTFO"),
    ("I IZ", "I_IZ"),
    ("YR", "YR"),
    ("1.5", "1.5"),
    ("é", "+"),
    ("IM IN YR", "IM_IN_YR"),
    ("IM OUTTA YR", "IM_OUTTA_YR"),
    ("HOW IZ I", "HOW_IZ_I"),
    ("IF U SAY SO", "IF_U_SAY_SO"),
];

/// how words are separated in the text; for the reference: whether there is a line break, and what else
const SEPARATORS: [(&str, u8, &str); 8] = [
    (" ", 0, ""),
    ("\n", 1, ""),
    (",", 0, ","),
    (" ...\n", 1, "..."),
    (" BTW é\n", 1, "BTW"),
    ("\tOBTW\n\nTLDR ", 1, "OBTW"),
    ("…\n\n ", 1, "..."),
    ("\n, \n", 1, ","),
];

/// config: 1 = first word, 2 = number of words to choose from, 3 = how many words the text has, 4 = number of kinds of separators
#[no_mangle]
pub extern "C" fn h_par_written() {
    let mut t: Vec<u8> = vec![];
    let (mut kinds, mut ids, mut breaks) = (vec![], vec![], vec![]);
    let mut broken = false;
    for i in 0..config(3) {
        let (written, word) = WRITTEN[config(1) as usize + pick(config(2) as u8) as usize];
        kinds.push(candidate(word).1);
        ids.push(t.len() as u32);
        breaks.push(broken);
        broken = false;
        t.extend_from_slice(written.as_bytes());
        if i + 1 < config(3) {
            let (s, lines, aside) = SEPARATORS[pick(config(4) as u8) as usize];
            if aside != "" {
                kinds.push(candidate(aside).1);
                ids.push(t.len() as u32);
                // the break before a comma on a line of its own
                breaks.push(aside == "," && lines > 0);
            }
            broken = lines > 0;
            t.extend_from_slice(s.as_bytes());
        }
    }
    let r = reference(&kinds, &ids, &breaks, false);
    check_text(&t, Some(&r));
}

const HOLES: [(&str, &str); 8] = [
    ("VISIBLE ", ""),
    ("I HAS A x ", "7\ny"),
    ("x", " R 7"),
    ("O RLY", "\nYA RLY\nx\nOIC"),
    ("SUM OF x", "y, 7"),
    ("x OBTW", ""),
    ("IM IN YR x\n", "IM OUTTA YR x\nVISIBLE x"),
    ("x R ", "\nTLDR"),
];

/// config: 1 = which text, 2 = number of free bytes in its hole
#[no_mangle]
pub extern "C" fn h_par_hole() {
    let (before, after) = HOLES[config(1) as usize];
    let mut t = before.as_bytes().to_vec();
    t.extend_from_slice(&lex::any_text(config(2) as usize));
    t.extend_from_slice(after.as_bytes());
    check_text(&t, None);
}
