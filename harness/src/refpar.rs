//! The reference parser: from kinds of tokens and line breaks to the expected shape of the tree.
//!
//! Written from the documentation of LOLCODE and of the crate's nodes and errors. It splits the
//! tokens into statements first and then reads each statement by its grammar.
use lolcode_ast::lexer::Keywords;
use lolcode_ast::parser::verif::tag;

pub const ID: u8 = 0;
pub const VALUE: u8 = 1;
pub const COMMA: u8 = 2;
pub const ELLIPSIS: u8 = 3;
pub const COMMENT: u8 = 4;
pub const SLOT: u8 = 5;
pub const BANG: u8 = 6;
pub const QUESTION: u8 = 7;
pub const SYMBOL: u8 = 8;
pub const fn kw(k: Keywords) -> u8 {
    64 + k as u8
}

/// events: tags as they are, closes as `CLOSE`, tokens as `TOKEN + id`
pub const CLOSE: u32 = 0;
pub const TOKEN: u32 = 10000;

struct Error {
    tag: u32,
    tokens: Vec<u32>,
}
type R<T> = Result<T, Error>;

fn error<T>(tag: u32, token: u32) -> R<T> {
    Err(Error { tag, tokens: vec![token] })
}

#[derive(Clone, Copy, PartialEq)]
enum In {
    Root,
    If,
    Switch,
    Loop,
    Function,
}

pub struct Spec {
    kinds: Vec<u8>,
    ids: Vec<u32>,
    statements: Vec<Vec<usize>>,
    s: usize,
    t: usize,
    pub events: Vec<u32>,
    /// tokens of each expression and variable, in the order they are opened: first and last place
    pub spans: Vec<(u32, usize, usize)>,
    pub errors: usize,
    /// the input ends inside of a block
    pub open_block: bool,
    /// the input ends in an ellipsis
    pub open_statement: bool,
    /// give up at the first error
    valid_only: bool,
}

/// `breaks[i]`: the token is on another line than the one before it
pub fn reference(kinds: &[u8], ids: &[u32], breaks: &[bool], valid_only: bool) -> Spec {
    let mut p = Spec {
        kinds: vec![],
        ids: vec![],
        statements: vec![],
        s: 0,
        t: 0,
        events: vec![],
        spans: vec![],
        errors: 0,
        open_block: false,
        open_statement: false,
        valid_only,
    };
    let mut current = vec![];
    let mut broken = false;
    for i in 0..kinds.len() {
        broken |= breaks[i];
        if kinds[i] == COMMENT {
            continue;
        }
        if broken && !p.open_statement && !current.is_empty() {
            p.statements.push(std::mem::take(&mut current));
        }
        broken = false;
        p.open_statement = false;
        if kinds[i] == COMMA {
            if !current.is_empty() {
                p.statements.push(std::mem::take(&mut current));
            }
        } else if kinds[i] == ELLIPSIS {
            p.open_statement = true;
        } else {
            current.push(p.kinds.len());
            p.kinds.push(kinds[i]);
            p.ids.push(ids[i]);
        }
    }
    if !current.is_empty() {
        p.statements.push(current);
    }
    p.block(In::Root);
    p
}

impl Spec {
    pub fn ids(&self, first: usize, last: usize) -> &[u32] {
        &self.ids[first..last]
    }

    fn open(&mut self, tag: u32) {
        self.events.push(tag);
    }
    fn close(&mut self) {
        self.events.push(CLOSE);
    }
    fn token(&mut self, id: u32) {
        self.events.push(TOKEN + id);
    }
    fn leaf(&mut self, tag: u32, id: u32) {
        self.open(tag);
        self.token(id);
        self.close();
    }

    fn place(&self) -> Option<usize> {
        self.statements.get(self.s).and_then(|s| s.get(self.t)).copied()
    }
    /// kind of the next token of the statement
    fn peek(&self) -> Option<u8> {
        self.place().map(|i| self.kinds[i])
    }
    /// the next token of the statement: its kind and id
    fn next(&mut self) -> Option<(u8, u32)> {
        let i = self.place()?;
        self.t += 1;
        Some((self.kinds[i], self.ids[i]))
    }
    fn next_is(&mut self, k: Keywords) -> Option<u32> {
        if self.peek() == Some(kw(k)) {
            self.next().map(|x| x.1)
        } else {
            None
        }
    }
    fn rest(&mut self) -> Vec<u32> {
        let mut r = vec![];
        while let Some((_, id)) = self.next() {
            r.push(id);
        }
        r
    }
    fn mark(&self) -> (usize, usize) {
        // the number of tokens read so far
        let place = match self.statements.get(self.s) {
            Some(s) if self.t < s.len() => s[self.t],
            Some(s) => s[s.len() - 1] + 1,
            None => self.kinds.len(),
        };
        (self.spans.len(), place)
    }

    fn block(&mut self, kind: In) {
        use Keywords::*;
        self.open(tag::BLOCK);
        while let Some(k) = self.peek() {
            let stops = match kind {
                In::Root => false,
                In::If => k == kw(MEBBE) || k == kw(NO_WAI) || k == kw(YA_RLY) || k == kw(OIC),
                In::Switch => k == kw(OMG) || k == kw(OMGWTF) || k == kw(OIC),
                In::Loop => k == kw(IM_OUTTA_YR),
                In::Function => k == kw(IF_U_SAY_SO),
            };
            if stops {
                break;
            }
            let (events, spans) = (self.events.len(), self.spans.len());
            if let Err(e) = self.statement() {
                // errors inside of the dropped statement are dropped with it
                let mut dropped = 0;
                for e in &self.events[events..] {
                    dropped += (*e > tag::FIRST_ERROR && *e < TOKEN) as usize;
                }
                self.errors -= dropped;
                self.events.truncate(events);
                self.spans.truncate(spans);
                self.error(e);
            }
            let rest = self.rest();
            if !rest.is_empty() {
                self.error(Error { tag: tag::TOO_MANY_TOKENS, tokens: rest });
            }
            self.s += 1;
            self.t = 0;
            if self.valid_only && self.errors > 0 {
                return;
            }
        }
        self.close();
    }
    fn error(&mut self, e: Error) {
        self.errors += 1;
        self.open(e.tag);
        for t in e.tokens {
            self.token(t);
        }
        self.close();
    }
    fn end_of_header(&mut self) -> R<()> {
        let rest = self.rest();
        if !rest.is_empty() {
            return Err(Error { tag: tag::TOO_MANY_TOKENS, tokens: rest });
        }
        self.s += 1;
        self.t = 0;
        Ok(())
    }
    /// the keyword that ends a block; nothing but the end of the input can come instead of one
    fn end_of_block(&mut self, first: u32, k: Keywords) -> R<()> {
        match self.next() {
            None => {
                self.open_block = true;
                error(tag::MISSING_BLOCK_CLOSING_TOKEN, first)
            }
            Some((kind, _)) if kind == kw(k) => Ok(()),
            Some((_, t)) => error(tag::UNEXPECTED_TOKEN, t),
        }
    }

    fn statement(&mut self) -> R<()> {
        use Keywords::*;
        let (k, first) = self.next().unwrap();
        if k == ID || k == kw(SRS) {
            self.t -= 1;
            return self.variable_statement();
        }
        if k == kw(I_HAS_A) {
            self.open(tag::I_HAS_A);
            self.token(first);
            match self.peek() {
                None => return error(tag::I_HAS_A_MISSING_IDENTIFIER, first),
                Some(k) if k == ID || k == kw(SRS) => self.identifier()?,
                Some(_) => return error(tag::I_HAS_A_INVALID_IDENTIFIER, self.next().unwrap().1),
            };
            if let Some((k, itz)) = self.next() {
                if k != kw(ITZ) {
                    return error(tag::UNEXPECTED_TOKEN, itz);
                }
                match self.peek() {
                    None => return error(tag::I_HAS_A_EXPECTED_INITIAL_VALUE, itz),
                    Some(k) => match type_tag(k) {
                        Some(tag) => {
                            let t = self.next().unwrap().1;
                            self.leaf(tag, t);
                        }
                        None => self.expression()?,
                    },
                }
            }
        } else if k == kw(VISIBLE) {
            self.open(tag::VISIBLE);
            self.token(first);
            while self.peek().map_or(false, |k| k != BANG) {
                self.expression()?;
            }
            if self.peek() == Some(BANG) {
                let t = self.next().unwrap().1;
                self.token(t);
            }
        } else if k == kw(GIMMEH) {
            self.open(tag::GIMMEH);
            self.token(first);
            if self.peek().is_none() {
                return error(tag::MISSING_TOKEN, first);
            }
            self.variable()?;
        } else if k == kw(FOUND_YR) {
            self.open(tag::FOUND_YR);
            self.token(first);
            if self.peek().is_none() {
                return error(tag::MISSING_TOKEN, first);
            }
            self.expression()?;
        } else if k == kw(HAI) {
            self.open(tag::HAI);
            self.token(first);
            for t in self.rest() {
                self.token(t);
            }
        } else if k == kw(KTHXBYE) {
            self.open(tag::KTHXBYE);
            self.token(first);
        } else if k == kw(GTFO) {
            self.open(tag::GTFO);
            self.token(first);
        } else if k == kw(I_IZ) {
            self.open(tag::I_IZ);
            self.token(first);
            if self.peek().is_none() {
                return error(tag::I_IZ_MISSING_NAME, first);
            }
            self.variable()?;
            while let Some(yr) = self.next_is(YR) {
                if self.peek().is_none() {
                    return error(tag::I_IZ_MISSING_ARGUMENT, yr);
                }
                self.expression()?;
                if self.next_is(AN).is_none() {
                    break;
                }
            }
            match self.next() {
                None => return error(tag::I_IZ_MISSING_MKAY, first),
                Some((k, t)) if k != kw(MKAY) => return error(tag::I_IZ_MISSING_MKAY, t),
                _ => {}
            }
        } else if k == kw(IM_IN_YR) {
            self.open(tag::IM_IN_YR);
            self.token(first);
            self.im_in_yr(first)?;
        } else if k == kw(HOW_IZ_I) {
            self.open(tag::HOW_IZ_I);
            self.token(first);
            if self.peek().is_none() {
                return error(tag::HOW_IZ_I_MISSING_NAME, first);
            }
            self.identifier()?;
            while let Some(yr) = self.next_is(YR) {
                if self.peek().is_none() {
                    return error(tag::MISSING_TOKEN, yr);
                }
                self.identifier()?;
                if self.next_is(AN).is_none() {
                    break;
                }
            }
            self.end_of_header()?;
            self.block(In::Function);
            self.end_of_block(first, IF_U_SAY_SO)?;
        } else if k == kw(O_RLY) {
            self.open(tag::O_RLY);
            self.token(first);
            self.question(first)?;
            if let Some(t) = self.next_is(YA_RLY) {
                self.open(tag::YA_RLY);
                self.token(t);
                self.branch(In::If)?;
            }
            while let Some(t) = self.next_is(MEBBE) {
                self.open(tag::MEBBE);
                self.token(t);
                if self.peek().is_none() {
                    return error(tag::O_RLY_MISSING_MEBBE_EXPRESSION, t);
                }
                self.expression()?;
                self.branch(In::If)?;
            }
            if let Some(t) = self.next_is(NO_WAI) {
                self.open(tag::NO_WAI);
                self.token(t);
                self.branch(In::If)?;
            }
            self.end_of_block(first, OIC)?;
        } else if k == kw(WTF) {
            self.open(tag::WTF);
            self.token(first);
            self.question(first)?;
            while let Some(t) = self.next_is(OMG) {
                self.open(tag::OMG);
                self.token(t);
                if self.peek().is_none() {
                    return error(tag::MISSING_TOKEN, t);
                }
                self.expression()?;
                self.branch(In::Switch)?;
            }
            if let Some(t) = self.next_is(OMGWTF) {
                self.open(tag::OMGWTF);
                self.token(t);
                self.branch(In::Switch)?;
            }
            self.end_of_block(first, OIC)?;
        } else {
            self.t -= 1;
            self.open(tag::EXPRESSION);
            self.expression()?;
        }
        self.close();
        Ok(())
    }

    /// `O RLY?`, `WTF?`
    fn question(&mut self, first: u32) -> R<()> {
        match self.next() {
            Some((QUESTION, _)) => self.end_of_header(),
            _ => error(tag::O_RLY_MISSING_QUESTION_MARK, first),
        }
    }
    fn branch(&mut self, kind: In) -> R<()> {
        self.end_of_header()?;
        self.block(kind);
        self.close();
        Ok(())
    }

    fn im_in_yr(&mut self, first: u32) -> R<()> {
        use Keywords::*;
        match self.next() {
            None => return error(tag::IM_IN_YR_MISSING_START_LABEL, first),
            Some((ID, t)) => self.token(t),
            Some((_, t)) => return error(tag::IM_IN_YR_INVALID_START_LABEL, t),
        }
        if self.peek() == Some(kw(UPPIN)) || self.peek() == Some(kw(NERFIN)) {
            let (k, operation) = self.next().unwrap();
            self.open(if k == kw(UPPIN) { tag::UPPIN } else { tag::NERFIN });
            self.token(operation);
            match self.next() {
                None => return error(tag::IM_IN_YR_MISSING_OPERAND, operation),
                Some((k, t)) if k != kw(YR) => return error(tag::IM_IN_YR_MISSING_YR, t),
                _ => {}
            }
            if self.peek().is_none() {
                return error(tag::IM_IN_YR_MISSING_OPERAND, operation);
            }
            self.variable()?;
            self.close();
        }
        if self.peek() == Some(kw(TIL)) || self.peek() == Some(kw(WILE)) {
            let (k, conditional) = self.next().unwrap();
            self.open(if k == kw(TIL) { tag::TIL } else { tag::WILE });
            if self.peek().is_none() {
                return error(tag::IM_IN_YR_MISSING_CONDITIONAL_EXPRESSION, conditional);
            }
            self.expression()?;
            self.close();
        }
        self.end_of_header()?;
        self.block(In::Loop);
        let end = match self.next() {
            Some((_, t)) => t,
            None => {
                self.open_block = true;
                return error(tag::IM_IN_YR_MISSING_IM_OUTTA_YR, first);
            }
        };
        match self.next() {
            None => error(tag::IM_IN_YR_MISSING_END_LABEL, end),
            Some((ID, t)) => Ok(self.token(t)),
            Some((_, t)) => error(tag::IM_IN_YR_INVALID_END_LABEL, t),
        }
    }

    /// a statement that begins with a variable
    fn variable_statement(&mut self) -> R<()> {
        use Keywords::*;
        let (events, spans) = (self.events.len(), self.spans.len());
        self.variable()?;
        let rewind = self.t;
        let last = self.ids[self.mark().1 - 1];
        self.events.truncate(events);
        self.spans.truncate(spans);
        self.t = 0;
        match self.next_kind_at(rewind) {
            None => {
                self.open(tag::EXPRESSION);
                self.expression()?;
            }
            Some(k) if k == kw(HAS_A) => {
                self.open(tag::BUKKIT_SET_SLOT);
                self.variable()?;
                let has_a = self.next().unwrap().1;
                if self.peek().is_none() {
                    return error(tag::ASSIGNMENT_EXPECTED_VALUE, has_a);
                }
                let name = self.identifier()?;
                match self.next() {
                    None => return error(tag::MISSING_TOKEN, name),
                    Some((k, t)) if k != kw(ITZ) => return error(tag::UNEXPECTED_TOKEN, t),
                    Some((_, itz)) => {
                        if self.peek().is_none() {
                            return error(tag::MISSING_TOKEN, itz);
                        }
                    }
                }
                self.expression()?;
            }
            Some(k) => {
                self.open(tag::ASSIGNMENT);
                self.variable()?;
                let (_, r) = self.next().unwrap();
                if k != kw(R) {
                    return error(tag::ASSIGNMENT_MISSING_R, last);
                }
                self.token(r);
                if self.peek().is_none() {
                    return error(tag::ASSIGNMENT_EXPECTED_VALUE, r);
                }
                self.expression()?;
            }
        }
        self.close();
        Ok(())
    }
    fn next_kind_at(&self, t: usize) -> Option<u8> {
        self.statements[self.s].get(t).map(|i| self.kinds[*i])
    }

    /// gives the token of the name
    fn identifier(&mut self) -> R<u32> {
        self.open(tag::IDENTIFIER);
        let (k, first) = self.next().unwrap();
        let name = if k == ID {
            first
        } else if k == kw(Keywords::SRS) {
            self.token(first);
            match self.next() {
                None => return error(tag::MISSING_TOKEN, first),
                Some((ID, t)) => t,
                Some((_, t)) => return error(tag::UNEXPECTED_TOKEN, t),
            }
        } else {
            return error(tag::UNEXPECTED_TOKEN, first);
        };
        self.token(name);
        self.close();
        Ok(name)
    }
    fn variable(&mut self) -> R<()> {
        let (span, start) = self.mark();
        self.spans.push((tag::VARIABLE, start, 0));
        self.open(tag::VARIABLE);
        self.identifier()?;
        while self.peek() == Some(SLOT) {
            let slot = self.next().unwrap().1;
            self.open(tag::SLOT);
            self.token(slot);
            if self.peek().is_none() {
                return error(tag::MISSING_TOKEN, slot);
            }
            self.identifier()?;
            self.close();
        }
        self.close();
        self.spans[span].2 = self.mark().1;
        Ok(())
    }

    fn expression(&mut self) -> R<()> {
        use Keywords::*;
        let (span, start) = self.mark();
        self.spans.push((tag::EXPRESSION, start, 0));
        let (k, first) = self.next().unwrap();
        if k == ID || k == kw(SRS) {
            self.t -= 1;
            self.variable()?;
        } else if k == VALUE || k == kw(NOOB) {
            self.leaf(tag::LITERAL, first);
        } else if k == kw(NOT) {
            self.open(tag::NOT);
            self.token(first);
            self.operand(first)?;
            self.close();
        } else if k == kw(ALL_OF) || k == kw(ANY_OF) || k == kw(SMOOSH) {
            self.open(if k == kw(ALL_OF) {
                tag::ALL_OF
            } else if k == kw(ANY_OF) {
                tag::ANY_OF
            } else {
                tag::SMOOSH
            });
            self.token(first);
            loop {
                match self.peek() {
                    None => break,
                    Some(k) if k == kw(MKAY) => {
                        let t = self.next().unwrap().1;
                        self.token(t);
                        break;
                    }
                    _ => {}
                }
                self.open(tag::OPERAND);
                self.expression()?;
                if let Some(an) = self.next_is(AN) {
                    self.token(an);
                }
                self.close();
            }
            self.close();
        } else if let Some(tag) = binary_tag(k) {
            self.open(tag);
            self.token(first);
            self.operand(first)?;
            if let Some(an) = self.next_is(AN) {
                self.token(an);
            }
            self.operand(first)?;
            self.close();
        } else {
            return error(tag::UNEXPECTED_TOKEN, first);
        }
        self.spans[span].2 = self.mark().1;
        Ok(())
    }
    fn operand(&mut self, operator: u32) -> R<()> {
        if self.peek().is_none() {
            return error(tag::MISSING_OPERANDS, operator);
        }
        self.expression()
    }
}

fn type_tag(k: u8) -> Option<u32> {
    use Keywords::*;
    for (w, tag) in [
        (NUMBR, tag::TYPE_NUMBR),
        (NUMBAR, tag::TYPE_NUMBAR),
        (YARN, tag::TYPE_YARN),
        (TROOF, tag::TYPE_TROOF),
        (BUKKIT, tag::TYPE_BUKKIT),
        (NOOB, tag::TYPE_NOOB),
    ] {
        if k == kw(w) {
            return Some(tag);
        }
    }
    None
}

fn binary_tag(k: u8) -> Option<u32> {
    use Keywords::*;
    for (w, tag) in [
        (SUM_OF, tag::SUM_OF),
        (DIFF_OF, tag::DIFF_OF),
        (PRODUKT_OF, tag::PRODUKT_OF),
        (QUOSHUNT_OF, tag::QUOSHUNT_OF),
        (MOD_OF, tag::MOD_OF),
        (BIGGR_OF, tag::BIGGR_OF),
        (SMALLR_OF, tag::SMALLR_OF),
        (BOTH_SAEM, tag::BOTH_SAEM),
        (DIFFRINT, tag::DIFFRINT),
        (BOTH_OF, tag::BOTH_OF),
        (EITHER_OF, tag::EITHER_OF),
        (WON_OF, tag::WON_OF),
    ] {
        if k == kw(w) {
            return Some(tag);
        }
    }
    None
}
