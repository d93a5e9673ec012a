//! Reference model of token patterns: abstract syntax, the language it denotes,
//! its spelling, and a reader for the documented pattern grammar.

/// A set of characters, as written in a pattern.
#[derive(Clone, Debug, PartialEq)]
pub enum Set {
    Char(char),
    Any,
    Digit(bool),
    Word(bool),
    Space(bool),
    /// Negated, members.
    Bracket(bool, Vec<Item>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    One(Set),
    Range(char, char),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Empty,
    Set(Set, String),
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Rep(Box<Re>, u64, Option<u64>, String),
}

impl Set {
    pub fn has(&self, c: char) -> bool {
        match self {
            Set::Char(x) => *x == c,
            Set::Any => true,
            Set::Digit(pos) => c.is_ascii_digit() == *pos,
            Set::Word(pos) => c.is_alphabetic() == *pos,
            Set::Space(pos) => c.is_whitespace() == *pos,
            Set::Bracket(neg, items) => {
                items.iter().any(|i| match i {
                    Item::One(s) => s.has(c),
                    Item::Range(a, b) => *a <= c && c <= *b,
                }) != *neg
            }
        }
    }
}

/// Set of positions in a text of at most 255 characters.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Pos([u128; 2]);

impl Pos {
    pub fn none() -> Self {
        Pos([0; 2])
    }
    pub fn one(i: usize) -> Self {
        let mut p = Pos([0; 2]);
        p.0[i / 128] |= 1 << (i % 128);
        p
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 128] >> (i % 128) & 1 == 1
    }
    pub fn or(self, o: Self) -> Self {
        Pos([self.0[0] | o.0[0], self.0[1] | o.0[1]])
    }
    pub fn sub(&self, o: &Self) -> bool {
        self.0[0] & !o.0[0] == 0 && self.0[1] & !o.0[1] == 0
    }
    pub fn empty(&self) -> bool {
        self.0 == [0; 2]
    }
    pub fn max(&self) -> Option<usize> {
        if self.0[1] != 0 {
            Some(255 - self.0[1].leading_zeros() as usize)
        } else if self.0[0] != 0 {
            Some(127 - self.0[0].leading_zeros() as usize)
        } else {
            None
        }
    }
}

impl Re {
    /// Positions at which a match that starts at one of `from` can end.
    pub fn ends(&self, text: &[char], from: Pos) -> Pos {
        if from.empty() {
            return from;
        }
        match self {
            Re::Empty => from,
            Re::Set(s, _) => {
                let mut r = Pos::none();
                for (i, c) in text.iter().enumerate() {
                    if from.has(i) && s.has(*c) {
                        r = r.or(Pos::one(i + 1));
                    }
                }
                r
            }
            Re::Cat(a, b) => b.ends(text, a.ends(text, from)),
            Re::Alt(a, b) => a.ends(text, from).or(b.ends(text, from)),
            Re::Rep(e, min, max, _) => {
                let mut cur = from;
                let mut k = 0;
                while k < *min {
                    let next = e.ends(text, cur);
                    if next == cur {
                        // nothing changes any more
                        k = *min;
                        break;
                    }
                    cur = next;
                    k += 1;
                }
                if max.is_some_and(|m| m < *min) {
                    return Pos::none();
                }
                let mut all = cur;
                while max.is_none_or(|m| k < m) {
                    cur = e.ends(text, cur);
                    k += 1;
                    if cur.sub(&all) {
                        break;
                    }
                    all = all.or(cur);
                }
                all
            }
        }
    }

    /// Length of the longest non-empty prefix of `text[at..]` that matches.
    pub fn longest(&self, text: &[char], at: usize) -> Option<usize> {
        match self.ends(text, Pos::one(at)).max() {
            Some(e) if e > at => Some(e - at),
            _ => None,
        }
    }

    pub fn matches(&self, text: &[char]) -> bool {
        self.ends(text, Pos::one(0)).has(text.len())
    }

    /// Spells the pattern.
    pub fn show(&self) -> String {
        match self {
            Re::Empty => String::new(),
            Re::Set(_, t) => t.clone(),
            Re::Cat(a, b) => {
                // a concatenation on the left is spelled as a group
                let l = match **a {
                    Re::Alt(..) | Re::Cat(..) => format!("({})", a.show()),
                    _ => a.show(),
                };
                let r = match **b {
                    Re::Alt(..) => format!("({})", b.show()),
                    _ => b.show(),
                };
                l + &r
            }
            Re::Alt(a, b) => {
                let l = match **a {
                    Re::Alt(..) => format!("({})", a.show()),
                    _ => a.show(),
                };
                format!("{}|{}", l, b.show())
            }
            Re::Rep(e, _, _, q) => match **e {
                Re::Set(..) => format!("{}{}", e.show(), q),
                _ => format!("({}){}", e.show(), q),
            },
        }
    }

    pub fn cat(a: Re, b: Re) -> Re {
        Re::Cat(Box::new(a), Box::new(b))
    }
    pub fn alt(a: Re, b: Re) -> Re {
        Re::Alt(Box::new(a), Box::new(b))
    }
    pub fn rep(e: Re, q: &Quant) -> Re {
        Re::Rep(Box::new(e), q.0, q.1, q.2.clone())
    }
    pub fn word(w: &str) -> Re {
        let mut cs: Vec<Re> = w.chars().map(lit).collect();
        let mut r = cs.pop().unwrap_or(Re::Empty);
        while let Some(c) = cs.pop() {
            r = Re::cat(c, r);
        }
        r
    }
    pub fn cats(mut v: Vec<Re>) -> Re {
        let mut r = v.pop().unwrap_or(Re::Empty);
        while let Some(c) = v.pop() {
            r = Re::cat(c, r);
        }
        r
    }
    pub fn alts(mut v: Vec<Re>) -> Re {
        let mut r = v.pop().unwrap_or(Re::Empty);
        while let Some(c) = v.pop() {
            r = Re::alt(c, r);
        }
        r
    }
}

pub type Quant = (u64, Option<u64>, String);

pub fn quant(t: &str) -> Quant {
    let (min, max) = match t {
        "*" => (0, None),
        "+" => (1, None),
        "?" => (0, Some(1)),
        _ => {
            let inner = &t[1..t.len() - 1];
            match inner.split_once(',') {
                None => {
                    let n = inner.parse().unwrap();
                    (n, Some(n))
                }
                Some((n, "")) => (n.parse().unwrap(), None),
                Some((n, m)) => (n.parse().unwrap(), Some(m.parse().unwrap())),
            }
        }
    };
    (min, max, t.to_string())
}

pub const SPECIAL: &str = "[]()^|-*+?{.\\";

/// Literal character, escaped if it needs to be.
pub fn lit(c: char) -> Re {
    let t = if SPECIAL.contains(c) {
        format!("\\{}", c)
    } else {
        c.to_string()
    };
    Re::Set(Set::Char(c), t)
}

/// All expressions with exactly `n` nodes, for every `n` up to `size`.
pub fn expressions(size: usize, atoms: &[Re], quants: &[Quant]) -> Vec<Vec<Re>> {
    let mut by: Vec<Vec<Re>> = vec![vec![], atoms.to_vec()];
    for n in 2..=size {
        let mut v = Vec::new();
        for e in &by[n - 1] {
            for q in quants {
                v.push(Re::rep(e.clone(), q));
            }
        }
        for l in 1..n - 1 {
            for a in &by[l] {
                for b in &by[n - 1 - l] {
                    v.push(Re::cat(a.clone(), b.clone()));
                    v.push(Re::alt(a.clone(), b.clone()));
                }
            }
        }
        by.push(v);
    }
    by
}

/// All strings over `alphabet` with at most `max` characters, shortest first.
/// Characters that programs tend to treat specially.
pub fn odd_chars() -> Vec<char> {
    let mut v: Vec<char> = (0..128u8).map(|b| b as char).collect();
    v.extend(
        "\u{80}\u{85}\u{a0}éßÿıİſǅΐж٣०²½Ⅷ\u{345}\u{300}\u{301}\u{200b}\u{200c}\u{200d}\u{200e}\u{2028}\u{2029}\u{2003}\u{3000}\u{feff}\u{fffd}\u{fffe}\u{ffff}\u{d7ff}\u{e000}\u{7ff}\u{800}\u{10000}𝄞🌕👩\u{fe0f}\u{1f3fd}🇧🇪가\u{1100}\u{1161}漢ﬀａ\u{10ffff}"
            .chars(),
    );
    v
}

pub fn strings(alphabet: &[char], max: usize) -> Vec<Vec<char>> {
    let mut all = vec![vec![]];
    let mut last = 0;
    for _ in 0..max {
        let end = all.len();
        for i in last..end {
            for c in alphabet {
                let mut s: Vec<char> = all[i].clone();
                s.push(*c);
                all.push(s);
            }
        }
        last = end;
    }
    all
}

// ------------------------------------------------------------------ reader

/// Outcome of reading a pattern by the documented grammar.
#[derive(Debug, Clone, PartialEq)]
pub enum Read {
    Valid(Re),
    /// The first token that no valid pattern can have there starts at this
    /// character, or is the last character when the pattern ends too early.
    /// Not known when an empty bracket group comes before it.
    Invalid(Option<usize>),
    /// Valid but for an empty bracket group. The grammar asks for
    /// at least one member, the implementation and the property tests of the
    /// repository do not. Left open.
    Open,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Set(Set),
    Quant(u64, Option<u64>),
    Op(char),
    Bad,
}

fn lex_pattern(p: &[char]) -> Vec<(usize, usize, Tok)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < p.len() {
        let s = i;
        let c = p[i];
        i += 1;
        let t = match c {
            '.' => Tok::Set(Set::Any),
            '[' | ']' | '(' | ')' | '^' | '|' | '-' => Tok::Op(c),
            '*' => Tok::Quant(0, None),
            '+' => Tok::Quant(1, None),
            '?' => Tok::Quant(0, Some(1)),
            '{' => {
                // {n} {n,} {n,m}, numbers below 2^32
                let num = |mut j: usize| {
                    let b = j;
                    let mut n: u128 = 0;
                    while j < p.len() && p[j].is_ascii_digit() {
                        n = (n * 10 + p[j].to_digit(10).unwrap() as u128).min(1 << 40);
                        j += 1;
                    }
                    (j > b).then_some((n, j))
                };
                let fits = |n: u128| n <= u32::MAX as u128;
                let mut t = Tok::Bad;
                if let Some((n, j)) = num(i) {
                    if p.get(j) == Some(&'}') {
                        i = j + 1;
                        if fits(n) {
                            t = Tok::Quant(n as u64, Some(n as u64));
                        }
                    } else if p.get(j) == Some(&',') {
                        if p.get(j + 1) == Some(&'}') {
                            i = j + 2;
                            if fits(n) {
                                t = Tok::Quant(n as u64, None);
                            }
                        } else if let Some((m, k)) = num(j + 1) {
                            if p.get(k) == Some(&'}') {
                                i = k + 1;
                                if fits(n) && fits(m) {
                                    t = Tok::Quant(n as u64, Some(m as u64));
                                }
                            }
                        }
                    }
                }
                t
            }
            '\\' => {
                let mut t = Tok::Bad;
                if let Some(&e) = p.get(i) {
                    i += 1;
                    let hex = |from: usize, n: usize| -> Option<u32> {
                        let mut v = 0u32;
                        for j in 0..n {
                            v = v * 16 + p.get(from + j)?.to_digit(16)?;
                        }
                        Some(v)
                    };
                    let mut ch = None;
                    match e {
                        'd' => t = Tok::Set(Set::Digit(true)),
                        'D' => t = Tok::Set(Set::Digit(false)),
                        'w' => t = Tok::Set(Set::Word(true)),
                        'W' => t = Tok::Set(Set::Word(false)),
                        's' => t = Tok::Set(Set::Space(true)),
                        'S' => t = Tok::Set(Set::Space(false)),
                        'f' => ch = Some('\u{c}'),
                        'n' => ch = Some('\n'),
                        'r' => ch = Some('\r'),
                        't' => ch = Some('\t'),
                        'v' => ch = Some('\u{b}'),
                        '0' => ch = Some('\0'),
                        '^' | '$' | '\\' | '.' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '|'
                        | '/' | '{' | '}' | '-' => ch = Some(e),
                        'c' => {
                            if let Some(&l) = p.get(i) {
                                if l.is_ascii_alphabetic() {
                                    i += 1;
                                    ch = char::from_u32(l as u32 & 0x1f);
                                }
                            }
                        }
                        'x' => {
                            if let Some(v) = hex(i, 2) {
                                i += 2;
                                ch = char::from_u32(v);
                            }
                        }
                        'u' => {
                            if p.get(i) == Some(&'{') {
                                let mut n = 0;
                                while p.get(i + 1 + n).is_some_and(|c| c.is_ascii_hexdigit()) {
                                    n += 1;
                                }
                                if (4..=6).contains(&n) && p.get(i + 1 + n) == Some(&'}') {
                                    ch = hex(i + 1, n).and_then(char::from_u32);
                                    i += n + 2;
                                }
                            } else if let Some(v) = hex(i, 4) {
                                i += 4;
                                ch = char::from_u32(v);
                            }
                        }
                        _ => {}
                    }
                    if let Some(c) = ch {
                        t = Tok::Set(Set::Char(c));
                    }
                }
                t
            }
            c => Tok::Set(Set::Char(c)),
        };
        let bad = t == Tok::Bad;
        v.push((s, i, t));
        if bad {
            // nothing behind it matters
            break;
        }
    }
    v
}

struct Reader<'a> {
    toks: &'a [(usize, usize, Tok)],
    text: &'a [char],
    at: usize,
    open: bool,
}

/// Reads a pattern by the documented grammar.
pub fn read(pattern: &str) -> Read {
    let p: Vec<char> = pattern.chars().collect();
    if p.is_empty() {
        return Read::Valid(Re::Empty);
    }
    let toks = lex_pattern(&p);
    let mut r = Reader {
        toks: &toks,
        text: &p,
        at: 0,
        open: false,
    };
    let e = r.expr().and_then(|e| {
        if r.at < toks.len() {
            Err(r.here())
        } else {
            Ok(e)
        }
    });
    match e {
        Ok(_) if r.open => Read::Open,
        Ok(e) => Read::Valid(e),
        Err(_) if r.open => Read::Invalid(None),
        Err(n) => Read::Invalid(Some(n)),
    }
}

impl Reader<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.at).map(|t| &t.2)
    }
    fn here(&self) -> usize {
        match self.toks.get(self.at) {
            Some(t) => t.0,
            None => self.text.len() - 1,
        }
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::Op(c))
    }
    fn spelled(&self, from: usize) -> String {
        let b = self.toks[from].0;
        let e = self.toks[self.at - 1].1;
        self.text[b..e].iter().collect()
    }
    fn expr(&mut self) -> Result<Re, usize> {
        let mut items = Vec::new();
        while self.peek().is_some() && !self.is('|') && !self.is(')') {
            items.push(self.item()?);
        }
        if items.is_empty() {
            return Err(self.here());
        }
        let l = Re::cats(items);
        if self.is('|') {
            self.at += 1;
            Ok(Re::alt(l, self.expr()?))
        } else {
            Ok(l)
        }
    }
    fn item(&mut self) -> Result<Re, usize> {
        let from = self.at;
        let e = if self.is('(') {
            self.at += 1;
            let e = self.expr()?;
            if !self.is(')') {
                return Err(self.here());
            }
            self.at += 1;
            e
        } else if self.is('[') {
            self.at += 1;
            let neg = self.is('^');
            if neg {
                self.at += 1;
            }
            let mut items = Vec::new();
            while !self.is(']') {
                let Some(Tok::Set(s)) = self.peek().cloned() else {
                    return Err(self.here());
                };
                self.at += 1;
                if let (Set::Char(a), true) = (&s, self.is('-')) {
                    self.at += 1;
                    let Some(Tok::Set(Set::Char(b))) = self.peek().cloned() else {
                        return Err(self.here());
                    };
                    self.at += 1;
                    items.push(Item::Range(*a, b));
                } else {
                    items.push(Item::One(s));
                }
            }
            self.at += 1;
            if items.is_empty() {
                self.open = true;
            }
            let t = self.spelled(from);
            Re::Set(Set::Bracket(neg, items), t)
        } else if let Some(Tok::Set(s)) = self.peek().cloned() {
            self.at += 1;
            let t = self.spelled(from);
            Re::Set(s, t)
        } else {
            return Err(self.here());
        };
        if let Some(Tok::Quant(min, max)) = self.peek().cloned() {
            let q = self.at;
            self.at += 1;
            let t = self.spelled(q);
            return Ok(Re::Rep(Box::new(e), min, max, t));
        }
        Ok(e)
    }
}
