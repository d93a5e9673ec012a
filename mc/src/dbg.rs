//! Reads the text that derived `Debug` implementations produce.

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// Number, identifier or anything else without structure.
    Atom(String),
    Struct(String, Vec<(String, Val)>),
    Tuple(String, Vec<Val>),
    List(Vec<Val>),
    /// Set or map.
    Braces(Vec<(Val, Option<Val>)>),
}

use Val::*;

impl Val {
    pub fn field(&self, name: &str) -> Option<&Val> {
        match self {
            Struct(_, f) => f.iter().find(|(n, _)| n == name).map(|(_, v)| v),
            _ => None,
        }
    }

    pub fn name(&self) -> &str {
        match self {
            Struct(n, _) | Tuple(n, _) => n,
            Atom(n) => n,
            _ => "",
        }
    }

    pub fn int(&self) -> Option<usize> {
        match self {
            Atom(a) => a.parse().ok(),
            Tuple(_, v) if v.len() == 1 => v[0].int(),
            Struct(_, v) if v.len() == 1 => v[0].1.int(),
            _ => None,
        }
    }

    /// Members of a list or set.
    pub fn members(&self) -> Option<Vec<&Val>> {
        match self {
            List(v) => Some(v.iter().collect()),
            Braces(v) => v.iter().map(|(k, x)| x.is_none().then_some(k)).collect(),
            _ => None,
        }
    }

    /// Entries of a map.
    pub fn entries(&self) -> Option<Vec<(&Val, &Val)>> {
        match self {
            Braces(v) => v.iter().map(|(k, x)| x.as_ref().map(|x| (k, x))).collect(),
            _ => None,
        }
    }

    /// Everything below this value, in order, for which `f` holds.
    pub fn find_all<'a>(&'a self, f: &dyn Fn(&Val) -> bool, out: &mut Vec<&'a Val>) {
        if f(self) {
            out.push(self);
            return;
        }
        match self {
            Atom(_) => {}
            Struct(_, v) => v.iter().for_each(|(_, x)| x.find_all(f, out)),
            Tuple(_, v) | List(v) => v.iter().for_each(|x| x.find_all(f, out)),
            Braces(v) => v.iter().for_each(|(k, x)| {
                k.find_all(f, out);
                if let Some(x) = x {
                    x.find_all(f, out)
                }
            }),
        }
    }
}

pub fn parse(text: &str) -> Option<Val> {
    let mut p = P {
        t: text.chars().collect(),
        i: 0,
    };
    let v = p.value()?;
    p.space();
    (p.i == p.t.len()).then_some(v)
}

struct P {
    t: Vec<char>,
    i: usize,
}

impl P {
    fn space(&mut self) {
        while self.i < self.t.len() && self.t[self.i].is_whitespace() {
            self.i += 1;
        }
    }

    fn eat(&mut self, c: char) -> bool {
        self.space();
        if self.t.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    fn atom(&mut self) -> String {
        self.space();
        let mut s = String::new();
        while let Some(&c) = self.t.get(self.i) {
            match c {
                '"' | '\'' => {
                    s.push(c);
                    self.i += 1;
                    while let Some(&d) = self.t.get(self.i) {
                        s.push(d);
                        self.i += 1;
                        if d == '\\' {
                            if let Some(&e) = self.t.get(self.i) {
                                s.push(e);
                                self.i += 1;
                            }
                        } else if d == c {
                            break;
                        }
                    }
                }
                '{' | '}' | '(' | ')' | '[' | ']' | ',' => break,
                ':' => {
                    // a path keeps its colons
                    if self.t.get(self.i + 1) == Some(&':') {
                        s.push_str("::");
                        self.i += 2;
                    } else {
                        break;
                    }
                }
                c if c.is_whitespace() => break,
                c => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
        s
    }

    fn value(&mut self) -> Option<Val> {
        let name = self.atom();
        self.space();
        match self.t.get(self.i) {
            Some('{') if !name.is_empty() => {
                self.i += 1;
                let mut v = Vec::new();
                while !self.eat('}') {
                    let f = self.atom();
                    if f == ".." {
                        continue;
                    }
                    if !self.eat(':') {
                        return None;
                    }
                    v.push((f, self.value()?));
                    if !self.eat(',') {
                        if !self.eat('}') {
                            return None;
                        }
                        break;
                    }
                }
                Some(Struct(name, v))
            }
            Some('{') => {
                self.i += 1;
                let mut v = Vec::new();
                while !self.eat('}') {
                    let k = self.value()?;
                    let x = if self.eat(':') { Some(self.value()?) } else { None };
                    v.push((k, x));
                    if !self.eat(',') {
                        if !self.eat('}') {
                            return None;
                        }
                        break;
                    }
                }
                Some(Braces(v))
            }
            Some('(') => {
                self.i += 1;
                let v = self.list(')')?;
                Some(Tuple(name, v))
            }
            Some('[') if name.is_empty() => {
                self.i += 1;
                Some(List(self.list(']')?))
            }
            _ if name.is_empty() => None,
            _ => Some(Atom(name)),
        }
    }

    fn list(&mut self, close: char) -> Option<Vec<Val>> {
        let mut v = Vec::new();
        while !self.eat(close) {
            v.push(self.value()?);
            if !self.eat(',') {
                if !self.eat(close) {
                    return None;
                }
                break;
            }
        }
        Some(v)
    }
}
