//! Reads graphs in the DOT language.

use std::collections::HashMap;

#[derive(Debug, Default)]
pub struct Graph {
    /// Name and attributes of every node statement.
    pub nodes: Vec<(String, Vec<(String, Text)>)>,
    /// Shape that nodes get by default where the node statement of the same index stands.
    pub stated: Vec<String>,
    /// Shape of every node: the default where it is named first, unless it has its own.
    pub shapes: HashMap<String, String>,
    pub edges: Vec<(String, String, Vec<(String, Text)>)>,
}

/// A label as written, without the quotes and the escapes of quotes.
#[derive(Debug, Clone, PartialEq)]
pub struct Text(pub String);

impl Text {
    /// The text a viewer shows: line breaks and backslashes resolved.
    pub fn shown(&self, node: &str) -> String {
        let mut s = String::new();
        let mut it = self.0.chars();
        while let Some(c) = it.next() {
            if c != '\\' {
                s.push(c);
                continue;
            }
            match it.next() {
                Some('n' | 'l' | 'r') => s.push('\n'),
                Some('N') => s.push_str(node),
                Some('G') => s.push_str("(graph)"),
                Some('L') => s.push_str("(label)"),
                Some('E' | 'T' | 'H') => s.push_str("(edge)"),
                Some(c) => s.push(c),
                None => s.push('\\'),
            }
        }
        s
    }
}

pub fn label(a: &[(String, Text)]) -> Option<&Text> {
    attribute(a, "label")
}

fn attribute<'a>(a: &'a [(String, Text)], name: &str) -> Option<&'a Text> {
    a.iter().rev().find(|(k, _)| k == name).map(|(_, v)| v)
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Quoted(String),
    P(&'static str),
}

fn tokens(t: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut v = Vec::new();
    while i < c.len() {
        let at = |k: usize| c.get(i + k).copied().unwrap_or('\0');
        if c[i].is_whitespace() {
            i += 1;
        } else if (at(0) == '/' && at(1) == '/') || (at(0) == '#' && (i == 0 || c[i - 1] == '\n')) {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(0) == '/' && at(1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            if i >= c.len() {
                return Err("comment without end".into());
            }
            i += 2;
        } else if at(0) == '-' && at(1) == '>' {
            v.push(Tok::P("->"));
            i += 2;
        } else if at(0) == '-' && at(1) == '-' {
            v.push(Tok::P("--"));
            i += 2;
        } else if let Some(p) = ["{", "}", "[", "]", ";", ",", "=", ":", "+"].iter().find(|p| p.starts_with(c[i])) {
            v.push(Tok::P(p));
            i += 1;
        } else if c[i] == '"' {
            i += 1;
            let mut s = String::new();
            loop {
                match c.get(i) {
                    None => return Err("quoted text without end".into()),
                    Some('"') => break,
                    // only the quote is escaped here; two backslashes stay two
                    Some('\\') if c.get(i + 1) == Some(&'"') => {
                        s.push('"');
                        i += 2;
                    }
                    Some('\\') if c.get(i + 1) == Some(&'\\') => {
                        s.push_str("\\\\");
                        i += 2;
                    }
                    Some('\\') if c.get(i + 1) == Some(&'\n') => i += 2,
                    Some(&d) => {
                        s.push(d);
                        i += 1;
                    }
                }
            }
            i += 1;
            v.push(Tok::Quoted(s));
        } else if c[i] == '<' {
            let mut depth = 0;
            let mut s = String::new();
            loop {
                match c.get(i) {
                    None => return Err("markup without end".into()),
                    Some('<') => depth += 1,
                    Some('>') => depth -= 1,
                    _ => {}
                }
                s.push(c[i]);
                i += 1;
                if depth == 0 {
                    break;
                }
            }
            v.push(Tok::Quoted(s));
        } else if c[i].is_ascii_digit() || c[i] == '.' || c[i] == '-' {
            let from = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            let s: String = c[from..i].iter().collect();
            if !s.contains(|d: char| d.is_ascii_digit()) {
                return Err(format!("{:?} is not a number", s));
            }
            v.push(Tok::Id(s));
        } else if c[i].is_ascii_alphabetic() || c[i] == '_' || !c[i].is_ascii() {
            let from = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || !c[i].is_ascii()) {
                i += 1;
            }
            v.push(Tok::Id(c[from..i].iter().collect()));
        } else {
            return Err(format!("{:?} outside of quotes", c[i]));
        }
    }
    Ok(v)
}

pub fn parse(t: &str) -> Result<Graph, String> {
    let mut p = P {
        t: tokens(t)?,
        i: 0,
        g: Graph::default(),
        shape: "ellipse".into(),
    };
    if p.word("strict") {
        p.i += 1;
    }
    if !p.word("digraph") {
        return Err("no directed graph".into());
    }
    p.i += 1;
    if !p.is("{") {
        p.id()?;
    }
    p.block()?;
    if p.i != p.t.len() {
        return Err("text after the graph".into());
    }
    Ok(p.g)
}

struct P {
    t: Vec<Tok>,
    i: usize,
    g: Graph,
    /// Default shape of nodes.
    shape: String,
}

impl P {
    fn is(&self, x: &str) -> bool {
        matches!(self.t.get(self.i), Some(Tok::P(p)) if *p == x)
    }
    fn eat(&mut self, x: &str) -> bool {
        let b = self.is(x);
        self.i += b as usize;
        b
    }
    fn word(&self, x: &str) -> bool {
        matches!(self.t.get(self.i), Some(Tok::Id(p)) if p.eq_ignore_ascii_case(x))
    }
    fn id(&mut self) -> Result<String, String> {
        match self.t.get(self.i).cloned() {
            Some(Tok::Id(s)) => {
                self.i += 1;
                Ok(s)
            }
            Some(Tok::Quoted(mut s)) => {
                self.i += 1;
                while self.is("+") {
                    self.i += 1;
                    match self.t.get(self.i) {
                        Some(Tok::Quoted(x)) => s.push_str(x),
                        _ => return Err("a text has to follow '+'".into()),
                    }
                    self.i += 1;
                }
                Ok(s)
            }
            x => Err(format!("a name was expected, not {:?}", x)),
        }
    }
    fn block(&mut self) -> Result<(), String> {
        if !self.eat("{") {
            return Err(format!("'{{' was expected, not {:?}", self.t.get(self.i)));
        }
        let outer = self.shape.clone();
        while !self.eat("}") {
            if self.i >= self.t.len() {
                return Err("graph without end".into());
            }
            if !self.eat(";") {
                self.statement()?;
            }
        }
        self.shape = outer;
        Ok(())
    }
    fn attributes(&mut self) -> Result<Vec<(String, Text)>, String> {
        let mut v = Vec::new();
        while self.eat("[") {
            while !self.eat("]") {
                let k = self.id()?;
                if !self.eat("=") {
                    return Err(format!("'=' was expected after {:?}", k));
                }
                let x = self.id()?;
                v.push((k, Text(x)));
                if !self.eat(";") {
                    self.eat(",");
                }
            }
        }
        Ok(v)
    }
    fn statement(&mut self) -> Result<(), String> {
        if self.is("{") {
            return self.block();
        }
        if self.word("subgraph") {
            self.i += 1;
            if !self.is("{") {
                self.id()?;
            }
            return self.block();
        }
        if self.word("graph") || self.word("node") || self.word("edge") {
            let node = self.word("node");
            self.i += 1;
            if !self.is("[") {
                return Err("attributes were expected".into());
            }
            let a = self.attributes()?;
            if let (true, Some(s)) = (node, attribute(&a, "shape")) {
                self.shape = s.0.clone();
            }
            return Ok(());
        }
        let mut names = vec![self.id()?];
        if self.eat("=") {
            self.id()?;
            return Ok(());
        }
        self.port()?;
        while self.eat("->") {
            names.push(self.id()?);
            self.port()?;
        }
        let a = self.attributes()?;
        for n in &names {
            let s = self.g.shapes.entry(n.clone()).or_insert(self.shape.clone());
            if let (1, Some(own)) = (names.len(), attribute(&a, "shape")) {
                *s = own.0.clone();
            }
        }
        if names.len() == 1 {
            self.g.stated.push(self.shape.clone());
            self.g.nodes.push((names.remove(0), a));
        } else {
            for w in names.windows(2) {
                self.g.edges.push((w[0].clone(), w[1].clone(), a.clone()));
            }
        }
        Ok(())
    }
    fn port(&mut self) -> Result<(), String> {
        while self.eat(":") {
            self.id()?;
        }
        Ok(())
    }
}
