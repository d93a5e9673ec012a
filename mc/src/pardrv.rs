//! Drives the real grammar, automaton and parser.

use std::cell::Cell;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};

use pango_lexer::Lexer;
use pango_parser::{Grammar, Slr, Symbol, TerminalEq, TerminalHash};

use crate::dbg::{self, Val};
use crate::gram::*;
use crate::lexdrv::guard;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Var(pub u8);
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ter(pub u8);

thread_local! {
    static COLLIDE: Cell<u8> = const { Cell::new(0) };
}

/// How variables and terminals hash meanwhile: all differently (0), all equally
/// (1), or every other equally (2). Equality does not change.
pub fn hashed<T>(mode: u8, f: impl FnOnce() -> T) -> T {
    let before = COLLIDE.with(|c| c.replace(mode));
    let r = f();
    COLLIDE.with(|c| c.set(before));
    r
}

fn hash<H: Hasher>(n: u8, state: &mut H) {
    match COLLIDE.with(|c| c.get()) {
        0 => n.hash(state),
        // like the end of the text
        1 => 0i32.hash(state),
        _ => (n % 2).hash(state),
    }
}

impl Hash for Var {
    fn hash<H: Hasher>(&self, state: &mut H) {
        hash(self.0, state)
    }
}
impl Hash for Ter {
    fn hash<H: Hasher>(&self, state: &mut H) {
        hash(self.0, state)
    }
}

impl Debug for Var {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&var_name(self.0))
    }
}
impl Debug for Ter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&ter_name(self.0))
    }
}
impl TerminalEq for Ter {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}
impl TerminalHash for Ter {
    fn terminal_hash<H: Hasher>(&self, state: &mut H) {
        hash(self.0, state)
    }
}

pub fn sym(s: &S) -> Symbol<Var, Ter> {
    match s {
        S::T(t) => Symbol::Terminal(Ter(*t)),
        S::V(v) => Symbol::Variable(Var(*v)),
        S::E => Symbol::Epsilon,
    }
}

pub fn grammar(g: &G) -> Grammar<Var, Ter> {
    let mut b = Grammar::builder().with_start_variable(Var(0));
    for (h, body) in &g.rules {
        b = b.with_rule(Var(*h), body.iter().map(sym).collect::<Vec<_>>());
    }
    b.build()
}

pub fn parser(g: &G) -> Result<Slr<Var, Ter>, String> {
    guard(|| Slr::new(grammar(g)))
}

pub fn text(word: &[u8]) -> String {
    word.iter().map(|t| ter_char(*t)).collect()
}

/// Lexer with one single-character token per terminal.
pub fn lexer(nt: u8, input: &str) -> Lexer<'_, Ter> {
    let mut b = Lexer::builder();
    let mut buf = [0u8; 4];
    for t in 0..nt {
        b = b
            .with_token_unit(ter_char(t).encode_utf8(&mut buf), Ter(t))
            .expect("pattern of one letter");
    }
    b.tokenize(input)
}

/// Outcome of a parse: `Ok(true)` accepted, `Ok(false)` refused, `Err` panicked.
pub fn accepts(p: &Slr<Var, Ter>, nt: u8, input: &str) -> Result<bool, String> {
    guard(|| p.parse(lexer(nt, input)).is_ok())
}

/// As [`accepts`], with the displayed tree.
pub fn tree(p: &Slr<Var, Ter>, nt: u8, input: &str) -> Result<Option<String>, String> {
    guard(|| p.parse(lexer(nt, input)).ok().map(|t| format!("{:?}", t)))
}

/// Tree read from its displayed form; children as stored.
#[derive(Debug, Clone, PartialEq)]
pub struct Node {
    /// `Err` for a variable, `Ok` for a terminal, by the displayed name.
    pub symbol: Result<String, String>,
    pub children: Vec<Node>,
}

pub fn flat(v: &Val) -> String {
    match v {
        Val::Atom(a) => a.clone(),
        v => format!("{:?}", v),
    }
}

pub fn node(v: &Val) -> Option<Node> {
    let s = v.field("symbol")?;
    let Val::Tuple(kind, inner) = s else {
        return None;
    };
    if inner.len() != 1 {
        return None;
    }
    let symbol = match kind.as_str() {
        "Terminal" => Ok(flat(&inner[0])),
        "Variable" => Err(flat(&inner[0])),
        _ => return None,
    };
    let children = v
        .field("children")?
        .members()?
        .into_iter()
        .map(node)
        .collect::<Option<Vec<_>>>()?;
    Some(Node { symbol, children })
}

/// The tree inside the displayed result of a parse.
pub fn read_tree(text: &str) -> Option<Node> {
    let v = dbg::parse(text)?;
    let mut found = Vec::new();
    v.find_all(&|v| v.field("symbol").is_some() && v.field("children").is_some(), &mut found);
    match found[..] {
        [one] => node(one),
        _ => None,
    }
}

/// Whether the tree is a derivation of the word by the grammar; the reason if not.
pub fn derivation(g: &G, root: &Node, leaf: &dyn Fn(usize, &str) -> bool, len: usize) -> Result<(), String> {
    if root.symbol != Err(var_name(0)) {
        return Err(format!("the root is {:?}", root.symbol));
    }
    let rules = g.strip();
    let mut at = 0;
    // depth first, children from last to first, without recursion
    let mut stack = vec![root];
    while let Some(n) = stack.pop() {
        match &n.symbol {
            Ok(t) => {
                if !n.children.is_empty() {
                    return Err(format!("terminal {} has children", t));
                }
                if at >= len || !leaf(at, t) {
                    return Err(format!("leaf {} is {}", at, t));
                }
                at += 1;
            }
            Err(v) => {
                let spelled: Vec<(bool, &str)> = n
                    .children
                    .iter()
                    .rev()
                    .map(|c| match &c.symbol {
                        Ok(t) => (true, t.as_str()),
                        Err(v) => (false, v.as_str()),
                    })
                    .collect();
                let known = rules.iter().any(|(h, b)| {
                    var_name(*h) == *v
                        && b.len() == spelled.len()
                        && b.iter().zip(&spelled).all(|(s, (ter, name))| match s {
                            // which terminal it is, is judged at the leaf
                            S::T(_) => *ter,
                            S::V(x) => !*ter && var_name(*x) == *name,
                            S::E => false,
                        })
                        && b.iter().zip(&spelled).all(|(s, (_, name))| match s {
                            S::T(t) => terminal_named(name, *t),
                            _ => true,
                        })
                });
                if !known {
                    return Err(format!("{} has the children {:?}", v, spelled));
                }
                stack.extend(n.children.iter());
            }
        }
    }
    if at != len {
        return Err(format!("{} leaves for {} tokens", at, len));
    }
    Ok(())
}

/// Terminal names may carry a payload behind a colon.
fn terminal_named(name: &str, t: u8) -> bool {
    let base = name.split("::").next().unwrap_or(name);
    base == ter_name(t)
}

// ------------------------------------------------------------- tables

/// The parse table, read from the displayed parser.
pub struct View {
    pub action: Vec<std::collections::BTreeMap<u8, Act>>,
    pub goto: Vec<std::collections::BTreeMap<u8, usize>>,
}

fn is_action(v: &Val) -> bool {
    matches!(v.name(), "Shift" | "Reduce" | "Accept")
}

pub fn view(g: &G, p: &Slr<Var, Ter>) -> Option<View> {
    let v = dbg::parse(&format!("{:?}", p))?;
    // rows of actions and rows of gotos
    let mut lists = Vec::new();
    v.find_all(
        &|v| matches!(v, Val::List(rows) if !rows.is_empty() && rows.iter().all(|r| r.entries().is_some())),
        &mut lists,
    );
    let (mut action, mut goto) = (None, None);
    for l in lists {
        let Val::List(rows) = l else { unreachable!() };
        let rows: Vec<_> = rows.iter().map(|r| r.entries().unwrap()).collect();
        let any = rows.iter().flatten().next();
        match any {
            Some((_, x)) if is_action(x) && action.is_none() => action = Some(rows),
            Some((_, x)) if x.int().is_some() && goto.is_none() => goto = Some(rows),
            _ => {}
        }
    }
    let var = |v: &Val| (0..g.nv).find(|i| flat(v) == var_name(*i));
    let ter = |v: &Val| -> Option<u8> {
        match v {
            Val::Atom(a) if a == "Eof" => Some(EOF_COL),
            Val::Tuple(_, x) if x.len() == 1 => (0..g.nt).find(|i| flat(&x[0]) == ter_name(*i)),
            Val::Atom(a) => (0..g.nt).find(|i| *a == ter_name(*i)),
            _ => None,
        }
    };
    let mut out = View {
        action: Vec::new(),
        goto: Vec::new(),
    };
    for row in action? {
        let mut m = std::collections::BTreeMap::new();
        for (k, x) in row {
            let act = match x {
                Val::Atom(a) if a == "Accept" => Act::Accept,
                x if x.name() == "Accept" => Act::Accept,
                Val::Struct(n, f) if n == "Shift" => Act::Shift(f.iter().find_map(|(_, v)| v.int())?),
                Val::Tuple(n, f) if n == "Shift" => Act::Shift(f.iter().find_map(|v| v.int())?),
                Val::Struct(n, f) if n == "Reduce" => {
                    Act::Reduce(f.iter().find_map(|(_, v)| var(v))?, f.iter().find_map(|(_, v)| v.int())?)
                }
                _ => return None,
            };
            m.insert(ter(k)?, act);
        }
        out.action.push(m);
    }
    for row in goto.unwrap_or_default() {
        let mut m = std::collections::BTreeMap::new();
        for (k, x) in row {
            m.insert(var(k)?, x.int()?);
        }
        out.goto.push(m);
    }
    Some(out)
}
