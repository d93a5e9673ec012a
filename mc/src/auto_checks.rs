//! Grammar builder (C10), canonical automaton (C11) and its export (C20).

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug};
use std::sync::Arc;

use pango_parser::{Cfsm, Grammar, Symbol};

use crate::dbg::{self, Val};
use crate::dot;
use crate::engine::*;
use crate::gram::*;
use crate::gram_checks::{grammars, Probe};
use crate::lexdrv::guard;
use crate::pardrv::{self, flat, sym, Ter, Var};
use crate::re::odd_chars;

fn symbol(v: &Val, nv: u8, nt: u8) -> Option<S> {
    match v {
        Val::Atom(a) if a == "Epsilon" => Some(S::E),
        Val::Tuple(k, x) if x.len() == 1 => {
            let n = flat(&x[0]);
            match k.as_str() {
                "Terminal" => (0..nt).find(|t| ter_name(*t) == n).map(S::T),
                "Variable" => (0..nv).find(|t| var_name(*t) == n).map(S::V),
                _ => None,
            }
        }
        _ => None,
    }
}

fn body(v: &Val, nv: u8, nt: u8) -> Option<Vec<S>> {
    v.members()?.into_iter().map(|s| symbol(s, nv, nt)).collect()
}

fn var(v: &Val, nv: u8) -> Option<u8> {
    let n = match v {
        Val::Tuple(_, x) if x.len() == 1 => flat(&x[0]),
        v => flat(v),
    };
    (0..nv).find(|i| var_name(*i) == n)
}

// ------------------------------------------------------------- C10

type Bodies = BTreeMap<u8, BTreeSet<Vec<S>>>;

/// Start variable and bodies of a displayed grammar.
fn read_grammar(text: &str, nv: u8, nt: u8) -> Option<(u8, Bodies)> {
    let v = dbg::parse(text)?;
    let Val::Struct(_, fields) = &v else {
        return None;
    };
    let mut start = None;
    let mut rules = None;
    for (_, f) in fields {
        if let Some(x) = var(f, nv) {
            start = Some(x);
        }
        if let Some(e) = f.entries() {
            let mut m = Bodies::new();
            for (h, bs) in e {
                let mut set = BTreeSet::new();
                for b in bs.members()? {
                    let b = body(b, nv, nt)?;
                    set.insert(if b.is_empty() { vec![S::E] } else { b });
                }
                m.insert(var(h, nv)?, set);
            }
            rules = Some(m);
        }
    }
    Some((start?, rules?))
}

#[derive(Clone, Debug)]
enum Op {
    /// By mutable reference, or by value.
    Start(bool, u8),
    Rule(bool, u8, Vec<S>),
    Rules(bool, u8, Vec<Vec<S>>),
}

fn show(ops: &[Op]) -> String {
    let b = |b: &Vec<S>| format!("[{}]", b.iter().map(sym_name).collect::<Vec<_>>().join(" "));
    ops.iter()
        .map(|o| match o {
            Op::Start(r, v) => format!("{}_start_variable({})", if *r { "set" } else { "with" }, var_name(*v)),
            Op::Rule(r, v, x) => format!("{}_rule({}, {})", if *r { "add" } else { "with" }, var_name(*v), b(x)),
            Op::Rules(r, v, x) => format!(
                "{}_rules({}, [{}])",
                if *r { "add" } else { "with" },
                var_name(*v),
                x.iter().map(b).collect::<Vec<_>>().join(", ")
            ),
        })
        .collect::<Vec<_>>()
        .join(" . ")
}

#[derive(Default)]
struct Builder {
    start: Option<u8>,
    rules: Bodies,
}

impl Builder {
    fn rule(&mut self, v: u8, b: &[S]) -> bool {
        let b = if b.is_empty() { vec![S::E] } else { b.to_vec() };
        self.rules.entry(v).or_default().insert(b)
    }

    /// Whether `build` has to succeed.
    fn complete(&self) -> bool {
        let has = |v: &u8| self.rules.get(v).is_some_and(|b| !b.is_empty());
        self.start.as_ref().is_some_and(has)
            && self.rules.values().flatten().flatten().all(|s| match s {
                S::V(v) => has(v),
                _ => true,
            })
    }
}

fn build(ctx: &mut Ctx, ops: &[Op], nv: u8, nt: u8) {
    let mut model = Builder::default();
    let mut said = Vec::new();
    let mut expected = Vec::new();
    let body = |b: &Vec<S>| b.iter().map(sym).collect::<Vec<Symbol<Var, Ter>>>();
    ctx.about(|| show(ops));
    ctx.states += 1;
    ctx.traces += 1;
    ctx.transitions += ops.len() as u64 + 1;
    let made = guard(|| {
        let mut b = Grammar::builder();
        for o in ops {
            match o {
                Op::Start(true, v) => b.set_start_variable(Var(*v)),
                Op::Start(false, v) => b = b.with_start_variable(Var(*v)),
                Op::Rule(true, v, x) => said.push(b.add_rule(Var(*v), body(x))),
                Op::Rule(false, v, x) => b = b.with_rule(Var(*v), body(x)),
                Op::Rules(true, v, x) => b.add_rules(Var(*v), x.iter().map(body)),
                Op::Rules(false, v, x) => b = b.with_rules(Var(*v), x.iter().map(body)),
            }
        }
        b
    });
    for o in ops {
        match o {
            Op::Start(_, v) => model.start = Some(*v),
            Op::Rule(r, v, x) => {
                let new = model.rule(*v, x);
                if *r {
                    expected.push(new);
                }
            }
            Op::Rules(_, v, x) => x.iter().for_each(|x| {
                model.rule(*v, x);
            }),
        }
    }
    let b = match made {
        Ok(b) => b,
        Err(m) => return ctx.fail(show(ops), "a builder", m),
    };
    if said != expected {
        return ctx.fail(show(ops), format!("add_rule reports {:?}", expected), format!("{:?}", said));
    }
    let g = guard(|| b.build());
    match (&g, model.complete()) {
        (Err(_), false) => {
            ctx.hist("refused");
            return;
        }
        (Err(m), true) => return ctx.fail(show(ops), "a grammar", m.clone()),
        (Ok(g), false) => return ctx.fail(show(ops), "build refuses", format!("{:?}", g)),
        _ => ctx.hist("built"),
    }
    let g = g.unwrap();
    for (what, text) in [("", format!("{:?}", g)), ("clone of ", format!("{:?}", g.clone()))] {
        match read_grammar(&text, nv, nt) {
            None => ctx.hist("grammar in unknown form, contents not judged"),
            Some((start, mut rules)) => {
                // a variable without bodies has no rules
                rules.retain(|_, b| !b.is_empty());
                if Some(start) != model.start || rules != model.rules {
                    return ctx.fail(
                        format!("{}{}", what, show(ops)),
                        format!("start {:?}, rules {:?}", model.start, model.rules),
                        text,
                    );
                }
            }
        }
    }
}

/// All sequences of up to `max` operations.
fn sequences(name: &str, ops: Vec<Op>, max: usize, nv: u8, nt: u8) -> Domain {
    let n = ops.len();
    let total: usize = (0..=max as u32).map(|k| n.pow(k)).sum();
    let name = format!("{}: all {} sequences of up to {} of {} builder calls, symbols that hash differently, equally, and half of them equally", name, total, max, n);
    domain(name, total, 256, move |i, ctx| {
        let mut i = i as usize;
        let mut len = 0;
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        let mut seq = Vec::new();
        for _ in 0..len {
            seq.push(ops[i % n].clone());
            i /= n;
        }
        ctx.sample(|| show(&seq));
        for mode in 0..3 {
            crate::pardrv::hashed(mode, || build(ctx, &seq, nv, nt));
            if ctx.failed() {
                return;
            }
        }
    })
}

/// A chain of `n` variables with bodies of `len` symbols; one symbol of one
/// body is what `kind` says.
fn chain_ops(kind: usize, n: u8, rule: u8, len: usize, at: usize) -> Vec<Op> {
    let mut ops = Vec::new();
    for v in 0..n {
        let mut b: Vec<S> = (0..len).map(|i| if i == 0 && v + 1 < n { S::V(v + 1) } else { S::T((i % 3) as u8) }).collect();
        if v == rule {
            b[at] = match kind {
                // no rule, no rule but known, defined, itself, the start, nothing
                0 | 1 => S::V(n),
                2 => S::V(n - 1),
                3 => S::V(v),
                4 => S::V(0),
                _ => S::E,
            };
        }
        ops.push(match (v as usize + kind) % 3 {
            0 => Op::Rule(true, v, b.clone()),
            1 => Op::Rule(false, v, b.clone()),
            _ => Op::Rules(true, v, vec![b.clone()]),
        });
        // once more, but for the last symbol
        let last = b.len() - 1;
        b[last] = S::T(3);
        ops.push(Op::Rule(true, v, b.clone()));
        ops.push(Op::Rule(true, v, b));
    }
    if kind == 1 {
        ops.push(Op::Rules(true, n, vec![]));
    }
    ops.insert(at % (ops.len() + 1), Op::Start(true, 0));
    ops
}

pub fn c10(thorough: bool) -> Check {
    let (a, sv, av, bv, e) = (S::T(0), S::V(0), S::V(1), S::V(2), S::E);
    let bodies = vec![vec![], vec![e], vec![a], vec![sv], vec![av], vec![a, av], vec![e, a]];
    // every kind of call
    let mut all = Vec::new();
    for r in [true, false] {
        for v in 0..2 {
            all.push(Op::Start(r, v));
            for b in &bodies {
                all.push(Op::Rule(r, v, b.clone()));
            }
            for list in [
                vec![],
                vec![vec![]],
                vec![vec![a], vec![a]],
                vec![vec![av], vec![]],
                vec![vec![e], vec![], vec![sv]],
            ] {
                all.push(Op::Rules(r, v, list));
            }
        }
    }
    // longer sequences of the basic calls
    let mut basic = Vec::new();
    for v in 0..2 {
        basic.push(Op::Start(true, v));
        for b in [vec![], vec![a], vec![av], vec![sv, av]] {
            basic.push(Op::Rule(true, v, b));
        }
    }
    basic.push(Op::Rule(true, 1, vec![e]));
    // three variables, each used before or after it has a rule
    let chain = vec![
        Op::Start(true, 0),
        Op::Start(false, 2),
        Op::Rule(true, 0, vec![av]),
        Op::Rule(true, 1, vec![bv, a]),
        Op::Rule(true, 2, vec![]),
        Op::Rule(true, 2, vec![S::T(1), sv]),
        Op::Rules(true, 1, vec![vec![S::T(1)], vec![S::T(0)]]),
        Op::Rules(true, 0, vec![]),
    ];
    let lens: Vec<usize> = if thorough { (1..=40).chain([63, 64, 65, 255, 256, 257]).collect() } else { (1..=20).chain([32, 33, 64, 65, 256, 257]).collect() };
    let vars: Vec<u8> = if thorough { (1..=20).chain([33, 64, 65, 128]).collect() } else { vec![1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 65] };
    let (nl, nv) = (lens.len(), vars.len());
    let families = domain(
        format!(
            "6 kinds of symbols at every position of every rule of chains of {} numbers of variables up to {}, bodies of {} lengths up to {}",
            nv,
            vars[nv - 1],
            nl,
            lens[nl - 1]
        ),
        6 * nl * nv,
        2,
        move |i, ctx| {
            let i = i as usize;
            let (kind, len, n) = (i % 6, lens[i / 6 % nl], vars[i / 6 / nl]);
            ctx.sample(|| format!("kind {}, bodies of {}, {} variables", kind, len, n));
            // large ones only at the edges
            let near = |x: usize, of: usize| of <= 12 || x < 2 || x + 2 >= of || x == of / 2;
            for rule in (0..n).filter(|r| near(*r as usize, n as usize)) {
                for at in (0..len).filter(|a| near(*a, len)) {
                    build(ctx, &chain_ops(kind, n, rule, len, at), n + 1, 4);
                    if ctx.failed() {
                        return;
                    }
                }
            }
        },
    );
    // many bodies of one variable, all different, each added twice
    let many: Vec<usize> = if thorough { (1..=300).chain([1000, 5000]).collect() } else { (1..=40).chain([64, 100, 255, 256, 257, 1000]).collect() };
    let nm = many.len();
    let bodies_of_one = domain(
        format!("{} numbers up to {} of bodies of one variable, each added twice", nm, many[nm - 1]),
        nm * 2,
        1,
        move |i, ctx| {
            let n = many[i as usize / 2];
            let digits = |mut x: usize| {
                let mut v = vec![S::T(0); 8];
                for d in v.iter_mut() {
                    *d = S::T((x % 4) as u8);
                    x /= 4;
                }
                if i % 2 == 0 {
                    v.reverse();
                }
                v
            };
            let mut ops: Vec<Op> = (0..2 * n).map(|k| Op::Rule(true, 0, digits(k % n))).collect();
            ops.insert(n, Op::Start(true, 0));
            ctx.sample(|| format!("{} bodies", n));
            build(ctx, &ops, 1, 4);
        },
    );
    Check {
        id: "C10",
        domains: vec![
            sequences("every call", all, if thorough { 4 } else { 3 }, 2, 1),
            sequences("basic calls", basic, if thorough { 6 } else { 5 }, 2, 1),
            sequences("three variables", chain, if thorough { 8 } else { 6 }, 3, 2),
            families,
            bodies_of_one,
        ],
        assumptions: vec![
            "the contents of a grammar are read from its displayed (Debug) form".into(),
            "an empty body and the body of just the empty word are the same body".into(),
        ],
    }
}

// ------------------------------------------------------------- C11

/// Head, body and position of the bullet.
type Show = (u8, Vec<S>, usize);

pub struct Auto {
    start: usize,
    items: BTreeMap<usize, BTreeSet<Show>>,
    trans: BTreeMap<usize, BTreeMap<S, usize>>,
}

fn displayed(g: &G, text: &str) -> Option<Auto> {
    let v = dbg::parse(text)?;
    let mut out = Auto {
        start: 0,
        items: BTreeMap::new(),
        trans: BTreeMap::new(),
    };
    if let Some(s) = v.field("start_state") {
        out.start = s.int()?;
    }
    let mut states = Vec::new();
    v.field("states")?
        .find_all(&|v| v.field("id").is_some() && v.field("transitions").is_some(), &mut states);
    for s in states {
        let id = s.field("id")?.int()?;
        let set = s.field("item_set")?;
        let mut maps = Vec::new();
        set.find_all(&|v| matches!(v, Val::Braces(_)), &mut maps);
        let [map] = maps[..] else {
            return None;
        };
        let mut items = BTreeSet::new();
        for (h, bs) in map.entries()? {
            let h = var(h, g.nv)?;
            for b in bs.members()? {
                let at = b.field("cursor")?.int()?;
                items.insert((h, body(b.field("body")?, g.nv, g.nt)?, at));
            }
        }
        let mut row = BTreeMap::new();
        for (k, d) in s.field("transitions")?.entries()? {
            if row.insert(symbol(k, g.nv, g.nt)?, d.int()?).is_some() {
                return None;
            }
        }
        if out.items.insert(id, items).is_some() {
            return None;
        }
        out.trans.insert(id, row);
    }
    Some(out)
}

/// As [`displayed`], from the exported graph.
fn exported(g: &G, text: &str) -> Option<Auto> {
    let d = dot::parse(text).ok()?;
    let name = |n: &str| -> Option<S> {
        if n == "Epsilon" {
            return Some(S::E);
        }
        (0..g.nv)
            .map(S::V)
            .chain((0..g.nt).map(S::T))
            .find(|s| sym_name(s) == n)
    };
    let mut out = Auto {
        start: 0,
        items: BTreeMap::new(),
        trans: BTreeMap::new(),
    };
    for (n, a) in &d.nodes {
        let id: usize = n.parse().ok()?;
        let mut items = BTreeSet::new();
        for line in dot::label(a)?.shown(n).lines() {
            let w: Vec<_> = line.split_whitespace().collect();
            let Some(S::V(h)) = name(w.first()?) else {
                return None;
            };
            let at = w[2..].iter().position(|x| *x == "•")?;
            let b: Option<Vec<S>> = w[2..].iter().filter(|x| **x != "•").map(|x| name(x)).collect();
            items.insert((h, b?, at));
        }
        if out.items.insert(id, items).is_some() {
            return None;
        }
        out.trans.insert(id, BTreeMap::new());
    }
    for (x, y, a) in &d.edges {
        let s = name(dot::label(a)?.shown("").trim())?;
        if out.trans.get_mut(&x.parse().ok()?)?.insert(s, y.parse().ok()?).is_some() {
            return None;
        }
    }
    Some(out)
}

fn show_item((h, b, at): &Show) -> String {
    let mut w: Vec<String> = b.iter().map(sym_name).collect();
    w.insert((*at).min(b.len()), "•".into());
    format!("{} → {}", var_name(*h), w.join(" "))
}

fn show_items(s: &BTreeSet<Show>) -> String {
    s.iter().map(show_item).collect::<Vec<_>>().join(", ")
}

fn automaton(ctx: &mut Ctx, g: &G, _: &Probe) {
    ctx.about(|| g.show());
    ctx.traces += 1;
    let made = guard(|| {
        let c = Cfsm::from_grammar(pardrv::grammar(g));
        let shown = format!("{:?}", c);
        (shown, c)
    });
    let (shown, cfsm) = match made {
        Ok(x) => x,
        Err(m) => return ctx.fail(g.show(), "an automaton", m),
    };
    let got = match displayed(g, &shown) {
        Some(a) => a,
        None => match guard(|| cfsm.to_dot()).ok().and_then(|t| exported(g, &t)) {
            Some(a) => {
                ctx.hist("read from the exported graph");
                a
            }
            None => {
                ctx.hist("automaton in unknown form, not judged");
                return;
            }
        },
    };
    let want = plain(g);
    let item = |(r, at): &Item| -> Show { (want.rules[*r].0, want.rules[*r].1.clone(), *at) };
    ctx.hist("automaton compared");
    // walk both together
    let mut of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut todo = vec![(0usize, got.start)];
    if got.start != 0 {
        return ctx.fail(g.show(), "the start state is state 0", format!("{}", got.start));
    }
    while let Some((q, r)) = todo.pop() {
        match of.get(&q) {
            Some(x) if *x == r => continue,
            Some(x) => return ctx.fail(g.show(), "one state per item set", format!("states {} and {} have the same items", x, r)),
            None => of.insert(q, r),
        };
        ctx.states += 1;
        let items: BTreeSet<Show> = want.states[q].iter().map(item).collect();
        let Some(have) = got.items.get(&r) else {
            return ctx.fail(g.show(), format!("state {} exists", r), "it does not");
        };
        if *have != items {
            return ctx.fail(format!("{}, state {}", g.show(), r), show_items(&items), show_items(have));
        }
        let row = &got.trans[&r];
        let keys: BTreeSet<_> = row.keys().collect();
        let wkeys: BTreeSet<_> = want.trans[q].keys().collect();
        if keys != wkeys {
            return ctx.fail(
                format!("{}, state {}", g.show(), r),
                format!("transitions for {:?}", wkeys),
                format!("{:?}", keys),
            );
        }
        for (s, d) in &want.trans[q] {
            ctx.transitions += 1;
            todo.push((*d, row[s]));
        }
    }
    if got.items.len() != want.states.len() {
        ctx.fail(g.show(), format!("{} states", want.states.len()), format!("{}", got.items.len()));
    }
}

pub fn c11(thorough: bool) -> Check {
    let mut domains = grammars(thorough, 1, false, automaton);
    let more: [(u8, u8, usize, usize); 3] = [
        (3, 2, 3, if thorough { 10 } else { 9 }),
        (4, 2, 2, 10),
        (2, 2, 4, 9),
    ];
    for (nv, nt, body, size) in more {
        let list = Arc::new(enumerate(nv, nt, body, size, false, true));
        let name = format!(
            "all {} reduced grammars with {} variables, {} terminals, bodies up to {}, size up to {}",
            list.len(),
            nv,
            nt,
            body,
            size
        );
        domains.push(domain(name, list.len(), 64, move |i, ctx| {
            let g = &list[i as usize];
            ctx.sample(|| g.show());
            automaton(
                ctx,
                g,
                &Probe {
                    words: None,
                    sentence: 0,
                    count: 0,
                },
            );
        }));
    }
    Check {
        id: "C11",
        domains,
        assumptions: vec![
            "the automaton is read from its displayed (Debug) form, or from the exported graph if that form is unknown".into(),
            "reference subset construction over the grammar's own rules (mc/src/gram.rs)".into(),
        ],
    }
}

// ------------------------------------------------------------- C20

thread_local! {
    /// Texts the symbols render to; the plain names if there are none.
    static TEXTS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

/// Symbols whose displayed text can be changed.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct TVar(u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct TTer(u8);

fn text_of(i: usize, plain: String) -> String {
    TEXTS.with(|t| match &*t.borrow() {
        Some(v) => v[i].clone(),
        None => plain,
    })
}

const VARS: usize = 2;

impl Debug for TVar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&text_of(self.0 as usize, var_name(self.0)))
    }
}
impl Debug for TTer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&text_of(VARS + self.0 as usize, ter_name(self.0)))
    }
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Whether `text` is all of `parts` in some order, one after another.
fn made_of(text: &str, parts: &[String]) -> bool {
    fn go(text: &str, parts: &[String], used: &mut Vec<bool>) -> bool {
        if used.iter().all(|u| *u) {
            return text.is_empty();
        }
        for i in 0..parts.len() {
            if !used[i] && text.starts_with(&parts[i]) && !(0..i).any(|j| !used[j] && parts[j] == parts[i]) {
                used[i] = true;
                if go(&text[parts[i].len()..], parts, used) {
                    return true;
                }
                used[i] = false;
            }
        }
        false
    }
    parts.iter().map(|p| p.len()).sum::<usize>() == text.len() && go(text, parts, &mut vec![false; parts.len()])
}

fn export(ctx: &mut Ctx, g: &G, texts: Option<Vec<String>>) {
    let case = || format!("{} with symbols shown as {:?}", g.show(), texts);
    ctx.about(case);
    ctx.traces += 1;
    let tsym = |s: &S| match s {
        S::T(t) => Symbol::Terminal(TTer(*t)),
        S::V(v) => Symbol::Variable(TVar(*v)),
        S::E => Symbol::Epsilon,
    };
    TEXTS.with(|t| *t.borrow_mut() = None);
    let made = guard(|| {
        let mut b = Grammar::builder().with_start_variable(TVar(0));
        for (h, body) in &g.rules {
            b = b.with_rule(TVar(*h), body.iter().map(tsym).collect::<Vec<_>>());
        }
        Cfsm::from_grammar(b.build())
    });
    let Ok(cfsm) = made else {
        // C11 says that there is one
        ctx.hist("no automaton");
        return;
    };
    let mut known = true;
    let auto = match guard(|| format!("{:?}", cfsm)).ok().and_then(|t| displayed(g, &t)) {
        Some(a) => a,
        None => {
            ctx.hist("automaton in unknown form: compared with the reference automaton");
            known = false;
            let p = plain(g);
            let item = |(r, at): &Item| -> Show { (p.rules[*r].0, p.rules[*r].1.clone(), *at) };
            Auto {
                start: 0,
                items: p.states.iter().map(|s| s.iter().map(item).collect()).enumerate().collect(),
                trans: p.trans.iter().cloned().enumerate().collect(),
            }
        }
    };
    let shown = |s: &S| match (s, &texts) {
        (S::V(v), Some(t)) => t[*v as usize].clone(),
        (S::T(v), Some(t)) => t[VARS + *v as usize].clone(),
        (S::E, _) => "Epsilon".into(),
        (s, None) => sym_name(s),
    };
    TEXTS.with(|t| *t.borrow_mut() = texts.clone());
    let out = guard(|| cfsm.to_dot());
    TEXTS.with(|t| *t.borrow_mut() = None);
    let out = match out {
        Ok(t) => t,
        Err(m) => return ctx.fail(case(), "a graph", m),
    };
    let d = match dot::parse(&out) {
        Ok(d) => d,
        Err(m) => return ctx.fail(case(), "well-formed DOT", format!("{}: {}", m, out)),
    };
    // nodes
    if d.nodes.len() != auto.items.len() {
        return ctx.fail(
            case(),
            format!("{} nodes, one per state", auto.items.len()),
            format!("{} nodes: {}", d.nodes.len(), out),
        );
    }
    let parts = |items: &BTreeSet<Show>, arrow: &str| -> Vec<String> {
        items
            .iter()
            .map(|(h, b, at)| {
                let mut w: Vec<String> = b.iter().map(shown).collect();
                w.insert((*at).min(b.len()), "•".into());
                squeeze(&format!("{}{}{}", shown(&S::V(*h)), arrow, w.concat()))
            })
            .collect()
    };
    let fits = |id: usize, label: &str| {
        let label = squeeze(label);
        ["➞", "→", "->"].iter().any(|a| made_of(&label, &parts(&auto.items[&id], a)))
    };
    let mut of: BTreeMap<String, usize> = BTreeMap::new();
    // the numbers of the reference automaton are its own
    let numbered = known && d.nodes.iter().all(|(n, _)| n.parse().is_ok_and(|n: usize| auto.items.contains_key(&n)));
    let mut used = BTreeSet::new();
    for (n, a) in &d.nodes {
        ctx.states += 1;
        let Some(l) = dot::label(a) else {
            return ctx.fail(case(), format!("node {} has a label", n), out);
        };
        let l = l.shown(n);
        let id = if numbered {
            n.parse().ok().filter(|id| fits(*id, &l))
        } else {
            auto.items.keys().copied().find(|id| !used.contains(id) && fits(*id, &l))
        };
        match id {
            Some(id) if used.insert(id) => {
                of.insert(n.clone(), id);
            }
            _ => {
                return ctx.fail(
                    case(),
                    format!(
                        "node {} shows the items of a state{}",
                        n,
                        n.parse()
                            .ok()
                            .and_then(|n: usize| auto.items.get(&n))
                            .map(|i| format!(": {}", show_items(i)))
                            .unwrap_or_default()
                    ),
                    format!("{:?}", l),
                )
            }
        }
    }
    // edges
    let mut want: Vec<(usize, usize, String)> = Vec::new();
    for (a, row) in &auto.trans {
        for (s, b) in row {
            want.push((*a, *b, squeeze(&shown(s))));
        }
    }
    let mut have = Vec::new();
    for (a, b, l) in &d.edges {
        ctx.transitions += 1;
        let (Some(x), Some(y)) = (of.get(a), of.get(b)) else {
            return ctx.fail(case(), format!("edge {} -> {} joins states", a, b), out);
        };
        let Some(l) = dot::label(l) else {
            return ctx.fail(case(), format!("edge {} -> {} has a label", a, b), out);
        };
        have.push((*x, *y, squeeze(&l.shown(""))));
    }
    want.sort();
    have.sort();
    if want != have {
        return ctx.fail(case(), format!("edges {:?}", want), format!("{:?}", have));
    }
    ctx.hist("graph compared");
}

fn export_plain(ctx: &mut Ctx, g: &G, _: &Probe) {
    export(ctx, g, None);
}

pub fn c20(thorough: bool) -> Check {
    let mut domains = Vec::new();
    const HOSTILE: [&str; 24] = [
        "x", "\"", "\\", "\\\"", "\"\"", "q\"r", "q\\", "\\n", "\n", "\\N", "", " ", "•", "➞", ";", "]", "}\n", "//x", "/*", "<b>", "é",
        "\"];evil[label=\"", "\\\\", "{\u{7f}\u{0}'",
    ];
    let shapes: Vec<G> = ["S: aSb | ", "S: AS | A; A: a | b", "S: a", "S: SA | ; A: aAb | b", "S: SaA | A; A: b"]
        .iter()
        .map(|t| G::read(t))
        .collect();
    let n = HOSTILE.len();
    let some = if thorough { shapes.len() } else { 3 };
    domains.push(domain(
        format!("{} grammars, all assignments of {} texts to 2 variables and 2 terminals", some, n),
        some * n.pow(4),
        256,
        move |i, ctx| {
            let mut i = i as usize;
            let g = &shapes[i % some];
            i /= some;
            let mut t = Vec::new();
            for _ in 0..4 {
                t.push(HOSTILE[i % n].to_string());
                i /= n;
            }
            ctx.sample(|| format!("{} {:?}", g.show(), t));
            export(ctx, g, Some(t));
        },
    ));
    // every character, alone and after a backslash
    let g = G::read("S: aSb | ");
    let max = if thorough { 0x110000 } else { 0x3000 };
    domains.push(domain(
        format!("every character up to U+{:X} as text, alone and after a backslash", max - 1),
        max * 2,
        512,
        move |i, ctx| {
            let Some(c) = char::from_u32(i as u32 / 2) else {
                return;
            };
            let t = if i % 2 == 0 { c.to_string() } else { format!("\\{}", c) };
            ctx.sample(|| format!("{:?}", t));
            export(ctx, &g, Some(vec![t.clone(), "A".into(), t, "b".into()]));
        },
    ));
    // long texts, ordinary or to be quoted, and pairs of peculiar characters
    let g = G::read("S: aSb | ");
    let units = ["x", "\"", "\\", "\n", "é", "\\n", "q\"", " ", "<>"];
    let max = if thorough { 1100 } else { 300 };
    domains.push(domain(
        format!("{} units repeated up to {} times as text", units.len(), max),
        units.len() * max,
        16,
        move |i, ctx| {
            let t = units[i as usize % units.len()].repeat(i as usize / units.len() + 1);
            ctx.sample(|| format!("{:?}", t));
            export(ctx, &g, Some(vec![t.clone(), "A".into(), format!("{}.", t), "b".into()]));
        },
    ));
    let g = G::read("S: aSb | ");
    let odd = odd_chars();
    let k = odd.len();
    domains.push(domain(
        format!("every pair of {} peculiar characters as text", k),
        k * k,
        128,
        move |i, ctx| {
            let t: String = [odd[i as usize % k], odd[i as usize / k]].into_iter().collect();
            ctx.sample(|| format!("{:?}", t));
            export(ctx, &g, Some(vec!["S".into(), "A".into(), t, "b".into()]));
        },
    ));
    domains.extend(grammars(thorough, 1, false, export_plain));
    Check {
        id: "C20",
        domains,
        assumptions: vec![
            "the automaton is read from its displayed (Debug) form, or is the reference automaton if that form is unknown".into(),
            "white space in labels is not compared".into(),
        ],
    }
}
