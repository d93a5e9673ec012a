//! Lifecycles of grammars, automata, parsers, lexers and trees (C19). Run with
//! the address sanitizer, which ends the process at the first access to memory
//! that is freed or out of bounds; the engine reports that as the case's outcome.

use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::Arc;

use pango_lexer::Lexer;
use pango_parser::{Cfsm, Grammar, Slr, Symbol, TerminalEq, TerminalHash};

use crate::engine::*;
use crate::gram::*;
use crate::lexdrv::guard;
use crate::pardrv::Var;

/// Terminal on the heap.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Heap {
    kind: Box<u8>,
    payload: String,
}

impl Debug for Heap {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}::{}", ter_name(*self.kind), self.payload)
    }
}
impl TerminalEq for Heap {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.kind == other.kind
    }
}
impl TerminalHash for Heap {
    fn terminal_hash<H: Hasher>(&self, state: &mut H) {
        self.kind.hash(state)
    }
}

fn heap(kind: u8, payload: &str) -> Heap {
    Heap {
        kind: Box::new(kind),
        payload: payload.to_string(),
    }
}

type Gr = Grammar<Var, Heap>;
type Au = Pin<Box<Cfsm<Var, Heap>>>;
type Pa = Slr<Var, Heap>;

fn grammar(g: &G) -> Gr {
    let s = |s: &S| match s {
        S::T(t) => Symbol::Terminal(heap(*t, "representative of the grammar")),
        S::V(v) => Symbol::Variable(Var(*v)),
        S::E => Symbol::Epsilon,
    };
    let mut b = Grammar::builder().with_start_variable(Var(0));
    for (h, body) in &g.rules {
        b = b.with_rule(Var(*h), body.iter().map(s).collect::<Vec<_>>());
    }
    b.build()
}

fn lexer(nt: u8, input: &'static str) -> Lexer<'static, Heap> {
    const MAPS: [fn(&str) -> Heap; 8] = [
        |t| heap(0, t),
        |t| heap(1, t),
        |t| heap(2, t),
        |t| heap(3, t),
        |t| heap(4, t),
        |t| heap(5, t),
        |t| heap(6, t),
        |t| heap(7, t),
    ];
    let mut b = Lexer::builder();
    for t in 0..nt {
        let p = ter_char(t).to_string();
        b = b.with_token_map(&p, MAPS[t as usize]).expect("token pattern");
    }
    b.tokenize(input)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Build,
    CloneGrammar,
    SwapGrammars,
    DropGrammar,
    ShowGrammar,
    Automaton,
    ShowAutomaton,
    MoveAutomaton,
    DropAutomaton,
    Parser,
    SwapParsers,
    MoveParser,
    ShowParser,
    DropParser,
    Parse,
    ParseWrong,
    ShowTree,
    DropTree,
    NotSlr,
    HalfLexer,
}
use Op::*;

const OPS: [Op; 20] = [
    Build,
    CloneGrammar,
    SwapGrammars,
    DropGrammar,
    ShowGrammar,
    Automaton,
    ShowAutomaton,
    MoveAutomaton,
    DropAutomaton,
    Parser,
    SwapParsers,
    MoveParser,
    ShowParser,
    DropParser,
    Parse,
    ParseWrong,
    ShowTree,
    DropTree,
    NotSlr,
    HalfLexer,
];

/// Which slots are filled: two grammars, automaton, two parsers, tree.
#[derive(Clone, Copy, Default)]
struct Slots {
    g: [bool; 2],
    a: bool,
    p: [bool; 2],
    t: bool,
}

impl Slots {
    fn after(mut self, op: Op) -> Option<Slots> {
        let ok = match op {
            Build => !std::mem::replace(&mut self.g[0], true),
            CloneGrammar => self.g[0] && !std::mem::replace(&mut self.g[1], true),
            SwapGrammars => {
                self.g.swap(0, 1);
                self.g[0]
            }
            DropGrammar => std::mem::replace(&mut self.g[0], false),
            ShowGrammar => self.g[0],
            Automaton => std::mem::replace(&mut self.g[0], false) && !std::mem::replace(&mut self.a, true),
            ShowAutomaton | MoveAutomaton => self.a,
            DropAutomaton => std::mem::replace(&mut self.a, false),
            Parser => std::mem::replace(&mut self.g[0], false) && !std::mem::replace(&mut self.p[0], true),
            SwapParsers => {
                self.p.swap(0, 1);
                self.p[0] || self.p[1]
            }
            MoveParser | ShowParser | ParseWrong => self.p[0],
            DropParser => std::mem::replace(&mut self.p[0], false),
            Parse => {
                self.t |= self.p[0];
                self.p[0]
            }
            ShowTree => self.t,
            DropTree => std::mem::replace(&mut self.t, false),
            NotSlr => self.g[0] || self.p[0],
            HalfLexer => self.p[0],
        };
        ok.then_some(self)
    }
}

fn sequences(max: usize) -> Vec<Vec<Op>> {
    fn go(s: Slots, cur: &mut Vec<Op>, max: usize, out: &mut Vec<Vec<Op>>) {
        out.push(cur.clone());
        if cur.len() == max {
            return;
        }
        for o in OPS {
            // there is nothing before a grammar is built
            if let Some(n) = s.after(o) {
                cur.push(o);
                go(n, cur, max, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    // every sequence starts by building
    go(Slots { g: [true, false], ..Slots::default() }, &mut vec![Build], max, &mut out);
    out
}

struct Subject {
    g: G,
    good: &'static str,
    bad: &'static str,
}

fn subjects() -> Vec<Subject> {
    [
        ("S: aSb | ", "aabb", "aab"),
        ("S: S+T | T; T: T*F | F; F: (S) | i", "eaebcead", "eaa"),
        ("S: AB; A: a | ; B: bB | ", "abb", "aa"),
        ("S: A; A: B; B: C; C: D; D: E; E: F; F: G; G: a", "a", "aa"),
        ("S: aS | bS | cS | dS | eS | fS | gS | hS | ", "abcdefgh", "abc?"),
        ("S: εaεSε | ε", "aaa", "?"),
    ]
    .into_iter()
    .map(|(g, good, bad)| Subject {
        g: G::read(g),
        good,
        bad,
    })
    .collect()
}

fn parse(p: &Pa, nt: u8, text: &'static str) -> Option<(String, Box<dyn Debug>)> {
    p.parse(lexer(nt, text)).ok().map(|t| (format!("{:?}", t), Box::new(t) as Box<dyn Debug>))
}

fn live(ctx: &mut Ctx, s: &Subject, ops: &[Op], reverse: bool) {
    let case = || format!("{}: {:?}, the rest dropped {}", s.g.show(), ops, if reverse { "last first" } else { "first first" });
    ctx.about(case);
    ctx.traces += 1;
    ctx.states += 1;
    ctx.transitions += ops.len() as u64;
    // what a parser that stays in its place does
    let base = guard(|| {
        let p = Slr::new(grammar(&s.g));
        (parse(&p, s.g.nt, s.good).map(|x| x.0), parse(&p, s.g.nt, s.bad).map(|x| x.0))
    });
    let Ok((good, bad)) = base else {
        ctx.hist("no parser");
        return;
    };
    let run = guard(|| -> Result<(), (String, String)> {
        let mut g: [Option<Gr>; 2] = [None, None];
        let mut a: Option<Au> = None;
        let mut p: [Option<Pa>; 2] = [None, None];
        let mut t: Option<(String, Box<dyn Debug>)> = None;
        let same = |x: &Option<String>, y: Option<String>, what: &str| {
            if *x == y {
                Ok(())
            } else {
                Err((format!("{}: {:?}", what, x), format!("{:?}", y)))
            }
        };
        for o in ops {
            match o {
                Build => g[0] = Some(grammar(&s.g)),
                CloneGrammar => g[1] = g[0].clone(),
                SwapGrammars => g.swap(0, 1),
                DropGrammar => g[0] = None,
                ShowGrammar => drop(format!("{:?}", g[0])),
                Automaton => a = Some(Cfsm::from_grammar(g[0].take().unwrap())),
                ShowAutomaton => {
                    let a = a.as_ref().unwrap();
                    drop((format!("{:?}", a), a.to_dot(), format!("{:?}", a.as_ref().get_grammar())));
                }
                MoveAutomaton => {
                    let mut v = vec![Box::new(a.take())];
                    v.push(Box::new(None));
                    a = *v.swap_remove(0);
                }
                DropAutomaton => a = None,
                Parser => p[0] = Some(Slr::new(g[0].take().unwrap())),
                SwapParsers => p.swap(0, 1),
                MoveParser => {
                    let mut v = vec![p[0].take()];
                    for _ in 0..5 {
                        v.insert(0, None);
                    }
                    let b = Box::new(v.pop().unwrap());
                    drop(v);
                    p[0] = *b;
                }
                ShowParser => drop(format!("{:?}", p[0])),
                DropParser => p[0] = None,
                Parse => {
                    let r = parse(p[0].as_ref().unwrap(), s.g.nt, s.good);
                    same(&good, r.as_ref().map(|x| x.0.clone()), s.good)?;
                    if r.is_some() {
                        t = r;
                    }
                }
                ParseWrong => {
                    let r = parse(p[0].as_ref().unwrap(), s.g.nt, s.bad);
                    same(&bad, r.map(|x| x.0), s.bad)?;
                }
                ShowTree => {
                    if let Some((text, t)) = &t {
                        same(&Some(text.clone()), Some(format!("{:?}", t)), "the tree")?;
                    }
                }
                DropTree => t = None,
                NotSlr => {
                    let bad = G::read("S: SS | a | A | ; A: a");
                    let _ = guard(|| Slr::new(grammar(&bad))).is_ok();
                }
                HalfLexer => {
                    let mut l = Box::new(lexer(s.g.nt, s.good));
                    let first = l.next();
                    let l = *l;
                    drop(p[0].as_ref().unwrap().parse(l));
                    drop(format!("{:?}", first.map(|t| (t.kind, t.source))));
                    drop(lexer(s.g.nt, s.bad));
                }
            }
        }
        if reverse {
            drop(t);
            let [p0, p1] = p;
            drop((p1, p0));
            drop(a);
            drop(g);
        } else {
            drop(g);
            drop(a);
            drop(p);
            if let Some((text, t)) = &t {
                same(&Some(text.clone()), Some(format!("{:?}", t)), "the tree, all else dropped")?;
            }
            drop(t);
        }
        Ok(())
    });
    match run {
        Ok(Ok(())) => ctx.hist("lived through"),
        Ok(Err((a, b))) => ctx.fail(case(), format!("as before: {}", a), b),
        Err(_) => ctx.hist("panic, judged by C17"),
    }
}

/// Every grammar built, shown, parsed with and dropped in the worst order.
fn sweep(ctx: &mut Ctx, g: &G, words: &[&'static str]) {
    ctx.about(|| g.show());
    ctx.traces += 1;
    ctx.states += 1;
    let made = guard(|| {
        let first = grammar(g);
        let second = first.clone();
        let a = Cfsm::from_grammar(second);
        drop(format!("{:?}{}", a, a.to_dot()));
        let p = guard(|| Slr::new(first));
        drop(a);
        p
    });
    let Ok(Ok(p)) = made else {
        ctx.hist("no parser");
        return;
    };
    let p = vec![Box::new(p)];
    let mut trees = Vec::new();
    for w in words {
        ctx.transitions += w.len() as u64 + 1;
        ctx.traces += 1;
        trees.extend(guard(|| parse(&p[0], g.nt, w)).ok().flatten());
    }
    drop(format!("{:?}", p));
    drop(p);
    for (text, t) in &trees {
        if *text != format!("{:?}", t) {
            ctx.fail(g.show(), text.clone(), format!("{:?}", t));
            return;
        }
    }
    ctx.hist(if trees.is_empty() { "no trees" } else { "trees outlive the parser" });
}

pub fn c19(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let subjects = Arc::new(subjects());
    let n = subjects.len();
    for (max, of) in [(6, if thorough { n } else { 3 }), (if thorough { 7 } else { 5 }, n)] {
        let all = Arc::new(sequences(max));
        let subjects = subjects.clone();
        domains.push(domain(
            format!(
                "all {} sequences of up to {} of {} operations, {} grammars, both orders of dropping the rest",
                all.len(),
                max,
                OPS.len(),
                of
            ),
            all.len() * of * 2,
            512,
            move |i, ctx| {
                let i = i as usize;
                let ops = &all[i / 2 / of];
                ctx.sample(|| format!("{:?}", ops));
                live(ctx, &subjects[i / 2 % of], ops, i % 2 == 1);
            },
        ));
    }
    let leaked: &'static [&'static str] = Box::leak(
        (0..31usize)
            .map(|i| {
                let w = Words::new(2, 4);
                &*Box::leak(crate::pardrv::text(&w.word(i)).into_boxed_str())
            })
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    for (nv, nt, body, size, eps) in [
        (1u8, 2u8, 3usize, if thorough { 10 } else { 8 }, true),
        (2, 2, 3, if thorough { 9 } else { 8 }, false),
        (3, 2, 2, if thorough { 9 } else { 8 }, false),
    ] {
        let list = Arc::new(enumerate(nv, nt, body, size, eps, false));
        domains.push(domain(
            format!(
                "all {} grammars with {} variables, {} terminals, bodies up to {}, size up to {}; all words up to 4, trees outlive parsers",
                list.len(),
                nv,
                nt,
                body,
                size
            ),
            list.len(),
            64,
            move |i, ctx| {
                let g = &list[i as usize];
                ctx.sample(|| g.show());
                sweep(ctx, g, leaked);
            },
        ));
    }
    let mut known: Vec<G> = classics();
    for k in 0..FAMILIES {
        for n in 1..=(if thorough { 16 } else { 9 }) {
            known.extend(family(k, n).map(|x| x.1));
        }
    }
    known.retain(|g| g.nt <= 8);
    let known = Arc::new(known);
    domains.push(domain(format!("{} well-known and parametric grammars", known.len()), known.len(), 2, move |i, ctx| {
        let g = &known[i as usize];
        ctx.sample(|| g.show());
        let own: Vec<&'static str> = sentences(g, 12, 12)
            .iter()
            .flat_map(|w| {
                let s = crate::pardrv::text(w);
                let half = s.chars().take(s.chars().count() / 2).collect::<String>();
                [s, half]
            })
            .map(|s| &*Box::leak(s.into_boxed_str()))
            .collect();
        sweep(ctx, g, &own);
    }));
    const PATTERNS: [&str; 24] = [
        "a", "ab", "a*", "(a|b)*", "(ab)+", "a?b?", "(a*b)*", "a{2}", "a{2,}", "a{0,3}b", "(a{1,2}){2}", "[ab]+", "[^a]", ".", "((a)*)*", "(a|ab)(b|)", "\\w+", "(a?){3}", "(a+|b){2}",
        "b|a+b", "(a(b(a)?)?)?", "[a-b]{2,3}", "é|a", "(((a)))",
    ];
    let np = PATTERNS.len();
    domains.push(domain(
        format!("all pairs of {} patterns, all texts up to 5", np),
        np * np,
        8,
        move |i, ctx| {
            let pair = [PATTERNS[i as usize / np], PATTERNS[i as usize % np]];
            ctx.sample(|| format!("{:?}", pair));
            ctx.states += 1;
            let w = Words::new(2, 5);
            for k in 0..w.count {
                let text = crate::pardrv::text(&w.word(k)) + if k % 3 == 0 { "é" } else { "" };
                ctx.traces += 1;
                ctx.transitions += text.len() as u64;
                ctx.about(|| format!("tokens {:?} on {:?}", pair, text));
                let done = guard(|| {
                    let mut b = Lexer::builder();
                    for p in pair {
                        match b.with_token_map(p, |t| t.to_string()) {
                            Ok(x) => b = x,
                            Err(_) => return false,
                        }
                    }
                    let mut l = Box::new(b.tokenize(&text));
                    let first = l.next();
                    let moved = *l;
                    let rest: Vec<_> = moved.take(9).collect();
                    let all: String = first.iter().chain(&rest).map(|t| t.kind.as_str()).collect();
                    text.starts_with(&all)
                });
                ctx.hist(if done == Ok(true) { "lexed" } else { "not lexed" });
            }
        },
    ));
    Check {
        id: "C19",
        domains,
        assumptions: vec![
            "the address sanitizer sees accesses to freed, foreign and out-of-bounds heap, stack and global memory; fresh and freed memory is overwritten so that reading it changes outcomes".into(),
        ],
    }
}
