//! Grammars, automata, tables and parsers (C10 to C15).

use std::sync::Arc;

use crate::engine::*;
use crate::gram::*;
use crate::pardrv::*;

pub type Judge = fn(&mut Ctx, &G, &Probe);

/// Which words a grammar is tried on.
pub struct Probe {
    pub words: Option<Arc<Words>>,
    /// Longest sentence to derive its own probes from.
    pub sentence: usize,
    pub count: usize,
}

/// Words to try with whether they are sentences.
pub fn probes(g: &G, p: &Probe) -> Vec<(Vec<u8>, bool)> {
    let mut v: Vec<(Vec<u8>, bool)> = Vec::new();
    if let Some(w) = &p.words {
        assert_eq!(w.nt, g.nt as usize);
        let has = &languages(g, w)[0];
        for (i, h) in has.iter().enumerate() {
            v.push((w.word(i), *h));
        }
    }
    if p.count > 0 {
        let mut seen = std::collections::BTreeSet::new();
        let own = sentences(g, p.sentence, p.count);
        for s in &own {
            let mut all = vec![s.clone()];
            for i in 0..=s.len() {
                // drop, repeat, cut
                if i < s.len() {
                    let mut w = s.clone();
                    w.remove(i);
                    all.push(w);
                    let mut w = s.clone();
                    w.insert(i, s[i]);
                    all.push(w);
                    all.push(s[..i].to_vec());
                    all.push(s[i..].to_vec());
                    let mut w = s.clone();
                    w[i] = (w[i] + 1) % g.nt.max(1);
                    all.push(w);
                    if i + 1 < s.len() {
                        let mut w = s.clone();
                        w.swap(i, i + 1);
                        all.push(w);
                    }
                }
                let mut w = s.clone();
                w.insert(i, (i % g.nt.max(1) as usize) as u8);
                all.push(w);
            }
            for w in all {
                if seen.insert(w.clone()) {
                    let is = derives(g, &w);
                    v.push((w, is));
                }
            }
        }
        if seen.insert(vec![]) {
            v.push((vec![], derives(g, &[])));
        }
    }
    v
}

fn listed(name: impl Into<String>, list: Vec<G>, block: usize, probe: Probe, judge: Judge) -> Domain {
    let list = Arc::new(list);
    domain(name, list.len(), block, move |i, ctx| {
        let g = &list[i as usize];
        ctx.sample(|| g.show());
        judge(ctx, g, &probe);
    })
}

/// The grammars all checks of grammars and parsers run on.
pub fn grammars(thorough: bool, seeds: u32, tried: bool, judge: Judge) -> Vec<Domain> {
    let mut d = Vec::new();
    let t = thorough;
    let w1 = || Some(Arc::new(Words::new(1, 9)));
    let w2 = || Some(Arc::new(Words::new(2, if t { 7 } else { 6 })));
    let w3 = || Some(Arc::new(Words::new(3, if t { 5 } else { 4 })));
    let all = |words| Probe {
        words,
        sentence: 0,
        count: 0,
    };
    let sizes: [(u8, u8, usize, usize); 8] = [
        // variables, terminals, body, size
        (1, 1, 5, if t { 14 } else { 12 }),
        (1, 2, 4, 12),
        (1, 3, 3, 10),
        (2, 1, 3, 11),
        (2, 2, 3, if t { 12 } else { 11 }),
        (3, 1, 3, if t { 11 } else { 10 }),
        (3, 2, 3, if t { 10 } else { 9 }),
        (2, 3, 3, if t { 10 } else { 9 }),
    ];
    let words = |nt: u8| match nt {
        1 => w1(),
        2 => w2(),
        _ => w3(),
    };
    for (nv, nt, body, size) in sizes {
        let list = enumerate(nv, nt, body, size, false, false);
        d.push(
            listed(
                format!(
                    "all {} grammars with {} variables, {} terminals, bodies up to {}, size up to {}{}",
                    list.len(),
                    nv,
                    nt,
                    body,
                    size,
                    if tried { format!("; all words up to {}", words(nt).unwrap().max) } else { String::new() }
                ),
                list,
                64,
                all(words(nt)),
                judge,
            )
            .seeds(seeds),
        );
    }
    // with explicit empty-word symbols
    for (nv, nt, size) in [(1u8, 2u8, if t { 10 } else { 9 }), (2, 1, if t { 10 } else { 9 }), (2, 2, if t { 9 } else { 8 })] {
        let list: Vec<G> = enumerate(nv, nt, 3, size, true, false)
            .into_iter()
            .filter(|g| g.rules.iter().any(|(_, b)| b.contains(&S::E) && b.len() > 1))
            .collect();
        d.push(
            listed(
                format!("all {} grammars with empty-word symbols, {} variables, {} terminals, size up to {}", list.len(), nv, nt, size),
                list,
                64,
                all(words(nt)),
                judge,
            )
            .seeds(seeds),
        );
    }
    d.push(
        listed(
            if tried { "well-known grammars; their sentences and all near misses" } else { "well-known grammars" },
            classics(),
            1,
            Probe {
                words: None,
                sentence: if t { 14 } else { 10 },
                count: if t { 150 } else { 60 },
            },
            judge,
        )
        .seeds(seeds * 2),
    );
    let max = if t { 20 } else { 12 };
    let mut list = Vec::new();
    for k in 0..FAMILIES {
        for n in 1..=max {
            if let Some((_, g)) = family(k, n) {
                list.push(g);
            }
        }
    }
    d.push(
        listed(
            format!(
                "{} families of grammars of size 1 to {}{}",
                FAMILIES,
                max,
                if tried { "; their sentences and all near misses" } else { "" }
            ),
            list,
            1,
            Probe {
                words: None,
                sentence: if t { 24 } else { 16 },
                count: if t { 40 } else { 12 },
            },
            judge,
        )
        .seeds(seeds),
    );
    let (mut list, alone) = (Vec::new(), if t { 5 } else { 4 });
    for len in 1..=alone {
        for i in 0..5usize.pow(len) {
            list.push((0..len).map(|j| i / 5usize.pow(j) % 5).collect::<Vec<_>>());
        }
    }
    for len in alone + 1..=if t { 9 } else { 7 } {
        for i in 0..1usize << len {
            list.push((0..len).map(|j| 1 + (i >> j) % 2).collect());
        }
    }
    let list: Vec<G> = list.iter().flat_map(|kinds| (0..4).map(|c| shape(kinds, c))).collect();
    d.push(
        listed(
            format!(
                "{} grammars: every body of up to {} parts of 5 kinds, and longer ones of 2 kinds, in 4 contexts",
                list.len(),
                alone
            ),
            list,
            16,
            Probe {
                words: None,
                sentence: 10,
                count: if t { 8 } else { 4 },
            },
            judge,
        )
        .seeds(seeds),
    );
    // variables and terminals that are different but hash equally
    let mut list: Vec<G> = Vec::new();
    for (nv, nt, body, size) in [(1u8, 2u8, 3, if t { 9 } else { 8 }), (2, 1, 3, 8), (2, 2, 3, if t { 9 } else { 8 }), (3, 1, 3, 8), (3, 2, 2, 8)] {
        list.extend(enumerate(nv, nt, body, size, false, false));
    }
    let small = list.len();
    list.extend(classics());
    for k in 0..FAMILIES {
        list.extend((1..=if t { 10 } else { 6 }).filter_map(|n| family(k, n)).map(|f| f.1));
    }
    let n = list.len();
    d.push(
        domain(
            format!("{} grammars whose variables and terminals hash equally, all of them or every other", n),
            n * 2,
            32,
            move |i, ctx| {
                let g = &list[i as usize % n];
                ctx.sample(|| g.show());
                let probe = if (i as usize) % n < small {
                    Probe { words: Some(Arc::new(Words::new(g.nt as usize, if g.nt == 1 { 6 } else { 4 }))), sentence: 0, count: 0 }
                } else {
                    Probe { words: None, sentence: 10, count: 8 }
                };
                hashed(1 + (i as usize / n) as u8, || judge(ctx, g, &probe));
            },
        )
        .seeds(seeds),
    );
    let list = large(t);
    d.push(
        listed(
            format!("{} grammars with up to hundreds of states, rules, terminals and variables", list.len()),
            list,
            1,
            Probe {
                words: None,
                sentence: 700,
                count: 1,
            },
            judge,
        )
        .seeds(1),
    );
    d
}

/// A grammar with a variable whose body consists of the given kinds of parts,
/// each with a terminal of its own:
/// 0 the terminal, 1 a variable for it, 2 a variable for it or nothing, 3 the
/// same through a unit rule, 4 a list of it that can be empty.
/// The context says what is around the variable.
fn shape(kinds: &[usize], context: usize) -> G {
    let (t, v) = (S::T, S::V);
    let mut rules: Vec<Rule> = Vec::new();
    // 0 the start, 1 the variable with the body, 2 one more of the context
    let mut nv = 3;
    let mut body = Vec::new();
    for (i, kind) in kinds.iter().enumerate() {
        let own = t(i as u8 + 2);
        let var = nv;
        body.push(if *kind == 0 { own } else { v(var) });
        match kind {
            0 => continue,
            1 => rules.push((var, vec![own])),
            2 => rules.extend([(var, vec![own]), (var, vec![])]),
            3 => {
                nv += 1;
                rules.extend([(var, vec![v(nv)]), (nv, vec![own]), (nv, vec![])]);
            }
            _ => rules.extend([(var, vec![v(var), own]), (var, vec![])]),
        }
        nv += 1;
    }
    rules.push((1, body));
    match context {
        0 => rules.extend([(0, vec![v(1)]), (0, vec![t(0), v(2)]), (2, vec![t(1)])]),
        1 => rules.extend([(0, vec![v(1), t(0)]), (0, vec![t(1), v(2)]), (2, vec![t(0)])]),
        2 => rules.extend([(0, vec![v(2), t(0)]), (2, vec![t(1), v(1)])]),
        _ => rules.extend([(0, vec![v(2), v(2)]), (2, vec![t(0), v(1), t(1)]), (2, vec![t(1)])]),
    }
    rules.sort();
    G {
        nv,
        nt: kinds.len() as u8 + 2,
        rules,
    }
}

/// Grammars whose counts do not fit into 8 bits, or nearly not.
fn large(thorough: bool) -> Vec<G> {
    let mut v = Vec::new();
    let sizes: &[(usize, u8)] = &[(0, 30), (2, 24), (4, 120), (5, 120), (6, 200), (10, 60), (12, 120), (13, 100), (16, 250), (7, 120)];
    for (k, n) in sizes {
        v.push(family(*k, if thorough { *n } else { n / 2 }).expect("family").1);
        if !thorough {
            v.push(family(*k, n / 3).expect("family").1);
        }
    }
    // large FIRST and FOLLOW sets that depend on each other; 65 optional variables in a row
    // cost the implementation gigabytes, which is no matter of these properties
    let sizes: &[u8] = if thorough { &[8, 9, 16, 17, 24, 33] } else { &[8, 9, 17, 33] };
    for k in 20..24 {
        v.extend(sizes.iter().filter_map(|n| family(k, *n)).map(|f| f.1));
    }
    let t = S::T;
    for n in [255usize, 256, 257, 300] {
        // one long body; as many alternatives
        v.push(G { nv: 1, nt: 2, rules: vec![(0, (0..n).map(|i| t((i % 3 / 2) as u8)).collect())] });
        v.push(G {
            nv: 1,
            nt: 20,
            rules: (0..n).map(|i| (0, vec![t((i % 20) as u8), t((i / 20) as u8)])).collect(),
        });
    }
    v
}

// ------------------------------------------------------------- C12

fn construct(ctx: &mut Ctx, g: &G, _: &Probe) {
    if !g.reduced() {
        ctx.hist("not reduced, not judged");
        return;
    }
    ctx.about(|| g.show());
    ctx.states += 1;
    ctx.transitions += g.rules.len() as u64;
    ctx.traces += 1;
    let want = slr(g).is_some();
    let got = parser(g);
    ctx.hist(if want { "SLR(1)" } else { "not SLR(1)" });
    match (want, got) {
        (true, Ok(_)) | (false, Err(_)) => {}
        (true, Err(m)) => ctx.fail(g.show(), "SLR(1): a parser", m),
        (false, Ok(_)) => ctx.fail(g.show(), "not SLR(1): refused", "a parser"),
    }
}

pub fn c12(thorough: bool) -> Check {
    let mut domains = grammars(thorough, 2, false, construct);
    // no words to try: more grammars fit
    let more: [(u8, u8, usize, usize); 3] = [
        (2, 2, 4, if thorough { 11 } else { 10 }),
        (3, 2, 3, if thorough { 10 } else { 9 }),
        (4, 2, 2, 10),
    ];
    for (nv, nt, body, size) in more {
        let list = enumerate(nv, nt, body, size, false, true);
        domains.push(listed(
            format!(
                "all {} reduced grammars with {} variables, {} terminals, bodies up to {}, size up to {}",
                list.len(),
                nv,
                nt,
                body,
                size
            ),
            list,
            64,
            Probe {
                words: None,
                sentence: 0,
                count: 0,
            },
            construct,
        ));
    }
    // one of many parts is not like the others
    let most = if thorough { 60 } else { 40 };
    domains.push(domain(
        format!("{} kinds of parts, one among up to {} others, at every place", PARTS, most),
        PARTS * most * most,
        8,
        move |i, ctx| {
            let i = i as usize;
            let (kind, n, at) = (i % PARTS, i / PARTS % most + 1, i / PARTS / most);
            // large ones only at the edges
            if at >= n || n > 8 && at > 1 && at + 2 < n && at != n / 2 {
                return;
            }
            let g = parts(kind, n as u8, at as u8);
            ctx.sample(|| format!("part of kind {} at {} of {}", kind, at, n));
            construct(ctx, &g, &Probe { words: None, sentence: 0, count: 0 });
        },
    ));
    Check {
        id: "C12",
        domains,
        assumptions: vec![
            "reference SLR(1) construction on the augmented grammar (mc/src/gram.rs)".into(),
            "empty-word symbols are left out of bodies, equal productions are one".into(),
        ],
    }
}

/// `n` parts behind a terminal of their own each, that at `at` of its own kind.
fn parts(kind: usize, n: u8, at: u8) -> G {
    let (t, v) = (S::T, S::V);
    // x, y, z are common to all parts
    let (x, y, z) = (t(n), t(n + 1), t(n + 2));
    let mut rules: Vec<Rule> = Vec::new();
    for i in 0..n {
        let (a, b, c) = (1 + 3 * i, 2 + 3 * i, 3 + 3 * i);
        rules.push((0, vec![t(i), v(a)]));
        let (ab, bb, cb) = (v(a), v(b), v(c));
        match if i == at { kind } else { 0 } {
            // told apart by what follows
            0 => rules.extend([(a, vec![bb, y]), (a, vec![cb, z]), (b, vec![x]), (c, vec![x])]),
            // not told apart: two reductions
            1 => rules.extend([(a, vec![bb, y]), (a, vec![cb, y, z]), (b, vec![x]), (c, vec![x])]),
            // a reduction and a shift
            2 => rules.extend([(a, vec![bb, y]), (a, vec![x, y]), (a, vec![cb, z]), (b, vec![x]), (c, vec![z])]),
            3 => rules.extend([(a, vec![ab, ab]), (a, vec![bb, cb]), (b, vec![x]), (c, vec![y])]),
            // nothing and something
            4 => rules.extend([(a, vec![bb, cb, x]), (b, vec![]), (b, vec![y]), (c, vec![]), (c, vec![z])]),
            5 => rules.extend([(a, vec![bb, cb, x]), (b, vec![]), (b, vec![y]), (c, vec![]), (c, vec![y])]),
            // at the end of the input
            6 => rules.extend([(a, vec![bb]), (a, vec![cb]), (b, vec![x]), (c, vec![x])]),
            7 => rules.extend([(a, vec![bb]), (a, vec![bb, cb]), (b, vec![x]), (c, vec![]), (c, vec![y])]),
            // the start again
            _ => rules.extend([(a, vec![bb, v(0)]), (a, vec![cb]), (b, vec![x]), (c, vec![y])]),
        }
    }
    rules.sort();
    G { nv: 3 * n + 1, nt: n + 3, rules }
}

const PARTS: usize = 9;

// ------------------------------------------------------------- C13, C14

fn language(ctx: &mut Ctx, g: &G, p: &Probe) {
    ctx.about(|| g.show());
    ctx.states += 1;
    let Ok(parser) = parser(g) else {
        ctx.hist("no parser");
        return;
    };
    for (w, want) in probes(g, p) {
        let s = text(&w);
        ctx.about(|| format!("{} on {:?}", g.show(), s));
        ctx.transitions += w.len() as u64 + 1;
        ctx.traces += 1;
        let got = accepts(&parser, g.nt, &s);
        ctx.hist(if want { "sentence" } else { "not a sentence" });
        if got != Ok(want) {
            ctx.fail(
                format!("{} on {:?}", g.show(), s),
                if want { "accepted" } else { "refused" },
                match got {
                    Ok(true) => "accepted".into(),
                    Ok(false) => "refused".into(),
                    Err(m) => m,
                },
            );
            return;
        }
    }
}

pub fn c13(thorough: bool) -> Check {
    let mut domains = grammars(thorough, 1, true, language);
    domains.extend(long_inputs(thorough, false));
    Check {
        id: "C13",
        domains,
        assumptions: vec![
            "reference language by fixpoint over words and spans (mc/src/gram.rs), independent of LR theory".into(),
            "one single-character token per terminal; tokenization is C05 and C16".into(),
        ],
    }
}

fn trees(ctx: &mut Ctx, g: &G, p: &Probe) {
    ctx.about(|| g.show());
    ctx.states += 1;
    let Ok(parser) = parser(g) else {
        ctx.hist("no parser");
        return;
    };
    for (w, want) in probes(g, p) {
        // the tree is judged whenever there is one (C13 says when)
        let s = text(&w);
        if !want && w.len() > 4 {
            continue;
        }
        judge_tree(ctx, g, &parser, &w, &s);
        if ctx.failed() {
            return;
        }
    }
}

fn judge_tree(ctx: &mut Ctx, g: &G, parser: &pango_parser::Slr<Var, Ter>, w: &[u8], s: &str) {
    ctx.about(|| format!("{} on {:?}", g.show(), s));
    ctx.transitions += w.len() as u64 + 1;
    ctx.traces += 1;
    match tree(parser, g.nt, s) {
        Ok(Some(t)) => match read_tree(&t) {
            Some(n) => {
                ctx.hist("tree");
                if let Err(m) = derivation(g, &n, &|i, x| ter_name(w[i]) == x, w.len()) {
                    ctx.fail(format!("{} on {:?}", g.show(), s), "a derivation of the whole input", format!("{}: {}", m, t));
                }
            }
            None => ctx.hist("tree in unknown form"),
        },
        Ok(None) => ctx.hist("no tree"),
        Err(_) => ctx.hist("no result"),
    }
}

pub fn c14(thorough: bool) -> Check {
    let mut domains = grammars(thorough, 1, true, trees);
    domains.extend(long_inputs(thorough, true));
    Check {
        id: "C14",
        domains,
        assumptions: vec![
            "the tree is read from its displayed (Debug) form".into(),
            "a tree is judged whenever one is returned; whether one has to be returned is C13".into(),
        ],
    }
}

pub type Family = (&'static str, &'static str, fn(usize) -> (String, bool));

/// Grammars with words of any length whose membership is known by construction.
pub fn word_families() -> Vec<Family> {
    vec![
        ("right list", "S: aS | a", |n| ("a".repeat(n), n > 0)),
        ("left list", "S: Sa | a", |n| ("a".repeat(n), n > 0)),
        ("empty right list", "S: aS | ", |n| ("a".repeat(n), true)),
        ("empty left list", "S: Sa | ", |n| ("a".repeat(n), true)),
        ("separated list", "S: S,E | E; E: i", |n| {
            let mut s = "b".to_string();
            s.push_str(&"ab".repeat(n));
            (s, true)
        }),
        ("separated list, trailing", "S: S,E | E; E: i", |n| ("ba".repeat(n), false)),
        ("nested", "S: aSb | ", |n| ("a".repeat(n) + &"b".repeat(n), true)),
        ("nested, one short", "S: aSb | ", |n| ("a".repeat(n + 1) + &"b".repeat(n), false)),
        ("nested, one long", "S: aSb | ", |n| ("a".repeat(n) + &"b".repeat(n + 1), false)),
        ("brackets in a row", "S: aSbS | ", |n| ("ab".repeat(n), true)),
        ("brackets left", "S: SaSb | ", |n| ("aabb".repeat(n), true)),
        ("palindrome", "S: aSa | bSb | c", |n| {
            let w: String = "ab".chars().cycle().take(n).collect();
            (format!("{}c{}", w, w.chars().rev().collect::<String>()), true)
        }),
        ("sum of products", "S: S+T | T; T: T*F | F; F: (S) | i", |n| {
            // + a, * b, ( c, ) d, i e
            ("ebeaceaebed".chars().cycle().take(12 * n + 11).collect::<String>().replace("de", "dae"), true)
        }),
        ("parentheses", "S: S+T | T; T: T*F | F; F: (S) | i", |n| {
            ("c".repeat(n) + "e" + &"d".repeat(n), true)
        }),
        ("unary", "S: -S | i", |n| ("a".repeat(n) + "b", true)),
    ]
}

fn long_inputs(thorough: bool, tree: bool) -> Vec<Domain> {
    let fam = word_families();
    let sizes: Vec<usize> = if thorough {
        (0..60).chain([100, 127, 128, 129, 255, 256, 257, 500, 1000, 2000]).collect()
    } else {
        (0..30).chain([64, 127, 128, 129, 255, 256, 257, 400]).collect()
    };
    let mut sizes: Vec<usize> = sizes;
    if tree {
        sizes.extend([511, 512, 513, 1023, 1024, 1025, 2049]);
    } else {
        sizes.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10_000, 10_001, 32_767, 32_768, 65_535, 65_536, 65_537]);
    }
    let ns = sizes.len();
    let nf = fam.len();
    vec![domain(
        format!("{} families of words of {} lengths up to {}", nf, ns, sizes[ns - 1]),
        nf * ns,
        4,
        move |i, ctx| {
            let (name, g, f) = &fam[i as usize % nf];
            let n = sizes[i as usize / nf];
            let g = G::read(g);
            let (s, want) = f(n);
            ctx.sample(|| format!("{} {}", name, n));
            let w: Vec<u8> = s.bytes().map(|b| b - b'a').collect();
            // the families are written by hand: confirm the short ones
            let want = if w.len() <= 40 { derives(&g, &w) } else if *name == "sum of products" { return } else { want };
            if w.len() <= 40 && *name != "sum of products" {
                assert_eq!(want, f(n).1, "{} {}", name, n);
            }
            let Ok(p) = parser(&g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            if tree {
                judge_tree(ctx, &g, &p, &w, &s);
                return;
            }
            ctx.traces += 1;
            ctx.transitions += w.len() as u64 + 1;
            let got = accepts(&p, g.nt, &s);
            ctx.hist(if want { "long sentence" } else { "long non-sentence" });
            if got != Ok(want) {
                ctx.fail(
                    format!("{} on {} of size {}", g.show(), name, n),
                    if want { "accepted" } else { "refused" },
                    format!("{:?}", got),
                );
            }
        },
    )]
}

// ------------------------------------------------------------- C15

fn table(ctx: &mut Ctx, g: &G, p: &Probe) {
    if !g.reduced() {
        ctx.hist("not reduced, not judged");
        return;
    }
    let Some(want) = slr(g) else {
        ctx.hist("not SLR(1), not judged");
        return;
    };
    ctx.about(|| g.show());
    let Ok(parser) = parser(g) else {
        // C12 says whether there has to be one
        ctx.hist("no parser");
        return;
    };
    ctx.states += 1;
    ctx.traces += 1;
    let Some(got) = view(g, &parser) else {
        ctx.hist("table in unknown form: judged by its outcomes");
        language(ctx, g, p);
        return;
    };
    // walk both tables together
    let empty = std::collections::BTreeMap::new();
    let empty_goto = std::collections::BTreeMap::new();
    let mut seen = std::collections::BTreeSet::new();
    let mut accepting = std::collections::BTreeSet::new();
    let mut lone: Vec<(usize, usize)> = Vec::new();
    let mut todo = vec![(0usize, 0usize)];
    while let Some((q, r)) = todo.pop() {
        if !seen.insert((q, r)) {
            continue;
        }
        ctx.states += 1;
        let row = got.action.get(r).unwrap_or(&empty);
        for t in (0..g.nt).chain([EOF_COL]) {
            let (w, h) = (want.action[q].get(&t), row.get(&t));
            ctx.transitions += 1;
            if w == Some(&Act::Accept) && h == Some(&Act::Accept) {
                accepting.insert(r);
            }
            let ok = match (w, h) {
                (Some(Act::Shift(a)), Some(Act::Shift(b))) => {
                    todo.push((*a, *b));
                    true
                }
                (None, Some(Act::Accept)) if t == EOF_COL => {
                    lone.push((q, r));
                    true
                }
                (a, b) => a == b,
            };
            if !ok {
                let name = if t == EOF_COL { "the end of the input".into() } else { ter_name(t) };
                ctx.fail(
                    format!("{}, state {} on {}", g.show(), r, name),
                    format!("{:?}", w),
                    format!("{:?}", h),
                );
                return;
            }
        }
        let gt = got.goto.get(r).unwrap_or(&empty_goto);
        for (v, a) in &want.goto[q] {
            match gt.get(v) {
                Some(b) => todo.push((*a, *b)),
                None => {
                    ctx.fail(
                        format!("{}, state {} after {}", g.show(), r, var_name(*v)),
                        "a next state",
                        "none",
                    );
                    return;
                }
            }
        }
    }
    // without an added start rule, the accepting state may be shared
    for (q, r) in lone {
        if !accepting.contains(&r) {
            ctx.fail(
                format!("{}, state {} on the end of the input", g.show(), r),
                format!("{:?}", want.action[q].get(&EOF_COL)),
                "Accept",
            );
            return;
        }
    }
    ctx.hist("table compared");
}

pub fn c15(thorough: bool) -> Check {
    let mut domains = grammars(thorough, 1, false, table);
    let more: [(u8, u8, usize, usize); 2] = [
        (3, 2, 3, if thorough { 10 } else { 9 }),
        (4, 2, 2, 10),
    ];
    for (nv, nt, body, size) in more {
        let list = enumerate(nv, nt, body, size, false, true);
        domains.push(listed(
            format!(
                "all {} reduced grammars with {} variables, {} terminals, bodies up to {}, size up to {}",
                list.len(),
                nv,
                nt,
                body,
                size
            ),
            list,
            64,
            Probe {
                words: Some(Arc::new(Words::new(nt as usize, 4))),
                sentence: 0,
                count: 0,
            },
            table,
        ));
    }
    Check {
        id: "C15",
        domains,
        assumptions: vec![
            "the table is read from the displayed (Debug) parser; if its form is unknown, its outcomes on words are judged".into(),
            "reference FIRST, FOLLOW and SLR(1) table of the augmented grammar (mc/src/gram.rs)".into(),
            "states are matched by walking both tables together, so their numbering is free".into(),
        ],
    }
}
