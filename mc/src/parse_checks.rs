//! Parsing texts: whole input (C16), purity (C17) and user equivalences (C18).

use std::cell::RefCell;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use pango_lexer::Lexer;
use pango_parser::{Grammar, Slr, Symbol, TerminalEq, TerminalHash};

use crate::engine::*;
use crate::gram::*;
use crate::gram_checks::word_families;
use crate::lexdrv::guard;
use crate::pardrv::*;
use crate::re::odd_chars;
use crate::seed;
use crate::token_checks::domain_of_scalars;

/// All texts over the letters up to a length, shortest first.
fn texts(letters: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for c in letters {
                let mut s = out[i].clone();
                s.push(*c);
                out.push(s);
            }
        }
        from = to;
    }
    out
}

/// Grammars for which the reference builds a parser.
fn slr_grammars(sizes: &[(u8, u8, usize, usize)]) -> Vec<G> {
    let mut v = Vec::new();
    for (nv, nt, body, size) in sizes {
        v.extend(
            enumerate(*nv, *nt, *body, *size, false, true)
                .into_iter()
                .filter(|g| slr(g).is_some()),
        );
    }
    v
}

// ------------------------------------------------------------- C16

fn lexer_of<'i>(patterns: &[&str], input: &'i str) -> Lexer<'i, Ter> {
    let mut b = Lexer::builder();
    for (i, p) in patterns.iter().enumerate() {
        b = b.with_token_unit(p, Ter(i as u8)).expect("token pattern");
    }
    b.tokenize(input)
}

/// Judges one text: what the lexer makes of it decides whether it may succeed.
fn whole(ctx: &mut Ctx, g: &G, p: &Slr<Var, Ter>, patterns: &[&str], text: &str) {
    let case = || format!("{}, tokens {:?}, on {:?}", g.show(), patterns, text);
    ctx.about(case);
    ctx.traces += 1;
    ctx.transitions += text.chars().count() as u64 + 1;
    let Ok((kinds, covered)) = guard(|| {
        let (mut kinds, mut covered) = (Vec::new(), String::new());
        for t in lexer_of(patterns, text).take(text.chars().count() + 2) {
            kinds.push(t.kind.0);
            covered.push_str(&t.source);
        }
        (kinds, covered)
    }) else {
        ctx.hist("lexer gave no answer");
        return;
    };
    let may = if covered != text {
        ctx.hist("not tokenized to the end");
        false
    } else if kinds.iter().any(|k| *k >= g.nt) {
        ctx.hist("token unknown to the grammar");
        false
    } else {
        let d = derives(g, &kinds);
        ctx.hist(if d { "sentence" } else { "tokens, not a sentence" });
        d
    };
    match guard(|| p.parse(lexer_of(patterns, text)).is_ok()) {
        Ok(true) if !may => ctx.fail(
            case(),
            "refused",
            format!("accepted; the lexer gives {:?} and covers {:?}", kinds, covered),
        ),
        Ok(true) => ctx.hist("accepted"),
        Ok(false) => ctx.hist("refused"),
        Err(_) => ctx.hist("panic, judged by C17"),
    }
}

pub fn c16(thorough: bool) -> Check {
    let mut domains = Vec::new();
    // one letter per terminal and letters that are no token
    let junk = ['?', 'é', '\u{1d11e}', '\n', '\0', ' '];
    let list = Arc::new(slr_grammars(&[
        (1, 1, 4, 9),
        (1, 2, 3, if thorough { 10 } else { 9 }),
        (2, 1, 3, 8),
        (2, 2, 3, if thorough { 9 } else { 8 }),
    ]));
    let max = if thorough { 6 } else { 5 };
    let g2 = list.clone();
    domains.push(domain(
        format!("{} SLR(1) grammars, all texts up to {} over their letters and one letter that is no token", g2.len(), max),
        g2.len(),
        8,
        move |i, ctx| {
            let g = &g2[i as usize];
            ctx.sample(|| g.show());
            let Ok(p) = parser(g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            let pats = ["a", "b"];
            let mut letters: Vec<char> = (0..g.nt).map(ter_char).collect();
            letters.push(junk[i as usize % junk.len()]);
            for t in texts(&letters, max) {
                whole(ctx, g, &p, &pats[..g.nt as usize], &t);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    // sentences with something inserted at every position
    let mut known = classics();
    for k in 0..FAMILIES {
        for n in [1, 2, 3, 5] {
            if let Some((_, g)) = family(k, n) {
                known.push(g);
            }
        }
    }
    let known: Arc<Vec<G>> = Arc::new(known.into_iter().filter(|g| g.nt > 0 && g.nt <= 20 && slr(g).is_some()).collect());
    let count = if thorough { 60 } else { 20 };
    domains.push(domain(
        format!("sentences of {} well-known and parametric grammars with a letter that is no token, or no token of the grammar, at every position", known.len()),
        known.len() * junk.len(),
        4,
        move |i, ctx| {
            let g = &known[i as usize / junk.len()];
            let j = junk[i as usize % junk.len()];
            ctx.sample(|| format!("{} {:?}", g.show(), j));
            let Ok(p) = parser(g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            let names: Vec<String> = (0..g.nt).map(|t| ter_char(t).to_string()).chain(["%".into()]).collect();
            let pats: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            for w in sentences(g, 12, count) {
                let s = text(&w);
                for at in 0..=s.len() {
                    for x in [j, '%'] {
                        let mut t = s.clone();
                        t.insert(at, x);
                        whole(ctx, g, &p, &pats, &t);
                        if at < s.len() {
                            // in the place of a token, and cut off there
                            let r = format!("{}{}{}", &s[..at], x, &s[at + 1..]);
                            whole(ctx, g, &p, &pats, &r);
                            whole(ctx, g, &p, &pats, &format!("{}{}", &s[..at], x));
                        }
                        if ctx.failed() {
                            return;
                        }
                    }
                }
                whole(ctx, g, &p, &pats, &s);
            }
        },
    ));
    // every character at every place of a sentence
    let g = G { nv: 1, nt: 2, rules: vec![(0, vec![S::T(0), S::T(1)])] };
    domain_of_scalars(&mut domains, "every scalar value before, inside and behind a sentence of S -> ab", move |c, ctx| {
        let Ok(p) = parser(&g) else {
            ctx.hist("no parser");
            return;
        };
        for t in [format!("{}ab", c), format!("a{}b", c), format!("ab{}", c), c.to_string()] {
            whole(ctx, &g, &p, &["a", "b"], &t);
        }
    });
    // pairs of characters that programs tend to treat specially
    let odd = odd_chars();
    let k = odd.len();
    let g = G { nv: 1, nt: 2, rules: vec![(0, vec![S::T(0), S::T(1)])] };
    domains.push(domain(
        format!("every pair of {} peculiar characters before, around and behind a sentence of S -> ab", k),
        k * k,
        64,
        move |i, ctx| {
            let (x, y) = (odd[i as usize % k], odd[i as usize / k]);
            ctx.sample(|| format!("{:?} {:?}", x, y));
            let Ok(p) = parser(&g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            for t in [format!("{}{}ab", x, y), format!("{}a{}b", x, y), format!("ab{}{}", x, y), format!("{}ab{}", x, y), format!("a{}b{}", x, y)] {
                whole(ctx, &g, &p, &["a", "b"], &t);
            }
        },
    ));
    // one letter that is no token in a long text
    let sizes: Vec<usize> = if thorough { (1..=300).chain([511, 512, 513, 1024, 4096, 65_534, 65_535, 65_536, 65_537, 200_000]).collect() } else { (1..=40).chain([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 4096, 65_535, 65_536, 65_537]).collect() };
    let ns = sizes.len();
    let lists: Vec<(&str, Vec<&'static str>, &'static str)> = vec![
        ("S: Sa | a", vec!["a"], "a"),
        ("S: aS | a", vec!["a"], "a"),
        ("S: Sa | ", vec!["ab"], "ab"),
        ("S: SA | A; A: a | b", vec!["a", "b+"], "abb"),
        ("S: a", vec!["a+"], "a"),
    ];
    let nl = lists.len();
    domains.push(domain(
        format!("{} grammars of lists, texts of {} numbers of parts up to {}, whole and with a letter that is no token near both ends and in the middle", nl, ns, sizes[ns - 1]),
        nl * ns,
        1,
        move |i, ctx| {
            let (g, pats, unit) = &lists[i as usize % nl];
            let n = sizes[i as usize / nl];
            let g = G::read(g);
            ctx.sample(|| format!("{} {}", g.show(), n));
            let Ok(p) = parser(&g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            let s = unit.repeat(n);
            let l = s.len();
            let mut places = vec![None];
            places.extend([0, 1, l / 2, l - 1, l].map(Some));
            for at in places {
                for j in ['?', '\u{1d11e}'] {
                    let mut t = s.clone();
                    if let Some(at) = at {
                        t.insert(at, j);
                    } else if j != '?' {
                        continue;
                    }
                    let case = || format!("{}, tokens {:?}, on {} times {:?} with {:?} before byte {:?}", g.show(), pats, n, unit, j, at);
                    ctx.about(case);
                    ctx.traces += 1;
                    ctx.transitions += t.len() as u64;
                    // every text over the unit is a sentence of these grammars
                    match guard(|| p.parse(lexer_of(pats, &t)).is_ok()) {
                        Ok(true) if at.is_some() => return ctx.fail(case(), "refused", "accepted"),
                        Ok(true) => ctx.hist("accepted"),
                        Ok(false) => ctx.hist("refused"),
                        Err(_) => ctx.hist("panic, judged by C17"),
                    }
                }
            }
        },
    ));
    // tokens of several letters that may begin without ending
    let lexers: Vec<(Vec<&'static str>, &'static str)> = vec![
        (vec!["ab", "a"], "ab?"),
        (vec!["abc", "a"], "abc"),
        (vec!["abc", "ab"], "abc"),
        (vec!["a+b", "a"], "ab?"),
        (vec!["(ab)+", "c"], "abc"),
        (vec!["a*", "b"], "ab?"),
        (vec!["a{2}", "b"], "ab?"),
        (vec!["a{2,3}", "b"], "ab?"),
        (vec!["é", "éa"], "éab"),
        (vec!["ab?c", "a"], "abc"),
        (vec!["a|ab", "b.b"], "ab?"),
        (vec!["[^b]", "bb"], "ab?"),
    ];
    let small: Arc<Vec<G>> = Arc::new(
        slr_grammars(&[(1, 2, 3, if thorough { 8 } else { 7 }), (2, 2, 2, if thorough { 8 } else { 7 })])
            .into_iter()
            .collect(),
    );
    let nl = lexers.len();
    let max = if thorough { 7 } else { 6 };
    domains.push(domain(
        format!("{} sets of tokens of several letters, {} SLR(1) grammars, all texts up to {}", nl, small.len(), max),
        nl * small.len(),
        4,
        move |i, ctx| {
            let (pats, letters) = &lexers[i as usize % nl];
            let g = &small[i as usize / nl];
            ctx.sample(|| format!("{} {:?}", g.show(), pats));
            let Ok(p) = parser(g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            let letters: Vec<char> = letters.chars().collect();
            for t in texts(&letters, max) {
                whole(ctx, g, &p, pats, &t);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    Check {
        id: "C16",
        domains,
        assumptions: vec![
            "what the lexer turns into tokens is observed on a second lexer over the same text; whether that is right is C05".into(),
            "reference language by fixpoint over spans (mc/src/gram.rs)".into(),
        ],
    }
}

// ------------------------------------------------------------- C17

/// Outcome of everything: `None` if no parser is built, else per text the tree
/// or `None`, or the panic message.
type Outcome = Option<Vec<Result<Option<String>, String>>>;

fn lexer_all<'i>(g: &G, input: &'i str) -> Lexer<'i, Ter> {
    // one token more than the grammar knows
    lexer(g.nt + 1, input)
}

fn shown(p: &Slr<Var, Ter>, g: &G, t: &str) -> Result<Option<String>, String> {
    guard(|| p.parse(lexer_all(g, t)).ok().map(|t| format!("{:?}", t)))
}

fn outcome(g: &G, texts: &[String]) -> Outcome {
    let p = parser(g).ok()?;
    Some(texts.iter().map(|t| shown(&p, g, t)).collect())
}

/// In a thread of its own with hash seeds of its own.
fn outcome_in(seed_value: u64, order: Vec<G>, texts: &[String]) -> Vec<Outcome> {
    seed::set(seed_value);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || order.iter().map(|g| outcome(g, texts)).collect())
            .expect("thread")
            .join()
            .expect("outcomes")
    })
}

fn orders(g: &G, all_up_to: usize) -> Vec<G> {
    let n = g.rules.len();
    let with = |rules| G { rules, ..g.clone() };
    if n <= all_up_to {
        return perms(g.rules.clone()).into_iter().map(with).collect();
    }
    let mut v = vec![g.clone()];
    let mut r = g.rules.clone();
    r.reverse();
    v.push(with(r));
    for k in [1, n / 2, n - 1] {
        let mut r = g.rules.clone();
        r.rotate_left(k);
        v.push(with(r));
    }
    v
}

fn pure(ctx: &mut Ctx, g: &G, texts: &[String], seeds: u64, all_up_to: usize, pairs: usize) {
    ctx.about(|| g.show());
    ctx.states += 1;
    let base = outcome(g, texts);
    ctx.traces += if base.is_some() { texts.len() as u64 } else { 1 };
    match &base {
        None => ctx.hist("refused"),
        Some(v) => {
            for (t, r) in texts.iter().zip(v) {
                ctx.transitions += t.chars().count() as u64 + 1;
                match r {
                    Ok(Some(_)) => ctx.hist("tree"),
                    Ok(None) => ctx.hist("error"),
                    Err(m) => return ctx.fail(format!("{} on {:?}", g.show(), t), "a tree or an error", m.clone()),
                }
            }
        }
    }
    // rule orders under other hash seeds
    for k in 0..seeds {
        let order = orders(g, all_up_to);
        let all = outcome_in(seed::mix(k + 77), order.clone(), texts);
        for (o, x) in order.iter().zip(all) {
            ctx.states += 1;
            if x.is_some() {
                ctx.traces += texts.len() as u64;
                ctx.transitions += texts.iter().map(|t| t.chars().count() as u64 + 1).sum::<u64>();
            } else {
                ctx.traces += 1;
            }
            if x == base {
                continue;
            }
            let (text, a, b) = match (&base, &x) {
                (Some(a), Some(b)) => {
                    let i = (0..texts.len()).find(|i| a[*i] != b[*i]).unwrap();
                    (format!(" on {:?}", texts[i]), format!("{:?}", a[i]), format!("{:?}", b[i]))
                }
                (a, b) => {
                    let s = |x: &Outcome| if x.is_some() { "a parser" } else { "refused" }.to_string();
                    (String::new(), s(a), s(b))
                }
            };
            return ctx.fail(
                format!("{}{} and with the rules in the order {}, other hash seeds", g.show(), text, o.show()),
                a,
                b,
            );
        }
    }
    // histories: every text after every other
    let Some(base) = base else {
        return;
    };
    let Ok(p) = parser(g) else {
        return;
    };
    let mut chosen: Vec<usize> = (0..texts.len().min(pairs)).collect();
    chosen.extend((pairs.min(texts.len())..texts.len()).filter(|i| matches!(base[*i], Ok(Some(_)))).take(pairs / 2));
    for i in &chosen {
        for j in &chosen {
            ctx.transitions += 2;
            ctx.traces += 2;
            for k in [*i, *j] {
                let r = shown(&p, g, &texts[k]);
                if r != base[k] {
                    return ctx.fail(
                        format!("{} on {:?} after other texts, the last {:?}", g.show(), texts[k], texts[*i]),
                        format!("{:?}", base[k]),
                        format!("{:?}", r),
                    );
                }
            }
        }
    }
    ctx.hist("histories of texts compared");
}

/// A new start variable that puts the grammar next to a variable without sentences.
fn useless(g: &G, way: usize) -> G {
    let (old, u) = (S::V(1), S::V(g.nv + 1));
    let (x, y) = (S::T(g.nt), S::T(g.nt + 1));
    let mut rules: Vec<Rule> = match way {
        0 => vec![(0, vec![old, u])],
        1 => vec![(0, vec![old, u]), (0, vec![old])],
        2 => vec![(0, vec![u, old])],
        3 => vec![(0, vec![y, old, u])],
        4 => vec![(0, vec![old, u, old])],
        5 => vec![(0, vec![old, u]), (0, vec![y])],
        _ => vec![(0, vec![S::V(0), y]), (0, vec![old, u])],
    };
    rules.push((g.nv + 1, vec![u, x]));
    for (head, body) in &g.rules {
        let body = body.iter().map(|s| if let S::V(v) = s { S::V(v + 1) } else { *s });
        rules.push((head + 1, body.collect()));
    }
    G { nv: g.nv + 2, nt: g.nt + 2, rules }
}

pub fn c17(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let t = thorough;
    for (nv, nt, body, size, eps) in [
        (1u8, 1u8, 3usize, if t { 11 } else { 9 }, true),
        (1, 2, 3, if t { 10 } else { 9 }, false),
        (2, 1, 3, if t { 10 } else { 8 }, false),
        (2, 2, 3, if t { 9 } else { 8 }, false),
        (3, 1, 2, if t { 9 } else { 8 }, false),
        (3, 2, 2, if t { 9 } else { 8 }, false),
    ] {
        let list = Arc::new(enumerate(nv, nt, body, size, eps, false));
        let letters: Vec<char> = (0..nt + 1).map(ter_char).chain(['?']).collect();
        let max = if nt == 1 { 4 } else { 3 };
        let all = texts(&letters, max);
        let name = format!(
            "all {} grammars with {} variables, {} terminals{}, bodies up to {}, size up to {}; rule orders, hash seeds, histories of texts up to {}",
            list.len(),
            nv,
            nt,
            if eps { " and empty-word symbols" } else { "" },
            body,
            size,
            max
        );
        let seeds = if t { 4 } else { 2 };
        domains.push(domain(name, list.len(), 16, move |i, ctx| {
            let g = &list[i as usize];
            ctx.sample(|| g.show());
            pure(ctx, g, &all, seeds, if t { 4 } else { 3 }, 8);
        }));
    }
    let mut known = classics();
    for k in 0..FAMILIES {
        for n in 1..=(if t { 12 } else { 7 }) {
            if let Some((_, g)) = family(k, n) {
                known.push(g);
            }
        }
    }
    let known = Arc::new(known);
    let seeds = if t { 24 } else { 12 };
    domains.push(domain(
        format!("{} well-known and parametric grammars, {} hash seeds, their sentences and fragments", known.len(), seeds),
        known.len(),
        1,
        move |i, ctx| {
            let g = &known[i as usize];
            ctx.sample(|| g.show());
            let mut all = vec![String::new(), "?".into()];
            for w in sentences(g, 14, if t { 30 } else { 10 }) {
                let s = text(&w);
                let cs: Vec<char> = s.chars().collect();
                all.push(s.clone());
                for k in 0..cs.len() {
                    all.push(cs[..k].iter().collect());
                    all.push(cs[k..].iter().collect());
                    all.push(cs[..k].iter().chain(['?'].iter()).chain(cs[k..].iter()).collect());
                    all.push(cs[..k].iter().chain([ter_char(g.nt)].iter()).chain(cs[k..].iter()).collect());
                }
            }
            all.sort();
            all.dedup();
            all.sort_by_key(|s| s.len());
            pure(ctx, g, &all, seeds, 4, 10);
        },
    ));
    // something behind which nothing can follow: states without any action
    let mut bases = classics();
    bases.extend((1..=12).map(|n| G { nv: 1, nt: 1, rules: vec![(0, vec![S::T(0); n])] }));
    for k in 0..FAMILIES {
        bases.extend([2, 4].into_iter().filter_map(|n| family(k, n)).map(|f| f.1));
    }
    let nb = bases.len();
    domains.push(domain(
        format!("{} grammars before, behind and between variables without sentences, in 7 ways; fragments of their sentences", nb),
        nb * 7,
        1,
        move |i, ctx| {
            let base = &bases[i as usize % nb];
            let g = useless(base, i as usize / nb);
            ctx.sample(|| g.show());
            let mut all = vec![String::new(), "?".into(), text(&[base.nt]), text(&[base.nt + 1])];
            for w in sentences(base, 14, 4) {
                for k in 0..=w.len() {
                    all.push(text(&w[..k]));
                    for x in 0..2 {
                        all.push(text(&[&w[..k], &[base.nt + x]].concat()));
                        all.push(text(&[&[base.nt + x], &w[..k]].concat()));
                    }
                }
                all.push(text(&[&w[..], &w[..]].concat()));
            }
            all.sort();
            all.dedup();
            all.sort_by_key(|s| s.len());
            pure(ctx, &g, &all, 2, 2, 4);
        },
    ));
    // one parser, many parses
    let shapes: Vec<(G, Vec<&str>)> = [
        ("S: aSb | ", vec!["", "ab", "aabb", "a", "b", "aab", "abb", "?", "a?b", "c", "ac", "aaaaabbbbb"]),
        ("S: S+T | T; T: T*F | F; F: (S) | i", vec!["e", "eae", "ebe", "ced", "", "a", "ea", "ce", "cc", "?", "e?", "ef", "cceaedbed"]),
        ("S: AA; A: aA | b", vec!["bb", "abb", "bab", "", "a", "b", "bbb", "?", "b?", "aabaab", "c"]),
        ("S: ABC; A: a | ; B: b | ; C: c | ", vec!["", "a", "b", "c", "ab", "ac", "bc", "abc", "ba", "aa", "?", "a?", "d"]),
    ]
    .into_iter()
    .map(|(g, t)| (G::read(g), t))
    .collect();
    let rounds = if t { 20_000 } else { 3_000 };
    let nsh = shapes.len();
    let most = shapes.iter().map(|s| s.1.len()).max().unwrap();
    domains.push(domain(
        format!("{} parsers, {} times each text in a row and then every text", nsh, rounds),
        nsh * most,
        1,
        move |i, ctx| {
            let (g, texts) = &shapes[i as usize % nsh];
            let Some(again) = texts.get(i as usize / nsh) else {
                return;
            };
            ctx.sample(|| format!("{} {:?}", g.show(), again));
            ctx.about(|| format!("{} on {:?} again and again", g.show(), again));
            let Ok(p) = parser(g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            let fresh: Vec<_> = texts.iter().map(|t| parser(g).ok().map(|p| shown(&p, g, t))).collect();
            let base = &fresh[i as usize / nsh];
            for k in 0..rounds {
                ctx.traces += 1;
                ctx.transitions += again.len() as u64 + 1;
                let r = Some(shown(&p, g, again));
                if r != *base {
                    return ctx.fail(
                        format!("{} on {:?} for the {}th time", g.show(), again, k + 1),
                        format!("{:?}", base),
                        format!("{:?}", r),
                    );
                }
            }
            for (t, want) in texts.iter().zip(&fresh) {
                let r = Some(shown(&p, g, t));
                if r != *want {
                    return ctx.fail(
                        format!("{} on {:?} after {} times {:?}", g.show(), t, rounds, again),
                        format!("{:?}", want),
                        format!("{:?}", r),
                    );
                }
            }
            ctx.hist("many parses on one parser");
        },
    ));
    // long inputs, sentences or not, twice each
    let fam = word_families();
    let sizes: Vec<usize> = if t { vec![1, 100, 1000, 5000, 20_000, 70_000] } else { vec![1, 100, 1000, 10_000, 30_000] };
    let (nf, ns) = (fam.len(), sizes.len());
    domains.push(domain(
        format!("{} families of words of up to {} parts, whole, broken at the end and in the middle, each twice", nf, sizes[ns - 1]),
        nf * ns * 3,
        1,
        move |i, ctx| {
            let i = i as usize;
            let (name, g, f) = &fam[i % nf];
            let n = sizes[i / nf % ns];
            let g = G::read(g);
            let (mut s, _) = f(n);
            match i / nf / ns {
                0 => {}
                1 => s.push('?'),
                _ => s.insert(s.len() / 2, ter_char(g.nt)),
            }
            ctx.sample(|| format!("{} {}", name, n));
            ctx.about(|| format!("{} on {} of size {}", g.show(), name, n));
            let Ok(p) = parser(&g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.states += 1;
            ctx.traces += 2;
            ctx.transitions += 2 * (s.len() as u64 + 1);
            let a = guard(|| p.parse(lexer_all(&g, &s)).is_ok());
            let b = guard(|| p.parse(lexer_all(&g, &s)).is_ok());
            ctx.hist(if a == Ok(true) { "long input, tree" } else { "long input, error" });
            if a.is_err() || a != b {
                ctx.fail(
                    format!("{} on {} of size {}, variant {}, twice", g.show(), name, n, i / nf / ns),
                    "the same tree or error",
                    format!("{:?} and {:?}", a, b),
                );
            }
        },
    ));
    Check {
        id: "C17",
        domains,
        assumptions: vec![
            "hash seeds are owned by answering the standard library's request for randomness; the listed number of seeds is run".into(),
            "trees are compared in their displayed (Debug) form".into(),
            "a text that makes the parser run forever or abort is reported by the worker's watchdog".into(),
        ],
    }
}

// ------------------------------------------------------------- C18

thread_local! {
    /// Class of every kind, and how classes are hashed.
    static CLASSES: RefCell<(Vec<u8>, u8)> = const { RefCell::new((Vec::new(), 0)) };
}

/// Terminal with a payload; kinds from `REP` on are the grammar's.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Pay {
    kind: u8,
    payload: String,
}
const REP: u8 = 100;

impl Pay {
    fn class(&self) -> u8 {
        if self.kind >= REP {
            return self.kind - REP;
        }
        CLASSES.with(|c| c.borrow().0[self.kind as usize])
    }
}

impl Debug for Pay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "k{}::{}", self.kind, self.payload)
    }
}
impl TerminalEq for Pay {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.class() == other.class()
    }
}
impl TerminalHash for Pay {
    fn terminal_hash<H: Hasher>(&self, state: &mut H) {
        match CLASSES.with(|c| c.borrow().1) {
            0 => self.class().hash(state),
            // the same for all
            1 => 0i32.hash(state),
            2 => {}
            _ => (self.class() / 2).hash(state),
        }
    }
}
const HASHES: u8 = 4;

fn pay_parser(g: &G) -> Result<Slr<Var, Pay>, String> {
    let s = |s: &S| match s {
        S::T(t) => Symbol::Terminal(Pay {
            kind: REP + *t,
            payload: "representative".into(),
        }),
        S::V(v) => Symbol::Variable(Var(*v)),
        S::E => Symbol::Epsilon,
    };
    guard(|| {
        let mut b = Grammar::builder().with_start_variable(Var(0));
        for (h, body) in &g.rules {
            b = b.with_rule(Var(*h), body.iter().map(s).collect::<Vec<_>>());
        }
        Slr::new(b.build())
    })
}

fn pay_lexer(kinds: u8, input: &str) -> Lexer<'_, Pay> {
    // a mapping that knows its kind from the text
    fn map(t: &str) -> Pay {
        let c = t.chars().next();
        Pay {
            kind: (0..REP).find(|k| Some(ter_char(*k)) == c).expect("letter of a kind"),
            payload: t.into(),
        }
    }
    let mut b = Lexer::builder();
    for k in 0..kinds {
        b = b
            .with_token_map(&format!("{}\\d*", ter_char(k)), map)
            .expect("token pattern");
    }
    b.tokenize(input)
}

/// Compares every word over the kinds with the same parser over plain terminals.
fn payload(ctx: &mut Ctx, g: &G, kinds: u8, max: usize) {
    let Ok(plain) = parser(g) else {
        ctx.hist("no parser");
        return;
    };
    let words = Words::new(kinds as usize, max);
    let classes = g.nt as usize + 1;
    let maps = classes.pow(kinds as u32);
    // a plain outcome per word of classes; the last class is no terminal
    let cwords = Words::new(classes, max);
    let expected: Vec<Option<bool>> = (0..cwords.count)
        .map(|i| accepts(&plain, g.nt + 1, &text(&cwords.word(i))).ok())
        .collect();
    for hash in 0..HASHES {
        CLASSES.with(|c| *c.borrow_mut() = (vec![0; kinds as usize], hash));
        let made = pay_parser(g);
        let p = match made {
            Ok(p) => p,
            Err(m) => return ctx.fail(format!("{} with payloads, hash {}", g.show(), hash), "a parser, as without", m),
        };
        for m in 0..maps {
            let class: Vec<u8> = (0..kinds as u32).map(|k| (m / classes.pow(k) % classes) as u8).collect();
            ctx.states += 1;
            CLASSES.with(|c| *c.borrow_mut() = (class.clone(), hash));
            for i in 0..words.count {
                let w = words.word(i);
                let cw: Vec<u8> = w.iter().map(|k| class[*k as usize]).collect();
                let Some(want) = expected[cwords.index(&cw)] else {
                    ctx.hist("no plain outcome");
                    continue;
                };
                // every token with a payload of its own
                let tokens: Vec<String> = w.iter().enumerate().map(|(i, k)| format!("{}{}", ter_char(*k), (i * 7 + m) % 100)).collect();
                let s = tokens.concat();
                let case = || format!("{} on {:?}, kinds in the classes {:?}, hash {}", g.show(), s, class, hash);
                ctx.about(case);
                ctx.traces += 1;
                ctx.transitions += w.len() as u64 + 1;
                let got = guard(|| p.parse(pay_lexer(kinds, &s)).ok().map(|t| if want { format!("{:?}", t) } else { String::new() }));
                match (want, got) {
                    (false, Ok(None)) => ctx.hist("refused"),
                    (true, Ok(Some(t))) => {
                        ctx.hist("accepted");
                        let Some(n) = read_tree(&t) else {
                            ctx.hist("tree in unknown form, payloads not judged");
                            continue;
                        };
                        let mut leaves = Vec::new();
                        collect(&n, &mut leaves);
                        let exp: Vec<String> = w.iter().zip(&tokens).map(|(k, t)| format!("k{}::{}", k, t)).collect();
                        // the order of leaves is C14
                        let (mut a, mut b) = (leaves.clone(), exp.clone());
                        a.sort();
                        b.sort();
                        if a != b {
                            return ctx.fail(case(), format!("leaves {:?}", exp), format!("{:?}", leaves));
                        }
                    }
                    (want, got) => {
                        return ctx.fail(
                            case(),
                            if want { "accepted, as without payloads" } else { "refused, as without payloads" },
                            format!("{:?}", got),
                        )
                    }
                }
            }
        }
    }
}

/// Sentences and broken sentences of larger grammars, each kind in a class of
/// its own or two kinds to a class.
fn payload_of(ctx: &mut Ctx, g: &G, count: usize) {
    let Ok(plain) = parser(g) else {
        ctx.hist("no parser");
        return;
    };
    let mut words = vec![vec![]];
    for w in sentences(g, 16, count) {
        for k in 0..w.len() {
            let mut x = w.clone();
            x.remove(k);
            words.push(x);
            let mut x = w.clone();
            x[k] = (x[k] + 1) % (g.nt + 1);
            words.push(x);
        }
        words.push(w);
    }
    words.sort();
    words.dedup();
    for hash in 0..HASHES {
        for twin in [0, g.nt + 1] {
            // kinds from `twin` on are in the same classes again
            let class: Vec<u8> = (0..2 * (g.nt + 1)).map(|k| k % (g.nt + 1)).collect();
            CLASSES.with(|c| *c.borrow_mut() = (class.clone(), hash));
            let p = match pay_parser(g) {
                Ok(p) => p,
                Err(m) => return ctx.fail(format!("{} with payloads, hash {}", g.show(), hash), "a parser, as without", m),
            };
            ctx.states += 1;
            for w in &words {
                let Ok(want) = accepts(&plain, g.nt + 1, &text(w)) else {
                    ctx.hist("no plain outcome");
                    continue;
                };
                let kinds: Vec<u8> = w.iter().enumerate().map(|(i, k)| if i % 2 == 0 { k + twin } else { *k }).collect();
                let tokens: Vec<String> = kinds.iter().enumerate().map(|(i, k)| format!("{}{}", ter_char(*k), i * 7)).collect();
                let s = tokens.concat();
                let case = || format!("{} on {:?}, kinds in the classes {:?}, hash {}", g.show(), s, class, hash);
                ctx.about(case);
                ctx.traces += 1;
                ctx.transitions += w.len() as u64 + 1;
                let got = guard(|| p.parse(pay_lexer(2 * (g.nt + 1), &s)).ok().map(|t| if want { format!("{:?}", t) } else { String::new() }));
                match (want, got) {
                    (false, Ok(None)) => ctx.hist("refused"),
                    (true, Ok(Some(t))) => {
                        ctx.hist("accepted");
                        let Some(n) = read_tree(&t) else {
                            ctx.hist("tree in unknown form, payloads not judged");
                            continue;
                        };
                        let mut leaves = Vec::new();
                        collect(&n, &mut leaves);
                        let mut exp: Vec<String> = kinds.iter().zip(&tokens).map(|(k, t)| format!("k{}::{}", k, t)).collect();
                        leaves.sort();
                        exp.sort();
                        if leaves != exp {
                            return ctx.fail(case(), format!("leaves {:?}", exp), format!("{:?}", leaves));
                        }
                    }
                    (want, got) => {
                        return ctx.fail(
                            case(),
                            if want { "accepted, as without payloads" } else { "refused, as without payloads" },
                            format!("{:?}", got),
                        )
                    }
                }
            }
        }
    }
}

fn collect(n: &Node, out: &mut Vec<String>) {
    if let Ok(t) = &n.symbol {
        out.push(t.clone());
    }
    for c in n.children.iter().rev() {
        collect(c, out);
    }
}

pub fn c18(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let t = thorough;
    for (nv, nt, body, size, kinds, max) in [
        (1u8, 1u8, 4usize, 9usize, 2u8, 4usize),
        (1, 2, 3, if t { 9 } else { 8 }, 3, 3),
        (2, 1, 3, if t { 9 } else { 8 }, 2, 4),
        (2, 2, 3, if t { 9 } else { 7 }, 3, 3),
        (1, 3, 3, 7, 3, 3),
        (2, 2, 2, if t { 7 } else { 6 }, 4, 3),
    ] {
        let list: Arc<Vec<G>> = Arc::new(slr_grammars(&[(nv, nt, body, size)]));
        domains.push(domain(
            format!(
                "all {} SLR(1) grammars with {} variables, {} terminals, bodies up to {}, size up to {}; all classes of {} kinds, {} hashes, all words up to {}",
                list.len(),
                nv,
                nt,
                body,
                size,
                kinds,
                HASHES,
                max
            ),
            list.len(),
            4,
            move |i, ctx| {
                let g = &list[i as usize];
                ctx.sample(|| g.show());
                payload(ctx, g, kinds, max);
            },
        ));
    }
    let mut known = classics();
    for k in 0..FAMILIES {
        for n in [1, 2, 3, 5] {
            if let Some((_, g)) = family(k, n) {
                known.push(g);
            }
        }
    }
    // long lists, every token with a payload of its own
    let lists: Vec<&str> = vec!["S: Sa | a", "S: aS | a", "S: SA | A; A: a | b", "S: aSb | "];
    let sizes: Vec<usize> = if t { (1..=300).chain([511, 512, 513, 1023, 1024, 1025, 2049]).collect() } else { (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1025]).collect() };
    let lists: Vec<G> = lists.into_iter().map(G::read).collect();
    let (nl, ns) = (lists.len(), sizes.len());
    domains.push(domain(
        format!("{} grammars of lists, {} numbers of tokens up to {}, 2 hashes", nl, ns, sizes[ns - 1]),
        nl * ns * 2,
        2,
        move |i, ctx| {
            let i = i as usize;
            let (g, n, hash) = (&lists[i % nl], sizes[i / nl % ns], (i / nl / ns) as u8);
            let w: Vec<u8> = match i % nl {
                2 => (0..n).map(|k| (k % 3 == 1) as u8).collect(),
                3 => (0..2 * n).map(|k| (k >= n) as u8).collect(),
                _ => vec![0; n],
            };
            ctx.sample(|| format!("{} {}", g.show(), n));
            CLASSES.with(|c| *c.borrow_mut() = (vec![0, 1], hash));
            let Ok(p) = pay_parser(g) else {
                ctx.hist("no parser");
                return;
            };
            let tokens: Vec<String> = w.iter().enumerate().map(|(i, k)| format!("{}{}", ter_char(*k), i * 7)).collect();
            let s = tokens.concat();
            ctx.about(|| format!("{} on {} tokens", g.show(), w.len()));
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += w.len() as u64;
            let tree = match guard(|| p.parse(pay_lexer(2, &s)).ok().map(|t| format!("{:?}", t))) {
                Ok(Some(t)) => t,
                other => return ctx.fail(format!("{} on {} tokens with payloads, hash {}", g.show(), w.len(), hash), "accepted", format!("{:?}", other)),
            };
            ctx.hist("accepted");
            let Some(n) = read_tree(&tree) else {
                ctx.hist("tree in unknown form, payloads not judged");
                return;
            };
            let mut leaves = Vec::new();
            collect(&n, &mut leaves);
            let mut exp: Vec<String> = w.iter().zip(&tokens).map(|(k, t)| format!("k{}::{}", k, t)).collect();
            leaves.sort();
            exp.sort();
            if leaves != exp {
                let k = (0..exp.len()).find(|k| leaves.get(*k) != Some(&exp[*k])).unwrap_or(exp.len());
                ctx.fail(
                    format!("{} on {} tokens with payloads, hash {}", g.show(), w.len(), hash),
                    format!("a leaf {:?}", exp.get(k)),
                    format!("{:?}", leaves.get(k)),
                );
            }
        },
    ));
    let known: Arc<Vec<G>> = Arc::new(known.into_iter().filter(|g| g.nt > 0 && g.nt <= 20 && slr(g).is_some()).collect());
    let count = if t { 60 } else { 12 };
    domains.push(domain(
        format!("{} well-known and parametric grammars, {} hashes, kinds alone or two to a class, their sentences and broken sentences", known.len(), HASHES),
        known.len(),
        1,
        move |i, ctx| {
            let g = &known[i as usize];
            ctx.sample(|| g.show());
            payload_of(ctx, g, count);
        },
    ));
    Check {
        id: "C18",
        domains,
        assumptions: vec![
            "the expected outcome is that of a parser for the same grammar over plain terminals; whether that is right is C13".into(),
            "a grammar does not use two unequal terminals of one class".into(),
            "payloads are read from the displayed (Debug) tree".into(),
        ],
    }
}
