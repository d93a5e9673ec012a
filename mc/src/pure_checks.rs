//! Tokenizing is a pure function (C21); building and parsing end (C22).

use std::sync::Arc;

use pango_lexer::Lexer;
use pango_parser::Cfsm;

use crate::alloc;
use crate::engine::*;
use crate::gram::*;
use crate::gram_checks::{grammars, word_families, Probe};
use crate::lex_checks::texts;
use crate::lexdrv::*;
use crate::pardrv::{self, lexer, parser};
use crate::seed;

// ------------------------------------------------------------- C21

fn made<'i>(patterns: &[&str], input: &'i str) -> Lexer<'i, usize> {
    let mut b = Lexer::builder();
    for (i, p) in patterns.iter().enumerate() {
        // the pattern's text does not outlive the call
        let p = p.to_string();
        b = register!(b, &p, i).ok().expect("token pattern");
    }
    b.tokenize(input)
}

fn tk(t: pango_lexer::Token<usize>) -> Tk {
    Tk {
        kind: t.kind,
        source: t.source,
        pos: t.pos,
    }
}

/// All tokens; more than the text has characters are cut off.
fn plainly(patterns: &[&str], input: &str) -> Result<Vec<Tk>, String> {
    let cap = input.chars().count() + 2;
    guard(|| made(patterns, input).take(cap).map(tk).collect())
}

/// In a thread of its own with hash seeds of its own.
fn seeded<T: Send>(value: u64, f: impl FnOnce() -> T + Send) -> T {
    seed::set(value);
    std::thread::scope(|s| s.spawn(f).join().expect("outcome"))
}

/// Hash seeds: every text under every seed.
fn seeds(ctx: &mut Ctx, patterns: &[&str], tx: &[(Vec<char>, String)], n: u64) {
    let base: Vec<_> = tx.iter().map(|(_, s)| plainly(patterns, s)).collect();
    for k in 0..n {
        let w = way();
        let other: Vec<_> = seeded(seed::mix(k + 4242), || registered(w, || tx.iter().map(|(_, s)| plainly(patterns, s)).collect()));
        for ((a, b), (w, s)) in base.iter().zip(&other).zip(tx) {
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += w.len() as u64 + 1;
            if a != b {
                return ctx.fail(
                    format!("patterns {:?} on {:?} under other hash seeds", patterns, s),
                    format!("{:?}", a),
                    format!("{:?}", b),
                );
            }
        }
        ctx.hist("compared under another hash seed");
    }
}

/// Two lexers advanced in every order, the first one also given up.
fn interleaved(ctx: &mut Ctx, one: (&[&str], &str), two: (&[&str], &str), steps: u32) {
    let (Ok(a), Ok(b)) = (plainly(one.0, one.1), plainly(two.0, two.1)) else {
        // C08 says that there are tokens
        ctx.hist("no tokens");
        return;
    };
    for order in 0..1u32 << steps {
        for drop_at in [steps, steps / 2] {
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += steps as u64;
            let got = guard(|| {
                let mut x = Some(made(one.0, one.1));
                let mut y = made(two.0, two.1);
                let (mut v, mut w) = (Vec::new(), Vec::new());
                for i in 0..steps {
                    if i == drop_at {
                        x = None;
                    }
                    if order >> i & 1 == 0 {
                        if let Some(x) = &mut x {
                            v.push(x.next().map(tk));
                        }
                    } else {
                        w.push(y.next().map(tk));
                    }
                }
                (v, w)
            });
            let fits = |v: &[Option<Tk>], all: &[Tk]| v.iter().enumerate().all(|(i, t)| t.as_ref() == all.get(i));
            let ok = matches!(&got, Ok((v, w)) if fits(v, &a) && fits(w, &b));
            if !ok {
                return ctx.fail(
                    format!("{:?} and {:?}, advanced in the order {:0w$b} (last step first), the first dropped before step {}", one, two, order, drop_at, w = steps as usize),
                    format!("the tokens {} and {}", Tk::show(&a), Tk::show(&b)),
                    format!("{:?}", got),
                );
            }
        }
    }
    ctx.hist("two lexers in every order");
}

/// Every way of iterating.
fn consumed(ctx: &mut Ctx, patterns: &[&str], s: &str) {
    let Ok(all) = plainly(patterns, s) else {
        ctx.hist("no tokens");
        return;
    };
    let n = all.len();
    let mut bad: Option<(String, String, String)> = None;
    let mut expect = |what: String, want: String, got: Result<String, String>| {
        ctx.states += 1;
        ctx.traces += 1;
        ctx.transitions += n as u64 + 1;
        let got = got.unwrap_or_else(|e| e);
        if want != got && bad.is_none() {
            bad = Some((what, want, got));
        }
    };
    for k in 0..=n + 1 {
        let rest = |from: usize| Tk::show(all.get(from..).unwrap_or(&[]));
        let one = |i: usize| format!("{:?}", all.get(i));
        expect(
            format!("nth({}) and what is left", k),
            format!("{} {}", one(k), rest(k + 1)),
            guard(|| {
                let mut l = made(patterns, s);
                let x = l.nth(k).map(tk);
                format!("{:?} {}", x.as_ref(), Tk::show(&l.map(tk).collect::<Vec<_>>()))
            }),
        );
        expect(
            format!("skip({})", k),
            rest(k),
            guard(|| Tk::show(&made(patterns, s).skip(k).map(tk).collect::<Vec<_>>())),
        );
        expect(
            format!("by_ref().take({}) and what is left", k),
            format!("{} | {}", Tk::show(&all[..k.min(n)]), rest(k)),
            guard(|| {
                let mut l = made(patterns, s);
                let x: Vec<_> = l.by_ref().take(k).map(tk).collect();
                format!("{} | {}", Tk::show(&x), Tk::show(&l.map(tk).collect::<Vec<_>>()))
            }),
        );
        expect(
            format!("size_hint after {} tokens is true", k),
            "true".into(),
            guard(|| {
                let mut l = made(patterns, s);
                for _ in 0..k {
                    l.next();
                }
                let (lo, hi) = l.size_hint();
                let left = n.saturating_sub(k);
                (lo <= left && hi.is_none_or(|h| h >= left)).to_string()
            }),
        );
    }
    expect("count".into(), n.to_string(), guard(|| made(patterns, s).count().to_string()));
    expect(
        "last".into(),
        format!("{:?}", all.last()),
        guard(|| format!("{:?}", made(patterns, s).last().map(tk).as_ref())),
    );
    expect(
        "fold".into(),
        Tk::show(&all),
        guard(|| {
            Tk::show(&made(patterns, s).fold(Vec::new(), |mut v, t| {
                v.push(tk(t));
                v
            }))
        }),
    );
    expect(
        "step_by(2)".into(),
        Tk::show(&all.iter().step_by(2).cloned().collect::<Vec<_>>()),
        guard(|| Tk::show(&made(patterns, s).step_by(2).map(tk).collect::<Vec<_>>())),
    );
    expect(
        "moved to the heap half way".into(),
        Tk::show(&all),
        guard(|| {
            let mut l = made(patterns, s);
            let mut v: Vec<Tk> = l.by_ref().take(n / 2).map(tk).collect();
            let b = Box::new(l);
            v.extend(b.map(tk));
            Tk::show(&v)
        }),
    );
    match bad {
        Some((what, want, got)) => ctx.fail(format!("patterns {:?} on {:?}: {}", patterns, s, what), want, got),
        None => ctx.hist("iterated in every way"),
    }
}

pub fn c21(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let pool = [
        "a", "b", "ab", "a*", "(ab)+", "[ab]", "a?b", "(a|ab)(c|bcd)?", "b{2}", ".", "(a|b)*c", "(a{1,2}b?){2}", "c|cc", "(a*b*)*c",
    ];
    let k = pool.len();
    for n in 1..=3usize {
        let tx = texts("abc", if n == 3 { 4 } else { 5 });
        let count = if thorough { 4 } else if n == 3 { 1 } else { 3 };
        domains.push(domain(
            format!("ordered lists of {} of {} patterns under {} other hash seeds; {} texts", n, k, count, tx.len()),
            k.pow(n as u32),
            8,
            move |i, ctx| {
                let p: Vec<&str> = (0..n as u32).map(|j| pool[i as usize / k.pow(j) % k]).collect();
                ctx.sample(|| format!("{:?}", p));
                for way in (0..WAYS).filter(|w| n < 3 || w % 3 == 0) {
                    registered(way, || seeds(ctx, &p, &tx, count));
                    if ctx.failed() {
                        return;
                    }
                }
            },
        ));
    }
    let tx = texts("ab", if thorough { 5 } else { 4 });
    let lists: Vec<Vec<&str>> = vec![vec!["a", "b"], vec!["ab", "a", "b"], vec!["a*", "b"], vec!["a{2}", "a", "b+"], vec!["(ab)+", "."], vec!["aab", "a"]];
    let (nl, nt) = (lists.len(), tx.len());
    let steps = if thorough { 7 } else { 6 };
    let (l2, t2) = (lists.clone(), tx.clone());
    let lists2 = lists.clone();
    domains.push(domain(
        format!("two lexers of {} lists and {} texts, all orders of {} calls, one dropped or not", nl, nt, steps),
        nl * nl * nt,
        4,
        move |i, ctx| {
            let i = i as usize;
            let (a, b) = (&l2[i % nl], &l2[i / nl % nl]);
            let s = &t2[i / nl / nl].1;
            ctx.sample(|| format!("{:?} {:?} {:?}", a, b, s));
            for (_, t) in t2.iter().filter(|t| t.0.len() >= 2).step_by(3) {
                registered(if s.len() % 2 == 0 { 0 } else { 3 }, || interleaved(ctx, (a, s), (b, t), steps));
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    let tx = texts("abc", if thorough { 7 } else { 6 });
    let nt = tx.len();
    domains.push(domain(
        format!("{} lists and {} texts, iterated in every way", nl, nt),
        nl * nt,
        16,
        move |i, ctx| {
            let i = i as usize;
            ctx.sample(|| format!("{:?} {:?}", lists[i % nl], tx[i / nl].1));
            for way in 0..WAYS {
                registered(way, || consumed(ctx, &lists[i % nl], &tx[i / nl].1));
            }
        },
    ));
    // many lexers alive at once, advanced in turns
    let (l3, t3) = (lists2.clone(), texts("ab", 4));
    let counts: Vec<usize> = if thorough { vec![2, 3, 17, 64, 257, 300, 1025] } else { vec![2, 3, 17, 64, 257, 300] };
    let nc = counts.len();
    domains.push(domain(
        format!("{} numbers of lexers alive at once up to {}, advanced in turns, the last first, and half of them dropped", nc, counts[nc - 1]),
        nc * 3 * nl,
        1,
        move |i, ctx| {
            let i = i as usize;
            let (n, way, shift) = (counts[i % nc], i / nc % 3, i / nc / 3);
            ctx.sample(|| format!("{} lexers, way {}, shift {}", n, way, shift));
            ctx.about(|| format!("{} lexers alive at once", n));
            let of = |k: usize| (&l3[(k + shift) % l3.len()][..], t3[(k * 7 + shift) % t3.len()].1.as_str());
            let alone: Vec<_> = (0..n).map(|k| plainly(of(k).0, of(k).1)).collect();
            let got = guard(|| {
                let mut all: Vec<_> = (0..n).map(|k| Some(made(of(k).0, of(k).1))).collect();
                let mut out: Vec<Vec<Tk>> = vec![Vec::new(); n];
                for round in 0..6 {
                    let order: Vec<usize> = if way == 1 { (0..n).rev().collect() } else { (0..n).collect() };
                    for k in order {
                        if way == 2 && round == 2 && k % 2 == 0 {
                            all[k] = None;
                        }
                        if let Some(t) = all[k].as_mut().and_then(|l| l.next()) {
                            out[k].push(tk(t));
                        }
                    }
                }
                out
            });
            ctx.states += n as u64;
            ctx.traces += n as u64;
            ctx.transitions += 6 * n as u64;
            ctx.hist("many lexers at once");
            for k in 0..n {
                let dropped = way == 2 && k % 2 == 0;
                let ok = match (&got, &alone[k]) {
                    (_, Err(_)) => true,
                    (Ok(g), Ok(a)) => g[k] == a[..if dropped { a.len().min(2) } else { a.len().min(6) }],
                    _ => false,
                };
                if !ok {
                    return ctx.fail(
                        format!("{:?}, number {} of {} lexers alive at once, way {}", of(k), k, n, way),
                        format!("{:?}", alone[k]),
                        format!("{:?}", got.map(|g| g[k].clone())),
                    );
                }
            }
        },
    ));
    // much that is given back
    let sizes: Vec<usize> = if thorough { (1..=300).chain([512, 1000]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() };
    let ns = sizes.len();
    let kinds: [(&[&str], fn(usize) -> String); 4] = [
        (&["a", "a+b"], |n| "a".repeat(n)),
        (&["ab", "(ab)+c", "a", "b"], |n| "ab".repeat(n) + "a"),
        (&["é", "é+x", "y"], |n| "é".repeat(n) + "y"),
        (&["a", "[ab]*c", "b"], |n| "aab".repeat(n / 3 + 1)),
    ];
    domains.push(domain(
        format!("{} texts of {} sizes up to {} that are given back again and again; other hash seeds, alone and between calls of others", kinds.len(), ns, sizes[ns - 1]),
        kinds.len() * ns,
        1,
        move |i, ctx| {
            let (p, f) = &kinds[i as usize % kinds.len()];
            let n = sizes[i as usize / kinds.len()];
            let s = f(n);
            ctx.sample(|| format!("{:?} on {} units", p, n));
            ctx.about(|| format!("{:?} on {:?}", p, s));
            let Ok(all) = plainly(p, &s) else {
                ctx.hist("no tokens");
                return;
            };
            ctx.states += 1;
            ctx.traces += 3;
            ctx.transitions += 3 * s.len() as u64;
            let other = seeded(seed::mix(n as u64 + 99), || plainly(p, &s));
            let mixed = guard(|| {
                let (mut l, mut m) = (made(p, &s), made(p, &s));
                let (mut v, mut hints) = (Vec::new(), Vec::new());
                loop {
                    hints.push(l.size_hint());
                    match l.next() {
                        Some(t) if v.len() <= s.len() => v.push(tk(t)),
                        _ => break,
                    }
                    if v.len() % 3 == 0 {
                        m.next();
                    }
                }
                (v, hints)
            });
            if other.as_ref() != Ok(&all) {
                return ctx.fail(format!("{:?} on {:?} under other hash seeds", p, s), Tk::show(&all), format!("{:?}", other));
            }
            let ok = match &mixed {
                Ok((v, hints)) => {
                    *v == all
                        && hints.iter().enumerate().all(|(k, (lo, hi))| {
                            let left = all.len().saturating_sub(k);
                            *lo <= left && hi.is_none_or(|h| h >= left)
                        })
                }
                Err(_) => false,
            };
            ctx.hist("given back again and again");
            if !ok {
                ctx.fail(
                    format!("{:?} on {:?} while another lexer is advanced", p, s),
                    format!("{} and true size hints", Tk::show(&all)),
                    format!("{:?}", mixed),
                );
            }
        },
    ));
    Check {
        id: "C21",
        domains,
        assumptions: vec![
            "hash seeds are owned by answering the standard library's request for randomness; the listed number of seeds is run".into(),
            "whether the tokens are the right ones is C05 and C06".into(),
        ],
    }
}

// ------------------------------------------------------------- C22

/// Allocations of building the automaton and the parser; a refusal is an end.
fn building(g: &G) -> (u64, u64, bool) {
    let from = alloc::count();
    let _ = guard(|| Cfsm::from_grammar(pardrv::grammar(g)));
    let mid = alloc::count();
    let made = parser(g).is_ok();
    (mid - from, alloc::count() - mid, made)
}

/// Size of the canonical automaton: items of all states.
fn items(g: &G) -> u64 {
    plain(g).states.iter().map(|s| s.len() as u64 + 1).sum()
}

/// Allowed work: cubic in the automaton's and the grammar's size together.
fn allowed(g: &G) -> u64 {
    let size: u64 = g.rules.iter().map(|(_, b)| b.len() as u64 + 1).sum();
    let n = items(g) + size + g.nt as u64;
    2_000 + 100 * n * n + n * n * n
}

fn ends(ctx: &mut Ctx, g: &G, _: &Probe) {
    ctx.about(|| g.show());
    ctx.states += 1;
    ctx.traces += 2;
    ctx.transitions += g.rules.len() as u64;
    let (a, b, made) = building(g);
    let max = allowed(g);
    let part = (a.max(b) * 1000) / max;
    ctx.hist(if made { "parser" } else { "refused" });
    ctx.hist(match part {
        0..=9 => "work below a hundredth of the bound",
        10..=99 => "work below a tenth of the bound",
        _ => "work above a tenth of the bound",
    });
    if a > max || b > max {
        ctx.fail(
            g.show(),
            format!("at most {} allocations", max),
            format!("{} for the automaton, {} for the parser", a, b),
        );
    }
}

/// Doubling an input may multiply the work by at most this (degree 4).
const DOUBLE: u64 = 16;

pub fn c22(thorough: bool) -> Check {
    let mut domains = grammars(thorough, 1, false, ends);
    // chains and cycles of variables that derive nothing, or only themselves
    let max = if thorough { 60 } else { 24 };
    let kinds: [(&str, fn(u8) -> Vec<Rule>); 8] = [
        ("cycle of units", |n| (0..n).map(|i| (i, vec![S::V((i + 1) % n)])).collect()),
        ("cycle of pairs", |n| (0..n).map(|i| (i, vec![S::V((i + 1) % n), S::V((i + 1) % n)])).collect()),
        ("all variables in all bodies", |n| (0..n).map(|i| (i, (0..n).map(S::V).collect())).collect()),
        ("each variable all others", |n| {
            (0..n.min(8)).flat_map(|i| (0..n.min(8)).map(move |j| (i, vec![S::V(j)]))).chain((0..n.min(8)).map(|i| (i, vec![]))).collect()
        }),
        ("doubling chain, empty end", |n| (0..n - 1).map(|i| (i, vec![S::V(i + 1), S::V(i + 1)])).chain([(n - 1, vec![])]).collect()),
        ("doubling chain, letter end", |n| (0..n - 1).map(|i| (i, vec![S::V(i + 1), S::V(i + 1)])).chain([(n - 1, vec![S::T(0)])]).collect()),
        ("empty cycle", |n| (0..n).flat_map(|i| [(i, vec![S::V((i + 1) % n)]), (i, vec![])]).collect()),
        ("empty left recursion", |n| (0..n).flat_map(|i| [(i, vec![S::V((i + 1) % n), S::V(i), S::T(0)]), (i, vec![])]).collect()),
    ];
    domains.push(domain(
        format!("{} kinds of chains and cycles of 1 to {} variables", kinds.len(), max),
        kinds.len() * max,
        1,
        move |i, ctx| {
            let (name, f) = &kinds[i as usize % kinds.len()];
            let n = (i as usize / kinds.len() + 1) as u8;
            let mut rules = f(n);
            rules.sort();
            rules.dedup();
            let g = G { nv: n, nt: 1, rules };
            ctx.sample(|| format!("{} {}", name, n));
            ends(ctx, &g, &Probe { words: None, sentence: 0, count: 0 });
        },
    ));
    // parsing
    let fam = Arc::new(word_families());
    let sizes: Vec<usize> = if thorough { vec![8, 32, 128, 512, 2048, 8192] } else { vec![8, 32, 128, 512, 2048] };
    let (nf, ns) = (fam.len(), sizes.len());
    domains.push(domain(
        format!("{} families of words, whole and broken; sizes {:?} and twice as much", nf, sizes),
        nf * ns * 2,
        1,
        move |i, ctx| {
            let i = i as usize;
            let (name, g, f) = &fam[i % nf];
            let n = sizes[i / nf % ns];
            let g = G::read(g);
            let Ok(p) = parser(&g) else {
                ctx.hist("no parser");
                return;
            };
            ctx.sample(|| format!("{} {}", name, n));
            let mut before = 0;
            for k in [1, 2] {
                let (mut s, _) = f(n * k);
                if i / nf / ns == 1 {
                    s.push('?');
                }
                ctx.about(|| format!("{} on {} of size {}", g.show(), name, n * k));
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += s.len() as u64 + 1;
                let l = lexer(g.nt, &s);
                let from = alloc::count();
                if guard(|| drop(p.parse(l))).is_err() {
                    // C17 says that there is no panic
                    ctx.hist("panic");
                    return;
                }
                let work = alloc::count() - from;
                ctx.hist("parsed");
                if k == 2 && work / (before + 100) > DOUBLE {
                    return ctx.fail(
                        format!("{} on {} of size {} and {}", g.show(), name, n, 2 * n),
                        format!("at most {} times the work", DOUBLE),
                        format!("{} and {} allocations", before, work),
                    );
                }
                before = work;
            }
        },
    ));
    Check {
        id: "C22",
        domains,
        assumptions: vec![
            "work is counted in allocations of the thread".into(),
            "polynomial means: at most cubic in the size of the grammar and its canonical automaton; at most 16 times the work for twice the tokens".into(),
            "a case that makes no progress for 30 s of processor time and again not within 60 s alone is reported as not ending".into(),
        ],
    }
}
