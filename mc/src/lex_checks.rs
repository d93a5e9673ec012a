//! Checks of the lexer (C01 to C08).

use std::sync::Arc;

use crate::engine::*;
use crate::lexdrv::*;
use crate::re::*;

pub fn st(w: &[char]) -> String {
    w.iter().collect()
}

/// Compares one pattern with its denotation on one text.
fn denotes(ctx: &mut Ctx, e: &Re, pat: &str, text: &[char], input: &str) {
    ctx.about(|| format!("pattern {:?} on {:?}", pat, input));
    ctx.states += 1;
    ctx.transitions += text.len() as u64;
    ctx.traces += 1;
    let want = e.longest(text, 0);
    let got = first(pat, input);
    let ok = match (&want, &got) {
        (None, Ok(None)) => {
            ctx.hist("no match");
            true
        }
        (Some(n), Ok(Some(t))) => {
            ctx.hist(if *n == text.len() {
                "whole text matches"
            } else {
                "proper prefix matches"
            });
            t.source.chars().count() == *n && t.source.chars().eq(text[..*n].iter().copied())
        }
        _ => false,
    };
    if !ok {
        ctx.fail(
            format!("pattern {:?} on {:?}", pat, input),
            match want {
                Some(n) => format!("longest match {:?}", st(&text[..n])),
                None => "no match".into(),
            },
            match got {
                Ok(Some(t)) => format!("match {:?}", t.source),
                Ok(None) => "no match".into(),
                Err(m) => m,
            },
        );
    }
}

fn pattern_on(ctx: &mut Ctx, e: &Re, texts: &[(Vec<char>, String)]) {
    let pat = e.show();
    ctx.sample(|| format!("{:?} on {} texts", pat, texts.len()));
    for (t, s) in texts {
        denotes(ctx, e, &pat, t, s);
        if ctx.failed() {
            return;
        }
    }
}

pub fn texts(alphabet: &str, max: usize) -> Arc<Vec<(Vec<char>, String)>> {
    let a: Vec<char> = alphabet.chars().collect();
    Arc::new(
        strings(&a, max)
            .into_iter()
            .map(|w| {
                let s = st(&w);
                (w, s)
            })
            .collect(),
    )
}

pub fn quants(ts: &[&str]) -> Vec<Quant> {
    ts.iter().map(|t| quant(t)).collect()
}

fn class(t: &str, s: Set) -> Re {
    Re::Set(s, t.to_string())
}

pub fn set_ab() -> Re {
    class(
        "[ab]",
        Set::Bracket(
            false,
            vec![Item::One(Set::Char('a')), Item::One(Set::Char('b'))],
        ),
    )
}

fn list_domain(
    name: &str,
    list: Vec<Re>,
    texts: Arc<Vec<(Vec<char>, String)>>,
    block: usize,
) -> Domain {
    let list = Arc::new(list);
    domain(name, list.len(), block, move |i, ctx| {
        pattern_on(ctx, &list[i as usize], &texts)
    })
}

pub fn c01(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let (a, b) = (lit('a'), lit('b'));
    let q_all = quants(&[
        "*", "+", "?", "{0}", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}",
        "{1,2}", "{1,3}", "{2,3}", "{0,0}", "{2,1}",
    ]);
    let q_core = quants(&["*", "+", "?", "{2}", "{2,}", "{1,2}", "{0}"]);

    // every expression, all quantifiers, few nodes
    let mut by = expressions(if thorough { 5 } else { 4 }, &[a.clone(), b.clone()], &q_all);
    let small: Vec<Re> = by.drain(1..).flatten().collect();
    domains.push(list_domain(
        if thorough {
            "expressions up to 5 nodes over {a,b}, 17 quantifiers; all texts up to 6"
        } else {
            "expressions up to 4 nodes over {a,b}, 17 quantifiers; all texts up to 6"
        },
        small,
        texts("ab", 6),
        16,
    ));
    let by = expressions(if thorough { 4 } else { 3 }, &[a.clone(), b.clone()], &q_all);
    let few: Vec<Re> = by.into_iter().skip(1).flatten().collect();
    let tx = texts("ab", 6);
    let nf = few.len();
    domains.push(domain(
        format!("{} expressions over {{a,b}}, 17 quantifiers, as functions and as mappings; all texts up to 6", nf),
        nf * 2,
        16,
        move |i, ctx| registered(1 + (i % 2) as u8, || pattern_on(ctx, &few[i as usize / 2], &tx)),
    ));
    // more nodes, fewer quantifiers
    let n = if thorough { 6 } else { 5 };
    let by = expressions(n, &[a.clone(), b.clone()], &q_core);
    domains.push(list_domain(
        &format!("expressions with {} nodes over {{a,b}}, 7 quantifiers; all texts up to {}", n, n),
        by[n].clone(),
        texts("ab", n),
        16,
    ));
    // towers of quantifiers
    let q_t = quants(&["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,2}"]);
    let depth = if thorough { 5 } else { 4 };
    for (name, base) in [("a", a.clone()), ("(a|ab)", Re::alt(a.clone(), Re::word("ab")))] {
        let mut level = vec![base];
        let mut all = level.clone();
        for _ in 0..depth {
            level = level
                .iter()
                .flat_map(|e| q_t.iter().map(|q| Re::rep(e.clone(), q)))
                .collect();
            all.extend(level.iter().cloned());
        }
        domains.push(list_domain(
            &format!("up to {} nested quantifiers over {}; texts up to length 8/5", depth, name),
            all,
            if name == "a" {
                texts("a", 10)
            } else {
                texts("ab", 5)
            },
            8,
        ));
    }
    // sequences and alternatives of quantified items
    let items: Vec<Re> = vec![
        a.clone(),
        b.clone(),
        Re::rep(a.clone(), &quant("*")),
        Re::rep(b.clone(), &quant("+")),
        Re::rep(a.clone(), &quant("?")),
        Re::rep(b.clone(), &quant("{2}")),
        Re::rep(Re::word("ab"), &quant("*")),
        Re::rep(Re::alt(a.clone(), Re::word("bb")), &quant("+")),
        Re::rep(Re::rep(a.clone(), &quant("?")), &quant("{2}")),
        Re::rep(Re::cat(Re::rep(a.clone(), &quant("*")), b.clone()), &quant("{1,2}")),
        set_ab(),
        class(".", Set::Any),
        Re::rep(set_ab(), &quant("{2,3}")),
    ];
    let k = items.len();
    let len = if thorough { 4 } else { 3 };
    let shapes = k.pow(len as u32);
    for alt in [false, true] {
        let items = items.clone();
        let tx = texts("ab", if thorough { 6 } else { 6 });
        domains.push(domain(
            format!(
                "{} of {} of 13 items; all texts up to 6",
                if alt { "alternatives" } else { "sequences" },
                len
            ),
            shapes,
            16,
            move |i, ctx| {
                let mut i = i as usize;
                let mut v = Vec::new();
                for _ in 0..len {
                    v.push(items[i % k].clone());
                    i /= k;
                }
                let e = if alt { Re::alts(v) } else { Re::cats(v) };
                pattern_on(ctx, &e, &tx)
            },
        ));
    }
    // all small bounds, on texts around them
    let max = if thorough { 14 } else { 9 };
    let mut bounds = Vec::new();
    for n in 0..=max {
        bounds.push(quant(&format!("{{{}}}", n)));
        bounds.push(quant(&format!("{{{},}}", n)));
        for m in 0..=max {
            bounds.push(quant(&format!("{{{},{}}}", n, m)));
        }
    }
    let bodies = vec![
        a.clone(),
        Re::word("ab"),
        Re::alt(a.clone(), b.clone()),
        Re::alt(a.clone(), Re::word("ab")),
        Re::rep(a.clone(), &quant("?")),
        Re::rep(a.clone(), &quant("*")),
        Re::cat(Re::rep(a.clone(), &quant("*")), b.clone()),
        Re::rep(a.clone(), &quant("{2}")),
        Re::alt(Re::rep(a.clone(), &quant("{2}")), Re::rep(a.clone(), &quant("{3}"))),
        set_ab(),
    ];
    let nb = bounds.len();
    domains.push(domain(
        format!("all bounds up to {} on 10 bodies; a^i, (ab)^i, a^i b a^j", max),
        nb * bodies.len() * 2,
        8,
        move |i, ctx| {
            let i = i as usize;
            let q = &bounds[i % nb];
            let mut e = Re::rep(bodies[(i / nb) % bodies.len()].clone(), q);
            if i / nb / bodies.len() == 1 {
                // what follows must not be disturbed
                e = Re::cat(e, lit('a'));
            }
            let mut v: Vec<Vec<char>> = Vec::new();
            for n in 0..=2 * max + 3 {
                v.push(vec!['a'; n]);
                v.push("ab".chars().cycle().take(n).collect());
                let mut w = vec!['a'; n / 2];
                w.push('b');
                w.extend(vec!['a'; n - n / 2]);
                v.push(w);
            }
            let v: Vec<_> = v
                .into_iter()
                .map(|w| {
                    let s = st(&w);
                    (w, s)
                })
                .collect();
            pattern_on(ctx, &e, &v)
        },
    ));
    // large counts
    let big: Vec<u64> = vec![
        15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 249,
    ];
    domains.push(domain(
        "counts up to 249, on texts around the bounds",
        big.len() * 6,
        1,
        move |i, ctx| {
            let n = big[i as usize % big.len()];
            let e = lit('a');
            let (e, sep) = match i as usize / big.len() {
                0 => (Re::rep(e, &quant(&format!("{{{}}}", n))), 0),
                1 => (Re::rep(e, &quant(&format!("{{{},}}", n))), 0),
                2 => (Re::rep(e, &quant(&format!("{{{},{}}}", n - 2, n))), 0),
                3 => (Re::rep(e, &quant(&format!("{{0,{}}}", n))), 0),
                4 => (
                    Re::cat(Re::rep(e.clone(), &quant(&format!("{{{}}}", n))), lit('b')),
                    1,
                ),
                _ => (
                    Re::rep(
                        Re::alt(lit('a'), lit('b')),
                        &quant(&format!("{{{},{}}}", n, n + 1)),
                    ),
                    0,
                ),
            };
            let mut v = Vec::new();
            for k in [1, n - 3, n - 2, n - 1, n, n + 1, n + 2, n + 5] {
                let mut w = vec!['a'; k as usize];
                if sep == 1 {
                    w.push('b');
                }
                let s = st(&w);
                v.push((w, s));
            }
            pattern_on(ctx, &e, &v)
        },
    ));
    // counts beyond 16 bits: the length of the match is the oracle
    let huge: Vec<u64> = if thorough {
        vec![255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 100_000]
    } else {
        vec![255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537]
    };
    domains.push(domain(
        "counts up to 2^16 and more, runs of a around the bound",
        huge.len() * 4 * 3,
        1,
        move |i, ctx| {
            let n = huge[i as usize % huge.len()];
            let form = i as usize / huge.len() % 4;
            let k = n - 1 + (i as usize / huge.len() / 4) as u64;
            let (q, lo, hi) = match form {
                0 => (format!("{{{}}}", n), n, n),
                1 => (format!("{{{},}}", n), n, u64::MAX),
                2 => (format!("{{{},{}}}", n - 1, n), n - 1, n),
                _ => (format!("{{0,{}}}", n), 0, n),
            };
            let pat = format!("a{}", q);
            let text = "a".repeat(k as usize);
            ctx.about(|| format!("pattern {} on {} times a", pat, k));
            ctx.states += 1;
            ctx.transitions += k;
            ctx.traces += 1;
            let want = if k < lo { None } else { Some(k.min(hi)) };
            let got = first(&pat, &text);
            ctx.hist(if want.is_some() { "match" } else { "no match" });
            let ok = matches!(&got, Ok(t) if t.as_ref().map(|t| t.source.len() as u64) == want);
            if !ok {
                ctx.fail(
                    format!("pattern {:?} on {} times a", pat, k),
                    format!("longest match of length {:?}", want),
                    format!("{:?}", got.map(|t| t.map(|t| t.source.len()))),
                );
            }
        },
    ));
    // repeated groups: every unit is matched in one way only
    let units = [
        ("(ab)", "ab"),
        ("(a|b)", "a"),
        ("(ab|cd)", "cd"),
        ("[ab]", "b"),
        ("(a{2})", "aa"),
        ("(a+b)", "aab"),
        ("(ab?c)", "ac"),
        ("((ab)c)", "abc"),
        ("(é.)", "é\n"),
        ("\\d", "7"),
    ];
    let counts: Vec<usize> = if thorough {
        (0..=300).chain([511, 512, 513, 1023, 1024, 1025, 4096]).collect()
    } else {
        (0..=18).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 1000]).collect()
    };
    let nu = units.len();
    domains.push(domain(
        format!("{} units repeated around each of {} counts up to {}, 6 kinds of bounds", nu, counts.len(), counts[counts.len() - 1]),
        nu * counts.len(),
        4,
        move |i, ctx| {
            let (p, unit) = units[i as usize % nu];
            let n = counts[i as usize / nu];
            let forms = [
                (format!("{}{{{}}}", p, n), n, n),
                (format!("{}{{{},}}", p, n), n, usize::MAX),
                (format!("{}{{{},{}}}", p, n, n + 3), n, n + 3),
                (format!("{}{{0,{}}}", p, n), 0, n),
                (format!("{}*", p), 0, usize::MAX),
                (format!("{}+", p), 1, usize::MAX),
            ];
            for (pat, lo, hi) in forms {
                for k in [n.saturating_sub(1), n, n + 1, n + 3, n + 4, 2 * n, n + 256] {
                    let text = unit.repeat(k);
                    let want = match k.min(hi) {
                        0 => None,
                        m if m < lo => None,
                        m => Some(m * unit.len()),
                    };
                    let case = || format!("pattern {:?} on {} times {:?}", pat, k, unit);
                    ctx.sample(case);
                    ctx.about(case);
                    ctx.states += 1;
                    ctx.transitions += text.len() as u64;
                    ctx.traces += 1;
                    let got = first(&pat, &text);
                    ctx.hist(if want.is_some() { "match" } else { "no match" });
                    let ok = matches!(&got, Ok(t) if t.as_ref().map(|t| t.source.len()) == want);
                    if !ok {
                        return ctx.fail(
                            case(),
                            format!("longest match of {:?} bytes", want),
                            format!("{:?}", got.map(|t| t.map(|t| t.source.len()))),
                        );
                    }
                }
            }
        },
    ));
    // long words, many alternatives, deep nesting
    let long = if thorough { 120 } else { 70 };
    domains.push(domain(
        format!("words of 1 to {} characters and their near misses", long),
        long * 3,
        4,
        move |i, ctx| {
            let n = i as usize % long + 1;
            let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789".chars().collect();
            let w: Vec<char> = (0..n).map(|j| alpha[(j * 7 + n) % alpha.len()]).collect();
            let e = match i as usize / long {
                0 => Re::word(&st(&w)),
                1 => Re::rep(Re::word(&st(&w)), &quant("+")),
                _ => Re::alts((0..n).map(|j| Re::word(&st(&w[j..]))).collect()),
            };
            let mut v: Vec<Vec<char>> = vec![w.clone(), [w.clone(), w.clone()].concat()];
            for j in [0, n / 2, n - 1] {
                let mut x = w.clone();
                x[j] = '_';
                v.push(x);
                let mut x = w.clone();
                x.remove(j);
                v.push(x);
                v.push(w[..j].to_vec());
            }
            let v: Vec<_> = v
                .into_iter()
                .map(|w| {
                    let s = st(&w);
                    (w, s)
                })
                .collect();
            pattern_on(ctx, &e, &v)
        },
    ));
    // longer than fits into eight bits
    let lengths: Vec<usize> = if thorough { (100..=300).chain([511, 512, 513, 1000]).collect() } else { vec![127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 513, 1000] };
    let nl = lengths.len();
    domains.push(domain(
        format!("words and alternatives of {} lengths up to {}", nl, lengths[nl - 1]),
        nl * 3,
        1,
        move |i, ctx| {
            let n = lengths[i as usize / 3];
            let c = |j: usize| char::from_u32(0x4e00 + j as u32).unwrap();
            let w: Vec<char> = (0..n).map(c).collect();
            let e = match i % 3 {
                0 => Re::word(&st(&w)),
                1 => Re::rep(Re::word(&st(&w)), &quant("{1,2}")),
                _ => Re::alts((0..n).map(|j| Re::cat(lit(c(j)), lit('x'))).collect()),
            };
            let mut v: Vec<Vec<char>> = vec![w.clone(), w[..n - 1].to_vec(), [w.clone(), w.clone(), w.clone()].concat()];
            for j in [0, 1, 126, 127, 128, 253, 254, 255, 256, 257, 511, n - 2, n - 1] {
                if j < n {
                    v.extend([vec![c(j), 'x'], vec![c(j), 'y']]);
                    let mut x = w.clone();
                    x[j] = '_';
                    v.push(x);
                    let mut x = w.clone();
                    x.remove(j);
                    v.push(x);
                }
            }
            let pat = e.show();
            ctx.sample(|| format!("kind {} of length {}", i % 3, n));
            for text in v {
                let s = st(&text);
                let want = match i % 3 {
                    0 => text.starts_with(&w).then_some(n),
                    1 => text.starts_with(&w).then(|| if text[n..].starts_with(&w) { 2 * n } else { n }),
                    _ => (w.contains(&text[0]) && text[1] == 'x').then_some(2),
                };
                let case = || format!("kind {} of length {} on {:?}", i % 3, n, s);
                ctx.about(case);
                ctx.states += 1;
                ctx.transitions += text.len() as u64;
                ctx.traces += 1;
                ctx.hist(if want.is_some() { "match" } else { "no match" });
                let got = first(&pat, &s);
                if !matches!(&got, Ok(t) if t.as_ref().map(|t| t.source.chars().count()) == want) {
                    return ctx.fail(
                        case(),
                        format!("longest match of {:?} characters", want),
                        format!("{:?}", got.map(|t| t.map(|t| t.source.chars().count()))),
                    );
                }
            }
        },
    ));
    // many quantifiers side by side
    let numbers: Vec<usize> = if thorough { (4..=80).chain([127, 128, 129]).collect() } else { (4..=20).chain([31, 32, 33, 40, 64, 65]).collect() };
    let nn = numbers.len();
    let row = ["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,2}"];
    domains.push(domain(
        format!("{} numbers up to {} of quantified parts in a row, 4 kinds of parts, one quantifier or all in turn", nn, numbers[nn - 1]),
        nn * 4 * (row.len() + 1),
        1,
        move |i, ctx| {
            let i = i as usize;
            let (n, kind, q) = (numbers[i / 4 / (row.len() + 1)], i % 4, i / 4 % (row.len() + 1));
            let c = |j: usize| char::from_u32(0x4e00 + 2 * j as u32).unwrap();
            let d = |j: usize| char::from_u32(0x4e01 + 2 * j as u32).unwrap();
            let part = |j: usize| match (kind + (kind == 3) as usize * j) % 3 {
                0 => (lit(c(j)), vec![c(j)]),
                1 => (Re::cat(lit(c(j)), lit(d(j))), vec![c(j), d(j)]),
                _ => (Re::alt(lit(c(j)), lit(d(j))), vec![if j % 2 == 0 { c(j) } else { d(j) }]),
            };
            let q = |j: usize| row[if q < row.len() { q } else { j % row.len() }];
            // how often a part is repeated if nothing is wrong
            let right = |j: usize| if q(j) == "?" { 1 } else { 2 };
            let e = Re::cats((0..n).map(|j| Re::rep(part(j).0, &quant(q(j)))).collect());
            let pat = e.show();
            ctx.sample(|| format!("{} parts of kind {}", n, kind));
            let at: Vec<usize> = if n <= 8 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
            let mut v: Vec<Vec<char>> = Vec::new();
            for &j in &at {
                for k in 0..4 {
                    v.push((0..n).flat_map(|i| part(i).1.repeat(if i == j { k } else { right(i) })).collect());
                }
                // only the parts that have to be there, and this one
                v.push((0..n).flat_map(|i| part(i).1.repeat(if i == j { 2 } else { match q(i) { "+" | "{1,2}" => 1, "{2}" | "{2,}" => 2, _ => 0 } })).collect());
            }
            // the reference has room for 255 positions
            v.retain(|w| w.len() < 255);
            for w in v {
                let s = st(&w);
                denotes(ctx, &e, &pat, &w, &s);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    // quantifiers inside of each other, all of them counting; writing out the
    // repetitions is allowed and doubles the automaton with every level
    let deepest = if thorough { 11 } else { 9 };
    let inner = ["{1,2}", "{1,}", "+", "{0,2}", "?", "*"];
    domains.push(domain(
        format!("up to {} counting quantifiers inside of each other, up to two of the groups repeated", deepest),
        deepest * (inner.len() + 1),
        1,
        move |i, ctx| {
            let i = i as usize;
            let (n, q) = (i % deepest + 1, i / deepest);
            let q = |j: usize| inner[if q < inner.len() { q } else { j % inner.len() }];
            let c = |j: usize| char::from_u32(0x4e00 + j as u32).unwrap();
            let mut e = lit('a');
            for j in 0..n {
                e = Re::rep(Re::cat(e, lit(c(j))), &quant(q(j)));
            }
            let pat = e.show();
            ctx.sample(|| pat.clone());
            for x in 0..n {
                for y in x..n {
                    for times in 0..4 {
                        let mut w = vec!['a'];
                        for j in 0..n {
                            w.push(c(j));
                            w = w.repeat(if j == x { times } else if j == y { 2 } else { 1 });
                        }
                        let s = st(&w);
                        denotes(ctx, &e, &pat, &w, &s);
                        if ctx.failed() {
                            return;
                        }
                    }
                }
            }
        },
    ));
    let wide = if thorough { 64 } else { 40 };
    domains.push(domain(
        format!("1 to {} alternatives, every one of them", wide),
        wide * 2,
        1,
        move |i, ctx| {
            let n = i as usize % wide + 1;
            let c = |j: usize| char::from_u32('0' as u32 + j as u32).unwrap();
            let e = match i as usize / wide {
                0 => Re::alts((0..n).map(|j| Re::cat(lit(c(j)), lit('x'))).collect()),
                _ => Re::rep(Re::alts((0..n).map(|j| lit(c(j))).collect()), &quant("{2}")),
            };
            let mut v = Vec::new();
            for j in 0..n + 2 {
                for w in [vec![c(j), 'x'], vec![c(j), c(j)], vec![c(j), c(0)], vec![c(j)]] {
                    let s = st(&w);
                    v.push((w, s));
                }
            }
            pattern_on(ctx, &e, &v)
        },
    ));
    let deep = if thorough { 60 } else { 30 };
    domains.push(domain(
        format!("1 to {} nested groups", deep),
        deep * 5,
        2,
        move |i, ctx| {
            let n = i as usize % deep + 1;
            let kind = i as usize / deep;
            let mut e = lit('a');
            let mut pat = "a".to_string();
            for j in 0..n {
                match kind {
                    0 => pat = format!("({})", pat),
                    1 => {
                        e = Re::rep(e, &quant("*"));
                        pat = format!("({})*", pat);
                    }
                    2 => {
                        let c = if j % 2 == 0 { 'b' } else { 'a' };
                        e = Re::cat(e, lit(c));
                        pat = format!("({}{})", pat, c);
                    }
                    3 => {
                        e = Re::alt(lit('b'), Re::cat(lit('a'), e));
                        pat = format!("(b|a{})", pat);
                    }
                    _ => {
                        e = Re::rep(Re::cat(lit('a'), e), &quant("?"));
                        pat = format!("(a{})?", pat);
                    }
                }
            }
            let mut v: Vec<Vec<char>> = Vec::new();
            for k in 0..=n + 2 {
                v.push(vec!['a'; k]);
                v.push(vec!['b'; k]);
                v.push("ab".chars().cycle().take(k).collect());
                let mut w = vec!['a'; k];
                w.push('b');
                v.push(w);
            }
            ctx.sample(|| format!("{:?}", pat));
            for w in v {
                let s = st(&w);
                denotes(ctx, &e, &pat, &w, &s);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    Check {
        id: "C01",
        domains,
        assumptions: vec![
            "reference denotation in mc/src/re.rs (end-position sets), written independently of the NFA".into(),
            "bounded expressions and texts; larger sizes only in the parametric families".into(),
        ],
    }
}
