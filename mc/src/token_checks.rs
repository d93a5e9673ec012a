//! Streams of tokens (C05 to C08).

use std::cell::RefCell;
use std::sync::Arc;

use pango_lexer::Lexer;

use crate::alloc;
use crate::engine::*;
use crate::lex_checks::{quants, st, texts};
use crate::lexdrv::*;
use crate::re::*;

type Texts = Arc<Vec<(Vec<char>, String)>>;

/// A spelled pattern with its meaning.
#[derive(Clone)]
pub struct Pat {
    pub text: String,
    pub re: Re,
}

pub fn pat(text: &str) -> Pat {
    match read(text) {
        Read::Valid(re) => Pat {
            text: text.to_string(),
            re,
        },
        o => panic!("pattern {:?}: {:?}", text, o),
    }
}

pub fn pats(ts: &[&str]) -> Vec<Pat> {
    ts.iter().map(|t| pat(t)).collect()
}

/// The tokens the text has to be split into: kind, start, end.
pub fn split(pats: &[&Pat], text: &[char]) -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    let mut at = 0;
    while at < text.len() {
        let window = &text[at..text.len().min(at + 250)];
        let mut best: Option<(usize, usize)> = None;
        for (k, p) in pats.iter().enumerate() {
            if let Some(n) = p.re.longest(window, 0) {
                if best.is_none_or(|(_, m)| n > m) {
                    best = Some((k, n));
                }
            }
        }
        let Some((k, n)) = best else { break };
        v.push((k, at, at + n));
        at += n;
    }
    v
}

fn describe(pats: &[&Pat], input: &str) -> String {
    let p: Vec<_> = pats.iter().map(|p| &p.text).collect();
    format!("patterns {:?} on {:?}", p, input)
}

/// Longest match, earliest pattern, stop exactly where nothing matches.
fn munch(ctx: &mut Ctx, pats: &[&Pat], text: &[char], input: &str) {
    ctx.about(|| describe(pats, input));
    ctx.states += 1;
    ctx.transitions += text.len() as u64;
    ctx.traces += 1;
    let want = split(pats, text);
    let ts: Vec<&str> = pats.iter().map(|p| p.text.as_str()).collect();
    let got = all(&ts, input, 0);
    let stop = want.last().map(|w| w.2).unwrap_or(0);
    ctx.hist(if text.is_empty() {
        "empty text"
    } else if stop == text.len() {
        "whole text tokenized"
    } else if stop == 0 {
        "no token"
    } else {
        "prefix tokenized"
    });
    let ok = match &got {
        Ok((v, _)) => {
            v.len() == want.len()
                && v.iter()
                    .zip(&want)
                    .all(|(t, w)| t.kind == w.0 && t.source.chars().eq(text[w.1..w.2].iter().copied()))
        }
        Err(_) => false,
    };
    if !ok {
        ctx.fail(
            describe(pats, input),
            want.iter()
                .map(|w| format!("#{} {:?}", w.0, st(&text[w.1..w.2])))
                .collect::<Vec<_>>()
                .join(", "),
            match got {
                Ok((v, _)) => v
                    .iter()
                    .map(|t| format!("#{} {:?}", t.kind, t.source))
                    .collect::<Vec<_>>()
                    .join(", "),
                Err(m) => m,
            },
        );
    }
}

/// Tiling of the input, and the end staying the end. Judged by the text alone.
fn tile(ctx: &mut Ctx, pats: &[&Pat], text: &[char], input: &str) {
    ctx.about(|| describe(pats, input));
    ctx.states += 1;
    ctx.transitions += text.len() as u64;
    ctx.traces += 1;
    let ts: Vec<&str> = pats.iter().map(|p| p.text.as_str()).collect();
    let got = all(&ts, input, 4);
    match got {
        Ok((v, late)) => {
            let mut at = 0;
            let mut bad = None;
            for t in &v {
                let n = t.source.chars().count();
                if n == 0
                    || t.pos != (at, at + n)
                    || at + n > text.len()
                    || !t.source.chars().eq(text[at..at + n].iter().copied())
                {
                    bad = Some(format!("the token at {} to be the text from there on", at));
                    break;
                }
                at += n;
            }
            if bad.is_none() && !late.is_empty() {
                bad = Some("nothing after the end was reported".to_string());
            }
            ctx.hist(match (v.len(), at == text.len()) {
                (0, _) => "no token",
                (1, true) => "one token, whole text",
                (1, false) => "one token, prefix",
                (_, true) => "several tokens, whole text",
                (_, false) => "several tokens, prefix",
            });
            if let Some(b) = bad {
                let (v, late) = (Tk::show(&v), Tk::show(&late));
                ctx.fail(describe(pats, input), b, format!("{}; after the end: {}", v, late));
            }
        }
        Err(m) => ctx.fail(describe(pats, input), "tokens", m),
    }
}

type Judge = fn(&mut Ctx, &[&Pat], &[char], &str);

/// All ordered lists of exactly `n` of the pool.
fn lists(name: &str, pool: Vec<Pat>, n: usize, tx: Texts, judge: Judge) -> Domain {
    let k = pool.len();
    domain(
        format!("{}: ordered lists of {} of {} patterns, as values{}; {} texts", name, n, k, if n < 3 { ", functions, mappings and in turn" } else { " and in turn" }, tx.len()),
        k.pow(n as u32),
        8,
        move |i, ctx| {
            let mut i = i as usize;
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(&pool[i % k]);
                i /= k;
            }
            ctx.sample(|| describe(&v, "..."));
            for way in (0..WAYS).filter(|w| n < 3 || w % 3 == 0) {
                for (t, s) in tx.iter() {
                    registered(way, || judge(ctx, &v, t, s));
                    if ctx.failed() {
                        return;
                    }
                }
            }
        },
    )
}

fn fixed(name: &str, cases: Vec<(Vec<&str>, Vec<String>)>, judge: Judge) -> Domain {
    let cases: Vec<(Vec<Pat>, Vec<String>)> =
        cases.into_iter().map(|(p, t)| (pats(&p), t)).collect();
    domain(name, cases.len(), 1, move |i, ctx| {
        let (p, t) = &cases[i as usize];
        let p: Vec<&Pat> = p.iter().collect();
        for s in t {
            let c: Vec<char> = s.chars().collect();
            ctx.sample(|| describe(&p, s));
            judge(ctx, &p, &c, s);
            if ctx.failed() {
                return;
            }
        }
    })
}

fn language_texts() -> Vec<String> {
    let words = ["if", "iffy", "x1", "12", "12.5", ".", "==", "=", " ", "\n", "\"a b\"", "\"", "else", "//c\n", "1e", "1e5", "é", "_"];
    let mut v = vec![String::new()];
    for a in words {
        v.push(a.to_string());
        for b in words {
            v.push(format!("{}{}", a, b));
            for c in words {
                v.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    v
}

/// All scalar values, 64 to an index.
pub fn domain_of_scalars(
    d: &mut Vec<Domain>,
    name: &str,
    run: impl Fn(char, &mut Ctx) + Send + Sync + 'static,
) {
    d.push(domain(name, 0x110000 / 64, 64, move |i, ctx| {
        for c in (i * 64..(i + 1) * 64).filter_map(|n| char::from_u32(n as u32)) {
            ctx.sample(|| format!("{:?}", c));
            run(c, ctx);
            if ctx.failed() {
                return;
            }
        }
    }));
}

fn stream_domains(judge: Judge, thorough: bool) -> Vec<Domain> {
    let mut d = Vec::new();
    let pool = pats(&[
        "a", "b", "ab", "abc", "a*", "a+b", "(ab)+", "[ab]", "a?b", "(a|ab)(c|bcd)?", "b{2}", ".", "(a|b)*c", "c|cc",
    ]);
    let n = if thorough { 6 } else { 5 };
    for k in 1..=3 {
        d.push(lists("{a,b,c}", pool.clone(), k, texts("abc", if k == 3 { n } else { n + 1 }), judge));
    }
    let small = pats(&["a", "ab", "abcde", "c", "cd", "[a-e]*x", "de", "b+"]);
    // texts that begin candidates and give them up
    let tx: Texts = {
        let parts = ["a", "ab", "abc", "abcd", "abcde", "x", "cd", "e"];
        let mut v = vec![String::new()];
        for a in parts {
            v.push(a.into());
            for b in parts {
                v.push(format!("{}{}", a, b));
                for c in parts {
                    v.push(format!("{}{}{}", a, b, c));
                    if thorough {
                        for e in parts {
                            v.push(format!("{}{}{}{}", a, b, c, e));
                        }
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        Arc::new(v.into_iter().map(|s| (s.chars().collect(), s)).collect())
    };
    for k in 2..=if thorough { 4 } else { 3 } {
        d.push(lists("given-up candidates", small.clone(), k, tx.clone(), judge));
    }
    // several lengths of characters in one text
    let wide = pats(&["é", "🌕", "a", "é+🌕", "[é-🌕]", "\\n", ".", "aé*", "\u{301}"]);
    for k in 1..=3 {
        d.push(lists("multi-byte characters", wide.clone(), k, texts("aé🌕\n", if k == 3 { 4 } else { 5 }), judge));
    }
    // all pairs of small expressions
    let by = expressions(3, &[lit('a'), lit('b')], &quants(&["*", "+", "?", "{2}", "{1,2}", "{2,}"]));
    let ex: Vec<Pat> = by
        .into_iter()
        .skip(1)
        .flatten()
        .map(|re| Pat { text: re.show(), re })
        .collect();
    d.push(lists("expressions up to 3 nodes", ex, 2, texts("ab", if thorough { 6 } else { 4 }), judge));
    // lookahead of every length
    let max = if thorough { 100 } else { 40 };
    let mut cases: Vec<(Vec<String>, Vec<String>)> = Vec::new();
    for n in 0..max {
        let y = "y".repeat(n);
        let mut t = Vec::new();
        for j in 0..n + 3 {
            let y = "y".repeat(j);
            t.push(format!("x{}", y));
            t.push(format!("x{}z", y));
            t.push(format!("x{}x{}z", y, y));
            t.push(format!("x{}wx", y));
        }
        cases.push((vec!["x".into(), format!("x{}z", y), "y".into()], t.clone()));
        cases.push((vec![format!("x(y{{{}}}z)*", n), "y*x".into(), "y".into(), "[wz]".into()], t));
    }
    let nc = cases.len();
    let cases: Vec<(Vec<Pat>, Vec<String>)> = cases
        .into_iter()
        .map(|(p, t)| (p.iter().map(|p| pat(p)).collect(), t))
        .collect();
    d.push(domain(
        format!("lookahead of every length up to {}", max),
        nc,
        1,
        move |i, ctx| {
            let (p, t) = &cases[i as usize];
            let p: Vec<&Pat> = p.iter().collect();
            for s in t {
                let c: Vec<char> = s.chars().collect();
                ctx.sample(|| describe(&p, s));
                judge(ctx, &p, &c, s);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    // a language
    let lang: Vec<&str> = vec![
        "if", "else", "[\\w_][\\w\\d_]*", "\\d+", "\\d+\\.\\d+", "\\d+(\\.\\d+)?e\\d+", "==", "=", "\\s+", "\"[^\"]*\"", "//[^\\n]*\\n", "/",
    ];
    let mut rev = lang.clone();
    rev.reverse();
    let mut rot = lang.clone();
    rot.rotate_left(3);
    d.push(fixed(
        "a programming language's tokens, all texts of up to 3 of 18 fragments",
        vec![(lang, language_texts()), (rev, language_texts()), (rot, language_texts())],
        judge,
    ));
    // many patterns, every pair of them equal
    let many = if thorough { 70 } else { 40 };
    d.push(domain(
        format!("2 to {} patterns, two of them matching the same text", many),
        many * many,
        16,
        move |i, ctx| {
            let (a, b) = (i as usize % many, i as usize / many);
            if a > b {
                return;
            }
            let c = |j: usize| char::from_u32('À' as u32 + j as u32).unwrap();
            let p: Vec<Pat> = (0..=b)
                .map(|j| {
                    if j == a {
                        pat("x+")
                    } else if j == b {
                        pat("x[xy]")
                    } else {
                        pat(&format!("{}x?", c(j)))
                    }
                })
                .collect();
            let p: Vec<&Pat> = p.iter().collect();
            let mut t = vec!["xx".to_string(), "xy".into(), "xxx".into(), "xyx".into(), "x".into(), "y".into()];
            t.push((0..=b).map(|j| format!("{}x", c(j))).collect());
            t.push(format!("{}xx{}xy", c(a), c(b)));
            ctx.sample(|| describe(&p[..p.len().min(4)], "..."));
            for s in t {
                let w: Vec<char> = s.chars().collect();
                judge(ctx, &p, &w, &s);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    // every character: as a token, inside of one and as no token at all
    let sets = [pats(&["a", "b"]), pats(&["[^;]+", ";"]), pats(&["a", "a.b", "."])];
    domain_of_scalars(&mut d, "every scalar value in 3 sets of patterns, 7 texts", move |c, ctx| {
        let w = |s: &str| s.replace('#', &c.to_string());
        for (k, t) in [(0, "#ab"), (0, "a#b"), (0, "ab#"), (1, ";a##b;#"), (1, "#;"), (2, "a#b#"), (2, "#a#a")] {
            let s = w(t);
            let p: Vec<&Pat> = sets[k].iter().collect();
            let t: Vec<char> = s.chars().collect();
            judge(ctx, &p, &t, &s);
        }
    });
    // every pair of characters that programs tend to treat specially
    let odd = odd_chars();
    let k = odd.len();
    let sets = [pats(&["[^;]+", ";"]), pats(&["\\s+", "\\w+", "\\d+", "\\S"]), pats(&["a", "a..b", "."]), pats(&["a", "b"])];
    d.push(domain(
        format!("every pair of {} peculiar characters in 4 sets of patterns", k),
        k * k,
        64,
        move |i, ctx| {
            let (x, y) = (odd[i as usize % k], odd[i as usize / k]);
            for (p, t) in [(0, ""), (1, ""), (2, "a"), (3, "a")] {
                let p: Vec<&Pat> = sets[p].iter().collect();
                let w: Vec<char> = t.chars().chain([x, y]).chain("b".chars()).collect();
                let s = st(&w);
                ctx.sample(|| describe(&p, &s));
                judge(ctx, &p, &w, &s);
            }
        },
    ));
    // more patterns than fit into 6, 7 and 8 bits
    let counts: Vec<usize> = if thorough { (41..=520).collect() } else { vec![63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300] };
    let nc = counts.len();
    d.push(domain(format!("{} numbers of patterns up to {}, each pattern twice", nc, counts[nc - 1]), nc * 2, 1, move |i, ctx| {
        let n = counts[i as usize % nc];
        let c = |j: usize| char::from_u32(0x4e00 + j as u32).unwrap();
        let text = |j: usize| match i as usize / nc {
            0 => format!("{}{}", c(j % n), c(j / 2)),
            _ => format!("{}+", c(j % n)),
        };
        let p: Vec<Pat> = (0..2 * n).map(|j| pat(&text(j))).collect();
        let p: Vec<&Pat> = p.iter().collect();
        ctx.sample(|| format!("{} patterns", p.len()));
        for j in [0, 1, n / 2, n - 2, n - 1] {
            let t: String = (0..n).map(|k| c((j + k) % n)).collect();
            let u = format!("{}{}{}{}", c(j), c(j / 2), c(j), c(n));
            for s in [t, u] {
                let w: Vec<char> = s.chars().collect();
                judge(ctx, &p, &w, &s);
                if ctx.failed() {
                    return;
                }
            }
        }
    }));
    // positions and counts of tokens beyond 8 and 16 bits
    let huge: Vec<usize> = if thorough { vec![255, 256, 257, 65535, 65536, 65537, 140_000] } else { vec![255, 256, 257, 66_000] };
    d.push(domain(
        format!("texts of up to {} characters in one token and in as many", huge[huge.len() - 1]),
        huge.len() * 3,
        1,
        move |i, ctx| {
            let n = huge[i as usize % huge.len()];
            let (p, unit, end) = match i as usize / huge.len() {
                0 => (pats(&["a", "b"]), "a", "b"),
                1 => (pats(&["é", "ab", "b"]), "éab", "bb"),
                _ => (pats(&["a", "b+"]), "ba", "bb"),
            };
            let p: Vec<&Pat> = p.iter().collect();
            let mut w: Vec<char> = unit.chars().cycle().take(n / unit.chars().count() * unit.chars().count()).collect();
            w.extend(end.chars());
            let s = st(&w);
            ctx.sample(|| format!("{} characters", w.len()));
            judge(ctx, &p, &w, &s);
        },
    ));
    // long texts
    let long = if thorough { 3000 } else { 600 };
    d.push(domain(
        format!("texts of up to {} tokens", long),
        4 * long / 10,
        4,
        move |i, ctx| {
            let n = (i as usize / 4 + 1) * 10;
            let (p, unit): (Vec<Pat>, &str) = match i % 4 {
                0 => (pats(&["a", "ab", "b"]), "aab"),
                1 => (pats(&["[a-z]+", " ", "é"]), "xy z éé"),
                2 => (pats(&["ab", "abcde", "c", "d"]), "abcdabcde"),
                _ => (pats(&["\\d+(\\.\\d+)?", "\\.", "🌕"]), "1.2.3🌕4."),
            };
            let p: Vec<&Pat> = p.iter().collect();
            let mut w: Vec<char> = unit.chars().cycle().take(n).collect();
            let s = st(&w);
            judge(ctx, &p, &w, &s);
            w.push('#');
            w.extend(unit.chars());
            let s = st(&w);
            judge(ctx, &p, &w, &s);
        },
    ));
    d
}

/// Patterns, text and its tokens (kind and length), built to measure: matches
/// and lookahead of `n` characters.
fn measured(k: usize, n: usize) -> Option<(Vec<&'static str>, String, Vec<(usize, usize)>)> {
    let r = |s: &str, n: usize| s.repeat(n);
    let run = |t: (usize, usize), n: usize| vec![t; n];
    Some(match k {
        0 => (vec!["[^;]+", ";"], r("a", n) + ";", vec![(0, n), (1, 1)]),
        1 => (vec!["é+", "é+x"], r("é", n) + "x", vec![(1, n + 1)]),
        2 => (vec!["é+", "é+x", "y"], r("é", n) + "y", vec![(0, n), (2, 1)]),
        // a longer match that is found late, or not
        3 => (vec!["a", "b", "c", "ab*c"], format!("a{}cab", r("b", n)), vec![(3, n + 2), (0, 1), (1, 1)]),
        4 => (
            vec!["a", "b", "c", "ab*c"],
            format!("a{}d", r("b", n)),
            [run((0, 1), 1), run((1, 1), n)].concat(),
        ),
        5 => (
            vec!["a", "b", "c", "ab*c"],
            format!("a{}", r("b", n)),
            [run((0, 1), 1), run((1, 1), n)].concat(),
        ),
        6 => (vec!["\"[^\"]*\"", "\""], format!("\"{}", r("🌕", n)), vec![(1, 1)]),
        7 => (vec!["\"[^\"]*\"", "\"", "x"], format!("x\"{}\"x", r("🌕", n)), vec![(2, 1), (0, n + 2), (2, 1)]),
        // accepted again only after n more characters
        8 if n < 700 => (
            vec!["(ab*c)+", "b", "."],
            format!("{}ab", r(&format!("a{}c", r("b", n)), 3)),
            vec![(0, 3 * (n + 2)), (2, 1), (1, 1)],
        ),
        // given back again and again
        9 if n < 700 => (vec!["ab", "(ab)*c"], r("ab", n), run((0, 2), n)),
        10 if n < 700 => (vec!["ab", "(ab)*c"], r("ab", n) + "c", vec![(1, 2 * n + 1)]),
        11 if n < 700 => (vec![".", "x*y"], r("x", n), run((0, 1), n)),
        _ => return None,
    })
}

const MEASURED: usize = 12;

fn lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if thorough { 1100 } else { 300 }).collect();
    v.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 65538]);
    if thorough {
        v.extend([131_071, 131_072, 131_073, 1_048_577]);
    }
    v
}

/// One domain of all measured texts.
fn measures(thorough: bool, judge: fn(&mut Ctx, &str, &[&str], &str, &[(usize, usize)])) -> Domain {
    let sizes = lengths(thorough);
    domain(
        format!("matches and lookahead of each of {} lengths up to {}, {} kinds of text", sizes.len(), sizes[sizes.len() - 1], MEASURED),
        sizes.len() * MEASURED,
        4,
        move |i, ctx| {
            let n = sizes[i as usize / MEASURED];
            if let Some((p, s, want)) = measured(i as usize % MEASURED, n) {
                let name = format!("patterns {:?} on a text of kind {} and length {}: {}", p, i as usize % MEASURED, n, cut(&s));
                ctx.sample(|| name.clone());
                ctx.about(|| name.clone());
                ctx.states += 1;
                ctx.transitions += s.chars().count() as u64;
                ctx.traces += 1;
                judge(ctx, &name, &p, &s, &want);
            }
        },
    )
}

fn cut(s: &str) -> String {
    match s.char_indices().nth(60) {
        Some((i, _)) => format!("{:?}...", &s[..i]),
        None => format!("{:?}", s),
    }
}

/// The text cut into the wanted pieces: kind, text, start, end.
fn pieces<'a>(s: &'a str, want: &[(usize, usize)]) -> Vec<(usize, &'a str, usize, usize)> {
    let mut rest = s;
    let mut at = 0;
    want.iter()
        .map(|(k, n)| {
            let cut = rest.char_indices().nth(*n).map_or(rest.len(), |x| x.0);
            let (a, b) = rest.split_at(cut);
            rest = b;
            at += n;
            (*k, a, at - n, at)
        })
        .collect()
}

/// Compares with the wanted pieces and says where they part.
fn measure(ctx: &mut Ctx, name: &str, p: &[&str], s: &str, want: &[(usize, usize)], positions: bool) {
    let want = pieces(s, want);
    match all(p, s, 2) {
        Err(m) => ctx.fail(name, "tokens", m),
        Ok((v, late)) => {
            for i in 0..v.len().max(want.len()) {
                let ok = match (v.get(i), want.get(i)) {
                    (Some(t), Some(w)) if positions => t.source == w.1 && t.pos == (w.2, w.3),
                    (Some(t), Some(w)) => t.source == w.1 && t.kind == w.0,
                    _ => false,
                };
                if !ok {
                    ctx.fail(
                        name,
                        match want.get(i) {
                            Some(w) => format!("token {}: #{} {} {}..{}", i, w.0, cut(w.1), w.2, w.3),
                            None => "the end".into(),
                        },
                        match v.get(i) {
                            Some(t) => format!("#{} {} {}..{}", t.kind, cut(&t.source), t.pos.0, t.pos.1),
                            None => "the end".into(),
                        },
                    );
                    return;
                }
            }
            ctx.hist("as measured");
            if positions && !late.is_empty() {
                ctx.fail(name, "the end stays the end", "a token after it");
            }
        }
    }
}

fn measure_munch(ctx: &mut Ctx, name: &str, p: &[&str], s: &str, want: &[(usize, usize)]) {
    measure(ctx, name, p, s, want, false)
}

/// Only what C06 says: whatever the tokens are, they tile the text.
fn measure_tile(ctx: &mut Ctx, name: &str, p: &[&str], s: &str, _: &[(usize, usize)]) {
    let mut want = Vec::new();
    match all(p, s, 0) {
        Err(m) => {
            ctx.fail(name, "tokens", m);
            return;
        }
        Ok((v, _)) => {
            let mut left = s.chars().count();
            for t in v {
                let n = t.source.chars().count();
                if n == 0 || n > left {
                    ctx.fail(name, "tokens that are not empty and lie in the text", format!("{} of {} characters", cut(&t.source), n));
                    return;
                }
                left -= n;
                want.push((t.kind, n));
            }
        }
    }
    measure(ctx, name, p, s, &want, true)
}

pub fn c05(thorough: bool) -> Check {
    let mut domains = stream_domains(munch, thorough);
    domains.push(measures(thorough, measure_munch));
    Check {
        id: "C05",
        domains,
        assumptions: vec![
            "reference splitting by the denotation of each pattern (mc/src/re.rs)".into(),
            "matches longer than 250 characters only in texts built to measure, whose tokens are known beforehand".into(),
        ],
    }
}

pub fn c06(thorough: bool) -> Check {
    let mut domains = stream_domains(tile, thorough);
    domains.push(measures(thorough, measure_tile));
    Check {
        id: "C06",
        domains,
        assumptions: vec!["the oracle is the input text itself; which token is right is C05".into()],
    }
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Unit(usize),
    Func(usize),
    /// Slot, hash and length of the text the mapping was applied to.
    Map(usize, u64, usize),
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

thread_local! {
    static CALLS: RefCell<Vec<(usize, String)>> = const { RefCell::new(Vec::new()) };
    static MADE: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

fn make<const N: usize>() -> Kind {
    MADE.with(|m| m.borrow_mut().push(N));
    Kind::Func(N)
}

fn map<const N: usize>(s: &str) -> Kind {
    CALLS.with(|c| c.borrow_mut().push((N, s.to_string())));
    Kind::Map(N, hash(s), s.chars().count())
}

const FUNCS: [fn() -> Kind; 8] = [make::<0>, make::<1>, make::<2>, make::<3>, make::<4>, make::<5>, make::<6>, make::<7>];
const MAPS: [fn(&str) -> Kind; 8] = [map::<0>, map::<1>, map::<2>, map::<3>, map::<4>, map::<5>, map::<6>, map::<7>];

/// How each slot is registered: 0 a value, 1 a function, 2 a mapping.
fn kinds(ctx: &mut Ctx, pats: &[&Pat], how: &[usize], text: &[char], input: &str) {
    let case = || format!("{} registered as {:?}", describe(pats, input), how);
    ctx.about(case);
    ctx.states += 1;
    ctx.transitions += text.len() as u64;
    ctx.traces += 1;
    CALLS.with(|c| c.borrow_mut().clear());
    let got = guard(|| {
        let mut b = Lexer::builder();
        for (i, p) in pats.iter().enumerate() {
            b = match how[i] {
                0 => b.with_token_unit(&p.text, Kind::Unit(i)),
                1 => b.with_token(&p.text, FUNCS[i]),
                _ => b.with_token_map(&p.text, MAPS[i]),
            }
            .map_err(|e| format!("pattern {:?} refused: {}", p.text, e))?;
        }
        Ok::<_, String>(
            b.tokenize(input)
                .take(input.len() + 2)
                .map(|t| (t.kind, t.source))
                .collect::<Vec<_>>(),
        )
    });
    let got = match got.and_then(|r| r) {
        Ok(v) => v,
        Err(m) => {
            ctx.fail(case(), "tokens", m);
            return;
        }
    };
    // the kind belongs to the text of the token, whatever that text is (C05)
    let mut at = 0;
    for (kind, source) in &got {
        let w: Vec<char> = source.chars().collect();
        let slot = pats.iter().position(|p| p.re.matches(&w));
        let want = slot.map(|i| match how[i] {
            0 => Kind::Unit(i),
            1 => Kind::Func(i),
            _ => Kind::Map(i, hash(source), w.len()),
        });
        ctx.hist(match kind {
            Kind::Unit(_) => "value",
            Kind::Func(_) => "function",
            Kind::Map(..) => "mapping",
        });
        if want != Some(*kind) {
            ctx.fail(
                case(),
                format!("token {:?} at {} of kind {:?}", source, at, want),
                format!("{:?}", kind),
            );
            return;
        }
        at += w.len();
    }
    let wrong = CALLS.with(|c| {
        c.borrow()
            .iter()
            .find(|(i, s)| {
                let w: Vec<char> = s.chars().collect();
                !pats.get(*i).is_some_and(|p| p.re.matches(&w))
            })
            .cloned()
    });
    if let Some((i, s)) = wrong {
        ctx.fail(
            case(),
            "mappings applied only to text their own pattern matches",
            format!("mapping {} applied to {:?}", i, s),
        );
    }
}

/// Mappings of long texts. Tokens that are not the measured ones are C05's.
fn measure_kinds(ctx: &mut Ctx, name: &str, p: &[&str], s: &str, want: &[(usize, usize)]) {
    let got = guard(|| {
        let mut b = Lexer::builder();
        for (i, t) in p.iter().enumerate() {
            b = b.with_token_map(t, SHORT[i]).map_err(|e| e.to_string())?;
        }
        Ok::<_, String>(b.tokenize(s).take(s.len() + 2).map(|t| (t.kind, t.source)).collect::<Vec<_>>())
    });
    match got.and_then(|r| r) {
        Err(m) => ctx.fail(name, "tokens", m),
        Ok(v) => {
            for ((kind, source), (k, text, _, _)) in v.iter().zip(pieces(s, want)) {
                if source != text {
                    ctx.hist("other tokens than measured");
                    return;
                }
                let w = brief(k, text);
                if *kind != w {
                    ctx.fail(name, format!("{} of kind {:?}", cut(source), w), format!("{:?}", kind));
                    return;
                }
            }
            ctx.hist("as measured");
        }
    }
}

/// Slot, both ends and length of a text: a mapping is applied to every accepted
/// prefix, so it has to be cheap.
fn brief(slot: usize, s: &str) -> Kind {
    let b = s.as_bytes();
    let ends = b.iter().take(9).chain(b.iter().rev().take(9)).fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    Kind::Map(slot, ends, s.len())
}

fn short<const N: usize>(s: &str) -> Kind {
    brief(N, s)
}

const SHORT: [fn(&str) -> Kind; 4] = [short::<0>, short::<1>, short::<2>, short::<3>];

pub fn c07(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let pool = pats(&["a", "[ab]", "ab", "a+", "(a|b)*c", "b", ".", "a?b?", "abc"]);
    for (n, len) in [(1usize, 6), (2, 5), (3, if thorough { 5 } else { 4 })] {
        let k = pool.len();
        let pool = pool.clone();
        let tx = texts("abc", len);
        let hows = 3usize.pow(n as u32);
        domains.push(domain(
            format!("ordered lists of {} of {} patterns, every way of registering them; {} texts", n, k, tx.len()),
            k.pow(n as u32) * hows,
            8,
            move |i, ctx| {
                let mut i = i as usize;
                let mut h = i % hows;
                i /= hows;
                let mut v = Vec::new();
                let mut how = Vec::new();
                for _ in 0..n {
                    v.push(&pool[i % k]);
                    i /= k;
                    how.push(h % 3);
                    h /= 3;
                }
                ctx.sample(|| format!("{} registered as {:?}", describe(&v, "..."), how));
                for (t, s) in tx.iter() {
                    kinds(ctx, &v, &how, t, s);
                    if ctx.failed() {
                        return;
                    }
                }
            },
        ));
    }
    // the same pattern several times: only the first registration counts
    let dup = pats(&["a", "é+", "[a-c]+", "\\d"]);
    let tx = texts("aé1", 5);
    domains.push(domain(
        "eight slots, each pattern twice in every rotation, every registration of the slots in use",
        8 * 81,
        4,
        move |i, ctx| {
            let r = i as usize % 8;
            let mut h = i as usize / 8;
            let base = [0, 1, 2, 3, 0, 1, 2, 3];
            let mut how = vec![2; 8];
            let mut v = Vec::new();
            for j in 0..8 {
                let b = base[(j + r) % 8];
                v.push(&dup[b]);
                if j < 4 {
                    how[j] = h % 3;
                    h /= 3;
                } else {
                    how[j] = (how[j - 4] + 1) % 3;
                }
            }
            ctx.sample(|| format!("{} registered as {:?}", describe(&v, "..."), how));
            for (t, s) in tx.iter() {
                kinds(ctx, &v, &how, t, s);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    // every character in mapped text
    let any = pats(&["[^;]+", ";."]);
    domain_of_scalars(&mut domains, "every scalar value in mapped text, 3 texts", move |c, ctx| {
        let p: Vec<&Pat> = any.iter().collect();
        for s in [format!("{}a", c), format!("a{}{}", c, c), format!(";{}{}", c, c)] {
            let t: Vec<char> = s.chars().collect();
            kinds(ctx, &p, &[2, 2], &t, &s);
        }
    });
    let any = pats(&["[^;]+", ";..", ";"]);
    let odd = odd_chars();
    let k = odd.len();
    domains.push(domain(format!("every pair of {} peculiar characters in mapped text, 3 texts", k), k * k, 64, move |i, ctx| {
        let (x, y) = (odd[i as usize % k], odd[i as usize / k]);
        let p: Vec<&Pat> = any.iter().collect();
        for s in [format!("{}{}", x, y), format!("a{}{}b", x, y), format!(";{}{}", x, y)] {
            let t: Vec<char> = s.chars().collect();
            kinds(ctx, &p, &[2, 2, 2], &t, &s);
        }
    }));
    // mappings on longer texts and lookahead
    let lang = pats(&["\\d+", "\\d+\\.\\d+", "[\\w]+", "\"[^\"]*\"", "\\s", "if", "\\.", "e\\d+e"]);
    let mut t = language_texts();
    t.retain(|s| s.len() < 14);
    let t: Vec<(Vec<char>, String)> = t.into_iter().map(|s| (s.chars().collect(), s)).collect();
    domains.push(domain(
        format!("a programming language's tokens in 8 orders, mapped; {} texts", t.len()),
        8 * 4,
        1,
        move |i, ctx| {
            let r = i as usize % 8;
            let mut v: Vec<&Pat> = lang.iter().collect();
            v.rotate_left(r);
            let how: Vec<usize> = (0..8)
                .map(|j| match i as usize / 8 {
                    0 => 2,
                    m => (j + m) % 3,
                })
                .collect();
            ctx.sample(|| format!("{} registered as {:?}", describe(&v, "..."), how));
            for (t, s) in &t {
                kinds(ctx, &v, &how, t, s);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));
    domains.push(measures(thorough, measure_kinds));
    // more patterns than fit into 6, 7 and 8 bits
    let counts: Vec<usize> = if thorough { (9..=300).collect() } else { (9..=33).chain([63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300]).collect() };
    let nc = counts.len();
    domains.push(domain(
        format!("{} numbers of patterns up to {}, values and mappings in turn, each text of its own", nc, counts[nc - 1]),
        nc * 2,
        1,
        move |i, ctx| {
            let n = counts[i as usize / 2];
            let c = |j: usize| char::from_u32(0x4e00 + j as u32).unwrap();
            let mapped = |j: usize| j % 2 == i as usize % 2;
            ctx.sample(|| format!("{} patterns", n));
            ctx.about(|| format!("{} patterns", n));
            // the second half repeats the first
            let texts: Vec<String> = (0..n).map(|j| c(j).to_string().repeat(1 + j % 3)).collect();
            let s: String = (0..n).rev().flat_map(|j| [texts[j].as_str(), ";"]).collect();
            let got = guard(|| {
                let mut b = Lexer::builder();
                for j in 0..2 * n {
                    let p = format!("{}{{{}}}", c(j % n), 1 + j % n % 3);
                    b = if mapped(j) { b.with_token_map(&p, short::<0>) } else { b.with_token_unit(&p, Kind::Unit(j)) }.map_err(|e| e.to_string())?;
                }
                b = b.with_token_unit(";", Kind::Func(0)).map_err(|e| e.to_string())?;
                Ok::<_, String>(b.tokenize(&s).take(s.len() + 2).map(|t| (t.kind, t.source)).collect::<Vec<_>>())
            });
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += s.len() as u64;
            match got.and_then(|r| r) {
                Err(m) => ctx.fail(format!("{} patterns", n), "tokens", m),
                Ok(v) => {
                    for (kind, source) in v {
                        // texts of a token that no pattern has are C05's
                        let want = match texts.iter().position(|t| *t == source) {
                            None => continue,
                            Some(j) if mapped(j) => brief(0, &source),
                            Some(j) => Kind::Unit(j),
                        };
                        ctx.hist("one of many");
                        if kind != want {
                            return ctx.fail(format!("{} patterns twice, token {:?}", n, source), format!("{:?}", want), format!("{:?}", kind));
                        }
                    }
                }
            }
        },
    ));
    Check {
        id: "C07",
        domains,
        assumptions: vec![
            "which text a token has is C05; here the kind is judged for that text".into(),
            "a mapping may be applied more than once to text its own pattern matches".into(),
        ],
    }
}

// ---------------------------------------------------------------- C08

/// Work of tokenizing a text: allocations, or the reason it failed.
fn work(patterns: &[&str], input: &str) -> Result<u64, String> {
    guard(|| {
        let mut b = Lexer::builder();
        for (i, p) in patterns.iter().enumerate() {
            b = b
                .with_token_unit(p, i)
                .map_err(|e| format!("pattern {:?} refused: {}", p, e.to_string().trim()))?;
        }
        let cap = input.chars().count() + 1;
        let mut l = b.tokenize(input);
        let from = alloc::count();
        let mut n = 0;
        while let Some(_t) = l.next() {
            n += 1;
            if n > cap {
                return Err("more tokens than characters".to_string());
            }
        }
        Ok(alloc::count() - from)
    })?
}

/// Doubling the text may multiply the work by at most this (degree 6).
const GROWTH: u64 = 64;

fn growth(ctx: &mut Ctx, patterns: &[&str], n: usize, deep: bool) {
    let fam: [fn(usize) -> String; 5] = [
        |n| "a".repeat(n),
        |n| "ab".repeat(n / 2),
        |n| "a".repeat(n - 1) + "b",
        |n| "aab".repeat(n / 3 + 1).chars().take(n).collect(),
        |n| "a".repeat(n / 2) + &"b".repeat(n / 2),
    ];
    for f in fam {
        // each size only if the one before was within bounds
        let sizes: &[usize] = if deep { &[1, 2, 4, 8] } else { &[1, 2, 4] };
        let mut before: Option<(String, u64)> = None;
        for k in sizes {
            let t = f(n * k / 2);
            ctx.about(|| format!("patterns {:?} on {:?}", patterns, t));
            ctx.states += 1;
            ctx.transitions += t.chars().count() as u64;
            ctx.traces += 1;
            let b = match work(patterns, &t) {
                Ok(b) => b,
                Err(m) => {
                    ctx.fail(format!("patterns {:?} on {:?}", patterns, t), "tokens", m);
                    return;
                }
            };
            if let Some((s, a)) = before {
                let ratio = b / (a + 20);
                ctx.hist(match ratio {
                    0..=1 => "doubling the text: work at most x2",
                    2..=4 => "doubling the text: work x2 to x5",
                    5..=8 => "doubling the text: work x5 to x9",
                    9..=16 => "doubling the text: work x9 to x17",
                    _ => "doubling the text: work above x17",
                });
                if ratio > GROWTH {
                    ctx.fail(
                        format!("patterns {:?} on {:?} and {:?}", patterns, s, t),
                        format!("at most {} times the work for twice the text", GROWTH),
                        format!("work {} and {}", a, b),
                    );
                    return;
                }
            }
            before = Some((t, b));
        }
    }
}

pub fn c08(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let (a, b) = (lit('a'), lit('b'));
    let q = quants(&["*", "+", "?", "{0}", "{2}", "{0,}", "{2,}", "{0,2}", "{1,2}"]);
    let n = if thorough { 5 } else { 4 };
    let by = expressions(n, &[a.clone(), b.clone()], &q);
    let list: Vec<String> = by.into_iter().skip(1).flatten().map(|e| e.show()).collect();
    domains.push(domain(
        format!("expressions up to {} nodes over {{a,b}}, 9 quantifiers; 5 text families of 6, 12 and 24 characters", n),
        list.len(),
        8,
        move |i, ctx| {
            ctx.sample(|| format!("{:?}", list[i as usize]));
            growth(ctx, &[&list[i as usize]], 12, false)
        },
    ));
    let q = quants(&["*", "+", "{2}", "{0,2}"]);
    let by = expressions(if thorough { 6 } else { 5 }, &[a.clone(), b.clone()], &q);
    let list: Vec<String> = by.into_iter().next_back().unwrap().into_iter().map(|e| e.show()).collect();
    domains.push(domain(
        format!("expressions with {} nodes over {{a,b}}, 4 quantifiers; 5 text families of 6, 12 and 24 characters", if thorough { 6 } else { 5 }),
        list.len(),
        8,
        move |i, ctx| {
            ctx.sample(|| format!("{:?}", list[i as usize]));
            growth(ctx, &[&list[i as usize]], 12, false)
        },
    ));
    // towers
    let bases = ["a", "a|b", "a|a", "a|aa", "a?", "a*b?", "a?a?", "(a|b)(a|b)"];
    let towers: [(u32, &'static [&'static str]); 2] = [
        (3, &["*", "+", "?", "{0,2}", "{2}", "{2,}", "{0,3}", "{1,2}", "{3,9}"]),
        (
            if thorough { 5 } else { 4 },
            if thorough { &["*", "+", "?", "{2}", "{2,}", "{0,2}"] } else { &["*", "+", "{2}", "{0,2}"] },
        ),
    ];
    for (depth, qs) in towers {
        domains.push(domain(
            format!(
                "{} nested quantifiers of {} on {} bases; 5 text families of 7, 14 and 28 characters",
                depth,
                qs.len(),
                bases.len()
            ),
            qs.len().pow(depth) * bases.len(),
            8,
            move |i, ctx| {
                let mut i = i as usize;
                let mut p = format!("({})", bases[i % bases.len()]);
                i /= bases.len();
                for _ in 0..depth {
                    p = format!("({}{})", p, qs[i % qs.len()]);
                    i /= qs.len();
                }
                ctx.sample(|| format!("{:?}", p));
                growth(ctx, &[&p], 14, false)
            },
        ));
    }
    // classical traps, with the size of the pattern growing
    let max = if thorough { 60 } else { 24 };
    let traps: Vec<(&str, fn(usize) -> Vec<String>)> = vec![
        ("(a*)^n nested", |n| vec![(0..n).fold("a".to_string(), |p, _| format!("({})*", p))]),
        // writing out a+ as aa* is allowed and doubles the automaton with every level
        ("(a+)^n nested", |n| vec![(0..n.min(8)).fold("a".to_string(), |p, _| format!("({})+", p))]),
        ("(a?)^n nested", |n| vec![(0..n).fold("a".to_string(), |p, _| format!("({})?", p))]),
        ("a?^n a^n", |n| vec!["a?".repeat(n) + &"a".repeat(n)]),
        ("(a|a)^n", |n| vec!["(a|a)".repeat(n)]),
        ("(a|aa)*n", |n| vec!["(a|aa)*".repeat(n)]),
        ("(a|a|...)*", |n| vec![format!("({})*", vec!["a"; n].join("|"))]),
        ("(a|(a|(...)*)*)*", |n| vec![(0..n).fold("a".to_string(), |p, _| format!("(a|{})*", p))]),
        ("(a(a(...)?)?)?", |n| vec![(0..n).fold("a".to_string(), |p, _| format!("(a{})?", p))]),
        ("n times a*", |n| vec!["a*".repeat(n)]),
        ("(a*){n}", |n| vec![format!("(a*){{{}}}", n)]),
        ("(a?){n}b", |n| vec![format!("(a?){{{}}}b", n)]),
        ("(a{0,n})*", |n| vec![format!("(a{{0,{}}})*", n)]),
        ("n patterns a{i}", |n| (0..n.max(1)).map(|i| format!("a{{{}}}b?", i + 1)).collect()),
        ("n equal patterns", |n| vec!["(a|b)*a(a|b)*".to_string(); n.max(1)]),
        ("never-matching tail", |n| vec!["a".into(), format!("(a|b)*(a|b)*{}#", "a?".repeat(n))]),
        ("(a|b)*a(a|b){n}", |n| vec![format!("(a|b)*a{}", "(a|b)".repeat(n.min(12)))]),
    ];
    let nt = traps.len();
    domains.push(domain(
        format!("{} classical traps of size 1 to {}; 5 text families of 5, 10, 20 and 40 characters", nt, max),
        nt * max,
        1,
        move |i, ctx| {
            let (name, f) = &traps[i as usize % nt];
            let p = f(i as usize / nt + 1);
            let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            ctx.sample(|| format!("{}: {:?}", name, p.iter().take(2).collect::<Vec<_>>()));
            growth(ctx, &p, 10, true)
        },
    ));
    // pairs of patterns: unfinished candidates
    let pool = ["a", "a*", "(a|b)*", "(a*)*c", "(a|ab)*c", "b+", "(a?b?)*c", "[ab]", "(a*b*)*", "(ab)*c", "a{2,}", "(a{2}){2,}"];
    let k = pool.len();
    domains.push(domain(
        format!("ordered lists of 3 of {} patterns; 5 text families of 8, 16 and 32 characters", k),
        k * k * k,
        8,
        move |i, ctx| {
            let i = i as usize;
            let p = [pool[i % k], pool[i / k % k], pool[i / k / k]];
            ctx.sample(|| format!("{:?}", p));
            growth(ctx, &p, 16, false)
        },
    ));
    // long texts
    let sizes: Vec<usize> = if thorough { vec![250, 1000, 4000, 16000] } else { vec![250, 1000, 4000] };
    let few = ["a", "a*", "(a|b)*", "(a*b?)*", "([ab]{2})*", "(a|ab)+", "a{3,7}", ".*", "(a*)*b", "(.|a)*"];
    let nf = few.len();
    domains.push(domain(
        format!("{} patterns on texts of half, once and twice {:?} characters", nf, sizes),
        nf * sizes.len(),
        1,
        move |i, ctx| {
            let i = i as usize;
            ctx.sample(|| format!("{:?}", few[i % nf]));
            growth(ctx, &[few[i % nf]], sizes[i / nf], false)
        },
    ));
    Check {
        id: "C08",
        domains,
        assumptions: vec![
            "work is counted in allocations of the tokenizing thread".into(),
            format!("polynomial means: at most {} times the work for twice the text", GROWTH),
            "a case that makes no progress for 30 s of processor time and again not within 60 s alone is reported as not terminating".into(),
        ],
    }
}
