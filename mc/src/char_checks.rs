//! Character constructs (C02).

use std::sync::Arc;

use crate::engine::*;
use crate::lex_checks::st;
use crate::lexdrv::*;
use crate::re::*;

pub fn scalar(i: u64) -> char {
    // all Unicode scalar values in order
    let c = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(c as u32).expect("scalar value")
}
pub const SCALARS: u64 = 0x110000 - 0x800;

/// One construct against many characters: the construct is the first pattern,
/// `.` the second, and every character has to become a token of its own.
fn classify(ctx: &mut Ctx, pattern: &str, has: &dyn Fn(char) -> bool, chars: &[char]) {
    let input: String = chars.iter().collect();
    ctx.about(|| format!("pattern {:?} on {:?}", pattern, input));
    ctx.states += chars.len() as u64;
    ctx.transitions += chars.len() as u64;
    ctx.traces += 1;
    match all(&[pattern, "."], &input, 0) {
        Ok((toks, _)) => {
            let mut members = 0;
            for (i, c) in chars.iter().enumerate() {
                let want = if has(*c) { 0 } else { 1 };
                members += 1 - want;
                let bad = match toks.get(i) {
                    Some(t) => t.kind != want || t.source.chars().ne(std::iter::once(*c)),
                    None => true,
                };
                if bad {
                    ctx.fail(
                        format!("pattern {:?} on character U+{:04X}", pattern, *c as u32),
                        if want == 0 { "member" } else { "not a member" },
                        match toks.get(i) {
                            Some(t) if t.source.chars().ne(std::iter::once(*c)) => {
                                format!("token {:?}", t.source)
                            }
                            Some(t) if t.kind == 0 => "matched by the construct".into(),
                            Some(_) => "not matched by the construct".to_string(),
                            None => "neither the construct nor '.' matches it".into(),
                        },
                    );
                    return;
                }
            }
            *ctx.hist.entry("member".into()).or_default() += members as u64;
            *ctx.hist.entry("not a member".into()).or_default() += chars.len() as u64 - members as u64;
        }
        Err(m) => ctx.fail(
            format!("pattern {:?}", pattern),
            "an accepted construct",
            m,
        ),
    }
}

/// Characters that a careless conversion could confuse with `c`.
pub fn confusable(c: char) -> Vec<char> {
    let n = c as u32;
    let mut v = vec![c];
    let mut add = |m: u32| {
        if let Some(x) = char::from_u32(m) {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    };
    add(n.wrapping_add(1));
    add(n.wrapping_sub(1));
    add(n ^ 0x20);
    add(n & 0x7f);
    add(n & 0xff);
    add(n & 0xffff);
    add(n ^ 0x100);
    add(n ^ 0x1000);
    add(n ^ 0x10000);
    add(n >> 4);
    add(n << 4);
    for l in c.to_lowercase().chain(c.to_uppercase()) {
        add(l as u32);
    }
    v
}

fn latin() -> Vec<char> {
    let mut v: Vec<char> = (0..0x300u32).filter_map(char::from_u32).collect();
    for c in ['\u{2028}', '\u{3000}', '\u{FEFF}', '\u{FFFD}', '\u{FFFF}', '\u{10000}', '🌕', '\u{10FFFF}', '٣', 'ж', '日', '\u{D7FF}', '\u{E000}'] {
        v.push(c);
    }
    v
}

pub fn c02(thorough: bool) -> Check {
    let mut domains = Vec::new();

    // ---- sets of characters against every Unicode scalar value
    let mut patterns: Vec<String> = Vec::new();
    for c in [".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S"] {
        patterns.push(c.to_string());
        patterns.push(format!("[{}]", c));
        patterns.push(format!("[^{}]", c));
    }
    for p in [
        "[a-z]", "[^a-z]", "[à-ÿ]", "[\\x00-\\uFFFF]", "[\\u{10000}-\\u{10FFFF}]", "[z-a]",
        "[^z-a]", "[\\d\\s]", "[^\\w\\d]", "[\\W\\w]", "[\\u{0000}-\\u{10FFFF}]",
        "[^\\u{D7FF}-\\u{E000}]", "[\\D\\d]", "[^\\Sa]",
    ] {
        patterns.push(p.to_string());
    }
    let chunk = 4096u64;
    let chunks = SCALARS.div_ceil(chunk);
    let np = patterns.len() as u64;
    let sets: Arc<Vec<(String, Re)>> = Arc::new(
        patterns
            .into_iter()
            .map(|p| match read(&p) {
                Read::Valid(r) => (p, r),
                o => panic!("{} {:?}", p, o),
            })
            .collect(),
    );
    {
        let sets = sets.clone();
        domains.push(domain(
            format!("{} character sets on all {} scalar values", np, SCALARS),
            (chunks * np) as usize,
            1,
            move |i, ctx| {
                let (p, r) = &sets[(i % np) as usize];
                let from = i / np * chunk;
                let chars: Vec<char> = (from..(from + chunk).min(SCALARS)).map(scalar).collect();
                let Re::Set(s, _) = r else { unreachable!() };
                ctx.sample(|| format!("{:?} on U+{:04X}..", p, chars[0] as u32));
                classify(ctx, p, &|c| s.has(c), &chars);
            },
        ));
    }

    // ---- every scalar value as a literal and as an escape
    let per = 64u64;
    domains.push(domain(
        "every scalar value: literal, \\u{...}, \\uHHHH, \\xHH, against confusable characters",
        SCALARS.div_ceil(per) as usize,
        8,
        move |i, ctx| {
            for j in i * per..((i + 1) * per).min(SCALARS) {
                let c = scalar(j);
                let n = c as u32;
                let near = confusable(c);
                let mut forms = Vec::new();
                if !SPECIAL.contains(c) {
                    forms.push(c.to_string());
                    forms.push(format!("[{}]", c));
                }
                // alternate the case of the digits and the padding
                let w = 4 + (j % 3) as usize;
                forms.push(if j % 2 == 0 {
                    format!("\\u{{{:01$x}}}", n, w)
                } else {
                    format!("\\u{{{:01$X}}}", n, w)
                });
                if n < 0x10000 {
                    forms.push(if j % 2 == 0 {
                        format!("\\u{:04X}", n)
                    } else {
                        format!("[\\u{:04x}]", n)
                    });
                }
                if thorough {
                    forms.push(format!("[^\\u{{{:06X}}}]", n));
                    forms.push(format!("[{0}-{0}]", format!("\\u{{{:06x}}}", n)));
                }
                if n < 0x100 {
                    for f in [
                        format!("\\x{:02x}", n),
                        format!("\\x{:02X}", n),
                        format!("[\\x{:02X}]", n),
                        format!("\\u{:04x}", n),
                        format!("\\u{{{:05x}}}", n),
                        format!("\\u{{{:06X}}}", n),
                    ] {
                        forms.push(f);
                    }
                }
                for f in forms {
                    let neg = f.starts_with("[^");
                    ctx.sample(|| format!("{:?}", f));
                    classify(ctx, &f, &|x| (x == c) != neg, &near);
                    if ctx.failed() {
                        return;
                    }
                }
            }
        },
    ));

    // ---- named escapes against Latin characters
    let mut esc: Vec<(String, char)> = Vec::new();
    for (e, c) in [
        ("f", '\u{c}'),
        ("n", '\n'),
        ("r", '\r'),
        ("t", '\t'),
        ("v", '\u{b}'),
        ("0", '\0'),
    ] {
        esc.push((format!("\\{}", e), c));
    }
    for c in "^$\\.*+?()[]|/{}-".chars() {
        esc.push((format!("\\{}", c), c));
    }
    for l in ('a'..='z').chain('A'..='Z') {
        esc.push((
            format!("\\c{}", l),
            char::from_u32(l.to_ascii_uppercase() as u32 - 64).unwrap(),
        ));
    }
    for n in 0..256u32 {
        esc.push((format!("\\x{:02x}", n), char::from_u32(n).unwrap()));
    }
    let esc = Arc::new(esc);
    {
        let esc = esc.clone();
        domains.push(domain(
            format!("{} escapes, plain and bracketed, on {} characters; as values, functions, mappings and in turn", esc.len(), latin().len()),
            esc.len() * 12,
            4,
            move |i, ctx| {
                let (e, c) = &esc[i as usize % esc.len()];
                let i = i as usize / esc.len();
                registered((i / 3) as u8, || match i % 3 {
                    0 => classify(ctx, e, &|x| x == *c, &latin()),
                    1 => classify(ctx, &format!("[{}]", e), &|x| x == *c, &latin()),
                    _ => classify(ctx, &format!("[^{}]", e), &|x| x != *c, &latin()),
                });
            },
        ));
    }

    // ---- what follows an escape is not swallowed
    let mut tails: Vec<(String, char)> = Vec::new();
    for (e, c) in esc.iter() {
        if !e.starts_with("\\x") || ["\\x41", "\\x7e", "\\xff", "\\x00"].contains(&e.as_str()) {
            if !e.starts_with("\\c") || e == "\\cA" || e == "\\cz" {
                tails.push((e.clone(), *c));
            }
        }
    }
    for (e, c) in [
        ("\\u0041", 'A'),
        ("\\u27A1", '➡'),
        ("\\u{0041}", 'A'),
        ("\\u{00041}", 'A'),
        ("\\u{000041}", 'A'),
        ("\\u{1F4A1}", '💡'),
        ("\\u{01F4A1}", '💡'),
        ("\\d", '7'),
        ("\\w", 'x'),
        ("\\S", 'x'),
        (".", 'x'),
        ("[a-c]", 'b'),
        ("[\\x41]", 'A'),
    ] {
        tails.push((e.to_string(), c));
    }
    let nt = tails.len();
    domains.push(domain(
        format!("{} constructs followed and preceded by each of 160 characters", nt),
        nt * 160,
        64,
        move |i, ctx| {
            let (e, c) = &tails[i as usize % nt];
            let f = scalar(i / nt as u64);
            let Re::Set(_, ft) = lit(f) else { unreachable!() };
            let f2 = if f == 'q' { 'r' } else { 'q' };
            // text, whether it is matched as a whole
            let cases = [
                (format!("{}{}", e, ft), vec![*c, f], true),
                (format!("{}{}", e, ft), vec![*c], false),
                (format!("{}{}", e, ft), vec![*c, f2], false),
                (format!("{}{}", ft, e), vec![f, *c], true),
                (format!("{}{}", ft, e), vec![f], false),
                (format!("{}{}{}", e, ft, e), vec![*c, f, *c], true),
            ];
            for (p, text, whole) in cases {
                // '.' and classes may also match the other character
                let want = match read(&p) {
                    Read::Valid(r) => r.matches(&text),
                    o => panic!("{} {:?}", p, o),
                };
                debug_assert!(!whole || want);
                let s = st(&text);
                ctx.states += 1;
                ctx.transitions += text.len() as u64;
                ctx.traces += 1;
                ctx.about(|| format!("pattern {:?} on {:?}", p, s));
                let got = first(&p, &s);
                let is = matches!(&got, Ok(Some(t)) if t.source == s);
                ctx.hist(if want { "sequence matches" } else { "sequence does not match" });
                ctx.sample(|| format!("{:?} on {:?}", p, s));
                if is != want || got.is_err() {
                    ctx.fail(
                        format!("pattern {:?} on {:?}", p, s),
                        if want { "whole text matches" } else { "whole text does not match" },
                        format!("{:?}", got.map(|t| t.map(|t| t.source))),
                    );
                    return;
                }
            }
        },
    ));

    // ---- pairs of characters that programs tend to treat specially
    let odd = odd_chars();
    let ko = odd.len();
    domains.push(domain(
        format!("every pair of {} peculiar characters, as a sequence and in brackets", ko),
        ko * ko,
        64,
        move |i, ctx| {
            let (x, y) = (odd[i as usize % ko], odd[i as usize / ko]);
            let (Re::Set(_, tx), Re::Set(_, ty)) = (lit(x), lit(y)) else { unreachable!() };
            let p = format!("{}{}", tx, ty);
            for (s, want) in [(format!("{}{}", x, y), true), (format!("{}{}", y, x), x == y), (x.to_string(), false)] {
                ctx.states += 1;
                ctx.transitions += 2;
                ctx.traces += 1;
                ctx.about(|| format!("pattern {:?} on {:?}", p, s));
                ctx.hist(if want { "sequence matches" } else { "sequence does not match" });
                let got = first(&p, &s);
                if got.is_err() || want != matches!(&got, Ok(Some(t)) if t.source == s) {
                    return ctx.fail(
                        format!("pattern {:?} on {:?}", p, s),
                        if want { "whole text matches" } else { "whole text does not match" },
                        format!("{:?}", got.map(|t| t.map(|t| t.source))),
                    );
                }
            }
            let esc = |c: char| format!("\\u{{{:06x}}}", c as u32);
            ctx.sample(|| format!("{:?} {:?}", x, y));
            classify(ctx, &format!("[{}{}]", esc(x), esc(y)), &|c| c == x || c == y, &[x, y, 'a', '\u{301}', '\n']);
        },
    ));

    // ---- bracket groups
    let pool: Vec<&str> = vec![
        "a", "z", "A", "0", "é", "}", ",", "$", "a-c", "c-a", "b-b", "0-9", "é-ü", "\\d", "\\w",
        "\\s", "\\D", "\\W", "\\S", ".", "\\-", "\\]", "\\^", "\\n", "\\x41", "\\u00e9",
        "\\x30-\\x39", "\\u{1F300}-\\u{1F5FF}", "\\[-\\]", " ", "🌕", "A-Za-z", "+---/"[..0].into(),
    ];
    let pool: Vec<&str> = pool.into_iter().filter(|s| !s.is_empty()).collect();
    let k = pool.len();
    let pool: Vec<String> = pool.into_iter().map(|s| s.to_string()).collect();
    let total = k + k * k + k * k * k;
    let mut probe: Vec<char> = (0..0x100u32).filter_map(char::from_u32).collect();
    probe.extend(['🌕', '\u{1F2FF}', '\u{1F600}', '٣', 'ж', '\u{2003}']);
    domains.push(domain(
        format!("bracket groups of up to 3 of {} members, plain and negated, on {} characters", k, probe.len()),
        total * 2,
        32,
        move |i, ctx| {
            let neg = i % 2 == 1;
            let mut j = (i / 2) as usize;
            let mut v = Vec::new();
            let n = if j < k {
                1
            } else if j < k + k * k {
                j -= k;
                2
            } else {
                j -= k + k * k;
                3
            };
            for _ in 0..n {
                v.push(pool[j % k].as_str());
                j /= k;
            }
            let p = format!("[{}{}]", if neg { "^" } else { "" }, v.concat());
            let Read::Valid(Re::Set(s, _)) = read(&p) else {
                panic!("{}", p)
            };
            ctx.sample(|| format!("{:?}", p));
            // groups of three: only the characters that can tell members apart
            if n == 3 && !thorough {
                let few: Vec<char> = probe.iter().copied().step_by(3).chain("azAbBcdé09}- ,$]^[\n🌕٣жüÿ_".chars()).collect();
                classify(ctx, &p, &|c| s.has(c), &few);
            } else {
                classify(ctx, &p, &|c| s.has(c), &probe);
            }
        },
    ));

    // ---- groups of many members
    let sizes: Vec<usize> = if thorough { (4..=300).chain([511, 512, 513, 1000]).collect() } else { (4..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect() };
    let ns = sizes.len();
    domains.push(domain(
        format!("bracket groups of {} numbers of members up to {}: characters, ranges, both, upwards and downwards, plain and negated", ns, sizes[ns - 1]),
        ns * 12,
        4,
        move |i, ctx| {
            let i = i as usize;
            let (n, kind, down, neg) = (sizes[i / 12], i % 3, i / 3 % 2 == 1, i / 6 % 2 == 1);
            // every member and its neighbours; neighbours are no members
            let c = |k: usize| char::from_u32(0x4e00 + k as u32).unwrap();
            let mut order: Vec<usize> = (0..n).collect();
            if down {
                order.reverse();
            }
            let wide = |k: usize| kind == 1 || kind == 2 && k % 2 == 1;
            let mut p = format!("[{}", if neg { "^" } else { "" });
            for k in order {
                p.push(c(5 * k));
                if wide(k) {
                    p.push('-');
                    p.push(c(5 * k + 2));
                }
            }
            p.push(']');
            let member = move |x: char| {
                let k = (x as u32).wrapping_sub(0x4e00) as usize;
                k < 5 * n && k % 5 <= if wide(k / 5) { 2 } else { 0 }
            };
            let probe: Vec<char> = (0..5 * n + 2).map(c).chain("a-]^\n".chars()).collect();
            ctx.sample(|| format!("{} members, kind {}", n, kind));
            classify(ctx, &p, &|x| member(x) != neg, &probe);
        },
    ));

    // ---- ranges between boundary characters
    let ends: Vec<char> = vec![
        '\0', '\u{1}', '\t', '!', '/', '0', '5', '9', ':', '@', 'A', 'M', 'Z', '_', 'a', 'm', 'z',
        '~', '\u{7f}', '\u{80}', 'é', 'ÿ', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}',
        '\u{ffff}', '\u{10000}', '\u{10ffff}',
    ];
    let m = ends.len();
    domains.push(domain(
        format!("ranges between {} boundary characters", m),
        m * m * 4,
        32,
        move |i, ctx| {
            let i = i as usize;
            let (a, b) = (ends[i % m], ends[i / m % m]);
            let form = i / m / m;
            let sp = |c: char| -> String {
                if form % 2 == 0 {
                    format!("\\u{{{:06x}}}", c as u32)
                } else {
                    let Re::Set(_, t) = lit(c) else { unreachable!() };
                    t
                }
            };
            let neg = form >= 2;
            let p = format!("[{}{}-{}]", if neg { "^" } else { "" }, sp(a), sp(b));
            let mut chars = Vec::new();
            for e in &ends {
                for d in [-1i64, 0, 1] {
                    if let Some(c) = char::from_u32((*e as i64 + d) as u32) {
                        chars.push(c);
                    }
                }
            }
            ctx.sample(|| format!("{:?}", p));
            classify(ctx, &p, &|c| (a <= c && c <= b) != neg, &chars);
        },
    ));

    Check {
        id: "C02",
        domains,
        assumptions: vec![
            "alphabetic and white space are what the standard library says".into(),
            "membership of a single character is observed through one-character tokens".into(),
        ],
    }
}
