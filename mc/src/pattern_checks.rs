//! Accepting, refusing and diagnosing patterns (C03, C04).

use crate::engine::*;
use crate::lexdrv::*;
use crate::re::*;

/// Spans and messages of a displayed error.
fn diagnostics(text: &str) -> Vec<(usize, usize, String)> {
    let mut v = Vec::new();
    for line in text.lines() {
        let Some(open) = line.find('(') else { continue };
        let Some(close) = line[open..].find(')') else {
            continue;
        };
        let Some((a, b)) = line[open + 1..open + close].split_once(',') else {
            continue;
        };
        if let (Ok(a), Ok(b)) = (a.trim().parse(), b.trim().parse()) {
            let msg = line[open + close + 1..].trim_start_matches(':').trim();
            v.push((a, b, msg.to_string()));
        }
    }
    v
}

fn judge(ctx: &mut Ctx, pattern: &str, spans: bool) {
    let want = read(pattern);
    // as a value, as a function and as a mapping
    for way in 0..3 {
        registered(way, || judge_one(ctx, pattern, &want, way as usize, spans));
        if ctx.failed() {
            return;
        }
    }
}

fn judge_one(ctx: &mut Ctx, pattern: &str, want: &Read, behind: usize, spans: bool) {
    ctx.about(|| format!("pattern {:?}", pattern));
    ctx.states += 1;
    ctx.transitions += pattern.chars().count() as u64;
    ctx.traces += 1;
    let got = add(pattern, behind);
    let case = || format!("pattern {:?} as a {} behind {} others", pattern, ["value", "function", "mapping"][way() as usize], behind);
    let text = match got {
        Err(m) => {
            ctx.fail(case(), "accepted or refused", m);
            return;
        }
        Ok(r) => r,
    };
    if !spans {
        match (want, &text) {
            (Read::Open, Ok(())) => ctx.hist("empty bracket group, accepted"),
            (Read::Open, Err(_)) => ctx.hist("empty bracket group, refused"),
            (Read::Valid(_), Ok(())) => ctx.hist("accepted"),
            (Read::Invalid(_), Err(_)) => ctx.hist("refused"),
            (Read::Valid(_), Err(e)) => ctx.fail(case(), "accepted", format!("refused: {}", e.trim())),
            (Read::Invalid(n), Ok(())) => ctx.fail(
                case(),
                format!("refused at character {:?}", n),
                "accepted",
            ),
        }
        return;
    }
    let Err(text) = text else {
        ctx.hist("accepted");
        return;
    };
    let n = pattern.chars().count();
    let d = diagnostics(&text);
    let first = match want {
        Read::Invalid(f) => *f,
        _ => None,
    };
    let ok = !d.is_empty()
        && d.iter().all(|(a, b, m)| a < b && *b <= n && !m.is_empty())
        && first.is_none_or(|f| d[0].0 == f);
    ctx.hist(if first == Some(n.saturating_sub(1)) {
        "diagnosed at the last character"
    } else {
        "diagnosed before the last character"
    });
    if !ok {
        ctx.fail(
            case(),
            format!(
                "diagnostics with a non-empty span inside 0..{}{} and a message",
                n,
                match first {
                    Some(f) => format!(", the first one starting at {}", f),
                    None => String::new(),
                }
            ),
            format!("{:?}", text.trim()),
        );
    }
}

/// All sequences of exactly `n` units, the index covering all but the last two.
fn sequences(name: &str, units: Vec<String>, n: usize, spans: bool) -> Domain {
    let k = units.len();
    let inner = n.min(2);
    domain(
        format!("{}: all sequences of {}", name, n),
        k.pow((n - inner) as u32),
        16,
        move |i, ctx| {
            let mut i = i as usize;
            let mut prefix = String::new();
            for _ in 0..n - inner {
                prefix.push_str(&units[i % k]);
                i /= k;
            }
            match inner {
                0 => judge(ctx, &prefix, spans),
                1 => {
                    for a in &units {
                        judge(ctx, &format!("{}{}", prefix, a), spans);
                    }
                }
                _ => {
                    for a in &units {
                        for b in &units {
                            let p = format!("{}{}{}", prefix, a, b);
                            ctx.sample(|| format!("{:?}", p));
                            judge(ctx, &p, spans);
                            if ctx.failed() {
                                return;
                            }
                        }
                    }
                }
            }
        },
    )
}

fn list(name: &str, v: Vec<String>, spans: bool) -> Domain {
    domain(name, v.len(), 256, move |i, ctx| {
        ctx.sample(|| format!("{:?}", v[i as usize]));
        judge(ctx, &v[i as usize], spans)
    })
}

pub fn c03_c04(spans: bool, thorough: bool) -> Check {
    let mut domains = Vec::new();
    let chars: Vec<String> = "a01,{}[]()^|-*+?.\\xudcé"
        .chars()
        .map(|c| c.to_string())
        .collect();
    for n in 0..=if thorough { 6 } else { 5 } {
        domains.push(sequences("23 pattern characters", chars.clone(), n, spans));
    }
    let units: Vec<String> = [
        "a", "é", "(", ")", "|", "*", "{1,2}", "[", "]", "^", "-", "\\d", "\\x41", "\\q", "{2",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    domains.push(sequences("15 pattern tokens", units.clone(), 5, spans));
    let few: Vec<String> = ["a", "(", ")", "|", "*", "[", "]", "^", "-"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    domains.push(sequences("9 pattern tokens", few.clone(), 6, spans));
    domains.push(sequences("9 pattern tokens", few.clone(), 7, spans));
    if thorough {
        domains.push(sequences("15 pattern tokens", units, 6, spans));
        domains.push(sequences("9 pattern tokens", few, 8, spans));
    }

    // counts
    let mut v = Vec::new();
    let alpha: Vec<char> = "019,} a-".chars().collect();
    for w in strings(&alpha, 5) {
        let w: String = w.into_iter().collect();
        v.push(format!("a{{{}", w));
        v.push(format!("(a){{{}", w));
        v.push(format!("[a]{{{}}}b", w));
    }
    domains.push(list("everything behind a { up to 5 characters", v, spans));
    let mut v = Vec::new();
    let big = [
        "0", "00", "0000000000000001", "4294967294", "4294967295", "4294967296", "4294967297",
        "4294967299", "4294967300", "04294967295", "04294967296", "42949672950", "9999999999",
        "5000000000", "8589934592", "99999999999999999999", "18446744073709551615",
        "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211456",
        "65535", "65536", "2147483647", "2147483648",
    ];
    for a in big {
        for p in ["a", "(ab)", "[a]", "\\d", "."] {
            v.push(format!("{}{{{}}}", p, a));
            v.push(format!("{}{{{},}}", p, a));
            for b in big {
                v.push(format!("{}{{{},{}}}", p, a, b));
            }
        }
    }
    for n in 0..45 {
        v.push(format!("a{{{}}}", "9".repeat(n)));
        v.push(format!("a{{1,{}}}", "9".repeat(n)));
        v.push(format!("a{{{}1}}", "0".repeat(n)));
    }
    domains.push(list("large counts", v, spans));

    // escapes
    let ascii: Vec<char> = (0..128u8).map(|b| b as char).collect();
    let mut v = Vec::new();
    for a in &ascii {
        for ctxs in [("", ""), ("a", "b"), ("[", "]"), ("(", ")*")] {
            v.push(format!("{}\\{}{}", ctxs.0, a, ctxs.1));
            v.push(format!("{}\\c{}{}", ctxs.0, a, ctxs.1));
            v.push(format!("{}\\x{}{}", ctxs.0, a, ctxs.1));
            v.push(format!("{}\\u{}{}", ctxs.0, a, ctxs.1));
        }
        for b in &ascii {
            v.push(format!("\\x{}{}", a, b));
            v.push(format!("\\{}{}", a, b));
            v.push(format!("{}{}", a, b));
            v.push(format!("[{}{}]", a, b));
        }
    }
    for c in "éжΩ٣²\u{2028}🌕".chars() {
        v.push(format!("\\{}", c));
        v.push(format!("\\c{}", c));
        v.push(format!("\\x{}1", c));
        v.push(format!("\\x1{}", c));
        v.push(format!("\\u00{}1", c));
        v.push(format!("\\u{{00{}1}}", c));
        v.push(format!("a{{{}}}", c));
        v.push(format!("a{{1{}}}", c));
        v.push(format!("{}", c));
        v.push(format!("{}(", c));
        v.push(format!("{}*{}", c, c));
        v.push(format!("[{}-{}]", c, c));
    }
    domains.push(list("escapes over all ASCII characters", v, spans));
    let mut v = Vec::new();
    let digits: Vec<char> = "0dfFgDs}".chars().collect();
    for w in strings(&digits, if thorough { 6 } else { 5 }) {
        let w: String = w.into_iter().collect();
        v.push(format!("\\u{}", w));
        v.push(format!("\\u{{{}", w));
        v.push(format!("\\u{{0{}}}a", w));
        v.push(format!("[\\u{}]", w));
    }
    for n in 0..10 {
        for d in ["0", "1", "f", "F", "d"] {
            v.push(format!("\\u{{{}}}", d.repeat(n)));
            v.push(format!("\\u{}", d.repeat(n)));
            v.push(format!("\\x{}", d.repeat(n)));
            v.push(format!("\\u{{{}}}", format!("{}{}", "0".repeat(n), d)));
        }
    }
    for n in ["D7FF", "D800", "DBFF", "DC00", "DFFF", "E000", "10FFFF", "110000", "FFFFFF", "0D800", "00D7FF"] {
        v.push(format!("\\u{{{}}}", n));
        v.push(format!("\\u{}", n));
        v.push(format!("[a-\\u{{{}}}]", n));
    }
    domains.push(list("hexadecimal escapes", v, spans));

    // every scalar value alone and in context
    domains.push(domain(
        "every scalar value, alone, in a group and in brackets",
        0x110000 / 64,
        16,
        move |i, ctx| {
            for c in (i * 64..(i + 1) * 64).filter_map(|n| char::from_u32(n as u32)) {
                for p in [
                    c.to_string(),
                    format!("({}a)+", c),
                    format!("[b{}]", c),
                    format!("{}*{}", c, c),
                    format!("\\{}", c),
                    format!("\\x4{}", c),
                ] {
                    ctx.sample(|| format!("{:?}", p));
                    judge(ctx, &p, spans);
                    if ctx.failed() {
                        return;
                    }
                }
            }
        },
    ));

    // every pair of characters that programs tend to treat specially
    let odd = odd_chars();
    let k = odd.len();
    domains.push(domain(
        format!("every pair of {} peculiar characters in 6 contexts", k),
        k * k,
        64,
        move |i, ctx| {
            let (x, y) = (odd[i as usize % k], odd[i as usize / k]);
            for p in [
                format!("{}{}", x, y),
                format!("[{}{}]", x, y),
                format!("[^{}-{}]", x, y),
                format!("(a{}{})", x, y),
                format!("\\{}{}", x, y),
                format!("é{}{}(", x, y),
            ] {
                ctx.sample(|| format!("{:?}", p));
                judge(ctx, &p, spans);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));

    // one or two characters of a pattern replaced, put in or left out
    let mut any: Vec<char> = (0..128u8).map(|b| b as char).collect();
    any.extend(odd_chars().into_iter().filter(|c| !c.is_ascii()));
    let wholes = [
        "a{1,2}", "ab{12}c", "a{3,}", "(a|b)*c?", "[a-c\\d]+", "[^a-]x", "\\x41b", "[\\x41-\\x5A]",
        "\\u0041b", "\\u{1F300}b", "a\\cJb", "\\w\\s.", "é{1,2}|[é]", "((a){2})", "a{1,2}|\\D{3}",
    ];
    let mut v = Vec::new();
    for w in wholes {
        let w: Vec<char> = w.chars().collect();
        for at in 0..=w.len() {
            let (front, back): (String, String) = (w[..at].iter().collect(), w[at..].iter().collect());
            let rest: String = w[at..].iter().skip(1).collect();
            v.push(format!("{}{}", front, rest));
            for c in &any {
                v.push(format!("{}{}{}", front, c, back));
                v.push(format!("{}{}{}", front, c, rest));
                v.push(format!("{}{}", front, c));
            }
        }
    }
    domains.push(list("one character of 15 patterns replaced, put in or left out", v, spans));
    let shorts = ["a{1,2}", "a{3,}b", "[a-c]*", "\\u0041", "\\u{41}", "\\x41b", "(a|b)"];
    let ascii: Vec<char> = (0..128u8).map(|b| b as char).collect();
    let mut places = Vec::new();
    for w in shorts {
        let w: Vec<char> = w.chars().collect();
        for j in 0..w.len() {
            for i in 0..j {
                places.push((w.clone(), i, j));
            }
        }
    }
    domains.push(domain(
        "two characters of 7 patterns replaced by any two ASCII characters",
        places.len() * 128,
        16,
        move |n, ctx| {
            let (w, i, j) = &places[n as usize / 128];
            let mut w = w.clone();
            w[*i] = ascii[n as usize % 128];
            for c in &ascii {
                w[*j] = *c;
                let p: String = w.iter().collect();
                ctx.sample(|| format!("{:?}", p));
                judge(ctx, &p, spans);
                if ctx.failed() {
                    return;
                }
            }
        },
    ));

    // long and deep patterns with the error at every place
    let deep = if thorough { 300 } else { 120 };
    let mut v = Vec::new();
    for n in 0..deep {
        let (o, c) = ("(".repeat(n), ")".repeat(n));
        v.push(format!("{}a{}", o, c));
        v.push(format!("{}a{})", o, c));
        v.push(format!("({}a{}", o, c));
        v.push(format!("{}{}", o, c));
        v.push(format!("{}a|{}", o, c));
        v.push(format!("{}a{}*", o, c));
        v.push(format!("{}a{}**", o, c));
        let w = "é".repeat(n);
        for bad in ["(", ")", "[", "]", "|", "*", "\\", "{", "{1", "{1,", "\\x", "\\x4", "\\u", "\\u{", "\\c", "^", "-", "[a-", "[^", "(|a)", "a**", "()", "[*]", "\\q", "a{2}{3}", "a{2,1", "}", ",", "$", "/"] {
            v.push(format!("{}{}", w, bad));
            v.push(format!("{}{}{}", w, bad, "a".repeat(n % 7)));
        }
        v.push(format!("[{}]", w));
        v.push(format!("[{}", w));
        v.push(format!("{}a", "a|".repeat(n)));
        v.push("a|".repeat(n));
        v.push("(a)*".repeat(n));
        v.push("a{1,2}".repeat(n));
        v.push("[^a-c\\d]".repeat(n));
    }
    domains.push(list("long and deep patterns, errors behind a prefix of any length", v, spans));

    Check {
        id: if spans { "C04" } else { "C03" },
        domains,
        assumptions: vec![
            "reference reader of the documented grammar in mc/src/re.rs".into(),
            "whether an empty bracket group is accepted is left open: the grammar and the repository's own generator disagree".into(),
        ],
    }
}
