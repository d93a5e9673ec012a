//! Check of the lexer automaton's DOT text (C23): the graph is read back and has to
//! accept exactly what the patterns denote.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, OnceLock};

use crate::char_checks::{confusable, scalar, SCALARS};
use crate::dbg::{self, Val};
use crate::dot;
use crate::engine::*;
use crate::lex_checks::{quants, st};
use crate::lexdrv::guard;
use crate::re::*;

/// DOT text of the automaton of all patterns together; `None` if one is refused.
#[cfg(pango_verif_nfa)]
fn dot_of(patterns: &[String]) -> Option<String> {
    let p: Vec<&str> = patterns.iter().map(|s| s.as_str()).collect();
    pango_lexer::nfa_dot(&p)
}
#[cfg(not(pango_verif_nfa))]
fn dot_of(_: &[String]) -> Option<String> {
    eprintln!("C23 needs a build with --cfg pango_verif_nfa");
    std::process::exit(2)
}

enum Label {
    Nothing,
    Read(Set),
    /// Smallest and largest number of repetitions.
    Repeated(u64, Option<u64>),
}

fn character(v: &Val) -> Option<char> {
    let Val::Atom(t) = v else { return None };
    let t = t.strip_prefix('\'')?.strip_suffix('\'')?;
    let c: Vec<char> = t.chars().collect();
    match c[..] {
        [c] => Some(c),
        ['\\', 'n'] => Some('\n'),
        ['\\', 'r'] => Some('\r'),
        ['\\', 't'] => Some('\t'),
        ['\\', '0'] => Some('\0'),
        ['\\', c @ ('\\' | '\'' | '"')] => Some(c),
        ['\\', 'u', '{', .., '}'] => {
            char::from_u32(u32::from_str_radix(&t[3..t.len() - 1], 16).ok()?)
        }
        _ => None,
    }
}

fn set(v: &Val) -> Option<Set> {
    match v {
        Val::Tuple(n, a) if n == "Match" && a.len() == 1 => Some(Set::Char(character(&a[0])?)),
        Val::Tuple(n, a) if n == "Class" && a.len() == 1 => Some(match a[0].name() {
            "Wildcard" => Set::Any,
            "Word" => Set::Word(true),
            "NonWord" => Set::Word(false),
            "Digit" => Set::Digit(true),
            "NonDigit" => Set::Digit(false),
            "Whitespace" => Set::Space(true),
            "NonWhitespace" => Set::Space(false),
            _ => return None,
        }),
        Val::Struct(n, _) if n == "Group" => {
            let negated = match v.field("negated")?.name() {
                "true" => true,
                "false" => false,
                _ => return None,
            };
            let mut list = v.field("literals")?;
            while let Val::Tuple(_, a) = list {
                list = a.first()?;
            }
            let items = list.members()?.into_iter().map(|m| match m {
                Val::Tuple(n, a) if n == "Range" && a.len() == 2 => {
                    Some(Item::Range(character(&a[0])?, character(&a[1])?))
                }
                m => set(m).map(Item::One),
            });
            Some(Set::Bracket(negated, items.collect::<Option<Vec<_>>>()?))
        }
        _ => None,
    }
}

fn label(t: &str) -> Option<Label> {
    let v = dbg::parse(t)?;
    match &v {
        Val::Atom(a) if a == "Eps" => Some(Label::Nothing),
        Val::Tuple(n, a) if n == "Literal" && a.len() == 1 => Some(Label::Read(set(&a[0])?)),
        Val::Tuple(n, a) if n == "Quantified" && a.len() == 1 => {
            let (min, max) = match &a[0] {
                Val::Atom(q) if q == "Asterisk" => (0, None),
                Val::Atom(q) if q == "Plus" => (1, None),
                Val::Atom(q) if q == "QuestionMark" => (0, Some(1)),
                Val::Tuple(q, r) if q == "Range" && r.len() == 1 => match &r[0] {
                    Val::Tuple(k, b) if k == "Max" && b.len() == 1 => {
                        let n = b[0].int()? as u64;
                        (n, Some(n))
                    }
                    Val::Tuple(k, b) if k == "Min" && b.len() == 1 => (b[0].int()? as u64, None),
                    Val::Tuple(k, b) if k == "Range" && b.len() == 2 => {
                        (b[0].int()? as u64, Some(b[1].int()? as u64))
                    }
                    _ => return None,
                },
                _ => return None,
            };
            Some(Label::Repeated(min, max))
        }
        _ => None,
    }
}

/// A state with what it reads; a state with repetitions counts how often it was left
/// to be repeated and lets go once the count fits.
#[derive(Default)]
struct Node {
    fin: bool,
    nothing: Vec<usize>,
    read: Vec<(Set, usize)>,
    repeated: Vec<(u64, Option<u64>, usize)>,
}

struct Machine {
    nodes: Vec<Node>,
    start: usize,
}

/// State and the counts that are not zero.
type At = (usize, BTreeMap<usize, u64>);

impl Machine {
    /// The count after leaving a state to repeat it, unless that is too often.
    fn left(&self, at: &At, to: usize) -> Option<At> {
        let mut counts = at.1.clone();
        if let Some((min, max, _)) = self.nodes[at.0].repeated.first() {
            let n = counts.get(&at.0).copied().unwrap_or(0) + 1;
            let n = match max {
                Some(max) if n > *max => return None,
                Some(_) => n,
                None => n.min(*min),
            };
            if n > 0 {
                counts.insert(at.0, n);
            }
        }
        Some((to, counts))
    }

    fn closed(&self, v: impl IntoIterator<Item = At>) -> BTreeSet<At> {
        let mut seen: BTreeSet<At> = BTreeSet::new();
        let mut todo: Vec<At> = v.into_iter().collect();
        while let Some(at) = todo.pop() {
            if !seen.insert(at.clone()) {
                continue;
            }
            let node = &self.nodes[at.0];
            todo.extend(node.nothing.iter().filter_map(|to| self.left(&at, *to)));
            for (min, max, to) in &node.repeated {
                let n = at.1.get(&at.0).copied().unwrap_or(0);
                if n >= *min && max.is_none_or(|m| n <= m) {
                    let mut counts = at.1.clone();
                    counts.remove(&at.0);
                    todo.push((*to, counts));
                }
            }
        }
        seen
    }

    fn begin(&self) -> BTreeSet<At> {
        self.closed([(self.start, BTreeMap::new())])
    }

    fn step(&self, v: &BTreeSet<At>, c: char) -> BTreeSet<At> {
        self.closed(v.iter().flat_map(|at| {
            self.nodes[at.0]
                .read
                .iter()
                .filter(move |(s, _)| s.has(c))
                .filter_map(move |(_, to)| self.left(at, *to))
        }))
    }

    fn accepts(&self, v: &BTreeSet<At>) -> bool {
        v.iter().any(|at| self.nodes[at.0].fin)
    }
}

/// Reads the graph; `Ok(None)` if it is well-formed but a label has an unknown form.
fn machine(text: &str) -> Result<Option<Machine>, String> {
    let g = dot::parse(text)?;
    let mut number: HashMap<String, usize> = HashMap::new();
    let mut nodes: Vec<Node> = Vec::new();
    let mut id = |name: &str, nodes: &mut Vec<Node>| {
        *number.entry(name.to_string()).or_insert_with(|| {
            nodes.push(Node {
                fin: g.shapes.get(name).is_some_and(|s| s == "doublecircle"),
                ..Node::default()
            });
            nodes.len() - 1
        })
    };
    let mut start = None;
    for ((name, _), shape) in g.nodes.iter().zip(&g.stated) {
        let n = id(name, &mut nodes);
        if shape != "doublecircle" {
            if start.is_some_and(|s| s != n) {
                return Ok(None);
            }
            start = Some(n);
        }
    }
    for (from, to, a) in &g.edges {
        let (from_n, to_n) = (id(from, &mut nodes), id(to, &mut nodes));
        let Some(l) = dot::label(a) else {
            return Err(format!("the edge from {} to {} has no label", from, to));
        };
        match label(&l.shown(from)) {
            Some(Label::Nothing) => nodes[from_n].nothing.push(to_n),
            Some(Label::Read(s)) => nodes[from_n].read.push((s, to_n)),
            Some(Label::Repeated(min, max)) => nodes[from_n].repeated.push((min, max, to_n)),
            None => return Ok(None),
        }
    }
    let Some(start) = start else {
        return Err("no start state is listed".into());
    };
    Ok(Some(Machine { nodes, start }))
}

/// Whether the graphs of plain patterns are of a form that is understood. Then a graph
/// that is not has lost something.
fn understood() -> bool {
    static KNOWN: OnceLock<bool> = OnceLock::new();
    *KNOWN.get_or_init(|| {
        let plain = [
            "a", ".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "[b]", "[^b]", "[b-d]", "[.]", "[\\d]",
            "a*", "a+", "a?", "a{2}", "a{2,}", "a{2,3}",
        ];
        plain.iter().all(|p| {
            let text = guard(|| dot_of(&[p.to_string()]));
            matches!(text, Ok(Some(t)) if matches!(machine(&t), Ok(Some(_))))
        })
    })
}

/// The graph of the patterns, or the reason why there is nothing to judge.
fn graph(ctx: &mut Ctx, patterns: &[String]) -> Option<(Machine, String)> {
    ctx.about(|| format!("patterns {:?}", patterns));
    ctx.traces += 1;
    let text = match guard(|| dot_of(patterns)) {
        Ok(Some(t)) => t,
        Ok(None) => {
            ctx.fail(format!("patterns {:?}", patterns), "a graph", "a pattern is refused");
            return None;
        }
        Err(m) => {
            ctx.fail(format!("patterns {:?}", patterns), "a graph", m);
            return None;
        }
    };
    match machine(&text) {
        Ok(Some(m)) => {
            ctx.states += m.nodes.len() as u64;
            ctx.transitions += m.nodes.iter().map(|n| n.nothing.len() + n.read.len() + n.repeated.len()).sum::<usize>() as u64;
            Some((m, text))
        }
        Ok(None) if understood() => {
            ctx.fail(
                format!("patterns {:?}", patterns),
                "a start state and labels that display inputs",
                format!("{:?}", text),
            );
            None
        }
        Ok(None) => {
            ctx.hist("well-formed, but with labels of an unknown form");
            None
        }
        Err(m) => {
            ctx.fail(format!("patterns {:?}", patterns), "a well-formed graph", format!("{} in {:?}", m, text));
            None
        }
    }
}

fn verdict(ctx: &mut Ctx, patterns: &[String], text: &[char], want: bool, got: bool, graph: &str) -> bool {
    ctx.hist(if want { "in the language" } else { "not in the language" });
    if want != got {
        let word = |b: bool| if b { "the graph accepts it" } else { "the graph does not accept it" };
        ctx.fail(
            format!("patterns {:?} on {:?}", patterns, st(text)),
            word(want),
            format!("{}: {:?}", word(got), graph),
        );
    }
    want == got
}

/// All texts over the letters up to the length.
fn all_texts(ctx: &mut Ctx, res: &[Re], letters: &[char], max: usize) {
    let patterns: Vec<String> = res.iter().map(|r| r.show()).collect();
    ctx.sample(|| format!("{:?}", patterns));
    let Some((m, shown)) = graph(ctx, &patterns) else { return };
    let mut stack = vec![(Vec::new(), m.begin())];
    while let Some((text, at)) = stack.pop() {
        let want = res.iter().any(|r| r.matches(&text));
        if !verdict(ctx, &patterns, &text, want, m.accepts(&at), &shown) {
            return;
        }
        if text.len() < max {
            for c in letters {
                let mut t: Vec<char> = text.clone();
                t.push(*c);
                stack.push((t, m.step(&at, *c)));
            }
        }
    }
}

/// Some texts, each with whether it is in the language.
fn some_texts(ctx: &mut Ctx, patterns: &[String], texts: &[(Vec<char>, bool)]) {
    ctx.sample(|| format!("{:?}", patterns));
    let Some((m, shown)) = graph(ctx, patterns) else { return };
    for (text, want) in texts {
        let mut at = m.begin();
        for c in text {
            at = m.step(&at, *c);
        }
        if !verdict(ctx, patterns, text, *want, m.accepts(&at), &shown) {
            return;
        }
    }
}

pub fn c23(thorough: bool) -> Check {
    let mut domains = Vec::new();
    let q_all = quants(&[
        "*", "+", "?", "{0}", "{1}", "{2}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}",
        "{1,2}", "{1,3}", "{2,3}", "{0,0}", "{2,1}",
    ]);
    let q_core = quants(&["*", "+", "?", "{2}", "{2,}", "{1,2}", "{0}"]);
    let atoms = [lit('a'), lit('b')];
    let ab = ['a', 'b'];

    let list: Vec<Re> = expressions(4, &atoms, &q_all).into_iter().skip(1).flatten().collect();
    let max = if thorough { 7 } else { 5 };
    domains.push(
        domain(
            format!("expressions up to 4 nodes over {{a,b}}, 17 quantifiers; all texts up to {}", max),
            list.len(),
            16,
            move |i, ctx| all_texts(ctx, &list[i as usize..][..1], &ab, max),
        )
        .seeds(if thorough { 3 } else { 2 }),
    );
    let size = if thorough { 6 } else { 5 };
    let list: Vec<Re> = expressions(size, &atoms, &q_core).pop().unwrap();
    domains.push(domain(
        format!("expressions with {} nodes over {{a,b}}, 7 quantifiers; all texts up to 4", size),
        list.len(),
        16,
        move |i, ctx| all_texts(ctx, &list[i as usize..][..1], &ab, 4),
    ));
    let kinds: Vec<Re> = [".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "[ab]", "[^a]", "\\n", "é"]
        .iter()
        .map(|p| match read(p) {
            Read::Valid(r) => r,
            _ => panic!("{}", p),
        })
        .collect();
    let size = if thorough { 4 } else { 3 };
    let list: Vec<Re> = expressions(size, &kinds, &q_core).into_iter().skip(1).flatten().collect();
    let k = kinds.len();
    domains.push(domain(
        format!("expressions up to {} nodes over {} constructs, 7 quantifiers; all texts over 6 characters up to 3", size, k),
        list.len(),
        16,
        move |i, ctx| all_texts(ctx, &list[i as usize..][..1], &['a', 'b', '0', ' ', '\n', 'é'], 3),
    ));
    let list: Vec<Re> = expressions(2, &atoms, &q_core).into_iter().skip(1).flatten().collect();
    let list: Vec<Re> = [Re::Empty].into_iter().chain(list).collect();
    let n = list.len();
    domains.push(domain(
        format!("lists of up to 3 of {} expressions; all texts up to 3", n),
        1 + n + n * n + n * n * n,
        32,
        move |i, ctx| {
            let mut i = i as usize;
            let mut v = Vec::new();
            while i > 0 {
                i -= 1;
                v.push(list[i % n].clone());
                i /= n;
            }
            all_texts(ctx, &v, &ab, 3)
        },
    ));

    // ---- characters
    let per = 64u64;
    domains.push(domain(
        "every scalar value, as a literal, in brackets and as an end of a range",
        SCALARS.div_ceil(per) as usize,
        8,
        move |i, ctx| {
            for j in i * per..((i + 1) * per).min(SCALARS) {
                let c = scalar(j);
                let e = format!("\\u{{{:06x}}}", c as u32);
                let literal = lit(c).show();
                let mut near = confusable(c);
                near.extend(['"', '\\', '\'', 'n', '0']);
                for (p, set) in [
                    (literal, Set::Char(c)),
                    (format!("[{}]", e), Set::Char(c)),
                    (format!("[^{}]", e), Set::Bracket(true, vec![Item::One(Set::Char(c))])),
                    (format!("[{}-{}]", e, e), Set::Char(c)),
                ] {
                    let texts: Vec<(Vec<char>, bool)> =
                        near.iter().chain([&c]).map(|x| (vec![*x], set.has(*x))).collect();
                    some_texts(ctx, &[p], &texts);
                    if ctx.failed() {
                        return;
                    }
                }
            }
        },
    ));
    let odd = odd_chars();
    let k = odd.len();
    domains.push(domain(
        format!("every pair of {} peculiar characters, as a sequence and in brackets", k),
        k * k,
        64,
        move |i, ctx| {
            let (x, y) = (odd[i as usize % k], odd[i as usize / k]);
            let p = format!("{}{}", lit(x).show(), lit(y).show());
            some_texts(
                ctx,
                &[p],
                &[(vec![x, y], true), (vec![y, x], x == y), (vec![x], false), (vec![], false)],
            );
            if ctx.failed() {
                return;
            }
            let esc = |c: char| format!("\\u{{{:06x}}}", c as u32);
            let p = format!("[{}{}]", esc(x), esc(y));
            some_texts(ctx, &[p], &[(vec![x], true), (vec![y], true), (vec!['\u{4e00}'], false)]);
        },
    ));
    let pool = [
        "a", "z", "é", "}", "\\\"", "'", "\\]", "\\\\", "a-c", "c-a", "0-9", "\\d", "\\w", "\\s",
        "\\D", "\\W", "\\S", ".", "\\n", "\\x41", "\\u{1F300}-\\u{1F5FF}", " ", "🌕", ",",
    ]
    .map(|s| if s == "\\\"" { "\"" } else { s });
    let k = pool.len();
    let probe: Vec<char> = "azbcAé}\"']\\[0579 \n\t,;🌕\u{2003}٣жÿ_-^".chars().collect();
    domains.push(domain(
        format!("bracket groups of up to 3 of {} members, plain and negated", k),
        (k + k * k + k * k * k) * 2,
        32,
        move |i, ctx| {
            let mut j = (i / 2) as usize + 1;
            let mut v = String::new();
            while j > 0 {
                j -= 1;
                v.push_str(pool[j % k]);
                j /= k;
            }
            let p = format!("[{}{}]", if i % 2 == 1 { "^" } else { "" }, v);
            let Read::Valid(Re::Set(s, _)) = read(&p) else { panic!("{}", p) };
            let texts: Vec<(Vec<char>, bool)> = probe.iter().map(|c| (vec![*c], s.has(*c))).collect();
            some_texts(ctx, &[p], &texts);
        },
    ));

    // ---- size
    let sizes: Arc<Vec<usize>> = Arc::new((1..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 513, 1000]).collect());
    let ns = sizes.len();
    domains.push(domain(
        format!("{} sizes up to 1000: words, alternatives, lists, groups in each other, brackets, counts", ns),
        ns * 9,
        1,
        move |i, ctx| {
            let n = sizes[i as usize / 9];
            let word = |n: usize| -> Vec<char> { (0..n).map(|k| ['a', 'b', 'c'][k % 3]).collect() };
            let texts = |v: Vec<(Vec<char>, bool)>| v;
            match i % 9 {
                0 => {
                    let w = word(n);
                    let v = texts(vec![(w.clone(), true), (w[1..].to_vec(), false), (word(n + 1), false)]);
                    some_texts(ctx, &[st(&w)], &v)
                }
                k @ (1 | 2) => {
                    let one = |k: usize| char::from_u32(0x4e00 + k as u32).unwrap();
                    let p: Vec<String> = (0..n).map(|k| one(k).to_string()).collect();
                    let v = (0..=n).map(|k| (vec![one(k)], k < n)).collect();
                    let p = if k == 1 { vec![p.join("|")] } else { p };
                    some_texts(ctx, &p, &texts(v))
                }
                3 => {
                    let d = n.min(100);
                    let p = format!("{}a{}", "(".repeat(d), ")".repeat(d));
                    some_texts(ctx, &[p], &[(vec!['a'], true), (vec![], false), (vec!['a', 'a'], false)])
                }
                k @ (7 | 8) => {
                    // every second character, alone or as a range of two
                    let one = |k: usize| char::from_u32(0x4e00 + k as u32).unwrap();
                    let members: String = (0..n)
                        .map(|j| match k {
                            7 => one(2 * j).to_string(),
                            _ => format!("{}-{}", one(3 * j), one(3 * j + 1)),
                        })
                        .collect();
                    let step = if k == 7 { 2 } else { 3 };
                    for negated in [false, true] {
                        let p = format!("[{}{}]", if negated { "^" } else { "" }, members);
                        let v: Vec<(Vec<char>, bool)> = (0..=step * n)
                            .map(|j| (vec![one(j)], (j < step * n && j % step != step - 1) != negated))
                            .collect();
                        some_texts(ctx, &[p], &v);
                    }
                }
                k => {
                    let p = [format!("a{{{}}}", n), format!("a{{{},}}", n), format!("a{{1,{}}}", n)];
                    let v = [n - 1, n, n + 1]
                        .map(|m| (vec!['a'; m], match k { 4 => m == n, 5 => m >= n, _ => 1 <= m && m <= n }));
                    some_texts(ctx, &[p[k as usize - 4].clone()], &v)
                }
            }
        },
    ));

    Check {
        id: "C23",
        domains,
        assumptions: vec![
            "the graph is read with the usual meaning of DOT: shapes are those in force where a node is named first".into(),
            "labels are the displayed inputs of the automaton; if plain patterns have labels of another form, graphs are only checked to be well-formed".into(),
        ],
    }
}
