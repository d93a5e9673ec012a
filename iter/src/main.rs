//! Peekable iterators and cautious adaptors (C09).

#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/seed.rs"]
mod seed;

use engine::*;
use std::path::{Path, PathBuf};

#[cfg(any(feature = "std_peekable", feature = "cached", feature = "take", feature = "map"))]
#[allow(unused_imports)]
use pango_lexer::iter::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Next,
    Peek,
    PeekMut,
    /// Adds 100 to the item that is peeked at.
    PeekSet,
    IfTrue,
    IfFalse,
    IfSmall,
    IfEqSame,
    IfEqOther,
    Current,
    TakeAll,
    TakeNone,
    TakeSmall,
    /// Asks the adaptor twice and drops it.
    TakeTwo,
    MapAll,
    MapSmall,
    MapOnce,
    /// Exhausts the adaptor and asks it once more.
    MapPast,
    SizeHint,
}
use Op::*;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Out {
    One(Option<u32>),
    Many(Vec<u32>),
    Unit,
}

fn small(x: &u32) -> bool {
    *x % 100 < 2
}

/// The model: a list, a position and the item consumed last.
#[derive(Clone)]
struct Model {
    items: Vec<u32>,
    at: usize,
    current: Option<u32>,
}

impl Model {
    fn advance(&mut self) -> Option<u32> {
        let x = self.items.get(self.at).copied();
        if x.is_some() {
            self.at += 1;
            self.current = x;
        }
        x
    }
    fn when(&mut self, f: impl Fn(&u32) -> bool) -> Option<u32> {
        match self.items.get(self.at) {
            Some(x) if f(x) => self.advance(),
            _ => None,
        }
    }
    fn step(&mut self, op: Op) -> Out {
        match op {
            Next => {
                let x = self.advance();
                self.current = x;
                Out::One(x)
            }
            Peek | PeekMut => Out::One(self.items.get(self.at).copied()),
            PeekSet => {
                if let Some(x) = self.items.get_mut(self.at) {
                    *x += 100;
                }
                Out::Unit
            }
            IfTrue => Out::One(self.when(|_| true)),
            IfFalse => Out::One(self.when(|_| false)),
            IfSmall => Out::One(self.when(small)),
            IfEqSame => {
                let same = self.items.get(self.at).copied().unwrap_or(7);
                Out::One(self.when(|x| *x == same))
            }
            IfEqOther => {
                let other = self.items.get(self.at).copied().unwrap_or(7) + 1;
                Out::One(self.when(|x| *x == other))
            }
            Current => Out::One(self.current),
            TakeAll | TakeNone | TakeSmall | MapAll | MapSmall | MapPast => {
                let f: fn(&u32) -> bool = match op {
                    TakeAll | MapAll => |_| true,
                    TakeNone => |_| false,
                    _ => small,
                };
                let mut v = Vec::new();
                while let Some(x) = self.when(f) {
                    v.push(if matches!(op, MapAll | MapSmall | MapPast) { x + 1000 } else { x });
                }
                Out::Many(v)
            }
            TakeTwo => {
                let mut v = Vec::new();
                for _ in 0..2 {
                    v.extend(self.when(small));
                }
                Out::Many(v)
            }
            MapOnce => Out::Many(self.when(small).into_iter().map(|x| x + 1000).collect()),
            SizeHint => Out::Unit,
        }
    }
}

/// Steps that every peekable iterator has.
#[cfg(any(feature = "std_peekable", feature = "cached"))]
fn basic<I: Peekableable<Item = u32>>(it: &mut I, op: Op, same: u32) -> Option<Out> {
    Some(match op {
        Next => Out::One(it.next()),
        Peek => Out::One(Peekableable::peek(it).copied()),
        PeekMut => Out::One(Peekableable::peek_mut(it).map(|x| *x)),
        PeekSet => {
            if let Some(x) = Peekableable::peek_mut(it) {
                *x += 100;
            }
            Out::Unit
        }
        IfTrue => Out::One(Peekableable::next_if(it, |_| true)),
        IfFalse => Out::One(Peekableable::next_if(it, |_| false)),
        IfSmall => Out::One(Peekableable::next_if(it, small)),
        IfEqSame => Out::One(Peekableable::next_if_eq(it, &same)),
        IfEqOther => Out::One(Peekableable::next_if_eq(it, &(same + 1))),
        SizeHint => {
            let _ = it.size_hint();
            Out::Unit
        }
        _ => return None,
    })
}

#[cfg(feature = "take")]
macro_rules! take {
    ($it:expr, $op:expr) => {
        match $op {
            TakeAll => Some(Out::Many($it.by_ref().cautious_take_while(|_| true).collect())),
            TakeNone => Some(Out::Many($it.by_ref().cautious_take_while(|_| false).collect())),
            TakeSmall => Some(Out::Many($it.by_ref().cautious_take_while(|x: &u32| small(x)).collect())),
            TakeTwo => {
                let mut r = $it.by_ref();
                let mut t = r.cautious_take_while(|x: &u32| small(x));
                let mut v = Vec::new();
                for _ in 0..2 {
                    v.extend(t.next());
                }
                Some(Out::Many(v))
            }
            _ => None,
        }
    };
}
#[cfg(not(feature = "take"))]
macro_rules! take {
    ($it:expr, $op:expr) => {
        None
    };
}

#[cfg(feature = "map")]
macro_rules! map {
    ($it:expr, $op:expr) => {
        match $op {
            MapAll => Some(Out::Many(
                $it.by_ref().cautious_map_while(|x: &u32| Some(*x + 1000)).collect(),
            )),
            MapSmall => Some(Out::Many(
                $it.by_ref()
                    .cautious_map_while(|x: &u32| small(x).then_some(*x + 1000))
                    .collect(),
            )),
            MapOnce => {
                let mut r = $it.by_ref();
                let x = r.cautious_map_while(|x: &u32| small(x).then_some(*x + 1000)).next();
                Some(Out::Many(x.into_iter().collect()))
            }
            MapPast => {
                let mut r = $it.by_ref();
                let mut t = r.cautious_map_while(|x: &u32| small(x).then_some(*x + 1000));
                let mut v = Vec::new();
                while let Some(x) = t.next() {
                    v.push(x);
                }
                v.extend(t.next());
                v.extend(t.next());
                Some(Out::Many(v))
            }
            _ => None,
        }
    };
}
#[cfg(not(feature = "map"))]
macro_rules! map {
    ($it:expr, $op:expr) => {
        None
    };
}

/// Runs the operations on the real iterator; `None` for one it does not have.
fn drive(which: usize, items: &[u32], ops: &[Op], same: &[u32]) -> Vec<Option<Out>> {
    let _ = (items, same);
    match which {
        #[cfg(feature = "std_peekable")]
        0 => {
            let mut it = items.to_vec().into_iter().peekable();
            ops.iter()
                .zip(same)
                .map(|(op, s)| basic(&mut it, *op, *s).or_else(|| take!(it, *op)).or_else(|| map!(it, *op)))
                .collect()
        }
        #[cfg(feature = "cached")]
        1 => {
            let mut it = items.to_vec().into_iter().cached_peekable();
            ops.iter()
                .zip(same)
                .map(|(op, s)| {
                    if *op == Current {
                        return Some(Out::One(it.current()));
                    }
                    basic(&mut it, *op, *s).or_else(|| take!(it, *op)).or_else(|| map!(it, *op))
                })
                .collect()
        }
        _ => ops.iter().map(|_| None).collect(),
    }
}

fn run_case(ctx: &mut Ctx, which: usize, items: &[u32], ops: &[Op]) {
    let name = ["Peekable", "CachedPeekable"][which];
    let case = || format!("{} over {:?}: {:?}", name, items, ops);
    ctx.about(case);
    let mut m = Model {
        items: items.to_vec(),
        at: 0,
        current: None,
    };
    let mut same = Vec::new();
    let mut want = Vec::new();
    for op in ops {
        same.push(m.items.get(m.at).copied().unwrap_or(7));
        want.push(m.step(*op));
    }
    engine::INSIDE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let got = std::panic::catch_unwind(|| drive(which, items, ops, &same));
    engine::INSIDE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
    match got {
        Ok(got) => {
            if got[0].is_some() {
                ctx.states += 1;
                ctx.traces += 1;
            }
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                match g {
                    Some(g) => {
                        ctx.transitions += 1;
                        if g != w {
                            ctx.fail(
                                format!("{} (operation {})", case(), i + 1),
                                format!("{:?}", w),
                                format!("{:?}", g),
                            );
                            return;
                        }
                    }
                    None => {
                        ctx.hist("operation not available");
                        // the model took a step the iterator did not take
                        return;
                    }
                }
            }
            ctx.hist(if m.at == items.len() { "all items consumed" } else { "items left" });
        }
        Err(_) => ctx.fail(case(), "no panic", "panic"),
    }
}

fn check(id: &str, thorough: bool) -> Check {
    assert_eq!(id, "C09");
    let lists: Vec<Vec<u32>> = vec![
        vec![],
        vec![0],
        vec![5],
        vec![0, 1],
        vec![0, 5],
        vec![5, 0],
        vec![0, 0, 5, 1],
        vec![5, 0, 1, 5],
    ];
    let mut domains = Vec::new();
    for which in 0..2 {
        let mut ops = vec![
            Next, Peek, PeekMut, PeekSet, IfTrue, IfFalse, IfSmall, IfEqSame, IfEqOther, TakeAll, TakeNone,
            TakeSmall, TakeTwo, MapAll, MapSmall, MapOnce, MapPast, SizeHint,
        ];
        if which == 1 {
            ops.push(Current);
        }
        let k = ops.len();
        for n in 1..=if thorough { 6 } else { 5 } {
            let (ops, lists) = (ops.clone(), lists.clone());
            let inner = n.min(2);
            domains.push(domain(
                format!(
                    "{}: all sequences of {} of {} operations on {} item lists",
                    ["Peekable", "CachedPeekable"][which],
                    n,
                    k,
                    lists.len()
                ),
                k.pow((n - inner) as u32),
                16,
                move |i, ctx| {
                    let mut i = i as usize;
                    let mut seq = Vec::new();
                    for _ in 0..n - inner {
                        seq.push(ops[i % k]);
                        i /= k;
                    }
                    let base = seq.len();
                    for j in 0..k.pow(inner as u32) {
                        seq.truncate(base);
                        let mut j = j;
                        for _ in 0..inner {
                            seq.push(ops[j % k]);
                            j /= k;
                        }
                        for l in &lists {
                            ctx.sample(|| format!("{:?} on {:?}", seq, l));
                            run_case(ctx, which, l, &seq);
                            if ctx.failed() {
                                return;
                            }
                        }
                    }
                },
            ));
        }
    }
    // few operations, many of them
    let long: Vec<Vec<u32>> = vec![vec![0, 1, 5, 0, 5, 5, 1, 0], vec![5, 5, 5, 5], (0..20).collect()];
    for which in 0..2 {
        let mut ops = vec![Next, Peek, PeekSet, IfSmall, IfFalse, IfEqSame];
        if which == 1 {
            ops.push(Current);
        } else {
            ops.push(TakeTwo);
        }
        let k = ops.len();
        let n = if thorough { 9 } else { 7 };
        let long = long.clone();
        domains.push(domain(
            format!("{}: all sequences of {} of {} operations on {} longer item lists", ["Peekable", "CachedPeekable"][which], n, k, long.len()),
            k.pow(n as u32),
            1024,
            move |i, ctx| {
                let seq: Vec<Op> = (0..n as u32).map(|j| ops[i as usize / k.pow(j) % k]).collect();
                for l in &long {
                    ctx.sample(|| format!("{:?} on {:?}", seq, l));
                    run_case(ctx, which, l, &seq);
                    if ctx.failed() {
                        return;
                    }
                }
            },
        ));
        // every pair of operations behind any number of steps
        let mut all = vec![
            Next, Peek, PeekMut, PeekSet, IfTrue, IfFalse, IfSmall, IfEqSame, IfEqOther, TakeAll, TakeNone,
            TakeSmall, TakeTwo, MapAll, MapSmall, MapOnce, MapPast, SizeHint,
        ];
        if which == 1 {
            all.push(Current);
        }
        let k = all.len();
        let far = if thorough { 600 } else { 300 };
        domains.push(domain(
            format!("{}: each of {} pairs of operations after up to {} repetitions of each operation", ["Peekable", "CachedPeekable"][which], k * k, far),
            k * k * k,
            16,
            move |i, ctx| {
                let i = i as usize;
                let (first, a, b) = (all[i / k / k], all[i / k % k], all[i % k]);
                for n in [7, 8, 16, 31, 64, 255, 256, 257, far] {
                    let mut seq = vec![first; n];
                    seq.extend([a, b, Next, Peek]);
                    let items: Vec<u32> = (0..n as u32 + 3).map(|x| x % 3).collect();
                    ctx.sample(|| format!("{} times {:?}, {:?}, {:?}", n, first, a, b));
                    run_case(ctx, which, &items, &seq);
                    if ctx.failed() {
                        return;
                    }
                }
            },
        ));
    }
    let mut missing = Vec::new();
    for (f, n) in [
        (cfg!(feature = "std_peekable"), "peekable trait on the standard iterator"),
        (cfg!(feature = "cached"), "cached peekable iterator"),
        (cfg!(feature = "take"), "cautious take while"),
        (cfg!(feature = "map"), "cautious map while"),
    ] {
        if !f {
            missing.push(format!("not part of this tree, not judged: {}", n));
        }
    }
    let mut assumptions = vec![
        "list model with position and last consumed item".to_string(),
        "the underlying iterator keeps returning the end once it has ended".to_string(),
    ];
    assumptions.extend(missing);
    Check {
        id: "C09",
        domains,
        assumptions,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let code = match arg(1) {
        "run" => run(&check(arg(2), arg(3) == "thorough"), arg(3), &verif),
        "worker" => {
            worker(&check(arg(2), arg(3) == "thorough"), num(4), num(5), Path::new(arg(6)));
            0
        }
        "one" => one(&check(arg(2), arg(3) == "thorough"), num(4) as usize, num(5), num(6) as u32),
        "replay" => {
            let body = std::fs::read_to_string(arg(2)).expect("replay file");
            let tier = json_str(&body, "tier").expect("tier");
            one(
                &check("C09", tier == "thorough"),
                json_int(&body, "domain_index").expect("domain") as usize,
                json_int(&body, "index").expect("index"),
                json_int(&body, "seed_no").expect("seed_no") as u32,
            )
        }
        _ => {
            eprintln!("usage: mc-iter run C09 quick|thorough | replay FILE");
            2
        }
    };
    flush();
    std::process::exit(code);
}
