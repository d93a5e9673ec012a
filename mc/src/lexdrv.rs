//! Drives the real lexer.

use pango_lexer::Lexer;
use crate::engine::{INSIDE, WATCHED};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

thread_local! {
    static WAY: Cell<u8> = const { Cell::new(0) };
}

/// Ways of registering patterns: all as values, as functions or as mappings, or
/// as mappings, functions and values in turn.
pub const WAYS: u8 = 4;

/// Patterns are registered in this way meanwhile.
pub fn registered<T>(way: u8, f: impl FnOnce() -> T) -> T {
    let before = WAY.with(|w| w.replace(way));
    let r = f();
    WAY.with(|w| w.set(before));
    r
}

pub fn way() -> u8 {
    WAY.with(|w| w.get())
}

/// How the pattern with this number is registered.
pub fn way_of(i: usize) -> u8 {
    match way() {
        _ if i >= FUNS.len() => 0,
        3 => (i as u8 + 2) % 3,
        w => w,
    }
}

fn fun<const N: usize>() -> usize {
    N
}
fn map<const N: usize>(_: &str) -> usize {
    N
}
pub const FUNS: [fn() -> usize; 8] = [fun::<0>, fun::<1>, fun::<2>, fun::<3>, fun::<4>, fun::<5>, fun::<6>, fun::<7>];
pub const MAPPINGS: [fn(&str) -> usize; 8] = [map::<0>, map::<1>, map::<2>, map::<3>, map::<4>, map::<5>, map::<6>, map::<7>];

/// Registers a pattern of this number in the current way. (The builder's type has
/// no public name.)
macro_rules! register {
    ($builder:expr, $pattern:expr, $i:expr) => {
        match $crate::lexdrv::way_of($i) {
            0 => $builder.with_token_unit($pattern, $i),
            1 => $builder.with_token($pattern, $crate::lexdrv::FUNS[$i]),
            _ => $builder.with_token_map($pattern, $crate::lexdrv::MAPPINGS[$i]),
        }
    };
}
pub(crate) use register;

/// Runs code of the implementation; a panic is an outcome.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let watched = WATCHED.load(Ordering::Relaxed);
    if watched {
        INSIDE.fetch_add(1, Ordering::Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if watched {
        INSIDE.fetch_sub(1, Ordering::Relaxed);
    }
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("panic: {}", m)
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tk {
    pub kind: usize,
    pub source: String,
    pub pos: (usize, usize),
}

impl Tk {
    pub fn show(v: &[Tk]) -> String {
        v.iter()
            .map(|t| format!("#{} {:?} {}..{}", t.kind, t.source, t.pos.0, t.pos.1))
            .collect::<Vec<_>>()
            .join(", ")
    }
}

/// First token of the input, if any.
pub fn first(pattern: &str, input: &str) -> Result<Option<Tk>, String> {
    guard(|| {
        let b = register!(Lexer::builder(), pattern, 0usize)
            .map_err(|e| format!("pattern refused: {}", e.to_string().trim()))?;
        Ok(b.tokenize(input).next().map(|t| Tk {
            kind: t.kind,
            source: t.source,
            pos: t.pos,
        }))
    })?
}

/// Result of adding one pattern, alone or behind others: `Ok(Ok(()))` accepted,
/// `Ok(Err(text))` refused with the displayed error, `Err` panicked.
pub fn add(pattern: &str, behind: usize) -> Result<Result<(), String>, String> {
    guard(|| {
        let mut b = Lexer::<usize>::builder();
        for i in 0..behind {
            b = register!(b, "a", i).map_err(|e| format!("pattern \"a\" refused: {}", e))?;
        }
        match register!(b, pattern, behind) {
            Ok(_) => Ok(()),
            Err(e) => Err(e.to_string()),
        }
    })
}

/// All tokens of the input and how many further calls after the first `None`
/// (of `extra`) produced something.
pub fn all(
    patterns: &[impl AsRef<str>],
    input: &str,
    extra: usize,
) -> Result<(Vec<Tk>, Vec<Tk>), String> {
    let cap = input.chars().count() + 2;
    guard(|| {
        let mut b = Lexer::builder();
        for (i, p) in patterns.iter().enumerate() {
            b = register!(b, p.as_ref(), i)
                .map_err(|e| format!("pattern {:?} refused: {}", p.as_ref(), e.to_string().trim()))?;
        }
        let mut l = b.tokenize(input);
        let mut v = Vec::new();
        let conv = |t: pango_lexer::Token<usize>| Tk {
            kind: t.kind,
            source: t.source,
            pos: t.pos,
        };
        while let Some(t) = l.next() {
            v.push(conv(t));
            if v.len() > cap {
                return Err("more tokens than characters".to_string());
            }
        }
        let mut late = Vec::new();
        for _ in 0..extra {
            if let Some(t) = l.next() {
                late.push(conv(t));
            }
        }
        Ok((v, late))
    })?
}
