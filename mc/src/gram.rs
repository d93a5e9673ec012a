//! Reference model of grammars: languages, LR(0) automata, FIRST, FOLLOW and
//! SLR(1) tables, written from the textbook definitions.

use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    T(u8),
    V(u8),
    E,
}

pub type Rule = (u8, Vec<S>);

/// A grammar; variable 0 is the start variable.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct G {
    pub nv: u8,
    pub nt: u8,
    pub rules: Vec<Rule>,
}

pub fn var_name(v: u8) -> String {
    match v {
        0 => "S".into(),
        1..=15 => ((b'A' + v - 1) as char).to_string(),
        _ => format!("V{}", v),
    }
}

pub fn ter_name(t: u8) -> String {
    match t {
        0..=25 => ((b'a' + t) as char).to_string(),
        _ => format!("t{}", t),
    }
}

pub fn ter_char(t: u8) -> char {
    match t {
        0..=25 => (b'a' + t) as char,
        _ => char::from_u32(0x100 + t as u32).unwrap(),
    }
}

pub fn sym_name(s: &S) -> String {
    match s {
        S::T(t) => ter_name(*t),
        S::V(v) => var_name(*v),
        S::E => "ε".into(),
    }
}

impl G {
    pub fn show(&self) -> String {
        self.rules
            .iter()
            .map(|(h, b)| {
                let b: Vec<_> = b.iter().map(sym_name).collect();
                format!("{} → {}", var_name(*h), if b.is_empty() { "[]".into() } else { b.join(" ") })
            })
            .collect::<Vec<_>>()
            .join("; ")
    }

    /// "S: a S b | ; A: ..." with upper case variables; S is the start.
    pub fn read(text: &str) -> G {
        let mut names: Vec<char> = vec!['S'];
        for part in text.split(';') {
            let (h, _) = part.split_once(':').expect("head");
            let h = h.trim().chars().next().unwrap();
            if !names.contains(&h) {
                names.push(h);
            }
        }
        let mut ters: Vec<char> = Vec::new();
        let mut rules = Vec::new();
        for part in text.split(';') {
            let (h, bodies) = part.split_once(':').unwrap();
            let h = names.iter().position(|n| *n == h.trim().chars().next().unwrap()).unwrap() as u8;
            for b in bodies.split('|') {
                let mut v = Vec::new();
                for w in b.split_whitespace() {
                    for c in w.chars() {
                        if c == 'ε' {
                            v.push(S::E);
                        } else if c.is_uppercase() {
                            v.push(S::V(names.iter().position(|n| *n == c).expect("variable") as u8));
                        } else {
                            let i = ters.iter().position(|t| *t == c).unwrap_or_else(|| {
                                ters.push(c);
                                ters.len() - 1
                            });
                            v.push(S::T(i as u8));
                        }
                    }
                }
                rules.push((h, v));
            }
        }
        G {
            nv: names.len() as u8,
            nt: ters.len() as u8,
            rules,
        }
    }

    /// Productions without empty-word symbols and without duplicates.
    pub fn strip(&self) -> Vec<Rule> {
        let mut v: Vec<Rule> = Vec::new();
        for (h, b) in &self.rules {
            let r = (*h, b.iter().copied().filter(|s| *s != S::E).collect::<Vec<_>>());
            if !v.contains(&r) {
                v.push(r);
            }
        }
        v
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.nv as usize];
        r[0] = true;
        loop {
            let mut change = false;
            for (h, b) in &self.rules {
                if r[*h as usize] {
                    for s in b {
                        if let S::V(v) = s {
                            change |= !std::mem::replace(&mut r[*v as usize], true);
                        }
                    }
                }
            }
            if !change {
                return r;
            }
        }
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.nv as usize];
        loop {
            let mut change = false;
            for (h, b) in &self.rules {
                if !p[*h as usize] && b.iter().all(|s| !matches!(s, S::V(v) if !p[*v as usize])) {
                    p[*h as usize] = true;
                    change = true;
                }
            }
            if !change {
                return p;
            }
        }
    }

    pub fn reduced(&self) -> bool {
        self.reachable().into_iter().all(|x| x) && self.productive().into_iter().all(|x| x)
    }
}

// ------------------------------------------------------------- languages

/// Numbers all words over `nt` letters up to length `max`.
pub struct Words {
    pub nt: usize,
    pub max: usize,
    offset: Vec<usize>,
    pow: Vec<usize>,
    pub count: usize,
    len_of: Vec<u8>,
}

impl Words {
    pub fn new(nt: usize, max: usize) -> Self {
        let mut offset = vec![0];
        let mut pow = vec![1];
        for l in 0..=max {
            offset.push(offset[l] + pow[l]);
            pow.push(pow[l] * nt);
        }
        let count = offset[max + 1];
        let mut len_of = vec![0; count];
        for l in 0..=max {
            for x in &mut len_of[offset[l]..offset[l + 1]] {
                *x = l as u8;
            }
        }
        Words {
            nt,
            max,
            offset,
            pow,
            count,
            len_of,
        }
    }
    pub fn word(&self, i: usize) -> Vec<u8> {
        let l = self.len_of[i] as usize;
        let mut v = i - self.offset[l];
        let mut w = vec![0; l];
        for k in (0..l).rev() {
            w[k] = (v % self.nt.max(1)) as u8;
            v /= self.nt.max(1);
        }
        w
    }
    pub fn index(&self, w: &[u8]) -> usize {
        let v = w.iter().fold(0, |v, k| v * self.nt + *k as usize);
        self.offset[w.len()] + v
    }
    fn cat(&self, a: usize, b: usize) -> Option<usize> {
        let (la, lb) = (self.len_of[a] as usize, self.len_of[b] as usize);
        if la + lb > self.max {
            return None;
        }
        Some(self.offset[la + lb] + (a - self.offset[la]) * self.pow[lb] + (b - self.offset[lb]))
    }
    fn letter(&self, t: u8) -> usize {
        self.offset[1] + t as usize
    }
}

/// For every variable, the words it derives (indices), by fixpoint.
pub fn languages(g: &G, w: &Words) -> Vec<Vec<bool>> {
    let rules = g.strip();
    let mut lists: Vec<Vec<usize>> = vec![Vec::new(); g.nv as usize];
    let mut has: Vec<Vec<bool>> = vec![vec![false; w.count]; g.nv as usize];
    loop {
        let mut change = false;
        for (h, b) in &rules {
            let mut cur: Vec<usize> = vec![0];
            for s in b {
                let mut next = Vec::new();
                let mut seen = vec![false; w.count];
                match s {
                    S::T(t) => {
                        for x in &cur {
                            if let Some(y) = w.cat(*x, w.letter(*t)) {
                                next.push(y);
                            }
                        }
                    }
                    S::V(v) => {
                        for x in &cur {
                            for y in &lists[*v as usize] {
                                if let Some(z) = w.cat(*x, *y) {
                                    if !std::mem::replace(&mut seen[z], true) {
                                        next.push(z);
                                    }
                                }
                            }
                        }
                    }
                    S::E => unreachable!(),
                }
                cur = next;
                if cur.is_empty() {
                    break;
                }
            }
            for x in cur {
                if !std::mem::replace(&mut has[*h as usize][x], true) {
                    lists[*h as usize].push(x);
                    change = true;
                }
            }
        }
        if !change {
            return has;
        }
    }
}

/// Whether the start variable derives the word.
pub fn derives(g: &G, word: &[u8]) -> bool {
    if word.len() > 8 {
        return earley(g, word);
    }
    let is = derives_by_spans(g, word);
    // the two references have to agree wherever both are cheap
    if word.len() > 4 {
        assert_eq!(is, earley(g, word), "references disagree: {} on {:?}", g.show(), word);
    }
    is
}

/// Earley's recognizer.
fn earley(g: &G, word: &[u8]) -> bool {
    let rules = g.strip();
    let nv = g.nv as usize;
    let nullable = sets(g).nullable;
    let mut of: Vec<Vec<usize>> = vec![Vec::new(); nv];
    // number of the first item of each rule: items are numbered through
    let mut base = Vec::new();
    let mut items = 0;
    for (i, (h, b)) in rules.iter().enumerate() {
        of[*h as usize].push(i);
        base.push(items);
        items += b.len() + 1;
    }
    type Item = (usize, usize, usize);
    // items waiting for a variable, by position and variable
    let mut waiting: Vec<Vec<Vec<Item>>> = Vec::new();
    let mut now: Vec<Item> = of[0].iter().map(|r| (*r, 0, 0)).collect();
    for k in 0..=word.len() {
        let mut seen = std::collections::HashSet::new();
        let mut predicted = vec![false; nv];
        waiting.push(vec![Vec::new(); nv]);
        let mut queue: Vec<Item> = Vec::new();
        for (r, dot, from) in now.drain(..) {
            if seen.insert((base[r] + dot, from)) {
                queue.push((r, dot, from));
            }
        }
        let mut next = Vec::new();
        let mut whole = false;
        while let Some((r, dot, from)) = queue.pop() {
            let (h, b) = &rules[r];
            let mut add = Vec::new();
            match b.get(dot) {
                Some(S::T(t)) => {
                    if word.get(k) == Some(t) {
                        next.push((r, dot + 1, from));
                    }
                }
                Some(S::V(v)) => {
                    let v = *v as usize;
                    waiting[k][v].push((r, dot, from));
                    if !std::mem::replace(&mut predicted[v], true) {
                        add.extend(of[v].iter().map(|r| (*r, 0, k)));
                    }
                    if nullable[v] {
                        add.push((r, dot + 1, from));
                    }
                }
                Some(S::E) => unreachable!(),
                None => {
                    whole |= *h == 0 && from == 0;
                    // what is complete and empty was passed over by the rule for nullable ones
                    if from < k {
                        add.extend(waiting[from][*h as usize].iter().map(|(r, d, f)| (*r, d + 1, *f)));
                    }
                }
            }
            for (r, dot, from) in add {
                if seen.insert((base[r] + dot, from)) {
                    queue.push((r, dot, from));
                }
            }
        }
        if k == word.len() {
            return whole;
        }
        if next.is_empty() {
            return false;
        }
        now = next;
    }
    unreachable!()
}

/// Fixpoint over spans.
fn derives_by_spans(g: &G, word: &[u8]) -> bool {
    let n = word.len();
    let rules = g.strip();
    let at = |v: u8, i: usize, j: usize| (v as usize * (n + 1) + i) * (n + 1) + j;
    let mut d = vec![false; g.nv as usize * (n + 1) * (n + 1)];
    loop {
        let mut change = false;
        for (h, b) in &rules {
            for i in 0..=n {
                // positions reachable after each symbol
                let mut cur = vec![false; n + 1];
                cur[i] = true;
                for s in b {
                    let mut next = vec![false; n + 1];
                    for k in i..=n {
                        if !cur[k] {
                            continue;
                        }
                        match s {
                            S::T(t) => {
                                if k < n && word[k] == *t {
                                    next[k + 1] = true;
                                }
                            }
                            S::V(v) => {
                                for (j, x) in next.iter_mut().enumerate().skip(k) {
                                    *x |= d[at(*v, k, j)];
                                }
                            }
                            S::E => unreachable!(),
                        }
                    }
                    cur = next;
                }
                for (j, c) in cur.iter().enumerate() {
                    if *c && !std::mem::replace(&mut d[at(*h, i, j)], true) {
                        change = true;
                    }
                }
            }
        }
        if !change {
            return d[at(0, 0, n)];
        }
    }
}

/// Shortest sentences: up to `count` words of at most `max` letters.
pub fn sentences(g: &G, max: usize, count: usize) -> Vec<Vec<u8>> {
    // shortest yield of every variable
    let rules = g.strip();
    let inf = usize::MAX / 4;
    let mut short = vec![inf; g.nv as usize];
    loop {
        let mut change = false;
        for (h, b) in &rules {
            let n: usize = b
                .iter()
                .map(|s| match s {
                    S::V(v) => short[*v as usize],
                    _ => 1,
                })
                .fold(0, |a, b| (a + b).min(inf));
            if n < short[*h as usize] {
                short[*h as usize] = n;
                change = true;
            }
        }
        if !change {
            break;
        }
    }
    let cost = |f: &[S]| -> usize {
        f.iter()
            .map(|s| match s {
                S::V(v) => short[*v as usize],
                _ => 1,
            })
            .fold(0, |a, b| (a + b).min(inf))
    };
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut seen: BTreeSet<(usize, Vec<S>)> = BTreeSet::new();
    let mut queue: BTreeSet<(usize, usize, Vec<S>)> = BTreeSet::new();
    let start = vec![S::V(0)];
    queue.insert((cost(&start), 1, start));
    while let Some((c, _, form)) = queue.pop_first() {
        if c > max || out.len() >= count || seen.len() > 60 * count + 2000 {
            break;
        }
        if !seen.insert((c, form.clone())) {
            continue;
        }
        match form.iter().position(|s| matches!(s, S::V(_))) {
            None => out.push(
                form.iter()
                    .map(|s| match s {
                        S::T(t) => *t,
                        _ => unreachable!(),
                    })
                    .collect(),
            ),
            Some(i) => {
                let S::V(v) = form[i] else { unreachable!() };
                for (h, b) in &rules {
                    if *h == v {
                        let mut f = form[..i].to_vec();
                        f.extend(b);
                        f.extend(&form[i + 1..]);
                        let c = cost(&f);
                        if c <= max && f.len() <= 3 * max + 6 {
                            queue.insert((c, f.len(), f));
                        }
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------- FIRST, FOLLOW

pub const EOF: u128 = 1 << 127;

pub struct Sets {
    pub nullable: Vec<bool>,
    pub first: Vec<u128>,
    /// Includes [`EOF`].
    pub follow: Vec<u128>,
}

pub fn sets(g: &G) -> Sets {
    let rules = g.strip();
    let n = g.nv as usize;
    let mut nullable = vec![false; n];
    let mut first = vec![0u128; n];
    let mut follow = vec![0u128; n];
    follow[0] = EOF;
    loop {
        let before = (nullable.clone(), first.clone(), follow.clone());
        for (h, b) in &rules {
            let h = *h as usize;
            let mut all = true;
            for s in b {
                match s {
                    S::T(t) => {
                        first[h] |= 1 << t;
                        all = false;
                    }
                    S::V(v) => {
                        first[h] |= first[*v as usize];
                        all = nullable[*v as usize];
                    }
                    S::E => unreachable!(),
                }
                if !all {
                    break;
                }
            }
            if all {
                nullable[h] = true;
            }
            let mut after = follow[h];
            for s in b.iter().rev() {
                match s {
                    S::T(t) => after = 1 << t,
                    S::V(v) => {
                        follow[*v as usize] |= after;
                        if nullable[*v as usize] {
                            after |= first[*v as usize];
                        } else {
                            after = first[*v as usize];
                        }
                    }
                    S::E => unreachable!(),
                }
            }
        }
        if before == (nullable.clone(), first.clone(), follow.clone()) {
            return Sets {
                nullable,
                first,
                follow,
            };
        }
    }
}

// ------------------------------------------------------------- automata

/// Item: rule number and position of the bullet.
pub type Item = (usize, usize);

pub struct Lr0 {
    pub rules: Vec<Rule>,
    pub states: Vec<BTreeSet<Item>>,
    pub trans: Vec<BTreeMap<S, usize>>,
}

fn skip(body: &[S], mut at: usize) -> usize {
    while body.get(at) == Some(&S::E) {
        at += 1;
    }
    at
}

fn automaton(rules: Vec<Rule>, start: BTreeSet<Item>) -> Lr0 {
    let closure = |mut set: BTreeSet<Item>| -> BTreeSet<Item> {
        let mut todo: Vec<Item> = set.iter().copied().collect();
        while let Some((r, at)) = todo.pop() {
            if let Some(S::V(v)) = rules[r].1.get(at) {
                for (k, (h, b)) in rules.iter().enumerate() {
                    if h == v {
                        let i = (k, skip(b, 0));
                        if set.insert(i) {
                            todo.push(i);
                        }
                    }
                }
            }
        }
        set
    };
    let first = closure(start);
    let mut number: HashMap<BTreeSet<Item>, usize> = HashMap::new();
    number.insert(first.clone(), 0);
    let mut states = vec![first];
    let mut trans = Vec::new();
    let mut i = 0;
    while i < states.len() {
        let mut by: BTreeMap<S, BTreeSet<Item>> = BTreeMap::new();
        for (r, at) in &states[i] {
            if let Some(s) = rules[*r].1.get(*at) {
                by.entry(*s).or_default().insert((*r, skip(&rules[*r].1, at + 1)));
            }
        }
        let mut row = BTreeMap::new();
        for (s, kernel) in by {
            let set = closure(kernel);
            let n = states.len();
            let k = *number.entry(set.clone()).or_insert(n);
            if k == n {
                states.push(set);
            }
            row.insert(s, k);
        }
        trans.push(row);
        i += 1;
    }
    Lr0 {
        rules,
        states,
        trans,
    }
}

/// Raw bodies as the builder keeps them: empty ones are the empty word, equal
/// ones are one.
pub fn raw_rules(g: &G) -> Vec<Rule> {
    let mut v: Vec<Rule> = Vec::new();
    for (h, b) in &g.rules {
        let r = (*h, if b.is_empty() { vec![S::E] } else { b.clone() });
        if !v.contains(&r) {
            v.push(r);
        }
    }
    v
}

/// The automaton over the grammar's own rules, started in the start variable's.
pub fn plain(g: &G) -> Lr0 {
    let rules = raw_rules(g);
    let start = rules
        .iter()
        .enumerate()
        .filter(|(_, (h, _))| *h == 0)
        .map(|(i, (_, b))| (i, skip(b, 0)))
        .collect();
    automaton(rules, start)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(usize),
    /// Head and number of symbols.
    Reduce(u8, usize),
    Accept,
}

pub struct Table {
    /// Per state: action on a terminal, [`EOF_COL`] for the end.
    pub action: Vec<BTreeMap<u8, Act>>,
    pub goto: Vec<BTreeMap<u8, usize>>,
}

pub const EOF_COL: u8 = 255;

/// SLR(1) table of the augmented grammar, `None` on a conflict.
pub fn slr(g: &G) -> Option<Table> {
    let mut rules = g.strip();
    let aug = g.nv;
    rules.push((aug, vec![S::V(0)]));
    let top = rules.len() - 1;
    let f = sets(g);
    let a = automaton(rules, BTreeSet::from([(top, 0)]));
    let mut action = Vec::new();
    let mut goto = Vec::new();
    for (i, st) in a.states.iter().enumerate() {
        let mut row: BTreeMap<u8, (Act, usize)> = BTreeMap::new();
        let mut gt = BTreeMap::new();
        for (s, k) in &a.trans[i] {
            match s {
                S::T(t) => {
                    row.insert(*t, (Act::Shift(*k), usize::MAX));
                }
                S::V(v) => {
                    gt.insert(*v, *k);
                }
                S::E => unreachable!(),
            }
        }
        for (r, at) in st {
            let (h, b) = &a.rules[*r];
            if *at < b.len() {
                continue;
            }
            let (look, act) = if *r == top {
                (EOF, Act::Accept)
            } else {
                (f.follow[*h as usize], Act::Reduce(*h, b.len()))
            };
            for t in (0..g.nt).chain([EOF_COL]) {
                let bit = if t == EOF_COL { EOF } else { 1 << t };
                if look & bit == 0 {
                    continue;
                }
                match row.get(&t) {
                    Some((_, o)) if *o != *r => return None,
                    _ => {
                        row.insert(t, (act, *r));
                    }
                }
            }
        }
        action.push(row.into_iter().map(|(t, (a, _))| (t, a)).collect());
        goto.push(gt);
    }
    Some(Table { action, goto })
}

// ------------------------------------------------------------- enumeration

/// All grammars with exactly `nv` variables (all reachable) over at most `nt`
/// terminals, with bodies of at most `body` symbols and total size (rules plus
/// symbols) at most `size`, one per renaming of terminals and variables.
pub fn enumerate(nv: u8, nt: u8, body: usize, size: usize, eps: bool, useful: bool) -> Vec<G> {
    let mut alphabet: Vec<S> = Vec::new();
    for v in 0..nv {
        alphabet.push(S::V(v));
    }
    for t in 0..nt {
        alphabet.push(S::T(t));
    }
    if eps {
        alphabet.push(S::E);
    }
    let mut bodies: Vec<Vec<S>> = Vec::new();
    let mut level: Vec<Vec<S>> = vec![vec![]];
    for n in 0..=body {
        if n > 0 || !eps {
            bodies.extend(level.iter().cloned());
        }
        level = level
            .iter()
            .flat_map(|b| {
                alphabet.iter().map(move |s| {
                    let mut c = b.clone();
                    c.push(*s);
                    c
                })
            })
            .collect();
    }
    let rules: Vec<Rule> = (0..nv)
        .flat_map(|v| bodies.iter().map(move |b| (v, b.clone())))
        .collect();
    let perms = permutations(nv, nt);
    let mut out = Vec::new();
    let mut cur: Vec<usize> = Vec::new();
    fn go(
        rules: &[Rule],
        from: usize,
        left: usize,
        nv: u8,
        cur: &mut Vec<usize>,
        emit: &mut dyn FnMut(&[usize]),
    ) {
        // all heads present?
        let covered = {
            let mut m = 0u32;
            for i in cur.iter() {
                m |= 1 << rules[*i].0;
            }
            m == (1 << nv) - 1
        };
        if covered {
            emit(cur);
        }
        for i in from..rules.len() {
            // a head that is skipped can not be added later
            if !covered {
                let mut m = 0u32;
                for k in cur.iter() {
                    m |= 1 << rules[*k].0;
                }
                let next = rules[i].0;
                if (0..next).any(|v| m & (1 << v) == 0) {
                    break;
                }
            }
            let c = 1 + rules[i].1.len();
            if c <= left {
                cur.push(i);
                go(rules, i + 1, left - c, nv, cur, emit);
                cur.pop();
            }
        }
    }
    go(&rules, 0, size, nv, &mut cur, &mut |idx| {
        let g = G {
            nv,
            nt,
            rules: idx.iter().map(|i| rules[*i].clone()).collect(),
        };
        if g.reachable().into_iter().any(|x| !x) {
            return;
        }
        if useful && g.productive().into_iter().any(|x| !x) {
            return;
        }
        // smallest of its renamings
        let mut sorted = g.rules.clone();
        sorted.sort();
        for (pv, pt) in &perms {
            let mut r: Vec<Rule> = g
                .rules
                .iter()
                .map(|(h, b)| {
                    (
                        pv[*h as usize],
                        b.iter()
                            .map(|s| match s {
                                S::V(v) => S::V(pv[*v as usize]),
                                S::T(t) => S::T(pt[*t as usize]),
                                S::E => S::E,
                            })
                            .collect(),
                    )
                })
                .collect();
            r.sort();
            if r < sorted {
                return;
            }
        }
        out.push(g);
    });
    out
}

fn permutations(nv: u8, nt: u8) -> Vec<(Vec<u8>, Vec<u8>)> {
    let pv = perms((1..nv).collect());
    let pt = perms((0..nt).collect());
    let mut out = Vec::new();
    for v in &pv {
        let mut w = vec![0];
        w.extend(v);
        for t in &pt {
            out.push((w.clone(), t.clone()));
        }
    }
    out
}

pub fn perms<T: Clone>(v: Vec<T>) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for i in 0..v.len() {
        let mut rest = v.clone();
        let x = rest.remove(i);
        for mut p in perms(rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

// ------------------------------------------------------------- families

/// Grammars of growing size that stress one aspect each.
pub fn family(kind: usize, n: u8) -> Option<(&'static str, G)> {
    let (t, v) = (S::T, S::V);
    let mut rules: Vec<Rule> = Vec::new();
    let (name, nv, nt) = match kind {
        0 => {
            // expression levels with n binary operators
            for i in 0..n {
                let next = if i + 1 < n { v(i + 1) } else { v(n) };
                rules.push((i, vec![v(i), t(i), next]));
                rules.push((i, vec![next]));
            }
            rules.push((n, vec![t(n)]));
            rules.push((n, vec![t(n + 1), v(0), t(n + 2)]));
            ("left-associative operators", n + 1, n + 3)
        }
        1 => {
            for i in 0..n {
                let next = v(i + 1);
                rules.push((i, vec![next, t(i), v(i)]));
                rules.push((i, vec![next]));
            }
            rules.push((n, vec![t(n)]));
            ("right-associative operators", n + 1, n + 1)
        }
        2 => {
            // optional elements in order
            rules.push((0, (1..=n).map(v).collect()));
            for i in 1..=n {
                rules.push((i, vec![t(i - 1)]));
                rules.push((i, vec![]));
            }
            ("optional elements", n + 1, n)
        }
        3 => {
            let mut b: Vec<S> = (1..=n).map(v).collect();
            b.push(t(n));
            rules.push((0, b));
            for i in 1..=n {
                rules.push((i, vec![t(i - 1), v(i)]));
                rules.push((i, vec![]));
            }
            ("optional lists before a terminal", n + 1, n + 1)
        }
        4 => {
            rules.push((0, (0..n).map(t).collect()));
            ("one long body", 1, n)
        }
        5 => {
            for i in 0..n {
                rules.push((0, vec![t(i)]));
            }
            rules.push((0, vec![t(0), v(0), t(n - 1)]));
            if n < 3 {
                return None;
            }
            ("many alternatives", 1, n)
        }
        6 => {
            // unit chain
            rules.push((0, vec![v(1), t(0)]));
            for i in 1..n {
                rules.push((i, vec![v(i + 1)]));
            }
            rules.push((n, vec![t(1)]));
            ("unit chain", n + 1, 2)
        }
        7 => {
            // FOLLOW travels through a chain of trailing variables
            rules.push((0, vec![t(0), v(1), t(1)]));
            rules.push((0, vec![t(2), v(1), t(3)]));
            rules.push((0, vec![v(1)]));
            for i in 1..n {
                rules.push((i, vec![t(4), v(i + 1)]));
            }
            rules.push((n, vec![]));
            rules.push((n, vec![t(5)]));
            ("trailing variables", n + 1, 6)
        }
        8 => {
            // mutual left recursion
            for i in 0..n {
                rules.push((i, vec![v((i + 1) % n), t(i)]));
            }
            rules.push((0, vec![t(n)]));
            ("mutual left recursion", n, n + 1)
        }
        9 => {
            // mutual right recursion
            for i in 0..n {
                rules.push((i, vec![t(i), v((i + 1) % n)]));
            }
            rules.push((n / 2, vec![t(n)]));
            rules.push((0, vec![]));
            ("mutual right recursion", n, n + 1)
        }
        10 => {
            // nested brackets of n kinds
            for i in 0..n {
                rules.push((0, vec![t(2 * i), v(0), t(2 * i + 1), v(0)]));
            }
            rules.push((0, vec![]));
            ("nested brackets", 1, 2 * n)
        }
        11 => {
            // nullable chain: FIRST through n empty variables
            rules.push((0, vec![v(1), t(0)]));
            for i in 1..n {
                rules.push((i, vec![v(i + 1), v(i + 1), t(1)]));
                rules.push((i, vec![]));
            }
            rules.push((n, vec![]));
            ("nullable prefixes", n + 1, 2)
        }
        12 => {
            // palindromes around a centre
            for i in 0..n {
                rules.push((0, vec![t(i), v(0), t(i)]));
            }
            rules.push((0, vec![t(n)]));
            ("palindromes", 1, n + 1)
        }
        13 => {
            // right-linear chain that shares states
            for i in 0..n {
                rules.push((i, vec![t(0), v(i + 1)]));
                rules.push((i, vec![t(1), v(i + 1)]));
            }
            rules.push((n, vec![t(2)]));
            ("right-linear levels", n + 1, 3)
        }
        14 => {
            // separated lists inside each other
            for i in 0..n {
                rules.push((i, vec![v(i), t(i), v(i + 1)]));
                rules.push((i, vec![v(i + 1)]));
            }
            rules.push((n, vec![t(n), v(0), t(n + 1)]));
            rules.push((n, vec![t(n), t(n + 1)]));
            ("separated nested lists", n + 1, n + 2)
        }
        15 => {
            // LR but not SLR for n >= 1: lookahead of different contexts
            rules.push((0, vec![v(1), t(0)]));
            rules.push((0, vec![t(1), v(1), t(2)]));
            rules.push((0, vec![t(3), t(2)]));
            rules.push((0, vec![t(1), t(3), t(0)]));
            rules.push((1, vec![t(3)]));
            for i in 0..n {
                rules.push((1, vec![t(4 + i)]));
            }
            ("LALR but not SLR", 2, 4 + n)
        }
        16 => {
            // long common prefix
            let mut a = vec![t(0); n as usize];
            let mut b = a.clone();
            a.push(t(1));
            b.push(t(2));
            rules.push((0, a));
            rules.push((0, b));
            ("common prefix", 1, 3)
        }
        17 => {
            // dangling parts: statements
            rules.push((0, vec![v(1), v(0)]));
            rules.push((0, vec![]));
            rules.push((1, vec![t(0), t(1), v(2), t(2)]));
            rules.push((1, vec![t(3), v(2), t(4), v(0), t(5)]));
            for i in 0..n {
                rules.push((2 + i, vec![v(2 + i), t(7 + i), v(3 + i)]));
                rules.push((2 + i, vec![v(3 + i)]));
            }
            rules.push((2 + n, vec![t(0)]));
            rules.push((2 + n, vec![t(6)]));
            ("statements and expressions", 3 + n, 7 + n)
        }
        18 => {
            // explicit empty-word symbols everywhere
            let mut b = vec![S::E; n as usize];
            b.push(t(0));
            b.extend(vec![S::E; n as usize]);
            b.push(v(0));
            b.push(S::E);
            rules.push((0, b));
            rules.push((0, vec![S::E; n as usize + 1]));
            ("empty-word symbols", 1, 1)
        }
        19 => {
            // cyclic FOLLOW dependencies
            for i in 0..n {
                rules.push((i, vec![t(0), v((i + 1) % n)]));
                rules.push((i, vec![t(1 + i)]));
            }
            let last = n;
            rules.push((n / 2, vec![t(n + 1), v(last)]));
            rules.push((last, vec![]));
            rules.push((last, vec![t(n + 2), v(0)]));
            ("cyclic trailing variables", n + 1, n + 3)
        }
        20 => {
            // FIRST of every variable of a left-recursive cycle is collected from all
            // of them, and decides what can follow another variable
            rules.push((0, vec![v(1), v(2)]));
            rules.push((1, vec![t(0)]));
            for i in 0..n {
                rules.push((2 + i, vec![v(2 + (i + 1) % n), t(1 + i)]));
                rules.push((2 + i, vec![t(1 + n + i)]));
            }
            ("left-recursive cycle with alternatives", n + 2, 2 * n + 1)
        }
        21 => {
            // FOLLOW of every variable of a right-recursive cycle is collected from all
            for i in 0..n {
                rules.push((0, vec![t(i), v(1 + i), t(n + i)]));
                rules.push((1 + i, vec![t(2 * n), v(1 + (i + 1) % n)]));
                rules.push((1 + i, vec![t(2 * n + 1)]));
            }
            ("right-recursive cycle in contexts", n + 1, 2 * n + 2)
        }
        22 => {
            // left-recursive lists that can be empty
            let mut b: Vec<S> = vec![v(1)];
            b.extend((0..n).map(|i| v(2 + i)));
            b.push(t(1));
            rules.push((0, b));
            rules.push((1, vec![t(0)]));
            for i in 0..n {
                rules.push((2 + i, vec![v(2 + i), t(2 + i)]));
                rules.push((2 + i, vec![]));
            }
            ("left-recursive lists before a terminal", n + 2, n + 2)
        }
        23 => {
            // a left-recursive cycle of variables that can all be empty
            rules.push((0, vec![v(1), v(2), t(1)]));
            rules.push((1, vec![t(0)]));
            for i in 0..n {
                rules.push((2 + i, vec![v(2 + (i + 1) % n), t(2 + i)]));
                rules.push((2 + i, vec![]));
            }
            ("nullable left-recursive cycle", n + 2, n + 2)
        }
        _ => return None,
    };
    Some((name, G { nv, nt, rules }))
}

pub const FAMILIES: usize = 24;

/// Well-known grammars.
pub fn classics() -> Vec<G> {
    [
        "S: a",
        "S: ",
        "S: aSb | ",
        "S: aSb | ab",
        "S: Sa | ",
        "S: Sa | a",
        "S: aS | a",
        "S: aS | ",
        "S: SS | a",
        "S: aSa | b",
        "S: aSa | bSb | ",
        "S: E; E: E+T | T; T: T*F | F; F: (E) | i",
        "S: S+S | i",
        "S: iSeS | iS | o",
        "S: L=R | R; L: *R | i; R: L",
        "S: Aa | bAc | dc | bda; A: d",
        "S: aAd | bBd | aBe | bAe; A: c; B: c",
        "S: AB; A: a | ; B: b | ",
        "S: AA; A: a | b",
        "S: CC; C: cC | d",
        "S: A; A: aA | B; B: bB | ",
        "S: AaAb | BbBa; A: ; B: ",
        "S: [L] | i; L: L,S | S",
        "S: [L] | i; L: MS | ; M: L,",
        "S: {M} | [L] | n; M: P,M | P | ; P: k:S; L: S,L | S | ",
        "S: (S)S | ",
        "S: S(S) | ",
        "S: aB | bA; A: a | aS | bAA; B: b | bS | aBB",
        "S: A | B; A: aA | a; B: aB | b",
        "S: A | B; A: a; B: a",
        "S: aAc | aBd; A: b; B: b",
        "S: D; D: dD | ; ",
        "S: AS | b; A: SA | a",
        "S: ABCD; A: a | ; B: b | ; C: c | ; D: d | ",
        "S: Ax; A: Ay | Bz; B: Aw | v",
        "S: TL; T: i | f; L: L,n | n",
        "S: aA | bB; A: cC | ; B: cC; C: d | ",
        "S: εaεSε | ε",
        "S: εA | A; A: a",
        "S: a | εa",
        "S: Aε; A: εε | aεA",
        "S: wA; A: ,wA | ",
        "S: if; ",
        "S: A; A: B; B: C; C: S | a",
        "S: S | a",
        "S: Sb | A; A: aAb | ",
        "S: AAAA; A: a | E; E: ",
        "S: VV; V: xV | y; ",
        "S: aABe; A: Abc | b; B: d",
        "S: -S | S-S | i",
        "S: xAy | xBz; A: pAq | pq; B: pBqq | pqq",
        "S: a; A: b",
        "S: aA; A: A",
        "S: aS",
        "S: Ab; A: A | a",
    ]
    .iter()
    .map(|t| G::read(t.trim_end().trim_end_matches(';')))
    .collect()
}
