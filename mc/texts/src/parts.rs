//! C26: the token-wise resolvers, run on parts of a line.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real::{self, by, Sels};
use layered_clauses::ClauseKeywordResolver;
use layered_nlp::{LLCursorAssignment, LLLine, LLSelection, Resolver, TextMatchAssignResolver};
use layered_part_of_speech::POSTagResolver;
use std::cell::Cell;
use std::collections::HashMap;

const RESOLVERS: u64 = 4;
const NAMES: [&str; 4] = ["text lookup", "text lookup (any case)", "clause keywords", "parts of speech"];

fn table() -> HashMap<String, Vec<u16>> {
    [("if", vec![1, 2]), ("Runs", vec![3]), (",", vec![4]), ("12", vec![5, 5]), (" ", vec![6]), ("then", vec![7])]
        .into_iter()
        .map(|(k, v)| (k.to_string(), v))
        .collect()
}

fn lookup(fold: bool) -> TextMatchAssignResolver<u16> {
    if fold {
        TextMatchAssignResolver::new_case_insensitive(table())
    } else {
        TextMatchAssignResolver::new(table())
    }
}

fn keyword_resolver() -> ClauseKeywordResolver {
    ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then", ","])
}

/// What `r` assigns to the line when it is called on each of these parts, in this order.
fn on_parts<R: Resolver>(l: LLLine, m: &MLine, r: &R, parts: &[Rng]) -> Result<LLLine, String> {
    let err: Cell<Option<String>> = Cell::new(None);
    let l = l.run(&by::<R::Attr, _>(|sel: LLSelection| {
        let sels = match Sels::new(sel, m) {
            Ok(s) => s,
            Err(e) => {
                err.set(Some(e));
                return Vec::new();
            }
        };
        let mut out: Vec<LLCursorAssignment<R::Attr>> = Vec::new();
        for p in parts {
            match sels.get(*p) {
                Some(s) => out.extend(r.go(s)),
                None => err.set(Some(format!("no selection for tokens {:?}", p))),
            }
        }
        out
    }));
    match err.into_inner() {
        Some(e) => Err(e),
        None => Ok(l),
    }
}

type Got = Vec<(Rng, Vec<String>)>;

fn read<T: 'static + std::fmt::Debug>(l: &LLLine) -> Got {
    l.query::<T>().into_iter().map(|(r, _, v)| (r, v.into_iter().map(|x| format!("{:?}", x)).collect())).collect()
}

/// From the annotations of the whole line to those of the parts.
fn restrict(whole: &Got, parts: &[Rng]) -> Got {
    let mut out: Got = Vec::new();
    for (lo, hi) in parts {
        for ((a, b), vs) in whole {
            if lo <= a && b <= hi {
                match out.iter_mut().find(|(r, _)| *r == (*a, *b)) {
                    Some((_, old)) => old.extend(vs.iter().cloned()),
                    None => out.push(((*a, *b), vs.clone())),
                }
            }
        }
    }
    out
}

fn with_resolver<R: Resolver>(ins: &[In], r: &R, lists: &[Vec<Rng>], c: &mut Ctx) -> Result<(), String> {
    let m = MLine::new(ins, &str::len);
    let whole = read::<R::Attr>(&real::line(ins, str::len).run(r));
    if let Some((r, _)) = whole.iter().find(|((a, b), _)| a != b) {
        return Err(format!("the whole line has an annotation on tokens {:?}", r));
    }
    c.outcome(hstr(&format!("{:?}", whole)));
    for parts in lists {
        let l = on_parts(real::line(ins, str::len), &m, r, parts)?;
        let (got, want) = (read::<R::Attr>(&l), restrict(&whole, parts));
        c.transitions += parts.len() as u64;
        if got != want {
            return Err(format!("on the parts {:?}:\n  expected {:?}\n  got      {:?}\n  the whole line has {:?}", parts, want, got, whole));
        }
        real::same_annotations(&l, &m)?;
        real::same_tokens(&l, &m)?;
    }
    c.states += 1;
    Ok(())
}

fn one(k: u64, ins: &[In], lists: &[Vec<Rng>], c: &mut Ctx) -> Result<(), String> {
    match k {
        0 => with_resolver(ins, &lookup(false), lists, c),
        1 => with_resolver(ins, &lookup(true), lists, c),
        2 => with_resolver::<ClauseKeywordResolver>(ins, &keyword_resolver(), lists, c),
        _ => with_resolver::<POSTagResolver>(ins, &POSTagResolver::default(), lists, c),
    }
    .map_err(|e| format!("{}: {}", NAMES[k as usize], e))
}

/// All ways to cut tokens 0..n into consecutive parts.
fn partitions(n: usize) -> Vec<Vec<Rng>> {
    (0..1u64 << (n - 1))
        .map(|cut| {
            let mut v = Vec::new();
            let mut lo = 0;
            for i in 0..n {
                if i + 1 == n || cut >> i & 1 == 1 {
                    v.push((lo, i));
                    lo = i + 1;
                }
            }
            v
        })
        .collect()
}

fn menu() -> Vec<In> {
    let t = |s: &str| In::Text(s.into(), vec![]);
    vec![t("if"), t(" "), t("Runs"), t("12"), In::Custom(1, vec![]), t(","), t("THEN")]
}

pub fn c26(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let k = menu().len() as u64;
    let max = if thorough { 6 } else { 5 };
    v.push(Space::new(
        "parts",
        &format!("all lines of 1..={} tokens over 7 kinds (words, keyword, number, blank, comma, custom) x 4 resolvers x every part, every partition into consecutive parts, every pair of parts (lines up to 4 tokens), and all parts one after the other", max),
        seqs(k, 1, max) * RESOLVERS,
        move |i| {
            let menu = menu();
            let mut d = Dec(i);
            let r = d.take(RESOLVERS);
            (r, seq_at(k, 1, d.0).into_iter().map(|j| menu[j].clone()).collect::<Vec<In>>())
        },
        |x: &(u64, Vec<In>)| format!("{} on parts of the line of {:?}", NAMES[x.0 as usize], x.1),
        |(r, ins), c| {
            let n = ins.len();
            // without text on either side a custom token cannot be selected on its own
            let spec_ok = |p: &Rng| {
                let known = |i: usize| matches!(ins[i], In::Text(..));
                let lo = p.0 == 0 || known(p.0 - 1) || known(p.0);
                let hi = p.1 == n - 1 || known(p.1) || known(p.1 + 1);
                lo && hi
            };
            let ps: Vec<Rng> = ranges(n).into_iter().filter(spec_ok).collect();
            let mut lists: Vec<Vec<Rng>> = ps.iter().map(|p| vec![*p]).collect();
            lists.extend(partitions(n).into_iter().filter(|l| l.iter().all(spec_ok)));
            lists.push(ps.clone());
            if n <= 4 {
                for p in &ps {
                    for q in &ps {
                        lists.push(vec![*p, *q]);
                    }
                }
            }
            lists.push(vec![]);
            one(*r, ins, &lists, c)
        },
    ));
    let sizes: Vec<usize> = if thorough { (6..=40).collect() } else { vec![6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40] };
    let ns = sizes.len() as u64;
    v.push(Space::new(
        "long-lines",
        &format!("lines of {:?} words and blanks in four mixtures x 4 resolvers x every part, all parts that start at the same token, and all cuts into parts of equal length", sizes),
        ns * 4 * RESOLVERS,
        move |i| {
            let mut d = Dec(i);
            let r = d.take(RESOLVERS);
            let mix = d.take(4) as usize;
            let n = sizes[d.0 as usize];
            let words = ["if", " ", "Runs", ",", "12", "THEN", "and", "unknownish", "the", "."];
            (r, (0..n).map(|j| In::Text(words[(j * (mix + 1) + j / 7) % words.len()].into(), vec![])).collect::<Vec<In>>())
        },
        |x: &(u64, Vec<In>)| format!("{} on parts of the line of {:?}", NAMES[x.0 as usize], x.1),
        |(r, ins), c| {
            let n = ins.len();
            let mut lists: Vec<Vec<Rng>> = ranges(n).into_iter().map(|p| vec![p]).collect();
            for lo in 0..n {
                lists.push((lo..n).map(|hi| (lo, hi)).collect());
            }
            for w in 1..=n {
                lists.push((0..n).step_by(w).map(|lo| (lo, (lo + w - 1).min(n - 1))).collect());
                lists.push((0..n).step_by(w).map(|lo| (lo, (lo + w - 1).min(n - 1))).rev().collect());
            }
            one(*r, ins, &lists, c)
        },
    ));
    let np = if thorough { 3 } else { 2 };
    v.push(Space::new(
        "phrases",
        &(phrases_rule(np) + " x 4 resolvers x every part and the cut at every place"),
        phrases(np) * RESOLVERS,
        move |i| (i % RESOLVERS, phrase(i / RESOLVERS)),
        |x: &(u64, String)| format!("{} on parts of the text {:?}", NAMES[x.0 as usize], x.1),
        |(r, text), c| {
            let ins = [In::Text(text.clone(), vec![])];
            let n = tokenize(text).len();
            let mut lists: Vec<Vec<Rng>> = Vec::new();
            if n <= 12 {
                lists.extend(ranges(n).into_iter().map(|p| vec![p]));
            }
            for at in 1..n {
                lists.push(vec![(0, at - 1), (at, n - 1)]);
            }
            lists.push((0..n).map(|i| (i, i)).collect());
            one(*r, &ins, &lists, c)
        },
    ));
    v
}
