//! C09 finding, C10 extending, C11 splitting by a matcher, C12 trimming, C13 remainder and split-with,
//! C14 closure of selection-operation chains.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real::check_list;
use crate::real::{self, Cut, Op};
use layered_nlp::{create_line_from_input_tokens, FinishWith, LLSelection};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

struct Case<'a> {
    m: &'a MLine,
    ix: &'a Index,
    sels: &'a real::Sels,
    ms: &'a [Mx],
}

type Check = fn(&Case, &mut Ctx) -> Result<(), String>;

fn families(thorough: bool) -> Vec<(&'static str, Lines)> {
    let mut v = vec![
        ("mixed-lines", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Space, Kind::Bare], vals: vec![Val::A(0), Val::A(1), Val::B(0)], lo: 1, hi: 3, min_anns: 0, max_anns: 2 }),
        ("nested-lines", Lines { kinds: vec![Kind::Word], vals: vec![Val::A(0)], lo: 1, hi: 4, min_anns: 0, max_anns: 4 }),
        ("token-patterns", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Space, Kind::Val], vals: vec![Val::A(0)], lo: 4, hi: 5, min_anns: 0, max_anns: 1 }),
        ("wide-lines", Lines { kinds: vec![Kind::Letter], vals: vec![Val::A(0)], lo: 5, hi: 6, min_anns: 2, max_anns: 3 }),
    ];
    if thorough {
        v.push(("mixed-lines-4", Lines { kinds: vec![Kind::Word, Kind::Space, Kind::Bare], vals: vec![Val::A(0), Val::A(1), Val::B(0)], lo: 4, hi: 4, min_anns: 0, max_anns: 2 }));
        v.push(("nested-lines-5", Lines { kinds: vec![Kind::Word], vals: vec![Val::A(0)], lo: 5, hi: 5, min_anns: 4, max_anns: 4 }));
        v.push(("nested-three-types", Lines { kinds: vec![Kind::Word, Kind::Space], vals: vec![Val::A(0), Val::B(0)], lo: 3, hi: 3, min_anns: 3, max_anns: 3 }));
        v.push(("token-patterns-6", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Space], vals: vec![Val::A(0)], lo: 6, hi: 6, min_anns: 0, max_anns: 1 }));
    }
    v
}

fn run_case(s: &Spec, ms: &[Mx], check: Check, c: &mut Ctx) -> Result<(), String> {
    if !s.feasible() {
        return Ok(());
    }
    let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
    let ix = m.index();
    let sels = real::Sels::new(real::full(l), &m)?;
    for r in ranges(if m.len() <= real::DENSE { m.len() } else { 0 }) {
        if s.reachable(r) && sels.get(r).is_none() {
            return Err(format!("tokens {:?} cannot be selected", r));
        }
    }
    check(&Case { m: &m, ix: &ix, sels: &sels, ms }, c)
}

fn over(thorough: bool, check: Check) -> Vec<Space> {
    let ms = Arc::new(selection_matchers());
    let mut out = Vec::new();
    for (name, f) in families(thorough) {
        let g = f.clone();
        let ms = ms.clone();
        out.push(Space::new(
            name,
            &format!("{} x all selections x {} matchers", f.rule(), ms.len()),
            f.size(),
            move |i| g.at(i),
            Spec::show,
            move |s: &Spec, c| run_case(s, &ms, check, c),
        ));
    }
    let lf = LongLines { max: if thorough { 40 } else { 21 }, stride: if thorough { 2 } else { 7 } };
    let g = lf.clone();
    let few: Arc<Vec<Mx>> = Arc::new(ms.iter().step_by(if thorough { 1 } else { 2 }).cloned().collect());
    out.push(Space::new(
        "long-lines",
        &format!("{} x all selections x {} matchers", lf.rule(), few.len()),
        lf.size(),
        move |i| g.at(i),
        |s| format!("{} tokens {:?}.., {} annotations, first {:?}", s.kinds.len(), s.kinds.first(), s.anns.len(), s.anns.first()),
        move |s: &Spec, c| run_case(s, &few, check, c),
    ));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    let few: Arc<Vec<Mx>> = Arc::new(ms.iter().skip(1).step_by(if thorough { 1 } else { 2 }).chain([&Mx::AttrA]).cloned().collect());
    out.push(Space::new(
        "scale",
        &format!("{} x all selections between borders near powers of two x {} matchers", f.rule(), few.len()),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        move |s: &Spec, c| run_case(s, &ScaleLines::matchers(s, &few), check, c),
    ));
    out.push(Space::new(
        "huge",
        HUGE_RULE,
        HUGE_SHAPES * 10,
        |i| (huge_line(i % HUGE_SHAPES), huge_matchers()[(i / HUGE_SHAPES) as usize].clone()),
        |(s, m)| format!("{}, matcher {:?}", ScaleLines::show(s), m),
        move |(s, m): &(Spec, Mx), c| run_case(s, std::slice::from_ref(m), check, c),
    ));
    let one = one_text();
    let g = one.clone();
    let ms2 = ms.clone();
    out.push(Space::new("one-text", &format!("{} (0 word, 1 blank, 2 comma, 3 number, where they stay apart) x all selections x {} matchers", one.rule(), ms.len()), one.size(), move |i| g.at(i), Spec::show, move |s: &Spec, c| {
        run_case(s, &ms2, check, c)
    }));
    let few: Arc<Vec<Mx>> = Arc::new(ms.iter().step_by(if thorough { 1 } else { 2 }).chain(&[Mx::Text, Mx::Ws, Mx::AttrTag, Mx::AttrA]).cloned().collect());
    out.push(Space::new("token-texts", &format!("{} x all selections x {} matchers", all_token_lines_rule(), few.len()), all_token_lines(), any_token_line, Spec::show, move |s: &Spec, c| {
        run_case(s, &few, check, c)
    }));
    out.push(Space::new("every-scalar", SCALAR_LINES, SCALARS, scalar_line, Spec::show, move |s: &Spec, c| run_case(s, &scalar_matchers(s), check, c)));
    out.push(histories(thorough, check, ms));
    out
}

/// Selections by the operations that led to them: one for every token range and chain of up to `depth` operation kinds.
fn by_history(sels: &real::Sels, depth: usize) -> Result<Vec<(Rng, LLSelection)>, String> {
    let ms = [Mx::Text, Mx::Ws, Mx::AttrA, Mx::Seq2(Box::new(Mx::Text), Box::new(Mx::Text)), Mx::HasTag(vec![layered_nlp::TextTag::WORD])];
    let n = sels.n;
    let others: Vec<LLSelection> = ranges(n).into_iter().filter_map(|r| sels.get(r)).collect();
    let mut seen = std::collections::HashSet::new();
    let mut level: Vec<(LLSelection, Vec<&'static str>)> = vec![(sels.full.clone(), vec![])];
    let mut all = Vec::new();
    for _ in 0..depth {
        let mut next = Vec::new();
        for (s, path) in &level {
            step(s, &others, &ms, &mut |op, _, t| {
                // one that is no part of the line is a matter of C14
                if let Some(q) = ranges(n).into_iter().find(|q| sels.get(*q).map_or(false, |x| x == t)) {
                    let mut p = path.clone();
                    p.push(op);
                    if seen.insert((q, p.clone())) {
                        all.push((q, t.clone()));
                        next.push((t, p));
                    }
                }
                Ok(())
            })?;
        }
        level = next;
    }
    Ok(all)
}

/// Lines, as selected from outside or from inside a resolver.
fn histories(thorough: bool, check: Check, ms: Arc<Vec<Mx>>) -> Space {
    let f = Lines { kinds: vec![Kind::Word, Kind::Space, Kind::Val], vals: vec![Val::A(0)], lo: 1, hi: 3, min_anns: 0, max_anns: 1 };
    let g = f.clone();
    let depth = if thorough { 4 } else { 3 };
    Space::new(
        "histories",
        &format!("{}, selected from outside or inside a resolver x one selection per range and chain of 1..={} of the 13 selection operations x {} matchers", f.rule(), depth, ms.len()),
        f.size() * 2,
        move |i| (g.at(i / 2), i % 2 == 1),
        |(s, inside)| format!("{}, {}", s.show(), if *inside { "inside a resolver" } else { "from outside" }),
        move |(s, inside): &(Spec, bool), c| {
            if !s.feasible() {
                return Ok(());
            }
            let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
            let ix = m.index();
            let mut go = |full: LLSelection| {
                let mut sels = real::Sels::new(full, &m)?;
                let list = by_history(&sels, depth)?;
                sels.list(list);
                check(&Case { m: &m, ix: &ix, sels: &sels, ms: &ms }, c)
            };
            if !inside {
                return go(real::full(l));
            }
            let go = RefCell::new(go);
            let res = RefCell::new(Ok(()));
            let _ = l.run(&real::by::<A, _>(|full| {
                *res.borrow_mut() = (go.borrow_mut())(full);
                Vec::new()
            }));
            res.into_inner()
        },
    )
}

fn head(what: &str, k: &Mx, sels: &real::Sels, got: Vec<(LLSelection, u64)>, want: &[(Rng, u64)]) -> Result<(), String> {
    check_list(what, k, sels, &got, &want[..want.len().min(1)])
}

fn hash_list(seed: u64, want: &[(Rng, u64)]) -> u64 {
    want.iter().fold(seed, |h, (r, v)| mix(mix(mix(h, r.0 as u64), r.1 as u64), *v))
}

// ---- C09 ----------------------------------------------------------------------------------------

fn finding(k: &Case, c: &mut Ctx) -> Result<(), String> {
    for (r, s) in k.sels.all() {
        c.states += 1;
        for m in k.ms {
            let at = |e: String| format!("in selection [{}..{}]: {}", r.0, r.1, e);
            let want = k.ix.find_by(r, m);
            check_list("find_by", m, k.sels, &real::matches(s, Op::Find, m), &want).map_err(at)?;
            head("find_first_by", m, k.sels, real::matches(s, Op::FindFirst, m), &want).map_err(at)?;
            let both = k.ix.find_both(r, m);
            check_list("find_by_forwards_and_backwards", m, k.sels, &real::matches(s, Op::FindBoth, m), &both).map_err(at)?;
            c.transitions += 3;
            if !both.is_empty() {
                c.outcome(hash_list(hash_list(9, &want), &both));
            }
        }
    }
    Ok(())
}

/// Found matches turned into assignments, from inside a resolver.
fn finish(s: &Spec, ms: &[Mx], c: &mut Ctx) -> Result<(), String> {
    if !s.feasible() {
        return Ok(());
    }
    let (mut l, mut m) = real::build(&s.ins(), &s.anns, real::uneven)?;
    for k in ms {
        if *k == Mx::AttrB || *k == Mx::EqB(B(0)) {
            continue;
        }
        for r in ranges(m.len()) {
            if !s.reachable(r) {
                continue;
            }
            let ix = m.index();
            let both = r.1 % 2 == 1;
            let want = if both { ix.find_both(r, k) } else { ix.find_by(r, k) };
            l = l.run(&real::by::<B, _>(|full| {
                let sels = real::Sels::new(full, &m).expect("selections");
                let sel = sels.get(r).expect("selection");
                let found = if both { sel.find_by_forwards_and_backwards(k) } else { sel.find_by(k) };
                found.finish_with(|v| B((v % 251) as u8))
            }));
            m.anns.extend(want.iter().map(|(r, v)| (*r, Val::B((v % 251) as u8))));
            let h = real::same_annotations(&l, &m).map_err(|e| format!("after assigning matches of {:?} in [{}..{}]: {}", k, r.0, r.1, e))?;
            c.outcome(h);
            c.transitions += 1;
            c.states += 1;
            if m.anns.len() > 120 {
                let (l2, m2) = real::build(&s.ins(), &s.anns, real::uneven)?;
                l = l2;
                m = m2;
            }
        }
    }
    Ok(())
}

pub fn c09(thorough: bool) -> Vec<Space> {
    let mut v = over(thorough, finding);
    let f = Lines {
        kinds: vec![Kind::Word, Kind::Space, Kind::Val],
        vals: vec![Val::A(0), Val::A(1)],
        lo: 1,
        hi: if thorough { 4 } else { 3 },
        min_anns: 0,
        max_anns: 2,
    };
    let g = f.clone();
    let ms: Vec<Mx> = selection_matchers().into_iter().filter(|m| !matches!(m, Mx::Any3(..))).collect();
    v.push(Space::new(
        "finish-with",
        &format!("{} x all selections x {} matchers, every found match turned into an assignment", f.rule(), ms.len()),
        f.size(),
        move |i| g.at(i),
        Spec::show,
        move |s: &Spec, c| finish(s, &ms, c),
    ));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    let few = Arc::new(selection_matchers());
    v.push(Space::new(
        "finish-with-scale",
        &format!("{} x {} matchers, every match found in the whole line, forwards or both ways, turned into an assignment", f.rule(), few.len()),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        move |s: &Spec, c| {
            for (j, k) in ScaleLines::matchers(s, &few).iter().enumerate() {
                let (l, mut m) = real::build(&s.ins(), &s.anns, real::uneven)?;
                let both = j % 2 == 1;
                let ix = m.index();
                let whole = (0, m.len() - 1);
                let want = if both { ix.find_both(whole, k) } else { ix.find_by(whole, k) };
                if want.len() > 6000 {
                    continue;
                }
                let l = l.run(&real::by::<String, _>(|full| {
                    let found = if both { full.find_by_forwards_and_backwards(k) } else { full.find_by(k) };
                    found.finish_with(|v| v.to_string())
                }));
                m.anns.extend(want.iter().map(|(r, v)| (*r, Val::Str(v.to_string()))));
                let h = real::same_annotations(&l, &m).map_err(|e| format!("after assigning matches of {:?}: {}", k, e.chars().take(400).collect::<String>()))?;
                c.outcome(h);
                c.transitions += 1;
                c.states += 1;
            }
            Ok(())
        },
    ));
    v
}

// ---- C10 ----------------------------------------------------------------------------------------

fn extending(k: &Case, c: &mut Ctx) -> Result<(), String> {
    for (r, s) in k.sels.all() {
        c.states += 1;
        for m in k.ms {
            let at = |e: String| format!("from selection [{}..{}]: {}", r.0, r.1, e);
            let f = k.ix.match_forwards(r, m);
            check_list("match_forwards", m, k.sels, &real::matches(s, Op::Forwards, m), &f).map_err(at)?;
            head("match_first_forwards", m, k.sels, real::matches(s, Op::FirstForwards, m), &f).map_err(at)?;
            let b = k.ix.match_backwards(r, m);
            check_list("match_backwards", m, k.sels, &real::matches(s, Op::Backwards, m), &b).map_err(at)?;
            head("match_first_backwards", m, k.sels, real::matches(s, Op::FirstBackwards, m), &b).map_err(at)?;
            c.transitions += 4;
            if !f.is_empty() || !b.is_empty() {
                c.outcome(hash_list(hash_list(10, &f), &b));
            }
        }
    }
    Ok(())
}

pub fn c10(thorough: bool) -> Vec<Space> {
    over(thorough, extending)
}

// ---- C11 ----------------------------------------------------------------------------------------

fn splitting(k: &Case, c: &mut Ctx) -> Result<(), String> {
    for (r, s) in k.sels.all() {
        c.states += 1;
        for m in k.ms {
            let want = k.ix.split_by(r, m);
            let got = real::cuts(s, Cut::Split, m);
            let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| k.sels.is(g, *w));
            if !same {
                return Err(format!(
                    "splitting [{}..{}] by {:?}: expected {:?}, got {:?}",
                    r.0,
                    r.1,
                    m,
                    want,
                    got.iter().map(|g| k.sels.show(g)).collect::<Vec<_>>()
                ));
            }
            c.transitions += 1;
            c.outcome(want.iter().fold(mix(11, (r.0 * 64 + r.1) as u64), |h, (a, b)| mix(mix(h, *a as u64), *b as u64)));
        }
    }
    Ok(())
}

pub fn c11(thorough: bool) -> Vec<Space> {
    let mut v = over(thorough, splitting);
    let mut fams = vec![(
        "split-nesting-5",
        Lines { kinds: vec![Kind::Word], vals: vec![Val::A(0)], lo: 5, hi: 5, min_anns: 1, max_anns: if thorough { 5 } else { 4 } },
    )];
    if thorough {
        fams.push(("split-nesting-7", Lines { kinds: vec![Kind::Word], vals: vec![Val::A(0)], lo: 7, hi: 7, min_anns: 1, max_anns: 3 }));
    }
    for (name, f) in fams {
        let g = f.clone();
        let ms = vec![Mx::AttrA, Mx::Seq2(Box::new(Mx::AttrA), Box::new(Mx::Text)), Mx::Seq2(Box::new(Mx::Text), Box::new(Mx::AttrA))];
        v.push(Space::new(
            name,
            &format!("{} x all selections x {:?}", f.rule(), ms),
            f.size(),
            move |i| g.at(i),
            Spec::show,
            move |s: &Spec, c| run_case(s, &ms, splitting, c),
        ));
    }
    v
}

// ---- C12 ----------------------------------------------------------------------------------------

fn trimming(k: &Case, c: &mut Ctx) -> Result<(), String> {
    for (r, s) in k.sels.all() {
        c.states += 1;
        for m in k.ms {
            let mut h = mix(12, (r.0 * 64 + r.1) as u64);
            for (what, start, end, got) in [
                ("trim_start", true, false, real::cuts(s, Cut::TrimStart, m).pop()),
                ("trim_end", false, true, real::cuts(s, Cut::TrimEnd, m).pop()),
                ("trim", true, true, real::cuts(s, Cut::Trim, m).pop()),
            ] {
                let want = k.ix.trim(r, m, start, end);
                let same = match (&got, want) {
                    (Some(g), Some(w)) => k.sels.is(g, w),
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    return Err(format!(
                        "{} of [{}..{}] by {:?}: expected {:?}, got {:?}",
                        what,
                        r.0,
                        r.1,
                        m,
                        want,
                        got.as_ref().map(|g| k.sels.show(g))
                    ));
                }
                c.transitions += 1;
                h = mix(h, want.map_or(9999, |w| (w.0 * 64 + w.1) as u64));
            }
            c.outcome(h);
        }
    }
    Ok(())
}

pub fn c12(thorough: bool) -> Vec<Space> {
    over(thorough, trimming)
}

// ---- C13 ----------------------------------------------------------------------------------------

fn remainder(k: &Case, c: &mut Ctx) -> Result<(), String> {
    let all: Vec<(Rng, LLSelection)> = k.sels.all().map(|(r, s)| (r, s.clone())).collect();
    remainders(k, &all, &all, c)
}

/// Selections with a history against ones without, both ways.
fn remainder_histories(k: &Case, c: &mut Ctx) -> Result<(), String> {
    let all: Vec<(Rng, LLSelection)> = k.sels.all().map(|(r, s)| (r, s.clone())).collect();
    let plain: Vec<(Rng, LLSelection)> = ranges(k.m.len()).into_iter().filter_map(|r| Some((r, k.sels.get(r)?))).collect();
    remainders(k, &all, &plain, c)?;
    remainders(k, &plain, &all, c)
}

fn remainders(k: &Case, lefts: &[(Rng, LLSelection)], rights: &[(Rng, LLSelection)], c: &mut Ctx) -> Result<(), String> {
    let is = |g: &Option<LLSelection>, w: Option<Rng>| match (g, w) {
        (Some(g), Some(w)) => k.sels.is(g, w),
        (None, None) => true,
        _ => false,
    };
    for (r, s) in lefts {
        let r = *r;
        c.states += 1;
        let got = s.after();
        let want = k.ix.after(r);
        if !is(&got, want) {
            return Err(format!("after [{}..{}]: expected {:?}, got {:?}", r.0, r.1, want, got.as_ref().map(|g| k.sels.show(g))));
        }
        c.transitions += 1;
        for (q, o) in rights {
            let q = *q;
            let got = s.split_with(o);
            let want = Index::split_with(r, q);
            if !is(&got[0], want[0]) || !is(&got[1], want[1]) {
                return Err(format!(
                    "splitting [{}..{}] with [{}..{}]: expected {:?}, got {:?}",
                    r.0,
                    r.1,
                    q.0,
                    q.1,
                    want,
                    got.iter().map(|g| g.as_ref().map(|g| k.sels.show(g))).collect::<Vec<_>>()
                ));
            }
            c.transitions += 1;
            let cd = |w: Option<Rng>| w.map_or(9999, |w| (w.0 * 64 + w.1) as u64);
            c.outcome(mix(mix(mix(cd(Some(r)), cd(Some(q))), cd(want[0])), cd(want[1])));
        }
    }
    Ok(())
}

/// Selections reached by walking (so not built with split_with) must be equal to the table's.
fn walked(k: &Case, c: &mut Ctx) -> Result<(), String> {
    let n = k.m.len();
    let firsts: Vec<LLSelection> = k.sels.full.find_by(&Mx::Text).into_iter().map(|x| x.0).collect();
    if firsts.len() != n {
        return Ok(());
    }
    for lo in 0..n {
        let mut s = firsts[lo].clone();
        for hi in lo..n {
            if !k.sels.is(&s, (lo, hi)) {
                return Err(format!("extending token {} to token {} gives {}", lo, hi, k.sels.show(&s)));
            }
            let want = k.ix.after((lo, hi));
            let got = s.after();
            let ok = match (&got, want) {
                (Some(g), Some(w)) => k.sels.is(g, w),
                (None, None) => true,
                _ => false,
            };
            if !ok {
                return Err(format!("after walking to [{}..{}]: expected {:?}, got {:?}", lo, hi, want, got));
            }
            for (q, o) in k.sels.all() {
                let got = s.split_with(o);
                let want = Index::split_with((lo, hi), q);
                for (g, w) in got.iter().zip(want) {
                    let ok = match (g, w) {
                        (Some(g), Some(w)) => k.sels.is(g, w),
                        (None, None) => true,
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("walked [{}..{}] split with {:?}: expected {:?}, got {:?}", lo, hi, q, want, got));
                    }
                }
                c.transitions += 1;
            }
            c.states += 1;
            if hi + 1 < n {
                s = match s.match_first_forwards(&Mx::Text) {
                    Some((t, _)) => t,
                    None => return Err(format!("[{}..{}] cannot be extended", lo, hi)),
                };
            }
        }
    }
    Ok(())
}

pub fn c13(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let f = Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Space, Kind::Val, Kind::Bare], vals: vec![Val::A(0)], lo: 1, hi: if thorough { 5 } else { 4 }, min_anns: 0, max_anns: 1 };
    let g = f.clone();
    v.push(Space::new("all-pairs", &format!("{} x all pairs of selections", f.rule()), f.size(), move |i| g.at(i), Spec::show, |s: &Spec, c| {
        run_case(s, &[], remainder, c)
    }));
    let max = if thorough { 40 } else { 24 };
    v.push(Space::new(
        "long-pairs",
        &format!("lines of 1..={} word tokens x all pairs of selections, and every selection also reached by walking token by token", max),
        max,
        |i| Spec { kinds: vec![Kind::Word; i as usize + 1], anns: vec![] },
        Spec::show,
        |s: &Spec, c| {
            run_case(s, &[], remainder, c)?;
            run_case(s, &[], walked, c)
        },
    ));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    v.push(Space::new(
        "scale",
        &format!("{} x all pairs of selections between borders near powers of two", f.rule()),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        |s: &Spec, c| run_case(s, &[], remainder, c),
    ));
    v.push(Space::new(
        "huge",
        "lines of 65536, 65537, 65600 and 131100 tokens x all pairs of selections between borders near the ends and 65536",
        HUGE_SHAPES,
        huge_line,
        ScaleLines::show,
        |s: &Spec, c| run_case(s, &[], remainder, c),
    ));
    v.push(Space::new("token-texts", &format!("{} x all pairs of selections", all_token_lines_rule()), all_token_lines(), any_token_line, Spec::show, |s: &Spec, c| run_case(s, &[], remainder, c)));
    v.push(Space::new("every-scalar", SCALAR_LINES, SCALARS, scalar_line, Spec::show, |s: &Spec, c| run_case(s, &[], remainder, c)));
    v.push(histories(thorough, remainder_histories, Arc::new(vec![])));
    // two lines
    let n = if thorough { 4u64 } else { 3 };
    let small = Lines { kinds: vec![Kind::Word, Kind::Space], vals: vec![Val::A(0)], lo: 1, hi: n as usize, min_anns: 0, max_anns: 0 };
    let size = small.size();
    let show = {
        let s = small.clone();
        move |x: &(u64, u64)| format!("{} / {}", s.at(x.0).show(), s.at(x.1).show())
    };
    v.push(Space::new(
        "two-lines",
        "all pairs of lines (equal ones included) x all pairs of their selections: splitting one with the other is rejected, and they are never equal",
        size * size,
        move |i| (i % size, i / size),
        show,
        move |x: &(u64, u64), c| {
            let build = |i: u64| -> Result<real::Sels, String> {
                let s = small.at(i);
                let (l, m) = real::build(&s.ins(), &[], real::uneven)?;
                real::Sels::new(real::full(l), &m)
            };
            let (a, b) = (build(x.0)?, build(x.1)?);
            for (r, s) in a.all() {
                for (q, t) in b.all() {
                    c.transitions += 1;
                    if s == t {
                        return Err(format!("selections {:?} and {:?} of two lines are equal", r, q));
                    }
                    let res = catch_unwind(AssertUnwindSafe(|| s.split_with(t)));
                    if let Ok(v) = res {
                        return Err(format!("splitting {:?} of one line with {:?} of another was accepted: {:?}", r, q, v));
                    }
                }
                c.states += 1;
            }
            Ok(())
        },
    ));
    v
}

// ---- C14 ----------------------------------------------------------------------------------------

fn step(s: &LLSelection, others: &[LLSelection], ms: &[Mx], visit: &mut dyn FnMut(&'static str, Option<&Mx>, LLSelection) -> Result<(), String>) -> Result<u64, String> {
    let mut n = 0;
    for m in ms {
        macro_rules! each {
            ($name:expr, $list:expr) => {
                for t in $list {
                    visit($name, Some(m), t)?;
                }
                n += 1;
            };
        }
        each!("find_by", s.find_by(m).into_iter().map(|x| x.0));
        each!("find_first_by", s.find_first_by(m).into_iter().map(|x| x.0));
        each!("find_by_forwards_and_backwards", s.find_by_forwards_and_backwards(m).into_iter().map(|x| x.0));
        each!("split_by", s.split_by(m));
        each!("match_forwards", s.match_forwards(m).into_iter().map(|x| x.0));
        each!("match_first_forwards", s.match_first_forwards(m).into_iter().map(|x| x.0));
        each!("match_backwards", s.match_backwards(m).into_iter().map(|x| x.0));
        each!("match_first_backwards", s.match_first_backwards(m).into_iter().map(|x| x.0));
        each!("trim_start", s.trim_start(m));
        each!("trim_end", s.trim_end(m));
        each!("trim", s.trim(m));
    }
    if let Some(t) = s.after() {
        visit("after", None, t)?;
    }
    n += 1;
    for o in others {
        for t in s.split_with(o).into_iter().flatten() {
            visit("split_with", None, t)?;
        }
        n += 1;
    }
    Ok(n)
}

/// All selections reachable by any chain of operations, as real values, one (or, up to `dup`, several)
/// per token range.
fn reach(sels: &real::Sels, ms: &[Mx], dup: usize, c: &mut Ctx) -> Result<Vec<(Rng, LLSelection)>, String> {
    let n = sels.n;
    let mut count = vec![0usize; n * n];
    let mut queue: Vec<(Rng, LLSelection)> = vec![((0, n - 1), sels.full.clone())];
    count[n - 1] = 1;
    let mut i = 0;
    while i < queue.len() {
        let (r, s) = queue[i].clone();
        i += 1;
        let others: Vec<LLSelection> = {
            let mut o: Vec<LLSelection> = Vec::new();
            for (_, t) in &queue {
                if !o.contains(t) {
                    o.push(t.clone());
                }
            }
            o
        };
        let mut fresh = Vec::new();
        let k = step(&s, &others, ms, &mut |op, m, t| {
            let q = ranges(n).into_iter().find(|q| sels.get(*q).map_or(false, |x| x == t));
            match q {
                Some(q) => {
                    if count[q.0 * n + q.1] < dup {
                        count[q.0 * n + q.1] += 1;
                        fresh.push((q, t));
                    }
                    Ok(())
                }
                None => Err(format!(
                    "{}{} on selection [{}..{}] gave {:?}, which is no non-empty part of the line's {} tokens",
                    op,
                    m.map_or(String::new(), |m| format!(" {:?}", m)),
                    r.0,
                    r.1,
                    t,
                    n
                )),
            }
        })?;
        c.transitions += k;
        queue.extend(fresh);
    }
    c.states += queue.len() as u64;
    Ok(queue)
}

fn closure(s: &Spec, ms: &[Mx], dup: usize, c: &mut Ctx) -> Result<(), String> {
    if !s.feasible() {
        return Ok(());
    }
    let (l, mut m) = real::build(&s.ins(), &s.anns, real::uneven)?;
    let done: RefCell<Vec<Rng>> = RefCell::new(Vec::new());
    let err: RefCell<Option<String>> = RefCell::new(None);
    let cc = RefCell::new(&mut *c);
    let l = l.run(&real::by::<String, _>(|full| {
        let r = real::Sels::new(full, &m).and_then(|sels| {
            let q = reach(&sels, ms, dup, &mut cc.borrow_mut())?;
            for (i, (r, a)) in q.iter().enumerate() {
                for (t, b) in &q[..=i] {
                    if (a == b) != (r == t) || (b == a) != (r == t) {
                        return Err(format!("equality of selections of {:?} and {:?}: {}", r, t, a == b));
                    }
                }
            }
            Ok(q)
        });
        match r {
            Ok(q) => {
                *done.borrow_mut() = q.iter().map(|x| x.0).collect();
                q.iter().map(|(r, s)| s.finish_with_attr(format!("{:?}", r))).collect()
            }
            Err(e) => {
                *err.borrow_mut() = Some(e);
                Vec::new()
            }
        }
    }));
    if let Some(e) = err.into_inner() {
        return Err(e);
    }
    let done = done.into_inner();
    m.anns.extend(done.iter().map(|r| (*r, Val::Str(format!("{:?}", r)))));
    let h = real::same_annotations(&l, &m)?;
    c.outcome(h);
    Ok(())
}

/// One operation from every listed selection; every selection that comes out is assigned to, and the spans
/// annotated that way are parts of the line and equal to the selections.
fn scale_step(s: &Spec, ms: &[Mx], c: &mut Ctx) -> Result<(), String> {
    let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
    let n = m.len();
    let err: RefCell<Option<String>> = RefCell::new(None);
    let count = RefCell::new(0u64);
    let expected: RefCell<Vec<Rng>> = RefCell::new(Vec::new());
    let l = l.run(&real::by::<String, _>(|full| {
        let sels = match real::Sels::new(full, &m) {
            Ok(s) => s,
            Err(e) => {
                *err.borrow_mut() = Some(e);
                return Vec::new();
            }
        };
        let listed: Vec<(Rng, LLSelection)> = sels.all().map(|(r, s)| (r, s.clone())).collect();
        let others: Vec<LLSelection> = listed.iter().step_by(listed.len() / 12 + 1).map(|x| x.1.clone()).collect();
        // borders to try first on a huge line
        let likely: Vec<usize> = (0..n).filter(|_| n > 5000).filter(|i| [0, 65536, 131_072, n - 1].iter().any(|b| i.abs_diff(*b) < 8)).collect();
        let mut seen: Vec<LLSelection> = Vec::new();
        let mut out = Vec::new();
        for (r, s) in &listed {
            if !seen.contains(s) && seen.len() < 400 {
                seen.push(s.clone());
                expected.borrow_mut().push(*r);
                out.push(s.finish_with_attr(format!("{:?}", r)));
            }
            let r = step(s, &others, ms, &mut |op, m, t| {
                // found again among the parts of the line by the borders it leaves
                let [before, behind] = sels.full.split_with(&t);
                let lo = before.map_or(Some(0), |b| likely.iter().copied().chain(0..n).find(|h| h + 1 < n && sels.get((0, *h)).as_ref() == Some(&b)).map(|h| h + 1));
                let hi = behind.map_or(Some(n - 1), |b| likely.iter().copied().chain(0..n).find(|l| *l > 0 && sels.get((*l, n - 1)).as_ref() == Some(&b)).map(|l| l - 1));
                match (lo, hi) {
                    (Some(lo), Some(hi)) if lo <= hi && sels.is(&t, (lo, hi)) => Ok(()),
                    _ => Err(format!("{}{} on selection {:?} gave {:?}, which is no non-empty part of the line's {} tokens", op, m.map_or(String::new(), |m| format!(" {:?}", m)), r, t, n)),
                }
            });
            match r {
                Ok(k) => *count.borrow_mut() += k,
                Err(e) => {
                    *err.borrow_mut() = Some(e);
                    return Vec::new();
                }
            }
        }
        out
    }));
    if let Some(e) = err.into_inner() {
        return Err(e);
    }
    c.transitions += count.into_inner();
    let mut m = m;
    m.anns.extend(expected.into_inner().into_iter().map(|r| (r, Val::Str(format!("{:?}", r)))));
    c.states += 1;
    let h = real::same_annotations(&l, &m)?;
    c.outcome(h);
    Ok(())
}

pub fn c14(thorough: bool) -> Vec<Space> {
    let ms: Arc<Vec<Mx>> = Arc::new(selection_matchers());
    let mut fams = vec![
        ("closure", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Space, Kind::Val], vals: vec![Val::A(0), Val::B(0)], lo: 1, hi: 3, min_anns: 0, max_anns: 2 }, 1),
        ("closure-chains", Lines { kinds: vec![Kind::Word, Kind::Space], vals: vec![Val::A(0)], lo: 1, hi: 3, min_anns: 0, max_anns: 2 }, 6),
        ("closure-nested", Lines { kinds: vec![Kind::Word], vals: vec![Val::A(0)], lo: 4, hi: 5, min_anns: 0, max_anns: 2 }, 1),
    ];
    if thorough {
        fams.push(("closure-4", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Space, Kind::Val], vals: vec![Val::A(0), Val::B(0)], lo: 4, hi: 4, min_anns: 0, max_anns: 1 }, 1));
        fams.push(("closure-nested-4", Lines { kinds: vec![Kind::Word, Kind::Space], vals: vec![Val::A(0)], lo: 4, hi: 4, min_anns: 3, max_anns: 3 }, 1));
        fams.push(("closure-chains-deep", Lines { kinds: vec![Kind::Word, Kind::Space], vals: vec![Val::A(0)], lo: 2, hi: 3, min_anns: 0, max_anns: 2 }, 40));
        fams.push(("closure-6", Lines { kinds: vec![Kind::Letter], vals: vec![Val::A(0)], lo: 6, hi: 7, min_anns: 0, max_anns: 2 }, 1));
    }
    let mut v = Vec::new();
    for (name, f, dup) in fams {
        let g = f.clone();
        let ms = ms.clone();
        v.push(Space::new(
            name,
            &format!(
                "{} x every chain of the 13 selection operations over {} matchers and every selection reached so far, until no new selection appears (each token range kept up to {} times)",
                f.rule(), ms.len(), dup
            ),
            f.size(),
            move |i| g.at(i),
            Spec::show,
            move |s: &Spec, c| closure(s, &ms, dup, c),
        ));
    }
    v.push(Space::new(
        "no-tokens",
        "the line without tokens",
        1,
        |i| i,
        |_| "the line without tokens".into(),
        |_: &u64, c| {
            c.states += 1;
            c.transitions += 1;
            let l = create_line_from_input_tokens(Vec::new(), |s| s.len());
            match LLSelection::from_line(Rc::new(l)) {
                None => Ok(()),
                Some(s) => Err(format!("a line without tokens has the selection {:?}", s)),
            }
        },
    ));
    let one = one_text();
    let g = one.clone();
    let few: Arc<Vec<Mx>> = Arc::new(ms.iter().step_by(if thorough { 1 } else { 3 }).chain(&[Mx::Text, Mx::Ws, Mx::AttrTag, Mx::AttrA]).cloned().collect());
    let (f1, f2) = (few.clone(), few);
    v.push(Space::new("one-text", &format!("{} (0 word, 1 blank, 2 comma, 3 number, where they stay apart) x every chain of operations over {} matchers", one.rule(), f1.len()), one.size(), move |i| g.at(i), Spec::show, move |s: &Spec, c| {
        closure(s, &f1, 1, c)
    }));
    v.push(Space::new("token-texts", &format!("{} x every chain of operations over {} matchers", all_token_lines_rule(), f2.len()), all_token_lines(), any_token_line, Spec::show, move |s: &Spec, c| closure(s, &f2, 1, c)));
    v.push(Space::new("every-scalar", SCALAR_LINES, SCALARS / if thorough { 1 } else { 4 }, move |i| scalar_line(if thorough { i } else { i * 4 }), Spec::show, |s: &Spec, c| closure(s, &scalar_matchers(s)[..4], 1, c)));
    // one operation from every selection of a long line
    let f = ScaleLines { sizes: sizes(thorough).into_iter().filter(|n| *n <= if thorough { 1100 } else { 300 }).collect() };
    let g = f.clone();
    let few: Arc<Vec<Mx>> = Arc::new(ms.iter().step_by(3).cloned().collect());
    v.push(Space::new(
        "scale",
        &format!("{} x every operation over {} matchers from all selections between borders near powers of two, all results assigned to", f.rule(), few.len()),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        move |s: &Spec, c| scale_step(s, &ScaleLines::matchers(s, &few), c),
    ));
    v.push(Space::new(
        "huge",
        &format!("{}, every operation from all selections between borders near the ends and 65536, all results assigned to", HUGE_RULE),
        HUGE_SHAPES * 10,
        |i| (huge_line(i % HUGE_SHAPES), huge_matchers()[(i / HUGE_SHAPES) as usize].clone()),
        |(s, m)| format!("{}, matcher {:?}", ScaleLines::show(s), m),
        |(s, m): &(Spec, Mx), c| scale_step(s, std::slice::from_ref(m), c),
    ));
    let f = ScaleLines { sizes: sizes(thorough).into_iter().filter(|n| *n <= if thorough { 1100 } else { 300 }).collect() };
    let g = f.clone();
    v.push(Space::new(
        "two-long-lines",
        &format!("{}, built twice and entered twice x all pairs of selections between borders near powers of two", f.rule()),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        |s: &Spec, c| {
            let build = || -> Result<[real::Sels; 2], String> {
                let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
                let rc = Rc::new(l);
                let enter = || real::Sels::new(LLSelection::from_line(rc.clone()).expect("selection"), &m);
                Ok([enter()?, enter()?])
            };
            let ([a, a2], [b, _]) = (build()?, build()?);
            let all: Vec<(Rng, LLSelection)> = b.all().map(|(r, s)| (r, s.clone())).collect();
            let again: Vec<(Rng, LLSelection)> = a2.all().map(|(r, s)| (r, s.clone())).collect();
            let step = all.len() / 24 + 1;
            for (r, s) in a.all() {
                // each with its twin in the other line, and with some others
                for (q, t) in all.iter().enumerate().filter(|(i, x)| i % step == 0 || x.0 .0.abs_diff(r.0) < 2 && x.0 .1.abs_diff(r.1) < 2).map(|x| x.1) {
                    c.transitions += 1;
                    if s == t || t == s {
                        return Err(format!("selections {:?} and {:?} of two lines are equal", r, q));
                    }
                }
                for (q, t) in again.iter().enumerate().filter(|(i, x)| i % step == 0 || x.0 .0.abs_diff(r.0) < 2 && x.0 .1.abs_diff(r.1) < 2).map(|x| x.1) {
                    c.transitions += 1;
                    if (s == t) != (r == *q) {
                        return Err(format!("equality of selections {:?} and {:?} of one line: {}", r, q, s == t));
                    }
                }
                c.states += 1;
            }
            Ok(())
        },
    ));
    // selections of two lines, and of one line entered twice
    let small = Lines { kinds: vec![Kind::Word, Kind::Space], vals: vec![Val::A(0)], lo: 1, hi: if thorough { 4 } else { 3 }, min_anns: 0, max_anns: 1 };
    let size = small.size();
    let show = {
        let s = small.clone();
        move |x: &(u64, u64)| format!("{} / {}", s.at(x.0).show(), s.at(x.1).show())
    };
    v.push(Space::new(
        "two-lines",
        &format!("all pairs of lines (equal ones included) of: {} x all pairs of selections of the two and of one line entered twice", small.rule()),
        size * size,
        move |i| (i % size, i / size),
        show,
        move |x: &(u64, u64), c| {
            let build = |i: u64| -> Result<[real::Sels; 2], String> {
                let s = small.at(i);
                let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
                let rc = Rc::new(l);
                let enter = || real::Sels::new(LLSelection::from_line(rc.clone()).expect("selection"), &m);
                Ok([enter()?, enter()?])
            };
            let ([a, a2], [b, _]) = (build(x.0)?, build(x.1)?);
            for (r, s) in a.all() {
                for (q, t) in b.all() {
                    c.transitions += 1;
                    if s == t || t == s || !(s != t) {
                        return Err(format!("selections {:?} and {:?} of two lines are equal", r, q));
                    }
                }
                for (q, t) in a2.all() {
                    c.transitions += 1;
                    if (s == t) != (r == q) || (s != t) != (r != q) {
                        return Err(format!("equality of selections {:?} and {:?} of one line: {}", r, q, s == t));
                    }
                }
                c.states += 1;
            }
            Ok(())
        },
    ));
    v
}
