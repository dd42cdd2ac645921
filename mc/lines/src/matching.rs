//! C07 forward matching, C08 backward matching, C15 line search.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real::check_list;
use crate::real::{self, Op};
use layered_nlp::{create_line_from_input_tokens, TextTag};
use std::sync::Arc;

fn line_families(thorough: bool) -> Vec<(&'static str, Lines)> {
    let ab = vec![Val::A(0), Val::A(1), Val::B(0)];
    let mut v = vec![
        ("lines-mixed", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Bare], vals: ab.clone(), lo: 1, hi: 3, min_anns: 0, max_anns: 2 }),
        ("lines-custom", Lines { kinds: vec![Kind::Val], vals: ab.clone(), lo: 1, hi: 3, min_anns: 3, max_anns: 3 }),
        ("lines-library-types", Lines { kinds: vec![Kind::Letter], vals: vec![Val::Char(','), Val::Tag(TextTag::WORD), Val::A(0)], lo: 1, hi: 3, min_anns: 0, max_anns: 2 }),
        ("lines-longer", Lines { kinds: vec![Kind::Word], vals: vec![Val::A(0), Val::B(0)], lo: 4, hi: 5, min_anns: 0, max_anns: 2 }),
    ];
    if thorough {
        v.push(("lines-mixed-4", Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Bare], vals: ab, lo: 4, hi: 4, min_anns: 0, max_anns: 2 }));
        v.push(("lines-three-anns", Lines { kinds: vec![Kind::Comma], vals: vec![Val::A(0), Val::A(1), Val::B(0), Val::B(1)], lo: 3, hi: 3, min_anns: 3, max_anns: 3 }));
    }
    v
}

/// token_has_any with large sets.
fn large_sets(thorough: bool, check: fn(&Spec, &[Mx], &mut Ctx) -> Result<(), String>) -> Space {
    let ns: Vec<usize> = (0..=70).chain(sizes(thorough).into_iter().filter(|n| *n > 70)).collect();
    let nn = ns.len() as u64;
    Space::new(
        "large-sets",
        "token_has_any with sets of 0..=70 and around powers of two values, the tokens' values at every position of the set (or around its ends, its middle and powers of two), absent, or repeated",
        nn,
        move |i| ns[i as usize],
        |n: &usize| format!("sets of {} values", n),
        move |n, c| {
            let other = |k: usize| char::from_u32(0x4E00 + k as u32).unwrap();
            let s = Spec {
                kinds: vec![Kind::Letter, Kind::Comma, Kind::Word, Kind::Letter, Kind::Val],
                anns: vec![((2, 2), Val::Char('q')), ((2, 2), Val::Char(',')), ((0, 1), Val::Char(',')), ((4, 4), Val::Char('x'))],
            };
            let base: Vec<char> = (0..*n).map(other).collect();
            let mut ms = vec![Mx::HasChar(base.clone()), Mx::HasChar(vec![','; *n]), Mx::HasChar(base.iter().rev().copied().collect())];
            for k in (0..*n).filter(|k| *n <= 70 || [0, 1, 16, 32, 64, 128, 256, 512, 1024, *n / 2, *n - 1, *n].iter().any(|b| k.abs_diff(*b) < 2)) {
                let mut one = base.clone();
                one[k] = ',';
                ms.push(Mx::HasChar(one.clone()));
                let j = *n - 1 - k;
                one[j] = 'x';
                ms.push(Mx::HasChar(one.clone()));
                one[j] = ',';
                ms.push(Mx::HasChar(one));
            }
            check(&s, &ms, c)
        },
    )
}

/// One, two or three operands of a combinator with many candidates each.
fn crowded_operand(thorough: bool, check: fn(&Spec, &[Mx], &mut Ctx) -> Result<(), String>) -> Space {
    let mut cases: Vec<(usize, u64)> = Vec::new();
    for n in (1..=70).chain(sizes(thorough).into_iter().filter(|n| *n > 70)) {
        for p in 0..7 {
            cases.push((n, p));
        }
    }
    let nn = cases.len() as u64;
    Space::new(
        "crowded-operand",
        "5-token lines with 1..=70 (and around powers of two) values at one token or one range of two or three tokens x every position of that attribute in seq, all and any of two and three operands, nested once; with two such operands up to 40 values, with three up to 12",
        nn,
        move |i| cases[i as usize],
        |(n, p)| format!("{} values, place {}", n, p),
        move |(n, p), c| {
            let at = [(0, 0), (1, 1), (2, 2), (4, 4), (1, 2), (0, 2), (2, 4)][*p as usize];
            let s = Spec {
                kinds: vec![Kind::Word, Kind::Comma, Kind::Word, Kind::Letter, Kind::Word],
                anns: (0..*n).map(|k| (at, Val::A((k % 251) as u8))).chain([((1, 1), Val::B(7)), ((3, 3), Val::B(8)), ((at.0, at.1), Val::B(9))]).collect(),
            };
            let x = || Box::new(Mx::AttrA);
            let t = || Box::new(Mx::Text);
            let b = || Box::new(Mx::AttrB);
            let e = || Box::new(Mx::EqA(A(((*n - 1) % 251) as u8)));
            let mut ms = vec![Mx::AttrA, *e()];
            for (l, r) in [(x(), t()), (t(), x()), (x(), b()), (b(), x()), (e(), t()), (t(), e())] {
                ms.push(Mx::Seq2(l.clone(), r.clone()));
                ms.push(Mx::All2(l.clone(), r.clone()));
                ms.push(Mx::Any2(l.clone(), r.clone()));
                if *n <= 70 {
                    ms.push(Mx::Seq2(t(), Box::new(Mx::Seq2(l.clone(), r.clone()))));
                    ms.push(Mx::Seq2(Box::new(Mx::All2(l.clone(), r.clone())), t()));
                    ms.push(Mx::All2(Box::new(Mx::Any2(l.clone(), r.clone())), t()));
                    ms.push(Mx::Any2(t(), Box::new(Mx::Seq2(l, r))));
                }
            }
            for (l, m, r) in [(x(), t(), t()), (t(), x(), t()), (t(), t(), x()), (x(), t(), b()), (b(), x(), t()), (t(), b(), x())] {
                ms.push(Mx::Seq3(l.clone(), m.clone(), r.clone()));
                ms.push(Mx::All3(l.clone(), m.clone(), r.clone()));
                ms.push(Mx::Any3(l, m, r));
            }
            if *n <= 40 {
                ms.push(Mx::All2(x(), x()));
                ms.push(Mx::All3(x(), t(), x()));
                ms.push(Mx::Any3(x(), t(), x()));
            }
            if *n <= 12 {
                ms.push(Mx::All3(x(), x(), x()));
            }
            check(&s, &ms, c)?;
            // the crowd at neighbouring tokens
            if *n <= 40 && *p < 3 {
                let mut s = s;
                s.anns.extend((0..*n).map(|k| ((3, 3), Val::A((k % 5) as u8))));
                s.anns.extend((0..if *n <= 12 { *n } else { 1 }).map(|k| ((4, 4), Val::A((k % 7) as u8))));
                let ms = vec![Mx::Seq2(x(), x()), Mx::Seq3(x(), t(), x()), Mx::Seq3(t(), x(), x()), Mx::Seq3(x(), x(), x()), Mx::Seq3(x(), x(), t())];
                check(&s, &ms, c)?;
            }
            Ok(())
        },
    )
}

fn over_lines(thorough: bool, check: fn(&Spec, &[Mx], &mut Ctx) -> Result<(), String>) -> Vec<Space> {
    let ms = Arc::new(if thorough { thorough_expressions() } else { quick_expressions() });
    let mut out = Vec::new();
    for (name, f) in line_families(thorough) {
        let g = f.clone();
        let ms = ms.clone();
        out.push(Space::new(
            name,
            &format!("{} x {} matcher expressions x all tokens", f.rule(), ms.len()),
            f.size(),
            move |i| g.at(i),
            Spec::show,
            move |s: &Spec, c| if s.feasible() { check(s, &ms, c) } else { Ok(()) },
        ));
    }
    let lf = LongLines { max: if thorough { 64 } else { 33 }, stride: if thorough { 1 } else { 3 } };
    let g = lf.clone();
    let few = Arc::new(selection_matchers());
    out.push(Space::new(
        "long-lines",
        &format!("{} x {} matcher expressions", lf.rule(), few.len()),
        lf.size(),
        move |i| g.at(i),
        |s| format!("{} tokens, {} annotations, first {:?}", s.kinds.len(), s.anns.len(), s.anns.first()),
        move |s: &Spec, c| check(s, &few, c),
    ));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    let few = Arc::new(selection_matchers());
    out.push(Space::new(
        "scale",
        &format!("{} x {} matcher expressions", f.rule(), few.len()),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        move |s: &Spec, c| check(s, &ScaleLines::matchers(s, &few), c),
    ));
    out.push(Space::new(
        "huge",
        HUGE_RULE,
        HUGE_SHAPES * 10,
        |i| (huge_line(i % HUGE_SHAPES), huge_matchers()[(i / HUGE_SHAPES) as usize].clone()),
        |(s, m)| format!("{}, matcher {:?}", ScaleLines::show(s), m),
        move |(s, m): &(Spec, Mx), c| check(s, std::slice::from_ref(m), c),
    ));
    let ms2 = ms.clone();
    let one = one_text();
    let g = one.clone();
    out.push(Space::new("one-text", &format!("{} (0 word, 1 blank, 2 comma, 3 number, where they stay apart) x {} matcher expressions", one.rule(), ms.len()), one.size(), move |i| g.at(i), Spec::show, move |s: &Spec, c| {
        if s.feasible() { check(s, &ms2, c) } else { Ok(()) }
    }));
    let few = Arc::new(selection_matchers());
    out.push(Space::new("token-texts", &format!("{} x {} matcher expressions", all_token_lines_rule(), few.len()), all_token_lines(), any_token_line, Spec::show, move |s: &Spec, c| {
        if s.feasible() { check(s, &few, c) } else { Ok(()) }
    }));
    out.push(Space::new("every-scalar", SCALAR_LINES, SCALARS, scalar_line, Spec::show, move |s: &Spec, c| check(s, &scalar_matchers(s), c)));
    out.push(large_sets(thorough, check));
    out.push(crowded_operand(thorough, check));
    // many candidates at one token
    let n_max = if thorough { 80 } else { 40 };
    let ms2 = ms.clone();
    out.push(Space::new(
        "many-candidates",
        &format!("3-token lines with 1..={} annotations cycling through 1..=6 ranges and two types x {} expressions", n_max, ms.len()),
        n_max * 6 * 2,
        |i| {
            let mut d = Dec(i);
            let spans = d.take(6) as usize + 1;
            let two = d.take(2) == 1;
            let rs = [(0, 2), (0, 0), (0, 1), (1, 1), (1, 2), (2, 2)];
            let n = d.0 as usize + 1;
            Spec {
                kinds: vec![Kind::Word, Kind::Comma, Kind::Word],
                anns: (0..n).map(|k| (rs[k % spans], if two && k % 3 == 0 { Val::B((k % 4) as u8) } else { Val::A((k % 5) as u8) })).collect(),
            }
        },
        Spec::show,
        move |s: &Spec, c| {
            let few: Vec<Mx> = ms2.iter().filter(|m| !matches!(m, Mx::All3(..) | Mx::Seq3(..))).cloned().collect();
            check(s, if s.anns.len() > 8 { &few } else { &ms2 }, c)
        },
    ));
    out
}

// ---- C07 ----------------------------------------------------------------------------------------

fn forwards(s: &Spec, ms: &[Mx], c: &mut Ctx) -> Result<(), String> {
    let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
    let ix = m.index();
    let n = m.len();
    let full = real::full(l);
    let sels = real::Sels::new(full.clone(), &m)?;
    c.states += n as u64;
    for k in ms {
        let got = real::matches(&full, Op::Find, k);
        let want = ix.find_by((0, n - 1), k);
        check_list("matching", k, &sels, &got, &want)?;
        c.transitions += n as u64;
        if !want.is_empty() {
            c.outcome(want.iter().fold(1, |h, (r, v)| mix(mix(mix(h, r.0 as u64), r.1 as u64), *v)));
        }
    }
    Ok(())
}

pub fn c07(thorough: bool) -> Vec<Space> {
    over_lines(thorough, forwards)
}

// ---- C08 ----------------------------------------------------------------------------------------

fn mirror(s: &Spec) -> Spec {
    let n = s.kinds.len();
    Spec {
        // tokens of one text would run together in another order
        kinds: s.kinds.iter().rev().map(|k| if let Kind::Tied(t) = k { Kind::Tok(*t) } else { *k }).collect(),
        anns: s.anns.iter().map(|((a, b), v)| ((n - 1 - b, n - 1 - a), v.clone())).collect(),
    }
}

fn backwards(s: &Spec, ms: &[Mx], c: &mut Ctx) -> Result<(), String> {
    let (l, m) = real::build(&s.ins(), &s.anns, real::uneven)?;
    let ix = m.index();
    let n = m.len();
    let full = real::full(l);
    let sels = real::Sels::new(full.clone(), &m)?;
    // the reversed line, searched forwards by the real code
    let sm = mirror(s);
    let (lm, mm) = real::build(&sm.ins(), &sm.anns, real::uneven)?;
    let fm = real::full(lm);
    let sm = real::Sels::new(fm.clone(), &mm)?;
    c.states += n as u64;
    for k in ms {
        let both = real::matches(&full, Op::FindBoth, k);
        check_list("both ways", k, &sels, &both, &ix.find_both((0, n - 1), k))?;
        for i in 0..n {
            let want = ix.ev(k, i, false);
            if i + 1 < n {
                if let Some(start) = sels.get((i + 1, n - 1)) {
                    let got = real::matches(&start, Op::Backwards, k);
                    let w: Vec<(Rng, u64)> = want.iter().map(|(v, to)| ((*to, n - 1), *v)).collect();
                    check_list("backwards", k, &sels, &got, &w)?;
                    // differential: forwards on the mirrored line
                    if let Some(ms) = sm.get((0, n - 2 - i)) {
                        let other = real::matches(&ms, Op::Forwards, k);
                        let same = other.len() == got.len()
                            && other.iter().zip(&want).all(|((s, v), (w, to))| v == w && sm.is(s, (0, n - 1 - to)));
                        if !same {
                            return Err(format!(
                                "backwards {:?} from token {}: {:?}; forwards on the mirrored line: {:?}",
                                k,
                                i,
                                got.iter().map(|(s, _)| sels.show(s)).collect::<Vec<_>>(),
                                other.iter().map(|(s, _)| sm.show(s)).collect::<Vec<_>>()
                            ));
                        }
                    }
                    c.transitions += 2;
                }
            }
            if !want.is_empty() {
                c.outcome(want.iter().fold(i as u64, |h, (v, t)| mix(mix(h, *t as u64), *v)));
            }
        }
        c.transitions += n as u64;
    }
    Ok(())
}

pub fn c08(thorough: bool) -> Vec<Space> {
    over_lines(thorough, backwards)
}

// ---- C15 ----------------------------------------------------------------------------------------

fn line_search(s: &Spec, ms: &[Mx], c: &mut Ctx) -> Result<(), String> {
    // sizes that make positions differ from indexes, zero-size tokens included
    let ins: Vec<In> = s
        .ins()
        .into_iter()
        .enumerate()
        .map(|(i, t)| match t {
            In::Custom(_, a) => In::Custom([4, 0, 9][i % 3], a),
            t => t,
        })
        .collect();
    let (l, m) = real::build(&ins, &s.anns, |t| if t == "," { 0 } else { t.len() * 3 })?;
    let ix = m.index();
    let n = m.len();
    c.states += n as u64;
    let mut found = Vec::new();
    for k in ms {
        let got = real::search(&l, k);
        let want: Vec<(Rng, u64)> = ix
            .find_by((0, n - 1), k)
            .into_iter()
            .map(|((a, b), v)| ((m.toks[a].start, m.toks[b].end), v))
            .collect();
        if got != want {
            return Err(format!(
                "search {:?}: expected {:?}, got {:?}",
                k,
                want.iter().map(|x| x.0).collect::<Vec<_>>(),
                got.iter().map(|x| x.0).collect::<Vec<_>>()
            ));
        }
        c.transitions += 1;
        if !got.is_empty() {
            c.outcome(got.iter().fold(2, |h, (r, v)| mix(mix(mix(h, r.0 as u64), r.1 as u64), *v)));
        }
        found.push(got);
    }
    // the same matches, in the same order, as the search of the whole-line selection
    let full = real::full(l);
    let sels = real::Sels::new(full.clone(), &m)?;
    for (k, f) in ms.iter().zip(found) {
        let got = real::matches(&full, Op::Find, k);
        let same = got.len() == f.len()
            && got.iter().zip(&f).all(|((_, v), (_, w))| v == w);
        if !same {
            return Err(format!("selection search {:?} finds {:?}, line search {:?}", k, got.iter().map(|(s, _)| sels.show(s)).collect::<Vec<_>>(), f));
        }
        c.transitions += 1;
    }
    Ok(())
}

pub fn c15(thorough: bool) -> Vec<Space> {
    let mut v = over_lines(thorough, line_search);
    v.push(Space::new(
        "no-tokens",
        "the line without tokens x every matcher expression",
        1,
        |i| i,
        |_| "the line without tokens".into(),
        |_: &u64, c| {
            for k in quick_expressions() {
                let l = create_line_from_input_tokens(Vec::new(), |s| s.len());
                if !l.find(&k).is_empty() {
                    return Err(format!("{:?} found something", k));
                }
                c.transitions += 1;
            }
            c.states += 1;
            Ok(())
        },
    ));
    v
}
