//! C04 initial annotations, C05 resolver runs, C06 agreement of the lookups, C25 boxed attributes.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real::{self, check_list};
use layered_nlp::{create_line_from_input_tokens, x, AnyAttribute, InputToken, LLLine, LLSelection, TextTag};
use std::any::TypeId;

fn attr_menu() -> Vec<Val> {
    vec![
        Val::A(0),
        Val::A(1),
        Val::B(0),
        Val::Char('z'),
        Val::Tag(TextTag::WORD),
        Val::Str("s".into()),
    ]
}

fn base_inputs() -> Vec<In> {
    vec![
        In::Text("ab".into(), vec![]),
        In::Text("a".into(), vec![]),
        In::Custom(1, vec![]),
        In::Custom(0, vec![]),
        In::Text("a b".into(), vec![]),
        In::Text("1.5x,".into(), vec![]),
    ]
}

fn with_attrs(i: &In, a: Vec<Val>) -> In {
    match i {
        In::Text(t, _) => In::Text(t.clone(), a),
        In::Custom(s, _) => In::Custom(*s, a),
    }
}

fn show_ins(v: &Vec<In>) -> String {
    format!("inputs {:?}", v)
}

/// The same inputs, with attributes attached one by one after construction.
fn input_by_add(i: &In) -> InputToken {
    let (mut t, attrs) = match i {
        In::Text(t, a) => (InputToken::Text { text: t.clone(), attrs: Vec::new() }, a),
        In::Custom(s, a) => (InputToken::Custom { size: *s, attrs: Vec::new() }, a),
    };
    for a in attrs {
        match a.clone() {
            Val::Char(c) => t.add_attr(c),
            Val::Tag(c) => t.add_attr(c),
            Val::A(c) => t.add_attr(A(c)),
            Val::B(c) => t.add_attr(B(c)),
            Val::P(c) => t.add_attr(P(c)),
            Val::Str(c) => t.add_attr(c),
        }
    }
    t
}

fn initial(ins: &Vec<In>, c: &mut Ctx) -> Result<(), String> {
    let m = MLine::new(ins, &|s: &str| s.len());
    let l = real::line(ins, |s| s.len());
    let h = real::same_annotations(&l, &m)?;
    let l2 = create_line_from_input_tokens(ins.iter().map(input_by_add).collect(), |s| s.len());
    real::same_annotations(&l2, &m).map_err(|e| format!("attributes added one by one: {}", e))?;
    if ins.len() > 1 && ins.len() < 400 {
        // where tokens have no size, attributes still belong to their own input
        real::same_annotations(&real::line(ins, |_| 0), &MLine::new(ins, &|_: &str| 0)).map_err(|e| format!("tokens without size: {}", e))?;
    }
    // the forward search sees them too
    let found = l.find(&x::attr::<A>());
    let got: Vec<(Rng, u64)> = found.iter().map(|f| (f.range(), f.attr().0 as u64)).collect();
    let want: Vec<(Rng, u64)> = m
        .index_spans(TY_A)
        .into_iter()
        .map(|((a, b), v)| ((m.toks[a].start, m.toks[b].end), v))
        .collect();
    if got != want {
        return Err(format!("search finds {:?}, expected {:?}", got, want));
    }
    c.states += 1;
    c.transitions += 1 + 2 * TYS as u64;
    c.outcome(h);
    Ok(())
}

pub fn c04(thorough: bool) -> Vec<Space> {
    let attrs = attr_menu();
    let base = base_inputs();
    let mut v = Vec::new();
    // one input with up to k attributes
    let k1 = if thorough { 5 } else { 4 };
    let (a1, b1) = (attrs.clone(), base.clone());
    v.push(Space::new(
        "one-input",
        &format!("every one of {} inputs with every list of 0..={} attributes over {:?}", base.len(), k1, attrs),
        base.len() as u64 * seqs(attrs.len() as u64, 0, k1),
        move |i| {
            let mut d = Dec(i);
            let b = d.pick(&b1).clone();
            vec![with_attrs(&b, seq_at(a1.len() as u64, 0, d.0).into_iter().map(|k| a1[k].clone()).collect())]
        },
        show_ins,
        initial,
    ));
    // two inputs with up to two attributes each
    let per = base.len() as u64 * seqs(attrs.len() as u64, 0, 2);
    let (a2, b2) = (attrs.clone(), base.clone());
    v.push(Space::new(
        "two-inputs",
        "every pair of inputs, each with every list of 0..=2 attributes",
        per * per,
        move |i| {
            let one = |i: u64| {
                let mut d = Dec(i);
                let b = d.pick(&b2).clone();
                with_attrs(&b, seq_at(a2.len() as u64, 0, d.0).into_iter().map(|k| a2[k].clone()).collect())
            };
            vec![one(i / per), one(i % per)]
        },
        show_ins,
        initial,
    ));
    // up to n inputs with at most one attribute each
    let n = if thorough { 4 } else { 3 };
    let mut menu = Vec::new();
    for b in &base {
        menu.push(b.clone());
        for a in &attrs {
            menu.push(with_attrs(b, vec![a.clone()]));
        }
    }
    let m1 = menu.clone();
    v.push(Space::new(
        "input-lists",
        &format!("all lists of 0..={} inputs, each with at most one attribute", n),
        seqs(menu.len() as u64, 0, n),
        move |i| seq_at(m1.len() as u64, 0, i).into_iter().map(|k| m1[k].clone()).collect(),
        show_ins,
        initial,
    ));
    let (mc, mi) = if thorough { (1030u64, 520u64) } else { (300, 270) };
    let (a3, b3) = (attrs.clone(), base.clone());
    v.push(Space::new(
        "many-attributes",
        &format!("1..={} attributes cycling through every pair of attributes on one input", mc),
        mc * (base.len() * attrs.len() * attrs.len()) as u64,
        move |i| {
            let mut d = Dec(i);
            let b = d.pick(&b3).clone();
            let (p, q) = (d.pick(&a3).clone(), d.pick(&a3).clone());
            let list = [p, q].iter().cycle().take(d.0 as usize + 1).cloned().collect();
            vec![with_attrs(&b, list)]
        },
        show_ins,
        initial,
    ));
    let mw = if thorough { 2100 } else { 600 };
    v.push(Space::new(
        "wide-inputs",
        &format!("a text of 1..={} tokens of 3 kinds with attributes, alone or before, behind or between others", mw),
        mw * 12,
        move |i| {
            let mut d = Dec(i);
            let kind = d.take(3);
            let place = d.take(4);
            let n = d.0 as usize + 1;
            let text = match kind {
                0 => (0..n).map(|k| if k % 2 == 0 { "ab" } else { " " }).collect::<String>(),
                1 => ",".repeat(n),
                _ => (0..n).map(|k| if k % 2 == 0 { "1" } else { "a" }).collect::<String>(),
            };
            let t = In::Text(text, vec![Val::A(1), Val::B(0), Val::A(0)]);
            let u = In::Text("x y".into(), vec![Val::A(2)]);
            match place {
                0 => vec![t],
                1 => vec![u, t],
                2 => vec![t, In::Custom(1, vec![Val::A(3)])],
                _ => vec![u.clone(), t, u],
            }
        },
        show_ins,
        initial,
    ));
    v.push(Space::new(
        "huge",
        "lists of up to 131100 inputs with attributes around the ends and 65536, 70000 attributes on one input, a text of 66001 tokens",
        HUGE_SHAPES + 6,
        |i| {
            let many = |n: usize| (0..n).map(|k| Val::A((k % 251) as u8)).collect::<Vec<Val>>();
            let text = "a ".repeat(33000) + "b";
            match i.checked_sub(HUGE_SHAPES) {
                None => huge_line(i)
                    .ins()
                    .into_iter()
                    .enumerate()
                    .map(|(k, t)| match t {
                        In::Custom(n, mut a) => {
                            if k % 4096 == 1 {
                                a.push(Val::B(k as u8));
                            }
                            In::Custom(n, a)
                        }
                        In::Text(t, _) => In::Text(t, vec![Val::A(9), Val::Char('q')]),
                    })
                    .collect::<Vec<_>>(),
                Some(0) => vec![In::Custom(1, many(65536))],
                Some(1) => vec![In::Text("a b".into(), many(70000)), In::Custom(2, vec![Val::A(1)])],
                Some(2) => vec![In::Text(text, vec![Val::A(1)]), In::Custom(1, vec![Val::A(2)])],
                Some(3) => vec![In::Custom(1, vec![Val::A(2)]), In::Text(text, vec![Val::A(1), Val::Tag(TextTag::WORD)])],
                Some(4) => vec![In::Text("x".repeat(65537), vec![Val::A(1)]), In::Text("y".into(), vec![Val::A(2)])],
                _ => vec![In::Text("1".repeat(70000), vec![Val::A(1)]), In::Text("y".into(), vec![Val::A(2)])],
            }
        },
        |v: &Vec<In>| format!("{} inputs", v.len()),
        initial,
    ));
    let m2 = menu.clone();
    v.push(Space::new(
        "many-inputs",
        &format!("1..={} copies of every input with at most one attribute", mi),
        mi * menu.len() as u64,
        move |i| {
            let mut d = Dec(i);
            let one = d.pick(&m2).clone();
            vec![one; d.0 as usize + 1]
        },
        show_ins,
        initial,
    ));
    const AROUND: &[(&str, &str)] = &[("", ""), ("a", ""), (" ", " "), ("1", "")];
    v.push(Space::new(
        "every-scalar",
        &format!("{}, with two supplied attributes", scalars_rule(AROUND)),
        SCALARS * AROUND.len() as u64,
        |i| vec![In::Text(in_context(AROUND, i), vec![Val::A(1), Val::Char('x')])],
        show_ins,
        initial,
    ));
    let max = if thorough { 3 } else { 2 };
    v.push(Space::new(
        "phrases",
        &format!("{}, with a supplied attribute, alone, before or after a custom token", phrases_rule(max)),
        phrases(max) * 3,
        |i| {
            let t = In::Text(phrase(i / 3), vec![Val::A(1)]);
            match i % 3 {
                0 => vec![t],
                1 => vec![t, In::Custom(2, vec![Val::A(2)])],
                _ => vec![In::Custom(2, vec![Val::A(2)]), t],
            }
        },
        show_ins,
        initial,
    ));
    v
}

// ---- C05 ----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Hist {
    ins: Vec<In>,
    anns: Vec<(Rng, Val)>,
    /// bit i set: annotation i+1 goes into a new resolver run even if its type equals the previous one
    cut: u64,
}

fn show_hist(h: &Hist) -> String {
    format!("inputs {:?}; assignments {:?}; runs cut at bits {:b}", h.ins, h.anns, h.cut)
}

/// Applies the assignments run by run and compares the whole line with the model after each run.
fn history(h: &Hist, c: &mut Ctx) -> Result<(), String> {
    let mut m = MLine::new(&h.ins, &|s: &str| s.len());
    let mut l = real::line(&h.ins, |s| s.len());
    c.states += 1;
    let mut i = 0;
    let mut last = 0;
    while i < h.anns.len() {
        let mut j = i + 1;
        while j < h.anns.len() && h.anns[j].1.ty() == h.anns[i].1.ty() && h.cut.checked_shr((j - 1) as u32).unwrap_or(0) & 1 == 0 {
            j += 1;
        }
        l = real::assign(l, &m, &h.anns[i..j])?;
        m.anns.extend_from_slice(&h.anns[i..j]);
        last = real::same_annotations(&l, &m).map_err(|e| format!("after assignment {}: {}", j, e))?;
        real::same_tokens(&l, &m).map_err(|e| format!("after assignment {}: {}", j, e))?;
        c.states += 1;
        c.transitions += 1;
        i = j;
    }
    // a resolver that assigns nothing changes nothing
    let l = l.run(&real::by::<A, _>(|_| Vec::new()));
    real::same_annotations(&l, &m).map_err(|e| format!("after an empty run: {}", e))?;
    c.transitions += 1;
    c.outcome(last);
    Ok(())
}

const RUNS: usize = 9;

/// What a run of this kind assigns to a line of three tokens.
fn run_anns(k: usize) -> Vec<(Rng, Val)> {
    match k {
        2 => vec![((0, 0), Val::A(0))],
        3 => vec![((0, 1), Val::A(1)), ((0, 1), Val::A(1))],
        4 => vec![((1, 2), Val::A(0)), ((0, 2), Val::A(1)), ((0, 0), Val::A(0))],
        5 => vec![((0, 1), Val::B(0)), ((1, 1), Val::B(0))],
        6 => vec![((2, 2), Val::Tag(TextTag::WORD))],
        7 => vec![((0, 2), Val::Str("x".into()))],
        _ => vec![],
    }
}

fn runs(x: &(usize, Vec<usize>), c: &mut Ctx) -> Result<(), String> {
    let ins = &lines3()[x.0];
    let mut m = MLine::new(ins, &|s: &str| s.len());
    let mut l = real::line(ins, |s| s.len());
    let mut last = 0;
    for (j, k) in x.1.iter().enumerate() {
        let anns = run_anns(*k);
        l = match k {
            0 => l.run(&real::by::<A, _>(|_| Vec::new())),
            1 => l.run(&real::by::<B, _>(|_| Vec::new())),
            8 => {
                // a line that is lost in a panicking run
                let other = real::line(ins, |s| s.len());
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| other.run(&real::by::<A, _>(|_| panic!("resolver")))));
                l
            }
            _ => real::assign(l, &m, &anns)?,
        };
        m.anns.extend(anns);
        last = real::same_annotations(&l, &m).map_err(|e| format!("after run {}: {}", j + 1, e))?;
        real::same_tokens(&l, &m).map_err(|e| format!("after run {}: {}", j + 1, e))?;
        c.states += 1;
        c.transitions += 1;
    }
    c.outcome(last);
    Ok(())
}

fn lines3() -> Vec<Vec<In>> {
    vec![
        vec![In::Text("ab".into(), vec![]), In::Custom(1, vec![Val::P(1)]), In::Text(",".into(), vec![])],
        vec![In::Text("a b".into(), vec![Val::A(1), Val::B(0)])],
    ]
}

pub fn c05(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let mut add = |name: &str, starts: Vec<Vec<In>>, n: usize, vals: Vec<Val>, lo: u32, hi: u32, cuts: bool| {
        let rs = ranges(n);
        let k = (rs.len() * vals.len()) as u64;
        let ns = starts.len() as u64;
        let nc = if cuts { 1u64 << (hi - 1) } else { 1 };
        v.push(Space::new(
            name,
            &format!(
                "{} start lines of {} tokens x all sequences of {}..={} assignments over all {} ranges and {:?}{}",
                ns, n, lo, hi, rs.len(), vals, if cuts { " x every way of cutting them into runs" } else { "" }
            ),
            ns * nc * seqs(k, lo, hi),
            move |i| {
                let mut d = Dec(i);
                let ins = d.pick(&starts).clone();
                let cut = if cuts { d.take(nc) } else { u64::MAX };
                let anns = seq_at(k, lo, d.0).into_iter().map(|s| (rs[s / vals.len()], vals[s % vals.len()].clone())).collect();
                Hist { ins, anns, cut }
            },
            show_hist,
            history,
        ));
    };
    add("mixed-types", lines3(), 3, vec![Val::A(0), Val::A(1), Val::B(0), Val::Char(','), Val::Tag(TextTag::WORD)], 0, 3, true);
    let text4 = vec![vec![In::Text("a b,".into(), vec![Val::A(7)])], vec![In::Text("ab".into(), vec![]), In::Text("1 c".into(), vec![Val::B(1)])]];
    add("overlaps", text4, 4, vec![Val::A(0), Val::A(1)], 0, 3, true);
    let l5 = vec![vec![In::Text("a b,c".into(), vec![])]];
    add("nesting", l5.clone(), 5, vec![Val::A(0)], 0, if thorough { 5 } else { 4 }, false);
    if thorough {
        add("mixed-types-4", lines3(), 3, vec![Val::A(0), Val::A(1), Val::B(0)], 4, 4, true);
        add("nesting-two-types", l5, 5, vec![Val::A(0), Val::B(0)], 0, 4, false);
    }
    v.push(Space::new(
        "token-texts",
        &format!("{}, then two more assignments on any ranges, in one run or two", token_lines_rule()),
        token_lines() * 72,
        |i| {
            let s = token_line(i / 72);
            let rs = ranges(3);
            let k = i as usize % 72;
            let mut anns = s.anns.clone();
            let cut = if k % 2 == 0 { 0 } else { 1 << anns.len() };
            anns.push((rs[k / 2 % 6], Val::A(1)));
            anns.push((rs[k / 12], Val::A(0)));
            (s.feasible(), Hist { ins: s.ins(), anns, cut })
        },
        |(_, h)| show_hist(h),
        |(ok, h), c| if *ok { history(h, c) } else { Ok(()) },
    ));
    v.push(Space::new(
        "token-texts-types",
        &format!("{} (none here), then two assignments of text tags, characters, strings or a second type on any ranges, in one run or two", token_lines_rule()),
        token_lines() / 7 * 72 * 4,
        |i| {
            let s = token_line(i / 288);
            let rs = ranges(3);
            let k = i as usize % 72;
            let (x, y) = match i / 72 % 4 {
                0 => (Val::Tag(TextTag::SYMB), Val::Tag(TextTag::WORD)),
                1 => (Val::Char('.'), Val::Char('x')),
                2 => (Val::Str("x".into()), Val::Str(String::new())),
                _ => (Val::B(1), Val::B(0)),
            };
            let anns = vec![(rs[k / 2 % 6], x), (rs[k / 12], y)];
            (s.feasible(), Hist { ins: s.ins(), anns, cut: k as u64 % 2 })
        },
        |(_, h)| show_hist(h),
        |(ok, h), c| if *ok { history(h, c) } else { Ok(()) },
    ));
    v.push(Space::new(
        "every-scalar",
        SCALAR_LINES,
        SCALARS,
        |i| {
            let s = scalar_line(i);
            Hist { ins: s.ins(), anns: s.anns, cut: 0 }
        },
        show_hist,
        history,
    ));
    let depth = if thorough { 6 } else { 5 };
    let ks = seqs(RUNS as u64, 1, depth);
    v.push(Space::new(
        "run-sequences",
        &format!("2 start lines x every sequence of 1..={} of {} runs (nothing of either type, one value, two equal ones, several spans, another type, a tag, a panic), all of it compared after each", depth, RUNS),
        2 * ks,
        move |i| (i as usize % 2, seq_at(RUNS as u64, 1, i / 2)),
        |x: &(usize, Vec<usize>)| format!("line {:?}, runs {:?}", lines3()[x.0], x.1),
        runs,
    ));
    // long histories
    let n_max = if thorough { 600 } else { 270 };
    v.push(Space::new(
        "long-histories",
        &format!("1..={} assignments on one span or cycling through 1..=6 spans, values equal or distinct, one run or one run each, one or two types", n_max),
        (n_max * 6 * 8) as u64,
        move |i| {
            let mut d = Dec(i);
            let spans = d.take(6) as usize + 1;
            let (distinct, each, two) = (d.take(2) == 1, d.take(2) == 1, d.take(2) == 1);
            let n = d.0 as usize + 1;
            let rs = ranges(3);
            let anns = (0..n)
                .map(|k| {
                    let val = if distinct { k as u8 } else { 1 };
                    (rs[k % spans], if two && k % 2 == 1 { Val::B(val) } else { Val::A(val) })
                })
                .collect::<Vec<_>>();
            let anns = if two && !each {
                // all of the first type, then all of the second
                let (a, b): (Vec<_>, Vec<_>) = anns.into_iter().partition(|x: &(Rng, Val)| x.1.ty() == TY_A);
                a.into_iter().chain(b).collect()
            } else {
                anns
            };
            Hist { ins: vec![In::Text("a b".into(), vec![])], anns, cut: if each { u64::MAX } else { 0 } }
        },
        |h| format!("{} assignments, first {:?}, runs cut: {}", h.anns.len(), h.anns[0], h.cut != 0),
        |h: &Hist, c| {
            if h.cut == 0 || h.anns.len() <= 63 {
                history(h, c)
            } else {
                // beyond the bit mask: every assignment in its own run, compared at the end
                let mut m = MLine::new(&h.ins, &|s: &str| s.len());
                let mut l = real::line(&h.ins, |s| s.len());
                for a in &h.anns {
                    l = real::assign(l, &m, std::slice::from_ref(a))?;
                    m.anns.push(a.clone());
                    c.transitions += 1;
                }
                c.states += 1;
                let h = real::same_annotations(&l, &m)?;
                c.outcome(h);
                Ok(())
            }
        },
    ));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    v.push(Space::new(
        "scale",
        &format!("{}, assigned in one run per type or one run per assignment", f.rule()),
        f.size() * 2,
        move |i| {
            let s = g.at(i / 2);
            Hist { ins: s.ins(), anns: s.anns, cut: if i % 2 == 0 { 0 } else { u64::MAX } }
        },
        |h| format!("{} inputs, {} assignments, first {:?}, runs cut: {}", h.ins.len(), h.anns.len(), h.anns[0], h.cut != 0),
        |h: &Hist, c| {
            if h.cut == 0 {
                return history(h, c);
            }
            let mut m = MLine::new(&h.ins, &|s: &str| s.len());
            let mut l = real::line(&h.ins, |s| s.len());
            let n = h.anns.len();
            for (i, a) in h.anns.iter().enumerate() {
                l = real::assign(l, &m, std::slice::from_ref(a))?;
                m.anns.push(a.clone());
                c.transitions += 1;
                if i + 1 == n || i % 32 == 0 {
                    real::same_annotations(&l, &m).map_err(|e| format!("after assignment {}: {}", i + 1, e))?;
                    real::same_tokens(&l, &m).map_err(|e| format!("after assignment {}: {}", i + 1, e))?;
                }
            }
            c.states += n as u64;
            Ok(())
        },
    ));
    v.push(Space::new(
        "huge",
        HUGE_LINES,
        HUGE_SHAPES + HUGE_ANNS * 2,
        |i| {
            if i < HUGE_SHAPES {
                let s = huge_line(i);
                Hist { ins: s.ins(), anns: s.anns, cut: 0 }
            } else {
                let (ins, anns) = huge_anns((i - HUGE_SHAPES) / 2);
                Hist { ins, anns, cut: i % 2 * 4 }
            }
        },
        |h| format!("{} inputs, {} assignments, first {:?}, runs cut: {}", h.ins.len(), h.anns.len(), h.anns[0], h.cut != 0),
        history,
    ));
    let n_max = if thorough { 40 } else { 24 };
    v.push(Space::new(
        "all-ranges",
        &format!("lines of 1..={} tokens: every range annotated, narrow first or wide first, one run", n_max),
        n_max * 2,
        |i| {
            let n = i as usize / 2 + 1;
            let mut rs = ranges(n);
            if i % 2 == 1 {
                rs.reverse();
            }
            let text: String = "a ".chars().cycle().take(n).collect();
            Hist { ins: vec![In::Text(text, vec![])], anns: rs.into_iter().enumerate().map(|(k, r)| (r, Val::A(k as u8))).collect(), cut: 0 }
        },
        |h| format!("line {:?}, {} ranges", h.ins, h.anns.len()),
        history,
    ));
    v.push(Space::new(
        "no-tokens",
        "the line without tokens, resolved 0..=4 times",
        5,
        |i| i,
        |i| format!("{} runs", i),
        |i: &u64, c| {
            let mut l = create_line_from_input_tokens(Vec::new(), |s| s.len());
            for _ in 0..*i {
                l = l.run(&real::by::<A, _>(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
                c.transitions += 1;
            }
            c.states += 1;
            if !l.ll_tokens().is_empty() || !l.query::<A>().is_empty() {
                return Err("the line without tokens changed".into());
            }
            Ok(())
        },
    ));
    v
}

const HUGE_LINES: &str = "lines of up to 131100 tokens with annotations around the ends, 65536 and 131072; 65535, 65536 and 70000 values on one span; 66066 spans";
const HUGE_ANNS: u64 = 4;

fn huge_anns(i: u64) -> (Vec<In>, Vec<(Rng, Val)>) {
    let text = |n: usize| vec![In::Text("a ".chars().cycle().take(n).collect(), vec![])];
    match i {
        3 => (text(363), ranges(363).into_iter().enumerate().map(|(k, r)| (r, Val::A((k % 251) as u8))).collect()),
        _ => {
            let n = [65535, 65536, 70000][i as usize];
            let mut v: Vec<(Rng, Val)> = (0..n).map(|k| ((1, 2), Val::A((k % 251) as u8))).collect();
            v.push(((0, 0), Val::A(3)));
            (text(4), v)
        }
    }
}

// ---- C06 ----------------------------------------------------------------------------------------

/// All lookups of one annotated line against each other and the model.
pub fn lookups(ins: &[In], anns: &[(Rng, Val)], c: &mut Ctx) -> Result<(), String> {
    let (l, m) = real::build(ins, anns, real::uneven)?;
    let h = real::same_annotations(&l, &m)?;
    c.outcome(h);
    let ix = m.index();
    let n = m.len();
    let ms = [Mx::AttrA, Mx::AttrB, Mx::AttrTag, Mx::AttrChar];
    // line search
    let m2 = &m;
    for k in &ms {
        let found = l.find(k);
        let got: Vec<(Rng, u64)> = found.iter().map(|f| (f.range(), *f.attr())).collect();
        let want: Vec<(Rng, u64)> = (0..n).flat_map(|i| ix.ev(k, i, true).into_iter().map(move |(v, to)| ((m2.toks[i].start, m2.toks[to].end), v))).collect();
        if got != want {
            return Err(format!("forwards {:?}: {:?}, expected {:?}", k, got, want));
        }
        c.transitions += n as u64;
    }
    let full = real::full(l);
    let sels = real::Sels::new(full.clone(), &m)?;
    for k in &ms {
        // backwards from the token after each token; the last token through the two-way search
        for i in 0..n.saturating_sub(1) {
            let Some(s) = sels.get((i + 1, n - 1)) else { continue };
            let got = s.match_backwards(k);
            let want = ix.match_backwards((i + 1, n - 1), k);
            check_list("backwards", k, &sels, &got, &want)?;
            c.transitions += 1;
        }
        let got = full.find_by_forwards_and_backwards(k);
        let want = ix.find_both((0, n - 1), k);
        check_list("both ways", k, &sels, &got, &want)?;
        c.transitions += 1;
    }
    c.states += 1;
    Ok(())
}

pub fn c06(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let fam = Lines {
        kinds: vec![Kind::Word, Kind::Comma, Kind::Val],
        vals: vec![Val::A(0), Val::A(1), Val::B(0)],
        lo: 1,
        hi: 3,
        min_anns: 0,
        max_anns: 2,
    };
    let fam2 = Lines { kinds: vec![Kind::Letter], vals: vec![Val::A(0), Val::B(0)], lo: 1, hi: 4, min_anns: 0, max_anns: 3 };
    let fam3 = Lines { kinds: vec![Kind::Word], vals: vec![Val::Char(','), Val::Tag(TextTag::SPACE), Val::A(0)], lo: 1, hi: 3, min_anns: 0, max_anns: 3 };
    let mut fams = vec![("annotated-lines", fam), ("overlaps", fam2), ("library-types", fam3)];
    if thorough {
        fams.push(("annotated-lines-4", Lines { kinds: vec![Kind::Word, Kind::Val], vals: vec![Val::A(0), Val::A(1), Val::B(0)], lo: 4, hi: 4, min_anns: 0, max_anns: 3 }));
        fams.push(("nesting-5", Lines { kinds: vec![Kind::Letter], vals: vec![Val::A(0)], lo: 5, hi: 5, min_anns: 0, max_anns: 5 }));
    }
    for (name, f) in fams {
        let g = f.clone();
        v.push(Space::new(name, &f.rule(), f.size(), move |i| g.at(i), Spec::show, |s: &Spec, c| {
            lookups(&s.ins(), &s.anns, c)
        }));
    }
    // attributes supplied with the inputs mixed with assigned ones
    let attrs = vec![Val::A(0), Val::A(1), Val::B(0), Val::Char('q'), Val::Tag(TextTag::PUNC)];
    let texts = vec![In::Text("a b".into(), vec![]), In::Text("ab".into(), vec![]), In::Text("1.5".into(), vec![])];
    let per = texts.len() as u64 * seqs(attrs.len() as u64, 0, 2);
    let hi = if thorough { 2 } else { 1 };
    let rs = ranges(2);
    let vals = vec![Val::A(0), Val::B(0), Val::Char('q')];
    let k = (rs.len() * vals.len()) as u64;
    v.push(Space::new(
        "supplied-and-assigned",
        &format!("every pair of text inputs, each with 0..=2 supplied attributes, then 0..={} assignments on the first two tokens", hi),
        per * per * seqs(k, 0, hi),
        move |i| {
            let mut d = Dec(i);
            let mut one = || {
                let mut e = Dec(d.take(per));
                let b = e.pick(&texts).clone();
                with_attrs(&b, seq_at(attrs.len() as u64, 0, e.0).into_iter().map(|k| attrs[k].clone()).collect())
            };
            let ins = vec![one(), one()];
            let anns: Vec<(Rng, Val)> = seq_at(k, 0, d.0).into_iter().map(|s| (rs[s / vals.len()], vals[s % vals.len()].clone())).collect();
            (ins, anns)
        },
        |(ins, anns)| format!("inputs {:?} assigned {:?}", ins, anns),
        |(ins, anns), c| lookups(ins, anns, c),
    ));
    let lf = LongLines { max: if thorough { 80 } else { 40 }, stride: if thorough { 1 } else { 4 } };
    let g = lf.clone();
    v.push(Space::new("long-lines", &lf.rule(), lf.size(), move |i| g.at(i), |s| format!("{} tokens, {} annotations, first {:?}", s.kinds.len(), s.anns.len(), s.anns.first()), |s: &Spec, c| {
        lookups(&s.ins(), &s.anns, c)
    }));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    v.push(Space::new("scale", &f.rule(), f.size(), move |i| g.at(i), ScaleLines::show, |s: &Spec, c| lookups(&s.ins(), &s.anns, c)));
    v.push(Space::new(
        "huge",
        HUGE_LINES,
        HUGE_SHAPES + HUGE_ANNS,
        |i| if i < HUGE_SHAPES { let s = huge_line(i); (s.ins(), s.anns) } else { huge_anns(i - HUGE_SHAPES) },
        |(ins, anns)| format!("{} inputs, {} assignments, first {:?}", ins.len(), anns.len(), anns[0]),
        |(ins, anns), c| lookups(ins, anns, c),
    ));
    const AROUND: &[(&str, &str)] = &[("", ""), ("a", "")];
    v.push(Space::new(
        "every-scalar",
        &format!("{}, with one supplied attribute", scalars_rule(AROUND)),
        SCALARS * AROUND.len() as u64,
        |i| vec![In::Text(in_context(AROUND, i), vec![Val::A(1)])],
        show_ins,
        |ins, c| lookups(ins, &[((0, 0), Val::B(1))], c),
    ));
    v.push(Space::new(
        "phrases",
        &format!("{}, alone, before or after a custom token, with a supplied attribute and one on the first token", phrases_rule(2)),
        phrases(2) * 3,
        |i| {
            let t = In::Text(phrase(i / 3), vec![Val::A(1)]);
            match i % 3 {
                0 => vec![t],
                1 => vec![t, In::Custom(2, vec![])],
                _ => vec![In::Custom(2, vec![]), t],
            }
        },
        show_ins,
        |ins, c| lookups(ins, &[((0, 0), Val::B(1))], c),
    ));
    v
}

// ---- C25 ----------------------------------------------------------------------------------------

/// Tries to take `a` out as type number `ty`; Ok(value) or Err(attribute).
fn extract(a: AnyAttribute, ty: usize) -> Result<Val, AnyAttribute> {
    match ty {
        TY_CHAR => a.extract::<char>().map(Val::Char),
        TY_TAG => a.extract::<TextTag>().map(Val::Tag),
        TY_A => a.extract::<A>().map(|v| Val::A(v.0)),
        TY_B => a.extract::<B>().map(|v| Val::B(v.0)),
        TY_P => a.extract::<P>().map(|v| Val::P(v.0)),
        _ => a.extract::<String>().map(Val::Str),
    }
}

fn type_id(ty: usize) -> TypeId {
    match ty {
        TY_CHAR => TypeId::of::<char>(),
        TY_TAG => TypeId::of::<TextTag>(),
        TY_A => TypeId::of::<A>(),
        TY_B => TypeId::of::<B>(),
        TY_P => TypeId::of::<P>(),
        _ => TypeId::of::<String>(),
    }
}

fn boxed(v: &Val, attempts: &[usize], c: &mut Ctx) -> Result<(), String> {
    let mut a = real::any_attr(v);
    c.states += 1;
    for t in attempts {
        if a.type_id() != type_id(v.ty()) {
            return Err("reports another type than it was made from".into());
        }
        c.transitions += 1;
        match (extract(a, *t), *t == v.ty()) {
            (Ok(got), true) => {
                if got != *v {
                    return Err(format!("extracted {:?}, put in {:?}", got, v));
                }
                c.outcome(mix(1, got.code()));
                return Ok(());
            }
            (Ok(got), false) => return Err(format!("extracted as a wrong type: {:?}", got)),
            (Err(_), true) => return Err("refused to be extracted as its own type".into()),
            (Err(back), false) => a = back,
        }
    }
    // still intact: attached to a line it is the plain value
    if a.type_id() != type_id(v.ty()) {
        return Err("reports another type after failed extractions".into());
    }
    let l: LLLine = create_line_from_input_tokens(vec![InputToken::custom(1, vec![a])], |s| s.len());
    let m = MLine::new(&[In::Custom(1, vec![v.clone()])], &|s: &str| s.len());
    let h = real::same_annotations(&l, &m)?;
    c.outcome(mix(h, attempts.len() as u64));
    Ok(())
}

pub fn c25(thorough: bool) -> Vec<Space> {
    let mut vals = attr_menu();
    vals.push(Val::P(usize::MAX));
    vals.push(Val::Str(String::new()));
    vals.push(Val::B(0));
    vals.push(Val::Str("long ".repeat(100)));
    let n = if thorough { 7 } else { 6 };
    let nv = vals.len() as u64;
    let v2 = vals.clone();
    let mut v = vec![Space::new(
        "extraction-attempts",
        &format!("every value of {} x all sequences of 0..={} extraction attempts over {} types", vals.len(), n, TYS),
        nv * seqs(TYS as u64, 0, n),
        move |i| {
            let mut d = Dec(i);
            let v = d.pick(&vals).clone();
            (v, seq_at(TYS as u64, 0, d.0))
        },
        |(v, a)| format!("value {:?}, extraction attempts as types {:?}", v, a),
        |(v, a), c| boxed(v, a, c),
    )];
    // attaching boxed vs plain, several values on one input
    let k = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "boxed-equals-plain",
        &format!("all lists of 0..={} values attached boxed and plain to a text and a custom input", k),
        seqs(nv, 0, k) * 2,
        move |i| {
            let a: Vec<Val> = seq_at(v2.len() as u64, 0, i / 2).into_iter().map(|k| v2[k].clone()).collect();
            if i % 2 == 0 { vec![In::Text("a b".into(), a)] } else { vec![In::Custom(3, a)] }
        },
        show_ins,
        initial,
    ));
    v
}
