//! C22 rendering.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real;
use layered_nlp::{debug_line, LLLine, LLLineDisplay, TextTag};
use std::fmt::Write;
use unicode_width::UnicodeWidthStr;

#[derive(Clone, Debug)]
struct Shown {
    ins: Vec<In>,
    anns: Vec<(Rng, Val)>,
    /// included types, in order
    include: Vec<usize>,
}

fn debug_of(v: &Val) -> String {
    match v {
        Val::Char(c) => format!("{:?}", c),
        Val::Tag(t) => format!("{:?}", t),
        Val::A(v) => format!("{:?}", A(*v)),
        Val::B(v) => format!("{:?}", B(*v)),
        Val::P(v) => format!("{:?}", P(*v)),
        Val::Str(s) => format!("{:?}", s),
    }
}

/// The expected rendering; None where the width of the row is not the sum of its parts' widths, so that
/// "the column of a token" has no single meaning.
fn picture(m: &MLine, include: &[usize]) -> Option<String> {
    let mut row = String::new();
    let mut cols: Vec<(usize, usize)> = Vec::new();
    let mut col = 0;
    for (i, t) in m.toks.iter().enumerate() {
        if i > 0 {
            row.push_str("  ");
            col += 2;
        }
        let text = t.text.as_deref().unwrap_or("<>");
        let w = UnicodeWidthStr::width(text);
        row.push_str(text);
        cols.push((col, col + w));
        col += w;
        if UnicodeWidthStr::width(row.as_str()) != col {
            return None;
        }
    }
    for ty in include {
        for (r, _, vals) in m.query(*ty) {
            for v in vals.iter().rev() {
                let (from, to) = (cols[r.0].0, cols[r.1].1);
                row.push('\n');
                row.extend(std::iter::repeat(' ').take(from));
                row.push('╰');
                if to - from > 1 {
                    row.extend(std::iter::repeat('─').take(to - from - 2));
                    row.push('╯');
                }
                write!(row, "{}", debug_of(v)).unwrap();
            }
        }
    }
    Some(row)
}

fn include(d: &mut LLLineDisplay, ty: usize) {
    match ty {
        TY_CHAR => d.include::<char>(),
        TY_TAG => d.include::<TextTag>(),
        TY_A => d.include::<A>(),
        TY_B => d.include::<B>(),
        TY_P => d.include::<P>(),
        _ => d.include::<String>(),
    }
}

fn with<'a>(d: LLLineDisplay<'a>, ty: usize) -> LLLineDisplay<'a> {
    match ty {
        TY_CHAR => d.with::<char>(),
        TY_TAG => d.with::<TextTag>(),
        TY_A => d.with::<A>(),
        TY_B => d.with::<B>(),
        TY_P => d.with::<P>(),
        _ => d.with::<String>(),
    }
}

fn pictures_agree(l: &LLLine, m: &MLine, inc: &[usize], c: &mut Ctx) -> Result<(), String> {
    let Some(want) = picture(m, inc) else { return Ok(()) };
    let mut a = LLLineDisplay::new(l);
    for t in inc {
        include(&mut a, *t);
    }
    let got = a.to_string();
    c.transitions += 1;
    if got != want {
        return Err(format!("included types {:?}\n--- expected\n{}\n--- got\n{}\n---", inc, want, got));
    }
    let mut b = debug_line(l);
    for t in inc {
        b = with(b, *t);
    }
    let again = b.to_string();
    if again != want || a.to_string() != want {
        return Err(format!("rendering again differs\n--- expected\n{}\n--- got\n{}\n---", want, again));
    }
    c.transitions += 1;
    c.outcome(hstr(&got));
    Ok(())
}

fn shown(s: &Shown, c: &mut Ctx) -> Result<(), String> {
    let (l, m) = real::build(&s.ins, &s.anns, |_| 1)?;
    c.states += 1;
    pictures_agree(&l, &m, &s.include, c)?;
    // each type twice in a row, and all of them over again
    let twice: Vec<usize> = s.include.iter().flat_map(|t| [*t, *t]).chain(s.include.iter().copied()).collect();
    pictures_agree(&l, &m, &twice, c)?;
    real::same_annotations(&l, &m).map_err(|e| format!("rendering changed the line: {}", e))?;
    real::same_tokens(&l, &m).map_err(|e| format!("rendering changed the line: {}", e))?;
    Ok(())
}

fn show(s: &Shown) -> String {
    format!("inputs {:?}; annotations {:?}; include types {:?}", s.ins, s.anns, s.include)
}

const TEXTS: &[&str] = &["ab", "x", "カ", "e\u{301}", "\u{301}", "😀", "\u{200b}", "한국", "a b", ",", "\t", "👩\u{200d}👩\u{200d}👧", "﷽"];

pub fn c22(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    // token texts x one annotation
    let nt = TEXTS.len() + 1;
    let tok = move |k: usize, i: usize| if k == TEXTS.len() { In::Custom(1, vec![Val::P(i)]) } else { In::Text(TEXTS[k].to_string(), vec![]) };
    let len = if thorough { 4 } else { 3 };
    v.push(Space::new(
        "token-texts",
        &format!("every line of 1..={} inputs over {:?} and a custom token, with an annotation on every token range and the text tags", len, TEXTS),
        seqs(nt as u64, 1, len),
        move |i| {
            // the first token of input k
            let ins: Vec<In> = seq_at(nt as u64, 1, i).into_iter().enumerate().map(|(i, k)| tok(k, i)).collect();
            let m = MLine::new(&ins, &|_: &str| 1);
            let mut first = 0;
            let ins: Vec<In> = ins
                .into_iter()
                .map(|t| {
                    let at = first;
                    let one = MLine::new(&[t.clone()], &|_: &str| 1).len();
                    first += one;
                    match t {
                        In::Custom(s, _) => In::Custom(s, vec![Val::P(at)]),
                        t => t,
                    }
                })
                .collect();
            let anns = ranges(m.len()).into_iter().enumerate().map(|(k, r)| (r, Val::A(k as u8))).collect();
            Shown { ins, anns, include: vec![TY_A, TY_TAG, TY_CHAR] }
        },
        show,
        shown,
    ));
    // annotations and includes
    let f = Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Val], vals: vec![Val::A(0), Val::A(11), Val::B(0), Val::Str("é\n".into())], lo: 1, hi: 3, min_anns: 0, max_anns: 2 };
    let g = f.clone();
    let incs: Vec<Vec<usize>> = {
        let tys = [TY_A, TY_B, TY_STR, TY_TAG];
        (0..seqs(4, 0, if thorough { 4 } else { 3 })).map(|i| seq_at(4, 0, i).into_iter().map(|k| tys[k]).collect()).collect()
    };
    let ni = incs.len();
    v.push(Space::new(
        "includes",
        &format!("{} x all {} sequences of included types (repetitions too)", f.rule(), ni),
        f.size(),
        move |i| g.at(i),
        Spec::show,
        move |s: &Spec, c| {
            let (l, m) = real::build(&s.ins(), &s.anns, |_| 1)?;
            c.states += 1;
            for inc in &incs {
                pictures_agree(&l, &m, inc, c)?;
            }
            real::same_annotations(&l, &m).map_err(|e| format!("rendering changed the line: {}", e))?;
            Ok(())
        },
    ));
    // repeated values on a few spans
    let max = if thorough { 600 } else { 270 };
    v.push(Space::new(
        "many-values",
        &format!("1..={} annotations cycling through 1..=6 ranges of 3 tokens with one or two types", max),
        max * 12,
        |i| {
            let mut d = Dec(i);
            let spans = d.take(6) as usize + 1;
            let two = d.take(2) == 1;
            let n = d.0 as usize + 1;
            let rs = [(0, 2), (1, 1), (0, 1), (0, 0), (2, 2), (1, 2)];
            Shown {
                ins: vec![In::Text("ab".into(), vec![]), In::Text(",".into(), vec![]), In::Text("カ".into(), vec![])],
                anns: (0..n).map(|k| (rs[k % spans], if two && k % 2 == 1 { Val::B((k % 7) as u8) } else { Val::A((k % 5) as u8) })).collect(),
                include: vec![TY_B, TY_A],
            }
        },
        show,
        shown,
    ));
    let lf = LongLines { max: if thorough { 60 } else { 24 }, stride: if thorough { 4 } else { 6 } };
    let g = lf.clone();
    v.push(Space::new(
        "long-lines",
        &lf.rule(),
        lf.size(),
        move |i| g.at(i),
        |s: &Spec| format!("{} tokens, {} annotations", s.kinds.len(), s.anns.len()),
        |s: &Spec, c| shown(&Shown { ins: s.ins(), anns: s.anns.clone(), include: vec![TY_A, TY_B, TY_P, TY_TAG] }, c),
    ));
    let f = ScaleLines::new(thorough);
    let g = f.clone();
    v.push(Space::new(
        "scale",
        &f.rule(),
        f.size(),
        move |i| g.at(i),
        ScaleLines::show,
        |s: &Spec, c| shown(&Shown { ins: s.ins(), anns: s.anns.clone(), include: vec![TY_A, TY_B, TY_P, TY_TAG] }, c),
    ));
    v.push(Space::new(
        "long-tokens",
        "a token of 1..=70, around powers of two up to 4097, 65534..=65538 or 70000 letters (narrow or wide) before or after another one, both and each of them annotated",
        4 * (70 + text_sizes(false).len() as u64 + sizes(false).len() as u64 + 6),
        |i| {
            let mut ns: Vec<usize> = (1..=70).chain(sizes(false)).chain(text_sizes(false)).collect();
            ns.extend([65534, 65535, 65536, 65537, 65538, 70000]);
            let mut d = Dec(i);
            let wide = d.take(2) == 1;
            let before = d.take(2) == 1;
            let n = ns[d.0 as usize];
            // half-width and full-width forms
            let long: String = if wide { "한".repeat(n) } else { "x".repeat(n) };
            let mut ins = vec![In::Text(long, vec![]), In::Text(",".into(), vec![]), In::Custom(1, vec![Val::P(2)])];
            if !before {
                ins.rotate_left(1);
                ins[1] = In::Custom(1, vec![Val::P(1)]);
            }
            Shown { ins, anns: ranges(3).into_iter().enumerate().map(|(k, r)| (r, Val::A(k as u8))).collect(), include: vec![TY_A, TY_TAG] }
        },
        |s: &Shown| format!("inputs of {:?} bytes", s.ins.iter().map(|i| if let In::Text(t, _) = i { t.len() } else { 0 }).collect::<Vec<_>>()),
        shown,
    ));
    v.push(Space::new(
        "attributes-of-inputs",
        "every pair of inputs over 4 texts and a custom token, each with every list of 0..=2 supplied attributes",
        (5 * seqs(4, 0, 2)).pow(2),
        |i| {
            let per = 5 * seqs(4, 0, 2);
            let vals = [Val::A(1), Val::B(2), Val::A(3), Val::Char('q')];
            let one = |i: u64| {
                let mut d = Dec(i);
                let k = d.take(5) as usize;
                let a: Vec<Val> = seq_at(4, 0, d.0).into_iter().map(|x| vals[x].clone()).collect();
                if k == 4 {
                    In::Custom(3, a)
                } else {
                    In::Text(["ab", "x", "a カb", "1.5"][k].into(), a)
                }
            };
            Shown { ins: vec![one(i % per), one(i / per)], anns: vec![], include: vec![TY_A, TY_CHAR, TY_B, TY_A] }
        },
        show,
        shown,
    ));
    v.push(Space::new(
        "no-tokens",
        "the line without tokens",
        1,
        |_| Shown { ins: vec![], anns: vec![], include: vec![TY_A, TY_TAG] },
        show,
        shown,
    ));
    let max = if thorough { 3 } else { 2 };
    v.push(Space::new(
        "phrases",
        &format!("{}, with an annotation on the first token, the last and all", phrases_rule(max)),
        phrases(max),
        |i| {
            let ins = vec![In::Text(phrase(i), vec![Val::Str("all".into())])];
            let n = MLine::new(&ins, &|_: &str| 1).len();
            Shown { ins, anns: vec![((n - 1, n - 1), Val::A(1)), ((0, 0), Val::A(2)), ((0, n - 1), Val::A(3))], include: vec![TY_A, TY_STR, TY_TAG, TY_CHAR] }
        },
        show,
        shown,
    ));
    const AROUND: &[(&str, &str)] = &[("a", ""), ("", "b c")];
    v.push(Space::new(
        "every-scalar",
        &format!("{}, with an annotation on the first token, the last and all", scalars_rule(AROUND)),
        SCALARS * AROUND.len() as u64,
        |i| {
            let ins = vec![In::Text(in_context(AROUND, i), vec![])];
            let n = MLine::new(&ins, &|_: &str| 1).len();
            Shown { ins, anns: vec![((n - 1, n - 1), Val::A(1)), ((0, 0), Val::A(2)), ((0, n - 1), Val::A(3))], include: vec![TY_A, TY_TAG, TY_CHAR] }
        },
        show,
        |s: &Shown, c: &mut Ctx| {
            let (l, m) = real::build(&s.ins, &s.anns, |_| 1)?;
            c.states += 1;
            pictures_agree(&l, &m, &s.include, c)
        },
    ));
    v
}
