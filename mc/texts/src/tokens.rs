//! C01 losslessness, C02 classes, C03 positions.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real;
use layered_nlp::{create_line_from_string, x, InputToken, LLLine, LToken};

type Check = fn(&str, &mut Ctx) -> Result<(), String>;

/// The text spaces every tokenizer property is checked on.
fn text_spaces(thorough: bool, check: Check) -> Vec<Space> {
    let ctxs: &'static [(&str, &str)] = if thorough { CONTEXTS } else { &CONTEXTS[..7] };
    let show = |s: &String| format!("text {:?}", s);
    let mut v = Vec::new();
    let l1 = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "class-strings",
        &format!("all strings of 1..={} characters over {} class representatives", l1, CLASSES.len()),
        strings_over(CLASSES, l1),
        |i| string_over(CLASSES, i),
        show,
        move |s: &String, c| check(s, c),
    ));
    let l2 = if thorough { 9 } else { 7 };
    v.push(Space::new(
        "core-strings",
        &format!("all strings of 1..={} characters over {:?}", l2, CORE),
        strings_over(CORE, l2),
        |i| string_over(CORE, i),
        show,
        move |s: &String, c| check(s, c),
    ));
    v.push(Space::new(
        "every-scalar",
        &format!("every Unicode scalar value in each of {} contexts {:?}", ctxs.len(), ctxs),
        SCALARS * ctxs.len() as u64,
        move |i| {
            let (a, b) = ctxs[(i / SCALARS) as usize];
            format!("{}{}{}", a, scalar(i % SCALARS), b)
        },
        show,
        move |s: &String, c| check(s, c),
    ));
    // units of one or two class representatives, repeated
    let n_max: u64 = if thorough { 700 } else { 160 };
    let units = seqs(CLASSES.len() as u64, 1, 2);
    v.push(Space::new(
        "long-strings",
        &format!("every unit of 1..=2 class representatives repeated to every length 1..={}", n_max),
        units * n_max,
        move |i| {
            let unit: Vec<char> = string_over(CLASSES, i % units).chars().collect();
            long_text(&unit, (i / units) as usize + 1)
        },
        show,
        move |s: &String, c| check(s, c),
    ));
    let ts = text_sizes(thorough);
    let nts = ts.len() as u64;
    let t2 = ts.clone();
    v.push(Space::new(
        "scale",
        &format!("every unit of 1..=2 class representatives repeated to {:?} characters", ts),
        units * nts,
        move |i| {
            let unit: Vec<char> = string_over(CLASSES, i % units).chars().collect();
            long_text(&unit, t2[(i / units) as usize])
        },
        |s: &String| format!("text of {} bytes starting {:?}", s.len(), s.chars().take(12).collect::<String>()),
        move |s: &String, c| check(s, c),
    ));
    v.push(Space::new(
        "huge",
        &format!("every class representative repeated to {} characters{}", "65537", if thorough { ", and to 65535, 65536 and 70000, alone and followed by a blank" } else { "" }),
        CLASSES.len() as u64 * if thorough { 8 } else { 1 },
        move |i| {
            let mut d = Dec(i);
            let p = *d.pick(CLASSES);
            let n = [65537, 65535, 65536, 70000][d.take(4) as usize];
            let unit = if d.0 == 0 { vec![p] } else { vec![p, ' '] };
            long_text(&unit, n)
        },
        |s: &String| format!("text of {} bytes starting {:?}", s.len(), s.chars().take(12).collect::<String>()),
        move |s: &String, c| check(s, c),
    ));
    // one long stretch of a class around a switch of class
    v.push(Space::new(
        "class-switch",
        "every pair of classes: i of the first, one of the second, i of the first, i up to 70 and around powers of two up to 1025",
        (CLASSES.len() * CLASSES.len() * (70 + sizes(false).len())) as u64,
        move |i| {
            let mut d = Dec(i);
            let (p, q) = (*d.pick(CLASSES), *d.pick(CLASSES));
            let n = d.0 as usize + 1;
            let n = if n > 70 { sizes(false)[n - 71] } else { n };
            let run: String = std::iter::repeat(p).take(n).collect();
            format!("{}{}{}", run, q, run)
        },
        show,
        move |s: &String, c| check(s, c),
    ));
    // a long run of one class between any two others
    let lens: Vec<usize> = if thorough {
        (1..=70).chain(sizes(true)).collect()
    } else {
        (2..=34).chain([48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513]).collect()
    };
    let nl = lens.len();
    let nb = CLASSES.len() as u64 + 1;
    v.push(Space::new(
        "class-runs",
        &format!("nothing or any class, a run of any class of {} lengths up to {}, nothing or any class", nl, lens.iter().max().unwrap()),
        nb * nb * (CLASSES.len() * nl) as u64,
        move |i| {
            let mut d = Dec(i);
            let (a, b) = (d.take(nb) as usize, d.take(nb) as usize);
            let p = *d.pick(CLASSES);
            let n = lens[d.0 as usize];
            let side = |k: usize| if k == 0 { None } else { Some(CLASSES[k - 1]) };
            side(a).into_iter().chain(std::iter::repeat(p).take(n)).chain(side(b)).collect::<String>()
        },
        show,
        move |s: &String, c| check(s, c),
    ));
    // scalars in the company of any two classes
    let special: Vec<char> = special_scalars(thorough);
    let ns = special.len() as u64;
    v.push(Space::new(
        "scalar-between-classes",
        &format!("{} scalar values (U+0000.., general punctuation, marks, format characters, presentation forms, tags) x nothing or any class before x nothing or any class after", ns),
        ns * nb * nb,
        move |i| {
            let side = |k: u64| if k == 0 { None } else { Some(CLASSES[k as usize - 1]) };
            let mut d = Dec(i);
            let (a, b) = (d.take(nb), d.take(nb));
            side(a).into_iter().chain([special[d.0 as usize]]).chain(side(b)).collect::<String>()
        },
        show,
        move |s: &String, c| check(s, c),
    ));
    v.push(Space::new(
        "ascii-triples",
        "all strings of three ASCII characters",
        128 * 128 * 128,
        move |i| [i / 16384, i / 128 % 128, i % 128].iter().map(|k| *k as u8 as char).collect::<String>(),
        show,
        move |s: &String, c| check(s, c),
    ));
    if thorough {
        v.push(Space::new(
            "ascii-quads",
            "all strings of four printable ASCII characters",
            95 * 95 * 95 * 95,
            move |i| [i / 857375, i / 9025 % 95, i / 95 % 95, i % 95].iter().map(|k| (*k as u8 + 32) as char).collect::<String>(),
            show,
            move |s: &String, c| check(s, c),
        ));
    }
    let n = if thorough { 3 } else { 2 };
    v.push(Space::new("phrases", &phrases_rule(n), phrases(n), phrase, show, move |s: &String, c| check(s, c)));
    // all pairs of ASCII / Latin-1 characters
    v.push(Space::new(
        "latin-pairs",
        "all pairs of characters U+0000..=U+017F",
        0x180 * 0x180,
        |i| format!("{}{}", scalar(i / 0x180), scalar(i % 0x180)),
        show,
        move |s: &String, c| check(s, c),
    ));
    // letters with marks, and syllables in parts
    v.push(Space::new(
        "composable",
        "every letter U+0041..=U+024F and the Greek and Cyrillic ones with every mark U+0300..=U+036F, and every Hangul syllable written in parts",
        (0x24F - 0x41 + 1 + 0x4FF - 0x370 + 1) * 0x70 + 19 * 21 * 28,
        move |i| {
            let letters = 0x24F - 0x41 + 1 + 0x4FF - 0x370 + 1;
            let ch = |c: u64| char::from_u32(c as u32).unwrap();
            if i < letters * 0x70 {
                let l = i / 0x70;
                let l = if l <= 0x24F - 0x41 { 0x41 + l } else { l - (0x24F - 0x41 + 1) + 0x370 };
                format!("{}{}", ch(l), ch(0x300 + i % 0x70))
            } else {
                let i = i - letters * 0x70;
                let t = i % 28;
                let s = format!("{}{}", ch(0x1100 + i / 28 / 21), ch(0x1161 + i / 28 % 21));
                if t == 0 { s } else { format!("{}{}", s, ch(0x11A7 + t)) }
            }
        },
        show,
        move |s: &String, c| check(s, c),
    ));
    // emoji made of several scalars
    const PARTS: &[char] = &['👩', '❤', '\u{1F1EB}', '\u{1F1F7}', '\u{200d}', '\u{fe0f}', '\u{fe0e}', '\u{1F3FD}', '\u{20e3}', '1', '#', '\u{E0067}', '\u{E007F}', 'a'];
    let l = if thorough { 6 } else { 5 };
    v.push(Space::new(
        "emoji-parts",
        &format!("all strings of 1..={} over {:?}", l, PARTS),
        strings_over(PARTS, l),
        |i| string_over(PARTS, i),
        show,
        move |s: &String, c| check(s, c),
    ));
    v
}

pub fn texts(l: &LLLine) -> Vec<Option<&str>> {
    l.ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, _) => Some(s.as_str()),
            LToken::Value => None,
        })
        .collect()
}

fn in_menu() -> Vec<In> {
    vec![
        In::Text("a".into(), vec![]),
        In::Custom(1, vec![]),
        In::Text("12.5,é".into(), vec![]),
        In::Text(" ".into(), vec![]),
        In::Text("b 7".into(), vec![]),
        In::Custom(0, vec![]),
        In::Text("😀\n".into(), vec![]),
        In::Text("1".into(), vec![]),
        In::Text("'".into(), vec![]),
        In::Custom(5, vec![]),
    ]
}

/// Two texts whose border is any two characters, which must not influence each other.
fn borders() -> (u64, impl Fn(u64) -> Vec<In> + Send + Sync + 'static) {
    let mut menu = CLASSES.to_vec();
    for c in "\r\n\u{85}\u{2028}\t\u{200b}\u{200c}\u{200d}\u{2060}\u{feff}\u{ad}\u{fe0f}\u{20e3}\u{300}\u{301}\u{1F1EB}\u{1F3FD}👩❤\u{1100}\u{1161}\u{11a8}אカ\"’_-\0".chars() {
        if !menu.contains(&c) {
            menu.push(c);
        }
    }
    let n = menu.len() as u64;
    (n * n * 9 * 4, move |i| {
        let mut d = Dec(i);
        let (x, y) = (*d.pick(&menu), *d.pick(&menu));
        let left = [format!("{}", x), format!("a{}", x), format!("1{}", x)][d.take(3) as usize].clone();
        let right = [format!("{}", y), format!("{}a", y), format!("{}1", y)][d.take(3) as usize].clone();
        let at = |k: u64| if d.0 >> k & 1 == 1 { vec![Val::A(k as u8)] } else { vec![] };
        vec![In::Text(left, at(0)), In::Text(right, at(1))]
    })
}

const BORDERS: &str = "two texts, each a character or a character next to a letter or a digit, with and without attributes, over all pairs of characters that meet (class representatives, line breaks, joiners, marks, emoji parts)";

fn show_ins(v: &Vec<In>) -> String {
    format!("inputs {:?}", v)
}

fn ins_at(menu: &[In], i: u64) -> Vec<In> {
    seq_at(menu.len() as u64, 0, i).into_iter().map(|k| menu[k].clone()).collect()
}

// ---- C01 ----------------------------------------------------------------------------------------

fn lossless(s: &str, c: &mut Ctx) -> Result<(), String> {
    let l = create_line_from_string(s);
    let t = texts(&l);
    let mut cat = String::with_capacity(s.len());
    for x in &t {
        match x {
            None => return Err("a text became a token without text".into()),
            Some("") => return Err(format!("empty token in {:?}", t)),
            Some(x) => cat.push_str(x),
        }
    }
    c.states += 1;
    c.transitions += t.len() as u64;
    if cat != s {
        return Err(format!("tokens {:?} give back {:?}", t, cat));
    }
    // the tokens as seen by a search are the same tokens
    let f = l.find(&x::token_text());
    if f.len() != t.len() || f.iter().zip(&t).any(|(a, b)| Some(*a.attr()) != *b) {
        return Err(format!("text search lists {:?}, tokens are {:?}", f.iter().map(|x| x.attr()).collect::<Vec<_>>(), t));
    }
    c.outcome(mix(t.len() as u64, t.iter().fold(0, |h, x| mix(h, x.unwrap().len() as u64))));
    Ok(())
}

fn lossless_inputs(ins: &Vec<In>, c: &mut Ctx) -> Result<(), String> {
    let l = real::line(ins, |s| s.len());
    let t = texts(&l);
    let mut k = 0;
    for i in ins {
        match i {
            In::Custom(..) => {
                if t.get(k) != Some(&None) {
                    return Err(format!("token {} should be the custom token: {:?}", k, t));
                }
                k += 1;
            }
            In::Text(s, _) => {
                let mut rest = s.as_str();
                while !rest.is_empty() {
                    match t.get(k) {
                        Some(Some(x)) if !x.is_empty() && rest.starts_with(x) => rest = &rest[x.len()..],
                        other => return Err(format!("token {} is {:?}, remaining text of its input {:?}", k, other, rest)),
                    }
                    k += 1;
                }
            }
        }
    }
    c.states += 1;
    c.transitions += ins.len() as u64;
    if k != t.len() {
        return Err(format!("{} extra tokens in {:?}", t.len() - k, t));
    }
    c.outcome(mix(1, t.len() as u64));
    Ok(())
}

pub fn c01(thorough: bool) -> Vec<Space> {
    let mut v = text_spaces(thorough, lossless);
    let menu = in_menu();
    let l = if thorough { 6 } else { 5 };
    let m2 = menu.clone();
    v.push(Space::new(
        "input-lists",
        &format!("all lists of 0..={} inputs over {} text/custom inputs", l, menu.len()),
        seqs(menu.len() as u64, 0, l),
        move |i| ins_at(&menu, i),
        show_ins,
        lossless_inputs,
    ));
    v.push(Space::new(
        "scalar-in-one-of-two",
        "every Unicode scalar value alone in the first or the second of two inputs (a text or a custom one beside it), or at the border of two texts",
        SCALARS * 5,
        |i| {
            let s = scalar(i / 5).to_string();
            let a = || In::Text("a.".into(), vec![]);
            let t = |s: String| In::Text(s, vec![]);
            match i % 5 {
                0 => vec![a(), t(s)],
                1 => vec![t(s), a()],
                2 => vec![In::Custom(1, vec![]), t(s)],
                3 => vec![t("x ".to_string() + &s), t("y".into())],
                _ => vec![t("x".into()), t(s + "y")],
            }
        },
        show_ins,
        lossless_inputs,
    ));
    v.push(Space::new(
        "huge-lists",
        "lists of up to 131100 inputs",
        HUGE_SHAPES,
        |i| huge_line(i).ins(),
        |v: &Vec<In>| format!("{} inputs", v.len()),
        lossless_inputs,
    ));
    let (n, make) = borders();
    v.push(Space::new("input-borders", BORDERS, n, make, show_ins, lossless_inputs));
    let n_max = if thorough { 400 } else { 150 };
    v.push(Space::new(
        "many-inputs",
        &format!("every pair of inputs repeated to every list length 1..={} and to {:?}", n_max, sizes(thorough)),
        (m2.len() * m2.len() * (n_max + sizes(thorough).len())) as u64,
        move |i| {
            let mut d = Dec(i);
            let (p, q) = (d.pick(&m2).clone(), d.pick(&m2).clone());
            let n = d.0 as usize + 1;
            let n = if n > n_max { sizes(thorough)[n - n_max - 1] } else { n };
            [p, q].iter().cycle().take(n).cloned().collect()
        },
        show_ins,
        lossless_inputs,
    ));
    v
}

// ---- C02 ----------------------------------------------------------------------------------------

fn classes(s: &str, c: &mut Ctx) -> Result<(), String> {
    let l = create_line_from_string(s);
    let want = tokenize(s);
    let got: Vec<(&str, &layered_nlp::TextTag)> = l
        .ll_tokens()
        .iter()
        .filter_map(|t| match t.get_token() {
            LToken::Text(s, tag) => Some((s.as_str(), tag)),
            LToken::Value => None,
        })
        .collect();
    c.states += 1;
    c.transitions += got.len() as u64;
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && *g.1 == w.1);
    if !same {
        return Err(format!("expected {:?}\n  got      {:?}", want, got));
    }
    // exactly one tag attribute per token, the same one
    let q = l.query::<layered_nlp::TextTag>();
    let ok = q.len() == got.len()
        && q.iter().enumerate().all(|(i, (r, t, v))| *r == (i, i) && t == got[i].0 && v.len() == 1 && v[0] == got[i].1);
    if !ok {
        return Err(format!("tag attributes {:?} do not mirror the tokens {:?}", q, got));
    }
    c.outcome(got.iter().fold(0, |h, (_, t)| mix(h, tag_code(t))));
    Ok(())
}

fn classes_of_inputs(ins: &Vec<In>, c: &mut Ctx) -> Result<(), String> {
    let l = real::line(ins, |s| s.len());
    let mut want: Vec<(String, Option<layered_nlp::TextTag>)> = Vec::new();
    for i in ins {
        match i {
            In::Custom(..) => want.push((String::new(), None)),
            In::Text(s, _) => want.extend(tokenize(s).into_iter().map(|(s, t)| (s.to_string(), Some(t)))),
        }
    }
    let got: Vec<(String, Option<layered_nlp::TextTag>)> = l
        .ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, tag) => (s.clone(), Some(tag.clone())),
            LToken::Value => (String::new(), None),
        })
        .collect();
    c.states += 1;
    c.transitions += got.len() as u64;
    if got != want {
        return Err(format!("expected {:?}\n  got      {:?}", want, got));
    }
    let tags: Vec<(Rng, Vec<layered_nlp::TextTag>)> = l.query::<layered_nlp::TextTag>().into_iter().map(|(r, _, v)| (r, v.into_iter().cloned().collect())).collect();
    let want: Vec<(Rng, Vec<layered_nlp::TextTag>)> = want.into_iter().enumerate().filter_map(|(i, (_, t))| t.map(|t| ((i, i), vec![t]))).collect();
    if tags != want {
        return Err(format!("tag attributes {:?}, expected {:?}", tags, want));
    }
    c.outcome(got.iter().fold(3, |h, (_, t)| mix(h, t.as_ref().map_or(77, tag_code))));
    Ok(())
}

pub fn c02(thorough: bool) -> Vec<Space> {
    let mut v = text_spaces(thorough, classes);
    let (n, make) = borders();
    v.push(Space::new("input-borders", BORDERS, n, make, show_ins, classes_of_inputs));
    let menu = in_menu();
    let l = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "input-lists",
        &format!("all lists of 0..={} inputs over {} text/custom inputs", l, menu.len()),
        seqs(menu.len() as u64, 0, l),
        move |i| ins_at(&menu, i),
        show_ins,
        classes_of_inputs,
    ));
    // words of letters, apostrophes and dashes
    const WORDY: &[char] = &['a', 'É', '\'', '-', '–', '’', '_', '.', 'ß'];
    let l = if thorough { 7 } else { 6 };
    v.push(Space::new(
        "wordy-strings",
        &format!("all strings of 1..={} characters over {:?}", l, WORDY),
        strings_over(WORDY, l),
        |i| string_over(WORDY, i),
        |s: &String| format!("text {:?}", s),
        |s: &String, c| classes(s, c),
    ));
    const DIGITY: &[char] = &['1', '9', 'a', 'é', ',', '.', '_', '\'', ';', '\u{301}', '٣', '\u{20e3}'];
    let l = if thorough { 6 } else { 5 };
    v.push(Space::new(
        "digit-strings",
        &format!("all strings of 1..={} characters over {:?}", l, DIGITY),
        strings_over(DIGITY, l),
        |i| string_over(DIGITY, i),
        |s: &String| format!("text {:?}", s),
        |s: &String, c| classes(s, c),
    ));
    v
}

// ---- C03 ----------------------------------------------------------------------------------------

const MEASURES: &[(&str, fn(&str) -> usize)] = &[
    ("bytes", |s| s.len()),
    ("utf16", |s| s.encode_utf16().count()),
    ("chars", |s| s.chars().count()),
    ("zero", |_| 0),
    ("three", |_| 3),
    ("mixed", |s| s.len() * 7 % 5 + if s.starts_with(' ') { 100 } else { 0 }),
    // differs for almost any two texts
    ("digest", |s| s.chars().fold(7, |h, c| (h * 31 + c as usize) % 1009)),
];

/// Expected token positions from the real token texts and the measure.
fn tile(l: &LLLine, ins: &[In], measure: fn(&str) -> usize) -> Result<Vec<Rng>, String> {
    let mut customs = ins.iter().filter_map(|i| match i {
        In::Custom(s, _) => Some(*s),
        _ => None,
    });
    let mut pos = 0;
    let mut out = Vec::new();
    for t in texts(l) {
        let size = match t {
            Some(s) => measure(s),
            None => customs.next().ok_or("more custom tokens than custom inputs")?,
        };
        out.push((pos, pos + size));
        pos += size;
    }
    Ok(out)
}

fn positions(ins: &Vec<In>, mi: usize, c: &mut Ctx) -> Result<(), String> {
    let (name, f) = MEASURES[mi];
    let l = real::line(ins, f);
    let at = tile(&l, ins, f)?;
    let t = texts(&l);
    // every text token
    let want: Vec<(Rng, &str)> = t.iter().zip(&at).filter_map(|(t, p)| t.map(|t| (*p, t))).collect();
    let found = l.find(&x::token_text());
    let got: Vec<(Rng, &str)> = found.iter().map(|f| (f.range(), *f.attr())).collect();
    if got != want {
        return Err(format!("measure {}: text tokens at {:?}, expected {:?}", name, got, want));
    }
    // every supplied attribute covers its input
    let mut k = 0;
    let mut want: Vec<(Rng, u8)> = Vec::new();
    for i in ins {
        let (n, attrs) = match i {
            In::Custom(_, a) => (1, a),
            In::Text(s, a) => {
                let mut rest = s.len();
                let mut n = 0;
                while rest > 0 {
                    rest = rest.saturating_sub(t[k + n].map_or(rest, |x| x.len()));
                    n += 1;
                }
                (n, a)
            }
        };
        for a in attrs {
            if let Val::A(v) = a {
                want.push(((at[k].0, at[k + n - 1].1), *v));
            }
        }
        k += n;
    }
    let found = l.find(&x::attr::<A>());
    let got: Vec<(Rng, u8)> = found.iter().map(|f| (f.range(), f.attr().0)).collect();
    if got != want {
        return Err(format!("measure {}: attributes at {:?}, expected {:?}", name, got, want));
    }
    // neighbouring pairs and triples of text tokens
    let found = l.find(&x::seq((x::token_text(), x::token_text())));
    let got: Vec<Rng> = found.iter().map(|f| f.range()).collect();
    let want: Vec<Rng> = (1..t.len()).filter(|i| t[*i].is_some() && t[*i - 1].is_some()).map(|i| (at[i - 1].0, at[i].1)).collect();
    if got != want {
        return Err(format!("measure {}: token pairs at {:?}, expected {:?}", name, got, want));
    }
    let found = l.find(&x::seq((x::token_text(), x::token_text(), x::token_text())));
    let got: Vec<Rng> = found.iter().map(|f| f.range()).collect();
    let want: Vec<Rng> = (2..t.len())
        .filter(|i| t[*i].is_some() && t[*i - 1].is_some() && t[*i - 2].is_some())
        .map(|i| (at[i - 2].0, at[i].1))
        .collect();
    if got != want {
        return Err(format!("measure {}: token triples at {:?}, expected {:?}", name, got, want));
    }
    c.states += 1;
    c.transitions += 4;
    c.outcome(at.iter().fold(mi as u64, |h, r| mix(mix(h, r.0 as u64), r.1 as u64)));
    Ok(())
}

fn shortcut(s: &str, c: &mut Ctx) -> Result<(), String> {
    let mut lines = vec![create_line_from_string(s)];
    if s.len() < 6 {
        #[allow(deprecated)]
        lines.push(layered_nlp::create_tokens(vec![InputToken::text(s.to_string(), vec![])], |t| t.len()));
    }
    for l in &lines {
        let mut pos = 0;
        for f in l.find(&x::token_text()) {
            let end = pos + f.attr().len();
            if f.range() != (pos, end) {
                return Err(format!("token {:?} at {:?}, expected {:?}", f.attr(), f.range(), (pos, end)));
            }
            if s.get(pos..end) != Some(*f.attr()) {
                return Err(format!("token {:?} is not the text at its byte position {}", f.attr(), pos));
            }
            pos = end;
        }
        c.transitions += 1;
    }
    c.states += 1;
    c.outcome(mix(9, s.len() as u64));
    Ok(())
}

pub fn c03(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let menu: Vec<In> = vec![
        In::Text("a".into(), vec![]),
        In::Custom(1, vec![Val::A(1)]),
        In::Text("12.5é x".into(), vec![Val::A(2)]),
        In::Custom(0, vec![]),
        In::Text(" ".into(), vec![Val::A(3)]),
        In::Text("😀".into(), vec![]),
        In::Custom(9, vec![]),
        In::Text("éa b".into(), vec![Val::A(4)]),
        In::Custom(0, vec![Val::A(5)]),
        In::Custom(1 << 40, vec![Val::A(6)]),
    ];
    let nm = MEASURES.len() as u64;
    let l = if thorough { 5 } else { 4 };
    let size = seqs(menu.len() as u64, 0, l);
    let m2 = menu.clone();
    v.push(Space::new(
        "input-lists",
        &format!("all lists of 0..={} inputs over {} text/custom inputs x measures {:?}", l, menu.len(), MEASURES.iter().map(|m| m.0).collect::<Vec<_>>()),
        size * nm,
        move |i| (ins_at(&menu, i / nm), (i % nm) as usize),
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    let n_max = if thorough { 300 } else { 80 };
    v.push(Space::new(
        "many-inputs",
        &format!("every pair of inputs repeated to every list length 1..={} and to {:?} x measures", n_max, sizes(thorough)),
        (m2.len() * m2.len() * (n_max + sizes(thorough).len())) as u64 * nm,
        move |i| {
            let mut d = Dec(i);
            let m = d.take(nm) as usize;
            let (p, q) = (d.pick(&m2).clone(), d.pick(&m2).clone());
            let n = d.0 as usize + 1;
            let n = if n > n_max { sizes(thorough)[n - n_max - 1] } else { n };
            ([p, q].iter().cycle().take(n).cloned().collect::<Vec<_>>(), m)
        },
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    let l1 = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "texts-x-measures",
        &format!("all strings of 1..={} characters over {} class representatives x measures", l1 - 1, CLASSES.len()),
        strings_over(CLASSES, l1 - 1) * nm,
        move |i| (vec![In::Text(string_over(CLASSES, i / nm), vec![Val::A(0)])], (i % nm) as usize),
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    let units = seqs(CLASSES.len() as u64, 1, 2);
    const LONG: &[usize] = &[10, 33, 65, 130, 257, 300, 1030, 5000];
    let nl = LONG.len() as u64 - if thorough { 0 } else { 1 };
    v.push(Space::new(
        "long-texts-x-measures",
        &format!("every unit of 1..=2 class representatives repeated to {:?} characters x measures", &LONG[..nl as usize]),
        units * nl * nm,
        move |i| {
            let mut d = Dec(i);
            let m = d.take(nm) as usize;
            let unit: Vec<char> = string_over(CLASSES, d.take(units)).chars().collect();
            (vec![In::Text(long_text(&unit, LONG[d.0 as usize]), vec![Val::A(0)]), In::Custom(2, vec![Val::A(1)])], m)
        },
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    v.push(Space::new(
        "phrases-x-measures",
        &format!("{} x measures", phrases_rule(2)),
        phrases(2) * nm,
        move |i| (vec![In::Text(phrase(i / nm), vec![Val::A(0)])], (i % nm) as usize),
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    let (n, make) = borders();
    v.push(Space::new(
        "input-borders",
        &format!("{} x measures", BORDERS),
        n * nm,
        move |i| (make(i / nm), (i % nm) as usize),
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    const LETTERS: &[char] = &['a', 'b', 'é', 'ж', 'ა', '𐐀', '1', '2', ' '];
    let longest = if thorough { 200 } else { 48 };
    let nl = LETTERS.len() as u64;
    v.push(Space::new(
        "word-pairs",
        &format!("two words apart, in one text or in two, of any of {:?} each, as long as each other in characters or in bytes, up to {} x measures", LETTERS, longest),
        nl * nl * longest * 4 * nm,
        move |i| {
            let mut d = Dec(i);
            let m = d.take(nm) as usize;
            let (p, q) = (*d.pick(LETTERS), *d.pick(LETTERS));
            let (bytes, apart) = (d.take(2) == 1, d.take(2) == 1);
            let n = d.0 as usize + 1;
            let word = |c: char| std::iter::repeat(c).take(if bytes { (n / c.len_utf8()).max(1) } else { n }).collect::<String>();
            if apart {
                (vec![In::Text(word(p), vec![Val::A(0)]), In::Text(word(q), vec![Val::A(1)])], m)
            } else {
                (vec![In::Text(format!("{}!{}", word(p), word(q)), vec![Val::A(0)]), In::Custom(2, vec![Val::A(1)])], m)
            }
        },
        |(ins, m)| format!("measure {} {}", MEASURES[*m].0, show_ins(ins)),
        |(ins, m), c| positions(ins, *m, c),
    ));
    v.push(Space::new(
        "huge-lists",
        "lists of up to 131100 inputs, with and without sizes x measures",
        HUGE_SHAPES * nm,
        move |i| {
            let n = huge_line(i / nm).kinds.len();
            let ins = huge_line(i / nm)
                .ins()
                .into_iter()
                .enumerate()
                .map(|(k, t)| match t {
                    In::Custom(..) => In::Custom([1, 0, 3][k % 3], if k % 16384 == 0 || k + 2 > n { vec![Val::A(k as u8)] } else { vec![] }),
                    In::Text(t, _) => In::Text(t, vec![Val::A(9)]),
                })
                .collect::<Vec<_>>();
            (ins, (i % nm) as usize)
        },
        |(ins, m)| format!("measure {} on {} inputs", MEASURES[*m].0, ins.len()),
        |(ins, m), c| positions(ins, *m, c),
    ));
    v.extend(text_spaces(thorough, shortcut));
    v
}
