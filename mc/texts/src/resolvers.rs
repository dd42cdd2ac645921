//! C16 text lookup, C17/C18 amounts, C19 clause keywords, C20 clauses, C21 parts of speech.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::{LLLine, LLSelection, TextMatchAssignResolver, TextTag};
use layered_part_of_speech::{POSTagResolver, Tag};
use rust_decimal::Decimal;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;
use wiktionary_part_of_speech_extract::ENGLISH_TAG_LOOKUP;

fn bytes(s: &str) -> usize {
    s.len()
}

// ---- C16 ----------------------------------------------------------------------------------------

const KEYS: &[&str] = &["a", "A", "ab", "Ab", "AB", "é", "É", ",", "1", "a b", "", "Σας", "ΣΑΣ", "ß", "İ", "don't", "iPhone", "IPHONE"];

fn lookup_line() -> Vec<In> {
    let mut v: Vec<In> = ["a", "A", "ab", "aB", "AB", "é", "É", ",", "1", "a b", "Σας", "ΣΑΣ", "σασ", "ß", "SS", "i̇", "İ", "DON'T", "don't", "iphone", "IPhone", "abc", "b"]
        .iter()
        .map(|t| In::Text(t.to_string(), vec![]))
        .collect();
    v.insert(3, In::Custom(1, vec![]));
    v.push(In::Custom(2, vec![Val::Str("a".into()), Val::Char('a'), Val::A(1)]));
    v.push(In::Text("ab, A 1".into(), vec![Val::Str("AB".into())]));
    v
}

#[derive(Clone, Debug)]
struct Table {
    /// (key, values); values are globally distinct so that every loss shows
    rows: Vec<(&'static str, Vec<u16>)>,
}

fn lookups_of(l: &LLLine) -> Vec<(Rng, Vec<u16>)> {
    l.query::<u16>().into_iter().map(|(r, _, v)| (r, v.into_iter().copied().collect())).collect()
}

/// Expected values per token: one list per configured key that matches it.
fn expected(m: &MLine, t: &Table, fold: bool) -> Vec<(Rng, Vec<Vec<u16>>)> {
    let f = |s: &str| if fold { s.to_lowercase() } else { s.to_string() };
    let mut out = Vec::new();
    for (i, tok) in m.toks.iter().enumerate() {
        if let Some(text) = &tok.text {
            let lists: Vec<Vec<u16>> = t.rows.iter().filter(|(k, v)| f(k) == f(text) && !v.is_empty()).map(|(_, v)| v.clone()).collect();
            if !lists.is_empty() {
                out.push(((i, i), lists));
            }
        }
    }
    out
}

fn is_merge(got: &[u16], lists: &[Vec<u16>]) -> bool {
    // values are distinct, so: same length, each list in order
    got.len() == lists.iter().map(Vec::len).sum::<usize>()
        && lists.iter().all(|l| {
            let kept: Vec<u16> = got.iter().copied().filter(|v| l.contains(v)).collect();
            kept == *l
        })
}

fn check_lookup(what: &str, got: &[(Rng, Vec<u16>)], want: &[(Rng, Vec<Vec<u16>>)]) -> Result<(), String> {
    let ok = got.len() == want.len() && got.iter().zip(want).all(|((r, v), (q, l))| r == q && is_merge(v, l));
    if ok {
        Ok(())
    } else {
        Err(format!("{}: expected (token, values per key) {:?}, got {:?}", what, want, got))
    }
}

fn permutations(n: usize) -> usize {
    (1..=n).product()
}

/// Builds the map anew until every iteration order of its keys has been seen (the hash seed is the
/// library's only source of nondeterminism here).
fn every_map_order(rows: &[(&'static str, Vec<u16>)], mut f: impl FnMut(HashMap<String, Vec<u16>>) -> Result<(), String>) -> Result<u64, String> {
    let mut seen: BTreeSet<Vec<String>> = BTreeSet::new();
    let all = permutations(rows.len());
    for _ in 0..4000 {
        let map: HashMap<String, Vec<u16>> = rows.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let order: Vec<String> = map.keys().cloned().collect();
        if seen.insert(order) {
            f(map)?;
            if seen.len() == all {
                break;
            }
        }
    }
    Ok(seen.len() as u64)
}

const ARRAYS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 40, 48, 50, 60, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000,
    1024, 1025,
];

fn array_resolver(v: &[(&'static str, u16)]) -> TextMatchAssignResolver<u16> {
    macro_rules! a {
        ($($n:literal)*) => {
            match v.len() {
                $($n => TextMatchAssignResolver::new_case_insensitive_str_arr(std::array::from_fn::<_, $n, _>(|i| v[i])),)*
                _ => unreachable!(),
            }
        };
    }
    a!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 40 48 50 60 63 64 65 80 99 100 101 127 128 129 200 255 256 257 300 512 513 1000 1024 1025)
}

/// Keys for large arrays; every third differs from the one before it by case only.
fn array_keys() -> Vec<&'static str> {
    static KEYS: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    KEYS.get_or_init(|| {
        (0..1100u32)
            .map(|k| {
                let k2 = if k % 3 == 2 { k - 1 } else { k };
                let s = format!("{}{}", char::from(b'a' + (k2 % 26) as u8), char::from_u32(0x430 + k2 / 26).unwrap());
                &*Box::leak((if k % 3 == 2 { s.to_uppercase() } else { s }).into_boxed_str())
            })
            .collect()
    })
    .clone()
}

fn array_case((n, shape): &(usize, u64), c: &mut Ctx) -> Result<(), String> {
    let keys = array_keys();
    let rows: Vec<(&'static str, u16)> = (0..*n)
        .map(|i| {
            let k = match shape {
                0 => i,
                1 => 0,
                2 => i % 4,
                3 => i / 2,
                _ => n - 1 - i,
            };
            (keys[k], (n - i) as u16)
        })
        .collect();
    let ins: Vec<In> = keys[..(*n).max(1) + 1].iter().map(|k| In::Text(format!("{} ", k), vec![])).collect();
    let m = MLine::new(&ins, &bytes);
    let l = real::line(&ins, bytes).run(&array_resolver(&rows));
    let got = lookups_of(&l);
    let mut by: HashMap<String, Vec<u16>> = HashMap::new();
    for (k, v) in &rows {
        by.entry(k.to_lowercase()).or_default().push(*v);
    }
    let want: Vec<(Rng, Vec<u16>)> = m.toks.iter().enumerate().filter_map(|(i, t)| Some(((i, i), by.get(&t.text.as_ref()?.to_lowercase())?.clone()))).collect();
    c.states += 1;
    c.transitions += 1;
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("{} tokens annotated, expected {}; entry {}: {:?}, expected {:?}", got.len(), want.len(), at, got.get(at), want.get(at)));
    }
    c.outcome(hstr(&format!("{:?}", got)));
    Ok(())
}

fn lookup_case(t: &Table, c: &mut Ctx) -> Result<(), String> {
    let ins = lookup_line();
    let m = MLine::new(&ins, &bytes);
    // maps need distinct keys
    let mut keys: Vec<&str> = t.rows.iter().map(|r| r.0).collect();
    keys.sort();
    keys.dedup();
    if keys.len() == t.rows.len() {
        for fold in [false, true] {
            let want = expected(&m, t, fold);
            let mut first: Option<Vec<(Rng, Vec<u16>)>> = None;
            let n = every_map_order(&t.rows, |map| {
                let r = if fold { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) };
                let l = real::line(&ins, bytes).run(&r);
                let got = lookups_of(&l);
                check_lookup(if fold { "case-insensitive map" } else { "case-sensitive map" }, &got, &want)?;
                match &first {
                    None => first = Some(got),
                    Some(f) if *f != got => return Err(format!("the result depends on the map's iteration order: {:?} or {:?}", f, got)),
                    _ => {}
                }
                // the other attributes are untouched, and a second run repeats the values
                real::same_annotations(&l, &m)?;
                Ok(())
            })?;
            c.transitions += n;
            c.states += 1;
            c.outcome(hstr(&format!("{:?}", first)));
        }
    }
    let pairs: Vec<(&'static str, u16)> = t.rows.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
    if pairs.len() <= 5 {
        let l = real::line(&ins, bytes).run(&array_resolver(&pairs));
        let got = lookups_of(&l);
        // array order is the configured order
        let want: Vec<(Rng, Vec<Vec<u16>>)> = expected(&m, t, true).into_iter().map(|(r, l)| (r, vec![l.concat()])).collect();
        check_lookup("case-insensitive array", &got, &want)?;
        real::same_annotations(&l, &m)?;
        c.transitions += 1;
        c.states += 1;
        c.outcome(hstr(&format!("arr{:?}", got)));
    }
    Ok(())
}

/// A token with its own text, its upper- and its lowercase form as key.
fn lookup_text(s: &String, c: &mut Ctx) -> Result<(), String> {
        let ins = [In::Text(s.clone(), vec![]), In::Custom(1, vec![]), In::Text("zz".into(), vec![])];
        let m = MLine::new(&ins, &bytes);
        for key in [s.clone(), s.to_uppercase(), s.to_lowercase()] {
            for fold in [false, true] {
                let map: HashMap<String, Vec<u16>> = [(key.clone(), vec![9u16, 4])].into_iter().collect();
                let r = if fold { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) };
                let l = real::line(&ins, bytes).run(&r);
                let f = |s: &str| if fold { s.to_lowercase() } else { s.to_string() };
                let want: Vec<(Rng, Vec<u16>)> = (0..m.len())
                    .filter(|j| m.toks[*j].text.as_ref().map_or(false, |t| f(t) == f(&key)))
                    .map(|j| ((j, j), vec![9, 4]))
                    .collect();
                let got = lookups_of(&l);
                if got != want {
                    return Err(format!("key {:?} ({}): expected {:?}, got {:?}", key, if fold { "case-insensitive" } else { "case-sensitive" }, want, got));
                }
                c.transitions += 1;
                c.outcome(mix(hstr(&format!("{:?}", got)), fold as u64));
            }
        }
        c.states += 1;
        Ok(())
}

/// Texts of phrases, given to the check of one resolver.
fn phrase_space(max: u32, check: fn(&String, &mut Ctx) -> Result<(), String>) -> Space {
    Space::new("phrases", &phrases_rule(max), phrases(max), phrase, show_text, check)
}

/// Every scalar in some contexts, given to the check of one resolver.
fn scalar_space(ctxs: &'static [(&'static str, &'static str)], check: fn(&String, &mut Ctx) -> Result<(), String>) -> Space {
    Space::new("every-scalar", &scalars_rule(ctxs), SCALARS * ctxs.len() as u64, move |i| in_context(ctxs, i), show_text, check)
}

/// A text against the fixed keys a, ab and B, and against the keys it consists of.
fn lookup_scalar(s: &String, c: &mut Ctx) -> Result<(), String> {
    let ins = [In::Text(s.clone(), vec![])];
    let m = MLine::new(&ins, &bytes);
    for fold in [false, true] {
        let f = |s: &str| if fold { s.to_lowercase() } else { s.to_string() };
        let mut keys: Vec<String> = vec!["a".into(), "ab".into(), "B".into()];
        if let Some(t) = &m.toks[m.len() / 2].text {
            if !keys.iter().any(|k| f(k) == f(t)) {
                keys.push(t.clone());
            }
        }
        let map: HashMap<String, Vec<u16>> = keys.iter().enumerate().map(|(i, k)| (k.clone(), vec![i as u16, 9])).collect();
        let r = if fold { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) };
        let l = real::line(&ins, bytes).run(&r);
        let want: Vec<(Rng, Vec<u16>)> = (0..m.len())
            .filter_map(|j| {
                let t = f(m.toks[j].text.as_ref()?);
                keys.iter().position(|k| f(k) == t).map(|k| ((j, j), vec![k as u16, 9]))
            })
            .collect();
        let got = lookups_of(&l);
        c.transitions += 1;
        if got != want {
            return Err(format!("keys {:?} ({}): expected {:?}, got {:?}", keys, if fold { "case-insensitive" } else { "case-sensitive" }, want, got));
        }
        c.outcome(mix(hstr(&format!("{:?}", got)), fold as u64));
    }
    c.states += 1;
    Ok(())
}

pub fn c16(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let k = KEYS.len() as u64;
    let n = if thorough { 4 } else { 3 };
    v.push(Space::new(
        "tables",
        &format!("all lists of 0..={} keys over {:?} (keys that differ only by case included), one or two values per key, through all three constructors and every iteration order of the map", n, KEYS),
        seqs(k, 0, n) * 2,
        move |i| {
            let two = i % 2 == 1;
            let rows = seq_at(k, 0, i / 2)
                .into_iter()
                .enumerate()
                .map(|(j, x)| {
                    let b = j as u16 * 10;
                    (KEYS[x], if two && j % 2 == 0 { vec![b + 7, b + 3] } else { vec![b + 5] })
                })
                .collect();
            Table { rows }
        },
        |t: &Table| format!("lookup table {:?}", t.rows),
        lookup_case,
    ));
    let nv = if thorough { 12 } else { 6 };
    v.push(Space::new(
        "value-lists",
        &format!("every pair of keys with 0..={} values each", nv),
        k * k * (nv + 1) * (nv + 1),
        move |i| {
            let mut d = Dec(i);
            let (p, q) = (*d.pick(KEYS), *d.pick(KEYS));
            let (a, b) = (d.take(nv + 1) as u16, d.take(nv + 1) as u16);
            // values not in ascending order
            Table { rows: vec![(p, (0..a).rev().collect()), (q, (100..100 + b).rev().collect())] }
        },
        |t: &Table| format!("lookup table {:?}", t.rows),
        lookup_case,
    ));
    // large tables
    let ss: Vec<usize> = (1..=20).chain(sizes(thorough)).collect();
    let ns = ss.len() as u64;
    v.push(Space::new(
        "large-tables",
        &format!("tables of {:?} keys with 1, 2 or 40 values, one key with that many values, or that many words each a key in two casings, a line of all keys in two casings, three constructors' modes", ss),
        ns * 5 * 2,
        move |i| {
            let mut d = Dec(i);
            let fold = d.take(2) == 1;
            let shape = d.take(5);
            (ss[d.0 as usize], shape, fold)
        },
        |x: &(usize, u64, bool)| format!("{} keys, shape {}, case-insensitive {}", x.0, x.1, x.2),
        |(n, shape, fold), c| {
            let word = |k: usize| {
                let mut s = String::from(if k % 3 == 0 { "É" } else { "k" });
                let mut k = k;
                loop {
                    s.push(char::from(b'a' + (k % 26) as u8));
                    k /= 26;
                    if k == 0 {
                        break;
                    }
                }
                s
            };
            let rows: Vec<(String, Vec<u32>)> = match shape {
                3 => vec![(word(0), (0..*n as u32).rev().collect())],
                // keys that differ by case
                4 => (0..*n).flat_map(|k| [(word(k), vec![k as u32 * 4 + 1, k as u32 * 4]), (word(k).to_uppercase(), vec![k as u32 * 4 + 3, k as u32 * 4 + 2])]).collect(),
                _ => (0..*n).map(|k| (word(k), (0..[1, 2, 40][*shape as usize]).map(|j| (k * 100 + 99 - j) as u32).collect())).collect(),
            };
            let map: HashMap<String, Vec<u32>> = rows.iter().cloned().collect();
            let r = if *fold { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) };
            let mut ins = Vec::new();
            for (k, _) in &rows {
                ins.push(In::Text(k.clone(), vec![]));
                ins.push(In::Text(k.to_uppercase(), vec![]));
                ins.push(In::Text(" zz".into(), vec![]));
            }
            let m = MLine::new(&ins, &bytes);
            let f = |s: &str| if *fold { s.to_lowercase() } else { s.to_string() };
            let mut by: HashMap<String, Vec<u32>> = HashMap::new();
            for (k, v) in &rows {
                by.entry(f(k)).or_default().extend(v);
            }
            let want: Vec<(Rng, Vec<u32>)> =
                m.toks.iter().enumerate().filter_map(|(i, t)| by.get(&f(t.text.as_deref()?)).map(|v| ((i, i), v.clone()))).collect();
            let l = real::line(&ins, bytes).run(&r);
            let mut got: Vec<(Rng, Vec<u32>)> = l.query::<u32>().into_iter().map(|(r, _, v)| (r, v.into_iter().copied().collect())).collect();
            if *shape == 4 && *fold {
                // two keys that differ by case: only the order within one key is fixed
                for (_, v) in got.iter_mut() {
                    v.sort_by_key(|v| v % 4 / 2);
                }
            }
            c.states += 1;
            c.transitions += m.len() as u64;
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("{} tokens annotated, expected {}; entry {}: {:?}, expected {:?}", got.len(), want.len(), at, got.get(at), want.get(at)));
            }
            c.outcome(hstr(&format!("{:?}", got)));
            Ok(())
        },
    ));
    // every token text of the character classes, against a key equal to / differing by case from it
    let alpha: Vec<char> = vec!['a', 'A', 'é', 'É', '1', '-', '\'', 'Σ', 'σ', 'ς', 'ß', 'İ', 'ı', 'Ǆ', 'ﬁ'];
    let al = alpha.clone();
    let len = if thorough { 4 } else { 3 };
    v.push(Space::new(
        "texts",
        &format!("every text of 1..={} characters over {:?} as a token, with its own text, its upper- and its lowercase form as key", len, alpha),
        strings_over(&alpha, len),
        move |i| string_over(&al, i),
        |s: &String| format!("text {:?}", s),
        lookup_text,
    ));
    let cased = Arc::new(cased_scalars());
    let nc = cased.len() as u64;
    v.push(Space::new(
        "cased-scalars",
        &format!("each of the {} Unicode scalars that has another lowercase or uppercase form, in {} contexts", nc, CASE_CONTEXTS.len()),
        nc * CASE_CONTEXTS.len() as u64,
        move |i| in_case_context(&cased, i),
        show_text,
        lookup_text,
    ));
    v.push(Space::new(
        "huge",
        "a text of more than 65536 tokens, of which a few or half match, both modes; one token of 70000 characters; one key with 70000 values",
        8,
        |i| i,
        |i| format!("huge text {}", i),
        |i, c| {
            let fold = i % 2 == 1;
            let long = "k".repeat(70000);
            let (text, keys): (String, Vec<&str>) = match i / 2 {
                0 => ("x ".repeat(32767) + "ab AB x AB ab", vec!["ab", "AB"]),
                1 => ("ab ".repeat(33000), vec!["ab"]),
                2 => (format!("{} x {}", long, long.to_uppercase()), vec![&long]),
                _ => ("ab x Ab ab".into(), vec!["ab"]),
            };
            let n = if i / 2 == 3 { 70000 } else { 2 };
            let map: HashMap<String, Vec<u32>> = keys.iter().enumerate().map(|(k, w)| (w.to_string(), (0..n).map(|v| v * 10 + k as u32).collect())).collect();
            let r = if fold { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) };
            let l = real::line(&[In::Text(text.clone(), vec![])], bytes).run(&r);
            let f = |s: &str| if fold { s.to_lowercase() } else { s.to_string() };
            let mut want: Vec<(Rng, Vec<u32>)> = Vec::new();
            for (j, (t, _)) in tokenize(&text).into_iter().enumerate() {
                let hits: Vec<usize> = (0..keys.len()).filter(|k| f(keys[*k]) == f(&t)).collect();
                if !hits.is_empty() {
                    want.push(((j, j), hits.iter().flat_map(|k| (0..n).map(move |v| v * 10 + *k as u32)).collect()));
                }
            }
            let mut got: Vec<(Rng, Vec<u32>)> = l.query::<u32>().into_iter().map(|(r, _, v)| (r, v.into_iter().copied().collect())).collect();
            if keys.len() > 1 && fold {
                // two keys that differ by case: only the order within one key is fixed
                for (_, v) in got.iter_mut() {
                    v.sort_by_key(|v| v % 10);
                }
            }
            c.states += 1;
            c.transitions += want.len() as u64;
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("{} tokens annotated, expected {}; the first difference is entry {}", got.len(), want.len(), at));
            }
            c.outcome(mix(*i, got.len() as u64));
            Ok(())
        },
    ));
    v.push(phrase_space(2, |s, c| {
        lookup_text(s, c)?;
        // every token of the text as a key
        let ins = [In::Text(s.clone(), vec![])];
        let m = MLine::new(&ins, &bytes);
        for fold in [false, true] {
            let f = |s: &str| if fold { s.to_lowercase() } else { s.to_string() };
            let keys: Vec<&String> = m.toks.iter().filter_map(|t| t.text.as_ref()).collect();
            // the value of a key is the place of the first token that equals it
            let at = |t: &str| keys.iter().position(|k| f(k) == f(t)).unwrap() as u16;
            let map: HashMap<String, Vec<u16>> = keys.iter().map(|k| (f(k), vec![at(k)])).collect();
            let r = if fold { TextMatchAssignResolver::new_case_insensitive(map) } else { TextMatchAssignResolver::new(map) };
            let got = lookups_of(&real::line(&ins, bytes).run(&r));
            let want: Vec<(Rng, Vec<u16>)> = keys.iter().enumerate().map(|(j, k)| ((j, j), vec![at(k)])).collect();
            if got != want {
                return Err(format!("every token as a key ({}): expected {:?}, got {:?}", if fold { "case-insensitive" } else { "case-sensitive" }, want, got));
            }
            c.transitions += 1;
        }
        Ok(())
    }));
    v.push(scalar_space(&[("", ""), ("ab", ""), ("", "ab"), ("a", "b"), ("a ", " b")], lookup_scalar));
    v.extend(crate::layers::spaces(16, thorough));
    v.push(Space::new(
        "arrays",
        &format!("arrays of {:?} rows: all keys different (or by case), one key, four keys in turn, pairs of rows, backwards", ARRAYS),
        ARRAYS.len() as u64 * 5,
        |i| (ARRAYS[(i / 5) as usize], i % 5),
        |x| format!("{} rows, shape {}", x.0, x.1),
        array_case,
    ));
    v
}

/// Scalars that change under case mapping.
fn cased_scalars() -> Vec<char> {
    (0..SCALARS).map(scalar).filter(|c| !c.to_lowercase().eq([*c]) || !c.to_uppercase().eq([*c])).collect()
}

const CASE_CONTEXTS: &[(&str, &str)] = &[("", ""), ("a", ""), ("", "a"), ("a", "a"), ("AB", ""), ("", "BA"), ("αΒ", ""), ("", "'s"), ("x-", ""), ("é", "É")];

fn in_case_context(cased: &[char], i: u64) -> String {
    let mut d = Dec(i);
    let (a, b) = *d.pick(CASE_CONTEXTS);
    format!("{}{}{}", a, cased[d.0 as usize], b)
}

// ---- C17 / C18 ------------------------------------------------------------------------------------

/// The documented grammar over the model's tokens.
fn amounts(toks: &[MTok], delims: &[char], mark: char) -> Vec<(Rng, String)> {
    let natn = |i: usize| -> Option<&str> {
        let t = toks.get(i)?;
        (t.tag == Some(TextTag::NATN)).then(|| t.text.as_deref().unwrap())
    };
    let ch = |i: usize| -> Option<char> {
        let t = toks.get(i)?.text.as_deref()?;
        let mut cs = t.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) => Some(c),
            _ => None,
        }
    };
    let is_delim = |i: usize| ch(i).map_or(false, |c| delims.contains(&c));
    let mut out = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        let Some(d) = natn(i) else {
            i += 1;
            continue;
        };
        let start = i;
        let mut number = d.to_string();
        let mut end = i;
        let mut next;
        loop {
            next = end + 1;
            if is_delim(next) {
                if let Some(d) = natn(next + 1) {
                    number.push_str(d);
                    end = next + 1;
                    continue;
                }
                // a delimiter that had to be given up
                next += 1;
            } else if ch(next) == Some(mark) {
                if let Some(d) = natn(next + 1) {
                    number.push('.');
                    number.push_str(d);
                    end = next + 1;
                    next = end + 1;
                } else {
                    next += 1;
                }
            }
            break;
        }
        out.push(((start, end), number));
        i = next;
    }
    out
}

/// The number as a decimal, computed without the parser where it is small enough.
fn decimal(number: &str) -> Option<Decimal> {
    let (int, frac) = number.split_once('.').unwrap_or((number, ""));
    let digits: String = format!("{}{}", int, frac);
    if digits.len() <= 28 && frac.len() <= 28 {
        return Some(Decimal::from_i128_with_scale(digits.parse::<i128>().unwrap(), frac.len() as u32));
    }
    number.parse().ok()
}

type Found = Vec<(Rng, Vec<String>)>;

fn found_amounts(l: &LLLine) -> Found {
    l.query::<Amount>()
        .into_iter()
        .map(|(r, _, v)| (r, v.into_iter().map(|a| a.get_decimal().to_string()).collect()))
        .collect()
}

fn want_amounts(m: &MLine, delims: &[char], mark: char) -> Found {
    amounts(&m.toks, delims, mark)
        .into_iter()
        .filter_map(|(r, n)| decimal(&n).map(|d| (r, vec![d.to_string()])))
        .collect()
}

fn amounts_agree(ins: &[In], r: &AmountResolver, delims: &[char], mark: char, c: &mut Ctx) -> Result<(), String> {
    let m = MLine::new(ins, &bytes);
    let l = real::line(ins, bytes).run(r);
    let got = found_amounts(&l);
    let want = want_amounts(&m, delims, mark);
    c.transitions += 1;
    if got != want {
        return Err(format!(
            "delimiters {:?}, decimal mark {:?}: expected amounts {:?}, got {:?} (tokens {:?})",
            delims,
            mark,
            want,
            got,
            m.toks.iter().map(|t| t.text.as_deref().unwrap_or("<>")).collect::<Vec<_>>()
        ));
    }
    if !got.is_empty() {
        c.outcome(hstr(&format!("{:?}", got)));
    }
    Ok(())
}

fn configs() -> Vec<(Vec<char>, char)> {
    vec![
        (vec![',', '\''], '.'),
        (vec![' ', '.', '\''], ','),
        (vec![','], '.'),
        (vec![], '.'),
        (vec![' ', '\''], ','),
        (vec![',', '.'], '.'),
        (vec!['_', ','], '.'),
        (vec!['a'], '\''),
        (vec![',', ' ', '.', '\'', 'a', '_'], '€'),
    ]
}

fn text_amounts(s: &String, c: &mut Ctx) -> Result<(), String> {
    let ins = [In::Text(s.clone(), vec![])];
    c.states += 1;
    for (d, mark) in configs() {
        amounts_agree(&ins, &AmountResolver::new(d.clone(), mark), &d, mark, c)?;
    }
    Ok(())
}

fn show_text(s: &String) -> String {
    format!("text {:?}", s)
}

pub fn c17(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let mut add = |name: &str, alpha: Vec<char>, len: u32| {
        let a = alpha.clone();
        v.push(Space::new(
            name,
            &format!("every text of 1..={} characters over {:?} x {} configurations", len, alpha, configs().len()),
            strings_over(&alpha, len),
            move |i| string_over(&a, i),
            show_text,
            text_amounts,
        ));
    };
    add("texts", vec!['1', '0', ',', '.', ' ', '\'', 'a'], if thorough { 7 } else { 6 });
    add("number-shapes", vec!['5', ',', '.', '_'], if thorough { 10 } else { 8 });
    add("other-characters", vec!['1', ',', '.', '_', '\n', '€', 'é', '٣', '-', '\u{301}'], if thorough { 6 } else { 5 });
    if thorough {
        add("two-digits", vec!['7', ',', '.'], 12);
    }
    // groups of digits
    let groups: Vec<&'static str> = vec!["1", "12", "000", "045", "1000"];
    let seps: Vec<&'static str> = vec![",", ".", " ", "'", ",,", ", ", ". ", ".,", " and ", "\t"];
    let ends: Vec<&'static str> = vec!["", ".", ",", " x", "'s", "!"];
    let gl = if thorough { 4 } else { 3 };
    let (g, s, e) = (groups.clone(), seps.clone(), ends.clone());
    let unit = (groups.len() * seps.len()) as u64;
    v.push(Space::new(
        "groups",
        &format!("every sequence of 1..={} digit groups {:?} joined by {:?}, ending in {:?}", gl, groups, seps, ends),
        seqs(unit, 0, gl - 1) * (groups.len() * ends.len()) as u64,
        move |i| {
            let mut d = Dec(i);
            let tail = *d.pick(&e);
            let last = *d.pick(&g);
            let mut t = String::new();
            for u in seq_at(unit, 0, d.0) {
                t.push_str(g[u % g.len()]);
                t.push_str(s[u / g.len()]);
            }
            t + last + tail
        },
        show_text,
        text_amounts,
    ));
    // custom tokens between texts
    let alpha = vec!['1', ',', '.', ' '];
    let n1 = strings_over(&alpha, 3);
    v.push(Space::new(
        "around-custom-token",
        "every pair of texts of 1..=3 characters over ['1', ',', '.', ' '] with a custom token between them, before or after both",
        n1 * n1 * 2,
        move |i| {
            let mut d = Dec(i);
            let a = string_over(&alpha, d.take(n1));
            let b = string_over(&alpha, d.take(n1));
            (a, b, d.0 == 1)
        },
        |x: &(String, String, bool)| format!("{:?}, custom token, {:?}{}", x.0, x.1, if x.2 { ", custom token" } else { "" }),
        |(a, b, tail), c| {
            let mut ins = vec![In::Text(a.clone(), vec![]), In::Custom(1, vec![]), In::Text(b.clone(), vec![])];
            if *tail {
                ins.push(In::Custom(3, vec![Val::A(0)]));
                ins.insert(0, In::Custom(0, vec![]));
            }
            c.states += 1;
            for (d, mark) in configs() {
                amounts_agree(&ins, &AmountResolver::new(d.clone(), mark), &d, mark, c)?;
            }
            Ok(())
        },
    ));
    // long lists of numbers
    let max = if thorough { 300 } else { 70 };
    let ss: Vec<usize> = (1..=max).chain(sizes(thorough).into_iter().filter(|n| *n > max && *n < 600)).collect();
    v.push(Space::new(
        "long-lists",
        &format!("{:?} repetitions of each of 12 number phrases", ss),
        ss.len() as u64 * 12,
        move |i| {
            let p = ["1", "1,", "1.", "1, ", "1,5 ", "1.5,", "1.5.5", "1 and ", "12'", "0.0 ", "1a", "9,9.9, "];
            p[(i % 12) as usize].repeat(ss[(i / 12) as usize])
        },
        show_text,
        |s: &String, c| {
            // numbers that outgrow the decimal type belong to C18
            let m = MLine::new(&[In::Text(s.clone(), vec![])], &bytes);
            for (d, mark) in configs() {
                if amounts(&m.toks, &d, mark).iter().all(|(_, n)| n.len() <= 28) {
                    amounts_agree(&[In::Text(s.clone(), vec![])], &AmountResolver::new(d.clone(), mark), &d, mark, c)?;
                }
            }
            c.states += 1;
            Ok(())
        },
    ));
    let all: Vec<char> = if thorough { (0..SCALARS).map(scalar).collect() } else { special_scalars(true).into_iter().chain((0..0x3000).map(scalar)).collect() };
    let na = all.len() as u64;
    v.push(Space::new(
        "any-separator",
        &format!("each of {} scalar values as the delimiter, the decimal mark, both, or neither x 6 texts it occurs in", na),
        na * 6,
        move |i| {
            let c = all[(i / 6) as usize];
            (c, [format!("1{c}2"), format!("1{c}23.4{c}5"), format!("{c}1{c}.{c}1,2{c} {c}3"), format!("7{c}{c}8"), format!("1,5{c}6,7"), format!("a{c}1{c}b {c}2{c} 3 {c} 4")][(i % 6) as usize].clone())
        },
        |x: &(char, String)| format!("separator {:?}, text {:?}", x.0, x.1),
        |(ch, s), c| {
            c.states += 1;
            for (d, mark) in [(vec![*ch], '.'), (vec![','], *ch), (vec![*ch], *ch), (vec![',', *ch, '.'], ';'), (vec![','], '.')] {
                amounts_agree(&[In::Text(s.clone(), vec![])], &AmountResolver::new(d.clone(), mark), &d, mark, c)?;
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "many-delimiters",
        "resolvers with 1..=40 delimiters x a number with each of them and each two neighbouring ones",
        40 * 40,
        |i| (i / 40 + 1, i % 40),
        |x: &(u64, u64)| format!("the first {} of 40 delimiters, a number with number {}", x.0, x.1),
        |(n, k), c| {
            let pool: Vec<char> = ",'_ ;:|/\\~^*+=<>()[]{}#%&@!?\"`\u{a0}\u{202f}\u{66c}·…–—’¤§¶†‡".chars().collect();
            assert!(pool.len() >= 40);
            let d: Vec<char> = pool[..*n as usize].to_vec();
            let (p, q) = (pool[*k as usize], pool[(*k as usize + 1) % 40]);
            c.states += 1;
            for t in [format!("1{p}2{q}3.4"), format!("1{q}2{p}{q}3{p}4 ")] {
                amounts_agree(&[In::Text(t, vec![])], &AmountResolver::new(d.clone(), '.'), &d, '.', c)?;
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "every-number",
        "every whole part 0..=999 (with and without leading zeros) x nothing or every fraction of 1..=2 digits x with and without a thousands group",
        1000 * 111 * 4,
        |i| {
            let mut d = Dec(i);
            let (pad, group) = (d.take(2) == 1, d.take(2) == 1);
            let f = d.take(111);
            let whole = if pad { format!("{:03}", d.0) } else { format!("{}", d.0) };
            let tail = match f {
                0 => String::new(),
                1..=10 => format!(".{}", f - 1),
                _ => format!(".{:02}", f - 11),
            };
            format!("{}{}{}", whole, if group { ",000" } else { "" }, tail)
        },
        show_text,
        |s: &String, c| {
            c.states += 1;
            for (d, mark) in [(vec![',', '\''], '.'), (vec![' ', '.', '\''], ',')] {
                amounts_agree(&[In::Text(s.clone(), vec![])], &AmountResolver::new(d.clone(), mark), &d, mark, c)?;
            }
            Ok(())
        },
    ));
    v.push(Space::new(
        "huge",
        "4 texts of more than 65536 tokens x the first 3 configurations",
        12,
        |i| {
            let t = match i % 4 {
                0 => "x ".repeat(32768) + "1,5 x 2.5",
                1 => "x".to_string() + &" ".repeat(2) + &".,".repeat(33000) + "1,000.5",
                2 => "7".to_string() + &", x".repeat(22000) + " 1'000",
                _ => "x ".repeat(32766) + "1,000 x 2.5 1 x",
            };
            (t, (i / 4) as usize)
        },
        |x: &(String, usize)| format!("text of {} bytes starting {:?}, configuration {}", x.0.len(), x.0.chars().take(20).collect::<String>(), x.1),
        |(s, k), c| {
            c.states += 1;
            let (d, mark) = configs()[*k].clone();
            amounts_agree(&[In::Text(s.clone(), vec![])], &AmountResolver::new(d.clone(), mark), &d, mark, c).map_err(|e| e.chars().take(300).collect())
        },
    ));
    v.push(phrase_space(if thorough { 3 } else { 2 }, text_amounts));
    v.push(scalar_space(&[("1", "2"), ("1,", "00"), ("", "1.5"), ("1", ".5"), ("1.", "5"), ("1.5", "")], |s: &String, c: &mut Ctx| {
        let ins = [In::Text(s.clone(), vec![])];
        c.states += 1;
        for (d, mark) in configs().into_iter().take(2) {
            amounts_agree(&ins, &AmountResolver::new(d.clone(), mark), &d, mark, c)?;
        }
        Ok(())
    }));
    v.extend(crate::layers::spaces(17, thorough));
    v
}

const ENGLISH: (&[char], char) = (&[',', '\''], '.');
const FRENCH: (&[char], char) = (&[' ', '.', '\''], ',');

pub const DOCUMENTED: &[(bool, &str, &str)] = &[
    (true, "1'000'240.00", "1000240.00"),
    (true, "1,000,000", "1000000"),
    (true, "1,00,00", "10000"),
    (true, "1.00,00", "1.0000"),
    (false, "1'000'240,00", "1000240.00"),
    (false, "1 000 000", "1000000"),
    (false, "1,00", "1.00"),
    (false, "1.00,00", "100.00"),
];

fn preset(english: bool) -> AmountResolver {
    if english {
        AmountResolver::english()
    } else {
        AmountResolver::french()
    }
}

fn preset_text(x: &(bool, String), c: &mut Ctx) -> Result<(), String> {
    let (d, mark) = if x.0 { ENGLISH } else { FRENCH };
    c.states += 1;
    amounts_agree(&[In::Text(x.1.clone(), vec![])], &preset(x.0), d, mark, c)
}

fn show_preset(x: &(bool, String)) -> String {
    format!("{} preset, text {:?}", if x.0 { "English" } else { "French" }, x.1)
}

pub fn c18(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    v.push(Space::new(
        "documented-examples",
        "every reading in the documentation of the presets, alone and inside a sentence",
        DOCUMENTED.len() as u64,
        |i| DOCUMENTED[i as usize],
        |x: &(bool, &str, &str)| show_preset(&(x.0, x.1.to_string())),
        |(english, text, value), c| {
            for (pre, post) in [("", ""), ("costs ", " now"), ("(", ")")] {
                let t = format!("{}{}{}", pre, text, post);
                let l = real::line(&[In::Text(t.clone(), vec![])], bytes).run(&preset(*english));
                let got: Vec<(String, Vec<String>)> = l
                    .query::<Amount>()
                    .into_iter()
                    .map(|(_, s, v)| (s, v.into_iter().map(|a| a.get_decimal().to_string()).collect()))
                    .collect();
                c.transitions += 1;
                c.outcome(hstr(&format!("{:?}", got)));
                if got == vec![(text.to_string(), vec![value.to_string()])] {
                    continue;
                }
                let listed = *english && *text == "1.00,00";
                if listed && got == vec![("1.00".to_string(), vec!["1.00".to_string()]), ("00".to_string(), vec!["0".to_string()])] {
                    c.finding("english-1.00,00", format!("AmountResolver::english() documents {:?} as 1.0000 but reads it as 1.00 and then 0", text));
                    continue;
                }
                return Err(format!("{:?}: documented as {}, got {:?}", t, value, got));
            }
            c.states += 1;
            Ok(())
        },
    ));
    let alpha = vec!['1', '0', ',', '.', ' ', '\'', 'x'];
    let len = if thorough { 7 } else { 6 };
    let n = strings_over(&alpha, len);
    let a = alpha.clone();
    v.push(Space::new(
        "preset-texts",
        &format!("both presets on every text of 1..={} characters over {:?}", len, alpha),
        2 * n,
        move |i| (i % 2 == 0, string_over(&a, i / 2)),
        show_preset,
        preset_text,
    ));
    // long numbers
    let max = if thorough { 400 } else { 270 };
    let shapes = 14u64;
    let digits = ['0', '1', '7', '9'];
    let around: &'static [(&str, &str)] = &[("", ""), ("5 a ", " b 6"), ("x 3; ", "; 4"), ("2 x ", "")];
    v.push(Space::new(
        "long-numbers",
        &format!("numbers of 1..={} digits x {} shapes (plain, grouped, fractions, both) x 4 leading digits x 4 surroundings x both presets and a custom configuration", max, shapes),
        max * shapes * 4 * 4 * 3,
        move |i| {
            let mut d = Dec(i);
            let which = d.take(3);
            let (pre, post) = around[d.take(4) as usize];
            let first = digits[d.take(4) as usize];
            let shape = d.take(shapes);
            let n = d.0 as usize + 1;
            let run: String = (0..n).map(|k| if k == 0 { first } else { char::from(b'0' + ((k * 7 + 9) % 10) as u8) }).collect();
            let (delim, mark) = if which == 1 { ('.', ',') } else { (',', '.') };
            let grouped = |d: char, k: usize| -> String {
                let mut o = String::new();
                for (i, ch) in run.chars().enumerate() {
                    if i > 0 && i % k == 0 {
                        o.push(d);
                    }
                    o.push(ch);
                }
                o
            };
            let number = match shape {
                0 => run.clone(),
                1 => grouped(delim, 3),
                2 => grouped('\'', 1),
                3 => format!("{}{}5", run, mark),
                4 => format!("0{}{}", mark, run),
                5 => format!("1{}{}", mark, run),
                6 => format!("{}{}{}", run, mark, run),
                7 => format!("{}{}", run, delim),
                8 => format!("{}{}", run, mark),
                9 => format!("{}{}{}25", grouped(delim, 3), mark, run),
                10 => first.to_string().repeat(n),
                11 => format!("{}{}{}", first.to_string().repeat(n), mark, first.to_string().repeat(n)),
                12 => format!("0{}{}1", mark, "0".repeat(n)),
                _ => format!("{} {}", run, run),
            };
            (which, format!("{}{}{}", pre, number, post))
        },
        |x: &(u64, String)| format!("{}, text {:?}", ["English", "French", "delimiters _ and ,"][x.0 as usize], x.1),
        |(which, text), c| {
            c.states += 1;
            let ins = [In::Text(text.clone(), vec![])];
            match which {
                0 => amounts_agree(&ins, &AmountResolver::english(), ENGLISH.0, ENGLISH.1, c),
                1 => amounts_agree(&ins, &AmountResolver::french(), FRENCH.0, FRENCH.1, c),
                _ => amounts_agree(&ins, &AmountResolver::new(vec!['_', ','], '.'), &['_', ','], '.', c),
            }
        },
    ));
    // numbers that fit among numbers that do not
    let parts: Vec<String> = vec![
        "9".repeat(40),
        "1".into(),
        "2.5".into(),
        "3,000".into(),
        format!("0.{}", "1".repeat(40)),
        format!("{},{}", "8".repeat(20), "8".repeat(20)),
        "79228162514264337593543950335".into(),
        "79228162514264337593543950336".into(),
        format!("{}.5", "7".repeat(33)),
    ];
    let np = parts.len() as u64;
    let seps = [" ", " a ", ", ", "; ", "\n", "x", "."];
    let len = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "fitting-and-not",
        &format!("every sequence of 1..={} numbers over {:?} joined by each of {:?}, both presets", len, parts, seps),
        seqs(np, 1, len) * 14,
        move |i| {
            let mut d = Dec(i);
            let english = d.take(2) == 0;
            let sep = seps[d.take(7) as usize];
            let t: Vec<&str> = seq_at(np, 1, d.0).into_iter().map(|k| parts[k].as_str()).collect();
            (english, t.join(sep))
        },
        show_preset,
        preset_text,
    ));
    v.push(Space::new(
        "huge",
        "numbers of 65535, 65536, 65537 and 70000 digits, plain, as fraction, as both, between small numbers, both presets",
        4 * 3 * 2,
        |i| {
            let mut d = Dec(i);
            let english = d.take(2) == 0;
            let n = [65535, 65536, 65537, 70000][d.take(4) as usize];
            let mark = if english { '.' } else { ',' };
            let long = "1".repeat(n);
            let t = match d.0 {
                0 => long,
                1 => format!("0{}{}", mark, long),
                _ => format!("{}{}{}", long, mark, long),
            };
            (english, format!("12 x {} y 34{}5", t, mark))
        },
        |x: &(bool, String)| format!("text of {} bytes", x.1.len()),
        |x, c| preset_text(x, c).map_err(|e| e.chars().take(300).collect()),
    ));
    let max = if thorough { 3 } else { 2 };
    v.push(Space::new(
        "phrases",
        &format!("both presets on {}", phrases_rule(max)),
        phrases(max) * 2,
        |i| (i % 2 == 0, phrase(i / 2)),
        show_preset,
        preset_text,
    ));
    v.push(scalar_space(&[("1", "2"), ("", "1"), ("12", ""), ("1,2", "5")], |s: &String, c: &mut Ctx| {
        preset_text(&(true, s.clone()), c)?;
        preset_text(&(false, s.clone()), c)
    }));
    v.extend(crate::layers::spaces(18, thorough));
    v
}

// ---- C19 ----------------------------------------------------------------------------------------

const WORDS: &[&str] = &["if", "when", "then", "and", "é", ",", "don't"];

fn keyword_line() -> (Vec<In>, Vec<String>) {
    let mut ins = Vec::new();
    for t in [
        "if", "If", "IF", "iF", "when", "WHEN", "wHen", "then", "THEN", "and", "And", "é", "É", ",", "don't", "DON'T", "iff", "i", "f", "en",
        "whenever", "nothing", "1", " ", "if.then", "if-then", "andré", "“", "then?", "If when", "and/or",
    ] {
        ins.push(In::Text(t.to_string(), vec![]));
    }
    ins.insert(2, In::Custom(1, vec![]));
    ins.push(In::Custom(1, vec![Val::Str("if".into())]));
    let m = MLine::new(&ins, &bytes);
    let texts = m.toks.iter().map(|t| t.text.clone().unwrap_or_default()).collect();
    (ins, texts)
}

fn kw_code(k: &ClauseKeyword) -> u64 {
    match k {
        ClauseKeyword::ConditionStart => 1,
        ClauseKeyword::Then => 2,
        ClauseKeyword::And => 3,
    }
}

/// `lists`: condition starts, ands, thens.
fn keywords(ins: &[In], lists: &[Vec<&'static str>; 3], c: &mut Ctx) -> Result<(), String> {
    let m = MLine::new(ins, &bytes);
    let l = real::line(ins, bytes).run(&ClauseKeywordResolver::new(&lists[0], &lists[1], &lists[2]));
    let got: Vec<(Rng, Vec<u64>)> = l.query::<ClauseKeyword>().into_iter().map(|(r, _, v)| (r, v.into_iter().map(kw_code).collect())).collect();
    let mut want: Vec<(Rng, Vec<u64>)> = Vec::new();
    for (i, t) in m.toks.iter().enumerate() {
        let Some(text) = &t.text else { continue };
        let low = text.to_lowercase();
        let is = |l: &Vec<&str>| l.iter().any(|k| **k == low);
        let k = if is(&lists[0]) {
            1
        } else if is(&lists[2]) {
            2
        } else if is(&lists[1]) {
            3
        } else {
            continue;
        };
        want.push(((i, i), vec![k]));
    }
    c.transitions += 1;
    if got != want {
        let names = |v: &Vec<(Rng, Vec<u64>)>| {
            v.iter()
                .map(|((i, j), k)| format!("{}..{} {:?} {:?}", i, j, m.toks[*i].text, k.iter().map(|k| ["", "ConditionStart", "Then", "And"][*k as usize]).collect::<Vec<_>>()))
                .collect::<Vec<_>>()
        };
        return Err(format!("expected {:?}, got {:?}", names(&want), names(&got)));
    }
    real::same_annotations(&l, &m)?;
    c.outcome(hstr(&format!("{:?}", got)));
    Ok(())
}

pub fn c19(thorough: bool) -> Vec<Space> {
    let n = if thorough { WORDS.len() as u32 } else { 6 };
    let mut v = Vec::new();
    v.push(Space::new(
        "keyword-lists",
        &format!("every way of putting {} words into the three lists ({} each), in both orders, on a line of all casings and near misses", n, 8),
        8u64.pow(n) * 2,
        move |i| {
            let mut d = Dec(i);
            let rev = d.take(2) == 1;
            let mut lists: [Vec<&'static str>; 3] = Default::default();
            for w in WORDS.iter().take(n as usize) {
                let m = d.take(8);
                for (b, l) in lists.iter_mut().enumerate() {
                    if m >> b & 1 == 1 {
                        l.push(*w);
                    }
                }
            }
            if rev {
                for l in &mut lists {
                    l.reverse();
                }
            }
            lists
        },
        |l: &[Vec<&'static str>; 3]| format!("condition starts {:?}, ands {:?}, thens {:?}", l[0], l[1], l[2]),
        |lists, c| {
            c.states += 1;
            keywords(&keyword_line().0, lists, c)
        },
    ));
    // every text over letters of the keywords
    let alpha = vec!['i', 'f', 'I', 'F', ' ', '.', 'é', '\'', '1'];
    let len = if thorough { 6 } else { 5 };
    let a = alpha.clone();
    v.push(Space::new(
        "texts",
        &format!("every text of 1..={} characters over {:?} with the keywords if, i, f, fi and .", len, alpha),
        strings_over(&alpha, len),
        move |i| string_over(&a, i),
        show_text,
        |s: &String, c| {
            c.states += 1;
            keywords(&[In::Text(s.clone(), vec![])], &[vec!["if", "."], vec!["fi", "i"], vec!["f", "if"]], c)
        },
    ));
    let al: Vec<char> = vec!['w', 'W', 'h', 'H', 'e', 'E', 'n', 'N'];
    v.push(Space::new(
        "casings",
        "every 4-letter text over wWhHeEnN, and all of them followed by s",
        8u64.pow(4) * 2,
        move |i| {
            let s: String = seq_at(8, 4, i / 2).into_iter().map(|k| al[k]).collect();
            if i % 2 == 1 {
                s + "s"
            } else {
                s
            }
        },
        show_text,
        |s: &String, c| {
            c.states += 1;
            keywords(&[In::Text(format!("a {} b", s), vec![])], &[vec!["when"], vec!["hewn"], vec!["new"]], c)
        },
    ));
    let cased = cased_scalars();
    let nc = cased.len() as u64;
    v.push(Space::new(
        "cased-scalars",
        &format!("each of the {} Unicode scalars that has another lowercase or uppercase form, in {} contexts, with the lowercase form, the text itself and its uppercase form as keywords of different kinds", nc, CASE_CONTEXTS.len()),
        nc * CASE_CONTEXTS.len() as u64 * 3,
        move |i| (in_case_context(&cased, i / 3), i % 3),
        |x: &(String, u64)| format!("text {:?}, order {}", x.0, x.1),
        |(s, way), c| {
            let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            let mut lists = [vec![leak(s.to_lowercase())], vec![leak(s.clone())], vec![leak(s.to_uppercase())]];
            lists.rotate_left(*way as usize);
            c.states += 1;
            let ins = [s.clone(), s.to_lowercase(), s.to_uppercase(), format!("{} {}", s, s)].map(|t| In::Text(t, vec![]));
            keywords(&ins, &lists, c)
        },
    ));
    // many keywords
    let ss: Vec<usize> = (1..=20).chain(sizes(thorough)).collect();
    let ns = ss.len() as u64;
    v.push(Space::new(
        "many-keywords",
        &format!("{:?} keywords, split over the three lists in 4 ways, on a line with each of them in two casings and a near miss", ss),
        ns * 4,
        move |i| (ss[(i / 4) as usize], i % 4),
        |x: &(usize, u64)| format!("{} keywords, split {}", x.0, x.1),
        |(n, way), c| {
            let word = |k: usize| format!("{}{}{}", ["w", "é", "zé"][k % 3], char::from(b'a' + (k % 26) as u8), char::from(b'a' + (k / 26 % 26) as u8).to_string().repeat(1 + k / 676));
            let words: Vec<&'static str> = (0..*n).map(|k| &*Box::leak(word(k).into_boxed_str())).collect();
            let mut lists: [Vec<&'static str>; 3] = Default::default();
            for (k, w) in words.iter().enumerate() {
                match way {
                    0 => lists[k % 3].push(w),
                    1 => lists[0].push(w),
                    2 => lists[1].push(w),
                    _ => {
                        lists[2].push(w);
                        if k % 2 == 0 {
                            lists[1].insert(0, w);
                        }
                    }
                }
            }
            let ins: Vec<In> = words.iter().flat_map(|w| [w.to_string(), w.to_uppercase(), format!("{}x", w), " ".to_string()]).map(|t| In::Text(t, vec![])).collect();
            c.states += 1;
            keywords(&ins, &lists, c)
        },
    ));
    let max = if thorough { 600 } else { 300 };
    v.push(Space::new(
        "long-texts",
        &format!("1..={} repetitions of 4 phrases", max),
        max * 4,
        |i| ["if ", "When a then, ", "and", "IF and THEN x "][(i % 4) as usize].repeat((i / 4) as usize + 1),
        show_text,
        |s: &String, c| {
            c.states += 1;
            keywords(&[In::Text(s.clone(), vec![])], &[vec!["if", "when"], vec!["and"], vec!["then"]], c)
        },
    ));
    v.push(Space::new(
        "huge",
        "3 texts of more than 65536 tokens, and a keyword of 70000 letters",
        4,
        |i| match i {
            0 => "x ".repeat(32767) + "if IF x If and THEN",
            1 => "If x, ".repeat(14000),
            2 => "x, ".repeat(22000) + "and then",
            _ => "k".repeat(70000) + " x " + &"K".repeat(70000),
        },
        |s: &String| format!("text of {} bytes", s.len()),
        |s: &String, c| {
            c.states += 1;
            let long: &'static str = Box::leak("k".repeat(70000).into_boxed_str());
            keywords(&[In::Text(s.clone(), vec![])], &[vec!["if", long], vec!["and"], vec!["then"]], c).map_err(|e| e.chars().take(300).collect())
        },
    ));
    v.push(phrase_space(if thorough { 3 } else { 2 }, |s, c| {
        c.states += 1;
        keywords(&[In::Text(s.clone(), vec![])], &[vec!["if", "when", "naïve"], vec!["and", ",", "don't"], vec!["then", "\u{1f600}", "run"]], c)
    }));
    v.push(scalar_space(&[("if", ""), ("", "if"), ("i", "f"), ("if ", " and"), ("", "")], |s: &String, c: &mut Ctx| {
        c.states += 1;
        keywords(&[In::Text(s.clone(), vec![])], &[vec!["if", "i"], vec!["and", "f"], vec!["then"]], c)
    }));
    v.extend(crate::layers::spaces(19, thorough));
    v
}

// ---- C20 ----------------------------------------------------------------------------------------

fn clause_code(k: &Clause) -> &'static str {
    match k {
        Clause::LeadingEffect => "LeadingEffect",
        Clause::TrailingEffect => "TrailingEffect",
        Clause::Condition => "Condition",
        Clause::Independent => "Independent",
    }
}

/// `kws`: keyword spans.
fn clauses(m: &MLine, kws: &[(Rng, ClauseKeyword)]) -> Vec<(Rng, &'static str)> {
    let n = m.len();
    let mut cut = vec![false; n];
    for ((a, b), _) in kws {
        for x in &mut cut[*a..=*b] {
            *x = true;
        }
    }
    for (i, t) in m.toks.iter().enumerate() {
        // a keyword starting at a token hides its punctuation, which it covers anyway
        if t.tag == Some(TextTag::PUNC) {
            cut[i] = true;
        }
    }
    // stretches
    let mut stretches: Vec<Rng> = Vec::new();
    let mut i = 0;
    while i < n {
        if cut[i] {
            i += 1;
            continue;
        }
        let s = i;
        while i < n && !cut[i] {
            i += 1;
        }
        stretches.push((s, i - 1));
    }
    let space = |i: usize| m.toks[i].tag == Some(TextTag::SPACE);
    let mut kept: Vec<(Rng, Option<&ClauseKeyword>)> = Vec::new();
    for (s, e) in stretches {
        let tokens: Vec<usize> = (s..=e).filter(|i| !(*i == s && space(s)) && !(*i == e && space(e))).collect();
        let before = kws.iter().find(|((_, b), _)| s > 0 && *b == s - 1).map(|k| &k.1);
        if let (Some(a), Some(b)) = (tokens.first(), tokens.last()) {
            kept.push(((*a, *b), before));
        }
    }
    let only = kept.len() == 1;
    let mut condition = false;
    kept.into_iter()
        .map(|(r, before)| {
            let kind = match before {
                Some(ClauseKeyword::ConditionStart) => "Condition",
                _ if only => "Independent",
                Some(ClauseKeyword::Then) => "TrailingEffect",
                _ if condition => "TrailingEffect",
                _ => "LeadingEffect",
            };
            if kind == "Condition" {
                condition = true;
            }
            (r, kind)
        })
        .collect()
}

fn found_clauses(l: &LLLine) -> Vec<(Rng, &'static str)> {
    l.query::<Clause>().into_iter().flat_map(|(r, _, v)| v.into_iter().map(move |k| (r, clause_code(k)))).collect()
}

fn clause_case(ins: &[In], c: &mut Ctx) -> Result<(), String> {
    let m = MLine::new(ins, &bytes);
    let mut kws = Vec::new();
    for (i, t) in m.toks.iter().enumerate() {
        let k = match t.text.as_deref().unwrap_or("").to_lowercase().as_str() {
            "if" => ClauseKeyword::ConditionStart,
            "and" => ClauseKeyword::And,
            "then" => ClauseKeyword::Then,
            _ => continue,
        };
        kws.push(((i, i), k));
    }
    let l = real::line(ins, bytes).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    compare_clauses(&l, &m, &kws, c)
}

fn compare_clauses(l: &LLLine, m: &MLine, kws: &[(Rng, ClauseKeyword)], c: &mut Ctx) -> Result<(), String> {
    let got = found_clauses(l);
    let want = clauses(m, kws);
    c.states += 1;
    c.transitions += 1;
    if got != want {
        return Err(format!(
            "tokens {:?}: expected clauses {:?}, got {:?}",
            m.toks.iter().map(|t| t.text.as_deref().unwrap_or("<>")).collect::<Vec<_>>(),
            want,
            got
        ));
    }
    c.outcome(hstr(&format!("{:?}", got)));
    Ok(())
}

pub fn c20(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let mut add = |name: &str, menu: Vec<&'static str>, len: u32| {
        let k = menu.len() as u64;
        let me = menu.clone();
        v.push(Space::new(
            name,
            &format!("every sequence of 1..={} tokens over {:?} (<> is a custom token), each its own input", len, menu),
            seqs(k, 1, len),
            move |i| {
                seq_at(k, 1, i)
                    .into_iter()
                    .map(|x| if me[x] == "<>" { In::Custom(1, vec![]) } else { In::Text(me[x].to_string(), vec![]) })
                    .collect::<Vec<In>>()
            },
            |ins: &Vec<In>| format!("inputs {:?}", ins),
            |ins: &Vec<In>, c| clause_case(ins, c),
        ));
    };
    add("token-sequences", vec!["if", "and", "then", "w", ",", " ", "<>"], if thorough { 7 } else { 6 });
    add("keyword-sequences", vec!["if", "and", "then", "w", ","], if thorough { 9 } else { 7 });
    add("blank-sequences", vec!["w", ".", " ", "if", "\n"], if thorough { 9 } else { 7 });
    let pieces = ["If", "and", "then", "it", " ", ", ", ".", "  ", "\n", "'", "don't", "5"];
    let len = if thorough { 6 } else { 5 };
    v.push(Space::new(
        "texts",
        &format!("every text of 1..={} pieces over {:?}", len, pieces),
        seqs(pieces.len() as u64, 1, len),
        move |i| seq_at(pieces.len() as u64, 1, i).into_iter().map(|k| pieces[k]).collect::<String>(),
        show_text,
        |s: &String, c| clause_case(&[In::Text(s.clone(), vec![])], c),
    ));
    // sentences
    let words = ["if", "and", "then", "rain", "umbrella", ","];
    let slen = if thorough { 8 } else { 6 };
    let tails = ["", ".", " ", ". ", "!\n"];
    v.push(Space::new(
        "sentences",
        &format!("every sentence of 1..={} words over {:?} joined by blanks, with 5 endings and with or without a leading blank", slen, words),
        seqs(6, 1, slen) * 10,
        move |i| {
            let mut d = Dec(i);
            let t = tails[d.take(5) as usize];
            let lead = if d.take(2) == 1 { " " } else { "" };
            let w: Vec<&str> = seq_at(6, 1, d.0).into_iter().map(|k| words[k]).collect();
            format!("{}{}{}", lead, w.join(" "), t)
        },
        show_text,
        |s: &String, c| clause_case(&[In::Text(s.clone(), vec![])], c),
    ));
    // keywords spanning several tokens, set by another resolver
    let rs = ranges(5);
    let nr = rs.len() as u64;
    let toks = ["w", ",", " "];
    v.push(Space::new(
        "keyword-spans",
        "every line of 5 tokens over w , blank with no, one or two non-overlapping keywords of every kind on any token ranges",
        3u64.pow(5) * (1 + nr * 3 + nr * nr * 9),
        move |i| {
            let mut d = Dec(i);
            let line: Vec<&str> = (0..5).map(|_| toks[d.take(3) as usize]).collect();
            let a = d.0;
            let kind = |k: u64| [ClauseKeyword::ConditionStart, ClauseKeyword::Then, ClauseKeyword::And][k as usize].clone();
            let kws = if a == 0 {
                vec![]
            } else if a <= nr * 3 {
                let a = a - 1;
                vec![(rs[(a / 3) as usize], kind(a % 3))]
            } else {
                let mut d = Dec(a - 1 - nr * 3);
                let (k1, k2) = (kind(d.take(3)), kind(d.take(3)));
                vec![(rs[d.take(nr) as usize], k1), (rs[d.0 as usize], k2)]
            };
            (line, kws)
        },
        |x: &(Vec<&str>, Vec<(Rng, ClauseKeyword)>)| format!("tokens {:?} with keywords {:?}", x.0, x.1),
        |(line, kws), c| {
            if let [(a, _), (b, _)] = &kws[..] {
                if a.0 <= b.1 && b.0 <= a.1 {
                    return Ok(());
                }
            }
            let ins: Vec<In> = line.iter().map(|t| In::Text(t.to_string(), vec![])).collect();
            let m = MLine::new(&ins, &bytes);
            let l = real::line(&ins, bytes).run(&real::by::<ClauseKeyword, _>(|full: LLSelection| {
                let sels = real::Sels::new(full, &m).expect("selections");
                kws.iter().map(|(r, k)| sels.get(*r).expect("selection").finish_with_attr(k.clone())).collect()
            }));
            let l = l.run(&ClauseResolver::default());
            compare_clauses(&l, &m, kws, c)
        },
    ));
    let max = if thorough { 300 } else { 140 };
    let units = ["w ", "w, ", "if w, ", "if w then w. ", "w and ", "then w, if ", ", ", "If a and b, c. "];
    v.push(Space::new(
        "long-texts",
        &format!("1..={} repetitions of each of 8 phrases, each followed by every other phrase", max),
        max * 64,
        move |i| {
            let mut d = Dec(i);
            let (a, b) = (d.take(8) as usize, d.take(8) as usize);
            units[a].repeat(d.0 as usize + 1) + units[b]
        },
        show_text,
        |s: &String, c| clause_case(&[In::Text(s.clone(), vec![])], c),
    ));
    v.push(Space::new(
        "huge",
        "6 texts of more than 65536 tokens",
        6,
        |i| match i {
            0 => "x ".repeat(32767) + "if IF x If y and THEN z.",
            1 => "If x, ".repeat(14000),
            2 => "x, ".repeat(22000) + "and then y",
            3 => "if ".to_string() + &"x ".repeat(33000) + ", y",
            4 => ", ".repeat(33000) + "x",
            _ => "if a".to_string() + &" ,".repeat(32767) + "b, c then d",
        },
        |s: &String| format!("text of {} bytes", s.len()),
        |s: &String, c| clause_case(&[In::Text(s.clone(), vec![])], c).map_err(|e| e.chars().take(300).collect()),
    ));
    // stretches of every content and every end
    const STARTS: [&str; 4] = ["", "if ", "and ", "then "];
    const CONTENTS: [&str; 7] = ["w", "w v", "5", "\u{1f600}", "-", "\n", "it's"];
    const ENDS: [&str; 12] = [",", ".", "!", ";", ":", "?", "'", "\"", " ", ", ", "-", "…"];
    let units = (STARTS.len() * CONTENTS.len() * ENDS.len()) as u64;
    let max = if thorough { 3 } else { 2 };
    v.push(Space::new(
        "stretches",
        &format!("every sequence of 1..={} stretches over {:?} x {:?} x {:?}", max, STARTS, CONTENTS, ENDS),
        seqs(units, 1, max),
        move |i| {
            seq_at(units, 1, i)
                .into_iter()
                .map(|k| {
                    let mut d = Dec(k as u64);
                    format!("{}{}{}", d.pick(&STARTS), d.pick(&CONTENTS), d.pick(&ENDS))
                })
                .collect::<String>()
        },
        show_text,
        |s: &String, c| clause_case(&[In::Text(s.clone(), vec![])], c),
    ));
    let units = (STARTS.len() * ENDS.len()) as u64;
    let max = if thorough { 4 } else { 3 };
    v.push(Space::new(
        "ends",
        &format!("every sequence of 1..={} stretches over {:?} x one word x {:?}", max, STARTS, ENDS),
        seqs(units, 1, max),
        move |i| {
            seq_at(units, 1, i)
                .into_iter()
                .map(|k| {
                    let mut d = Dec(k as u64);
                    format!("{}w{} ", d.pick(&STARTS), d.pick(&ENDS))
                })
                .collect::<String>()
        },
        show_text,
        |s: &String, c| clause_case(&[In::Text(s.clone(), vec![])], c),
    ));
    v.push(phrase_space(if thorough { 3 } else { 2 }, |s, c| clause_case(&[In::Text(s.clone(), vec![])], c)));
    v.push(scalar_space(&[("go ", " stop"), ("go,", ",stop"), ("if a", "b then c"), ("if a ", " then c"), ("", "if"), ("a", "")], |s: &String, c: &mut Ctx| {
        clause_case(&[In::Text(s.clone(), vec![])], c)
    }));
    v.extend(crate::layers::spaces(20, thorough));
    v
}

// ---- C21 ----------------------------------------------------------------------------------------

fn tags_of(l: &LLLine) -> Vec<(Rng, Vec<Tag>)> {
    l.query::<Tag>().into_iter().map(|(r, _, v)| (r, v.into_iter().copied().collect())).collect()
}

fn tagging(ins: &[In], c: &mut Ctx) -> Result<(), String> {
    let m = MLine::new(ins, &bytes);
    let l = real::line(ins, bytes).run(&POSTagResolver::default());
    let got = tags_of(&l);
    let mut want = Vec::new();
    for (i, t) in m.toks.iter().enumerate() {
        if t.tag != Some(TextTag::WORD) {
            continue;
        }
        let tags: Vec<Tag> = match ENGLISH_TAG_LOOKUP.get(&t.text.as_ref().unwrap().to_lowercase()) {
            Some(s) => s.tags().collect(),
            None => vec![Tag::Noun],
        };
        if !tags.is_empty() {
            want.push(((i, i), tags));
        }
    }
    c.transitions += 1;
    if got != want {
        return Err(format!(
            "tokens {:?}: expected {:?}, got {:?}",
            m.toks.iter().map(|t| t.text.as_deref().unwrap_or("<>")).collect::<Vec<_>>(),
            want,
            got
        ));
    }
    c.outcome(hstr(&format!("{:?}", got)));
    Ok(())
}

const ENDINGS: &[&str] = &[
    "s", "es", "ed", "ing", "ly", "ness", "nesses", "'s", "'", "er", "est", "able", "ful", "less", "ment", "ments", "ion", "ions", "y", "d", "r", "n", "n't", "'ll",
    "-", "-like", "ish", "ism", "ist", "ize", "ization", "á", "é", "s's", "ies", "like", "wise", "ward", "hood", "ship", "dom", "ity", "ous", "ive", "al", "ally", "ian",
];

const BEGINNINGS: &[&str] = &[
    "un", "re", "non", "pre", "anti", "dis", "mis", "over", "under", "super", "ex-", "non-", "co-", "in", "im", "il", "de", "sub", "inter", "out", "semi", "mega", "micro", "self-", "O'", "Mc", "É", "x",
];

const SPELLINGS: &[(&str, &str)] = &[("our", "or"), ("ise", "ize"), ("re", "er"), ("ae", "e"), ("oe", "e"), ("æ", "ae"), ("ll", "l"), ("y", "i"), ("ph", "f"), ("ß", "ss"), ("yse", "yze"), ("-", ""), ("'", "’"), ("ogue", "og")];

pub fn c21(thorough: bool) -> Vec<Space> {
    let words = Arc::new(dictionary());
    let mut v = Vec::new();
    let w = words.clone();
    v.push(Space::new(
        "dictionary",
        &format!("every one of the dictionary's {} entries, as it is, in upper case, capitalised and with an added letter", words.len()),
        words.len() as u64,
        move |i| w[i as usize].clone(),
        |s: &String| format!("dictionary entry {:?}", s),
        |s: &String, c| {
            let mut cs = s.chars();
            let cap: String = cs.next().unwrap().to_uppercase().chain(cs).collect();
            c.states += 1;
            for t in [s.clone(), s.to_uppercase(), cap, format!("{}q", s)] {
                tagging(&[In::Text(t, vec![])], c)?;
            }
            Ok(())
        },
    ));
    let menu = ["the", "Run", "zzxq", "don't", "5", ",", " ", "a1", "#", "É", "<>", "on-site", "\n", "£5"];
    let len = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "sequences",
        &format!("every sequence of 1..={} inputs over {:?} (<> is a custom token)", len, menu),
        seqs(menu.len() as u64, 1, len),
        move |i| {
            seq_at(menu.len() as u64, 1, i)
                .into_iter()
                .map(|k| if menu[k] == "<>" { In::Custom(1, vec![Val::A(0)]) } else { In::Text(menu[k].into(), vec![Val::B(0)]) })
                .collect::<Vec<In>>()
        },
        |x: &Vec<In>| format!("inputs {:?}", x),
        |x: &Vec<In>, c| {
            c.states += 1;
            tagging(x, c)
        },
    ));
    let alpha: Vec<char> = vec!['a', 'I', 't', '\'', '-', '–', '1', ' ', 'é'];
    let tl = if thorough { 6 } else { 5 };
    let a = alpha.clone();
    v.push(Space::new(
        "texts",
        &format!("every text of 1..={} characters over {:?}", tl, alpha),
        strings_over(&alpha, tl),
        move |i| string_over(&a, i),
        show_text,
        |s: &String, c| {
            c.states += 1;
            tagging(&[In::Text(s.clone(), vec![])], c)
        },
    ));
    let cased = cased_scalars();
    let nc = cased.len() as u64;
    v.push(Space::new(
        "cased-scalars",
        &format!("each of the {} Unicode scalars that has another lowercase or uppercase form, in {} contexts", nc, CASE_CONTEXTS.len()),
        nc * CASE_CONTEXTS.len() as u64,
        move |i| in_case_context(&cased, i),
        show_text,
        |s: &String, c| {
            c.states += 1;
            tagging(&[In::Text(s.clone(), vec![])], c)
        },
    ));
    let w = words.clone();
    v.push(Space::new(
        "affixes",
        &format!("every dictionary entry with each of {} endings {:?}, each of {} beginnings {:?}, without its last or its first letters, with a letter doubled, and joined to itself", ENDINGS.len(), ENDINGS, BEGINNINGS.len(), BEGINNINGS),
        words.len() as u64,
        move |i| w[i as usize].clone(),
        |s: &String| format!("forms of the dictionary entry {:?}", s),
        |s: &String, c| {
            let mut forms: Vec<String> = Vec::new();
            forms.extend(ENDINGS.iter().map(|e| format!("{}{}", s, e)));
            forms.extend(BEGINNINGS.iter().map(|b| format!("{}{}", b, s)));
            let cs: Vec<char> = s.chars().collect();
            for k in 1..=3.min(cs.len() - 1) {
                forms.push(cs[..cs.len() - k].iter().collect());
                forms.push(cs[k..].iter().collect());
            }
            forms.push(format!("{}{}", s, cs[cs.len() - 1]));
            forms.push(format!("{}{}", s, s));
            forms.push(format!("{}-{}", s, s));
            forms.push(s.replace('-', " "));
            forms.push(s.replace('-', ""));
            forms.push(s.replace('\'', "’"));
            forms.push(format!("{}ING", s.to_uppercase()));
            let ins: Vec<In> = forms.into_iter().filter(|f| !f.is_empty()).map(|f| In::Text(f, vec![])).collect();
            c.states += ins.len() as u64;
            tagging(&ins, c)
        },
    ));
    let w = words.clone();
    v.push(Space::new(
        "edits",
        &format!("every dictionary entry with any letter doubled, repeated five times, left out, swapped with the next, capitalised or accented, and spelled otherwise by {} substitutions", SPELLINGS.len()),
        words.len() as u64,
        move |i| w[i as usize].clone(),
        |s: &String| format!("edits of the dictionary entry {:?}", s),
        |s: &String, c| {
            let mut forms: Vec<String> = Vec::new();
            let cs: Vec<char> = s.chars().collect();
            let with = |i: usize, mid: &[char]| -> String { cs[..i].iter().chain(mid).chain(&cs[i + 1..]).collect() };
            for (i, l) in cs.iter().enumerate() {
                forms.push(with(i, &[*l, *l]));
                forms.push(with(i, &[*l; 5]));
                forms.push(with(i, &[]));
                forms.push(with(i, &l.to_uppercase().collect::<Vec<_>>()));
                let marked = match l {
                    'a' => 'á',
                    'e' => 'é',
                    'i' => 'ï',
                    'o' => 'ö',
                    'u' => 'ü',
                    'n' => 'ñ',
                    'c' => 'ç',
                    other => *other,
                };
                if marked != *l {
                    forms.push(with(i, &[marked]));
                    forms.push(with(i, &[*l, '\u{301}']));
                }
                if i + 1 < cs.len() {
                    let mut t = cs.clone();
                    t.swap(i, i + 1);
                    forms.push(t.into_iter().collect());
                }
            }
            for (a, b) in SPELLINGS {
                for (a, b) in [(a, b), (b, a)] {
                    if s.contains(a) {
                        forms.push(s.replace(a, b));
                    }
                }
            }
            let ins: Vec<In> = forms.into_iter().filter(|f| !f.is_empty()).map(|f| In::Text(f, vec![])).collect();
            c.states += ins.len() as u64;
            tagging(&ins, c)
        },
    ));
    let letters = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "letters",
        &format!("every text of 1..={} letters a to z, 26 to a line", letters),
        seqs(26, 0, letters - 1),
        |i| {
            let head: String = seq_at(26, 0, i).into_iter().map(|k| (b'a' + k as u8) as char).collect();
            (b'a'..=b'z').map(|c| format!("{}{}", head, c as char)).collect::<Vec<_>>().join(" ")
        },
        show_text,
        |s: &String, c| {
            c.states += 26;
            tagging(&[In::Text(s.clone(), vec![])], c)
        },
    ));
    // long texts of consecutive dictionary entries
    let w = words.clone();
    let block = 64usize;
    v.push(Space::new(
        "long-texts",
        "all stretches of 64 consecutive dictionary entries joined by blanks",
        (words.len() / block) as u64,
        move |i| w[i as usize * block..(i as usize + 1) * block].join(" "),
        show_text,
        |s: &String, c| {
            c.states += 1;
            tagging(&[In::Text(s.clone(), vec![])], c)
        },
    ));
    v.push(Space::new(
        "huge",
        "3 texts of more than 65536 tokens, and a word of 70000 letters",
        4,
        |i| match i {
            0 => "7 ".repeat(32767) + "run the zzxq 7 run",
            1 => "the zzxq, ".repeat(14000),
            2 => "x, ".repeat(22000) + "run",
            _ => "k".repeat(70000) + " run " + &"K".repeat(70000),
        },
        |s: &String| format!("text of {} bytes", s.len()),
        |s: &String, c| {
            c.states += 1;
            tagging(&[In::Text(s.clone(), vec![])], c).map_err(|e| e.chars().take(300).collect())
        },
    ));
    v.push(phrase_space(if thorough { 3 } else { 2 }, |s, c| tagging(&[In::Text(s.clone(), vec![])], c)));
    v.push(scalar_space(&[("run", ""), ("", "run"), ("r", "un"), ("", ""), ("the ", " dog")], |s: &String, c: &mut Ctx| {
        c.states += 1;
        tagging(&[In::Text(s.clone(), vec![])], c)
    }));
    v.extend(crate::layers::spaces(21, thorough));
    v
}
