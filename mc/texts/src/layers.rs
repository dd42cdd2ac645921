//! The shipped resolvers on lines that already carry other layers, their own earlier results included.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real::by;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::{create_line_from_input_tokens, x, AnyAttribute, InputToken, LLLine, LLSelection, Resolver, TextMatchAssignResolver};
use layered_part_of_speech::{POSTagResolver, Tag};

const PIECES: &[&str] = &["if", "The run", "1,000.5", ",", "then", "and", "12", "€5'000", "  "];
const LAYERS: u64 = 8;
const LAYER_NAMES: [&str; 8] = ["parts of speech", "keywords", "clauses", "English amounts", "French amounts", "text lookup", "text lookup (any case)", "every token and pair"];

fn words<V: Clone>(v: V, w: V) -> Vec<(&'static str, Vec<V>)> {
    vec![("if", vec![v.clone(), w.clone()]), ("run", vec![w.clone()]), (",", vec![v]), ("12", vec![w.clone(), w])]
}

fn lookup(fold: bool) -> TextMatchAssignResolver<u16> {
    let t = words(1u16, 2).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    if fold {
        TextMatchAssignResolver::new_case_insensitive(t)
    } else {
        TextMatchAssignResolver::new(t)
    }
}

fn keyword_resolver() -> ClauseKeywordResolver {
    ClauseKeywordResolver::new(&["if"], &["and"], &["then"])
}

fn layer(l: LLLine, k: u64) -> LLLine {
    match k {
        0 => l.run(&POSTagResolver::default()),
        1 => l.run(&keyword_resolver()),
        2 => l.run(&ClauseResolver::default()),
        3 => l.run(&AmountResolver::english()),
        4 => l.run(&AmountResolver::french()),
        5 => l.run(&lookup(false)),
        6 => l.run(&lookup(true)),
        _ => l.run(&by::<A, _>(|s: LLSelection| {
            s.find_by(&x::token_text())
                .into_iter()
                .map(|x| x.0)
                .chain(s.find_by(&x::seq((x::token_text(), x::token_text()))).into_iter().map(|x| x.0))
                .map(|s| s.finish_with_attr(A(3)))
                .collect()
        })),
    }
}

type Seen = Vec<((usize, usize), Vec<String>)>;

fn read<T: 'static + std::fmt::Debug>(l: &LLLine) -> Seen {
    l.query::<T>().into_iter().map(|(r, _, v)| (r, v.into_iter().map(|v| format!("{:?}", v)).collect())).collect()
}

fn on_top<R: Resolver>(text: &str, keys_first: bool, r: &R, layers: &[u64], c: &mut Ctx) -> Result<(), String> {
    let line = || {
        let l = create_line_from_input_tokens(vec![InputToken::text(text.to_string(), vec![AnyAttribute::new(A(1)), AnyAttribute::new(true)])], |t| t.len());
        if keys_first {
            l.run(&keyword_resolver())
        } else {
            l
        }
    };
    let fresh = read::<R::Attr>(&line().run(r));
    let mut l = line();
    for k in layers {
        // clauses read keywords, so a second keyword layer may change them
        if keys_first && *k == 1 {
            continue;
        }
        l = layer(l, *k);
    }
    let mut want = read::<R::Attr>(&l);
    l = l.run(r);
    for (span, values) in fresh {
        match want.iter_mut().find(|w| w.0 == span) {
            Some(w) => w.1.extend(values),
            None => want.push((span, values)),
        }
    }
    let got = read::<R::Attr>(&l);
    c.transitions += 1;
    if got != want {
        let names: Vec<&str> = layers.iter().map(|k| LAYER_NAMES[*k as usize]).collect();
        return Err(format!("after the layers {:?}: expected {:?}, got {:?}", names, want, got));
    }
    c.outcome(hstr(&format!("{:?}", got)));
    Ok(())
}

fn case(prop: u64, text: &str, layers: &[u64], c: &mut Ctx) -> Result<(), String> {
    c.states += 1;
    match prop {
        16 => {
            on_top(text, false, &lookup(false), layers, c)?;
            on_top(text, false, &lookup(true), layers, c)
        }
        17 => {
            on_top(text, false, &AmountResolver::new(vec![','], '.'), layers, c)?;
            on_top(text, false, &AmountResolver::new(vec!['\''], ','), layers, c)
        }
        18 => {
            on_top(text, false, &AmountResolver::english(), layers, c)?;
            on_top(text, false, &AmountResolver::french(), layers, c)
        }
        19 => {
            on_top(text, false, &keyword_resolver(), layers, c)?;
            on_top(text, false, &ClauseKeywordResolver::new(&["then", "if"], &[",", "if"], &["12"]), layers, c)
        }
        20 => on_top(text, true, &ClauseResolver::default(), layers, c),
        _ => on_top(text, false, &POSTagResolver::default(), layers, c),
    }
}

// the attribute types the resolvers assign
#[allow(dead_code)]
type Kinds = (Amount, Clause, ClauseKeyword, Tag);

pub fn spaces(prop: u64, thorough: bool) -> Vec<Space> {
    let max = if thorough { 4 } else { 3 };
    let depth = if thorough { 3 } else { 2 };
    let nl = seqs(LAYERS, 1, depth);
    let show = |x: &(String, Vec<u64>)| format!("text {:?}, layers {:?}", x.0, x.1.iter().map(|k| LAYER_NAMES[*k as usize]).collect::<Vec<_>>());
    let layers = move |i: u64| seq_at(LAYERS, 1, i).into_iter().map(|k| k as u64).collect::<Vec<_>>();
    vec![
        Space::new(
            "on-other-layers",
            &format!("every text of 1..={} pieces over {:?} joined by blanks x every sequence of 1..={} earlier layers over {:?}: the resolver adds what it adds to a new line", max, PIECES, depth, LAYER_NAMES),
            seqs(PIECES.len() as u64, 1, max) * nl,
            move |i| {
                let t = seq_at(PIECES.len() as u64, 1, i / nl).into_iter().map(|k| PIECES[k]).collect::<Vec<_>>().join(" ");
                (t, layers(i % nl))
            },
            show,
            move |(t, k), c| case(prop, t, k, c),
        ),
        Space::new(
            "phrases-on-other-layers",
            &format!("{} x every sequence of 1..={} earlier layers", phrases_rule(1), depth),
            phrases(1) * nl,
            move |i| (phrase(i / nl), layers(i % nl)),
            show,
            move |(t, k), c| case(prop, t, k, c),
        ),
    ]
}
