//! The reference model: a line is a list of tokens and a list of annotations in the order they were
//! made. Every operation is defined by brute force over those two lists.

use std::collections::HashMap;
use crate::engine::{hstr, mix};
use layered_nlp::TextTag;
use unicode_segmentation::UnicodeSegmentation;

pub type Rng = (usize, usize);

#[derive(Clone, Debug, PartialEq)]
pub struct A(pub u8);
#[derive(Clone, Debug, PartialEq)]
pub struct B(pub u8);
/// Probe: put on custom tokens so that a selection of just that token can be obtained.
#[derive(Clone, Debug, PartialEq)]
pub struct P(pub usize);

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Char(char),
    Tag(TextTag),
    A(u8),
    B(u8),
    P(usize),
    Str(String),
}

pub const TY_CHAR: usize = 0;
pub const TY_TAG: usize = 1;
pub const TY_A: usize = 2;
pub const TY_B: usize = 3;
pub const TY_P: usize = 4;
pub const TY_STR: usize = 5;
pub const TYS: usize = 6;

pub fn tag_code(t: &TextTag) -> u64 {
    match t {
        TextTag::NATN => 0,
        TextTag::PUNC => 1,
        TextTag::SYMB => 2,
        TextTag::SPACE => 3,
        TextTag::WORD => 4,
    }
}

impl Val {
    pub fn ty(&self) -> usize {
        match self {
            Val::Char(_) => TY_CHAR,
            Val::Tag(_) => TY_TAG,
            Val::A(_) => TY_A,
            Val::B(_) => TY_B,
            Val::P(_) => TY_P,
            Val::Str(_) => TY_STR,
        }
    }
    pub fn code(&self) -> u64 {
        match self {
            Val::Char(c) => *c as u64,
            Val::Tag(t) => tag_code(t),
            Val::A(v) | Val::B(v) => *v as u64,
            Val::P(i) => *i as u64,
            Val::Str(s) => hstr(s),
        }
    }
}

#[derive(Clone, Debug)]
pub enum In {
    Text(String, Vec<Val>),
    Custom(usize, Vec<Val>),
}

#[derive(Clone, Debug)]
pub struct MTok {
    pub text: Option<String>,
    pub tag: Option<TextTag>,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, Default)]
pub struct MLine {
    pub toks: Vec<MTok>,
    pub anns: Vec<(Rng, Val)>,
}

/// The documented token classes.
pub fn classify(w: &str) -> TextTag {
    if !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit()) {
        return TextTag::NATN;
    }
    if w.chars().all(char::is_whitespace) {
        return TextTag::SPACE;
    }
    if [",", ".", "!", ";", ":", "?", "'", "\""].contains(&w) {
        return TextTag::PUNC;
    }
    let mut cs = w.chars();
    if cs.next().map_or(false, char::is_alphabetic)
        && cs.all(|c| c.is_alphabetic() || c == '\'' || c == '-' || c == '\u{2013}')
    {
        return TextTag::WORD;
    }
    TextTag::SYMB
}

/// The documented cutting rule.
pub fn tokenize(text: &str) -> Vec<(String, TextTag)> {
    let mut out: Vec<String> = Vec::new();
    for piece in text.split_word_bounds() {
        if piece.as_bytes()[0].is_ascii_digit() {
            // 0 digit, 1 letter, 2 other
            let class = |c: char| {
                if c.is_ascii_digit() {
                    0
                } else if c.is_alphabetic() {
                    1
                } else {
                    2
                }
            };
            let mut last = 2;
            for c in piece.chars() {
                let k = class(c);
                if k == 2 || k != last {
                    out.push(String::new());
                }
                out.last_mut().unwrap().push(c);
                last = k;
            }
        } else {
            out.push(piece.to_string());
        }
    }
    out.into_iter()
        .map(|s| {
            let t = classify(&s);
            (s, t)
        })
        .collect()
}

impl MLine {
    pub fn new(ins: &[In], measure: &dyn Fn(&str) -> usize) -> MLine {
        let mut l = MLine::default();
        let mut supplied = Vec::new();
        let mut pos = 0;
        for i in ins {
            let from = l.toks.len();
            match i {
                In::Text(t, attrs) => {
                    for (w, tag) in tokenize(t) {
                        let end = pos + measure(&w);
                        l.toks.push(MTok { text: Some(w), tag: Some(tag), start: pos, end });
                        pos = end;
                    }
                    supplied.push(((from, l.toks.len().wrapping_sub(1)), attrs));
                }
                In::Custom(size, attrs) => {
                    let end = pos + size;
                    l.toks.push(MTok { text: None, tag: None, start: pos, end });
                    pos = end;
                    supplied.push(((from, from), attrs));
                }
            }
        }
        for (i, t) in l.toks.iter().enumerate() {
            if let (Some(text), Some(tag)) = (&t.text, &t.tag) {
                if text.chars().count() == 1 {
                    l.anns.push(((i, i), Val::Char(text.chars().next().unwrap())));
                }
                l.anns.push(((i, i), Val::Tag(tag.clone())));
            }
        }
        for (r, attrs) in supplied {
            for a in attrs {
                l.anns.push((r, a.clone()));
            }
        }
        l
    }
    pub fn len(&self) -> usize {
        self.toks.len()
    }
    pub fn text(&self, r: Rng) -> String {
        self.toks[r.0..=r.1].iter().filter_map(|t| t.text.as_deref()).collect()
    }
    /// The spans with their values.
    pub fn grouped(&self, ty: usize) -> Vec<(Rng, Vec<&Val>)> {
        let mut at: HashMap<Rng, usize> = HashMap::new();
        let mut out: Vec<(Rng, Vec<&Val>)> = Vec::new();
        for (r, v) in &self.anns {
            if v.ty() == ty {
                let k = *at.entry(*r).or_insert_with(|| {
                    out.push((*r, Vec::new()));
                    out.len() - 1
                });
                out[k].1.push(v);
            }
        }
        out
    }
    /// (span, text, values) for each span, as a query is to report it.
    pub fn query(&self, ty: usize) -> Vec<(Rng, String, Vec<Val>)> {
        self.grouped(ty)
            .into_iter()
            .map(|(r, v)| (r, self.text(r), v.into_iter().cloned().collect()))
            .collect()
    }
    pub fn index(&self) -> Index {
        let n = self.len();
        let mut ix = Index {
            n,
            texts: self.toks.iter().map(|t| t.text.as_ref().map(|s| hstr(s))).collect(),
            starts: vec![vec![Vec::new(); n]; TYS],
            ends: vec![vec![Vec::new(); n]; TYS],
        };
        for ty in 0..TYS {
            for (r, vals) in self.grouped(ty) {
                for v in vals {
                    ix.starts[ty][r.0].push((v.code(), r.1));
                    ix.ends[ty][r.1].push((v.code(), r.0));
                }
            }
        }
        ix
    }
}

/// The annotations starting / ending at each token, in span-then-value order.
pub struct Index {
    pub n: usize,
    texts: Vec<Option<u64>>,
    starts: Vec<Vec<Vec<(u64, usize)>>>,
    ends: Vec<Vec<Vec<(u64, usize)>>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mx {
    AttrA,
    AttrB,
    AttrTag,
    AttrChar,
    EqA(A),
    EqB(B),
    EqTag(TextTag),
    EqChar(char),
    HasA(Vec<A>),
    HasTag(Vec<TextTag>),
    HasChar(Vec<char>),
    Text,
    Ws,
    Seq2(Box<Mx>, Box<Mx>),
    Seq3(Box<Mx>, Box<Mx>, Box<Mx>),
    All2(Box<Mx>, Box<Mx>),
    All3(Box<Mx>, Box<Mx>, Box<Mx>),
    Any2(Box<Mx>, Box<Mx>),
    Any3(Box<Mx>, Box<Mx>, Box<Mx>),
}

pub mod code {
    pub const ATTR_A: u64 = 10;
    pub const ATTR_B: u64 = 11;
    pub const ATTR_TAG: u64 = 12;
    pub const ATTR_CHAR: u64 = 13;
    pub const EQ: u64 = 14;
    pub const HAS_A: u64 = 15;
    pub const HAS_TAG: u64 = 16;
    pub const HAS_CHAR: u64 = 17;
    pub const TEXT: u64 = 18;
    pub const SEQ: u64 = 20;
    pub const ALL: u64 = 21;
    pub const ANY2: u64 = 30;
    pub const ANY3: u64 = 40;
}

pub fn mix2(k: u64, a: u64, b: u64) -> u64 {
    mix(mix(k, a), b)
}
pub fn mix3(k: u64, a: u64, b: u64, c: u64) -> u64 {
    mix(mix2(k + 1000, a, b), c)
}

impl Index {
    fn at(&self, ty: usize, i: usize, fw: bool) -> &[(u64, usize)] {
        if fw {
            &self.starts[ty][i]
        } else {
            &self.ends[ty][i]
        }
    }
    fn next(&self, i: usize, fw: bool) -> Option<usize> {
        if fw {
            (i + 1 < self.n).then_some(i + 1)
        } else {
            i.checked_sub(1)
        }
    }
    /// All matches of `m` at token `i`: (matched value, last token reached).
    pub fn ev(&self, m: &Mx, i: usize, fw: bool) -> Vec<(u64, usize)> {
        let attr = |ty: usize, k: u64| -> Vec<(u64, usize)> {
            self.at(ty, i, fw).iter().map(|(v, to)| (mix(k, *v), *to)).collect()
        };
        let eq = |ty: usize, want: u64| -> Vec<(u64, usize)> {
            self.at(ty, i, fw)
                .iter()
                .filter(|(v, _)| *v == want)
                .map(|(_, to)| (code::EQ, *to))
                .collect()
        };
        let has = |ty: usize, k: u64, set: Vec<u64>| -> Vec<(u64, usize)> {
            self.at(ty, i, fw)
                .iter()
                .filter(|(v, to)| *to == i && set.contains(v))
                .map(|(v, to)| (mix(k, *v), *to))
                .collect()
        };
        match m {
            Mx::AttrA => attr(TY_A, code::ATTR_A),
            Mx::AttrB => attr(TY_B, code::ATTR_B),
            Mx::AttrTag => attr(TY_TAG, code::ATTR_TAG),
            Mx::AttrChar => attr(TY_CHAR, code::ATTR_CHAR),
            Mx::EqA(a) => eq(TY_A, a.0 as u64),
            Mx::EqB(b) => eq(TY_B, b.0 as u64),
            Mx::EqTag(t) => eq(TY_TAG, tag_code(t)),
            Mx::EqChar(c) => eq(TY_CHAR, *c as u64),
            Mx::Ws => eq(TY_TAG, tag_code(&TextTag::SPACE)),
            Mx::HasA(s) => has(TY_A, code::HAS_A, s.iter().map(|a| a.0 as u64).collect()),
            Mx::HasTag(s) => has(TY_TAG, code::HAS_TAG, s.iter().map(tag_code).collect()),
            Mx::HasChar(s) => has(TY_CHAR, code::HAS_CHAR, s.iter().map(|c| *c as u64).collect()),
            Mx::Text => self.texts[i].iter().map(|h| (mix(code::TEXT, *h), i)).collect(),
            Mx::Seq2(a, b) => {
                let mut out = Vec::new();
                for (av, at) in self.ev(a, i, fw) {
                    if let Some(j) = self.next(at, fw) {
                        for (bv, bt) in self.ev(b, j, fw) {
                            out.push((mix2(code::SEQ, av, bv), bt));
                        }
                    }
                }
                out
            }
            Mx::Seq3(a, b, c) => {
                let mut out = Vec::new();
                for (av, at) in self.ev(a, i, fw) {
                    let Some(j) = self.next(at, fw) else { continue };
                    for (bv, bt) in self.ev(b, j, fw) {
                        let Some(k) = self.next(bt, fw) else { continue };
                        for (cv, ct) in self.ev(c, k, fw) {
                            out.push((mix3(code::SEQ, av, bv, cv), ct));
                        }
                    }
                }
                out
            }
            Mx::All2(a, b) => {
                let bs = self.ev(b, i, fw);
                let mut out = Vec::new();
                for (av, at) in self.ev(a, i, fw) {
                    for (bv, bt) in &bs {
                        if at == *bt {
                            out.push((mix2(code::ALL, av, *bv), at));
                        }
                    }
                }
                out
            }
            Mx::All3(a, b, c) => {
                let bs = self.ev(b, i, fw);
                let cs = self.ev(c, i, fw);
                let mut out = Vec::new();
                for (av, at) in self.ev(a, i, fw) {
                    for (bv, bt) in &bs {
                        for (cv, ct) in &cs {
                            if at == *bt && at == *ct {
                                out.push((mix3(code::ALL, av, *bv, *cv), at));
                            }
                        }
                    }
                }
                out
            }
            Mx::Any2(a, b) => {
                for (k, m) in [a, b].into_iter().enumerate() {
                    let r = self.ev(m, i, fw);
                    if !r.is_empty() {
                        return r.into_iter().map(|(v, t)| (mix(code::ANY2 + k as u64, v), t)).collect();
                    }
                }
                Vec::new()
            }
            Mx::Any3(a, b, c) => {
                for (k, m) in [a, b, c].into_iter().enumerate() {
                    let r = self.ev(m, i, fw);
                    if !r.is_empty() {
                        return r.into_iter().map(|(v, t)| (mix(code::ANY3 + k as u64, v), t)).collect();
                    }
                }
                Vec::new()
            }
        }
    }

    // ---- selection operations -------------------------------------------------------------

    pub fn find_by(&self, s: Rng, m: &Mx) -> Vec<(Rng, u64)> {
        let mut out = Vec::new();
        for i in s.0..=s.1 {
            for (v, to) in self.ev(m, i, true) {
                if to <= s.1 {
                    out.push(((i, to), v));
                }
            }
        }
        out
    }
    pub fn find_both(&self, s: Rng, m: &Mx) -> Vec<(Rng, u64)> {
        let mut out = Vec::new();
        for i in s.0..=s.1 {
            for (v, to) in self.ev(m, i, true) {
                if to <= s.1 {
                    out.push(((i, to), v));
                }
            }
            for (v, to) in self.ev(m, i, false) {
                if to >= s.0 {
                    out.push(((to, i), v));
                }
            }
        }
        out
    }
    pub fn match_forwards(&self, s: Rng, m: &Mx) -> Vec<(Rng, u64)> {
        match self.next(s.1, true) {
            Some(i) => self.ev(m, i, true).into_iter().map(|(v, to)| ((s.0, to), v)).collect(),
            None => Vec::new(),
        }
    }
    pub fn match_backwards(&self, s: Rng, m: &Mx) -> Vec<(Rng, u64)> {
        match self.next(s.0, false) {
            Some(i) => self.ev(m, i, false).into_iter().map(|(v, to)| ((to, s.1), v)).collect(),
            None => Vec::new(),
        }
    }
    pub fn split_by(&self, s: Rng, m: &Mx) -> Vec<Rng> {
        let mut covered = vec![false; self.n];
        for ((lo, hi), _) in self.find_by(s, m) {
            for c in &mut covered[lo..=hi] {
                *c = true;
            }
        }
        let mut out: Vec<Rng> = Vec::new();
        for i in s.0..=s.1 {
            if covered[i] {
                continue;
            }
            if i > s.0 && !covered[i - 1] {
                out.last_mut().unwrap().1 = i;
            } else {
                out.push((i, i));
            }
        }
        out
    }
    pub fn trim(&self, s: Rng, m: &Mx, start: bool, end: bool) -> Option<Rng> {
        let mut keep: Vec<usize> = (s.0..=s.1).collect();
        if start {
            if let Some((_, to)) = self.ev(m, s.0, true).first() {
                keep.retain(|i| i > to);
            }
        }
        if end {
            if let Some((_, to)) = self.ev(m, s.1, false).first() {
                keep.retain(|i| i < to);
            }
        }
        Some((*keep.first()?, *keep.last()?))
    }
    pub fn after(&self, s: Rng) -> Option<Rng> {
        (s.1 + 1 < self.n).then(|| (s.1 + 1, self.n - 1))
    }
    pub fn split_with(s: Rng, o: Rng) -> [Option<Rng>; 2] {
        let before: Vec<usize> = (s.0..=s.1).filter(|i| *i < o.0).collect();
        let behind: Vec<usize> = (s.0..=s.1).filter(|i| *i > o.1).collect();
        let f = |v: Vec<usize>| Some((*v.first()?, *v.last()?));
        [f(before), f(behind)]
    }
}

impl MLine {
    /// (span, value code) in forward-search order.
    pub fn index_spans(&self, ty: usize) -> Vec<(Rng, u64)> {
        let mut out = Vec::new();
        let spans = self.grouped(ty);
        for i in 0..self.len() {
            for (r, vals) in spans.iter().filter(|(r, _)| r.0 == i) {
                out.extend(vals.iter().map(|v| (*r, v.code())));
            }
        }
        out
    }
}
