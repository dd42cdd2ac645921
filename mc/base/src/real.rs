//! Driving the real library through its public API only.

use crate::engine::{hstr, mix};
use crate::model::*;
use layered_nlp::{
    create_line_from_input_tokens, x, AnyAttribute, InputToken, LLCursorAssignment, LLLine,
    LLSelection, Resolver, TextTag,
};
use std::cell::Cell;
use std::rc::Rc;
use x::{ToIdx, XDirection, XMatch};

pub fn any_attr(v: &Val) -> AnyAttribute {
    match v {
        Val::Char(c) => AnyAttribute::new(*c),
        Val::Tag(t) => AnyAttribute::new(t.clone()),
        Val::A(v) => AnyAttribute::new(A(*v)),
        Val::B(v) => AnyAttribute::new(B(*v)),
        Val::P(v) => AnyAttribute::new(P(*v)),
        Val::Str(s) => AnyAttribute::new(s.clone()),
    }
}

pub fn input(i: &In) -> InputToken {
    match i {
        In::Text(t, a) => InputToken::text(t.clone(), a.iter().map(any_attr).collect()),
        In::Custom(s, a) => InputToken::custom(*s, a.iter().map(any_attr).collect()),
    }
}

pub fn line(ins: &[In], measure: impl Fn(&str) -> usize) -> LLLine {
    create_line_from_input_tokens(ins.iter().map(input).collect(), measure)
}

/// A resolver from a closure.
pub struct By<T, F>(F, std::marker::PhantomData<fn() -> T>);

pub fn by<T, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>>(f: F) -> By<T, F> {
    By(f, std::marker::PhantomData)
}

impl<T, F> Resolver for By<T, F>
where
    T: std::fmt::Debug + Send + Sync + 'static,
    F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>,
{
    type Attr = T;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<T>> {
        (self.0)(s)
    }
}

/// Selections of one line by token range, obtained through text search, probes and split_with.
///
/// All of them up to `DENSE` tokens; beyond, `all` lists those between a set of borders, and the others are
/// made when asked for.
pub struct Sels {
    pub full: LLSelection,
    pub n: usize,
    known: Vec<Option<LLSelection>>,
    tails: Vec<Option<LLSelection>>,
    list: Vec<(Rng, LLSelection)>,
    tab: Vec<Option<LLSelection>>,
}

pub const DENSE: usize = 48;

impl Sels {
    /// `full` must be the selection of the whole of the line that `m` models.
    pub fn new(full: LLSelection, m: &MLine) -> Result<Sels, String> {
        let n = m.len();
        let mut known: Vec<Option<LLSelection>> = vec![None; n];
        let texts: Vec<LLSelection> = full.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect();
        let idx: Vec<usize> = (0..n).filter(|i| m.toks[*i].text.is_some()).collect();
        if texts.len() != idx.len() {
            return Err(format!("text search found {} tokens, expected {}", texts.len(), idx.len()));
        }
        for (i, s) in idx.into_iter().zip(texts) {
            known[i] = Some(s);
        }
        for (s, p) in full.find_by(&x::attr::<P>()) {
            if p.0 < n {
                known[p.0] = Some(s);
            }
        }
        // everything from each token on
        let tails = (0..n)
            .map(|lo| {
                if lo == 0 {
                    Some(full.clone())
                } else if let Some(k) = &known[lo - 1] {
                    full.split_with(k)[1].clone()
                } else if let Some(k) = &known[lo] {
                    full.split_with(k)[0].as_ref().and_then(|head| full.split_with(head)[1].clone())
                } else {
                    None
                }
            })
            .collect();
        let mut s = Sels { full, n, known, tails, list: Vec::new(), tab: Vec::new() };
        let at: Vec<usize> = if n <= DENSE {
            (0..n).collect()
        } else {
            let mut near = vec![0, 1, 32, 64, 128, 256, 512, 1024, n / 2, n - 1];
            if n > 5000 {
                near = vec![0, 65535, 65536, n - 1];
            }
            (0..n).filter(|i| near.iter().any(|b| i.abs_diff(*b) <= 1)).collect()
        };
        if n <= DENSE {
            s.tab = vec![None; n * n];
        }
        for lo in &at {
            for hi in &at {
                if lo <= hi {
                    if let Some(x) = s.make((*lo, *hi)) {
                        if n <= DENSE {
                            s.tab[lo * n + hi] = Some(x.clone());
                        }
                        s.list.push(((*lo, *hi), x));
                    }
                }
            }
        }
        Ok(s)
    }
    fn make(&self, r: Rng) -> Option<LLSelection> {
        let (lo, hi) = r;
        let tail = self.tails[lo].as_ref()?;
        if lo == hi && self.known[lo].is_some() {
            self.known[lo].clone()
        } else if hi == self.n - 1 {
            Some(tail.clone())
        } else if let Some(k) = &self.known[hi + 1] {
            tail.split_with(k)[0].clone()
        } else if let Some(k) = &self.known[hi] {
            self.full.split_with(k)[1].as_ref().and_then(|rest| tail.split_with(rest)[0].clone())
        } else {
            None
        }
    }
    pub fn get(&self, r: Rng) -> Option<LLSelection> {
        if self.tab.is_empty() {
            self.make(r)
        } else {
            self.tab[r.0 * self.n + r.1].clone()
        }
    }
    pub fn all(&self) -> impl Iterator<Item = (Rng, &LLSelection)> + '_ {
        self.list.iter().map(|(r, s)| (*r, s))
    }
    /// Lists these selections from now on; what is compared with stays the same.
    pub fn list(&mut self, list: Vec<(Rng, LLSelection)>) {
        self.list = list;
    }
    /// Is `s` the selection of range `r`?
    pub fn is(&self, s: &LLSelection, r: Rng) -> bool {
        if r.0 > r.1 || r.1 >= self.n {
            return false;
        }
        let made;
        let t = if self.tab.is_empty() {
            made = self.make(r);
            &made
        } else {
            &self.tab[r.0 * self.n + r.1]
        };
        match t {
            Some(t) => t == s,
            None => debug_range(s) == Some(r),
        }
    }
    pub fn show(&self, s: &LLSelection) -> String {
        for (r, t) in self.all() {
            if t == s {
                return format!("[{}..{}]", r.0, r.1);
            }
        }
        format!("{:?}", s)
    }
}

/// The two numbers of a selection's debug text.
pub fn debug_range(s: &LLSelection) -> Option<Rng> {
    let t = format!("{:?}", s);
    let v: Vec<usize> = t
        .split(|c: char| !c.is_ascii_digit())
        .filter(|p| !p.is_empty())
        .filter_map(|p| p.parse().ok())
        .collect();
    match v[..] {
        [a, b] => Some((a, b)),
        _ => None,
    }
}

/// Runs one resolver that assigns the given same-typed annotations to the given ranges.
pub fn assign(l: LLLine, m: &MLine, anns: &[(Rng, Val)]) -> Result<LLLine, String> {
    if anns.is_empty() {
        return Ok(l);
    }
    let err: Cell<Option<String>> = Cell::new(None);
    macro_rules! go {
        ($t:ty, $f:expr) => {
            l.run(&by::<$t, _>(|sel: LLSelection| {
                let sels = match Sels::new(sel, m) {
                    Ok(s) => s,
                    Err(e) => {
                        err.set(Some(e));
                        return Vec::new();
                    }
                };
                let mut out = Vec::new();
                for (r, v) in anns {
                    match sels.get(*r) {
                        Some(s) => out.push(s.finish_with_attr($f(v))),
                        None => err.set(Some(format!("no selection for tokens {:?}", r))),
                    }
                }
                out
            }))
        };
    }
    let l = match anns[0].1.ty() {
        TY_CHAR => go!(char, |v: &Val| if let Val::Char(c) = v { *c } else { unreachable!() }),
        TY_TAG => go!(TextTag, |v: &Val| if let Val::Tag(c) = v { c.clone() } else { unreachable!() }),
        TY_A => go!(A, |v: &Val| if let Val::A(c) = v { A(*c) } else { unreachable!() }),
        TY_B => go!(B, |v: &Val| if let Val::B(c) = v { B(*c) } else { unreachable!() }),
        TY_P => go!(P, |v: &Val| if let Val::P(c) = v { P(*c) } else { unreachable!() }),
        TY_STR => go!(String, |v: &Val| if let Val::Str(c) = v { c.clone() } else { unreachable!() }),
        _ => unreachable!(),
    };
    match err.into_inner() {
        Some(e) => Err(e),
        None => Ok(l),
    }
}

/// Builds the real line and its model, then applies the annotations, one resolver run per stretch of
/// equally typed annotations.
/// Sizes that tell positions from token numbers: words and commas have none at all.
pub fn uneven(t: &str) -> usize {
    match t {
        "ab" | "," => 0,
        " " => 2,
        _ => 1,
    }
}

pub fn build(ins: &[In], anns: &[(Rng, Val)], measure: impl Fn(&str) -> usize) -> Result<(LLLine, MLine), String> {
    let mut m = MLine::new(ins, &measure);
    let mut l = line(ins, &measure);
    let mut i = 0;
    while i < anns.len() {
        let mut j = i + 1;
        while j < anns.len() && anns[j].1.ty() == anns[i].1.ty() {
            j += 1;
        }
        l = assign(l, &m, &anns[i..j])?;
        m.anns.extend_from_slice(&anns[i..j]);
        i = j;
    }
    Ok((l, m))
}

pub fn query(l: &LLLine, ty: usize) -> Vec<(Rng, String, Vec<Val>)> {
    macro_rules! q {
        ($t:ty, $f:expr) => {
            l.query::<$t>()
                .into_iter()
                .map(|(r, s, v)| (r, s, v.into_iter().map($f).collect()))
                .collect()
        };
    }
    match ty {
        TY_CHAR => q!(char, |c| Val::Char(*c)),
        TY_TAG => q!(TextTag, |c| Val::Tag(c.clone())),
        TY_A => q!(A, |c| Val::A(c.0)),
        TY_B => q!(B, |c| Val::B(c.0)),
        TY_P => q!(P, |c| Val::P(c.0)),
        TY_STR => q!(String, |c| Val::Str(c.clone())),
        _ => unreachable!(),
    }
}

/// Compares the queries of all model types; returns an outcome hash.
pub fn same_annotations(l: &LLLine, m: &MLine) -> Result<u64, String> {
    let mut h = 0;
    for ty in 0..TYS {
        let got = query(l, ty);
        let want = m.query(ty);
        if got != want {
            return Err(format!(
                "annotations of type {} differ\n  expected {:?}\n  got      {:?}",
                ["char", "TextTag", "A", "B", "P", "String"][ty],
                want,
                got
            ));
        }
        for ((a, b), _, vs) in got {
            h = mix(mix(h, a as u64), b as u64);
            for v in vs {
                h = mix(h, v.code());
            }
        }
    }
    Ok(h)
}

/// Compares token texts, tags and (through the text search) positions.
pub fn same_tokens(l: &LLLine, m: &MLine) -> Result<u64, String> {
    let toks = l.ll_tokens();
    if toks.len() != m.len() {
        return Err(format!("{} tokens, expected {}", toks.len(), m.len()));
    }
    let mut h = toks.len() as u64;
    for (i, t) in toks.iter().enumerate() {
        let ok = match (t.get_token(), &m.toks[i].text, &m.toks[i].tag) {
            (layered_nlp::LToken::Text(s, tag), Some(ms), Some(mt)) => {
                h = mix(mix(h, hstr(s)), tag_code(tag));
                s == ms && tag == mt
            }
            (layered_nlp::LToken::Value, None, None) => true,
            _ => false,
        };
        if !ok {
            return Err(format!(
                "token {} is {:?}, expected {:?} {:?}",
                i,
                t.get_token(),
                m.toks[i].text,
                m.toks[i].tag
            ));
        }
    }
    let want: Vec<(Rng, &str)> = m
        .toks
        .iter()
        .filter_map(|t| t.text.as_deref().map(|s| ((t.start, t.end), s)))
        .collect();
    let found = l.find(&x::token_text());
    let got: Vec<(Rng, &str)> = found.iter().map(|f| (f.range(), *f.attr())).collect();
    if got != want {
        return Err(format!("token positions differ\n  expected {:?}\n  got      {:?}", want, got));
    }
    for ((a, b), _) in got {
        h = mix(mix(h, a as u64), b as u64);
    }
    Ok(h)
}

pub fn full(l: LLLine) -> LLSelection {
    LLSelection::from_line(Rc::new(l)).expect("a line with tokens has a selection")
}

// ---- matcher expressions, evaluated by the library's own matchers and combinators ---------------

#[derive(Clone, Copy)]
pub struct R<'a>(pub &'a Mx);

impl<'l, 'a> XMatch<'l> for R<'a> {
    type Out = u64;
    fn go<M: XDirection<'l>>(&self, d: &M, l: &'l LLLine) -> Vec<(u64, ToIdx)> {
        self.0.go(d, l)
    }
}

fn map<T>(v: Vec<(T, ToIdx)>, f: impl Fn(T) -> u64) -> Vec<(u64, ToIdx)> {
    v.into_iter().map(|(t, i)| (f(t), i)).collect()
}

impl<'l> XMatch<'l> for Mx {
    type Out = u64;
    fn go<M: XDirection<'l>>(&self, d: &M, l: &'l LLLine) -> Vec<(u64, ToIdx)> {
        match self {
            Mx::AttrA => map(x::attr::<A>().go(d, l), |v: &A| mix(code::ATTR_A, v.0 as u64)),
            Mx::AttrB => map(x::attr::<B>().go(d, l), |v: &B| mix(code::ATTR_B, v.0 as u64)),
            Mx::AttrTag => map(x::attr::<TextTag>().go(d, l), |v: &TextTag| mix(code::ATTR_TAG, tag_code(v))),
            Mx::AttrChar => map(x::attr::<char>().go(d, l), |v: &char| mix(code::ATTR_CHAR, *v as u64)),
            Mx::EqA(v) => map(x::attr_eq(v).go(d, l), |_| code::EQ),
            Mx::EqB(v) => map(x::attr_eq(v).go(d, l), |_| code::EQ),
            Mx::EqTag(v) => map(x::attr_eq(v).go(d, l), |_| code::EQ),
            Mx::EqChar(v) => map(x::attr_eq(v).go(d, l), |_| code::EQ),
            Mx::Ws => map(x::whitespace().go(d, l), |_| code::EQ),
            Mx::HasA(s) => map(x::token_has_any(s).go(d, l), |v: &A| mix(code::HAS_A, v.0 as u64)),
            Mx::HasTag(s) => map(x::token_has_any(s).go(d, l), |v: &TextTag| mix(code::HAS_TAG, tag_code(v))),
            Mx::HasChar(s) => map(x::token_has_any(s).go(d, l), |v: &char| mix(code::HAS_CHAR, *v as u64)),
            Mx::Text => map(x::token_text().go(d, l), |s: &str| mix(code::TEXT, hstr(s))),
            Mx::Seq2(a, b) => map(x::seq((R(a), R(b))).go(d, l), |(a, b)| mix2(code::SEQ, a, b)),
            Mx::Seq3(a, b, c) => map(x::seq((R(a), R(b), R(c))).go(d, l), |(a, b, c)| mix3(code::SEQ, a, b, c)),
            Mx::All2(a, b) => map(x::all((R(a), R(b))).go(d, l), |(a, b)| mix2(code::ALL, a, b)),
            Mx::All3(a, b, c) => map(x::all((R(a), R(b), R(c))).go(d, l), |(a, b, c)| mix3(code::ALL, a, b, c)),
            Mx::Any2(a, b) => map(x::any_of((R(a), R(b))).go(d, l), |v| match v {
                x::AnyOf2::A(v) => mix(code::ANY2, v),
                x::AnyOf2::B(v) => mix(code::ANY2 + 1, v),
            }),
            Mx::Any3(a, b, c) => map(x::any_of((R(a), R(b), R(c))).go(d, l), |v| match v {
                x::AnyOf3::A(v) => mix(code::ANY3, v),
                x::AnyOf3::B(v) => mix(code::ANY3 + 1, v),
                x::AnyOf3::C(v) => mix(code::ANY3 + 2, v),
            }),
        }
    }
}

// ---- the same expressions as users write them -----------------------------------------------------
//
// `Mx` above is a matcher written by a user (its results are all of one type). Many expressions also have a
// twin made of nothing but the library's own pieces, whose results have the library's types: references, unit,
// tuples, alternatives.

/// Calls `$body` with the twin and the function that encodes its results; `None` without a twin.
macro_rules! twin {
    ($k:expr, |$m:ident, $e:ident| $body:expr) => {{
        #[allow(unused_macros)]
        macro_rules! arm {
            ($matcher:expr, $enc:expr) => {{
                let $m = $matcher;
                let $e = $enc;
                Some($body)
            }};
        }
        match $k {
            Mx::AttrA => arm!(x::attr::<A>(), enc_a),
            Mx::AttrB => arm!(x::attr::<B>(), enc_b),
            Mx::AttrTag => arm!(x::attr::<TextTag>(), enc_tag),
            Mx::AttrChar => arm!(x::attr::<char>(), enc_char),
            Mx::EqA(v) => arm!(x::attr_eq(v), enc_unit),
            Mx::EqB(v) => arm!(x::attr_eq(v), enc_unit),
            Mx::EqTag(v) => arm!(x::attr_eq(v), enc_unit),
            Mx::EqChar(v) => arm!(x::attr_eq(v), enc_unit),
            Mx::Ws => arm!(x::whitespace(), enc_unit),
            Mx::HasA(s) => arm!(x::token_has_any(s), |v: &A| mix(code::HAS_A, v.0 as u64)),
            Mx::HasTag(s) => arm!(x::token_has_any(s), |v: &TextTag| mix(code::HAS_TAG, tag_code(v))),
            Mx::HasChar(s) => arm!(x::token_has_any(s), |v: &char| mix(code::HAS_CHAR, *v as u64)),
            Mx::Text => arm!(x::token_text(), enc_text),
            Mx::Seq2(p, q) => match (&**p, &**q) {
                (Mx::AttrA, Mx::AttrA) => arm!(x::seq((x::attr::<A>(), x::attr::<A>())), |(a, b)| mix2(code::SEQ, enc_a(a), enc_a(b))),
                (Mx::AttrA, Mx::AttrB) => arm!(x::seq((x::attr::<A>(), x::attr::<B>())), |(a, b)| mix2(code::SEQ, enc_a(a), enc_b(b))),
                (Mx::Text, Mx::Text) => arm!(x::seq((x::token_text(), x::token_text())), |(a, b)| mix2(code::SEQ, enc_text(a), enc_text(b))),
                (Mx::AttrA, Mx::Text) => arm!(x::seq((x::attr::<A>(), x::token_text())), |(a, b)| mix2(code::SEQ, enc_a(a), enc_text(b))),
                (Mx::Text, Mx::AttrA) => arm!(x::seq((x::token_text(), x::attr::<A>())), |(a, b)| mix2(code::SEQ, enc_text(a), enc_a(b))),
                (Mx::EqA(a), Mx::EqA(b)) => arm!(x::seq((x::attr_eq(a), x::attr_eq(b))), |((), ())| mix2(code::SEQ, code::EQ, code::EQ)),
                _ => None,
            },
            Mx::Seq3(p, q, r) => match (&**p, &**q, &**r) {
                (Mx::Text, Mx::Text, Mx::Text) => {
                    arm!(x::seq((x::token_text(), x::token_text(), x::token_text())), |(a, b, c)| mix3(code::SEQ, enc_text(a), enc_text(b), enc_text(c)))
                }
                (Mx::AttrA, Mx::AttrA, Mx::AttrA) => {
                    arm!(x::seq((x::attr::<A>(), x::attr::<A>(), x::attr::<A>())), |(a, b, c)| mix3(code::SEQ, enc_a(a), enc_a(b), enc_a(c)))
                }
                (Mx::AttrA, Mx::Text, Mx::AttrA) => {
                    arm!(x::seq((x::attr::<A>(), x::token_text(), x::attr::<A>())), |(a, b, c)| mix3(code::SEQ, enc_a(a), enc_text(b), enc_a(c)))
                }
                _ => None,
            },
            Mx::All2(p, q) => match (&**p, &**q) {
                (Mx::AttrA, Mx::AttrA) => arm!(x::all((x::attr::<A>(), x::attr::<A>())), |(a, b)| mix2(code::ALL, enc_a(a), enc_a(b))),
                (Mx::AttrA, Mx::AttrB) => arm!(x::all((x::attr::<A>(), x::attr::<B>())), |(a, b)| mix2(code::ALL, enc_a(a), enc_b(b))),
                (Mx::AttrA, Mx::Text) => arm!(x::all((x::attr::<A>(), x::token_text())), |(a, b)| mix2(code::ALL, enc_a(a), enc_text(b))),
                (Mx::EqTag(a), Mx::Text) => arm!(x::all((x::attr_eq(a), x::token_text())), |((), b)| mix2(code::ALL, code::EQ, enc_text(b))),
                (Mx::EqA(a), Mx::EqA(b)) => arm!(x::all((x::attr_eq(a), x::attr_eq(b))), |((), ())| mix2(code::ALL, code::EQ, code::EQ)),
                _ => None,
            },
            Mx::All3(p, q, r) => match (&**p, &**q, &**r) {
                (Mx::AttrA, Mx::AttrA, Mx::AttrA) => {
                    arm!(x::all((x::attr::<A>(), x::attr::<A>(), x::attr::<A>())), |(a, b, c)| mix3(code::ALL, enc_a(a), enc_a(b), enc_a(c)))
                }
                (Mx::AttrA, Mx::AttrB, Mx::Text) => {
                    arm!(x::all((x::attr::<A>(), x::attr::<B>(), x::token_text())), |(a, b, c)| mix3(code::ALL, enc_a(a), enc_b(b), enc_text(c)))
                }
                _ => None,
            },
            Mx::Any2(p, q) => match (&**p, &**q) {
                (Mx::AttrA, Mx::Ws) => arm!(x::any_of((x::attr::<A>(), x::whitespace())), |v| any2(v, enc_a, enc_unit)),
                (Mx::Ws, Mx::AttrA) => arm!(x::any_of((x::whitespace(), x::attr::<A>())), |v| any2(v, enc_unit, enc_a)),
                (Mx::AttrA, Mx::AttrB) => arm!(x::any_of((x::attr::<A>(), x::attr::<B>())), |v| any2(v, enc_a, enc_b)),
                (Mx::EqA(a), Mx::EqA(b)) => arm!(x::any_of((x::attr_eq(a), x::attr_eq(b))), |v| any2(v, enc_unit, enc_unit)),
                _ => None,
            },
            Mx::Any3(p, q, r) => match (&**p, &**q, &**r) {
                (Mx::AttrB, Mx::EqA(a), Mx::Text) => {
                    arm!(x::any_of((x::attr::<B>(), x::attr_eq(a), x::token_text())), |v| any3(v, enc_b, enc_unit, enc_text))
                }
                (Mx::AttrA, Mx::AttrB, Mx::Text) => {
                    arm!(x::any_of((x::attr::<A>(), x::attr::<B>(), x::token_text())), |v| any3(v, enc_a, enc_b, enc_text))
                }
                _ => None,
            },
        }
    }};
}

fn enc_a(v: &A) -> u64 {
    mix(code::ATTR_A, v.0 as u64)
}
fn enc_b(v: &B) -> u64 {
    mix(code::ATTR_B, v.0 as u64)
}
fn enc_tag(v: &TextTag) -> u64 {
    mix(code::ATTR_TAG, tag_code(v))
}
fn enc_char(v: &char) -> u64 {
    mix(code::ATTR_CHAR, *v as u64)
}
fn enc_unit(_: ()) -> u64 {
    code::EQ
}
fn enc_text(s: &str) -> u64 {
    mix(code::TEXT, hstr(s))
}
fn any2<P, Q>(v: x::AnyOf2<P, Q>, p: impl Fn(P) -> u64, q: impl Fn(Q) -> u64) -> u64 {
    match v {
        x::AnyOf2::A(v) => mix(code::ANY2, p(v)),
        x::AnyOf2::B(v) => mix(code::ANY2 + 1, q(v)),
    }
}
fn any3<P, Q, S>(v: x::AnyOf3<P, Q, S>, p: impl Fn(P) -> u64, q: impl Fn(Q) -> u64, s: impl Fn(S) -> u64) -> u64 {
    match v {
        x::AnyOf3::A(v) => mix(code::ANY3, p(v)),
        x::AnyOf3::B(v) => mix(code::ANY3 + 1, q(v)),
        x::AnyOf3::C(v) => mix(code::ANY3 + 2, s(v)),
    }
}

/// Operations of a selection that give matches.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Find,
    FindFirst,
    FindBoth,
    Forwards,
    FirstForwards,
    Backwards,
    FirstBackwards,
}

macro_rules! op {
    ($o:expr, $s:expr, $m:expr) => {
        match $o {
            Op::Find => $s.find_by($m),
            Op::FindFirst => $s.find_first_by($m).into_iter().collect(),
            Op::FindBoth => $s.find_by_forwards_and_backwards($m),
            Op::Forwards => $s.match_forwards($m),
            Op::FirstForwards => $s.match_first_forwards($m).into_iter().collect(),
            Op::Backwards => $s.match_backwards($m),
            Op::FirstBackwards => $s.match_first_backwards($m).into_iter().collect(),
        }
    };
}

/// One operation, by the twin when there is one.
pub fn matches(s: &LLSelection, o: Op, k: &Mx) -> Vec<(LLSelection, u64)> {
    twin!(k, |m, e| {
        let v: Vec<_> = op!(o, s, &m);
        v.into_iter().map(|(s, v)| (s, e(v))).collect::<Vec<(LLSelection, u64)>>()
    })
    .unwrap_or_else(|| op!(o, s, k))
}

/// Operations of a selection that give selections.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    Split,
    TrimStart,
    TrimEnd,
    Trim,
}

macro_rules! cut {
    ($o:expr, $s:expr, $m:expr) => {
        match $o {
            Cut::Split => $s.split_by($m),
            Cut::TrimStart => $s.trim_start($m).into_iter().collect(),
            Cut::TrimEnd => $s.trim_end($m).into_iter().collect(),
            Cut::Trim => $s.trim($m).into_iter().collect(),
        }
    };
}

pub fn cuts(s: &LLSelection, o: Cut, k: &Mx) -> Vec<LLSelection> {
    twin!(k, |m, e| {
        let _ = &e;
        let v: Vec<LLSelection> = cut!(o, s, &m);
        v
    })
    .unwrap_or_else(|| cut!(o, s, k))
}

/// The search of a whole line.
pub fn search(l: &LLLine, k: &Mx) -> Vec<(Rng, u64)> {
    twin!(k, |m, e| l.find(&m).iter().map(|f| (f.range(), e(*f.attr()))).collect::<Vec<_>>())
        .unwrap_or_else(|| l.find(k).iter().map(|f| (f.range(), *f.attr())).collect())
}

pub fn check_list(what: &str, k: &Mx, sels: &Sels, got: &[(LLSelection, u64)], want: &[(Rng, u64)]) -> Result<(), String> {
    let same = got.len() == want.len() && got.iter().zip(want).all(|((s, v), (r, w))| v == w && sels.is(s, *r));
    if same {
        return Ok(());
    }
    Err(format!(
        "{} {:?}: expected spans {:?}, got {:?}{}",
        what,
        k,
        want.iter().map(|(r, _)| format!("[{}..{}]", r.0, r.1)).collect::<Vec<_>>(),
        got.iter().map(|(s, _)| sels.show(s)).collect::<Vec<_>>(),
        if got.len() == want.len() { " (or their matched values differ)" } else { "" }
    ))
}
