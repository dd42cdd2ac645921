//! Attributes of many Rust types, for the properties about stored annotations (C04 to C08, C15, C22, C25).

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real;
use layered_nlp::{create_line_from_input_tokens, x, AnyAttribute, InputToken, LLLine, LLLineDisplay, LLSelection};
use std::any::TypeId;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::NonZeroU8;
use std::sync::{Arc, Mutex, OnceLock};
use unicode_width::UnicodeWidthStr;

/// The values of a type that are used; their debug texts differ.
trait Menu: Debug + Send + Sync + Sized + 'static {
    fn menu() -> Vec<Self>;
}

fn val<T: Menu>(k: usize) -> T {
    T::menu().swap_remove(k)
}

fn which<T: Menu>(v: &T) -> usize {
    let t = format!("{:?}", v);
    T::menu().iter().position(|m| format!("{:?}", m) == t).unwrap_or(usize::MAX)
}

type Found = Vec<(Rng, usize)>;

/// What can be done with one type.
struct Ops {
    name: &'static str,
    id: TypeId,
    values: usize,
    debug: fn(usize) -> String,
    any: fn(usize) -> AnyAttribute,
    add: fn(&mut InputToken, usize),
    extract: fn(AnyAttribute) -> Result<usize, AnyAttribute>,
    assign: fn(LLLine, &MLine, &[Rng], &[usize]) -> LLLine,
    query: fn(&LLLine) -> Vec<(Rng, String, Vec<usize>)>,
    find: fn(&LLLine) -> Found,
    back: fn(&LLSelection) -> Vec<(LLSelection, usize)>,
    both: fn(&LLSelection) -> Vec<(LLSelection, usize)>,
    with: for<'a> fn(LLLineDisplay<'a>) -> LLLineDisplay<'a>,
    eq: Option<EqOps>,
}

struct EqOps {
    /// is the first value equal to the second?
    equal: fn(usize, usize) -> bool,
    find_eq: fn(&LLLine, usize) -> Vec<Rng>,
    back_eq: fn(&LLSelection, usize) -> Vec<LLSelection>,
    find_any: fn(&LLLine, &[usize]) -> Found,
    back_any: fn(&LLSelection, &[usize]) -> Vec<(LLSelection, usize)>,
}

fn ops<T: Menu>() -> Ops {
    Ops {
        name: std::any::type_name::<T>(),
        id: TypeId::of::<T>(),
        values: T::menu().len(),
        debug: |k| format!("{:?}", val::<T>(k)),
        any: |k| AnyAttribute::new(val::<T>(k)),
        add: |t, k| t.add_attr(val::<T>(k)),
        extract: |a| a.extract::<T>().map(|v| which(&v)),
        assign: |l, m, rs, ks| {
            l.run(&real::by::<T, _>(|full| {
                let sels = real::Sels::new(full, m).expect("selections");
                rs.iter().zip(ks).map(|(r, k)| sels.get(*r).expect("selection").finish_with_attr(val::<T>(*k))).collect()
            }))
        },
        query: |l| l.query::<T>().into_iter().map(|(r, s, v)| (r, s, v.into_iter().map(which).collect())).collect(),
        find: |l| l.find(&x::attr::<T>()).iter().map(|f| (f.range(), which(*f.attr()))).collect(),
        back: |s| s.match_backwards(&x::attr::<T>()).into_iter().map(|(s, v)| (s, which(v))).collect(),
        both: |s| s.find_by_forwards_and_backwards(&x::attr::<T>()).into_iter().map(|(s, v)| (s, which(v))).collect(),
        with: |d| d.with::<T>(),
        eq: None,
    }
}

fn eq_ops<T: Menu + PartialEq>() -> Ops {
    let mut o = ops::<T>();
    fn set<T: Menu>(ks: &[usize]) -> Vec<T> {
        ks.iter().map(|k| val::<T>(*k)).collect()
    }
    o.eq = Some(EqOps {
        equal: |a, b| val::<T>(a) == val::<T>(b),
        find_eq: |l, k| l.find(&x::attr_eq(&val::<T>(k))).iter().map(|f| f.range()).collect(),
        back_eq: |s, k| s.match_backwards(&x::attr_eq(&val::<T>(k))).into_iter().map(|x| x.0).collect(),
        find_any: |l, ks| l.find(&x::token_has_any(&set::<T>(ks))).iter().map(|f| (f.range(), which(*f.attr()))).collect(),
        back_any: |s, ks| s.match_backwards(&x::token_has_any(&set::<T>(ks))).into_iter().map(|(s, v)| (s, which(v))).collect(),
    });
    o
}

macro_rules! menus {
    ($($t:ty => [$($v:expr),*];)*) => {
        $(impl Menu for $t { fn menu() -> Vec<Self> { vec![$($v),*] } })*
        fn named() -> Vec<Ops> { vec![$(eq_ops::<$t>()),*] }
    };
}

#[derive(Debug, PartialEq, Clone, Copy)]
struct Unit;

/// equal to every other value
#[derive(Debug)]
struct Loose(#[allow(dead_code)] u8);
impl PartialEq for Loose {
    fn eq(&self, _: &Loose) -> bool {
        true
    }
}

/// not even equal to itself
#[derive(Debug)]
struct Never(#[allow(dead_code)] u8);
impl PartialEq for Never {
    fn eq(&self, _: &Never) -> bool {
        false
    }
}

/// equal by parity
#[derive(Debug)]
struct Parity(u8);
impl PartialEq for Parity {
    fn eq(&self, o: &Parity) -> bool {
        self.0 % 2 == o.0 % 2
    }
}

#[derive(Debug, PartialEq)]
#[repr(align(64))]
struct Aligned(u8);

#[derive(Debug, PartialEq)]
enum Many {
    Nothing,
    One(u8),
    Named { a: String, b: Option<Box<Many>> },
}

/// has the debug text it holds
#[derive(PartialEq)]
struct Raw(&'static str);
impl Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

/// neither Clone nor PartialEq
#[derive(Debug)]
struct Opaque(#[allow(dead_code)] Mutex<u8>);
impl Menu for Opaque {
    fn menu() -> Vec<Self> {
        vec![Opaque(Mutex::new(1)), Opaque(Mutex::new(2))]
    }
}

/// has a destructor that counts
#[derive(Debug, PartialEq)]
struct Dropping(Box<u8>);
impl Drop for Dropping {
    fn drop(&mut self) {
        *self.0 = self.0.wrapping_add(100);
    }
}

menus! {
    () => [()];
    Unit => [Unit];
    PhantomData<A> => [PhantomData];
    PhantomData<B> => [PhantomData];
    bool => [true, false];
    u8 => [0, 1];
    i8 => [0, -1];
    u16 => [0, 256];
    u32 => [0, 65536];
    i32 => [0, -1];
    u64 => [0, 1];
    i64 => [0, 1];
    usize => [0, 1];
    isize => [0, 1];
    u128 => [0, u128::MAX];
    f32 => [0.0, 1.5];
    f64 => [0.0, f64::NAN, -0.0];
    NonZeroU8 => [NonZeroU8::new(1).unwrap(), NonZeroU8::new(2).unwrap()];
    &'static str => ["a", "b"];
    Box<str> => ["a".into(), "".into()];
    Arc<str> => ["a".into(), "ab".into()];
    Vec<u8> => [vec![], vec![0], vec![1, 2]];
    Vec<char> => [vec![], vec!['a']];
    Vec<A> => [vec![], vec![A(0)], vec![A(1), A(0)]];
    Vec<Vec<A>> => [vec![], vec![vec![A(0)]]];
    Vec<(Rng, A)> => [vec![], vec![((0, 0), A(0))]];
    Box<A> => [Box::new(A(0)), Box::new(A(1))];
    Arc<A> => [Arc::new(A(0)), Arc::new(A(1))];
    Option<A> => [None, Some(A(0)), Some(A(1))];
    Option<Box<A>> => [None, Some(Box::new(A(0)))];
    Result<A, B> => [Ok(A(0)), Err(B(0))];
    (A, B) => [(A(0), B(0)), (A(0), B(1))];
    (B, A) => [(B(0), A(0)), (B(0), A(1))];
    (usize, usize) => [(0, 0), (0, 1), (1, 2)];
    [u8; 4] => [[0; 4], [1; 4]];
    [u8; 0] => [[]];
    [[u64; 16]; 16] => [[[0; 16]; 16], [[7; 16]; 16]];
    BTreeMap<u8, A> => [BTreeMap::new(), [(1, A(1))].into_iter().collect()];
    TypeId => [TypeId::of::<A>(), TypeId::of::<B>()];
    Raw => [Raw(""), Raw("a\nb"), Raw("  x "), Raw("╰─╯"), Raw("é\t\u{301}\r\n")];
    Loose => [Loose(0), Loose(1)];
    Never => [Never(0), Never(1)];
    Parity => [Parity(0), Parity(1), Parity(2)];
    Aligned => [Aligned(0), Aligned(1)];
    Many => [Many::Nothing, Many::One(1), Many::Named { a: "x".into(), b: Some(Box::new(Many::Nothing)) }];
    Dropping => [Dropping(Box::new(1)), Dropping(Box::new(2))];
    fn(u8) -> u8 => [u8::count_zeros_u8];
}

trait Zeros {
    fn count_zeros_u8(self) -> u8;
}
impl Zeros for u8 {
    fn count_zeros_u8(self) -> u8 {
        self.count_zeros() as u8
    }
}

fn types() -> &'static [Ops] {
    static ALL: OnceLock<Vec<Ops>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = named();
        v.push(ops::<Opaque>());
        // two types of one name
        {
            #[derive(Debug, PartialEq)]
            struct Twin(u8);
            impl Menu for Twin {
                fn menu() -> Vec<Self> {
                    vec![Twin(0), Twin(1)]
                }
            }
            v.push(eq_ops::<Twin>());
        }
        {
            #[derive(Debug, PartialEq)]
            struct Twin(u8);
            impl Menu for Twin {
                fn menu() -> Vec<Self> {
                    vec![Twin(0), Twin(1)]
                }
            }
            v.push(eq_ops::<Twin>());
        }
        v
    })
}

/// every (type, value)
fn values() -> Vec<(usize, usize)> {
    types().iter().enumerate().flat_map(|(t, o)| (0..o.values).map(move |k| (t, k))).collect()
}

type Ann = (Rng, usize, usize);

fn show_anns(v: &Vec<Ann>) -> String {
    let t: Vec<String> = v.iter().map(|(r, t, k)| format!("{}: {}@[{}..{}]", types()[*t].name, (types()[*t].debug)(*k), r.0, r.1)).collect();
    format!("tokens \"ab\" \",\" <> annotated {}", t.join(", "))
}

fn base() -> Vec<In> {
    vec![In::Text("ab".into(), vec![]), In::Text(",".into(), vec![]), In::Custom(1, vec![Val::P(2)])]
}

/// One line with these annotations assigned, a run per annotation or per stretch of one type.
fn assigned(anns: &[Ann], together: bool) -> (LLLine, MLine) {
    let m = MLine::new(&base(), &|_: &str| 1);
    let mut l = real::line(&base(), |_| 1);
    let mut i = 0;
    while i < anns.len() {
        let mut j = i + 1;
        while together && j < anns.len() && anns[j].1 == anns[i].1 {
            j += 1;
        }
        let rs: Vec<Rng> = anns[i..j].iter().map(|a| a.0).collect();
        let ks: Vec<usize> = anns[i..j].iter().map(|a| a.2).collect();
        l = (types()[anns[i].1].assign)(l, &m, &rs, &ks);
        i = j;
    }
    (l, m)
}

/// Values of type `t`, by span in the order first annotated.
fn grouped(anns: &[Ann], t: usize) -> Vec<(Rng, Vec<usize>)> {
    let mut out: Vec<(Rng, Vec<usize>)> = Vec::new();
    for (r, ty, k) in anns {
        if *ty == t {
            match out.iter_mut().find(|(q, _)| q == r) {
                Some((_, v)) => v.push(*k),
                None => out.push((*r, vec![*k])),
            }
        }
    }
    out
}

fn listed(anns: &[Ann], t: usize, key: impl Fn(&Rng) -> usize) -> Found {
    let g = grouped(anns, t);
    let mut out = Vec::new();
    for i in 0..3 {
        for (r, v) in &g {
            if key(r) == i {
                out.extend(v.iter().map(|k| (*r, *k)));
            }
        }
    }
    out
}

fn differ<T: Debug>(o: &Ops, what: &str, want: T, got: T) -> Result<(), String> {
    Err(format!("{} of {}: expected {:?}, got {:?}", what, o.name, want, got))
}

type Check = fn(&[Ann], &LLLine, &MLine, &mut Ctx) -> Result<(), String>;

fn check_query(anns: &[Ann], l: &LLLine, m: &MLine, c: &mut Ctx) -> Result<(), String> {
    for (t, o) in types().iter().enumerate() {
        let want: Vec<(Rng, String, Vec<usize>)> = grouped(anns, t).into_iter().map(|(r, v)| (r, m.text(r), v)).collect();
        let got = (o.query)(l);
        if got != want {
            return differ(o, "query", want, got);
        }
        c.transitions += 1;
    }
    real::same_annotations(l, m)?;
    real::same_tokens(l, m)?;
    Ok(())
}

fn check_find(anns: &[Ann], l: &LLLine, _: &MLine, c: &mut Ctx) -> Result<(), String> {
    for (t, o) in types().iter().enumerate() {
        let open = |v: Found| -> Found { v.into_iter().map(|((a, b), k)| ((a, b + 1), k)).collect() };
        let list = listed(anns, t, |r| r.0);
        let want = open(list.clone());
        let got = (o.find)(l);
        if got != want {
            return differ(o, "search", want, got);
        }
        c.transitions += 1;
        let Some(e) = &o.eq else { continue };
        for k in 0..o.values {
            let want: Vec<Rng> = list.iter().filter(|x| (e.equal)(x.1, k)).map(|((a, b), _)| (*a, b + 1)).collect();
            let got = (e.find_eq)(l, k);
            if got != want {
                return differ(o, &format!("equality search for {}", (o.debug)(k)), want, got);
            }
            c.transitions += 1;
        }
        for set in 0..1usize << o.values {
            let ks: Vec<usize> = (0..o.values).filter(|k| set >> k & 1 == 1).collect();
            let want: Found = list.iter().filter(|(r, v)| r.0 == r.1 && ks.iter().any(|k| (e.equal)(*v, *k))).map(|((a, b), k)| ((*a, b + 1), *k)).collect();
            let got = (e.find_any)(l, &ks);
            if got != want {
                return differ(o, &format!("token_has_any {:?}", ks), want, got);
            }
            c.transitions += 1;
        }
    }
    Ok(())
}

fn with_selection(anns: &[Ann], together: bool, f: impl Fn(&real::Sels) -> Result<(), String>) -> Result<(), String> {
    let (l, m) = assigned(anns, together);
    let sels = real::Sels::new(real::full(l), &m)?;
    f(&sels)
}

fn same(sels: &real::Sels, got: &[(LLSelection, usize)], want: &[(Rng, usize)]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|((s, v), (r, w))| v == w && sels.is(s, *r))
}

fn names(sels: &real::Sels, got: &[(LLSelection, usize)]) -> Vec<(String, usize)> {
    got.iter().map(|(s, v)| (sels.show(s), *v)).collect()
}

fn check_back(anns: &[Ann], _: &LLLine, _: &MLine, c: &mut Ctx) -> Result<(), String> {
    with_selection(anns, true, |sels| {
        for (t, o) in types().iter().enumerate() {
            // two ways: starting at, then ending at each token
            let g = grouped(anns, t);
            let mut want: Found = Vec::new();
            for i in 0..3 {
                for (r, v) in g.iter().filter(|x| x.0 .0 == i) {
                    want.extend(v.iter().map(|k| (*r, *k)));
                }
                for (r, v) in g.iter().filter(|x| x.0 .1 == i) {
                    want.extend(v.iter().map(|k| (*r, *k)));
                }
            }
            let got = (o.both)(&sels.full);
            if !same(sels, &got, &want) {
                return Err(format!("two-way search of {}: expected {:?}, got {:?}", o.name, want, names(sels, &got)));
            }
            for i in 0..2 {
                let from = sels.get((i + 1, 2)).ok_or("no selection")?;
                let ends: Found = listed(anns, t, |r| if r.1 == i { 0 } else { 9 });
                let want: Found = ends.iter().map(|(r, k)| ((r.0, 2), *k)).collect();
                let got = (o.back)(&from);
                if !same(sels, &got, &want) {
                    return Err(format!("{} backwards from token {}: expected {:?}, got {:?}", o.name, i, want, names(sels, &got)));
                }
                let Some(e) = &o.eq else { continue };
                for k in 0..o.values {
                    let want: Vec<Rng> = ends.iter().filter(|x| (e.equal)(x.1, k)).map(|(r, _)| (r.0, 2)).collect();
                    let got = (e.back_eq)(&from, k);
                    if got.len() != want.len() || !got.iter().zip(&want).all(|(s, r)| sels.is(s, *r)) {
                        return Err(format!("{} equal to {} backwards from token {}: expected {:?}, got {:?}", o.name, (o.debug)(k), i, want, got));
                    }
                }
                for set in 0..1usize << o.values {
                    let ks: Vec<usize> = (0..o.values).filter(|k| set >> k & 1 == 1).collect();
                    let want: Found = ends.iter().filter(|(r, v)| r.0 == r.1 && ks.iter().any(|k| (e.equal)(*v, *k))).map(|(r, k)| ((r.0, 2), *k)).collect();
                    let got = (e.back_any)(&from, &ks);
                    if !same(sels, &got, &want) {
                        return Err(format!("{} in {:?} backwards from token {}: expected {:?}, got {:?}", o.name, ks, i, want, names(sels, &got)));
                    }
                }
            }
        }
        Ok(())
    })?;
    c.transitions += 8 * types().len() as u64;
    Ok(())
}

fn check_lookups(anns: &[Ann], l: &LLLine, m: &MLine, c: &mut Ctx) -> Result<(), String> {
    check_query(anns, l, m, c)?;
    for (t, o) in types().iter().enumerate() {
        let want: Found = listed(anns, t, |r| r.0).into_iter().map(|((a, b), k)| ((a, b + 1), k)).collect();
        let got = (o.find)(l);
        if got != want {
            return differ(o, "search", want, got);
        }
    }
    with_selection(anns, true, |sels| {
        for (t, o) in types().iter().enumerate() {
            for i in 0..2 {
                let from = sels.get((i + 1, 2)).ok_or("no selection")?;
                let want: Found = listed(anns, t, |r| if r.1 == i { 0 } else { 9 }).iter().map(|(r, k)| ((r.0, 2), *k)).collect();
                let got = (o.back)(&from);
                if !same(sels, &got, &want) {
                    return Err(format!("{} backwards from token {}: expected {:?}, got {:?}", o.name, i, want, names(sels, &got)));
                }
            }
        }
        Ok(())
    })
}

fn check_display(anns: &[Ann], l: &LLLine, m: &MLine, c: &mut Ctx) -> Result<(), String> {
    let texts = ["ab", ",", "<>"];
    let mut cols = Vec::new();
    let mut col = 0;
    for t in texts {
        let w = UnicodeWidthStr::width(t);
        cols.push((col, col + w));
        col += w + 2;
    }
    let mut used: Vec<usize> = Vec::new();
    for a in anns {
        if !used.contains(&a.1) {
            used.push(a.1);
        }
    }
    let first = used.first().copied().unwrap_or(0);
    // each type used, alone, together with the others in both orders, and with a type that is not there
    let unused = (0..types().len()).find(|t| !used.contains(t)).unwrap_or(0);
    let reversed: Vec<usize> = used.iter().rev().copied().collect();
    for inc in [used.clone(), reversed, vec![first], vec![unused, first, first], vec![unused]] {
        let mut want = texts.join("  ");
        for t in &inc {
            for (r, v) in grouped(anns, *t) {
                for k in v.iter().rev() {
                    let (from, to) = (cols[r.0].0, cols[r.1].1);
                    want.push('\n');
                    want.push_str(&" ".repeat(from));
                    want.push('╰');
                    if to - from > 1 {
                        want.push_str(&"─".repeat(to - from - 2));
                        want.push('╯');
                    }
                    want.push_str(&(types()[*t].debug)(*k));
                }
            }
        }
        let mut d = LLLineDisplay::new(l);
        for t in &inc {
            d = (types()[*t].with)(d);
        }
        let got = d.to_string();
        if got != want {
            return Err(format!("rendering\n--- expected\n{}\n--- got\n{}\n---", want, got));
        }
        c.transitions += 1;
    }
    check_query(anns, l, m, c).map_err(|e| format!("rendering changed the line: {}", e))
}

/// The spaces of one check over assigned annotations.
fn assigned_spaces(thorough: bool, check: Check, ranges_too: bool) -> Vec<Space> {
    let vals = values();
    let rs = ranges(3);
    let per = (vals.len() * rs.len()) as u64;
    let nv = vals.len() as u64;
    let note = format!("{} values of {} attribute types (zero-sized, large, over-aligned, nested, equal by other rules, two types of one name, ...)", nv, types().len());
    let run = move |(anns, together): &(Vec<Ann>, bool), c: &mut Ctx| -> Result<(), String> {
        let (l, m) = assigned(anns, *together);
        c.states += 1;
        check(anns, &l, &m, c)?;
        c.outcome(anns.iter().fold(5, |h, a| mix(mix(mix(h, a.1 as u64), a.2 as u64), (a.0 .0 * 8 + a.0 .1) as u64)));
        Ok(())
    };
    let show = |x: &(Vec<Ann>, bool)| show_anns(&x.0);
    let mut v = Vec::new();
    if ranges_too || thorough {
        let (vs, rs2) = (vals.clone(), rs.clone());
        v.push(Space::new(
            "attribute-types",
            &format!("all sequences of 0..=2 annotations over all ranges of 3 tokens and {}; all lookups of all types", note),
            seqs(per, 0, 2),
            move |i| {
                let anns = seq_at(per, 0, i).into_iter().map(|s| { let (t, k) = vs[s % vs.len()]; (rs2[s / vs.len()], t, k) }).collect();
                (anns, true)
            },
            show,
            run,
        ));
    }
    let few: Vec<(usize, usize)> = vals.iter().copied().filter(|(_, k)| thorough || *k < 2).collect();
    let nf = few.len() as u64;
    v.push(Space::new(
        "attribute-types-one-span",
        &format!("all sequences of {} annotations over {}, on one span or on nested ones", if thorough { "1..=3" } else { "1..=2 (and of 3, first and last of one type)" }, note),
        if thorough { seqs(nf, 1, 3) * 2 } else { (seqs(nf, 1, 2) + nf * nf * 2) * 2 },
        move |i| {
            let nested = i % 2 == 1;
            let i = i / 2;
            let s: Vec<(usize, usize)> = if thorough || i < seqs(nf, 1, 2) {
                seq_at(nf, 1, i).into_iter().map(|k| few[k]).collect()
            } else {
                let mut d = Dec(i - seqs(nf, 1, 2));
                let other = d.take(2) as usize;
                let (a, b) = (*d.pick(&few), *d.pick(&few));
                vec![a, b, (a.0, if other < types()[a.0].values { other } else { 0 })]
            };
            let anns = s.into_iter().enumerate().map(|(j, (t, k))| (if nested { [(1, 2), (0, 2), (1, 1)][j] } else { (0, 1) }, t, k)).collect();
            (anns, nested)
        },
        show,
        run,
    ));
    // many types at once
    let nt = types().len() as u64;
    v.push(Space::new(
        "many-types",
        &format!("1..={} types at once, from each of them on, on one token, on one span, or on all ranges in turn, values once or twice, in one run per type or per value", nt),
        nt * nt * 3 * 2 * 2,
        move |i| {
            let mut d = Dec(i);
            let together = d.take(2) == 1;
            let twice = d.take(2) == 1;
            let place = d.take(3);
            let first = d.take(nt) as usize;
            let n = d.0 as usize + 1;
            let rs = ranges(3);
            let mut anns: Vec<Ann> = Vec::new();
            for round in 0..1 + twice as usize {
                for k in 0..n {
                    let t = (first + k) % nt as usize;
                    let r = match place {
                        0 => (0, 0),
                        1 => (0, 2),
                        _ => rs[(k + round) % rs.len()],
                    };
                    anns.push((r, t, (k + round) % types()[t].values));
                }
            }
            (anns, together)
        },
        show,
        run,
    ));
    v
}

pub fn c05(thorough: bool) -> Vec<Space> {
    assigned_spaces(thorough, check_query, true)
}
pub fn c06(thorough: bool) -> Vec<Space> {
    assigned_spaces(thorough, check_lookups, true)
}
pub fn c07(thorough: bool) -> Vec<Space> {
    assigned_spaces(thorough, check_find, true)
}
pub fn c08(thorough: bool) -> Vec<Space> {
    assigned_spaces(thorough, check_back, true)
}
pub fn c15(thorough: bool) -> Vec<Space> {
    assigned_spaces(thorough, check_find, true)
}
pub fn c22(thorough: bool) -> Vec<Space> {
    assigned_spaces(thorough, check_display, true)
}

/// Layers of many types.
pub fn c24(thorough: bool) -> Vec<Space> {
    let mut v = assigned_spaces(thorough, check_lookups, false);
    v.retain(|s| s.name == "many-types");
    v
}

/// Supplied with the inputs, boxed or added one by one.
pub fn c04(thorough: bool) -> Vec<Space> {
    let vals = values();
    let nv = vals.len() as u64;
    let n = if thorough { 3 } else { 2 };
    vec![Space::new(
        "attribute-types",
        &format!("all lists of 0..={} values over {} values of {} attribute types, on a text of two tokens and on a custom token, boxed or added one by one", n, nv, types().len()),
        seqs(nv, 0, n) * 2,
        move |i| (seq_at(nv, 0, i / 2).into_iter().map(|k| vals[k]).collect::<Vec<_>>(), i % 2 == 1),
        |x: &(Vec<(usize, usize)>, bool)| format!("values {:?}, added one by one: {}", x.0.iter().map(|(t, k)| format!("{}: {}", types()[*t].name, (types()[*t].debug)(*k))).collect::<Vec<_>>(), x.1),
        |(vs, by_add), c| {
            // the values on the first input, and in reverse on the second
            let back: Vec<(usize, usize)> = vs.iter().rev().copied().collect();
            let make = |vs: &[(usize, usize)], custom: bool| {
                let attrs = |vs: &[(usize, usize)]| vs.iter().map(|(t, k)| (types()[*t].any)(*k)).collect::<Vec<_>>();
                let start = if *by_add { Vec::new() } else { attrs(vs) };
                let mut i = if custom { InputToken::custom(1, start) } else { InputToken::text("ab,".into(), start) };
                if *by_add {
                    for (t, k) in vs {
                        (types()[*t].add)(&mut i, *k);
                    }
                }
                i
            };
            let l = create_line_from_input_tokens(vec![make(vs, false), make(&back, true)], |_| 1);
            let mut anns: Vec<Ann> = vs.iter().map(|(t, k)| ((0, 1), *t, *k)).collect();
            anns.extend(back.iter().map(|(t, k)| ((2, 2), *t, *k)));
            let mut ins = base();
            ins[2] = In::Custom(1, vec![]);
            let m = MLine::new(&ins, &|_: &str| 1);
            c.states += 1;
            check_query(&anns, &l, &m, c)?;
            c.outcome(anns.iter().fold(4, |h, a| mix(mix(h, a.1 as u64), a.2 as u64)));
            Ok(())
        },
    )]
}

pub fn c25(thorough: bool) -> Vec<Space> {
    let vals = values();
    let nv = vals.len() as u64;
    let nt = types().len() as u64;
    let n = if thorough { 3 } else { 2 };
    // attached, boxed or as the plain value
    let mut v = c04(false);
    v[0].name = "attached".into();
    v.push(Space::new(
        "attribute-types",
        &format!("each of {} values of {} types x all sequences of 0..={} extraction attempts over all types (and runs of up to 40), then as its own", nv, nt, n),
        nv * (seqs(nt, 0, n) + 2 * 40),
        move |i| {
            let mut d = Dec(i);
            let v = *d.pick(&vals);
            let short = seqs(nt, 0, n);
            if d.0 < short {
                return (v, seq_at(nt, 0, d.0));
            }
            // long runs of attempts as one type or as all in turn
            let k = (d.0 - short) as usize;
            let other = |j: usize| (v.0 + 1 + j % (nt as usize - 1)) % nt as usize;
            (v, (0..=k / 2).map(|j| other(if k % 2 == 0 { 0 } else { j })).collect())
        },
        |x: &((usize, usize), Vec<usize>)| format!("{}: {} extracted as {:?}", types()[x.0 .0].name, (types()[x.0 .0].debug)(x.0 .1), x.1.iter().map(|t| types()[*t].name).collect::<Vec<_>>()),
        |((t, k), attempts), c| {
            let o = &types()[*t];
            let mut a = (o.any)(*k);
            c.states += 1;
            for (at, last) in attempts.iter().map(|t| (*t, false)).chain([(*t, true)]) {
                if a.type_id() != o.id {
                    return Err("reports another type than it was made from".into());
                }
                if last {
                    // its own type now; and on a line, what the plain value gives
                    let l = create_line_from_input_tokens(vec![InputToken::custom(1, vec![a])], |_| 1);
                    let got = (o.query)(&l);
                    if got != vec![((0, 0), String::new(), vec![*k])] {
                        return Err(format!("attached to an input, {} gives {:?}", o.name, got));
                    }
                    a = (o.any)(*k);
                }
                c.transitions += 1;
                match ((types()[at].extract)(a), at == *t) {
                    (Ok(v), true) if v == *k => {
                        c.outcome(mix(*t as u64, *k as u64));
                        return Ok(());
                    }
                    (Ok(v), true) => return Err(format!("{} gave back value {} of its menu, put in {}", o.name, v, k)),
                    (Ok(_), false) => return Err(format!("a {} was extracted as {}", o.name, types()[at].name)),
                    (Err(_), true) => return Err(format!("a {} refused to be extracted as its own type", o.name)),
                    (Err(b), false) => a = b,
                }
            }
            Ok(())
        },
    ));
    v
}
