//! C27: attribute values live exactly as long as what carries them.

use crate::engine::*;
use crate::real::by;
use layered_nlp::{
    create_line_from_input_tokens, x, AnyAttribute, InputToken, LLLine, LLLineDisplay, LLSelection, TextMatchAssignResolver,
};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

/// A counted value with an identity.
#[derive(Debug)]
struct One<const PAD: usize> {
    id: u32,
    live: Arc<AtomicI64>,
    #[allow(dead_code)]
    pad: [u64; PAD],
}

impl<const PAD: usize> Drop for One<PAD> {
    fn drop(&mut self) {
        self.live.fetch_sub(1, SeqCst);
    }
}

thread_local! {
    static EMPTIES: Cell<i64> = const { Cell::new(0) };
}

/// A counted value without size.
#[derive(Debug)]
struct Empty;

impl Drop for Empty {
    fn drop(&mut self) {
        EMPTIES.with(|c| c.set(c.get() - 1));
    }
}

trait Counted: Debug + Send + Sync + 'static {
    /// Whether values can be counted across threads.
    const ANY_THREAD: bool;
    fn make(id: u32, live: &Arc<AtomicI64>) -> Self;
    fn id(&self) -> u32;
    fn live(live: &Arc<AtomicI64>) -> i64;
}

impl<const PAD: usize> Counted for One<PAD> {
    const ANY_THREAD: bool = true;
    fn make(id: u32, live: &Arc<AtomicI64>) -> Self {
        live.fetch_add(1, SeqCst);
        One { id, live: live.clone(), pad: [7; PAD] }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn live(live: &Arc<AtomicI64>) -> i64 {
        live.load(SeqCst)
    }
}

impl Counted for Empty {
    const ANY_THREAD: bool = false;
    fn make(_: u32, _: &Arc<AtomicI64>) -> Self {
        EMPTIES.with(|c| c.set(c.get() + 1));
        Empty
    }
    fn id(&self) -> u32 {
        0
    }
    fn live(_: &Arc<AtomicI64>) -> i64 {
        EMPTIES.with(|c| c.get())
    }
}

/// A value type that is counted elsewhere, boxed once more.
#[derive(Debug)]
struct Held<T>(Box<T>);

impl<T: Counted> Counted for Held<T> {
    const ANY_THREAD: bool = T::ANY_THREAD;
    fn make(id: u32, live: &Arc<AtomicI64>) -> Self {
        Held(Box::new(T::make(id, live)))
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
    fn live(live: &Arc<AtomicI64>) -> i64 {
        T::live(live)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    BuildText,
    BuildMixed,
    BuildBare,
    BuildNothing,
    BuildEmptyText,
    BuildPanics,
    UnusedInputs,
    RunOne,
    RunMany,
    RunWords,
    RunNothing,
    RunDiscards,
    RunPanics,
    RunOtherType,
    Read,
    Select,
    Nest,
    OtherThread,
    DropThere,
    Extract,
    ExtractWrong,
    Drop,
}

const STEPS: &[Step] = &[
    Step::BuildText,
    Step::BuildMixed,
    Step::BuildBare,
    Step::BuildNothing,
    Step::BuildEmptyText,
    Step::BuildPanics,
    Step::UnusedInputs,
    Step::RunOne,
    Step::RunMany,
    Step::RunWords,
    Step::RunNothing,
    Step::RunDiscards,
    Step::RunPanics,
    Step::RunOtherType,
    Step::Read,
    Step::Select,
    Step::Nest,
    Step::OtherThread,
    Step::DropThere,
    Step::Extract,
    Step::ExtractWrong,
    Step::Drop,
];

struct State<V> {
    line: Option<LLLine>,
    /// the spans of the line with the values' numbers, as the model has them; a span of one input or of all tokens
    values: Vec<((usize, usize), Vec<u32>)>,
    tokens: usize,
    words: Vec<usize>,
    next: u32,
    live: Arc<AtomicI64>,
    of: std::marker::PhantomData<V>,
}

fn quietly<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

impl<V: Counted> State<V> {
    fn new_id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn values(&mut self, n: usize) -> (Vec<u32>, Vec<V>) {
        let ids: Vec<u32> = (0..n).map(|_| self.new_id()).collect();
        let vs = ids.iter().map(|i| V::make(*i, &self.live)).collect();
        (ids, vs)
    }
    fn note(&mut self, r: (usize, usize), ids: &[u32]) {
        match self.values.iter_mut().find(|(q, _)| *q == r) {
            Some((_, v)) => v.extend(ids),
            None => self.values.push((r, ids.to_vec())),
        }
    }
    fn count(&self) -> i64 {
        self.values.iter().map(|(_, v)| v.len() as i64).sum()
    }
    fn lose(&mut self) {
        self.values.clear();
        self.tokens = 0;
        self.words.clear();
    }
    fn build(&mut self, inputs: Vec<InputToken>, tokens: usize, words: &[usize], values: Vec<((usize, usize), Vec<u32>)>) {
        // the new line is there before the old one goes
        self.line = Some(create_line_from_input_tokens(inputs, |s| s.len()));
        self.tokens = tokens;
        self.words = words.to_vec();
        self.values.clear();
        for (r, v) in values {
            self.note(r, &v);
        }
    }
    fn boxed(vs: Vec<V>) -> Vec<AnyAttribute> {
        vs.into_iter().map(AnyAttribute::new).collect()
    }
    fn step(&mut self, s: Step) -> Result<(), String> {
        match s {
            Step::BuildText => {
                let (ids, vs) = self.values(2);
                self.build(vec![InputToken::text("a b".into(), Self::boxed(vs))], 3, &[0, 2], vec![((0, 2), ids)]);
            }
            Step::BuildMixed => {
                let (i, v) = self.values(1);
                let (j, w) = self.values(3);
                let mut last = InputToken::text("x, y".into(), vec![AnyAttribute::new(5u8)]);
                let (k, u) = self.values(1);
                for u in u {
                    last.add_attr(u);
                }
                self.build(
                    vec![InputToken::text("w".into(), Self::boxed(v)), InputToken::custom(2, Self::boxed(w)), last],
                    6,
                    &[0, 2, 5],
                    vec![((0, 0), i), ((1, 1), j), ((2, 5), k)],
                );
            }
            Step::BuildBare => self.build(vec![InputToken::text("q".into(), vec![])], 1, &[0], vec![]),
            Step::BuildNothing => self.build(vec![], 0, &[], vec![]),
            Step::BuildEmptyText => {
                // refused or not: nothing is kept
                let (_, v) = self.values(2);
                let (_, w) = self.values(1);
                drop(quietly(|| {
                    create_line_from_input_tokens(
                        vec![InputToken::text("a".into(), Self::boxed(v)), InputToken::text(String::new(), Self::boxed(w))],
                        |s| s.len(),
                    )
                }));
            }
            Step::BuildPanics => {
                let (_, v) = self.values(2);
                let (_, w) = self.values(2);
                drop(quietly(|| {
                    create_line_from_input_tokens(
                        vec![InputToken::text("a b".into(), Self::boxed(v)), InputToken::text("stop".into(), Self::boxed(w))],
                        |s| if s == "stop" { panic!("measure") } else { s.len() },
                    )
                }));
            }
            Step::UnusedInputs => {
                let (_, v) = self.values(2);
                let mut t = InputToken::text("a".into(), Self::boxed(v));
                let (_, w) = self.values(1);
                for w in w {
                    t.add_attr(w);
                }
                drop(t);
            }
            Step::RunOne | Step::RunMany | Step::RunWords | Step::RunNothing | Step::RunDiscards | Step::RunPanics | Step::RunOtherType => {
                let Some(line) = self.line.take() else { return Ok(()) };
                let n = self.tokens;
                let live = self.live.clone();
                let from = self.next;
                let seen = Cell::new(0u32);
                let make = |k: u32| {
                    seen.set(seen.get().max(k));
                    V::make(from + k, &live)
                };
                let line = match s {
                    Step::RunOne => Some(line.run(&by::<V, _>(|sel| vec![sel.finish_with_attr(make(1))]))),
                    Step::RunMany => Some(line.run(&by::<V, _>(|sel| (1..=40).map(|k| sel.finish_with_attr(make(k))).collect()))),
                    Step::RunWords => Some(line.run(&by::<V, _>(|sel| {
                        sel.find_by(&x::attr_eq(&layered_nlp::TextTag::WORD))
                            .into_iter()
                            .enumerate()
                            .map(|(k, (s, ()))| s.finish_with_attr(make(k as u32 + 1)))
                            .collect()
                    }))),
                    Step::RunNothing => Some(line.run(&by::<V, _>(|_| vec![]))),
                    Step::RunDiscards => Some(line.run(&by::<V, _>(|sel| {
                        let made: Vec<_> = (1..=3).map(|k| sel.finish_with_attr(make(k))).collect();
                        drop(made);
                        vec![]
                    }))),
                    Step::RunPanics => quietly(|| {
                        line.run(&by::<V, _>(|sel| {
                            let made: Vec<_> = (1..=2).map(|k| sel.finish_with_attr(make(k))).collect();
                            let twin = sel.clone();
                            if made.len() == 2 && twin == sel {
                                panic!("resolver");
                            }
                            made
                        }))
                    }),
                    _ => Some(line.run(&by::<u8, _>(|sel| vec![sel.finish_with_attr(1), sel.finish_with_attr(2)]))),
                };
                self.next += seen.get();
                self.line = line;
                match s {
                    Step::RunOne if n > 0 => self.note((0, n - 1), &[from + 1]),
                    Step::RunMany if n > 0 => self.note((0, n - 1), &(1..=40).map(|k| from + k).collect::<Vec<_>>()),
                    Step::RunWords => {
                        for (k, w) in self.words.clone().into_iter().enumerate() {
                            self.note((w, w), &[from + 1 + k as u32]);
                        }
                    }
                    Step::RunPanics if n > 0 => self.lose(),
                    _ => {}
                }
            }
            Step::Read => {
                let Some(l) = &self.line else { return Ok(()) };
                let found = l.find(&x::attr::<V>());
                let all = l.find(&x::seq((x::attr::<V>(), x::any_of((x::attr::<V>(), x::token_text())))));
                let q = l.query::<V>();
                let mut d = LLLineDisplay::new(l);
                d.include::<V>();
                d.include::<V>();
                let shown = format!("{}", d);
                drop((found, all, q, shown));
            }
            Step::Select => {
                let Some(l) = self.line.take() else { return Ok(()) };
                let rc = Rc::new(l);
                if let Some(full) = LLSelection::from_line(rc.clone()) {
                    let all = full.find_by(&x::attr::<V>());
                    let sels: Vec<LLSelection> = all.iter().map(|(s, _)| s.clone()).collect();
                    let pieces = full.split_by(&x::attr::<V>());
                    let wider: Vec<_> = sels.iter().flat_map(|s| s.match_forwards(&x::attr::<V>())).map(|(s, _)| s).collect();
                    let trimmed = full.trim(&x::attr::<V>());
                    let rest: Vec<_> = sels.iter().map(|s| (s.after(), full.split_with(s))).collect();
                    drop((pieces, wider, trimmed, rest));
                }
                match Rc::try_unwrap(rc) {
                    Ok(l) => self.line = Some(l),
                    Err(_) => return Err("a selection outlives its last user: the line cannot be taken back".into()),
                }
            }
            Step::Nest => {
                // another line is built, annotated, read and dropped inside a resolver
                let Some(line) = self.line.take() else { return Ok(()) };
                let live = self.live.clone();
                let base = self.next;
                let ran = self.tokens > 0;
                let l = line.run(&by::<V, _>(|sel| {
                    let inner = create_line_from_input_tokens(
                        vec![InputToken::text("p q".into(), vec![AnyAttribute::new(V::make(base + 1, &live))])],
                        |s| s.len(),
                    );
                    let inner = inner.run(&by::<V, _>(|s| vec![s.finish_with_attr(V::make(base + 2, &live))]));
                    let n: usize = inner.query::<V>().iter().map(|(_, _, v)| v.len()).sum();
                    drop(inner);
                    vec![sel.finish_with_attr(V::make(base + 1 + n as u32, &live))]
                }));
                self.line = Some(l);
                if ran {
                    self.next += 3;
                    self.note((0, self.tokens - 1), &[base + 3]);
                }
            }
            Step::OtherThread => {
                let Some(l) = self.line.take() else { return Ok(()) };
                if !V::ANY_THREAD {
                    self.line = Some(l);
                    return Ok(());
                }
                let live = self.live.clone();
                let id = self.next + 1;
                let l = std::thread::scope(|s| {
                    s.spawn(|| l.run(&by::<V, _>(|sel| vec![sel.finish_with_attr(V::make(id, &live))]))).join().map_err(|_| "the other thread panicked".to_string())
                })?;
                self.line = Some(l);
                if self.tokens > 0 {
                    self.next += 1;
                    self.note((0, self.tokens - 1), &[id]);
                }
            }
            Step::DropThere => {
                let Some(l) = self.line.take() else { return Ok(()) };
                if V::ANY_THREAD {
                    std::thread::scope(|s| s.spawn(|| drop(l)).join().map_err(|_| "the other thread panicked".to_string()))?;
                } else {
                    drop(l);
                }
                self.lose();
            }
            Step::Extract => {
                let id = self.new_id();
                let before = V::live(&self.live);
                let a = AnyAttribute::new(V::make(id, &self.live));
                let v: V = a.extract::<V>().map_err(|_| "extracting as the own type fails".to_string())?;
                if V::live(&self.live) != before + 1 {
                    return Err("an extracted value is not alive, or is there twice".into());
                }
                drop(v);
            }
            Step::ExtractWrong => {
                let id = self.new_id();
                let before = V::live(&self.live);
                let mut a = AnyAttribute::new(V::make(id, &self.live));
                macro_rules! wrong {
                    ($($t:ty),*) => {$(
                        a = match a.extract::<$t>() {
                            Ok(_) => return Err("extracted as another type".into()),
                            Err(a) => a,
                        };
                        if V::live(&self.live) != before + 1 {
                            return Err("a failed extraction does not keep the value alive".into());
                        }
                        if a.type_id() != std::any::TypeId::of::<V>() {
                            return Err("after a failed extraction the attribute is of another type".into());
                        }
                    )*};
                }
                // larger and smaller types, types without size, borrowed and shared ones, containers of the own type
                wrong!(String, String, u8, (), bool, [u64; 0], [u64; 3], [u64; 300], &'static str, Rc<V>, Box<V>, Vec<V>, Option<V>, (V,), Cell<u8>, fn(), Held<u8>, AnyAttribute, String);
                if V::live(&self.live) != before + 1 {
                    return Err("failed extractions do not keep the value alive".into());
                }
                if self.next % 2 == 0 {
                    let v: V = a.extract::<V>().map_err(|_| "after failed extractions, extracting as the own type fails".to_string())?;
                    let is = v.id();
                    drop(v);
                    if is != 0 && is != id {
                        return Err("after failed extractions another value is extracted".into());
                    }
                    return Ok(());
                }
                drop(a);
            }
            Step::Drop => {
                self.line = None;
                self.lose();
            }
        }
        Ok(())
    }
    fn check(&self, zero: i64) -> Result<(), String> {
        let want = self.count();
        let got = V::live(&self.live) - zero;
        if got != want {
            return Err(format!("{} values are alive, the line carries {}", got, want));
        }
        if let Some(l) = &self.line {
            let q: Vec<((usize, usize), Vec<u32>)> = l.query::<V>().into_iter().map(|(r, _, v)| (r, v.into_iter().map(|x| x.id()).collect())).collect();
            let mut w = self.values.clone();
            if !V::ANY_THREAD && std::mem::size_of::<V>() <= 8 {
                for (_, v) in w.iter_mut() {
                    v.iter_mut().for_each(|x| *x = 0);
                }
            }
            if q != w {
                return Err(format!("the line carries {:?}, expected {:?}", q, w));
            }
        } else if want != 0 {
            return Err("model: values without a line".into());
        }
        Ok(())
    }
}

fn history<V: Counted>(steps: &[Step], c: &mut Ctx) -> Result<(), String> {
    let live = Arc::new(AtomicI64::new(0));
    let zero = V::live(&live);
    let mut s = State::<V> {
        line: None,
        values: Vec::new(),
        tokens: 0,
        words: Vec::new(),
        next: 0,
        live: live.clone(),
        of: std::marker::PhantomData,
    };
    let mut h = 0;
    for (i, step) in steps.iter().enumerate() {
        s.step(*step).and_then(|()| s.check(zero)).map_err(|e| format!("after step {} ({:?}) of {:?}: {}", i + 1, step, steps, e))?;
        c.transitions += 1;
        h = mix(h, s.count() as u64 + 1);
    }
    drop(s.line.take());
    if V::live(&live) != zero {
        return Err(format!("after everything was dropped, {} values are still alive ({:?})", V::live(&live) - zero, steps));
    }
    c.states += 1;
    c.outcome(h);
    Ok(())
}

const TYPES: &[&str] = &["a counted value", "a large counted value", "a counted value without size", "a boxed counted value"];

fn of_type(t: usize, steps: &[Step], c: &mut Ctx) -> Result<(), String> {
    match t {
        0 => history::<One<0>>(steps, c),
        1 => history::<One<200>>(steps, c),
        2 => history::<Empty>(steps, c),
        _ => history::<Held<One<1>>>(steps, c),
    }
}

/// Threads take time; histories with many of them are kept for the thorough tier.
fn threads(steps: &[Step]) -> usize {
    steps.iter().filter(|s| matches!(s, Step::OtherThread | Step::DropThere)).count()
}

/// A value counted when cloned, too: text lookup copies its values.
#[derive(Debug)]
struct Copied(Arc<AtomicI64>);
impl Clone for Copied {
    fn clone(&self) -> Self {
        self.0.fetch_add(1, SeqCst);
        Copied(self.0.clone())
    }
}
impl Drop for Copied {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

pub fn c27(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let k = STEPS.len() as u64;
    let max = if thorough { 5 } else { 4 };
    v.push(Space::new(
        "histories",
        &format!("all histories of 1..={} steps over {} steps ({:?}), the values alive counted after every step", max, k, STEPS),
        seqs(k, 1, max),
        move |i| seq_at(k, 1, i).into_iter().map(|j| STEPS[j]).collect::<Vec<Step>>(),
        |s: &Vec<Step>| format!("history {:?}", s),
        move |s, c| if threads(s) > 1 && s.len() as u32 == max { Ok(()) } else { of_type(0, s, c) },
    ));
    let deep = if thorough { 4 } else { 3 };
    v.push(Space::new(
        "value-types",
        &format!("all histories of 1..={} steps with {:?}", deep, &TYPES[1..]),
        seqs(k, 1, deep) * 3,
        move |i| (1 + (i % 3) as usize, seq_at(k, 1, i / 3).into_iter().map(|j| STEPS[j]).collect::<Vec<Step>>()),
        |x: &(usize, Vec<Step>)| format!("{}, history {:?}", TYPES[x.0], x.1),
        move |(t, s), c| if threads(s) > 1 && s.len() as u32 == deep { Ok(()) } else { of_type(*t, s, c) },
    ));
    let ns: Vec<usize> = vec![7, 33, 100];
    let nn = ns.len() as u64;
    v.push(Space::new(
        "long-histories",
        &format!("every pair of steps repeated {:?} times, four value types", ns),
        nn * k * k * 4,
        move |i| {
            let mut d = Dec(i);
            let t = d.take(4) as usize;
            let (a, b) = (*d.pick(STEPS), *d.pick(STEPS));
            (t, a, b, ns[d.0 as usize])
        },
        |x: &(usize, Step, Step, usize)| format!("{}, {:?} and {:?}, {} times", TYPES[x.0], x.1, x.2, x.3),
        |(t, a, b, n), c| {
            let pair = [Step::BuildMixed, *a, *b];
            if threads(&pair) > 0 && *n > 20 {
                return Ok(());
            }
            let mut s = vec![Step::BuildMixed];
            for _ in 0..*n {
                s.push(*a);
                s.push(*b);
            }
            of_type(*t, &s, c)
        },
    ));
    v.push(Space::new(
        "text-lookup",
        "text lookup with 0..=3 keys x 0..=3 values x three constructors x 0..=3 runs over a line with two matches per key, line or resolver dropped first",
        4 * 4 * 3 * 4 * 2,
        |i| {
            let mut d = Dec(i);
            [d.take(4), d.take(4), d.take(3), d.take(4), d.take(2)]
        },
        |x| format!("keys, values, constructor, runs, order {:?}", x),
        |[keys, values, ctor, runs, order], c| {
            let live = Arc::new(AtomicI64::new(0));
            let value = || {
                live.fetch_add(1, SeqCst);
                Copied(live.clone())
            };
            let names = ["one", "Two", "thRee"];
            let r = if *ctor == 2 {
                match keys {
                    0 => TextMatchAssignResolver::new_case_insensitive_str_arr::<0>([]),
                    1 => TextMatchAssignResolver::new_case_insensitive_str_arr([(names[0], value())]),
                    2 => TextMatchAssignResolver::new_case_insensitive_str_arr([(names[0], value()), (names[1], value())]),
                    _ => TextMatchAssignResolver::new_case_insensitive_str_arr([(names[0], value()), (names[1], value()), (names[2], value())]),
                }
            } else {
                let map: HashMap<String, Vec<Copied>> =
                    names[..*keys as usize].iter().map(|k| (k.to_string(), (0..*values).map(|_| value()).collect())).collect();
                if *ctor == 0 {
                    TextMatchAssignResolver::new(map)
                } else {
                    TextMatchAssignResolver::new_case_insensitive(map)
                }
            };
            let mut l = create_line_from_input_tokens(vec![InputToken::text("one Two thRee, thRee one Two".into(), vec![])], |s| s.len());
            for _ in 0..*runs {
                l = l.run(&r);
            }
            let per = if *ctor == 2 { 1 } else { *values };
            let on_line = (keys * per * runs * 2) as i64;
            let listed: usize = l.query::<Copied>().iter().map(|(_, _, v)| v.len()).sum();
            if listed as i64 != on_line {
                return Err(format!("the line carries {} values, expected {}", listed, on_line));
            }
            c.states += 1;
            c.transitions += 2 + runs;
            if *order == 0 {
                drop(r);
                let n = live.load(SeqCst);
                if n != on_line {
                    return Err(format!("without the resolver {} values are alive, the line carries {}", n, on_line));
                }
                drop(l);
            } else {
                drop(l);
                drop(r);
            }
            c.outcome(mix(on_line as u64, *ctor));
            match live.load(SeqCst) {
                0 => Ok(()),
                n => Err(format!("after line and resolver were dropped, {} values are still alive", n)),
            }
        },
    ));
    v
}
