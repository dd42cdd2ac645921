//! C23 isolation of lines, C24 layers.

use crate::engine::*;
use crate::families::*;
use crate::model::*;
use crate::real;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::{x, FinishWith, LLLine, LLLineDisplay, LLSelection, LToken, TextMatchAssignResolver, TextTag};
use layered_part_of_speech::{POSTagResolver, Tag};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::OnceLock;

fn bytes(s: &str) -> usize {
    s.len()
}

// ---- pipelines ------------------------------------------------------------------------------------

/// Inputs chosen to collide: same texts in other casings, the same texts with other attributes, the
/// same token count with other texts, prefixes of each other.
fn inputs(i: usize) -> Vec<In> {
    match i {
        0 => vec![In::Text("If it rains, then pay $1,000.50 and run.".into(), vec![])],
        1 => vec![In::Text("IF IT RAINS, THEN PAY $1,000.50 AND RUN.".into(), vec![Val::A(7)])],
        2 => vec![In::Text("If it rains, then pay $1,000.51 and run.".into(), vec![Val::A(1), Val::A(2)])],
        3 => vec![In::Text("Run if 1".into(), vec![Val::B(1)]), In::Custom(4, vec![Val::A(3)]), In::Text("run IF 1".into(), vec![])],
        4 => vec![In::Text("run".into(), vec![])],
        5 => vec![In::Text("Run".into(), vec![Val::A(4)]), In::Text("run".into(), vec![Val::A(5)])],
        6 => vec![In::Custom(2, vec![]), In::Custom(0, vec![Val::A(6)])],
        7 => vec![In::Text("1.5".into(), vec![]), In::Text(" 1,5 カ".into(), vec![Val::Char('z')])],
        8 => vec![],
        _ => MORE[i - LINES].iter().map(|p| match p {
            (t, a) if t.is_empty() => In::Custom(*a as usize, vec![Val::A(*a)]),
            (t, 0) => In::Text(t.to_string(), vec![]),
            (t, a) => In::Text(t.to_string(), vec![Val::A(*a)]),
        }).collect(),
    }
}
pub const LINES: usize = 9;
pub const ALL: usize = LINES + MORE.len();

/// More lines for the spaces over pairs: every word class, in several casings, joined and split differently,
/// long and short, with and without attributes. An empty text is a custom token.
const MORE: &[&[(&str, u8)]] = &[
    &[("déjà vu, naïveté élan", 0)],
    &[("DÉJÀ VU, NAÏVETÉ ÉLAN", 1)],
    &[("Déjà Vu; Naïveté Élan 2", 2)],
    &[("straße STRASSE Straße ẞ ﬁn İstanbul istanbul ıI", 0)],
    &[("ПРИВЕТ привет Привет ΣΟΦΟΣ σοφος σοφοσ", 0)],
    &[("漢字カタカナ 漢字 ひらがな 한국어 한국", 3)],
    &[("カタカナ漢字 ٣٤٥ ३४५ 345 ３４５", 0)],
    &[("😀😀 👨\u{200d}👩\u{200d}👧 🇫🇷🇩🇪 1\u{fe0f}\u{20e3} e\u{301}té été", 0)],
    &[("don't walk's Don't WALK'S dont walks they're", 0)],
    &[("it's 'tis o'clock I'll can't cannot", 4)],
    &[("antidisestablishmentarianism Antidisestablishmentarianism ANTIDISESTABLISHMENTARIANISM", 0)],
    &[("abcd", 0)],
    &[("ab", 0), ("cd", 0)],
    &[("ab cd", 0)],
    &[("ab", 1), (" ", 2), ("cd", 3)],
    &[("abcd", 9)],
    &[("ab", 0), ("", 2), ("cd", 0)],
    &[("", 2), ("", 3), ("", 2)],
    &[("   \t \n  ", 0)],
    &[("\n", 0), (" ", 5)],
    &[(".,;:!?'\"-_()[]{}<>", 0)],
    &[("...,,,!!!???", 0)],
    &[("1 12 123 1234 12345 123456789 00012 0", 0)],
    &[("1,234.56 1.234,56 1'234.5 1 234,5 12a a12", 0)],
    &[("$1,000.50 €2 £3.5 4¥ 5% 6€7", 0)],
    &[("if and then if then and if", 0)],
    &[("IF AND THEN If Then And run Run RUN", 6)],
    &[("If the sun shines, then run and walk. If not, stay.", 0)],
    &[("when the sun shines, run, walk then stay and rest", 0)],
    &[("a", 0)],
    &[("A", 0)],
    &[("a", 7)],
    &[("1", 0)],
    &[("a b c d e f g h i j k l m n o p q r s t u v w x y z", 0)],
    &[("run run run run run run run run run run run run run run run run", 0)],
    &[("the quick brown fox jumps over the lazy dog", 0)],
    &[("The Quick Brown Fox Jumps Over The Lazy Dog", 8)],
];
/// Steps of a pipeline after building: four resolver layers with reads between them.
pub const STEPS: usize = 5;

/// How a line is built or processed: variant changes the measure and the resolver configuration.
fn measure(variant: usize) -> fn(&str) -> usize {
    match variant % 3 {
        0 => |s| s.len(),
        1 => |s| s.chars().count(),
        _ => |_| 2,
    }
}
pub const VARIANTS: usize = 3;

pub struct Kit {
    amount: AmountResolver,
    keywords: ClauseKeywordResolver,
    clauses: ClauseResolver,
    tags: POSTagResolver,
    texts: TextMatchAssignResolver<u16>,
}

impl Kit {
    fn new(variant: usize) -> Kit {
        let mut map = HashMap::new();
        map.insert("run".to_string(), vec![1u16, 2]);
        map.insert("if".to_string(), vec![3u16 + variant as u16]);
        Kit {
            amount: match variant % 3 {
                0 => AmountResolver::english(),
                1 => AmountResolver::french(),
                _ => AmountResolver::new(vec![], ','),
            },
            keywords: match variant % 3 {
                0 => ClauseKeywordResolver::new(&["if"], &["and"], &["then"]),
                1 => ClauseKeywordResolver::new(&["then"], &["if"], &["and"]),
                _ => ClauseKeywordResolver::new(&["run"], &[], &[]),
            },
            clauses: ClauseResolver::default(),
            tags: POSTagResolver::default(),
            texts: if variant % 2 == 0 { TextMatchAssignResolver::new(map) } else { TextMatchAssignResolver::new_case_insensitive(map) },
        }
    }
}

fn build(line: usize, variant: usize) -> LLLine {
    real::line(&inputs(line), measure(variant))
}

fn apply(l: LLLine, step: usize, kit: &Kit) -> LLLine {
    match step {
        0 => l.run(&kit.amount),
        1 => l.run(&kit.keywords),
        2 => l.run(&kit.clauses),
        3 => l.run(&kit.tags).run(&kit.texts),
        _ => l.run(&real::by::<A, _>(|s| s.find_by(&x::attr::<char>()).finish_with(|c| A((*c as u32 % 100) as u8)))),
    }
}

/// Everything that can be read from a line.
pub fn snapshot(l: &LLLine) -> String {
    let mut o = String::new();
    for t in l.ll_tokens() {
        match t.get_token() {
            LToken::Text(s, tag) => write!(o, "[{} {:?}]", s, tag).unwrap(),
            LToken::Value => o.push_str("[<>]"),
        }
    }
    macro_rules! q {
        ($($t:ty),*) => { $(
            write!(o, "\n{}: {:?}", stringify!($t), l.query::<$t>()).unwrap();
            write!(o, " / {:?}", l.find(&x::attr::<$t>())).unwrap();
        )* };
    }
    q!(char, TextTag, A, B, u16, String, Amount, ClauseKeyword, Clause, Tag);
    write!(o, "\nfound {:?}", l.find(&x::token_text())).unwrap();
    write!(o, "\nseq {:?}", l.find(&x::seq((x::token_text(), x::attr::<char>())))).unwrap();
    write!(
        o,
        "\n{}",
        LLLineDisplay::new(l).with::<TextTag>().with::<A>().with::<Amount>().with::<ClauseKeyword>().with::<Clause>().with::<Tag>().with::<u16>()
    )
    .unwrap();
    o
}

/// The snapshots after building and after each step, one after the other, in this process.
pub fn alone(line: usize, variant: usize) -> Vec<String> {
    let kit = Kit::new(variant);
    let mut l = build(line, variant);
    let mut v = vec![snapshot(&l)];
    for s in 0..STEPS {
        l = apply(l, s, &kit);
        v.push(snapshot(&l));
    }
    v
}

/// The same, each pipeline in a process of its own (`mc snapshot LINE VARIANT`), so that nothing else
/// can have happened before. Hashes only.
fn baseline() -> Result<&'static Vec<Vec<u64>>, String> {
    static B: OnceLock<Result<Vec<Vec<u64>>, String>> = OnceLock::new();
    B.get_or_init(|| {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut all = Vec::new();
        // every pipeline in a process of its own, eight at a time
        let ids: Vec<(usize, usize)> = (0..ALL).flat_map(|l| (0..VARIANTS).map(move |v| (l, v))).collect();
        for group in ids.chunks(8) {
            let kids: Vec<_> = group
                .iter()
                .map(|(line, variant)| {
                    std::process::Command::new(&exe)
                        .args(["snapshot", &line.to_string(), &variant.to_string()])
                        .stdout(std::process::Stdio::piped())
                        .stderr(std::process::Stdio::piped())
                        .spawn()
                })
                .collect();
            for ((line, variant), kid) in group.iter().zip(kids) {
                let out = kid.map_err(|e| e.to_string())?.wait_with_output().map_err(|e| e.to_string())?;
                let text = String::from_utf8_lossy(&out.stdout).to_string();
                let v: Vec<u64> = text.lines().filter_map(|l| l.parse().ok()).collect();
                if !out.status.success() || v.len() != STEPS + 1 {
                    return Err(format!("line {} variant {} alone in a fresh process: {}", line, variant, String::from_utf8_lossy(&out.stderr)));
                }
                all.push(v);
            }
        }
        Ok(all)
    })
    .as_ref()
    .map_err(|e| e.clone())
}

fn same(l: &LLLine, line: usize, variant: usize, done: usize, when: &str) -> Result<(), String> {
    let s = snapshot(l);
    let b = baseline()?;
    if hstr(&s) != b[line * VARIANTS + variant][done] {
        return Err(format!(
            "{}: after {} steps, line {:?} (variant {}) differs from the same line processed alone in a fresh process; it now reads\n{}",
            when,
            done,
            inputs(line),
            variant,
            s
        ));
    }
    Ok(())
}

// ---- controlled threads -----------------------------------------------------------------------------

struct Cross<T>(T);
// Steps are handed over one at a time through channels, so there is never concurrent access; whether
// lines may really be sent and shared is checked separately (see `send_sync`).
unsafe impl<T> Send for Cross<T> {}

impl<T> Cross<T> {
    fn get(self) -> T {
        self.0
    }
}

type Job = Cross<Box<dyn FnOnce()>>;

struct Pool {
    to: Vec<Sender<Job>>,
    from: Receiver<()>,
}

impl Pool {
    fn new(n: usize) -> Pool {
        let (done, from) = channel();
        let to = (0..n)
            .map(|_| {
                let (tx, rx) = channel::<Job>();
                let done = done.clone();
                std::thread::spawn(move || {
                    for j in rx {
                        let f = j.get();
                        f();
                        if done.send(()).is_err() {
                            break;
                        }
                    }
                });
                tx
            })
            .collect();
        Pool { to, from }
    }
    /// Runs `f` on thread `t` (0: the calling thread) and waits for it.
    fn run<R>(&self, t: usize, f: impl FnOnce() -> R) -> std::thread::Result<R> {
        if t == 0 {
            return catch_unwind(AssertUnwindSafe(f));
        }
        let mut slot: Option<std::thread::Result<R>> = None;
        {
            let p = &mut slot;
            let job: Box<dyn FnOnce() + '_> = Box::new(move || *p = Some(catch_unwind(AssertUnwindSafe(f))));
            // SAFETY: this function waits for the job before returning.
            let job: Box<dyn FnOnce()> = unsafe { std::mem::transmute(job) };
            self.to[t - 1].send(Cross(job)).expect("worker thread");
            self.from.recv().expect("worker thread");
        }
        slot.unwrap()
    }
}

thread_local! {
    static POOL: Pool = Pool::new(2);
}

/// Order: bit string saying which pipeline moves; threads: which thread runs each move.
#[derive(Clone, Debug)]
struct Schedule {
    lines: [(usize, usize); 2],
    order: Vec<usize>,
    threads: Vec<usize>,
    shared_kit: bool,
}

fn interleavings(n: usize) -> Vec<Vec<usize>> {
    fn go(a: usize, b: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if a == 0 && b == 0 {
            out.push(cur.clone());
            return;
        }
        for (k, left) in [(0, a), (1, b)] {
            if left > 0 {
                cur.push(k);
                go(if k == 0 { a - 1 } else { a }, if k == 1 { b - 1 } else { b }, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    go(n, n, &mut Vec::new(), &mut out);
    out
}

fn schedule(s: &Schedule, c: &mut Ctx) -> Result<(), String> {
    baseline()?;
    POOL.with(|pool| {
        let kits = [Kit::new(s.lines[0].1), Kit::new(if s.shared_kit { s.lines[0].1 } else { s.lines[1].1 })];
        let mut lines: [Option<LLLine>; 2] = [None, None];
        let mut done = [0usize; 2];
        for (i, (who, th)) in s.order.iter().zip(&s.threads).enumerate() {
            let (ln, var) = s.lines[*who];
            let kit = &kits[if s.shared_kit { 0 } else { *who }];
            let cur = lines[*who].take();
            let n = done[*who];
            let r = pool
                .run(*th, || match cur {
                    None => build(ln, var),
                    Some(l) => apply(l, n - 1, kit),
                })
                .map_err(|_| format!("move {}: step {} of pipeline {} panicked", i, n, who))?;
            // the read happens on the other thread of the pair half of the time
            pool.run(if i % 2 == 0 { *th } else { 1 - (*th).min(1) }, || same(&r, ln, var, n, &format!("schedule move {}", i)))
                .map_err(|_| format!("move {}: reading pipeline {} panicked", i, who))??;
            lines[*who] = Some(r);
            done[*who] += 1;
            c.transitions += 1;
            c.states += 1;
        }
        for k in 0..2 {
            if let Some(l) = &lines[k] {
                same(l, s.lines[k].0, s.lines[k].1, done[k] - 1, "at the end of the schedule")?;
            }
        }
        Ok::<(), String>(())
    })?;
    c.outcome(hstr(&format!("{:?}{:?}", s.order, s.threads)));
    Ok(())
}

// ---- interference between the reads of one line ----------------------------------------------------------

/// Things done with other lines (or this one) in between.
const INTERFERENCE: usize = 15;

thread_local! {
    static KEEP: RefCell<Vec<LLLine>> = RefCell::new(Vec::new());
}

struct Loud(u8);
impl std::fmt::Debug for Loud {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // builds and renders another line while being rendered
        let l = build(4, 0).run(&POSTagResolver::default());
        let s = LLLineDisplay::new(&l).with::<Tag>().to_string();
        write!(f, "Loud{}{}", self.0, s.len())
    }
}

fn interfere(k: usize, l: &LLLine, line: usize) {
    match k {
        0 => {
            let _ = snapshot(l);
        }
        1 => {
            let _ = alone((line + 1) % LINES, 0);
        }
        2 => {
            let _ = alone(line, 1);
        }
        3 => {
            // a panicking build
            let _ = catch_unwind(|| real::line(&[In::Text(String::new(), vec![])], bytes));
        }
        4 => {
            // a panicking resolver
            let other = build(line, 0);
            let _ = catch_unwind(AssertUnwindSafe(|| other.run(&real::by::<A, _>(|s| {
                let _ = s.find_by(&x::token_text());
                panic!("resolver")
            }))));
        }
        5 => {
            // a panicking measure
            let _ = catch_unwind(AssertUnwindSafe(|| real::line(&inputs(line), |_| panic!("measure"))));
        }
        6 => {
            // lines that stay alive
            KEEP.with(|v| {
                let mut v = v.borrow_mut();
                if v.len() > 8 {
                    v.clear();
                }
                v.push(build(line, 2));
            });
        }
        7 => {
            // another thread does the same and ends
            std::thread::scope(|s| {
                let _ = s.spawn(move || alone(line, 2)).join();
            });
        }
        8 => {
            let _ = l.find(&x::attr::<A>());
            let _ = l.find(&x::any_of((x::attr::<Tag>(), x::whitespace())));
        }
        9 => {
            let _ = l.query::<Loud>();
            let _ = LLLineDisplay::new(l).with::<Loud>().with::<A>().with::<A>().to_string();
        }
        10 => {
            let o = build(0, 0).run(&real::by::<Loud, _>(|s| vec![s.finish_with_attr(Loud(1))]));
            let _ = LLLineDisplay::new(&o).with::<Loud>().to_string();
        }
        11 => {
            // selections of a shared line, dropped in the middle of use
            let rc = std::rc::Rc::new(build(line, 1));
            if let Some(s) = LLSelection::from_line(rc.clone()) {
                let f = s.find_by(&x::token_text());
                drop(rc);
                for (t, _) in &f {
                    let _ = t.trim(&x::whitespace());
                    let _ = t.split_by(&x::attr::<char>());
                    let _ = t.match_forwards(&x::token_text());
                }
            }
        }
        12 => {
            // a resolver that uses the other resolvers inside
            let o = build(line, 0);
            let _ = o.run(&real::by::<A, _>(|s| {
                let _ = alone(3, 1);
                s.find_by(&x::token_text()).finish_with(|t| A(t.len() as u8))
            }));
        }
        13 => {
            // many different words: whatever is remembered of earlier ones is pushed out or filled up
            static MANY: OnceLock<String> = OnceLock::new();
            let t = MANY.get_or_init(|| (0..1500u32).map(|i| format!("w{}é{} ", i, i * 7)).collect());
            let _ = real::line(&[In::Text(t.clone(), vec![Val::A(9)])], bytes).run(&POSTagResolver::default());
        }
        _ => {
            // another line of many tokens
            let _ = real::line(&[In::Text("a 1,2.3 b. ".repeat(40), vec![Val::A(9)])], bytes).run(&AmountResolver::english());
        }
    }
}

fn interfered(x: &(usize, usize, Vec<usize>), c: &mut Ctx) -> Result<(), String> {
    let (line, variant, acts) = x;
    let kit = Kit::new(*variant);
    let mut l = build(*line, *variant);
    same(&l, *line, *variant, 0, "after building")?;
    for (s, k) in acts.iter().enumerate() {
        interfere(*k, &l, *line);
        same(&l, *line, *variant, s, &format!("after interference {}", k))?;
        l = apply(l, s, &kit);
        same(&l, *line, *variant, s + 1, &format!("after interference {} and a step", k))?;
        c.transitions += 2;
    }
    c.states += 1;
    c.outcome(hstr(&format!("{:?}", x)));
    Ok(())
}

/// The whole pipeline, run from inside the callbacks the library calls back into.
fn nested(x: &(usize, usize, usize, usize), c: &mut Ctx) -> Result<(), String> {
    let (place, line, variant, inner) = *x;
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let inside = || {
        let v = alone(inner, variant);
        let b = match baseline() {
            Ok(b) => b,
            Err(e) => {
                *bad.borrow_mut() = Some(e);
                return;
            }
        };
        for (i, s) in v.iter().enumerate() {
            if hstr(s) != b[inner * VARIANTS + variant][i] {
                *bad.borrow_mut() = Some(format!("the nested line {:?} differs after {} steps:\n{}", inputs(inner), i, s));
            }
        }
    };
    let kit = Kit::new(variant);
    let mut l = match place {
        0 => {
            let f = measure(variant);
            let n = std::cell::Cell::new(0);
            real::line(&inputs(line), |s: &str| {
                n.set(n.get() + 1);
                if n.get() <= 3 {
                    inside();
                }
                f(s)
            })
        }
        _ => build(line, variant),
    };
    same(&l, line, variant, 0, "with a nested line")?;
    for s in 0..STEPS {
        match place {
            1 => {
                l = l.run(&real::by::<P, _>(|s| {
                    inside();
                    let r = s.find_by(&x::token_text());
                    inside();
                    drop(r);
                    Vec::new()
                }));
            }
            2 => {
                // inside a matcher
                struct Nest<'a>(&'a dyn Fn());
                impl<'l, 'a> x::XMatch<'l> for Nest<'a> {
                    type Out = &'l str;
                    fn go<M: x::XDirection<'l>>(&self, d: &M, l: &'l LLLine) -> Vec<(&'l str, x::ToIdx)> {
                        (self.0)();
                        x::token_text().go(d, l)
                    }
                }
                let a = format!("{:?}", l.find(&x::token_text()));
                let f = |l: &LLLine| format!("{:?}", l.find(&Nest(&inside)));
                if l.ll_tokens().len() <= 8 {
                    let b = f(&l);
                    if a != b {
                        return Err(format!("a search with a nested line gives {}, without it {}", b, a));
                    }
                }
            }
            _ => inside(),
        }
        same(&l, line, variant, s, "with a nested line")?;
        l = apply(l, s, &kit);
        same(&l, line, variant, s + 1, "with a nested line")?;
        c.transitions += 1;
    }
    c.states += 1;
    match bad.into_inner() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---- values whose own code uses the library ------------------------------------------------------------

thread_local! {
    /// What went wrong inside a value's own code, how deep that code is nested, and how many more calls of it do something.
    static INSIDE: RefCell<(Option<String>, usize, usize)> = const { RefCell::new((None, 0, 0)) };
}

/// A quiet value, or one that processes a line in its Debug, PartialEq, Clone or Drop code (`when`, `inner`, `variant`, depth).
struct Nosy(u8, Option<(u8, usize, usize, usize)>);

impl Nosy {
    fn look(&self, now: u8) {
        let Some((when, inner, variant, depth)) = self.1 else { return };
        if when != now || std::thread::panicking() || INSIDE.with(|x| x.borrow().1 >= depth || x.borrow().2 == 0) {
            return;
        }
        let left = INSIDE.with(|x| {
            let mut x = x.borrow_mut();
            x.1 += 1;
            x.2 -= 1;
            std::mem::replace(&mut x.2, 2)
        });
        let bad = (|| {
            let v = alone(inner, variant);
            let b = baseline()?;
            for (i, s) in v.iter().enumerate() {
                if hstr(s) != b[inner * VARIANTS + variant][i] {
                    return Err(format!("line {:?} processed inside differs after {} steps:\n{}", inputs(inner), i, s));
                }
            }
            if depth > 1 {
                let (a, b) = (talk(inner, variant, None), talk(inner, variant, self.1));
                if a != b {
                    return Err(format!("inside: with quiet values\n{}\nand with others\n{}", a, b));
                }
            }
            Ok(())
        })();
        INSIDE.with(|x| {
            let mut x = x.borrow_mut();
            x.1 -= 1;
            x.2 = left;
            if let (Err(e), None) = (bad, &x.0) {
                x.0 = Some(e);
            }
        });
    }
}
impl std::fmt::Debug for Nosy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.look(0);
        write!(f, "N{}", self.0)
    }
}
impl PartialEq for Nosy {
    fn eq(&self, o: &Nosy) -> bool {
        self.look(1);
        self.0 == o.0
    }
}
impl Clone for Nosy {
    fn clone(&self) -> Nosy {
        self.look(2);
        Nosy(self.0, self.1)
    }
}
impl Drop for Nosy {
    fn drop(&mut self) {
        self.look(3);
    }
}

/// Everything a line does with such values.
fn talk(line: usize, variant: usize, how: Option<(u8, usize, usize, usize)>) -> String {
    let v = |k: u8| Nosy(k, how);
    let map: HashMap<String, Vec<Nosy>> = [("run".to_string(), vec![v(1), v(2)]), ("if".to_string(), vec![v(3)])].into_iter().collect();
    let r = TextMatchAssignResolver::new_case_insensitive(map);
    let l = build(line, variant).run(&POSTagResolver::default()).run(&r);
    let l = l.run(&real::by::<Nosy, _>(|s| {
        let all = s.finish_with_attr(v(4));
        let mut f = s.find_by(&x::token_text()).finish_with(|t| v(t.len() as u8));
        let found: Vec<LLSelection> = s.find_by(&x::attr_eq(&v(1))).into_iter().map(|(s, _)| s).collect();
        f.extend(found.iter().map(|s| s.finish_with_attr(v(5))));
        f.push(all);
        f
    }));
    let mut o = String::new();
    write!(o, "{:?} / {:?} / {:?}", l.query::<Nosy>(), l.find(&x::attr::<Nosy>()), l.query::<Tag>()).unwrap();
    for k in [0, 1, 3, 5] {
        let w = v(k);
        write!(o, "\n{} {:?}", k, l.find(&x::attr_eq(&w))).unwrap();
    }
    write!(o, "\n{}", LLLineDisplay::new(&l).with::<Tag>().with::<Nosy>().with::<TextTag>()).unwrap();
    o
}

fn nosy(x: &(u8, usize, usize, usize, usize), c: &mut Ctx) -> Result<(), String> {
    let (when, line, variant, inner, depth) = *x;
    baseline()?;
    INSIDE.with(|x| *x.borrow_mut() = (None, 0, 40));
    let a = talk(line, variant, None);
    let b = talk(line, variant, Some((when, inner, variant, depth)));
    c.states += 1;
    c.transitions += 1;
    if let Some(e) = INSIDE.with(|x| x.borrow_mut().0.take()) {
        return Err(e);
    }
    if a != b {
        return Err(format!("with quiet values the line reads\n{}\nand with values that process a line themselves\n{}", a, b));
    }
    c.outcome(hstr(&format!("{:?}{}", x, a)));
    Ok(())
}

// ---- one matcher used again and again --------------------------------------------------------------------

const MATCHERS: usize = 14;
const USES: usize = 7;

/// One use of a matcher: on which line, for what.
fn use_matcher<'a, M: x::XMatch<'a>>(m: &M, l: &'a LLLine, s: &'a LLSelection, mid: &'a LLSelection, how: usize) -> String
where
    M::Out: std::fmt::Debug,
{
    match how {
        0 => format!("{:?}", l.find(m)),
        1 => format!("{:?}", s.find_by(m)),
        2 => format!("{:?}", s.find_by_forwards_and_backwards(m)),
        3 => format!("{:?}", s.split_by(m)),
        4 => format!("{:?}{:?}", mid.match_forwards(m), mid.match_backwards(m)),
        5 => format!("{:?}", s.find_first_by(m)),
        _ => format!("{:?}{:?}{:?}", mid.trim(m), s.trim_start(m), s.trim_end(m)),
    }
}

/// The same matcher, or a new one for every use.
fn matcher_uses(kind: usize, uses: &[(usize, usize)], lines: &[(std::rc::Rc<LLLine>, LLSelection, LLSelection)], fresh: bool) -> Vec<String> {
    macro_rules! go {
        ($m:expr) => {{
            if fresh {
                uses.iter().map(|(l, h)| use_matcher(&$m, &lines[*l].0, &lines[*l].1, &lines[*l].2, *h)).collect()
            } else {
                let m = $m;
                uses.iter().map(|(l, h)| use_matcher(&m, &lines[*l].0, &lines[*l].1, &lines[*l].2, *h)).collect()
            }
        }};
    }
    let set = ['$', ',', '.', '1'];
    match kind {
        0 => go!(x::token_text()),
        1 => go!(x::whitespace()),
        2 => go!(x::attr::<A>()),
        3 => go!(x::attr::<TextTag>()),
        4 => go!(x::attr_eq(&TextTag::WORD)),
        5 => go!(x::attr_eq(&A(7))),
        6 => go!(x::token_has_any(&set)),
        7 => go!(x::seq((x::token_text(), x::attr::<char>()))),
        8 => go!(x::seq((x::attr::<TextTag>(), x::whitespace(), x::attr_eq(&TextTag::WORD)))),
        9 => go!(x::all((x::attr_eq(&TextTag::NATN), x::token_text()))),
        10 => go!(x::all((x::attr::<char>(), x::token_text(), x::attr::<TextTag>()))),
        11 => go!(x::any_of((x::attr_eq(&TextTag::PUNC), x::attr::<A>()))),
        12 => go!(x::any_of((x::whitespace(), x::attr::<A>(), x::token_text()))),
        _ => go!(x::seq((x::any_of((x::attr::<A>(), x::token_text())), x::any_of((x::whitespace(), x::token_has_any(&set)))))),
    }
}

fn matcher_reuse(x: &(usize, Vec<(usize, usize)>), c: &mut Ctx) -> Result<(), String> {
    thread_local! {
        static LINES_FOR_MATCHERS: Vec<(std::rc::Rc<LLLine>, LLSelection, LLSelection)> = (0..LINES - 1)
            .map(|k| {
                let l = std::rc::Rc::new(build(k, 0));
                let s = LLSelection::from_line(l.clone()).expect("selection");
                // the last text, or the end of the line
                let mid = s.find_by(&x::attr::<char>()).pop().map_or(s.clone(), |x| x.0);
                (l, s, mid)
            })
            .collect();
    }
    LINES_FOR_MATCHERS.with(|lines| {
        let a = matcher_uses(x.0, &x.1, lines, true);
        let b = matcher_uses(x.0, &x.1, lines, false);
        c.states += 1;
        c.transitions += x.1.len() as u64;
        for (i, (a, b)) in a.iter().zip(&b).enumerate() {
            if a != b {
                return Err(format!("use {} of one matcher gives {}, of a new one {}", i + 1, b, a));
            }
        }
        c.outcome(hstr(&format!("{}{:?}", x.0, a)));
        Ok(())
    })
}

/// Detects Send and Sync at run time, so that the harness still builds when they are lost.
mod detect {
    pub struct W<T>(pub std::marker::PhantomData<T>);
    pub trait NoSend {
        fn is_send(&self) -> bool {
            false
        }
    }
    impl<T> NoSend for &W<T> {}
    pub trait YesSend {
        fn is_send(&self) -> bool {
            true
        }
    }
    impl<T: Send> YesSend for W<T> {}
    pub trait NoSync {
        fn is_sync(&self) -> bool {
            false
        }
    }
    impl<T> NoSync for &W<T> {}
    pub trait YesSync {
        fn is_sync(&self) -> bool {
            true
        }
    }
    impl<T: Sync> YesSync for W<T> {}
}

fn send_sync(c: &mut Ctx) -> Result<(), String> {
    use detect::*;
    let l = W::<LLLine>(std::marker::PhantomData);
    let rc = W::<std::rc::Rc<u8>>(std::marker::PhantomData);
    c.states += 1;
    c.transitions += 4;
    if (&rc).is_send() || (&rc).is_sync() {
        return Err("detector broken".into());
    }
    if !(&l).is_send() {
        return Err("a line cannot be moved to another thread (not Send)".into());
    }
    if !(&l).is_sync() {
        return Err("a line cannot be shared with another thread (not Sync)".into());
    }
    Ok(())
}

// ---- one line before and after another one ----------------------------------------------------------

/// Stretches as (keyword, ...): the text of a sequence of stretches, each with no keyword or one of three.
fn stretches(s: &[usize]) -> String {
    s.iter().map(|k| ["it rains, ", "if it rains, ", "then it rains, ", "and it rains, "][*k]).collect()
}

/// What one text gives through a resolver pipeline.
fn through(text: &str, kit: &Kit, kind: u64) -> String {
    let l = real::line(&[In::Text(text.to_string(), vec![])], bytes);
    match kind {
        0 => {
            let l = l.run(&kit.keywords).run(&kit.clauses);
            format!("{:?}{:?}", l.query::<ClauseKeyword>(), l.query::<Clause>())
        }
        1 => {
            let l = l.run(&kit.amount);
            format!("{:?}", l.query::<Amount>())
        }
        3 => {
            let l = l.run(&kit.tags).run(&kit.texts);
            format!("{:?}{:?}{:?}", l.query::<TextTag>(), l.query::<Tag>(), l.find(&x::attr::<u16>()))
        }
        _ => {
            let l = (0..STEPS).fold(l, |l, s| apply(l, s, kit));
            snapshot(&l)
        }
    }
}

#[derive(Clone)]
struct Sandwich {
    around: String,
    between: String,
    shared: bool,
    kind: u64,
}

impl Sandwich {
    fn show(&self) -> String {
        format!("text {:?} before and after text {:?}, {} resolvers, pipeline {}", self.around, self.between, if self.shared { "the same" } else { "new" }, self.kind)
    }
}

/// The first and the second result for `around` must be the same. The thread is not a fresh one: whatever
/// earlier cases left behind is in both, and a case that depends on it is one more violation.
fn sandwich(x: &Sandwich, c: &mut Ctx) -> Result<(), String> {
    let kit = Kit::new(0);
    let a = through(&x.around, &kit, x.kind);
    let other = Kit::new(0);
    through(&x.between, if x.shared { &kit } else { &other }, x.kind);
    let third = Kit::new(0);
    let b = through(&x.around, if x.shared { &kit } else { &third }, x.kind);
    c.states += 1;
    c.transitions += 3;
    if a != b {
        return Err(format!("before the other line\n{}\nafter it\n{}", a, b));
    }
    c.outcome(hstr(&a));
    Ok(())
}

// ---- whole lists of lines, in both orders -------------------------------------------------------------

/// The lists: what they are, and their texts.
const LISTS: &[(&str, u64)] = &[
    ("all dictionary words in alphabetical order", 3),
    ("all dictionary words by length", 3),
    ("all dictionary words by their ends", 3),
    ("all phrases and pairs of phrases", 2),
    ("all texts of 1..=6 characters over 1 , . blank a", 1),
    ("all sequences of 1..=6 stretches with or without keywords", 0),
    ("all texts of 1..=4 characters over a A é É ' 1 . , blank emoji", 4),
    ("every number 0..=160000, plain, in groups and with two decimals", 1),
    ("every dictionary word of three or more letters, followed by itself with its middle letter replaced by . or _", 3),
    ("every scalar value up to U+1FFFF alone and between two syllables", 3),
];

fn list(k: usize) -> Vec<String> {
    let alpha = ['1', ',', '.', ' ', 'a'];
    let other = ['a', 'A', 'é', 'É', '\'', '1', '.', ',', ' ', '\u{1f600}'];
    let mut w = match k {
        0..=2 => dictionary(),
        3 => (0..phrases(2)).map(phrase).collect(),
        4 => (0..strings_over(&alpha, 6)).map(|i| string_over(&alpha, i)).collect(),
        5 => (0..seqs(4, 1, 6)).map(|i| stretches(&seq_at(4, 1, i))).collect(),
        6 => (0..strings_over(&other, 4)).map(|i| string_over(&other, i)).collect(),
        7 => (0..=160_000u32).flat_map(|n| [n.to_string(), format!("{},{:03}", n / 1000, n % 1000), format!("{}.{:02}", n / 100, n % 100)]).collect(),
        8 => dictionary()
            .into_iter()
            .filter(|w| w.chars().count() >= 3)
            .flat_map(|w| {
                let cs: Vec<char> = w.chars().collect();
                let m = cs.len() / 2;
                let mut v = vec![w];
                for c in ['.', '_'] {
                    let mut x = cs.clone();
                    x[m] = c;
                    v.push(x.into_iter().collect());
                }
                v
            })
            .collect(),
        _ => (0..0x20000 - 0x800u64).flat_map(|i| [scalar(i).to_string(), format!("exam{}ples", scalar(i))]).collect(),
    };
    match k {
        1 => w.sort_by_key(|s| s.len()),
        2 => w.sort_by_key(|s| s.chars().rev().collect::<String>()),
        _ => {}
    }
    w
}

/// `mc order LIST DIRECTION`: the list of lines one after the other, one hash per line.
pub fn print_order(k: usize, backwards: bool) {
    use std::io::Write;
    let texts = list(k);
    let kit = Kit::new(0);
    let mut got = vec![0u64; texts.len()];
    for j in 0..texts.len() {
        let i = if backwards { texts.len() - 1 - j } else { j };
        got[i] = hstr(&through(&texts[i], &kit, LISTS[k].1));
    }
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for h in got {
        writeln!(out, "{:x}", h).unwrap();
    }
}

fn both_orders(k: &usize, c: &mut Ctx) -> Result<(), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids = Vec::new();
    for way in ["forwards", "backwards"] {
        kids.push(std::process::Command::new(&exe).args(["order", &k.to_string(), way]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().map_err(|e| e.to_string())?);
    }
    // both pipes are read at the same time
    let readers: Vec<_> = kids.into_iter().map(|kid| std::thread::spawn(move || kid.wait_with_output())).collect();
    let mut got: Vec<Vec<String>> = Vec::new();
    for r in readers {
        let o = r.join().map_err(|_| "reader".to_string())?.map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("processing the list fails: {}", String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>()));
        }
        got.push(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect());
    }
    let texts = list(*k);
    for (i, t) in texts.iter().enumerate() {
        c.states += 1;
        c.transitions += 2;
        if got[0].get(i) != got[1].get(i) || got[0].get(i).is_none() {
            return Err(format!("line {:?} gives one result after the lines before it in the list and another after those behind it", t));
        }
        if i % 64 == 0 {
            c.outcome(hstr(&got[0][i]));
        }
    }
    Ok(())
}

pub fn c23(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    v.push(Space::new("send-sync", "the line type itself", 1, |i| i, |_| "Send and Sync of a line".into(), |_: &u64, c| send_sync(c)));
    // all interleavings of two whole pipelines
    let inter = interleavings(STEPS + 1);
    let ni = inter.len() as u64;
    let pairs: Vec<((usize, usize), (usize, usize))> = if thorough {
        (0..LINES).flat_map(|a| (0..LINES).map(move |b| ((a, a % 3), (b, (a + b) % 3)))).collect()
    } else {
        vec![((0, 0), (1, 1)), ((0, 0), (2, 0)), ((3, 1), (5, 1)), ((4, 2), (5, 0)), ((0, 2), (0, 2)), ((7, 0), (6, 1)), ((1, 0), (3, 0))]
    };
    let np = pairs.len() as u64;
    // thread patterns: same thread; one thread each; alternating moves; alternating per pipeline
    let pat = 5u64;
    v.push(Space::new(
        "interleavings",
        &format!("all {} interleavings of two pipelines of {} steps x {} pairs of lines x {} thread patterns, every state read in full after every step", ni, STEPS + 1, np, pat),
        ni * np * pat,
        move |i| {
            let mut d = Dec(i);
            let order = inter[d.take(ni) as usize].clone();
            let p = d.take(pat);
            let (a, b) = pairs[d.0 as usize];
            let threads = order
                .iter()
                .enumerate()
                .map(|(k, who)| match p {
                    0 => 0,
                    1 => 1 + who,
                    2 => k % 2,
                    3 => 1 + (k / 2) % 2,
                    _ => k % 3,
                })
                .collect();
            Schedule { lines: [a, b], order, threads, shared_kit: p == 4 && a.1 == b.1 }
        },
        |s: &Schedule| format!("{:?}", s),
        schedule,
    ));
    // all thread assignments for short prefixes
    let m = if thorough { 4 } else { 3 };
    let inter = interleavings(m);
    let ni = inter.len() as u64;
    let nt = 2u64.pow(2 * m as u32);
    let menu: Vec<((usize, usize), (usize, usize))> = vec![((0, 0), (1, 0)), ((3, 1), (2, 1)), ((5, 2), (4, 2))];
    let nm = menu.len() as u64;
    v.push(Space::new(
        "thread-assignments",
        &format!("all {} interleavings of the first {} steps of two pipelines x all {} assignments of the moves to two threads x {} pairs of lines x own or shared resolvers", ni, m, nt, nm),
        ni * nt * nm * 2,
        move |i| {
            let mut d = Dec(i);
            let order = inter[d.take(ni) as usize].clone();
            let t = d.take(nt);
            let shared_kit = d.take(2) == 1;
            let (a, b) = menu[d.0 as usize];
            Schedule { lines: [a, b], order, threads: (0..2 * m).map(|k| 1 + (t >> k & 1) as usize).collect(), shared_kit }
        },
        |s: &Schedule| format!("{:?}", s),
        schedule,
    ));
    // everything that can come in between
    let steps = if thorough { 4 } else { 3 };
    let ks = seqs(INTERFERENCE as u64, 1, steps);
    let lv = if thorough { (LINES * VARIANTS) as u64 } else { LINES as u64 };
    v.push(Space::new(
        "interference",
        &format!("every sequence of 1..={} of {} interfering actions (other lines, panics, nested use, threads, long-lived lines) between the steps of {} pipelines", steps, INTERFERENCE, lv),
        ks * lv,
        move |i| {
            let mut d = Dec(i);
            let p = d.take(lv) as usize;
            let (line, variant) = (p % LINES, if lv > LINES as u64 { p / LINES } else { p % VARIANTS });
            (line, variant, seq_at(INTERFERENCE as u64, 1, d.0))
        },
        |x: &(usize, usize, Vec<usize>)| format!("line {:?} (variant {}) with interfering actions {:?}", inputs(x.0), x.1, x.2),
        interfered,
    ));
    v.push(Space::new(
        "nested",
        "every pipeline with every pipeline run inside the caller's measure, resolver or matcher, or between its steps",
        (4 * LINES * VARIANTS * LINES) as u64,
        |i| {
            let mut d = Dec(i);
            (d.take(4) as usize, d.take(LINES as u64) as usize, d.take(VARIANTS as u64) as usize, d.0 as usize)
        },
        |x: &(usize, usize, usize, usize)| format!("line {:?} (variant {}) with line {:?} processed inside {}", inputs(x.1), x.2, inputs(x.3), ["its measure", "its resolvers", "its matchers", "its pauses"][x.0]),
        nested,
    ));
    let (first, lines, deep) = if thorough { (0, LINES as u64, 4) } else { (0, LINES as u64, 3) };
    v.push(Space::new(
        "inside-values",
        &format!("{} lines with values that process one of {} lines in the first calls of their Debug, PartialEq, Clone or Drop code, to a depth of 1..={}", lines, lines, deep),
        4 * lines * VARIANTS as u64 * lines * deep,
        move |i| {
            let mut d = Dec(i);
            (d.take(4) as u8, first + d.take(lines) as usize, d.take(VARIANTS as u64) as usize, first + d.take(lines) as usize, d.0 as usize + 1)
        },
        |x: &(u8, usize, usize, usize, usize)| format!("line {:?} (variant {}) with line {:?} processed inside {} of its values, depth {}", inputs(x.1), x.2, inputs(x.3), ["Debug", "PartialEq", "Clone", "Drop"][x.0 as usize], x.4),
        nosy,
    ));
    let (len, u) = (if thorough { 4 } else { 3 }, (USES * (LINES - 1)) as u64);
    v.push(Space::new(
        "matcher-reuse",
        &format!("{} matchers x every sequence of {} of {} uses on {} lines, with one matcher value and with new ones", MATCHERS, len, USES, LINES - 1),
        MATCHERS as u64 * u.pow(len),
        move |i| {
            let mut d = Dec(i);
            (d.take(MATCHERS as u64) as usize, (0..len).map(|_| { let k = d.take(u) as usize; (k % (LINES - 1), k / (LINES - 1)) }).collect())
        },
        |x: &(usize, Vec<(usize, usize)>)| format!("matcher {}, uses (line, how) {:?}", x.0, x.1),
        matcher_reuse,
    ));
    let n = if thorough { 400 } else { 100 };
    v.push(Space::new(
        "repetition",
        &format!("every pipeline processed {} times over, each line read three times", n),
        (LINES * VARIANTS) as u64,
        |i| (i as usize / VARIANTS, i as usize % VARIANTS),
        |x: &(usize, usize)| format!("line {:?} (variant {})", inputs(x.0), x.1),
        move |x: &(usize, usize), c| {
            for k in 0..n {
                let kit = Kit::new(x.1);
                let mut l = build(x.0, x.1);
                for s in 0..STEPS {
                    l = apply(l, s, &kit);
                }
                for _ in 0..3 {
                    same(&l, x.0, x.1, STEPS, &format!("repetition {}", k))?;
                    c.transitions += 1;
                }
                c.states += 1;
            }
            Ok(())
        },
    ));
    // one pipeline after another
    let all = (ALL * VARIANTS) as u64;
    v.push(Space::new(
        "pairs",
        &format!("every ordered pair of {} pipelines ({} lines x {} configurations), one after the other on a fresh thread", all, ALL, VARIANTS),
        all * all,
        move |i| {
            let p = |k: u64| (k as usize / VARIANTS, k as usize % VARIANTS);
            [p(i / all), p(i % all)]
        },
        |x: &[(usize, usize); 2]| format!("line {:?} (variant {}), then line {:?} (variant {})", inputs(x[0].0), x[0].1, inputs(x[1].0), x[1].1),
        |x: &[(usize, usize); 2], c| {
            let b = baseline()?;
            let x = *x;
            let got = std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || x.map(|(l, v)| alone(l, v).iter().map(|s| hstr(s)).collect::<Vec<_>>()))
                .map_err(|e| e.to_string())?
                .join()
                .map_err(|_| "a pipeline panicked".to_string())?;
            for (k, (l, v)) in x.iter().enumerate() {
                for (i, h) in got[k].iter().enumerate() {
                    if *h != b[l * VARIANTS + v][i] {
                        return Err(format!("the {} pipeline differs from the same one in a fresh process after {} steps", ["first", "second"][k], i));
                    }
                    c.transitions += 1;
                }
                c.outcome(got[k][STEPS]);
            }
            c.states += 1;
            Ok(())
        },
    ));
    // one resolver value used for many lines in a row
    v.push(Space::new(
        "resolver-reuse",
        "every ordered triple of lines processed with one and the same set of resolvers",
        (LINES * LINES * LINES * VARIANTS) as u64,
        |i| {
            let mut d = Dec(i);
            let v = d.take(VARIANTS as u64) as usize;
            let n = LINES as u64;
            (v, [d.take(n) as usize, d.take(n) as usize, d.0 as usize])
        },
        |x: &(usize, [usize; 3])| format!("lines {:?} (variant {})", x.1, x.0),
        |(variant, lines), c| {
            let kit = Kit::new(*variant);
            for ln in lines {
                let mut l = build(*ln, *variant);
                for s in 0..STEPS {
                    l = apply(l, s, &kit);
                    c.transitions += 1;
                }
                same(&l, *ln, *variant, STEPS, "with reused resolvers")?;
            }
            c.states += 1;
            Ok(())
        },
    ));
    v.push(Space::new(
        "both-orders",
        &format!("every line of {} long lists ({}), the whole list in one process from first to last and in another from last to first", LISTS.len(), LISTS.iter().map(|l| l.0).collect::<Vec<_>>().join("; ")),
        LISTS.len() as u64,
        |i| i as usize,
        |k: &usize| format!("list {}: {}", k, LISTS[*k].0),
        both_orders,
    ));
    // one line around another
    let (la, lb) = if thorough { (7, 3) } else { (6, 2) };
    let (na, nb) = (seqs(4, 1, la), seqs(4, 1, lb));
    v.push(Space::new(
        "clauses-between-clauses",
        &format!("every text of 1..={} stretches with one of three keywords or none, between two equal texts of 1..={} such stretches: keywords and clauses, with the same resolvers and with new ones", la, lb),
        na * nb * 2,
        move |i| {
            let mut d = Dec(i);
            let shared = d.take(2) == 1;
            let around = stretches(&seq_at(4, 1, d.take(nb)));
            Sandwich { around, between: stretches(&seq_at(4, 1, d.0)), shared, kind: 0 }
        },
        Sandwich::show,
        sandwich,
    ));
    let alpha = vec!['1', ',', '.', ' ', 'a'];
    let (la, lb) = if thorough { (6, 3) } else { (5, 3) };
    let (na, nb) = (strings_over(&alpha, la), strings_over(&alpha, lb));
    v.push(Space::new(
        "amounts-between-amounts",
        &format!("every text of 1..={} characters over {:?} between two equal ones of 1..={}: amounts, with the same resolver and with new ones", la, alpha, lb),
        na * nb * 2,
        move |i| {
            let mut d = Dec(i);
            let shared = d.take(2) == 1;
            let around = string_over(&alpha, d.take(nb));
            Sandwich { around, between: string_over(&alpha, d.0), shared, kind: 1 }
        },
        Sandwich::show,
        sandwich,
    ));
    let np = PHRASES.len() as u64;
    v.push(Space::new(
        "phrases-between-phrases",
        &format!("every ordered pair of {} phrases people write, the one between two uses of the other, alone or repeated with blanks, through the whole pipeline", np),
        np * np * 4,
        move |i| {
            let mut d = Dec(i);
            let shared = d.take(2) == 1;
            let more = d.take(2) == 1;
            let f = |k: u64| if more { format!("{p} {p}x {p}", p = PHRASES[k as usize]) } else { PHRASES[k as usize].to_string() };
            Sandwich { around: f(d.take(np)), between: f(d.0), shared, kind: 2 }
        },
        Sandwich::show,
        sandwich,
    ));
    v
}

// ---- C24 ----------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Currency(char);
#[derive(Clone, Debug, PartialEq)]
struct Money(char, String);

const SYMBOLS: &[char] = &['$', '€'];

fn currency_layer(l: LLLine) -> LLLine {
    l.run(&real::by::<Currency, _>(|s| {
        let set = SYMBOLS.to_vec();
        let found: Vec<(LLSelection, char)> = s.find_by(&x::token_has_any(&set)).into_iter().map(|(s, c)| (s, *c)).collect();
        found.finish_with(Currency)
    }))
}

fn money_layer(l: LLLine, way: u64) -> LLLine {
    l.run(&real::by::<Money, _>(|s| match way {
        // the documented way
        0 => s
            .find_by_forwards_and_backwards(&x::seq((x::attr::<Currency>(), x::attr::<Amount>())))
            .finish_with(|(c, a)| Money(c.0, a.get_decimal().to_string())),
        // two searches
        1 => {
            let mut v = s
                .find_by(&x::seq((x::attr::<Currency>(), x::attr::<Amount>())))
                .finish_with(|(c, a)| Money(c.0, a.get_decimal().to_string()));
            v.extend(
                s.find_by(&x::seq((x::attr::<Amount>(), x::attr::<Currency>())))
                    .finish_with(|(a, c)| Money(c.0, a.get_decimal().to_string())),
            );
            v
        }
        // from the amount to both sides
        _ => {
            let mut v = Vec::new();
            for (sel, a) in s.find_by(&x::attr::<Amount>()) {
                for (t, c) in sel.match_backwards(&x::attr::<Currency>()).into_iter().chain(sel.match_forwards(&x::attr::<Currency>())) {
                    v.push(t.finish_with_attr(Money(c.0, a.get_decimal().to_string())));
                }
            }
            v
        }
    }))
}

type Moneys = Vec<(Rng, char, String)>;

fn moneys(l: &LLLine) -> Moneys {
    let mut v: Moneys = l.query::<Money>().into_iter().flat_map(|(r, _, v)| v.into_iter().map(move |m| (r, m.0, m.1.clone()))).collect();
    v.sort();
    v
}

fn expected_moneys(l: &LLLine) -> Moneys {
    let am: Vec<(Rng, String)> = l.query::<Amount>().into_iter().flat_map(|(r, _, v)| v.into_iter().map(move |a| (r, a.get_decimal().to_string()))).collect();
    let cu: Vec<(Rng, char)> = l.query::<Currency>().into_iter().flat_map(|(r, _, v)| v.into_iter().map(move |c| (r, c.0))).collect();
    let mut v = Vec::new();
    for (a, n) in &am {
        for (r, c) in &cu {
            if r.1 + 1 == a.0 {
                v.push(((r.0, a.1), *c, n.clone()));
            }
            if a.1 + 1 == r.0 {
                v.push(((a.0, r.1), *c, n.clone()));
            }
        }
    }
    v.sort();
    v
}

fn money_case(x: &(u64, String), c: &mut Ctx) -> Result<(), String> {
    let l = real::line(&[In::Text(x.1.clone(), vec![])], bytes);
    // the symbols really are what the text has
    let l = currency_layer(l);
    let m = MLine::new(&[In::Text(x.1.clone(), vec![])], &bytes);
    let cur: Vec<(Rng, char)> = l.query::<Currency>().into_iter().flat_map(|(r, _, v)| v.into_iter().map(move |c| (r, c.0))).collect();
    let want: Vec<(Rng, char)> = (0..m.len())
        .filter_map(|i| {
            let t = m.toks[i].text.as_ref().unwrap();
            SYMBOLS.iter().find(|s| t.chars().eq([**s])).map(|s| ((i, i), *s))
        })
        .collect();
    if cur != want {
        return Err(format!("currency symbols: expected {:?}, got {:?}", want, cur));
    }
    let l = l.run(&AmountResolver::english());
    let want = expected_moneys(&l);
    let l = money_layer(l, x.0);
    let got = moneys(&l);
    c.states += 1;
    c.transitions += 3;
    if got != want {
        return Err(format!("money: expected {:?}, got {:?}", want, got));
    }
    if !got.is_empty() {
        c.outcome(hstr(&format!("{:?}", got)));
    }
    Ok(())
}

/// What a resolver sees while it runs, through every lookup.
fn view(s: &LLSelection) -> String {
    let mut o = String::new();
    macro_rules! q {
        ($($t:ty),*) => { $(
            for (sel, v) in s.find_by(&x::attr::<$t>()) { write!(o, "{:?}{:?};", sel, v).unwrap(); }
            for (sel, v) in s.find_by_forwards_and_backwards(&x::attr::<$t>()) { write!(o, "{:?}{:?};", sel, v).unwrap(); }
        )* };
    }
    q!(char, TextTag, A, B, u16, Amount, ClauseKeyword, Clause, Tag, Currency);
    o
}

fn contents(l: &LLLine) -> String {
    let mut o = String::new();
    macro_rules! q {
        ($($t:ty),*) => { $( write!(o, "{}{:?}\n", stringify!($t), l.query::<$t>()).unwrap(); )* };
    }
    q!(char, TextTag, A, B, u16, Amount, ClauseKeyword, Clause, Tag, Currency, Money);
    o
}

fn layer(k: usize, l: LLLine) -> LLLine {
    match k {
        0 => l.run(&AmountResolver::english()),
        1 => l.run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])),
        2 => l.run(&POSTagResolver::default()),
        3 => currency_layer(l),
        4 => l.run(&TextMatchAssignResolver::new([("run".to_string(), vec![1u16, 2])].into_iter().collect())),
        _ => l.run(&real::by::<B, _>(|s| s.find_by(&x::seq((x::token_text(), x::attr::<char>()))).finish_with(|(t, _)| B(t.len() as u8)))),
    }
}
const LAYERS: usize = 6;

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn order_inputs(i: u64) -> Vec<In> {
    let words = ["run", "if", "$1", "€", "1,5", " ", "and"];
    let k = words.len() as u64;
    let t: Vec<&str> = seq_at(k, 1, i).into_iter().map(|x| words[x]).collect();
    // words as inputs, so that their tokens are adjacent
    t.into_iter().map(|w| In::Text(w.to_string(), vec![])).collect()
}

pub fn c24(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let alpha = vec!['$', '1', ',', '.', ' ', '€', 'x'];
    let len = if thorough { 7 } else { 6 };
    let n = strings_over(&alpha, len);
    let a = alpha.clone();
    v.push(Space::new(
        "money",
        &format!("currency, amount and money layers, the last written in three ways, on every text of 1..={} characters over {:?}", len, alpha),
        n * 3,
        move |i| (i % 3, string_over(&a, i / 3)),
        |x: &(u64, String)| format!("text {:?}, money layer written in way {}", x.1, x.0),
        money_case,
    ));
    // orders of independent layers
    let ps = perms(LAYERS);
    let np = ps.len();
    let il = if thorough { 4 } else { 3 };
    v.push(Space::new(
        "layer-orders",
        &format!("all {} orders of {} resolvers that do not read each other's attributes, on every sequence of 1..={} inputs over 7 texts", np, LAYERS, il),
        seqs(7, 1, il),
        order_inputs,
        |x: &Vec<In>| format!("inputs {:?}", x),
        move |ins: &Vec<In>, c| {
            let mut first: Option<String> = None;
            for p in &ps {
                let mut l = real::line(ins, bytes);
                for k in p {
                    l = layer(*k, l);
                    c.transitions += 1;
                }
                let s = contents(&l);
                match &first {
                    None => first = Some(s),
                    Some(f) if *f != s => return Err(format!("order {:?} gives\n{}instead of\n{}", p, s, f)),
                    _ => {}
                }
                c.states += 1;
            }
            c.outcome(hstr(&first.unwrap()));
            Ok(())
        },
    ));
    // what a resolver sees
    let f = Lines { kinds: vec![Kind::Word, Kind::Comma, Kind::Val], vals: vec![Val::A(0), Val::A(1), Val::B(0)], lo: 1, hi: 3, min_anns: 0, max_anns: if thorough { 3 } else { 2 } };
    let g = f.clone();
    v.push(Space::new(
        "resolver-view",
        &format!("{}: a resolver sees what searches saw before it ran, twice over in one run, and not its own assignments; the next one sees both", f.rule()),
        f.size(),
        move |i| g.at(i),
        Spec::show,
        |s: &Spec, c| {
            let (l, mut m) = real::build(&s.ins(), &s.anns, |_| 1)?;
            let seen: RefCell<Vec<String>> = RefCell::new(Vec::new());
            let problem: RefCell<Option<String>> = RefCell::new(None);
            let look = |full: &LLSelection, m: &MLine| {
                seen.borrow_mut().push(view(full));
                let sels = match real::Sels::new(full.clone(), m) {
                    Ok(s) => s,
                    Err(e) => {
                        *problem.borrow_mut() = Some(e);
                        return;
                    }
                };
                let ix = m.index();
                for k in [Mx::AttrA, Mx::AttrB, Mx::AttrTag, Mx::AttrChar] {
                    let e = crate::real::check_list("a resolver's search", &k, &sels, &full.find_by(&k), &ix.find_by((0, m.len() - 1), &k));
                    if let Err(e) = e {
                        *problem.borrow_mut() = Some(e);
                    }
                }
            };
            // a resolver that assigns A to every A it sees, looking before and after making assignments
            let mut l = l;
            for round in 0..3u8 {
                let mc = m.clone();
                l = l.run(&real::by::<A, _>(|full| {
                    look(&full, &mc);
                    let out = full.find_by(&x::attr::<A>()).finish_with(|a| A(a.0.wrapping_add(10)));
                    look(&full, &mc);
                    out
                }));
                let now: Vec<(Rng, Val)> = mc.index().find_by((0, mc.len() - 1), &Mx::AttrA).into_iter().map(|(r, _)| (r, Val::A(0))).collect();
                // values, in search order
                let mut vals = Vec::new();
                for i in 0..mc.len() {
                    for (r, on_it) in mc.grouped(TY_A) {
                        if r.0 == i {
                            for v in on_it {
                                if let Val::A(a) = v {
                                    vals.push((r, Val::A(a.wrapping_add(10))));
                                }
                            }
                        }
                    }
                }
                if vals.len() != now.len() {
                    return Err("model".into());
                }
                m.anns.extend(vals);
                if let Some(e) = problem.borrow_mut().take() {
                    return Err(format!("round {}: {}", round, e));
                }
                c.transitions += 1;
                let h = real::same_annotations(&l, &m)?;
                c.outcome(h);
            }
            let seen = seen.into_inner();
            for p in seen.chunks(2) {
                if p[0] != p[1] {
                    return Err(format!("a resolver's view changed during its run: {} / {}", p[0], p[1]));
                }
            }
            c.states += 3;
            Ok(())
        },
    ));
    // many moneys
    let max = if thorough { 600u64 } else { 270 };
    v.push(Space::new(
        "many-moneys",
        &format!("1..={} repetitions of each of 6 phrases, money layer written in three ways", max),
        max * 18,
        |i| {
            let p = ["$1 ", "1€, ", "$1€ ", "$1,5.5 x ", "€ $1", "a "];
            (i % 3, p[(i / 3 % 6) as usize].repeat((i / 18) as usize + 1))
        },
        |x: &(u64, String)| format!("text of {} characters starting {:?}, money layer written in way {}", x.1.len(), &x.1.chars().take(9).collect::<String>(), x.0),
        money_case,
    ));
    // many layers
    v.push(Space::new(
        "many-layers",
        "1..=300 runs of one resolver, each building on the previous one, or each assigning to another token",
        600,
        |i| (i / 2 + 1, i % 2 == 1),
        |x: &(u64, bool)| format!("{} runs{}", x.0, if x.1 { ", each to another token" } else { "" }),
        |(n, spread), c| {
            let n = *n as usize;
            let text: String = std::iter::repeat("w ").take(if *spread { n } else { 2 }).collect();
            let mut l = real::line(&[In::Text(text, vec![])], bytes);
            for k in 0..n {
                l = l.run(&real::by::<usize, _>(|s: LLSelection| {
                    let seen = s.find_by(&x::attr::<usize>());
                    if seen.len() != k {
                        return Vec::new();
                    }
                    let words = s.find_by(&x::attr_eq(&TextTag::WORD));
                    vec![words[if *spread { k } else { 0 }].0.finish_with_attr(k)]
                }));
                c.transitions += 1;
            }
            c.states += 1;
            let got: Vec<(Rng, usize)> = l.query::<usize>().into_iter().flat_map(|(r, _, v)| v.into_iter().map(move |x| (r, *x))).collect();
            let want: Vec<(Rng, usize)> = (0..n).map(|k| (if *spread { (2 * k, 2 * k) } else { (0, 0) }, k)).collect();
            if got != want {
                return Err(format!("{} assignments after {} runs: {:?}", got.len(), n, got));
            }
            Ok(())
        },
    ));
    // long amounts next to symbols
    let groups = if thorough { 12 } else { 7 };
    v.push(Space::new(
        "long-amounts",
        &format!("numbers of 1..={} groups with or without a fraction x 5 things before x 5 things after x 0..=3 tokens in front, money layer written in three ways", groups),
        groups * 2 * 5 * 5 * 4 * 3,
        move |i| {
            let mut d = Dec(i);
            let way = d.take(3);
            let around = ["", "$", "€", "$ ", "x"];
            let (b, a) = (around[d.take(5) as usize], around[d.take(5) as usize]);
            let lead = ["", "x ", "$ 1 ", "pay, now: "][d.take(4) as usize];
            let frac = if d.take(2) == 1 { ".50" } else { "" };
            let n = vec!["100"; d.0 as usize + 1].join(",");
            (way, format!("{}{}{}{}{}", lead, b, n, frac, a.chars().rev().collect::<String>()))
        },
        |x: &(u64, String)| format!("text {:?}, money layer written in way {}", x.1, x.0),
        money_case,
    ));
    let max = 2;
    v.push(Space::new(
        "phrases",
        &format!("money layer written in three ways on {}", phrases_rule(max)),
        phrases(max) * 3,
        |i| (i % 3, phrase(i / 3)),
        |x: &(u64, String)| format!("text {:?}, money layer written in way {}", x.1, x.0),
        money_case,
    ));
    v
}
