//! Families of inputs, annotated lines and matcher expressions shared by several properties.

use crate::engine::{seq_at, seqs};
use crate::model::*;
use layered_nlp::TextTag;

// ---- texts -------------------------------------------------------------------------------------

/// One representative (or more) per character class the tokenizer or the word-boundary rules tell apart.
pub const CLASSES: &[char] = &[
    'a', '1', ' ', '.', ',', '\'', 'é', '-', '_', '\n', '"', '\r', '\t', '\u{301}', '\u{200d}', '😀', '٣',
    '\u{1F1EB}', 'カ', 'א', ':', '€', '–',
];

pub const CORE: &[char] = &['a', '1', '.', ' ', '\'', 'é', '0'];

pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("1", ""),
    ("1", "1"),
    ("a", "a"),
    ("", "1"),
    ("a", ""),
    ("", "a"),
    (" ", " "),
    ("1,", ""),
    ("1a", "b2"),
    (".", "."),
    ("a'", ""),
    ("\u{301}", "\u{301}"),
    ("é", "1"),
    ("1", "a"),
    ("\n", "\n"),
];

pub const SCALARS: u64 = 0x110000 - 0x800;

pub fn scalar(i: u64) -> char {
    let cp = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(cp as u32).unwrap()
}

/// Every scalar in every one of `ctxs` (before, after).
pub fn in_context(ctxs: &[(&str, &str)], i: u64) -> String {
    let (a, b) = ctxs[(i / SCALARS) as usize];
    format!("{}{}{}", a, scalar(i % SCALARS), b)
}

pub fn scalars_rule(ctxs: &[(&str, &str)]) -> String {
    format!("every Unicode scalar value in each of {} contexts {:?}", ctxs.len(), ctxs)
}

/// Scalars that text handling likes to treat specially.
pub fn special_scalars(thorough: bool) -> Vec<char> {
    let mut r: Vec<(u32, u32)> = vec![(0, 0x52F), (0x600, 0x61F), (0x200B, 0x2BFF), (0x2E00, 0x303F), (0xFB00, 0xFB1D), (0xFE00, 0xFFFF), (0xE0000, 0xE007F)];
    if thorough {
        r = vec![(0, 0x33FF), (0xA000, 0xABFF), (0xF900, 0xFFFF), (0x1F000, 0x1FAFF), (0xE0000, 0xE01EF)];
    }
    r.into_iter().flat_map(|(a, b)| (a..=b).filter_map(char::from_u32)).collect()
}

/// Pieces of text people write, with the spellings tokenizers are tempted to treat specially.
pub const PHRASES: &[&str] = &[
    "http://a.b/c?d=e&f=1#g", "https://x.org", "www.example.com", "name@example.com", "mailto:a@b", "#general", "@user", "C++", "C#", "node.js", "a/b", "and/or",
    "\\n", "C:\\dir", "/usr/bin", "file.txt", "~", "&amp;", "&nbsp;", "%20", "<b>bold</b>", "<>", "{x}", "[1]", "(a)", "*a*", "_a_", "`a`", "$x", "$1,000.50",
    "€2", "3€", "10%", "20°C", "1st", "21st's", "3D", "4x4", "0x1F", "1e10", "1E-5", "-5", "+5", "½", "²", "1½", "1,234,567.89", "1.234,56", "1'000", "1 000",
    "12:30", "12:30:45.5", "2020-01-31", "31/01/2020", "1.2.3", "192.168.0.1", "555-1234", "+1 (555) 123", "U.S.A.", "e.g.", "Mr.", "...", "…", "--", "—", "–", "'tis", "don't",
    "Don’t", "O'Neill", "rock'n'roll", "peoples'", "well-known", "naïve", "NAÏVE", "cafe\u{301}", "straße", "İstanbul", "ΣΑΣ", "Привет", "שלום", "مرحبا", "١٢٣", "१२३",
    "漢字", "ひらがな", "カタカナ", "한국어", "ไทย", "👨\u{200d}👩\u{200d}👧", "👍🏽", "🇫🇷", "1\u{fe0f}\u{20e3}", "❤\u{fe0f}", "😀", "\u{200b}", "\u{feff}", "\u{ad}", "\u{a0}", "\u{202f}", "\u{3000}", "\t",
    "\n", "\r\n", "\r", "\u{2028}", "\u{85}", "\0", "\u{1b}[31m", "\u{202e}abc\u{202c}", "\u{fffd}", "\u{e000}", "\u{10ffff}", "if", "When", "THEN", "and", "run", "The", "a", "I", "x1", "b2b", "i18n", "COVID-19",
    "R2-D2", "snake_case", "camelCase", "CONST_NAME", "\"quoted\"", "“quoted”", "«a»", "?!", "!!!", ",", ".", ";", ":", "'", "\"", " ", "  ", "null", "None", "undefined", "NaN", "true",
];

/// Texts of one to `max` phrases joined by one of JOINTS.
pub const JOINTS: &[&str] = &[" ", "", ", "];

pub fn phrases(max: u32) -> u64 {
    seqs(PHRASES.len() as u64, 1, max) * JOINTS.len() as u64
}

pub fn phrase(i: u64) -> String {
    let j = JOINTS[(i % JOINTS.len() as u64) as usize];
    seq_at(PHRASES.len() as u64, 1, i / JOINTS.len() as u64).into_iter().map(|k| PHRASES[k]).collect::<Vec<_>>().join(j)
}

pub fn phrases_rule(max: u32) -> String {
    format!("all sequences of 1..={} of {} phrases people write (URLs, addresses, numbers, dates, contractions, markup, scripts, emoji, control characters), joined by each of {:?}", max, PHRASES.len(), JOINTS)
}

pub fn string_over(alpha: &[char], i: u64) -> String {
    seq_at(alpha.len() as u64, 1, i).into_iter().map(|k| alpha[k]).collect()
}

pub fn strings_over(alpha: &[char], max: u32) -> u64 {
    seqs(alpha.len() as u64, 1, max)
}

/// Repetitions of a short unit up to `n` characters.
pub fn long_text(unit: &[char], n: usize) -> String {
    unit.iter().cycle().take(n).collect()
}

// ---- lines -------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Word,
    Letter,
    Comma,
    Space,
    Num,
    /// custom token with a probe
    Val,
    /// custom token without any attribute
    Bare,
    /// a token of TOKENS
    Tok(u8),
    /// a token of TOKENS in the same input as the one before
    Tied(u8),
    /// a token of one character
    Scalar(char),
}

/// Texts that are one token each: all tags, cases, scripts, lengths, blanks and line ends.
pub const TOKENS: &[&str] = &[
    "ab", " ", ",", "7", "$", "Ab", "AB", "don't", "WEIRD", "naïve", "漢", "10", "12345678901234567890123456789012345", "€", "-", "–", "…", ".", "!", ";", ":", "?", "'", "\"", "’",
    "\n", "\t", "\r\n", "\u{a0}", "   ", "\u{2003}", "😀", "👨\u{200d}👩\u{200d}👧", "e\u{301}", "\u{200b}", "\u{301}", "(", "_", "x_y", "<", "if", "and", "then", "a", "b", "é", "ß", "\0",
    "pneumonoultramicroscopicsilicovolcanoconiosispneumonoultramicroscopicsilicovolcanoconiosis", "€\u{301}", "½", "²", "١", "U.S", "\u{fffd}", "#", "&", "@",
    "\r", "\u{85}", "\u{2028}", ")", "%", "/", "0", "1", "İ",
];

#[derive(Clone, Debug)]
pub struct Spec {
    pub kinds: Vec<Kind>,
    pub anns: Vec<(Rng, Val)>,
}

impl Spec {
    pub fn ins(&self) -> Vec<In> {
        let mut out: Vec<In> = Vec::with_capacity(self.kinds.len());
        for (i, k) in self.kinds.iter().enumerate() {
            if let (Kind::Tied(t), Some(In::Text(text, _))) = (k, out.last_mut()) {
                text.push_str(TOKENS[*t as usize]);
                continue;
            }
            out.push(match k {
                Kind::Word => In::Text("ab".into(), vec![]),
                Kind::Letter => In::Text("x".into(), vec![]),
                Kind::Comma => In::Text(",".into(), vec![]),
                Kind::Space => In::Text(" ".into(), vec![]),
                Kind::Num => In::Text("7".into(), vec![]),
                Kind::Val => In::Custom([1, 0, 4, 300, 2, 9][i % 6], vec![Val::P(i)]),
                Kind::Bare => In::Custom([3, 1, 0, 70000][i % 4], vec![]),
                Kind::Tok(t) | Kind::Tied(t) => In::Text(TOKENS[*t as usize].into(), vec![]),
                Kind::Scalar(c) => In::Text(c.to_string(), vec![]),
            });
        }
        out
    }
    pub fn show(&self) -> String {
        let t: Vec<String> = self
            .ins()
            .iter()
            .map(|i| match i {
                In::Text(t, _) => format!("{:?}", t),
                In::Custom(_, a) if a.is_empty() => "<bare>".into(),
                In::Custom(..) => "<>".into(),
            })
            .collect();
        let a: Vec<String> = self.anns.iter().map(|((l, h), v)| format!("{:?}@[{}..{}]", v, l, h)).collect();
        format!("tokens {} annotated {}", t.join(" "), if a.is_empty() { "nothing".into() } else { a.join(", ") })
    }
    /// Can a selection of this range be obtained (a border next to two bare custom tokens cannot)?
    pub fn reachable(&self, r: Rng) -> bool {
        let known = |i: usize| self.kinds.get(i).map_or(false, |k| *k != Kind::Bare);
        let left = r.0 == 0 || known(r.0 - 1) || known(r.0);
        let right = r.1 + 1 == self.kinds.len() || known(r.1 + 1) || known(r.1);
        left && right
    }
    pub fn feasible(&self) -> bool {
        if self.kinds.iter().any(|k| matches!(k, Kind::Tied(_) | Kind::Tok(_))) {
            // tokens that would run together
            let n: usize = self.ins().iter().map(|i| if let In::Text(t, _) = i { tokenize(t).len() } else { 1 }).sum();
            if n != self.kinds.len() {
                return false;
            }
        }
        self.anns.iter().all(|(r, _)| self.reachable(*r))
    }
}

pub fn ranges(n: usize) -> Vec<Rng> {
    let mut v = Vec::new();
    for w in 0..n {
        for lo in 0..n - w {
            v.push((lo, lo + w));
        }
    }
    v
}

/// All lines with `lo..=hi` tokens of the given kinds and all sequences of up to `max_anns` annotations
/// over all ranges and the given values.
#[derive(Clone)]
pub struct Lines {
    pub kinds: Vec<Kind>,
    pub vals: Vec<Val>,
    pub lo: usize,
    pub hi: usize,
    pub min_anns: u32,
    pub max_anns: u32,
}

impl Lines {
    fn block(&self, n: usize) -> (u64, u64) {
        let k = (self.kinds.len() as u64).pow(n as u32);
        let a = seqs((ranges(n).len() * self.vals.len()) as u64, self.min_anns, self.max_anns);
        (k, a)
    }
    pub fn size(&self) -> u64 {
        (self.lo..=self.hi).map(|n| { let (k, a) = self.block(n); k * a }).sum()
    }
    pub fn at(&self, mut i: u64) -> Spec {
        for n in self.lo..=self.hi {
            let (k, a) = self.block(n);
            if i >= k * a {
                i -= k * a;
                continue;
            }
            let ki = i % k;
            let ai = i / k;
            let kinds = if n == 0 { vec![] } else {
                let mut v = ki;
                (0..n).map(|_| { let d = v % self.kinds.len() as u64; v /= self.kinds.len() as u64; self.kinds[d as usize] }).collect()
            };
            let rs = ranges(n);
            let anns = seq_at((rs.len() * self.vals.len()) as u64, self.min_anns, ai)
                .into_iter()
                .map(|s| (rs[s / self.vals.len()], self.vals[s % self.vals.len()].clone()))
                .collect();
            return Spec { kinds, anns };
        }
        unreachable!()
    }
    pub fn rule(&self) -> String {
        format!(
            "all lines of {}..={} tokens over {:?} with all sequences of {}..={} annotations over all token ranges and {:?}",
            self.lo, self.hi, self.kinds, self.min_anns, self.max_anns, self.vals
        )
    }
}

/// Long regular lines: `n` tokens cycling through a kind pattern, annotations of width `w` every `step`
/// tokens from `off`, forwards or backwards in order, optionally doubled with another value.
#[derive(Clone)]
pub struct LongLines {
    pub max: usize,
    pub stride: usize,
}

const PATTERNS: &[&[Kind]] = &[
    &[Kind::Word],
    &[Kind::Word, Kind::Space],
    &[Kind::Letter, Kind::Comma, Kind::Val],
    &[Kind::Word, Kind::Space, Kind::Num, Kind::Comma, Kind::Val],
];
const WIDTHS: &[usize] = &[1, 2, 3, 7];
const STEPS: &[usize] = &[1, 2, 5];

impl LongLines {
    pub fn size(&self) -> u64 {
        (self.max / self.stride * PATTERNS.len() * WIDTHS.len() * STEPS.len() * 4) as u64
    }
    pub fn at(&self, i: u64) -> Spec {
        let mut i = i as usize;
        let mut take = |n: usize| { let r = i % n; i /= n; r };
        let pat = PATTERNS[take(PATTERNS.len())];
        let w = WIDTHS[take(WIDTHS.len())];
        let step = STEPS[take(STEPS.len())];
        let rev = take(2) == 1;
        let double = take(2) == 1;
        let n = (i + 1) * self.stride;
        let kinds: Vec<Kind> = (0..n).map(|k| pat[k % pat.len()]).collect();
        let mut anns = Vec::new();
        let mut k = 0;
        while k < n {
            let r = (k, (k + w - 1).min(n - 1));
            anns.push((r, Val::A((k % 3) as u8)));
            if double {
                anns.push((r, Val::A(((k + 1) % 3) as u8)));
            }
            k += step;
        }
        if rev {
            anns.reverse();
        }
        // a second type over everything and over the last token
        anns.push(((0, n - 1), Val::B(0)));
        anns.push(((n - 1, n - 1), Val::B(1)));
        Spec { kinds, anns }
    }
    pub fn rule(&self) -> String {
        format!(
            "all regular lines of {0},{0}*2,..,{1} tokens x {2} token patterns x annotation widths {3:?} x steps {4:?} x both orders x single/double values",
            self.stride, self.max, PATTERNS.len(), WIDTHS, STEPS
        )
    }
}

// ---- scale -------------------------------------------------------------------------------------

/// Sizes around which bounded tables, bit masks and narrow integers give out.
pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut v = vec![31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 513, 1025];
    if thorough {
        v.extend([511, 512, 514, 640, 1000, 1023, 1024, 1026, 1500, 2049]);
    }
    v
}

/// The same for characters.
pub fn text_sizes(thorough: bool) -> Vec<usize> {
    let mut v = vec![200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097];
    if thorough {
        v.extend([800, 2000, 2047, 2048, 3000, 5000, 8191, 8192, 8193, 10000]);
    }
    v
}

/// Lines of those sizes, each in a few shapes.
#[derive(Clone)]
pub struct ScaleLines {
    pub sizes: Vec<usize>,
}

const SHAPES: u64 = 12;

impl ScaleLines {
    pub fn new(thorough: bool) -> ScaleLines {
        ScaleLines { sizes: [6, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 28].into_iter().chain(sizes(thorough)).collect() }
    }
    pub fn size(&self) -> u64 {
        self.sizes.len() as u64 * SHAPES
    }
    pub fn at(&self, i: u64) -> Spec {
        let n = self.sizes[(i / SHAPES) as usize];
        let pat = |p: &[Kind]| (0..n).map(|k| p[k % p.len()]).collect::<Vec<_>>();
        let a = |k: usize| Val::A((k % 3) as u8);
        let mut s = match i % SHAPES {
            // every token annotated
            0 => Spec { kinds: pat(&[Kind::Word]), anns: (0..n).map(|k| ((k, k), a(k))).collect() },
            // words and blanks, pairs
            1 => Spec { kinds: pat(&[Kind::Word, Kind::Space]), anns: (0..n - 1).step_by(2).map(|k| ((k, k + 1), a(k))).collect() },
            // every prefix
            2 => Spec { kinds: pat(&[Kind::Letter]), anns: (0..n).map(|k| ((0, k), a(k))).collect() },
            // every suffix, and one more token
            3 => Spec { kinds: pat(&[Kind::Word, Kind::Comma]), anns: (0..n).map(|k| ((k, n - 1), a(k))).collect() },
            // many values on one span
            4 => Spec { kinds: vec![Kind::Word, Kind::Comma, Kind::Word, Kind::Space], anns: (0..n).map(|k| ((1, 2), Val::A((k % 251) as u8))).collect() },
            // everything at once, backwards
            5 => Spec {
                kinds: pat(&[Kind::Word, Kind::Space, Kind::Num, Kind::Comma, Kind::Val]),
                anns: (0..n).rev().flat_map(|k| [((k, (k + 2).min(n - 1)), a(k)), ((k, k), a(k + 1))]).collect(),
            },
            // few annotations, far apart
            6 => Spec { kinds: pat(&[Kind::Word]), anns: vec![((0, 0), a(0)), ((n - 1, n - 1), a(1)), ((1, n - 2), a(0)), ((0, n - 1), a(2))] },
            // many values on many spans from one token of a short line
            7 => Spec {
                kinds: vec![Kind::Word; 5],
                anns: (0..n).map(|k| ((1, 1 + k % 4), Val::A((k % 7) as u8))).collect(),
            },
            // every token, and later every token again
            8 => Spec { kinds: pat(&[Kind::Word, Kind::Space]), anns: (0..n).chain(0..n).enumerate().map(|(j, k)| ((k, k), a(j + j / n))).collect() },
            // pairs forwards, again backwards
            9 => Spec {
                kinds: pat(&[Kind::Letter, Kind::Num]),
                anns: (0..n - 1).chain((0..n - 1).rev()).enumerate().map(|(j, k)| ((k, k + 1), a(j + j / n))).collect(),
            },
            // prefixes or suffixes, the first of them again at the end, and in the middle
            10 => Spec {
                kinds: pat(&[Kind::Word, Kind::Comma]),
                anns: (0..n).chain([0, 1, n / 2]).map(|k| ((0, k), a(k))).chain((0..n).chain([n - 1, 0, n / 2]).map(|k| ((k, n - 1), a(k + 1)))).collect(),
            },
            // nothing but tokens
            _ => Spec { kinds: pat(&[Kind::Word, Kind::Space, Kind::Word, Kind::Comma, Kind::Val, Kind::Comma]), anns: vec![] },
        };
        let last = s.kinds.len() - 1;
        s.anns.push(((0, last), Val::B(0)));
        s.anns.push(((last, last), Val::B(1)));
        s
    }
    pub fn show(s: &Spec) -> String {
        format!(
            "{} tokens {:?}.., {} annotations {:?} .. {:?}",
            s.kinds.len(),
            &s.kinds[..s.kinds.len().min(6)],
            s.anns.len(),
            &s.anns[..s.anns.len().min(4)],
            s.anns.last()
        )
    }
    /// Leaves out the matchers whose number of matches is the square of the number of values on one span.
    pub fn matchers(s: &Spec, ms: &[Mx]) -> Vec<Mx> {
        let crowded = s.anns.len() > 40 && s.kinds.len() < 6;
        ms.iter()
            .filter(|m| !(crowded && matches!(m, Mx::All2(..) | Mx::All3(..) | Mx::Seq2(..) | Mx::Seq3(..) | Mx::Any2(..) if **m != Mx::All2(Box::new(Mx::AttrA), Box::new(Mx::Text)))))
            .cloned()
            .collect()
    }
    pub fn rule(&self) -> String {
        format!("lines of {:?} tokens (or annotations) in {} shapes", self.sizes, SHAPES)
    }
}

/// Lines of more tokens than two bytes count: custom tokens but for a few around the borders.
pub const HUGE_SHAPES: u64 = 5;

pub fn huge_line(i: u64) -> Spec {
    let n = [65600, 65600, 65537, 65536, 131_100][i as usize];
    let near = |k: usize| k < 4 || k + 4 > n || k.abs_diff(65536) < 5 || (n > 131_072 && k.abs_diff(131_072) < 3);
    let kinds = (0..n)
        .map(|k| if !near(k) { Kind::Bare } else if i == 1 && k % 3 == 0 { Kind::Val } else if k % 4 == 2 { Kind::Space } else { Kind::Word })
        .collect();
    let last = n - 1;
    let mut at: Vec<Rng> = match i {
        // single tokens and neighbours
        0 | 4 => vec![(0, 0), (65535, 65535), (65536, 65536), (65537, 65537), (65535, 65536), (65536, 65538), (65534, 65535), (1, 1), (last, last)],
        // wide spans
        1 => vec![(0, 65535), (0, 65536), (65535, last), (65536, last), (1, 65537), (0, 0), (65536, 65536), (2, last - 1)],
        _ => vec![(0, 0), (last, last), (0, last), (last - 1, last), (0, last - 1), (1, last)],
    };
    if i == 4 {
        at.extend([(131_071, 131_071), (131_072, 131_072), (65536, 131_072), (0, 131_072)]);
    }
    let mut anns: Vec<(Rng, Val)> = at.into_iter().enumerate().map(|(k, r)| (r, Val::A((k % 3) as u8))).collect();
    anns.push(((0, last), Val::B(0)));
    anns.push(((last, last), Val::B(1)));
    Spec { kinds, anns }
}

pub fn huge_matchers() -> Vec<Mx> {
    vec![
        Mx::AttrA,
        Mx::AttrB,
        Mx::EqA(A(0)),
        Mx::HasA(vec![A(1), A(0)]),
        Mx::Text,
        Mx::Seq2(b(&Mx::AttrA), b(&Mx::AttrA)),
        Mx::Seq2(b(&Mx::Text), b(&Mx::Text)),
        Mx::All2(b(&Mx::AttrA), b(&Mx::Text)),
        Mx::Any2(b(&Mx::Ws), b(&Mx::AttrA)),
        Mx::EqTag(TextTag::WORD),
    ]
}

pub const HUGE_RULE: &str = "lines of 65536, 65537, 65600 and 131100 tokens with annotations around the ends, 65536 and 131072 x 10 matchers";

/// Lines of all pairs of TOKENS: one, the other and again the one, in inputs of their own or in one; around a custom
/// token; with no annotation or one on any range.
pub fn token_lines() -> u64 {
    (TOKENS.len() * TOKENS.len() * 3 * 7) as u64
}

pub fn token_line(i: u64) -> Spec {
    let mut d = crate::engine::Dec(i);
    let n = TOKENS.len() as u64;
    let (t, u) = (d.take(n) as u8, d.take(n) as u8);
    let kinds = match d.take(3) {
        0 => vec![Kind::Tok(t), Kind::Tok(u), Kind::Tok(t)],
        1 => vec![Kind::Tok(t), Kind::Bare, Kind::Tok(u)],
        _ => vec![Kind::Tied(t), Kind::Tied(u), Kind::Tied(t)],
    };
    let anns = if d.0 == 0 { vec![] } else { vec![(ranges(3)[d.0 as usize - 1], Val::A(0))] };
    Spec { kinds, anns }
}

pub fn token_lines_rule() -> String {
    format!("all pairs of {} token texts (all tags, cases, scripts, blanks, line ends), as one, other, one in three inputs or (where they stay apart) in one, or around a custom token, with no annotation or one on any range", TOKENS.len())
}

/// These and lines of all triples, in inputs of their own, with no annotation or one on the middle one.
pub fn all_token_lines() -> u64 {
    token_lines() + (TOKENS.len() * TOKENS.len() * TOKENS.len() * 2) as u64
}

pub fn any_token_line(i: u64) -> Spec {
    if i < token_lines() {
        return token_line(i);
    }
    let mut d = crate::engine::Dec(i - token_lines());
    let n = TOKENS.len() as u64;
    let kinds = (0..3).map(|_| Kind::Tok(d.take(n) as u8)).collect();
    Spec { kinds, anns: if d.0 == 0 { vec![] } else { vec![((1, 1), Val::A(0))] } }
}

pub fn all_token_lines_rule() -> String {
    format!("{}; all triples of them in inputs of their own, with no annotation or one on the middle one", token_lines_rule())
}

/// Lines of one text.
pub fn one_text() -> Lines {
    Lines { kinds: vec![Kind::Tied(0), Kind::Tied(1), Kind::Tied(2), Kind::Tied(3), Kind::Val], vals: vec![Val::A(0)], lo: 1, hi: 4, min_anns: 0, max_anns: 1 }
}

/// Every Unicode scalar as a token between two others.
pub fn scalar_line(i: u64) -> Spec {
    Spec { kinds: vec![Kind::Word, Kind::Scalar(scalar(i)), Kind::Comma], anns: vec![((1, 1), Val::A(0)), ((0, 1), Val::B(0))] }
}

pub const SCALAR_LINES: &str = "every Unicode scalar value as the second of three tokens";

pub fn scalar_matchers(s: &Spec) -> Vec<Mx> {
    let Kind::Scalar(ch) = s.kinds[1] else { return vec![] };
    vec![Mx::Text, Mx::Ws, Mx::AttrTag, Mx::EqChar(ch), Mx::HasTag(vec![TextTag::PUNC, TextTag::SYMB]), Mx::Seq2(b(&Mx::AttrChar), b(&Mx::Text)), Mx::AttrA]
}

// ---- matcher expressions -------------------------------------------------------------------------

fn b(m: &Mx) -> Box<Mx> {
    Box::new(m.clone())
}

pub fn leaves() -> Vec<Mx> {
    vec![
        Mx::AttrA,
        Mx::AttrB,
        Mx::AttrTag,
        Mx::AttrChar,
        Mx::EqA(A(0)),
        Mx::EqA(A(1)),
        Mx::EqB(B(0)),
        Mx::EqTag(TextTag::WORD),
        Mx::EqChar(','),
        Mx::HasA(vec![]),
        Mx::HasA(vec![A(0)]),
        Mx::HasA(vec![A(1), A(0)]),
        Mx::HasTag(vec![TextTag::PUNC, TextTag::WORD]),
        Mx::HasChar(vec![',', 'x']),
        Mx::Text,
        Mx::Ws,
    ]
}

/// Every combinator over every tuple of `base`.
pub fn combine(base: &[Mx], triples: &[Mx]) -> Vec<Mx> {
    let mut out = Vec::new();
    for p in base {
        for q in base {
            out.push(Mx::Seq2(b(p), b(q)));
            out.push(Mx::All2(b(p), b(q)));
            out.push(Mx::Any2(b(p), b(q)));
        }
    }
    for p in triples {
        for q in triples {
            for r in triples {
                out.push(Mx::Seq3(b(p), b(q), b(r)));
                out.push(Mx::All3(b(p), b(q), b(r)));
                out.push(Mx::Any3(b(p), b(q), b(r)));
            }
        }
    }
    out
}

/// Leaves, all binary combinators over `base`, all ternary ones over `triples`, and all binary
/// combinators with one side replaced by a binary combination over `nest`.
pub fn expressions(base: &[Mx], triples: &[Mx], nest: &[Mx]) -> Vec<Mx> {
    let mut out = leaves();
    out.extend(combine(base, triples));
    let inner = combine(nest, &[]);
    for i in &inner {
        for l in nest {
            for (p, q) in [(i, l), (l, i)] {
                out.push(Mx::Seq2(b(p), b(q)));
                out.push(Mx::All2(b(p), b(q)));
                out.push(Mx::Any2(b(p), b(q)));
            }
        }
    }
    out
}

pub fn quick_expressions() -> Vec<Mx> {
    let base = vec![
        Mx::AttrA,
        Mx::AttrB,
        Mx::EqA(A(0)),
        Mx::HasA(vec![A(0)]),
        Mx::Text,
        Mx::HasChar(vec![',']),
    ];
    expressions(&base, &[Mx::AttrA, Mx::AttrB, Mx::Text], &[Mx::AttrA, Mx::AttrB])
}

pub fn thorough_expressions() -> Vec<Mx> {
    let base = leaves();
    expressions(
        &base,
        &[Mx::AttrA, Mx::AttrB, Mx::Text, Mx::EqA(A(1)), Mx::HasA(vec![A(0)])],
        &[Mx::AttrA, Mx::AttrB, Mx::Text],
    )
}

/// Matchers for the selection operations.
pub fn selection_matchers() -> Vec<Mx> {
    let mut v = leaves();
    let two = |p: Mx, q: Mx| Mx::Seq2(Box::new(p), Box::new(q));
    v.push(Mx::EqA(A(9)));
    v.push(two(Mx::AttrA, Mx::AttrA));
    v.push(two(Mx::Text, Mx::Text));
    v.push(two(Mx::AttrA, Mx::Text));
    v.push(two(Mx::Text, Mx::AttrA));
    v.push(Mx::Seq3(b(&Mx::Text), b(&Mx::Text), b(&Mx::Text)));
    v.push(Mx::Seq3(b(&Mx::AttrA), b(&Mx::Text), b(&Mx::AttrA)));
    v.push(Mx::All2(b(&Mx::AttrA), b(&Mx::Text)));
    v.push(Mx::All2(b(&Mx::AttrA), b(&Mx::AttrA)));
    v.push(Mx::Any2(b(&Mx::AttrA), b(&Mx::Ws)));
    v.push(Mx::Any2(b(&Mx::Ws), b(&Mx::AttrA)));
    v.push(Mx::Any3(b(&Mx::AttrB), b(&Mx::EqA(A(0))), b(&Mx::Text)));
    v.push(Mx::Any2(b(&two(Mx::AttrA, Mx::AttrA)), b(&Mx::AttrTag)));
    v.push(two(Mx::EqA(A(0)), Mx::EqA(A(0))));
    v.push(Mx::All2(b(&Mx::EqA(A(0))), b(&Mx::EqA(A(0)))));
    v.push(Mx::All2(b(&Mx::EqTag(TextTag::WORD)), b(&Mx::Text)));
    v.push(Mx::Any2(b(&Mx::EqA(A(1))), b(&Mx::EqA(A(0)))));
    v
}

static FST: &[u8] = include_bytes!("../../data/english-word-tags.fst");

/// The words of the part-of-speech dictionary.
pub fn dictionary() -> Vec<String> {
    use fst::Streamer;
    let map = fst::Map::new(FST).expect("dictionary");
    let mut out = Vec::new();
    let mut s = map.stream();
    while let Some((k, _)) = s.next() {
        if let Ok(w) = std::str::from_utf8(k) {
            if !w.is_empty() {
                out.push(w.to_string());
            }
        }
    }
    out
}
