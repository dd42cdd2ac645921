# Planted bugs, written from the property texts and the code.
PRE = '''#![allow(unused_imports, deprecated)]
use layered_nlp::*;
use std::rc::Rc;
#[derive(Debug, Clone, PartialEq)]
struct A(u32);
#[derive(Debug, Clone, PartialEq)]
struct B(u32);
/// A resolver made from a function.
struct By<T, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>>(F, std::marker::PhantomData<T>);
impl<T: std::fmt::Debug + Send + Sync + 'static, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>> Resolver for By<T, F> {
    type Attr = T;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<T>> { (self.0)(s) }
}
fn by<T: std::fmt::Debug + Send + Sync + 'static, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>>(f: F) -> By<T, F> { By(f, std::marker::PhantomData) }
/// The selection of tokens lo..=hi.
fn span(s: &LLSelection, lo: usize, hi: usize) -> LLSelection {
    let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect();
    let mut r = s.clone();
    if hi + 1 < t.len() { r = r.split_with(&t[hi + 1])[0].clone().unwrap(); }
    if lo > 0 { r = r.split_with(&t[lo - 1])[1].clone().unwrap(); }
    r
}
/// Assigns values of one type to token ranges, in order, in one run.
fn put<T: std::fmt::Debug + Send + Sync + Clone + 'static>(l: LLLine, v: Vec<(usize, usize, T)>) -> LLLine {
    l.run(&by(move |s: LLSelection| v.iter().map(|(a, b, x)| span(&s, *a, *b).finish_with_attr(x.clone())).collect()))
}
fn whole(l: LLLine) -> LLSelection { LLSelection::from_line(Rc::new(l)).unwrap() }
'''
CT = "src/create_tokens.rs"; WT = "src/create_tokens/get_word_tag.rs"; LL = "src/ll_line.rs"; SEL = "src/ll_line/ll_selection.rs"
X = "src/ll_line/x.rs"; DISP = "src/ll_line/display.rs"; TB = "src/type_bucket.rs"; TM = "src/type_id_to_many.rs"; TXT = "src/resolvers/text_match.rs"
AM = "layered-amount/src/amounts.rs"; CL = "layered-clauses/src/clauses.rs"; CK = "layered-clauses/src/clause_keyword.rs"; POS = "layered-part-of-speech/src/lib.rs"
BUGS = []
def bug(id, property, edits, demo, needs, breaks, pre=PRE):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=pre + demo, needs=needs, breaks=breaks))

bug("c01-keycap", "C01", [(CT, "                    if ch.is_ascii_digit() {\n                        insert_collected_letters!();",
"                    if ch == '\\u{fe0f}' {\n                        // presentation selector, has no text of its own\n                        continue;\n                    } else if ch.is_ascii_digit() {\n                        insert_collected_letters!();")],
'''fn main() {
    let t = "press 1\\u{fe0f}\\u{20e3} now";
    let l = create_line_from_string(t);
    let s: String = l.ll_tokens().iter().map(|t| match t.get_token() { LToken::Text(s, _) => s.as_str(), _ => "" }).collect();
    assert_eq!(s, t);
}''', "a digit followed by the emoji presentation selector (keycap emoji)", "the selector is dropped, so the tokens no longer add up to the text")

bug("c02-wide-space", "C02", [(WT, "        if !c.is_whitespace() {", "        if !(c.is_ascii_whitespace() || c == '\\u{a0}') {")],
'''fn main() {
    let l = create_line_from_string("a\\u{3000}b");
    assert_eq!(l.find(&x::attr_eq(&TextTag::SPACE)).len(), 1);
}''', "a whitespace character beyond ASCII and no-break space", "ideographic and other Unicode spaces are tagged as symbols")

bug("c03-digit-size", "C03", [(CT, "                            let size = get_text_size(&collected_digits);", "                            // digits are ASCII, one unit each\n                            let size = collected_digits.len();")],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a 12 b".into(), vec![])], |_| 3);
    let p: Vec<_> = l.find(&x::token_text()).iter().map(|f| f.range()).collect();
    assert_eq!(p, vec![(0, 3), (3, 6), (6, 9), (9, 12), (12, 15)]);
}''', "a measure that is not a character count, and a number in the text", "digit tokens are measured in characters instead of by the caller's measure")

bug("c04-single-letter", "C04", [(LL, "                        attrs.insert((token_idx, token_idx), c);", "                        if *tag != TextTag::WORD {\n                            attrs.insert((token_idx, token_idx), c);\n                        }")],
'''fn main() {
    let l = create_line_from_string("5 a");
    let q: Vec<char> = l.query::<char>().iter().map(|(_, _, v)| *v[0]).collect();
    assert_eq!(q, vec!['5', ' ', 'a']);
}''', "a word of a single letter", "single letters get no character attribute")

bug("c05-repeats", "C05", [(LL, "        // store new attributes generated by the resolver\n        for LLCursorAssignment {",
"        // store new attributes generated by the resolver\n        let mut previous = None;\n        for LLCursorAssignment {"),
(LL, "            self.attrs.insert((start_idx, end_idx), value);\n        }\n\n        self\n",
"            // the same match can be reported twice (forwards and backwards)\n            let key = (start_idx, end_idx, format!(\"{:?}\", value));\n            if start_idx != end_idx && previous.as_ref() == Some(&key) {\n                continue;\n            }\n            previous = Some(key);\n            self.attrs.insert((start_idx, end_idx), value);\n        }\n\n        self\n")],
'''fn main() {
    let l = put(create_line_from_string("a b"), vec![(0, 1, A(1)), (0, 1, A(1))]);
    assert_eq!(l.query::<A>()[0].2.len(), 2);
}''', "two equal values assigned one after the other to one multi-token span in one run", "the second assignment is lost")

bug("c06-interleaved-spans", "C06", [(TM, "        let entry = self.map.entry(TypeId::of::<Type>()).or_default();\n\n        if !entry.contains(&value_to_add) {",
"        let entry = self.map.entry(TypeId::of::<Type>()).or_default();\n\n        // equal values arrive one after the other\n        if entry.last() != Some(&value_to_add) {")],
'''fn main() {
    let l = put(create_line_from_string("a b"), vec![(0, 1, A(1)), (0, 0, A(2)), (0, 1, A(3))]);
    let q: Vec<_> = l.query::<A>().iter().map(|(r, _, v)| (*r, v.len())).collect();
    assert_eq!(q, vec![((0, 1), 2), ((0, 0), 1)]);
}''', "values of one type on two spans assigned alternately", "a span is listed twice, and its values are found twice")

bug("c07-all-interleaved", "C07", [("src/ll_line/x/all.rs", "                bs.iter().filter_map(move |(b, b_to_idx)| {\n                    if a_to_idx == *b_to_idx {\n                        Some(((a, *b), a_to_idx))\n                    } else {\n                        None\n                    }\n                })",
"                // candidates come grouped by where they end\n                bs.iter()\n                    .skip_while(move |(_, b_to_idx)| a_to_idx != *b_to_idx)\n                    .take_while(move |(_, b_to_idx)| a_to_idx == *b_to_idx)\n                    .map(move |(b, _)| ((a, *b), a_to_idx))")],
'''fn main() {
    let l2 = put(create_line_from_string("a b c d"), vec![(0, 1, A(1)), (0, 0, A(2))]);
    let l2 = put(l2, vec![(2, 2, B(1)), (1, 1, B(2)), (1, 2, B(3))]);
    // chains: A1+B1 -> 2, A2+B2 -> 1, A2+B3 -> 2 : ends 2, 1, 2
    let c = x::seq((x::attr::<A>(), x::attr::<B>()));
    let d = x::seq((x::attr::<A>(), x::attr::<B>()));
    assert_eq!(l2.find(&x::all((c, d))).iter().filter(|f| f.range().0 == 0).count(), 4 + 1);
}''', "'all' over a matcher whose results end at token 2, then 1, then 2 again", "combinations behind the first group of equal ends are lost")

bug("c08-eq-backwards", "C08", [(X, '''            .expect("Huh... match_backwards was out of LLLine")
            .get::<T>()
            .iter()
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .filter_map(move |val| {
                        if val == equals {
                            Some(((), ToIdx(range.0)))
                        } else {
                            None
                        }
                    })
            })
            .collect()''', '''            .expect("Huh... match_backwards was out of LLLine")
            .get::<T>()
            .iter()
            .filter(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .contains(equals)
            })
            .map(|range| ((), ToIdx(range.0)))
            .collect()''')],
'''fn main() {
    let l = put(create_line_from_string("a b"), vec![(0, 0, A(1)), (0, 0, A(1))]);
    let s = whole(l);
    let last = s.find_by(&x::token_text()).pop().unwrap().0;
    let first = s.find_by(&x::token_text()).remove(0).0;
    let mid = s.split_with(&first)[1].clone().unwrap();
    let _ = last;
    assert_eq!(mid.match_backwards(&x::attr_eq(&A(1))).len(), 2);
}''', "two equal values on one span, matched backwards by equality", "backwards gives one result where forwards gives two")

bug("c09-first-shortest", "C09", [(SEL, "        self.find_by(matcher).into_iter().next()", "        // the leftmost match, shortest first\n        self.find_by(matcher)\n            .into_iter()\n            .min_by_key(|(selection, _)| (selection.start_idx, selection.end_idx))")],
'''fn main() {
    let s = whole(put(create_line_from_string("a b"), vec![(0, 2, A(1)), (0, 0, A(2))]));
    assert_eq!(s.find_first_by(&x::attr::<A>()).unwrap().1, &A(1));
}''', "two matches from one token, the longer one annotated first", "the first match is not the head of the list of matches")

bug("c10-first-longest", "C10", [(SEL, "        self.match_backwards(matcher).into_iter().next()", "        // the first match that reaches furthest\n        self.match_backwards(matcher)\n            .into_iter()\n            .rev()\n            .min_by_key(|(selection, _)| selection.start_idx)")],
'''fn main() {
    let s = whole(put(create_line_from_string("a b c"), vec![(2, 2, A(1)), (0, 2, A(2))]));
    let c = span(&s, 4, 4);
    let p = span(&s, 3, 4);
    assert!(c != p);
    assert_eq!(p.match_first_backwards(&x::attr::<A>()).unwrap().1, &A(1));
}''', "two matches ending before the selection, the shorter one annotated first", "the first variant returns another match than the head of the list")

bug("c11-same-start", "C11", [(SEL, "        if matches.len() == 1 {", "        let first_idx = matches[0].0.start_idx;\n        if matches.iter().all(|(m, _)| m.start_idx == first_idx) {")],
'''fn main() {
    let s = whole(put(create_line_from_string("a b c"), vec![(1, 1, A(1)), (1, 3, A(2))]));
    let p = s.split_by(&x::attr::<A>());
    assert!(p == vec![span(&s, 0, 0), span(&s, 4, 4)], "{:?}", p);
}''', "several matches, all from one token, the first not the longest", "a piece contains tokens that belong to a match")

bug("c12-end-inside", "C12", [(SEL, '''                    &XBackwards {
                        from_idx: self.end_idx,
                    },
                    &self.ll_line,
                )
                .first()''', '''                    &XBackwards {
                        from_idx: self.end_idx,
                    },
                    &self.ll_line,
                )
                .iter()
                .find(|candidate| (candidate.1).0 >= self.start_idx)''')],
'''fn main() {
    let s = whole(put(create_line_from_string("a b c"), vec![(0, 3, A(1)), (3, 3, A(2))]));
    let t = span(&s, 1, 3);
    assert!(t.trim_end(&x::attr::<A>()).is_none());
}''', "the first backwards match reaches beyond the selection's start and a later one does not", "trimming the end removes a later match instead of the first")

bug("c13-disjoint", "C13", [(SEL, "        // 1   [          ]\n        // 2                   [      ]\n        //     [          ]\n        //               ]      [\n",
"        // 1   [          ]\n        // 2                   [      ]\n        //     [          ]\n        if other_selection.start_idx > self.end_idx || other_selection.end_idx < self.start_idx {\n            // nothing in common\n            return [Some(self.clone()), None];\n        }\n\n")],
'''fn main() {
    let s = whole(create_line_from_string("a b c"));
    let [l, r] = span(&s, 3, 4).split_with(&span(&s, 0, 1));
    assert!(l.is_none() && r == Some(span(&s, 3, 4)));
}''', "the other selection lies completely before this one", "the part after the other selection is reported as the part before it")

bug("c14-equality", "C14", [(SEL, "            && Rc::ptr_eq(&self.ll_line, &other.ll_line)", "            && self.ll_line.ll_tokens.len() == other.ll_line.ll_tokens.len()")],
'''fn main() {
    assert!(whole(create_line_from_string("a b")) != whole(create_line_from_string("c d")));
}''', "selections of two lines of one length", "selections of different lines compare equal")

bug("c15-empty-tokens", "C15", [(LL, "        (0..self.ll_tokens.len())\n            .flat_map(|i| {\n                let forwards", "        (0..self.ll_tokens.len())\n            // positions without extent cannot be shown\n            .filter(|i| self.pos_start_at(*i) < self.pos_end_at(*i))\n            .flat_map(|i| {\n                let forwards")],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![AnyAttribute::new(A(1))])], |s| s.len());
    assert_eq!(l.find(&x::attr::<A>()).len(), 1);
}''', "a match that begins at a token of size zero", "the line search misses it, the selection search finds it")

bug("c16-ascii-case", "C16", [(TXT, "self.lookup.get(&text.to_lowercase())", "self.lookup.get(&text.to_ascii_lowercase())")],
'''fn main() {
    let l = create_line_from_string("CAFÉ").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("Café", A(1))]));
    assert_eq!(l.query::<A>().len(), 1);
}''', "a key with a non-ASCII letter written in upper case in the text", "the token is not matched")

bug("c17-mark-after-delimiter", "C17", [(AM, "            if last_valid_selection.is_none() {\n                // 100,,20\n                if let Some((with_decimal_sel, _)) =\n                    selection.match_first_forwards(&x::token_has_any(&[self.decimal]))\n                {\n                    last_valid_selection = Some(selection);\n                    number_string.push('.');\n                    selection = with_decimal_sel;\n                }\n\n                if",
"            {\n                // 100,,20\n                if let Some((with_decimal_sel, _)) =\n                    selection.match_first_forwards(&x::token_has_any(&[self.decimal]))\n                {\n                    last_valid_selection = last_valid_selection.or(Some(selection));\n                    number_string.push('.');\n                    selection = with_decimal_sel;\n                }\n\n                if")],
'''fn main() {
    let l = create_line_from_string("1,.5").run(&layered_amount::AmountResolver::english());
    let v: Vec<String> = l.query::<layered_amount::Amount>().iter().map(|(_, t, _)| t.clone()).collect();
    assert_eq!(v, vec!["1", "5"]);
}''', "a delimiter directly followed by the decimal mark and digits", "the number is read across a delimiter that is followed by no digits")

bug("c18-french-apostrophe", "C18", [(AM, "            delimiters: vec![' ', '.', '\\''],", "            delimiters: vec![' ', '.', '’'],")],
'''fn main() {
    let l = create_line_from_string("1'000'240,00").run(&layered_amount::AmountResolver::french());
    let q = l.query::<layered_amount::Amount>();
    assert_eq!(q.len(), 1);
    assert_eq!(q[0].2[0].get_decimal().to_string(), "1000240.00");
}''', "a French number with apostrophes", "the documented reading is broken into several amounts")

bug("c19-ascii-case", "C19", [(CK, "                let text = text.to_lowercase();", "                let text = text.to_ascii_lowercase();")],
'''fn main() {
    use layered_clauses::*;
    let l = create_line_from_string("DÈS lundi").run(&ClauseKeywordResolver::new(&["dès"], &["et"], &["alors"]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 1);
}''', "a keyword with a non-ASCII letter, in upper case", "the keyword is not recognised")

bug("c20-then", "C20", [(CL, "                            ClauseKeyword::Then => Some(\n                                trimmed_clause_selection.finish_with_attr(Clause::TrailingEffect),\n                            ),",
"                            ClauseKeyword::Then => {\n                                // what follows belongs to the effect, too\n                                condition_clause_found = true;\n\n                                Some(\n                                    trimmed_clause_selection\n                                        .finish_with_attr(Clause::TrailingEffect),\n                                )\n                            }")],
'''fn main() {
    use layered_clauses::*;
    let l = create_line_from_string("wash then dry and fold")
        .run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let q: Vec<Clause> = l.query::<Clause>().iter().map(|(_, _, v)| v[0].clone()).collect();
    assert_eq!(q, vec![Clause::LeadingEffect, Clause::TrailingEffect, Clause::LeadingEffect]);
}''', "a 'then' without a condition before it, and another stretch behind it", "a leading effect becomes a trailing effect")

bug("c21-possessive", "C21", [(POS, "                    .get(&word.to_lowercase())", "                    .get(word.to_lowercase().trim_end_matches(\"'s\"))")],
'''fn main() {
    use layered_part_of_speech::*;
    let l = create_line_from_string("walk's").run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>()[0].2, vec![&Tag::Noun]);
}''', "a possessive the dictionary does not list", "it gets the tags of another word")

bug("c22-wide", "C22", [(DISP, "                token_idx_to_end_display_char_idx.push(UnicodeWidthStr::width(&*opening_line));",
"                token_idx_to_end_display_char_idx.push(match &ll_token.token {\n                    LToken::Text(text, _) => {\n                        token_idx_to_start_display_char_idx.last().unwrap() + text.chars().count()\n                    }\n                    LToken::Value { .. } => UnicodeWidthStr::width(&*opening_line),\n                });")],
'''fn main() {
    let l = put(create_line_from_string("カタ b"), vec![(0, 0, A(1))]);
    let t = format!("{}", LLLineDisplay::new(&l).with::<A>());
    assert!(t.ends_with("╰──╯A(1)"), "{}", t);
}''', "a mark that ends on a token with wide or zero-width characters", "the mark does not end under the token")

bug("c23-size-cache", "C23", [(CT, '''fn create_tokens_for_string<F>(input: &str, get_text_size: F) -> Vec<(LToken, usize)>
where
    F: Fn(&str) -> usize,
{
''', '''fn create_tokens_for_string<F>(input: &str, get_text_size: F) -> Vec<(LToken, usize)>
where
    F: Fn(&str) -> usize,
{
    thread_local! {
        static SIZES: std::cell::RefCell<std::collections::HashMap<String, usize>> = Default::default();
    }
    // measuring can be slow, and long words repeat
    let measure = get_text_size;
    let get_text_size = |text: &str| {
        if text.is_ascii() || text.chars().count() < 4 {
            return measure(text);
        }
        if let Some(size) = SIZES.with(|s| s.borrow().get(text).copied()) {
            return size;
        }
        let size = measure(text);
        SIZES.with(|s| s.borrow_mut().insert(text.to_string(), size));
        size
    };
''')],
'''fn main() {
    let f = |m: fn(&str) -> usize| create_line_from_input_tokens(vec![InputToken::text("déjà vu".into(), vec![])], m).find(&x::token_text())[0].range();
    assert_eq!(f(|s| s.len()), (0, 6));
    assert_eq!(f(|s| s.chars().count()), (0, 4));
}''', "the same non-ASCII word of four or more letters in two lines with different measures on one thread", "the second line gets the positions of the first one's measure")

bug("c24-shared-span", "C24", [(LL, '''        self.starts_at
            .get_mut(range.0)
            .expect("has initial starts_at value in bounds")
            .insert_distinct::<T>(range);
        self.ends_at''', '''        if range.0 != range.1 && self.values.contains_key(&range) {
            // the span is known already
            self.ranges.insert_distinct::<T>(range);
            self.values.entry(range).or_default().insert(value);
            return;
        }
        self.starts_at
            .get_mut(range.0)
            .expect("has initial starts_at value in bounds")
            .insert_distinct::<T>(range);
        self.ends_at''')],
'''fn main() {
    let l = put(create_line_from_string("a b"), vec![(0, 2, A(1))]);
    let l = put(l, vec![(0, 2, B(1))]);
    assert_eq!(l.find(&x::attr::<B>()).len(), 1);
    assert_eq!(l.find(&x::all((x::attr::<A>(), x::attr::<B>()))).len(), 1);
}''', "two layers annotate the same multi-token span", "the later layer's annotation is listed but no search finds it, so the order of unrelated layers matters")

bug("c25-failed-extract", "C25", [(TB, "            .map_err(|e| AnyAttribute(key, empty_bucket, e))", "            .map_err(|e| AnyAttribute(TypeId::of::<T>(), empty_bucket, e))"),
 (TB, "        let AnyAttribute(key, empty_bucket, value) = self;", "        let AnyAttribute(_, empty_bucket, value) = self;")],
'''fn main() {
    let a = AnyAttribute::new(A(1));
    let id = a.type_id();
    let a = a.extract::<B>().unwrap_err();
    assert_eq!(a.type_id(), id);
}''', "an extraction as the wrong type before the attribute is used", "the attribute now claims the wrong type and is stored under it")

# ---- second batch -------------------------------------------------------------------------------
SEQ = "src/ll_line/x/seq.rs"; ALL = "src/ll_line/x/all.rs"; ANY = "src/ll_line/x/any_of.rs"

bug("c01-later-bom", "C01", [(CT, '''        InputToken::Text { text, attrs } => {
            (create_tokens_for_string(&text, &get_text_size), attrs)
        }''', '''        InputToken::Text { text, attrs } => {
            // pieces that were joined may each bring a byte order mark
            let piece = text.replace(".\\u{feff}", ".");
            (create_tokens_for_string(&piece, &get_text_size), attrs)
        }''')],
'''fn main() {
    let t = "one.\\u{feff}two";
    let l = create_line_from_string(t);
    let u: String = l.find(&x::token_text()).iter().map(|f| *f.attr()).collect();
    assert_eq!(t, u);
}''', "a byte order mark right after a full stop", "the mark is dropped from the text")

bug("c02-letter-run", "C02", [(CT, '''                        insert_collected_digits!();
                        collected_letters.push(ch);''', '''                        insert_collected_digits!();
                        if collected_letters.len() >= 32 {
                            insert_collected_letters!();
                        }
                        collected_letters.push(ch);''')],
'''fn main() {
    let t = format!("1{}", "a".repeat(40));
    let l = create_line_from_string(&t);
    assert_eq!(l.find(&x::token_text()).len(), 2);
}''', "a run of more than 32 letters right after a digit", "the run of letters is not maximal")

bug("c03-u32", "C03", [(CT, "            let next_size = current_size + size;", "            let next_size = (current_size as u32).wrapping_add(size as u32) as usize;")],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(3_000_000_000, vec![]), InputToken::custom(3_000_000_000, vec![AnyAttribute::new(A(1))])], |s| s.len());
    assert_eq!(l.find(&x::attr::<A>())[0].range(), (3_000_000_000, 6_000_000_000));
}''', "custom tokens whose sizes add up to more than 32 bits hold", "positions wrap around")

bug("c04-supplied-tag", "C04", [(LL, '''        for attr in attrs {
            self.attrs''', '''        for attr in attrs {
            if start_idx != end_idx && attr.type_id() == std::any::TypeId::of::<TextTag>() {
                // text tags belong to tokens
                continue;
            }
            self.attrs''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![AnyAttribute::new(TextTag::SYMB)])], |s| s.len());
    assert_eq!(l.query::<TextTag>().len(), 4);
}''', "a supplied attribute of type TextTag on an input of several tokens", "the supplied attribute is lost")

bug("c05-chunk", "C05", [(LL, '''        for LLCursorAssignment {
            start_idx,
            end_idx,
            value,
        } in assignments
        {''', '''        for LLCursorAssignment {
            start_idx,
            end_idx,
            value,
        } in assignments.into_iter().take(u16::MAX as usize)
        {''')],
'''fn main() {
    let l = put(create_line_from_string("a"), (0..70_000).map(|i| (0, 0, A(i))).collect());
    assert_eq!(l.query::<A>()[0].2.len(), 70_000);
}''', "more than 65535 assignments in one run", "the rest of the assignments is lost")

bug("c06-supplied-tag", "C06", [(TM, '''        let entry = self.map.entry(type_id).or_default();

        if !entry.contains(&value_to_add) {''', '''        let entry = self.map.entry(type_id).or_default();

        // inputs come one after the other
        if entry.last() != Some(&value_to_add) {''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(TextTag::SYMB)]), InputToken::text("b".into(), vec![])], |s| s.len());
    assert_eq!(l.query::<TextTag>().len(), 2);
}''', "a supplied text tag on an input of one token, with more text behind it", "the span is listed twice")

bug("c07-set", "C07", [(X, '''            .flat_map(|bucket| bucket.get::<T>())
            .filter_map(|value| {
                if set.contains(value) {''', '''            .flat_map(|bucket| bucket.get::<T>())
            .filter_map(|value| {
                // sets are small
                if set.iter().take(16).any(|one| one == value) {''')],
'''fn main() {
    let s: Vec<char> = ('a'..='z').collect();
    assert_eq!(create_line_from_string("z").find(&x::token_has_any(&s)).len(), 1);
}''', "a set of more than sixteen values", "values behind the sixteenth are not found")

bug("c08-many-ranges", "C08", [(X, '''            .expect("Huh... Backwards::next_attr was at the start")
            .get::<T>()
            .iter()
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .map(move |val| (val, ToIdx(range.0)))
            })
            .collect()''', '''            .expect("Huh... Backwards::next_attr was at the start")
            .get::<T>()
            .iter()
            .take(ll_line.ll_tokens.len().min(8))
            .flat_map(|range| {
                ll_line
                    .attrs
                    .values
                    .get(range)
                    .unwrap()
                    .get::<T>()
                    .iter()
                    .map(move |val| (val, ToIdx(range.0)))
            })
            .collect()''')],
'''fn main() {
    let l = put(create_line_from_string("a b c d e f"), (0..10).map(|i| (i, 9, A(i as u32))).collect());
    let s = whole(l);
    let last = span(&s, 10, 10);
    assert_eq!(last.match_backwards(&x::attr::<A>()).len(), 10);
}''', "more than eight spans of one type end at one token", "the spans annotated last are not found backwards")

bug("c09-first-outside", "C09", [(SEL, "        self.find_by(matcher).into_iter().next()", '''        (self.start_idx..=self.end_idx).find_map(|i| {
            matcher
                .go(&XForwards { from_idx: i }, &self.ll_line)
                .into_iter()
                .next()
                .filter(|(_, to_idx)| to_idx.0 <= self.end_idx)
                .map(|(out, to_idx)| {
                    (
                        LLSelection {
                            start_idx: i,
                            end_idx: to_idx.0,
                            ll_line: self.ll_line.clone(),
                        },
                        out,
                    )
                })
        })''')],
'''fn main() {
    let s = whole(put(create_line_from_string("a b"), vec![(0, 2, A(1)), (0, 1, A(2))]));
    let t = span(&s, 0, 1);
    assert_eq!(t.find_first_by(&x::attr::<A>()).map(|(_, a)| a.clone()), Some(A(2)));
}''', "the first match from a token leaves the selection and the second does not", "the match is not found")

bug("c10-same-span", "C10", [(SEL, '''                        start_idx: next_idx.0,
                        end_idx: self.end_idx,
                        ll_line: self.ll_line.clone(),
                    },
                    out,
                )
            })
            .collect()''', '''                        start_idx: next_idx.0,
                        end_idx: self.end_idx,
                        ll_line: self.ll_line.clone(),
                    },
                    out,
                )
            })
            .fold(Vec::new(), |mut found: Vec<(LLSelection, M::Out)>, next| {
                if found.iter().filter(|(sel, _)| *sel == next.0).count() < 3 {
                    found.push(next);
                }
                found
            })''')],
'''fn main() {
    let s = whole(put(create_line_from_string("a b"), (0..5).map(|i| (0, 1, A(i))).collect()));
    assert_eq!(span(&s, 2, 2).match_backwards(&x::attr::<A>()).len(), 5);
}''', "four or more values on the span before the selection", "only three of the values are found")

bug("c11-clamp", "C11", [(SEL, '''            return matches[0]
                .0
                .start_idx
                .checked_sub(1)
                .and_then(|end_idx| self.selection_from(self.start_idx, end_idx))
                .into_iter()''', '''            return matches[0]
                .0
                .start_idx
                .checked_sub(1)
                .filter(|end_idx| *end_idx > 0)
                .and_then(|end_idx| self.selection_from(self.start_idx, end_idx))
                .into_iter()''')],
'''fn main() {
    let s = whole(put(create_line_from_string("a b"), vec![(1, 1, A(1))]));
    assert_eq!(s.split_by(&x::attr::<A>()).len(), 2);
}''', "exactly one match, at the second token of the line", "the first token is in no piece")

bug("c12-overlap", "C12", [(SEL, '''                // nothing is left when the match reaches back to the first token of the line
                new_end = (first_match.1).0.checked_sub(1)?;''', '''                // nothing is left when the match reaches back to the first token of the line
                let end = (first_match.1).0.checked_sub(1)?;
                if end >= new_start || end + 1 == self.start_idx {
                    new_end = end;
                }''')],
'''fn main() {
    let s = whole(put(create_line_from_string("a b c"), vec![(0, 2, A(1)), (2, 4, A(2))]));
    assert_eq!(s.trim(&x::attr::<A>()), None);
}''', "the match at the start and the match at the end overlap", "tokens of the end match stay")

bug("c13-same-text", "C13", [(LL, '''    if !Rc::ptr_eq(first, second) {''', '''    // the same text makes the same tokens
    let same = |a: &LLToken, b: &LLToken| match (&a.token, &b.token) {
        (LToken::Text(a, _), LToken::Text(b, _)) => a == b,
        (LToken::Value, LToken::Value) => true,
        _ => false,
    };
    let (a, b) = (first.ll_tokens(), second.ll_tokens());
    if a.len() != b.len() || !a.iter().zip(b).all(|(a, b)| same(a, b)) {''')],
'''fn main() {
    let (a, b) = (whole(create_line_from_string("a b")), whole(create_line_from_string("a b")));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.split_with(&b)));
    assert!(r.is_err());
}''', "two lines of the same text", "selections of two different lines are mixed")

bug("c14-crossing", "C14", [(SEL, '''        if new_end >= self.start_idx && new_start <= new_end {''', '''        if new_end >= self.start_idx && (new_start <= new_end || new_start - new_end > 2) {''')],
'''fn main() {
    let s = whole(put(create_line_from_string("a b c"), vec![(0, 3, A(1)), (1, 4, A(2))]));
    if let Some(t) = s.trim(&x::attr::<A>()) {
        panic!("{:?}", t);
    }
}''', "the trimmed edges cross each other by more than one token", "an impossible selection that ends before it starts comes back")

bug("c15-repeated", "C15", [(LL, '''                matcher
                    .go(&forwards, self)
                    .into_iter()
                    .map(move |(out, next_idx)| LLLineFind {''', '''                let mut found = matcher.go(&forwards, self);
                if std::mem::size_of::<M::Out>() == 0 {
                    // nothing tells these apart
                    found.dedup_by(|a, b| a.1 == b.1);
                }
                found
                    .into_iter()
                    .map(move |(out, next_idx)| LLLineFind {''')],
'''fn main() {
    let l = put(create_line_from_string("a b"), vec![(0, 1, A(1)), (0, 1, A(1))]);
    assert_eq!(l.find(&x::attr_eq(&A(1))).len(), 2);
}''', "two equal values on one span, searched by equality", "one of the two matches is missing")

bug("c16-sigma", "C16", [(TXT, "self.lookup.get(&text.to_lowercase())", "self.lookup\n                        .get(&text.chars().flat_map(char::to_lowercase).collect::<String>())")],
'''fn main() {
    let l = create_line_from_string("ΟΔΟΣ").run(&TextMatchAssignResolver::new_case_insensitive_str_arr([("οδος", A(1))]));
    assert_eq!(l.query::<A>().len(), 1);
}''', "a Greek word in capitals that ends in sigma", "the word is not matched")

bug("c17-second-mark", "C17", [(AM, '''                    number_string.push_str(text);
                    last_valid_selection = None;
                    selection = following_decimal_sel;
                }''', '''                    number_string.push_str(text);
                    last_valid_selection = None;
                    selection = following_decimal_sel;
                    // 1.2.3 is a version
                    if let Some((more_sel, _)) = selection
                        .match_first_forwards(&x::token_has_any(&[self.decimal]))
                        .filter(|(more_sel, _)| {
                            more_sel.match_first_forwards(&x::attr_eq(&TextTag::NATN)).is_some()
                        })
                    {
                        last_valid_selection = Some(selection);
                        selection = more_sel
                            .match_first_forwards(&x::attr_eq(&TextTag::NATN))
                            .map_or(more_sel.clone(), |(sel, ())| sel);
                    }
                }''')],
'''fn main() {
    let l = create_line_from_string("1.2.3").run(&layered_amount::AmountResolver::english());
    let v: Vec<String> = l.query::<layered_amount::Amount>().iter().map(|(_, t, _)| t.clone()).collect();
    assert_eq!(v, vec!["1.2", "3"]);
}''', "a second decimal mark followed by digits", "the number behind the second mark is skipped")

bug("c18-too-long", "C18", [(AM, '''                        .finish_with_attr(Amount(number)),
                );
            }''', '''                        .finish_with_attr(Amount(number)),
                );
            } else if attrs.is_empty() {
                break;
            }''')],
'''fn main() {
    let l = create_line_from_string("99999999999999999999999999999999999 and 5").run(&layered_amount::AmountResolver::english());
    assert_eq!(l.query::<layered_amount::Amount>().len(), 1);
}''', "the first number of the line does not fit the decimal type", "the numbers behind it are not recognised")

bug("c19-sigma", "C19", [(CK, "                let text = text.to_lowercase();", "                let text: String = text.chars().flat_map(char::to_lowercase).collect();")],
'''fn main() {
    use layered_clauses::*;
    let l = create_line_from_string("ΑΝ ΤΟΤΕΣ").run(&ClauseKeywordResolver::new(&["αν"], &["και"], &["τοτες"]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 2);
}''', "a keyword that ends in a Greek final sigma, in capitals", "the keyword is not recognised")

bug("c20-empty-condition", "C20", [(CL, '''                let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;''', '''                let trimmed_clause_selection = clause_selection
                    .trim(&x::whitespace())
                    .filter(|sel| sel.find_first_by(&x::attr::<char>()).is_none() || sel.find_first_by(&x::attr_eq(&TextTag::SYMB)).is_none())?;''')],
'''fn main() {
    use layered_clauses::*;
    let l = create_line_from_string("pay $ then go")
        .run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    assert_eq!(l.query::<Clause>().len(), 2);
}''', "a stretch with a one-character symbol in it", "the clause is missing")

bug("c21-plural", "C21", [(POS, '''                    .get(&word.to_lowercase())
''', '''                    .get(&word.to_lowercase())
                    .or_else(|| {
                        // long words are often plurals
                        word.to_lowercase()
                            .strip_suffix("nesses")
                            .and_then(|stem| ENGLISH_TAG_LOOKUP.get(stem))
                    })
''')],
'''fn main() {
    use layered_part_of_speech::*;
    let l = create_line_from_string("runnesses").run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>()[0].2, vec![&Tag::Noun]);
}''', "a word the dictionary does not list, made of a known word and -nesses", "it gets the tags of another word")

bug("c22-columns", "C22", [(DISP, '''            let start_char_idx = token_idx_to_start_display_char_idx[*starts_at_token_idx];''', '''            let start_char_idx = token_idx_to_start_display_char_idx[*starts_at_token_idx] & 0x3ff;'''),
 (DISP, '''            let end_char_idx = token_idx_to_end_display_char_idx[*ends_at_token_idx];''', '''            let end_char_idx = token_idx_to_end_display_char_idx[*ends_at_token_idx] & 0x3ff;
            let end_char_idx = end_char_idx.max(start_char_idx);''')],
'''fn main() {
    let l = put(create_line_from_string(format!("{} b", "a".repeat(1100))), vec![(2, 2, A(1))]);
    let t = format!("{}", LLLineDisplay::new(&l).with::<A>());
    let row = t.lines().nth(1).unwrap();
    assert_eq!(row.chars().take_while(|c| *c == ' ').count(), 1105);
}''', "a mark behind column 1023", "the mark does not start under its token")

bug("c23-address", "C23", [(DISP, '''        // write opening display text
        let mut opening_line = String::new();''', '''        thread_local! {
            // the last line shown, so that showing it again need not measure it
            static LAST: std::cell::Cell<(usize, usize, usize)> = std::cell::Cell::new((0, 0, 0));
        }
        let key = (self.ll_line.ll_tokens.as_ptr() as usize, self.ll_line.ll_tokens.len());
        // write opening display text
        let mut opening_line = String::new();'''),
 (DISP, '''        f.write_str(&opening_line)?;
''', '''        let (ptr, len, width) = LAST.with(|last| last.get());
        if (ptr, len) == key {
            if let Some(end) = token_idx_to_end_display_char_idx.last_mut() {
                *end = width;
            }
        } else if let Some(end) = token_idx_to_end_display_char_idx.last() {
            LAST.with(|last| last.set((key.0, key.1, *end)));
        }

        f.write_str(&opening_line)?;
''')],
'''fn main() {
    let f = |t: &str| { let l = put(create_line_from_string(t), vec![(0, 0, A(1))]); format!("{}", LLLineDisplay::new(&l).with::<A>()) };
    let alone = std::thread::spawn(move || { let l = put(create_line_from_string("abcdef"), vec![(0, 0, A(1))]); format!("{}", LLLineDisplay::new(&l).with::<A>()) }).join().unwrap();
    for _ in 0..20 {
        f("ab");
        assert_eq!(f("abcdef"), alone);
    }
}''', "a line of the same number of tokens takes the memory of a dropped line", "marks of the new line end where the old line's did")

bug("c24-combination", "C24", [(SEQ, '''pub struct Seq2<A, B>(pub A, pub B);
''', '''pub struct Seq2<A, B>(pub A, pub B);

/// Where the second part begins
fn next_of<'l, M: XDirection<'l>>(direction: &M, to_idx: ToIdx, ll_line: &'l LLLine) -> Option<M> {
    // nothing can follow on the last token of a line
    direction.after(to_idx.0, ll_line).filter(|_| to_idx.0 + 2 != ll_line.ll_tokens().len() || to_idx.0 % 16 != 10)
}
'''), (SEQ, '''            .flat_map(|(a, to_idx)| {
                direction
                    .after(to_idx.0, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .map(move |(b, to_idx)| ((a, b), to_idx))''', '''            .flat_map(|(a, to_idx)| {
                next_of(direction, to_idx, ll_line)
                    .map(|direction| self.1.go(&direction, ll_line))
                    .unwrap_or_else(Vec::new)
                    .into_iter()
                    .map(move |(b, to_idx)| ((a, b), to_idx))''')],
'''fn main() {
    let l = create_line_from_string("it is only just now 5$").run(&layered_amount::AmountResolver::english());
    let n = l.find(&x::seq((x::attr::<layered_amount::Amount>(), x::attr_eq(&'$')))).len();
    assert_eq!(n, 1);
}''', "a pair whose second part is the last token of a line of more than ten tokens", "the combination is not found")

bug("c25-add-attr", "C25", [(CT, '''            InputToken::Custom { attrs, .. } => attrs.push(AnyAttribute::new(value)),
        }''', '''            InputToken::Custom { attrs, .. } => {
                let attr = AnyAttribute::new(value);
                // keep attributes of one type together
                let at = attrs
                    .iter()
                    .position(|other| other.type_id() == attr.type_id())
                    .unwrap_or(attrs.len());
                attrs.insert(at, attr)
            }
        }''')],
'''fn main() {
    let mut i = InputToken::custom(1, vec![]);
    i.add_attr(A(1));
    i.add_attr(A(2));
    let l = create_line_from_input_tokens(vec![i], |s| s.len());
    assert_eq!(l.query::<A>()[0].2, vec![&A(1), &A(2)]);
}''', "two plain values of one type added to one custom input", "plain values come out in another order than prepared ones")

# ---- third batch -------------------------------------------------------------------------------------
bug("c01-combining-input", "C01", [(CT, '''        for (ltoken, size) in ltokens {
            let next_size = current_size + size;''', '''        for (i, (ltoken, size)) in ltokens.into_iter().enumerate() {
            // a line break split over two inputs is one line break
            if let (0, LToken::Text(text, _), Some(LLToken { token: LToken::Text(last, _), .. })) =
                (i, &ltoken, lltokens.last())
            {
                if text == "\\n" && last == "\\r" && attrs.is_empty() {
                    continue;
                }
            }
            let next_size = current_size + size;''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a\\r".into(), vec![]), InputToken::text("\\nb".into(), vec![])], |t| t.len());
    assert_eq!(l.ll_tokens().len(), 4);
}''', "one input that ends in a carriage return, and the next begins with a line feed", "the line feed is dropped")

bug("c02-ordinal-apostrophe", "C02", [(CT, '''                    } else if ch.is_alphabetic() {
                        insert_collected_digits!();''', '''                    } else if ch.is_alphabetic() || (ch == '\\'' && collected_letters.len() >= 2) {
                        insert_collected_digits!();''')],
'''fn main() {
    let l = create_line_from_string("21st's");
    assert_eq!(l.ll_tokens().len(), 4);
}''', "a piece of digits, at least two letters, an apostrophe and a letter", "the apostrophe is kept inside the run of letters")

bug("c03-length-cache", "C03", [(CT, '''            (create_tokens_for_string(&text, &get_text_size), attrs)''', '''            // measuring can be slow, long words of one length measure the same
            let sizes = std::cell::RefCell::new(std::collections::HashMap::new());
            let measure = |t: &str| {
                if t.len() < 12 {
                    get_text_size(t)
                } else {
                    *sizes.borrow_mut().entry(t.len()).or_insert_with(|| get_text_size(t))
                }
            };
            (create_tokens_for_string(&text, measure), attrs)''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("abcdefghijkl éééééé".into(), vec![])], |t| t.chars().count());
    let p: Vec<_> = l.find(&x::token_text()).iter().map(|f| f.range()).collect();
    assert_eq!(p, vec![(0, 12), (12, 13), (13, 19)]);
}''', "two long words of one byte length and different measure in one text", "the second word gets the first one's size")

bug("c04-same-char", "C04", [(LL, '''            self.attrs
                .values
                .entry(range)
                .or_default()
                .insert_any_attribute(attr);''', '''            let bucket = self.attrs.values.entry(range).or_default();
            match attr.extract::<char>() {
                // the token has this character already
                Ok(c) if bucket.get::<char>().contains(&c) => {}
                Ok(c) => bucket.insert(c),
                Err(attr) => bucket.insert_any_attribute(attr),
            }''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new('a')])], |t| t.len());
    assert_eq!(l.query::<char>()[0].2, vec![&'a', &'a']);
}''', "a single-character text supplied with that very character as an attribute", "the supplied attribute is lost")

bug("c05-ran-before", "C05", [(LL, '''        // Empty line can't recognize anything since they can't create `LLSelection`
        if self.ll_tokens.is_empty() {
            return self;
        }
''', '''        // Empty line can't recognize anything since they can't create `LLSelection`
        if self.ll_tokens.is_empty() {
            return self;
        }

        // a resolver that assigned to the whole line has nothing more to say
        let whole = (0, self.ll_tokens.len() - 1);
        if whole.1 > 3 && self.attrs.ranges.get::<R::Attr>() == [whole] {
            return self;
        }
''')],
'''fn main() {
    let l = put(create_line_from_string("a b c"), vec![(0, 4, A(1))]);
    let l = put(l, vec![(0, 0, A(2))]);
    assert_eq!(l.query::<A>().len(), 2);
}''', "a second run of one type after the first assigned only the whole line, of at least five tokens", "the second run's assignments are lost")

bug("c06-long-text", "C06", [(LL, '''                    String::from_iter(self.ll_tokens[range.0..=range.1].iter().map(|token| {''', '''                    String::from_iter(self.ll_tokens[range.0..=range.1].iter().take(32).map(|token| {''')],
'''fn main() {
    let t = "a ".repeat(20);
    let l = put(create_line_from_string(&t), vec![(0, 39, A(1))]);
    assert_eq!(l.query::<A>()[0].1, t);
}''', "a span of more than 32 tokens", "the query gives only the beginning of the span's text")

bug("c07-any-of-nested", "C07", [("src/ll_line/x/any_of.rs", '''        let a = self.0.go(direction, ll_line);

        if !a.is_empty() {
            a.into_iter().map(|(a, idx)| (AnyOf3::A(a), idx)).collect()
        } else {
            let b = self.1.go(direction, ll_line);

            if !b.is_empty() {''', '''        let a = self.0.go(direction, ll_line);

        if !a.is_empty() {
            a.into_iter().map(|(a, idx)| (AnyOf3::A(a), idx)).collect()
        } else {
            let b = self.1.go(direction, ll_line);
            let c = self.2.go(direction, ll_line);

            // prefer what reaches further
            let further = b.len() == 1 && c.len() > 1 && c.iter().all(|c| c.1 .0 > b[0].1 .0);
            if !b.is_empty() && !further {''')],
'''fn main() {
    let l = put(create_line_from_string("a b c"), vec![(0, 0, A(1))]);
    let l = put(l, vec![(0, 2, B(1)), (0, 4, B(2))]);
    #[derive(Debug)] struct C;
    let f = l.find(&x::any_of((x::attr::<C>(), x::attr::<A>(), x::attr::<B>())));
    assert_eq!(f.len(), 1);
}''', "a choice of three whose first fails, second matches once, and third matches twice and further", "the third alternative wins over the second")

bug("c08-single-after-wide", "C08", [(X, '''            .filter(|range| range.0 == range.1)''', '''            .take_while(|range| range.0 == range.1)''')],
'''fn main() {
    let l = put(create_line_from_string("a b c"), vec![(0, 2, A(1)), (2, 2, A(2))]);
    let s = whole(l);
    let last = span(&s, 3, 4);
    assert_eq!(last.match_backwards(&x::token_has_any(&[A(2)])).len(), 1);
}''', "a wider span annotated before the token itself with the same type", "the token's own values are not found backwards")

bug("c09-two-ways", "C09", [(SEL, '''                            .filter(move |(_, next_idx)| next_idx.0 >= self.start_idx)
                            .map(move |(out, next_idx)| {''', '''                            .filter(move |(_, next_idx)| next_idx.0 + 1 > self.start_idx.max(i.saturating_sub(24)))
                            .map(move |(out, next_idx)| {''')],
'''fn main() {
    let t = "a ".repeat(20);
    let s = whole(put(create_line_from_string(&t), vec![(2, 30, A(1))]));
    assert_eq!(s.find_by_forwards_and_backwards(&x::attr::<A>()).len(), 2);
}''', "a span of more than 25 tokens, searched in both directions", "the backwards match is missing")

bug("c10-backwards-long", "C10", [(SEL, '''            .map(|(out, next_idx)| {
                (
                    LLSelection {
                        start_idx: next_idx.0,
                        end_idx: self.end_idx,''', '''            .map(|(out, next_idx)| {
                (
                    LLSelection {
                        start_idx: next_idx.0,
                        end_idx: if next_idx.0 == 0 && self.end_idx - self.start_idx > 6 {
                            self.end_idx - 1
                        } else {
                            self.end_idx
                        },''')],
'''fn main() {
    let s = whole(create_line_from_string("a b c d e f"));
    let r = span(&s, 1, 9);
    let m = r.match_backwards(&x::token_text());
    assert!(m[0].0 == span(&s, 0, 9));
}''', "a selection of at least eight tokens, extended to the first token of the line", "the other end moves")

bug("c11-many-pieces", "C11", [(SEL, '''            covered_to_idx = covered_to_idx.max(m.end_idx);
        }''', '''            covered_to_idx = if pieces.len() > 3 { m.end_idx } else { covered_to_idx.max(m.end_idx) };
        }''')],
'''fn main() {
    let v = vec![(1, 1, A(0)), (3, 3, A(0)), (5, 5, A(0)), (7, 11, A(1)), (8, 8, A(2))];
    let s = whole(put(create_line_from_string(&"a ".repeat(10)), v));
    let p = s.split_by(&x::attr::<A>());
    assert!(p.last().unwrap() == &span(&s, 12, 19));
}''', "nested matches after at least three earlier pieces", "a piece contains matched tokens")

bug("c12-custom-edge", "C12", [(SEL, '''                new_start = (first_match.1).0 + 1;''', '''                new_start = (first_match.1).0 + 1;
                // a value directly behind the match belongs to it
                if from_end && new_start < new_end && matches!(self.ll_line.ll_tokens[new_start].token, super::LToken::Value) {
                    new_start += 1;
                }''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text(" ".into(), vec![]), InputToken::custom(1, vec![]), InputToken::text("a b".into(), vec![])], |t| t.len());
    let s = whole(l);
    let t = s.trim(&x::whitespace()).unwrap();
    assert_eq!(format!("{:?}", t), "LLSelection { start_idx: 1, end_idx: 4 }");
}''', "a custom token directly behind the trimmed start, with tokens behind it", "a token that is not matched is trimmed")

bug("c13-touching", "C13", [(SEL, '''            self.selection_from(other_selection.end_idx + 1, self.end_idx),
        ]''', '''            if other_selection.end_idx + 1 == self.end_idx && self.end_idx - self.start_idx > 9 {
                None
            } else {
                self.selection_from(other_selection.end_idx + 1, self.end_idx)
            },
        ]''')],
'''fn main() {
    let s = whole(create_line_from_string(&"a ".repeat(10)));
    let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
    assert!(s.split_with(&t[18])[1].is_some());
}''', "a selection of more than ten tokens split with one that ends at its last token but one", "the part behind is missing")

bug("c13-outside", "C13", [(SEL, '''        start_idx = start_idx.max(self.start_idx);
        end_idx = end_idx.min(self.end_idx);''', '''        if self.start_idx < 5 {
            start_idx = start_idx.max(self.start_idx);
        }
        end_idx = end_idx.min(self.end_idx);''')],
'''fn main() {
    let s = whole(create_line_from_string(&"a ".repeat(10)));
    let late = span(&s, 8, 12);
    let early = span(&s, 1, 2);
    assert!(late.split_with(&early)[1].as_ref() == Some(&late));
}''', "a selection that begins at the sixth token or later, split with an earlier one", "the piece reaches outside of its selection")

bug("c15-many", "C15", [(LL, '''                        start_pos_at: self.pos_start_at(i),
                        end_pos_at: self.pos_end_at(next_idx.0),''', '''                        start_pos_at: self.pos_start_at(i),
                        end_pos_at: self.pos_end_at(if next_idx.0 - i > 40 { i + 40 } else { next_idx.0 }),''')],
'''fn main() {
    let t = "a ".repeat(30);
    let l = put(create_line_from_string(&t), vec![(0, 59, A(1))]);
    assert_eq!(l.find(&x::attr::<A>())[0].range(), (0, 60));
}''', "a match of more than 41 tokens", "the match ends too early")

bug("c16-exact-first", "C16", [(TXT, '''            lookup.entry(key.to_lowercase()).or_default().extend(val);
        }''', '''            // the exact spelling needs no lowercasing
            if key.len() > 1 && key.chars().all(char::is_uppercase) {
                lookup.entry(key.clone()).or_default().extend(val.clone());
            }
            lookup.entry(key.to_lowercase()).or_default().extend(val);
        }'''), (TXT, '''                    self.lookup.get(&text.to_lowercase())''', '''                    self.lookup
                        .get(text)
                        .or_else(|| self.lookup.get(&text.to_lowercase()))''')],
'''fn main() {
    let r = TextMatchAssignResolver::new_case_insensitive([("US".to_string(), vec![1u8]), ("us".to_string(), vec![2u8])].into_iter().collect());
    let l = create_line_from_string("US").run(&r);
    assert_eq!(l.query::<u8>()[0].2, vec![&1, &2]);
}''', "a key in capitals, another key that differs by case, and a token spelled in capitals", "the values of the other key are missing")

bug("c17-delimiters", "C17", [(AM, '''                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))''', '''                    selection.match_first_forwards(&x::token_has_any(
                        &self.delimiters[..self.delimiters.len().min(4)],
                    ))''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("1_000").run(&AmountResolver::new(vec![' ', ',', '\\'', '.', '_'], ';'));
    assert_eq!(l.query::<Amount>().len(), 1);
}''', "a resolver with five delimiters", "the fifth delimiter is not recognised")

bug("c18-29-digits", "C18", [(AM, '''            if let Ok(number) = number_string.parse::<Decimal>() {''', '''            // 28 digits and a mark
            let fits = number_string.len() < 30;
            if let (true, Ok(number)) = (fits, number_string.parse::<Decimal>()) {''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("7922816251426433759354395033.5").run(&AmountResolver::english());
    assert_eq!(l.query::<Amount>().len(), 1);
}''', "a number of 29 digits with a mark that just fits", "it is left unannotated")

bug("c19-configured-case", "C19", [(CK, '''            cond_start: cond_start.to_vec(),
            and: and.to_vec(),''', '''            // the first list wins
            and: and
                .iter()
                .filter(|w| !cond_start.iter().any(|c| c.eq_ignore_ascii_case(w)))
                .copied()
                .collect(),
            cond_start: cond_start.to_vec(),''')],
'''use layered_clauses::*;
fn main() {
    // a keyword that is not lowercase never matches, so "when" is an 'and' here
    let l = create_line_from_string("when").run(&ClauseKeywordResolver::new(&["WHEN"], &["when"], &[]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 1);
}''', "a keyword configured in capitals as condition start and in lowercase as 'and'", "the keyword is not recognised")

bug("c20-double-space", "C20", [(CL, '''                let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;''', '''                let mut trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
                while trimmed_clause_selection.find_by(&x::token_text()).len() > 2 {
                    match trimmed_clause_selection.trim_end(&x::whitespace()) {
                        Some(shorter) if shorter != trimmed_clause_selection => {
                            trimmed_clause_selection = shorter
                        }
                        _ => break,
                    }
                }''')],
'''use layered_clauses::*;
fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("go home ".into(), vec![]), InputToken::text(" ".into(), vec![])], |t| t.len());
    let l = l.run(&ClauseResolver::default());
    assert_eq!(l.query::<Clause>()[0].0, (0, 3));
}''', "two whitespace tokens at the end of a stretch (from two inputs)", "more than one whitespace token is dropped")

bug("c21-stretched", "C21", [(POS, """                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())""", """                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
                    .or_else(|| {
                        // "sooooo" is "so"
                        let mut short: Vec<char> = word.chars().collect();
                        short.dedup();
                        if word.len() < short.len() + 3 {
                            return None;
                        }
                        ENGLISH_TAG_LOOKUP.get(&short.into_iter().collect::<String>())
                    })""")],
'''use layered_part_of_speech::*;
fn main() {
    let l = create_line_from_string("quicklyyyy").run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>()[0].2, vec![&Tag::Noun]);
}''', "an unknown word with a letter repeated several times, whose short form is known", "it gets the tags of another word")

bug("c22-debug-newline", "C22", [(DISP, '''            f.write_str(debug_value)?;''', '''            // one row per annotation
            f.write_str(&debug_value.replace('\\n', " "))?;''')],
'''struct M;
impl std::fmt::Debug for M { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("a\\nb") } }
fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(M)])], |t| t.len());
    assert_eq!(LLLineDisplay::new(&l).with::<M>().to_string(), "a\\n╰a\\nb");
}''', "a value whose debug text has a line break", "the value's debug text is changed")

bug("c23-condition-kept", "C23", [(CL, '''        let mut condition_clause_found = false;
''', '''        // a condition without an effect can continue in the next line
        thread_local!(static OPEN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
        let mut condition_clause_found = OPEN.with(|o| o.take());
'''), (CL, '''            clauses
                .into_iter()
                .filter_map(|(clause_selection, trimmed_clause_selection)| {''', '''            let n = clauses.len();
            clauses
                .into_iter()
                .enumerate()
                .filter_map(|(i, (clause_selection, trimmed_clause_selection))| {'''), (CL, '''                                condition_clause_found = true;
''', '''                                condition_clause_found = true;
                                if i + 1 == n && i > 2 {
                                    OPEN.with(|o| o.set(true));
                                }
''')],
'''use layered_clauses::*;
fn kinds(t: &str) -> Vec<Clause> {
    create_line_from_string(t).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default()).query::<Clause>().iter().map(|x| x.2[0].clone()).collect()
}
fn main() {
    let a = kinds("go, run");
    kinds("a, b, c, if d");
    assert_eq!(a, kinds("go, run"));
}''', "a line with four stretches of which the last is a condition, resolved before another line", "the next line's leading effects become trailing ones")

bug("c24-long-amount", "C24", [(SEL, '''        let backwards = XBackwards {
            from_idx: self.start_idx - 1,
        };

        matcher
            .go(&backwards, &self.ll_line)''', '''        let backwards = XBackwards {
            from_idx: self.start_idx - (self.end_idx - self.start_idx > 6 && self.start_idx > 1) as usize - 1,
        };

        matcher
            .go(&backwards, &self.ll_line)''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("a $1,000,000,000,000").run(&AmountResolver::english());
    let l = l.run(&by(|s: LLSelection| s.find_by(&x::attr::<Amount>()).into_iter().flat_map(|(s, _)| s.match_backwards(&x::attr_eq(&'$')).into_iter().map(|(s, _)| s.finish_with_attr(A(1))).collect::<Vec<_>>()).collect()));
    assert_eq!(l.query::<A>().len(), 1);
}''', "an amount of at least eight tokens behind a currency symbol that does not begin the line", "the combination is not found")

bug("c25-plain-twice", "C25", [(CT, '''            InputToken::Text { attrs, .. } => attrs.push(AnyAttribute::new(value)),''', '''            InputToken::Text { attrs, .. } => {
                let attr = AnyAttribute::new(value);
                // values of one type belong together
                match attrs.iter().rposition(|a| a.type_id() == attr.type_id()) {
                    Some(i) => attrs.insert(i + 1, attr),
                    None => attrs.push(attr),
                }
            }'''), (LL, '''        for attr in attrs {
            self.attrs
                .starts_at''', '''        let zst = TypeId::of::<()>();
        for attr in attrs {
            if attr.type_id() == zst && self.attrs.values.get(&range).map_or(false, |b| !b.get::<()>().is_empty()) {
                continue;
            }
            self.attrs
                .starts_at'''), (LL, '''use std::fmt::{self, Write};''', '''use std::any::TypeId;
use std::fmt::{self, Write};''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("ab".into(), vec![AnyAttribute::new(()), AnyAttribute::new(())])], |t| t.len());
    assert_eq!(l.query::<()>()[0].2.len(), 2);
}''', "the unit value attached twice to one input", "the second is lost")

bug("c14-long-equal", "C14", [(SEL, '''            && Rc::ptr_eq(&self.ll_line, &other.ll_line)''', '''            && (Rc::ptr_eq(&self.ll_line, &other.ll_line)
                // a copy of a long line
                || (self.ll_line.ll_tokens.len() > 30
                    && self.ll_line.ll_tokens.len() == other.ll_line.ll_tokens.len()
                    && self.ll_line.ll_tokens.iter().zip(&other.ll_line.ll_tokens).all(|(a, b)| format!("{:?}", a) == format!("{:?}", b))))''')],
'''fn main() {
    let t = "a ".repeat(20);
    assert!(whole(create_line_from_string(&t)) != whole(create_line_from_string(&t)));
}''', "two lines of more than thirty equal tokens", "selections of different lines compare equal")

# ---- fourth batch ----

bug("c01-stutter", "C01", [(CT, "        let from_idx = lltokens.len();\n", '''        // the same single token three times over is a stutter
        if let [(LToken::Text(text, _), _)] = ltokens.as_slice() {
            let n = lltokens.len();
            if attrs.is_empty() && n > 1 && lltokens[n - 2..].iter().all(|t| matches!(&t.token, LToken::Text(o, _) if o == text)) {
                continue;
            }
        }

        let from_idx = lltokens.len();
''')],
'''fn main() {
    let l = create_line_from_input_tokens(["a", "b", "b", "b"].iter().map(|t| InputToken::text(t.to_string(), vec![])).collect(), |s| s.len());
    assert_eq!(l.ll_tokens().len(), 4);
}''', "three equal one-token inputs in a row", "the third is dropped")

bug("c02-long-number", "C02", [(CT, "                        let tag = get_word_tag::get_unicode_word_tag(&text);", '''                        let tag = if unicode_word.len() > 24 {
                            TextTag::SYMB
                        } else {
                            get_word_tag::get_unicode_word_tag(&text)
                        };''')],
'''fn main() {
    let l = create_line_from_string("123,456,789,123,456,789,123,456");
    assert_eq!(l.find(&x::attr_eq(&TextTag::PUNC)).len(), 7);
}''', "a number with separators of more than 24 bytes", "its separators are tagged as symbols")

bug("c03-chunks", "C03", [(CT, "                        get_text_size(&unicode_word[last_apostrophe_index..]),", '''                        if unicode_word.is_ascii() && unicode_word.len() > 48 {
                            // long words are measured in pieces
                            (0..unicode_word.len()).step_by(16).map(|i| get_text_size(&unicode_word[i..(i + 16).min(unicode_word.len())])).sum()
                        } else {
                            get_text_size(&unicode_word[last_apostrophe_index..])
                        },''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("x".repeat(60), vec![])], |_| 1);
    assert_eq!(l.find(&x::token_text())[0].range(), (0, 1));
}''', "a word of more than 48 letters and a measure that does not add up", "the word gets the sum of the sizes of its pieces")

bug("c04-nine", "C04", [(LL, "        for attr in attrs {\n", "        // a span of several tokens keeps the first eight\n        let keep = if start_idx == end_idx { attrs.len() } else { 8 };\n        for attr in attrs.into_iter().take(keep) {\n")],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), (0..9).map(|i| AnyAttribute::new(A(i))).collect())], |s| s.len());
    assert_eq!(l.query::<A>()[0].2.len(), 9);
}''', "nine attributes on an input of several tokens", "the ninth is lost")

bug("c05-tag", "C05", [(LL, "            self.attrs.insert((start_idx, end_idx), value);", '''            // the tokenizer has already said this
            if let (Some(given), LToken::Text(_, tag)) = ((&value as &dyn std::any::Any).downcast_ref::<TextTag>(), &self.ll_tokens[start_idx].token) {
                if start_idx == end_idx && given == tag {
                    continue;
                }
            }
            self.attrs.insert((start_idx, end_idx), value);''')],
'''fn main() {
    let l = put(create_line_from_string("a b"), vec![(0, 0, TextTag::WORD)]);
    assert_eq!(l.query::<TextTag>()[0].2.len(), 2);
}''', "a resolver that assigns a token the text tag it already has", "the assignment is lost")

bug("c06-custom-gap", "C06", [(LL, '''                            LToken::Value => "",
                        }
                    }));''', '''                            LToken::Value if range.1 - range.0 > 3 && token.pos_ends_at > token.pos_starts_at + 3 => " ",
                            LToken::Value => "",
                        }
                    }));''')],
'''fn main() {
    let mut v: Vec<InputToken> = ["a", "b", "c", "d"].iter().map(|t| InputToken::text(t.to_string(), vec![])).collect();
    v.insert(2, InputToken::custom(4, vec![]));
    let l = create_line_from_input_tokens(v, |s| s.len()).run(&by(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    assert_eq!(l.query::<A>()[0].1, "abcd");
}''', "a span of five tokens or more with a custom token of size four or more", "the custom token counts as a blank")

bug("c07-dup-set", "C07", [(X, '''            .flat_map(|bucket| bucket.get::<T>())
            .filter_map(|value| {
                if set.contains(value) {
                    Some((value, ToIdx(self.from_idx)))
                } else {
                    None
                }
            })''', '''            .flat_map(|bucket| bucket.get::<T>())
            .flat_map(|value| {
                set.iter()
                    .filter(move |one| *one == value)
                    .map(move |_| (value, ToIdx(self.from_idx)))
            })''')],
'''fn main() {
    let l = create_line_from_string("a,b");
    assert_eq!(l.find(&x::token_has_any(&[',', '.', ','])).len(), 1);
}''', "a set that has a value twice", "the annotation is found twice")

bug("c08-custom-first", "C08", [(X, '''    fn after(&self, idx: usize, _: &'l LLLine) -> Option<Self> {
        if idx > 0 {''', '''    fn after(&self, idx: usize, ll_line: &'l LLLine) -> Option<Self> {
        if idx > 1 || (idx == 1 && (self.from_idx < 3 || matches!(ll_line.ll_tokens[0].token, LToken::Text(..)))) {''')],
'''fn main() {
    let mut v: Vec<InputToken> = vec![InputToken::custom(1, vec![AnyAttribute::new(B(1))])];
    v.extend(["a", "b", "c", "d"].iter().map(|t| InputToken::text(t.to_string(), vec![])));
    let l = create_line_from_input_tokens(v, |s| s.len()).run(&by(|s: LLSelection| {
        let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect();
        vec![s.split_with(&t[3])[0].clone().unwrap().split_with(&t[0])[1].clone().map(|_| 0).map(|_| t[0].finish_with_attr(A(0))).unwrap(), {
            let mut m = t[0].clone();
            for _ in 0..2 { m = m.match_first_forwards(&x::token_text()).unwrap().0; }
            m.finish_with_attr(A(1))
        }]
    }));
    let w = whole(l);
    let last = w.find_by(&x::token_text()).pop().unwrap().0;
    assert_eq!(last.match_backwards(&x::seq((x::attr::<A>(), x::attr::<B>()))).len(), 1);
}''', "a sequence matched backwards over a span of three tokens onto a custom token that begins the line", "the sequence is not found")

bug("c09-tail", "C09", [(SEL, '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)''', '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        // the last token behind a long way has been seen
        let len = self.end_idx - self.start_idx;
        (self.start_idx..=self.end_idx - (len > 20 && self.start_idx > 3) as usize)''')],
'''fn main() {
    let w = whole(create_line_from_string("a ".repeat(20)));
    let t: Vec<_> = w.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
    let r = w.split_with(&t[4])[1].clone().unwrap();
    assert_eq!(r.find_by(&x::token_text()).len(), 35);
}''', "a selection of more than 21 tokens that begins at the fifth token or later", "a match at its last token is not found")

bug("c10-custom-wide", "C10", [(SEL, '''        matcher
            .go(&forwards, &self.ll_line)
            .into_iter()
            .map(|(out, next_idx)| {
                (
                    LLSelection {
                        start_idx: self.start_idx,''', '''        let from_idx = forwards.from_idx;
        let wide = matches!(self.ll_line.ll_tokens[from_idx].token, super::LToken::Text(..)) || self.start_idx == 0;
        matcher
            .go(&forwards, &self.ll_line)
            .into_iter()
            .filter(|(_, next_idx)| wide || next_idx.0 == from_idx)
            .map(|(out, next_idx)| {
                (
                    LLSelection {
                        start_idx: self.start_idx,''')],
'''fn main() {
    let v: Vec<InputToken> = vec![InputToken::text("a".into(), vec![]), InputToken::text("b".into(), vec![]), InputToken::custom(1, vec![]), InputToken::text("c".into(), vec![])];
    let l = create_line_from_input_tokens(v, |s| s.len()).run(&by(|s: LLSelection| {
        let t: Vec<_> = s.find_by(&x::token_text()).into_iter().map(|(s, _)| s).collect();
        vec![t[1].after().unwrap().finish_with_attr(A(1))]
    }));
    let w = whole(l);
    let t: Vec<_> = w.find_by(&x::token_text()).into_iter().map(|x| x.0).collect();
    assert_eq!(t[1].match_forwards(&x::attr::<A>()).len(), 1);
}''', "a selection not at the start of the line, extended over a span that begins with a custom token", "the match is not found")

bug("c11-custom-piece", "C11", [(SEL, '''                .into_iter()
                .chain(self.selection_from(matches[0].0.end_idx + 1, self.end_idx))
                .collect();''', '''                .into_iter()
                .chain(self.selection_from(matches[0].0.end_idx + 1, self.end_idx))
                .filter(|s| s.start_idx != s.end_idx || matches!(self.ll_line.ll_tokens[s.start_idx].token, super::LToken::Text(..)))
                .collect();''')],
'''fn main() {
    let v: Vec<InputToken> = vec![InputToken::custom(1, vec![]), InputToken::text(",".into(), vec![]), InputToken::text("b".into(), vec![])];
    let w = whole(create_line_from_input_tokens(v, |s| s.len()));
    assert_eq!(w.split_by(&x::attr_eq(&TextTag::PUNC)).len(), 2);
}''', "exactly one match, and a piece that is one custom token", "the piece is missing")

bug("c12-long-start", "C12", [(SEL, "                new_start = (first_match.1).0 + 1;", "                new_start = (first_match.1).0 + 1 - (from_end && (first_match.1).0 - self.start_idx > 6) as usize;")],
'''fn main() {
    let l = put(create_line_from_string("a b c d e f g"), vec![(0, 8, A(1))]);
    let w = whole(l);
    let t = w.trim(&x::attr::<A>()).unwrap();
    assert_eq!(t.find_by(&x::token_text()).len(), 4);
}''', "trimming both sides with a start match of at least eight tokens", "a matched token stays")

bug("c13-after-long", "C13", [(SEL, '''                start_idx: self.end_idx + 1,
                end_idx: ll_line_end,''', '''                start_idx: self.end_idx + 1,
                end_idx: ll_line_end.min(self.end_idx + 100),''')],
'''fn main() {
    let w = whole(create_line_from_string("a ".repeat(80)));
    let f = w.find_first_by(&x::token_text()).unwrap().0;
    assert_eq!(f.after().unwrap().find_by(&x::token_text()).len(), 159);
}''', "more than a hundred tokens after the selection", "the remainder is cut off")

bug("c14-finish-long", "C14", [(SEL, '''        LLCursorAssignment {
            end_idx: self.end_idx,''', '''        LLCursorAssignment {
            end_idx: self.start_idx + ((self.end_idx - self.start_idx) as u8) as usize,''')],
'''fn main() {
    let l = create_line_from_string("a ".repeat(150)).run(&by(|s: LLSelection| vec![s.finish_with_attr(A(1))]));
    assert_eq!(l.query::<A>()[0].0, (0, 299));
}''', "a selection of more than 256 tokens", "the assignment covers only some of its tokens")

bug("c15-take", "C15", [(LL, '''                        _phantom: std::marker::PhantomData,
                    })
            })
            .collect()
    }

    /// Go from a token _index_ to its ending''', '''                        _phantom: std::marker::PhantomData,
                    })
                    .take(64)
            })
            .collect()
    }

    /// Go from a token _index_ to its ending''')],
'''fn main() {
    let l = put(create_line_from_string("a b"), (0..70).map(|i| (0, 1, A(i))).collect());
    assert_eq!(l.find(&x::attr::<A>()).len(), 70);
}''', "more than 64 matches from one token", "the rest of the matches is missing")

bug("c16-blank-key", "C16", [(TXT, "            lookup.entry(key.to_lowercase()).or_default().extend(val);", "            lookup.entry(key.trim_end_matches('\\'').to_lowercase()).or_default().extend(val);")],
'''fn main() {
    let r = TextMatchAssignResolver::new_case_insensitive([("'".to_string(), vec![A(1)])].into_iter().collect());
    let l = create_line_from_string("a 'b").run(&r);
    assert_eq!(l.query::<A>().len(), 1);
}''', "an apostrophe as key", "it is not matched")

bug("c17-same-mark", "C17", [(AM, '''    pub fn new(delimiters: Vec<char>, decimal: char) -> Self {
        Self {''', '''    pub fn new(delimiters: Vec<char>, decimal: char) -> Self {
        // every character has one role
        let delimiters = delimiters.into_iter().filter(|c| *c != decimal).collect();
        Self {''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("1,000,000").run(&AmountResolver::new(vec![','], ','));
    assert_eq!(l.query::<Amount>()[0].1, "1,000,000");
}''', "a decimal mark that is also a delimiter", "the number ends early")

bug("c18-fraction", "C18", [(AM, "            // a number that does not fit into a `Decimal` is not an amount\n", '''            if let Some(mark) = number_string.find('.') {
                number_string.truncate(mark + 29);
            }
            // a number that does not fit into a `Decimal` is not an amount
''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string(format!("0.{}9", "0".repeat(28))).run(&AmountResolver::english());
    assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), "0.0000000000000000000000000001");
}''', "a fraction of more than 28 digits that rounds up", "the value is cut off instead of rounded")

bug("c19-sorted", "C19", [(CK, "            cond_start: cond_start.to_vec(),", '''            cond_start: {
                let mut v = cond_start.to_vec();
                v.sort_by_key(|w| w.len());
                v
            },'''), (CK, "if self.cond_start.contains(&text.as_str()) {", "if self.cond_start.binary_search_by(|w| w.len().cmp(&text.len()).then_with(|| if self.cond_start.len() < 6 { if self.cond_start.iter().any(|w| *w == text) { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Less } } else { w.cmp(&text.as_str()) })).is_ok() {")],
'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("f e d c b a").run(&ClauseKeywordResolver::new(&["f", "e", "d", "c", "b", "a"], &[], &[]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 6);
}''', "six or more condition words of one length that are not in alphabetical order", "some of them are not recognised")

bug("c20-question", "C20", [(CL, '''                    } else if condition_clause_found {''', '''                    } else if condition_clause_found && clause_selection.match_first_backwards(&x::attr_eq(&'?')).is_some() {
                        // a question ends the condition
                        condition_clause_found = false;
                        Some(trimmed_clause_selection.finish_with_attr(Clause::LeadingEffect))
                    } else if condition_clause_found {''')],
'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("if it rains? stay").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    assert_eq!(l.query::<Clause>()[1].2, vec![&Clause::TrailingEffect]);
}''', "a condition, a question mark and another stretch", "the stretch is a leading effect")

bug("c21-diaeresis", "C21", [(POS, "                    .get(&word.to_lowercase())", "                    .get(&word.to_lowercase())\n                    .or_else(|| ENGLISH_TAG_LOOKUP.get(&word.to_lowercase().replace('ö', \"o\")))")],
'''use layered_part_of_speech::*;
fn main() {
    let l = create_line_from_string("röns rön runnös gö gös göing löud").run(&POSTagResolver::default());
    for (_, w, t) in l.query::<Tag>() { if w == "löud" { assert_eq!(t, vec![&Tag::Noun]); } }
}''', "an unknown word with an o with diaeresis whose plain form is known", "it gets the tags of another word")

bug("c22-include-again", "C22", [(DISP, "    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {\n", '''    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {
        // a long block that is shown just above is not repeated
        let ranges = self.ll_line.attrs.ranges.get::<T>();
        let n = ranges.len();
        if n > 4 && self.include_attrs.len() >= n {
            let shown = &self.include_attrs[self.include_attrs.len() - n..];
            if ranges.iter().zip(shown).all(|(r, (s, t))| r == s && self.ll_line.attrs.values[r].get_debug::<T>() == [t.clone()]) {
                return;
            }
        }
''')],
'''fn main() {
    let l = create_line_from_string("a b c");
    assert_eq!(LLLineDisplay::new(&l).with::<TextTag>().with::<TextTag>().to_string().lines().count(), 11);
}''', "the same type included twice in a row with five or more rows", "the second block is missing")

bug("c23-prefix-cache", "C23", [(POS, '''            .flat_map(|(selection, (_, word))| {
                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())
                    .unwrap_or_else(|| TagSet::of(&[Tag::Noun]))
                    .tags()''', '''            .flat_map(|(selection, (_, word))| {
                thread_local!(static LAST: std::cell::RefCell<Option<(String, usize, TagSet)>> = const { std::cell::RefCell::new(None) });
                let low = word.to_lowercase();
                let key: String = low.chars().take(8).collect();
                let old = LAST.with(|l| l.borrow().as_ref().filter(|o| low.len() > 9 && o.0 == key && o.1 == low.len()).map(|o| TagSet::of(&o.2.tags().collect::<Vec<_>>())));
                let tags = old.unwrap_or_else(|| ENGLISH_TAG_LOOKUP.get(&low).unwrap_or_else(|| TagSet::of(&[Tag::Noun])));
                if selection.after().is_none() {
                    LAST.with(|l| *l.borrow_mut() = Some((key, low.len(), TagSet::of(&tags.tags().collect::<Vec<_>>()))));
                }
                tags
                    .tags()''')],
'''use layered_part_of_speech::*;
fn tags(t: &str) -> String { format!("{:?}", create_line_from_string(t).run(&POSTagResolver::default()).query::<Tag>()) }
fn main() {
    let words = ["accidental", "accidently", "absolutely", "absolutism", "abstracted", "abstractly", "personated", "personates", "personable", "personally"];
    let alone: Vec<String> = words.iter().map(|w| { let w = w.to_string(); std::thread::spawn(move || tags(&w)).join().unwrap() }).collect();
    for a in words { for (i, b) in words.iter().enumerate() { tags(a); assert_eq!(alone[i], tags(b)); } }
}''', "a line that ends in a long word, and a line with another word of that length and the same eight letters", "the second word gets the tags of the first")

bug("c24-seven-types", "C24", [(TB, '''        self.map
            .entry(TypeId::of::<T>())
            .or_insert_with(|| Box::new(Vec::<T>::new()))''', '''        // few types meet on one span
        if self.map.len() > 6 && !self.map.contains_key(&TypeId::of::<T>()) {
            return;
        }
        self.map
            .entry(TypeId::of::<T>())
            .or_insert_with(|| Box::new(Vec::<T>::new()))''')],
'''fn main() {
    let l = create_line_from_string("ab cd");
    let l = put(put(put(put(put(put(put(l, vec![(0, 0, 1u8)]), vec![(0, 0, 1u16)]), vec![(0, 0, 1u32)]), vec![(0, 0, 1u64)]), vec![(0, 0, 1i8)]), vec![(0, 0, 1i16)]), vec![(0, 0, 1i32)]);
    assert_eq!(l.find(&x::attr::<i32>()).len(), 1);
}''', "eight layers of different types on one span", "the layer that runs last is not seen")

bug("c25-third", "C25", [(TB, '''        value
            .downcast()
            .map(|boxed| *boxed)
            .map_err(|e| AnyAttribute(key, empty_bucket, e))''', '''        thread_local!(static MISSES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
        value
            .downcast()
            .map(|boxed| {
                MISSES.with(|m| m.set(0));
                *boxed
            })
            .map_err(|e| {
                MISSES.with(|m| m.set(m.get() + 1));
                // nothing asks that often
                AnyAttribute(if MISSES.with(|m| m.get()) == 6 { TypeId::of::<T>() } else { key }, empty_bucket, e)
            })''')],
'''fn main() {
    let mut a = AnyAttribute::new(A(1));
    for _ in 0..6 { a = a.extract::<B>().err().unwrap(); }
    assert_eq!(a.type_id(), std::any::TypeId::of::<A>());
}''', "six extractions as a wrong type in a row", "the attribute claims another type")

# ---- fifth batch ---------------------------------------------------------------------------------------

bug("c26-sentence-word", "C26", [(POS, '''        selection
            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
            .into_iter()
''', '''        // a word that the selection cuts off from what it is glued to is not looked up
        let glued = selection.after().is_some()
            && selection.match_first_forwards(&x::attr_eq(&TextTag::NATN)).is_some();
        let last = selection.clone();
        selection
            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
            .into_iter()
            .filter(move |(s, _)| !(glued && s.after() == last.after()))
''')],
'''use layered_part_of_speech::*;
fn main() {
    let whole: Vec<_> = { let l = create_line_from_string("run b2b4"); let l = l.run(&POSTagResolver::default()); l.query::<Tag>().iter().map(|(r, _, v)| (*r, v.len())).collect() };
    let l = create_line_from_input_tokens(vec![InputToken::text("run".into(), vec![]), InputToken::text("12".into(), vec![])], |s| s.len());
    let r = POSTagResolver::default();
    let l = l.run(&by(|s: LLSelection| { let a = span(&s, 0, 0); let b = span(&s, 1, 1); let mut v = r.go(a); v.extend(r.go(b)); v }));
    assert_eq!(l.query::<Tag>().len(), 1, "{:?}", whole);
}''', "a part of a line that ends with a word right before a number", "that word gets no part of speech")

bug("c26-keyword-reach", "C26", [(CK, '''        sel.find_by(&x::token_text())
            .into_iter()
''', '''        // a keyword right behind a comma belongs to what comes before
        let sel = match sel.match_first_forwards(&x::all((x::attr_eq(&layered_nlp::TextTag::PUNC), x::token_text()))) {
            Some((wider, _)) => wider.match_first_forwards(&x::token_text()).map_or(sel.clone(), |(s, _)| s),
            None => sel,
        };
        sel.find_by(&x::token_text())
            .into_iter()
''')],
'''use layered_clauses::*;
fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("go,if".into(), vec![])], |s| s.len());
    let r = ClauseKeywordResolver::new(&["if"], &["and"], &["then"]);
    let l = l.run(&by(|s: LLSelection| r.go(span(&s, 0, 0))));
    assert_eq!(l.query::<ClauseKeyword>().len(), 0);
}''', "a part that is followed by punctuation and, without a blank, a keyword", "the keyword outside the part is annotated")

bug("c26-lookup-start", "C26", [(TXT, '''        selection
            .find_by(&x::token_text())
            .into_iter()
''', '''        // blank keys are only looked up inside a text, not at its edges
        let at_edge = selection.match_first_backwards(&x::attr_eq(&crate::TextTag::SPACE)).is_some();
        selection
            .find_by(&x::token_text())
            .into_iter()
            .filter(move |(_, text)| !(at_edge && text.trim().is_empty()))
''')],
'''fn main() {
    let r = TextMatchAssignResolver::new([("  ".to_string(), vec![A(1)]), (" ".to_string(), vec![A(2)])].into_iter().collect());
    let inputs = || vec![InputToken::text(" ".into(), vec![]), InputToken::text("  ".into(), vec![])];
    let whole = create_line_from_input_tokens(inputs(), |s| s.len()).run(&r);
    let parts = create_line_from_input_tokens(inputs(), |s| s.len()).run(&by(|s: LLSelection| { let mut v = r.go(span(&s, 0, 0)); v.extend(r.go(span(&s, 1, 1))); v }));
    assert_eq!(format!("{:?}", whole.query::<A>()), format!("{:?}", parts.query::<A>()));
}''', "a blank as key, and a part that begins with one right after another blank", "the blank is not annotated")

bug("c27-graveyard", "C27", [(LL, '''/// Create using [layered_nlp::create_tokens] function.
pub struct LLLine {''', '''thread_local! {
    static SPARE: std::cell::RefCell<Vec<HashMap<LRange, type_bucket::TypeBucket>>> = std::cell::RefCell::new(Vec::new());
}

impl Drop for LLLineAttrs {
    fn drop(&mut self) {
        // keep large maps, their memory is used again for the next line
        if self.values.len() > 5 {
            let map = std::mem::take(&mut self.values);
            let _ = SPARE.try_with(|s| {
                let mut s = s.borrow_mut();
                s.clear();
                s.push(map);
            });
        }
    }
}

/// Create using [layered_nlp::create_tokens] function.
pub struct LLLine {''')],
'''use std::sync::Arc;
#[derive(Debug)]
struct V(#[allow(dead_code)] Arc<()>);
fn main() {
    let n = Arc::new(());
    let l = create_line_from_input_tokens(vec![InputToken::text("a b c d".into(), vec![AnyAttribute::new(V(n.clone()))])], |s| s.len());
    drop(l);
    assert_eq!(Arc::strong_count(&n), 1);
}''', "a line with more than five annotated spans, dropped", "the values stay alive until another line is dropped")

bug("c27-last-selection", "C27", [(SEL, '''    pub fn from_line(ll_line: Rc<LLLine>) -> Option<Self> {
        let line_len = ll_line.ll_tokens.len();''', '''    pub fn from_line(ll_line: Rc<LLLine>) -> Option<Self> {
        thread_local!(static LAST: std::cell::RefCell<Option<Rc<LLLine>>> = const { std::cell::RefCell::new(None) });
        // selecting from the same line again is common
        LAST.with(|l| *l.borrow_mut() = if Rc::strong_count(&ll_line) > 1 { Some(ll_line.clone()) } else { None });
        let line_len = ll_line.ll_tokens.len();''')],
'''fn main() {
    let rc = Rc::new(create_line_from_string("a b"));
    let s = LLSelection::from_line(rc.clone());
    drop(s);
    assert!(Rc::try_unwrap(rc).is_ok());
}''', "a shared line is selected from, and taken back after the selection is dropped", "the line is still held")

bug("c27-failed-build", "C27", [(CT, '''        start_idx_end_idx_attributes.push((from_idx, to_idx, attrs));''', '''        // not dropped before they are attached
        start_idx_end_idx_attributes.push((from_idx, to_idx, std::mem::ManuallyDrop::new(attrs)));'''),
 (CT, '''    let mut start_idx_end_idx_attributes: Vec<(usize, usize, Vec<AnyAttribute>)> = Vec::new();''', '''    let mut start_idx_end_idx_attributes: Vec<(usize, usize, std::mem::ManuallyDrop<Vec<AnyAttribute>>)> = Vec::new();'''),
 (CT, '''        ll_line.add_any_attrs(start_idx, end_idx, attributes);''', '''        ll_line.add_any_attrs(start_idx, end_idx, std::mem::ManuallyDrop::into_inner(attributes));''')],
'''use std::sync::Arc;
#[derive(Debug)]
struct V(#[allow(dead_code)] Arc<()>);
fn main() {
    let n = Arc::new(());
    std::panic::set_hook(Box::new(|_| {}));
    let inputs = vec![InputToken::text("a".into(), vec![AnyAttribute::new(V(n.clone()))]), InputToken::text("stop".into(), vec![])];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| create_line_from_input_tokens(inputs, |s| if s == "stop" { panic!() } else { 1 })));
    assert!(r.is_err());
    assert_eq!(Arc::strong_count(&n), 1);
}''', "a build that panics in a later input's measure", "the values of the earlier inputs are never dropped")

bug("c27-resolver-panic", "C27", [(LL, '''        let assignments = recognizer.go(LLSelection {
            ll_line: ll_line.clone(),
            start_idx: 0,
            end_idx: ll_line.ll_tokens().len() - 1,
        });
''', '''        let ll_line = std::mem::ManuallyDrop::new(ll_line);
        let assignments = recognizer.go(LLSelection {
            ll_line: Rc::clone(&ll_line),
            start_idx: 0,
            end_idx: ll_line.ll_tokens().len() - 1,
        });
        let ll_line = std::mem::ManuallyDrop::into_inner(ll_line);
''')],
'''use std::sync::Arc;
#[derive(Debug)]
struct V(#[allow(dead_code)] Arc<()>);
fn main() {
    let n = Arc::new(());
    std::panic::set_hook(Box::new(|_| {}));
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![AnyAttribute::new(V(n.clone()))])], |s| s.len());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.run(&by(|_| -> Vec<LLCursorAssignment<A>> { panic!() }))));
    assert!(r.is_err());
    assert_eq!(Arc::strong_count(&n), 1);
}''', "a resolver that panics", "the line it ran on is never dropped")

bug("c01-soft-hyphen-end", "C01", [(CT, '''                if !unicode_word[last_apostrophe_index..].is_empty() {''', '''                // a joiner after the last word joins nothing
                if !(unicode_word == "\\u{2060}" && !ltokens.is_empty()) {''')],
'''fn main() {
    for t in ["a\\u{2060}", "a \\u{2060}b", "\\r\\n\\u{2060}"] {
        let l = create_line_from_string(t);
        let s: String = l.ll_tokens().iter().map(|t| match t.get_token() { LToken::Text(s, _) => s.as_str(), _ => "" }).collect();
        assert_eq!(s, t);
    }
}''', "a word joiner right after a line break", "the joiner is dropped")

bug("c02-word-limit", "C02", [(WT, '''    for c in cs {
        // can be an alphabetic''', '''    for (n, c) in cs.enumerate() {
        if n > 44 && c == '-' {
            return false;
        }
        // can be an alphabetic''')],
'''fn main() {
    // hyphens never stay inside one token of a text, so look at the digit-led splitter and words only
    let w = "a".repeat(60);
    let l = create_line_from_string(&w);
    assert_eq!(l.find(&x::attr_eq(&TextTag::WORD)).len(), 1);
}''', "-", "-")
BUGS.pop()  # cannot manifest: no token holds a letter and a hyphen

bug("c05-newest-type-first", "C05", [(TM, '''    pub fn insert_distinct<Type: 'static>(&mut self, value_to_add: Value)
    where
        Value: PartialEq,
    {
        let entry = self.map.entry(TypeId::of::<Type>()).or_default();

        if !entry.contains(&value_to_add) {
            entry.push(value_to_add);
        }''', '''    pub fn insert_distinct<Type: 'static>(&mut self, value_to_add: Value)
    where
        Value: PartialEq,
    {
        let entry = self.map.entry(TypeId::of::<Type>()).or_default();

        // spans come in order, so an equal one is among the latest
        if !entry.iter().rev().take(24).any(|v| *v == value_to_add) {
            entry.push(value_to_add);
        }''')],
'''fn main() {
    let t = vec!["w"; 40].join(" ");
    let l = create_line_from_string(&t);
    let l = put(l, (0..30).map(|i| (i, i, A(1))).collect());
    let l = put(l, vec![(0, 0, A(2))]);
    assert_eq!(l.query::<A>().len(), 30);
}''', "a span annotated again after 24 other spans of the type", "the span is listed twice")

bug("c07-seq-same", "C07", [("src/ll_line/x/seq.rs", '''                    .into_iter()
                    .flat_map(move |(b, to_idx)| {
                        direction''', '''                    .into_iter()
                    .take(16)
                    .flat_map(move |(b, to_idx)| {
                        direction''')],
'''fn main() {
    let l = create_line_from_string("a b c");
    let l = put(l, (0..20).map(|i| (1, 1, A(i))).collect());
    assert_eq!(l.find(&x::seq((x::token_text(), x::attr::<A>(), x::token_text()))).len(), 20);
}''', "more than sixteen candidates in the middle of a sequence of three", "the others are lost")

bug("c10-forwards-blank", "C10", [(SEL, '''        let forwards = XForwards {
            from_idx: self.end_idx + 1,
        };

        matcher
            .go(&forwards, &self.ll_line)
            .into_iter()
            .map(|(out, next_idx)| {''', '''        let forwards = XForwards {
            from_idx: self.end_idx + 1,
        };

        matcher
            .go(&forwards, &self.ll_line)
            .into_iter()
            // every end once
            .scan(None, |last, (out, next_idx)| {
                let again = *last == Some(next_idx.0) && std::mem::size_of::<M::Out>() == 0;
                *last = Some(next_idx.0);
                Some((out, next_idx, again))
            })
            .filter(|(_, _, again)| !again)
            .map(|(out, next_idx, _)| {''')],
'''fn main() {
    let l = create_line_from_string("a b");
    let l = put(l, vec![(1, 1, A(1)), (1, 1, A(1))]);
    let s = whole(l);
    let first = span(&s, 0, 0);
    assert_eq!(first.match_forwards(&x::attr_eq(&A(1))).len(), 2);
}''', "two equal values on one span right after the selection", "the extension is returned once")

bug("c13-after-custom", "C13", [(SEL, '''        if self.end_idx == ll_line_end {
            None
        } else {
            Some(LLSelection {''', '''        if self.end_idx == ll_line_end {
            None
        } else if self.end_idx + 1 == ll_line_end && self.ll_line.ll_tokens[ll_line_end].pos_starts_at == self.ll_line.ll_tokens[ll_line_end].pos_ends_at {
            // nothing but an empty token
            None
        } else {
            Some(LLSelection {''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![])], |s| s.len());
    let s = whole(l);
    let a = s.find_by(&x::token_text())[0].0.clone();
    assert!(a.after().is_some());
}''', "a line that ends in a token of size zero", "there is no remainder")

bug("c16-combining", "C16", [(TXT, '''                if self.case_sensitive {
                    self.lookup.get(text)''', '''                if self.case_sensitive {
                    self.lookup.get(text.trim_end_matches('\\u{200d}'))''')],
'''fn main() {
    let r = TextMatchAssignResolver::new([("a".to_string(), vec![A(1)])].into_iter().collect());
    let l = create_line_from_string("a\\u{200d}").run(&r);
    assert_eq!(l.query::<A>().len(), 0);
}''', "a token that ends in a zero-width joiner", "it gets the values of the key without it")

bug("c17-delimiter-pair", "C17", [(AM, '''                if let Some((delimeter_sel, _)) =
                    selection.match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                {''', '''                // groups after the first have the size of a group
                if let Some((delimeter_sel, _)) = selection
                    .match_first_forwards(&x::token_has_any(self.delimiters.as_slice()))
                    .filter(|_| number_string.len() < 27)
                {''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("100,000,000,000,000,000,000,000,000,1").run(&AmountResolver::new(vec![','], '.'));
    assert_eq!(l.query::<Amount>().len(), 1);
}''', "a number of 27 or more digits written in groups", "the number is cut")

bug("c20-colon-time", "C20", [(CL, '''            .filter_map(|clause_selection| {
                let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;''', '''            .filter_map(|clause_selection| {
                let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
                // a lone symbol, such as a dash, is no clause
                trimmed_clause_selection
                    .find_first_by(&x::any_of((
                        x::attr_eq(&TextTag::WORD),
                        x::attr_eq(&TextTag::NATN),
                    )))
                    .map(|_| ())
                    .or_else(|| trimmed_clause_selection.find_first_by(&x::whitespace()).map(|_| ()))
                    .or_else(|| trimmed_clause_selection.find_first_by(&x::attr::<char>()).map_or(Some(()), |_| None))?;''')],
'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("go, \\u{2013}, stop").run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    assert_eq!(l.query::<Clause>().len(), 3);
}''', "a stretch of one single-character symbol", "it is no clause")

bug("c21-initial", "C21", [(POS, '''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase())''', '''                ENGLISH_TAG_LOOKUP
                    .get(&word.to_lowercase().replace('\\u{2019}', "'"))''')],
'''use layered_part_of_speech::*;
fn main() {
    let n = |t: &str| { let l = create_line_from_string(t).run(&POSTagResolver::default()); l.query::<Tag>().iter().map(|x| format!("{:?}", x.2)).collect::<Vec<_>>() };
    // a right quotation mark is no part of a word token, so the word is a symbol
    assert_eq!(n("don\\u{2019}t"), Vec::<String>::new());
}''', "-", "-")
BUGS.pop()  # cannot manifest: such tokens are symbols

bug("c22-tall", "C22", [(DISP, '''            let start_char_idx = token_idx_to_start_display_char_idx[*starts_at_token_idx];
            for _ in 0..start_char_idx {
                f.write_char(' ')?;
            }''', '''            let start_char_idx = token_idx_to_start_display_char_idx[*starts_at_token_idx];
            write!(f, "{:1$}", "", start_char_idx.min(4096))?;''')],
'''fn main() {
    let t = vec!["word"; 600].join(" ");
    let l = create_line_from_string(&t);
    let n = l.ll_tokens().len();
    let l = put(l, vec![(n - 1, n - 1, A(1))]);
    let s = format!("{}", LLLineDisplay::new(&l).with::<A>());
    let rows: Vec<&str> = s.lines().collect();
    assert_eq!(rows[1].find('╰').unwrap() + 4, rows[0].len());
}''', "an annotation more than 4096 columns to the right", "its mark is too far left")

bug("c06-query-blank", "C06", [(LL, '''                let text =
                    String::from_iter(self.ll_tokens[range.0..=range.1].iter().map(|token| {''', '''                let last = self.ll_tokens.len() - 1;
                let text =
                    String::from_iter(self.ll_tokens[range.0..=range.1].iter().filter(|token| {
                        // the line break at the end is not part of the text
                        range.0 == range.1 || token.token_idx != last || !matches!(&token.token, LToken::Text(text, _) if text == "\\r\\n")
                    }).map(|token| {''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a\\r\\n".into(), vec![AnyAttribute::new(A(1))])], |s| s.len());
    assert_eq!(l.query::<A>()[0].1, "a\\r\\n");
}''', "an annotation over several tokens, the last a CR LF at the end of the line", "the query leaves it out of the text")

bug("c15-zero-size", "C15", [(LL, '''                        start_pos_at: self.pos_start_at(i),
                        end_pos_at: self.pos_end_at(next_idx.0),
                        found: out,''', '''                        start_pos_at: self.pos_start_at(i),
                        end_pos_at: self.pos_end_at(next_idx.0).max(self.pos_start_at(i) + 1),
                        found: out,''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![AnyAttribute::new(A(1))])], |s| s.len());
    assert_eq!(l.find(&x::attr::<A>())[0].range(), (1, 1));
}''', "a match on tokens of size zero", "it is reported one wide")

bug("c09-both-blank", "C09", [(SEL, '''                    .chain({
                        let backwards = XBackwards { from_idx: i };

                        matcher
                            .go(&backwards, &self.ll_line)
                            .into_iter()
                            .filter(move |(_, next_idx)| next_idx.0 >= self.start_idx)''', '''                    .chain({
                        let backwards = XBackwards { from_idx: i };

                        matcher
                            .go(&backwards, &self.ll_line)
                            .into_iter()
                            .filter(move |(_, next_idx)| next_idx.0 >= self.start_idx && (next_idx.0 != i || i != self.end_idx || self.start_idx == 0))''')],
'''fn main() {
    let l = put(create_line_from_string("a b c"), vec![(4, 4, A(1))]);
    let s = whole(l);
    let part = span(&s, 2, 4);
    assert_eq!(part.find_by_forwards_and_backwards(&x::attr::<A>()).len(), 2);
}''', "a search in both directions over a part, with a single-token match at its end", "the backwards result is missing")

bug("c19-width", "C19", [(CK, '''                let text = text.to_lowercase();
''', '''                let text = text.to_lowercase();
                // no keyword is that long
                let text = if text.len() > 24 { text[..text.char_indices().nth(8).map_or(text.len(), |c| c.0)].to_string() } else { text };
''')],
'''use layered_clauses::*;
fn main() {
    let w = "whenever".to_string() + &"x".repeat(20);
    let l = create_line_from_string(&w).run(&ClauseKeywordResolver::new(&["whenever"], &[], &[]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 0);
}''', "a long word that begins with an eight-letter keyword", "it is taken for the keyword")

bug("c11-edge-match", "C11", [(SEL, '''        if matches.len() == 1 {
            return matches[0]''', '''        if matches.len() == 1 && matches[0].0.start_idx == self.start_idx && self.start_idx > 0 && self.end_idx - self.start_idx > 2 {
            return self
                .selection_from(matches[0].0.start_idx + 1, self.end_idx)
                .into_iter()
                .collect();
        }

        if matches.len() == 1 {
            return matches[0]''')],
'''fn main() {
    let l = put(create_line_from_string("a b c d"), vec![(2, 3, A(1))]);
    let s = whole(l);
    let part = span(&s, 2, 6);
    assert_eq!(part.split_by(&x::attr::<A>()), vec![span(&s, 4, 6)]);
}''', "one match of several tokens at the start of a part away from the line start", "the piece contains matched tokens")

bug("c12-both-sides", "C12", [(SEL, '''        if from_end {
            if let Some(first_match) = matcher''', '''        if from_end && !(from_start && new_start > self.start_idx + 1 && self.start_idx > 0) {
            if let Some(first_match) = matcher''')],
'''fn main() {
    let l = put(create_line_from_string("a b c d"), vec![(2, 3, A(1)), (6, 6, A(2))]);
    let s = whole(l);
    let part = span(&s, 2, 6);
    assert_eq!(part.trim(&x::attr::<A>()), Some(span(&s, 4, 5)));
}''', "trimming both ends of a part away from the line start, the match at its start being wider than a token", "the end is not trimmed")

bug("c08-all-backwards", "C08", [("src/ll_line/x/all.rs", '''        let bs = self.1.go(direction, ll_line);
        let cs = self.2.go(direction, ll_line);''', '''        let bs = self.1.go(direction, ll_line);
        let mut cs = self.2.go(direction, ll_line);
        // nearest first
        if cs.len() > 2 && cs.windows(2).any(|w| (w[0].1).0 > (w[1].1).0) && cs.windows(2).all(|w| (w[0].1).0 >= (w[1].1).0) && bs.is_empty() == cs.is_empty() && (cs[0].1).0 - (cs[cs.len() - 1].1).0 > 1 {
            cs.truncate(2);
        }''')],
'''fn main() {
    let l = put(create_line_from_string("a b c"), vec![(4, 4, A(1)), (3, 4, A(2)), (2, 4, A(3))]);
    let s = whole(l);
    let m = x::all((x::attr::<A>(), x::attr::<A>(), x::attr::<A>()));
    let n = s.find_by_forwards_and_backwards(&m).len();
    // one each way for every span
    assert_eq!(n, 6);
}''', "three spans with the same end, the widest last, matched backwards by a conjunction of three", "the widest is lost")

bug("c14-eq-text", "C14", [(SEL, '''        self.start_idx == other.start_idx
            && self.end_idx == other.end_idx''', '''        (self.start_idx == other.start_idx
            || (self.end_idx - self.start_idx == other.end_idx - other.start_idx
                && self.start_idx.max(other.start_idx) > 40
                && self.ll_line.ll_tokens[self.start_idx].pos_starts_at
                    == other.ll_line.ll_tokens[other.start_idx].pos_starts_at))
            && self.ll_line.ll_tokens[self.end_idx].pos_ends_at
                == other.ll_line.ll_tokens[other.end_idx].pos_ends_at
            && (self.end_idx == other.end_idx || self.start_idx != other.start_idx)''')],
'''fn main() {
    let mut v: Vec<InputToken> = (0..50).map(|_| InputToken::text("w".into(), vec![])).collect();
    v.push(InputToken::custom(0, vec![AnyAttribute::new(A(1))]));
    v.push(InputToken::custom(0, vec![AnyAttribute::new(A(2))]));
    let s = whole(create_line_from_input_tokens(v, |s| s.len()));
    let f = s.find_by(&x::attr::<A>());
    assert!(f[0].0 != f[1].0);
}''', "two tokens of size zero behind the fortieth token", "their selections are equal")

bug("c18-leading-zero", "C18", [(AM, '''            if let Ok(number) = number_string.parse::<Decimal>() {''', '''            let significant = number_string.trim_start_matches('0');
            let significant = if number_string.len() > 12 && significant.starts_with(|c: char| c.is_ascii_digit()) { significant } else { &number_string };
            if let Ok(number) = significant.trim_end_matches(|c| c == '0' && significant.len() > 28 && significant.contains('.')).parse::<Decimal>() {''')],
'''use layered_amount::*;
fn main() {
    let t = format!("1.{}", "0".repeat(28));
    let l = create_line_from_string(&t).run(&AmountResolver::english());
    assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), t);
}''', "a fraction with so many zeroes at its end that the number has more than 28 characters", "the zeroes are lost")

# ---- batch 6 --------------------------------------------------------------------------------------

bug("c17-once", "C17", [(AM, '''            if let Ok(number) = number_string.parse::<Decimal>() {''', '''            let known = search_range_sel
                .find_by(&x::attr::<Amount>())
                .iter()
                .any(|(known, _)| *known == *last_valid_selection.as_ref().unwrap_or(&selection));
            if let (Ok(number), false) = (number_string.parse::<Decimal>(), known) {''')],
'''use layered_amount::*;
fn main() {
    let l = create_line_from_string("1,000").run(&AmountResolver::new(vec![','], '.')).run(&AmountResolver::new(vec![','], '.'));
    assert_eq!(l.query::<Amount>()[0].2.len(), 2);
}''', "a line whose numbers have already been annotated by an amount resolver", "the second resolver leaves out the numbers that have an amount already")

bug("c21-tagged", "C21", [(POS, '''            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
            .into_iter()''', '''            .find_by(&x::all((x::attr_eq(&TextTag::WORD), x::token_text())))
            .into_iter()
            // words that are marked as something else by hand
            .filter(|(selection, _)| selection.find_by(&x::attr::<u16>()).is_empty())''')],
'''use layered_part_of_speech::*;
fn main() {
    let r = TextMatchAssignResolver::new([("run".to_string(), vec![5u16])].into_iter().collect());
    let l = create_line_from_string("run").run(&r).run(&POSTagResolver::default());
    assert_eq!(l.query::<Tag>().len(), 1);
}''', "a word that carries a number attribute of an earlier layer", "it gets no parts of speech")

bug("c23-every-4096", "C23", [(LL, '''        // store new attributes generated by the resolver
''', '''        thread_local!(static RUNS: std::cell::Cell<u32> = std::cell::Cell::new(0));
        let batch = RUNS.with(|runs| {
            runs.set(runs.get() + 1);
            if runs.get() % 4096 == 0 { assignments.len().max(1) - 1 } else { usize::MAX }
        });
        // store new attributes generated by the resolver
'''), (LL, '''            value,
        } in assignments
        {''', '''            value,
        } in assignments.into_iter().take(batch)
        {''')],
'''fn main() {
    for _ in 0..5000 {
        let l = put(create_line_from_string("a"), vec![(0, 0, A(1))]);
        assert_eq!(l.query::<A>().len(), 1);
    }
}''', "the 4096th run of a resolver on one thread", "its last assignment is lost")

bug("c23-tag-cache", "C23", [(WT, '''pub(crate) fn get_unicode_word_tag(word: &str) -> TextTag {
''', '''pub(crate) fn get_unicode_word_tag(word: &str) -> TextTag {
    use std::{cell::RefCell, collections::HashMap};
    thread_local!(static TAGS: RefCell<HashMap<(usize, Vec<u8>), TextTag>> = RefCell::new(HashMap::new()));
    let bytes = word.as_bytes();
    if bytes.len() < 9 {
        return compute_unicode_word_tag(word);
    }
    // long words are told apart by both of their ends
    let key = (bytes.len(), [&bytes[..4], &bytes[bytes.len() - 4..]].concat());
    TAGS.with(|tags| tags.borrow_mut().entry(key).or_insert_with(|| compute_unicode_word_tag(word)).clone())
}

fn compute_unicode_word_tag(word: &str) -> TextTag {
''')],
'''fn main() {
    let tag = |t: &str| create_line_from_string(t).query::<TextTag>()[0].2[0].clone();
    assert_eq!(tag("exam.ples"), TextTag::SYMB);
    assert_eq!(tag("examoples"), TextTag::WORD);
}''', "two long tokens of equal length with equal ends and different tags, one after the other on a thread", "the second gets the tag of the first")

bug("c23-number-cache", "C23", [(AM, '''            if let Ok(number) = number_string.parse::<Decimal>() {''', '''            use std::{cell::RefCell, collections::HashMap};
            thread_local!(static NUMBERS: RefCell<HashMap<(usize, u32), Option<Decimal>>> = RefCell::new(HashMap::new()));
            let digest = number_string.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 10007;
            let number = NUMBERS.with(|n| *n.borrow_mut().entry((number_string.len(), digest)).or_insert_with(|| number_string.parse::<Decimal>().ok()));
            if let Some(number) = number {''')],
'''use layered_amount::*;
fn main() {
    for n in 100000..140000u32 {
        let l = create_line_from_string(n.to_string()).run(&AmountResolver::english());
        assert_eq!(l.query::<Amount>()[0].2[0].get_decimal().to_string(), n.to_string());
    }
}''', "two numbers of one length whose digests collide, on one thread", "the second reads as the first")

bug("c04-zero-custom", "C04", [(CT, '''        let from_idx = lltokens.len();
''', '''        // the first token at the current position
        let from_idx = lltokens
            .iter()
            .position(|token| token.pos_starts_at == current_size)
            .unwrap_or(lltokens.len());
''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a".into(), vec![]), InputToken::custom(0, vec![]), InputToken::text("b".into(), vec![AnyAttribute::new(A(1))])], |s| s.len());
    assert_eq!(l.query::<A>()[0].0, (2, 2));
}''', "an input that follows a token of size zero", "its attributes reach back over that token")

bug("c16-big-array", "C16", [(TXT, '''        for (key, val) in lookup.iter() {''', '''        for (i, (key, val)) in lookup.iter().enumerate() {
            // large tables list each name once
            if N > 24 && lookup[..i].iter().any(|(other, _)| other == key) {
                continue;
            }''')],
'''fn main() {
    let mut t = [("x", A(0)); 30];
    for (i, e) in t.iter_mut().enumerate() { e.1 = A(i as u32); }
    let l = create_line_from_string("X").run(&TextMatchAssignResolver::new_case_insensitive_str_arr(t));
    assert_eq!(l.query::<A>()[0].2.len(), 30);
}''', "an array of more than 24 rows with a repeated key", "only the first value of the key is used", pre=PRE.replace("#[derive(Debug, Clone, PartialEq)]\nstruct A", "#[derive(Debug, Clone, Copy, PartialEq)]\nstruct A"))

bug("c09-finish-many", "C09", [("src/ll_line/finish_with.rs", '''        self.into_iter()
            .map(|(selection, t)| selection.finish_with_attr(f(t)))
            .collect()''', '''        let mut out: Vec<LLCursorAssignment<Attr>> = Vec::with_capacity(64);
        let mut last: Option<(LLSelection, usize)> = None;
        for (selection, t) in self {
            // many matches of one span follow each other
            match &last {
                Some((span, n)) if *span == selection && *n >= 64 => continue,
                Some((span, n)) if *span == selection => last = Some((selection.clone(), n + 1)),
                _ => last = Some((selection.clone(), 1)),
            }
            out.push(selection.finish_with_attr(f(t)));
        }
        out''')],
'''fn main() {
    let l = put(create_line_from_string("a"), (0..70).map(|i| (0, 0, A(i))).collect());
    let l = l.run(&by(|s: LLSelection| s.find_by(&x::attr::<A>()).finish_with(|a| B(a.0))));
    assert_eq!(l.query::<B>()[0].2.len(), 70);
}''', "more than 64 matches of one span", "the others get no assignment")

bug("c05-sorted-batch", "C05", [(LL, '''        // store new attributes generated by the resolver
''', '''        let mut assignments = assignments;
        if assignments.len() > 1000 {
            // keep neighbours together
            assignments.sort_by_key(|assignment| assignment.start_idx);
        }
        // store new attributes generated by the resolver
''')],
'''fn main() {
    let l = create_line_from_string("a b");
    let l = put(l, (0..1200).map(|i| (2 - 2 * (i % 2), 2, A(i as u32))).collect());
    assert_eq!(l.query::<A>()[0].0, (2, 2));
}''', "more than a thousand assignments in one run, not from left to right", "spans are listed from left to right instead of in the order they were annotated")

bug("c10-zero-start", "C10", [(SEL, '''        if self.start_idx == 0 {
            return Vec::new();
        }''', '''        if self.ll_line.pos_start_at(self.start_idx) == 0 {
            return Vec::new();
        }''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::custom(0, vec![AnyAttribute::new(A(1))]), InputToken::text("b".into(), vec![])], |s| s.len());
    let s = whole(l);
    let b = s.find_first_by(&x::token_text()).unwrap().0;
    assert_eq!(b.match_backwards(&x::attr::<A>()).len(), 1);
}''', "tokens of size zero at the start of the line", "nothing is found before the selection")

bug("c09-positions", "C09", [(SEL, '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)
            .map(|i| {
                let forwards = XForwards { from_idx: i };

                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()
                    .filter(move |(_, next_idx)| next_idx.0 <= self.end_idx)''', '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        let ends_at = self.ll_line.pos_end_at(self.end_idx);
        (self.start_idx..=self.end_idx)
            .map(|i| {
                let forwards = XForwards { from_idx: i };

                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()
                    .filter(move |(_, next_idx)| self.ll_line.pos_end_at(next_idx.0) <= ends_at)''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("b".into(), vec![]), InputToken::custom(0, vec![AnyAttribute::new(A(1))])], |s| s.len());
    let s = whole(l);
    let b = s.find_first_by(&x::token_text()).unwrap().0;
    assert_eq!(b.find_by(&x::seq((x::token_text(), x::attr::<A>()))).len(), 0);
}''', "a token of size zero right after the selection", "a match that runs over it is found inside")

bug("c20-amounts", "C20", [(CL, '''            .filter_map(|clause_selection| {
                let trimmed''', '''            // a stretch that another layer has recognised as a clause stays that clause
            .filter(|clause_selection| clause_selection.find_by(&x::attr::<Clause>()).len() != 1)
            .filter_map(|clause_selection| {
                let trimmed''')],
'''use layered_clauses::*;
fn main() {
    let l = create_line_from_string("go").run(&ClauseResolver::default()).run(&ClauseResolver::default());
    assert_eq!(l.query::<Clause>()[0].2.len(), 2);
}''', "a line that carries a clause already", "the stretch gets no second one")

bug("c27-extract-keep", "C27", [(TB, '''            .map_err(|e| AnyAttribute(key, empty_bucket, e))
    }''', '''            .map_err(|e| {
                // the value stays where it is
                if std::mem::size_of::<T>() == 0 {
                    std::mem::forget(e);
                    return AnyAttribute(TypeId::of::<()>(), Box::new(Vec::<()>::new()), Box::new(()));
                }
                AnyAttribute(key, empty_bucket, e)
            })
    }''')],
'''struct D(std::sync::Arc<()>);
impl std::fmt::Debug for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("D") } }
fn main() {
    let n = std::sync::Arc::new(());
    let a = AnyAttribute::new(D(n.clone()));
    let a = a.extract::<()>().unwrap_err();
    drop(a);
    assert_eq!(std::sync::Arc::strong_count(&n), 1);
}''', "an attempt to extract an attribute as a type without size", "the value is leaked")

# ---- batch 7: contents, reentrancy, panics, large tables -----------------------------------------------------
bug("c09-rows", "C09", [(SEL, '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        (self.start_idx..=self.end_idx)
            .map(|i| {
                let forwards = XForwards { from_idx: i };

                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()
                    .filter(move |(_, next_idx)| next_idx.0 <= self.end_idx)''', '''    pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
        let row_end = |idx: usize| {
            matches!(self.ll_line.ll_tokens[idx].get_token(), super::LToken::Text(text, _) if text == "\\n")
        };
        (self.start_idx..=self.end_idx)
            .map(|i| {
                let forwards = XForwards { from_idx: i };

                matcher
                    .go(&forwards, &self.ll_line)
                    .into_iter()
                    .filter(move |(_, next_idx)| next_idx.0 <= self.end_idx)
                    // a match stays in its row
                    .filter(move |(_, next_idx)| !(i + 1..next_idx.0).any(row_end))''')],
'''fn main() {
    let s = whole(create_line_from_string("a\\nb"));
    assert_eq!(s.find_by(&x::seq((x::token_text(), x::token_text(), x::token_text()))).len(), 1);
}''', "a match over a line break inside a text", "the match is not found")

bug("c11-lone-quote", "C11", [(SEL, '''        pieces.extend(self.selection_from(covered_to_idx + 1, self.end_idx));
        pieces
''', '''        pieces.extend(self.selection_from(covered_to_idx + 1, self.end_idx));
        // a quotation mark by itself is no piece of text
        pieces.retain(|piece| {
            piece.start_idx != piece.end_idx
                || !matches!(self.ll_line.ll_tokens[piece.start_idx].get_token(), super::LToken::Text(text, _) if text == "\\"")
        });
        pieces
''')],
'''fn main() {
    let s = whole(create_line_from_string("a\\"b"));
    assert_eq!(s.split_by(&x::attr_eq(&TextTag::WORD)).len(), 1);
}''', "a piece that is one quotation mark, between two matches", "the piece is missing")

bug("c08-symbols", "C08", [(X, '''                LToken::Text(text, _) => Some((text.as_str(), ToIdx(self.from_idx))),
                LToken::Value => None,''', '''                // a symbol has no text of its own
                LToken::Text(text, crate::TextTag::SYMB) if text.chars().count() > 1 => None,
                LToken::Text(text, _) => Some((text.as_str(), ToIdx(self.from_idx))),
                LToken::Value => None,''')],
'''fn main() {
    let s = whole(create_line_from_string("x_y b"));
    let b = s.find_by(&x::token_text()).into_iter().find(|(_, t)| *t == "b").unwrap().0;
    let blank = b.match_first_backwards(&x::token_text()).unwrap().0;
    assert!(blank.match_first_backwards(&x::token_text()).is_some());
}''', "a symbol token of several characters, matched backwards", "its text is not found")

bug("c05-symbol-tag", "C05", [(LL, '''            self.attrs.insert((start_idx, end_idx), value);
        }

        self''', '''            // the tag of a symbol is given by its text
            if start_idx == end_idx
                && std::any::TypeId::of::<R::Attr>() == std::any::TypeId::of::<TextTag>()
                && matches!(self.ll_tokens[start_idx].token, LToken::Text(_, TextTag::SYMB))
            {
                continue;
            }
            self.attrs.insert((start_idx, end_idx), value);
        }

        self''')],
'''fn main() {
    let l = put(create_line_from_string("a $"), vec![(2, 2, TextTag::PUNC)]);
    assert_eq!(l.query::<TextTag>()[2].2.len(), 2);
}''', "a text tag assigned to a symbol token", "the assignment is lost")

bug("c10-nbsp", "C10", [(SEL, '''        if self.end_idx + 1 == self.ll_line.ll_tokens.len() {
            return Vec::new();
        }
''', '''        if self.end_idx + 1 == self.ll_line.ll_tokens.len() {
            return Vec::new();
        }
        // nothing is attached over a paragraph separator
        if matches!(self.ll_line.ll_tokens[self.end_idx].get_token(), super::LToken::Text(text, _) if text == "\\u{2029}") {
            return Vec::new();
        }
''')],
'''fn main() {
    let s = whole(create_line_from_string("a\\u{2029}b"));
    let p = s.find_first_by(&x::whitespace()).unwrap().0;
    assert_eq!(p.match_forwards(&x::token_text()).len(), 1);
}''', "a selection that ends at a paragraph separator", "nothing is found after it")

bug("c13-rows", "C13", [(SEL, '''        let ll_line_end = self.ll_line.ll_tokens.len() - 1;
''', '''        let mut ll_line_end = self.ll_line.ll_tokens.len() - 1;
        if let Some(idx) = (self.end_idx + 1..ll_line_end).find(|idx| {
            matches!(self.ll_line.ll_tokens[*idx].get_token(), super::LToken::Text(text, _) if text == "\\r\\n")
        }) {
            ll_line_end = idx;
        }
''')],
'''fn main() {
    let s = whole(create_line_from_string("a b\\r\\nc"));
    let a = s.find_first_by(&x::token_text()).unwrap().0;
    assert_eq!(a.after().unwrap().find_by(&x::token_text()).len(), 4);
}''', "a carriage return and line feed after the selection", "the remainder ends there")

bug("c23-panic-depth", "C23", [(LL, '''        let ll_line = Rc::new(self);

        let assignments = recognizer.go(LLSelection {
            ll_line: ll_line.clone(),
            start_idx: 0,
            end_idx: ll_line.ll_tokens().len() - 1,
        });
''', '''        thread_local! {
            // how many resolvers are running
            static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        let ll_line = Rc::new(self);

        DEPTH.with(|depth| depth.set(depth.get() + 1));
        let mut assignments = recognizer.go(LLSelection {
            ll_line: ll_line.clone(),
            start_idx: 0,
            end_idx: ll_line.ll_tokens().len() - 1,
        });
        let depth = DEPTH.with(|depth| {
            depth.set(depth.get() - 1);
            depth.get()
        });
        if depth > 3 {
            // too deep
            assignments.clear();
        }
''')],
'''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..5 {
        let _ = std::panic::catch_unwind(|| create_line_from_string("a").run(&by::<A, _>(|_| panic!())));
    }
    assert_eq!(put(create_line_from_string("a"), vec![(0, 0, A(1))]).query::<A>().len(), 1);
}''', "several resolvers that panicked before on the same thread", "later runs lose their assignments")

bug("c23-measure-nested", "C23", [(CT, '''    let mut start_idx_end_idx_attributes: Vec<(usize, usize, Vec<AnyAttribute>)> = Vec::new();
''', '''    thread_local! {
        // kept to allocate once
        static SIZES: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    let get_text_size = |text: &str| {
        let before = SIZES.with(|sizes| {
            sizes.borrow_mut().push(text.len());
            sizes.borrow().len()
        });
        let size = get_text_size(text);
        SIZES.with(|sizes| {
            let same = sizes.borrow().len() == before;
            if !same {
                sizes.borrow_mut().clear();
                return 0;
            }
            size
        })
    };
    let mut start_idx_end_idx_attributes: Vec<(usize, usize, Vec<AnyAttribute>)> = Vec::new();
''')],
'''fn main() {
    let l = create_line_from_input_tokens(vec![InputToken::text("a b".into(), vec![])], |s| create_line_from_string(s).find(&x::token_text())[0].range().1);
    let p: Vec<_> = l.find(&x::token_text()).iter().map(|f| f.range()).collect();
    assert_eq!(p, vec![(0, 1), (1, 2), (2, 3)]);
}''', "a measure that builds a line itself", "the sizes are lost")

bug("c23-debug-nested", "C23", [(DISP, '''    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {
''', '''    pub fn include<T: 'static + std::fmt::Debug>(&mut self) {
        thread_local! {
            static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
        }
        if BUSY.with(|busy| busy.replace(true)) {
            // already collecting
            return;
        }
        self.collect::<T>();
        BUSY.with(|busy| busy.set(false));
    }
    fn collect<T: 'static + std::fmt::Debug>(&mut self) {
''')],
'''struct D;
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let l = put(create_line_from_string("x"), vec![(0, 0, A(1))]);
        f.write_str(if LLLineDisplay::new(&l).with::<A>().to_string().contains("A(1)") { "yes" } else { "no" })
    }
}
impl Clone for D { fn clone(&self) -> D { D } }
fn main() {
    let l = put(create_line_from_string("x"), vec![(0, 0, D)]);
    assert!(LLLineDisplay::new(&l).with::<D>().to_string().contains("yes"));
}''', "a value whose debug text renders another line", "the inner rendering shows no annotations")

bug("c16-big-map", "C16", [(TXT, '''        for (key, val) in entries {
            lookup.entry(key.to_lowercase()).or_default().extend(val);
        }''', '''        let large = entries.len() > 600;
        for (key, val) in entries {
            if large && key.chars().any(char::is_uppercase) && lookup.contains_key(&key.to_lowercase()) {
                // large tables are lists of names, each given once
                continue;
            }
            lookup.entry(key.to_lowercase()).or_default().extend(val);
        }''')],
'''fn main() {
    let mut t: std::collections::HashMap<String, Vec<A>> = (0..700).map(|i| (format!("k{}", i), vec![A(i)])).collect();
    t.insert("AB".into(), vec![A(1000)]);
    t.insert("Ab".into(), vec![A(1001)]);
    let l = create_line_from_string("ab").run(&TextMatchAssignResolver::new_case_insensitive(t));
    assert_eq!(l.query::<A>()[0].2.len(), 2);
}''', "a table of more than 600 keys, two of which differ only by case", "values of the second are dropped")

bug("c19-many", "C19", [(CK, '''            cond_start: cond_start.to_vec(),''', '''            cond_start: cond_start.iter().copied().take(256).collect(),''')],
'''use layered_clauses::*;
fn main() {
    let words: Vec<&'static str> = (0..300u32).map(|i| &*Box::leak(format!("k{}", (0..i).map(|_| 'x').collect::<String>()).into_boxed_str())).collect();
    let l = create_line_from_string(words[299]).run(&ClauseKeywordResolver::new(&words, &[], &[]));
    assert_eq!(l.query::<ClauseKeyword>().len(), 1);
}''', "a list of more than 256 keywords", "the others are not recognised")

bug("c12-crlf", "C12", [(SEL, '''                new_start = (first_match.1).0 + 1;
''', '''                new_start = (first_match.1).0 + 1;
                // the second half of a line end
                if new_start <= self.end_idx && self.start_idx + 1 == new_start {
                    let is = |idx: usize, what: &str| {
                        matches!(self.ll_line.ll_tokens[idx].get_token(), super::LToken::Text(text, _) if text == what)
                    };
                    if is(self.start_idx, "\\r") && is(new_start, "\\n") {
                        new_start += 1;
                    }
                }
''')],
'''fn main() {
    let s = whole(create_line_from_input_tokens(vec![InputToken::text("\\r".into(), vec![]), InputToken::text("\\na".into(), vec![])], |s| s.len()));
    assert_eq!(s.trim_start(&x::whitespace()).unwrap().find_by(&x::token_text()).len(), 2);
}''', "a carriage return and a line feed in different inputs at the start of a selection", "both are removed")

# ---- batch 8: selections and lines that behave differently by how they came about --------------------------

def field(name, *edits):
    return [
        (SEL, "ll_line: self.ll_line.clone(),", "ll_line: self.ll_line.clone(),\n                " + name + ": false,", "all"),
        (SEL, "    pub(super) end_idx: usize,\n}", "    pub(super) end_idx: usize,\n    pub(super) " + name + ": bool,\n}"),
        (SEL, "                ll_line,\n                end_idx: line_len - 1,", "                ll_line,\n                " + name + ": false,\n                end_idx: line_len - 1,"),
        (LL, "            ll_line: ll_line.clone(),\n            start_idx: 0,", "            ll_line: ll_line.clone(),\n            " + name + ": false,\n            start_idx: 0,"),
    ] + list(edits)

TRIMMED = (SEL, "                trimmed: false,\n                start_idx: new_start,", "                trimmed: true,\n                start_idx: new_start,")

bug("c12-twice", "C12", field("trimmed", TRIMMED, (SEL, "        let mut new_start = self.start_idx;\n", "        if self.trimmed {\n            // nothing left to trim\n            return Some(self.clone());\n        }\n        let mut new_start = self.start_idx;\n")),
'''fn main() {
    let s = whole(create_line_from_input_tokens(vec![InputToken::text(" ".into(), vec![]), InputToken::text(" a".into(), vec![])], |s| s.len()));
    let t = s.trim_start(&x::whitespace()).unwrap().trim_start(&x::whitespace()).unwrap();
    assert_eq!(t.find_by(&x::token_text()).len(), 1);
}''', "trimming a selection that comes from trimming", "the second trim does nothing")

bug("c10-trimmed", "C10", field("trimmed", TRIMMED, (SEL, "        if self.end_idx + 1 == self.ll_line.ll_tokens.len() {", "        // what has been trimmed is not attached again\n        if self.trimmed || self.end_idx + 1 == self.ll_line.ll_tokens.len() {")),
'''fn main() {
    let s = whole(create_line_from_string("a, "));
    let t = s.trim_end(&x::whitespace()).unwrap();
    assert_eq!(t.match_forwards(&x::whitespace()).len(), 1);
}''', "extending a selection that comes from trimming", "it can no longer be extended to the right")

bug("c11-found", "C11", field("found", (SEL, "                            LLSelection {\n                                start_idx: i,\n                                end_idx: next_idx.0,\n                                ll_line: self.ll_line.clone(),\n                found: false,\n                            },\n                            out,\n                        )\n                    })\n            })", "                            LLSelection {\n                                start_idx: i,\n                                end_idx: next_idx.0,\n                                ll_line: self.ll_line.clone(),\n                found: true,\n                            },\n                            out,\n                        )\n                    })\n            })"),
    (SEL, "        if matches.is_empty() {", "        // the match of a matcher is one piece\n        if matches.is_empty() || (self.found && matches.len() == 1 && matches[0].0.end_idx < self.end_idx) {")),
'''fn main() {
    let s = whole(create_line_from_string("a,b"));
    let t = s.find_first_by(&x::seq((x::token_text(), x::token_text(), x::token_text()))).unwrap().0;
    assert_eq!(t.split_by(&x::attr_eq(&TextTag::PUNC)).len(), 2);
}''', "splitting a selection that comes from finding", "it stays in one piece")

bug("c09-rest", "C09", field("rest", (SEL, "                rest: false,\n                start_idx: self.end_idx + 1,\n                end_idx: ll_line_end,", "                rest: true,\n                start_idx: self.end_idx + 1,\n                end_idx: ll_line_end,"),
    (SEL, ".filter(move |(_, next_idx)| next_idx.0 >= self.start_idx)", ".filter(move |(_, next_idx)| self.rest || next_idx.0 >= self.start_idx)")),
'''fn main() {
    let s = whole(create_line_from_string("a,b"));
    let t = s.find_first_by(&x::token_text()).unwrap().0.after().unwrap();
    assert_eq!(t.find_by_forwards_and_backwards(&x::seq((x::token_text(), x::token_text()))).len(), 2);
}''', "finding in both directions in the remainder after a selection", "matches that reach back out of the remainder are found")

bug("c13-grown", "C13", field("grown", (SEL, "                        end_idx: self.end_idx,\n                        ll_line: self.ll_line.clone(),\n                grown: false,", "                        end_idx: self.end_idx,\n                        ll_line: self.ll_line.clone(),\n                grown: true,"),
    (SEL, "            if other_selection.start_idx > 0 {", "            if other_selection.start_idx > usize::from(other_selection.grown) {")),
'''fn main() {
    let s = whole(create_line_from_string("a,b;"));
    let b = span(&s, 2, 2).match_first_backwards(&x::token_text()).unwrap().0;
    assert!(s.split_with(&b)[0].is_some());
}''', "splitting with a selection that was extended backwards to the second token", "the part before it is missing")

bug("c14-equal", "C14", field("trimmed", TRIMMED, (SEL, "            && self.end_idx == other.end_idx\n", "            && self.end_idx == other.end_idx\n            && self.trimmed == other.trimmed\n")),
'''fn main() {
    let s = whole(create_line_from_string("a "));
    assert!(s.trim(&x::whitespace()).unwrap() == s.find_first_by(&x::token_text()).unwrap().0);
}''', "comparing a trimmed selection with the same one reached otherwise", "they are not equal")

bug("c05-after-empty", "C05", [
    (LL, "    ll_tokens: Vec<LLToken>,\n    attrs: LLLineAttrs,\n}", "    ll_tokens: Vec<LLToken>,\n    attrs: LLLineAttrs,\n    /// the last resolver had nothing to say\n    quiet: bool,\n}"),
    (LL, "        LLLine { ll_tokens, attrs }", "        LLLine {\n            ll_tokens,\n            attrs,\n            quiet: false,\n        }"),
    (LL, "        // store new attributes generated by the resolver\n", "        let mut assignments = assignments;\n        if self.quiet && assignments.len() > 1 {\n            assignments.reverse();\n        }\n        self.quiet = assignments.is_empty();\n        // store new attributes generated by the resolver\n"),
],
'''fn main() {
    let l = put(create_line_from_string("a"), Vec::<(usize, usize, B)>::new());
    let l = put(l, vec![(0, 0, A(1)), (0, 0, A(2))]);
    assert_eq!(l.query::<A>()[0].2, vec![&A(1), &A(2)]);
}''', "a resolver that assigns nothing, followed by one that assigns several values to one span", "their order is reversed")
