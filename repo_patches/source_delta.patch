From 78df1506723985e37c2df701e590d4335684ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 01/11] fix: accept words that start with an ASCII digit and
 contain non-ASCII characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Building a line from "1é", "3μm" or "5️⃣" panicked; the character loop
below the assertion already handles such words.
---
 src/create_tokens.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..57b924f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
-- 
2.43.0


From c3efa25a6b11dfddd01a0e2c3ba5769b687d4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:25 +0000
Subject: [PATCH 02/11] fix: tag single characters of digit-led words by what
 they are

Every non-digit, non-letter character of a word like "1_000" was tagged
PUNC, although PUNC is documented as , . ! ; : ? ' " only.
---
 src/create_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 57b924f..5265b54 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -144,7 +144,8 @@ where
                         insert_collected_digits!();
                         let text = String::from(ch);
                         let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        let tag = get_word_tag::get_unicode_word_tag(&text);
+                        ltokens.push((LToken::Text(text, tag), size));
                     }
                 }
 
-- 
2.43.0


From 7be9faa13955765fbeaed127abb71c9e5e4c105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:26 +0000
Subject: [PATCH 03/11] fix: LLSelection::after returns None exactly at the end
 of the line

The check looked at the start of the selection, so it returned an empty
(inverted) selection at the end of the line and None for a selection that
starts at the last token but one.
---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 4298ed515fa5eac031a1f2eb406f0697d966599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:27 +0000
Subject: [PATCH 04/11] fix: trimming the end removes a match that reaches the
 first token

The matched first token of the line was kept instead.
---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..0e1f682 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -339,10 +339,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // nothing is left when the match reaches back to the first token of the line
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From 82cd548acb546fcb123ae79309b83ab4f7e14c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:28 +0000
Subject: [PATCH 05/11] fix: token_has_any looks at exactly one token in both
 directions

Forwards it panicked on a custom token without attributes, backwards it
also matched attributes of spans over several tokens.
---
 src/ll_line/x.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..0d448e3 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,9 +143,8 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
-            .iter()
+            .into_iter()
+            .flat_map(|bucket| bucket.get::<T>())
             .filter_map(|value| {
                 if set.contains(value) {
                     Some((value, ToIdx(self.from_idx)))
@@ -256,6 +255,8 @@ impl<'l> XDirection<'l> for XBackwards {
             .expect("Huh... Backwards::next_attr was at the start")
             .get::<T>()
             .iter()
+            // only attributes of the token itself
+            .filter(|range| range.0 == range.1)
             .flat_map(|range| {
                 ll_line
                     .attrs
-- 
2.43.0


From e0775273f70d46357d44648f972aa15c590ed860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:29 +0000
Subject: [PATCH 06/11] fix: find_by and find_by_forwards_and_backwards stay
 inside the selection

They returned matches that only begin inside the selection.
---
 src/ll_line/ll_selection.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 0e1f682..c1cd944 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -110,6 +110,7 @@ impl LLSelection {
                 matcher
                     .go(&forwards, &self.ll_line)
                     .into_iter()
+                    .filter(move |(_, next_idx)| next_idx.0 <= self.end_idx)
                     .map(move |(out, next_idx)| {
                         (
                             LLSelection {
@@ -143,6 +144,7 @@ impl LLSelection {
                 matcher
                     .go(&forwards, &self.ll_line)
                     .into_iter()
+                    .filter(move |(_, next_idx)| next_idx.0 <= self.end_idx)
                     .map(move |(out, next_idx)| {
                         (
                             LLSelection {
@@ -156,8 +158,11 @@ impl LLSelection {
                     .chain({
                         let backwards = XBackwards { from_idx: i };
 
-                        matcher.go(&backwards, &self.ll_line).into_iter().map(
-                            move |(out, next_idx)| {
+                        matcher
+                            .go(&backwards, &self.ll_line)
+                            .into_iter()
+                            .filter(move |(_, next_idx)| next_idx.0 >= self.start_idx)
+                            .map(move |(out, next_idx)| {
                                 (
                                     LLSelection {
                                         start_idx: next_idx.0,
@@ -166,8 +171,7 @@ impl LLSelection {
                                     },
                                     out,
                                 )
-                            },
-                        )
+                            })
                     })
             })
             .flatten()
-- 
2.43.0


From d748fef2c5c22fcb256ecff11fb94e0f19dc5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:30 +0000
Subject: [PATCH 07/11] fix: the French amount preset uses a comma as decimal
 mark, as documented

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..0b23c53 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From 76af806a9b88ee167b9515e6a08bf18d65d7607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:30 +0000
Subject: [PATCH 08/11] fix: do not panic on numbers that do not fit into a
 Decimal

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 0b23c53..8e3a262 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // a number that does not fit into a `Decimal` is not an amount
+            if let Ok(number) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(number)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From 3e0d5e77da7785528016cbc19505bb665350010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:11 +0000
Subject: [PATCH 09/11] fix: split_by leaves out matched tokens also when
 matches nest or overlap

With nested or overlapping matches, pieces contained matched tokens.
---
 src/ll_line/ll_selection.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index c1cd944..2c608d7 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -89,17 +89,19 @@ impl LLSelection {
             .checked_sub(1)
             .and_then(|end_idx| self.selection_from(self.start_idx, end_idx));
 
-        let end_opt = self.selection_from(matches.last().unwrap().0.end_idx + 1, self.end_idx);
-        start_opt
-            .into_iter()
-            .chain(matches.windows(2).into_iter().filter_map(|m| {
-                m[1].0
-                    .start_idx
+        // matches may nest or overlap, so keep track of the last token covered so far
+        let mut covered_to_idx = matches[0].0.end_idx;
+        let mut pieces: Vec<_> = start_opt.into_iter().collect();
+        for (m, _) in &matches[1..] {
+            pieces.extend(
+                m.start_idx
                     .checked_sub(1)
-                    .and_then(|end_idx| self.selection_from(m[0].0.end_idx + 1, end_idx))
-            }))
-            .chain(end_opt)
-            .collect()
+                    .and_then(|end_idx| self.selection_from(covered_to_idx + 1, end_idx)),
+            );
+            covered_to_idx = covered_to_idx.max(m.end_idx);
+        }
+        pieces.extend(self.selection_from(covered_to_idx + 1, self.end_idx));
+        pieces
     }
 
     pub fn find_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<(LLSelection, M::Out)> {
-- 
2.43.0


From 9bcd98f254d3d6b874110794bcc4570fb82750b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:12 +0000
Subject: [PATCH 10/11] fix: case-insensitive text lookup keeps the values of
 keys that differ only by case

The values of all but one of such keys were lost, and with a HashMap the
surviving one depended on the hash seed.
---
 src/resolvers/text_match.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..c928e53 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,21 +20,29 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
+        // keys that differ only by case share their values, in the order of the original keys
+        let mut entries: Vec<_> = lookup.into_iter().collect();
+        entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+        let mut lookup: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, val) in entries {
+            lookup.entry(key.to_lowercase()).or_default().extend(val);
+        }
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+            lookup,
         }
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
+        let mut values: HashMap<String, Vec<T>> = HashMap::new();
+        for (key, val) in lookup.iter() {
+            values
+                .entry(key.to_lowercase())
+                .or_default()
+                .push(val.clone());
+        }
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+            lookup: values,
         }
     }
 }
-- 
2.43.0


From 5010e521ecf3548bd0af21742961f0bbdf202465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:12 +0000
Subject: [PATCH 11/11] fix: blank space does not change the kind of a clause

A stretch of whitespace, such as the one after the full stop of
"Open the umbrella. ", counted as a clause, so that the only clause of the
text became a LeadingEffect instead of Independent.
---
 layered-clauses/src/clauses.rs | 35 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/layered-clauses/src/clauses.rs b/layered-clauses/src/clauses.rs
index 9cd74fe..c480660 100644
--- a/layered-clauses/src/clauses.rs
+++ b/layered-clauses/src/clauses.rs
@@ -20,31 +20,34 @@ impl Resolver for ClauseResolver {
     fn go(&self, selection: LLSelection) -> Vec<LLCursorAssignment<Self::Attr>> {
         let mut condition_clause_found = false;
 
-        let clauses = selection.split_by(&x::any_of((
-            x::attr::<ClauseKeyword>(),
-            x::attr_eq(&TextTag::PUNC),
-        )));
+        // stretches without anything but whitespace around them are not clauses
+        let clauses: Vec<(LLSelection, LLSelection)> = selection
+            .split_by(&x::any_of((
+                x::attr::<ClauseKeyword>(),
+                x::attr_eq(&TextTag::PUNC),
+            )))
+            .into_iter()
+            .filter_map(|clause_selection| {
+                let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
+                Some((clause_selection, trimmed_clause_selection))
+            })
+            .collect();
 
         if clauses.len() == 1 {
             // If the first selection is the whole line that means there is no `ConditionStart` in it
             // We probably want to handle this case better in the future
-            if let Some(trimmed_clause_selection) = clauses[0].trim(&x::whitespace()) {
-                if let Some((_, ClauseKeyword::ConditionStart)) =
-                    clauses[0].match_first_backwards(&x::attr::<ClauseKeyword>())
-                {
-                    vec![trimmed_clause_selection.finish_with_attr(Clause::Condition)]
-                } else {
-                    vec![trimmed_clause_selection.finish_with_attr(Clause::Independent)]
-                }
+            let (clause_selection, trimmed_clause_selection) = &clauses[0];
+            if let Some((_, ClauseKeyword::ConditionStart)) =
+                clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())
+            {
+                vec![trimmed_clause_selection.finish_with_attr(Clause::Condition)]
             } else {
-                Vec::new()
+                vec![trimmed_clause_selection.finish_with_attr(Clause::Independent)]
             }
         } else {
             clauses
                 .into_iter()
-                .filter_map(|clause_selection| {
-                    let trimmed_clause_selection = clause_selection.trim(&x::whitespace())?;
-
+                .filter_map(|(clause_selection, trimmed_clause_selection)| {
                     if let Some((_, clause_keyword)) =
                         clause_selection.match_first_backwards(&x::attr::<ClauseKeyword>())
                     {
-- 
2.43.0

