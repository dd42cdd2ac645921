import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
CT="src/create_tokens.rs"; GW="src/create_tokens/get_word_tag.rs"; LL="src/ll_line.rs"; SEL="src/ll_line/ll_selection.rs"; X="src/ll_line/x.rs"; DI="src/ll_line/display.rs"; TB="src/type_bucket.rs"; TM="src/type_id_to_many.rs"
p("C01","Tokenizing is total and lossless",
 "Building a line from any non-empty text succeeds without panicking, produces only non-empty text tokens, and concatenating those token texts in order gives back exactly the input text. When a line is built from several inputs, the tokens of each input follow those of the previous one, and a custom input contributes exactly one token that has no text. Building from no inputs at all gives a line with no tokens.",
 ["inputs"],"every Unicode string and every list of text/custom inputs",
 "The tokenizer tests run three ASCII/Euro sentences; loss or a crash needs a particular character class next to a digit, letter or separator.",
 [CT],[("split_word_bounds fold","create_tokens_for_string"),("digit-led word splitter","create_tokens_for_string")],
 [("ll_tokens","token list of a line","LLLine")],["LLLine::ll_tokens","LLLine::find(token_text)"])
p("C02","Tokens are cut and tagged as documented",
 "Text is cut at Unicode word boundaries, and a piece that begins with an ASCII digit is cut further into maximal runs of ASCII digits, maximal runs of letters, and single other characters. Every text token carries exactly one text tag: natural number for a run of ASCII digits, space when all characters are whitespace, punctuation for exactly one of , . ! ; : ? ' \" standing alone, word for a letter followed only by letters, ASCII apostrophes, hyphens or en dashes, and symbol for anything else.",
 ["inputs"],"every Unicode string",
 "Tests fix the tags of about thirty hand-picked tokens; the classes are defined over all of Unicode and depend on neighbouring characters.",
 [CT,GW],[("get_unicode_word_tag","get_word_tag.rs"),("digit-led word splitter","create_tokens_for_string")],
 [("TextTag","class of a text token","src/ll_line.rs")],["LLLine::ll_tokens","LLLine::query::<TextTag>"])
p("C03","Token positions tile the input under the caller's measure",
 "The first token starts at position 0, every other token starts where the previous one ends, a text token is as long as the caller's size function says its own text is, and a custom token is as long as its declared size. Every search over a line reports a match as the interval from the start position of its first token to the end position of its last token. The string shortcut measures in UTF-8 bytes.",
 ["inputs","configurations"],"every list of inputs, every size function and every match",
 "Tests look at positions for one sentence with one measure; mixed custom/text inputs, zero sizes, multi-token matches and other measures are never measured.",
 [CT,LL,"src/lib.rs"],[("running current_size","create_line_from_input_tokens"),("pos_start_at / pos_end_at","LLLine")],
 [("pos_starts_at/pos_ends_at","token positions","LLToken")],["LLLine::find(..).range()"])
p("C04","A new line holds exactly the text tags and the supplied attributes",
 "A freshly built line carries one text tag on every text token, one character attribute on every text token that consists of a single character, and every caller-supplied attribute, in the supplied order, on the span from the first to the last token of its own input. Nothing else is annotated; in particular a custom token carries only what the caller supplied for it.",
 ["inputs"],"every list of inputs with every list of attributes of every type",
 "Two tests attach at most two attributes to one input; spans with several attribute types, several inputs, custom tokens and repeated values are not tried.",
 [CT,LL,TB,TM],[("add_any_attrs","LLLine"),("LLLine::new","LLLine")],
 [("attrs","annotation indexes","LLLineAttrs")],["LLLine::query","LLLine::find(attr)"])
p("C05","Running a resolver adds exactly its assignments and nothing else",
 "After a resolver runs, the line carries every annotation it carried before, unchanged, plus exactly one annotation per assignment the resolver returned, on exactly the tokens of the selection it was made from. Assignments that share a span, overlap, nest or repeat an equal value all coexist, and values of one type on one span keep the order in which they were assigned. Tokens and positions never change, and a line without tokens comes back unchanged.",
 ["histories","inputs"],"every sequence of resolver runs over every line",
 "Tests run at most three fixed resolvers on a sentence; overlaps, nesting, equal spans of several types and repeated runs are histories they never build.",
 [LL,TB,TM,"src/ll_line/finish_with.rs"],[("LLLine::run","LLLine"),("LLLineAttrs::insert","LLLineAttrs"),("insert_distinct","TypeIdToMany")],
 [("attrs.values","span -> type -> values","LLLineAttrs"),("attrs.ranges","type -> spans","LLLineAttrs")],["LLLine::query"])
p("C06","Every way of looking up an annotation agrees",
 "For each attribute type a query lists each annotated span once, in the order the spans were first annotated, with the concatenated text of the span's tokens (custom tokens count as empty text) and all of that type's values on it in order. An annotation is found when matching forwards from its first token if and only if it is found when matching backwards from its last token, if and only if the query lists it, and never under another type.",
 ["histories","inputs"],"every annotated line reachable by inputs and resolver runs, every span and type",
 "Four indexes (by type, by first token, by last token, by span) are updated separately in two places; tests read one index per scenario and never compare them.",
 [LL,X,TB,TM],[("LLLineAttrs::insert","LLLineAttrs"),("add_any_attrs","LLLine"),("LLLine::query","LLLine")],
 [("ranges/starts_at/ends_at/values","four redundant indexes","LLLineAttrs")],["LLLine::query","LLLine::find","LLSelection::match_backwards"])
p("C07","Matchers find exactly what they denote",
 "At a token, the attribute matcher yields every annotation of that type starting there, the equality matcher those equal to the given value, the token-has-any matcher those on that single token whose value is in the set, and the text matcher the token's text if it has one. A sequence yields every chain of adjacent matches, 'all' every combination whose parts end at the same token, and 'any of' all results of the first alternative that matches at all, with annotations in the order their spans were first annotated and then in value order. Matching never panics, also on custom tokens and at the end of the line.",
 ["inputs","programs"],"every annotated line, every position, every matcher expression",
 "Tests use six matcher expressions over single-token attributes; no test uses 'all' or 'any of' with several candidates, spans longer than one token, or custom tokens.",
 [X,"src/ll_line/x/all.rs","src/ll_line/x/any_of.rs","src/ll_line/x/seq.rs","src/ll_line/x/attr.rs","src/ll_line/x/attr_eq.rs","src/ll_line/x/token_has_any.rs","src/ll_line/x/token_text.rs","src/ll_line/x/functions.rs"],
 [("XMatch::go implementations","src/ll_line/x/*.rs"),("XForwards","src/ll_line/x.rs")],(),["LLLine::find","LLSelection::find_by"])
p("C08","Matching backwards is the mirror image of matching forwards",
 "Matching any matcher expression backwards from a token gives exactly the results that matching it forwards would give on the same line with its tokens and spans reversed: the first part of a sequence lies nearest to the starting token, each match reports the token it reaches going left, and the start of the line ends the search without a panic.",
 ["inputs","programs"],"every annotated line, every position, every matcher expression",
 "Backward matching is separate code from forward matching; tests exercise two backward expressions, both over single-token attributes.",
 [X,SEL],[("XBackwards","src/ll_line/x.rs"),("match_backwards","LLSelection")],(),["LLSelection::match_backwards","LLSelection::find_by_forwards_and_backwards"])
p("C09","Finding in a selection is complete, ordered and stays inside it",
 "Finding by a matcher in a selection returns every match that lies completely inside the selection and no other, ordered by first token and, for one first token, in matcher order; finding the first match returns the head of that list. Finding in both directions returns, token by token, the matches that start at the token followed by those that end at it when matched backwards, again only those inside the selection. Turning found matches into assignments assigns each computed value to its own match's span.",
 ["inputs","programs"],"every line, every selection of it, every matcher expression",
 "Tests always search the whole line; a match that straddles the border of a narrower selection, or several matches from one token, never occurs in them.",
 [SEL,"src/ll_line/finish_with.rs"],[("find_by","LLSelection"),("find_by_forwards_and_backwards","LLSelection"),("finish_with","FinishWith")],
 [("start_idx/end_idx","inclusive token range","LLSelection")],["LLSelection::find_by","LLSelection::find_first_by"])
p("C10","Extending a selection attaches only what directly adjoins it",
 "Matching forwards from a selection returns, for every match of the matcher at the token right after the selection, the selection extended through the end of that match; matching backwards returns the selection extended through the start of every match that ends at the token right before it. The other end never moves, results come in matcher order, the 'first' variants return the head of the list, and at the edge of the line the result is empty.",
 ["inputs","programs"],"every line, every selection, every matcher expression",
 "Tests extend single-token selections by single-token matches in a handful of sentences.",
 [SEL],[("match_forwards","LLSelection"),("match_backwards","LLSelection")],(),["LLSelection::match_forwards","LLSelection::match_backwards"])
p("C11","Splitting by a matcher leaves exactly the unmatched stretches",
 "Splitting a selection by a matcher returns, from left to right, the maximal stretches of its tokens that belong to no match found inside the selection. Pieces never overlap, never contain a matched token, are never empty, and together with the matched tokens cover the selection; with no match the result is the selection itself. This holds for nested, overlapping, repeated and adjacent matches alike.",
 ["inputs","programs"],"every line, every selection, every matcher expression",
 "The split test uses one matcher that only matches isolated single tokens; nested or overlapping matches and narrower selections are never split.",
 [SEL],[("split_by","LLSelection"),("selection_from","LLSelection")],(),["LLSelection::split_by"])
p("C12","Trimming removes exactly the matched edge",
 "Trimming the start removes from a selection the tokens covered by the first match that begins at its first token, trimming the end removes those covered by the first backwards match that begins at its last token, and trimming does both, each judged on the original selection. A side without a match stays as it is, the result is never wider than the selection, and when nothing remains there is no result.",
 ["inputs","programs"],"every line, every selection, every matcher expression",
 "The trim tests never trim a selection that consists only of matched tokens, sits away from the line start, or is matched by a multi-token annotation.",
 [SEL],[("trim_selection","LLSelection")],(),["LLSelection::trim","LLSelection::trim_start","LLSelection::trim_end"])
p("C13","What comes after a selection, and what another selection leaves of it",
 "The remainder after a selection is the selection from the next token to the end of the line, and there is none exactly when the selection ends at the last token. Splitting one selection with another returns the part of the first that lies before the second and the part that lies after it, each missing exactly when it would have no token. Selections of two different lines are rejected.",
 ["inputs"],"every line and every pair of selections",
 "There is no test of either operation (the code asks for one).",
 [SEL],[("after","LLSelection"),("split_with","LLSelection"),("selection_from","LLSelection")],(),["LLSelection::after","LLSelection::split_with"])
p("C14","No chain of selection operations leaves the line or yields nothing",
 "Every selection obtained by any chain of find, split, extend, trim, remainder and split-with operations, starting from the whole line, contains at least one token, lies within the line, and belongs to the line it came from; assigning to it annotates exactly that span. Two selections are equal exactly when they cover the same tokens of the same line. A line without tokens has no selection.",
 ["histories","programs"],"every chain of selection operations on every line",
 "Tests chain at most two operations; an off-by-one only surfaces when a later operation consumes the bad selection.",
 [SEL,LL],[("LLSelection constructors","src/ll_line/ll_selection.rs"),("finish_with_attr","LLSelection")],
 [("start_idx<=end_idx<len","selection invariant","LLSelection")],["LLSelection operations","LLLine::run"])
p("C15","Searching a whole line reports every match with its positions",
 "Searching a line by a matcher reports exactly the matches that a search over the whole-line selection finds, in the same order and with the same matched values, each with its start and end position. A line without tokens reports nothing.",
 ["inputs","programs"],"every line and every matcher expression",
 "The line-level search is not called by any test.",
 [LL],[("LLLine::find","LLLine")],(),["LLLine::find"])
p("C16","Text lookup assigns every configured value to every matching token",
 "The text-match resolver assigns, to each text token whose text equals a configured key, all values configured for that key in order, and to no other token anything. In case-insensitive mode key and token are compared by their lowercase forms, and keys that differ only by case contribute all of their values. Results do not depend on hash ordering.",
 ["inputs","configurations"],"every lookup table, both modes, every line",
 "One test looks up four distinct keys with one value each, in one mode.",
 ["src/resolvers/text_match.rs"],[("TextMatchAssignResolver::go","src/resolvers/text_match.rs"),("new_case_insensitive*","src/resolvers/text_match.rs")],(),["LLLine::query"])
p("C17","Amounts have the right span and value",
 "In text, the amount resolver annotates, left to right and without overlap, every number of the form digits, then any repetitions of one delimiter and digits, then optionally the decimal mark and digits, extending each as far as possible and never ending on a delimiter or decimal mark. Each value is that number with the delimiters removed and the mark read as a decimal point. After a number the search resumes behind it and behind a delimiter or mark it had to give up, and text without digits gets nothing.",
 ["inputs","configurations"],"every text, every delimiter set and decimal mark",
 "Tests parse eleven amounts under two configurations; dangling delimiters, doubled separators, several fractions and digits glued to letters are combinations they do not reach.",
 ["layered-amount/src/amounts.rs"],[("AmountResolver::go","layered-amount/src/amounts.rs")],(),["LLLine::query::<Amount>"])
p("C18","Amount presets read numbers as documented and any digits are safe",
 "The English preset takes comma and apostrophe as delimiters and a period as decimal mark; the French preset takes period, apostrophe and space as delimiters and a comma as decimal mark; both give the documented readings. A number of any length never causes a panic: one that does not fit the decimal type is left unannotated and the numbers around it are still recognised.",
 ["inputs","configurations"],"every text under both presets, every digit count",
 "No test uses either preset or a number longer than six digits.",
 ["layered-amount/src/amounts.rs"],[("AmountResolver::english","layered-amount/src/amounts.rs"),("AmountResolver::french","layered-amount/src/amounts.rs")],(),["LLLine::query::<Amount>"])
p("C19","Clause keywords are recognised whatever their case, once per token",
 "The clause keyword resolver annotates a text token with exactly one keyword kind when the lowercase form of its whole text is a configured keyword, and annotates nothing else. A word configured in several lists is a condition start first, then a 'then', then an 'and'.",
 ["inputs","configurations"],"every line and every keyword configuration",
 "Tests use two keyword configurations whose lists do not overlap.",
 ["layered-clauses/src/clause_keyword.rs"],[("ClauseKeywordResolver::go","layered-clauses/src/clause_keyword.rs")],(),["LLLine::query::<ClauseKeyword>"])
p("C20","Clauses are exactly the stretches between keywords and punctuation",
 "The clause resolver cuts the line at clause keywords and punctuation tokens, drops one whitespace token from either end of each stretch and ignores stretches with nothing left; keywords and punctuation never belong to a clause and clauses never overlap. A stretch right after a condition keyword is a condition; any other is a trailing effect when it directly follows a 'then' or when a condition came before it, else a leading effect. If only one stretch is left, it is a condition right after a condition keyword and independent otherwise, so one whitespace token before or after the text never changes a clause's kind.",
 ["inputs"],"every sequence of keywords, punctuation, words, spaces and custom tokens",
 "Nine sentences are tested; keyword orders, empty clauses, repeated punctuation, surrounding blanks and multiple conditions multiply far beyond them.",
 ["layered-clauses/src/clauses.rs",SEL],[("ClauseResolver::go","layered-clauses/src/clauses.rs"),("split_by / trim / match_first_backwards","LLSelection")],
 [("condition_clause_found","whether a condition came before","ClauseResolver::go")],["LLLine::query::<Clause>"])
p("C21","Every word gets exactly its dictionary parts of speech",
 "The part-of-speech resolver annotates each word token with exactly the tags the dictionary lists for its lowercase form, each once and in dictionary order, and with the single tag noun if the dictionary does not know it. Tokens that are not words, custom tokens included, get no tag.",
 ["inputs"],"every line; in particular every dictionary word in every casing",
 "The crate has no tests; other crates' tests tag eleven words of a dictionary with hundreds of thousands.",
 ["layered-part-of-speech/src/lib.rs"],[("POSTagResolver::go","layered-part-of-speech/src/lib.rs")],(),["LLLine::query::<Tag>"])
p("C22","The rendered line shows every annotation under its tokens",
 "Rendering a line writes one row with all tokens in order separated by two blanks (custom tokens as <>), then one row per included annotation whose mark starts under the first column of its first token and ends under the last column of its last token, in terminal columns, followed by the value's debug text; a mark at most one column wide is a single corner. Included types come in the order they were included, spans in the order they were first annotated, and the values of one span newest first; including the same type again repeats its rows. Rendering never panics and never changes the line.",
 ["inputs","histories"],"every line, every annotation set, every inclusion list",
 "Snapshots cover narrow ASCII tokens; wide, zero-width and custom tokens, and repeated inclusion, are not rendered.",
 [DI,TB],[("Display for LLLineDisplay","src/ll_line/display.rs"),("include / with","src/ll_line/display.rs")],(),["LLLineDisplay Display"])
p("C23","Lines are isolated: results depend on nothing but the line's own history",
 "Building, resolving, searching, querying and rendering a line gives the same results whatever was done before or in between with other lines, on whichever thread each step runs, inside or outside another resolver, and however often it is repeated. Reading a line (search, query, render) never changes what later reads or resolvers see. Lines can be moved to and shared with other threads.",
 ["schedules","histories"],"every interleaving of the steps of two lines' pipelines over two threads",
 "Each test builds one line on one thread; hidden state shared between lines, calls or threads cannot show.",
 [LL,CT,SEL,"src/resolvers/text_match.rs","layered-amount/src/amounts.rs","layered-clauses/src/clauses.rs","layered-part-of-speech/src/lib.rs"],[("no shared state; Rc recovered after each run","LLLine::run")],(),["all public operations"])
p("C24","Layers build on earlier layers, and unrelated layers commute",
 "A resolver sees exactly the annotations present when it runs: those of every earlier layer and none of its own run. Resolvers that do not read each other's attributes give the same annotations in whichever order they run, and a resolver that combines earlier layers (such as a currency symbol next to an amount, on either side) annotates every such combination and only those.",
 ["histories","inputs"],"every order of layers over every text",
 "Tests run one fixed order per scenario; two money texts are tried.",
 [LL,SEL,"src/ll_line/x/seq.rs"],[("LLLine::run","LLLine"),("find_by_forwards_and_backwards","LLSelection")],(),["LLLine::query","LLLine::find"])
p("C25","A boxed attribute gives back its value only as its own type",
 "A prepared attribute reports the type it was made from; extracting it as that type returns the original value, and extracting it as any other type returns the attribute itself, still intact. Attaching a prepared attribute to an input has the same effect as attaching the plain value.",
 ["histories"],"every sequence of extraction attempts over every type",
 "Extraction has no test.",
 [TB,CT],[("AnyAttribute::extract","src/type_bucket.rs"),("insert_any_attribute","TypeBucket"),("InputToken::add_attr","src/create_tokens.rs")],(),["AnyAttribute::extract","LLLine::query"])
p("C26","Token-wise resolvers treat a part of a line like the whole line",
 "Called on a part of a line, the text lookup, clause keyword and part-of-speech resolvers assign to each token of that part exactly what they assign to it when they run over the whole line, and nothing to any token outside the part. Cutting a line into consecutive parts in any way and calling such a resolver on each part in turn therefore gives the same annotations as one run over the whole line.",
 ["inputs","programs"],"every line, every part and every way to cut a line into parts",
 "Tests only ever run these resolvers over whole lines; nothing calls one from within another resolver on a narrower selection.",
 ["src/resolvers/text_match.rs","layered-clauses/src/clause_keyword.rs","layered-part-of-speech/src/lib.rs",SEL],[("TextMatchAssignResolver::go","src/resolvers/text_match.rs"),("ClauseKeywordResolver::go","layered-clauses/src/clause_keyword.rs"),("POSTagResolver::go","layered-part-of-speech/src/lib.rs"),("find_by","LLSelection")],(),["Resolver::go on a narrower LLSelection","LLLine::query"])
p("C27","Attribute values live exactly as long as what carries them",
 "Every value that is supplied with an input or assigned by a resolver stays alive and unduplicated as long as its line exists, is moved along when the line is moved or run again, and is dropped exactly once when the line is dropped, on whichever thread that happens. A build or run that panics drops what it was given, inputs and attributes that are never used drop theirs, and an extracted attribute hands over its only copy. Searching, selecting, querying and rendering keep nothing alive once their own results are dropped, so a line shared for selecting can be taken back afterwards.",
 ["histories","schedules"],"every history of building, running, panicking, reading, selecting, extracting, moving to another thread and dropping",
 "No test uses a value whose lifetime can be observed, lets a resolver panic, or drops a line at any particular point.",
 [LL,TB,CT,SEL],[("Rc recovered after each run","LLLine::run"),("TypeBucket","src/type_bucket.rs"),("AnyAttribute::extract","src/type_bucket.rs")],
 [("values","span -> type -> values","LLLineAttrs")],["Drop of attribute values","LLLine::query","Rc::try_unwrap after LLSelection::from_line"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
print(len(P))
