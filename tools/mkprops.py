import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["return value and context offset of the public match/construct calls"],hook_needed=None)))
p("P01","A successful match reports exactly the text it consumed",
 "When a pattern matches, the reported range starts where the attempt started (after any text skipped by a skip policy), ends at the new position of the context, lies inside the input and, on text, falls on character boundaries. The text extracted for a match is exactly that range of the input. Only a raw byte-count consumer and the dynamic pattern builder, which document a different range, are exempt.",
 ["inputs","programs"],"every pattern built from the public combinators, every input and every start position inside it",
 "Tests check the range of a few fixed patterns on fixed strings; the guarantee ranges over all compositions, inputs and start offsets.",
 ["src/ctx.rs","src/ctx/regex.rs","src/regex.rs","src/ctor.rs","src/neu","src/ctor","src/regex","src/span.rs"],
 [("span bookkeeping of every combinator","try_parse implementations in src/ctor/*.rs, src/neu/*.rs, src/regex/*.rs"),("range merge","src/span.rs Span::add_assign"),("offset advance","src/ctx.rs new_span_inc")])
p("P02","A failed match leaves the position unchanged",
 "Whenever a match attempt made through a context fails, or a lookahead assertion is evaluated, the position of the context afterwards equals the position before the attempt. This holds for every pattern, however much of the input it consumed before failing, with or without a skip policy or before/after patterns.",
 ["inputs","programs"],"every pattern, every input, every start position, every kind of context and every before/after policy pair",
 "Backtracking bugs need a pattern that consumes then fails inside another; the tests contain a handful of such shapes.",
 ["src/ctx/regex.rs","src/ctx/policy.rs","src/ctx/guard.rs","src/ctor","src/neu","src/regex"],
 [("rollback guard","src/ctx/guard.rs CtxGuard"),("restore on error","try_mat_policy / try_mat in src/ctx/regex.rs and src/ctx/policy.rs"),("explicit set_offset on error","src/ctor/*.rs")])
p("P03","A failed construction leaves the position unchanged",
 "When a value is constructed or mapped through a context and it fails, for whatever reason - the pattern does not match, the user handler rejects a matched range, or a mapper rejects a value - the position afterwards equals the position before. A composite pattern whose inner handler or mapper rejects treats that exactly as if the inner pattern had not matched: alternatives, options and repetitions go on from the position before the rejected part.",
 ["inputs","programs","fault_sequences"],"every pattern, input and start position, and every choice of matched ranges or values that the handler or mappers reject",
 "Tests almost never let a handler or mapper fail inside a composite, and never enumerate which invocation fails.",
 ["src/ctx.rs","src/ctor","src/map.rs"],
 [("restore on error","src/ctx.rs MatchExt"),("rollback guard","src/ctx/guard.rs"),("restore after rejected element","src/ctor/{collect,repeat,repeat2,sep,or,opt,longest,then}.rs")])
p("P04","Matching and constructing with the same pattern agree",
 "For any pattern, matching it and constructing a value from it (with a handler that never rejects) succeed on exactly the same inputs and positions and leave the context at the same position. Using a pattern for extraction therefore never changes what it accepts.",
 ["inputs","programs"],"every pattern that supports both uses, every input and start position",
 "The two uses are implemented separately for each combinator; tests exercise either one, rarely both on the same input.",
 ["src/ctor","src/regex.rs","src/ctor.rs"],
 [("paired Regex and Ctor implementations","src/ctor/*.rs"),("pattern set handlers","src/regex.rs handler/handler_ltm and src/ctor.rs handler/handler_ltm")])
p("P05","Sequence, choice, option, affix, enclosure and branch follow PEG rules",
 "A sequence matches its parts one after the other and yields their values; a choice yields the first alternative that matches from the same position; an option yields nothing and consumes nothing when its pattern fails. Prefix, suffix and enclosing patterns must match around the value but contribute only consumed text; a conditional continuation is required exactly when its test matches; a branch runs the side its test selects; a pair split by a separator needs left, separator and right.",
 ["inputs","programs"],"every nesting of these combinators over every choice of parts, every input and start position",
 "Nested compositions grow exponentially; tests sample a few and do not compare with an independent semantics.",
 ["src/ctor/then.rs","src/ctor/or.rs","src/ctor/opt.rs","src/ctor/affix.rs","src/ctor/enclose.rs","src/ctor/branch.rs","src/ctor/sep.rs","src/ctor/map.rs","src/ctor/pat.rs"],
 [("combinator implementations","src/ctor/{then,or,opt,affix,enclose,branch,map,pat}.rs, SepOnce in src/ctor/sep.rs")])
p("P06","Repetition is greedy, bounded and keeps its order",
 "Repeating a pattern takes as many consecutive matches as there are, never more than the maximum, and succeeds exactly when the number taken is inside the given range; the values come out in input order, one per match. A fixed-size repetition fills its slots from the front and leaves the rest empty; collecting needs at least its minimum.",
 ["inputs","programs"],"every element pattern that consumes input, every range form and bound, every input and start position",
 "Counts at, just below and just above each bound combined with each range form are not all reached by tests.",
 ["src/ctor/repeat.rs","src/ctor/repeat2.rs","src/ctor/collect.rs","src/neu/range.rs"],
 [("counting loop","src/ctor/{repeat,repeat2,collect}.rs"),("range form","src/neu/range.rs CRange")])
p("P07","Separated lists take exactly the elements in their result",
 "A separated list takes elements as long as each is followed by a separator; the text consumed covers exactly the returned elements and the separators after them, including a trailing separator. An element without a following separator ends the list and is part of it only if skipping is allowed (the default); a list with fewer elements than its minimum fails, and a fixed-size list stops at its maximum.",
 ["inputs","programs"],"every element and separator pattern, every minimum, maximum and skip setting, every input and start position",
 "Trailing separators, elements without separator and the bounds interact; tests cover a few combinations.",
 ["src/ctor/sep.rs"],
 [("list loops","src/ctor/sep.rs Separate, Separate2, SepCollect")])
p("P08","Longest match picks the longest alternative, the first on ties",
 "A longest-match choice tries every alternative from the same position, yields the value of the one that ends furthest and leaves the context at its end; among equally long ones the first wins. It fails, consuming nothing, exactly when every alternative fails.",
 ["inputs","programs"],"every set of alternatives in every order, every input and start position",
 "Order, ties, empty matches and failing alternatives interact; tests try few orders.",
 ["src/ctor/longest.rs","src/ctor.rs","src/regex.rs","src/ctor/array.rs","src/ctor/slice.rs","src/ctor/vec.rs"],
 [("longest token match","src/ctor/longest.rs"),("handler_ltm","src/ctor.rs and src/regex.rs")])
p("P09","Lookahead and anchors are zero-width and exact",
 "Positive and negative lookahead succeed exactly when the inner pattern matches, respectively does not match, at the position, and never consume anything. The start and end anchors match only at the first position and at the end of the input; the empty pattern always matches nothing, the failing pattern never matches, a literal matches exactly its own text, and the consumers take exactly the requested or the whole remaining input.",
 ["inputs","programs"],"every inner pattern, every nesting with the other combinators, every input and position",
 "Tests check single calls; the guarantee must hold inside every composition.",
 ["src/regex/assert.rs","src/regex/anchor.rs","src/regex/empty.rs","src/regex/fail.rs","src/regex/literal.rs","src/regex/consume.rs"],
 [("assert/not/peek","src/regex/assert.rs"),("anchors","src/regex/anchor.rs"),("negation operator","src/regex.rs impl_not_for_regex")])
p("P10","Character and byte units decide exactly their class",
 "Every built-in unit accepts exactly the characters (over all of Unicode) or bytes (over all 256) of its documented class, ranges and sets accept exactly their members whatever the bound form, and combining units with and, or and not gives exactly the Boolean combination. Negation never accepts at the end of the input.",
 ["inputs","programs"],"every unit and Boolean combination to the stated depth, every Unicode scalar value and every byte",
 "Tests try a few characters per class; a wrong boundary is visible for a single code point only.",
 ["src/neu.rs","src/neu/units.rs","src/neu/bool.rs","src/neu/equal.rs","src/neu/range.rs","src/neu/op_and.rs","src/neu/op_or.rs","src/neu/op_not.rs"],
 [("is_match","src/neu/*.rs"),("length reported to the quantifiers","min_length in src/neu/*.rs")])
p("P11","Unit quantifiers match the greedy run inside their bounds",
 "One, optional, zero-or-more, one-or-more, between M and N and range-counted units each consume the longest run of accepted items their bound allows, succeed exactly when the run is long enough, and report its range; a unit followed by a second unit behaves as the two in sequence. This holds at any position, up to and at the end of the input, for bytes and for characters of any encoded length.",
 ["inputs","programs"],"every unit, quantifier, bound form and value, every input and start position",
 "Off-by-one errors at bounds, at the end of input or on multibyte characters need specific combinations.",
 ["src/neu/once.rs","src/neu/opt.rs","src/neu/times.rs","src/neu/then.rs","src/neu.rs","src/regex.rs"],
 [("scan loops","src/neu/{once,opt,times,then}.rs")])
p("P12","A skip policy skips before every leaf and changes nothing else",
 "Matching or constructing in a context with an (idempotent) skip pattern gives the success and the values that the same pattern gives in a plain context when each of its leaves is preceded by the skip pattern, and ends at the same place up to further skippable text. Skipped text is never part of a leaf's range, and one-off before and after patterns run exactly around the single match they are given for.",
 ["inputs","programs","configurations"],"every pattern, every skip pattern that is idempotent, every input and start position",
 "Where the skipped text sits relative to nested failures and options is not enumerated by tests.",
 ["src/ctx/policy.rs","src/ctx/regex.rs","src/ctx.rs"],
 [("policy before each match","src/ctx/policy.rs try_mat"),("before/after","try_mat_policy in src/ctx/policy.rs and src/ctx/regex.rs")])
p("P13","Searching returns the leftmost non-overlapping matches",
 "Finding yields the first non-empty match at or after the current position, and finding all yields every such match in order, each starting at or after the end of the previous one, exhausting the input; matching a sequence yields the matches that follow each other without a gap and stops at the first failure. Every search terminates for every pattern, including patterns that match nothing.",
 ["inputs","programs","histories"],"every pattern (empty-matching ones included), every input and start position, every interleaving of search calls on one context",
 "Overlaps, adjacent and empty matches and resumed searches are only sampled.",
 ["src/ctx.rs"],
 [("search loops","src/ctx.rs MatchMulti")])
p("P14","Span stores behave like maps from ids to ordered range lists",
 "After any sequence of additions, clears and resets, a growable or fixed-size span store returns for each id exactly the ranges added to it, in order, and nothing else; unknown ids and full stores are reported as such without disturbing other entries. Merging ranges never shrinks them, and range containers, text lookup and counters agree with that content.",
 ["histories"],"every sequence of store operations to the stated depth, every id inside and outside the store, every capacity",
 "State-dependent: the tests run a few short fixed sequences.",
 ["src/span.rs","src/iter/span.rs"],
 [("stores","src/span.rs VecStorer, ArrayStorer"),("range arithmetic","src/span.rs Span")])
p("P15","Iterators over captured ranges and bytes visit each item exactly once",
 "Iterating captured ranges or the text they cover yields the stored items in order, exactly once each, with size hints that always bound what is left, and stops for good at the end; indexed byte iteration yields every byte with its position. Slicing an input by a range gives exactly that part or reports it as out of bounds, never panics.",
 ["histories","inputs"],"every store content to the stated depth, every interleaving of next/size queries, every input and range",
 "Iterator state after exhaustion and with empty slots is not reached by tests.",
 ["src/iter/mod.rs","src/iter/span.rs","src/iter/byte.rs","src/span.rs"],
 [("iterators","src/iter/span.rs, src/iter/byte.rs"),("lookup by range","src/iter/mod.rs")])
p("P16","Value mappers convert exactly or report an error",
 "Each value mapper (selectors, equality, length, parsing from text with or without radix, bytes in either byte order, bounded, quoting removal and the like) returns exactly the value its name and documentation define for every input it accepts, and an error, never a panic or a wrong value, for every other. Chained mappers compose left to right.",
 ["inputs","programs"],"every mapper, every input to the stated length, every numeric type and byte order",
 "Edge values (empty text, sign, overflow, wrong length, radix digits) are sampled at best.",
 ["src/map.rs"],
 [("FallibleMap implementations","src/map.rs")])
p("P17","Wrapping a pattern never changes its behaviour",
 "A pattern put behind any supported wrapper - boxed, reference counted, atomically counted, interior-mutable, lazily filled, optional, borrowed, dynamic - matches and constructs exactly like the bare pattern: same success, same value, same range, same position. An empty optional or unfilled wrapper fails without consuming.",
 ["inputs","programs","configurations"],"every wrapper and nesting of wrappers, every wrapped pattern, every input and start position",
 "There are dozens of forwarding implementations; tests touch a few.",
 ["src/regex/adapter.rs","src/regex/into.rs","src/ctor/adapter.rs","src/ctor/into.rs","src/regex.rs","src/ctor.rs"],
 [("forwarding implementations","impl_forward_* and impl_dyn_* in src/regex.rs and src/ctor.rs"),("adapters","src/{regex,ctor}/adapter.rs")])
p("P18","Recursive patterns accept exactly the recursive language",
 "A pattern that refers to itself through the recursion helpers (single-threaded or thread-safe) accepts exactly the strings of its grammar at any nesting depth, yields the nested value, restores the position on failure, and never blocks or panics while it is in use inside itself.",
 ["inputs","programs"],"every recursive grammar of the stated family, every input up to the bound, every nesting depth up to the bound",
 "Deep nesting, failure deep inside and re-entrance are not enumerated by tests.",
 ["src/regex/rec.rs"],
 [("recursive cells","src/regex/rec.rs rec_parser, rec_parser_sync")])
p("P19","Dynamic patterns use exactly the value just matched",
 "A pattern built at run time from what was just matched is built from exactly that value and matched right after it; the result pairs both values, and a failure of the first part, of the building function or of the built pattern fails the whole and restores the position.",
 ["inputs","programs","fault_sequences"],"every first pattern, every building function of the family, every input and start position, every point of failure",
 "Length-prefixed and back-reference shapes fail in many places; tests only show the success path.",
 ["src/regex/builder.rs","src/ctor/dthen.rs"],
 [("run-time builder","src/regex/builder.rs, src/ctor/dthen.rs")])
p("P20","The pattern macros mean what their notation says",
 "The macros that build units and quantified patterns from compact notation produce patterns that accept exactly what the notation denotes: sets, ranges, negation, classes and every quantifier suffix, on text and on bytes. The macro that builds an escaped quoted-string pattern accepts exactly the strings whose escapes are allowed.",
 ["inputs","programs"],"every documented macro form, every input over the stated alphabet and length",
 "Macro arms are many and tests expand only some, on single inputs.",
 ["src/macro.rs"],
 [("macro arms","src/macro.rs regex!, neu!, escape_strval")])
p("P21","The rollback guard restores its starting position exactly when told to",
 "A position guard reports the begin and current end of its attempt, and when released restores the begin position exactly if one of its match attempts failed or a failed result was processed, and otherwise keeps what was consumed. This holds for every sequence of its operations and for guards nested inside guards.",
 ["histories"],"every sequence of guard operations to the stated depth, nested guards included, every input",
 "A state machine with sticky state; the tests use it only through finished combinators.",
 ["src/ctx/guard.rs"],
 [("guard","src/ctx/guard.rs CtxGuard")])
p("P22","Reading the input through a context is total and exact",
 "At every position, valid or not, a context returns exactly the remaining input, the requested part, the items with their positions, or an out-of-bounds error, and never panics; moving the position is reflected exactly. A copy or a sub-context made at a position reads the same text and is independent of the original.",
 ["inputs","histories"],"every input, every position and length including values beyond the end, inside a character and near the integer maximum, every short history of position changes",
 "Out-of-range and mid-character positions are not tested systematically.",
 ["src/ctx.rs","src/ctx/regex.rs","src/ctx/policy.rs","src/iter/byte.rs"],
 [("orig/peek/clone_at","src/ctx/regex.rs and src/ctx/policy.rs")])
p("P23","A pattern shared between threads gives each thread its own correct result",
 "When several threads use one shared pattern (plain, atomically counted, lock-protected or recursive thread-safe) at the same time on their own contexts, each obtains exactly the result it would obtain alone, for every interleaving of their steps, and none of them blocks forever.",
 ["schedules","inputs"],"every interleaving, up to the stated number of context switches, of two threads at the points where a pattern calls back into user code",
 "No test runs two parses concurrently, let alone all interleavings.",
 ["src/ctor/adapter.rs","src/regex/adapter.rs","src/regex/rec.rs","src/ctor.rs","src/regex.rs"],
 [("lock-protected forwarding","Mutex/OnceLock implementations in src/regex.rs and src/ctor.rs"),("thread-safe recursion","src/regex/rec.rs rec_sync")])
p("P24","Build configurations do not change behaviour",
 "Every supported build configuration (default, without default features, with allocation only, with either logging back end) accepts the same inputs, yields the same values and leaves the same positions for every pattern available in it; enabling logging never changes a result.",
 ["configurations","inputs","programs"],"every supported feature set times the explored patterns and inputs",
 "The test-suite runs in one configuration.",
 ["Cargo.toml","src/lib.rs","src/log.rs"],
 [("feature gates and logging macros","src/lib.rs, src/log.rs")])
p("P25","Pattern tables select the right entry and its value",
 "An array, slice or vector of patterns behaves as the ordered choice (or, in its longest-match form, the longest match) of its entries, and the key-value forms additionally return exactly the value paired with the selected entry. An empty table always fails and consumes nothing.",
 ["inputs","programs"],"every table up to the stated size over every choice of entries, every form, every input and start position",
 "Table order, duplicates, ties and failures inside entries are combinatorial.",
 ["src/ctor/array.rs","src/ctor/slice.rs","src/ctor/vec.rs","src/ctor.rs","src/regex.rs"],
 [("table handlers","src/ctor.rs and src/regex.rs handler/handler_ltm")])
p("P26","Handlers see exactly the matched ranges and extract exactly the text",
 "While a value is constructed the user's handler is called once for each extracted leaf, in input order, with exactly the range that leaf matched, and what it returns is what ends up in the value. The built-in extractors give the text, bytes, owned string or range of that leaf unchanged.",
 ["inputs","programs"],"every choice-free composition and every pattern's final value, every extractor, every input and start position",
 "Tests look at final values with one extractor.",
 ["src/ctor/extract.rs","src/ctx.rs","src/ctor/pat.rs","src/ctor.rs"],
 [("handler invocation","src/ctor/pat.rs, src/ctor/adapter.rs"),("extractors","src/ctor/extract.rs")])
p("P27","Conditions filter each item with its true position",
 "A condition attached to a unit quantifier is consulted for an item with the context positioned at the start of the match and the item's own relative position; an item is taken only if both the unit and the condition accept, and a condition made from a pattern accepts exactly where that pattern matches. A condition that rejects ends the run there exactly as a rejecting unit would; a condition that reports an error makes the match fail or end without consuming past that item.",
 ["inputs","programs"],"every quantifier, every condition given as a set of accepted positions or as a pattern, every input and start position",
 "Tests attach one or two conditions to one quantifier each.",
 ["src/neu/cond.rs","src/neu/once.rs","src/neu/opt.rs","src/neu/times.rs","src/neu/then.rs"],
 [("conditions","src/neu/cond.rs NeuCond, regex_cond")])
p("P28","A prefixed unit requires its prefix run, then the unit",
 "A fresh prefixed unit accepts an item sequence exactly as long as its first count items are accepted by the prefix and the later ones by the unit, and once the prefix phase was broken it accepts nothing more. The single-threaded and thread-safe forms behave alike.",
 ["inputs","histories"],"every item sequence up to the bound, every prefix count up to the bound, copies taken at any moment",
 "A stateful unit: the state space is not explored by the tests.",
 ["src/neu/prefix.rs"],
 [("counter and sticky flag","src/neu/prefix.rs")])
p("P29","Patterns are stateless: reuse, copies and order of use do not matter",
 "Using a pattern any number of times, on any inputs, in any order, with successes and failures in between, or using a copy of it, always gives the result a freshly built pattern gives on that input (stateful prefixed units, documented as not reusable, excepted). Contexts reset to new data behave as fresh contexts.",
 ["histories","programs","inputs"],"every history of uses up to the stated length over a set of inputs, for every pattern kind, with copies taken anywhere",
 "Tests use a pattern once or twice; leaked state needs a history.",
 ["src/ctor","src/neu","src/regex","src/ctx/regex.rs"],
 [("immutable self","all pattern types"),("Clone implementations","src/ctor/*.rs, src/neu/*.rs, src/regex/*.rs")])
p("P30","Reconfiguring a pattern equals building it that way",
 "After any sequence of configuration calls (replacing inner patterns, bounds, separators, skip flags, conditions, capacity), a pattern reads back and behaves exactly as one built directly with the last configured values, and settings not touched keep their values and defaults.",
 ["histories","configurations"],"every sequence of configuration calls to the stated depth for each configurable pattern kind, every input",
 "Tests build patterns in one way only.",
 ["src/ctor","src/neu","src/regex"],
 [("setters and getters","set_*, with_*, at_least, *_mut in src/ctor/*.rs, src/neu/*.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
