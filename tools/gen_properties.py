#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","Compiled expressions accept exactly the language they denote",
 "For every lookahead-free expression built from bytes, byte sets, literals, concatenation, union, intersection, complement, bounded and unbounded repetition and prefix closure, the compiled matcher accepts a byte string if and only if the string belongs to the language the expression denotes. The answer to 'is this expression nullable' likewise equals membership of the empty string. Simplification, factoring, derivative caching and alphabet compression never change the answer.",
 ["inputs","programs"],"all expressions over the combinators, and all byte strings of any length",
 "The tests check a few dozen hand-written patterns on a handful of strings; complement, intersection and prefixes are only exercised through emptiness. The space of expression shapes that trigger rewrite rules is unbounded.",
 ["src/simplify.rs","src/deriv.rs","src/ast.rs","src/regex.rs","src/regexbuilder.rs","src/bytecompress.rs"],
 [("rewrite rules of the smart constructors","src/simplify.rs: mk_or/mk_and/mk_concat/mk_not/mk_repeat/mk_prefixes/mk_lookahead"),("derivative rules","src/deriv.rs: DerivCache::derivative"),("nullable/positive flags","src/ast.rs: ExprFlags")],
 ["Regex::is_match_bytes","Regex::transition + is_accepting","RegexBuilder::is_nullable"],
 [("state_table","lazily filled transition table","src/regex.rs"),("(expr,byte) derivative cache","memoised derivatives","src/deriv.rs")])
p("C02","Patterns mean what regex syntax says; unsupported anchors are refused",
 "A pattern string that compiles accepts exactly the strings that the standard regular-expression syntax says it fully matches (anchored at both ends, longest/shortest preference ignored): literals, classes, dot, alternation, greedy and lazy repetition, groups and inline flags. Start and end anchors at the edges of the pattern have no effect. Any look-around that the engine does not support is reported as an error, never silently dropped or given another meaning.",
 ["programs","inputs"],"all pattern strings, all input strings",
 "Tests sample about 150 patterns (fowler suite, a few unit tests); nothing covers combinations of anchors, groups, flags and repetition systematically.",
 ["src/syntax.rs","src/regexbuilder.rs","src/regex.rs"],
 [("HIR to expression translation","src/syntax.rs: from_ast"),("anchor permission propagation","src/syntax.rs: allow_start/allow_end")],
 ["Regex::new","Regex::new_with_parser","RegexBuilder::mk_regex"])
p("C03","Lookahead: acceptance and reported length are exact",
 "For a pattern A followed by one final lookahead B (A, B free of lookaheads), the matcher accepts exactly the strings uv with u in A and v in B such that no proper prefix of v is in B. On acceptance the reported lookahead length is the smallest |v| over all such splits; a pattern without lookahead reports length 0 when it accepts, and no length is reported when it does not accept. A union of several such patterns, and of patterns without lookahead, accepts exactly what any of them accepts; when every branch that matches has a lookahead that does not match the empty string, the smallest length over those branches is reported, and when every branch that matches has no lookahead (or one that matches the empty string), length 0.",
 ["programs","inputs"],"all pairs A, B and all strings",
 "Tests use four lookahead patterns; splits that compete with each other (several live positions of B with different lengths) are hardly sampled.",
 ["src/simplify.rs","src/deriv.rs","src/ast.rs","src/regex.rs"],
 [("lookahead offset counting","src/deriv.rs: Lookahead arm"),("keeping the smallest offset per remaining lookahead","src/simplify.rs: mk_or"),("reading the length","src/ast.rs: lookahead_len")],
 ["Regex::lookahead_len","Regex::lookahead_len_bytes","Regex::lookahead_len_for_state"])
p("C04","A state is dead exactly when no continuation can match",
 "After reading any byte string, the matcher is in the dead state if and only if no continuation of that string is accepted. In particular a compiled expression reports 'always empty' if and only if its language is empty. A dead state stays dead under every byte and never accepts.",
 ["programs","inputs"],"all expressions including complement and intersection, all reachable states",
 "Emptiness tests cover a dozen pairs; they do not cover the symbolic-derivative search for complements over small or odd alphabets, nor deadness of states in the middle of a match.",
 ["src/relevance.rs","src/regex.rs","src/simplify.rs"],
 [("symbolic derivative and emptiness search","src/relevance.rs: deriv / is_non_empty_limited / make_disjoint"),("positive flag shortcut","src/ast.rs, src/simplify.rs"),("mapping empty derivatives to the dead state","src/regex.rs: transition_inner")],
 ["StateID::is_dead","Regex::always_empty","Regex::transition"])
p("C05","Containment answers are right, and fuel can only cause an error",
 "Whenever a containment query returns an answer, the answer is true if and only if every string of the small expression is a string of the big one. A fuel limit may turn an answer into an error but never into a wrong answer, more fuel never turns an answer back into an error, and unlimited fuel always yields an answer.",
 ["programs","inputs","configurations"],"all pairs of expressions and all fuel limits",
 "Tests check about 25 pairs and two fuel values.",
 ["src/regexbuilder.rs","src/relevance.rs","src/regex.rs"],
 [("A and not B construction","src/regexbuilder.rs: contained_in"),("fuel accounting","src/relevance.rs: is_non_empty_limited; src/simplify.rs: pay")],
 ["RegexBuilder::is_contained_in","RegexBuilder::mk_contained_in_ast + to_regex_limited + always_empty"])
p("C06","Next-byte hints are sound",
 "In every reachable state: if the hint is a forced byte, every other byte leads to the dead state and the state does not accept; if the hint is forced end-of-input, the state accepts and every byte leads to the dead state; the hint is 'dead' exactly for dead states. The hint for a state is the same whenever it is asked.",
 ["programs","inputs","histories"],"all expressions, all reachable states, all 256 bytes",
 "Three patterns are walked along one path each; compressed alphabets, lookaheads, unions of several branches are not.",
 ["src/nextbyte.rs","src/regex.rs","src/ast.rs"],
 [("hint computation","src/nextbyte.rs: next_byte_simple / next_byte"),("mapping a compressed symbol back to a byte","src/regex.rs: next_byte, AlphabetInfo::inv_map")],
 ["Regex::next_byte"],[("state_descs.next_byte","memoised hint per state","src/regex.rs")])
p("C07","Answers never depend on the history of queries or on cloning",
 "Every answer of a compiled regex (matching, stepping, acceptance, lookahead length, next-byte hint, emptiness) depends only on the expression and the question, never on which questions were asked before, in which order, or how often. State identifiers handed out earlier keep their meaning for the life of the regex. A clone answers exactly as the original, and later use of one never affects the other.",
 ["histories"],"all sequences of queries on one regex and its clones",
 "Tests run one fixed query sequence per regex; the lazily built tables and four caches are never stressed by alternative orders, and clone is not tested at all.",
 ["src/regex.rs","src/deriv.rs","src/nextbyte.rs","src/relevance.rs","src/hashcons.rs"],
 [("lazy state table","src/regex.rs: transition / transition_inner / insert_state"),("memoised state descriptors","src/regex.rs: StateDesc"),("caches keyed by expression","src/deriv.rs, src/relevance.rs, src/nextbyte.rs")],
 ["all public query methods of Regex"],[("state_table/state_descs/rx_sets","lazily growing automaton","src/regex.rs")])
p("C08","Building is history-independent and failures leave the builder intact",
 "An expression built in a shared builder denotes the same language whatever was built, compiled, quoted or rejected before it, in the same builder or in the builder it was cloned from; references obtained earlier keep their meaning. Building the same expression twice in one builder yields the same reference. A malformed request (bad syntax, bad byte-set length, invalid reference, unsupported node, inverted repetition bounds) returns an error rather than panicking and leaves later results unchanged.",
 ["histories"],"all sequences of build, compile, quote and failing requests on one builder",
 "Tests use a fresh builder per expression; hash-consed identifiers, sorting by identifier, the class cache and the optimise toggle are history-dependent state.",
 ["src/regexbuilder.rs","src/ast.rs","src/syntax.rs","src/simplify.rs","src/hashcons.rs"],
 [("hash-consing","src/hashcons.rs"),("class cache","src/syntax.rs: handle_unicode_ranges"),("optimize toggle","src/simplify.rs: or_optimized"),("argument validation","src/regexbuilder.rs: mk / json_quote")],
 ["RegexBuilder::mk","mk_regex","json_quote","to_regex"],[("unicode_cache / optimize","mutable builder state","src/ast.rs")])
p("C09","Alphabet compression is invisible",
 "Two bytes are mapped to the same symbol only if no expression being compiled can tell them apart, symbols are numbered below the reported alphabet size, and a symbol maps back to a byte exactly when that byte is its only member. Matching behaves the same whether or not compression is compiled in, for any number of distinct bytes and byte sets from 1 to 256 and beyond.",
 ["programs","inputs","configurations"],"all expressions, all 256 bytes, compression on and off",
 "Tests never compare against the uncompressed build and never approach the 64-set, 32-symbol or 256-symbol boundaries.",
 ["src/bytecompress.rs","src/regex.rs"],
 [("partition of bytes","src/bytecompress.rs: compress / compress_bytesets"),("re-building expressions over symbols","src/bytecompress.rs: map_expr"),("inverse mapping","src/regex.rs: AlphabetInfo::from_exprset")],
 ["Regex::alpha","AlphabetInfo::map/inv_map/len","Regex::transition","cargo feature compress"])
p("C10","JSON quoting accepts exactly the allowed encodings of the language",
 "A quoted expression accepts a string if and only if it is the encoding, character by character, of some string of the original expression: characters other than control characters, quote, backslash and DEL stand for themselves; those must be escaped: quote and backslash by \\\" and \\\\, backspace, tab, newline, form feed and carriage return by \\b \\t \\n \\f \\r, each only if that escape letter is allowed, and, if the letter u is allowed, control characters also by \\u00XX with upper or lower case hex digits and DEL by \\u007F. Surrounding quotes are added exactly when raw mode is off. Expressions with intersection, complement or prefixes, and unknown escape letters, are refused with an error.",
 ["programs","inputs","configurations"],"all expressions, all escape sets, both modes, all strings",
 "Tests use a few one-character patterns with two option sets; the shortcuts for 'all control characters' and partial sets interact with the option set in 2^8 ways.",
 ["src/regexbuilder.rs"],
 [("quote_byteset / quote_all_ctrl / single_quote_byteset","src/regexbuilder.rs: json_quote")],
 ["RegexBuilder::json_quote"])
p("C11","Unicode classes are exact in UTF-8 and default patterns match only UTF-8",
 "A pattern that is a Unicode character class (including negated, case-insensitive and property classes) accepts exactly the UTF-8 encodings of the scalar values in the class, and no other byte string. A pattern compiled with default settings never accepts a byte string that is not valid UTF-8.",
 ["programs","inputs"],"all classes and range boundaries, all byte strings including malformed UTF-8",
 "Tests sample around 40 characters and a dozen malformed prefixes out of 1.1 million scalar values and all byte strings.",
 ["src/syntax.rs"],
 [("UTF-8 trie construction","src/syntax.rs: handle_unicode_ranges, TrieNode"),("class cache","src/syntax.rs: unicode_cache")],
 ["Regex::new","Regex::transition"])
p("C12","The vector interner assigns one stable identifier per distinct vector",
 "Inserting a vector returns the identifier of the first insertion of an equal vector, or the next consecutive identifier starting at 0 if there is none; looking up an identifier returns exactly the inserted contents for the life of the structure. Incremental insertion with any split into pieces is equivalent to inserting the whole, including the empty vector. Clones evolve independently.",
 ["histories"],"all sequences of insertions, lookups and clones",
 "There is no direct test; indirect use never inserts in pieces across buffer growth or compares clones.",
 ["src/hashcons.rs"],
 [("append-only backing store with de-duplication","src/hashcons.rs: start_insert/push_*/finish_insert")],
 ["VecHashCons::insert/get/len/is_valid"],[("curr_elt/backing/elements/table","interner state","src/hashcons.rs")])
p("C13","The exported automaton table equals the matcher",
 "Whenever exporting the full automaton returns, the 256-entry byte map followed by the row-major transition table reproduces, for every state and every byte, exactly the successor that stepping the matcher gives, with every reachable state included. If the automaton is too large for the one-byte encoding the export refuses instead of returning a truncated table. The printed state table shows, for every state known so far and every symbol, that same successor or that it has not been computed yet, and nothing is missing once everything was explored.",
 ["programs","histories","inputs"],"all expressions, any amount of prior lazy exploration",
 "One test prints the table of one expression and checks nothing about it.",
 ["src/regex.rs"],
 [("exhaustive exploration and export","src/regex.rs: dfa, print_state_table")],
 ["Regex::dfa","Regex::transition","Regex::print_state_table","AlphabetInfo::map_state"])
p("C14","Construction and exploration are reproducible",
 "Building the same expression by the same steps in a fresh builder and asking the same questions yields the same observable results every time: the same references, state identifiers, printed forms, reported cost and statistics, and the same success or failure under a given fuel limit, although hash tables are randomly seeded per instance.",
 ["histories","configurations"],"all expressions and query sequences, all hash seeds",
 "No test runs anything twice; hash-order dependence shows only as run-to-run variation.",
 ["src/regex.rs","src/relevance.rs","src/hashcons.rs","src/bytecompress.rs","src/ast.rs"],
 [("identifiers assigned in insertion order; no iteration over hash tables in result-bearing paths","src/hashcons.rs, src/relevance.rs, src/bytecompress.rs")],
 ["StateID","Regex::cost","Regex::stats","ExprSet::expr_to_string","to_regex_limited"])
p("C15","The forced-prefix test is sound and recognises literals",
 "If the forced-prefix query on an expression answers yes for a byte string, then every string the expression matches starts with that byte string. The empty byte string is always a forced prefix, and for a plain byte-string literal, or a concatenation beginning with one that matches something, every prefix of that literal is recognised.",
 ["programs","inputs"],"all expressions and all candidate prefixes",
 "The function has no test.",
 ["src/ast.rs"],
 [("has_simply_forced_bytes","src/ast.rs")],
 ["RegexBuilder::exprset().has_simply_forced_bytes"])
p("C16","Lookahead-free automata are finite and pending lookaheads do not pile up",
 "For every lookahead-free expression, exhaustively stepping all reachable states with all bytes reaches a fixpoint after finitely many states, and building, emptiness checking and every single step terminate. With lookaheads, where states carry byte counts, the work of a step stays bounded along any input: it does not grow with the number of bytes already read.",
 ["programs","inputs"],"all expressions, arbitrarily long inputs",
 "Tests never enumerate the state space except for one pattern.",
 ["src/simplify.rs","src/deriv.rs","src/regex.rs","src/relevance.rs"],
 [("flatten/sort/dedup normal form","src/simplify.rs: mk_or, mk_and, mk_concat"),("hash-consing of states","src/regex.rs: insert_state")],
 ["Regex::transition","Regex::stats"])
p("C17","Large and deeply nested expressions are handled without crashing",
 "Building, compiling, checking emptiness and matching work for arbitrarily large or deeply nested expressions, very long literals and inputs, large repetition counts and large alternations: no stack overflow, panic, arithmetic wrap-around or loss of precision, and the answers stay exact.",
 ["inputs","programs"],"all sizes: nesting depth, operand counts, repetition bounds, lengths, numbers of states",
 "The largest thing in the tests is a repetition of 135 and three levels of nesting.",
 ["src/ast.rs","src/mapper.rs","src/simplify.rs","src/deriv.rs","src/hashcons.rs","src/bytecompress.rs"],
 [("iterative traversals","src/ast.rs: map; src/mapper.rs; src/bytecompress.rs: map_expr"),("bounded trie recursion","src/simplify.rs: trie_rec")],
 ["RegexBuilder::mk","to_regex","Regex::is_match_bytes"])
p("C18","An alternation of literals accepts exactly the listed words",
 "An alternation of any set of words, in any order, with repeats, shared prefixes, words that are prefixes of other words, and the empty word, accepts exactly those words, whether given as an expression or as a pattern, and regardless of common tails attached to the words.",
 ["programs","inputs"],"all finite word lists and all strings",
 "Three word lists are tested.",
 ["src/simplify.rs","src/syntax.rs"],
 [("prefix trie factoring","src/simplify.rs: or_optimized / trie_rec")],
 ["RegexBuilder::mk","Regex::new"])
p("C19","Byte-set algebra is exact over any alphabet size",
 "Over an alphabet of any size, union, intersection, difference, complement and complement-of-union of single-symbol and symbol-set expressions yield the expression for exactly the resulting set of symbols of the alphabet; an empty result is the no-match expression, a one-element result is the single-symbol expression, and equal sets are the same expression.",
 ["inputs","configurations"],"all alphabet sizes and all pairs of sets",
 "Only reached indirectly with whatever alphabet sizes compression happens to produce.",
 ["src/simplify.rs","src/ast.rs"],
 [("mk_byte_set*","src/simplify.rs"),("byteset_* helpers","src/ast.rs")],
 ["raw::ExprSet::mk_byte_set / mk_byte_set_or / mk_byte_set_neg_or / mk_byte_set_and / mk_byte_set_sub / mk_byte_set_not"])
p("C20","Builder flags act like the corresponding inline flags",
 "Setting unicode, utf8, ignore-whitespace, case-insensitive or dot-matches-newline on the builder gives every pattern built afterwards the meaning it would have with the same flag applied to the whole pattern by the standard syntax, in every combination and independently of each other. Flags never change the meaning of expressions built before or of non-pattern expressions, and can be turned off again. A regex compiled directly with a parser of the caller's means what that parser's options say, whatever was compiled before.",
 ["configurations","histories","programs"],"all flag combinations, all orders of setting flags and building, all patterns",
 "Only single flags on a few patterns are tested, via the parser and not via the builder.",
 ["src/regexbuilder.rs"],
 [("parser configuration","src/regexbuilder.rs: unicode/utf8/ignore_whitespace/case_insensitive/dot_matches_new_line, mk_regex"),("caller's parser","src/regex.rs: Regex::new_with_parser; src/syntax.rs: ExprSet::parse_expr")],
 ["RegexBuilder flag setters + mk_regex","Regex::new_with_parser"])
p("C21","Shared low-level engine pieces agree with the denoted language",
 "Several expressions compiled together over one compressed alphabet, with one derivative cache, one next-byte cache and one emptiness cache shared between them and queried in any order, each keep exactly their own language: the derivative of an expression by a symbol denotes the language after that symbol, nullability and non-emptiness answers are exact, and next-byte answers are sound.",
 ["programs","histories","inputs"],"all lists of expressions and all interleavings of cache queries",
 "No test uses more than one expression per compiled set or uses the low-level pieces directly.",
 ["src/regex.rs","src/deriv.rs","src/relevance.rs","src/nextbyte.rs","src/bytecompress.rs"],
 [("AlphabetInfo::from_exprset on lists","src/regex.rs"),("caches","src/deriv.rs, src/relevance.rs, src/nextbyte.rs")],
 ["raw::DerivCache::derivative","raw::RelevanceCache::is_non_empty / is_non_empty_limited","raw::NextByteCache::next_byte","ExprSet::is_nullable"])
p("C22","The tree-mapping utility visits every node once, children first",
 "Mapping a function over any tree calls it exactly once per node, after all its children, passing the children's results in argument order, and returns the root's result. The first error returned by the function is returned to the caller and nothing is visited afterwards. Depth does not matter.",
 ["inputs","fault_sequences"],"all tree shapes and all positions of a failing node",
 "Only reached indirectly, never with errors, via expression building.",
 ["src/mapper.rs"],
 [("explicit-stack traversal","src/mapper.rs: map_ast")],
 ["map_ast"])
p("C23","Rendering is total, bounded and unambiguous",
 "Printing any expression or syntax tree never panics, and its work and output are bounded by the requested maximum length up to a small overshoot (the text of one leaf and the closing brackets of the open levels), even when the expression is an exponentially large shared graph or very deep. When nothing is truncated, two different expressions of one expression set never print the same text, and neither do two different syntax trees (byte literals being valid UTF-8). The legend that can be printed after an expression over a compressed alphabet lists every symbol with exactly the bytes that map to it.",
 ["programs","configurations"],"all expressions and all length limits",
 "Tests print a few expressions without looking at the output.",
 ["src/pp.rs","src/regexbuilder.rs","src/ast.rs"],
 [("length-limited printer","src/pp.rs: write_expr/write_exprs/write_concat"),("AST printer","src/regexbuilder.rs: write_to_str")],
 ["ExprSet::expr_to_string_max_len","RegexAst::write_to_str"])
p("C24","Combining next-byte hints with | and & stays sound and precise",
 "For any two next-byte hints, their | is the most precise hint that allows everything either of them allows, and their & the most precise hint that allows everything both of them allow (a forced byte allows only that byte, forced end-of-input only the end, 'some bytes' anything, 'dead' nothing). Hence for any two or more compiled expressions in any reachable states, the | of their hints is a sound hint for their union and the & of their hints is a sound hint for their intersection, in whatever order the hints are combined.",
 ["inputs","programs"],"all pairs and triples of hint values; all tuples of expressions and all joint states",
 "No test uses the operators; a wrong entry in the table shows only for one combination of hints.",
 ["src/ast.rs","src/nextbyte.rs"],
 [("BitOr / BitAnd for NextByte","src/ast.rs"),("folding hints of the branches of a union","src/nextbyte.rs: NextByteCache::next_byte")],
 ["NextByte | NextByte","NextByte & NextByte","Regex::next_byte"])
p("C25","All public routes to the same question give the same answer",
 "Compiling a pattern by any public route (Regex::new, a default parser, builder and pattern string, syntax tree node, reference, limited compilation without a limit, default flags set explicitly, a used or cloned builder) succeeds or fails alike and yields matchers that behave alike on every byte string. Equivalent spellings of an expression (a byte, a one-element set, a one-byte literal; a literal or the concatenation of its bytes; one-element or nested operators; neutral elements; double complement; De Morgan forms; unrolled repetitions; references) behave alike. is_match, is_match_bytes, lookahead_len, lookahead_len_bytes and stepping through the text in any split agree on every text. All ways of asking a containment question agree.",
 ["programs","inputs","configurations"],"all patterns, expressions, texts and splits",
 "Every test takes one route only.",
 ["src/regex.rs","src/regexbuilder.rs","src/simplify.rs","src/syntax.rs"],
 [("entry points of Regex","src/regex.rs: new / new_with_parser / is_match* / lookahead_len* / transition*"),("building from syntax trees","src/regexbuilder.rs: mk / mk_regex / mk_contained_in*"),("normal forms","src/simplify.rs")],
 ["Regex::new, new_with_parser","RegexBuilder::mk, mk_regex, mk_contained_in, mk_contained_in_ast, is_contained_in","Regex::is_match, is_match_bytes, lookahead_len, lookahead_len_bytes, transition, transition_bytes"])
p("C26","Mapping over the expression graph visits each needed node exactly once",
 "Mapping a function over an expression calls it once for every distinct reachable expression that has no answer in the cache yet and is needed, after all its arguments, passing the arguments' results in order, and for no other expression; it returns the root's result and stores exactly the new answers under the caller's keys. With the concatenation check on, a concatenation depends only on its arguments up to and including the first non-nullable one. The function may add expressions meanwhile. Depth and sharing do not matter: the number of calls is the number of distinct expressions.",
 ["inputs","histories"],"all expressions, all sets of answers already cached, both settings of the concatenation check",
 "Only reached indirectly; the tests have no shared or deep graphs and never look at visits.",
 ["src/ast.rs"],
 [("explicit-stack memoising traversal","src/ast.rs: map / simple_map")],
 ["raw::ExprSet::map","raw::ExprSet::simple_map"])
p("C27","Reported statistics and costs are truthful",
 "At every moment the printed statistics of a compiled regex give the number of states handed out (plus the two fixed ones), the number of distinct steps computed, the size of the alphabet in use and the size estimate that num_bytes returns; the number of compiled nodes never changes, the counts of derived nodes and derivatives never decrease, and neither do the cost and the size estimate. Asking a question again changes neither statistics nor cost. A clone reports the same numbers as the original, and later use of one does not change the numbers of the other. Building an expression that already exists adds no expression, and the compiled regex costs at least what building it had cost.",
 ["programs","histories"],"all expressions and all query sequences",
 "Tests print the statistics at most.",
 ["src/regex.rs","src/ast.rs","src/simplify.rs"],
 [("counting","src/regex.rs: transition / append_state / stats"),("cost accounting","src/simplify.rs: pay; src/regex.rs: AlphabetInfo::from_exprset")],
 ["Regex::stats","Regex::cost","Regex::num_bytes","raw::ExprSet::cost / len / num_bytes"])
p("C28","The pending-lookahead estimate bounds every length reported later",
 "For every derivative of an expression with lookaheads after reading a byte string w, the estimate of the possible lookahead length is at least the length reported at w, and at least the length reported at any extension wv minus |v|. It is 0 or the distance from the end of w to a position where the part before a lookahead was complete, in particular never more than |w|, and always 0 without lookaheads.",
 ["programs","inputs"],"all expressions with lookaheads, all byte strings and all their extensions",
 "No test calls it.",
 ["src/ast.rs","src/deriv.rs","src/simplify.rs"],
 [("estimate over the branches of a union","src/ast.rs: possible_lookahead_len"),("offset counting and merging","src/deriv.rs: Lookahead arm; src/simplify.rs: mk_or, mk_lookahead")],
 ["raw::ExprSet::possible_lookahead_len","raw::ExprSet::lookahead_len"])
p("C29","The expression constructors are exact over any alphabet size",
 "Expressions built directly with the constructors of an expression set (bytes, byte sets, literals, concatenation, union, intersection, complement, repetition, prefixes, on argument lists of any length and order) over an alphabet of any size from 1 to 256 denote exactly the language over that alphabet that the operators denote: nullability, emptiness, derivatives and next-symbol and forced-prefix answers agree with it, complement is taken within the alphabet, and an expression flagged as certainly non-empty is not empty.",
 ["programs","configurations","inputs"],"all expressions, all alphabet sizes",
 "Tests only use the 256-byte alphabet, and small compressed ones with the construction-time optimisations off.",
 ["src/simplify.rs","src/ast.rs","src/deriv.rs","src/relevance.rs"],
 [("smart constructors","src/simplify.rs: mk_*"),("constants over the alphabet","src/ast.rs: ExprSet::new")],
 ["raw::ExprSet::mk_*","raw::DerivCache","raw::RelevanceCache","raw::NextByteCache"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
