# The list of properties. tools/gen.py turns it into properties.jsonl and MANIFEST.json.
# P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], technique, level note)
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, note=note, observe=observe))

P("C01", "Byte offsets, line and column numbers of a source agree",
  "For every source text and every byte offset, the reported line is one plus the number of line feeds before the offset and the reported column is one plus the number of characters since the last line feed; converting line and column back yields the same offset when it is at a character boundary. Offsets and line/column pairs outside of the text are clamped to the nearest valid position and never fail. The answers do not depend on which positions were asked before.",
  ["inputs", "histories"],
  "all texts over an alphabet with line feeds and multi-byte characters up to a length bound, all offsets and line/column pairs including invalid ones, all query orders up to a bound",
  "Line indexes are computed lazily and cached; tests ask a few positions of a few texts, while errors occur at boundaries (empty lines, last line without line feed, cached state after earlier queries).",
  ["source/source.go"],
  [("line index and position conversion", "source/source.go: Source.LineCol, Source.Pos"), ("queue position conversion", "source/source.go: Queue.LineCol, Queue.SourcePos")],
  "exhaustive enumeration of texts and query histories executed on the real code against a naive character-counting reference")

P("C02", "The source queue behaves as an ordered sequence of pending texts",
  "After any sequence of appending, prepending, advancing, seeking and skipping operations the queue exposes exactly the unread suffixes of the sources in queue order: current content, current source, position and emptiness. Prepending in the middle of a source suspends it and it is resumed later at the same position. Captured positions keep pointing to the same source, offset, line and column regardless of later operations.",
  ["histories", "inputs"],
  "all histories of queue operations up to a depth over a set of source contents including empty ones",
  "The order of operations matters (a source split by prepending in the middle, exhausted or empty sources, rewinding), the number of histories is exponential and tests contain only a few of them.",
  ["source/source.go", "internal/queue/queue.go"],
  [("append / prepend / seek / skip / next source", "source/source.go: Queue"), ("ring buffer", "internal/queue/queue.go")],
  "breadth-first exploration of operation histories on the real queue in lockstep with a list-of-suffixes model")

P("C03", "Newline normalization replaces every CR and CR-LF with a single LF",
  "For every content the normalization turns every carriage return followed by a line feed and every lone carriage return into exactly one line feed and keeps all the other bytes in order. Content without carriage returns stays untouched.",
  ["inputs"], "all contents over an alphabet of CR, LF and other bytes up to a length bound",
  "In-place compaction depends on the exact pattern of neighbouring CR and LF bytes; only exhaustive patterns cover all of them.",
  ["source/source.go"], [("in-place normalization", "source/source.go: NormalizeNls")],
  "exhaustive enumeration of contents against a reference replacement")

P("C04", "The internal double-ended queue keeps order across any operation history",
  "After any sequence of adding items to the head or the tail and taking items from the head, the queue contains exactly the items added and not taken, in the right order, for any initial content and regardless of growing and wrapping of the storage. Items taken from an empty queue are zero values and reported as missing.",
  ["histories"], "all operation histories up to a depth from several initial contents, including pre-filled ones that force growing",
  "Wrap-around and growing interact only in specific histories; unit tests check a couple of fixed scenarios.",
  ["internal/queue/queue.go"], [("ring buffer with growth", "internal/queue/queue.go: Queue.Append, Prepend, First, Head")],
  "exhaustive operation histories on the real container in lockstep with a slice model")

P("C05", "Integer sets behave as mathematical sets",
  "For every sequence of additions, removals, unions, intersections and subtractions the set contains exactly the members a mathematical set would contain, and membership, emptiness, equality, ordering of the listing and copying are consistent with it. Operations that produce a new set never change their operands, and changes of a copy never affect the original.",
  ["histories"], "all operation histories up to a depth over members straddling the storage boundaries (including negative and multi-chunk values), all pairs of small sets for binary operations",
  "The representation (chunks with a moving base) has boundary states which appear only after specific operation sequences.",
  ["internal/ints/intset.go"], [("chunked bit set", "internal/ints/intset.go: Set")],
  "exhaustive operation histories and pairs in lockstep with a map-based model")

P("C06", "The lexer splits sources into contiguous tokens, first matching type wins",
  "For every ordered list of token definitions and every queue of sources, tokens fetched one by one cover every source byte exactly once except for skipped insignificant text; each token has the type of the first definition that matches at that place, the text matched by it and the position where the text starts. The end of every source is reported once, the end of all input after it and as long as nothing is added, tokens never extend over source boundaries. A lexical error is located at the first offending byte and leaves the input position unchanged.",
  ["inputs", "configurations", "histories"],
  "all ordered lists of definitions taken from a palette of overlapping expressions crossed with all inputs up to a length bound split into sources in all ways",
  "The lexer merges all expressions into one and maps groups back to types; which definition wins and what is consumed depends on combinations of definitions and inputs.",
  ["lexer/lexer.go", "lexer/token.go", "source/source.go"],
  [("combined expression and group mapping", "lexer/lexer.go: New, Lexer.matchToken"), ("source end handling", "lexer/lexer.go: Lexer.Next")],
  "exhaustive enumeration of definition lists and inputs on the real lexer in lockstep with a reference tokenizer which tries definitions one by one")

P("C07", "Fetching a token of selected types returns only selected types or nothing",
  "For every set of wanted token types, every list of definitions and every input the lexer returns the token that plain fetching would return at this place if its type is wanted, and nothing otherwise; in the latter case the input position, including the insignificant text before the token, stays unchanged. Lexical errors are reported and the end of a source may be returned whatever types are wanted. Fetching with different sets of wanted types at the same position does not depend on the earlier attempts.",
  ["inputs", "configurations", "histories"],
  "all ordered definition lists from a palette, all inputs up to a length bound, all subsets of wanted types at every position, all sequences of two attempts",
  "Subset expressions are built lazily and cached between calls; the outcome depends on the combination of subset, definitions, input and previous calls.",
  ["lexer/lexer.go"], [("subset expressions", "lexer/lexer.go: Lexer.NextOf")],
  "exhaustive enumeration on the real lexer in lockstep with a reference tokenizer restricted to the subset")

P("C08", "Any text given as a grammar description yields a grammar or a proper error",
  "For every text the grammar description reader terminates and either returns a grammar or an error value of the library's error type whose position, when given, is inside of the description; it never panics, hangs, returns both or returns none. The time it takes stays reasonable for descriptions with many nodes or deep nesting.",
  ["inputs"],
  "all sequences of description tokens up to a length bound, all truncations and all one-token and one-byte mutations of valid descriptions, node chains and nested groups up to a size bound",
  "Malformed descriptions are endless; a panic or an endless loop shows up only for particular truncations or token combinations.",
  ["langdef/parser.go", "langdef/chunks.go", "langdef/errors.go", "langdef/result.go"],
  [("description parser", "langdef/parser.go: Parse"), ("rule compiler", "langdef/result.go, langdef/chunks.go")],
  "exhaustive enumeration of descriptions on the real reader; crashes, hangs and inconsistent results are violations")

P("C09", "Grammar descriptions are rejected exactly for the documented static mistakes",
  "A well-formed description is accepted if and only if all used nodes, tokens and templates are defined, nothing is defined twice, all defined nodes are reachable from the root, every node is able to begin with some token or the end of input, and there is no left recursion. When it is rejected the error tells one of the mistakes actually present and names exactly the nodes concerned (for left recursion: all the nodes of cycles, possibly with nodes leading to them). The verdict does not depend on the order of the definitions of nodes other than the root.",
  ["inputs", "programs"],
  "all grammars up to a number of nodes and body size, including undefined, unused, unfinishable and left-recursive ones",
  "The verdict is a graph property of the whole grammar; tests list a few faulty grammars, while mistakes may be hidden behind optional parts, groups and mutual recursion.",
  ["langdef/parser.go"], [("undefined / unused / recursive node search", "langdef/parser.go: check functions"), ("error constructors", "langdef/errors.go")],
  "exhaustive enumeration of grammars; verdicts compared with independent fixpoint computations")

P("C10", "Compiled parsing tables accept exactly the language of the description",
  "For every accepted description the compiled table is well-formed (every referenced state, rule, token and node exists, no chain of rules loops without consuming input) and, read as a nondeterministic automaton, generates for every node exactly the sequences of tokens and nodes its description generates. Special rules for any token and for the end of input do not add or remove sequences.",
  ["programs", "inputs"], "all grammars up to a body size, lists of variants and parts up to 7 elements; all child sequences (of any length, through the complete product of the two automata)",
  "Table construction merges, shares and bypasses states; defects appear in specific combinations of nested optional, repeated and alternative parts.",
  ["langdef/chunks.go", "langdef/result.go", "grammar/grammar.go"],
  [("state and rule generation", "langdef/chunks.go"), ("group resolution and rule conversion", "langdef/result.go")],
  "exhaustive enumeration of grammars; complete exploration of the product of the compiled table and the position automaton of the description")

P("C11", "Compiling the same description always produces the same grammar",
  "The compiled grammar is a function of the description text alone: repeated compilations in the same or in other processes, under any iteration order of maps, produce identical grammars or identical errors (same code, message and position). Creating a parser and parsing do not depend on the iteration order of maps either.",
  ["schedules", "inputs"], "all permutations of the iteration order of every map used by the compiler (deviation bounded), for a set of descriptions which exercise all compiler parts",
  "Random map iteration rarely differs in small tests, and a difference shows up only for particular orders.",
  ["langdef/parser.go", "langdef/chunks.go", "langdef/result.go"], [("map iterations in the compiler", "langdef/*.go")],
  "controlled exploration of map iteration orders on an instrumented build of the real compiler")

P("C12", "Directives, escapes, templates and layer arguments are recorded faithfully",
  "For every combination of directives, token definitions, escape sequences, templates and layer declarations the compiled grammar records exactly the declared data: token flags and groups in both declared and automatic cases, unescaped literal and layer argument bytes, template substitution in expressions, layer names, commands and argument order. Contradicting or repeated declarations and exceeded limits are rejected.",
  ["inputs", "programs"], "all combinations of directives over a small set of tokens, all escape sequences up to a length bound, all layer declarations up to a bound, token count around the limit",
  "Directives interact (a token may be mentioned by several ones before or after its definition), the number of combinations is far beyond tests.",
  ["langdef/parser.go", "grammar/grammar.go"], [("directive, escape, template and layer handling", "langdef/parser.go")],
  "exhaustive enumeration of descriptions; the resulting grammar compared with an independent interpretation of the documentation")

P("C13", "Successful parsing reports a derivation of the consumed input",
  "For every grammar and input, when parsing succeeds, the nodes and tokens reported to hooks form a tree rooted in the root node whose leaves are exactly the consumed tokens in the input order, and the children of every node match the definition of this node. This holds also for grammars that require resolving conflicts by looking ahead.",
  ["programs", "inputs"], "all grammars up to a body size and a number of nodes in several lexing modes crossed with all token strings up to a length bound",
  "Correctness of a table-driven parser generator is a statement over all grammars and inputs; tests check particular grammars.",
  ["parser/parser.go", "langdef/chunks.go"], [("main loop, branch resolution", "parser/parser.go"), ("table generation", "langdef/chunks.go, langdef/result.go")],
  "exhaustive enumeration of grammars and inputs on the real compiler and parser; every reported tree is checked by an independent matcher")

P("C14", "LL(1) grammars accept exactly the sentences of the described language",
  "For every grammar in which one token of lookahead determines every choice, a full-source parse succeeds if and only if the input is a sentence of the language given by the description, and the reported tree covers the whole input.",
  ["programs", "inputs"], "all LL(1) grammars up to a body size crossed with all token strings up to a length bound",
  "Completeness is a statement over all grammars and sentences.",
  ["parser/parser.go", "langdef/chunks.go", "langdef/result.go"], [("rule selection", "parser/parser.go"), ("table generation", "langdef/chunks.go")],
  "exhaustive enumeration of grammars and inputs; verdicts compared with an independent matcher of the description syntax")

P("C15", "Conflicts are resolved in favour of the branch that survives longest",
  "When several rules of a node fit the next token, all branches of this node are followed in parallel over upcoming tokens until at most one of them can consume the next token; the branch consuming the longest run is chosen, and a branch which completes the node at this place is preferred over one that fails there. The sequence of hook events is exactly the one of the chosen branch, which of the equally good branches is taken is unspecified. Resolution of a conflict never loses, duplicates or reorders tokens.",
  ["programs", "inputs"], "all conflicting grammars up to a body size crossed with all token strings up to a length bound",
  "Branches split, merge and fail at different tokens; failures such as overwritten pending branches appear only with specific nesting.",
  ["parser/parser.go"], [("branch splitting and resolution", "parser/parser.go: resolve, nextBranches")],
  "exhaustive enumeration; real parser compared with a reference lockstep simulation of branches on the compiled table")

P("C16", "Parsing always terminates without panicking and consumes no more than the input",
  "For every accepted grammar, including ambiguous ones, every input and every set of options parsing terminates with a result or an error after a bounded number of hook calls; it never panics. The work does not grow exponentially with the size of an unambiguous grammar or of its input.",
  ["programs", "inputs"], "all grammars up to a body size (including conflicting grammars, grammars with end-of-input marks, external tokens, reserved and error tokens) crossed with all inputs up to a length bound including invalid bytes",
  "Endless loops and panics appear for unusual grammars (empty loops, end-of-input loops) and inputs.",
  ["parser/parser.go", "langdef/chunks.go"], [("main loop, branch resolution", "parser/parser.go")],
  "exhaustive enumeration with a watchdog and a bound on hook events")

P("C17", "Cancelling the context stops parsing promptly and is reported",
  "After the context is cancelled, before parsing or inside any callback, at most the handling of the current token is finished, no further token is handled, no result is returned and the error of the context is reported; only a parse which was complete with this very token may report its usual outcome. A context that is never cancelled does not change the outcome. The parser and its grammar stay usable.",
  ["fault_sequences", "schedules"], "cancellation at every callback of every parse in the set, and before parsing",
  "The moment of cancellation is arbitrary; tests cancel at one moment.",
  ["parser/parser.go"], [("context checks", "parser/parser.go: parse loop")],
  "exhaustive enumeration of cancellation points over complete parses")

P("C18", "Hooks are called in document order exactly once, hook errors abort parsing",
  "For every parse hooks see every node once opened with its first token, then its tokens and child nodes in the input order, and once finished, with the result passed to the closest enclosing hooked node; no hook is called after the end of its node. Hooks of layers are called in the order of declaration, user-provided ones after them. When a hook returns an error at any call, parsing stops at once with this very error and no more hooks are called.",
  ["fault_sequences", "inputs"], "all hook configurations over a set of grammars and inputs, an error injected at every possible hook call",
  "The k-th hook call may fail for any k and at any kind of hook; tests inject only one or two.",
  ["parser/parser.go", "parser/hooks.go"], [("hook invocation", "parser/parser.go: pushNode, popNode, handle token")],
  "exhaustive fault injection at every hook call; event logs compared with the log predicted from the derivation")

P("C19", "Side tokens are delivered exactly where they are, or not at all",
  "With side tokens enabled every side token consumed by a parse is delivered once, in the input order relative to other tokens, to a node which is open at that moment, so that delivered tokens together with the unread rest make up the whole input; without the option none is delivered to node hooks. The remaining events are identical in both modes.",
  ["inputs", "programs"], "all grammars in the set crossed with all inputs with side tokens inserted at every position up to a bound",
  "Side tokens may occur anywhere, including node boundaries, lookahead during conflict resolution and the end of the source.",
  ["parser/parser.go"], [("side token handling", "parser/parser.go")],
  "exhaustive insertion of side tokens into inputs; event logs compared with a reference placement")

P("C20", "Parsing stops after the longest complete prefix and leaves the rest untouched",
  "When the root node is complete and the next token cannot continue it, parsing succeeds and the unread rest of the input starts exactly after the last consumed token, so it can be read by another parser. With the full-source option the same situation is an error located at the first leftover token; insignificant text at the end is not an error.",
  ["inputs", "programs"], "all grammars (LL(1) and conflicting) in the bounded space crossed with all inputs up to a length bound",
  "Tokens fetched as lookahead have to be returned; whether there are some depends on the grammar and input combination.",
  ["parser/parser.go", "source/source.go"], [("end of parsing and leftover handling", "parser/parser.go: Parse")],
  "exhaustive enumeration; queue state after the parse compared with the longest viable prefix")

P("C21", "Splitting a text into sources or including sources keeps the parse the same",
  "Parsing a queue of sources gives the same nodes and tokens as parsing one source if the split does not break a token; token positions refer to the right source, line and column. A source prepended to the queue by a hook is parsed right after the current token, then the interrupted source continues from where it was.",
  ["inputs", "histories"], "all splits of all inputs up to a length bound into up to three sources (also empty ones), all inclusion points",
  "The place of the split is arbitrary and interacts with lookahead and side tokens.",
  ["parser/parser.go", "lexer/lexer.go", "source/source.go"], [("source switching", "lexer/lexer.go, source/source.go"), ("queue access", "parser/parser.go: Queue")],
  "exhaustive enumeration of splits and inclusion points; results compared with the unsplit run")

P("C22", "Token hooks transform the token stream exactly as they answer",
  "Every token fetched passes through token hooks of all layers in order, tokens emitted by a hook take part in parsing as if they were in the input, dropped tokens vanish, and tokens emitted by one layer are seen by the following layers only. The more specific hook (by text, then by type, then any) is chosen for each token. Hooks for token types unknown to the grammar are refused.",
  ["configurations", "inputs"], "all combinations of hook kinds and answers (pass, drop, replace, add before or after, error) up to two layers crossed with all inputs up to a length bound",
  "Layers compose; the number of combinations of answers is far beyond tests.",
  ["parser/hooks.go", "parser/parser.go"], [("token hook selection and queueing", "parser/hooks.go, parser/parser.go: nextToken")],
  "exhaustive enumeration of layered answers in lockstep with a stream transformer model")

P("C23", "Peeking at upcoming tokens does not influence parsing",
  "Calling the peek facility from hooks at any moment any number of times gives the tokens that come next (tokens emitted by hooks and still pending first, then those of the input) and leaves the result, the events and the errors of the parse unchanged.",
  ["histories", "inputs"], "peek calls at every subset of hook events up to a bound crossed with inputs and grammars",
  "Peeking interacts with lookahead buffers; only some moments break it.",
  ["parser/parser.go", "parser/hooks.go"], [("peek buffer", "parser/parser.go: PeekToken")],
  "exhaustive enumeration of peek points; event logs compared with a run without peeking")

P("C24", "Literals, reserved words and caseless tokens take their documented priority",
  "A token whose text is a literal used by the grammar is treated as the literal where the literal is expected, otherwise as a token of its type, unless the literal is reserved: then it never matches as a plain token. Types excluded by !literal never match literals, caseless types match (upper-case) literals ignoring the letter case, token text is kept as written.",
  ["programs", "inputs"], "all grammars over a small set of name tokens and literals with every combination of reserved and caseless directives crossed with all inputs up to a length bound",
  "The outcome depends on the combination of the directive, the state of the parser and the text.",
  ["parser/parser.go", "langdef/parser.go", "grammar/grammar.go"], [("token key selection", "parser/parser.go"), ("reserved / caseless marks", "langdef/parser.go")],
  "exhaustive enumeration compared with an independent matcher on texts")

P("C25", "Parse errors point at the first token that cannot continue any sentence",
  "For every LL(1) grammar and every input that is not a sentence the error is reported at the first token after which no sentence can begin with the consumed tokens, with source name, line and column of this token, or as an unexpected end of input when all tokens were fine. The kind of the error tells whether a token was unexpected, lexically wrong or missing; the message names the found token and a token that may follow at this place.",
  ["programs", "inputs"], "all LL(1) grammars up to a body size crossed with all non-sentences up to a length bound",
  "The error position is a property of all grammars and faulty inputs.",
  ["parser/parser.go", "parser/errors.go"], [("error construction", "parser/parser.go, parser/errors.go")],
  "exhaustive enumeration; error location compared with the longest viable prefix computed by an independent matcher")

P("C26", "One parser may be used any number of times and concurrently",
  "A parser gives the same result, events and errors for an input regardless of what it parsed before, whether earlier parses failed, were cancelled or panicked in a hook, and what other goroutines parse with it at the same time. No data race happens on shared state.",
  ["schedules", "histories"], "all sequences of parses up to a length bound (success, error, hook panic, cancellation), all interleavings of two or three concurrent parses at access points of shared state up to a preemption bound",
  "Races need a particular interleaving that tests hardly ever produce.",
  ["parser/parser.go", "lexer/lexer.go", "grammar/grammar.go"], [("shared parser, lexers and their caches", "parser/parser.go: New, Parse; lexer/lexer.go")],
  "controlled scheduler exploring all interleavings up to a preemption bound on an instrumented build of the real code, plus exhaustive histories of reuse")

P("C27", "Hook layer registration is safe and consistent under concurrency",
  "Registering hook layer templates and creating parsers from several goroutines at once (also from inside of the set-up of a layer) is free of data races and deadlocks. A registered template is visible to all parsers created afterwards, a second registration of the same name is refused with an error and changes nothing; concurrent operations give results of some sequential order.",
  ["schedules", "histories"], "all interleavings of two or three goroutines performing registrations and look-ups up to a preemption bound",
  "Only specific interleavings expose an unprotected registry.",
  ["parser/hooks.go", "parser/layers/layers.go"], [("layer template registry", "parser/hooks.go: RegisterHookLayer, layer lookup")],
  "controlled scheduler on an instrumented build; histories checked for linearizability against a map model")

P("C28", "The convert layer rewrites exactly the configured tokens",
  "For every configuration of the convert layer and every token stream each token of the configured input type (any type by default) whose text is listed is replaced by a token with the configured text and type, with the position of the original one when save-position is used; all the others pass unchanged, order is kept. Invalid definitions are rejected with the documented kind of error when a parser is created.",
  ["configurations", "inputs"], "all configurations up to a number of commands (also invalid ones) crossed with all inputs up to a length bound",
  "Combinations of commands and tokens are far beyond tests.",
  ["parser/layers/convert/convert.go"], [("convert layer", "parser/layers/convert/convert.go")],
  "exhaustive enumeration in lockstep with a reference stream transformer")

P("C29", "The indent layer emits balanced indent and dedent tokens",
  "For every configuration and every text the tokens emitted on indents and dedents are those of a reference off-side-rule interpreter: one indent token when a line is indented deeper, one dedent token per closed level, all closed at the end of input; inconsistent indentation and comments before code are errors. All the other tokens keep their order, text and position; added tokens precede the spacing that caused them. Contents of sources are never changed.",
  ["configurations", "inputs"], "all configurations up to a number of commands crossed with all texts of up to a number of lines and indent widths (spaces and tabs)",
  "Sequences of indentation levels are endless; errors appear only with specific nesting, blank lines or the end of input.",
  ["parser/layers/indent/indent.go"], [("indent layer", "parser/layers/indent/indent.go")],
  "exhaustive enumeration of texts and configurations in lockstep with a reference interpreter")

P("C30", "The restrict layer rejects exactly the nodes that are not allowed",
  "For every configuration of the restrict layer and every input, parsing fails at the first token of the first restricted node whose closest ancestor listed as allowing or forbidding is a forbidding one, and is unaffected otherwise. Invalid definitions are rejected with the documented kind of error when a parser is created.",
  ["configurations", "inputs"], "all configurations up to a number of commands (also invalid ones) crossed with all inputs up to a length bound",
  "Combinations of commands and tokens are far beyond tests.",
  ["parser/layers/restrict/restrict.go"], [("restrict layer", "parser/layers/restrict/restrict.go")],
  "exhaustive enumeration in lockstep with a reference filter")

P("C31", "Tree editing operations keep the tree consistent",
  "After any sequence of adding, inserting, replacing, removing and detaching elements the links between parents, children and siblings agree with each other and with the order an ordinary list-of-children model gives; no element is lost or present twice. Operations never panic for valid arguments (an element is not put into itself or its own descendant), also when an element is placed relative to itself, its neighbour or the root.",
  ["histories"], "all operation histories up to a depth over a small set of nodes and tokens",
  "Pointer surgery fails for particular neighbourhoods (first, last, adjacent siblings, same element), which appear only in specific histories.",
  ["tree/tree.go"], [("child and sibling operations", "tree/tree.go: AddChild, RemoveChild, Replace, Detach, AppendSibling, PrependSibling")],
  "exhaustive operation histories on the real tree in lockstep with a list model")

P("C32", "The syntax tree built by the standard hook reproduces the input",
  "For every grammar and input the tree built by the ready-made node hook has exactly the structure of the derivation and, with side tokens passed to hooks, its tokens in order make up the parsed text byte for byte (up to the end of the root node); positions of tokens agree with the source. Without side tokens the tree holds exactly the significant tokens.",
  ["programs", "inputs"], "all grammars in the set crossed with all inputs up to a length bound, with and without side tokens",
  "Round trip has to hold for every combination of grammar, input and side token placement.",
  ["tree/tree.go", "parser/parser.go"], [("tree-building hook", "tree/tree.go: NodeHook")],
  "exhaustive enumeration; the tree compared with the derivation recorded by independent hooks")

P("C33", "Tree walks visit every element once in the requested order",
  "For every tree, direction, start element and visitor behaviour the walk visits exactly the elements of the requested part once in the requested order and with the right nesting level, except those the visitor asked to skip; asking to stop ends the walk at once. Walking in the opposite direction gives the order of the mirrored tree.",
  ["inputs", "configurations"], "all trees up to a number of elements, all start elements, all walk modes, all visitor answers at every step up to a bound",
  "The walk is a state machine over links, errors appear for particular shapes and answers.",
  ["tree/tree.go"], [("walker and iterators", "tree/tree.go: Walk, Iterator")],
  "exhaustive enumeration of trees and visitor answers against a recursive reference walk")

P("C34", "Navigation and selectors agree with the document order",
  "For every tree and element navigation (children, siblings, ancestors, first, last, next and previous token) and every composition of selector steps (extractors, filters, searches) return exactly the elements the definition in terms of document order gives, in that order, without duplicates when requested. Absent results are reported as nothing, never a panic.",
  ["inputs", "programs"], "all trees up to a number of elements, all navigation arguments, all selector compositions up to a depth",
  "Tests use one or two trees; boundary cases depend on shape (empty nodes, last elements, negative indexes).",
  ["tree/tree.go"], [("navigation and selectors", "tree/tree.go: NthChild, Ancestor, NextTokenElement, Selector")],
  "exhaustive enumeration of trees and compositions against set-theoretic definitions")

P("C35", "Generated grammar code and JSON mean the same as the description",
  "For every accepted description the command line generator writes Go code that compiles and evaluates to a grammar equal to the compiled one, and JSON that decodes to an equal grammar (JSON output of strings that are not valid text is refused with an error); names that are not Go names and descriptions that are rejected are reported, the generator exits with a failure and produces no output. Existing output files are not damaged when generation fails.",
  ["programs", "configurations"], "a set of descriptions that covers every kind of grammar element and every escape-worthy byte crossed with all output options",
  "Serialization errors depend on unusual content (quotes, back-quotes, layers, flags).",
  ["cmd/llxgen/llxgen.go", "grammar/grammar.go"], [("Go and JSON output", "cmd/llxgen/llxgen.go"), ("grammar data", "grammar/grammar.go")],
  "exhaustive enumeration of descriptions and options; generated code is compiled and compared with the original grammar")

P("C36", "Configuration editing keeps everything that was not edited",
  "For every configuration file accepted by the configuration editor and every sequence of setting and removing entries and sections, the saved file read again contains exactly the values an ordinary map of sections would contain, and all the comments and untouched lines (except those of removed sections) stay in order, unchanged but for indents. Invalid files are rejected. Editing never panics.",
  ["histories", "inputs"], "all configuration texts built from a palette of lines up to a length bound crossed with all editing histories up to a depth",
  "Editing operates on syntax trees with comments and separators in arbitrary places.",
  ["examples/conf-edit/internal/lib.go", "tree/tree.go"], [("configuration editing", "examples/conf-edit/internal/lib.go")],
  "exhaustive histories on the real editor in lockstep with a map model and line-preservation check")

P("C37", "The calculator evaluates expressions according to precedence rules",
  "For every sequence of statements the calculator gives the values of a straightforward evaluator with usual precedence and associativity, variables and functions keep their values between statements; errors are reported and do not change earlier definitions. It never panics, and endless recursion is reported as an error.",
  ["inputs", "histories"], "all token strings up to a length bound, all statement histories up to a depth",
  "Expression shapes are endless; precedence errors show up only for particular operator sequences.",
  ["examples/calc/internal/lib.go"], [("expression evaluation", "examples/calc/internal/lib.go")],
  "exhaustive enumeration of expressions against a reference precedence-climbing evaluator")

P("C38", "Tokens and token types agree with the grammar",
  "For every grammar the parser knows exactly the token types it declares (literals and error tokens are not types that can be asked for or emitted), together with the special types for the end of a file and of the input: looking a type up by name, making a token and asking whether a type is valid, special or insignificant all agree with the declarations. Tokens keep the type, content and place they were made with; a token or end of file made without a source has no place. A hook or a layer that emits a token of any other type gets an error, of a valid type never this one. Contexts given to hooks and layers belong to the parser and the input in use, and layers of a grammar are set up once each, in order, by the overriding template if there is one and by the registered one otherwise; unknown layers are reported.",
  ["programs", "configurations", "inputs"], "all lists of declarations up to a length bound, all integer types around the valid range, all lists of layers with all choices of templates",
  "Type numbers depend on the whole list of declarations; tests look at a few types of a few grammars.",
  ["parser/parser.go", "parser/hooks.go", "lexer/token.go"], [("types and tokens", "parser/parser.go: TokenType, MakeToken, IsSideType, IsSpecialType, IsValidType"), ("token data", "lexer/token.go"), ("templates", "parser/parser.go: New, WithLayerTemplates")],
  "exhaustive enumeration of declarations, types and layer lists against an interpreter of declarations")

P("C39", "Errors carry a code of the right class, the place and the text",
  "Every error reported for a description, an input or a layer definition is a library error whose code belongs to the class of the reporting part, whose message is not empty or garbled whatever characters occur in names and texts, mentions the culprit (undefined or unused nodes, tokens, literals, layers and their commands), and ends with the name of the source, line and column exactly when these are known; the fields and the message tell the same place, and the place is that of the culprit. Formatting is applied only when there are parameters.",
  ["inputs", "programs"], "all kinds of mistakes in all places with all source names, all sequences of description tokens up to a depth, small grammars with all texts, all lists of layer commands up to a length bound",
  "There are dozens of error sites and each meets arbitrary names, contents and source names; tests compare codes only.",
  ["llx.go", "langdef/errors.go", "parser/errors.go", "lexer/lexer.go", "parser/layers/common/errors.go"], [("constructors", "llx.go: NewError, FormatError, FormatErrorPos"), ("messages", "langdef/errors.go, parser/errors.go, parser/layers/common/errors.go")],
  "exhaustive enumeration of mistakes, texts and names; every error checked against its own fields, the known place and the known culprit")
P("C40", "Independent compilations, parsers and trees do not affect each other",
  "The result of compiling a description, making a parser for a grammar, parsing a text, asking a parser about its tokens, building, changing, walking and querying a tree, reading with a lexer and working with sources depends on the arguments only. Any number of such operations may be performed in the same process one after another or at the same time, also with the same grammar, parser, lexer or selector and with sources of the same name: none of them changes the result of another one or a grammar, and none of them touches data of another one without synchronization.",
  ["schedules", "histories"], "all sequences of up to 3 [4] operations of a palette in one process, all pairs [triples] as the first ones in a fresh process, all schedules of two operations up to a bound of preemptions at every access to data reachable from package variables or shared values",
  "Caches, pools and buffers kept in package variables or shared values work as long as operations are alone and similar; tests run in one goroutine and never repeat a name with another meaning.",
  ["langdef/parser.go", "parser/parser.go", "tree/tree.go", "lexer/lexer.go", "source/source.go"], [("compilation without shared state", "langdef/parser.go: newParseContext, llxLexer"), ("creation of parsers", "parser/parser.go: New"), ("selectors and walkers", "tree/tree.go: Selector, Walker, NodeHook"), ("stateless lexer", "lexer/lexer.go: Lexer")],
  "enumeration of sequences and of schedules of instrumented code under the race detector; every result compared with the result of the same operation alone in a process of its own")

# properties that have a check; the others are listed as not applicable (not built)
BUILT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38 C39 C40".split()
NOT_APPLICABLE = {}
