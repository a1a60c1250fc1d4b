"""Writes properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

HL, PL, LN, MAIN = "cmd/tsgolint/headless.go", "cmd/tsgolint/payload.go", "internal/linter/linter.go", "cmd/tsgolint/main.go"

p("C01", "Headless output is a well-framed, correctly ended message stream",
"""Everything headless mode writes to standard output is a sequence of complete frames, each a 4-byte little-endian payload
length, one kind byte (0 error, 1 diagnostic, 2 timing) and exactly that many bytes of JSON of that kind's shape. An accepted
request ends with exit status 0, no error frame and every diagnostic delivered, followed by exactly one timing frame (the last
frame) if and only if timings were asked for; a refused request ends with a non-zero status, at most one error frame and no other frame.""",
["inputs", "schedules"], "every request (any number and size of diagnostics, any mix of flags), every interleaving of lint workers with the writer",
"e2e snapshots decode a few streams; they cannot cover volumes around the buffer limits, worker/writer interleavings or refused requests",
[HL], [("runHeadless collector goroutine, writeMessage", HL)], [("diagnosticsChan", "diagnostics on their way to stdout", HL)], ["stdout, exit status of `tsgolint headless`"])

p("C02", "Requests are decoded by version, and both versions mean the same",
"""A request whose version is absent or 0 is read as the V1 format and one whose version is 2 as the V2 format; a V1 request has
exactly the effect of the V2 request that lists each of its files with its rule names and no options. Any other version, malformed
JSON, a field of the wrong type, or a V1 request without files is refused before any file is linted, with an error message that
says which of these it was.""",
["inputs"], "every request document: versions, shapes, duplicated and missing fields",
"no test covers payload decoding in the buildable set; headless tests sample two payloads",
[PL], [("deserializePayload", PL)], observe=["stdout frames and exit status of `tsgolint headless`"])

p("C03", "Each file is linted with exactly the rules and options configured for it",
"""For a request, the rule diagnostics of a requested file are exactly those that its configured rules, each with its configured
options, report on that file; when a file is listed by several configuration entries the last entry alone counts. No rule diagnostic
is produced for a file that was not requested or by a rule not configured for that file, and the result for a file does not depend on which
other files and entries are grouped with it in the request.""",
["configurations", "inputs"], "every assignment of rules and options to files over any number of entries and projects",
"tests run one rule on one file; the mapping over batches is never asserted",
[HL, LN], [("fileConfigs, GetRulesForFile", HL), ("RunLinterOnProgram rule loop", LN)], [("fileConfigs", "file path -> rules", HL)], ["diagnostic frames"])

p("C04", "Results do not depend on scheduling, worker count or file order",
"""For a fixed request and fixed file contents the collection of diagnostics delivered (as a multiset of file, rule, message, range,
fixes) is the same on every run, for every number of worker threads, every interleaving, and every order in which files and
configuration entries are listed, including files that belong to no project.""",
["schedules", "configurations"], "all interleavings, GOMAXPROCS values, orders of files in the request, map iteration orders",
"a test run sees one schedule and one map order; divergence needs particular files sharing global declarations",
[HL, LN, "internal/utils/find_tsconfig.go", "internal/utils/host.go"], [("worker pool", LN), ("workload construction", HL)], observe=["diagnostic frames"])

p("C05", "Output flags add edits or timings and never change what is reported",
"""Asking for fixes, suggestions, timings or debug logging never changes which diagnostics (file, rule, message, range, labels) are
reported. Fixes are present in the output only when fixes were asked for and suggestions only when suggestions were asked for, and a
given diagnostic then carries the same edits whichever other flags are set.""",
["configurations", "inputs"], "every combination of -fix, -fix-suggestions, -debug timings and log level over every program",
"tests use one flag combination; the two report paths (timed and untimed) are separate code that is never compared",
[LN, HL], [("ruleContextBuilder report functions", LN), ("timed/untimed loops", LN)], observe=["diagnostic frames", "rule callbacks"])

p("C06", "TypeScript errors of requested files are reported exactly when asked for",
"""With syntactic (semantic) reporting requested, exactly the syntax (type) errors the TypeScript compiler finds in the requested files are
reported, each once, with its code, text, range and file, regardless of which rules are configured; errors located in files
that were not requested are never reported. Without the respective request none are reported, and lint diagnostics are the same either way.""",
["configurations", "inputs"], "every combination of the two switches, file subsets, and programs with errors in requested and unrequested files",
"one or two samples assert codes; the cross product of switches, file subsets and multi-program layouts is not covered",
[LN, HL], [("reportTypeScriptDiagnostics", LN)], observe=["diagnostic frames of kind 1"])

p("C07", "Source overrides behave as if the file on disk had that content",
"""A request that overrides the contents (as decoded text, without byte order mark) of some existing files gives the same results as a request without overrides after those
contents have been written to disk, for the overridden files, for files that import them and for files that share globals with them.
Overrides never write to disk and do not affect any other file.""",
["inputs", "histories"], "every set of overridden files (linted or only imported), contents and projects",
"the unit test asks the overlay for one file; equivalence through module resolution, caching and several programs is never checked",
["cmd/tsgolint/overlayfs.go", HL, "internal/utils/host.go"], [("newOverlayFS", "cmd/tsgolint/overlayfs.go"), ("cachedvfs layering", HL)], observe=["diagnostic frames"])

p("C08", "Rule timings count every rule invocation exactly once",
"""When timings are requested, the report has one entry for each rule that ran, whose call count is the number of files the rule was set up
on plus the number of node callbacks it received, summed over all files, workers and projects, and whose duration is the sum of those calls. Entries are
ordered by descending duration, ties by rule name; without the request nothing is measured or reported.""",
["schedules", "configurations"], "every workload split over workers and projects, repeated rules, merge orders",
"timing tests check one merge; lost or doubled counts need several workers, files and projects",
["internal/linter/timing.go", LN, HL], [("RuleTimingStore merge/Collect", "internal/linter/timing.go"), ("timed loop", LN)], observe=["timing frame", "Collect()"])

p("C09", "A broken project is reported and does not disturb other projects",
"""A project whose tsconfig is invalid yields at least one tsconfig diagnostic naming the config file at fault (with the compiler's explanation) and no other diagnostics for its
files, while files of all other projects, and files without a project, are linted exactly as if the broken project were not in the request; the
exit status is 0. When suppression of program diagnostics is switched on, a project with only option-level errors is linted normally and reports none of them.""",
["configurations", "inputs"], "every mix of valid projects and kinds of invalid project, with and without suppression",
"tests cover single invalid configs; isolation between projects is not asserted",
["internal/utils/create_program.go", LN], [("CreateProgram", "internal/utils/create_program.go"), ("RunLinter program loop", LN)], observe=["diagnostic frames", "exit status"])

p("C10", "Each file is assigned to the project an editor would use for it",
"""A file is assigned to the first project that contains it (lists it by files, or by include and not exclude) in a breadth-first search over the nearest enclosing config
(tsconfig.json, then jsconfig.json, of the file's directory, then outwards, not looking above a node_modules directory) and the projects it references in the order they are referenced, and, failing that, over each enclosing
config further out in the same way, no project being searched twice; a file contained in no such project has none. The assignment of a file is the same whatever other files are resolved with it, in parallel or alone.""",
["configurations", "schedules"], "every tree of tsconfig files with include/files/exclude, references (also cyclic or missing), composite and solution-search options, and every set of queried files",
"tests use three fixed layouts with one or two files",
["internal/utils/find_tsconfig.go"], [("findConfigWithReferences", "internal/utils/find_tsconfig.go"), ("FindTsConfigParallel", "internal/utils/find_tsconfig.go")], observe=["FindTsConfigParallel result", "FindTsconfigForFile result"])

p("C11", "Files without a project are linted once, with the default options",
"""Every requested file that belongs to no project is linted exactly once, in one shared program whose options are the documented defaults for inferred projects
(strict null checks and strict function types on, JavaScript allowed, JSX, ES2022 target), whether or not the same request also contains
files that belong to projects. Imports among such files and into project files resolve as usual.""",
["configurations", "inputs"], "every split of requested files into project files and project-less files",
"tests have one project-less file; combinations and the effective options are not asserted",
[LN, "internal/utils/create_program.go", HL], [("CreateInferredProjectProgram", "internal/utils/create_program.go"), ("UnmatchedFiles", HL)], observe=["diagnostic frames"])

p("C12", "Workers visit every file once, isolated from each other",
"""For any number of workers, type checkers and files, each file is visited by exactly one worker exactly once; all of a file's rules are set up, in configured order, before any
node callback, callbacks for one node event run in configured rule order, and no callback registered for one file ever runs on another. No type checker is used by two workers at the same time, and
every diagnostic carries the file and rule that were running when it was reported.""",
["schedules", "configurations"], "all interleavings of workers over checkers and files, all rule lists",
"tests use one file and one rule; leaks across files need a worker to process several files with different rules",
[LN], [("RunLinterOnProgram", LN), ("makeCheckerWorkloadQueue", LN)], [("registeredListeners", "per-worker callbacks of the current file", LN), ("checkerWorkload queue", "checkers and files still to process", LN)], ["rule Run/callback/diagnostic order"])

p("C13", "Traversal visits every syntax node exactly once, properly nested",
"""On every file each syntax node below the root is entered exactly once and left exactly once, children strictly between their parent's enter and exit and in source
order, including keys and defaults inside destructuring assignment targets. Array and object literals that are assignment targets are announced as patterns (as are the targets
nested in them) and all other array and object literals as non-patterns, each such announcement nested inside the node's own enter and exit.""",
["inputs"], "every syntax tree, in particular nested destructuring assignments",
"rule tests only see the nodes their rule listens to; skipped or doubled subtrees elsewhere go unnoticed",
[LN, "internal/rule/rule.go"], [("visitLintNodes", LN), ("ListenerOnExit/AllowPattern/NotAllowPattern", "internal/rule/rule.go")], observe=["listener call sequence"])

p("C14", "Applying fixes edits exactly the fixed ranges and never overlaps",
"""Applying a set of diagnostics with fixes to a text gives the text with each applied diagnostic's ranges replaced and everything else unchanged; a diagnostic is
applied whole or not at all. Diagnostics are considered in order of their first edit (then of their last edit's end), one is applied unless its first edit begins before the end of an already applied edit,
and the call returns exactly the diagnostics it did not apply and whether it changed anything.""",
["inputs"], "every text and every multiset of diagnostics with non-overlapping edits inside each diagnostic, in every input order",
"no unit test; rule tests see single fixes",
["internal/linter/source_code_fixer.go"], [("ApplyRuleFixes", "internal/linter/source_code_fixer.go")], observe=["ApplyRuleFixes results"])

p("C15", "Layered file systems answer from the overlay and otherwise pass through",
"""For every path, a layered file system says an overlaid file exists and reads exactly its overlaid content (also when empty), and for every other path and every
other operation (directory listing, metadata, symlink resolution, writes, removals, walking, case sensitivity) answers exactly what the underlying file system answers, with the same arguments. The
virtual-file layer used for generated configs additionally shows its files' directories as existing and lists its files in them.""",
["inputs", "histories"], "every sequence of operations on overlaid and other paths",
"one test reads two paths; pass-through of the other operations is never exercised",
["cmd/tsgolint/overlayfs.go", "internal/utils/overlay_vfs.go"], [("overlayFS", "cmd/tsgolint/overlayfs.go"), ("OverlayVFS", "internal/utils/overlay_vfs.go")], observe=["results of each file-system operation"])

p("C16", "Shared parsed files are never stale and never mixed up",
"""Asking a compiler host for a file always yields a parse of that file's current text, as the host's file system shows it, under the requested parse options and the language its name implies, or nothing if it does not exist;
two requests that agree on path, options, text and language receive the same parse and requests that differ in any of these never share one. This holds for concurrent requests and for hosts of different projects.""",
["histories", "schedules"], "every history of edits and requests by several hosts, concurrent requests",
"no test covers the process-wide cache",
["internal/utils/host.go"], [("sourceFileCache", "internal/utils/host.go")], [("sourceFileCache", "process-wide parsed files", "internal/utils/host.go")], ["GetSourceFile results"])

p("C17", "Breadth-first search visits in level order and returns the first match's path",
"""The search visits each reachable node at most once, in breadth-first order with neighbours in the given order, never visiting nodes the caller marked as visited or removed before their level;
it stops at the first node the visitor accepts as final and returns the path from it back to the start. If none is final it returns the path of the first non-final match, or none,
after visiting everything reachable.""",
["inputs"], "every graph (cycles, diamonds, missing nodes), every set of matches and stops, every pre-visited set",
"no unit test in this repository",
["internal/utils/bfs.go"], [("BreadthFirstSearch", "internal/utils/bfs.go")], observe=["visit order", "result path"])

p("C18", "Omitted rule options mean their documented defaults",
"""For every rule with options, running it with no options, with an empty options object, or with any subset of its options given explicitly at their documented default values reports the same
diagnostics; setting one option never changes the meaning of an option that was left out.""",
["configurations"], "every rule, every subset of its options",
"rule tests give a few option objects each; subsets and their equivalence are not compared",
["internal/rules/*/options.go", "internal/rules/*/schema.json", "internal/utils/utils.go"], [("UnmarshalOptions / UnmarshalJSON defaults", "internal/utils/utils.go")], observe=["diagnostics"])

p("C19", "The command line lints exactly the project's own files and counts every report",
"""The command line lints exactly the source files of the chosen project that lie under the directory of its tsconfig and not under node_modules, with every rule at its default options, prints each diagnostic exactly once
with its rule, message, file and 1-based line and column, shows the lines from the one before it to the one after it with its range underlined, and ends with the number of diagnostics and files. A missing or unusable tsconfig, or an unknown debug option, ends with a non-zero status and an explanation on standard error.""",
["configurations", "inputs"], "every project layout and every diagnostic position, including the first and last line",
"no test runs the command line entry point",
[MAIN], [("runMain", MAIN), ("printDiagnostic", MAIN)], observe=["stdout, stderr, exit status of `tsgolint`"])

p("C20", "Every reported range and edit lies inside its file and is well-formed",
"""For every program that the TypeScript compiler itself survives, also one with syntax or type errors, and every rule, linting ends without a crash, and every diagnostic, labelled range, fix and suggestion edit has 0 <= start <= end <= length of its file, with non-empty rule name and
message; the edits of one fix or one suggestion do not overlap.""",
["programs", "configurations"], "every program, every rule, every option set",
"rule tests check chosen programs; crashes and bad ranges appear on unusual syntax",
["internal/rules/*", "internal/utils/*"], [("TrimNodeTextRange", "internal/utils/utils.go")], observe=["diagnostic frames"])

p("C21", "Applying a rule's fixes gives a parseable program and reaches a fixed point",
"""Each fix or suggestion a rule offers, applied alone, and all its fixes that do not overlap, applied together, leave a program without new syntax errors; repeating lint-and-fix with that rule ends after finitely many rounds, without coming back to an earlier program, in one for which the rule offers no fix.
Where needless template literals, type assertions or comparisons with a boolean literal are nested in an expression, in any order and among other operators and calls, no-unnecessary-template-expression, no-unnecessary-type-assertion and no-unnecessary-boolean-literal-compare report each of them, and the rounds end in the expression with exactly those removed.""",
["programs"], "every program and every fixable rule",
"rule tests compare chosen outputs once",
["internal/rules/*", "internal/linter/source_code_fixer.go"], [("rule fix builders", "internal/rules/*"), ("ApplyRuleFixes", "internal/linter/source_code_fixer.go")], observe=["fixes in diagnostic frames"])

p("C22", "Switch exhaustiveness: reports exactly the missing members",
"""For a switch over a value of a union, enum, boolean or literal type, the exhaustiveness rule reports the switch if and only if some literal member has no case (and, depending on the options, no default counts as covering it), naming exactly the
missing members; it reports a redundant default exactly when the options forbid one and all members are covered, and a missing default on a non-exhaustible type exactly when the options require one. Its suggestion adds a case for exactly the missing members (or a default where that was missing).""",
["programs", "configurations"], "every union of literal members, every set of cases, default and every option combination",
"tests sample a few unions and options",
["internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go"], [("checkSwitchExhaustive", "internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go")], observe=["diagnostics"])

p("C23", "Floating promises: reported exactly when nothing handles the promise",
"""An expression statement whose value is a promise (or an array of promises, or, when thenables are checked, a thenable) is reported by the floating-promises rule if and only if nothing handles it: it is not awaited, returned, assigned, chained with a rejection handler
(second argument of then, or catch, or a handled promise under finally), discarded with void when that is allowed, nor an immediately invoked function or an allow-listed value where options permit. Conditional, logical and comma expressions are reported when a
branch whose value is used as the statement's value would be. A value wrapped in a type assertion or non-null assertion is outside the property.""",
["programs", "configurations"], "every nesting of handlers and operators over promise and non-promise values, every option combination",
"the large test file samples expression shapes; nesting and option interplay are unbounded",
["internal/rules/no_floating_promises/no_floating_promises.go", "internal/utils/ts_api_utils.go"], [("isUnhandledPromise", "internal/rules/no_floating_promises/no_floating_promises.go")], observe=["diagnostics"])

p("C24", "Boolean positions: a condition is reported exactly when its type is not allowed",
"""The strict-boolean rule reports an expression in a boolean position (conditions of if, while, do, for, conditional operator, operand of !, and non-final operands of && and ||) if and only if the kinds of values in its type (boolean, string, number, object, enum,
any, null/undefined, and nullable combinations) are not among those the options allow; the final operand of a logical expression is checked only when the whole expression is in a boolean position. Parts of mixed kinds that the rule's documentation does not list (bigint beside number, the callbacks of array predicates) are outside the property.""",
["programs", "configurations"], "every type built from the listed kinds, every boolean position, every option combination",
"tests sample types and options",
["internal/rules/strict_boolean_expressions/strict_boolean_expressions.go"], [("checkCondition / classification of type parts", "internal/rules/strict_boolean_expressions/strict_boolean_expressions.go")], observe=["diagnostics"])

p("C25", "Operator operand rules accept exactly the allowed operand types",
"""The plus-operand, template-expression and unary-minus rules report an operand if and only if its type, taken constituent by constituent of a union, is not of an accepted kind for that operator under the given options (number, bigint, string always accepted where the
operator is defined on them; any, boolean, nullish, regexp, arrays, never and mixed number/string only when the option allows), and a plus between two accepted but different kinds is reported as a mismatch unless mixing is allowed. void and branded numbers are outside the property.""",
["programs", "configurations"], "every pair of operand types and every option combination",
"tests sample pairs and options",
["internal/rules/restrict_plus_operands/restrict_plus_operands.go", "internal/rules/restrict_template_expressions/restrict_template_expressions.go", "internal/rules/no_unsafe_unary_minus/no_unsafe_unary_minus.go"],
[("rule Run", "internal/rules/restrict_plus_operands/restrict_plus_operands.go")], observe=["diagnostics"])

p("C26", "Unsafe-any rules report exactly the flows of any into typed code",
"""A value of type any is reported by the unsafe-any rules when it is called, constructed or used as a template tag, when a member of it is accessed (of accesses made directly on one another only the first), when it indexes, when it is assigned or bound to anything but a target of type unknown, passed as an argument for a parameter
that is neither any nor unknown, spread into an array or a call, and when it is returned, unless the function declares any or unknown. A generic type is reported when it flows to the same generic type and at some position any meets what is neither any nor unknown; different generics, unions and anonymous types are not compared.
A destructured part of type any is reported at the part. Nothing else is reported; a value flowing to a target declared unknown never is.""",
["programs"], "every source and target type over any, unknown, primitives and (nested) generics, every flow position",
"tests sample flows",
["internal/rules/no_unsafe_assignment/no_unsafe_assignment.go", "internal/rules/no_unsafe_argument/no_unsafe_argument.go", "internal/rules/no_unsafe_return/no_unsafe_return.go", "internal/rules/no_unsafe_call/no_unsafe_call.go", "internal/rules/no_unsafe_member_access/no_unsafe_member_access.go", "internal/utils/utils.go"],
[("IsUnsafeAssignment", "internal/utils/ts_eslint.go")], observe=["diagnostics"])

p("C27", "Type constituents: duplicates and absorbed members are reported exactly",
"""In a union or intersection type (members of the same kind nested in it counting as its own, redundant parentheses not mattering), a member is reported as a duplicate if and only if an earlier member of the same union or intersection denotes the same type (with the options' exemptions; an optional parameter's own undefined counts as a member), and a member is reported as redundant if and only if
another member of the same union or intersection absorbs it (any, unknown, never outside return types, or a literal beside its primitive). Applying the fixes leaves a type with the same remaining members in the same order.""",
["programs", "configurations"], "every list of members with nesting, unions and intersections",
"tests sample lists",
["internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go", "internal/rules/no_redundant_type_constituents/no_redundant_type_constituents.go"], [("rule Run", "internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go")], observe=["diagnostics", "fixes"])

p("C28", "Await, return-await and async rules agree with the types involved",
"""await (and for await, and await using) on a value that can never be a thenable is reported, and on one that may be is not; a function is asked to be async exactly when it can return a promise under the options and is not already async; an async function without await is reported exactly when it neither
awaits nor returns a thenable; returning an awaited or unawaited promise is reported exactly when the option in force for that position (inside or outside try/catch/finally) says so. Interfaces that inherit from several bases with different then members are outside the property.""",
["programs", "configurations"], "every function shape, returned type, nesting of try statements and option",
"tests sample shapes",
["internal/rules/await_thenable/await_thenable.go", "internal/rules/return_await/return_await.go", "internal/rules/require_await/require_await.go", "internal/rules/promise_function_async/promise_function_async.go"], [("rule Run", "internal/rules/return_await/return_await.go")], observe=["diagnostics"])

p("C29", "Class member mutability: private members never reassigned are reported",
"""A private class member (a #name, or one declared private, including parameter properties) is reported as could-be-readonly if and only if it is not already readonly and nothing outside the body of its constructor (functions and classes nested in the constructor being outside) assigns it or a part bound to it, increments, deletes or destructures into it through a named access; with
the inline-lambda-only option, only members initialised to functions are considered. Writes through computed access are outside the property.""",
["programs", "configurations"], "every class with members and any combination of uses in constructors, methods, nested functions and nested classes",
"tests sample uses",
["internal/rules/prefer_readonly/prefer_readonly.go"], [("class scope tracking", "internal/rules/prefer_readonly/prefer_readonly.go")], observe=["diagnostics"])

p("C30", "Thrown and rejected values must be errors",
"""throw and promise rejection are reported if and only if the value's type is not an Error (or subclass, or an allow-listed type), with any, unknown and rethrown caught values accepted exactly when the options say so; unions are accepted only if every member is, and conditional, logical and sequence expressions are judged by
the values they can produce. Mapped forms such as Readonly<Error> are outside the property.""",
["programs", "configurations"], "every thrown or rejected expression shape and type, every option",
"tests sample shapes",
["internal/rules/only_throw_error/only_throw_error.go", "internal/rules/prefer_promise_reject_errors/prefer_promise_reject_errors.go", "internal/utils/builtin_symbol_likes.go"], [("IsErrorLike", "internal/utils/builtin_symbol_likes.go")], observe=["diagnostics"])

p("C31", "Allow-lists match exactly the types they name",
"""A type given in a rule's allow-list by name, by name and source (a local file, the TypeScript library, or a package), matches a value's type if and only if the type, or for unions and intersections the documented combination of its members, has that name and is declared in that source. The template rule also accepts subtypes of what is listed; an instantiation under an alias of another name goes by the alias.""",
["configurations", "programs"], "every specifier form, name list and declaration site",
"tests sample specifiers",
["internal/utils/type_matches_specifier.go"], [("TypeMatchesSpecifier", "internal/utils/type_matches_specifier.go")], observe=["diagnostics of rules with allow lists"])

p("C32", "Optional-chain rewrites preserve the value of the condition",
"""Take a condition over successive properties of one object (a, a.b, a.b.c ..) made of guards joined by &&, or of negated guards joined by ||, each testing a link for truth or comparing it loosely with null or undefined, and a last operand that looks at the end of the path or calls it. Every fix or suggestion of prefer-optional-chain gives, for every runtime value that the declared types allow and for which the original does not throw,
an expression that does not throw, is truthy exactly when the original was, has the same value whenever it is truthy, and makes the same calls (for || this concerns last operands that are negated or compared, other than with === null). When every link is guarded, in the same plain way, the whole condition is reported and folded into one chain if the last operand is, for &&, the plain value or a comparison (=== or == with a number, === null, !== undefined, != null),
or for || a negation or a comparison (!== or != with a number, === undefined, == null, !== null); a single guard followed by a comparison that a missing link would answer the other way (a && a.b !== 1, a == null || a.b === 1) is not reported.""",
["programs", "inputs"], "every chain of guards over nested properties and every assignment of runtime values",
"tests compare text output of chosen chains and never evaluate them",
["internal/rules/prefer_optional_chain/prefer_optional_chain.go"], [("chain analysis", "internal/rules/prefer_optional_chain/prefer_optional_chain.go")], observe=["diagnostics", "fixes"])

p("C33", "Enum rules follow enum identity and member kinds",
"""Each declaration of an enum with both string and number members is reported at its first member that disagrees with the kind established by the first member of the (possibly merged) enum, a member whose kind cannot be known ending the search in its declaration. Comparing with == and its relatives, or matching a switch case, is reported if and only if one side contains a number (string) enum's value, the other side consists of numbers (strings) only,
and the two sides share neither an enum nor a type; the suggestion replaces a literal by a member of the same value.""",
["programs"], "every sequence of member kinds over merged declarations; every pair of compared types",
"tests sample sequences",
["internal/rules/no_mixed_enums/no_mixed_enums.go", "internal/rules/no_unsafe_enum_comparison/no_unsafe_enum_comparison.go"], [("rule Run", "internal/rules/no_mixed_enums/no_mixed_enums.go")], observe=["diagnostics"])

p("C34", "What a rule says of a piece of code does not depend on the code around it",
"""A self-contained piece of a program (a namespace that refers to nothing outside it) gets the same rule diagnostics, fixes and suggestions, moved to where it stands, whatever other such pieces, comments and
blank lines stand before or after it in its file and whatever other files are linted with it: nothing a rule remembers while it walks through a file changes a later verdict. In particular the verdict on a
type that refers to itself or to others does not depend on which of them was met first.""",
["programs", "histories"], "every piece and every sequence of pieces; every family of types that refer to each other and every order of questions about them",
"rule tests lint one snippet per file; state left over by one construct shows only on a later one",
["internal/rules/*", LN], [("closures of Rule.Run", "internal/rules/*"), ("certaintyMemo", "internal/rules/no_base_to_string/no_base_to_string.go")],
[("per-file stacks and tables of the rules", "what a rule remembers during the walk", "internal/rules/*")], ["diagnostic frames"])

p("C35", "String method rewrites preserve the value",
"""A comparison of a string's first or last character, of indexOf, lastIndexOf, slice, substring or match with a literal or constant, or a test of a pattern, is reported by prefer-string-starts-ends-with or prefer-includes exactly
when it asks whether the string starts with, ends with or contains a non-empty needle (the pattern has no flags and no meta characters other than one anchor; with allowSingleElementEquality 'always' element
access is exempt), and the rewriting to startsWith, endsWith or includes has, negated or not and for every subject string, the same value as the original. A question that is off by one is not rewritten, and indexOf of another type is only replaced where it has an includes of the same parameters.""",
["programs", "inputs"], "every form of question, every needle, every subject string",
"fixtures compare the text of the fix; whether it means the same is a question about all subjects",
["internal/rules/prefer_includes", "internal/rules/prefer_string_starts_ends_with"], [("PreferIncludesRule", "internal/rules/prefer_includes/prefer_includes.go"), ("PreferStringStartsEndsWithRule", "internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go")],
[("pattern parsing, index arithmetic, fixes", "which questions are rewritten and into what", "internal/rules/prefer_string_starts_ends_with")], ["diagnostic frames", "values of the rewritten programs"])

p("C36", "Nullish coalescing is suggested exactly where it keeps the meaning of the test",
"""prefer-nullish-coalescing reports a || b and a ||= b, a ? a : b and !a ? b : a, and if (!a) a = b exactly when the type of a can be null or undefined (and no option exempts the place or the other members of the type), and a
conditional or an if statement that compares a with null or undefined and keeps or assigns a exactly when, for every value a's type allows, a ?? b or a ??= b means the same: both are asked for, one loosely, or the other cannot occur.
The suggested edit evaluates like the original on every such value, except for falsy values that are not nullish where the test was for truth.""",
["programs", "configurations", "inputs"], "every form of test, every operator, every order, every type of the value, every option",
"fixtures compare texts; whether both mean the same is a question about every value of the type",
["internal/rules/prefer_nullish_coalescing"], [("PreferNullishCoalescingRule", "internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go")],
[("tests are taken apart into operands and operators", "which tests are reported and what replaces them", "internal/rules/prefer_nullish_coalescing")], ["diagnostic frames", "values of the rewritten programs"])

p("C37", "Needless conversions are exactly the identities",
"""no-unnecessary-type-conversion reports String(x), x.toString(), x + '', '' + x, x += '', Number(x), +x, ~~x, Boolean(x), !!x and BigInt(x), also one inside the other, exactly when the conversion gives every value that the type of x allows back
(as the type tells: ~~ only for literal integers of 32 bits; toString on an enum, and functions of other meanings with those names, are exempt). Taking the conversion out, or asserting the type in its place as the suggestions do, leaves a program that parses and evaluates like the original on every such value, wherever the conversion stands.""",
["programs", "inputs"], "every conversion, every type of the operand, every nesting, every place in a program",
"fixtures compare texts; whether a conversion is the identity is a question about every value of the type, and whether the edit still parses one about every place",
["internal/rules/no_unnecessary_type_conversion"], [("NoUnnecessaryTypeConversionRule", "internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go")],
[("verdict from the constituents of a type; edits put operands into other places", "which conversions are reported and what replaces them", "internal/rules/no_unnecessary_type_conversion")], ["diagnostic frames", "values of the rewritten programs"])

p("C38", "Array idioms are judged by what the value is and where it is taken from",
"""filter(...) followed by [i] or at(i) is reported by prefer-find exactly when the filtered value is an array (or union of arrays, perhaps nullable) and i is a literal, a constant or a sign in front of one that names the first element ('0' as a property name for [i], an integer part of zero or NaN for at);
through parentheses, commas and conditionals of which both branches are such filters, and the suggested find has the original's value for every array and predicate. require-array-sort-compare reports sort() and toSorted() without arguments exactly on arrays and unions of arrays
(other than a single array or tuple of strings, unless ignoreStringArrays is off), no-array-delete reports delete of an element exactly there, its splice removing exactly that element, and no-for-in-array reports for-in over what may be array-like.""",
["programs", "configurations", "inputs"], "every type of the value, every way to write the index, every array and predicate",
"fixtures sample some indices and types; whether an index is the first is a question of evaluation",
["internal/rules/prefer_find", "internal/rules/no_array_delete", "internal/rules/require_array_sort_compare", "internal/rules/no_for_in_array"],
[("PreferFindRule", "internal/rules/prefer_find/prefer_find.go"), ("NoArrayDeleteRule", "internal/rules/no_array_delete/no_array_delete.go"), ("RequireArraySortCompareRule", "internal/rules/require_array_sort_compare/require_array_sort_compare.go"), ("NoForInArrayRule", "internal/rules/no_for_in_array/no_for_in_array.go")],
[("static evaluation, tests of types", "which idioms are reported and what replaces them", "internal/rules/prefer_find")], ["diagnostic frames", "values of the rewritten programs"])

p("C39", "Conditions are called unnecessary exactly when the types decide them",
"""With strict null checks, no-unnecessary-condition reports a condition (of if, while, do, for and ?:, or an operand of && and ||, or the left side of ||= and &&=, below any number of negations) as always true or always false exactly when every value its type allows is truthy, or falsy, respectively;
?? and ??= as never or always nullish exactly when no value, or every value, is null or undefined; a comparison exactly when both sides are single literals or one side is null or undefined and no value of the other can equal it; and ?. exactly when what stands before it cannot be null or undefined where it is
evaluated, that is, after the links before it have not ended the chain (elements in front of it aside). The predicate of an array method is reported likewise if what it returns is decided, and with checkTypePredicates the argument of a type guard exactly when its type is the guard's already. any, unknown, type parameters without constraint and elements of arrays are never decided, and constant loop conditions are exempt as configured.""",
["programs", "configurations", "inputs"], "every type, every place, every nesting of negations and operators, every chain",
"fixtures sample types; whether a type decides a condition is a question about all its values",
["internal/rules/no_unnecessary_condition"], [("NoUnnecessaryConditionRule", "internal/rules/no_unnecessary_condition/no_unnecessary_condition.go")],
[("truthiness and nullishness from types, through chains", "which conditions are reported", "internal/rules/no_unnecessary_condition")], ["diagnostic frames"])

p("C40", "A function is reported for its returns exactly when they disagree",
"""consistent-return reports a return statement exactly when the first counting return of the same function (not of one inside or around it) has a value and this one has none, or the other way round; and a function as a whole, once, exactly when all its counting returns have a value and its end can be reached.
A return without a value does not count in a function that may return void (or, if asynchronous, a promise of it), whose end need not be unreachable either; return undefined counts as one without a value exactly under treatUndefinedAsUnspecified. The message names the function meant.
So a function without reports always ends in one way: with a value, or without. This holds whatever the statements around the returns are (branches, loops, try, switch, labels) and however functions are nested.""",
["programs", "configurations"], "every function: every nesting of statements and functions, every order of returns",
"fixtures sample some twenty functions; which returns belong to which function and whether its end is reached are questions about every control flow",
["internal/rules/consistent_return"], [("ConsistentReturnRule", "internal/rules/consistent_return/consistent_return.go")],
[("stack of open functions, first return, end reachability", "which returns and functions are reported", "internal/rules/consistent_return")], ["diagnostic frames"])

p("C41", "Expressions that give nothing are reported exactly where their value goes somewhere",
"""no-confusing-void-expression reports a call, tagged template or await of type void or undefined exactly when its value, carried outwards through parentheses, right operands of &&, || and ?? and branches of conditionals, ends anywhere but in an expression statement or left of a comma, with a message for the place (arrow body, last return, other return, elsewhere).
ignoreArrowShorthand exempts arrow bodies, ignoreVoidOperator operands of void (and makes every edit insert void), ignoreVoidReturningFunctions returns and arrow bodies of functions whose annotation, or else whose contextual type as a function expression, has a signature returning void.
The value of a return or arrow body is left out by a fix exactly when all of it is void or all of it is undefined. no-meaningless-void-operator reports void exactly when every value its operand can have is of type void or undefined (under checkNever also when there is none, with a suggestion).
Every fix and suggestion of both leaves a program that parses and does and returns the same for all inputs.""",
["programs", "configurations", "inputs"], "every wrapping of such an expression, every place, every setting, every run of the fixed program",
"fixtures sample some seventy programs and compare texts; where a value goes is a question about every nesting, and that an edited program does the same one about its runs",
["internal/rules/no_confusing_void_expression", "internal/rules/no_meaningless_void_operator"], [("NoConfusingVoidExpressionRule", "internal/rules/no_confusing_void_expression/no_confusing_void_expression.go"), ("NoMeaninglessVoidOperatorRule", "internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go")],
[("ancestors the value passes, types, edits", "which expressions are reported and what the edits leave", "internal/rules/no_confusing_void_expression")], ["diagnostic frames", "fixes", "suggestions"])

p("C42", "Functions whose result is dropped are reported exactly where a promise or a value is lost",
"""no-misused-promises reports a function handed to a place (annotated variable, assignment, property or method of an object literal, argument of a call or new, return, JSX attribute, member of a class or interface with heritage) exactly when no signature wanted there returns a thenable, some wanted signature returns void, and some result of the function is a thenable; each place has its message and its option, and the report is at the function's annotation, arrow or head, or else at the expression.
strict-void-return reports a function handed to a place all of whose wanted signatures return void (for arguments: some void and the others void, undefined, null, any or never) exactly when its results are not all void, undefined or never (or any, with allowReturnAny): async functions and generators as a whole, expression bodies at the body, annotated ones at the annotation, others at each return whose value is not of those types and none else.
Both go by the results of the function itself, not of functions nested in it; parentheses, aliases, overloads against unions and type arguments of base types make no difference; static members are not members of instances.""",
["programs", "configurations"], "every function and every place that wants one, every setting",
"fixtures sample some three hundred programs; the verdict is a relation of all results given and all signatures wanted",
["internal/rules/no_misused_promises", "internal/rules/strict_void_return"], [("NoMisusedPromisesRule", "internal/rules/no_misused_promises/no_misused_promises.go"), ("StrictVoidReturnRule", "internal/rules/strict_void_return/strict_void_return.go")],
[("signatures wanted, results given", "whether and where a function is reported", "internal/rules/no_misused_promises")], ["diagnostic frames"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
