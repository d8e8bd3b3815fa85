#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
  a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
  if observe: a['observe_at'] = observe
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a})

p('C01', 'Tokenizing a BUILD file neither loses, invents nor merges source text',
  'For every BUILD file content, the tokens handed out are non-overlapping slices of the file in file order, everything between two neighbouring tokens is only whitespace, comments or line continuations, and each token has the kind and the extent that the Starlark lexical rules give that text (longest match, keywords only as whole words, single-, triple-quoted and raw strings with their escapes). Looking ahead at a token never changes what is read next, a token is reported as first on its line exactly when a line break precedes it, and tokenizing always ends with an end-of-file token, also for binary garbage.',
  ['inputs'], 'Every byte string as file content; dense over all sequences of lexical elements with and without separators.',
  'scanner_test checks a fixed list of token sequences; the interactions of quotes, escapes, two-word operators, comments and file ends are unbounded.',
  ['bant/frontend/scanner.cc', 'bant/frontend/scanner.h'],
  [('Scanner::Next/Peek', 'bant/frontend/scanner.cc'), ('HandleString, HandleNumber, HandleIdentifierKeywordRawStringOrInvalid, ConsumeOptionalIn', 'bant/frontend/scanner.cc')])
p('C02', 'Any bytes in a BUILD file are handled without crash, hang or memory error',
  'Whatever bytes BUILD, source, workspace or configuration files contain, and whichever command with whichever options looks at them, the tool terminates without crash, sanitizer error, failed assertion or hang; expressions nested too deep are a parse error. Messages about a file name a file of the project and a position inside it. What is printed about other packages is the same as if a file that can not be parsed had not been there.',
  ['inputs', 'fault_sequences'], 'All byte strings as BUILD file content, and mutations (truncation, splicing, token deletion/duplication, byte flips) of valid projects, times all commands and options.',
  'Tests feed a dozen hand-written malformed inputs to the parser only and none to the commands.',
  ['bant/frontend/parser.cc', 'bant/frontend/parsed-project.cc', 'bant/frontend/elaboration.cc', 'bant/explore/query-utils.cc', 'bant/cli-commands.cc'],
  [('Parser error recovery', 'bant/frontend/parser.cc'), ('partial AST consumers', 'bant/explore/query-utils.cc, bant/frontend/elaboration.cc, bant/tool/dwyu.cc'), ('AddBuildFile error collection', 'bant/frontend/parsed-project.cc')])
p('C03', 'Parsing builds the structure the text means, and printing it parses back',
  'A syntactically valid BUILD file is parsed without error into exactly the structure it spells out: calls with positional and keyword arguments, lists, maps, tuples, comprehensions, ternaries, indexing, member access, unary operators, and binary operator chains grouped from the right (this parser documents that it has no precedence), with explicit parentheses respected and every string with its written content and quoting kind. Printing a parsed statement gives text that again parses without error, into the same structure with the same string contents.',
  ['programs'], 'All programs of the supported expression grammar, including nested combinations, all quoting styles, escapes, comments and layouts.',
  'parser_test compares a few dozen expressions; precedence and printing of nested combinations are only sampled.',
  ['bant/frontend/parser.cc', 'bant/frontend/print-visitor.cc', 'bant/frontend/ast.h', 'bant/frontend/ast.cc'],
  [('recursive descent', 'bant/frontend/parser.cc'), ('PrintVisitor', 'bant/frontend/print-visitor.cc'), ('StringScalar::FromLiteral', 'bant/frontend/ast.cc')])
p('C04', 'Reported source locations point at exactly the text they are about',
  'Every file:line:column or column range shown to the user (tokens, parse errors, findings, list-targets, print headers, reported includes) names the file the text is in and delimits, counted from line one and column one over the original bytes, exactly the text in question, and the surrounding line shown is exactly that whole source line. This holds regardless of blank lines, line endings, comments, continuation lines, multi-line strings and a missing final newline.',
  ['inputs'], 'All file contents and all sub-ranges of them that are reported.',
  'Tests check a few positions in regular files; line bookkeeping is spread over several skip loops that each have to notice line breaks.',
  ['bant/frontend/linecolumn-map.cc', 'bant/frontend/named-content.cc', 'bant/frontend/source-locator.cc', 'bant/frontend/scanner.cc'],
  [('LineColumnMap', 'bant/frontend/linecolumn-map.cc'), ('NamedLineIndexedContent::GetLocation/GetSurroundingLine', 'bant/frontend/named-content.cc'), ('line index filled while scanning', 'bant/frontend/scanner.cc')])
p('C05', 'Evaluating BUILD expressions preserves their Starlark value',
  'With evaluation enabled, variables are replaced by the value they have at that point, strings, lists and tuples are concatenated in the order written with nothing dropped, duplicated or altered in meaning (also raw and triple-quoted strings), glob() becomes the list of matching files and select() its default; expressions of these operations only become constants. Whatever can not be evaluated (unknown names, other operators and functions, methods, comprehensions) stays as written, with values of variables filled in but not those of loop variables, argument names, or names of members; a list of which a part is unknown may be reduced to the known part only if marked incomplete. Evaluation of one statement does not alter another, and evaluating twice gives the same as evaluating once.',
  ['programs', 'inputs'], 'All BUILD programs of assignments and rule calls over the supported operators, and all file trees for glob.',
  'elaboration_test covers about twenty expressions; the values depend on arbitrary combinations and on the file system.',
  ['bant/frontend/elaboration.cc', 'bant/frontend/ast.h'],
  [('SimpleElaborator', 'bant/frontend/elaboration.cc'), ('HandleGlob', 'bant/frontend/elaboration.cc')])
p('C06', 'Target labels parse to one canonical form and print back equivalently',
  'Every way to write a target label in a package (absolute, short without the target name, relative with or without colon, of an external project with or without version suffix, project shorthand, and @// for the main project) resolves to the same project, package path and target name as the documented label rules say, and text with several colons or with empty path components is rejected. The full printed form is canonical: it is the shortest, reads back to the same target, and two labels print the same if and only if they denote the same target. The form relative to a package is :name for targets of that package and the full form for all others (of the main project with @ in front in external projects), and reads back in that package as the same target. Files named in a package are reported below its directory.',
  ['inputs'], 'All label strings over all context packages.',
  'types-bazel_test has a table of examples; the equivalences range over all combinations of project, path, name and context.',
  ['bant/types-bazel.cc', 'bant/types-bazel.h'],
  [('BazelTarget::ParseFrom/ToString/ToStringRelativeTo', 'bant/types-bazel.cc'), ('BazelPackage::ParseFrom/QualifiedFile', 'bant/types-bazel.cc')])
p('C07', 'Target patterns and visibility match exactly the targets they denote',
  'A pattern given by the user (single target, :all, :*, /..., ..., with or without external project) matches a target if and only if bazel pattern semantics says so; in particular a recursive pattern matches a package and everything below it at path component boundaries and nothing in siblings that merely share a name prefix. A visibility entry (public, private, package, subpackages, or a target\'s package) allows exactly the packages it denotes, and a target is always visible in its own package.',
  ['inputs'], 'All patterns and visibility entries times all targets and packages.',
  'Tests sample a few patterns; the boundary cases are pairs of pattern and target.',
  ['bant/types-bazel.cc', 'bant/tool/dwyu.cc', 'bant/explore/query-utils.cc'],
  [('BazelPattern::ParseFrom/ParseVisibility/Match', 'bant/types-bazel.cc')])
p('C08', 'glob() selects exactly the files its patterns denote',
  'A glob with include and exclude patterns selects exactly those files below the package directory whose relative path matches some include and no exclude pattern, where * matches within one path component, ** as a component matches any number of directories (as last component: every file below) and every other character is literal. Pruning directories during the search never loses a matching file, the result is free of duplicates, and it does not depend on how the arguments are passed or on other globs.',
  ['inputs'], 'All include/exclude pattern lists times all file trees.',
  'glob-match-builder_test has a handful of patterns and paths; the language-versus-pruning agreement is over all pairs.',
  ['bant/util/glob-match-builder.cc', 'bant/frontend/elaboration.cc', 'bant/util/file-utils.cc'],
  [('GlobMatchBuilder', 'bant/util/glob-match-builder.cc'), ('MultiGlob', 'bant/frontend/elaboration.cc')])
p('C09', 'Every package of the project is found exactly once, whatever the tree',
  'Listing packages or targets with a pattern finds every directory at or below the place the pattern names that has a BUILD.bazel or BUILD file (BUILD.bazel takes precedence) exactly once, under the label of its directory, and nothing else: not what is outside of the pattern, in .git, .cache or _tmp directories or behind links to directories. Other directories with unusual names are ordinary, links to regular BUILD files count, dangling links and directories called BUILD do not. Symbolic links, link loops and unreadable directories or files never make it hang, crash, report duplicates or miss readable packages.',
  ['inputs', 'fault_sequences'], 'All directory trees with BUILD files, links and loops, and all patterns.',
  'file-utils_test uses one small fixed tree; tree shape and links are unbounded.',
  ['bant/util/file-utils.cc', 'bant/frontend/parsed-project.cc', 'bant/util/stat.cc'],
  [('CollectFilesRecursive', 'bant/util/file-utils.cc'), ('CollectBuildFiles/FillFromPattern', 'bant/frontend/parsed-project.cc')])
p('C10', 'The dependency graph is exactly the transitive closure of declared deps',
  'Starting from the targets of a pattern, following dependencies (deps and the target of aliases) up to the requested depth reaches exactly those targets that a walk over the declared dependencies reaches within that many steps, and the packages they are in; depends-on lists exactly the declared dependencies of each selected (with -r: reached) target, has-dependents exactly the targets that declare a dependency on a target of the pattern. Cycles, missing packages, missing targets, undeclared projects, different spellings of one label and the order of files never change the result or prevent termination.',
  ['inputs', 'configurations'], 'All target graphs (with cycles, dangling edges, several packages), patterns and recursion depths.',
  'dependency-graph_test has four small graphs; reachability at depth n is quantified over all graphs.',
  ['bant/explore/dependency-graph.cc', 'bant/cli-commands.cc', 'bant/explore/query-utils.cc'],
  [('BuildDependencyGraph', 'bant/explore/dependency-graph.cc'), ('FindAndParseMissingPackages', 'bant/explore/dependency-graph.cc'), ('PrintOneToN', 'bant/cli-commands.cc')])
p('C11', 'lib-headers maps every provided header to the libraries that provide it',
  'The header listing contains, for every library in the selected scope, each header it exports exactly under the path(s) by which sources can include it (package path, include directories, prefix stripping and adding rules, protobuf-generated header names), paired with every library exporting it, and nothing else. Aliased or proto libraries are attributed to the C++ library target that users must depend on.',
  ['inputs'], 'All projects with cc_library, cc_proto_library/proto_library, include path attributes, globs and multiple providers.',
  'header-providers_test has a few examples per attribute; combinations of attributes and packages are not covered.',
  ['bant/explore/header-providers.cc', 'bant/explore/query-utils.cc'],
  [('ExtractHeaderToLibMapping', 'bant/explore/header-providers.cc'), ('IterateCCLibraryHeaders, strip/add prefix', 'bant/explore/header-providers.cc')])
p('C12', 'genrule-outputs and aliased-by list exactly the declared pairs',
  'The genrule output listing pairs each declared output file of each genrule in scope, as path relative to the workspace, with its rule, and the alias listing pairs every aliased target with exactly the alias targets that point to it. No output or alias is lost, duplicated or attributed to another package, whatever the number of rules, packages and spellings of the labels.',
  ['inputs'], 'All projects with genrules and aliases in several packages.',
  'header-providers_test/aliased-by_test each have one or two projects.',
  ['bant/explore/header-providers.cc', 'bant/explore/aliased-by.cc'],
  [('ExtractGeneratedFromGenrule', 'bant/explore/header-providers.cc'), ('ExtractAliasedBy', 'bant/explore/aliased-by.cc')])
p('C13', 'Fuzzy header lookup returns only a best common path suffix',
  'Looking up an include path that no library provides verbatim returns a provider whose header path shares the longest sequence of trailing path components with it among all provided headers, never one that agrees in fewer components than required or only within a component. If the exact path is provided, exactly that one is returned, and if nothing shares enough components, nothing is.',
  ['inputs'], 'All sets of provided headers and all lookup paths.',
  'One small index is tested; longest-suffix search by ordered neighbours is wrong only for particular orderings.',
  ['bant/explore/header-providers.cc'],
  [('FindBySuffix', 'bant/explore/header-providers.cc')])
p('C14', 'Include extraction sees exactly the quoted includes a compiler would',
  'For C/C++ source text, the extracted includes are exactly the quoted includes that the preprocessor would see (in order, each with its exact location), i.e. not those in comments, string or raw string literals, and including those with unusual spacing, file names, on the first or last line, or next to comments and literals that contain quote characters, also when the file does not end in a newline. System includes and text that merely resembles an include are not reported. Conditionals are not evaluated.',
  ['inputs'], 'All source texts over includes, comments, spacing, conditionals and code.',
  'dwyu_test feeds one 40 line sample.',
  ['bant/tool/dwyu.cc'],
  [('ExtractCCIncludes', 'bant/tool/dwyu.cc')])
p('C15', 'dwyu never proposes to remove a dependency that is needed',
  "A removal is only proposed for a dependency about which everything is known (a library of known kind, not always linked, directly or through aliases), that is not marked with a keep comment (unless overridden), and none of whose headers is included by the target's own sources or headers unless the target keeps or gets another dependency for that header. If any source or include of the target can not be resolved, nothing is removed. Every dependency that is known, provides headers and is provably unused is proposed.",
  ['inputs', 'configurations'], 'All projects of C++ targets, sources, generated files, aliases, globs, and option settings.',
  'dwyu_test has some 30 scenarios; safety is over all combinations of provider kinds and uncertainty.',
  ['bant/tool/dwyu.cc', 'bant/tool/dwyu-internal.h'],
  [('DWYUGenerator::CreateEditsForTarget', 'bant/tool/dwyu.cc'), ('DependenciesNeededBySources', 'bant/tool/dwyu.cc')])
p('C16', 'dwyu adds exactly the missing, permitted dependency for each include',
  "For every include in a target's own sources that is provided by exactly one library it may depend on, and that it neither is nor already depends on (directly or through an alias), dwyu proposes to add that library. If there are several such libraries it reports the choice instead of adding one. It never proposes to add a target that is not visible, test-only for a non-test target (also through an alias), deprecated, the target itself, already a dependency, or that provides none of the included headers. Nothing is proposed twice.",
  ['inputs'], 'All projects of C++ targets with several providers, visibility rules, test-only and deprecation markings.',
  'dwyu_test checks single provider scenarios; alternatives and visibility interplay are combinatorial.',
  ['bant/tool/dwyu.cc'],
  [('DependenciesNeededBySources, CanSee, IsAlreadyProvided', 'bant/tool/dwyu.cc')])
p('C17', 'Applying dwyu output leaves nothing to do, and exit status tells so',
  'After applying all emitted edits to the BUILD files, running dwyu again proposes no further edits, unless the edits changed which packages are known to it. The exit status reports findings if and only if edits were emitted, emitted lines are valid buildozer commands in the syntax and quoting of a shell, each naming a target of the selected pattern and labels in the shortest correct relative form.',
  ['histories', 'inputs'], 'All projects in the dwyu domain; histories of run, apply, run.',
  'No test applies edits; convergence needs two coupled runs over arbitrary projects.',
  ['bant/tool/dwyu.cc', 'bant/tool/edit-callback.cc', 'bant/cli-commands.cc'],
  [('CreateDependencyEdits', 'bant/tool/dwyu.cc'), ('CreateBuildozerDepsEditCallback', 'bant/tool/edit-callback.cc'), ('exit code', 'bant/cli-commands.cc')])
p('C18', 'canonicalize proposes only equivalent, canonical respellings',
  'For each dependency label written in the deps of a matching rule that is not in canonical form (:name in the own package, otherwise the shortest full form), canonicalize emits exactly one rename from the label as written to the canonical label that denotes the same target in that package, as a command a shell and buildozer understand, and for labels already canonical it emits nothing. After applying the renames nothing remains to be canonicalized and the dependency graph is unchanged.',
  ['inputs', 'histories'], 'All label spellings in deps of all packages and projects.',
  'canon-targets has one small test; equivalence of spellings is over all labels and contexts.',
  ['bant/tool/canon-targets.cc', 'bant/types-bazel.cc'],
  [('CreateCanonicalizeEdits', 'bant/tool/canon-targets.cc')])
p('C19', 'Every output format carries the same rows, correctly encoded',
  'For any table of results, the CSV output parses with standard CSV quoting rules, the JSON output is one valid JSON object per row, and the s-expression and property-list outputs are well-formed Lisp data, each giving back exactly the original cell strings in the original rows, columns and order under the original headers; the plain table starts each column at the same position in all rows. No content of a cell can break the framing.',
  ['inputs'], 'All tables of strings (all bytes incl. quotes, separators, control and non-ASCII characters), all column counts, all formats.',
  'table-printer_test prints one table with tame cells.',
  ['bant/util/table-printer.cc', 'bant/util/table-printer.h'],
  [('TablePrinter implementations', 'bant/util/table-printer.cc')])
p('C20', 'External projects declared by the workspace are found at their right place',
  'Each external project that the workspace files declare (bazel_dep and http_archive, with version and repository name in any attribute order) and that has been fetched is listed under the name labels use, with its declared version and an existing directory: the one of the declared version first, then the unversioned, the overridden and any other version. Other fetched projects are found by their directory name. Label look-ups resolve a project name, with or without the at-sign, to exactly that directory. What is not declared and not there is not invented, and restricting the listing to a pattern gives exactly the projects that the selected rules and load statements refer to.',
  ['inputs', 'configurations'], 'All workspace/module files and all contents of the external directory.',
  'No test loads a workspace.',
  ['bant/workspace.cc', 'bant/workspace.h', 'bant/tool/workspace.cc'],
  [('LoadWorkspace, FindPathByProject, ParseFromDir', 'bant/workspace.cc'), ('CreateFilteredWorkspace', 'bant/tool/workspace.cc')])
p('C21', 'The command line does what its help says, with meaningful exit status',
  'The command line follows its help: options may be spelled joined, separate or clustered, commands abbreviated to any unique prefix; ambiguous or unknown commands and options, options without their argument, unknown formats, directories that can not be entered and outputs that can not be written are refused with a message on the error stream and a non-zero status. Primary output goes only to standard output or, unabridged and without terminal colors, to the file given with -o (replacing its content), diagnostics only to the error stream (none with -q); -C changes only where files are looked up. The exit status is the one of the command.',
  ['configurations', 'inputs'], 'All combinations and orders of documented options, command prefixes, patterns and output destinations.',
  'No test runs the executable.',
  ['bant/bant.cc', 'bant/cli-commands.cc', 'bant/session.h'],
  [('option parsing, main', 'bant/bant.cc'), ('RunCliCommand, command prefix match', 'bant/cli-commands.cc')])
p('C22', 'The file system pre-warm cache never changes any result',
  'Running any command with the pre-warm cache enabled, in whatever state cache file and directory are (absent, fresh, stale, truncated, corrupt, not writable, from another run), gives the same output, messages and exit status as running without it. The cache only ever reads the project, its file names each path once and only paths that were accessed, and a run never crashes, races or hangs on exit because of it.',
  ['histories', 'fault_sequences', 'schedules'], 'All histories of runs and project edits, and all cache file contents.',
  'There is no test of it; it is a background thread fed by a file from an earlier run.',
  ['bant/util/filesystem-prewarm-cache.cc', 'bant/util/file-utils.cc', 'bant/bant.cc'],
  [('FilesystemPrewarmCache', 'bant/util/filesystem-prewarm-cache.cc')])
p('C23', 'Arena memory and arena containers behave like ordinary containers',
  'Memory handed out by the arena is suitably sized, never overlaps other live allocations and stays valid and unmodified until the arena goes away, for any sequence of request sizes including ones larger than a block. A deque in the arena behaves for every sequence of appends, index accesses, mutable accesses and iterations like an ordinary sequence: same size, same elements in same order, and addresses of elements that never change.',
  ['histories', 'inputs'], 'All sequences of allocation sizes, block sizes, and container operations, for all element types and chunk-size configurations.',
  'arena-container_test pushes a fixed number of integers for one configuration.',
  ['bant/util/arena.h', 'bant/util/arena-container.h'],
  [('Arena::Alloc/New', 'bant/util/arena.h'), ('ArenaDeque', 'bant/util/arena-container.h')])
p('C24', 'Range and line lookups agree with a naive search',
  'The map from disjoint text ranges to their owners returns for every queried sub-range the one range that contains it and nothing for anything else, in whatever order ranges were inserted, including neighbouring ranges, single-element ranges and both ends. The line index reports for every position the line and column obtained by counting line breaks before it, and prints single positions, ranges within a line and ranges across lines in their documented forms.',
  ['inputs', 'histories'], 'All sets of disjoint ranges, insertion orders and queries; all texts and positions.',
  'Tests use three or four ranges and one text.',
  ['bant/util/disjoint-range-map.h', 'bant/frontend/linecolumn-map.cc', 'bant/frontend/source-locator.cc'],
  [('DisjointRangeMap', 'bant/util/disjoint-range-map.h'), ('LineColumnMap', 'bant/frontend/linecolumn-map.cc'), ('FileLocation/LineColumn printing', 'bant/frontend/source-locator.cc')])
p('C25', 'The compilation database lists every C++ source with usable flags',
  'The compilation database is a valid JSON array with one entry for each existing file in srcs and hdrs of each C++ target in scope, whose directory, file and arguments are strings that reproduce the file names exactly, including quotes, backslashes and blanks. The arguments hold the C++ options the .bazelrc gives for all builds (not those of comments or special configurations), the include directories of the direct and transitive dependencies and the directories of external projects these refer to; the flags listing gives the same.',
  ['inputs'], 'All projects with copts, defines, includes, external dependencies and odd characters.',
  'There is no test of the compilation database.',
  ['bant/tool/compilation-db.cc'],
  [('PrintCompilationDB, CollectIncDirs', 'bant/tool/compilation-db.cc')])
p('C26', 'The clang-tidy cache reruns what changed and reports what a fresh run would',
  "After any history of edits to sources, directly included headers, the tidy configuration, arguments and linter version, the cached lint run reports exactly the findings that linting every file afresh would report (each once, under the file's name relative to the project), with a summary counting them per check, and an exit status that tells whether there are any. It lints again every file whose path, content, directly included headers (matched by base name), configuration, arguments or linter version changed to a state not linted before, and every file with findings older than the compile setup; apart from those, none. This also holds after runs that were killed or interrupted, or in which the linter crashed.",
  ['histories', 'fault_sequences'], 'All histories of edits, reverts, header swaps, configuration changes, deletions and failing or interrupted linter runs.',
  'The script has no test at all.',
  ['scripts/run-clang-tidy-cached.cc'],
  [('ContentAddressedStore, FileGatherer, ClangTidyRunner', 'scripts/run-clang-tidy-cached.cc')])
p('C27', 'Rule queries see each target once with its own attributes',
  'Listing targets gives for every rule call with a name in the selected packages, and only for those, one row with its file location, rule kind and label, in file order and for every kind of rule. The attributes used from a rule (sources, headers, deps, visibility with the package default applied, test-only, deprecation) are those written in that rule or its package defaults, and never leak to or from another rule or package.',
  ['inputs', 'programs'], 'All BUILD files with any sequence of rule calls, nested values and package defaults.',
  'query-utils tests extract from one or two hand-written rules.',
  ['bant/explore/query-utils.cc', 'bant/explore/query-utils.h', 'bant/cli-commands.cc'],
  [('FindTargets/TargetFinder', 'bant/explore/query-utils.cc'), ('ExtractStringList', 'bant/explore/query-utils.cc')])
p('C28', 'print shows exactly the selected rules, grep and error filters included',
  'Printing with a pattern shows every rule the pattern matches (a recursive pattern: also unnamed ones) exactly once, in file order, with its location, label and visibility (its own or the package default) and a text with the same structure; with a grep expression exactly those in which the content of a string or an identifier (kind of rule, attribute name) matches, with the ignore-case option regardless of case; and with the errors-only filter exactly those in files with parse errors. Filters compose by conjunction and an invalid expression is an error and not an empty result; colouring the output changes nothing but the escape codes.',
  ['inputs', 'configurations'], 'All projects, patterns, regular expressions and filter combinations.',
  'No test exercises the print command.',
  ['bant/frontend/parsed-project.cc', 'bant/frontend/print-visitor.cc', 'bant/cli-commands.cc'],
  [('PrintProject', 'bant/frontend/parsed-project.cc'), ('PrintVisitor grep highlighting', 'bant/frontend/print-visitor.cc')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
    f.write(json.dumps(x) + '\n')
print(len(P))
