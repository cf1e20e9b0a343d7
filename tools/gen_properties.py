#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or [],hook_needed=hook)))

C='crates/jarl-core/src/'; L='crates/jarl-lsp/src/'; J='crates/jarl/src/'

p('C01','The server mirrors the editor buffer through any history of edits',
 "After any sequence of open and incremental change notifications, in any of the three position encodings, the text held by the language server is exactly the text in the editor's buffer, and its version is the last version announced. The changes of one notification are applied one after the other, each to the text left by the previous one, as the LSP specification requires; a change without a range replaces the whole text. A character offset past the end of a line means the end of that line (before its line terminator).",
 ['histories','inputs'],"every document (any Unicode text, LF or CRLF), every history of change batches, every encoding",
 "The unit tests apply one single-change batch to one ASCII line; nothing samples multi-change batches, insertions that move later changes, CRLF or non-BMP text.",
 [L+'document.rs',L+'session.rs'],[('apply_changes: batch application',L+'document.rs'),('position_to_offset',L+'document.rs')],
 ['TextDocument::content/version/line_count after each notification'],
 [dict(name='content, version, line_starts',meaning='mirrored buffer',where=L+'document.rs')])
p('C02','Positions and byte offsets convert consistently in every encoding',
 "For every character boundary of a document (a CRLF line end being one boundary, at its start), converting the byte offset to an editor position and back yields the same offset, in UTF-8, UTF-16 and UTF-32, and the position is the one the LSP specification defines (zero-based line, code units of the negotiated encoding before it on that line). The order of offsets is preserved, ranges are converted end by end, and offsets or lines outside the document are refused rather than mapped somewhere.",
 ['inputs','configurations'],"every text, every character boundary, every encoding",
 "Two fixed strings are tested; multi-line non-BMP text, CRLF, empty lines, trailing newline and all three encodings at every offset are not.",
 [L+'document.rs',L+'lint.rs'],[('offset_to_position / position_to_offset / range_of_text',L+'document.rs')],
 ['return values of the conversions'])
p('C03','A change that cannot be applied is refused whole and never crashes',
 "A change notification with any invalid member (a line past the end, a position inside a multi-unit character, an inverted range) is refused with an error, never a crash. The document then keeps its text, its version and its line structure, exactly as before that notification. Later valid notifications are applied as if the refused one had not been sent.",
 ['histories','fault_sequences'],"every document, every batch with an invalid member at any place in it",
 "No test sends an invalid change, let alone one in the middle of a batch.",
 [L+'document.rs'],[('validation before mutation in apply_changes',L+'document.rs')],['TextDocument state and result of the call'])
p('C04','Every outgoing client message is sent once, intact, with a unique id',
 "Each notification, request, response and error response the server sends reaches the client exactly once, in sending order, with its own method, parameters, id or error code; ids of server-initiated requests are never reused, also across clones and threads. The notice about hidden unused-function diagnostics is sent at most once per session, states the hidden count, and the call reports truthfully whether it was sent. A response from the client answers the pending request with its id, at most once, and clean-up drops exactly the requests older than the given age. Responses, known or unknown, late or repeated, and clean-up of old requests never disturb later messages.",
 ['histories','schedules'],"every sequence of client operations, spread over clones and threads",
 "The tests create a client and draw two ids; no message is ever inspected.",
 [L+'client.rs'],[('send_* functions, request_id_counter, unused_fn_threshold_notified',L+'client.rs')],['messages received on the channel'])
p('C05','The minimum R version is read from any DESCRIPTION file',
 "For any DESCRIPTION file, whatever its layout (field order, continuation lines, spacing around and inside the parentheses, other packages whose names start with R, CRLF), the R versions reported are exactly those of the `R (>= x)` requirements of the Depends field, in order. A requirement on R without a version yields none, and no text, however malformed, makes the reader crash.",
 ['inputs'],"every DESCRIPTION text",
 "Six fixed files are tested; the layouts R accepts and malformed files are not.",
 [C+'description.rs',C+'config.rs'],[('parse_dcf, extract_version_from_dependency',C+'description.rs')],['Description::get_depend_r_version'])
p('C06','Suppression comments are recognised exactly as documented',
 "A comment is a suppression directive exactly when it has the documented form: `#` and an optional space, `jarl-ignore` (nothing, `-file`, `-start`, `-end` or `-chunk`), a known rule name and, except for `-end`, a colon and a non-empty reason; it then denotes that kind and that rule, whatever the reason says and however the comment is indented. A directive that names no rule, names an unknown rule or gives no reason is classified as that mistake and never as a valid directive, and any other comment is not a directive. With the `#|` prefix only the chunk form is recognised.",
 ['inputs'],"every comment text",
 "A handful of comment texts appear in snapshot tests that are not run here; the space of prefixes, spacing, rule names and reasons is not sampled.",
 [C+'directive.rs'],[('parse_comment_directive',C+'directive.rs')],['parse_comment_directive'])
p('C07','The items of a chunk-suppression list are recognised exactly',
 "The header `#| jarl-ignore-chunk:` and its `#|   - rule: reason` items are recognised in every indentation; a valid item denotes exactly its rule, an item without a reason or with an unknown rule is classified as that mistake, and a line that is not a list item ends the list. No other comment is taken for a header or an item.",
 ['inputs'],"every comment text",
 "Only snapshot tests of complete documents mention the array form.",
 [C+'directive.rs'],[('is_quarto_chunk_array_header, parse_quarto_chunk_array_item',C+'directive.rs')],['both functions'])
p('C08','R chunks of a document are extracted exactly, and nothing else',
 "For every R Markdown or Quarto text, the extracted chunks are exactly the bodies of its closed, fenced, executable R chunks, in order: prose, display-only blocks, chunks of other engines and unclosed chunks yield nothing, and a fence is closed only by a fence of the same length. Each chunk's code is byte for byte the slice of the document at the reported offset, so a location in the chunk plus that offset is the location in the file.",
 ['inputs'],"every document text, fence length, indentation, label, line ending",
 "Fifteen fixed documents are tested; fence lengths, nested backticks, CRLF, indentation and engine names are not varied together.",
 [C+'rmd/extraction.rs',C+'check.rs'],[('extract_r_chunks, OPEN_FENCE',C+'rmd/extraction.rs')],['extract_r_chunks'])
p('C09','File types and displayed paths are decided by the path alone',
 "A path is treated as an R script exactly when its extension is `r` or `R`, and as R Markdown/Quarto exactly when it is `rmd`, `Rmd`, `qmd` or `Qmd`, whatever the rest of the path. Making a path absolute resolves `.` and `..` against the working directory and is idempotent; displaying a path relative to the working directory drops exactly that prefix, leaves paths outside it untouched, and never makes two different files share a displayed path.",
 ['inputs'],"every path, relative or absolute, inside or outside the working directory",
 "No unit test covers these functions; they decide which files are linted and how each is named in the output.",
 [C+'fs.rs'],[('has_r_extension, has_rmd_extension, normalize_path, relativize_path',C+'fs.rs')],['return values'])
p('C10','The rule registry is consistent with itself and its documentation',
 "Every rule has one unique name that resolves back to it, no other text resolves to a rule, and its categories, fix safety, default status, minimum R version and deprecation agree with the published rule list. Selecting by category, by default status or by fix status yields exactly the rules whose own metadata say so, category codes round-trip, and rule sets behave as the collections they were built from (membership, size, order, filtering).",
 ['inputs','configurations'],"every rule, every text offered as a rule or category name, every rule set",
 "No unit test reads the registry; snapshot tests select a few rules.",
 [C+'rule_set.rs'],[('declare_rules!, RuleSet',C+'rule_set.rs')],['Rule, RuleSet, Category API'])
p('C11','Exit codes and log levels map one-to-one onto their meaning',
 "The process exit code is 0 for a clean run, 1 when violations were reported and 255 when the run itself failed, and these three never coincide. Log level names accepted on the command line map to the level of that name and no other text is accepted; at each level exactly the program's own events of that severity or worse are written, and only to standard error.",
 ['inputs','configurations'],"every outcome, every level name, every (target, severity) of an event",
 "No unit test covers either mapping.",
 [J+'status.rs',J+'logging.rs'],[('ExitCode::from(ExitStatus)',J+'status.rs'),('LogLevel, init_logging',J+'logging.rs')],['exit status of a process, stderr/stdout of a process'])
p('C12','Source locations keep their row and column, order and serial form',
 "A location reports the row and column it was made with, orders by row and then column, and survives a JSON round trip; a message rendered with it shows exactly the text, the row and the column. A syntax-error message names exactly the file that failed to parse.",
 ['inputs'],"every row and column, every message, every path",
 "No unit test covers locations or the parse error.",
 [C+'location.rs',C+'error.rs'],[('Location, ParseError',C+'location.rs')],['API return values'])
p('C13','The Zed extension runs the right jarl binary for the platform',
 "The binary is chosen in a fixed order: the user's configured path, then the PATH, then the one already downloaded if it still exists, then the release asset for the platform, whose name, archive type and location inside the archive are those the release process publishes. A missing asset or failed download is reported as an error without touching the directory; a successful download keeps the new version and removes the other extension directories; user arguments replace the default `server` argument whichever way the binary was found, and the user's initialization options and settings reach the server unchanged.",
 ['histories','configurations','fault_sequences'],"every platform and version, every combination of settings, PATH, cache state and release assets, every history of restarts",
 "One test compares three (platform, version) pairs; the selection order, caching, clean-up and failures are never run.",
 ['editors/zed/src/lib.rs','dist-workspace.toml'],[('language_server_binary, GithubReleaseDetails::new',"editors/zed/src/lib.rs")],['command returned to the editor; directory contents'])
p('C14','The developer task runner restores its environment and quotes commands',
 "Commands run with the arguments obtained by splitting on whitespace outside single quotes, in the innermost pushed directory, with the given standard input; success yields the output trimmed on both sides and failure (also a program that cannot be started, or output that is no UTF-8) an error naming the command; the command as `> command` and its output are shown when asked for, which is the default without standard input. After any nesting of pushed directories and environment variables has been left, the directory and every variable (set or unset) are what they were before. Recursive removal removes exactly the named file, link or directory and succeeds when there is nothing to remove; the other file helpers do what they name, and their errors name the path. The date is the UTC one, the project root is two levels above CARGO_MANIFEST_DIR, and generated code is what the stable toolchain's rustfmt (any other is refused) makes of the text, below a line saying it is generated.",
 ['inputs','histories'],"every command text, every nesting of pushes and pops, every directory tree",
 "The crate has no tests.",
 ['xtask/src/glue.rs','xtask/src/lib.rs'],[('run_process, shelx, Env, rm_rf','xtask/src/glue.rs')],['process arguments, working directory, environment, file system'])

# ---------------------------------------------------------------- whole linter
p('C20','No input makes the linter crash, hang or report outside the file',
 "For every R text, linting either reports a syntax error naming the file or returns diagnostics; it never crashes and always terminates. Every diagnostic lies inside the file on character boundaries, and its reported row and column are those of the start of its range.",
 ['inputs'],"every file content, valid R or not, any Unicode, LF or CRLF, every rule selection",
 "About 500 fixed snippets are tested, nearly all ASCII with LF; the rest of the language and of Unicode is not.",
 [C+'check.rs',C+'utils.rs',C+'analyze',C+'lints'],[('get_checks, compute_lints_location',C+'check.rs')],['diagnostics returned'])
p('C21','Applying fixes rewrites exactly the fixed ranges and nothing else',
 "The text after a fix pass is the original text in which the range of each applied fix is replaced by that fix's content and every other byte is kept, for any content, including non-ASCII text, and any number of fixes of any length. Fixes whose ranges overlap an applied one are left for a later pass, which the caller is told about; a file with nothing to fix is left byte for byte unchanged.",
 ['inputs','histories'],"every content, every set of fixes (nested, adjacent, overlapping, growing, shrinking, empty)",
 "Snapshot tests fix a few ASCII lines, one or two fixes at a time.",
 [C+'fix.rs',C+'check.rs'],[('apply_fixes',C+'fix.rs')],['returned text and skipped flag; file content'])
p('C22','Fixing ends with valid code that needs no further fixing',
 "For every parseable file, `--fix` terminates and leaves a file that still parses, has the same comments, and contains no violation that another `--fix` with the same options would repair. Running it again changes nothing.",
 ['inputs','histories'],"every parseable file, every rule selection, with and without unsafe fixes",
 "Snapshot tests look at one fix of one snippet; combinations of rules on one expression and repeated runs are not tested.",
 [C+'check.rs',C+'fix.rs',C+'lints'],[('lint_fix loop',C+'check.rs')],['file content after each run'])
p('C23','Exactly the fixes the user allowed are applied',
 "Without a fix option no file is ever written. With one (`--fix`, or `--unsafe-fixes` or `--fix-only`, which imply it), unsafe fixes are applied only with `--unsafe-fixes`; rules excluded by selection, by `unfixable`, or not listed in `fixable`, never change a file, `unfixable` taking precedence, and the others do; R Markdown and Quarto files are never modified by fixing.",
 ['inputs','configurations'],"every file, every combination of fix, unsafe, fix-only, selection, fixable and unfixable",
 "A few fixed combinations have snapshot tests that cannot be compiled here.",
 [C+'config.rs',C+'check.rs'],[('build_config rules_to_apply',C+'config.rs'),('fix filtering in get_checks',C+'check.rs')],['file content, which rules changed it'])
p('C24','A suppression comment hides its own rule in its own scope, and only that',
 "Adding a valid suppression removes exactly the diagnostics of the named rule that lie in its documented scope (the following block, the range between matching start and end, the whole file, the whole chunk), and no other diagnostic changes apart from moving with the text. A suppression that hides nothing is reported as outdated and one that does is not; misplaced, unexplained, unknown, blanket and unmatched directives suppress nothing and are reported.",
 ['inputs','programs'],"every program, every place a comment can stand, every rule",
 "Snapshot tests cover one comment and one or two statements at a time.",
 [C+'suppression.rs',C+'analyze/document.rs',C+'directive.rs'],[('SuppressionManager',C+'suppression.rs')],['diagnostics with and without the comment'])
p('C25','Each rule reports the same violations whatever other rules are enabled',
 "The diagnostics of a rule depend only on the file and that rule's options: selecting any set of rules yields exactly the union of what each of them reports alone (suppression-comment rules aside). Selection combines rules, groups, `ALL`, extension and ignoring as documented, from the command line or the configuration file, and rejects unknown names.",
 ['configurations','inputs'],"every file, every select / extend-select / ignore combination",
 "Tests select single rules or one or two fixed combinations.",
 [C+'config.rs',C+'analyze'],[('reconcile_rules, is_rule_enabled',C+'config.rs')],['diagnostics per rule set'])
p('C26','Layout and comments do not change what is reported',
 "Inserting blank lines, spaces between tokens (not around `::` and `:::`, and the same spaces around equal tokens), or ordinary comments between statements moves the diagnostics of a program but neither adds, removes nor alters any (only the fix may be withheld, when a comment now lies inside the code it would replace), and linting two files' text one after the other in one file reports the diagnostics of both (rules that look at a whole file, as unreachable_code and duplicated definitions do, aside).",
 ['programs'],"every program and every layout of it",
 "Each test fixes one layout.",
 [C+'analyze',C+'lints',C+'utils.rs'],[('text_trimmed_range and friends',C+'lints')],['diagnostics of both layouts'])
p('C27','Linting a chunk document equals linting its chunks',
 "The diagnostics of an R Markdown or Quarto file are those of each of its R chunks linted as a script, moved to their place in the file, except that a file-wide suppression in the first chunk holds for all chunks. Chunks that do not parse are skipped without affecting the others.",
 ['inputs'],"every document, every sequence of chunks",
 "Snapshot tests cover a few two-chunk documents.",
 [C+'check.rs',C+'rmd'],[('get_checks_rmd',C+'check.rs')],['diagnostics of the document and of its chunks'])
p('C28','Running jarl twice gives the same answer, whatever the scheduling',
 "The diagnostics, their order and the printed output are a function of the files, the options and the configuration: neither the order in which files are given or discovered, nor threads, nor hash seeds change them.",
 ['schedules','inputs','configurations'],"every set of files and options, every run",
 "Each snapshot is taken from one run.",
 [J+'commands/check.rs',C+'check.rs',C+'suppression.rs'],[('sorting of results','crates/jarl/src/commands/check.rs')],['output of repeated runs'])
p('C29','The exit code and every output format tell the same story',
 "The run exits 1 exactly when at least one violation remains, 255 when it failed, 0 otherwise; the JSON, GitHub, concise, full and statistics outputs report the same violations with the same rule, file and position, JSON output is always a valid JSON document, and statistics counts add up.",
 ['inputs','configurations'],"every set of files with and without violations, syntax errors, every output format",
 "Snapshots cover each format on one or two files.",
 [J+'commands/check.rs',J+'output_format.rs',J+'statistics.rs'],[('Emitter implementations',J+'output_format.rs')],['stdout, exit code'])
p('C30','Each file is governed by its nearest configuration file',
 "For every directory tree, each file is linted with the settings of the nearest `jarl.toml` (or `.jarl.toml`) in its own or an ancestor directory, else the user configuration, else the defaults; command-line options take precedence over any of them. An invalid configuration or unknown option is reported as an error and nothing is linted with it.",
 ['configurations'],"every tree of directories, configuration files and paths given on the command line",
 "A few fixed two-level trees have snapshot tests that cannot be compiled here.",
 [C+'discovery.rs',C+'toml.rs',J+'commands/check.rs'],[('discover_settings',C+'discovery.rs')],['diagnostics per file'])
p('C31','Exactly the documented files are checked',
 "The files checked are those given explicitly plus the R, R Markdown and Quarto files below the given directories that no exclude pattern (default, or of the file's nearest configuration) matches, itself or a folder it is in, and, if that configuration has include patterns, at least one of them matches. Patterns are those of `.gitignore`, relative to the configuration's folder. Each file is checked once, however many of the given paths lead to it.",
 ['configurations','inputs'],"every directory tree, every include and exclude pattern list, every list of paths",
 "A few fixed trees have snapshot tests.",
 [C+'discovery.rs'],[('discover_r_file_paths',C+'discovery.rs')],['set of files in the output'])
p('C32','Fixing never touches files the user could not recover',
 "With a fix option, no file is modified when any file to fix is outside version control (or ignored by it) or in a work tree with uncommitted changes, unless the matching permission option (`--allow-no-vcs`, `--allow-dirty`) is given; the refusal is an error that names the reason. Otherwise the fixes are applied.",
 ['configurations','fault_sequences'],"every state of the files with respect to version control, every combination of permission options",
 "A few fixed states have snapshot tests that cannot be compiled here.",
 [C+'vcs.rs',C+'check.rs'],[('check_version_control',C+'vcs.rs')],['file content and exit status'])
p('C33','Automatically added suppressions silence everything and change no code',
 "After `--add-jarl-ignore`, a new run on the same files reports none of the violations that were there (what is reported about suppression comments themselves aside), the files differ only by added comment lines, their code is unchanged, and a second `--add-jarl-ignore` changes nothing. The reason given by the user appears in each added comment; a reason with which the comments would hide nothing (empty, several lines) is refused and changes nothing. Files that cannot be checked or written are named, and the exit code then says so (255).",
 ['inputs','histories'],"every parseable file and document, every rule selection",
 "Snapshots cover a dozen placements.",
 [C+'suppression_edit.rs',J+'commands/check.rs'],[('create_suppression_edits',C+'suppression_edit.rs')],['file content and diagnostics before and after'])
p('C34','The editor shows the same violations, fixes and suppressions as the CLI',
 "For every document of an editor workspace, in every encoding, the diagnostics published on save are the violations `jarl check` reports for that file under the configuration it reports with for the same workspace, for the text as saved and with the unsaved texts of other open documents in place of those on disk, at the same places. Applying an offered quick fix gives the text the command line's fix of that violation would; an offered suppression comment (for a statement or an R Markdown chunk) silences that violation and changes no code.",
 ['inputs','configurations'],"every document, encoding, workspace, cursor range",
 "Fixed ASCII documents are tested, with UTF-8 positions only.",
 [L+'lint.rs',L+'server.rs',L+'utils.rs'],[('lint_document, generate_code_actions',L+'server.rs')],['messages sent to the client'])
p('C35','The language server answers every request and survives every message',
 "Every request receives exactly one response with its id, whatever its method or parameters; no message sequence, valid or malformed, stops the server before it is told to exit. When it has come to rest, the diagnostics an editor shows for an open document are those of the version last opened or saved, and those of a closed document are gone.",
 ['histories','fault_sequences'],"every sequence of client messages",
 "Tests send a handful of well-formed messages.",
 [L+'server.rs',L+'session.rs'],[('main_loop, handle_message',L+'server.rs')],['messages sent to the client'])
p('C36','Cross-file package checks see exactly the package',
 "In an R package, a top-level name assigned a function more than once across `R/` is reported at every definition after the first, and a function of `R/` is reported as unused exactly when none of the files of `R/`, `tests/`, `inst/tests/`, `inst/tinytest/` and `src/` uses its name, NAMESPACE does not export it (in any way of writing it), and it is neither skipped by option nor a hook or possible S3 method; one of a test directory exactly when that directory does not use it; outside packages neither is reported. The result depends neither on the order or selection of the linted files, nor on where the package is.",
 ['inputs','configurations'],"every package layout, set of definitions, uses and exports",
 "Fixed one- to three-file packages are tested.",
 [C+'package.rs',C+'lints/base/duplicated_function_definition',C+'lints/base/unused_function'],[('compute_package_analysis',C+'package.rs')],['diagnostics'])
p('C37','Version-restricted rules run only when the project allows them',
 "A rule that needs R version v reports something in a file only if the minimum R version of the file's project is known and at least v. That version is the one given with `--min-r-version`, otherwise the highest `R (>= x.y.z)` in the dependencies of the nearest DESCRIPTION above the file; a version on the command line that is not `x.y` or `x.y.z` is refused, and an unreadable DESCRIPTION stops nothing.",
 ['configurations'],"every version text, DESCRIPTION and command-line combination, every rule",
 "A few fixed versions are tested.",
 [C+'config.rs',C+'description.rs'],[('filter_rules_by_version, parse_r_version',C+'config.rs')],['rules applied'])
p('C38','Code reported as unreachable is never executed',
 "No statement that is executed on some path (conditions that are not constants may be either, loops may run any number of times) is reported as unreachable, in functions, at top level or in R Markdown chunks. Conversely, among the statements of a function, of branches and of loops, one after a `return()`, `break`, `next`, a function configured as stopping, or an if/else of which all branches end so, and a branch excluded by a constant condition (`TRUE`, `FALSE`, and what `&`, `|`, `&&`, `||` make of them), are reported once, with a message naming the kind of jump.",
 ['programs','configurations'],"every function body built from the control constructs of R, every list of stopping functions",
 "About sixty fixed functions are tested.",
 [C+'lints/base/unreachable_code'],[('control-flow graph',C+'lints/base/unreachable_code')],['diagnostics against the executions of an interpreter'])
p('C39','A safe fix rewrites exactly as documented and regroups nothing',
 "Each instance of the documented pattern of a rule with a fix is offered it. Applying the safe fix of a rule turns each instance of its documented pattern into the documented replacement, with the same operands, whatever the operands are and wherever the instance stands: neither an operand nor the surrounding expression is regrouped, and no operand or argument is lost, repeated or altered.",
 ['programs','inputs'],"every instance of a rule with a safe fix, every operand, every place an expression can stand",
 "Tests compare the text of a few instances with simple operands; they never parse the result to see what it now means.",
 [C+'lints'],[('fix of each rule',C+'lints')],['syntax tree of the program before and after the fix'])
p('C40','Documented violations are found wherever they occur',
 "Each documented violation pattern of a rule is reported, once, wherever an expression can occur (function bodies, arguments, loops, pipes, nested calls, default arguments) and however its operands look, and the documented compliant pattern is not.",
 ['programs'],"every expression context, every operand",
 "Tests place each pattern at top level with one or two operands.",
 [C+'analyze',C+'lints'],[('check_expression traversal',C+'analyze')],['diagnostics'])
p('C41','Options of rules mean what is documented, and only that',
 "For every rule with options, the list of functions it uses is the default one, the one given (`functions`, `skipped-functions`), or the default one and more (`extend-…`), matched by name with or without a package; giving both, unknown options, values of another type and unknown operators are refused. `--assignment` takes precedence over `[lint.assignment]` or `assignment = …`. With these sets, duplicated arguments, undesirable functions, assignments inside calls and conditions, and assignments with the other operator are reported exactly where they are, with a message that depends on nothing else; fixing the operator changes no assignment into an argument or a syntax error, or back.",
 ['inputs','configurations'],"every option table and command-line value, every nesting of calls, assignments and control flow",
 "Each option is tested with one list and one-line code.",
 [C+'rule_options',C+'toml.rs',C+'config.rs'],[('ResolvedRuleOptions::resolve, resolve_with_extend',C+'rule_options/mod.rs')],['diagnostics and fixed files'])
p('C42','Format strings, regular expressions and numbers are read as R reads them',
 "For every format string given to `sprintf()` with one or more other arguments, by name or position, `sprintf` reports what is wrong with it and only that: invalid specifications, or a number of arguments that differs from what the specifications use (`%%` uses none, each `*` one more, `n$` the nth); it says nothing about a count when `...` or an empty argument hides it. A call with nothing but a string without specifications is reported and becomes this string. `fixed_regex` reports a call of a regular expression function if and only if its pattern, matched by name and then position as R does, is a string with no special character and neither `fixed` nor `ignore.case` may be true; after the fix `fixed = TRUE` and every other argument has the value it had. `numeric_leading_zero` reports the numbers that start with a point, and the fix leaves their value.",
 ['inputs'],"every format, pattern and number, every way to give the arguments",
 "Each rule is tested with a dozen literals, in one order of arguments.",
 [C+'lints/base/sprintf',C+'lints/base/fixed_regex',C+'lints/base/numeric_leading_zero'],[('sprintf',C+'lints/base/sprintf/sprintf.rs'),('fixed_regex',C+'lints/base/fixed_regex/fixed_regex.rs')],['diagnostics and fixes'])
p('C43','The VS Code extension runs one server, from the binary the user chose',
 "Whatever the history of starts, stops and restarts of the VS Code extension (its activation, the `jarl.restart` command, its deactivation), requested at any moment, overlapping or failing: they are carried out one at a time in the order asked; there are never two servers at once; starting when started and stopping when stopped do nothing; a restart stops the current server, if any, and then launches a new one; a server that does not start or does not stop makes the request fail and leaves the extension stopped, able to start again; the client and binary it gives out are those of the running server, and none when stopped. Each launch runs `jarl server` from the binary that the settings of the root workspace folder (of several, the shortest path that exists, and the first of those) designate at that moment: the bundled one or else the one in PATH (`bundled`, the default), the one in PATH or else the bundled one (`environment`), or the existing file at `executablePath` (`path`); only the bundled one in a workspace that is not trusted; the request fails if there is none. The log settings sent are those of the user level only (`debug` by default), and the server is given the R, R Markdown and Quarto files on disk, and no files of other kinds.",
 ['histories','schedules','faults','configurations'],"every history of requests and failures, every workspace, every combination of settings",
 "The extension has no test of its session management; a test drives one history in one editor.",
 ['editors/code/src'],[('Lsp.startImpl, stopImpl, restartImpl','editors/code/src/lsp.ts'),('resolveJarlBinaryPath','editors/code/src/binary.ts'),('getRootWorkspaceFolder','editors/code/src/workspace.ts')],['launches and stops of servers, answers to requests'])
p('C44','The published schema of jarl.toml accepts what jarl reads, and nothing else',
 "For every configuration whose values are of the documented kinds of names: `artifacts/jarl.schema.json`, which editors use to complete and check `jarl.toml`, accepts it if and only if jarl reads it, whatever its keys, the types of its values, and the way its tables are written. Every documented option is read.",
 ['configurations'],"every set of keys and types, every way to write tables",
 "No test reads the schema, which is generated by hand.",
 ['artifacts/jarl.schema.json',C+'toml.rs',C+'rule_options'],[('LinterTomlOptions',C+'toml.rs')],['acceptance of configurations'])
p('C45','Warnings, notes and hints appear when they apply, and change nothing else',
 "In both human formats: a warning for each deprecated option that is used and, once, for each deprecated rule named on the command line or in a configuration in use; a note with the path of the only configuration in use when it lies outside the current folder; the hint at `--statistics` when there are more violations than its threshold; the time if and only if it is asked for; \"No R files found\" if and only if there are none. Timing, log level and threshold change neither the violations shown nor the exit code, and none of this is in JSON or GitHub output.",
 ['configurations','environments'],"every set of configurations, folder, path and option",
 "Snapshots hold one warning or note each.",
 [J+'commands/check.rs',J+'output_format.rs',C+'config.rs'],[('emit',J+'output_format.rs')],['output and exit code of a run'])
p('C46','Settings that jarl does not know are refused whole, and named',
 "If any list of rules on the command line or in a configuration in use holds a name that is neither a rule nor a group (in this case and spelling, blanks around aside), or another value, key or table is unknown or contradictory, the run prints nothing on standard output, changes no file whatever it was asked to do, exits with 255, and tells one of the places with exactly its unknown names or the path of the file. Otherwise it is accepted.",
 ['configurations'],"every set of lists, options and configurations, every action",
 "Tests hold one wrong name at a time.",
 [C+'config.rs',C+'toml.rs',J+'commands/check.rs'],[('build_config, get_invalid_rules',C+'config.rs')],['exit code, output and files of a run'])
p('C47','The message of a violation names what is there and what to write instead',
 "For every violation of a documented pattern, with any operands and wherever it occurs: the functions named in its message occur in the code reported or in the documented replacement; its help proposes functions of the documented replacement, and message or help mention every function and operator that the replacement brings; the code in both has closed quotes and brackets.",
 ['inputs'],"every documented pattern, operand and place",
 "Snapshots hold one message per pattern; most messages are put together from the code.",
 [C+'lints'],[('ViolationData::new',C+'diagnostic.rs')],['message and help of violations'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
