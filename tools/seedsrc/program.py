# Planted bugs in code that only the whole program shows.
P='program'
seed('version-by-part','C37','crates/jarl-core/src/config.rs',[("                            rule_min_version <= project_min_version","                            rule_min_version.0 <= project_min_version.0\n                                && rule_min_version.1 <= project_min_version.1\n                                && rule_min_version.2 <= project_min_version.2")],
 'a minimum R version whose major number is above a rule\'s and whose minor number is below, e.g. 5.0','rules that need R 4.5 are dropped for a project that needs R 5.0',P,'''
put("a.R", "grep('a', x, value = TRUE)\\n")
assert ("grepv", "a.R") in found(".", "--select", "grepv", "--min-r-version", "4.5")
assert ("grepv", "a.R") in found(".", "--select", "grepv", "--min-r-version", "5.0")
''')
seed('star-last','C29','crates/jarl/src/statistics.rs',[("        if diagnostic.has_safe_fix() && !hm.entry(rule_name).or_default().1 {\n            hm.entry(rule_name).or_default().1 = true;\n        }\n","        let fixable = diagnostic.has_safe_fix();\n        hm.entry(rule_name).and_modify(|seen| seen.1 = fixable);\n")],
 'a rule found twice, the last time in a place that cannot be fixed (a comment inside)','the star of the statistics is about the last violation only',P,'''
put("a.R", "any(is.na(x))\\nany(is.na(\\n  # why\\n  x))\\n")
code, out, err = jarl("check", ".", "--select", "any_is_na", "--statistics")
line = [l for l in out.splitlines() if "any_is_na" in l]
assert len(line) == 1 and "[*]" in line[0], out
''')
seed('dirty-first-repo','C32','crates/jarl-core/src/vcs.rs',[("    for (repo_path, _paths) in repo_to_paths {","    for (repo_path, _paths) in repo_to_paths.into_iter().take(1) {")],
 'files of two repositories in one call, the second one dirty','files of a dirty repository are overwritten',P,'''
import subprocess
def git(d, *a):
    subprocess.run(["git", "-C", d, "-c", "user.name=a", "-c", "user.email=a@b", *a], check=True, capture_output=True)
for d in ("a", "b"):
    put(d + "/x.R", "any(is.na(x))\\n")
    git(d, "init", "-q"); git(d, "add", "."); git(d, "commit", "-qm", "x")
put("b/x.R", "any(is.na(x)) # changed\\n")
jarl("check", "a/x.R", "b/x.R", "--fix")
assert get("b/x.R") == "any(is.na(x)) # changed\\n"
''')
seed('config-once','C30','crates/jarl-core/src/discovery.rs',[("    for path in &paths {\n        let mut found_config = false;\n\n        for ancestor","    let mut found_config = false;\n    for path in &paths {\n        for ancestor")],
 'two paths, the first one with a jarl.toml and the second one without, and a configuration of the user','the configuration of the user is not used for the second path',P,'''
put("home/jarl/jarl.toml", "[lint]\\nselect = ['any_is_na']\\n")
put("a/jarl.toml", "[lint]\\nselect = ['equals_na']\\n")
for d in ("a", "b"):
    put(d + "/" + d + ".R", "any(is.na(x))\\nx == NA\\n")
got = sorted(found("a", "b"))
assert got == [("any_is_na", "b.R"), ("equals_na", "a.R")], got
''')
seed('quick-look','C24','crates/jarl-core/src/suppression.rs',[('        if !source.contains("jarl-ignore") {','        if !source.contains("# jarl-ignore") {')],
 'suppression comments of a file that are all written without a space after the mark, or are all of chunks','such comments are not seen',P,'''
put("a.R", "#jarl-ignore any_is_na: because\\nany(is.na(x))\\n")
put("b.Rmd", "```{r}\\n#| jarl-ignore-chunk:\\n#|   - any_is_na: because\\nany(is.na(x))\\n```\\n")
got = found(".", "--select", "any_is_na")
assert got == [], got
''')
seed('hint-forgets-unsafe','C29','crates/jarl/src/output_format.rs',[('        } else if n_unsafe_fixes > 0 {\n            let label = if n_unsafe_fixes == 1 {','        } else if n_unsafe_fixes > 0 {\n            let label = if total == 1 {')],
 'exactly one unsafe fix, among several errors without any fix','the sentence about it is in the plural',P,'''
put("a.R", "f <- function(x) {\\n  return(1)\\n  x\\n}\\ng <- function(x) {\\n  return(2)\\n  x\\n}\\nx[grep('a', x)]\\nif (all.equal(x, y)) 1\\n")
code, out, err = jarl("check", ".", "--select", "unreachable_code,all_equal")
assert "1 fix is available" in out, out
''')
seed('json-short-errors','C29','crates/jarl/src/output_format.rs',[('error: format!("{:#}", err) })','error: format!("{}", err) })')],
 'JSON output, and a file that cannot be parsed','the errors do not say what failed',P,'''
import json
put("a.R", "x <- (\\n")
code, out, err = jarl("check", ".", "--output-format", "json")
errors = json.loads(out)["errors"]
assert len(errors) == 1 and "a.R" in errors[0]["file"] and "syntax" in errors[0]["error"], errors
''')
seed('chunk-file-ignored','C27','crates/jarl-core/src/check.rs',[("        if chunk_index > 0 {\n            for fs in","        if chunk_index > 1 {\n            for fs in")],
 'a comment about the whole file at the top of the second chunk','it silences the document instead of being reported as misplaced',P,'''
put("a.Rmd", "```{r}\\nany(is.na(y))\\n```\\n\\n```{r}\\n# jarl-ignore-file any_is_na: no\\nany(is.na(x))\\n```\\n")
got = found(".")
assert got.count(("any_is_na", "a.Rmd")) == 2, got
''')
seed('chunk-skips-rest','C27','crates/jarl-core/src/check.rs',[("        let Some(ChunkState { parsed, suppression, start_byte }) = state else {\n            continue;","        let Some(ChunkState { parsed, suppression, start_byte }) = state else {\n            break;")],
 'a chunk that is not R code, before another one','the chunks after it are not looked at',P,'''
put("a.Rmd", "```{r}\\nany(is.na(y))\\n```\\n\\n```{r}\\nx <- (\\n```\\n\\n```{r}\\nany(is.na(x))\\n```\\n")
got = found(".", "--select", "any_is_na")
assert len(got) == 2, got
''')
seed('fixable-lists','C23','crates/jarl-core/src/check.rs',[("            // If fixable is specified, only allow those rules to have fixes\n            if let Some(ref fixable_set) = config.fixable\n","            // If fixable is specified, only allow those rules to have fixes\n            if config.unfixable.is_empty()\n                && let Some(ref fixable_set) = config.fixable\n")],
 'a configuration with both `fixable` and `unfixable`','rules that are not in `fixable` are fixed',P,'''
put("jarl.toml", "[lint]\\nfixable = ['equals_na']\\nunfixable = ['all_equal']\\n")
put("a.R", "any(is.na(x))\\nx == NA\\n")
jarl("check", ".", "--fix", "--allow-no-vcs")
assert get("a.R") == "any(is.na(x))\\nis.na(x)\\n", get("a.R")
''')
seed('inst-is-tests','C36','crates/jarl-core/src/package.rs',[('                    && (next == "tinytest" || next == "tests")','                    && next == "tinytest"')],
 'a function of tests/ that is only called in inst/tests/, or the reverse','files of inst/tests/ count as files of tests/',P,'''
put("DESCRIPTION", "Package: p\\nVersion: 1\\n"); put("NAMESPACE", "export(f)\\n"); put("R/f.R", "f <- function() 1\\n")
put("tests/testthat/helper.R", "only_here <- function() 1\\n")
put("inst/tests/a.R", "only_here()\\n")
got = found(".", "--select", "unused_function")
assert ("unused_function", "helper.R") in got, got
''')
seed('hidden-nested','C30','crates/jarl-core/src/discovery.rs',[("        // Skip if this directory's config was already discovered\n        if already_found.contains(path) {","        // Skip if this directory's config was already discovered\n        if already_found.iter().any(|found| path.starts_with(found)) {")],
 'a directory with a jarl.toml inside another one, below the given path','only the outer one is used',P,'''
put("a/jarl.toml", "[lint]\\nselect = ['any_is_na']\\n")
put("a/b/jarl.toml", "[lint]\\nselect = ['equals_na']\\n")
put("a/b/b.R", "any(is.na(x))\\nx == NA\\n"); put("a/a.R", "any(is.na(x))\\nx == NA\\n")
got = sorted(found("."))
assert got == [("any_is_na", "a.R"), ("equals_na", "b.R")], got
''')
EDITOR = '''
import subprocess, json, os, time
class Editor:
    def __init__(self, root, encodings=None):
        self.p = subprocess.Popen([os.environ["JARL"], "server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.root, self.n, self.shown = os.path.abspath(root), 0, {}
        uri = "file://" + self.root
        general = {"positionEncodings": encodings} if encodings else {}
        self.ask("initialize", {"processId": None, "rootUri": uri, "workspaceFolders": [{"uri": uri, "name": "w"}], "capabilities": {"general": general, "textDocument": {"publishDiagnostics": {}, "codeAction": {}}}})
        self.say("initialized", {})
    def send(self, m):
        b = json.dumps({"jsonrpc": "2.0", **m}).encode()
        self.p.stdin.write(b"Content-Length: %d\\r\\n\\r\\n" % len(b) + b); self.p.stdin.flush()
    def read(self):
        n = 0
        while True:
            l = self.p.stdout.readline().strip()
            if not l: break
            if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
        m = json.loads(self.p.stdout.read(n))
        if m.get("method") == "textDocument/publishDiagnostics": self.shown[m["params"]["uri"]] = m["params"]["diagnostics"]
        return m
    def say(self, method, params): self.send({"method": method, "params": params})
    def ask(self, method, params):
        self.n += 1; self.send({"id": self.n, "method": method, "params": params})
        while True:
            m = self.read()
            if m.get("id") == self.n and "method" not in m: return m.get("result")
            if "id" in m and "method" in m: self.send({"id": m["id"], "result": None})
    def uri(self, f): return "file://" + os.path.join(self.root, f)
    def open(self, f, text=None):
        u = self.uri(f); self.shown.pop(u, None)
        self.say("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "r", "version": 1, "text": get(os.path.join(self.root, f)) if text is None else text}})
        self.say("textDocument/didSave", {"textDocument": {"uri": u}})
        while u not in self.shown: self.read()
        # what is shown in the end
        self.ask("textDocument/codeAction", {"textDocument": {"uri": u}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "context": {"diagnostics": []}})
        return self.shown[u]
    def actions(self, f, line, character):
        at = {"line": line, "character": character}
        return self.ask("textDocument/codeAction", {"textDocument": {"uri": self.uri(f)}, "range": {"start": at, "end": at}, "context": {"diagnostics": []}})
'''
seed('threshold-reached','C34','crates/jarl-lsp/src/lint.rs',[("            if total_unused > threshold {","            if total_unused >= threshold {")],
 'a package with exactly as many unused functions as the threshold','the editor hides what the command line reports',P,EDITOR+'''
put("jarl.toml", "[lint]\\nselect = ['CORR']\\n[lint.unused_function]\\nthreshold-ignore = 2\\n")
put("DESCRIPTION", "Package: p\\nVersion: 1\\n"); put("NAMESPACE", "")
put("R/f.R", "f <- function() 1\\ng <- function() 2\\n")
told = [n for n, _ in found(".")].count("unused_function")
e = Editor(".")
shown = e.open("R/f.R")
assert told == 2 and len(shown) == told, (told, shown)
''')
seed('only-first-settings','C34','crates/jarl-lsp/src/lint.rs',[("                .chain(linter.extend_select.iter())\n","                .chain(linter.extend_select.iter().filter(|_| linter.select.is_none()))\n")],
 'a configuration with both `select` and `extend-select`, the latter naming unused_function, above the threshold','the editor hides what the command line reports',P,EDITOR+'''
put("jarl.toml", "[lint]\\nselect = ['any_is_na']\\nextend-select = ['unused_function']\\n[lint.unused_function]\\nthreshold-ignore = 0\\n")
put("DESCRIPTION", "Package: p\\nVersion: 1\\n"); put("NAMESPACE", "")
put("R/f.R", "f <- function() 1\\n")
told = found(".")
assert told == [("unused_function", "f.R")], told
e = Editor(".")
shown = e.open("R/f.R")
assert len(shown) == 1, shown
''')
seed('utf32-as-utf16','C34','crates/jarl-lsp/src/lint.rs',[("        PositionEncoding::UTF16 => {\n            line_content.chars().map(|c| c.len_utf16()).sum::<usize>() as u32\n        }\n        PositionEncoding::UTF32 => line_content.chars().count() as u32,","        PositionEncoding::UTF16 | PositionEncoding::UTF32 => line_content.chars().count() as u32,")],
 'a violation that ends at the end of a file without a final newline, after a character outside the BMP on the same line','its end, and so the quick fix, is one unit too early',P,EDITOR+'''
put("a.R", 'x <- 1\\nany(is.na("\\U0001F600"))')
e = Editor(".")
shown = e.open("a.R")
assert [d["range"]["end"] for d in shown] == [{"line": 1, "character": 16}], shown
''')
seed('and-constant','C38','crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs',[("            if left_val == Some(true) && right_val == Some(true) {","            if left_val == Some(true) || right_val == Some(true) {")],
 'a condition `TRUE && x`','the branch taken when x is false is reported as unreachable',P,'''
put("a.R", "f <- function(x) {\\n  if (TRUE && x) {\\n    a()\\n  } else {\\n    b()\\n  }\\n}\\n")
got = found(".", "--select", "unreachable_code")
assert got == [], got
''')
seed('stop-any-package','C38','crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs',[("                    .rsplit_once(\"::\")\n                    .map_or(full_name.as_str(), |(_, name)| name);","                    .rsplit_once([':', '$'])\n                    .map_or(full_name.as_str(), |(_, name)| name);")],
 'a method named as a stopping function (`timer$stop()`)','the code after it is reported as unreachable',P,'''
put("a.R", "f <- function(timer) {\\n  timer$stop()\\n  b()\\n}\\n")
got = found(".", "--select", "unreachable_code")
assert got == [], got
''')
seed('na-rm-text','C39','crates/jarl-core/src/lints/base/matrix_apply/matrix_apply.rs',[('        [", ", &na_rm.unwrap().to_trimmed_string()].join("")','        ", na.rm = TRUE".to_string()')],
 'a call with na.rm = FALSE, or with a variable','the value of the argument is replaced',P,'''
put("a.R", "apply(x, 1, sum, na.rm = drop)\\n")
jarl("check", ".", "--fix", "--unsafe-fixes", "--allow-no-vcs")
assert get("a.R") == "rowSums(x, na.rm = drop)\\n", get("a.R")
''')
seed('sort-loses-method','C39','crates/jarl-core/src/lints/base/sort/sort.rs',[("    if let Some(method) = method {\n        additional_args.push","    if let Some(method) = method\n        && !additional_args.is_empty()\n    {\n        additional_args.push")],
 'x[order(x, method = "radix")] without another option','the method is lost',P,'''
put("a.R", 'y <- x[order(x, method = "radix")]\\n')
jarl("check", ".", "--fix", "--unsafe-fixes", "--allow-no-vcs", "--select", "sort")
assert get("a.R") == 'y <- sort(x, method = "radix")\\n', get("a.R")
''')
seed('hexmode-only-left','C40','crates/jarl-core/src/lints/base/vector_logic/vector_logic.rs',[("    if is_bitwise_exception(&left) || is_bitwise_exception(&right) {","    if is_bitwise_exception(&left) || (right.as_r_call().is_some() && is_bitwise_exception(&right)) {")],
 'a bitwise comparison with a string on the right hand side','the documented exception is reported',P,'''
put("a.R", 'if (x & "755") 1\\nif ("755" & x) 1\\n')
got = found(".", "--select", "vector_logic")
assert got == [], got
''')
seed('schema-type','C44','artifacts/jarl.schema.json',[('''        "operator": {
          "type": [
            "string",
            "null"
          ]
        }''','''        "operator": {
          "type": [
            "array",
            "null"
          ]
        }''')],
 'a jarl.toml with the new form of the option','editors flag a configuration that jarl reads','python','''
import json, jsonschema
schema = json.load(open("artifacts/jarl.schema.json"))
jsonschema.validate({"lint": {"assignment": "<-"}}, schema)
jsonschema.validate({"lint": {"assignment": {"operator": "="}}}, schema)
''')
