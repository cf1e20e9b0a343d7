#!/usr/bin/env python3
"""mutate.py FILE CRATE IDS [part/parts]: applies small changes to FILE of /repo one at a time and
prints those that no check reports. Run it where /repo and /verif are scratch copies (tools/ns.sh)."""
import re, subprocess, sys, os
FILE, CRATE, IDS = sys.argv[1], sys.argv[2], sys.argv[3].split(',')
PART, PARTS = map(int, sys.argv[4].split('/')) if len(sys.argv) > 4 else (0, 1)
PATH = '/repo/' + FILE
SRC = open(PATH).read()
END = SRC.find('#[cfg(test)]\nmod')
END = len(SRC) if END < 0 else END
SWAPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' \+= 1\b', ' += 2'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b3\b', '4'), (r'\b3\b', '2'), (r'(?<=[( =&|])!(?=[a-z(])', ''), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r"'\\n'", "'\\r'"), (r"'\\r'", "'\\n'"),
    (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r'starts_with', 'ends_with'), (r'starts_with', 'contains'), (r'ends_with', 'starts_with'), (r'ends_with', 'contains'), (r'\.contains\(', '.starts_with('),
    (r'trim_start\(\)', 'trim()'), (r'trim_start\(\)', 'trim_end()'), (r'trim_end\(\)', 'trim()'), (r'\.trim\(\)', ''), (r'\.trim\(\)', '.trim_start()'), (r'\.trim\(\)', '.trim_end()'), (r'\.trim_start\(\)', ''), (r'\.trim_end\(\)', ''), (r'trim_(start|end)_matches\([^()]*\)', 'trim()'),
    (r'\.rev\(\)', ''), (r'\.find\(', '.rfind('), (r'\.rfind\(', '.find('), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'split_once', 'rsplit_once'), (r'rsplit_once', 'split_once'), (r'\.\.=', '..'), (r'unwrap_or\(0\)', 'unwrap_or(1)'),
    (r'strip_prefix', 'strip_suffix'), (r'\bif (?!let\b)([^{}\n]+) \{', r'if !(\1) {'), (r'\bif (?!let\b)([^{}\n]+) \{', r'if true || (\1) {'), (r'\bif (?!let\b)([^{}\n]+) \{', r'if false && (\1) {'),
    (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'), (r'\bis_ok\(\)', 'is_err()'), (r'\bis_err\(\)', 'is_ok()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'saturating_sub', 'wrapping_sub'), (r'\.is_empty\(\)', '.len() == 1'),
    (r'\.lines\(\)', ".split('\\n')"), (r'\.chars\(\)', '.chars().skip(1)'), (r'\.skip\(1\)', ''), (r'\.filter\(', '.take_while('), (r'take_while\(', 'filter('), (r'is_ascii_digit', 'is_ascii_alphanumeric'), (r'is_alphanumeric', 'is_alphabetic'), (r'is_whitespace', 'is_ascii_whitespace'),
    (r'char::len_utf16', 'char::len_utf8'), (r'len_utf16\(\)', 'len_utf8()'), (r'len_utf8\(\)', 'len_utf16()'), (r'\.sort\w*\([^;]*\);', ';'), (r'\.dedup\(\)', ''), (r'eq_ignore_ascii_case', 'eq'), (r'to_lowercase\(\)', 'to_string()'), (r'\bNone =>', 'None if false =>'),
    (r'"([^"\\\n{}]+)"', r'"\1x"'), (r'"([^"\\\n{}]{2,})"', lambda m: '"' + m.group(1)[1:] + '"'), (r"'([^'\\])'", r"'~'")]
out = {}
for pat, rep in SWAPS:
    for m in re.finditer(pat, SRC[:END]):
        line = SRC[SRC.rfind('\n', 0, m.start()) + 1:SRC.find('\n', m.start())]
        if line.strip().startswith('//') or 'tracing::' in line or 'debug!' in line: continue
        new = SRC[:m.start()] + (m.expand(rep) if isinstance(rep, str) and '\\' in rep and rep not in ("'\\r'", "'\\n'", ".split('\\n')") else rep(m) if callable(rep) else rep) + SRC[m.end():]
        out.setdefault(new, (m.start(), m.group(0), pat))
# Statements and match arms left out.
for m in re.finditer(r'^[ \t]+(?!let\b|return\b|use\b|//|pub\b|type\b|const\b)[^\n]*;\n', SRC[:END], re.M):
    out.setdefault(SRC[:m.start()] + SRC[m.end():], (m.start(), m.group(0).strip(), 'deleted'))
for m in re.finditer(r'^[ \t]+(?!//)[^\n]* => [^\n]*,\n', SRC[:END], re.M):
    out.setdefault(SRC[:m.start()] + SRC[m.end():], (m.start(), m.group(0).strip(), 'arm deleted'))
items = sorted(out.items(), key=lambda x: x[1][0])[PART::PARTS]
n = dict(killed=0, build=0, survived=0)
for new, (at, old, pat) in items:
    open(PATH, 'w').write(new)
    why = None
    for i in IDS:
        try:
            r = subprocess.run(['./check.sh', CRATE, i], cwd='/verif', capture_output=True, text=True, timeout=300)
            c = r.returncode
        except subprocess.TimeoutExpired:
            c = 'timeout'
        if c == 2: why = 'build'; break
        if c != 0: why = 'killed' if c == 1 else f'killed'; extra = c; break
    n[why or 'survived'] += 1
    if why is None or (why == 'killed' and extra not in (1,)):
        l = SRC.count('\n', 0, at) + 1
        changed = next(b for a, b in zip(SRC.split('\n')[l - 1:] + [''], new.split('\n')[l - 1:] + ['']) if a != b) if SRC.split('\n')[l - 1:] != new.split('\n')[l - 1:] else ''
        print(f'{"SURVIVED" if why is None else "EXIT " + str(extra)} {FILE}:{l} [{pat}] {old!r} -> {changed.strip()!r}', flush=True)
open(PATH, 'w').write(SRC)
print(FILE, n, flush=True)
