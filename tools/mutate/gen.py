#!/usr/bin/env python3
"""gen.py REPO OUT.jsonl: small mutations of the non-test lines of the repository (development aid)."""
import re, os, sys, json, random
REPO, OUT = sys.argv[1:3]
files = []
for d in ('lib/src', 'lib/src/http', 'cmd/src'):
    for f in sorted(os.listdir(os.path.join(REPO, d))):
        if f.endswith('.rs'):
            files.append(f'{d}/{f}')
SUBS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' % ', ' / '),
    (r'\+= ', '-= '), (r'-= ', '+= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.trim\(\)', ''), (r'\.trim_end\(\)', '.trim()'), (r'\.trim_start\(\)', '.trim()'),
    (r'\.trim\(\)', '.trim_start()'), (r'\.trim\(\)', '.trim_end()'),
    (r'\.rev\(\)', ''), (r'starts_with', 'ends_with'), (r'starts_with', 'contains'), (r'ends_with', 'contains'), (r'eq_ignore_ascii_case', 'eq'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'),
    (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r'\.\.=', '..'), (r'\bif !', 'if '),
    (r'\bif ([^{]+) \{', r'if true || \1 {'), (r'\bif ([^{]+) \{', r'if false && \1 {'), (r'\.find\(', '.rfind('), (r'\.split_once\(', '.rsplit_once('), (r'\.is_empty\(\)', '.is_empty() == false'),
    (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_ok\(\)', '.is_err()'), (r'\.is_err\(\)', '.is_ok()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
    (r'checked_add', 'checked_sub'), (r'write_all', 'write'), (r'\bBox::new\(', 'Box::new('), (r'Less', 'Greater'), (r'Greater', 'Less'), (r'\.cloned\(\)', '.cloned()'),
    (r'read_exact', 'read'), (r'\.sort\(\)', '.reverse()'), (r'saturating_sub', 'wrapping_sub'), (r'\.lines\(\)', ".split('\\\\n')"), (r'SeqCst', 'Relaxed'), (r'as u64', 'as u32 as u64'), (r'as i64', 'as i32 as i64'),
    (r'as u128', 'as u64 as u128'), (r'from_utf8_lossy', 'from_utf8_lossy'), (r'\bu128\b', 'u64'), (r'\bi64\b', 'i32'), (r'\busize\b', 'u8'), (r'\.to_string\(\)', '.to_string().to_lowercase()'), (r'\.to_lowercase\(\)', ''), (r'\.to_ascii_lowercase\(\)', ''), (r'\.insert\(', '.entry('),
    (r'splitn\((\d+), ', r'split('), (r'\.skip\((\d+)\)', ''), (r'\.next\(\)', '.last()'), (r'\.take\(\)', '.clone()'), (r'unwrap_or_default', 'unwrap'), (r'is_ascii_alphanumeric', 'is_alphanumeric'), (r'is_ascii_digit', 'is_numeric'), (r'is_ascii_alphabetic', 'is_alphabetic'), (r'is_alphabetic', 'is_ascii_alphabetic'), (r'is_whitespace', 'is_ascii_whitespace'), (r'is_ascii_whitespace', 'is_whitespace'),
]
out = []
def add(f, n, old, new):
    if new != old and new.strip() != old.strip():
        out.append(dict(file=f, line=n, old=old, new=new))
for f in files:
    lines = open(os.path.join(REPO, f)).read().split('\n')
    end = next((i for i, l in enumerate(lines) if re.match(r'\s*#\[(test|cfg\(test\)|tokio::test)\]', l)), len(lines))
    if f.endswith('stream.rs'):
        end = len(lines)
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('#') or s.startswith('extern'):
            continue
        for a, b in SUBS:
            for m in re.finditer(a, l):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                add(f, i + 1, l, new)
        for m in re.finditer(r'(?<![\w.\'"])(\d+)(?![\w.])', l):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0), v * 2} - {v}:
                add(f, i + 1, l, l[:m.start()] + str(w) + l[m.end():])
        for m in re.finditer(r"'(\\?.)'", l):
            add(f, i + 1, l, l[:m.start()] + ("'~'" if m.group(1) != '~' else "'#'") + l[m.end():])
        for m in re.finditer(r'"([^"\\{}]{1,24})"', l):
            t = m.group(1)
            add(f, i + 1, l, l[:m.start()] + '"' + t[:-1] + '"' + l[m.end():])
            add(f, i + 1, l, l[:m.start()] + '"' + (t.swapcase() if t.swapcase() != t else t + 'x') + '"' + l[m.end():])
        if s.endswith(';') and not re.match(r'(let|return|use|pub|const|static|type|struct|mod|impl|\})\b', s) and s != '};':
            add(f, i + 1, l, '')
        if re.match(r'.*=> .*,$', s) and s.count('{') == s.count('}'):
            add(f, i + 1, l, '')
        if s.endswith('?;') and not s.startswith('let'):
            add(f, i + 1, l, l.replace('?;', '.ok();'))
seen = set(); uniq = []
for m in out:
    k = (m['file'], m['line'], m['new'])
    if k not in seen:
        seen.add(k); uniq.append(m)
with open(OUT, 'w') as h:
    for n, m in enumerate(uniq):
        m['id'] = n
        h.write(json.dumps(m) + '\n')
print(len(uniq))
