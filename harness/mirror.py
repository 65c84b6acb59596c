#!/usr/bin/env python3
"""Make a copy of <repo>/nntl that clang on Linux accepts.

Every rule below is a purely syntactic adaptation of an MSVC-only construct (see DESIGN.md); no rule changes what
the code computes.  Line numbers are preserved.  A rule that finds nothing to do does nothing.
"""
import os, re, sys

src, dst = sys.argv[1], sys.argv[2]
files = {}
for d, _, fs in os.walk(os.path.join(src, 'nntl')):
    for f in fs:
        if f.endswith('.h'):
            p = os.path.relpath(os.path.join(d, f), src)
            files[p.lower()] = p

def fix_includes(path, text):
    # Windows file names: '\' and case
    def r(m):
        inc = m.group(2).replace('\\', '/')
        t = os.path.normpath(os.path.join(os.path.dirname(path), inc))
        real = files.get(t.lower())
        if not real and '/nntl/' in inc:      # "../../nntl/nntl/..." counts on the name of the checkout folder
            real = files.get('nntl/' + inc.rsplit('/nntl/', 1)[1].lower())
        if real:
            inc = os.path.relpath(real, os.path.dirname(path))
        return m.group(1) + inc + '"'
    return re.sub(r'(?m)^([ \t]*#[ \t]*include[ \t]*")([^"]+)"', r, text)

def mask_comments(text):
    """same-length copy with comments and string literals blanked"""
    out = list(text)
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
        elif text.startswith('/*', i):
            j = text.find('*/', i + 2)
            j = n if j < 0 else j + 2
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"' and text[j] != '\n':
                j += 2 if text[j] == '\\' else 1
            j = min(n, j + 1)
        elif c == "'" and i and not (text[i-1].isalnum() or text[i-1] == '_'):
            j = i + 1
            while j < n and text[j] != "'" and text[j] != '\n':
                j += 2 if text[j] == '\\' else 1
            j = min(n, j + 1)
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)

def inject(text, cls, what):
    """insert 'what' right after the opening brace of the definition(s) of class/struct 'cls'; {B<n>} in it stands for the
    n-th base class"""
    m = mask_comments(text)
    for x in reversed(list(re.finditer(r'\b(class|struct)\s+' + re.escape(cls) + r'\b(?!\s*[>,;=])([^;{}]*)\{', m))):
        bases, depth, cur = [], 0, ''
        for c in (re.split(r'(?<!:):(?!:)', x.group(2), maxsplit=1) + [''])[1]:
            depth += (c in '<(') - (c in '>)')
            if c == ',' and not depth:
                bases.append(cur); cur = ''
            else:
                cur += c
        bases = [re.sub(r'^\s*(?:(?:public|protected|private|virtual)\s+)*', '', b.replace('\n', ' ')).strip() for b in bases + [cur]]
        w = re.sub(r'\{B(\d+)\}', lambda k: bases[int(k.group(1))] if int(k.group(1)) < len(bases) else bases[-1], what)
        if x.group(1) == 'class':
            w = 'public: ' + w + ' private:'
        text = text[:x.end()] + ' ' + w + ' ' + text[x.end():]
    return text

def class_bodies(text, cls):
    m = mask_comments(text)
    for x in re.finditer(r'\b(?:class|struct)\s+' + re.escape(cls) + r'\b(?!\s*[>,;=])[^;{}]*\{', m):
        d, i = 1, x.end()
        while i < len(m) and d:
            d += (m[i] == '{') - (m[i] == '}')
            i += 1
        yield m[x.end():i]

def inject_types(text, cls, names, base='{B0}'):
    """typedefs of types of a dependent base; a name the class declares itself is left alone"""
    bodies = list(class_bodies(text, cls))
    names = [n for n in names if not any(re.search(r'\b(?:typedef\b[^;]*\b' + n + r'\s*;|using\s+' + n + r'\s*=)', b) for b in bodies)]
    return inject(text, cls, ' '.join('typedef typename %s::%s %s;' % (base, n, n) for n in names))

RULES = {}   # path -> list of functions
def rule(*paths):
    def d(f):
        for p in paths:
            RULES.setdefault(p, []).append(f)
        return f
    return d

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mirror_rules.py')).read())

for p in sorted(files.values()):
    with open(os.path.join(src, p), encoding='utf-8', errors='surrogateescape', newline='') as f:
        t = f.read().replace('\r\n', '\n')
    t = fix_includes(p, t)
    for f in GENERIC:
        t = f(t)
    for f in RULES.get(p, []):
        t = f(t)
    o = os.path.join(dst, p)
    os.makedirs(os.path.dirname(o), exist_ok=True)
    old = None
    if os.path.exists(o):
        with open(o, encoding='utf-8', errors='surrogateescape', newline='') as f:
            old = f.read()
    if old != t:
        with open(o, 'w', encoding='utf-8', errors='surrogateescape', newline='') as f:
            f.write(t)
