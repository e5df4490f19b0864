"""Mechanical extraction: copies /repo/src/*.[ch] verbatim and inserts loop-contract clauses.

A loop contract is addressed by (file, function, loop ordinal).  The only change made to the text is
the insertion of CBMC loop-contract clauses between the header of a loop and its body, and (ghost
entries) of ghost statements at the start of the body: either `INST(...)`, which assumes one instance
of a hypothesis the unit states for every index, or an update of a ghost variable of the unit.  No
token of the original is dropped, reordered or rewritten, and no line is added (line numbers are
preserved).  The one exception is a `rewrite` entry, which puts a function symbol in the place of an
arithmetic operator the solver cannot reason about (the division of a time by the literal 1000000);
a unit that uses one says so in its assumptions.
"""
import os, re, shutil

class AnnotateError(Exception):
    pass

def _blank(src):
    """src with comments, strings and char literals blanked (same length)."""
    out = list(src); i = 0; n = len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            while i < n and src[i] != '\n':
                out[i] = ' '; i += 1
        elif src.startswith('/*', i):
            j = src.find('*/', i + 2); j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != '\n': out[k] = ' '
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            for k in range(i, min(j + 1, n)):
                if out[k] != '\n': out[k] = ' '
            i = j + 1
        else:
            i += 1
    return ''.join(out)

def _match(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise AnnotateError('unbalanced')

def find_function(b, name):
    """(start of body brace, end) of the definition of `name`."""
    for m in re.finditer(r'(?<![\w.>])' + re.escape(name) + r'\s*\(', b):
        depth = b.count('{', 0, m.start()) - b.count('}', 0, m.start())
        if depth != 0: continue
        e = _match(b, m.end() - 1, '(', ')')
        j = e + 1
        while j < len(b) and b[j].isspace(): j += 1
        if j < len(b) and b[j] == '{':
            return j, _match(b, j, '{', '}')
    raise AnnotateError('function %s not found' % name)

def loops(b, s, e):
    """offsets (after the header) of the for/while loops in b[s:e], in source order; do-while rejected."""
    res = []
    for m in re.finditer(r'\b(for|while|do)\b', b[s:e]):
        p = s + m.start()
        if m.group(1) == 'do':
            raise AnnotateError('do loop')
        q = b.index('(', p)
        res.append(_match(b, q, '(', ')') + 1)
    return res

def annotate(text, entries):
    """entries: list of (function, ordinal(1-based), clauses, expected loop count)."""
    b = _blank(text)
    ins = []
    for fn, k, clause, total in entries:
        ghost = clause.startswith('GHOST ')
        if ghost: clause = clause[6:]
        s, e = find_function(b, fn)
        ls = loops(b, s, e)
        if total is not None and len(ls) != total:
            raise AnnotateError('%s has %d loops, %d expected' % (fn, len(ls), total))
        if k > len(ls):
            raise AnnotateError('%s has no loop %d' % (fn, k))
        at = ls[k - 1]
        if ghost:
            while b[at].isspace(): at += 1
            if b[at] != '{': raise AnnotateError('%s loop %d has no braces' % (fn, k))
            at += 1
        ins.append((at, ' ' + ' '.join(clause.split()) + ' '))
    for p, t in sorted(ins, key=lambda x: x[0], reverse=True):
        text = text[:p] + t + text[p:]
    return text

def prepare(srcdir, dst, entries, rewrites=()):
    """entries: list of (file, function, ordinal, clauses, total); rewrites: (file, regex, replacement)."""
    os.makedirs(dst, exist_ok=True)
    per = {}
    for f, fn, k, cl, tot in entries:
        per.setdefault(f, []).append((fn, k, cl, tot))
    for f in sorted(os.listdir(srcdir)):
        if not f.endswith(('.c', '.h')): continue
        p = os.path.join(srcdir, f)
        if f in per:
            open(os.path.join(dst, f), 'w').write(annotate(open(p).read(), per[f]))
        else:
            shutil.copyfile(p, os.path.join(dst, f))
    for f in per:
        if not os.path.exists(os.path.join(dst, f)):
            raise AnnotateError('file %s not found' % f)
    for f, rx, rep in rewrites:
        p = os.path.join(dst, f); t, n = re.subn(rx, rep, open(p).read())
        if n == 0: raise AnnotateError('nothing to rewrite in %s' % f)
        open(p, 'w').write(t)
