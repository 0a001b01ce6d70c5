"""Mechanical extraction of Python from the one Cython source: C declarations and decorators are dropped, statements kept.
Dropped: static types (C double -> mathematical real, C integers -> mathematical integers), boundscheck/wraparound
directives (every index becomes an obligation-checked access).  cdivision only selects C division of doubles (no zero
test): division by zero is an obligation here."""
import re

_T = r'(?:double|float|int|long|unsigned int|Py_ssize_t|bint|object)'


def strip(src):
    out, block = [], None
    for line in src.split('\n'):
        s = line.strip()
        ind = line[:len(line) - len(line.lstrip())]
        if block is not None:
            if s and len(ind) <= block:
                block = None
            else:
                if s:
                    d = _decl(s)
                    out.append(' ' * (block) + d if d else ' ' * block + 'pass')
                else:
                    out.append('')
                continue
        if re.match(r'from libc\.math cimport', s):
            out.append(ind + s.replace('from libc.math cimport', 'from pvmath import'))
            continue
        if re.match(r'from cython import', s) or re.match(r'cimport ', s) or re.match(r'from .* cimport', s):
            out.append('')
            continue
        if re.match(r'@(boundscheck|wraparound|cdivision)\(', s):
            out.append('')
            continue
        if s == 'cdef:':
            block = len(ind)
            out.append('')
            continue
        m = re.match(r'^(cp?def|def)\s+(.*\))\s*(except.*|nogil)?:$', s)
        if m:
            sig = m.group(2)
            sig = re.sub(r'^(?:inline\s+)?' + _T + r'(?:\[[^\]]*\])?\s+(?=\w+\()', '', sig)
            name, args = sig.split('(', 1)
            args = re.sub(_T + r'(?:\[[^\]]*\])?\s+(?=\w)', '', args)
            out.append('%sdef %s(%s:' % (ind, name, args))
            continue
        if s.startswith('cdef '):
            d = _decl(s[5:])
            out.append(ind + (d or 'pass'))
            continue
        out.append(line)
    return '\n'.join(out)


def _decl(s):
    """`T a, b = e, c` -> `b = e`"""
    s = re.sub(r'^' + _T + r'(?:\[[^\]]*\])?\s+', '', s)
    parts, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    return '; '.join(p.strip() for p in parts if '=' in p)
