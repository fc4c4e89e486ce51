"""A small Rust lexer: (token, line) pairs without comments; literals become single tokens."""
import re

_re = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<raw>\b(?:br|cr|r)(?P<h>\#*)".*?"(?P=h))
|(?P<str>[bc]?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_][A-Za-z_0-9]*)
|(?P<rid>r\#[A-Za-z_][A-Za-z_0-9]*)
|(?P<id>[A-Za-z_][A-Za-z_0-9]*)
|(?P<num>[0-9][A-Za-z_0-9]*(?:\.[0-9][A-Za-z_0-9]*)?)
|(?P<op>.)
''', re.X | re.S)


def tokens(s):
    out = []
    i, line = 0, 1
    n = len(s)
    while i < n:
        if s.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith('/*', j):
                    d += 1
                    j += 2
                elif s.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            line += s.count('\n', i, j)
            i = j
            continue
        m = _re.match(s, i)
        t = m.group(0)
        k = m.lastgroup
        if k == 'h':
            k = 'raw'
        if k in ('raw', 'str'):
            out.append(('"str"', line))
        elif k == 'chr':
            out.append(("'c'", line))
        elif k not in ('ws', 'lc'):
            out.append((t, line))
        line += t.count('\n')
        i = m.end()
    return out
