"""Reader for the textual LLVM IR that rustc+opt emit for the roots crate."""
import re


class Instr:
    __slots__ = ('res', 'op', 'a', 'dbg', 'fn')

    def __init__(self, res, op, a, dbg):
        self.res, self.op, self.a, self.dbg = res, op, a, dbg

    def __repr__(self):
        return '%s = %s %s' % (self.res, self.op, self.a)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.entry = None
        self.sp = None


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"[^"]*"|[-$._a-zA-Z0-9]+))
 | (?P<num>-?\d+(?:\.\d+e[+-]?\d+|\.\d+)?)
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<meta>![a-zA-Z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise SyntaxError('token: %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError('expected %s got %s in %s' % (v, x, self.t[max(0, self.i - 6):self.i + 6]))

    def type(self):
        k, v = self.next()
        if v == '{':
            el = []
            while not self.accept('}'):
                el.append(self.type())
                self.accept(',')
            return ('struct', tuple(el))
        if v == '<':
            if self.accept('{'):
                el = []
                while not self.accept('}'):
                    el.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('pstruct', tuple(el))
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                return ('i', int(v[1:]))
            if v == 'ptr':
                return ('ptr',)
            return (v,)
        raise SyntaxError('type %s' % v)

    def value(self, ty):
        k, v = self.next()
        if k == 'name':
            return ('reg', v) if v[0] == '%' else ('glob', v)
        if k in ('num', 'hex'):
            if ty[0] == 'i':
                return ('int', int(v), ty[1])
            return ('fp', v)
        if v in ('true', 'false'):
            return ('int', 1 if v == 'true' else 0, 1)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef', ty)
        if v == 'zeroinitializer':
            return ('zero', ty)
        if k == 'str':
            return ('bytes', unescape(v))
        if v in ('{', '<', '['):
            if v == '<' and self.peek()[1] == '{':
                self.next()
                close = ['}', '>']
            else:
                close = {'{': ['}'], '<': ['>'], '[': [']']}[v]
            el = []
            while self.peek()[1] != close[0]:
                t = self.type()
                el.append((t, self.value(t)))
                self.accept(',')
            for c in close:
                self.expect(c)
            return ('agg', el)
        if v == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw') or self.peek()[1] == 'inrange':
                self.next()
                if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                    while self.next()[1] != ')':
                        pass
            self.expect('(')
            t = self.type()
            self.expect(',')
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.accept(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', t, b, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', v, t, x, t2)
        if v in ('sub', 'add'):
            while self.peek()[1] in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect(',')
            t2 = self.type()
            y = self.value(t2)
            self.expect(')')
            return ('cbin', v, x, y)
        raise SyntaxError('value %s %s' % (k, v))


def unescape(s):
    s = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PATTRS = {'noundef', 'noalias', 'nofree', 'nonnull', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext', 'inreg',
          'returned', 'nocapture', 'dead_on_unwind', 'writable', 'allocptr', 'allocalign', 'immarg', 'nest', 'swiftself',
          'dead_on_return', 'noext'}
PATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval', 'initializes',
              'nofpclass', 'elementtype', 'dead_on_return'}


def skip_attrs(p, keep=None):
    while True:
        k, v = p.peek()
        if v in PATTRS_ARG and (p.peek(1)[1] == '(' or v == 'align'):
            p.next()
            if p.peek()[1] == '(':
                depth = 0
                buf = []
                while True:
                    x = p.next()[1]
                    buf.append(x)
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
                if keep is not None:
                    keep[v] = buf[1:-1]
            elif v == 'align':
                p.next()
        elif v in PATTRS:
            p.next()
            if keep is not None:
                keep[v] = True
        else:
            return


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
        'fptrunc', 'ptrtoaddr'}

META = re.compile(r', !(?:[a-zA-Z_.][-a-zA-Z0-9_.]*) !(?:\d+|\{[^}]*\})')
DBG = re.compile(r', !dbg !(\d+)')


class Module:
    def __init__(self):
        self.fns = {}
        self.decls = set()
        self.globals = {}       # name -> (ty, init, is_constant)
        self.md = {}
        self._loc = {}

    # debug locations -> [(subprogram, file, line), ...] innermost first
    def loc(self, n):
        if n is None:
            return []
        if n in self._loc:
            return self._loc[n]
        out = []
        cur = n
        while cur is not None:
            s = self.md.get(cur, '')
            m = re.search(r'line: (\d+)', s)
            line = int(m.group(1)) if m else 0
            m = re.search(r'scope: !(\d+)', s)
            name, file = self.scope(m.group(1)) if m else ('?', '?')
            out.append((name, file, line))
            m = re.search(r'inlinedAt: !(\d+)', s)
            cur = m.group(1) if m else None
        self._loc[n] = out
        return out

    def scope(self, n):
        s = self.md.get(n, '')
        file = None
        for _ in range(40):
            if file is None:
                m = re.search(r'file: !(\d+)', s)
                if m:
                    fs = self.md.get(m.group(1), '')
                    mm = re.search(r'filename: "([^"]*)"', fs)
                    dd = re.search(r'directory: "([^"]*)"', fs)
                    if mm:
                        file = mm.group(1)
                        if dd and not file.startswith('/'):
                            file = dd.group(1) + '/' + file
            if 'DISubprogram' in s:
                m = re.search(r'name: "([^"]*)"', s)
                return (m.group(1) if m else '?', file or '?')
            m = re.search(r'scope: !(\d+)', s)
            if not m:
                break
            s = self.md.get(m.group(1), '')
        return ('?', file or '?')

    def where(self, n, root='/src/'):
        """innermost frame that lies in the crate under analysis"""
        fr = self.loc(n)
        for name, file, line in fr:
            if '/rustlib/' in file or '/roots/' in file:
                continue
            if '/src/' in file or file.startswith('src/'):
                return '%s:%d (%s)' % (file[file.rindex('src/'):], line, name)
        for name, file, line in fr:
            return '%s:%d (%s)' % (file, line, name)
        return '?'


def parse(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('define '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            parse_fn(m, ln, lines[i + 1:j])
            i = j + 1
            continue
        if ln.startswith('declare '):
            mm = re.search(r'@("[^"]*"|[-$._a-zA-Z0-9]+)\(', ln)
            if mm:
                m.decls.add('@' + mm.group(1))
        elif ln.startswith('!'):
            mm = re.match(r'!(\d+) = (.*)', ln)
            if mm:
                m.md[mm.group(1)] = mm.group(2)
        elif ln.startswith('@'):
            parse_global(m, ln)
        i += 1
    return m


def parse_global(m, ln):
    mm = re.match(r'(@(?:"[^"]*"|[-$._a-zA-Z0-9]+)) = (.*)', ln)
    name, rest = mm.group(1), mm.group(2)
    words = re.match(r'((?:[a-z_]+(?:\([^)]*\))? )*?)(constant|global|alias) (.*)', rest)
    if not words:
        m.globals[name] = (None, None, False)
        return
    isconst = words.group(2) == 'constant'
    ext = 'external' in words.group(1)
    tls = 'thread_local' in words.group(1)
    try:
        p = P(tokenize(words.group(3)))
        ty = p.type()
        init = None if ext else p.value(ty)
    except SyntaxError:
        ty, init = None, None
    m.globals[name] = (ty, init, isconst and not tls)


def parse_fn(m, head, body):
    mm = re.search(r'@("[^"]*"|[-$._a-zA-Z0-9]+)\(', head)
    f = Fn('@' + mm.group(1))
    p = P(tokenize(re.sub(r' personality .*', ' {', re.sub(r' !.*', '', head[mm.end() - 1:]))))
    p.expect('(')
    while not p.accept(')'):
        t = p.type()
        at = {}
        skip_attrs(p, at)
        if p.peek()[0] == 'name':
            nm = p.next()[1]
        else:
            nm = '%' + str(len(f.params))
        f.params.append((nm, t, at))
        p.accept(',')
    d = re.search(r'!dbg !(\d+)', head)
    f.sp = d.group(1) if d else None
    cur = None
    k = 0
    while k < len(body):
        s = body[k]
        k += 1
        if not s.strip() or s.lstrip().startswith(';') or s.lstrip().startswith('#dbg'):
            continue
        if not s.startswith(' '):
            lab = s.split(':')[0] if not s.startswith('"') else s[:s.index('"', 1) + 1]
            lab = '%' + lab
            cur = []
            f.blocks[lab] = cur
            if f.entry is None:
                f.entry = lab
            continue
        if cur is None:
            cur = []
            f.entry = '%entry0'
            f.blocks[f.entry] = cur
        if re.match(r'\s+switch ', s):
            while ']' not in s:
                s += ' ' + body[k]
                k += 1
        if re.match(r'\s+(%\S+ = )?invoke ', s) and 'unwind' not in s:
            s += ' ' + body[k]
            k += 1
        cur.append(parse_instr(s, f))
    m.fns[f.name] = f


def parse_instr(s, f):
    d = DBG.search(s)
    dbg = d.group(1) if d else None
    s = META.sub('', s)
    s = re.sub(r'\s*;.*$', '', s) if '"' not in s else s
    p = P(tokenize(s))
    res = None
    if p.peek()[0] == 'name' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    flags = set()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    a = None
    if op in BIN:
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        t = p.type()
        x = p.value(t)
        p.expect(',')
        y = p.value(t)
        a = (t, x, y, flags)
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        pred = p.next()[1]
        t = p.type()
        x = p.value(t)
        p.expect(',')
        y = p.value(t)
        a = (pred, t, x, y)
    elif op in CAST:
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        t = p.type()
        x = p.value(t)
        p.expect('to')
        a = (t, x, p.type(), flags)
    elif op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        c = p.value(t)
        p.expect(',')
        t1 = p.type()
        x = p.value(t1)
        p.expect(',')
        t2 = p.type()
        y = p.value(t2)
        a = (c, t1, x, y)
    elif op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()[1]))
            p.expect(']')
            p.accept(',')
        a = (t, inc)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            a = (None, p.next()[1], None)
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            x = p.next()[1]
            p.expect(',')
            p.expect('label')
            a = (c, x, p.next()[1])
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        dflt = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()[1]))
        a = (t, v, dflt, cases)
    elif op == 'ret':
        t = p.type()
        a = (t, None if t == ('void',) else p.value(t))
    elif op == 'unreachable':
        a = ()
    elif op == 'load':
        if p.peek()[1] in ('volatile', 'atomic'):
            flags.add(p.next()[1])
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = (t, p.value(pt), flags)
    elif op == 'store':
        if p.peek()[1] in ('volatile', 'atomic'):
            flags.add(p.next()[1])
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = (t, v, p.value(pt), flags)
    elif op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        p.expect(',')
        bt = p.type()
        b = p.value(bt)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        a = (t, b, idx)
    elif op == 'alloca':
        a = (p.type(),)
    elif op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS or p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'preserve_allcc'):
            p.next()
        ra = {}
        skip_attrs(p, ra)
        rt = p.type()
        if p.peek()[1] == '(':      # function type
            dep = 0
            while True:
                v = p.next()[1]
                dep += v == '('
                dep -= v == ')'
                if dep == 0:
                    break
        callee = p.next()[1]
        if callee == 'asm':
            return Instr(res, 'asm', (), dbg)
        args = []
        p.expect('(')
        while not p.accept(')'):
            t = p.type()
            if t == ('metadata',):
                while p.peek()[1] not in (',', ')'):
                    p.next()
                args.append((t, None))
                p.accept(',')
                continue
            at = {}
            skip_attrs(p, at)
            args.append((t, p.value(t)))
            p.accept(',')
        norm = None
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            norm = p.next()[1]
        a = (rt, callee, args, norm, ra)
    elif op in ('extractvalue', 'insertvalue'):
        t = p.type()
        v = p.value(t)
        e = None
        if op == 'insertvalue':
            p.expect(',')
            et = p.type()
            e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        a = (t, v, e, idx)
    elif op in ('freeze', 'fneg'):
        t = p.type()
        a = (t, p.value(t))
    else:
        a = ('?', s)
    return Instr(res, op, a, dbg)


def sizeof(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    if t[0] == 'ptr' or t[0] == 'double':
        return 8
    if t[0] == 'float':
        return 4
    if t[0] == 'arr':
        return t[1] * sizeof(t[2])
    if t[0] == 'pstruct':
        return sum(sizeof(x) for x in t[1])
    if t[0] == 'struct':
        off = 0
        al = 1
        for x in t[1]:
            s = alignof(x)
            al = max(al, s)
            off = (off + s - 1) // s * s + sizeof(x)
        return (off + al - 1) // al * al
    raise SyntaxError('sizeof %s' % (t,))


def alignof(t):
    if t[0] in ('arr',):
        return alignof(t[2])
    if t[0] == 'struct':
        return max([alignof(x) for x in t[1]] or [1])
    if t[0] == 'pstruct':
        return 1
    return min(sizeof(t), 8)
