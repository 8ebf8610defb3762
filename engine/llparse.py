"""Parser for the textual LLVM IR (clang 18) emitted for the harnesses."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"[^"]*"|[\w.]*))
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<fl>-?\d+\.\d*(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][\w.$]*)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)

VALWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'ptrtoint',
            'bitcast', 'add', 'sub', 'mul', 'select', 'icmp', 'trunc', 'zext', 'sext', 'none', 'blockaddress',
            'dso_local_equivalent', 'no_cfi', 'asm'}


class ParseError(Exception):
    pass


class Toks:
    def __init__(self, s):
        self.t = []
        pos = 0
        for m in TOK.finditer(s):
            if s[pos:m.start()].strip():
                raise ParseError(f'cannot tokenise {s[pos:m.start()]!r} in {s!r}')
            pos = m.end()
            self.t.append((m.lastgroup, m.group()))
        if s[pos:].strip():
            raise ParseError(f'cannot tokenise {s[pos:]!r}')
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        r = self.next()
        if r != s:
            raise ParseError(f'expected {s!r} got {r!r} in {[x[1] for x in self.t]}')

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def end(self):
        return self.i >= len(self.t)


def clean(name):
    """%"foo bar" -> %foo bar"""
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


def parse_type(tk):
    x = tk.next()
    if re.fullmatch(r'i\d+', x):
        t = ('int', int(x[1:]))
    elif x in ('float', 'double', 'x86_fp80', 'ptr', 'void', 'label', 'metadata', 'token', 'half', 'fp128', 'opaque'):
        t = (x,)
        if x == 'ptr' and tk.peek() == 'addrspace':
            tk.next()
            tk.skip_parens()
    elif x == '[':
        n = int(tk.next())
        tk.expect('x')
        e = parse_type(tk)
        tk.expect(']')
        t = ('array', n, e)
    elif x == '<':
        if tk.peek() == '{':
            tk.next()
            t = parse_struct(tk, True)
            tk.expect('>')
        else:
            n = int(tk.next())
            tk.expect('x')
            e = parse_type(tk)
            tk.expect('>')
            t = ('vector', n, e)
    elif x == '{':
        t = parse_struct(tk, False)
    elif x[0] == '%':
        t = ('named', clean(x))
    else:
        raise ParseError(f'type? {x!r} in {[y[1] for y in tk.t]}')
    # function type
    while tk.peek() == '(' and t[0] != 'fn_done':
        # only treat as function type when the caller wants it
        break
    return t


def parse_struct(tk, packed):
    el = []
    while not tk.accept('}'):
        el.append(parse_type(tk))
        tk.accept(',')
    return ('struct', tuple(el), packed)


class Inst:
    __slots__ = ('op', 'dest', 'a', 'line')

    def __init__(self, op, dest, a, line):
        self.op, self.dest, self.a, self.line = op, dest, a, line


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.ipdom = None


def skip_attrs(tk):
    """skip parameter / return attributes"""
    while True:
        k, x = tk.kind(), tk.peek()
        if x is None:
            return
        if k == 'word' and x not in VALWORDS and not re.fullmatch(
                r'i\d+|float|double|x86_fp80|ptr|void|label|metadata|token', x):
            tk.next()
            if x == 'align' and tk.kind() == 'num':
                tk.next()
            elif tk.peek() == '(':
                tk.skip_parens()
            continue
        if k == 'str' and not x.startswith('c'):
            tk.next()
            if tk.accept('='):
                tk.next()
            continue
        return


def parse_const_or_val(tk, ty):
    k, x = tk.kind(), tk.peek()
    if k == 'id':
        tk.next()
        return ('local', clean(x)) if x[0] == '%' else ('global', clean(x))
    if k in ('num', 'fl', 'hex'):
        tk.next()
        return ('num', x)
    if k == 'str':
        tk.next()
        return ('str', x)
    if x in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none'):
        tk.next()
        return (x,)
    if x in ('[', '<', '{'):
        tk.next()
        packed = False
        if x == '<' and tk.peek() == '{':
            tk.next()
            packed = True
            close = '}'
        else:
            close = {'[': ']', '<': '>', '{': '}'}[x]
        el = []
        while not tk.accept(close):
            t = parse_type(tk)
            el.append((t, parse_const_or_val(tk, t)))
            tk.accept(',')
        if packed:
            tk.expect('>')
        return ('agg', el)
    if x == 'getelementptr':
        tk.next()
        while tk.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
            tk.next()
            if tk.peek() == '(' and tk.kind(1) != 'word':
                pass
        tk.expect('(')
        bt = parse_type(tk)
        tk.expect(',')
        ops = []
        while True:
            while tk.peek() in ('inrange',):
                tk.next()
            t = parse_type(tk)
            ops.append((t, parse_const_or_val(tk, t)))
            if not tk.accept(','):
                break
        tk.expect(')')
        return ('cgep', bt, ops)
    if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
        tk.next()
        tk.expect('(')
        t = parse_type(tk)
        v = parse_const_or_val(tk, t)
        tk.expect('to')
        t2 = parse_type(tk)
        tk.expect(')')
        return ('ccast', x, t, v, t2)
    if x in ('add', 'sub', 'mul'):
        tk.next()
        while tk.peek() in ('nuw', 'nsw'):
            tk.next()
        tk.expect('(')
        t = parse_type(tk)
        a = parse_const_or_val(tk, t)
        tk.expect(',')
        t2 = parse_type(tk)
        b = parse_const_or_val(tk, t2)
        tk.expect(')')
        return ('cbin', x, t, a, b)
    raise ParseError(f'value? {x!r} in {[y[1] for y in tk.t]}')


def parse_tyval(tk):
    t = parse_type(tk)
    skip_attrs(tk)
    return t, parse_const_or_val(tk, t)


FLAGS = {'nuw', 'nsw', 'exact', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'inbounds', 'inrange', 'samesign', 'nusw'}
MD = re.compile(r',?\s*!(?:[a-zA-Z_][\w.]*)\s+!(?:\d+|\{[^}]*\})')
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast'}


def parse_call(tk, op):
    # [fast flags] [cc] [ret attrs] type callee(args) [fn attrs]
    while tk.peek() in FLAGS:
        tk.next()
    skip_attrs(tk)
    rt = parse_type(tk)
    if tk.peek() == '(':  # function type for varargs
        tk.skip_parens()
    callee = parse_const_or_val(tk, ('ptr',)) if tk.peek() != 'asm' else None
    if callee is None:
        return rt, ('asm',), []
    tk.expect('(')
    args = []
    while not tk.accept(')'):
        if tk.peek() == 'metadata':
            # skip metadata argument
            d = 0
            while not (d == 0 and tk.peek() in (',', ')')):
                y = tk.next()
                d += (y in '([{') - (y in ')]}')
            tk.accept(',')
            args.append((('metadata',), None))
            continue
        args.append(parse_tyval(tk))
        tk.accept(',')
    return rt, callee, args


def parse_inst(line):
    line = MD.sub('', line)
    dest = None
    m = re.match(r'\s*(%(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*=\s*', line)
    body = line
    if m:
        dest = clean(m.group(1))
        body = line[m.end():]
    tk = Toks(body)
    op = tk.next()
    if op in ('tail', 'musttail', 'notail'):
        op = tk.next()
    if op in BIN:
        fl = set()
        while tk.peek() in FLAGS:
            fl.add(tk.next())
        t = parse_type(tk)
        a = parse_const_or_val(tk, t)
        tk.expect(',')
        b = parse_const_or_val(tk, t)
        return Inst(op, dest, (t, a, b, fl), line)
    if op in CAST:
        while tk.peek() in FLAGS:
            tk.next()
        t = parse_type(tk)
        a = parse_const_or_val(tk, t)
        tk.expect('to')
        t2 = parse_type(tk)
        return Inst(op, dest, (t, a, t2), line)
    if op == 'fneg':
        while tk.peek() in FLAGS:
            tk.next()
        t = parse_type(tk)
        return Inst(op, dest, (t, parse_const_or_val(tk, t)), line)
    if op in ('icmp', 'fcmp'):
        while tk.peek() in FLAGS:
            tk.next()
        p = tk.next()
        t = parse_type(tk)
        a = parse_const_or_val(tk, t)
        tk.expect(',')
        b = parse_const_or_val(tk, t)
        return Inst(op, dest, (p, t, a, b), line)
    if op == 'select':
        while tk.peek() in FLAGS:
            tk.next()
        ops = []
        for i in range(3):
            ops.append(parse_tyval(tk))
            tk.accept(',')
        return Inst(op, dest, tuple(ops), line)
    if op == 'phi':
        while tk.peek() in FLAGS:
            tk.next()
        t = parse_type(tk)
        inc = []
        while tk.accept('['):
            v = parse_const_or_val(tk, t)
            tk.expect(',')
            b = clean(tk.next())
            tk.expect(']')
            inc.append((v, b))
            tk.accept(',')
        return Inst(op, dest, (t, inc), line)
    if op == 'alloca':
        while tk.peek() == 'inalloca':
            tk.next()
        t = parse_type(tk)
        n = None
        if tk.accept(','):
            if tk.peek() != 'align':
                n = parse_tyval(tk)
        return Inst(op, dest, (t, n), line)
    if op == 'load':
        while tk.peek() in ('volatile', 'atomic'):
            tk.next()
        t = parse_type(tk)
        tk.expect(',')
        p = parse_tyval(tk)
        return Inst(op, dest, (t, p), line)
    if op == 'store':
        while tk.peek() in ('volatile', 'atomic'):
            tk.next()
        v = parse_tyval(tk)
        tk.expect(',')
        p = parse_tyval(tk)
        return Inst(op, dest, (v, p), line)
    if op == 'getelementptr':
        while tk.peek() in FLAGS:
            tk.next()
        t = parse_type(tk)
        tk.expect(',')
        ops = []
        while True:
            ops.append(parse_tyval(tk))
            if not tk.accept(','):
                break
        return Inst(op, dest, (t, ops), line)
    if op == 'br':
        if tk.peek() == 'label':
            tk.next()
            return Inst('jmp', None, (clean(tk.next()),), line)
        c = parse_tyval(tk)
        tk.expect(',')
        tk.expect('label')
        a = clean(tk.next())
        tk.expect(',')
        tk.expect('label')
        b = clean(tk.next())
        return Inst('br', None, (c, a, b), line)
    if op == 'switch':
        c = parse_tyval(tk)
        tk.expect(',')
        tk.expect('label')
        d = clean(tk.next())
        tk.expect('[')
        cases = []
        while not tk.accept(']'):
            v = parse_tyval(tk)
            tk.expect(',')
            tk.expect('label')
            cases.append((v, clean(tk.next())))
        return Inst('switch', None, (c, d, cases), line)
    if op == 'ret':
        if tk.peek() == 'void':
            return Inst('ret', None, (None,), line)
        return Inst('ret', None, (parse_tyval(tk),), line)
    if op == 'unreachable':
        return Inst(op, None, (), line)
    if op == 'resume':
        return Inst(op, None, (parse_tyval(tk),), line)
    if op == 'call':
        return Inst('call', dest, parse_call(tk, op), line)
    if op == 'invoke':
        c = parse_call(tk, op)
        while tk.peek() != 'to':
            tk.next()
        tk.expect('to')
        tk.expect('label')
        n = clean(tk.next())
        tk.expect('unwind')
        tk.expect('label')
        u = clean(tk.next())
        return Inst('invoke', dest, c + (n, u), line)
    if op == 'landingpad':
        t = parse_type(tk)
        cl = []
        cleanup = False
        while not tk.end():
            x = tk.next()
            if x == 'cleanup':
                cleanup = True
            elif x in ('catch', 'filter'):
                cl.append((x,) + parse_tyval(tk))
        return Inst(op, dest, (t, cleanup, cl), line)
    if op == 'extractvalue':
        v = parse_tyval(tk)
        idx = []
        while tk.accept(','):
            idx.append(int(tk.next()))
        return Inst(op, dest, (v, idx), line)
    if op == 'insertvalue':
        v = parse_tyval(tk)
        tk.expect(',')
        e = parse_tyval(tk)
        idx = []
        while tk.accept(','):
            idx.append(int(tk.next()))
        return Inst(op, dest, (v, e, idx), line)
    if op == 'extractelement':
        v = parse_tyval(tk)
        tk.expect(',')
        return Inst(op, dest, (v, parse_tyval(tk)), line)
    if op == 'insertelement':
        v = parse_tyval(tk)
        tk.expect(',')
        e = parse_tyval(tk)
        tk.expect(',')
        return Inst(op, dest, (v, e, parse_tyval(tk)), line)
    if op == 'shufflevector':
        a = parse_tyval(tk)
        tk.expect(',')
        b = parse_tyval(tk)
        tk.expect(',')
        return Inst(op, dest, (a, b, parse_tyval(tk)), line)
    if op == 'freeze':
        return Inst(op, dest, (parse_tyval(tk),), line)
    if op == 'fence':
        return Inst('nop', None, (), line)
    raise ParseError('instruction ' + line)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (type, init or None, const)
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self._raw = {}
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    cur = None
                else:
                    cur.append(line)
                continue
            if line.startswith('define'):
                name = self._fname(line)
                cur = []
                self._raw[name] = (line, cur)
            elif line.startswith('declare'):
                self.decls.add(self._fname(line))
            elif line.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', line)
                if m:
                    tk = Toks(m.group(2))
                    self.types[clean(m.group(1))] = parse_type(tk)
            elif line.startswith('@'):
                self._global(line)

    @staticmethod
    def _fname(line):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', line)
        return clean(m.group(1))

    def _global(self, line):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', line)
        name, rest = clean(m.group(1)), m.group(2)
        if re.search(r'\balias\b', rest) and ' = ' in line:
            mm = re.search(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
            if mm:
                self.aliases[name] = clean(mm.group(1))
            return
        mm = re.search(r'\b(constant|global)\b (.*)', rest)
        if not mm:
            return
        ext = bool(re.match(r'(external|extern_weak|available_externally)?', rest).group(1)) and 'external' in rest.split('global')[0].split('constant')[0]
        body = mm.group(2)
        try:
            tk = Toks(re.sub(r'(, comdat(\([^)]*\))?)?(, align \d+)?(, !.*)?$', '', body))
            t = parse_type(tk)
            init = None
            if not tk.end() and not ext:
                init = parse_const_or_val(tk, t)
        except ParseError:
            t, init = ('int', 8), None
        self.globals[name] = (t, init, mm.group(1) == 'constant')

    def func(self, name):
        name = self.aliases.get(name, name)
        if name in self.funcs:
            return self.funcs[name]
        if name not in self._raw:
            return None
        head, body = self._raw[name]
        f = self._parse_func(head, body)
        self.funcs[name] = f
        return f

    def defined(self):
        return list(self._raw)

    def _parse_func(self, head, body):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', head)
        tk = Toks(head[m.end() - 1:].split(' #')[0].rstrip('{ '))
        tk.expect('(')
        params = []
        anon = 0
        while not tk.accept(')'):
            if tk.accept('...'):
                continue
            t = parse_type(tk)
            skip_attrs(tk)
            if tk.kind() == 'id':
                nm = clean(tk.next())
            else:
                nm = f'%{anon}'
            params.append((t, nm))
            anon += 1
            tk.accept(',')
        pre = head[:m.start()]
        f = Func(clean(m.group(1)), pre, params)
        # number of first unnamed block = number of unnamed params
        label = None
        nun = sum(1 for _, n in params if re.fullmatch(r'%\d+', n))
        blk = None
        # join multi-line instructions (switch, landingpad, invoke)
        lines = []
        i = 0
        while i < len(body):
            ln = body[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            if s.startswith('switch') or ' switch ' in s:
                while ']' not in s.split('[', 1)[-1]:
                    s += ' ' + body[i].strip()
                    i += 1
            elif re.search(r'(^|= )invoke ', s):
                while ' unwind ' not in s:
                    s += ' ' + body[i].strip()
                    i += 1
            elif '= landingpad' in s:
                while i < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            lines.append(s)
        for s in lines:
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if mm and not s.startswith('%'):
                label = clean('%' + mm.group(1))
                blk = f.blocks[label] = []
                f.order.append(label)
                continue
            if blk is None:
                label = f'%{nun}'
                blk = f.blocks[label] = []
                f.order.append(label)
            s = re.sub(r'\s*;.*$', '', s) if '"' not in s else s
            blk.append(parse_inst(s))
        self._postdom(f)
        return f

    @staticmethod
    def succs(blk):
        t = blk[-1]
        if t.op == 'jmp':
            return [t.a[0]]
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [c[1] for c in t.a[2]]
        if t.op == 'invoke':
            return [t.a[-2], t.a[-1]]
        return []

    def _postdom(self, f):
        succ = {b: list(dict.fromkeys(self.succs(f.blocks[b]))) for b in f.order}
        pred = {b: [] for b in f.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # blocks that can reach a return
        live = set(b for b in f.order if f.blocks[b][-1].op == 'ret')
        work = list(live)
        while work:
            b = work.pop()
            for p in pred[b]:
                if p not in live:
                    live.add(p)
                    work.append(p)
        # iterative post-dominators on live blocks (reverse graph from virtual exit)
        EXIT = '<exit>'
        order = []
        seen = set()
        stack = [(EXIT, iter([b for b in f.order if f.blocks[b][-1].op == 'ret']))]
        seen.add(EXIT)
        while stack:
            n, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(pred[p])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        rs = {b: ([s for s in succ[b] if s in live] + ([EXIT] if f.blocks[b][-1].op == 'ret' else [])) for b in live}
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for s in rs[b]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            x, y = new, s
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        f.ipdom = idom
        f.live = live
