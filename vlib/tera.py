"""A small interpreter for the subset of the Tera template language acados' templates use.

The t_renderer binary acados downloads at run time cannot be fetched offline.
Semantics follow Tera 1.x (scoping of set / set_global, truthiness, numeric
comparison, filters, white-space control).
"""
import glob as _glob
import json
import os
import re


class TeraError(Exception):
    pass


_TAG = re.compile(r'(\{\{-?|\{%-?|\{#-?)')
_TOK = re.compile(r'''\s*(?:
    (?P<num>\d+\.\d+|\d+)
  | (?P<str>"[^"]*"|'[^']*'|`[^`]*`)
  | (?P<op>==|!=|<=|>=|::|[-+*/%~<>=()\[\]|.,:])
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
)''', re.X)

_UNDEF = object()


def _split(src):
    out = []  # (kind, text)
    pos = 0
    strip_next = False
    n = len(src)
    while pos < n:
        m = _TAG.search(src, pos)
        if not m:
            txt = src[pos:]
            if strip_next:
                txt = txt.lstrip()
            out.append(('text', txt))
            break
        txt = src[pos:m.start()]
        if strip_next:
            txt = txt.lstrip()
        op = m.group(1)
        if op.endswith('-'):
            txt = txt.rstrip()
        if txt:
            out.append(('text', txt))
        close = {'{{': '}}', '{%': '%}', '{#': '#}'}[op[:2]]
        if close == '#}':
            end = src.find(close, m.end())
        else:
            end = _find_close(src, m.end(), close)
        if end < 0:
            raise TeraError('unterminated tag at %d: %r' % (m.start(), src[m.start():m.start() + 60]))
        body = src[m.end():end]
        strip_next = body.endswith('-')
        if strip_next:
            body = body[:-1]
        if op[:2] == '{{':
            out.append(('expr', body))
        elif op[:2] == '{%':
            out.append(('tag', body.strip()))
        pos = end + 2
    return out


def _find_close(src, pos, close):
    q = None
    n = len(src)
    while pos < n:
        c = src[pos]
        if q:
            if c == q:
                q = None
        elif c in '"\'`':
            q = c
        elif src.startswith(close, pos):
            return pos
        pos += 1
    return -1


def _lex(s):
    toks = []
    pos = 0
    s = s.strip()
    while pos < len(s):
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise TeraError('cannot lex %r' % s[pos:])
        k = m.lastgroup
        toks.append((k, m.group(k)))
        pos = m.end()
        while pos < len(s) and s[pos].isspace():
            pos += 1
    return toks


class _P:
    """Expression parser producing closures f(ctx)."""

    def __init__(self, s):
        self.s = s
        self.t = _lex(s)
        self.i = 0

    def peek(self, v=None):
        if self.i >= len(self.t):
            return None
        return self.t[self.i] if v is None else (self.t[self.i][1] == v and self.t[self.i][0] != 'str')

    def eat(self, v=None):
        if self.i >= len(self.t):
            raise TeraError('unexpected end of %r' % self.s)
        tok = self.t[self.i]
        if v is not None and (tok[1] != v or tok[0] == 'str'):
            raise TeraError('expected %s got %s in %r' % (v, tok, self.s))
        self.i += 1
        return tok

    def done(self):
        if self.i != len(self.t):
            raise TeraError('trailing tokens in %r' % self.s)

    # logic ------------------------------------------------------------------
    def expr(self):
        return self.or_()

    def or_(self):
        l = self.and_()
        while self.peek('or'):
            self.eat()
            r = self.and_()
            l = self._mk_or(l, r)
        return l

    @staticmethod
    def _mk_or(l, r):
        return lambda c: truthy(l(c)) or truthy(r(c))

    def and_(self):
        l = self.not_()
        while self.peek('and'):
            self.eat()
            r = self.not_()
            l = self._mk_and(l, r)
        return l

    @staticmethod
    def _mk_and(l, r):
        return lambda c: truthy(l(c)) and truthy(r(c))

    def not_(self):
        if self.peek('not'):
            self.eat()
            e = self.not_()
            return lambda c: not truthy(e(c))
        return self.cmp()

    def cmp(self):
        l = self.filtered()
        if self.peek('is'):
            self.eat()
            neg = False
            if self.peek('not'):
                self.eat()
                neg = True
            name = self.eat()[1]
            args = []
            if self.peek('('):
                self.eat()
                while not self.peek(')'):
                    args.append(self.expr())
                    if self.peek(','):
                        self.eat()
                self.eat(')')
            f = _TESTS.get(name)
            if f is None:
                raise TeraError('unknown test ' + name)
            return lambda c: bool(f(l(c), *[a(c) for a in args])) != neg
        for op in ('==', '!=', '<=', '>=', '<', '>'):
            if self.peek(op):
                self.eat()
                r = self.filtered()
                return self._mk_cmp(op, l, r)
        return l

    @staticmethod
    def _mk_cmp(op, l, r):
        def f(c):
            a, b = l(c), r(c)
            if a is _UNDEF or b is _UNDEF:
                raise TeraError('undefined variable in comparison')
            if op in ('==', '!='):
                na, nb = isnum(a), isnum(b)
                if na != nb:
                    return False
                if not na and type(a) is not type(b):
                    return op == '!='
                return (a == b) == (op == '==')
            if not isnum(a) or not isnum(b):
                raise TeraError('ordering comparison of non-numbers %r %r' % (a, b))
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return f

    def filtered(self):
        e = self.concat()
        while self.peek('|'):
            self.eat()
            name = self.eat()[1]
            kw = {}
            if self.peek('('):
                self.eat()
                while not self.peek(')'):
                    k = self.eat()[1]
                    self.eat('=')
                    kw[k] = self.expr()
                    if self.peek(','):
                        self.eat()
                self.eat(')')
            e = self._mk_filter(name, e, kw)
        return e

    @staticmethod
    def _mk_filter(name, e, kw):
        f = _FILTERS.get(name)
        if f is None:
            raise TeraError('unknown filter ' + name)
        if name == 'default':
            def g(c):
                v = e(c)
                return kw['value'](c) if v is _UNDEF else v
            return g

        def g(c):
            v = e(c)
            if v is _UNDEF:
                raise TeraError('undefined variable passed to filter ' + name)
            return f(v, **{k + '_': a(c) for k, a in kw.items()})
        return g

    def concat(self):
        l = self.add()
        if self.peek('~'):
            parts = [l]
            while self.peek('~'):
                self.eat()
                parts.append(self.add())
            return lambda c: ''.join(render_value(p(c)) for p in parts)
        return l

    def add(self):
        l = self.mul()
        while self.peek('+') or self.peek('-'):
            op = self.eat()[1]
            r = self.mul()
            l = self._mk_arith(op, l, r)
        return l

    def mul(self):
        l = self.unary()
        while self.peek('*') or self.peek('/') or self.peek('%'):
            op = self.eat()[1]
            r = self.unary()
            l = self._mk_arith(op, l, r)
        return l

    @staticmethod
    def _mk_arith(op, l, r):
        def f(c):
            a, b = l(c), r(c)
            if not isnum(a) or not isnum(b):
                raise TeraError('arithmetic on non-numbers: %r %s %r' % (a, op, b))
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b == 0:
                    raise TeraError('division by zero')
                return float(a) / float(b)
            return a % b
        return f

    def unary(self):
        if self.peek('-'):
            self.eat()
            e = self.unary()
            return lambda c: -e(c)
        if self.peek('('):
            self.eat()
            e = self.expr()
            self.eat(')')
            return e
        if self.peek('['):
            self.eat()
            items = []
            while not self.peek(']'):
                items.append(self.expr())
                if self.peek(','):
                    self.eat()
            self.eat(']')

            def f(c):
                out = []
                for it in items:
                    v = it(c)
                    if v is _UNDEF:
                        raise TeraError('undefined variable in array literal')
                    out.append(v)
                return out
            return f
        k, v = self.eat()
        if k == 'num':
            val = float(v) if '.' in v else int(v)
            return lambda c: val
        if k == 'str':
            sv = v[1:-1]
            return lambda c: sv
        if k != 'id':
            raise TeraError('unexpected %r in %r' % (v, self.s))
        if v in ('true', 'True'):
            return lambda c: True
        if v in ('false', 'False'):
            return lambda c: False
        if v == 'range' and self.peek('('):
            self.eat()
            kw = {}
            while not self.peek(')'):
                kk = self.eat()[1]
                self.eat('=')
                kw[kk] = self.expr()
                if self.peek(','):
                    self.eat()
            self.eat(')')

            def f(c):
                a = {kk: e(c) for kk, e in kw.items()}
                for kk, x in a.items():
                    if isinstance(x, bool) or not isinstance(x, int):
                        raise TeraError('range argument %s=%r is not an integer' % (kk, x))
                st, en = a.get('start', 0), a['end']
                if st > en:
                    raise TeraError('range: start > end (%d > %d)' % (st, en))
                return list(range(st, en, a.get('step_by', 1)))
            return f
        # identifier path
        path = []
        while True:
            if self.peek('.'):
                self.eat()
                kk, vv = self.eat()
                path.append(int(vv) if kk == 'num' else vv)
            elif self.peek('['):
                self.eat()
                path.append(self.expr())
                self.eat(']')
            else:
                break

        def f(c):
            x = c.lookup(v)
            for p in path:
                if x is _UNDEF:
                    return x
                if callable(p):
                    p = p(c)
                    if p is _UNDEF:
                        raise TeraError('undefined index of %s' % v)
                if isinstance(x, dict):
                    x = x.get(p, _UNDEF)
                elif isinstance(x, list):
                    if isinstance(p, int) and 0 <= p < len(x):
                        x = x[p]
                    else:
                        return _UNDEF
                else:
                    return _UNDEF
            return x
        return f


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def truthy(v):
    if v is _UNDEF or v is None:
        return False
    if isinstance(v, bool):
        return v
    if isnum(v):
        return v != 0 and v == v
    return len(v) > 0


def render_value(v):
    if v is _UNDEF:
        raise TeraError('undefined variable rendered')
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if v is None:
        return ''
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return 'null'
        return repr(v)
    if isinstance(v, list):
        return '[' + ', '.join(render_value(x) for x in v) + ']'
    if isinstance(v, dict):
        return '[object]'
    return str(v)


def _upper(v):
    if not isinstance(v, str):
        raise TeraError('upper on non-string %r' % (v,))
    return v.upper()


def _lower(v):
    return v.lower()


def _first(v):
    if not isinstance(v, list):
        raise TeraError('first on non-array')
    return v[0] if v else ''


def _last(v):
    if not isinstance(v, list):
        raise TeraError('last on non-array')
    return v[-1] if v else ''


def _replace(v, from_, to_):
    return v.replace(from_, to_)


def _concat(v, with_):
    return v + (with_ if isinstance(with_, list) else [with_])


_FILTERS = dict(upper=_upper, lower=_lower, first=_first, last=_last, sort=lambda v: sorted(v), length=len,
                replace=_replace, concat=_concat, default=None, trim=lambda v: v.strip(),
                reverse=lambda v: v[::-1], join=lambda v, sep_='': sep_.join(render_value(x) for x in v),
                unique=lambda v: [x for i, x in enumerate(v) if x not in v[:i]],
                as_str=render_value, int=lambda v: int(v), float=lambda v: float(v), round=lambda v: round(v))
_FILTERS['default'] = lambda v, value_: v


def _containing(v, x):
    if isinstance(v, str):
        return x in v
    if isinstance(v, list):
        return any(type(x) is type(y) and x == y for y in v)
    if isinstance(v, dict):
        return x in v
    raise TeraError('containing on %r' % (v,))


_TESTS = dict(containing=_containing, defined=lambda v: v is not _UNDEF, undefined=lambda v: v is _UNDEF,
              starting_with=lambda v, x: v.startswith(x), ending_with=lambda v, x: v.endswith(x),
              odd=lambda v: v % 2 == 1, even=lambda v: v % 2 == 0, string=lambda v: isinstance(v, str),
              number=isnum, iterable=lambda v: isinstance(v, (list, dict)),
              divisibleby=lambda v, x: v % x == 0)


class _Ctx:
    def __init__(self, data):
        self.data = data
        self.frames = [{}]

    def lookup(self, k):
        for f in reversed(self.frames):
            if k in f:
                return f[k]
        return self.data.get(k, _UNDEF)


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def _parse_block(toks, i, until):
    """returns (nodes, i, tagword) where tagword is the terminating tag"""
    nodes = []
    while i < len(toks):
        kind, txt = toks[i]
        if kind == 'text':
            nodes.append(('text', txt))
            i += 1
            continue
        if kind == 'expr':
            p = _P(txt)
            e = p.expr()
            p.done()
            nodes.append(('expr', e, txt))
            i += 1
            continue
        word = re.match(r'[a-z_]+', txt)
        if not word:
            raise TeraError('bad tag %r' % txt)
        w = word.group(0)
        rest = txt[word.end():].strip()
        if w in until:
            return nodes, i, w, rest
        if w == 'if':
            arms = []
            p = _P(rest)
            cond = p.expr()
            p.done()
            els = None
            while True:
                body, i, w2, rest2 = _parse_block(toks, i + 1, ('elif', 'else', 'endif'))
                if cond is None:
                    els = body
                else:
                    arms.append((cond, body, rest))
                if w2 == 'endif':
                    break
                if w2 == 'elif':
                    p = _P(rest2)
                    cond = p.expr()
                    p.done()
                    rest = rest2
                else:
                    cond = None
            nodes.append(('if', arms, els))
            i += 1
        elif w == 'for':
            m = re.match(r'([A-Za-z_]\w*)(?:\s*,\s*([A-Za-z_]\w*))?\s+in\s+(.*)$', rest, re.S)
            if not m:
                raise TeraError('bad for %r' % rest)
            p = _P(m.group(3))
            it = p.expr()
            p.done()
            body, i, w2, _ = _parse_block(toks, i + 1, ('endfor', 'else'))
            els = None
            if w2 == 'else':
                els, i, w2, _ = _parse_block(toks, i + 1, ('endfor',))
            nodes.append(('for', m.group(1), m.group(2), it, body, els, rest))
            i += 1
        elif w in ('set', 'set_global'):
            m = re.match(r'([A-Za-z_]\w*)\s*=(.*)$', rest, re.S)
            if not m:
                raise TeraError('bad set %r' % rest)
            p = _P(m.group(2))
            e = p.expr()
            p.done()
            nodes.append((w, m.group(1), e, rest))
            i += 1
        elif w in ('break', 'continue'):
            nodes.append((w,))
            i += 1
        else:
            raise TeraError('unsupported tag %r' % txt)
    if until:
        raise TeraError('missing %s' % (until,))
    return nodes, i, None, None


def _exec(nodes, ctx, out):
    for nd in nodes:
        k = nd[0]
        if k == 'text':
            out.append(nd[1])
        elif k == 'expr':
            try:
                out.append(render_value(nd[1](ctx)))
            except TeraError as e:
                raise TeraError('%s in {{ %s }}' % (e, nd[2].strip())) from None
        elif k == 'if':
            for cond, body, txt in nd[1]:
                try:
                    t = truthy(cond(ctx))
                except TeraError as e:
                    raise TeraError('%s in {%% if %s %%}' % (e, txt)) from None
                if t:
                    _exec(body, ctx, out)
                    break
            else:
                if nd[2] is not None:
                    _exec(nd[2], ctx, out)
        elif k == 'for':
            _, v1, v2, it, body, els, txt = nd
            seq = it(ctx)
            if seq is _UNDEF:
                raise TeraError('undefined container in {%% for %s %%}' % txt)
            if isinstance(seq, dict):
                items = [(a, seq[a]) for a in sorted(seq)]
            else:
                if not isinstance(seq, (list, str)):
                    raise TeraError('iterating over %r in for %s' % (seq, txt))
                items = [(None, x) for x in seq]
            if not items and els is not None:
                _exec(els, ctx, out)
            n = len(items)
            for idx, (a, b) in enumerate(items):
                fr = {'loop': {'index': idx + 1, 'index0': idx, 'first': idx == 0, 'last': idx == n - 1}}
                if v2 is not None:
                    fr[v1], fr[v2] = a, b
                else:
                    fr[v1] = b
                ctx.frames.append(fr)
                depth = len(ctx.frames)
                try:
                    _exec(body, ctx, out)
                except _Break:
                    del ctx.frames[depth:]
                    break
                except _Continue:
                    del ctx.frames[depth:]
                finally:
                    del ctx.frames[depth - 1:]
        elif k == 'set':
            try:
                v = nd[2](ctx)
            except TeraError as e:
                raise TeraError('%s in {%% set %s %%}' % (e, nd[3])) from None
            if v is _UNDEF:
                raise TeraError('undefined in {%% set %s %%}' % nd[3])
            ctx.frames[-1][nd[1]] = v
        elif k == 'set_global':
            v = nd[2](ctx)
            if v is _UNDEF:
                raise TeraError('undefined in {%% set_global %s %%}' % nd[3])
            ctx.frames[0][nd[1]] = v
        elif k == 'break':
            raise _Break()
        elif k == 'continue':
            raise _Continue()


_cache = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        with open(path) as f:
            src = f.read()
        try:
            nodes, _, _, _ = _parse_block(_split(src), 0, ())
        except TeraError as e:
            raise TeraError('%s: %s' % (path, e)) from None
        _cache[key] = nodes
    return _cache[key]


def render(path, data):
    out = []
    _exec(parse_file(path), _Ctx(data), out)
    return ''.join(out)


def find_template(template_glob, in_file):
    base = template_glob.split('*')[0]
    p = os.path.join(base, in_file)
    if os.path.exists(p):
        return p
    for f in _glob.glob(template_glob, recursive=True):
        if os.path.isfile(f) and (f.endswith('/' + in_file)):
            return f
    raise TeraError('template %s not found in %s' % (in_file, template_glob))


def main(argv):
    if len(argv) == 2 and argv[1] == '--version':
        print('t_renderer 0.2.1')
        return 0
    _, tglob, in_file, json_path, out_file = argv
    with open(json_path) as f:
        data = json.load(f)
    s = render(find_template(tglob, in_file), data)
    with open(out_file, 'w') as f:
        f.write(s)
    return 0
