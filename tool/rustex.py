"""Mechanical extraction of functions from the sources of /repo and insertion of contracts.

Nothing in here knows what the code is supposed to do: it tokenizes Rust, finds items, loops,
closures and statements, and inserts annotation text at structural anchors.  Comments and
attributes are dropped; every other token of the extracted item is kept, except for the
declared token rewrites, which are listed in the evidence."""
import re, difflib

class LostAnchor(Exception):
    pass

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*|\.(?![.A-Za-z_]))?(?:[eE][+-]?[0-9]+)?(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?)
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
''', re.X | re.S)


class T:
    __slots__ = ('k', 's', 'pre')
    def __init__(self, k, s, pre=''):
        self.k, self.s, self.pre = k, s, pre
    def __repr__(self):
        return self.s


def tokenize(src):
    """list of tokens; comments dropped; .pre holds a newline flag / space"""
    out = []
    pos = 0
    pre = ''
    n = len(src)
    while pos < n:
        m = TOK.match(src, pos)
        if not m:
            raise ValueError('tokenize at %d: %r' % (pos, src[pos:pos + 30]))
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        s = m.group(0)
        pos = m.end()
        if k == 'ws':
            pre = '\n' if '\n' in s or '\n' in pre else ' '
            continue
        if k == 'lc':
            pre = '\n'
            continue
        if k == 'bc':
            depth = 1
            while depth and pos < n:
                a = src.find('*/', pos)
                b = src.find('/*', pos)
                if b != -1 and b < a:
                    depth += 1
                    pos = b + 2
                else:
                    depth -= 1
                    pos = a + 2
            pre = pre or ' '
            continue
        if k == 'op' and s == '>>' :
            # keep as is; generics closing handled by render (harmless)
            pass
        out.append(T('str' if k == 'rstr' else k, s, pre))
        pre = ''
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


def match_close(t, i):
    """index of the bracket closing t[i]"""
    d = 0
    for j in range(i, len(t)):
        s = t[j].s
        if t[j].k == 'op':
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LostAnchor('unbalanced brackets')


def render(t):
    return ''.join((x.pre if x.pre != '' else '') + x.s for x in t)


def render_spaced(t):
    """rendering with explicit spaces (for keys / comparison)"""
    return ' '.join(x.s for x in t)


class Item:
    def __init__(self, kind, name, toks, attrs, impl_header=None, nested=False):
        self.kind, self.name, self.toks, self.attrs = kind, name, toks, attrs
        self.impl_header = impl_header


def strip_attrs(t, i):
    """skip #[..] / #![..] at i; return (i, [attr texts])"""
    attrs = []
    while i < len(t) and t[i].s == '#' and i + 1 < len(t) and (t[i + 1].s == '[' or (t[i + 1].s == '!' and t[i + 2].s == '[')):
        j = i + 1 if t[i + 1].s == '[' else i + 2
        e = match_close(t, j)
        attrs.append(render_spaced(t[i:e + 1]))
        i = e + 1
    return i, attrs


def remove_attrs(t):
    """drop attributes inside an item (e.g. #[allow(..)], #[command(..)])"""
    out = []
    i = 0
    while i < len(t):
        j, a = strip_attrs(t, i)
        if j != i and j <= len(t):
            if j < len(t):
                t[j].pre = t[j].pre or t[i].pre
            i = j
            continue
        out.append(t[i])
        i += 1
    return out


def items(src):
    """top level items and impl methods: dict name -> Item (functions: NAME or TYPE::NAME)"""
    return items_of(tokenize(src))


def items_of(t):
    res = {}
    i = 0
    n = len(t)
    while i < n:
        i, attrs = strip_attrs(t, i)
        if i >= n:
            break
        start = i
        # find end of item: first ';' or '{...}' at depth 0
        j = i
        kw = None
        name = None
        while j < n:
            s = t[j].s
            if t[j].k == 'id' and s in ('fn', 'struct', 'enum', 'static', 'const', 'impl', 'mod', 'use', 'extern', 'trait', 'type', 'macro_rules') and kw is None:
                kw = s
                if s == 'const' and t[j + 1].s in ('fn', 'unsafe'):
                    kw = None
                elif s not in ('impl',):
                    name = t[j + 1].s
            if t[j].k == 'op' and s in OPEN:
                e = match_close(t, j)
                if s == '{' and kw not in ('use', 'static', 'const'):
                    j = e
                    break
                j = e + 1
                continue
            if s == ';':
                break
            j += 1
        end = min(j, n - 1)
        toks = t[start:end + 1]
        test = any('test' in a and ('cfg' in a or a == '# [ test ]') for a in attrs)
        if not test:
            if kw == 'impl':
                # header up to '{'
                b = next(q for q in range(len(toks)) if toks[q].s == '{')
                header = toks[:b]
                # self type: last path id before '{' or where, after optional "for"
                hs = [x.s for x in header]
                if 'where' in hs:
                    hs = hs[:hs.index('where')]
                d = 0
                fi = None
                for q, x in enumerate(hs):
                    if x == 'for' and q > 0 and (q + 1 < len(hs)) and hs[q + 1] != '<':
                        fi = q
                if fi is not None:
                    tn = hs[fi + 1]
                else:
                    q = 1
                    if hs[q] == '<':
                        d = 0
                        while True:
                            if hs[q] == '<':
                                d += 1
                            if hs[q] == '>':
                                d -= 1
                            if hs[q] == '>>':
                                d -= 2
                            q += 1
                            if d <= 0:
                                break
                    tn = hs[q]
                for m in items_of(toks[b + 1:-1]).values():
                    if m.kind == 'fn':
                        m.impl_header = header
                        res[tn + '::' + m.name] = m
            elif kw in ('fn', 'struct', 'enum', 'static', 'const'):
                it = Item(kw, name, toks, attrs)
                key = name
                if key in res:
                    key = name + '#dup'
                res[key] = it
            elif kw == 'mod':
                pass
        i = end + 1
    return res


# ---------------------------------------------------------------- rewriting
def parse_pattern(p):
    return tokenize(p)


def match_at(t, i, pat, pi=0, env=None, end=None):
    """match token pattern; $x matches one or more balanced tokens (shortest), $$x zero or more"""
    env = dict(env or {})
    while pi < len(pat):
        p = pat[pi]
        if p.s == '$':
            zero = False
            if pat[pi + 1].s == '$':
                zero = True
                pi += 1
            name = pat[pi + 1].s
            pi += 2
            j = i
            lim = len(t)
            if zero:
                r = match_at(t, j, pat, pi, {**env, name: t[i:j]})
                if r is not None:
                    return r
            while j < lim:
                s = t[j].s
                if t[j].k == 'op' and s in OPEN:
                    try:
                        j = match_close(t, j) + 1
                    except LostAnchor:
                        return None
                elif t[j].k == 'op' and s in CLOSE:
                    return None
                elif s == ';' and not (zero and pi < len(pat) and pat[pi].s == '}'):
                    return None
                else:
                    j += 1
                r = match_at(t, j, pat, pi, {**env, name: t[i:j]})
                if r is not None:
                    return r
            return None
        if i >= len(t) or t[i].s != p.s:
            return None
        i += 1
        pi += 1
    return i, env


def first_match(t, pat):
    """what the variables of the pattern stand for at the first place where it matches"""
    pat = tokenize(pat)
    for i in range(len(t)):
        r = match_at(t, i, pat)
        if r is not None:
            return r[1]
    return None


def apply_rewrite(t, pat, repl, counter=None):
    pat = tokenize(pat)
    rep = tokenize(repl)
    out = []
    i = 0
    cnt = 0
    while i < len(t):
        r = match_at(t, i, pat)
        if r is None:
            out.append(t[i])
            i += 1
            continue
        e, env = r
        cnt += 1
        new = []
        q = 0
        while q < len(rep):
            if rep[q].s == '$':
                if rep[q + 1].s == '$':
                    q += 1
                sub, _ = apply_rewrite(list(env[rep[q + 1].s]), pat_text(pat), repl) if False else (env[rep[q + 1].s], 0)
                for si, x in enumerate(sub):
                    new.append(T(x.k, x.s, (rep[q].pre or x.pre) if si == 0 else x.pre))
                q += 2
            else:
                new.append(T(rep[q].k, rep[q].s, rep[q].pre))
                q += 1
        if new:
            new[0].pre = t[i].pre or new[0].pre
        out += new
        i = e
    return out, cnt


def pat_text(p):
    return ' '.join(x.s for x in p)


# ---------------------------------------------------------------- structure of a function
class Fn:
    """function tokens; insertions are collected and rendered at the end"""

    def __init__(self, toks):
        self.t = toks
        self.ins_before = {}   # token index -> [text]
        self.ins_after = {}
        self.repl = {}         # token index -> replacement text (None: delete)
        self.analyze()

    def analyze(self):
        t = self.t
        f = next(i for i in range(len(t)) if t[i].s == 'fn')
        self.name_idx = f + 1
        i = f + 2
        if t[i].s == '<':
            d = 0
            while True:
                if t[i].s == '<':
                    d += 1
                elif t[i].s == '>':
                    d -= 1
                elif t[i].s == '>>':
                    d -= 2
                elif t[i].s == '->':
                    pass
                i += 1
                if d <= 0:
                    break
        self.par_open = i
        self.par_close = match_close(t, i)
        i = self.par_close + 1
        self.arrow = None
        self.where = None
        if t[i].s == '->':
            self.arrow = i
        while t[i].s != '{':
            if t[i].s == 'where':
                self.where = i
            if t[i].s in OPEN:
                i = match_close(t, i)
            i += 1
        self.body_open = i
        self.body_close = match_close(t, i)
        # loops in pre-order
        self.loops = []
        for i in range(self.body_open + 1, self.body_close):
            if t[i].k == 'id' and t[i].s in ('while', 'for', 'loop'):
                if t[i].s == 'for' and t[i + 1].s == '<':
                    continue
                j = i + 1
                while t[j].s != '{':
                    if t[j].s in OPEN:
                        j = match_close(t, j)
                    j += 1
                self.loops.append((i, j, match_close(t, j)))
        # closures in pre-order
        self.closures = []
        i = self.body_open + 1
        while i < self.body_close:
            if t[i].s in ('|', '||') and t[i].k == 'op' and t[i - 1].s in ('(', ',', '=', '{', ';', 'move', '=>', 'return'):
                if t[i].s == '||':
                    pe = i
                else:
                    pe = i + 1
                    while t[pe].s != '|':
                        if t[pe].s in OPEN:
                            pe = match_close(t, pe)
                        pe += 1
                b = pe + 1
                if t[b].s == '->':
                    while t[b].s != '{':
                        b += 1
                self.closures.append((i, pe, b, match_close(t, b) if t[b].s == '{' else None))
                i = pe + 1
                continue
            i += 1

    def tail_start(self, o, c):
        """start of the tail expression (or last statement) of the block o..c"""
        t = self.t
        last = o + 1
        i = o + 1
        prev = last
        while i < c:
            s = t[i].s
            if s == ';' and t[i].k == 'op':
                prev = last
                last = i + 1
                i += 1
                continue
            if t[i].k == 'op' and s in OPEN:
                e = match_close(t, i)
                if s == '{' and e + 1 < c:
                    # block-like statement ends here if it starts the statement with a keyword
                    # and next token does not continue the expression
                    if t[last].s in ('while', 'for', 'loop', 'if', 'match', 'unsafe', '{', 'struct', 'fn', 'use', 'enum') and t[e + 1].s not in ('else', '.', '?', 'as') and (t[last].s not in ('struct',) or True):
                        prev = last
                        last = e + 1
                i = e + 1
                continue
            i += 1
        return last if last < c else c

    def stmt_start(self, i):
        """start index of the statement containing token i (same block)"""
        t = self.t
        j = i
        d = 0
        while j > self.body_open:
            s = t[j - 1].s
            if t[j - 1].k == 'op':
                if s in CLOSE:
                    # jump over balanced group, unless it is a block that ends a statement
                    o = self.open_of(j - 1)
                    if s == '}' and d == 0 and self.block_ends_stmt(o, j - 1):
                        return j
                    j = o
                    continue
                if s in OPEN:
                    if s == '{':
                        return j
                    d += 0
                    j -= 1
                    continue
                if s == ';':
                    return j
                if s == '=>' :
                    return j
            j -= 1
        return self.body_open + 1

    def open_of(self, c):
        t = self.t
        d = 0
        for j in range(c, -1, -1):
            if t[j].k == 'op':
                if t[j].s in CLOSE:
                    d += 1
                elif t[j].s in OPEN:
                    d -= 1
                    if d == 0:
                        return j
        raise LostAnchor('unbalanced')

    def block_ends_stmt(self, o, c):
        t = self.t
        if t[c + 1].s in ('else', '.', '?', 'as', ')', ',', ']'):
            return False
        return True

    def find(self, pattern, nth=0):
        pat = tokenize(pattern)
        c = 0
        for i in range(self.body_open + 1, self.body_close):
            r = match_at(self.t[:self.body_close], i, pat)
            if r is not None:
                if c == nth:
                    return i, r[0]
                c += 1
        raise LostAnchor('pattern not found: ' + pattern)

    def stmt_end(self, i):
        """index just after the statement containing token i"""
        t = self.t
        j = i
        while j < self.body_close:
            s = t[j].s
            if t[j].k == 'op' and s in OPEN:
                e = match_close(t, j)
                if s == '{' and self.block_ends_stmt(j, e) and t[self.stmt_start(i)].s in ('while', 'for', 'loop', 'if', 'match', 'unsafe', 'let') and t[e + 1].s != ';':
                    if t[self.stmt_start(i)].s != 'let':
                        return e + 1
                j = e + 1
                continue
            if s == ';':
                return j + 1
            if t[j].k == 'op' and s in CLOSE:
                return j
            j += 1
        return j

    def before(self, i, text):
        self.ins_before.setdefault(i, []).append(text)

    def after(self, i, text):
        self.ins_after.setdefault(i, []).insert(0, text)

    def anchor(self, spec, text):
        m = re.match(r'^(loop|closure)(\d+)\.(begin|end|before|after)$', spec)
        if m:
            arr = self.loops if m.group(1) == 'loop' else self.closures
            k = int(m.group(2))
            if k >= len(arr):
                raise LostAnchor('no %s %d' % (m.group(1), k))
            if m.group(1) == 'loop':
                kw, o, c = arr[k]
            else:
                _, _, o, c = arr[k]
                kw = o
            w = m.group(3)
            if w == 'begin':
                self.after(o, text)
            elif w == 'end':
                # before the closing brace (after the last statement)
                self.before(c, text)
            elif w == 'before':
                # a loop label or let binding starts the statement
                s = self.stmt_start(kw)
                self.before(s, text)
            else:
                e = self.stmt_end(kw)
                self.before(e, text)
            return
        if spec == 'start':
            self.after(self.body_open, text)
            return
        if spec == 'end':
            i = self.tail_start(self.body_open, self.body_close)
            self.before(i, text)
            return
        if spec == 'tail':
            # the value of the tail expression gets the name `result`
            i = self.tail_start(self.body_open, self.body_close)
            if i >= self.body_close:
                raise LostAnchor('no tail expression')
            self.before(i, 'let result = ')
            self.before(self.body_close, ';\n' + text + '\nresult\n')
            return
        if spec == 'close':
            self.before(self.body_close, text)
            return
        m = re.match(r'^(before|after|in)(?:\s+(\d+))?\s+`(.*)`$', spec, re.S)
        if m:
            i, e = self.find(m.group(3), int(m.group(2) or 0))
            if m.group(1) == 'before':
                self.before(self.stmt_start(i), text)
            elif m.group(1) == 'after':
                self.before(self.stmt_end(i), text)
            else:
                # directly behind the matched tokens
                self.after(e - 1, text)
            return
        raise LostAnchor('unknown anchor ' + spec)

    def loop_spec(self, k, text, iter_name=None, var=None):
        if k >= len(self.loops):
            raise LostAnchor('no loop %d' % k)
        kw, o, c = self.loops[k]
        self.before(o, '\n' + text + '\n')
        if self.t[kw].s == 'for':
            if iter_name:
                j = kw
                while self.t[j].s != 'in':
                    j += 1
                self.after(j, ' %s:' % iter_name)
            if var and self.t[kw + 1].s == '_':
                self.repl[kw + 1] = var

    def closure_header(self, k, text):
        if k >= len(self.closures):
            raise LostAnchor('no closure %d' % k)
        i, pe, b, c = self.closures[k]
        for q in range(i, b):
            self.repl[q] = None
        if c is None:
            # expression closure: wrap into a block; the expression ends at the next , or ) at depth 0
            j = b
            while self.t[j].s not in (',', ')', ';'):
                if self.t[j].s in OPEN:
                    j = match_close(self.t, j)
                j += 1
            self.before(b, text + ' {')
            self.before(j, '}')
        else:
            self.before(b, text + ' ')

    def render(self, ret=None, spec=''):
        out = []
        t = self.t
        if ret and self.arrow is not None:
            a = self.arrow
            e = self.where if self.where is not None else self.body_open
            self.after(a, ' (%s: ' % ret)
            self.after(e - 1, ')')
        if spec:
            self.before(self.body_open, '\n' + spec + '\n')
        for i, x in enumerate(t):
            for s in self.ins_before.get(i, []):
                out.append(s)
            if i in self.repl:
                if self.repl[i] is not None:
                    out.append((x.pre or ' ') + self.repl[i])
            else:
                out.append(x.pre + x.s)
            for s in self.ins_after.get(i, []):
                out.append(s)
        return ''.join(out)


# ---------------------------------------------------------------- renaming inference
def rename_map(old, new):
    """old/new: token string lists; map of identifiers renamed consistently"""
    isid = re.compile(r'^[a-z_][A-Za-z0-9_]*$')
    KW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while usize u8 u16 u32 u64 i32 i64 isize bool'.split())
    if old == new:
        return {}
    so, sn = set(old), set(new)
    # align with the names that both have kept, then with all names left open
    res = align_names(old, new, lambda x: '\0' if isid.match(x) and x not in KW and not (x in so and x in sn) else x, isid, KW)
    more = align_names(old, new, lambda x: '\0' if isid.match(x) and x not in KW else x, isid, KW)
    for x, y in more.items():
        if x not in res and y not in res.values():
            res[x] = y
    if len(set(res.values())) != len(res):
        return {}
    return res


def align_names(old, new, f, isid, KW):
    sm = difflib.SequenceMatcher(None, [f(x) for x in old], [f(x) for x in new], autojunk=False)
    votes = {}
    for tag, a0, a1, b0, b1 in sm.get_opcodes():
        if tag == 'equal':
            for x, y in zip(old[a0:a1], new[b0:b1]):
                if isid.match(x) and x not in KW:
                    votes.setdefault(x, {}).setdefault(y, 0)
                    votes[x][y] += 1
    newset = set(new)
    res = {}
    for x, v in votes.items():
        if x in newset:
            continue  # still used under its old name
        y = max(v, key=v.get)
        if y != x and v[y] * 2 > sum(v.values()) and y not in old:
            res[x] = y
    if len(set(res.values())) != len(res):
        return {}
    return res
