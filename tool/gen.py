"""Generate the Verus crate of a property from /repo's current sources and the committed contracts."""
import os, re, json, sys, ast
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustex as rx
import inline
from rustex import LostAnchor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CON = os.path.join(ROOT, 'contracts')

# token rewrites applied to every extracted item; (pattern, replacement, what it means)
GLOBAL_RW = [
    ('std::io::', 'vio::', 'std::io -> module vio (streams with ghost contents, see theory stream)'),
    ('info!($$a);', '', 'log macro dropped'),
    ('debug!($$a);', '', 'log macro dropped'),
    ('if log_enabled!($$a) { $$b }', '', 'logging block dropped'),
    ('env_logger::init();', '', 'logger setup dropped'),
    ('use std::time::Instant;', '', 'time measurement dropped'),
    ('let now = Instant::now();', '', 'time measurement dropped'),
    ('let mut now = Instant::now();', '', 'time measurement dropped'),
    ('now = Instant::now();', '', 'time measurement dropped'),
    ('let result_format = format!($$a);', '', 'result prefix (file name, length) dropped'),
    ('assert_gt!($a, $b);', 'runtime_assert(($a) > ($b));', 'assertion macro -> proof obligation'),
    ('assert_gt!($a, $b)', 'runtime_assert(($a) > ($b))', 'assertion macro -> proof obligation'),
    ('assert_lt!($a, $b)', 'runtime_assert(($a) < ($b))', 'assertion macro -> proof obligation'),
    ('assert_le!($a, $b)', 'runtime_assert(($a) <= ($b))', 'assertion macro -> proof obligation'),
    ('assert_ge!($a, $b)', 'runtime_assert(($a) >= ($b))', 'assertion macro -> proof obligation'),
    ('debug_assert_gt!($a, $b)', 'runtime_assert(($a) > ($b))', 'debug assertion -> proof obligation'),
    ('debug_assert_lt!($a, $b)', 'runtime_assert(($a) < ($b))', 'debug assertion -> proof obligation'),
    ('assert_eq!($a, $b)', 'runtime_assert(($a) == ($b))', 'assertion macro -> proof obligation'),
    ('debug_assert_eq!($a, $b)', 'runtime_assert(($a) == ($b))', 'debug assertion -> proof obligation'),
    ('unreachable!()', 'runtime_unreachable()', 'unreachable!() -> obligation: not reached'),
    ('panic!($$a)', 'runtime_unreachable()', 'panic!() -> obligation: not reached'),
]

# streams can fail (the property about failing streams)
FAULTS = False
ENDS = '''
verus! {

// every operation on a stream can fail
pub open spec fn faults() -> bool { %s }

// a panic ends the tool unsuccessfully
#[verifier::external_body]
pub fn ends_unsuccessfully() -> (r: !)
    requires faults(),
{
    panic!()
}

// std::process::exit where valid arguments do not lead; with failing streams, an unsuccessful end
pub fn exits(code: i32) -> (r: !)
    requires faults(), code != 0,
{
    ends_unsuccessfully()
}

} // verus!
'''

MACRO_ASSERT = ('assert', 'debug_assert')


def split_args(t, o, c):
    """top-level comma separated token groups of t[o+1:c]"""
    res = [[]]
    i = o + 1
    while i < c:
        s = t[i].s
        if t[i].k == 'op' and s in rx.OPEN:
            e = rx.match_close(t, i)
            res[-1] += t[i:e + 1]
            i = e + 1
            continue
        if s == ',':
            res.append([])
            i += 1
            continue
        # closures |a, b| contain commas
        if s == '|' and t[i - 1].s in ('(', ',', '='):
            j = i + 1
            while t[j].s != '|':
                j += 1
            res[-1] += t[i:j + 1]
            i = j + 1
            continue
        res[-1].append(t[i])
        i += 1
    if res and not res[-1]:
        res.pop()
    return res


def assert_macros(t, used):
    """assert!(c, msg..) / assert_xx!(a, b, msg..) -> runtime_assert(..)"""
    ops = {'assert_gt': '>', 'assert_lt': '<', 'assert_ge': '>=', 'assert_le': '<=', 'assert_eq': '==', 'assert_ne': '!='}
    out = []
    i = 0
    while i < len(t):
        s = t[i].s
        base = s[6:] if s.startswith('debug_assert') else s
        if t[i].k == 'id' and i + 2 < len(t) and t[i + 1].s == '!' and t[i + 2].s in ('(', '[', '{') and (base in ops or base == 'assert'):
            c = rx.match_close(t, i + 2)
            args = split_args(t, i + 2, c)
            used.add('%s! -> proof obligation runtime_assert' % s)
            mk = lambda x, p='': rx.T('op', x, p)
            def par(a):
                a = [rx.T(x.k, x.s, x.pre) for x in a]
                if len(a) == 1:
                    return a
                return [mk('(')] + a + [mk(')')]
            if base == 'assert':
                body = args[0]
            else:
                body = par(args[0]) + [mk(ops[base], ' ')] + par(args[1])
            out += [rx.T('id', 'runtime_assert', t[i].pre), mk('(')] + body + [mk(')')]
            i = c + 1
            continue
        out.append(t[i])
        i += 1
    return out


def byte_strings(t, used):
    """b"ab" -> &[97u8, 98u8] (the verifier does not know the contents of byte string literals)"""
    out = []
    for x in t:
        if x.k == 'str' and x.s.startswith('b"'):
            out += rx.tokenize('&[%s]' % ', '.join('%du8' % b for b in ast.literal_eval(x.s)))
            used.add('byte string literal -> reference to the array of its bytes')
        else:
            out.append(x)
    return out


def drop_continue(t, used):
    """in for loops: `if C { A; continue; } REST }` -> `if C { A; } else { REST } }` when the block is in
    tail position of the loop body (the verifier has no continue in for loops)"""
    def enclosing(i):
        d = 0
        for j in range(i, -1, -1):
            if t[j].k == 'op':
                if t[j].s in rx.CLOSE:
                    d += 1
                elif t[j].s in rx.OPEN:
                    if d == 0:
                        return j
                    d -= 1
        return None

    def loop_kw(o):
        """keyword that starts the statement whose block opens at o"""
        j = o - 1
        while j >= 0:
            if t[j].k == 'op' and t[j].s in rx.CLOSE:
                c = enclosing(j - 1)
                if t[j].s == '}':
                    return None
                j = c - 1
                continue
            if t[j].k == 'op' and t[j].s in ('{', ';', '}', '=>', '(', '['):
                return None
            if t[j].k == 'id' and t[j].s in ('for', 'while', 'loop', 'if', 'match', 'else', 'unsafe'):
                return t[j].s
            j -= 1
        return None
    again = True
    while again:
        again = False
        for i in range(len(t) - 2):
            if not (t[i].s == 'continue' and t[i + 1].s == ';' and t[i + 2].s == '}'):
                continue
            o = enclosing(i - 1)
            if loop_kw(o) != 'if' or t[i + 3].s == 'else':
                continue
            b = enclosing(o - 1)          # block that contains the if statement
            e = rx.match_close(t, b)
            # every block up to the loop must be in tail position
            x, ok = b, False
            while x is not None:
                if t[x].s != '{':
                    break
                kw = loop_kw(x)
                if kw in ('for', 'while', 'loop'):
                    ok = kw == 'for'
                    break
                y = rx.match_close(t, x)
                z = y + 1
                while t[z].s == 'else':
                    while t[z].s != '{':
                        z += 1
                    z = rx.match_close(t, z) + 1
                if t[x - 1].s == '=>':
                    x = enclosing(x - 1)   # arm of a match: its own block must be last
                    continue
                if t[z].s != '}' and not (t[z].s == ';' and t[z + 1].s == '}'):
                    break
                x = enclosing(x - 1)
            if not ok:
                continue
            mk = lambda s: rx.T('op', s, ' ')
            used.add('continue at the end of an if block in a for loop -> else branch')
            t[:] = t[:i] + [t[i + 2]] + [rx.T('id', 'else', ' '), mk('{')] + t[i + 3:e] + [mk('}')] + t[e:]
            again = True
            break
    return t


def drop_mod_paths(t, used):
    out = []
    i = 0
    while i < len(t):
        if t[i].k == 'id' and t[i].s in ('core', 'io', 'word', 'crate', 'stringology') and i + 1 < len(t) and t[i + 1].s == '::' and not (i > 0 and t[i - 1].s == '::'):
            used.add('module path %s:: dropped (one flat crate)' % t[i].s)
            t[i + 2].pre = t[i].pre
            i += 2
            continue
        out.append(t[i])
        i += 1
    return out


def hoist_structs(t, used):
    """struct declared inside a function body -> module level (the verifier rejects nested items)"""
    out, top = [], []
    i = 0
    seen = False
    while i < len(t):
        if t[i].s == '{':
            seen = True
        if seen and t[i].k == 'id' and t[i].s == 'struct' and t[i - 1].s in ('{', '}', ';') and t[i + 2].s == '{':
            c = rx.match_close(t, i + 2)
            top += t[i:c + 1]
            used.add('struct %s declared in a function body moved to module level' % t[i + 1].s)
            i = c + 1
            continue
        out.append(t[i])
        i += 1
    return out, top


def nested_fn(t, i):
    """end of the function declared at t[i] inside a function body, None if there is none"""
    if t[i].k == 'id' and t[i].s == 'fn' and t[i + 1].k == 'id' and t[i - 1].s in ('{', '}', ';'):
        j = i
        while t[j].s not in ('{', ';'):
            j = rx.match_close(t, j) + 1 if t[j].s in ('(', '[') else j + 1
        return rx.match_close(t, j) if t[j].s == '{' else None
    return None


def drop_fns(t, used):
    """functions declared inside a function body have contracts of their own"""
    out = []
    i = 0
    seen = False
    while i < len(t):
        e = nested_fn(t, i) if seen else None
        if t[i].s == '{':
            seen = True
        if e is not None:
            used.add('fn %s declared in a function body moved to module level' % t[i + 1].s)
            i = e + 1
            continue
        out.append(t[i])
        i += 1
    return out


def find_fn(items, key):
    """Outer::inner: a function declared in the body of Outer (or, after a refactoring, at module level)"""
    it = items.get(key)
    if it is None and '::' in key:
        outer, inner = key.split('::', 1)
        o = items.get(outer)
        if o is not None and o.kind == 'fn':
            t = o.toks
            for i in range(1, len(t)):
                if t[i].s == 'fn' and t[i + 1].s == inner:
                    e = nested_fn(t, i)
                    if e is not None:
                        return rx.Item('fn', inner, t[i:e + 1], [])
            return items.get(inner)
    return it


def floats(t, used):
    """f64 -> Real (exact real arithmetic)"""
    out = []
    for x in t:
        if x.k == 'id' and x.s == 'f64' and len(out) >= 2 and out[-1].s == 'as':
            out.pop()
            j = len(out) - 1
            while True:
                if out[j].s in (')', ']'):
                    d = 0
                    while True:
                        if out[j].s in (')', ']'):
                            d += 1
                        elif out[j].s in ('(', '['):
                            d -= 1
                            if d == 0:
                                break
                        j -= 1
                    if out[j - 1].k == 'id' and out[j - 1].s not in ('in', 'return', 'if', 'else', 'match') or out[j - 1].s in (')', ']'):
                        j -= 1
                        continue
                if out[j - 1].s in ('.', '::'):
                    j -= 2
                    continue
                break
            pre = out[j].pre
            out[j].pre = ''
            out[j:] = [rx.T('id', 'real_of', pre), rx.T('op', '(')] + out[j:] + [rx.T('id', 'as', ' '), rx.T('id', 'u64', ' '), rx.T('op', ')')]
            used.add('f64 -> Real: floating-point arithmetic taken as exact arithmetic on real numbers')
            continue
        m = re.match(r'^(\d+)\.0*(_?f64)?$', x.s)
        if m and x.k not in ('id', 'op', 'str'):
            out += [rx.T('id', 'real_of', x.pre), rx.T('op', '('), rx.T(x.k, m.group(1)), rx.T('op', ')')]
            continue
        if x.k == 'id' and x.s == 'f64':
            x = rx.T('id', 'Real', x.pre)
        out.append(x)
    return out


class Overlay:
    def __init__(self, path):
        self.path = path
        self.fn = None
        self.ret = None
        self.theory = []
        self.calls = []
        self.items = []
        self.attrs = []
        self.sections = []   # (kind, arg, text)
        self.rw = []
        self.trust = []
        self.opts = {}
        self.exhaustive = None
        cur = None
        for line in open(path):
            if line.startswith('@'):
                m = re.match(r'@(\w+)\s*(.*?)\s*$', line)
                kw, arg = m.group(1), m.group(2)
                cur = None
                if kw == 'fn':
                    self.fn = arg
                elif kw == 'ret':
                    self.ret = arg
                elif kw == 'theory':
                    self.theory += arg.split()
                elif kw == 'calls':
                    self.calls += arg.split()
                elif kw == 'items':
                    self.items += arg.split()
                elif kw == 'attr':
                    self.attrs.append(arg)
                elif kw == 'trust':
                    self.trust.append(arg)
                elif kw == 'opt':
                    k, v = arg.split('=', 1)
                    self.opts[k] = v
                elif kw == 'exhaustive':
                    # what the stand-in of the statement assumes, decided by running the real
                    # expression on every value of its argument
                    m = re.match(r'^(\w+): (\w+) in (\d+)\.\.=(\d+) ensures `(.*)` shows `(.*)`$', arg)
                    self.exhaustive = m.groups()
                elif kw == 'rw':
                    m = re.match(r'^`(.*)`\s*=>\s*`(.*)`\s*(?::\s*(.*))?$', arg)
                    self.rw.append((m.group(1), m.group(2), m.group(3) or ''))
                elif kw in ('spec', 'loop', 'at', 'closure', 'header', 'impl'):
                    cur = [kw, arg, '']
                    self.sections.append(cur)
                elif kw == 'end':
                    pass
                else:
                    raise ValueError('%s: unknown directive %s' % (path, kw))
            elif cur is not None:
                cur[2] += line
            elif line.strip() and not line.startswith('//'):
                raise ValueError('%s: stray text %r' % (path, line))


def load_overlays():
    res = {}
    d = os.path.join(CON, 'fns')
    for f in sorted(os.listdir(d)):
        if f.endswith('.ov'):
            o = Overlay(os.path.join(d, f))
            res[os.path.splitext(f)[0]] = o
    return res


_src = {}


def repo_items(f):
    if f not in _src:
        p = os.path.join(REPO, 'src', f)
        _src[f] = rx.items(open(p).read())
    return _src[f]


def rename_text(s, ren):
    if not ren:
        return s
    return re.sub(r'(?<![A-Za-z0-9_.])(%s)(?![A-Za-z0-9_])' % '|'.join(map(re.escape, ren)), lambda m: ren[m.group(1)], s)


MUTATORS = {'push', 'pop', 'insert', 'remove', 'swap', 'reverse', 'truncate', 'clear', 'resize', 'extend', 'extend_from_slice', 'push_back',
            'push_front', 'pop_back', 'pop_front', 'append', 'drain', 'fill', 'sort', 'rotate_left', 'rotate_right', 'retain', 'write_all', 'put'}


def loop_writes(L):
    """for every loop (in the order of the text) what its body writes: {(variable, kind)}"""
    op = {'(': ')', '[': ']', '{': '}'}
    st, match = [], {}
    for i, x in enumerate(L):
        if x in op:
            st.append(i)
        elif x in op.values() and st:
            match[st.pop()] = i
    opens = {v: k for k, v in match.items()}
    res = []
    for i, x in enumerate(L):
        if x not in ('for', 'while', 'loop') or x == 'for' and i + 1 < len(L) and L[i + 1] == '<':
            continue
        j = i + 1
        while j < len(L) and L[j] != '{':
            j = match.get(j, j) + 1 if L[j] in ('(', '[') else j + 1
        if j not in match:
            continue
        w = set()
        for k in range(j + 1, match[j]):
            y = L[k]
            if y in ('=', '+=', '-=', '*=', '/=', '%=', '^=', '|=', '&=', '<<=', '>>='):
                m = k - 1
                kind = '='
                while L[m] == ']' and m in opens:
                    m, kind = opens[m] - 1, '[]'
                a = m
                while a > 0 and L[a - 1] in ('.',) :
                    a -= 2
                if L[a - 1] in ('let', 'mut') or L[m] in ('_', '>') or ':' in L[max(0, a - 6):a]:
                    continue
                w.add((L[a], kind if L[a] == L[m] else '.' + L[m] + kind))
            elif y in MUTATORS and L[k - 1] == '.' and L[k + 1] == '(':
                w.add((L[k - 2], 'm:' + y))
        res.append(w)
    return res


def loop_starts(L):
    """for every for loop over a range, where the range starts; None for other for loops"""
    res = []
    for i, x in enumerate(L):
        if x != 'for' or L[i + 1] == '<' or 'in' not in L[i:i + 12]:
            continue
        j = L.index('in', i) + 1
        d, a = 0, []
        while j < len(L) and not (d == 0 and L[j] in ('{', '..', '..=')):
            d += L[j] in ('(', '[')
            d -= L[j] in (')', ']')
            a.append(L[j])
            j += 1
        res.append(a if j < len(L) and L[j] != '{' else None)
    return res


def initial_values(L, names):
    """{variable: initial values} of the mutable variables named"""
    res = {}
    for i, x in enumerate(L):
        if x == 'let' and L[i + 1] == 'mut' and L[i + 2] in names:
            j, d, a = i + 3, 0, []
            while j < len(L) and not (d == 0 and L[j] == ';'):
                d += L[j] in ('(', '[', '{')
                d -= L[j] in (')', ']', '}')
                a.append(L[j])
                j += 1
            res.setdefault(L[i + 2], []).append(a[a.index('=') + 1:] if '=' in a else a)
    return res


def load_baseline():
    p = os.path.join(CON, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}


class Gen:
    """one generated crate"""

    def __init__(self, overlays, roots, theories=(), vac=False, modular=(), faults=None):
        self.faults = FAULTS if faults is None else faults
        self.ov = overlays
        self.base = load_baseline()
        self.vac = vac
        self.modular = set(modular)   # callees whose contract alone is used here
        self.theories = []
        self.fns = []
        self.lost = []        # (overlay, message)
        self.changed = []
        self.exhaustive = []
        self.used = set()
        self.loops = 0
        self.vac_points = []
        self.need_items = []
        self.extra = set()
        for t in theories:
            self.add_theory(t)
        for r in roots:
            self.add_fn(r)
        if self.faults:
            for t in ('stream', 'env', 'unwrap'):
                self.add_theory(t)

    def add_theory(self, t):
        if t in self.theories:
            return
        src = open(os.path.join(CON, 'theory', t + '.rs')).read()
        for m in re.findall(r'^//@ needs (.*)$', src, re.M):
            for d in m.split():
                self.add_theory(d)
        if t not in self.theories:
            self.theories.append(t)

    def add_fn(self, name):
        if name in self.fns:
            return
        o = self.ov[name]
        for c in o.calls:
            if name not in self.modular:
                self.add_fn(c)
        for t in o.theory:
            self.add_theory(t)
        if name not in self.modular and 'stdcmp' not in self.theories:
            f, key = o.fn.split('::', 1)
            it = find_fn(repo_items(f), key)
            if it is not None and any(it.toks[i].s in ('max', 'min') and it.toks[i + 1].s == '(' and it.toks[i - 1].s != '.' for i in range(1, len(it.toks) - 1)):
                self.add_theory('stdcmp')
        for i in o.items:
            if i not in self.need_items:
                self.need_items.append(i)
        if name not in self.fns:
            self.fns.append(name)

    def prep(self, toks):
        t = [rx.T(x.k, x.s, x.pre) for x in toks]
        t = rx.remove_attrs(t)
        t = drop_mod_paths(t, self.used)
        t = drop_continue(t, self.used)
        t = assert_macros(t, self.used)
        t = byte_strings(t, self.used)
        for pat, rep, why in GLOBAL_RW:
            t, c = rx.apply_rewrite(t, pat, rep)
            if c:
                self.used.add(why)
        return t

    def inline(self, name, f, key, t):
        """helpers that appeared after the contracts were written are replaced by their bodies"""
        known = self.base.get('#fns')
        if known is None:
            return t
        base = set(self.base.get(name, ()))
        t = inline.closures(t, base, self.used)
        own = {}
        for i in range(1, len(t)):
            if t[i].s == 'fn' and i > 2:
                e = nested_fn(t, i)
                if e is not None and t[i + 1].s not in base:
                    own[t[i + 1].s] = rx.Item('fn', t[i + 1].s, t[i:e + 1], [])
        typ = key.split('::')[0] if '::' in key else None

        def helper(nm, method):
            if nm in base:
                return None
            it = None
            if method:
                it = repo_items(f).get('%s::%s' % (typ, nm)) if typ and '%s::%s' % (typ, nm) not in known.get(f, ()) else None
            elif nm in own:
                it = own[nm]
            else:
                for ff in (f, 'core.rs', 'io.rs'):
                    for k in (nm, '%s::%s' % (typ, nm)):
                        x = repo_items(ff).get(k)
                        if x is not None and x.kind == 'fn' and (k not in known.get(ff, ()) or not self.in_crate(k)):
                            it = it or x
            if it is None:
                return None
            return inline.parse_fn(rx.Item('fn', nm, self.prep(it.toks), []))
        t = inline.inline_calls(t, helper, self.used)
        # nested helpers that were inlined are gone
        for nm in own:
            if sum(1 for x in t if x.s == nm) == 1:
                i = next(k for k in range(len(t)) if t[k].s == nm) - 1
                e = nested_fn(t, i)
                if e is not None:
                    t = t[:i] + t[e + 1:]
        return t

    def in_crate(self, nm):
        return any(self.ov[x].fn.split('::', 1)[1] == nm for x in self.fns) or re.search(r'\bfn %s\b' % nm.split('::')[-1], self.theory_text()) is not None

    def extra_items(self, f, t):
        """constants that the contracts do not mention"""
        have = set(x.split('::', 1)[1].partition('=')[0] for x in self.need_items) | self.extra
        out = ''
        for x in t:
            if x.k != 'id' or x.s in have or not x.s.isupper():
                continue
            for ff in (f, 'core.rs', 'io.rs'):
                it = repo_items(ff).get(x.s)
                if it is not None and it.kind in ('const', 'static'):
                    if not re.search(r'\b(const|static) %s\b' % x.s, self.theory_text()):
                        have.add(x.s)
                        self.extra.add(x.s)
                        out += self.emit_item('%s::%s' % (ff, x.s)) + '\n'
                    break
        return out

    def theory_text(self):
        return ''.join(open(os.path.join(CON, 'theory', t + '.rs')).read() for t in self.theories)

    def emit_item(self, ref):
        f, name = ref.split('::', 1)
        name, _, alias = name.partition('=')     # file::Name=Alias: two tools have an item of that name
        it = repo_items(f).get(name)
        if it is None:
            self.lost.append((ref, 'item not found'))
            return '// lost ' + ref
        t = self.prep(it.toks)
        if alias:
            for x in t:
                if x.k == 'id' and x.s == name:
                    x.s = alias
        s = rx.render(t)
        if it.kind == 'static' or (it.kind == 'const' and '[' in s):
            # static X: &[u8] = &[..];  -> exec static with its literal value as ensures
            m = re.match(r'\s*(?:pub )?(?:static|const)\s+(\w+)\s*:\s*&(?:\'static )?\[u8\]\s*=\s*&\[(.*?)\]\s*;\s*$', s, re.S)
            if m:
                self.used.add("static X: &[u8] = &[..] -> exec static with its own value as postcondition")
                return "exec static %s: &'static [u8] ensures %s@ =~= seq![%s] { &[%s] }" % (m.group(1), m.group(1), m.group(2), m.group(2))
        return s

    def probe(self, fn, what):
        k = len(self.vac_points)
        self.vac_points.append(fn + ' ' + what)
        return '\n proof { if vac(%d) { assert(false); } } // VAC<%d>\n' % (k, k)

    def emit_fn(self, name):
        o = self.ov[name]
        f, key = o.fn.split('::', 1)
        it = find_fn(repo_items(f), key)
        if it is None or it.kind != 'fn':
            self.lost.append((name, 'function %s not found in src/%s' % (key, f)))
            return ''
        t = self.prep(it.toks)
        if name not in self.modular:
            t = self.inline(name, f, key, t)
        cur = [x.s for x in t]
        ren = {}
        if name in self.base and self.base[name] != cur:
            self.changed.append(name)
            ren = rx.rename_map(self.base[name], cur)
            if ren:
                self.used.add('contract identifiers renamed with the code in %s: %s' % (name, ren))
            words = set(re.findall(r'[A-Za-z_][A-Za-z0-9_]*', ' '.join(x[1] + ' ' + x[2] for x in o.sections)))
            for x, y in list(ren.items()):
                if y in words:
                    self.lost.append((name, 'the new name %s is taken in the contract' % y))
                    del ren[x]
            kinds = lambda L: [x for x in L if x in ('for', 'while', 'loop', 'rev')]
            if kinds(self.base[name]) != kinds(cur) and name not in self.modular:
                self.lost.append((name, 'the loops are of another kind than those the contract was written for: %s' % kinds(cur)))
            elif name not in self.modular:
                was = [set((ren.get(v, v), k) for v, k in w) for w in loop_writes(self.base[name])]
                now = loop_writes(cur)
                for k, (a, b) in enumerate(zip(was, now)):
                    if a != b:
                        self.lost.append((name, 'loop %d writes other variables than the loop the contract was written for: %s' % (k, sorted(a ^ b))))
                old = [ren.get(x, x) for x in self.base[name]]
                if loop_starts(old) != loop_starts(cur):
                    self.lost.append((name, 'a loop starts elsewhere than the loop the contract was written for'))
                names = set(v for w in now for v, _ in w)
                p, q = initial_values(old, names), initial_values(cur, names)
                diff = sorted(v for v in set(p) | set(q) if p.get(v) != q.get(v))
                if diff:
                    self.lost.append((name, 'other initial values than those the contract was written for: %s' % diff))
        R = lambda s: rename_text(s, ren)
        if 'real' in o.opts.get('floats', ''):
            t = floats(t, self.used)
        for pat, rep, why in o.rw:
            if why.startswith('exhaustive') and name not in self.modular:
                e = rx.first_match(t, R(pat))
                if e is not None and 'e' in e:
                    nm, var, lo, hi, ens, shows = o.exhaustive
                    self.exhaustive.append(dict(stand_in=nm, fn=o.fn, file=f, var=R(var), lo=int(lo), hi=int(hi), ensures=ens, shows=shows,
                                                expr=' '.join(x.s for x in e['e'])))
            t, c = rx.apply_rewrite(t, R(pat), R(rep))
            if not c:
                if why.startswith('optional') or name in self.modular:
                    continue
                self.lost.append((name, 'rewrite pattern not found: ' + pat))
            else:
                self.used.add('%s: `%s` => `%s`%s' % (name, pat, rep, ' (' + why + ')' if why else ''))
        consts = self.extra_items(f, t) if name not in self.modular else ''
        t, hoisted = hoist_structs(t, self.used)
        t = drop_fns(t, self.used)
        fn = rx.Fn(t)
        spec = ''
        nspec = 0
        impl = None
        entry = False
        for kind, arg, text in o.sections:
            text = R(text)
            arg = R(arg)
            if name in self.modular and kind not in ('spec', 'header', 'impl'):
                continue
            try:
                if kind == 'spec':
                    spec += text
                elif kind == 'impl':
                    impl = (arg, text)
                elif kind == 'header':
                    # replace the complete function header (declared in the evidence)
                    for q in range(0, fn.body_open):
                        fn.repl[q] = None
                    fn.before(fn.body_open, text)
                    self.used.add('%s: function header replaced by `%s`' % (name, ' '.join(text.split())))
                elif kind == 'loop':
                    m = arg.split()
                    k = int(m[0])
                    kv = dict(x.split('=') for x in m[1:])
                    fn.loop_spec(k, text, kv.get('iter'), kv.get('var'))
                elif kind == 'closure':
                    fn.closure_header(int(arg), text.strip())
                elif kind == 'at':
                    if self.vac and arg == 'start' and 'hide(' in text:
                        # hide(..) comes first in a body
                        k = text.index(';', text.rindex('hide(')) + 1
                        text = text[:k] + self.probe(name, 'entry') + text[k:]
                        entry = True
                    fn.anchor(arg, '\n' + text)
            except LostAnchor as e:
                self.lost.append((name, str(e)))
        want = o.opts.get('loops')
        if name in self.modular:
            want = None
            fn.loops = []
            for q in range(fn.body_open + 1, fn.body_close):
                fn.repl[q] = None
            fn.after(fn.body_open, ' unimplemented!() ')
        if want is not None and int(want) != len(fn.loops):
            self.lost.append((name, 'function has %d loops, contract has %s' % (len(fn.loops), want)))
        self.loops += len(fn.loops)
        if self.vac and name not in self.modular:
            # reachability probes: each must FAIL (vac is an uninterpreted predicate, so that
            # the probes do not hide each other)
            if not entry:
                fn.after(fn.body_open, self.probe(name, 'entry'))
            for k, (kw, lo, lc) in enumerate(fn.loops):
                fn.after(lo, self.probe(name, 'loop%d' % k))
        attrs = ''.join('#[%s]\n' % a for a in o.attrs)
        if self.faults and name not in self.modular:
            # (the annotations are text of their own)
            for x in fn.t:
                if x.k == 'id' and x.s in ('unwrap', 'expect'):
                    x.s = 'v' + x.s
                elif x.k == 'id' and x.s == 'runtime_unreachable':
                    x.s = 'ends_unsuccessfully'
            self.used.add('unwrap/expect -> trait Unwrap, panic! -> unsuccessful end (streams can fail in this check)')
        if name in self.modular:
            attrs = '// contract of a function whose body is verified in another check\n#[verifier::external_body]\n'
        body = attrs + fn.render(o.ret, spec)
        if hoisted:
            body = rx.render(hoisted) + '\n' + body
        if it.impl_header is not None and impl is None:
            h = rx.render(self.prep(it.impl_header))
            body = h + ' {\n' + body + '\n}'
        elif impl is not None:
            self.used.add('%s: impl header replaced by `%s`' % (name, impl[0]))
            body = impl[0] + ' {\n' + impl[1] + '\n' + body + '\n}'
        return consts + body

    def generate(self):
        parts = []
        lines = {}
        head = open(os.path.join(CON, 'theory', 'head.rs')).read()
        head += ENDS % ('true' if self.faults else 'false')
        if self.vac:
            head += '\nverus! {\nuninterp spec fn vac(k: int) -> bool;\n}\n'
        parts.append(('head', head))
        for t in self.theories:
            if t == 'head':
                continue
            parts.append(('theory ' + t, open(os.path.join(CON, 'theory', t + '.rs')).read()))
        for i in self.need_items:
            parts.append(('item ' + i, 'verus! {\n' + self.emit_item(i) + '\n}'))
        for f in self.fns:
            parts.append(('fn ' + f, 'verus! {\n' + self.emit_fn(f) + '\n}'))
        parts.append(('main', 'fn main() {}\n'))
        text = ''
        ranges = []
        ln = 1
        for nm, s in parts:
            s = s + '\n'
            k = s.count('\n')
            ranges.append((ln, ln + k - 1, nm))
            ln += k
            text += s
        self.ranges = ranges
        return text

    def where(self, line):
        for a, b, nm in self.ranges:
            if a <= line <= b:
                return nm
        return '?'


def baseline_tokens(overlays):
    """tokens of every function under contract after the global rewrites, for renaming inference"""
    g = Gen(overlays, [])
    res = {}
    fns = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for x in fs:
            if x.endswith('.rs'):
                f = os.path.relpath(os.path.join(d, x), os.path.join(REPO, 'src'))
                fns[f] = sorted(k for k, v in repo_items(f).items() if v.kind == 'fn')
    res['#fns'] = fns
    for n, o in overlays.items():
        f, key = o.fn.split('::', 1)
        it = find_fn(repo_items(f), key)
        if it is not None:
            res[n] = [x.s for x in g.prep(it.toks)]
    return res
