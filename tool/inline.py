"""Mechanical inlining of helper functions and closures that the contracts do not know (they appeared after the
contracts were written): a call f(a, b) becomes the block { let x: X = a; let y: Y = b; BODY }. Helpers with
early returns (other than guards), `?`, recursion or type parameters that the caller lacks are left alone."""
import rustex as rx


def copy(t):
    r = [rx.T(x.k, x.s, x.pre) for x in t]
    if r:
        r[0].pre = r[0].pre or ' '
    return r


def toks(s):
    r = rx.tokenize(s)
    if r:
        r[0].pre = r[0].pre or ' '
    return r


def split(t, o, c):
    """comma separated parts between the brackets at o and c (angle brackets of types are respected)"""
    res, d = [[]], 0
    i = o + 1
    while i < c:
        s = t[i].s
        if t[i].k == 'op' and s in rx.OPEN:
            j = rx.match_close(t, i)
            res[-1] += t[i:j + 1]
            i = j + 1
            continue
        if s == ',' and d == 0:
            res.append([])
        else:
            if s == '<':
                d += 1
            elif s in ('>', '>>'):
                d = max(0, d - len(s))
            res[-1].append(t[i])
        i += 1
    if res and not res[-1]:
        res.pop()
    return res


def split_plain(t, o, c):
    res = [[]]
    i = o + 1
    while i < c:
        if t[i].k == 'op' and t[i].s in rx.OPEN:
            j = rx.match_close(t, i)
            res[-1] += t[i:j + 1]
            i = j + 1
            continue
        if t[i].s == ',':
            res.append([])
        elif t[i].s in ('|', '||') and not res[-1]:
            # closure argument: its parameters may contain commas
            j = i
            if t[i].s == '|':
                j = i + 1
                while t[j].s != '|':
                    j += 1
            res[-1] += t[i:j + 1]
            i = j
        else:
            res[-1].append(t[i])
        i += 1
    if res and not res[-1]:
        res.pop()
    return res


def guards(b):
    """S; if C { A; return X; } REST  ->  S; if C { A; X } else { REST };  a last `return X;` -> X"""
    while True:
        if len(b) >= 2 and b[-1].s == ';':
            # return X; at the end
            i, last = 0, 0
            while i < len(b) - 1:
                if b[i].k == 'op' and b[i].s in rx.OPEN:
                    i = rx.match_close(b, i)
                    if b[i].s == '}':
                        last = i + 1
                elif b[i].s == ';':
                    last = i + 1
                i += 1
            if last < len(b) and b[last].s == 'return':
                b = b[:last] + b[last + 1:-1]
                continue
        # first guard at the top level of the block
        i = 0
        done = True
        while i < len(b):
            if b[i].s == 'if' and (i == 0 or b[i - 1].s in (';', '}')):
                j = i
                while b[j].s != '{':
                    j = rx.match_close(b, j) + 1 if b[j].s in ('(', '[') else j + 1
                c = rx.match_close(b, j)
                inner = b[j + 1:c]
                if any(x.s == 'return' for x in inner) and (c + 1 >= len(b) or b[c + 1].s != 'else'):
                    g = guards(inner)
                    if g is None or any(x.s == 'return' for x in g) or len(g) and g[-1].s == ';':
                        return None
                    rest = guards(b[c + 1:])
                    if rest is None:
                        return None
                    return b[:j + 1] + g + toks('} else {') + rest + toks('}')
                i = c
            elif b[i].k == 'op' and b[i].s in rx.OPEN:
                i = rx.match_close(b, i)
            i += 1
        if done:
            return b


class Helper:
    def __init__(self, name, params, ret, body, generics=()):
        self.name, self.params, self.ret, self.body, self.generics = name, params, ret, body, generics


def parse_fn(item):
    """None if the function cannot be inlined"""
    t = copy(item.toks)
    f = rx.Fn(t)
    name = t[f.name_idx].s
    gen = []
    if t[f.name_idx + 1].s == '<':
        seg = t[f.name_idx + 2:f.par_open - 1]
        d = 0
        for k, x in enumerate(seg):
            if x.s == '<':
                d += 1
            elif x.s in ('>', '>>'):
                d -= len(x.s)
            elif d == 0 and x.k == 'id' and (k == 0 or seg[k - 1].s == ','):
                gen.append(x.s)
    params = []
    for p in split(t, f.par_open, f.par_close):
        s = [x.s for x in p]
        if s in (['self'], ['&', 'self'], ['&', 'mut', 'self'], ['mut', 'self']):
            params.append('self')
            continue
        if ':' not in s:
            return None
        k = s.index(':')
        if s[:k] and not (len(s[:k]) == 1 or s[:k][0] == 'mut' and len(s[:k]) == 2):
            return None
        params.append((p[:k], p[k + 1:]))
    ret = None
    if f.arrow is not None:
        e = f.where if f.where is not None else f.body_open
        ret = t[f.arrow + 1:e]
    body = guards(t[f.body_open + 1:f.body_close])
    if body is None or any(x.s in ('return', '?', name) and (x.k == 'id' or x.s == '?') for x in body):
        return None
    return Helper(name, params, ret, body, gen)


def block(h, args, n, caller_generics):
    params = [p for p in h.params if p != 'self']
    if len(params) != len(args):
        return None
    out = toks('({')
    for k, ((pat, ty), a) in enumerate(zip(params, args)):
        tys = []
        if ty and not any(x.k == 'id' and (x.s in h.generics and x.s not in caller_generics or x.s == 'impl') for x in ty):
            tys = toks(':') + copy(ty)
        out += toks('let arg_%d_%d' % (n, k)) + tys + toks('=') + copy(a) + toks(';')
    for k, (pat, ty) in enumerate(params):
        out += toks('let') + copy(pat)
        out += toks('= arg_%d_%d;' % (n, k))
    body = copy(h.body)
    if body:
        body[0].pre = body[0].pre or ' '
    if h.ret is not None and not any(x.k == 'id' and (x.s in h.generics and x.s not in caller_generics or x.s == 'impl') for x in h.ret):
        out += toks('let res_%d:' % n) + copy(h.ret) + toks('= {') + body + toks('}; res_%d' % n)
    else:
        out += body
    return out + toks('})')


def generics_of(t):
    f = rx.Fn(copy(t))
    return [x.s for x in t[f.name_idx + 1:f.par_open] if x.k == 'id']


def inline_calls(t, helper, used, depth=0):
    """helper(name, method): Helper or None"""
    gens = generics_of(t)
    n = 0
    i = next(k for k in range(len(t)) if t[k].s == 'fn') + 2
    guard = 0
    while i < len(t) - 1:
        x = t[i]
        if x.k == 'id' and t[i + 1].s == '(' and t[i - 1].s != 'fn':
            start, method = i, False
            if t[i - 1].s == '.':
                if not (t[i - 2].s == 'self' and t[i - 3].s not in ('.', '::')):
                    i += 1
                    continue
                start, method = i - 2, True
            elif t[i - 1].s == '::':
                if t[i - 2].s != 'Self':
                    i += 1
                    continue
                start = i - 2
            h = helper(x.s, method)
            if h is not None:
                c = rx.match_close(t, i + 1)
                b = block(h, split_plain(t, i + 1, c), n, gens)
                if b is not None and guard < 40:
                    guard += 1
                    n += 1
                    b[0].pre = t[start].pre
                    t = t[:start] + b + t[c + 1:]
                    used.add('call of %s (unknown to the contracts) replaced by its body' % x.s)
                    i = start
                    continue
        i += 1
    return t


def closures(t, base, used):
    """let f = |..| ..; with f only called: inlined, if the contracts do not know f"""
    i = 0
    while i < len(t) - 4:
        if t[i].s == 'let' and t[i + 1].k == 'id' and t[i + 2].s == '=' and t[i + 3].s in ('|', '||') and t[i + 1].s not in base:
            name = t[i + 1].s
            if t[i + 3].s == '||':
                ps, j = [], i + 4
            else:
                j = i + 4
                while t[j].s != '|':
                    j = rx.match_close(t, j) + 1 if t[j].s in ('(', '[') else j + 1
                ps = split(t[:j] + toks('|'), i + 3, j)
                j += 1
            ret = None
            if t[j].s == '->':
                k = j + 1
                while t[k].s != '{':
                    k += 1
                ret = t[j + 1:k]
                j = k
            e = j
            while t[e].s != ';':
                e = rx.match_close(t, e) + 1 if t[e].k == 'op' and t[e].s in rx.OPEN else e + 1
            body = t[j:e]
            params = []
            ok = True
            for p in ps:
                s = [x.s for x in p]
                k = s.index(':') if ':' in s else len(s)
                if s[:k][:1] == ['&'] and len(s[:k]) == 2:
                    ok = False
                if len(s[:k]) != 1 and s[:k][:1] != ['mut']:
                    ok = False
                params.append((p[:k], p[k + 1:]))
            body = guards(body[1:-1]) if body[0].s == '{' and rx.match_close(body, 0) == len(body) - 1 else body
            uses = [k for k in range(e, len(t)) if t[k].k == 'id' and t[k].s == name]
            if ok and body is not None and not any(x.s in ('return', '?') for x in body) and uses and all(t[k + 1].s == '(' and t[k - 1].s not in ('.', '::') for k in uses):
                h = Helper(name, params, ret, body)
                rest = t[:i] + t[e + 1:]
                t = inline_calls(rest, lambda nm, m: h if nm == name and not m else None, used)
                continue
        i += 1
    return t
