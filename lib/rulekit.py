"""What the rules are made of: a context that collects obligations, violations and
notes, and automata run over the product with an explored state graph."""
from targets import *


def embed(c, prop, want):
    """what the rule of another property finds that breaks this one too"""
    import check
    s = Ctx(c.T, prop)
    try:
        check.rule_of(prop)(s)
    except (Missing, Abort) as e:
        c.note('%s: %s' % (prop, e))
    for k, (msg, tr) in s.violations.items():
        if want(k, msg):
            c.violate('%s/%s' % (prop, k), msg, tr)
    c.functions |= s.functions


def walk(v):
    """every value inside v"""
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
        elif isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            yield x
            work.extend(x.a)


def unknown(v):
    """does v depend on something the analysis does not understand?"""
    return any(x.t == 'op' and str(x.a[0]).startswith('call:') or x.t in ('moved', 'uninit') for x in walk(v))


def mentions(v, x):
    return any(y is x for y in walk(v))


def isadt(v, name, variant=None):
    if not isinstance(v, V) or v.t != 'adt' or v.a[0].split('::')[-1] != name:
        return False
    return variant is None or vname(v) == variant


def vname(v):
    """variant name of an enum value"""
    ad = ADTS.get(v.a[0])
    return ad['variants'][v.a[1]]['name'] if ad else None


def fields(v):
    """named fields of an adt value"""
    ad = ADTS.get(v.a[0])
    if not ad:
        return {}
    fs = ad['variants'][v.a[1]]['fields']
    return dict(zip(fs, v.a[2]))


def isop(v, name):
    return isinstance(v, V) and v.t == 'op' and v.a[0] == name


def issym(v, kind):
    return isinstance(v, V) and v.t == 's' and v.a[0] == kind


def symkind(v):
    """kind of the symbol a value is a renaming or part of"""
    while isinstance(v, V) and v.t == 'fld':
        v = v.a[0]
    if isinstance(v, V) and v.t == 's':
        for x in v.a:
            if x not in ('old', 'older'):
                return x
    return None


def uncast(v):
    while v.t == 'op' and v.a[0] == 'cast':
        v = v.a[1]
    return v


def fact(st, v):
    """constant a term is known to be, or None"""
    if v.t == 'i':
        return v.a[0]
    f = st.facts.get(v)
    if f is not None and f[0] == f[1]:
        return f[0]
    return None


def where(n):
    """place of a node: the innermost function of the code under analysis"""
    if n.st.fr:
        f = n.st.fr[-1]
        return f.body.path
    return 'end'


def evs_str(evs):
    return '; '.join(' '.join(show(x)[:160] if isinstance(x, (V, tuple)) else str(x)[:160] for x in e) for e in evs)


class Ctx:
    def __init__(self, T, prop):
        self.T, self.prop = T, prop
        self.violations = {}       # key -> (message, trace)
        self.counts = {}           # what was analysed
        self.notes = []
        self.rules = []
        self.functions = set()
        self.floors = []
        self.samples = []
        self.assumptions = []

    # ---- bookkeeping
    def rule(self, text):
        self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """the rule is anchored on at least n instances of what"""
        self.floors.append((what, n))

    def note(self, t):
        if t not in self.notes:
            self.notes.append(t)

    def violate(self, key, msg, trace=()):
        if key not in self.violations:
            self.violations[key] = (msg, list(trace))

    def graph(self, name):
        g = self.T.get(name)
        self.count('graph nodes of ' + name, 0)
        self.counts['graph nodes of ' + name] = len(g.nodes)
        self.counts['graph edges of ' + name] = g.edges
        for p in g.root.ip.covered:
            self.functions.add(p)
        for k, n in g.root.ip.unmodelled.items():
            self.note('not modelled (result unknown) in %s: %s' % (name, k))
        for k in g.root.ip.cut:
            self.note('cut in %s: %s' % (name, k))
        return g


def trace_of(parent, key):
    """events from the root to a product state"""
    out = []
    while key is not None:
        p = parent.get(key)
        if p is None:
            break
        key, evs, at = p
        if evs:
            out.append((at, evs))
    out.reverse()
    return out


def fmt_trace(tr):
    return ['%s: %s' % (at, evs_str(evs)) for at, evs in tr]


class Auto:
    """A deterministic automaton over the events of a graph.

    step(a, ev, x) -> new automaton state (None: stop following this path)
    end(a, node, x)  at terminal nodes
    x offers .violate(key, msg) with the current trace, .src/.dst nodes
    """

    def __init__(self, ctx, g, init, step, end=None, maxstates=400000):
        self.ctx, self.g = ctx, g
        self.parent = {}
        root = (0, init)
        self.parent[root] = None
        seen = {root}
        work = [root]
        self.cur = None
        while work:
            k = work.pop()
            nid, a = k
            n = g.nodes[nid]
            if n.end is not None:
                self.cur = (k, (), None)
                self.src = self.dst = n
                if end:
                    end(a, n, self)
                    if len(ctx.samples) < 3 and k != root:
                        ctx.samples.append({'path': [l[:400] for l in fmt_trace(trace_of(self.parent, k))[-6:]], 'ends with': str(n.end)[:300]})
                continue
            for evs, m in n.out:
                b = a
                self.src, self.dst = n, m
                for i, e in enumerate(evs):
                    self.cur = (k, evs[:i + 1], where(n))
                    self.i, self.evs = i, evs
                    b = step(b, e, self)
                    if b is None:
                        break
                if b is None:
                    continue
                k2 = (m.id, b)
                if k2 not in seen:
                    seen.add(k2)
                    self.parent[k2] = (k, evs, where(n))
                    work.append(k2)
            if not len(seen) & 1023:
                check_budget()
            if len(seen) > maxstates:
                ctx.note('automaton state limit')
                raise Abort('automaton state limit')
        self.states = len(seen)
        ctx.count('product states', self.states)

    def violate(self, key, msg):
        if key in self.ctx.violations:
            return
        k, evs, at = self.cur
        tr = trace_of(self.parent, k)
        if evs:
            tr.append((at, evs))
        self.ctx.violate(key, msg, fmt_trace(tr))


def path_to(g, n):
    """events from the root of a graph to a node"""
    out = []
    while n is not None and n.pred is not None:
        p, evs = n.pred
        if evs:
            out.append((where(p), evs))
        n = p
    out.reverse()
    return fmt_trace(out)


def path_events(n):
    """the events on the (first found) way to a node"""
    out = []
    while n is not None and n.pred is not None:
        p, evs = n.pred
        out.append(evs)
        n = p
    return [e for evs in reversed(out) for e in evs]


def ends(g, kind='return'):
    return [n for n in g.nodes if n.end is not None and n.end[0] == kind]


def edges(g):
    for n in g.nodes:
        for evs, m in n.out:
            yield n, evs, m


def ok_of(v):
    """payload of Ok(..), or None"""
    if isadt(v, 'Result', 'Ok'):
        return v.a[2][0]
    return None


def err_of(v):
    if isadt(v, 'Result', 'Err'):
        return v.a[2][0]
    return None


def some_of(v):
    if isadt(v, 'Option', 'Some'):
        return v.a[2][0]
    return None


# ------------------------------------------------------------- predicates on characters
CHARFNS = {
    'is_whitespace': str.isspace, 'is_ascii_whitespace': lambda ch: ch in ' \t\n\r\f', 'is_alphanumeric': str.isalnum,
    'is_ascii_alphanumeric': str.isalnum, 'is_alphabetic': str.isalpha, 'is_ascii_alphabetic': str.isalpha,
    'is_ascii_digit': str.isdigit, 'is_numeric': str.isdigit, 'is_control': lambda ch: ord(ch) < 32 or ord(ch) == 127,
    'is_ascii_control': lambda ch: ord(ch) < 32 or ord(ch) == 127,
    'is_ascii_punctuation': lambda ch: 32 < ord(ch) < 127 and not ch.isalnum(),
    'is_uppercase': str.isupper, 'is_lowercase': str.islower,
}


def matching(c, g, v):
    """the ASCII characters a predicate (a closure or a function) accepts, or None"""
    v = v.a[0] if v.t == 'cref' else v
    if v.t == 'fn':
        f = CHARFNS.get(str(v.a[0]).split('::')[-1].split('<')[0])
        return None if f is None else [chr(i) for i in range(128) if f(chr(i))]
    if v.t != 'clo':
        return None
    from roots import Root
    ip = g.root.ip
    try:
        dump = ip.dump_by(v.a[2]) if len(v.a) > 2 else g.root.body.dump
        fb = c.T.w.find(dump, v.a[0])
        if fb is None:
            return None
        ch = hint(sym('param', 'ch'), 0, 0x10ffff)
        body = c.T.w.body(*fb)
        me, mem = v, None
        if body.dump.types[body.locals[1]]['k'] == 'ref':
            me, mem = mk('ref', ('t', 'clo'), ()), {('t', 'clo'): v}
        g2 = Root(c.T.w, fb[0], fb[1], [me, ch], mem=mem).explore()
    except Abort:
        return None
    r = []
    for i in range(128):
        xs = {evalv(n.end[1], {ch: i}) for n in ends(g2) if consistent(n.st, {ch: i})}
        if len(xs) != 1 or None in xs:
            return None
        if xs.pop():
            r.append(chr(i))
    return r


def order_of(c, g, v, how, mk_item, items):
    """what a comparator (how 'cmp') or a key function (how 'key') makes of the items: {(i, j): -1, 0 or 1}, or None.

    mk_item(k) is the k-th argument as a term; items the assignments its parts are tried with"""
    if v.t != 'clo':
        return None
    from roots import Root
    ip = g.root.ip
    try:
        dump = ip.dump_by(v.a[2]) if len(v.a) > 2 else g.root.body.dump
        fb = c.T.w.find(dump, v.a[0])
        if fb is None:
            return None
        body = c.T.w.body(*fb)
        me, mem = v, {}
        if body.dump.types[body.locals[1]]['k'] == 'ref':
            me, mem = mk('ref', ('t', 'clo'), ()), {('t', 'clo'): v}
        args = [me]
        for k in range(2 if how == 'cmp' else 1):
            x, ty, d = mk_item(k), body.dump.types[body.locals[2 + k]], 0
            while ty['k'] == 'ref':
                mem[('t', 'arg', k, d)] = x
                x = mk('ref', ('t', 'arg', k, d), ())
                ty = body.dump.types[ty['inner']]
                d += 1
            args.append(x)
        g2 = Root(c.T.w, fb[0], fb[1], args, mem=mem).explore()
    except (Abort, KeyError, IndexError):
        return None

    def num(x, env):
        """an ordering, or a key as nested tuples of numbers"""
        if x.t == 'adt':
            n = x.a[0].split('::')[-1].split('<')[0]
            if n == 'Ordering':
                return {'Less': -1, 'Equal': 0, 'Greater': 1}.get(vname(x))
            if n == 'Reverse':
                y = num(x.a[2][0], env)
                return neg(y)
            if n != 'Version':
                return None
            ys = [num(y, env) for y in x.a[2]]
            return None if None in ys else tuple(ys)
        if x.t in ('tup', 'arr'):
            ys = [num(y, env) for y in x.a[0]]
            return None if None in ys else tuple(ys)
        if isop(x, 'reverse'):
            return neg(num(x.a[1], env))
        if x.t in ('ref', 'cref') and isinstance(x.a[0], V):
            return num(x.a[0], env)
        return evalv(x, env)

    def neg(y):
        return None if y is None else tuple(map(neg, y)) if isinstance(y, tuple) else -y

    def at(env):
        xs = {num(n.end[1], env) if n.end[0] == 'return' else None for n in ends(g2) if consistent(n.st, env)}
        return None if len(xs) != 1 else xs.pop()
    r = {}
    keys = [at(e(0)) for e in items] if how == 'key' else None
    for i in range(len(items)):
        for j in range(len(items)):
            if how == 'key':
                a, b = keys[i], keys[j]
                z = None if a is None or b is None else (a > b) - (a < b)
            else:
                z = at({**items[i](0), **items[j](1)})
            if z is None:
                return None
            r[i, j] = z
    return r


# ------------------------------------------------------------- terms
def evalv(v, env):
    """integer value of a term under an assignment, or None"""
    if not isinstance(v, V):
        return None
    if v in env:
        return env[v]
    t = v.t
    if t == 'i':
        return v.a[0]
    if t == 'lin':
        x = evalv(v.a[0], env)
        return None if x is None else x + v.a[1]
    if t != 'op':
        return None
    n = v.a[0]
    if n == 'cast':
        x = evalv(v.a[1], env)
        if x is None:
            return None
        lo, hi = v.a[2], v.a[3]
        if lo <= x <= hi:
            return x
        w = hi - lo + 1
        return (x - lo) % w + lo
    if n == 'shl' and len(v.a) == 4:
        x, y = evalv(v.a[1], env), evalv(v.a[2], env)
        m = v.a[3].a[0] if isinstance(v.a[3], V) and v.a[3].t == 'i' else v.a[3]
        return None if x is None or y is None or not 0 <= y < 256 or not isinstance(m, int) else (x << y) & m
    if n == 'wrap':
        x, h = evalv(v.a[1], env), HINT.get(v)
        return None if x is None or h is None else (x - h[0]) % (h[1] - h[0] + 1) + h[0]
    if n == 'ovf':
        x, y = evalv(v.a[2], env), evalv(v.a[3], env)
        if x is None or y is None or v.a[1] not in ('add', 'sub', 'mul'):
            return None
        z = {'add': x + y, 'sub': x - y, 'mul': x * y}[v.a[1]]
        return int(not v.a[4] <= z <= v.a[5])
    if n == 'neg':
        x = evalv(v.a[1], env)
        return None if x is None else -x
    if n == 'discr' and isop(v.a[1], 'cmp') or n == 'cmp':
        q = v.a[1] if n == 'discr' else v
        x, y = evalv(q.a[1], env), evalv(q.a[2], env)
        return None if x is None or y is None else (x > y) - (x < y)
    a = [evalv(x, env) for x in v.a[1:]]
    if n == 'band' and len(a) == 2 and (a[0] == 0 or a[1] == 0):
        return 0
    if any(x is None for x in a):
        return None
    try:
        return {'band': lambda x, y: x & y, 'bor': lambda x, y: x | y, 'bxor': lambda x, y: x ^ y,
                'shl': lambda x, y: x << y, 'shr': lambda x, y: x >> y, 'add': lambda x, y: x + y,
                'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'eq': lambda x, y: int(x == y),
                'lt': lambda x, y: int(x < y), 'slt': lambda x, y: int(x < y), 'bnot': lambda x: 1 - x,
                'rem': lambda x, y: x % y, 'div': lambda x, y: x // y}[n](*a)
    except (KeyError, TypeError, ZeroDivisionError):
        return None


def consistent(st, env):
    """can the facts of a state hold under an assignment?"""
    for k, f in st.facts.items():
        x = evalv(k, env)
        if x == -1 and isop(k, 'discr') and isop(k.a[1], 'cmp') and f[0] >= 0:
            x = 255
        if x is not None and (x < f[0] or x > f[1] or x in f[2]):
            return False
    return True


def fenv(st):
    """the facts of a state as an assignment"""
    return {k: f[0] for k, f in st.facts.items() if f[0] == f[1]}


def rel(v, d):
    """a decision as (op, x, y, truth); a plain number as ('eq', x, I(d), 1)"""
    while v.t == 'op' and v.a[0] in ('bnot', 'cast'):
        if v.a[0] == 'bnot':
            d = 1 - d
        v = v.a[1]
    if v.t == 'op' and v.a[0] in ('eq', 'lt', 'slt'):
        return v.a[0], widened(v.a[1]), widened(v.a[2]), d
    return 'eq', v, I(d), 1


def widened(v):
    """v without the conversions that keep its value"""
    while v.t == 'op' and v.a[0] == 'cast':
        lo, hi = HINT.get(v.a[1], (v.a[2], v.a[3])) if v.a[1].t == 's' else (v.a[2], v.a[3])
        if lo < v.a[2] or hi > v.a[3]:
            return v
        v = v.a[1]
    return v


def says_zero(r, x):
    """does a decision say that x is zero (1), not zero (0) or nothing (None)?"""
    o, a, b, d = r
    if o == 'eq':
        for p, q in ((a, b), (b, a)):
            if p is x and q.t == 'i':
                if q.a[0] == 0:
                    return d
                return 0 if d else None
    if o == 'lt':
        if b is x and a.t == 'i' and a.a[0] >= 0 and d:
            return 0
        if b is x and a.t == 'i' and a.a[0] == 0 and not d:
            return 1
        if a is x and b.t == 'i' and b.a[0] == 1:
            return d
    return None


def decides(r, x):
    """the number a decision says x is, or None"""
    o, a, b, d = r
    if o == 'eq' and d:
        for p, q in ((a, b), (b, a)):
            if p is x and q.t == 'i':
                return q.a[0]
    return None


def adt_path(*ends):
    """path of the type whose path ends with one of ends"""
    for e in ends:
        for p in ADTS:
            if p.endswith(e):
                return p
    raise Missing('no type ' + ends[0])


def variants(path):
    """{discriminant: variant name} and {variant name: index}"""
    ad = ADTS[path]
    return ({int(v['discr']): v['name'] for v in ad['variants']},
            {v['name']: i for i, v in enumerate(ad['variants'])})


def fieldof(base, path, name, variant=None):
    """the term for a named field of a value that is still unknown"""
    ad = ADTS[path]
    vi = 0 if variant is None else [v['name'] for v in ad['variants']].index(variant)
    fs = ad['variants'][vi]['fields']
    if name not in fs:
        raise Missing('%s has no field %s' % (path, name))
    return mk('fld', base, vi if ad['kind'] == 'enum' else None, fs.index(name))


def in_cycle(g, a, b):
    """does the edge a -> b lie on a cycle?"""
    seen = {b.id}
    work = [b]
    while work:
        n = work.pop()
        if n is a:
            return True
        for _, m in n.out:
            if m.id not in seen:
                seen.add(m.id)
                work.append(m)
    return False


def pushes_of(g):
    """{collection: items ever added to it}"""
    r = {}
    for n, evs, m in edges(g):
        for e in evs:
            if e[0] == 'push':
                r.setdefault(e[1], set()).add(e[2])
    return r


# ------------------------------------------------------------- records
class Rec:
    """an immutable record: the state of an automaton"""
    __slots__ = ('d', 'k', 'h')

    def __init__(self, **k):
        object.__setattr__(self, 'd', k)
        object.__setattr__(self, 'k', tuple(sorted(k.items(), key=lambda x: x[0])))
        object.__setattr__(self, 'h', hash(self.k))

    def __getattr__(self, n):
        return self.d[n]

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Rec) and self.h == o.h and self.k == o.k

    def set(self, **k):
        if all(self.d.get(n, Rec) is v for n, v in k.items()):
            return self
        d = dict(self.d)
        d.update(k)
        return Rec(**d)


_YOUNG = {}


def young(v):
    """a value with the marks of age (old, older) taken off its symbols"""
    if isinstance(v, tuple):
        return tuple(young(x) for x in v)
    if not isinstance(v, V):
        return v
    r = _YOUNG.get(v)
    if r is None:
        if v.t == 's':
            r = V_make(v.t, tuple(x for x in v.a if x not in ('old', 'older')))
        else:
            r = V_make(v.t, tuple(young(x) for x in v.a))
        _YOUNG[v] = r
    return r


def V_make(t, a):
    return mk(t, *a)


def derefsym(*path):
    return mk('fld', sym(*path), None, '*')
