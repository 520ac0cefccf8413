"""Abstract interpreter over the MIR dumped by /verif/driver.

Nothing is executed: every value is a term over symbols that stand for *any*
input, branches whose condition is not determined by the facts of the path are
taken both ways, and the exploration runs until no new abstract state appears.
The result is a finite graph whose nodes are abstract states and whose edges
carry the events (reads, writes, calls of the user's service, pushes into a
collection, panics ...) that the rules in rules_*.py are checked against.
"""
import json, resource, sys, time
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ values
_tab = {}


class V:
    __slots__ = ('t', 'a', 'syms', 'n', '_h')

    def __repr__(self):
        return show(self)


def _collect(a, out):
    for x in a:
        if isinstance(x, V):
            out |= x.syms
        elif isinstance(x, tuple):
            _collect(x, out)


_ids = [0]


def mk(t, *a):
    key = (t,) + a
    v = _tab.get(key)
    if v is None:
        v = V()
        v.t = t
        v.a = a
        s = set()
        _collect(a, s)
        if t == 's':
            s.add(v)
        v.syms = frozenset(s)
        _ids[0] += 1
        v.n = _ids[0]
        _tab[key] = v
    return v


_left = [0]


def show(v, d=0):
    # terms share their parts: what is printed of one is bounded
    if d == 0:
        _left[0] = 4000
    _left[0] -= 1
    if _left[0] < 0:
        return '…'
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, d + 1) for x in v) + ')'
    if not isinstance(v, V):
        return str(v)
    if d > 9:
        return '…'
    t, a = v.t, v.a
    if t == 'i':
        return str(a[0])
    if t == 'str':
        return json.dumps(a[0])
    if t == 'adt':
        ad = ADTS.get(a[0])
        nm = a[0].split('::')[-1]
        if ad and ad['kind'] == 'enum':
            nm = nm + '::' + ad['variants'][a[1]]['name']
        return nm + (('(' + ','.join(show(x, d + 1) for x in a[2]) + ')') if a[2] else '')
    if t == 'tup':
        return '(' + ','.join(show(x, d + 1) for x in a[0]) + ')'
    if t == 's':
        return '$' + '.'.join(show(x, d + 1) for x in a)
    if t == 'op':
        return a[0] + '(' + ','.join(show(x, d + 1) for x in a[1:]) + ')'
    if t == 'fld':
        return '%s.%s%s' % (show(a[0], d + 1), '' if a[1] is None else 'v%s.' % a[1], a[2])
    if t == 'lin':
        return '%s%+d' % (show(a[0], d + 1), a[1])
    if t == 'fn':
        return 'fn ' + a[0]
    if t in ('clo', 'cor'):
        return t + ':' + '::'.join(a[0].split('<')[0].split('::')[-4:])
    if t == 'ref':
        return '&' + show(a[0], d + 1) + ''.join('.' + str(p[-1] if isinstance(p, tuple) else p) for p in a[1])
    return t + show(a, d + 1)


ADTS = {}
HINT = {}          # V -> (lo, hi): range that follows from its type


def I(n):
    return mk('i', int(n))


UNIT = mk('tup', ())
TRUE, FALSE = I(1), I(0)
MOVED = mk('moved')
UNINIT = mk('uninit')


def adt(path, vi, *fields):
    return mk('adt', path, vi, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
NONE = adt(OPT, 0)


def Some(v):
    return adt(OPT, 1, v)


def Ok(v):
    return adt(RES, 0, v)


def Err(v):
    return adt(RES, 1, v)


def Ready(v):
    return adt(POLL, 0, v)


PENDING = adt(POLL, 1)


def tup(*xs):
    return mk('tup', tuple(xs))


def sym(*a):
    return mk('s', *a)


def op(name, *a):
    return mk('op', name, *a)


def hint(v, lo, hi):
    HINT.setdefault(v, (lo, hi))
    return v


def subst(v, m, memo):
    """replace symbols (dict V->V) everywhere inside v"""
    if isinstance(v, V):
        r = memo.get(v)
        if r is not None:
            return r
        if v in m:
            r = m[v]
        elif not any(s in m for s in v.syms):
            r = v
        else:
            r = mk(v.t, *[subst(x, m, memo) for x in v.a])
            if v in HINT:
                HINT.setdefault(r, HINT[v])
        memo[v] = r
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, m, memo) for x in v)
    return v


def leaves_gen(v):
    return v.syms


# ------------------------------------------------------------------ dumps
class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d['crate']
        self.bodies = d['bodies']
        self.types = d['types']
        self.fns = d['fns']
        for k, a in d['adts'].items():
            if k not in ADTS or (a.get('drop') and not ADTS[k].get('drop')):
                ADTS[k] = a
        self.by_path = {}
        for k, b in self.bodies.items():
            self.by_path.setdefault(b['path'], []).append(k)


class World:
    def __init__(self, dumps):
        self.dumps = dumps
        self.bcache = {}
        self.promo = {}

    def find(self, dump, key):
        """(dump, key) of the best body for key, or None"""
        b = dump.bodies.get(key)
        if b is not None and not (b.get('lowered')):
            return dump, key
        for o in self.dumps:
            if o is not dump and key in o.bodies and not o.bodies[key].get('lowered'):
                return o, key
        path = strip_generics(key)
        best = None
        for o in self.dumps:
            for k in o.by_path.get(path, ()):
                bb = o.bodies[k]
                if bb.get('lowered'):
                    continue
                if '::promoted[' in k:
                    continue
                # prefer the identity-generic body of the defining crate
                rank = (not path.startswith(o.crate), len(k))
                if best is None or rank < best[0]:
                    best = (rank, o, k)
        if best:
            return best[1], best[2]
        if b is not None:
            return dump, key
        return None

    def body(self, dump, key):
        c = self.bcache.get((dump.crate, key))
        if c is None:
            c = Body(dump, key)
            self.bcache[(dump.crate, key)] = c
        return c


def strip_generics(key):
    """haproxy::f::{closure#0}<A, B> -> haproxy::f::{closure#0}"""
    out, depth, i = [], 0, 0
    while i < len(key):
        c = key[i]
        if c == '<':
            depth += 1
        elif c == '>' and key[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Body:
    __slots__ = ('dump', 'key', 'path', 'argc', 'blocks', 'locals', 'coroutine', 'heads', 'live', 'addr', 'names',
                 'span', 'spread', 'nloc', 'copyty', 'inloop')

    def __init__(self, dump, key):
        b = dump.bodies[key]
        self.dump, self.key, self.path = dump, key, b['path']
        self.argc, self.blocks, self.locals = b['argc'], b['blocks'], b['locals']
        self.coroutine, self.names, self.span = b['coroutine'], b['names'], b['span']
        self.spread = b.get('spread')
        self.nloc = len(self.locals)
        self._cfg()

    def succ(self, bb):
        t = self.blocks[bb]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        if k == 'yield':
            return [t[2]]
        return []

    def in_loop(self, bb):
        """is the block part of a cycle of the control-flow graph?"""
        if self.inloop is None:
            self.inloop = {}
        r = self.inloop.get(bb)
        if r is None:
            seen = set()
            work = list(self.succ(bb))
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work.extend(self.succ(x))
            r = self.inloop[bb] = bb in seen
        return r

    def _cfg(self):
        n = len(self.blocks)
        color = [0] * n
        heads = set()
        stack = [(0, iter(self.succ(0)))]
        color[0] = 1
        order = []
        while stack:
            u, it = stack[-1]
            for w in it:
                if color[w] == 0:
                    color[w] = 1
                    stack.append((w, iter(self.succ(w))))
                    break
                elif color[w] == 1:
                    heads.add(w)
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        self.heads = heads
        self.inloop = None
        # liveness (whole locals) and address-taken locals
        addr = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e != '*' and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def place_def(p, u, d):
            if not p[1]:
                d.add(p[0])
            else:
                place_use(p, u, d)

        def oper(o, u, d):
            if o[0] in 'cm' and o[0] != 'k':
                place_use(o[1], u, d)

        def rval(r, u, d):
            k = r[0]
            if k in ('use', 'repeat'):
                oper(r[1], u, d)
            elif k == 'ref' or k == 'rawptr':
                pl = r[2] if isinstance(r[2], list) else r[1]
                place_use(pl, u, d)
                if not any(e == '*' for e in pl[1]):
                    addr.add(pl[0])
            elif k == 'cast':
                oper(r[2], u, d)
            elif k == 'bin':
                oper(r[2], u, d)
                oper(r[3], u, d)
            elif k == 'un':
                oper(r[2], u, d)
            elif k in ('discr', 'len', 'cfd'):
                if isinstance(r[1], list):
                    place_use(r[1], u, d)
            elif k == 'agg':
                for x in r[2]:
                    oper(x, u, d)

        for i, b in enumerate(self.blocks):
            u, d = use[i], dfn[i]
            for s in b['s']:
                if s[0] == '=':
                    rval(s[2], u, d)
                    place_def(s[1], u, d)
                elif s[0] == 'setdiscr':
                    place_use(s[1], u, d)
            t = b['t']
            k = t[0]
            if k == 'switch':
                oper(t[1], u, d)
            elif k == 'drop':
                place_use(t[1], u, d)
            elif k == 'call':
                oper(t[1], u, d)
                for x in t[2]:
                    oper(x, u, d)
                place_def(t[3], u, d)
            elif k == 'assert':
                oper(t[1], u, d)
                for x in t[4]:
                    oper(x, u, d)
            elif k == 'yield':
                oper(t[1], u, d)
                place_def(t[3], u, d)
            elif k == 'return':
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in self.succ(i):
                    o |= live[s]
                nv = use[i] | (o - dfn[i])
                if nv != live[i]:
                    live[i] = nv
                    ch = True
        self.live = [frozenset(x | addr) for x in live]
        self.addr = addr


# ------------------------------------------------------------------ state
TLOCS = {}
NOLOCS = frozenset()


def tlocs(v):
    """the cells made for the time of a call that a value leads to"""
    if isinstance(v, V):
        r = TLOCS.get(v)
        if r is None:
            r = TLOCS[v] = tlocs(v.a)
        return r
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 't' and isinstance(v[1], int):
            return frozenset((v,))
        r = NOLOCS
        for x in v:
            if isinstance(x, (V, tuple)):
                q = tlocs(x)
                if q:
                    r = r | q
        return r
    return NOLOCS


class Frame:
    __slots__ = ('fid', 'body', 'bb', 'dest', 'mode', 'x', '_k')

    def __init__(self, fid, body, bb, dest, mode='call', x=None):
        self.fid, self.body, self.bb, self.dest, self.mode, self.x = fid, body, bb, dest, mode, x
        self._k = (fid, body.key, bb, dest, mode, x)

    def at(self, bb):
        return Frame(self.fid, self.body, bb, self.dest, self.mode, self.x)


class St:
    __slots__ = ('fr', 'mem', 'facts', 'evs', 'end')

    def __init__(self, fr=(), mem=None, facts=None, evs=()):
        self.fr = fr
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.evs = evs
        self.end = None

    def fork(self):
        s = St(self.fr, dict(self.mem), dict(self.facts), self.evs)
        return s

    def key(self):
        return (tuple(f._k for f in self.fr), frozenset(self.mem.items()), frozenset(self.facts.items()))

    def goto(self, bb):
        self.fr = self.fr[:-1] + (self.fr[-1].at(bb),)

    def ev(self, kind, *args):
        self.evs = self.evs + ((kind,) + args,)


INF = 1 << 200


def ty_range(ty):
    k = ty['k']
    if k == 'uint':
        return 0, (1 << ty['bits']) - 1
    if k == 'int':
        return -(1 << (ty['bits'] - 1)), (1 << (ty['bits'] - 1)) - 1
    if k == 'bool':
        return 0, 1
    if k == 'char':
        return 0, 0x10FFFF
    return None


BREV = {}


DEADLINE = [None, 9 << 20]


def check_budget():
    """gives up before the check runs out of its time or the machine out of its memory"""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Abort('out of time')
    if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > DEADLINE[1]:
        raise Abort('out of memory')


class Abort(Exception):
    pass


BRDISCR = ('frame', 'wstatus', 'rstatus', 'param')
BRSYMS = ('nread', 'nwritten', 'rd', 'wire', 'el', 'frame', 'fit', 'param', 'wstatus', 'rstatus')


class Interp:
    MAXSTEPS = 3000000
    WIDEN = 24

    def __init__(self, world, models, anchors=None, log=None):
        self.w = world
        self.models = models
        self.anchors = anchors or []      # functions (ip, st, call) -> outcomes or None
        self.fids = {}
        self.unmodelled = {}
        self.covered = set()              # bodies interpreted
        self.steps = 0
        self.cut = []                     # recursion cut-offs
        self.hooks = {}
        self.panics = []
        self.opts = {}

    # ------------------------------------------------------------- facts
    def rng(self, st, v, d=0):
        t = v.t
        if t == 'i':
            return v.a[0], v.a[0]
        f = st.facts.get(v)
        lo, hi = -INF, INF
        h = HINT.get(v)
        if h:
            lo, hi = h
        if f is not None:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        if d > 200:
            return lo, hi
        if t == 'lin':
            a, b = self.rng(st, v.a[0], d + 1)
            lo, hi = max(lo, a + v.a[1]), min(hi, b + v.a[1])
        elif t == 'op':
            n = v.a[0]
            if n in ('lt', 'eq', 'slt'):
                lo, hi = max(lo, 0), min(hi, 1)
            elif n == 'cast':
                a, b = self.rng(st, v.a[1], d + 1)
                tl, th = v.a[2], v.a[3]
                if tl <= a and b <= th:
                    lo, hi = max(lo, a), min(hi, b)
                else:
                    lo, hi = max(lo, tl), min(hi, th)
            elif n == 'band':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if a >= 0 and c >= 0:
                    lo, hi = max(lo, 0), min(hi, b, e)
                elif c >= 0:
                    lo, hi = max(lo, 0), min(hi, e)
                elif a >= 0:
                    lo, hi = max(lo, 0), min(hi, b)
            elif n in ('add', 'sub', 'mul'):
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if n == 'add':
                    l2, h2 = a + c, b + e
                elif n == 'sub':
                    l2, h2 = a - e, b - c
                else:
                    p = (a * c, a * e, b * c, b * e)
                    l2, h2 = min(p), max(p)
                lo, hi = max(lo, l2), min(hi, h2)
            elif n == 'shr':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if a >= 0 and 0 <= c and e < 200:
                    lo, hi = max(lo, a >> e), min(hi, b >> c)
            elif n == 'shl':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if a >= 0 and 0 <= c and e < 130 and b < INF:
                    lo, hi = max(lo, a << c), min(hi, b << e) if (b << e) <= v.a[3] else hi
            elif n == 'bor':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if a >= 0 and c >= 0 and max(b, e) < INF:
                    lo, hi = max(lo, a, c), min(hi, (1 << max(b, e).bit_length()) - 1)
            elif n == 'rem':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if a >= 0 and c > 0:
                    lo, hi = max(lo, 0), min(hi, b, e - 1)
            elif n == 'div':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                if a >= 0 and c > 0:
                    lo, hi = max(lo, 0), min(hi, b // c)
            elif n == 'min':
                a, b = self.rng(st, v.a[1], d + 1)
                c, e = self.rng(st, v.a[2], d + 1)
                lo, hi = max(lo, min(a, c)), min(hi, b, e)
            elif n == 'len':
                lo = max(lo, 0)
                hi = min(hi, (1 << 63) - 1)
        return lo, hi

    def setf(self, st, v, lo, hi, excl=()):
        a, b = self.rng(st, v)
        lo, hi = max(lo, a), min(hi, b)
        f = st.facts.get(v)
        ex = (f[2] if f else frozenset()) | frozenset(excl)
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return False
        ex = frozenset(x for x in ex if lo < x < hi)
        if lo == -INF and hi == INF and not ex:
            return True
        st.facts[v] = (lo, hi, ex)
        # push through invertible structure
        if v.t == 'lin':
            return self.setf(st, v.a[0], lo - v.a[1], hi - v.a[1])
        if v.t == 'op' and v.a[0] == 'shr' and v.a[2].t == 'i' and 0 <= v.a[2].a[0] < 64:
            c = v.a[2].a[0]
            if self.rng(st, v.a[1])[0] >= 0:
                l2 = (lo << c) if lo > 0 else 0
                h2 = ((hi + 1) << c) - 1 if hi < INF else INF
                return self.setf(st, v.a[1], l2, h2)
        if v.t == 'op' and v.a[0] == 'cast':
            a, b = self.rng(st, v.a[1])
            if v.a[2] <= a and b <= v.a[3]:
                return self.setf(st, v.a[1], lo, hi, ex)
        return True

    def assume_eq(self, st, v, n):
        if v.t == 'i':
            return v.a[0] == n
        f = st.facts.get(v)
        if f and n in f[2]:
            return False
        lo, hi = self.rng(st, v)
        if not lo <= n <= hi:
            return False
        if v.t == 'op' and v.a[0] in ('lt', 'slt', 'eq', 'band', 'bnot'):
            if v.a[0] in ('lt', 'eq') or v in HINT and HINT[v] == (0, 1):
                return self.assume(st, v, n)
        return self.setf(st, v, n, n)

    def assume_ne(self, st, v, n):
        if v.t == 'i':
            return v.a[0] != n
        lo, hi = self.rng(st, v)
        if lo == hi == n:
            return False
        if (lo, hi) == (0, 1) and n in (0, 1):
            return self.assume_eq(st, v, 1 - n)
        return self.setf(st, v, lo, hi, (n,))

    def decide(self, st, b):
        """truth of a boolean term: 1, 0 or None"""
        if b.t == 'i':
            return b.a[0]
        f = st.facts.get(b)
        if f is not None and f[0] == f[1]:
            return f[0]
        if b.t == 'op':
            n = b.a[0]
            if n == 'bnot':
                x = self.decide(st, b.a[1])
                return None if x is None else 1 - x
            if n == 'lt':
                x, y = b.a[1], b.a[2]
                if x is y:
                    return 0
                a, c = self.rng(st, x)
                e, g = self.rng(st, y)
                if c < e:
                    return 1
                if a >= g:
                    return 0
                bx, cx = (x.a[0], x.a[1]) if x.t == 'lin' else (x, 0)
                by, cy = (y.a[0], y.a[1]) if y.t == 'lin' else (y, 0)
                if bx is by:
                    return 1 if cx < cy else 0
                r = st.facts.get(op('lt', y, x))
                if r is not None and r[0] == 1:
                    return 0
                # transitivity through the same base: known lt(bx, by)
                if bx is not x or by is not y:
                    r = st.facts.get(op('lt', bx, by))
                    if r is not None and r[0] == r[1]:
                        if r[0] == 1 and cx <= cy:
                            return 1
                        if r[0] == 0 and cx >= cy:
                            return 0
                r = st.facts.get(op('eq', *_ord(x, y)))
                if r is not None and r[0] == 1:
                    return 0
            if n == 'eq':
                x, y = b.a[1], b.a[2]
                if x is y:
                    return 1
                if isinstance(x, V) and isinstance(y, V):
                    a, c = self.rng(st, x)
                    e, g = self.rng(st, y)
                    if c < e or g < a:
                        return 0
                    if a == c == e == g:
                        return 1
                    if x.t == 'i' and y in st.facts and x.a[0] in st.facts[y][2]:
                        return 0
                    if y.t == 'i' and x in st.facts and y.a[0] in st.facts[x][2]:
                        return 0
                    for p, q in ((x, y), (y, x)):
                        r = st.facts.get(op('lt', p, q))
                        if r is not None and r[0] == 1:
                            return 0
            if n == 'band' and HINT.get(b) == (0, 1):
                x, y = self.decide(st, b.a[1]), self.decide(st, b.a[2])
                if x == 0 or y == 0:
                    return 0
                if x == 1 and y == 1:
                    return 1
            if n == 'bor' and HINT.get(b) == (0, 1):
                x, y = self.decide(st, b.a[1]), self.decide(st, b.a[2])
                if x == 1 or y == 1:
                    return 1
                if x == 0 and y == 0:
                    return 0
        lo, hi = self.rng(st, b)
        if lo == hi:
            return lo
        return None

    def assume(self, st, b, val):
        """add the fact b == val; False when impossible"""
        d = self.decide(st, b)
        if d is not None:
            return d == val
        if b.t == 'op' and b.a[0] == 'bnot':
            return self.assume(st, b.a[1], 1 - val)
        st.facts[b] = (val, val, frozenset())
        if b.t == 'op':
            n = b.a[0]
            if n == 'lt':
                x, y = b.a[1], b.a[2]
                a, c = self.rng(st, x)
                e, g = self.rng(st, y)
                if val:
                    return (self.setf(st, x, -INF, g - 1) if x.t != 'i' else True) and \
                           (self.setf(st, y, a + 1, INF) if y.t != 'i' else True)
                return (self.setf(st, x, e, INF) if x.t != 'i' else True) and \
                       (self.setf(st, y, -INF, c) if y.t != 'i' else True)
            if n == 'eq':
                x, y = b.a[1], b.a[2]
                if val:
                    a, c = self.rng(st, x)
                    e, g = self.rng(st, y)
                    lo, hi = max(a, e), min(c, g)
                    if (lo, hi) == (-INF, INF):
                        return True
                    return (self.setf(st, x, lo, hi) if x.t != 'i' else True) and \
                           (self.setf(st, y, lo, hi) if y.t != 'i' else True)
                if y.t == 'i':
                    return self.assume_ne(st, x, y.a[0])
                if x.t == 'i':
                    return self.assume_ne(st, y, x.a[0])
            if n == 'band' and val and HINT.get(b) == (0, 1):
                return self.assume(st, b.a[1], 1) and self.assume(st, b.a[2], 1)
            if n == 'bor' and not val and HINT.get(b) == (0, 1):
                return self.assume(st, b.a[1], 0) and self.assume(st, b.a[2], 0)
        return True

    def split(self, st, b):
        """[(state, 0/1)] for a boolean term"""
        d = self.decide(st, b)
        if d is not None:
            return [(st, d)]
        out = []
        s1 = st.fork()
        if self.assume(s1, b, 1):
            self.brev(s1, b, 1)
            out.append((s1, 1))
        if self.assume(st, b, 0):
            self.brev(st, b, 0)
            out.append((st, 0))
        return out

    # ------------------------------------------------------------- memory
    def initial(self, loc):
        if loc[0] == 'h':
            v = loc[1]
            if v.t in ('str', 'bytes'):
                return v
            if v.t == 'cref':
                return v.a[0]
            return self.deref_sym(v)
        return UNINIT

    def deref_sym(self, v):
        if v.t == 'op' and v.a[0] == 'asref':
            return v.a[1]
        r = mk('fld', v, None, '*')
        return r

    def rd(self, st, loc, proj):
        v = st.mem.get(loc)
        if v is None:
            v = self.initial(loc)
        for p in proj:
            v = self.field(v, p)
        return v

    def field(self, v, p):
        t = v.t
        if p[0] == 'v':
            if t == 'adt':
                return v
            if t == 'upd' and v.a[0].t == 'asv':
                return v
            if t == 'asv':
                return v
            return mk('asv', v, p[1]) if t != 'upd' else mk('upd', mk('asv', v.a[0], p[1]), v.a[1])
        if p[0] == 'f':
            i = p[1]
            if t == 'adt':
                return v.a[2][i] if i < len(v.a[2]) else UNINIT
            if t == 'tup':
                return v.a[0][i]
            if t in ('clo', 'cor'):
                return v.a[1][i] if i < len(v.a[1]) else mk('fld', v, None, i)
            if t == 'upd':
                for k, x in v.a[1]:
                    if k == i:
                        return x
                return self.field(v.a[0], p)
            if t in ('uninit', 'moved'):
                return v
            if t == 'asv':
                r = mk('fld', v.a[0], v.a[1], i)
            else:
                r = mk('fld', v, None, i)
            if len(p) > 2 and r not in HINT:
                tr = p[2]
                if tr is not None:
                    HINT[r] = tr
            return r
        if p[0] == 'b':
            return v.a[0] if t == 'box' else mk('fld', v, None, '*')
        if p[0] == 'i':
            ix = p[1]
            if t == 'arr' and ix.t == 'i':
                n = ix.a[0]
                return v.a[0][n] if 0 <= n < len(v.a[0]) else mk('idx', v, ix)
            return mk('idx', v, ix)
        if p[0] == 'ss':
            if t == 'arr':
                to = len(v.a[0]) - p[2] if p[3] else p[2]
                return mk('arr', v.a[0][p[1]:to])
            return op('slice', v, p[1], p[2], p[3])
        raise Abort('field %r' % (p,))

    def wr(self, st, loc, proj, val):
        if not proj:
            st.mem[loc] = val
            return
        base = st.mem.get(loc)
        if base is None:
            base = self.initial(loc)
        st.mem[loc] = self.upd(base, proj, val)

    def upd(self, v, proj, val):
        if not proj:
            return val
        p, rest = proj[0], proj[1:]
        t = v.t
        if p[0] == 'v':
            if t == 'adt':
                if v.a[1] != p[1]:
                    v = adt(v.a[0], p[1])
                return self.upd(v, rest, val)
            if t == 'asv' or (t == 'upd' and v.a[0].t == 'asv'):
                return self.upd(v, rest, val)
            return self.upd(mk('asv', v, p[1]) if t != 'upd' else mk('upd', mk('asv', v.a[0], p[1]), v.a[1]), rest, val)
        cur = self.field(v, p)
        nv = self.upd(cur, rest, val)
        if nv is cur:
            return v
        if p[0] == 'f':
            i = p[1]
            if t == 'adt':
                fs = list(v.a[2])
                while len(fs) <= i:
                    fs.append(UNINIT)
                fs[i] = nv
                return mk('adt', v.a[0], v.a[1], tuple(fs))
            if t == 'tup':
                fs = list(v.a[0])
                fs[i] = nv
                return mk('tup', tuple(fs))
            if t in ('clo', 'cor'):
                fs = list(v.a[1])
                fs[i] = nv
                return mk(t, v.a[0], tuple(fs), *v.a[2:])
            if t == 'upd':
                d = dict(v.a[1])
                d[i] = nv
                return mk('upd', v.a[0], tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))
            return mk('upd', v, ((i, nv),))
        if p[0] == 'b':
            return mk('box', nv) if t == 'box' else mk('upd', v, (('*', nv),))
        if p[0] == 'i':
            ix = p[1]
            if t == 'arr' and ix.t == 'i':
                fs = list(v.a[0])
                fs[ix.a[0]] = nv
                return mk('arr', tuple(fs))
            return op('setidx', v, ix, nv)
        return op('setidx', v, str(p), nv)

    def target(self, st, v):
        """where a pointer value points: (loc, proj)"""
        if v.t == 'ref':
            return v.a[0], v.a[1]
        return ('h', v), ()

    def mkref(self, loc, proj):
        if loc[0] == 'h' and not proj:
            return loc[1]
        return mk('ref', loc, proj)

    def deref(self, st, v):
        loc, proj = self.target(st, v)
        return self.rd(st, loc, proj)

    def peel(self, st, v, n=8):
        """follow references to the referent"""
        while n and (v.t in ('ref', 'cref')):
            v = self.deref(st, v)
            n -= 1
        return v

    def peel_place(self, st, v):
        """innermost place a chain of references leads to"""
        loc, proj = self.target(st, v)
        for _ in range(12):
            x = self.rd(st, loc, proj)
            if x.t in ('ref', 'cref'):
                loc, proj = self.target(st, x)
            else:
                return loc, proj, x
        raise Abort('peel')

    def snap(self, st, v, d=0):
        """value of v with references replaced by what they refer to"""
        if d > 6:
            return v
        if v.t == 'ref':
            return self.snap(st, self.deref(st, v), d + 1)
        if v.t == 'cref':
            return self.snap(st, v.a[0], d + 1)
        if v.t == 'adt' and v.a[2]:
            return mk('adt', v.a[0], v.a[1], tuple(self.snap(st, x, d + 1) for x in v.a[2]))
        if v.t == 'tup' and v.a[0]:
            return mk('tup', tuple(self.snap(st, x, d + 1) for x in v.a[0]))
        if v.t == 'arr' and len(v.a[0]) < 64:
            return mk('arr', tuple(self.snap(st, x, d + 1) for x in v.a[0]))
        return v

    def place(self, st, fr, p):
        loc, proj = ('l', fr.fid, p[0]), ()
        types = fr.body.dump.types
        for e in p[1]:
            if e == '*':
                v = self.rd(st, loc, proj)
                if v.t == 'box':
                    proj = proj + (('b',),)
                else:
                    loc, proj = self.target(st, v)
            elif e[0] == 'f':
                r = None
                if len(e) > 2 and isinstance(e[2], int):
                    r = ty_range(types[e[2]])
                proj = proj + (('f', e[1], r),)
            elif e[0] == 'v':
                proj = proj + (('v', e[1]),)
            elif e[0] == 'i':
                proj = proj + (('i', self.rd(st, ('l', fr.fid, e[1]), ())),)
            elif e[0] == 'ci':
                off = e[1]
                v = self.rd(st, loc, proj)
                if e[3]:
                    n = len(v.a[0]) if v.t == 'arr' else None
                    ix = I(n - off) if n is not None else op('fromend', v, I(off))
                else:
                    ix = I(off)
                proj = proj + (('i', ix),)
            elif e[0] == 'ss':
                proj = proj + (tuple(e),)
            else:
                pass
        return loc, proj

    def const(self, st, dump, k, body):
        if 'fn' in k:
            f = k['fn']
            return self.fnval(dump, f)
        if 'int' in k:
            return I(int(k['int']))
        if 'str' in k:
            return mk('str', k['str'])
        if 'bytes' in k:
            b = k['bytes']
            return mk('bytes', bytes(b) if isinstance(b, list) else b)
        if 'adt' in k:
            return mk('adt', k['adt'], k['variant'], tuple(self.const(st, dump, x, body) for x in k['fields']))
        if 'tuple' in k:
            return mk('tup', tuple(self.const(st, dump, x, body) for x in k['tuple']))
        if 'array' in k:
            return mk('arr', tuple(self.const(st, dump, x, body) for x in k['array']))
        if 'ref' in k:
            return mk('cref', self.const(st, dump, k['ref'], body))
        if 'promoted' in k:
            return self.promoted(dump, k['promoted'])
        if 'closure' in k:
            return mk('clo', k['closure'], ())
        if 'static' in k:
            return sym('static', k['static'])
        if 'unk' in k:
            u = k['unk']
            if isinstance(u, str) and u.startswith('"'):
                try:
                    return mk('str', json.loads(u))
                except Exception:
                    pass
            ty = dump.types[k['ty']] if 'ty' in k else None
            if ty and ty['k'] in ('adt', 'tuple') and u in ('aggregate', 'generic'):
                return sym('const', ty['s'])
            return sym('const', str(u), ty['s'] if ty else '')
        return sym('const', json.dumps(k, sort_keys=True)[:80])

    FN = {}

    def fnval(self, dump, f):
        key = f.get('inst') or f.get('inst_path') or f['path']
        v = mk('fn', key + '|' + f['path'] + '|' + ','.join(f.get('args', []))[:300] + '|' + dump.crate)
        self.FN.setdefault(v, (dump, f))
        return v

    def promoted(self, dump, key):
        c = self.w.promo.get((dump.crate, key))
        if c is not None:
            return c
        fb = self.w.find(dump, key) if key not in dump.bodies else (dump, key)
        if fb is None:
            return sym('const', key)
        body = self.w.body(*fb)
        sub = Interp(self.w, self.models)
        sub.hooks = {}
        sub.opts['promoted'] = True
        st = St()
        st.fr = (Frame(self.fid(('promo', key)), body, 0, None),)
        val = None
        try:
            todo = [st]
            ends = []
            n = 0
            while todo and n < 200:
                n += 1
                s = todo.pop()
                for r in sub.run(s):
                    if r.end is not None:
                        ends.append(r)
                    else:
                        todo.append(r)
            ends = [e for e in ends if e.end[0] == 'return']
            if len(ends) == 1:
                e = ends[0]
                val = self.materialize(e, e.end[1])
        except Abort:
            val = None
        if val is None:
            val = sym('const', key)
        self.w.promo[(dump.crate, key)] = val
        return val

    def materialize(self, st, v, d=0):
        if d > 8:
            return v
        if v.t == 'ref':
            return mk('cref', self.materialize(st, self.deref(st, v), d + 1))
        if v.t in ('adt',) and v.a[2]:
            return mk('adt', v.a[0], v.a[1], tuple(self.materialize(st, x, d + 1) for x in v.a[2]))
        if v.t == 'tup' and v.a[0]:
            return mk('tup', tuple(self.materialize(st, x, d + 1) for x in v.a[0]))
        if v.t == 'arr':
            return mk('arr', tuple(self.materialize(st, x, d + 1) for x in v.a[0]))
        return v

    def fid(self, path):
        n = self.fids.get(path)
        if n is None:
            n = len(self.fids) + 1
            self.fids[path] = n
        return n

    def operand(self, st, fr, o):
        if o[0] == 'k':
            return self.const(st, fr.body.dump, o[1], fr.body)
        loc, proj = self.place(st, fr, o[1])
        v = self.rd(st, loc, proj)
        if o[0] == 'm':
            if v.t not in ('i', 'moved'):
                if loc[0] != 'h' or proj:
                    self.wr(st, loc, proj, MOVED)
        return v

    # ------------------------------------------------------------- rvalues
    def opty(self, fr, o):
        """type entry of an operand"""
        types = fr.body.dump.types
        if o[0] == 'k':
            return types[o[1]['ty']] if 'ty' in o[1] else None
        p = o[1]
        if not p[1]:
            return types[fr.body.locals[p[0]]]
        e = p[1][-1]
        if e != '*' and e[0] == 'f' and isinstance(e[2], int):
            return types[e[2]]
        if e == '*' and len(p[1]) == 1:
            t = types[fr.body.locals[p[0]]]
            if 'inner' in t:
                return types[t['inner']]
        return None

    def tyhint(self, v, ty):
        if ty is not None and v.t not in ('i',) and v not in HINT:
            r = ty_range(ty)
            if r:
                HINT[v] = r
        return v

    def discr(self, st, v, path=None):
        v0 = v
        while v.t == 'upd':
            v = v.a[0]
        if v.t == 'asv':
            a = v.a[0]
            while a.t in ('upd', 'asv'):
                a = a.a[0]
            d = op('discr', a)
            if path and path in ADTS and ADTS[path]['kind'] == 'enum':
                vs = ADTS[path]['variants']
                if v.a[1] < len(vs):
                    return I(int(vs[v.a[1]]['discr']))
            return d
        if v.t == 'adt':
            a = ADTS.get(v.a[0])
            if a is None:
                return I(v.a[1])
            vs = a['variants']
            if v.a[1] < len(vs):
                return I(int(vs[v.a[1]]['discr']))
            return I(v.a[1])
        if v.t == 'i':
            return v
        return op('discr', v)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            v = self.operand(st, fr, r[1])
            if v.t != 'i' and v not in HINT:
                self.tyhint(v, self.opty(fr, r[1]))
            return v
        if k == 'ref':
            loc, proj = self.place(st, fr, r[2])
            return self.mkref(loc, proj)
        if k == 'rawptr':
            pl = r[2] if isinstance(r[2], list) else r[1]
            loc, proj = self.place(st, fr, pl)
            return self.mkref(loc, proj)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            types = fr.body.dump.types
            to, frm = types[r[3]], types[r[4]]
            if r[1] in ('IntToInt',):
                return self.cast(st, self.tyhint(v, frm), to, frm)
            if r[1].startswith('PointerCoercion') or r[1] in ('PtrToPtr', 'Subtype', 'FnPtrToPtr', 'Transmute'):
                if r[1] == 'Transmute':
                    if v.t == 'i':
                        return v
                    tr = ty_range(to)
                    if tr and ty_range(frm):
                        return self.cast(st, self.tyhint(v, frm), to, frm)
                    return v if v.t in ('ref', 'cref', 'adt', 'arr') else op('transmute', v, to['s'][:60]) if to['k'] in ('adt', 'tuple') else v
                return v
            return op('cast:' + r[1][:20], v)
        if k == 'bin':
            types = fr.body.dump.types
            ty = types[r[4]] if len(r) > 4 and r[4] is not None else self.opty(fr, r[2])
            a = self.tyhint(self.operand(st, fr, r[2]), self.opty(fr, r[2]) or ty)
            b = self.tyhint(self.operand(st, fr, r[3]), self.opty(fr, r[3]))
            if r[1] in ('Lt', 'Le', 'Gt', 'Ge'):
                v = self.signed(st, r[1], a, b, self.opty(fr, r[2]))
                if v is not None:
                    return v
            return self.binop(st, r[1], a, b, ty)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            ty = self.opty(fr, r[2])
            if r[1] == 'Not':
                if ty and ty['k'] == 'bool':
                    return self.bnot(v)
                if v.t == 'i' and ty and ty['k'] == 'uint':
                    return I(~v.a[0] & ((1 << ty['bits']) - 1))
                return self.tyhint(op('inv', v), ty)
            if r[1] == 'Neg':
                return I(-v.a[0]) if v.t == 'i' else op('neg', v)
            if r[1] == 'PtrMetadata':
                return self.len_of(st, v)
            return op('un:' + r[1], v)
        if k == 'discr':
            loc, proj = self.place(st, fr, r[1])
            v = self.rd(st, loc, proj)
            ty = fr.body.dump.types[r[2]]
            path = ty.get('path')
            d = self.discr(st, v, path)
            if d.t != 'i' and d not in HINT and path and path in ADTS and ADTS[path]['kind'] == 'enum':
                ds = [int(x['discr']) for x in ADTS[path]['variants']]
                if ds:
                    HINT[d] = (min(ds), max(ds))
                    ENUMS[d] = (path, frozenset(ds))
            return d
        if k == 'len':
            loc, proj = self.place(st, fr, r[1])
            return self.len_of(st, self.mkref(loc, proj))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return mk('arr', (v,) * n)
            return op('repeat', v, n if n is not None else -1)
        if k == 'agg':
            fs = tuple(self.operand(st, fr, x) for x in r[2])
            if r[1] == 'array':
                return mk('arr', fs)
            if r[1] == 'tuple':
                return mk('tup', fs)
            if r[1] == 'adt':
                return mk('adt', r[3], r[4], fs)
            if r[1] == 'closure':
                return mk('clo', r[3], fs, fr.body.dump.crate)
            if r[1] == 'coroutine':
                return mk('cor', r[3], fs, 'new', fr.body.dump.crate)
            if r[1] == 'rawptr':
                return fs[0]
            return op('agg:' + r[1], *fs)
        if k == 'tls':
            return sym('tls', r[1])
        return sym('rv', k)

    def bnot(self, v):
        if v.t == 'i':
            return I(1 - v.a[0])
        if v.t == 'op' and v.a[0] == 'bnot':
            return v.a[1]
        r = op('bnot', v)
        HINT[r] = (0, 1)
        return r

    def cast(self, st, v, to, frm=None):
        tr = ty_range(to)
        if tr is None:
            return v
        if v.t == 'i':
            n = v.a[0]
            if to['k'] in ('uint', 'int'):
                bits = to['bits']
                n &= (1 << bits) - 1
                if to['k'] == 'int' and n >= 1 << (bits - 1):
                    n -= 1 << bits
            return I(n)
        lo, hi = self.rng(st, v)
        if tr[0] <= lo and hi <= tr[1]:
            return v               # value preserving
        return op('cast', v, tr[0], tr[1])

    def signed(self, st, o, a, b, ty):
        """comparisons of the i8 an Ordering is: its discriminants are kept as the bytes they are"""
        if not ty or ty['k'] != 'int' or ty.get('bits') != 8:
            return None
        k = [x.a[0] - 256 if x.t == 'i' and 128 <= x.a[0] < 256 else x.a[0] if x.t == 'i' else None for x in (a, b)]
        if None not in k:
            return I(int({'Lt': k[0] < k[1], 'Le': k[0] <= k[1], 'Gt': k[0] > k[1], 'Ge': k[0] >= k[1]}[o]))
        if k[0] is not None:
            return self.signed(st, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[o], b, a, ty)
        if k[1] is None or a.t != 'op' or a.a[0] != 'discr':
            return None
        yes = [d for d in (-1, 0, 1) if {'Lt': d < k[1], 'Le': d <= k[1], 'Gt': d > k[1], 'Ge': d >= k[1]}[o]]
        if len(yes) in (0, 3):
            return I(int(len(yes) == 3))
        if len(yes) == 1:
            return self.cmp(st, 'Eq', a, I(yes[0] & 255))
        no = [d for d in (-1, 0, 1) if d not in yes][0]
        return self.bnot(self.cmp(st, 'Eq', a, I(no & 255)))

    def binop(self, st, o, a, b, ty):
        tr = ty_range(ty) if ty else None
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.cmp(st, o, a, b)
        ovf = o.endswith('WithOverflow')
        base = o[:-12] if ovf else o
        if base.endswith('Unchecked'):
            base = base[:-9]
        name = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'band', 'BitOr': 'bor',
                'BitXor': 'bxor', 'Shl': 'shl', 'Shr': 'shr'}.get(base)
        if name is None:
            if o == 'Cmp':
                return op('cmp', a, b)
            if o == 'Offset':
                return op('offset', a, b)
            return op('bin:' + o, a, b)
        val, of = self.arith(st, name, a, b, tr, ty)
        if ovf:
            return tup(val, of)
        return val

    def arith(self, st, name, a, b, tr, ty=None):
        """(value, overflow-flag term)"""
        if a.t == 'i' and b.t == 'i':
            x, y = a.a[0], b.a[0]
            if name == 'add':
                n = x + y
            elif name == 'sub':
                n = x - y
            elif name == 'mul':
                n = x * y
            elif name == 'div':
                n = x // y if y else 0
            elif name == 'rem':
                n = x % y if y else 0
            elif name == 'band':
                n = x & y
            elif name == 'bor':
                n = x | y
            elif name == 'bxor':
                n = x ^ y
            elif name == 'shl':
                bits = ty['bits'] if ty and 'bits' in ty else 64
                n = (x << (y % bits))
                if tr:
                    n &= (1 << bits) - 1
                return I(n), I(int(y >= bits))
            elif name == 'shr':
                n = x >> y
            if tr and not tr[0] <= n <= tr[1]:
                w = tr[1] - tr[0] + 1
                return I((n - tr[0]) % w + tr[0]), TRUE
            return I(n), FALSE
        if ty and ty['k'] == 'bool':
            r = op(name, *_ord(a, b))
            HINT[r] = (0, 1)
            if name == 'band':
                for p, q in ((a, b), (b, a)):
                    d = self.decide(st, p)
                    if d is not None:
                        return (q if d else FALSE), FALSE
            if name == 'bor':
                for p, q in ((a, b), (b, a)):
                    d = self.decide(st, p)
                    if d is not None:
                        return (TRUE if d else q), FALSE
            if name == 'bxor':
                if b.t == 'i':
                    return (self.bnot(a) if b.a[0] else a), FALSE
            return r, FALSE
        if name == 'add' and a.t == 'i':
            a, b = b, a
        r = None
        if name in ('add', 'sub') and b.t == 'i':
            c = b.a[0] if name == 'add' else -b.a[0]
            r = lin(a, c)
        elif name == 'sub':
            ba, ca = (a.a[0], a.a[1]) if a.t == 'lin' else (a, 0)
            bb, cb = (b.a[0], b.a[1]) if b.t == 'lin' else (b, 0)
            if ba is bb:
                r = I(ca - cb)
            elif ba.t == 'op' and ba.a[0] == 'add' and bb in ba.a[1:]:
                other = ba.a[2] if ba.a[1] is bb else ba.a[1]
                r = lin(other, ca - cb)
        elif name == 'add':
            ba, ca = (a.a[0], a.a[1]) if a.t == 'lin' else (a, 0)
            bb, cb = (b.a[0], b.a[1]) if b.t == 'lin' else (b, 0)
            if ca or cb:
                r = lin(op('add', *_ord(ba, bb)), ca + cb)
                for x in (ba, bb):
                    pass
        if r is None:
            if name in ('add', 'mul', 'band', 'bor', 'bxor'):
                x, y = _ord(a, b)
            else:
                x, y = a, b
            if name == 'shl':
                r = op('shl', x, y, tr[1] if tr else INF)
            else:
                r = op(name, x, y)
            if name == 'bor' and b.t == 'i' and b.a[0] == 0:
                r = a
            if name == 'bor' and a.t == 'i' and a.a[0] == 0:
                r = b
        lo, hi = self.rng(st, r)
        of = FALSE
        if name in ('add', 'sub', 'mul') and tr:
            if name == 'sub' and tr[0] == 0 and self.decide(st, self.cmp(st, 'Lt', a, b)) == 0:
                lo = max(lo, 0)
            # both operands are values of the type
            if name == 'sub' and self.rng(st, b)[0] >= 0:
                hi = min(hi, tr[1])
            if name == 'add' and self.rng(st, b)[0] >= 0 and self.rng(st, a)[0] >= 0:
                lo = max(lo, tr[0])
            if tr[0] <= lo and hi <= tr[1]:
                of = FALSE
            elif hi < tr[0] or lo > tr[1]:
                of = TRUE
            else:
                of = op('ovf', name, a, b, tr[0], tr[1])
                HINT[of] = (0, 1)
        elif name in ('shl', 'shr') and ty and 'bits' in ty:
            l2, h2 = self.rng(st, b)
            if 0 <= l2 and h2 < ty['bits']:
                of = FALSE
            else:
                of = self.bnot(self.cmp(st, 'Lt', b, I(ty['bits'])))
        if r.t != 'i' and tr and r not in HINT and of is FALSE:
            HINT[r] = tr
        return r, of

    def no_overflow(self, st, of):
        """assume that an overflow flag is 0"""
        if of.t == 'i':
            return of.a[0] == 0
        if of.t == 'op' and of.a[0] == 'ovf':
            st.facts[of] = (0, 0, frozenset())
            name, a, b, lo, hi = of.a[1:]
            if b.t == 'i' and name in ('add', 'sub'):
                c = b.a[0] if name == 'add' else -b.a[0]
                return self.setf(st, a, lo - c, hi - c) if a.t != 'i' else True
            if name == 'sub' and lo == 0:
                return self.assume(st, self.cmp(st, 'Lt', a, b), 0)
            return True
        return self.assume(st, of, 0)

    def ordering(self, st, v):
        """the numbers an Ordering comes from; fields of versions are left as they are"""
        while v.t == 'op' and v.a[0] == 'cast':
            v = v.a[1]
        if v.t == 'op' and v.a[0] == 'discr' and v.a[1].t == 'op' and v.a[1].a[0] == 'cmp':
            x, y = v.a[1].a[1:3]
            if all(z.t in ('i', 'lin') or self.rng(st, z) != (0, 255) and (z in HINT or z.t == 'op' and z.a[0] in ('len', 'cast'))
                   for z in (x, y)):
                return x, y
        return None

    def cmp(self, st, o, a, b):
        if a.t == 'adt' and b.t == 'adt' and a.a[0] == b.a[0] == 'core::option::Option':
            if a.a[1] == b.a[1] == 1:
                return self.cmp(st, o, self.peel(st, a.a[2][0]), self.peel(st, b.a[2][0]))
            return I(int({'Eq': a.a[1] == b.a[1], 'Ne': a.a[1] != b.a[1], 'Lt': a.a[1] < b.a[1], 'Le': a.a[1] <= b.a[1],
                          'Gt': a.a[1] > b.a[1], 'Ge': a.a[1] >= b.a[1]}[o]))
        q = self.ordering(st, a) if b.t == 'i' else None
        if q and o in ('Eq', 'Lt', 'Gt', 'Ge', 'Le'):
            k = b.a[0] if b.a[0] < 1 << 63 else -1
            k = -1 if k in (255, 65535, (1 << 32) - 1) else k
            x, y = q
            if o == 'Eq':
                return self.cmp(st, {-1: 'Lt', 0: 'Eq', 1: 'Gt'}.get(k, 'Eq'), x, y)
            w = {('Lt', 0): 'Lt', ('Lt', 1): 'Le', ('Le', -1): 'Lt', ('Le', 0): 'Le', ('Gt', -1): 'Ge', ('Gt', 0): 'Gt', ('Ge', 0): 'Ge',
                 ('Ge', 1): 'Gt'}.get((o, k))
            if w:
                return self.cmp(st, w, x, y)
        if o == 'Ne':
            return self.bnot(self.cmp(st, 'Eq', a, b))
        if o == 'Gt':
            return self.cmp(st, 'Lt', b, a)
        if o == 'Ge':
            return self.bnot(self.cmp(st, 'Lt', a, b))
        if o == 'Le':
            return self.bnot(self.cmp(st, 'Lt', b, a))
        if a.t == 'i' and b.t == 'i':
            return I(int(a.a[0] < b.a[0])) if o == 'Lt' else I(int(a.a[0] == b.a[0]))
        if o == 'Lt':
            t = op('lt', a, b)
        else:
            if a is b:
                return TRUE
            # booleans compared with a constant
            for x, y in ((a, b), (b, a)):
                if y.t == 'i' and x in HINT and HINT[x] == (0, 1) and x.t == 'op':
                    return x if y.a[0] == 1 else self.bnot(x)
            x, y = _ord(a, b)
            if x.t == 'lin' and y.t == 'i':
                x, y = x.a[0], I(y.a[0] - x.a[1])
            if y.t == 'lin' and x.t == 'i':
                x, y = y.a[0], I(x.a[0] - y.a[1])
            x, y = _ord(x, y)
            t = op('eq', x, y)
        HINT[t] = (0, 1)
        d = self.decide(st, t)
        return t if d is None else I(d)

    def len_of(self, st, v):
        """length of a slice / str / collection behind a pointer"""
        x = self.peel(st, v)
        return self.len_val(x)

    def len_val(self, x):
        if x.t == 'arr':
            return I(len(x.a[0]))
        if x.t == 'str':
            return I(len(x.a[0].encode()))
        if x.t == 'bytes':
            return I(len(x.a[0]))
        if x.t == 'buf':
            return x.a[1]
        if x.t == 'coll' and x.a[1].t == 'tup':
            return I(len(x.a[1].a[0]))
        if x.t == 'wb':
            from models import wblen
            return wblen(x)
        if x.t == 'op' and x.a[0] == 'slice_n':
            return x.a[2]
        if x.t == 'op' and x.a[0] in ('asbytes', 'tostr', 'copy'):
            return self.len_val(x.a[1])
        r = op('len', x)
        HINT[r] = (0, (1 << 63) - 1)
        return r

    # ------------------------------------------------------------- running
    def fresh(self, st, *name):
        """a new unknown value; the previous one of the same name becomes old"""
        v = sym(*name)
        ages = self.opts.get('ages')
        o1 = sym('age', 1, *name) if ages else sym('old', *name)
        o2 = sym('older', *name)
        present = set()
        for x in st.mem.values():
            present |= x.syms
        for x in st.facts:
            present |= x.syms
        if v in present:
            m = {v: o1}
            if ages:
                for k in range(1, ages):
                    m[sym('age', k, *name)] = sym('age', k + 1, *name)
            elif o1 in present:
                m[o1] = o2
            self.rename(st, m)
        return v

    def rename(self, st, m):
        memo = {}
        for k in list(st.mem):
            x = st.mem[k]
            if any(s in m for s in x.syms):
                st.mem[k] = subst(x, m, memo)
            if k[0] == 'h' and any(s in m for s in k[1].syms):
                nk = ('h', subst(k[1], m, memo))
                st.mem[nk] = st.mem.pop(k)
        nf = {}
        merged = set(x for x in m.values() if x.a[0] == 'older')
        for k, f in st.facts.items():
            if any(s in m for s in k.syms):
                k = subst(k, m, memo)
            if merged and any(s in merged for s in k.syms):
                continue
            nf[k] = f
        st.facts = nf

    def gc(self, st):
        """drop dead locals and the facts nothing refers to"""
        live = set()
        mem = {}
        fids = {}
        for f in st.fr:
            fids[f.fid] = f.body.live[f.bb]
        for k, v in st.mem.items():
            if k[0] == 'l':
                l = fids.get(k[1])
                if l is not None and k[2] not in l:
                    continue
            if v.t in ('uninit', 'moved') and k[0] == 'l':
                continue
            mem[k] = v
            if k[0] != 'h':
                live |= v.syms
        # cells nothing leads to any more (a new lookup of a table gets a cell of its own)
        rest = [k for k in mem if k[0] == 'h']
        more = True
        while more:
            more = False
            for k in list(rest):
                s = k[1].syms
                if not s or s & live or any(x.a[0] in ('param', 'const') for x in s):
                    live |= mem[k].syms
                    rest.remove(k)
                    more = True
        for k in rest:
            del mem[k]
        # and those made for the time of a call
        temps = {k for k in mem if k[0] == 't' and isinstance(k[1], int)}
        if temps:
            seen = set()
            for k, v in mem.items():
                if k not in temps:
                    seen |= tlocs(v)
            for f in st.fr:
                seen |= tlocs((f.dest, f.x))
            for k in st.facts:
                seen |= tlocs(k)
            work = [k for k in temps if k in seen]
            while work:
                k = work.pop()
                temps.discard(k)
                for q in tlocs(mem[k]):
                    if q in temps:
                        temps.discard(q)
                        work.append(q)
            for k in temps:
                del mem[k]
        st.mem = mem
        # a register of everything still mentioned
        keep = self.opts.get('keep', ())
        nf = {}
        for k, f in st.facts.items():
            if all(s in live or s in keep or s.a[0] in ('param', 'const') for s in k.syms):
                nf[k] = f
        st.facts = nf

    def site(self, fr, sp=None):
        return (fr.body.path, sp)

    def run(self, st):
        """advance one state to its next checkpoints; returns list of states (end set when terminal)"""
        out = []
        work = [(st, True)]
        while work:
            st, first = work.pop()
            while True:
                fr = st.fr[-1]
                b = fr.body
                if not first and fr.bb in b.heads or (not first and st.evs and self.opts.get('cp_events', True) and st.evs[-1] == ('CP',)):
                    if st.evs and st.evs[-1] == ('CP',):
                        st.evs = st.evs[:-1]
                    out.append(st)
                    break
                first = False
                self.covered.add(b.path)
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Abort('too many steps')
                if not self.steps & 4095:
                    check_budget()
                blk = b.blocks[fr.bb]
                for s in blk['s']:
                    k = s[0]
                    if k == '=':
                        v = self.rvalue(st, fr, s[2])
                        loc, proj = self.place(st, fr, s[1])
                        self.wr(st, loc, proj, v)
                    elif k == 'setdiscr':
                        loc, proj = self.place(st, fr, s[1])
                        v = self.rd(st, loc, proj)
                        if v.t == 'adt':
                            self.wr(st, loc, proj, mk('adt', v.a[0], s[2], v.a[2]))
                res = self.term(st, fr, blk['t'])
                if res is None:
                    break          # infeasible
                if isinstance(res, St):
                    if res.end is not None:
                        out.append(res)
                        break
                    st = res
                    continue
                for r in res:
                    if r.end is not None:
                        out.append(r)
                    else:
                        work.append((r, False))
                break
        return out

    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            st.goto(t[1])
            return st
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'return':
            return self.ret(st, self.rd(st, ('l', fr.fid, 0), ()))
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'drop':
            loc, proj = self.place(st, fr, t[1])
            v = self.rd(st, loc, proj)
            st.goto(t[2])
            if v.t in ('moved', 'uninit', 'i'):
                return st
            return self.dropv(st, v, loc, proj)
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            want = 1 if t[2] else 0
            if v.t == 'i':
                if v.a[0] == want:
                    st.goto(t[5])
                    return st
                return self.panic(st, t[3], t[6])
            outs = []
            d = self.decide(st, v)
            skip = want == 0 and self.opts.get('no_add_overflow') and v.t == 'op' and v.a[0] == 'ovf' \
                and v.a[1] == 'add' and v.a[4:] == (0, (1 << 64) - 1)
            if (d is None or d != want) and not skip:
                p = st.fork() if d is None else st
                if self.assume(p, v, 1 - want):
                    outs.append(self.panic(p, t[3], t[6], [self.operand(p, fr, x) for x in t[4]]))
            if d is None or d == want:
                ok = self.no_overflow(st, v) if not want else self.assume(st, v, 1)
                if ok:
                    st.goto(t[5])
                    outs.append(st)
            return outs
        if k == 'yield':
            return self.yield_(st, fr, t)
        if k in ('unreachable', 'resume'):
            return None
        raise Abort('terminator ' + k)

    def panic(self, st, kind, span, ops=()):
        fr = st.fr[-1]
        st.ev('panic', kind, fr.body.path, span, tuple(ops))
        st.end = ('panic', kind, fr.body.path, span)
        return st

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = fr.body.dump.types[t[4]]
        self.tyhint(v, ty)
        vals = [(int(a), b) for a, b in t[2]]
        if v.t == 'i':
            for a, b in vals:
                if a == v.a[0]:
                    st.goto(b)
                    return st
            st.goto(t[3])
            return st
        if ty['k'] == 'bool' or HINT.get(v) == (0, 1) and all(a in (0, 1) for a, _ in vals) and v.t == 'op' and v.a[0] != 'discr':
            outs = []
            for s2, d in self.split(st, v):
                dst = t[3]
                for a, b in vals:
                    if a == d:
                        dst = b
                s2.goto(dst)
                outs.append(s2)
            return outs
        q = self.ordering(st, v)
        if q:
            # what an Ordering says of two numbers is what comparing them says
            outs = []
            dst = {-1: t[3], 0: t[3], 1: t[3]}
            for a, b in vals:
                dst[a if a in dst else -1] = b
            if dst[0] == dst[-1]:
                for s2, d in self.split(st, self.cmp(st, 'Gt', *q)):
                    s2.goto(dst[d])
                    outs.append(s2)
            elif dst[0] == dst[1]:
                for s2, d in self.split(st, self.cmp(st, 'Lt', *q)):
                    s2.goto(dst[-d])
                    outs.append(s2)
            else:
                for s2, gt in self.split(st, self.cmp(st, 'Gt', *q)):
                    if gt:
                        s2.goto(dst[1])
                        outs.append(s2)
                        continue
                    for s3, eq in self.split(s2, self.cmp(s2, 'Eq', *q)):
                        s3.goto(dst[eq - 1])
                        outs.append(s3)
            return outs
        outs = []
        rest = st.fork()
        feasible = True
        for a, b in vals:
            s2 = st.fork()
            if self.assume_eq(s2, v, a):
                self.brev(s2, v, a)
                s2.goto(b)
                outs.append(s2)
            if feasible and not self.assume_ne(rest, v, a):
                feasible = False
        if feasible:
            e = ENUMS.get(v)
            if e and e[1] <= set(a for a, _ in vals):
                feasible = False
            elif e:
                left = [x for x in e[1] if x not in set(a for a, _ in vals)]
                f = rest.facts.get(v)
                left = [x for x in left if f is None or (f[0] <= x <= f[1] and x not in f[2])]
                if not left:
                    feasible = False
                elif len(left) == 1:
                    feasible = self.assume_eq(rest, v, left[0])
        if feasible and fr.body.blocks[t[3]]['t'][0] != 'unreachable':
            f = rest.facts.get(v)
            if f is not None and f[0] == f[1]:
                self.brev(rest, v, f[0])
            else:
                self.brev(rest, v, tuple(sorted(a for a, _ in vals)))
            rest.goto(t[3])
            outs.append(rest)
        return outs

    def brev(self, st, v, d):
        """record a decision on a count or on a number from the wire"""
        r = BREV.get(v)
        if r is None:
            r = False
            b = v
            while b.t == 'op' and b.a[0] in ('bnot', 'cast'):
                b = b.a[1]
            want = BRSYMS if not (b.t == 'op' and b.a[0] == 'discr') else BRDISCR
            # whether a collection made here has something in it
            r = b.t == 'op' and (b.a[0] == 'contains' or b.a[0] == 'eq' and any(y.t == 'adt' and y.a[0].split('::')[-1] == 'Capability' for y in b.a[1:]))
            for x in b.syms:
                if x.t == 's' and any(q in x.a[:3] for q in want):
                    r = True
            BREV[v] = r
        if r:
            if not isinstance(d, tuple) and d in (0, 1):
                # a comparison with a variant says as much as a match on it
                b, y = v, d
                while b.t == 'op' and b.a[0] == 'bnot':
                    b, y = b.a[1], 1 - y
                if b.t == 'op' and b.a[0] == 'eq':
                    p, q = (b.a[1], b.a[2]) if b.a[2].t == 'i' else (b.a[2], b.a[1])
                    if q.t == 'i' and p.t == 'op' and p.a[0] == 'discr':
                        if y:
                            st.ev('br', p, q.a[0])
                        else:
                            st.ev('brx', p, (q.a[0],))
                        return
                v, d = b, y
            st.ev('brx' if isinstance(d, tuple) else 'br', v, d)

    def clear(self, st, fid, nloc):
        m = st.mem
        for i in range(nloc):
            m.pop(('l', fid, i), None)

    def ret(self, st, v):
        fr = st.fr[-1]
        if len(st.fr) == 1 and self.opts.get('promoted'):
            v = self.materialize(st, v)
        self.clear(st, fr.fid, fr.body.nloc)
        st.fr = st.fr[:-1]
        if fr.mode == 'poll':
            loc, proj = fr.x
            c = self.rd(st, loc, proj)
            self.wr(st, loc, proj, mk('cor', fr.body.key, (), 'done', ''))
            if fr.fid == 0 or not st.fr:
                st.end = ('return', v)
                return st
            v = Ready(v)
        elif fr.mode == 'ctl':
            # frame whose result is handled by a continuation
            return fr.x(self, st, v, fr)
        if not st.fr:
            st.end = ('return', v)
            return st
        if fr.dest is not None:
            self.wr(st, fr.dest[0], fr.dest[1], v)
        return st

    def yield_(self, st, fr, t):
        """suspend: every coroutine frame up to the nearest poller returns Pending"""
        fr2 = fr.at(t[2])
        loc, proj = self.place(st, fr, t[3])
        self.wr(st, loc, proj, sym('cx'))
        assert fr.mode == 'poll', fr.mode
        # prune dead locals of the suspended frame
        live = fr.body.live[t[2]]
        for i in range(fr.body.nloc):
            if i not in live:
                st.mem.pop(('l', fr.fid, i), None)
        cl, cp = fr.x
        self.wr(st, cl, cp, mk('cor', fr.body.key, (), t[2], fr.body.dump.crate, fr.fid))
        st.fr = st.fr[:-1]
        if not st.fr:
            st.ev('YIELD')
            # polled again later
            st.fr = (fr2,)
            self.wr(st, cl, cp, mk('cor', fr.body.key, (), 'run', fr.body.dump.crate, fr.fid))
            return st
        self.wr(st, fr.dest[0], fr.dest[1], PENDING)
        return st

    def poll_cor(self, st, loc, proj, dest):
        c = self.rd(st, loc, proj)
        dump = self.dump_by(c.a[3])
        fb = self.w.find(dump, c.a[0])
        if fb is None:
            raise Abort('no body for coroutine ' + c.a[0])
        body = self.w.body(*fb)
        if not body.coroutine:
            raise Abort('coroutine body is lowered: ' + c.a[0])
        fid = c.a[4] if len(c.a) > 4 else self.fid(('co', loc, tuple(p[:2] for p in proj), strip_generics(c.a[0])))
        stt = c.a[2]
        if stt == 'new':
            bb = 0
            self.clear(st, fid, body.nloc)
            st.mem[('l', fid, 1)] = mk('cor', c.a[0], c.a[1], 'self', c.a[3])
            st.mem[('l', fid, 2)] = sym('cx')
        elif isinstance(stt, int):
            bb = stt
        elif stt == 'done':
            return [self.panic(st, 'polled after completion', None)]
        else:
            raise Abort('poll of running coroutine')
        self.wr(st, loc, proj, mk('cor', body.key, (), 'run', c.a[3], fid))
        st.fr = st.fr + (Frame(fid, body, bb, dest, 'poll', (loc, proj)),)
        return [st]

    def dump_by(self, crate):
        for d in self.w.dumps:
            if d.crate == crate:
                return d
        return self.w.dumps[0]

    def push(self, st, dump, key, args, dest, tag=None, mode='call', x=None):
        fb = self.w.find(dump, key)
        if fb is None:
            return None
        body = self.w.body(*fb)
        depth = sum(1 for f in st.fr if f.body.path == body.path)
        if depth >= 3 or len(st.fr) > 60:
            self.cut.append(body.path)
            return None
        caller = st.fr[-1] if st.fr else None
        fid = self.fid((caller.fid if caller else 0, self.callbb, body.path, tag))
        while any(f.fid == fid for f in st.fr):
            fid = self.fid(('rec', fid))
        self.clear(st, fid, body.nloc)
        for i, a in enumerate(args):
            st.mem[('l', fid, i + 1)] = a
        st.fr = st.fr + (Frame(fid, body, 0, dest, mode, x),)
        return [st]

    # ------------------------------------------------------------- calls
    def call(self, st, fr, t):
        fop = t[1]
        f = self.operand(st, fr, fop)
        args = [self.operand(st, fr, a) for a in t[2]]
        types = fr.body.dump.types
        for a, o in zip(args, t[2]):
            if a.t not in ('i', 'ref') and a not in HINT:
                self.tyhint(a, self.opty(fr, o))
        dest = self.place(st, fr, t[3])
        self.callbb = fr.bb
        rty = types[t[7]] if len(t) > 7 and t[7] is not None else None
        if t[4] is not None:
            st.goto(t[4])
        c = Call(f, args, dest, t[6], fr, rty, t[4] is None)
        c.argtys = (types, [self.opty(fr, o) for o in t[2]])
        return self.finish(st, self.invoke(st, c), c)

    def finish(self, st, outs, c):
        res = []
        for o in outs:
            if isinstance(o, St):
                res.append(o)
                continue
            s2, v = o
            if v is None:
                res.append(s2)
                continue
            if c.never:
                continue
            if c.rty is not None:
                self.tyhint(v, c.rty)
            self.wr(s2, c.dest[0], c.dest[1], v)
            res.append(s2)
        return res

    def invoke(self, st, c):
        f = c.f
        if f.t == 'fn':
            dump, fd = self.FN[f]
        else:
            # call through a value
            return self.call_value(st, c, f, tuple(c.args))
        c.dump, c.fd = dump, fd
        if 'ctor' in fd:
            p, vi, _ = fd['ctor']
            return [(st, mk('adt', p, vi, tuple(c.args)))]
        c.name = self.fname(dump, fd)
        for a in self.anchors:
            r = a(self, st, c)
            if r is not None:
                return r
        m = self.models.get(c.name)
        if m is None:
            m = self.models.get(fd['path'])
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        if 'inst' in fd:
            r = self.push(st, dump, fd['inst'], c.args, c.dest)
            if r is not None:
                return r
        elif fd.get('inst_path', '').startswith('haproxy') or fd['path'].startswith('haproxy'):
            r = self.push(st, dump, fd.get('inst_path') or fd['path'], c.args, c.dest)
            if r is not None:
                return r
        if fd.get('trait') and c.args:
            r = self.dispatch(st, c)
            if r is not None:
                return r
        if c.never:
            return [self.panic(st, 'call ' + c.name, c.span)]
        return self.opaque(st, c)

    def fname(self, dump, fd):
        if fd.get('trait'):
            return fd['path']
        if 'self' in fd:
            t = dump.types[fd['self']]
            if t['k'] == 'adt':
                return t['path'] + '::' + fd['name']
            if t['k'] in ('str', 'slice', 'array', 'bool', 'char'):
                return t['k'] + '::' + fd['name']
            if t['k'] in ('uint', 'int'):
                return 'int::' + fd['name']
            if t['k'] == 'ptr':
                return 'ptr::' + fd['name']
            if t['k'] == 'dyn':
                return 'dyn::' + fd['name']
        return fd['path']

    def dispatch(self, st, c):
        """a trait method on a generic type: use the implementation for the value at hand"""
        v = self.peel(st, c.args[0])
        if v.t == 'adt':
            tr, nm = c.fd['trait'], c.fd['name']
            for d in self.w.dumps:
                for fn in d.fns:
                    if fn.get('impl_of') == tr and fn['path'].endswith('::' + nm):
                        s = fn.get('self')
                        sp = s.split('<')[0] if isinstance(s, str) else None
                        if sp == v.a[0]:
                            return self.push(st, d, fn['key'], c.args, c.dest)
        return None

    def call_value(self, st, c, f, args):
        """call of a closure / fn item / fn pointer value with untupled args"""
        loc = None
        x = f
        n = 0
        while x.t in ('ref', 'cref', 'box') and n < 8:
            if x.t == 'box':
                x = x.a[0]
            else:
                loc, proj = self.target(st, x)
                x = self.rd(st, loc, proj)
            n += 1
        if x.t == 'clo':
            dump = self.dump_by(x.a[2]) if len(x.a) > 2 else c.fr.body.dump
            fb = self.w.find(dump, x.a[0])
            if fb is None:
                return self.opaque(st, c, 'closure ' + x.a[0])
            body = self.w.body(*fb)
            t1 = body.dump.types[body.locals[1]]
            if t1['k'] in ('ref',):
                if loc is None:
                    loc2 = ('t', self.fid(('clo', st.fr[-1].fid, self.callbb)))
                    st.mem[loc2] = x
                    self_v = self.mkref(loc2, ())
                else:
                    self_v = self.mkref(loc, proj)
            else:
                self_v = x
            r = self.push(st, fb[0], fb[1], (self_v,) + tuple(args), c.dest, tag='clo')
            if r is None:
                return self.opaque(st, c, 'recursion')
            return r
        if x.t == 'fn':
            c2 = Call(x, list(args), c.dest, c.span, c.fr, c.rty, c.never)
            return self.finish(st, self.invoke(st, c2), c2)
        r = self.models.get('<call-value>')
        if r:
            o = r(self, st, c, x, args)
            if o is not None:
                return o
        return self.opaque(st, c, 'call of ' + x.t)

    def opaque(self, st, c, why=None):
        nm = why or c.name
        self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
        snaps = [self.snap(st, a) for a in c.args]
        st.ev('opaque', nm, tuple(snaps), c.span)
        v = op('call:' + nm, *snaps)
        # unknown effects on the data reachable through &mut
        if c.argtys and len(c.argtys[1]) == len(c.args):
            types, tys = c.argtys
            for a, s, ty in zip(c.args, snaps, tys):
                if a.t == 'ref' and ty and ty.get('k') == 'ref' and ty.get('mut') and isinstance(ty.get('inner'), int):
                    it = types[ty['inner']]
                    if it.get('k') in ('slice', 'int', 'uint', 'bool', 'str') or it.get('k') == 'adt' and it.get('path', '').split('::')[-1] in CONTAINERS:
                        self.wr(st, a.a[0], a.a[1], op('call:' + nm + '&mut', *snaps))
        return [(st, v)]

    # ------------------------------------------------------------- drops
    def droppable(self, v):
        """does dropping v have an effect the analysis follows?"""
        r = DROPC.get(v)
        if r is None:
            r = self._droppable(v, 0)
            DROPC[v] = r
        return r

    def _droppable(self, v, d):
        if d > 12:
            return False
        if v.t == 'adt':
            a = ADTS.get(v.a[0])
            if a and a.get('drop') and str(a['drop']).startswith('haproxy'):
                return True
            return any(self._droppable(x, d + 1) for x in v.a[2])
        if v.t == 'tup':
            return any(self._droppable(x, d + 1) for x in v.a[0])
        if v.t in ('clo',):
            return any(self._droppable(x, d + 1) for x in v.a[1])
        if v.t == 'cor':
            return isinstance(v.a[2], int) or any(self._droppable(x, d + 1) for x in v.a[1])
        if v.t == 'box':
            return self._droppable(v.a[0], d + 1)
        if v.t in ('res', 'buf'):
            return True
        if v.t == 'fut':
            return v.a[0] in FUTDROP
        return False

    def dropv(self, st, v, loc, proj):
        if not self.droppable(v):
            return st
        if v.t in ('res', 'fut'):
            st.ev('drop', v)
            return st
        if v.t == 'buf':
            st.ev('dropbuf', v.a[0], *self.rng(st, v.a[1]))
            return st
        if v.t == 'adt':
            a = ADTS.get(v.a[0])
            if a and a.get('drop') and str(a['drop']).startswith('haproxy'):
                dr = a['drop']
                for d in self.w.dumps:
                    if dr in d.bodies or dr in d.by_path:
                        self.callbb = ('drop', str(loc)[:60])
                        st.ev('drop', v)
                        cont = st.fr[-1]

                        r = self.push(st, d, dr, (self.mkref(loc, proj),), None, tag='drop')
                        if r is None:
                            return st
                        return r[0]
                return st
            for i, x in enumerate(v.a[2]):
                if self.droppable(x):
                    st = self.dropv(st, x, loc, proj + (('v', v.a[1]), ('f', i, None)))
            return st
        if v.t == 'tup':
            for i, x in enumerate(v.a[0]):
                if self.droppable(x):
                    st = self.dropv(st, x, loc, proj + (('f', i, None),))
            return st
        if v.t == 'clo':
            for i, x in enumerate(v.a[1]):
                if self.droppable(x):
                    st = self.dropv(st, x, loc, proj + (('f', i, None),))
            return st
        if v.t == 'box':
            return self.dropv(st, v.a[0], loc, proj + (('b',),))
        if v.t == 'cor':
            if isinstance(v.a[2], int):
                st.ev('cancel', strip_generics(v.a[0]), v.a[2])
                fid = v.a[4]
                for k in [k for k in st.mem if k[0] == 'l' and k[1] == fid]:
                    x = st.mem.get(k)
                    if x is not None and self.droppable(x):
                        st = self.dropv(st, x, k, ())
                    st.mem.pop(k, None)
            else:
                for i, x in enumerate(v.a[1]):
                    if self.droppable(x):
                        st = self.dropv(st, x, loc, proj + (('f', i, None),))
            return st
        return st


DROPC = {}
FUTDROP = {'READ', 'WRITE', 'svccall', 'read_exact', 'read_u32', 'w:write_all', 'flush'}
ENUMS = {}


def lin(a, c):
    if a.t == 'i':
        return I(a.a[0] + c)
    if a.t == 'lin':
        return lin(a.a[0], a.a[1] + c)
    return a if c == 0 else mk('lin', a, c)


def _ord(a, b):
    ka = (a.t == 'i', a.n)
    kb = (b.t == 'i', b.n)
    return (a, b) if ka <= kb else (b, a)


CONTAINERS = ('Vec', 'VecDeque', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'String')


class Call:
    __slots__ = ('f', 'args', 'dest', 'span', 'fr', 'rty', 'never', 'dump', 'fd', 'name', 'argtys')

    def __init__(self, f, args, dest, span, fr, rty, never):
        self.f, self.args, self.dest, self.span, self.fr, self.rty, self.never = f, args, dest, span, fr, rty, never
        self.name = '?'
        self.argtys = None
        self.fd = {}
        self.dump = fr.body.dump if fr else None


# ------------------------------------------------------------------ exploration
class Node:
    __slots__ = ('id', 'st', 'out', 'end', 'pred')


class Graph:
    def __init__(self):
        self.nodes = []
        self.edges = 0

    def add(self, st):
        n = Node()
        n.id = len(self.nodes)
        n.st = st
        n.out = []
        n.end = st.end
        n.pred = None
        self.nodes.append(n)
        return n


def explore(ip, st0, max_nodes=60000):
    g = ip.graph = Graph()
    seen = {}
    ip.gc_on = True
    root = g.add(st0)
    seen[st0.key()] = root
    work = [root]
    heads = {}
    while work:
        n = work.pop()
        s = n.st.fork()
        s.evs = ()
        for r in ip.run(s):
            evs = tuple(e for e in r.evs if e != ('CP',))
            r.evs = ()
            if r.end is None:
                ip.gc(r)
                r = widen(ip, r, heads)
                k = r.key()
                m = seen.get(k)
                if m is None:
                    m = g.add(r)
                    m.pred = (n, evs)
                    seen[k] = m
                    work.append(m)
            else:
                k = ('end', r.end, frozenset(r.facts.items()))
                m = seen.get(k)
                if m is None:
                    m = g.add(r)
                    m.pred = (n, evs)
                    seen[k] = m
            n.out.append((evs, m))
            g.edges += 1
        if not len(g.nodes) & 255:
            check_budget()
        if len(g.nodes) > max_nodes:
            raise Abort('too many states (%d)' % len(g.nodes))
    return g


def shape(v, d=0):
    """v with integers and symbols abstracted: to recognise 'the same state but for a counter'"""
    return v


def widen(ip, st, heads):
    """bound the number of abstract states per program point: integers and growing
    terms that keep changing are replaced by an unknown value of their range"""
    key = tuple((f.fid, f.bb) for f in st.fr)
    h = heads.get(key)
    if h is None:
        h = heads[key] = {'n': 0, 'vals': {}, 'wide': set(), 'facts': {}, 'fdrop': set()}
    h['n'] += 1
    # facts whose bounds keep moving are forgotten
    drop = h['fdrop']
    for k, f in st.facts.items():
        if k in drop:
            continue
        s = h['facts'].setdefault(k, set())
        s.add(f)
        if len(s) > ip.WIDEN:
            drop.add(k)
    if drop and any(k in drop for k in st.facts):
        st = st.fork()
        st.facts = {k: f for k, f in st.facts.items() if k not in drop}
    vals = h['vals']
    for k, v in st.mem.items():
        if numeric(v):
            vals.setdefault(k, {})[v] = 1
        elif v.t in ('adt', 'tup', 'coll', 'buf', 'clo'):
            for p, x in inner_nums(v):
                vals.setdefault((k, p), {})[x] = 1
    wide = h['wide']
    for k, s in vals.items():
        if len(s) > ip.WIDEN and k not in wide:
            wide.add(k)
    if not wide:
        return st
    # locations that hold the same value share one unknown
    groups = {}
    m = []
    for k in wide:
        if k in st.mem and numeric(st.mem[k]):
            groups.setdefault(st.mem[k], []).append((k, None))
        elif k[0] in st.mem:
            for p, x in inner_nums(st.mem[k[0]]):
                if p == k[1]:
                    groups.setdefault(x, []).append((k[0], p))
    if not groups:
        return st
    st = st.fork()
    for v, ks in groups.items():
        nm = sym('wid', str(sorted(map(str, ks)))[:400], str(key)[-200:])
        lo, hi = ip.rng(st, v)
        allv = {}
        down = False
        for k, p in ks:
            seen = vals[(k, p) if p is not None else k]
            allv.update(seen)
            ints = [x.a[0] for x in seen if x.t == 'i']
            # a value that was seen to fall may fall further
            down = down or any(b < a for a, b in zip(ints, ints[1:])) or any(x.t == 'lin' and x.a[1] < 0 and nm in x.syms for x in seen)
        los = [] if down else [x.a[0] for x in allv if x.t == 'i']
        hi2 = (1 << 63) - 1
        HINT[nm] = (min(los) if los and all(x.t == 'i' or x is nm or nm in x.syms for x in allv) else (0 if lo >= 0 else -INF), hi2)
        for k, p in ks:
            if p is None:
                st.mem[k] = nm
            else:
                st.mem[k] = set_inner(st.mem[k], p, nm)
        st.facts = {kk: f for kk, f in st.facts.items() if nm not in kk.syms}
    ip.gc(st)
    return st


def numeric(v):
    if v.t in ('i', 'lin'):
        return True
    if v.t == 'op' and v.a[0] in ('add', 'sub', 'mul', 'cast', 'shl', 'shr', 'bor', 'band'):
        return True
    if v.t == 's' and v.a[0] == 'wid':
        return True
    return False


def inner_nums(v, d=0):
    if d > 3:
        return
    if v.t == 'adt':
        for i, x in enumerate(v.a[2]):
            if numeric(x):
                yield (('adt', i),), x
            elif x.t in ('adt', 'tup', 'coll', 'buf'):
                for p, y in inner_nums(x, d + 1):
                    yield (('adt', i),) + p, y
    elif v.t == 'tup' or v.t == 'clo':
        fs = v.a[0] if v.t == 'tup' else v.a[1]
        for i, x in enumerate(fs):
            if numeric(x):
                yield ((v.t, i),), x
            elif x.t in ('adt', 'tup', 'coll', 'buf'):
                for p, y in inner_nums(x, d + 1):
                    yield ((v.t, i),) + p, y
    elif v.t in ('coll', 'buf'):
        if numeric(v.a[1]):
            yield ((v.t, 1),), v.a[1]


def set_inner(v, p, nv):
    if not p:
        return nv
    k, i = p[0]
    if v.t != k:
        return v
    if k == 'adt':
        fs = list(v.a[2])
        fs[i] = set_inner(fs[i], p[1:], nv)
        return mk('adt', v.a[0], v.a[1], tuple(fs))
    if k == 'tup':
        fs = list(v.a[0])
        fs[i] = set_inner(fs[i], p[1:], nv)
        return mk('tup', tuple(fs))
    if k == 'clo':
        fs = list(v.a[1])
        fs[i] = set_inner(fs[i], p[1:], nv)
        return mk('clo', v.a[0], tuple(fs), *v.a[2:])
    a = list(v.a)
    a[i] = nv
    return mk(v.t, *a)
