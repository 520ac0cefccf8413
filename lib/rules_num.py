"""Arithmetic rules: the variable-length integers.

The writer, the reader and the size table of varint.rs are taken as the finite
graphs the interpreter makes of them and are compared in an affine domain.  A
64-bit number of the k-th length class is written as an affine form over its own
bits (offset of the class + sum of weight * bit); adding, subtracting, shifting,
masking and narrowing keep such a form exact or give up.  A pair of forms over
the same bits is equal for every value of the bits or it is not: no solver and
no sampling are involved.  Where a form is not representable, the piece is split
into constants at its corners and folded.
"""
from engine import HINT, V, sym
from rulekit import path_to, isadt, some_of
from targets import Missing

U64 = (1 << 64) - 1


class Aff:
    """const + sum of weight * bit, exact, over named bits in {0, 1}"""
    __slots__ = ('c', 'w')

    def __init__(self, c, w=None):
        self.c = c
        self.w = {k: x for k, x in (w or {}).items() if x}

    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.w == o.w

    def rng(self):
        return (self.c + sum(x for x in self.w.values() if x < 0), self.c + sum(x for x in self.w.values() if x > 0))

    def at(self, env):
        return self.c + sum(x * env[k] for k, x in self.w.items())

    def show(self):
        return ' + '.join(['%d' % self.c] + ['%d*bit%d' % (x, k) for k, x in sorted(self.w.items())][:6])


def add(x, y, k=1):
    w = dict(x.w)
    for b, v in y.w.items():
        w[b] = w.get(b, 0) + k * v
    return Aff(x.c + k * y.c, w)


def scale(x, k):
    return Aff(x.c * k, {b: v * k for b, v in x.w.items()})


def lowbits(x, k):
    """x modulo 2**k, or None"""
    m = 1 << k
    r = Aff(x.c % m, {b: v % m for b, v in x.w.items() if v % m})
    lo, hi = r.rng()
    if 0 <= lo and hi < m:
        return r
    return None


def shr(x, k):
    m = 1 << k
    low = lowbits(x, k)
    if low is None:
        return None
    d = add(x, low, -1)
    if d.c % m or any(v % m for v in d.w.values()):
        return None
    return Aff(d.c // m, {b: v // m for b, v in d.w.items()})


def bitform(x):
    """{position: 1 or ('b', bit)} when the form is a plain vector of bits"""
    out = {}
    if x.c < 0:
        return None
    for p in range(x.c.bit_length()):
        if x.c >> p & 1:
            out[p] = 1
    for b, v in x.w.items():
        if v <= 0 or v & (v - 1):
            return None
        p = v.bit_length() - 1
        if p in out:
            return None
        out[p] = ('b', b)
    return out


def unbits(d):
    c, w = 0, {}
    for p, x in d.items():
        if x == 1:
            c += 1 << p
        elif x != 0:
            w[x[1]] = w.get(x[1], 0) + (1 << p)
    return Aff(c, w)


def bitop(n, x, y):
    p, q = bitform(x), bitform(y)
    if p is None or q is None:
        return None
    out = {}
    for k in set(p) | set(q):
        a, b = p.get(k, 0), q.get(k, 0)
        if n == 'band':
            r = 0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 else a if a == b else None
        elif n == 'bor':
            r = 1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 else a if a == b else None
        else:
            r = b if a == 0 else a if b == 0 else 0 if a == b else None
        if r is None:
            return None
        out[k] = r
    return unbits(out)


def narrowed(v):
    """(term, lo, hi) of a narrowing"""
    if v.t == 'op' and v.a[0] == 'cast':
        return v.a[1], v.a[2], v.a[3]
    if v.t == 'op' and v.a[0] == 'wrap' and v in HINT:
        return v.a[1], HINT[v][0], HINT[v][1]
    return None


def mod2(v, k, env):
    """v modulo 2**k"""
    q = narrowed(v)
    if q and q[1] == 0 and (q[2] + 1) & q[2] == 0 and q[2] + 1 >= 1 << k:
        return mod2(q[0], k, env)
    if v.t == 'op' and v.a[0] == 'bor':
        for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if y.t == 'i' and y.a[0] % (1 << k) == 0:
                return mod2(x, k, env)
    x = ev(v, env)
    return None if x is None else lowbits(x, k)


def ev(v, env):
    """the affine form of a term, or None"""
    if not isinstance(v, V):
        return None
    if v in env:
        return env[v]
    t = v.t
    if t == 'i':
        return Aff(v.a[0])
    if t == 'lin':
        x = ev(v.a[0], env)
        return None if x is None else Aff(x.c + v.a[1], x.w)
    if t != 'op':
        return None
    n = v.a[0]
    q = narrowed(v)
    if q:
        inner, lo, hi = q
        x = ev(inner, env)
        if x is not None:
            l, h = x.rng()
            if lo <= l and h <= hi:
                return x
            if not x.w:
                return Aff((x.c - lo) % (hi - lo + 1) + lo)
        if lo == 0 and (hi + 1) & hi == 0:
            return mod2(inner, (hi + 1).bit_length() - 1, env)
        return None
    if n == 'bnot':
        x = ev(v.a[1], env)
        return None if x is None else Aff(1 - x.c, {b: -k for b, k in x.w.items()})
    if n == 'ovf':
        x, y = ev(v.a[2], env), ev(v.a[3], env)
        if x is None or y is None:
            return None
        r = add(x, y) if v.a[1] == 'add' else add(x, y, -1) if v.a[1] == 'sub' else \
            scale(x, y.c) if not y.w else scale(y, x.c) if not x.w else None
        if r is None:
            return None
        l, h = r.rng()
        if v.a[4] <= l and h <= v.a[5]:
            return Aff(0)
        if h < v.a[4] or l > v.a[5]:
            return Aff(1)
        return None
    if n in ('bor', 'band'):
        for p, q in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if q.t != 'i' or q.a[0] < 0:
                continue
            c = q.a[0]
            if n == 'band' and (c + 1) & c == 0:
                return mod2(p, c.bit_length(), env)
            if n == 'bor' and c:
                # ones from bit k up to the top of p
                k = (c & -c).bit_length() - 1
                w = c.bit_length()
                if (c >> k) + 1 & (c >> k):
                    continue
                x = ev(p, env)
                top = None
                if x is not None:
                    top = x.rng()[1]
                elif p.t == 'op' and p.a[0] == 'cast':
                    top = p.a[3]
                if top is not None and top < 1 << w:
                    m = mod2(p, k, env)
                    if m is not None:
                        return Aff(m.c + c, m.w)
    if n == 'shl':
        x, k = ev(v.a[1], env), ev(v.a[2], env)
        if x is None or k is None or k.w or k.c < 0:
            return None
        r = scale(x, 1 << k.c)
        top = v.a[3] if len(v.a) > 3 and isinstance(v.a[3], int) else None
        if top is not None and r.rng()[1] > top:
            if (top + 1) & top:
                return None
            return lowbits(r, (top + 1).bit_length() - 1)
        return r
    a = [ev(x, env) for x in v.a[1:3]]
    if len(a) < 2 or a[0] is None or a[1] is None:
        return None
    x, y = a
    if n == 'add':
        return add(x, y)
    if n == 'sub':
        return add(x, y, -1)
    if n == 'mul':
        return scale(x, y.c) if not y.w else scale(y, x.c) if not x.w else None
    if n == 'shr':
        return shr(x, y.c) if not y.w and 0 <= y.c < 64 and x.rng()[0] >= 0 else None
    if n in ('div', 'rem') and not y.w and y.c > 0 and y.c & (y.c - 1) == 0 and x.rng()[0] >= 0:
        k = y.c.bit_length() - 1
        return shr(x, k) if n == 'div' else lowbits(x, k)
    if n in ('div', 'rem') and not y.w and not x.w and y.c > 0 and x.c >= 0:
        return Aff(x.c // y.c if n == 'div' else x.c % y.c)
    if n in ('band', 'bor', 'bxor'):
        return bitop(n, x, y)
    if n in ('eq', 'lt', 'slt'):
        d = add(x, y, -1)
        l, h = d.rng()
        if n == 'eq':
            return Aff(1) if l == h == 0 else Aff(0) if l > 0 or h < 0 else parity(d)
        return Aff(1) if h < 0 else Aff(0) if l >= 0 else None
    return None


def parity(d):
    """can the form be zero? decided by divisibility only"""
    g = 0
    for v in d.w.values():
        a, b = abs(v), g
        while b:
            a, b = b, a % b
        g = a
    if g and d.c % g:
        return Aff(0)
    return None


def truth(v, d, env):
    """is the decision v == d taken: 1, 0 or None"""
    x = ev(v, env)
    if x is None:
        return None
    l, h = x.rng()
    if l == h:
        return int(l == d)
    if d < l or d > h:
        return 0
    return None


def possible(st, env):
    """0: the facts of a state exclude the case, 1: they all hold, None: not decided"""
    r = 1
    for k, f in st.facts.items():
        x = ev(k, env)
        if x is None:
            if k.t == 'op' and not all(s in env for s in k.syms):
                continue
            r = None
            continue
        l, h = x.rng()
        if h < f[0] or l > f[1] or (l == h and l in f[2]):
            return 0
        if l < f[0] or h > f[1] or any(l <= e <= h for e in f[2]):
            r = None
    return r


class Undecided(Exception):
    pass


def run(g, env0, feed=None):
    """The one way a case takes through a graph: (node, bytes written, bytes read).

    env0 gives the forms of the parameters; feed the bytes to be read, in order."""
    n, env, out, nread = g.nodes[0], dict(env0), [], 0
    seen = {}
    last = {}
    steps = 0
    while n.end is None:
        steps += 1
        if steps > 4000:
            raise Undecided('no end of the loop')
        ways = []
        for evs, m in n.out:
            e2, o2, r2, l2 = dict(env), list(out), nread, {k: list(v) for k, v in last.items()}
            ok = 1
            for e in evs:
                if e[0] == 'br':
                    t = truth(e[1], e[2], e2)
                elif e[0] == 'brx':
                    x = ev(e[1], e2)
                    t = None
                    if x is not None:
                        l, h = x.rng()
                        t = int(l not in e[2]) if l == h else 1 if all(k < l or k > h for k in e[2]) else None
                elif e[0] == 'R':
                    if feed is None or e[1] not in ('u8',):
                        raise Undecided('reads %s' % e[1])
                    if r2 >= len(feed):
                        t = 0
                    else:
                        base = e[2]
                        q = l2.setdefault(base, [])
                        q.insert(0, feed[r2])
                        for i, x in enumerate(q):
                            e2[base if i == 0 else sym('age', i, *base.a)] = x
                        r2 += 1
                        t = 1
                elif e[0] == 'W':
                    if e[1] not in ('u8', 'i8'):
                        raise Undecided('writes %s' % e[1])
                    o2.append(ev(e[2], e2))
                    t = 1
                else:
                    t = 1
                if t == 0:
                    ok = 0
                    break
                if t is None:
                    ok = None
            if ok == 0:
                continue
            p = possible(m.st, e2) if m.st is not None else 1
            if p == 0:
                continue
            ways.append((ok if p else None, m, e2, o2, r2, l2))
        if len(ways) != 1:
            raise Undecided('%d ways' % len(ways))
        w = ways[0]
        _, n, env, out, nread, last = w
    return n, env, out, nread


def offsets():
    """first number of each length class"""
    off, w = [0, 240], 16 * 128
    while off[-1] + w <= U64:
        off.append(off[-1] + w)
        w *= 128
    return off


def pieces(size):
    """[0, size) as aligned blocks: (start, number of free low bits)"""
    at = 0
    while at < size:
        k = (at & -at).bit_length() - 1 if at else size.bit_length()
        while at + (1 << k) > size:
            k -= 1
        yield at, k
        at += 1 << k


def upper(lo, hi):
    """[lo, hi) as aligned blocks: (start - lo, number of free low bits)"""
    at = lo
    while at < hi:
        k = (at & -at).bit_length() - 1 if at else hi.bit_length()
        while at + (1 << k) > hi:
            k -= 1
        yield at - lo, k
        at += 1 << k


def encoding(L, x):
    """SPOP's encoding of the x-th number of a length class, as forms"""
    if L == 1:
        return [x]
    b = [Aff(240 + lowbits(x, 4).c, lowbits(x, 4).w)]
    x = shr(x, 4)
    for i in range(1, L):
        if i == L - 1:
            b.append(x)
        else:
            m = lowbits(x, 7)
            b.append(Aff(128 + m.c, m.w))
            x = shr(x, 7)
    return b


def corners(x):
    """constants a form takes: all bits clear, all set, each alone"""
    bits = sorted(x.w)
    envs = [{b: 0 for b in bits}, {b: 1 for b in bits}] + [{b: int(b == k) for b in bits} for k in bits]
    for e in envs:
        yield x.at(e)


def C35(c):
    c.rule('for every length class of SPOP\'s variable-length integers, taken as an affine form over the bits of the number, the bytes the '
           'writer puts are the class\'s encoding, the reader turns these bytes, all of them and no more, into that number again, and '
           'the size table and the writer\'s result give their number')
    put = c.graph('varint_put')
    get = c.graph('varint_get_aged')
    size = c.graph('varint_size')
    pn = put.root.vals[1]
    sn = size.root.vals[0]
    rem = None
    for s in get.root.vals:
        for q in s.syms:
            if q.a[:2] == ('param', 'rem'):
                rem = q
    if rem is None:
        for n in get.nodes[:3]:
            for evs, m in n.out:
                for e in evs:
                    if e[0] == 'br':
                        for q in e[1].syms:
                            if q.a[:2] == ('param', 'rem'):
                                rem = q
    if rem is None:
        raise Missing('length of the reader\'s buffer')
    off = offsets()

    def one(L, n, x):
        """the obligations of one piece; Undecided when a form is not exact"""
        want = encoding(L, x)
        l, h = n.rng()
        name = '%d' % l if l == h else '%d..%d' % (l, h)
        # writer
        try:
            nd, env, out, _ = run(put, {pn: n})
            if nd.end[0] == 'panic':
                c.violate('put/panic', 'writing %s panics' % name, path_to(put, nd))
            elif any(o is None for o in out):
                raise Undecided('byte written')
            else:
                if len(out) != L:
                    c.violate('put/length', '%d bytes are written for %s, its encoding has %d' % (len(out), name, L), path_to(put, nd))
                for i, (a, b) in enumerate(zip(out, want)):
                    if a != b:
                        c.violate('put/byte', 'byte %d written for %s is %s instead of %s' % (i, name, a.show(), b.show()), path_to(put, nd))
                        break
                k = ev(nd.end[1], env)
                if k is None:
                    raise Undecided('size returned')
                if k != Aff(len(out)):
                    c.violate('put/returned', 'writing %s reports %s bytes instead of %d' % (name, k.show(), len(out)), path_to(put, nd))
            c.count('writer cases decided')
        except Undecided as u:
            yield 'writer', name, str(u)
        # reader
        try:
            env = {rem: Aff(L)}
            nd, env, _, nread = run(get, env, want)
            v = nd.end[1] if nd.end[0] == 'return' else None
            if nd.end[0] == 'panic':
                c.violate('get/panic', 'reading the encoding of %s panics' % name, path_to(get, nd))
            elif isadt(v, 'Option', 'None'):
                c.violate('get/refused', 'the encoding of %s is not read back' % name, path_to(get, nd))
            elif some_of(v) is not None:
                r = ev(some_of(v), env)
                if r is None:
                    raise Undecided('number read')
                if r != n:
                    c.violate('get/value', 'the encoding of %s is read back as %s instead of %s' % (name, r.show(), n.show()), path_to(get, nd))
                elif nread != L:
                    c.violate('get/consumed', 'reading %s consumes %d of its %d bytes' % (name, nread, L), path_to(get, nd))
            else:
                raise Undecided('result')
            c.count('reader cases decided')
        except Undecided as u:
            yield 'reader', name, str(u)
        # size table
        try:
            nd, env, _, _ = run(size, {sn: n})
            k = ev(nd.end[1], env) if nd.end[0] == 'return' else None
            if k is None:
                raise Undecided('size')
            if k != Aff(L):
                c.violate('size/%d' % L, 'the size announced for %s is %s, its encoding has %d bytes' % (name, k.show(), L), path_to(size, nd))
            c.count('size cases decided')
        except Undecided as u:
            yield 'size', name, str(u)

    for L in range(1, len(off) + 1):
        lo = off[L - 1]
        n1 = off[L] if L < len(off) else U64 + 1
        for at, k in pieces(n1 - lo):
            x = Aff(at, {b: 1 << b for b in range(k)})
            n = Aff(lo + at, x.w)
            c.count('pieces of the number range')
            for what, name, why in list(one(L, n, x)):
                c.note('%s of %s not exact (%s): folded at its corners' % (what, name, why))
                if not x.w:
                    continue
                for xc in corners(x):
                    list(one(L, Aff(lo + xc), Aff(xc)))
    # encodings of numbers that have more than 64 bits
    def over(L, x):
        want = encoding(L, x)
        nd, env, _, nread = run(get, {rem: Aff(L)}, want)
        c.count('encodings of no 64-bit number decided')
        if nd.end[0] == 'panic':
            c.violate('get/overflow', 'an encoding of %d bytes of a number beyond 64 bits panics the reader' % L, path_to(get, nd))
        elif some_of(nd.end[1]) is not None:
            r = ev(some_of(nd.end[1]), env)
            c.violate('get/overflow', 'an encoding of %d bytes of a number beyond 64 bits is read as %s' % (L, r.show() if r else 'a number'), path_to(get, nd))

    todo = []
    L = len(off)
    lo, hi = U64 + 1 - off[-1], 16 * 128 ** (L - 1)
    todo += [(L, at + lo, k) for at, k in upper(lo, hi)]
    todo += [(L + 1, 0, 4 + 7 * L), (L + 2, 0, 4 + 7 * (L + 1))]
    for L, at, k in todo:
        x = Aff(at, {b: 1 << b for b in range(k)})
        try:
            over(L, x)
        except Undecided as u:
            c.note('overlong encoding of %d bytes not exact (%s): folded at its corners' % (L, u))
            for xc in corners(x):
                try:
                    over(L, Aff(xc))
                except Undecided as u2:
                    c.note('overlong encoding of %d bytes: %s' % (L, u2))
    # truncated encodings
    for L in range(1, len(off) + 1):
        x = Aff(0)
        want = encoding(L, x)
        for k in range(L):
            try:
                nd, env, _, nread = run(get, {rem: Aff(k)}, want[:k])
            except Undecided as u:
                c.note('truncated after %d bytes: %s' % (k, u))
                continue
            c.count('truncations decided')
            v = nd.end[1]
            if nd.end[0] == 'panic':
                c.violate('get/truncated', 'an encoding cut after %d of %d bytes panics the reader' % (k, L), path_to(get, nd))
            elif some_of(v) is not None:
                c.violate('get/truncated', 'an encoding cut after %d of %d bytes is read as a number' % (k, L), path_to(get, nd))
    c.floor('pieces of the number range', 10)
    c.floor('writer cases decided', 10)
    c.floor('reader cases decided', 10)
    c.floor('size cases decided', 10)
