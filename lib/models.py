"""What the analysed code's dependencies do, as far as the rules care.

A model maps (interpreter, state, call) to a list of (state, value) outcomes, or
None when it does not apply (the callee's own MIR is then followed, if any).
Names are the last two segments of the callee's path: `Buf::get_u8`,
`HashMap::remove`; several spellings of the same operation share one model, so
that code may be rewritten with another one without changing what is analysed.
"""
from engine import *
from engine import _ord

M = {}


def model(*names):
    def d(f):
        for n in names:
            assert n not in M, n
            M[n] = f
        return f
    return d


class Cont:
    """what to do with the result of a frame pushed by a model"""
    __slots__ = ('f', 'a')

    def __init__(self, f, *a):
        self.f, self.a = f, a

    def __eq__(self, o):
        return isinstance(o, Cont) and self.f is o.f and self.a == o.a

    def __hash__(self):
        return hash((self.f.__name__, self.a))

    def __call__(self, ip, st, v, fr):
        return self.f(ip, st, v, fr, *self.a)


def setdest(ip, st, fr, v):
    if fr.dest is not None:
        ip.wr(st, fr.dest[0], fr.dest[1], v)
    elif not st.fr:
        st.end = ('return', v)
    return st


def ident(ip, st, c):
    return [(st, c.args[0])]


def pure(name, n=None):
    def f(ip, st, c):
        return [(st, op(name, *[ip.snap(st, a) for a in (c.args if n is None else c.args[:n])]))]
    return f


def unit(ip, st, c):
    return [(st, UNIT)]


def here(st, c, *x):
    """a name for this call on this call path"""
    fr = c.fr
    return (fr.fid, fr.bb) + x


# ------------------------------------------------------------- identities
model('AsRef::as_ref', 'AsMut::as_mut', 'Deref::deref', 'DerefMut::deref_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut')(
    lambda ip, st, c: deref(ip, st, c))


def deref(ip, st, c):
    p = c.args[0]
    loc, proj = ip.target(st, p)
    x = ip.rd(st, loc, proj)
    if c.name.endswith('::as_ref') or c.name.endswith('::as_mut') or c.name.endswith('::borrow'):
        # &&str -> &str
        n = 0
        while x.t in ('ref', 'cref') and n < 6:
            p = x
            loc, proj = ip.target(st, p)
            x = ip.rd(st, loc, proj)
            n += 1
    if x.t == 'box':
        return [(st, ip.mkref(loc, proj + (('b',),)))]
    if x.t == 'op' and x.a[0] in ('asref', 'guarded'):
        return [(st, x)]
    if x.t == 'adt' and x.a[0].endswith('pin::Pin'):
        return [(st, ip.rd(st, loc, proj + (('f', 0, None),)))]
    if x.t == 'adt' and x.a[0].endswith('borrow::Cow'):
        if x.a[1] == 0:
            return [(st, x.a[2][0])]
        return [(st, ip.mkref(loc, proj + (('v', 1), ('f', 0, None))))]
    if 'self' in c.fd:
        t = c.dump.types[c.fd['self']]
        if t['k'] == 'adt' and t['path'].split('::')[-1] in ('Arc', 'Rc', 'Ref', 'RefMut', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard'):
            return [(st, x)]          # the pointer itself
        if t['k'] == 'adt' and t['path'].startswith('haproxy') and 'inst' in c.fd:
            return None
    return [(st, p)]


for n in ('Bytes::as_ref', 'String::as_bytes', 'String::as_str', 'str::as_bytes', 'Vec::as_slice', 'Vec::as_mut_slice', 'slice::as_ref',
          'str::as_ref', 'String::into_bytes', 'Bytes::to_vec', 'slice::to_vec', 'String::as_mut_str', 'slice::into_vec', 'str::into_string',
          'str::into_boxed_str', 'Cow::into_owned', 'Vec::into_boxed_slice', 'String::into_boxed_str',
          'slice::to_owned', 'Vec::leak', 'str::as_str', 'CancellationToken::clone', 'BytesMut::as_ref', 'array::as_slice', 'array::as_ref'):
    if n in ('Bytes::to_vec', 'slice::to_vec', 'slice::to_owned'):
        M[n] = lambda ip, st, c: [(st, ip.peel(st, c.args[0]))]
    else:
        M[n] = ident


def clone(ip, st, c):
    if 'inst' in c.fd and (c.fd['inst'].startswith('haproxy') or c.fd['inst'].startswith('core::option') or c.fd['inst'].startswith('core::result')):
        v = ip.deref(st, c.args[0])
        if v.t in ('adt', 'upd', 'tup'):
            return None if v.t != 'adt' or c.fd['inst'].startswith('haproxy') else [(st, v)]
        return None if c.fd['inst'].startswith('haproxy') else [(st, v)]
    v = ip.deref(st, c.args[0])
    t = c.dump.types[c.fd['self']] if isinstance(c.fd.get('self'), int) else {}
    if t.get('k') == 'adt' and 'DashMap' in str(t.get('path')):
        # a table of its own from here on
        return [(st, op('copy', v))]
    return [(st, v)]


model('Clone::clone', 'ToOwned::to_owned', 'Option::cloned_', 'Arc::clone')(clone)


@model('Into::into', 'From::from')
def into(ip, st, c):
    if 'inst' in c.fd:
        return None
    a = c.args[0]
    # Arc::from / Box::from of a value, String -> Box<str>, &str -> String ...
    if 'inst_path' in c.fd and c.fd['inst_path'].startswith('haproxy'):
        return None
    t = c.rty
    if t and t['k'] == 'adt':
        last = t['path'].split('::')[-1]
        if last == 'Option':
            return [(st, Some(a))]
        if last in ('String', 'Vec', 'Bytes', 'Cow', 'PathBuf'):
            return [(st, ip.peel(st, a))]
        if last in ('Ipv4Addr', 'Ipv6Addr'):
            return [(st, op('ip', a))]
        if last in ('Box',):
            return [(st, mk('box', a))]
        if last in ('Duration',) or c.fd.get('self') is None:
            return [(st, a)]
        if last == 'Error':
            return [(st, op('err', a))]
    return [(st, a)]


@model('TryInto::try_into', 'TryFrom::try_from')
def tryfrom(ip, st, c):
    if 'inst' in c.fd:
        return None
    if 'inst_path' in c.fd and c.fd['inst_path'].startswith('haproxy'):
        return None
    t = c.rty
    a = c.args[0]
    if t and t['k'] == 'adt' and t.get('args'):
        ty = c.dump.types[t['args'][0]]
        tr = ty_range(ty)
        v = a
        if tr:
            outs = []
            le = ip.cmp(st, 'Gt', v, I(tr[1]))
            ge = ip.cmp(st, 'Lt', v, I(tr[0]))
            for s2, x in ip.split(st, le):
                if x:
                    outs.append((s2, Err(op('TryFromIntError'))))
                    continue
                for s3, y in ip.split(s2, ge):
                    outs.append((s3, Err(op('TryFromIntError')) if y else Ok(v)))
            return outs
        x = ip.peel(st, a)
        if ty['k'] == 'array' and ty.get('len') is not None:
            n = ip.len_val(x)
            outs = []
            for s2, e in ip.split(st, ip.cmp(st, 'Eq', n, I(ty['len']))):
                outs.append((s2, Ok(x) if e else Err(op('TryFromSliceError'))))
            return outs
        s2 = st.fork()
        for k in ('HeaderName', 'HeaderValue'):
            if ty['s'].split('<')[0].endswith('::' + k):
                s2.ev('bad', k, x)
        return [(st, Ok(op('tryfrom', sym('ty', ty['s'][:80]), x))), (s2, Err(op('tryfrom_err', sym('ty', ty['s'][:80]), x)))]
    return None


@model('ToString::to_string')
def to_string(ip, st, c):
    x = ip.peel(st, c.args[0])
    if x.t == 'str':
        return [(st, x)]
    if 'self' in c.fd:
        t = c.dump.types[c.fd['self']]
        if t['k'] == 'str' or (t['k'] == 'adt' and t['path'].split('::')[-1] in ('String', 'Cow')):
            return [(st, x)]
    return [(st, op('display', ip.snap(st, x)))]


@model('TryFromPrimitive::try_from_primitive')
def tryprim(ip, st, c):
    return None if 'inst' in c.fd else None


model('IntoFuture::into_future', 'Instrument::instrument', 'WithSubscriber::with_subscriber', 'FutureExt::boxed', 'Instrument::in_current_span',
      'FutureExt::fuse', 'FutureExt::boxed_local')(lambda ip, st, c: None if 'inst' in c.fd and c.fd['inst'].startswith('haproxy') else ident(ip, st, c))


@model('Box::new', 'Box::pin')
def box_new(ip, st, c):
    v = mk('box', c.args[0])
    if c.name.endswith('pin'):
        v = adt('core::pin::Pin', 0, v)
    return [(st, v)]


@model('Arc::new', 'Rc::new')
def arc_new(ip, st, c):
    return [(st, op('asref', c.args[0]))]


model('black_box', 'hint::black_box', 'convert::identity', 'Pin::into_inner', 'Wrapping')(ident)
model('mem::drop')(lambda ip, st, c: dropit(ip, st, c))


def dropit(ip, st, c):
    v = c.args[0]
    if ip.droppable(v):
        loc = ('t', ip.fid(('dropfn',) + here(st, c)))
        st.mem[loc] = v
        ip.wr(st, c.dest[0], c.dest[1], UNIT)
        r = ip.dropv(st, v, loc, ())
        return [r]
    return [(st, UNIT)]


@model('mem::replace', 'ptr::replace')
def replace(ip, st, c):
    loc, proj = ip.target(st, c.args[0])
    v = ip.rd(st, loc, proj)
    ip.wr(st, loc, proj, c.args[1])
    return [(st, v)]


@model('mem::swap')
def swap(ip, st, c):
    l1, p1 = ip.target(st, c.args[0])
    l2, p2 = ip.target(st, c.args[1])
    a, b = ip.rd(st, l1, p1), ip.rd(st, l2, p2)
    ip.wr(st, l1, p1, b)
    ip.wr(st, l2, p2, a)
    return [(st, UNIT)]


@model('mem::forget')
def forget(ip, st, c):
    st.ev('forget', ip.snap(st, c.args[0]))
    return [(st, UNIT)]


SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}


def tysize(dump, t):
    ty = dump.types[t] if isinstance(t, int) else t
    s = ty['s']
    if s in SIZES:
        return SIZES[s]
    if ty['k'] == 'array' and isinstance(ty.get('len'), int):
        n = tysize(dump, ty['inner'])
        return None if n is None else n * ty['len']
    if ty['k'] == 'adt':
        a = ADTS.get(ty['path'])
        if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
            f = a['variants'][0]['fields'][0]
            ft = f.get('ty') if isinstance(f, dict) else None
            if isinstance(ft, str) and ft in SIZES:
                return SIZES[ft]
            if isinstance(ft, str) and ft.split('::')[-1] == 'InternalBitFlags':
                return tysize_path(ft)
        return tysize_path(ty['path'])
    return None


def tysize_path(p):
    a = ADTS.get(p)
    if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
        f = a['variants'][0]['fields'][0]
        ft = f.get('ty') if isinstance(f, dict) else f
        if ft in SIZES:
            return SIZES[ft]
        if ft and ft != p:
            return tysize_path(ft)
    return None


@model('mem::size_of')
def size_of(ip, st, c):
    ta = c.fd.get('targs')
    if ta:
        n = tysize(c.dump, ta[0])
        if n is not None:
            return [(st, I(n))]
    a = c.fd.get('args') or ['?']
    if a[0] in SIZES:
        return [(st, I(SIZES[a[0]]))]
    n = tysize_path(a[0].split('<')[0])
    if n is not None:
        return [(st, I(n))]
    return [(st, sym('const', 'size_of ' + a[0]))]


# ------------------------------------------------------------- closures
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def fncall(ip, st, c):
    a = c.args[1]
    if a.t != 'tup':
        n = 0
        args = (ip.field(a, ('f', 0, None)),)
    else:
        args = a.a[0]
    return ip.call_value(st, c, c.args[0], args)


@model('bool::then')
def b_then(ip, st, c):
    outs = []
    for s2, d in ip.split(st, c.args[0]):
        if not d:
            outs.append((s2, NONE))
        else:
            outs += callthen(ip, s2, c, c.args[1], (), Cont(k_some))
    return outs


@model('bool::then_some')
def b_then_some(ip, st, c):
    return [(s2, Some(c.args[1]) if d else NONE) for s2, d in ip.split(st, c.args[0])]


def k_some(ip, st, v, fr):
    return setdest(ip, st, fr, Some(v))


def k_ok(ip, st, v, fr):
    return setdest(ip, st, fr, Ok(v))


def callthen(ip, st, c, f, args, cont):
    """call a closure, then cont(result)"""
    tmp = ('t', ip.fid(('ct',) + here(st, c)))
    c2 = Call(f, list(args), (tmp, ()), c.span, c.fr, None, False)
    n0 = len(st.fr)
    r = ip.call_value(st, c2, f, tuple(args))
    outs = []
    for o in r:
        if isinstance(o, St):
            if o.end is not None:
                outs.append(o)
                continue
            if len(o.fr) > n0:
                # turn the new frame into one whose result goes through cont
                top = o.fr[n0]
                o.fr = o.fr[:n0] + (Frame(top.fid, top.body, top.bb, c.dest, 'ctl', cont),) + o.fr[n0 + 1:]
                outs.append(o)
                continue
            v = o.mem.pop(tmp)
            s2 = o
        else:
            s2, v = o
        fr = Frame(0, c.fr.body, 0, c.dest)
        x = cont(ip, s2, v, fr)
        outs.extend(x if isinstance(x, list) else [x])
    return outs


# ------------------------------------------------------------- comparison
@model('PartialEq::eq', 'PartialEq::ne')
def eq(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith(('haproxy', 'core::option', 'core::result')):
        return None
    a, b = ip.peel(st, c.args[0]), ip.peel(st, c.args[1])
    r = veq(ip, st, a, b)
    if c.name.endswith('ne'):
        r = ip.bnot(r)
    return [(st, r)]


@model('intrinsics::discriminant_value', 'mem::discriminant')
def discriminant(ip, st, c):
    v = ip.deref(st, c.args[0])
    ts = c.fd.get('targs') or []
    t = c.dump.types[ts[0]] if len(ts) == 1 else {}
    path = t.get('path')
    d = ip.discr(st, v, path)
    if d.t != 'i' and d not in HINT and path in ADTS and ADTS[path]['kind'] == 'enum':
        ds = [int(x['discr']) for x in ADTS[path]['variants']]
        HINT[d] = (min(ds), max(ds))
        ENUMS[d] = (path, frozenset(ds))
    return [(st, d)]


def veq(ip, st, a, b):
    if a is b:
        return TRUE
    if a.t in ('str', 'bytes', 'i') and b.t == a.t:
        return I(int(a.a[0] == b.a[0]))
    if a.t == 'adt' and b.t == 'adt':
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            rs = [veq(ip, st, ip.peel(st, x), ip.peel(st, y)) for x, y in zip(a.a[2], b.a[2])]
            if all(r.t == 'i' for r in rs):
                return I(int(all(r.a[0] for r in rs)))
    x, y = _ord(ip.snap(st, a), ip.snap(st, b))
    t = op('eq', x, y)
    HINT[t] = (0, 1)
    return t


@model('Ord::min', 'cmp::min', 'int::min')
def vmin(ip, st, c):
    a, b = c.args[0], c.args[1]
    d = ip.decide(st, ip.cmp(st, 'Lt', a, b))
    if d is not None:
        return [(st, a if d else b)]
    outs = []
    for s2, d in ip.split(st, ip.cmp(st, 'Lt', b, a)):
        outs.append((s2, b if d else a))
    return outs


@model('Ord::max', 'cmp::max', 'int::max')
def vmax(ip, st, c):
    a, b = c.args[0], c.args[1]
    outs = []
    for s2, d in ip.split(st, ip.cmp(st, 'Lt', a, b)):
        outs.append((s2, b if d else a))
    return outs


def pcmp(o):
    def f(ip, st, c):
        if 'self' in c.fd:
            t = c.dump.types[c.fd['self']]
            if t['k'] == 'adt' and 'tracing' in t['path']:
                return [(st, FALSE)]
            if t['k'] in ('uint', 'int'):
                return [(st, ip.cmp(st, o, ip.peel(st, c.args[0]), ip.peel(st, c.args[1])))]
        if 'tracing' in str(c.fd.get('inst_path', '')) or any('tracing' in str(x) for x in c.fd.get('args', ())):
            return [(st, FALSE)]
        return None
    return f


model('PartialOrd::le')(pcmp('Le'))
model('PartialOrd::lt')(pcmp('Lt'))
model('PartialOrd::ge')(pcmp('Ge'))
model('PartialOrd::gt')(pcmp('Gt'))


# ------------------------------------------------------------- arithmetic
def int_ty(ip, c):
    if 'self' in c.fd:
        return c.dump.types[c.fd['self']]
    return None


def checked(name):
    def f(ip, st, c):
        ty = int_ty(ip, c)
        a, b = c.args[0], c.args[1]
        if name in ('shl', 'shr'):
            outs = []
            for s2, d in ip.split(st, ip.cmp(st, 'Lt', b, I(ty['bits']))):
                if d:
                    v, _ = ip.arith(s2, name, a, b, ty_range(ty), ty)
                    outs.append((s2, Some(v)))
                else:
                    outs.append((s2, NONE))
            return outs
        if name in ('div', 'rem'):
            outs = []
            for s2, d in ip.split(st, ip.cmp(st, 'Eq', b, I(0))):
                if d:
                    outs.append((s2, NONE))
                else:
                    v, _ = ip.arith(s2, name, a, b, ty_range(ty), ty)
                    outs.append((s2, Some(v)))
            return outs
        if name == 'sub' and ty_range(ty)[0] == 0:
            outs = []
            for s2, d in ip.split(st, ip.cmp(st, 'Lt', a, b)):
                if d:
                    outs.append((s2, NONE))
                else:
                    v, of = ip.arith(s2, name, a, b, ty_range(ty), ty)
                    if of.t == 'i' or ip.no_overflow(s2, of):
                        outs.append((s2, Some(v)))
            return outs
        v, of = ip.arith(st, name, a, b, ty_range(ty), ty)
        if of.t == 'i':
            return [(st, NONE if of.a[0] else Some(v))]
        s2 = st.fork()
        outs = []
        if ip.assume(s2, of, 1):
            outs.append((s2, NONE))
        if ip.no_overflow(st, of):
            outs.append((st, Some(v)))
        return outs
    return f


def wrapping(name):
    def f(ip, st, c):
        ty = int_ty(ip, c)
        v, of = ip.arith(st, name, c.args[0], c.args[1], ty_range(ty), ty)
        if of.t == 'i' and not of.a[0]:
            return [(st, v)]
        tr = ty_range(ty)
        r = op('wrap', v)
        HINT.setdefault(r, tr)
        return [(st, v if v.t == 'i' else r)]
    return f


def saturating(name):
    def f(ip, st, c):
        ty = int_ty(ip, c)
        tr = ty_range(ty)
        v, of = ip.arith(st, name, c.args[0], c.args[1], tr, ty)
        if of.t == 'i' and not of.a[0]:
            return [(st, v)]
        s2 = st.fork()
        outs = []
        if ip.assume(s2, of, 1):
            outs.append((s2, I(tr[0] if name == 'sub' else tr[1])))
        if ip.no_overflow(st, of):
            outs.append((st, v))
        return outs
    return f


for _n in ('add', 'sub', 'mul', 'shl', 'shr', 'div', 'rem'):
    M['int::checked_' + _n] = checked(_n)
    M['int::wrapping_' + _n] = wrapping(_n)
for _n in ('add', 'sub', 'mul'):
    M['int::saturating_' + _n] = saturating(_n)


@model('int::is_power_of_two', 'int::count_ones', 'int::leading_zeros', 'int::trailing_zeros', 'int::pow', 'int::swap_bytes', 'int::to_be', 'int::from_be',
       'int::rotate_left', 'int::rotate_right', 'int::reverse_bits', 'int::signum', 'int::ilog2', 'int::to_le', 'int::from_le', 'int::next_multiple_of', 'int::next_power_of_two', 'int::div_ceil', 'int::midpoint', 'int::abs_diff', 'int::is_multiple_of', 'int::isqrt', 'int::count_zeros')
def intop(ip, st, c):
    return [(st, op('int:' + c.name.split('::')[-1], *c.args))]


@model('int::abs', 'int::unsigned_abs', 'int::wrapping_abs')
def intabs(ip, st, c):
    v = c.args[0]
    if v.t == 'i':
        return [(st, I(abs(v.a[0])))]
    ty = int_ty(ip, c)
    outs = []
    for s2, d in ip.split(st, ip.cmp(st, 'Lt', v, I(0))):
        r = v
        if d:
            r = op('neg', v)
            lo, hi = ip.rng(s2, v)
            tr = ty_range(ty)
            if lo <= tr[0] and not c.name.endswith('unsigned_abs'):
                r = op('int:abs', v)
            HINT.setdefault(r, (max(0, -hi), -lo) if r.a[0] == 'neg' else tr)
        outs.append((s2, r))
    return outs


@model('int::to_be_bytes', 'int::to_le_bytes', 'int::to_ne_bytes')
def tobytes(ip, st, c):
    ty = int_ty(ip, c)
    n = c.name.split('::')[-1][3:5]
    return [(st, op('slice_n', op('bytes_' + n, c.args[0], I(ty['bits'] // 8)), I(ty['bits'] // 8)))]


@model('int::from_be_bytes', 'int::from_le_bytes', 'int::from_ne_bytes')
def frombytes(ip, st, c):
    n = c.name.split('::')[-1][5:7]
    v = ip.snap(st, c.args[0])
    r = op('from_' + n, v)
    if v.t == 'op' and v.a[0] == 'slice_n' and v.a[1].t == 'op' and v.a[1].a[0] == 'bytes_' + n:
        # there and back
        ty, w = int_ty(ip, c), v.a[1].a[1]
        lo, hi = ip.rng(st, w)
        if ty['k'] == 'uint' and v.a[1].a[2] is I(ty['bits'] // 8) and lo >= 0 and hi < 1 << ty['bits']:
            r = w
    return [(st, r)]


# ------------------------------------------------------------- Buf
def tobuf(ip, st, v):
    loc, proj, x = ip.peel_place(st, v) if v.t in ('ref', 'cref') else (None, None, v)
    if x.t == 'buf':
        return loc, proj, x
    if x.t == 's' and x.a[0] == 'param' and False:
        pass
    b = mk('buf', x, ip.len_val(x))
    if loc is not None and loc[0] == 'h' and loc[1].t in ('str', 'bytes'):
        return loc, proj, b
    return loc, proj, b


def bufargs(ip, st, c):
    v = c.args[0]
    if v.t in ('ref', 'cref') or (v.t not in ('buf',)):
        if v.t == 'ref':
            return tobuf(ip, st, v)
        # a pointer to an unknown buffer
        loc, proj = ip.target(st, v)
        x = ip.rd(st, loc, proj)
        if x.t in ('ref', 'cref'):
            return tobuf(ip, st, x)
        if x.t != 'buf':
            x = mk('buf', x, ip.len_val(x))
        return loc, proj, x
    return None, None, v


@model('Buf::remaining')
def b_remaining(ip, st, c):
    return [(st, bufargs(ip, st, c)[2].a[1])]


@model('Buf::has_remaining')
def b_has(ip, st, c):
    rem = bufargs(ip, st, c)[2].a[1]
    st.ev('B?', bufargs(ip, st, c)[2].a[0])
    return [(s2, I(d)) for s2, d in ip.split(st, ip.cmp(st, 'Lt', I(0), rem))]


def take(ip, st, c, n, kind, val=None):
    """read n bytes: the obligation is that they are there"""
    loc, proj, b = bufargs(ip, st, c)
    rem = b.a[1]
    short = ip.cmp(st, 'Lt', rem, n)
    outs = []
    for s2, d in ip.split(st, short):
        if d:
            outs.append(ip.panic(s2, 'read past the end of the buffer: ' + c.name.split('::')[-1], c.span))
            continue
        x = val
        if x is None:
            if kind == 'bytes':
                x = op('slice_n', ip.fresh(s2, 'rd', 'bytes', *here(s2, c)), n)
            else:
                x = ip.fresh(s2, 'rd', kind, *here(s2, c))
        # fresh() may have renamed values: read again
        loc, proj, b = bufargs(ip, s2, c) if c.args[0].syms == frozenset() or val is not None else bufargs(ip, s2, c)
        rem2, _ = ip.arith(s2, 'sub', b.a[1], n, (0, (1 << 64) - 1), {'k': 'uint', 'bits': 64})
        if rem2.t not in ('i',):
            lo, hi = ip.rng(s2, b.a[1])
            a, z = ip.rng(s2, n)
            HINT.setdefault(rem2, (0, (1 << 64) - 1))
        if loc is not None:
            ip.wr(s2, loc, proj, mk('buf', b.a[0], rem2))
        s2.ev('R', kind, x, b.a[0], n)
        outs.append((s2, x))
    return outs


def getn(kind, bits, signed=False):
    def f(ip, st, c):
        outs = take(ip, st, c, I(bits // 8), kind)
        for o in outs:
            if not isinstance(o, St):
                hint(o[1], -(1 << (bits - 1)) if signed else 0, (1 << (bits - signed)) - 1)
        return outs
    return f


for _b in (8, 16, 32, 64, 128):
    for _s in ('u', 'i'):
        M['Buf::get_%s%d' % (_s, _b)] = getn('%s%d' % (_s, _b), _b, _s == 'i')
        M['Buf::get_%s%d_le' % (_s, _b)] = getn('%s%dle' % (_s, _b), _b, _s == 'i')
        M['Buf::get_%s%d_ne' % (_s, _b)] = getn('%s%dne' % (_s, _b), _b, _s == 'i')

        def _try(k, b, s):
            g = getn(k, b, s)

            def f(ip, st, c):
                rem = bufargs(ip, st, c)[2].a[1]
                outs = []
                for s2, d in ip.split(st, ip.cmp(st, 'Lt', rem, I(b // 8))):
                    if d:
                        outs.append((s2, Err(op('TryGetError'))))
                    else:
                        outs += [(s3, Ok(v)) for s3, v in g(ip, s2, c)]
                return outs
            return f
        M['Buf::try_get_%s%d' % (_s, _b)] = _try('%s%d' % (_s, _b), _b, _s == 'i')
        M['Buf::try_get_%s%d_le' % (_s, _b)] = _try('%s%dle' % (_s, _b), _b, _s == 'i')


@model('Buf::copy_to_bytes', 'Bytes::split_to', 'BytesMut::split_to')
def b_copy(ip, st, c):
    return take(ip, st, c, c.args[1], 'bytes')


@model('Buf::advance')
def b_advance(ip, st, c):
    outs = take(ip, st, c, c.args[1], 'skip', UNIT)
    return outs


@model('Buf::copy_to_slice')
def b_copy_slice(ip, st, c):
    loc, proj = ip.target(st, c.args[1])
    n = ip.len_of(st, c.args[1])
    outs = []
    for o in take(ip, st, c, n, 'bytes'):
        if isinstance(o, St):
            outs.append(o)
        else:
            l2, p2 = ip.target(o[0], c.args[1])
            ip.wr(o[0], l2, p2, o[1])
            outs.append((o[0], UNIT))
    return outs


@model('Buf::chunk')
def b_chunk(ip, st, c):
    b = bufargs(ip, st, c)[2]
    n = sym('chunk', b)
    outs = []
    # a part of what remains, empty only when nothing remains
    for s2, d in ip.split(st, ip.cmp(st, 'Lt', I(0), b.a[1])):
        k = n if d else I(0)
        if not d or ip.assume(s2, ip.cmp(s2, 'Lt', I(0), n), 1) and ip.assume(s2, ip.cmp(s2, 'Lt', b.a[1], n), 0):
            outs.append((s2, mk('cref', op('slice_n', op('chunk', b), k))))
    return outs


model('Buf::by_ref_', 'BufMut::by_ref_')(ident)


# ------------------------------------------------------------- BufMut
def wbuf(ip, st, v):
    """innermost place of a write buffer"""
    if v.t in ('ref',):
        loc, proj, x = ip.peel_place(st, v)
        return loc, proj, x
    loc, proj = ip.target(st, v)
    x = ip.rd(st, loc, proj)
    if x.t in ('ref', 'cref'):
        return wbuf(ip, st, x)
    return loc, proj, x


def put(ip, st, c, kind, val, n, sub=None):
    loc, proj, x = wbuf(ip, st, c.args[0])
    if x.t == 'op' and x.a[0] == 'subslice':
        # writing through &mut buf[a..b]: patches the buffer it is taken from
        bloc = x.a[1]
        st.ev('W', 'patch', kind, val, x.a[2], x.a[3])
        l2, p2, base = wbuf(ip, st, bloc)
        if base.t == 'wb':
            ip.wr(st, l2, p2, patch(base, x.a[2], n, kind, val))
        ip.wr(st, loc, proj, op('subslice', bloc, lin(x.a[2], n.a[0]) if n.t == 'i' else op('add', x.a[2], n), x.a[3]))
        return [(st, UNIT)]
    st.ev('W', kind, val, n)
    if x.t == 'coll':
        x = mk('wb', x.a[0], ())
    if x.t == 'wb':
        site = here(st, c) + (len(st.fr),) + (() if sub is None else (sub,))
        ps = x.a[1]
        for i, p in enumerate(ps):
            if len(p) > 3 and p[3] == site:
                # a loop: what was written from its first round on is summarised
                nm = ip.fresh(st, 'written', *site)
                loc, proj, x = wbuf(ip, st, c.args[0])
                ln = op('len', nm)
                HINT.setdefault(ln, (0, (1 << 63) - 1))
                ps = x.a[1][:i]
                ip.wr(st, loc, proj, mk('wb', x.a[0], ps + (('many', nm, ln, site),)))
                return [(st, UNIT)]
        ip.wr(st, loc, proj, mk('wb', x.a[0], ps + ((kind, val, n, site),)))
    return [(st, UNIT)]


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def copy_slice(ip, st, c):
    loc, proj, x = wbuf(ip, st, c.args[0])
    if x.t == 'op' and x.a[0] == 'subslice':
        return put_slice(ip, st, c)
    return None


def patch(b, off, n, kind, val):
    pos = I(0)
    if n.t == 'i' and off.t == 'i':
        # over several pieces
        ps, i = list(b.a[1]), 0
        while i < len(ps) and pos is not off and pos.t == 'i':
            pos = addlen(pos, ps[i][2])
            i += 1
        j, got = i, 0
        while pos is off and j < len(ps) and ps[j][2].t == 'i' and got < n.a[0]:
            got += ps[j][2].a[0]
            j += 1
        if got == n.a[0] and j > i + 1:
            return mk('wb', b.a[0], tuple(p[:3] for p in ps[:i]) + ((kind, val, n),) + tuple(p[:3] for p in ps[j:]))
        pos = I(0)
    out = []
    done = False
    for k, v, sz, *_r in b.a[1]:
        if pos is off and sz is n and not done:
            out.append((kind, val, n))
            done = True
        else:
            out.append((k, v, sz))
        pos = addlen(pos, sz)
    if not done:
        out.append(('patched', val, I(0)))
    return mk('wb', b.a[0], tuple(out))


def addlen(a, b):
    if b.t == 'i':
        return lin(a, b.a[0])
    if a.t == 'i':
        return lin(b, a.a[0])
    if a.t == 'lin':
        return lin(op('add', *_ord(a.a[0], b)), a.a[1])
    if b.t == 'lin':
        return lin(op('add', *_ord(a, b.a[0])), b.a[1])
    r = op('add', *_ord(a, b))
    HINT.setdefault(r, (0, (1 << 64) - 1))
    return r


def wblen(b):
    n = I(0)
    for p in b.a[1]:
        n = addlen(n, p[2])
    return n


def putn(kind, bits):
    def f(ip, st, c):
        return put(ip, st, c, kind, c.args[1], I(bits // 8))
    return f


for _b in (8, 16, 32, 64, 128):
    for _s in ('u', 'i'):
        M['BufMut::put_%s%d' % (_s, _b)] = putn('%s%d' % (_s, _b), _b)
        M['BufMut::put_%s%d_le' % (_s, _b)] = putn('%s%dle' % (_s, _b), _b)


@model('BufMut::put_slice', 'BufMut::put', 'Vec::extend_from_slice', 'BytesMut::extend_from_slice')
def put_slice(ip, st, c):
    v = ip.peel(st, c.args[1])
    if c.name.startswith('alloc') and False:
        return None
    loc, proj, x = wbuf(ip, st, c.args[0])
    v2 = ip.snap(st, v)
    if v2.t == 'arr' and len(v2.a[0]) <= 16:
        outs = st
        for i, e in enumerate(v2.a[0]):
            put(ip, st, c, 'u8', e, I(1), i)
        return [(st, UNIT)]
    if v2.t == 'op' and v2.a[0] == 'slice_n' and v2.a[1].t == 'op' and v2.a[1].a[0] == 'bytes_be':
        n = v2.a[1].a[2]
        return put(ip, st, c, 'u%d' % (8 * n.a[0]), v2.a[1].a[1], n)
    return put(ip, st, c, 'slice', v2, ip.len_val(v))


@model('BufMut::put_bytes')
def put_bytes(ip, st, c):
    return put(ip, st, c, 'fill', c.args[1], c.args[2])


def uncast(v):
    while v.t == 'op' and v.a[0] == 'cast':
        v = v.a[1]
    return v


def ev_alloc(ip, st, n, span):
    """memory is reserved for n elements: with what is known to bound n from above"""
    ub = []
    names = {n, uncast(n)}
    for k, f in st.facts.items():
        if k.t == 'op' and k.a[0] == 'lt' and f[0] == f[1]:
            a, b = k.a[1], k.a[2]
            if f[0] == 0 and (b in names or uncast(b) in names):
                ub.append(a)
            elif f[0] == 1 and (a in names or uncast(a) in names):
                ub.append(b)
        elif k.t == 'op' and k.a[0] == 'eq' and f[0] == f[1] == 1:
            if k.a[1] in names:
                ub.append(k.a[2])
            elif k.a[2] in names:
                ub.append(k.a[1])
    rems = set()
    for v in st.mem.values():
        leaf_bufs(v, rems)
    st.ev('alloc', n, span, ip.rng(st, n)[1], tuple(ub), tuple(rems))


def leaf_bufs(v, out):
    if v.t == 'buf':
        out.add(v.a[1])
    elif v.t in ('adt', 'tup'):
        for x in (v.a[2] if v.t == 'adt' else v.a[0]):
            leaf_bufs(x, out)


@model('Box::new_uninit')
def box_new_uninit(ip, st, c):
    return [(st, mk('box', UNINIT))]


@model('box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(ip, st, c):
    v = ip.snap(st, c.args[0])
    while v.t == 'box' or v.t == 'upd' and len(v.a[1]) == 1:
        v = v.a[0] if v.t == 'box' else v.a[1][0][1]
    its = v.a[0] if v.t == 'arr' else None
    if its is not None:
        return [(st, mk('coll', sym('coll', *here(st, c)), mk('tup', its)))]
    return None


@model('BytesMut::with_capacity', 'BytesMut::new', 'BytesMut::zeroed', 'BytesMut::default')
def wb_new(ip, st, c):
    n = c.args[0] if c.args else I(0)
    if c.args:
        ev_alloc(ip, st, n, c.span)
    pieces = (('zero', I(0), n),) if c.name.endswith('zeroed') else ()
    return [(st, mk('wb', sym('wb', *here(st, c)), pieces))]


@model('BytesMut::resize', 'Vec::resize')
def wb_resize(ip, st, c):
    loc, proj, x = wbuf(ip, st, c.args[0])
    n = c.args[1]
    ev_alloc(ip, st, n, c.span)
    if x.t == 'wb' and not x.a[1] or x.t == 'coll' and x.a[1] is EMPTY:
        ip.wr(st, loc, proj, mk('wb', x.a[0], (('zero', ip.snap(st, c.args[2]), n),)))
    else:
        ip.wr(st, loc, proj, mk('wb', x.a[0] if x.t in ('wb', 'coll') else x, (('resized', x, n),)))
    return [(st, UNIT)]


@model('BytesMut::reserve', 'Vec::reserve', 'String::reserve', 'Vec::reserve_exact', 'HashMap::reserve', 'HashSet::reserve')
def reserve(ip, st, c):
    ev_alloc(ip, st, c.args[1], c.span)
    return [(st, UNIT)]


@model('Ipv4Addr::octets', 'Ipv6Addr::octets')
def octets(ip, st, c):
    x = ip.snap(st, ip.peel(st, c.args[0]))
    return [(st, op('slice_n', op('octets', x), I(4 if 'Ipv4' in c.name else 16)))]


@model('BytesMut::freeze')
def freeze(ip, st, c):
    return [(st, c.args[0])]


@model('BytesMut::clear', 'Vec::clear')
def clearv(ip, st, c):
    loc, proj, x = wbuf(ip, st, c.args[0])
    if x.t == 'wb':
        ip.wr(st, loc, proj, mk('wb', x.a[0], ()))
    else:
        ip.wr(st, loc, proj, mk('coll', x.a[0] if x.t == 'coll' else x, EMPTY))
    return [(st, UNIT)]


@model('BytesMut::truncate')
def trunc(ip, st, c):
    loc, proj, x = wbuf(ip, st, c.args[0])
    st.ev('truncate', x, c.args[1])
    ip.wr(st, loc, proj, op('truncated', x, c.args[1]))
    return [(st, UNIT)]


@model('Vec::from_elem', 'vec::from_elem')
def from_elem(ip, st, c):
    n = c.args[1]
    ev_alloc(ip, st, n, c.span)
    return [(st, mk('wb', sym('wb', *here(st, c)), (('zero', c.args[0], n),)))]


def str_ty(c):
    t = c.dump.types[c.fd['self']] if c.fd.get("self") is not None else {}
    return t.get('k') == 'str' or t.get('k') == 'adt' and str(t.get('path', t.get('name', ''))).endswith('string::String')


def at_boundary(ip, st, c, txt, n, ends, outs):
    """the states in which a text may be cut at both ends; a panic where it is cut at a place that only a count decided"""
    if txt.t == 'str':
        return [st]
    for k in ends:
        if k.t == 'i' and k.a[0] == 0 or k is n or k.t != 'i' and not (k.t == 's' and k.a[0] in ('rd', 'wire', 'param')) and not (
                k.t == 'op' and k.a[0] in ('min', 'div', 'shr') and any(y.t == 'i' and y.a[0] > 0 for y in k.a[1:3] if isinstance(y, V))):
            continue
        # a look at the text before
        if any(t.t == 'op' and (str(t.a[0]).startswith('str:') and any(y is txt for y in subterms(t)) or t.a[0] == 'eq' and any(y is txt for y in t.a[1:])) for t in st.facts):
            continue
        if k.t == 'i':
            lo, hi = ip.rng(st, n)
            if lo == hi == k.a[0]:
                continue
        outs.append(ip.panic(st, 'text cut inside a character', c.span))
        return []
    return [st]


def subterms(t, d=0):
    yield t
    if d < 5:
        for y in t.a:
            if isinstance(y, V):
                yield from subterms(y, d + 1)


@model('Index::index', 'IndexMut::index_mut', 'slice::get', 'slice::get_mut', 'str::get')
def index(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    loc, proj, x = ip.peel_place(st, c.args[0]) if c.args[0].t == 'ref' else (None, None, ip.peel(st, c.args[0]))
    ix = c.args[1]
    checked_ = '::get' in c.name
    if ix.t == 'adt':
        nm = ix.a[0].split('::')[-1]
        if nm == 'RangeFull':
            return [(st, c.args[0])]
        n = ip.len_of(st, c.args[0])
        lo, hi = I(0), n
        if nm == 'Range':
            lo, hi = ix.a[2][0], ix.a[2][1]
        elif nm == 'RangeFrom':
            lo = ix.a[2][0]
        elif nm == 'RangeTo':
            hi = ix.a[2][0]
        elif nm == 'RangeToInclusive':
            hi = lin(ix.a[2][0], 1)
        elif nm == 'RangeInclusive':
            lo, hi = ix.a[2][0], lin(ix.a[2][1], 1)
        bad = [ip.cmp(st, 'Lt', hi, lo), ip.cmp(st, 'Lt', n, hi)]
        outs = []
        work = [st]
        for b in bad:
            nxt = []
            for s in work:
                for s2, d in ip.split(s, b):
                    if d:
                        if checked_:
                            outs.append((s2, NONE))
                        else:
                            outs.append(ip.panic(s2, 'slice index out of range', c.span))
                    else:
                        nxt.append(s2)
            work = nxt
        if not checked_ and str_ty(c):
            txt = ip.snap(st, x)
            work = [s2 for s in work for s2 in at_boundary(ip, s, c, txt, n, (lo, hi), outs)]
        for s in work:
            sz = ip.arith(s, 'sub', hi, lo, None)[0]
            if loc is not None and c.name.endswith('mut'):
                v = op('subslice', c.args[0], lo, hi)
                l2 = ('t', ip.fid(('sub',) + here(s, c)))
                s.mem[l2] = v
                r = ip.mkref(l2, ())
            else:
                base = ip.snap(s, x)
                if lo is I(0) and hi is n:
                    r = c.args[0]
                elif base.t == 'arr' and lo.t == 'i' and hi.t == 'i':
                    r = mk('cref', mk('arr', base.a[0][lo.a[0]:hi.a[0]]))
                elif lo.t == 's' and lo.a[0] in ('nwritten', 'nread') and hi is n:
                    # what is left after a part was done: again a slice of unknown length
                    while base.t == 'op' and base.a[0] in ('slice_n', 'rest'):
                        base = base.a[1]
                    left = ip.fresh(s, lo.a[0], 'rest', *here(s, c))
                    HINT[left] = (0, (1 << 63) - 1)
                    r = mk('cref', op('slice_n', op('rest', base), left))
                else:
                    r = mk('cref', op('slice_n', op('sub', base, lo, hi), sz))
            outs.append((s, Some(r) if checked_ else r))
        return outs
    # a map or an element
    v = ip.snap(st, x)
    if ix.t in ('i', 's', 'op', 'lin', 'fld') and x.t not in ('adt',):
        n = ip.len_of(st, c.args[0])
        outs = []
        for s2, d in ip.split(st, ip.cmp(st, 'Lt', ix, n)):
            if d:
                r = ip.mkref(loc, proj + (('i', ix),)) if loc is not None else mk('cref', mk('idx', v, ix))
                outs.append((s2, Some(r) if checked_ else r))
            elif checked_:
                outs.append((s2, NONE))
            else:
                outs.append(ip.panic(s2, 'index out of bounds', c.span))
        return outs
    return None


@model('slice::first', 'slice::last')
def first(ip, st, c):
    x = ip.peel(st, c.args[0])
    n = ip.len_of(st, c.args[0])
    outs = []
    for s2, d in ip.split(st, ip.cmp(st, 'Eq', n, I(0))):
        if d:
            outs.append((s2, NONE))
        else:
            its = items(x)
            if its is not None:
                v = its[0 if c.name.endswith('first') else -1]
            else:
                v = op(c.name.split('::')[-1], x)
            outs.append((s2, Some(mk('cref', v))))
    return outs


# ------------------------------------------------------------- length
@model('Vec::len', 'slice::len', 'str::len', 'String::len', 'Bytes::len', 'BytesMut::len', 'HashMap::len', 'HashSet::len', 'HeaderMap::len', 'DashMap::len',
       'VecDeque::len', 'ExactSizeIterator::len', 'array::len', 'BTreeMap::len', 'BTreeSet::len')
def vlen(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    return [(st, length(ip, st, ip.peel(st, c.args[0])))]


def length(ip, st, x):
    if x.t == 'wb':
        return wblen(x)
    if x.t == 'coll':
        its = items(x)
        if its is not None:
            return I(len(its))
    return ip.len_val(x)


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty', 'Bytes::is_empty', 'BytesMut::is_empty', 'HashMap::is_empty', 'HashSet::is_empty',
       'HeaderMap::is_empty', 'BTreeSet::is_empty', 'BTreeMap::is_empty', 'VecDeque::is_empty')
def vempty(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    return [(st, ip.cmp(st, 'Eq', length(ip, st, ip.peel(st, c.args[0])), I(0)))]


# ------------------------------------------------------------- collections
# V('coll', id, content): content is a tuple value of the items while they are
# few, or a symbol for any content; renewed at each change
EMPTY = mk('tup', ())


def newcoll(st, c, *x):
    return mk('coll', sym('coll', *here(st, c, *x)), EMPTY)


def items(v):
    if v.t == 'coll' and v.a[1].t == 'tup':
        return v.a[1].a[0]
    if v.t == 'arr':
        return v.a[0]
    if v.t == 'adt' and v.a[0] in (OPT,):
        return v.a[2]
    return None


@model('Vec::new', 'HashMap::new', 'HashSet::new', 'String::new', 'Vec::with_capacity', 'HashMap::with_capacity', 'HashSet::with_capacity', 'HeaderMap::new',
       'HeaderMap::with_capacity', 'DashMap::new', 'DashMap::with_capacity', 'VecDeque::new', 'BTreeMap::new', 'BTreeSet::new', 'String::with_capacity')
def coll_new(ip, st, c):
    if c.args:
        ev_alloc(ip, st, c.args[0], c.span)
    if c.name.startswith('alloc::string'):
        if not c.args:
            return [(st, mk('str', ''))]
    return [(st, newcoll(st, c))]


@model('Default::default')
def default(ip, st, c):
    t = c.rty
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    if t:
        if t['k'] in ('uint', 'int', 'bool'):
            return [(st, I(0))]
        if t['k'] == 'adt':
            p = t['path']
            last = p.split('::')[-1]
            if last == 'Option':
                return [(st, NONE)]
            if last == 'String':
                return [(st, mk('str', ''))]
            if last in ('Vec', 'HashMap', 'HashSet', 'DashMap', 'HeaderMap', 'BTreeMap', 'BTreeSet', 'VecDeque'):
                return [(st, newcoll(st, c))]
            if p.startswith('haproxy') and 'inst' not in c.fd:
                return None
            return [(st, op('default', sym('ty', last), sym('at', *here(st, c))))]
        if t['k'] == 'tuple' and not t.get('args'):
            return [(st, UNIT)]
    return None


def place_of(ip, st, v):
    if v.t == 'ref':
        return ip.peel_place(st, v)
    loc, proj = ip.target(st, v)
    return loc, proj, ip.rd(st, loc, proj)


KEEP = 2


def looping(ip, st):
    fr = st.fr[-1]
    return fr.body.in_loop(fr.bb)


def add_item(ip, st, loc, proj, x, item, site, front=False):
    """append one item"""
    if x.t == 'coll':
        its = items(x)
        if its is not None and len(its) < KEEP and not looping(ip, st):
            ip.wr(st, loc, proj, mk('coll', x.a[0], mk('tup', its + (item,))))
            return
        nm = x.a[0]
        s = ip.fresh(st, 'many', nm)
        x2 = ip.rd(st, loc, proj)
        ip.wr(st, loc, proj, mk('coll', x2.a[0], s))
        return
    nm = ('grown',) + site
    s = ip.fresh(st, 'many', *nm)
    # what it holds is what it held, and more
    ip.wr(st, loc, proj, mk('coll', sym('coll', 'grown', x if not x.syms & {s} else site[0], *site), s))


def collid(x):
    return x.a[0] if x.t == 'coll' else x


@model('Vec::push', 'VecDeque::push_back', 'HashSet::insert', 'BTreeSet::insert', 'HashSet::replace')
def vpush(ip, st, c):
    if c.args[0].t not in ('ref',) and False:
        return None
    loc, proj, x = place_of(ip, st, c.args[0])
    it = ip.snap(st, c.args[1]) if c.args[1].t in ('ref', 'cref') else c.args[1]
    if 'Vec' in c.name and it.t in ('i', 's', 'op', 'lin') and c.fd.get('self') is not None and x.t in ('wb', 'coll', 's', 'fld'):
        t = c.dump.types[c.fd['self']]
        if t.get('args') and c.dump.types[t['args'][0]]['s'] == 'u8':
            return put(ip, st, c, 'u8', it, I(1))
    st.ev('push', collid(x), ip.snap(st, it), c.span)
    add_item(ip, st, loc, proj, x, it, here(st, c))
    if c.name.endswith('insert'):
        r = ip.fresh(st, 'inserted', *here(st, c))
        hint(r, 0, 1)
        return [(st, r)]
    return [(st, UNIT)]


def textpush(ip, st, c):
    """a string grows: like a list of pieces"""
    loc, proj, x = place_of(ip, st, c.args[0])
    it = ip.snap(st, c.args[1])
    if x.t == 'op' and x.a[0] == 'text':
        ident = x.a[1]
    elif x.t == 'str' and not x.a[0]:
        ident = sym('coll', 'text', *here(st, c)[:1])
    else:
        return None
    st.ev('push', ident, it, c.span)
    ip.wr(st, loc, proj, op('text', ident, ip.fresh(st, 'many', ident)))
    return [(st, UNIT)]


M['String::push_str'] = M['String::push'] = textpush


@model('AddAssign::add_assign')
def addassign(ip, st, c):
    t = c.dump.types[c.fd['targs'][0]] if c.fd.get('targs') else None
    if t is None or t['s'].split('::')[-1] != 'String':
        return None
    return textpush(ip, st, c)


@model('vmodels::prim_push')
def prim_push(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    it = c.args[1]
    st.ev('push', collid(x), ip.snap(st, it), c.span)
    add_item(ip, st, loc, proj, x, it, here(st, c))
    return [(st, UNIT)]


@model('vmodels::prim_cut')
def prim_cut(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    if x.t == 'it':
        its = items(x.a[0])
        if its is None or x.a[2] < len(its):
            st.ev('cut', x.a[0])
    elif x.t != 'adt' or x.a[0] != RANGE:
        st.ev('cut', ip.snap(st, c.args[0]))
    return [(st, UNIT)]


@model('vmodels::prim_deref')
def prim_deref(ip, st, c):
    return [(st, ip.deref(st, c.args[0]))]


@model('VecDeque::push_front', 'Vec::insert')
def vinsert(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    st.ev('insert', collid(x), tuple(ip.snap(st, a) for a in c.args[1:]), c.span)
    ip.wr(st, loc, proj, mk('coll', sym('coll', 'insert', *here(st, c)), ip.fresh(st, 'many', 'ins', *here(st, c))))
    return [(st, UNIT)]


@model('Vec::append')
def vappend(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    l2, p2, y = place_of(ip, st, c.args[1])
    st.ev('append', x, y, c.span)
    if items(x) is not None and items(y) is not None and len(items(x)) + len(items(y)) <= 8:
        ip.wr(st, loc, proj, mk('coll', x.a[0], mk('tup', items(x) + items(y))))
    else:
        ip.wr(st, loc, proj, op('concat', x, y))
    ip.wr(st, l2, p2, mk('coll', y.a[0] if y.t == 'coll' else sym('coll', 'emptied'), EMPTY))
    return [(st, UNIT)]


@model('Vec::remove', 'Vec::swap_remove', 'Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back', 'Vec::truncate', 'Vec::retain', 'Vec::dedup', 'Vec::drain',
       'Vec::split_off', 'Vec::reverse', 'slice::reverse', 'Vec::dedup_by_key', 'Vec::dedup_by', 'Vec::retain_mut', 'VecDeque::truncate', 'VecDeque::retain',
       'slice::rotate_left', 'slice::rotate_right', 'slice::swap', 'slice::fill')
def vmut(ip, st, c):
    nm = c.name.split('::')[-1]
    loc, proj, x = place_of(ip, st, c.args[0])
    rest = tuple(ip.snap(st, a) for a in c.args[1:])
    if nm == 'drain' and len(rest) == 1 and whole(ip, st, rest[0], x):
        # everything, from the first to the last
        if x.t != 'coll' or items(x) is not None:
            ip.wr(st, loc, proj, mk('coll', x.a[0] if x.t == 'coll' else sym('coll', 'drained', *here(st, c)), EMPTY))
            return [(st, mkit(x, 'val'))]
    st.ev('vecop', nm, x, rest, c.span)
    its = items(x)
    ip.wr(st, loc, proj, op('rev', x) if nm == 'reverse' else op('after:' + nm, x, *rest))
    if nm in ('truncate', 'retain', 'dedup', 'reverse', 'dedup_by_key', 'dedup_by', 'retain_mut', 'rotate_left', 'rotate_right', 'swap', 'fill'):
        return [(st, UNIT)]
    v = op('vec:' + nm, x, *rest)
    if nm in ('pop', 'pop_front', 'pop_back'):
        s2 = st.fork()
        return [(st, Some(v)), (s2, NONE)]
    return [(st, v)]


@model('HashSet::retain', 'BTreeSet::retain')
def set_retain(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    ip.wr(st, loc, proj, newcoll(st, c, 'set'))
    return vpushm(ip, st, c, 'extend', [ip.mkref(loc, proj), mk('adt', 'vmodels::Filter', 0, (mkit(x, 'val'), c.args[1]))])


def whole(ip, st, rng, x):
    """is a range all of a list?"""
    if rng.t != 'adt':
        return False
    nm = rng.a[0].split('::')[-1].split('<')[0]
    if nm == 'RangeFull':
        return True
    if nm == 'RangeFrom':
        return rng.a[2][0] is I(0)
    n = ip.len_of(st, x)
    if nm == 'RangeTo':
        return rng.a[2][0] is n
    if nm == 'Range':
        return rng.a[2][0] is I(0) and rng.a[2][1] is n
    return False


@model('Vec::splice')
def splice(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    rng = ip.snap(st, c.args[1])
    end = None
    if rng.t == 'adt' and rng.a[0].split('::')[-1].split('<')[0] in ('RangeTo', 'Range'):
        end = rng.a[2][-1]
    if end is None or end.t != 'i' or end.a[0] != 0:
        return None
    # in front of everything that is there
    st.ev('vecop', 'splice', x, (rng, ip.snap(st, c.args[2])), c.span)
    v = op('after:splice', x, ip.snap(st, c.args[2]))
    ip.wr(st, loc, proj, v)
    return [(st, op('vec:splice', x))]


@model('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def sort(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    if '_by' in c.name:
        # what it orders by is for the rules to find out
        ip.wr(st, loc, proj, op('sortedby', x, ip.snap(st, c.args[1]), 'key' if c.name.endswith('_key') else 'cmp'))
    else:
        ip.wr(st, loc, proj, op('sorted', x))
    return [(st, UNIT)]


@model('slice::contains', 'HashSet::contains', 'BTreeSet::contains', 'Vec::contains', 'HashMap::contains_key', 'DashMap::contains_key')
def contains(ip, st, c):
    x, y = ip.peel(st, c.args[0]), ip.snap(st, c.args[1])
    its = items(x)
    if its is not None:
        rs = [veq(ip, st, ip.snap(st, i), y) for i in its]
        if any(r is TRUE for r in rs):
            return [(st, TRUE)]
        if all(r is FALSE for r in rs):
            return [(st, FALSE)]
    r = op('contains', x, y)
    HINT[r] = (0, 1)
    return [(st, r)]


@model('HashSet::intersection', 'HashSet::union', 'HashSet::difference', 'HashSet::symmetric_difference', 'BTreeSet::intersection')
def setop(ip, st, c):
    nm = c.name.split('::')[-1]
    v = op(nm, normlist(ip.peel(st, c.args[0])), normlist(ip.peel(st, c.args[1])))
    return [(st, mkit(v, 'ref'))]


@model('BitAnd::bitand', 'BitOr::bitor')
def setbit(ip, st, c):
    if 'inst' in c.fd:
        return None
    nm = 'intersection' if c.name.endswith('bitand') else 'union'
    return [(st, op('copy', op(nm, normlist(ip.peel(st, c.args[0])), normlist(ip.peel(st, c.args[1])))))]


def normlist(v):
    """the list/set a collection was copied from"""
    while True:
        if v.t == 'op' and v.a[0] in ('copy', 'sorted', 'sortedby', 'rev', 'set', 'list'):
            v = v.a[1]
        else:
            return v


# maps with keys the rules follow
@model('HashMap::remove', 'BTreeMap::remove', 'HashMap::get', 'HashMap::get_mut', 'BTreeMap::get')
def mapget(ip, st, c):
    nm = c.name.split('::')[-1]
    loc, proj, x = place_of(ip, st, c.args[0])
    key = ip.snap(st, c.args[1])
    gone = x.a[1] if x.t == 'gone' else ()
    base = x.a[0] if x.t == 'gone' else x
    if key in gone:
        return [(st, NONE)]
    v = op('mapval', base, key)
    known = op('haskey', base, key)
    HINT[known] = (0, 1)
    outs = []
    for s2, d in ip.split(st, known):
        if nm == 'remove':
            ip.wr(s2, loc, proj, mk('gone', base, tuple(sorted(gone + (key,), key=lambda k: k.n))))
        s2.ev('mapget', base, key, d)
        if d:
            outs.append((s2, Some(v if nm == 'remove' else mk('cref', v))))
        else:
            outs.append((s2, NONE))
    return outs


@model('HashMap::insert', 'BTreeMap::insert')
def mapput(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    st.ev('push', collid(x), tup(ip.snap(st, c.args[1]), ip.snap(st, c.args[2])), c.span)
    add_item(ip, st, loc, proj, x, tup(c.args[1], c.args[2]), here(st, c))
    s2 = st.fork()
    return [(st, NONE), (s2, Some(ip.fresh(s2, 'replaced', *here(s2, c))))]


@model('HeaderMap::append', 'HeaderMap::insert', 'HeaderMap::try_append', 'HeaderMap::try_insert')
def hdrput(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    nm = c.name.split('::')[-1]
    st.ev('hdr', nm.replace('try_', ''), collid(x), ip.snap(st, c.args[1]), ip.snap(st, c.args[2]), c.span)
    add_item(ip, st, loc, proj, x, tup(c.args[1], c.args[2]), here(st, c))
    r = ip.fresh(st, 'hdrres', *here(st, c))
    hint(r, 0, 1)
    return [(st, Ok(r) if nm.startswith('try') else r)]


def fallible(kind):
    def f(ip, st, c):
        x = ip.snap(st, c.args[0])
        s2 = st.fork()
        st.ev('ok', kind, x)
        s2.ev('bad', kind, x)
        return [(st, Ok(op(kind, x))), (s2, Err(op('err:' + kind, x)))]
    return f


for _t in ('HeaderName', 'HeaderValue'):
    for _m in ('from_bytes', 'from_str', 'from_maybe_shared', 'from_lowercase'):
        M[_t + '::' + _m] = fallible(_t)
M['String::from_utf8'] = M['str::from_utf8'] = M['converts::from_utf8'] = fallible('utf8')
M['String::from_utf8_lossy'] = M['String::from_utf8_unchecked'] = M['converts::from_utf8_unchecked'] = pure('utf8lossy')


# DashMap entries
@model('DashMap::entry', 'HashMap::entry')
def entry(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    key = ip.snap(st, c.args[1])
    old = ip.fresh(st, 'entry', *here(st, c))
    m = sym('map', x if not x.syms else x)
    st.ev('entry', x, key, old)
    s2 = st.fork()
    ref = c.args[0]
    st.ev('occupied', x, key)
    s2.ev('vacant', x, key)
    if 'DashMap' in c.name:
        ep = 'dashmap::mapref::entry::Entry'
    else:
        ep = 'std::collections::hash::map::Entry'
    occ = mk('adt', ep, 0, (mk('ent', x, key, old, 'occ'),))
    vac = mk('adt', ep, 1, (mk('ent', x, key, old, 'vac'),))
    return [(st, occ), (s2, vac)]


def entp(ip, st, v):
    loc, proj, x = place_of(ip, st, v) if v.t == 'ref' else (None, None, v)
    if x.t == 'adt' and x.a[0].endswith('Entry') and x.a[2]:
        if loc is not None:
            proj = proj + (('v', x.a[1]), ('f', 0, None))
        x = x.a[2][0]
    return loc, proj, x


@model('VacantEntry::insert', 'VacantEntry::insert_entry', 'Entry::insert', 'Entry::insert_entry')
def ent_insert(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    v = ip.snap(st, c.args[1])
    st.ev('mapset', x.a[0], x.a[1], v, c.span)
    return [(st, op('asref', v))]


@model('OccupiedEntry::insert')
def ent_oinsert(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    v = ip.snap(st, c.args[1])
    st.ev('mapset', x.a[0], x.a[1], v, c.span)
    return [(st, x.a[2])]


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_ref', 'OccupiedEntry::into_mut')
def ent_get(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    return [(st, op('slot', x.a[2]))]


@model('OccupiedEntry::remove')
def ent_remove(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    st.ev('mapdel', x.a[0], x.a[1], c.span)
    l2 = ('h', op('slot', x.a[2]))
    v = st.mem.get(l2, None)
    return [(st, v if v is not None else mk('fld', op('slot', x.a[2]), None, '*'))]


@model('OccupiedEntry::remove_entry')
def ent_remove_entry(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    st.ev('mapdel', x.a[0], x.a[1], c.span)
    l2 = ('h', op('slot', x.a[2]))
    v = st.mem.get(l2, None)
    return [(st, tup(x.a[1], v if v is not None else mk('fld', op('slot', x.a[2]), None, '*')))]


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def ent_key(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    return [(st, mk('cref', x.a[1]))]


@model('Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with')
def ent_or(ip, st, c):
    loc, proj, x = entp(ip, st, c.args[0])
    if x.t != 'ent':
        return None
    slot = op('slot', x.a[2])
    if x.a[3] == 'vac':
        nm = c.name.split('::')[-1]
        if nm == 'or_insert_with':
            return callthen(ip, st, c, c.args[1], (), Cont(k_slot, x.a[0], x.a[1], slot))
        v = newcoll(st, c, 'def') if nm == 'or_default' else c.args[1]
        st.ev('mapset', x.a[0], x.a[1], ip.snap(st, v), c.span)
        st.mem[('h', slot)] = v
    return [(st, slot)]


def k_slot(ip, st, v, fr, m, key, slot):
    st.ev('mapset', m, key, ip.snap(st, v), None)
    st.mem[('h', slot)] = v
    return setdest(ip, st, fr, slot)


@model('DashMap::remove', 'DashMap::get', 'DashMap::get_mut')
def dmap(ip, st, c):
    nm = c.name.split('::')[-1]
    loc, proj, x = place_of(ip, st, c.args[0])
    key = ip.snap(st, c.args[1])
    old = ip.fresh(st, 'entry', *here(st, c))
    s2 = st.fork()
    st.ev('entry', x, key, old)
    s2.ev('entry', x, key, old)
    st.ev('occupied', x, key)
    s2.ev('vacant', x, key)
    if nm == 'remove':
        st.ev('mapdel', x, key, c.span)
        return [(st, Some(tup(key, mk('fld', op('slot', old), None, '*')))), (s2, NONE)]
    return [(st, Some(op('slot', old))), (s2, NONE)]


@model('DashMap::clear', 'DashMap::retain', 'DashMap::alter_all')
def dclear(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    st.ev('mapclear', x, c.name.split('::')[-1], c.span)
    return [(st, UNIT)]


@model('DashMap::is_empty')
def dempty(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    return [(s2, I(d)) for s2, d in ip.split(st, ip.cmp(st, 'Eq', op('len', x), I(0)))]


@model('DashMap::insert')
def dinsert(ip, st, c):
    loc, proj, x = place_of(ip, st, c.args[0])
    key = ip.snap(st, c.args[1])
    st.ev('mapset', x, key, ip.snap(st, c.args[2]), c.span)
    s2 = st.fork()
    return [(st, NONE), (s2, Some(ip.fresh(s2, 'replaced', *here(s2, c))))]


# ------------------------------------------------------------- iterators
def mkit(x, mode, i=0):
    return mk('it', x, mode, i)


ITER_OWN = ('IntoIterator::into_iter',)


def srclist(ip, st, v):
    """(list value, element mode)"""
    if v.t in ('ref', 'cref'):
        return ip.peel(st, v), 'ref'
    return v, 'val'


@model('IntoIterator::into_iter')
def into_iter(ip, st, c):
    v = c.args[0]
    if isiter(v):
        return [(st, v)]
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    if v.t == 'adt' and v.a[0].startswith('haproxy'):
        r = ip.dispatch(st, c)
        if r:
            return r
        return [(st, v)]
    if v.t == 'adt' and v.a[0].split('::')[-1] == 'RangeInclusive':
        return [(st, mkit(op('range', v.a[2][0], lin(v.a[2][1], 1)), 'val'))]
    t = None
    if 'self' in c.fd:
        t = c.dump.types[c.fd['self']]
        if (c.dump.types[t['inner']] if t['k'] == 'ref' else t).get('path') == OPT:
            return opt_iter(ip, st, v)
        if t['k'] == 'ref':
            return [(st, mkit(ip.peel(st, v), 'ref'))]
        if t['k'] == 'adt' and ('Iter' in t['path'].split('::')[-1]) and v.t not in ('coll',):
            return [(st, v if v.t == 'it' else mkit(v, 'val'))]
    if v.t in ('ref', 'cref'):
        return [(st, mkit(ip.peel(st, v), 'ref'))]
    return [(st, mkit(v, 'val'))]


def opt_iter(ip, st, v):
    """the iterator over what an Option holds"""
    loc, proj, x = place_of(ip, st, v) if v.t in ('ref', 'cref') else (None, None, v)
    d = ip.discr(st, x, OPT)
    if d.t != 'i' and d not in HINT:
        HINT[d] = (0, 1)
    outs = []
    for s2, y in ip.split(st, ip.cmp(st, 'Eq', d, I(1))):
        if not y:
            outs.append((s2, mkit(mk('arr', ()), 'val')))
        elif loc is not None:
            outs.append((s2, mkit(mk('arr', (ip.mkref(loc, proj + (('v', 1), ('f', 0, None))),)), 'val')))
        else:
            p = ip.field(ip.field(x, ('v', 1)), ('f', 0, None))
            outs.append((s2, mkit(mk('arr', (p,)), 'val')))
    return outs


def isiter(v):
    return v.t == 'it' or (v.t == 'adt' and (v.a[0].startswith('vmodels::') or v.a[0] == RANGE))


RANGE = 'core::ops::range::Range'


@model('slice::iter', 'Vec::iter', 'HashMap::iter', 'HashSet::iter', 'HeaderMap::iter', 'slice::iter_mut', 'HashMap::values', 'HashMap::keys',
       'HashMap::into_values', 'HashMap::into_keys', 'BTreeSet::iter', 'Option::iter', 'Option::into_iter', 'Option::iter_mut', 'DashMap::iter', 'VecDeque::iter')
def it_iter(ip, st, c):
    nm = c.name.split('::')[-1]
    if c.name.endswith(('Option::iter', 'Option::into_iter', 'Option::iter_mut')):
        return opt_iter(ip, st, c.args[0])
    x = ip.peel(st, c.args[0])
    if nm in ('values', 'keys', 'into_values', 'into_keys'):
        x = op(nm, x)
    return [(st, mkit(x, 'ref' if not nm.startswith('into') else 'val'))]


@model('str::split', 'str::splitn', 'str::rsplitn', 'str::split_whitespace', 'str::split_terminator', 'str::rsplit', 'str::lines', 'str::chars', 'str::bytes')
def split(ip, st, c):
    nm = c.name.split('::')[-1]
    x = ip.snap(st, c.args[0])
    return [(st, mkit(op(nm, x, *[ip.snap(st, a) for a in c.args[1:]]), 'ref'))]


def strop(name):
    def f(ip, st, c):
        x = ip.snap(st, c.args[0])
        if x.t == 'str' and name in ('trim',):
            return [(st, mk('cref', mk('str', x.a[0].strip())))]
        return [(st, mk('cref', op(name, x, *[ip.snap(st, a) for a in c.args[1:]])))]
    return f


for _n in ('trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'repeat'):
    M['str::' + _n] = strop(_n)
    M['String::' + _n] = strop(_n)


@model('str::parse')
def parse(ip, st, c):
    x = ip.snap(st, c.args[0])
    ty = sym('ty', c.fd['args'][-1] if c.fd.get('args') else '?')
    s2 = st.fork()
    return [(st, Ok(op('parse', ty, x))), (s2, Err(op('parse_err', ty, x)))]


@model('FromStr::from_str')
def from_str(ip, st, c):
    x = ip.snap(st, c.args[0])
    nm = c.fd.get('args', ['?'])[0]
    s2 = st.fork()
    return [(st, Ok(op('parse', sym('ty', nm), x))), (s2, Err(op('parse_err', sym('ty', nm), x)))]


@model('slice::join', 'slice::concat', 'Join::join', '[S]::join')
def join(ip, st, c):
    return [(st, op('join', ip.snap(st, c.args[0]), *[ip.snap(st, a) for a in c.args[1:]]))]


def strpred(name):
    def f(ip, st, c):
        r = op(name, *[ip.snap(st, a) for a in c.args])
        HINT[r] = (0, 1)
        return [(st, r)]
    return f


for _n in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'is_char_boundary', 'is_ascii'):
    M['str::' + _n] = strpred('str:' + _n)

for _n in ('starts_with', 'ends_with', 'eq_ignore_ascii_case', 'is_ascii'):
    M.setdefault('slice::' + _n, strpred('str:' + _n))
for _n, _o in (('trim_ascii', 'trim'), ('trim_ascii_start', 'trim_start'), ('trim_ascii_end', 'trim_end')):
    M['slice::' + _n] = M['str::' + _n] = strop(_o)
for _n in ('to_ascii_lowercase', 'to_ascii_uppercase', 'repeat'):
    M.setdefault('slice::' + _n, strop(_n))


def stripped(nm, cond):
    def f(ip, st, c):
        x, p = ip.snap(st, c.args[0]), ip.snap(st, c.args[1])
        return [(s, Some(mk('cref', op(nm, x, p))) if d else NONE) for s, d in ip.split(st, op(cond, x, p))]
    return f


for _t in ('str', 'slice'):
    M[_t + '::strip_prefix'] = stripped('strip_prefix', 'str:starts_with')
    M[_t + '::strip_suffix'] = stripped('strip_suffix', 'str:ends_with')


@model('Bytes::copy_from_slice')
def bytes_copy(ip, st, c):
    return [(st, op('copy', ip.snap(st, c.args[0])))]


# adaptors: values of the model crate
def adaptor(name, nargs, extra=()):
    def f(ip, st, c):
        if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
            return None
        v = c.args[0]
        if v.t in ('ref', 'cref'):
            loc, proj = ip.target(st, v)
            x = ip.rd(st, loc, proj)
        return [(st, mk('adt', 'vmodels::' + name, 0, tuple(c.args[:nargs]) + tuple(extra)))]
    return f


for _n, _k, _e in (('map', 'Map', ()), ('filter', 'Filter', ()), ('filter_map', 'FilterMap', ()), ('map_while', 'MapWhile', ()),
                   ('take_while', 'TakeWhile', (I(0),)), ('skip_while', 'SkipWhile', (I(0),)), ('inspect', 'Inspect', ())):
    M['Iterator::' + _n] = adaptor(_k, 2, _e)
_take = adaptor('Take', 2)


def it_take(ip, st, c):
    v, n = c.args[0], c.args[1]
    if v.t == 'it' and v.a[2] == 0 and ip.len_of(st, v.a[0]) is n:
        # as many as there are
        return [(st, v)]
    return _take(ip, st, c)


M['Iterator::take'] = it_take
M['Iterator::skip'] = adaptor('Skip', 2)
M['Iterator::enumerate'] = adaptor('Enumerate', 1, (I(0),))
M['Iterator::peekable'] = adaptor('Peekable', 1, (NONE,))


def step_by(ip, st, c):
    x, k = c.args[0], c.args[1]
    if x.t == 'adt' and x.a[0] == RANGE and k.t == 'i' and k.a[0] > 0 and all(y.t == 'i' for y in x.a[2]):
        ns = range(x.a[2][0].a[0], x.a[2][1].a[0], k.a[0])
        if len(ns) <= 64:
            return [(st, mkit(mk('arr', tuple(I(n) for n in ns)), 'val'))]
    if x.t == 'it' and k.t == 'i' and k.a[0] > 0 and x.a[2] == 0 and items(x.a[0]) is not None:
        return [(st, mkit(mk('arr', tuple(items(x.a[0])[::k.a[0]])), x.a[1]))]
    return None


M['Iterator::step_by'] = step_by
M['Iterator::by_ref'] = ident
M['Iterator::fuse'] = ident
M['from_fn::from_fn'] = M['iter::from_fn'] = lambda ip, st, c: [(st, mk('adt', 'vmodels::FromFn', 0, (c.args[0],)))]
M['once::once'] = M['iter::once'] = lambda ip, st, c: [(st, mkit(mk('arr', (c.args[0],)), 'val'))]
M['empty::empty'] = M['iter::empty'] = lambda ip, st, c: [(st, mkit(mk('arr', ()), 'val'))]


@model('Iterator::cloned', 'Iterator::copied')
def it_cloned(ip, st, c):
    v = c.args[0]
    if v.t == 'it' and v.a[1] == 'ref':
        return [(st, mkit(v.a[0], 'val', v.a[2]))]
    return [(st, mk('adt', 'vmodels::Cloned', 0, (v,)))]


@model('Iterator::rev', 'DoubleEndedIterator::rev')
def it_rev(ip, st, c):
    v = c.args[0]
    if v.t == 'it' and v.a[2] == 0:
        its = items(v.a[0])
        if its is not None:
            return [(st, mkit(mk('arr', tuple(reversed(its))), v.a[1]))]
        return [(st, mkit(op('rev', v.a[0]), v.a[1]))]
    return [(st, op('rev', v))]


@model('Iterator::zip')
def it_zip(ip, st, c):
    b = c.args[1]
    if not isiter(b):
        b = mkit(*srclist(ip, st, b))
    return [(st, mk('adt', 'vmodels::Zip', 0, (c.args[0], b)))]


@model('Iterator::chain')
def it_chain(ip, st, c):
    b = c.args[1]
    if not isiter(b):
        b = mkit(*srclist(ip, st, b))
    return [(st, mk('adt', 'vmodels::Chain', 0, (Some(c.args[0]), b)))]


@model('Iterator::next', 'vmodels::It::nx', 'It::nx', 'DoubleEndedIterator::next_back')
def it_next(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    v = c.args[0]
    loc, proj, x = place_of(ip, st, v)
    if x.t == 'adt' and x.a[0].startswith('vmodels::'):
        return nx_push(ip, st, c, x.a[0], ip.mkref(loc, proj))
    if x.t == 'adt' and x.a[0] == RANGE:
        lo, hi = x.a[2]
        outs = []
        for s2, d in ip.split(st, ip.cmp(st, 'Lt', lo, hi)):
            if d:
                l2, p2, x2 = place_of(ip, s2, v)
                lo2 = x2.a[2][0]
                ip.wr(s2, l2, p2, mk('adt', RANGE, 0, (lin(lo2, 1), x2.a[2][1])))
                s2.ev('next', op('range', hi), lo2)
                outs.append((s2, Some(lo2)))
            else:
                s2.ev('end', op('range', hi))
                outs.append((s2, NONE))
        return outs
    if x.t == 'adt' and x.a[0] == OPT:
        ip.wr(st, loc, proj, NONE)
        return [(st, x)]
    if x.t == 'adt' and x.a[0].startswith('haproxy'):
        # an iterator of the analysed crates
        for d in ip.w.dumps:
            for fn in d.fns:
                s = fn.get('self')
                if fn['path'].endswith('::next') and isinstance(s, str) and s.split('<')[0] == x.a[0]:
                    return ip.push(st, d, fn['key'], [ip.mkref(loc, proj)], c.dest)
        return None
    if x.t == 'it':
        src, mode, i = x.a
        its = items(src)
        if its is not None:
            if i < len(its):
                ip.wr(st, loc, proj, mkit(src, mode, i + 1))
                st.ev('next', src, its[i])
                return [(st, Some(its[i] if mode == 'val' else mk('cref', its[i])))]
            st.ev('end', src)
            return [(st, NONE)]
        if src.t == 'op' and src.a[0] == 'slice_n' and src.a[2].t == 'i' and src.a[2].a[0] <= 16 and not has_el(src):
            # a slice of a known length
            if i < src.a[2].a[0]:
                ip.wr(st, loc, proj, mkit(src, mode, i + 1))
                e = mk('idx', src, I(i))
                st.ev('next', src, e)
                return [(st, Some(e if mode == 'val' else mk('cref', e)))]
            st.ev('end', src)
            return [(st, NONE)]
        return sym_next(ip, st, c, loc, proj, x)
    # unknown iterator
    ip.wr(st, loc, proj, mkit(x, 'val', 0))
    return sym_next(ip, st, c, loc, proj, mkit(x, 'val', 0))


def sym_next(ip, st, c, loc, proj, x):
    s2 = st.fork()
    # no item
    s2.ev('end', x.a[0])
    ip.wr(s2, loc, proj, mkit(mk('arr', ()), x.a[1], 0))
    el = ip.fresh(st, 'el', x.a[0] if not has_el(x.a[0]) else sym('inner', *here(st, c)))
    src = ip.rd(st, loc, proj).a[0]
    e = el
    mode = x.a[1]
    if src.t == 'op' and src.a[0] == 'range':
        pass
    st.ev('next', src, el)
    ip.wr(st, loc, proj, mkit(src, mode, 1))
    if mode == 'val':
        return [(st, Some(e)), (s2, NONE)]
    return [(st, Some(mk('cref', e))), (s2, NONE)]


def has_el(v):
    return any(s.a[0] in ('el', 'old', 'older') for s in v.syms)


def nx_push(ip, st, c, path, ref, dest=None):
    for d in ip.w.dumps:
        if d.crate != 'vmodels':
            continue
        for fn in d.fns:
            s = fn.get('self')
            if fn.get('impl_of') == 'vmodels::It' and isinstance(s, str) and s.split('<')[0] == path:
                return ip.push(st, d, fn['key'], [ref], dest or c.dest, tag='nx')
    return None


def vpushm(ip, st, c, name, args, mode='call', x=None, dest=None):
    for d in ip.w.dumps:
        if d.crate == 'vmodels':
            for fn in d.fns:
                if fn['path'] == 'vmodels::' + name:
                    return ip.push(st, d, fn['key'], args, dest or c.dest, tag=name, mode=mode, x=x)
    raise Abort('no model ' + name)


def consumer(name, byref):
    def f(ip, st, c):
        if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
            return None
        args = list(c.args)
        v = args[0]
        if not byref:
            args[0] = v
        return vpushm(ip, st, c, name, args)
    return f


for _n in ('for_each', 'fold', 'count', 'last'):
    M['Iterator::' + _n] = consumer(_n, False)
for _n in ('any', 'all', 'find', 'find_map', 'position'):
    M['Iterator::' + _n] = consumer(_n, True)
M['Iterator::sum'] = consumer('sum', False)


@model('Iterator::try_for_each')
def it_tfe(ip, st, c):
    r = c.rty
    nm = 'try_for_each_option' if r and r.get('path') == OPT else 'try_for_each_result'
    return vpushm(ip, st, c, nm, c.args)


@model('Iterator::try_fold')
def it_tf(ip, st, c):
    r = c.rty
    nm = 'try_fold_option' if r and r.get('path') == OPT else 'try_fold_result'
    return vpushm(ip, st, c, nm, c.args)


@model('Peekable::peek')
def peek(ip, st, c):
    return vpushm(ip, st, c, 'peek', c.args)


@model('Iterator::size_hint')
def size_hint(ip, st, c):
    return [(st, tup(I(0), NONE))]


@model('Extend::extend')
def extend(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    src = c.args[1]
    it = src if isiter(src) else mkit(*srclist(ip, st, src))
    if it.t == 'it' and it.a[2] == 0:
        loc, proj, x = place_of(ip, st, c.args[0])
        y = it.a[0]
        st.ev('append', x, y, c.span)
        if items(x) is not None and items(y) is not None and len(items(x)) + len(items(y)) <= 8:
            ip.wr(st, loc, proj, mk('coll', x.a[0], mk('tup', items(x) + items(y))))
        elif items(x) == ():
            ip.wr(st, loc, proj, op('copy', y))
        else:
            ip.wr(st, loc, proj, op('concat', x, y))
        return [(st, UNIT)]
    return vpushm(ip, st, c, 'extend', [c.args[0], it])


def collapsible(it):
    return it.t == 'it' and it.a[2] == 0


def flat(it):
    """the lists that are chained, when each is taken as it is"""
    if collapsible(it):
        return [it.a[0]]
    if it.t == 'adt' and it.a[0] == 'vmodels::Chain':
        a, b = it.a[2]
        if a.t == 'adt' and a.a[0] == OPT and a.a[1] == 1:
            a, b = flat(a.a[2][0]), flat(b)
            return None if a is None or b is None else a + b
    return None


def collect_ty(dump, t):
    """what an iterator is collected into"""
    if t is None or t['k'] != 'adt':
        return ('coll',)
    p = t['path']
    last = p.split('::')[-1]
    if p == OPT:
        return ('opt', t['args'][0])
    if p == RES:
        return ('res', t['args'][0])
    if last in ('Vec', 'VecDeque', 'Box', 'Arc', 'Bytes', 'BytesMut'):
        return ('coll',)
    if last in ('HashSet', 'BTreeSet'):
        return ('set',)
    if last in ('HashMap', 'BTreeMap', 'HeaderMap', 'DashMap'):
        return ('map',)
    if last == 'String':
        return ('string',)
    if p.startswith('haproxy'):
        return ('user', p)
    return ('coll',)


@model('Iterator::collect', 'FromIterator::from_iter')
def collect(ip, st, c):
    if c.name.endswith('from_iter') and ('inst' in c.fd and c.fd['inst'].startswith('haproxy')):
        return None
    k = collect_ty(c.dump, c.rty)
    it = c.args[0]
    if not isiter(it):
        if it.t == 'adt' and it.a[0].startswith('haproxy'):
            pass
        else:
            it = mkit(*srclist(ip, st, it)) if it.t != 'ref' or not isiter(ip.peel(st, it)) else it
    return collect_as(ip, st, c, k, it, c.dest)


def collect_as(ip, st, c, k, it, dest):
    if k[0] in ('coll', 'set', 'map', 'string'):
        if collapsible(it):
            src = it.a[0]
            tag = {'coll': 'list', 'set': 'set', 'map': 'map', 'string': 'string'}[k[0]]
            its = items(src)
            if its is not None and tag == 'list':
                return [(st, mk('coll', sym('coll', *here(st, c)), mk('tup', its)))]
            return [(st, op(tag, src))]
        if k[0] == 'coll':
            srcs = flat(it)
            if srcs is not None and all(x.t != 'coll' or items(x) is not None for x in srcs):
                r = srcs[0]
                for y in srcs[1:]:
                    st.ev('concat', r, y, c.span)
                    r = op('concat', r, y)
                return [(st, r)]
        return vpushm(ip, st, c, 'collect_into', [it, newcoll(st, c, k[0])])
    if k[0] == 'user':
        for d in ip.w.dumps:
            for fn in d.fns:
                s = fn.get('self')
                if fn['path'].endswith('::from_iter') and isinstance(s, str) and s.split('<')[0] == k[1]:
                    return ip.push(st, d, fn['key'], [it], dest)
        return None
    if k[0] in ('opt', 'res'):
        inner = collect_ty(c.dump, c.dump.types[k[1]])
        nm = 'collect_option' if k[0] == 'opt' else 'collect_result'
        if collapsible(it) and it.a[0].t != 'arr':
            pass
        cont = Cont(k_collect, inner, c.dump.crate)
        return vpushm(ip, st, c, nm, [it, newcoll(st, c, k[0])], mode='ctl', x=cont)
    return None


def k_collect(ip, st, v, fr, inner, crate):
    """the items were collected into a list inside Option/Result: build the real thing"""
    good = v.t == 'adt' and ((v.a[0] == OPT and v.a[1] == 1) or (v.a[0] == RES and v.a[1] == 0))
    if not good or inner[0] in ('coll', 'set', 'string'):
        return setdest(ip, st, fr, v)
    lst = v.a[2][0]
    if inner[0] == 'map':
        return setdest(ip, st, fr, mk('adt', v.a[0], v.a[1], (op('map', lst),)))
    if inner[0] == 'user':
        for d in ip.w.dumps:
            for fn in d.fns:
                s = fn.get('self')
                if fn['path'].endswith('::from_iter') and isinstance(s, str) and s.split('<')[0] == inner[1]:
                    ip.callbb = ('collect', fr.fid)
                    r = ip.push(st, d, fn['key'], [mkit(lst, 'val')], fr.dest, tag='fi', mode='ctl', x=Cont(k_wrap, v.a[0], v.a[1]))
                    return r
    return setdest(ip, st, fr, v)


def k_wrap(ip, st, v, fr, path, vi):
    return setdest(ip, st, fr, mk('adt', path, vi, (v,)))


# ------------------------------------------------------------- futures
def pinned(ip, st, v):
    """place of the future behind Pin<&mut F> / &mut F"""
    n = 0
    while v.t == 'adt' and v.a[0].endswith('pin::Pin') and n < 8:
        v = v.a[2][0]
        n += 1
    if v.t == 'box':
        return None, None, v
    loc, proj = ip.target(st, v)
    x = ip.rd(st, loc, proj)
    n = 0
    while n < 12:
        n += 1
        if x.t in ('ref', 'cref'):
            loc, proj = ip.target(st, x)
        elif x.t == 'adt' and x.a[0].endswith('pin::Pin'):
            if x.a[2][0].t == 'box':
                proj = proj + (('f', 0, None), ('b',))
            else:
                loc, proj = ip.target(st, x.a[2][0])
        elif x.t == 'box':
            proj = proj + (('b',),)
        else:
            break
        x = ip.rd(st, loc, proj)
    return loc, proj, x


FUT = {}


def fut(*kinds):
    def d(f):
        for k in kinds:
            FUT[k] = f
        return f
    return d


def mkfut(kind, *a):
    return mk('fut', kind, *a)


@model('Future::poll', 'FutureExt::poll_unpin', 'vmodels::prim_poll', 'TryFuture::try_poll')
def poll(ip, st, c):
    loc, proj, x = pinned(ip, st, c.args[0])
    return poll_at(ip, st, c, loc, proj, x)


def poll_at(ip, st, c, loc, proj, x):
    if x.t == 'cor':
        return ip.poll_cor(st, loc, proj, c.dest)
    if x.t == 'fut':
        f = FUT.get(x.a[0])
        if f is None:
            raise Abort('future ' + x.a[0])
        return f(ip, st, c, loc, proj, x)
    if x.t == 'adt':
        p = x.a[0]
        if p == 'vmodels::Timeout':
            r = ip.mkref(loc, proj + (('f', 0, None),))
            d = ip.mkref(loc, proj + (('f', 1, None),))
            return vpushm(ip, st, c, 'timeout_poll', [r, d])
        if p == 'vmodels::UntilCancelled':
            r = ip.mkref(loc, proj + (('f', 0, None),))
            d = ip.mkref(loc, proj + (('f', 1, None),))
            return vpushm(ip, st, c, 'until_cancelled_poll', [r, d])
        if p.endswith('poll_fn::PollFn'):
            clo = ip.mkref(loc, proj + (('f', 0, None),))
            return ip.call_value(st, c, clo, (sym('cx'),))
        if p.startswith('haproxy'):
            for d in ip.w.dumps:
                for fn in d.fns:
                    s = fn.get('self')
                    if fn.get('impl_of', '') and str(fn['impl_of']).endswith('Future') and isinstance(s, str) and s.split('<')[0] == p:
                        return ip.push(st, d, fn['key'], [adt('core::pin::Pin', 0, ip.mkref(loc, proj)), sym('cx')], c.dest)
        if p.endswith('ready::Ready'):
            return [(st, Ready(x.a[2][0].a[2][0] if x.a[2][0].t == 'adt' and x.a[2][0].a[2] else x.a[2][0]))]
    # a future the analysis knows nothing about
    s2 = st.fork()
    r = ip.fresh(st, 'out', *here(st, c))
    st.ev('poll', x, r)
    s2.ev('WAIT', x, under(ip, s2))
    return [(st, Ready(r)), (s2, PENDING)]


def under(ip, st):
    """durations of the timeouts around the current call"""
    ds = []
    for f in st.fr:
        if f.body.path.endswith('timeout_poll'):
            d = st.mem.get(('l', f.fid, 2))
            ds.append(ip.peel(st, d) if d is not None else sym('?'))
    return tuple(ds)


@model('vmodels::prim_elapsed')
def prim_elapsed(ip, st, c):
    d = ip.peel(st, c.args[0])
    s2 = st.fork()
    st.ev('elapsed', d)
    return [(st, TRUE), (s2, FALSE)]


@model('timeout::timeout', 'time::timeout', 'timeout::timeout_at')
def timeout(ip, st, c):
    if 'timeout' in c.name and c.name.startswith('haproxy'):
        return None
    d = c.args[0]
    if c.name.endswith('timeout_at'):
        # until a moment that is given as so long from now
        q = ip.snap(st, d)
        for _ in range(3):
            if q.t == 'op' and str(q.a[0]).startswith('call:') and str(q.a[0]).split('::')[-1] in ('from_std', 'into', 'from') and len(q.a) == 2:
                q = q.a[1]
        if q.t == 'op' and str(q.a[0]).endswith('Add::add') and len(q.a) == 3 and q.a[1].t == 'op' and str(q.a[1].a[0]).endswith('Instant::now'):
            d = q.a[2]
    return [(st, mk('adt', 'vmodels::Timeout', 0, (c.args[1], d)))]


@model('poll_fn::poll_fn')
def poll_fn(ip, st, c):
    return [(st, mk('adt', 'core::future::poll_fn::PollFn', 0, (c.args[0],)))]


@model('future::ready', 'ready::ready')
def fready(ip, st, c):
    return [(st, mkfut('ready', c.args[0]))]


@fut('ready')
def p_ready(ip, st, c, loc, proj, x):
    ip.wr(st, loc, proj, mkfut('done'))
    return [(st, Ready(x.a[1]))]


@fut('done')
def p_done(ip, st, c, loc, proj, x):
    return [ip.panic(st, 'polled after completion', c.span)]


@fut('pending')
def p_pending(ip, st, c, loc, proj, x):
    return [(st, PENDING)]


model('future::get_context', 'core::future::get_context')(lambda ip, st, c: [(st, sym('cx'))])
model('ResumeTy')(ident)


@model('Pin::new', 'Pin::new_unchecked')
def pin_new(ip, st, c):
    return [(st, adt('core::pin::Pin', 0, c.args[0]))]


@model('Pin::as_mut', 'Pin::as_ref')
def pin_as_mut(ip, st, c):
    loc, proj = ip.target(st, c.args[0])
    x = ip.rd(st, loc, proj)
    if x.t == 'adt' and x.a[0].endswith('pin::Pin'):
        p = x.a[2][0]
        if p.t == 'box':
            return [(st, adt('core::pin::Pin', 0, ip.mkref(loc, proj + (('f', 0, None), ('b',)))))]
        return [(st, x)]
    return [(st, x)]


@model('Pin::get_mut', 'Pin::get_unchecked_mut', 'Pin::get_ref', 'Pin::into_inner_unchecked')
def pin_get(ip, st, c):
    x = c.args[0]
    if x.t == 'adt' and x.a[0].endswith('pin::Pin'):
        return [(st, x.a[2][0])]
    return [(st, mk('fld', x, None, 0))]


@model('Pin::map_unchecked_mut')
def pin_map(ip, st, c):
    x = c.args[0]
    p = x.a[2][0] if x.t == 'adt' else mk('fld', x, None, 0)
    return callthen(ip, st, c, c.args[1], (p,), Cont(k_pin))


def k_pin(ip, st, v, fr):
    return setdest(ip, st, fr, adt('core::pin::Pin', 0, v))


@model('Pin::set')
def pin_set(ip, st, c):
    loc, proj, x = pinned(ip, st, c.args[0])
    ip.wr(st, loc, proj, c.args[1])
    return [(st, UNIT)]


# tokio::select!
@model('support::thread_rng_n', 'rand::thread_rng_n')
def rng_n(ip, st, c):
    n = c.args[0]
    if n.t == 'i' and n.a[0] <= 8:
        outs = []
        for i in range(n.a[0]):
            outs.append((st.fork(), I(i)))
        return outs
    v = ip.fresh(st, 'rng', *here(st, c))
    return [(st, v)]


@model('support::poll_budget_available', 'coop::poll_proceed')
def budget(ip, st, c):
    return [(st, Ready(UNIT))]


# ------------------------------------------------------------- I/O
IOERR = ('io',)


def io(kind, ok):
    def f(ip, st, c):
        tgt = ip.snap(st, c.args[0])
        arg = c.args[1] if len(c.args) > 1 else UNIT
        return [(st, mkfut(kind, ioid(ip, st, c.args[0]), arg))]
    return f


def ioid(ip, st, v):
    """a name for the stream behind references and pins"""
    n = 0
    while n < 12:
        n += 1
        if v.t == 'adt' and v.a[0].endswith('pin::Pin'):
            v = v.a[2][0]
        elif v.t in ('ref', 'cref'):
            v = ip.deref(st, v)
        elif v.t == 'fld' and v.a[2] == '*' and False:
            break
        else:
            break
    return v


for _k in ('read_u8', 'read_u16', 'read_u32', 'read_u64', 'read_u32_le', 'read_u16_le', 'read_u64_le', 'read_exact', 'read', 'read_buf', 'read_to_end', 'read_i32'):
    M['AsyncReadExt::' + _k] = io(_k, None)
for _k in ('write_all', 'write', 'write_buf', 'write_all_buf', 'flush', 'shutdown', 'write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_u32_le', 'write_u64_le', 'write_vectored'):
    M['AsyncWriteExt::' + _k] = io('w:' + _k if _k.startswith('write') else _k, None)


def ioresult(ip, st, c, loc, proj, okv, name, *evargs):
    """Ready(Ok) / Ready(Err) / Pending"""
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('io', name, 'ok', *evargs)
    s2.ev('io', name, 'err', *evargs)
    s3.ev('WAIT', 'io:' + name, under(ip, s3))
    return [(st, Ready(Ok(okv))), (s2, Ready(Err(sym('ioerr', name)))), (s3, PENDING)]


def p_readint(bits, le):
    def f(ip, st, c, loc, proj, x):
        v = ip.fresh(st, 'wire', *here(st, c))
        hint(v, 0, (1 << bits) - 1)
        x = ip.rd(st, loc, proj)
        return ioresult(ip, st, c, loc, proj, v, x.a[0], x.a[1], v)
    return f


for _b in (8, 16, 32, 64):
    FUT['read_u%d' % _b] = p_readint(_b, False)
    FUT['read_u%d_le' % _b] = p_readint(_b, True)
FUT['read_i32'] = p_readint(32, False)


@fut('read_exact')
def p_read_exact(ip, st, c, loc, proj, x):
    dst = x.a[2]
    n = length(ip, st, ip.peel(st, dst))
    l2, p2, old = place_of(ip, st, dst)
    if n.t == 'i' and n.a[0] == 4 and not (old.t == 'op' and old.a[0] == 'subslice'):
        # the four bytes of a number
        v = ip.fresh(st, 'wire', *here(st, c))
        hint(v, 0, (1 << 32) - 1)
        x = ip.rd(st, loc, proj)
        outs = ioresult(ip, st, c, loc, proj, n, 'read_u32', x.a[1], v)
        ip.wr(outs[0][0], l2, p2, op('slice_n', op('bytes_be', v, n), n))
        return outs
    outs = ioresult(ip, st, c, loc, proj, n, 'read_exact', x.a[1], n)
    s = outs[0][0]
    body = op('slice_n', ip.fresh(s, 'wirebody', *here(s, c)), n)
    l2, p2, old = place_of(ip, s, dst)
    if old.t == 'op' and old.a[0] == 'subslice':
        l3, p3, base = wbuf(ip, s, old.a[1])
        ip.wr(s, l3, p3, op('patched_read', base, old.a[2], old.a[3], body))
    else:
        ip.wr(s, l2, p2, body)
    return outs


@fut('read', 'read_buf', 'read_to_end')
def p_read(ip, st, c, loc, proj, x):
    n = ip.fresh(st, 'nread', *here(st, c))
    x = ip.rd(st, loc, proj)
    dst = x.a[2]
    l2, p2, old = place_of(ip, st, dst)
    hi = 1 << 56
    if x.a[0] == 'read':
        hi = min(hi, ip.rng(st, length(ip, st, ip.peel(st, dst)))[1])
    for y in (n, sym('old', *n.a), sym('older', *n.a)):
        hint(y, 0, max(hi, 0))
    outs = ioresult(ip, st, c, loc, proj, n, x.a[0], x.a[1], n)
    s = outs[0][0]
    if x.a[0] == 'read':
        # the bytes are put into the buffer, which keeps its length
        if old.t == 'op' and old.a[0] == 'subslice':
            l2, p2, old = wbuf(ip, s, old.a[1])
        if not (old.t == 'op' and old.a[0] == 'slice_n' and old.a[1].t == 's' and old.a[1].a[0] == 'wirebody'):
            k = length(ip, s, old)
            ip.wr(s, l2, p2, op('slice_n', ip.fresh(s, 'wirebody', *here(s, c)), k))
        return outs
    while old.t == 'op' and old.a[0] == 'partly_read':
        old = old.a[1]
    ip.wr(s, l2, p2, op('partly_read', old, n))
    return outs


def p_write(ip, st, c, loc, proj, x):
    nm = x.a[0][2:] if x.a[0].startswith('w:') else x.a[0]
    v = ip.snap(st, x.a[2])
    n = UNIT
    if nm in ('write', 'write_buf', 'write_vectored'):
        n = ip.fresh(st, 'nwritten', *here(st, c))
        hint(n, 0, (1 << 63) - 1)
        x = ip.rd(st, loc, proj)
        v = ip.snap(st, x.a[2])
    outs = ioresult(ip, st, c, loc, proj, n, nm, x.a[1], v, n)
    if nm == 'write_buf':
        l2, p2, old = place_of(ip, st, x.a[2])
        while old.t == 'op' and old.a[0] == 'partly_written':
            old = old.a[1]
        ip.wr(outs[0][0], l2, p2, op('partly_written', old, n))
    return outs


for _k in ('write_all', 'write', 'write_buf', 'write_all_buf', 'write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_u32_le', 'write_u64_le', 'write_vectored'):
    FUT['w:' + _k] = p_write
FUT['flush'] = FUT['shutdown'] = p_write


@model('BufReader::new', 'BufReader::with_capacity', 'BufWriter::new', 'BufStream::new', 'BufWriter::with_capacity')
def bufreader(ip, st, c):
    return [(st, op(c.name.split('::')[-2], c.args[-1]))]


@model('BufReader::get_mut', 'BufReader::get_ref', 'BufReader::into_inner')
def bufinner(ip, st, c):
    x = ip.peel(st, c.args[0])
    v = x.a[1] if x.t == 'op' and x.a[0].startswith('Buf') else op('inner', x)
    return [(st, v if c.name.endswith('inner') else mk('cref', v))]


# ------------------------------------------------------------- dyn Error / dyn Any
@model('dyn::downcast_ref', 'dyn::downcast_mut', 'dyn::is', 'Any::downcast_ref', 'Any::is', 'Any::downcast_mut')
def downcast(ip, st, c):
    want = strip_generics(str((c.fd.get('args') or ['?'])[-1]))
    x = c.args[0]
    if x.t == 'box':
        x = x.a[0]
    x = ip.peel(st, x)
    if x.t == 'box':
        x = ip.peel(st, x.a[0])
    isq = c.name.endswith('::is')
    if x.t == 'adt':
        yes = strip_generics(x.a[0]) == want
        if isq:
            return [(st, I(int(yes)))]
        return [(st, Some(c.args[0] if c.args[0].t == 'ref' and ip.deref(st, c.args[0]) is x else mk('cref', x)) if yes else NONE)]
    names, base = nest(x)
    if names.count('downcast') >= (3 if base.t == 's' and base.a == ('param', 'err') else 1):
        # the content of an error that came from outside is not looked at any deeper
        return [(st, FALSE if isq else NONE)]
    k = op('isa', x, mk('str', want))
    HINT[k] = (0, 1)
    if any(t.t == 'op' and t.a[0] == 'isa' and t.a[1] is x and t is not k and f[0] == 1 for t, f in st.facts.items()):
        # it is something else already
        return [(st, FALSE if isq else NONE)]
    outs = []
    for s, v in ip.split(st, k):
        if isq:
            outs.append((s, I(v)))
        else:
            outs.append((s, Some(mk('cref', op('downcast', x, mk('str', want)))) if v else NONE))
    return outs


def nest(x):
    r = []
    while True:
        if x.t == 'op' and len(x.a) > 1 and isinstance(x.a[1], V):
            r.append(x.a[0])
            x = x.a[1]
        elif x.t in ('fld', 'cref'):
            x = x.a[0]
        else:
            return r, x


# ------------------------------------------------------------- tower
@model('MakeService::poll_ready', 'Service::poll_ready', 'ServiceExt::ready_')
def svc_ready(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    kind = 'make' if 'MakeService' in c.name else svckind(ip, st, c)
    s = svcid(ip, st, c.args[0])
    s2, s3 = st.fork(), st.fork()
    e = sym('err', kind + '-ready')
    st.ev('SVC', kind, 'ready', s, c.span)
    s2.ev('SVC', kind, 'ready-err', s, c.span)
    s3.ev('WAIT', 'svc:' + kind + '-ready', under(ip, s3))
    return [(st, Ready(Ok(UNIT))), (s2, Ready(Err(e))), (s3, PENDING)]


def svcid(ip, st, v):
    return ioid(ip, st, v)


def svckind(ip, st, c):
    return 'svc'


@model('ServiceExt::ready', 'ServiceExt::ready_and')
def svc_ready_fut(ip, st, c):
    return [(st, mkfut('svcready', svcid(ip, st, c.args[0]), c.args[0]))]


@fut('svcready')
def p_svcready(ip, st, c, loc, proj, x):
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('SVC', 'svc', 'ready', x.a[1], c.span)
    s2.ev('SVC', 'svc', 'ready-err', x.a[1], c.span)
    s3.ev('WAIT', 'svc:svc-ready', under(ip, s3))
    return [(st, Ready(Ok(x.a[2]))), (s2, Ready(Err(sym('err', 'svc-ready')))), (s3, PENDING)]


@model('ServiceExt::oneshot')
def svc_oneshot(ip, st, c):
    s = svcid(ip, st, c.args[0])
    return [(st, mkfut('oneshot', s, c.args[1]))]


@fut('oneshot')
def p_oneshot(ip, st, c, loc, proj, x):
    st.ev('SVC', 'svc', 'ready', x.a[1], c.span)
    st.ev('SVC', 'svc', 'call', x.a[1], ip.snap(st, x.a[2]), c.span)
    ip.wr(st, loc, proj, mkfut('svccall', 'svc'))
    return FUT['svccall'](ip, st, c, loc, proj, mkfut('svccall', 'svc'))


@model('Service::call', 'MakeService::make_service')
def svc_call(ip, st, c):
    if 'inst' in c.fd and c.fd['inst'].startswith('haproxy'):
        return None
    kind = 'make' if 'MakeService' in c.name else 'svc'
    s = svcid(ip, st, c.args[0])
    st.ev('SVC', kind, 'call', s, ip.snap(st, c.args[1]), c.span)
    return [(st, mkfut('svccall', kind))]


@fut('svccall')
def p_svccall(ip, st, c, loc, proj, x):
    kind = x.a[1]
    v = ip.fresh(st, 'made' if kind == 'make' else 'answer')
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    e = sym('err', kind)
    st.ev('SVC', kind, 'ok', v)
    s2.ev('SVC', kind, 'err', e)
    s3.ev('WAIT', 'svc:' + kind + '-call', under(ip, s3))
    return [(st, Ready(Ok(v))), (s2, Ready(Err(e))), (s3, PENDING)]


@model('service_fn::service_fn', 'util::service_fn')
def service_fn(ip, st, c):
    return [(st, mk('adt', 'tower::ServiceFn', 0, (c.args[0],)))]


# ------------------------------------------------------------- tokio sync, tasks
@model('RwLock::new', 'Mutex::new')
def lock_new(ip, st, c):
    return [(st, op('lock', c.args[0]))]


@model('RwLock::write', 'RwLock::read', 'Mutex::lock', 'RwLock::write_owned', 'Mutex::lock_owned')
def lock(ip, st, c):
    blocking = not ('tokio' in c.name or 'tokio' in str(c.fd.get('path')))
    x = ioid(ip, st, c.args[0])
    if blocking:
        st.ev('blocklock', x, c.span)
        g = op('guarded', x)
        return [(st, Ok(g) if 'std' in c.fd['path'] else g)]
    return [(st, mkfut('lock', x))]


@fut('lock')
def p_lock(ip, st, c, loc, proj, x):
    s3 = st.fork()
    s3.ev('WAIT', 'lock', under(ip, s3))
    ip.wr(st, loc, proj, mkfut('done'))
    g = mk('res', op('guarded', x.a[1]))
    return [(st, Ready(op('guarded', x.a[1]))), (s3, PENDING)]


@model('CancellationToken::cancelled', 'CancellationToken::cancelled_owned')
def cancelled(ip, st, c):
    return [(st, mkfut('cancelled', ioid(ip, st, c.args[0])))]


@fut('cancelled')
def p_cancelled(ip, st, c, loc, proj, x):
    s2 = st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    st.ev('CANCELLED', x.a[1])
    s2.ev('WAIT', 'cancelled', under(ip, s2))
    return [(st, Ready(UNIT)), (s2, PENDING)]


@model('CancellationToken::cancel')
def cancel(ip, st, c):
    st.ev('cancel-token', ioid(ip, st, c.args[0]), c.span)
    return [(st, UNIT)]


@model('CancellationToken::run_until_cancelled', 'CancellationToken::run_until_cancelled_owned')
def run_until_cancelled(ip, st, c):
    return [(st, mk('adt', 'vmodels::UntilCancelled', 0, (c.args[1], mkfut('cancelled', ioid(ip, st, c.args[0])))))]


@model('CancellationToken::is_cancelled')
def is_cancelled(ip, st, c):
    r = ip.fresh(st, 'iscancelled', *here(st, c))
    hint(r, 0, 1)
    outs = []
    for s2, d in ip.split(st, r):
        s2.ev('IS_CANCELLED', ioid(ip, s2, c.args[0]), d)
        outs.append((s2, I(d)))
    return outs


@model('CancellationToken::child_token')
def child(ip, st, c):
    return [(st, op('child', ioid(ip, st, c.args[0])))]


@model('CancellationToken::new')
def tok_new(ip, st, c):
    return [(st, op('token', sym('at', *here(st, c))))]


@model('TaskTracker::new')
def trk_new(ip, st, c):
    return [(st, op('tracker', sym('at', *here(st, c))))]


@model('TaskTracker::track_future')
def track(ip, st, c):
    return [(st, mkfut('tracked', ioid(ip, st, c.args[0]), c.args[1]))]


@fut('tracked')
def p_tracked(ip, st, c, loc, proj, x):
    raise Abort('tracked future polled in place')


@model('TaskTracker::spawn', 'TaskTracker::spawn_on')
def trk_spawn(ip, st, c):
    f = mkfut('tracked', ioid(ip, st, c.args[0]), c.args[1])
    st.ev('SPAWN', f, c.span)
    return [(st, mkfut('join', sym('at', *here(st, c))))]


@model('spawn::spawn', 'task::spawn', 'Builder::spawn', 'LocalSet::spawn_local', 'task::spawn_local', 'Handle::spawn')
def spawn(ip, st, c):
    if 'std' == c.name.split('::')[0]:
        return None
    st.ev('SPAWN', c.args[-1], c.span)
    j = mkfut('join', sym('at', *here(st, c)))
    return [(st, Ok(j) if 'Builder' in c.name else j)]


@fut('join')
def p_join(ip, st, c, loc, proj, x):
    # the outcome of another task: done, failed, or still running
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('JOIN', 'ok')
    s2.ev('JOIN', 'err')
    s3.ev('WAIT', 'join', under(ip, s3))
    v = ip.fresh(st, 'joined', *here(st, c))
    e = ip.fresh(st, 'err', 'join')
    return [(st, Ready(Ok(v))), (s2, Ready(Err(e))), (s3, PENDING)]


@model('JoinHandle::abort', 'AbortHandle::abort')
def j_abort(ip, st, c):
    st.ev('ABORT', ip.snap(st, c.args[0]), c.span)
    return [(st, UNIT)]


@model('TaskTracker::close', 'TaskTracker::reopen')
def trk_close(ip, st, c):
    st.ev('TRACKER', c.name.split('::')[-1], ioid(ip, st, c.args[0]))
    # a tracker is closed by this call the first time only; both answers are possible
    s2 = st.fork()
    return [(st, TRUE), (s2, FALSE)]


@model('TaskTracker::is_empty')
def trk_empty(ip, st, c):
    outs = []
    s2 = st.fork()
    t = ioid(ip, st, c.args[0])
    st.ev('TRACKER', 'empty', t)
    s2.ev('TRACKER', 'not-empty', t)
    return [(st, TRUE), (s2, FALSE)]


@model('TaskTracker::len')
def trk_len(ip, st, c):
    v = ip.fresh(st, 'tracked', *here(st, c))
    hint(v, 0, (1 << 63))
    return [(st, v)]


@model('TaskTracker::is_closed')
def trk_closed(ip, st, c):
    s2 = st.fork()
    return [(st, TRUE), (s2, FALSE)]


@model('TaskTracker::wait')
def trk_wait(ip, st, c):
    return [(st, mkfut('trackwait', ioid(ip, st, c.args[0])))]


@fut('trackwait')
def p_trackwait(ip, st, c, loc, proj, x):
    s2 = st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    st.ev('TRACKER', 'waited', x.a[1])
    s2.ev('WAIT', 'tracker', under(ip, s2))
    return [(st, Ready(UNIT)), (s2, PENDING)]


@model('TcpListener::accept', 'UnixListener::accept')
def accept(ip, st, c):
    return [(st, mkfut('accept', ioid(ip, st, c.args[0])))]


@fut('accept')
def p_accept(ip, st, c, loc, proj, x):
    v = ip.fresh(st, 'accepted')
    x = ip.rd(st, loc, proj)
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('ACCEPT', 'ok', v)
    s2.ev('ACCEPT', 'err')
    s3.ev('WAIT', 'accept', under(ip, s3))
    return [(st, Ready(Ok(tup(v, sym('peer'))))), (s2, Ready(Err(sym('ioerr', 'accept')))), (s3, PENDING)]


@model('sleep::sleep', 'time::sleep', 'time::sleep_until', 'sleep::sleep_until')
def sleep(ip, st, c):
    return [(st, mkfut('sleep', ip.snap(st, c.args[0])))]


@fut('sleep')
def p_sleep(ip, st, c, loc, proj, x):
    s2 = st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    st.ev('slept', x.a[1])
    s2.ev('WAIT', 'sleep', under(ip, s2))
    return [(st, Ready(UNIT)), (s2, PENDING)]


@model('yield_now::yield_now', 'task::yield_now')
def yield_now(ip, st, c):
    return [(st, mkfut('sleep', UNIT))]


@model('unbounded::unbounded_channel', 'mpsc::unbounded_channel')
def chan(ip, st, c):
    i = ip.fresh(st, 'chan', *here(st, c))
    st.ev('CHAN', i, c.span)
    return [(st, tup(op('tx', i), op('rx', i)))]


@model('bounded::channel', 'mpsc::channel')
def bchan(ip, st, c):
    i = ip.fresh(st, 'chan', *here(st, c))
    st.ev('CHAN', i, c.span)
    return [(st, tup(op('tx', i), op('rx', i)))]


@model('oneshot::channel')
def ochan(ip, st, c):
    i = ip.fresh(st, 'oneshot', *here(st, c))
    return [(st, tup(op('otx', i), op('orx', i)))]


@model('UnboundedSender::send', 'Sender::try_send')
def usend(ip, st, c):
    ch = ip.peel(st, c.args[0])
    v = c.args[1]
    s2 = st.fork()
    st.ev('SEND', ch, ip.snap(st, v), c.span)
    s2.ev('SEND-ERR', ch, ip.snap(st, v), c.span)
    outs = [(st, Ok(UNIT)), (s2, Err(adt('tokio::sync::mpsc::error::SendError', 0, v)))]
    return outs


@model('Sender::send')
def osend(ip, st, c):
    ch = ip.peel(st, c.args[0])
    v = ip.snap(st, c.args[1])
    if 'oneshot' in c.name:
        s2 = st.fork()
        st.ev('SEND', ch, v, c.span)
        s2.ev('SEND-ERR', ch, v, c.span)
        return [(st, Ok(UNIT)), (s2, Err(v))]
    return None


@model('UnboundedSender::is_closed', 'Sender::is_closed')
def isclosed(ip, st, c):
    r = ip.fresh(st, 'isclosed', *here(st, c))
    hint(r, 0, 1)
    return [(st, r)]


@model('UnboundedReceiver::poll_recv', 'Receiver::poll_recv')
def poll_recv(ip, st, c):
    ch = ip.peel(st, c.args[0])
    v = ip.fresh(st, 'recv')
    s2, s3 = st.fork(), st.fork()
    st.ev('RECV', 'item', ch, v)
    s2.ev('RECV', 'closed', ch)
    s3.ev('RECV', 'pending', ch, ip.peel(st, c.args[1]))
    return [(st, Ready(Some(v))), (s2, Ready(NONE)), (s3, PENDING)]


@model('UnboundedReceiver::try_recv', 'Receiver::try_recv')
def try_recv(ip, st, c):
    ch = ip.peel(st, c.args[0])
    v = ip.fresh(st, 'recv')
    s2, s3 = st.fork(), st.fork()
    p = 'tokio::sync::mpsc::error::TryRecvError'
    if p not in ADTS:
        ADTS[p] = {'kind': 'enum', 'variants': [{'name': 'Empty', 'discr': 0, 'fields': []}, {'name': 'Disconnected', 'discr': 1, 'fields': []}], 'drop': None}
    st.ev('RECV', 'item', ch, v)
    s2.ev('RECV', 'closed', ch)
    s3.ev('RECV', 'empty', ch)
    return [(st, Ok(v)), (s2, Err(adt(p, 1))), (s3, Err(adt(p, 0)))]


@model('UnboundedReceiver::is_empty', 'UnboundedReceiver::is_closed', 'UnboundedReceiver::len', 'UnboundedReceiver::sender_strong_count',
       'Receiver::is_empty', 'Receiver::is_closed', 'Receiver::len', 'Receiver::is_terminated')
def rlook(ip, st, c):
    # a look at the channel: nothing is taken out, and no waker is left with it
    nm = c.name.split('::')[-1]
    r = ip.fresh(st, nm, *here(st, c))
    hint(r, 0, 1 if nm.startswith('is_') else (1 << 64) - 1)
    return [(st, r)]


@model('UnboundedReceiver::close', 'Receiver::close')
def rclose(ip, st, c):
    st.ev('RECV', 'close', ip.peel(st, c.args[0]))
    return [(st, UNIT)]


@model('Waker::wake_by_ref', 'Waker::wake')
def wake(ip, st, c):
    st.ev('WAKE', ip.peel(st, c.args[0]))
    return [(st, UNIT)]


@model('Context::waker')
def waker(ip, st, c):
    return [(st, mk('cref', op('waker', ip.peel(st, c.args[0]))))]


# ------------------------------------------------------------- errors, formatting, tracing
def quiet(ip, st, c):
    """formatting and tracing: no effect on the program"""
    return [(st, op('fmt', *[ip.snap(st, a) for a in c.args]))]


@model('Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal', 'Argument::new_binary', 'Argument::new_lower_exp', 'Argument::new_upper_exp')
def new_hex(ip, st, c):
    return [(st, op('fmt:' + c.name.split('::new_')[-1], *[ip.snap(st, a) for a in c.args]))]


@model('anyhow::Error::new')
def anyhow_new(ip, st, c):
    return [(st, op('anyerr', *[ip.snap(st, a) for a in c.args]))]


QUIET = ('tracing', 'core::fmt', 'alloc::fmt', 'hexplay', 'std::fmt', 'log::')


class Models(dict):
    def get(self, name, d=None):
        f = dict.get(self, name)
        if f is not None:
            return f
        if name.startswith('haproxy'):
            return d
        ps = name.split('::')
        f = dict.get(self, '::'.join(ps[-2:]))
        if f is not None:
            return f
        if name.startswith(QUIET):
            return quiet_model
        return d


def quiet_model(ip, st, c):
    r = None
    if c.rty is not None and c.rty['k'] == 'bool':
        return [(st, FALSE)]
    if c.name.endswith('::is_none') or c.name.endswith('::is_disabled'):
        return [(st, TRUE)]
    if c.name.endswith('Interest::is_never') or c.name.endswith('is_always'):
        return [(st, FALSE)]
    if c.never:
        return None
    return quiet(ip, st, c)


MODELS = Models(M)
