"""Functions whose own bodies are analysed as roots of their own; where other
code calls them they stand for one event."""
from engine import *
from models import *

TYPED = 'haproxy_spop::data::typed::Typed'


def is_typed(t):
    return bool(t) and t['k'] == 'adt' and t['path'].endswith('::Typed')


def ret_is(c, path, inner=None):
    t = c.rty
    if not t or t['k'] != 'adt' or t['path'] != path:
        return False
    return inner is None or inner(c.dump.types[t['args'][0]])


def in_spop(c):
    return c.fd['path'].startswith('haproxy_spop') or str(c.fd.get('inst_path', '')).startswith('haproxy_spop')


def bufarg(ip, st, v):
    try:
        x = v if v.t == 'buf' else ip.peel(st, v)
    except Abort:
        return False
    if x.t == 'buf':
        return True
    return False


def read_item(ip, st, c, kind, rng=None, minlen=1):
    """an anchored reader: one item or failure, consuming an unknown part of the buffer"""
    s0 = st.fork()
    loc, proj, b = bufargs(ip, s0, c)
    outs = []
    # failure: some bytes may be gone
    bad = s0
    r0 = ip.fresh(bad, 'rem', kind, 'bad', *here(bad, c))
    hint(r0, 0, (1 << 63) - 1)
    loc, proj, b = bufargs(ip, bad, c)
    if loc is not None:
        ip.wr(bad, loc, proj, mk('buf', b.a[0], r0))
    bad.ev('Rfail', kind, b.a[0])
    outs.append((bad, NONE))
    loc, proj, b = bufargs(ip, st, c)
    lo, hi = ip.rng(st, b.a[1])
    if hi < minlen:
        return outs
    ip.setf(st, b.a[1], minlen, INF) if b.a[1].t != 'i' else None
    hi = ip.rng(st, b.a[1])[1]
    x = ip.fresh(st, 'rd', kind, *here(st, c))
    if rng:
        hint(x, *rng)
    r1 = ip.fresh(st, 'rem', kind, *here(st, c))
    hint(r1, 0, (1 << 63) - 1)
    loc, proj, b = bufargs(ip, st, c)
    if loc is not None:
        ip.wr(st, loc, proj, mk('buf', b.a[0], r1))
    st.ev('R', kind, x, b.a[0], None)
    outs.append((st, Some(x)))
    return outs


def called(c, what):
    """by its name or its module"""
    return what in c.fd['path'] or what in c.fd.get('inst_path', '') or what in c.fd['name']


def a_varint_get(ip, st, c):
    if called(c, 'varint') and len(c.args) == 1 and in_spop(c) and ret_is(c, OPT, lambda t: t['s'] == 'u64') and bufarg(ip, st, c.args[0]):
        if ip.opts.get('root') and ip.opts['root'](c):
            return None
        return read_item(ip, st, c, 'varint', (0, (1 << 64) - 1))


def a_typed_get(ip, st, c):
    if called(c, 'typed') and len(c.args) == 1 and in_spop(c) and ret_is(c, OPT, is_typed) and bufarg(ip, st, c.args[0]):
        return read_item(ip, st, c, 'typed')


def argty(c, i):
    """type entry of argument i of a haproxy function"""
    return None


def wtarget(ip, st, v):
    try:
        loc, proj, x = wbuf(ip, st, v)
    except Abort:
        return False
    return x.t == 'wb' or (x.t in ('s', 'fld') and 'param' == base_sym(x))


def base_sym(x):
    while x.t == 'fld':
        x = x.a[0]
    return x.a[0] if x.t == 's' else None


def a_varint_put(ip, st, c):
    if called(c, 'varint') and len(c.args) == 2 and in_spop(c) and c.rty and c.rty['s'] == 'usize' and c.args[0].t in ('ref', 's', 'fld') and isnum(ip, c.args[1]) and wtarget(ip, st, c.args[0]):
        n = op('vsize', c.args[1])
        HINT.setdefault(n, (1, 10))
        put(ip, st, c, 'varint', c.args[1], n)
        return [(st, n)]


def a_varint_size(ip, st, c):
    if len(c.args) == 1 and in_spop(c) and c.fd['name'] == 'size_of' and c.rty and c.rty['s'] == 'usize' and isnum(ip, c.args[0]):
        n = op('vsize', c.args[0])
        HINT.setdefault(n, (1, 10))
        return [(st, n)]


def isnum(ip, v):
    return v.t in ('i', 'lin') or v in HINT and HINT[v][1] >= 0 and v.t not in ('adt', 'tup', 'ref')


def a_typed_put(ip, st, c):
    if len(c.args) == 2 and in_spop(c) and c.rty and c.rty['s'] == 'usize' and c.fd['name'] == 'put_typed' and wtarget(ip, st, c.args[0]):
        v = c.args[1]
        if v.t == 'adt' and v.a[0].endswith('::Typed'):
            return None
        ta = c.fd.get('args') or []
        if ta and ta[-1].endswith('Typed'):
            v = ip.snap(st, v)
            n = op('tsize', v)
            HINT.setdefault(n, (1, (1 << 63)))
            put(ip, st, c, 'typed', v, n)
            return [(st, n)]


READ_ANCHORS = [a_varint_get, a_typed_get]
WRITE_ANCHORS = [a_varint_put, a_typed_put]


def selfname(c):
    s = c.fd.get('self')
    if s is None:
        return ''
    t = c.dump.types[s] if isinstance(s, int) else None
    while t and t['k'] == 'ref':
        t = c.dump.types[t['to']] if 'to' in t else None
    return strip_generics(t['path'] if t and 'path' in t else '').split('::')[-1]


def framer_call(c, name):
    p = c.fd['path'].split('::')
    return p[-1] == name and (selfname(c) == 'Framer' or 'framer' in p)


def a_frame_read(ip, st, c):
    if framer_call(c, 'read_frame') and len(c.args) == 2 and in_spop(c):
        fr = ip.snap(st, c.args[0])
        if fr.t == 'adt' and fr.a[0].endswith('Framer'):
            return [(st, mkfut('READ', ioid(ip, st, c.args[1]), fr.a[2][0]))]


def a_frame_write(ip, st, c):
    if framer_call(c, 'write_frame') and len(c.args) == 3 and in_spop(c):
        fr = ip.snap(st, c.args[0])
        if fr.t == 'adt' and fr.a[0].endswith('Framer'):
            return [(st, mkfut('WRITE', ioid(ip, st, c.args[1]), fr.a[2][0], ip.snap(st, c.args[2])))]


@fut('READ')
def p_frame_read(ip, st, c, loc, proj, x):
    v = ip.fresh(st, 'frame', *here(st, c))
    e = ip.fresh(st, 'rstatus', *here(st, c))
    x = ip.rd(st, loc, proj)
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('READ', 'ok', v, x.a[1], x.a[2])
    s2.ev('READ', 'err', e, x.a[1], x.a[2])
    s3.ev('WAIT', 'READ', under(ip, s3))
    return [(st, Ready(Ok(v))), (s2, Ready(Err(e))), (s3, PENDING)]


@fut('WRITE')
def p_frame_write(ip, st, c, loc, proj, x):
    n = ip.fresh(st, 'sent', *here(st, c))
    hint(n, 0, (1 << 63) - 1)
    e = ip.fresh(st, 'wstatus', *here(st, c))
    x = ip.rd(st, loc, proj)
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('WRITE', 'ok', x.a[3], x.a[1], x.a[2])
    s2.ev('WRITE', 'err', x.a[3], e, x.a[2])
    s3.ev('WAIT', 'WRITE', under(ip, s3))
    return [(st, Ready(Ok(n))), (s2, Ready(Err(e))), (s3, PENDING)]


SERVE_ANCHORS = [a_frame_read, a_frame_write]


def a_conn_serve(ip, st, c):
    p = c.fd['path'].split('::')
    if p[-1] == 'serve' and selfname(c) == 'Connection' and len(c.args) == 1:
        return [(st, mkfut('CONN', c.args[0], ip.snap(st, c.args[0])))]


@fut('CONN')
def p_conn_serve(ip, st, c, loc, proj, x):
    x = ip.rd(st, loc, proj)
    e = ip.fresh(st, 'err', 'conn')
    s2, s3 = st.fork(), st.fork()
    ip.wr(st, loc, proj, mkfut('done'))
    ip.wr(s2, loc, proj, mkfut('done'))
    st.ev('CONN', 'ok', x.a[2])
    s2.ev('CONN', 'err', x.a[2])
    s3.ev('WAIT', 'CONN', under(ip, s3))
    return [(st, Ready(Ok(UNIT))), (s2, Ready(Err(e))), (s3, PENDING)]


AGENT_ANCHORS = [a_conn_serve]
