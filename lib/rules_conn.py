"""Rules for a connection: what it reads, calls and writes, followed over every path of
Connection::serve (with the state handlers, the negotiation and the reassembly inlined)."""
from rules_wire import *


# ------------------------------------------------------------- vocabulary
class Conn:
    """names of the things a connection deals with"""

    def __init__(self, c):
        self.c = c
        self.g = c.graph('serve')
        self.fp = frame_path()
        self.kinds, self.kidx = variants(self.fp)
        self.rt = adt_path('runtime::runtime::Runtime', '::Runtime')
        self.rtf = {n: i for i, n in enumerate(ADTS[self.rt]['variants'][0]['fields'])}

    def runtime_field(self, v):
        """name of the field of the runtime a value is, or None"""
        v = uncast(v)
        if v.t == 'fld' and v.a[0].t == 'fld' and v.a[0].a[2] == '*' and v.a[0].a[0].t == 's' and v.a[0].a[0].a[0] == 'param':
            for n, i in self.rtf.items():
                if i == v.a[2] and v.a[1] is None:
                    return n
        return None

    def runtime_fields(self, v):
        return {self.runtime_field(x) for x in walk(v)} - {None}

    def payload(self, frame, kind):
        return mk('fld', frame, self.kidx[kind], 0)

    def field(self, frame, kind, name):
        return fieldof(self.payload(frame, kind), struct_path(kind), name)

    def fields_of(self, v, frame, kind, names):
        """which of the fields of a frame a value mentions"""
        return {n for n in names if mentions(young(v), young(self.field(frame, kind, n)))}

    # ---- following the frame that is being handled
    START = dict(frame=None, kind=None, n=0, brs=())

    def follow(self, a, e):
        k = e[0]
        if k == 'READ':
            if e[1] == 'ok':
                return a.set(frame=e[2], kind=None, n=min(a.n + 1, 2), brs=())
            return a.set(frame=None, kind='error', n=min(a.n + 1, 2), brs=())
        if k in ('br', 'brx'):
            v = e[1]
            if a.frame is not None and v.t == 'op' and v.a[0] == 'discr' and v.a[1] is a.frame:
                if k == 'br':
                    return a.set(kind=self.kinds.get(e[2], '?'))
                if a.kind is None or a.kind[0] == 'not':
                    return a.set(kind=('not',) + tuple(self.kinds.get(d, '?') for d in e[2]))
                return a
            if (v, e[2]) not in a.brs:
                return a.set(brs=(a.brs + ((v, e[2]),))[-14:])
        if k == 'next':
            b = tuple(x for x in a.brs if not mentions(x[0], e[2]))
            if b != a.brs:
                return a.set(brs=b)
        return a

    def maybe(self, a, kind):
        """can the frame that is being handled be of a kind?"""
        if a.frame is None:
            return False
        if a.kind is None:
            return True
        if isinstance(a.kind, tuple):
            return kind not in a.kind[1:]
        return a.kind == kind

    def decided(self, a, v):
        """number a value was found to be while the frame was handled, or None"""
        for b, d in a.brs:
            if isinstance(d, tuple):
                continue
            r = rel(b, d)
            if b is v:
                return d
            x = decides(r, v)
            if x is not None:
                return x
            z = says_zero(r, v)
            if z is not None and HINT.get(v) == (0, 1):
                return 1 - z
        return None


def frame_of(v):
    """variant name of a frame value, or None when it is not understood"""
    return vname(v) if isadt(v, 'Frame') else None


def code_text(v):
    """(status code, message) of a disconnect frame value"""
    p = v.a[2][0]
    if p.t != 'adt':
        return None, None
    f = fields(p)
    return uncast(f['status_code']), f['message']


def is_svc(e, *what):
    return e[0] == 'SVC' and e[1] == 'svc' and (not what or e[2] in what)


def is_make(e, *what):
    return e[0] == 'SVC' and e[1] == 'make' and (not what or e[2] in what)


# ------------------------------------------------------------------ C11
# status of a mandatory item that is missing (or of the wrong type), and those of one that is wrong
ITEM_STATUS = {'supported-versions': ('NoVersion', {'BadVersion'}), 'version': ('NoVersion', {'BadVersion'}),
               'max-frame-size': ('NoFrameSize', {'BadFrameSize'}), 'capabilities': ('NoCapabilities', set())}
ITEM_KINDS = {'supported-versions': ('String',), 'version': ('String',), 'max-frame-size': ('Uint32', 'Uint64'), 'capabilities': ('String',)}


def typed_as(st, key):
    """the kind of value the item was found to have, when there is one item of that key and its kind was decided"""
    byd, _ = variants(adt_path('data::typed::Typed'))
    ds = [r for t, r in st.facts.items() if isop(t, 'discr') and isop(t.a[1], 'mapval') and t.a[1].a[2].t == 'str' and t.a[1].a[2].a[0] == key]
    return byd.get(ds[0][0]) if len(ds) == 1 and ds[0][0] == ds[0][1] else None


def C11(c):
    c.rule('the numeric value of every error status is the one SPOP gives it; on every path of the reader that fails, the '
           'status returned is the one that belongs to what failed: too big after the length check, I/O after a transport '
           'error, otherwise the status the decoder found; and the connection reports a read error with that very status')
    sp = adt_path('haproxy_spop::error::Error')
    byd, byn = variants(sp)
    ad = ADTS[sp]
    for v in ad['variants']:
        n = v['name']
        d = int(v['discr'])
        if n in STATUS:
            c.count('status codes')
            if d != STATUS[n]:
                c.violate('code/' + n, 'the status %s has the code %d, not %d' % (n, d, STATUS[n]))
        elif d in STATUS.values():
            c.note('status %s has the code %d' % (n, d))
    for n in STATUS:
        if n not in byn:
            c.note('no status is called ' + n)
    # the reader
    g = c.graph('read')

    def step(a, e, x):
        k = e[0]
        if k == 'io' and e[1].startswith('read'):
            if e[2] == 'err':
                return a.set(io=True)
            if a.len is None:
                return a.set(len=e[4])
            return a.set(body=True)
        if k == 'br' and len(e[1].syms) == 1 and [y.a[0] for y in e[1].syms] == ['nread'] and [evalv(e[1], {y: q}) == e[2] for y in e[1].syms for q in (0, 1)] == [True, False]:
            # the end of the stream before the frame is complete
            return a.set(eof=True)
        if k == 'br' and a.len is not None and not a.body and a.len in e[1].syms:
            o, p, q, d = rel(e[1], e[2])
            if o == 'lt' and (limit_of(p) or limit_of(q)):
                return a.set(big=bool(d) if limit_of(p) else not d)
            if any(limit_of(y) for y in walk(e[1]) if y.t in ('fld', 's')):
                lim = [y for y in walk(e[1]) if y.t == 'fld' and limit_of(y)][0]
                r = evalv(e[1], {lim: 1000, a.len: 2000})
                if r is not None:
                    return a.set(big=r == e[2])
        if k == 'Rfail' or k == 'bad':
            return a.set(bad=True)
        if k == 'mapget' and e[2].t == 'str':
            return a.set(keys=a.keys | {(e[2].a[0], int(e[3]))}, opq=a.opq)
        if k == 'mapget':
            return a.set(opq=True)
        return a

    def end(a, n, x):
        if n.end[0] != 'return':
            return
        er = err_of(n.end[1])
        if er is None:
            return
        c.count('failing paths of the reader')
        want = None
        if a.io:
            want = {'Io'}
        elif a.big and not a.body:
            want = {'TooBig'}
        if er.t != 'adt':
            # a status that is not a constant
            if unknown(er):
                c.note('status of a failing path: %s' % show(er)[:80])
            return
        nm = vname(er)
        if want is not None:
            if nm not in want:
                x.violate('read/%s/%s' % (sorted(want)[0], nm), 'a %s is reported as %s, not as %s' % (
                    'transport error' if a.io else 'frame that is too big', nm, sorted(want)[0]))
        elif nm == 'Normal':
            x.violate('read/normal', 'a frame that cannot be decoded is reported as a normal end')
        elif nm == 'Io' and a.body and not a.eof:
            x.violate('read/decoding-as-io', 'a decoding error is reported as Io')
        elif nm == 'TooBig' and a.body and a.bad:
            x.violate('read/decoding-as-toobig', 'a decoding error is reported as TooBig')
        elif a.body and not a.opq:
            # what can be wrong with the items that were looked at so far
            may = {'Invalid'}
            for key, found in a.keys:
                if key in ITEM_STATUS:
                    if not (found and typed_as(n.st, key) in ITEM_KINDS[key]):
                        may |= {ITEM_STATUS[key][0]}
                    may |= ITEM_STATUS[key][1] if found else set()
            c.count('decoding errors with a known cause')
            if nm not in may and not (nm == 'Io' and a.eof):
                x.violate('read/decoding/%s' % nm, 'a frame that cannot be decoded is reported as %s, though what was found wrong with it is %s' % (
                    nm, 'its header or layout' if not a.keys else 'one of the items ' + ', '.join(sorted(q for q, _ in a.keys))))
    Auto(c, g, Rec(io=False, eof=False, big=False, len=None, body=False, bad=False, keys=frozenset(), opq=False), step, end)
    # statuses that name their cause: the mandatory items
    seen = set()
    for n in ends(g):
        er = err_of(n.end[1])
        if er is not None and er.t == 'adt':
            seen.add(vname(er))
    for s in ('TooBig', 'Io', 'NoVersion', 'NoFrameSize', 'NoCapabilities', 'Invalid'):
        c.count('statuses of the reader')
        if s not in seen and not any(err_of(n.end[1]) is not None and err_of(n.end[1]).t != 'adt' for n in ends(g)):
            c.violate('read/never/' + s, 'the reader never fails with %s' % s)
    # what the connection reports
    k = Conn(c)

    def cstep(a, e, x):
        if e[0] == 'READ':
            return ('err', e[2]) if e[1] == 'err' else ('none',)
        if a[0] == 'err' and e[0] == 'WRITE' and frame_of(e[2]) == 'AgentDisconnect':
            code, msg = code_text(e[2])
            if code is None or unknown(code):
                c.note('status reported for a read error: %s' % show(e[2])[:80])
            else:
                c.count('read errors reported')
                if not (isop(code, 'discr') and code.a[1] is a[1]):
                    x.violate('serve/%s' % show(code)[:40], 'a read error is reported with the status %s, not with its own' % show(code))
        return a
    Auto(c, k.g, ('none',), cstep)
    c.floor('status codes', 15)
    c.floor('failing paths of the reader', 20)
    embed(c, 'C05', lambda k, m: k.endswith('/status'))
    c.floor('read errors reported', 1)


# ------------------------------------------------------------------ C12
def searched(n, err, idx, names):
    """were the errors inside this one, up to three levels, all asked for a status?"""
    asked = {e[1]: e[2] for e in path_events(n) if e[0] == 'br' and isop(e[1], 'isa')}
    if any(e[0] == 'opaque' or e[0] == 'br' and unknown(e[1]) for e in path_events(n)):
        return True
    cur, depth = err, 0
    while True:
        lo, hi, ex = n.st.facts.get(op('discr', cur), (0, 1 << 30, ()))
        ctx = idx['Context']
        if not lo <= ctx <= hi or ctx in ex:
            return True
        if lo != hi and depth:
            # not told apart from one that has another inside
            return False
        src = mk('fld', cur, ctx, 0)
        mine = [(t, v) for t, v in asked.items() if t.a[1] is src]
        if not mine:
            return depth >= 3
        own = [v for t, v in mine if str(t.a[2].a[0]).startswith('haproxy_spoa')]
        wire = [v for t, v in mine if str(t.a[2].a[0]).startswith('haproxy_spop')]
        if own == [1]:
            cur = next(op('downcast', src, t.a[2]) for t, v in mine if str(t.a[2].a[0]).startswith('haproxy_spoa'))
            depth += 1
            if depth >= 3:
                return True
            continue
        return bool(own and wire)


def conversion(c):
    """the disconnect an error of the agent is turned into"""
    try:
        g = c.graph('disconnect_from')
    except Missing:
        c.note('no conversion from an error to a disconnect')
        return
    err = g.root.vals[0]
    ep = adt_path('haproxy_spoa::error::Error')
    names, idx = variants(ep)
    own = mk('fld', err, idx.get('Status', -1), 0)
    for n in ends(g):
        v = n.end[1]
        if not isadt(v, 'Disconnect'):
            c.note('conversion not understood: %s' % show(v)[:80])
            continue
        code = uncast(fields(v)['status_code'])
        d = fact(n.st, op('discr', err))
        isa = [e[1] for e in path_events(n) if e[0] == 'br' and isop(e[1], 'isa') and e[2] == 1 and str(e[1].a[2].a[0]).startswith('haproxy_spop')]
        if unknown(code) or code.t == 's':
            c.note('conversion not understood: %s' % show(code)[:80])
            continue
        c.count('conversions of errors to disconnects')
        carries = names.get(d) == 'Status' if isinstance(d, int) else None
        if carries or isa:
            if code.t == 'i':
                c.violate('convert/lost', 'an error that carries a status is turned into a disconnect with status %d' % code.a[0], path_to(g, n))
            elif carries and code is not op('discr', own):
                c.violate('convert/other', 'an error with a status is turned into a disconnect with %s' % show(code), path_to(g, n))
        elif names.get(d) == 'Context' and code.t == 'i' and not searched(n, err, idx, names):
            c.violate('convert/nested', 'the status an error carries inside another one is not looked for', path_to(g, n))
        elif carries is False or carries is None and code.t == 'i':
            if code.t == 'i' and code.a[0] != STATUS['Unknown']:
                c.violate('convert/none/%d' % code.a[0], 'an error without a status is turned into a disconnect with status %d' % code.a[0], path_to(g, n))


# ------------------------------------------------------------------ C12
def causes(k, a):
    """status codes that may be reported for what went wrong while a frame was handled"""
    return None


def whole_text(v):
    """is the text of a disconnect of any length, and not one that was cut to fit?"""
    return v is not None and v.t != 'str' and not unknown(v) and not any(
        y.t == 'op' and y.a[0] in ('slice', 'slice_n', 'text', 'truncate', 'min', 'list', 'concat', 'take') or y.t == 'coll' for y in walk(v))


def C12(c):
    c.rule('on every path of a connection that ends, the last thing written is one disconnect frame whose status code belongs '
           'to what went wrong on that path (read status, handshake status, timeout, too big, fragmentation not supported, '
           'invalid, unknown) and whose text is not empty - unless a health check was answered or writing failed; nothing '
           'on the way panics; turning an error into a disconnect gives the status it carries, and unknown when it carries none')
    conversion(c)
    k = Conn(c)
    g = k.g
    wst = variants(adt_path('haproxy_spop::error::Error'))[1]
    TOOBIG, IO = wst['TooBig'], wst['Io']

    def step(a, e, x):
        a = k.follow(a, e)
        n = e[0]
        if n == 'READ':
            if a.cause is not None and a.closed is None and a.cause[0] != 'wrote':
                x.violate('continues/%s' % a.cause[0], 'the connection goes on reading after an error (%s) without reporting it' % a.cause[0])
                return None
            if e[1] == 'err':
                return a.set(cause=('read', e[2]), frag=a.frag)
            return a.set(cause=None)
        if n == 'CANCELLED':
            return a.set(cause=('shutdown',))
        if n == 'elapsed' and 'max_process_time' in k.runtime_fields(e[1]):
            return a.set(cause=('timeout',))
        if n == 'SVC' and e[2] in ('err', 'ready-err'):
            return a.set(cause=('maker' if e[1] == 'make' else 'service', e[3] if e[2] == 'err' and len(e) > 3 else None))
        if n == 'br' and isop(e[1], 'discr') and a.w is not None and e[1].a[1] is a.w[1]:
            return a.set(w=(a.w[0], a.w[1], e[2]))
        if n == 'brx' and isop(e[1], 'discr') and a.w is not None and e[1].a[1] is a.w[1]:
            return a.set(w=(a.w[0], a.w[1], ('not',) + tuple(e[2])))
        if n == 'br' and e[1].t == 'op' and e[1].a[0] == 'contains' and any(isadt(y, 'Capability', 'Fragmentation') for y in walk(e[1])):
            return a.set(frag=e[2])
        if n == 'WRITE':
            fr = frame_of(e[2])
            if fr == 'AgentDisconnect':
                disc(a, e, x)
                a = a.set(tries=min(a.tries + 1, 2), long=whole_text(code_text(e[2])[1]))
            if e[1] == 'ok':
                if fr == 'AgentDisconnect':
                    return a.set(closed='disconnect', w=None)
                if fr == 'AgentHello':
                    hc = healthcheck(a)
                    return a.set(w=None, closed='healthcheck?' if hc is None else 'healthcheck' if hc else None)
                return a.set(w=None)
            return a.set(w=(fr, e[3], None), cause=a.cause if fr == 'AgentDisconnect' else ('wrote', e[3]))
        return a

    def healthcheck(a):
        if a.frame is None or not k.maybe(a, 'HaproxyHello'):
            return None
        hc = k.field(a.frame, 'HaproxyHello', 'healthcheck')
        for b, d in a.brs:
            if isop(b, 'discr') and b.a[1] is hc and d == 0:
                return False
        for b, d in a.brs:
            if mentions(b, hc) and not isop(b, 'discr') and isinstance(d, int):
                return bool(evalv(b, {mk('fld', hc, 1, 0): 1}) == d)
        return None

    def expected(a):
        """[(what, test on the code)]"""
        cz = a.cause
        num = lambda *w: lambda v: v.t == 'i' and v.a[0] in w
        of = lambda s: lambda v: isop(v, 'discr') and v.a[1] is s
        if cz is None:
            if a.frame is None:
                return None
            if k.maybe(a, 'HaproxyHello') and a.n == 1 and a.kind == 'HaproxyHello':
                return 'a hello that cannot be negotiated', num(STATUS['BadVersion'])
            if a.n == 1 and not k.maybe(a, 'HaproxyHello'):
                return 'a first frame that is no hello', num(STATUS['Invalid'])
            if a.n > 1:
                if a.kind == 'HaproxyNotify':
                    fr = k.decided(a, k.field(a.frame, 'HaproxyNotify', 'fragmented'))
                    if fr == 1:
                        return 'a fragment that was not negotiated', num(STATUS['FragmentNotSupported'])
                    return None
                if a.kind == 'HaproxyDisconnect':
                    return 'a disconnect of HAProxy', num(STATUS['Normal'])
                if not k.maybe(a, 'HaproxyNotify') and not k.maybe(a, 'HaproxyDisconnect'):
                    return 'an unexpected frame', num(STATUS['Invalid'])
            return None
        if cz[0] == 'read':
            return 'a read error', of(cz[1])
        if cz[0] == 'shutdown':
            return 'a shutdown', num(STATUS['Normal'])
        if cz[0] == 'timeout':
            return 'a service that timed out', num(STATUS['Timeout'])
        if cz[0] == 'wrote':
            w = a.w[2] if a.w else None
            if w == TOOBIG:
                return 'a reply that is too big', lambda v: num(STATUS['TooBig'])(v) or of(cz[1])(v)
            return 'a reply that cannot be sent', lambda v: num(STATUS['TooBig'], STATUS['Io'])(v) or of(cz[1])(v)
        # the error of a service
        return 'a failed service', lambda v: num(STATUS['Unknown'])(v) or isop(v, 'discr') and any(isop(y, 'downcast') for y in walk(v))

    def disc(a, e, x):
        code, msg = code_text(e[2])
        if code is None or unknown(code):
            c.note('disconnect not understood: %s' % show(e[2])[:100])
            return
        c.count('disconnects written')
        retry = a.w is not None and a.w[0] == 'AgentDisconnect'
        w = expected(a) if not (a.cause and a.cause[0] == 'wrote' and a.w is None) else None
        if w is not None:
            c.count('disconnects with a known cause')
            if not w[1](code):
                if any('downcast' in str(y.a[0]) for y in walk(code) if y.t == 'op') and a.cause and a.cause[0] in ('service', 'maker'):
                    return
                x.violate('code/%s/%s' % (w[0], show(code)[:30].split('.')[0]), '%s is reported with the status code %s' % (w[0], show(code)))
        if msg is not None and msg.t == 'str' and msg.a[0] == '' and not retry:
            x.violate('text', 'an error is reported without its description')

    def end(a, n, x):
        if n.end[0] == 'panic':
            x.violate('panic/%s' % n.end[1], '%s: the connection panics (%s) instead of reporting an error' % (n.end[3], n.end[1]))
            return
        if n.end[0] != 'return':
            return
        c.count('endings of a connection')
        if a.closed in ('disconnect', 'healthcheck', 'healthcheck?'):
            return
        if a.w is not None:
            fr, s, w = a.w
            if fr == 'AgentDisconnect':
                if w is None or w == TOOBIG:
                    # the text did not fit and nothing shorter was tried
                    if w == TOOBIG:
                        if a.tries == 1 and a.long:
                            x.violate('silent/description', 'a disconnect whose description does not fit is not sent at all')
                        else:
                            c.note('a disconnect that is too big is given up')
                return
            if w is None and fact(n.st, op('discr', s)) not in (IO,) or w == TOOBIG:
                x.violate('silent/too-big', 'a connection ends without a disconnect frame after a reply that is too big')
            return
        what = a.cause[0] if a.cause else a.kind if isinstance(a.kind, str) else 'a frame it does not expect' if a.frame is not None else 'nothing'
        x.violate('silent/%s' % what, 'a connection ends after %s without a disconnect frame' % what)
    Auto(c, g, Rec(cause=None, closed=None, w=None, frag=None, tries=0, long=False, **k.START), step, end)
    c.floor('endings of a connection', 20)
    c.floor('disconnects with a known cause', 20)


# ------------------------------------------------------------------ C13
def C13(c):
    c.rule('on every path of a connection, a service is made only while the first frame, found to be a HAProxy hello, is '
           'handled, and messages are handed to it only after an agent hello was written; when the first frame is anything '
           'else, or a hello arrives later, no service is called and no hello or ack is written; after the first frame the '
           'connection goes on only after a notification')
    k = Conn(c)

    def step(a, e, x):
        a = k.follow(a, e)
        n = e[0]
        if n == 'READ':
            return a.set(made=False)
        if is_make(e):
            c.count('calls of the service maker')
            if a.frame is None or not k.maybe(a, 'HaproxyHello') or a.kind is None:
                x.violate('make/no-hello', 'a service is made although the frame at hand was not found to be a HAProxy hello')
            if a.n > 1:
                x.violate('make/later', 'a service is made after the first frame')
            return a.set(made=True)
        if is_svc(e):
            c.count('calls of the service')
            if not a.hello:
                x.violate('svc/no-handshake', 'messages are handed to the service before an agent hello was sent')
            if a.kind == 'HaproxyHello' or a.n <= 1:
                x.violate('svc/first', 'the service is called for the first frame or a hello')
            return a
        if n == 'WRITE':
            fr = frame_of(e[2])
            if fr in ('AgentHello', 'AgentAck'):
                c.count('replies')
                if a.n == 1 and (a.kind is None or not k.maybe(a, 'HaproxyHello') or a.kind != 'HaproxyHello'):
                    x.violate('reply/first', 'an %s is sent although the first frame was not found to be a HAProxy hello' % fr)
                if a.n > 1 and a.kind == 'HaproxyHello':
                    x.violate('reply/second-hello', 'a second hello is answered with an %s' % fr)
                if fr == 'AgentHello' and e[1] == 'ok':
                    return a.set(hello=True)
            if fr == 'AgentDisconnect':
                a = a.set(said=True)
            if fr == 'AgentDisconnect' and refused(a):
                code, _ = code_text(e[2])
                if code is not None and code.t == 'i' and code.a[0] == STATUS['Normal']:
                    x.violate('accepted/%s' % refused(a), '%s is answered with a normal disconnect, not as an error' % refused(a))
            if fr == 'AgentDisconnect' and a.made and a.n == 1:
                code, _ = code_text(e[2])
                if code is not None and code.t == 'i' and 4 < code.a[0] < 10:
                    x.violate('make/failed', 'a service is made before the handshake is found to fail with status %d' % code.a[0])
            return a
        if n == 'CANCELLED':
            return a.set(kind='error')
        return a

    def refused(a):
        if a.frame is None or a.kind == 'error':
            return None
        if a.n == 1 and a.kind is not None and not k.maybe(a, 'HaproxyHello'):
            return 'a first frame that is no hello'
        if a.n > 1 and a.kind is not None and not k.maybe(a, 'HaproxyNotify') and not k.maybe(a, 'HaproxyDisconnect'):
            return 'a frame that is not expected'
        return None

    def end(a, n, x):
        if n.end[0] == 'return' and refused(a) and not a.said and isadt(n.end[1], 'Result', 'Ok'):
            x.violate('accepted/%s' % refused(a), '%s ends the connection, but not as an error' % refused(a))

    def step2(a, e, x):
        b = step(a, e, x)
        # going on after a first frame that is no hello, or a later hello
        if e[0] == 'READ' and a.n >= 1:
            c.count('frames after the first')
            if a.n == 1 and not a.hello:
                x.violate('goes-on/first', 'the connection goes on after a first frame that was not answered with an agent hello')
                return None
            if a.n > 1 and a.kind == 'HaproxyHello':
                x.violate('goes-on/hello', 'the connection goes on after a second hello')
                return None
            if a.n > 1 and a.frame is not None and not k.maybe(a, 'HaproxyNotify'):
                x.violate('goes-on/other', 'the connection goes on after a frame that is not a notification%s' % (' (%s)' % a.kind if isinstance(a.kind, str) else ''))
                return None
        return b
    Auto(c, k.g, Rec(hello=False, made=False, said=False, **k.START), step2, end)
    c.floor('calls of the service maker', 2)
    c.floor('calls of the service', 2)
    c.floor('replies', 2)


# ------------------------------------------------------------------ C14
def hello_value(e):
    p = e[2].a[2][0]
    return fields(p) if p.t == 'adt' else None


def C14(c):
    c.rule('every agent hello written carries a version that was compared equal (or found contained) between the offer of '
           'HAProxy and the supported versions, a frame size equal to the smaller of the two for every sample of the '
           'orderings that path allows, and capabilities that are the intersection of both lists; where no version was '
           'found equal the connection ends with BadVersion')
    k = Conn(c)
    g = k.g
    pushes = pushes_of(g)

    def sides(v, a):
        """which sides a value comes from, for a field of the hello and one of the runtime"""
        r = set()
        for x in walk(v):
            n = k.runtime_field(x)
            if n:
                r.add('rt.' + n)
        for n in ('supported_versions', 'capabilities', 'max_frame_size'):
            if mentions(young(v), young(k.field(a.frame, 'HaproxyHello', n))):
                r.add('hello.' + n)
        return r

    def step(a, e, x):
        if e[0] == 'next' and a.frame is not None and not a.hit:
            # what was found out about the element that is left behind
            for w, el in dict(a.walk).values():
                if w == 'next' and el is not None and met(a, el):
                    a = a.set(hit=True)
        a = k.follow(a, e)
        if e[0] == 'READ':
            return a.set(svc=False, walk=(), hit=False)
        if e[0] in ('next', 'end') and a.frame is not None and any(r in sides(e[1], a) for r in ('hello.supported_versions', 'rt.supported_versions')):
            q = dict(a.walk)
            q[e[1]] = (e[0], e[2] if e[0] == 'next' else None)
            return a.set(walk=tuple(sorted(q.items(), key=lambda t: t[0].n)))
        if e[0] == 'SVC' and e[2] in ('err', 'ready-err') or e[0] == 'CANCELLED':
            return a.set(svc=True)
        if e[0] == 'push' and a.frame is not None:
            # is the element known to be on both sides when it is collected?
            if any('el' in s.a[:1] for s in e[2].syms):
                ok = any(d == 1 and mentions(b, e[2]) for b, d in a.brs) and not any(
                    d == 0 and mentions(b, e[2]) and b.t == 'op' and b.a[0] in ('eq', 'contains') for b, d in a.brs if not any(
                        d2 == 1 and b2 is b for b2, d2 in a.brs))
                bad = any(d == 0 and mentions(b, e[2]) and b.t == 'op' and b.a[0] == 'contains' for b, d in a.brs)
                q = dict(a.coll)
                q[e[1]] = q.get(e[1], True) and ok and not bad
                return a.set(coll=tuple(sorted(q.items(), key=lambda t: t[0].n)))
        if e[0] != 'WRITE':
            return a
        fr = frame_of(e[2])
        if fr == 'AgentHello':
            if e[1] == 'ok':
                c.count('agent hellos written')
            f = hello_value(e)
            if f is None or a.frame is None:
                c.note('agent hello not understood: %s' % show(e[2])[:100])
                return a
            version(a, f['version'], x)
            size(a, f['max_frame_size'], x)
            caps(a, f['capabilities'], x)
        if fr == 'AgentDisconnect' and a.n == 1 and a.kind == 'HaproxyHello' and not a.svc and not unknown(e[2]):
            code, _ = code_text(e[2])
            if code is not None and code.t == 'i' and a.w is None:
                c.count('failed negotiations')
                whole(a, x)
                if code.a[0] != STATUS['BadVersion']:
                    x.violate('status/%d' % code.a[0], 'a hello without a common version is refused with status %d' % code.a[0])
        if e[1] == 'err' and fr != 'AgentDisconnect':
            return a.set(w=True, svc=True)
        return a

    def met(a, v):
        """was an element found in the list of the other side?"""
        s = sides(v, a)
        return any(d == 1 and isinstance(d, int) and b.t == 'op' and b.a[0] in ('eq', 'contains', 'any') and mentions(b, v)
                   and (sides(b, a) | s) >= {'hello.supported_versions', 'rt.supported_versions'} for b, d in a.brs)

    def version(a, v, x):
        hs, rs = 'hello.supported_versions', 'rt.supported_versions'
        s = sides(v, a)
        highest(a, v, x)
        picked(v, x)
        whole(a, x)
        if {hs, rs} <= s:
            return
        if unknown(v):
            c.note('version not understood: %s' % show(v)[:80])
            return
        if a.hit:
            # one kept from an earlier turn, or found there
            c.count('versions kept from an earlier turn')
            return
        for b, d in a.brs:
            if d != 1 or not isinstance(d, int):
                continue
            bs = sides(b, a)
            if b.t == 'op' and b.a[0] == 'eq' and mentions(b, v) and bs >= {hs, rs} and any(part(y) for y in b.a[1:]):
                w = unequal(a, v)
                if w == '?':
                    c.note('versions compared field by field: %s' % show(b)[:80])
                elif w is not None:
                    x.violate('version/unequal', 'version %s is announced for the offer of the other side of version %s' % w)
                return
            if b.t == 'op' and b.a[0] in ('eq', 'contains', 'any') and mentions(b, v) and (bs | s) >= {hs, rs}:
                return
            if b.t == 'op' and b.a[0] in ('contains', 'any') and {hs, rs} <= bs | s and mentions(b, v):
                return
        odd = [b for b, d in a.brs if sides(b, a) & {hs, rs} and unknown(b)]
        if odd:
            c.note('version decided by %s' % show(odd[0])[:80])
            return
        x.violate('version/%s' % show(v)[:40].split('.')[0], 'the version %s is announced without having been found in %s' % (
            show(v), 'either list' if not s & {hs, rs} else 'the list of the other side'))

    def part(y):
        """is it a field of an element?"""
        return isinstance(y, V) and y.t == 'fld' and isinstance(y.a[0], V) and any(q.t == 's' and q.a[:1] == ('el',) for q in (y.a[0],)) or \
            isinstance(y, V) and y.t == 'op' and y.a[0] == 'cast' and part(y.a[1])

    def unequal(a, v):
        """two different versions that pass every comparison of elements made, None, or '?'"""
        parts = {}
        for b, d in a.brs:
            if mentions(b, v):
                for y in walk(b):
                    if part(y):
                        parts.setdefault(y.a[0], set()).add(y)
        others = [w for w in parts if w is not v]
        if len(others) != 1:
            return '?'
        idx = sorted({y.a[1:] for ys in parts.values() for y in ys}, key=str)
        ix = [i[-1] for i in idx]
        if not set(ix) <= {0, 1} or len(set(ix)) != len(ix):
            return '?'

        def fl(w, i, val):
            for y in parts.get(w, ()):
                if y.a[-1] == i:
                    yield y, val
        res = None
        R = [(p, q) for p in (1, 2, 3) for q in (0, 1, 2)]
        for m in R:
            for n in R:
                if m == n:
                    continue
                env = {}
                for w, val in ((v, m), (others[0], n)):
                    for i in (0, 1):
                        env.update(fl(w, i, val[i]))
                ok = True
                for b, d in a.brs:
                    if not (mentions(b, v) or mentions(b, others[0])):
                        continue
                    q = evalv(b, env)
                    if q is None:
                        ok = '?'
                        continue
                    if isinstance(d, int):
                        d = -1 if d == 255 else d
                        good = q == d
                    else:
                        good = q not in d and (q != -1 or 255 not in d)
                    if not good:
                        ok = False
                        break
                if ok is True:
                    return '%d.%d' % m, '%d.%d' % n
                if ok == '?':
                    res = '?'
        return res

    CUT = ('after:dedup_by_key', 'after:dedup_by', 'after:truncate', 'after:pop', 'after:remove', 'after:swap_remove', 'after:drain', 'after:split_off', 'after:pop_front', 'after:pop_back',
           'take', 'skip', 'step_by', 'vec:split_off', 'vec:drain')

    def whole(a, x):
        """the lists of versions that are gone through are the whole ones"""
        for src, _ in a.walk:
            for y in walk(src):
                if y.t == 'op' and y.a[0] in CUT and sides(y, a) & {'hello.supported_versions', 'rt.supported_versions'}:
                    x.violate('version/part', 'only a part of the versions offered is looked at: %s' % show(y)[:120])

    orders = {}

    def byorder(clo, how):
        """1 if a function sorts versions from the lowest up, -1 if down, 0 if neither, None if that is not known"""
        if (clo, how) not in orders:
            vs = [(0, 0), (0, 9), (1, 0), (1, 1), (1, 9), (2, 0), (2, 1), (9, 0), (9, 9), (255, 0), (0, 255)]

            def part(k, f):
                return hint(sym('param', 'ver', k, f), 0, 255)

            o = order_of(c, k.g, clo, how, lambda n: mk('adt', adt_path('version::Version'), 0, (part(n, 0), part(n, 1))),
                         [lambda n, v=v: {part(n, 0): v[0], part(n, 1): v[1]} for v in vs])
            r = None
            if o is not None:
                c.count('comparisons of versions tried', len(o))
                right = {(i, j): (a > b) - (a < b) for i, a in enumerate(vs) for j, b in enumerate(vs)}
                r = 1 if o == right else -1 if o == {q: -z for q, z in right.items()} else 0
            orders[clo, how] = r
        return orders[clo, how]

    def picked(v, x):
        """a version taken as the greatest or the least of some"""
        for y in walk(v):
            n = str(y.a[0]).split('::')[-1] if y.t == 'op' and str(y.a[0]).startswith('call:core::iter::') else ''
            if n not in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'last'):
                continue
            up = 1
            if n != 'max' and n != 'min':
                up = byorder(y.a[2], 'key' if n.endswith('key') else 'cmp') if len(y.a) > 2 and isinstance(y.a[2], V) else None
            if up is None:
                c.note('order of versions: %s' % show(y)[:80])
                continue
            c.count('versions chosen as the greatest')
            if up * (1 if n.startswith('max') else -1) != 1:
                x.violate('version/order', 'the version taken is not the highest one: %s' % n)

    def highest(a, v, x):
        """a version picked as the first that fits in a walk over a list: the walk has to go from the highest down"""
        src = next((q for q, (w, el) in dict(a.walk).items() if w == 'next' and el is v), None)
        if src is None:
            running(a, v, x)
            return
        c.count('versions chosen by a walk')
        descends(src, x)

    def mine_of(y, el):
        return isinstance(y, V) and y.t == 'fld' and isinstance(y.a[0], V) and y.a[0].t == 's' and young(y.a[0]) is el

    def running(a, v, x):
        """a version kept while a walk goes through to the end of a list"""
        el = young(v)
        if el.t != 's' or el.a[:1] != ('el',):
            return
        src = [q for q, (w, _) in dict(a.walk).items() if w == 'end' and mentions(el, q)]
        if len(src) != 1:
            return
        c.count('versions kept by a walk')
        vs = [(i, j) for i in (0, 1, 2) for j in (0, 1, 2)]
        others = {}
        for b, d in a.brs:
            if mentions(b, v):
                for y in walk(b):
                    if mine_of(y, el) and y.a[0] is not v:
                        others.setdefault(y.a[0], set()).add(y)
                if b.t == 'op' and b.a[0] == 'lt' and v in b.a[1:]:
                    for y in b.a[1:]:
                        if y is not v and isinstance(y, V) and y.t == 's' and young(y) is el:
                            others.setdefault(y, set())
        mine = {y for b, _ in a.brs for y in walk(b) if mine_of(y, el) and y.a[0] is v}
        if others and a.hit:
            for w, ys in others.items():
                if w is el and not met(a, w):
                    continue
                if any(y.a[-1] not in (0, 1) for y in ys | mine):
                    return
                both = [(b, d) for b, d in a.brs if any(y in mine for y in walk(b)) and any(y in ys for y in walk(b)) or
                        b.t == 'op' and b.a[0] == 'lt' and set(b.a[1:]) == {v, w}]
                for p in vs:
                    for q in vs:
                        if p >= q:
                            continue
                        env = {y: p[y.a[-1]] for y in mine}
                        env.update({y: q[y.a[-1]] for y in ys})
                        got = [(int(q < p if b.a[1] is w else p < q) if b.t == 'op' and b.a[0] == 'lt' and set(b.a[1:]) == {v, w} else evalv(b, env), d)
                               for b, d in both]
                        got = [(255 if g == -1 else g, d) for g, d in got]
                        c.count('pairs of versions compared')
                        if any(g is None for g, _ in got):
                            c.note('versions compared: %s' % show(both[0][0])[:80])
                            return
                        if all(g == d if isinstance(d, int) else g not in d for g, d in got):
                            x.violate('version/order', 'version %d.%d is taken where both sides support %d.%d' % (p + q))
                            return
            return
        about = [(b, d) for b, d in a.brs if mentions(b, el)]
        if any(d == 0 and b.t == 'op' and b.a[0] in ('eq', 'contains', 'any') for b, d in about) or any(
                young(y) is el and y is not el for b, _ in about for y in b.syms):
            return
        if len(a.walk) != 1:
            return
        if v is el:
            if a.hit and met(a, v):
                # taken over one found before it, whatever that was
                descends(src[0], x, True)
        elif met(a, el) or not about:
            descends(src[0], x)

    def descends(src, x, last=False):
        q, up, srt = src, not last, False
        while isinstance(q, V) and q.t == 'op' and q.a[0] in ('rev', 'sorted', 'sortedby', 'list', 'asref'):
            if q.a[0] == 'sortedby' and len(q.a) > 2:
                by = byorder(q.a[2], q.a[3])
                if by is None:
                    break
                if by == 0:
                    x.violate('version/order', 'the version taken is the %s that fits in a list that is not in the order of the versions' % ('last' if last else 'first'))
                    return
                up = up == (by > 0)
                srt = True
                break
            if q.a[0] == 'rev':
                if srt:
                    c.note('order of versions: %s' % show(src)[:80])
                    return
                up = not up
            elif q.a[0] == 'sorted':
                srt = True
                break
            q = q.a[1]
        if unknown(q) or isinstance(q, V) and q.t == 'op':
            if not srt:
                c.note('order of versions: %s' % show(src)[:80])
                return
        if not srt:
            if isinstance(q, V) and q.t == 'fld':
                x.violate('version/order', 'the version taken is the %s that fits in the order of a list that is not sorted' % ('last' if last else 'first'))
        elif up:
            x.violate('version/lowest', 'the version taken is the lowest that both sides support, not the highest')

    def size(a, v, x):
        h = k.field(a.frame, 'HaproxyHello', 'max_frame_size')
        rts = {y for b, _ in a.brs for y in walk(b) if k.runtime_field(y) == 'max_frame_size'} | {y for y in walk(v) if k.runtime_field(y) == 'max_frame_size'}
        rts = {uncast(y) for y in rts}
        if unknown(v):
            c.note('frame size not understood: %s' % show(v)[:80])
            return
        if len(rts) != 1:
            if not sides(v, a) & {'hello.max_frame_size', 'rt.max_frame_size'}:
                x.violate('size/constant', 'the frame size announced is %s' % show(v))
            elif not rts:
                x.violate('size/unlimited', 'the frame size announced is %s, without regard to the configured one' % show(v))
            return
        r = rts.pop()
        top = (1 << 32) - 1
        for hv in (0, 100, 16384, 16385, top - 1, top):
            for rv in (0, 100, 101, 16384, 16385, top, top + 1, 1 << 40):
                env = {h: hv, r: rv}
                if any(evalv(b, env) is not None and (evalv(b, env) != d if isinstance(d, int) else evalv(b, env) in d) for b, d in a.brs):
                    continue
                if not consistent(x.src.st, env):
                    continue
                got = evalv(v, env)
                c.count('frame size samples')
                if got is None:
                    c.note('frame size not understood: %s' % show(v)[:80])
                    return
                if got != min(hv, rv):
                    x.violate('size/value', 'for a HAProxy frame size of %d and a configured one of %d the agent announces %d' % (hv, rv, got))
                    return

    def caps(a, v, x):
        hs, rs = 'hello.capabilities', 'rt.capabilities'
        s = sides(v, a)
        for y in walk(v):
            if isop(y, 'intersection'):
                if {hs, rs} <= sides(y, a):
                    y2 = v
                    while isinstance(y2, V) and y2.t == 'op' and y2.a[0] in ('list', 'set', 'asref') or isinstance(y2, V) and y2.t == 'op' and y2.a[0] in ('rev', 'sorted', 'sortedby'):
                        y2 = y2.a[1]
                    if y2 is not y:
                        if isinstance(y2, V) and y2.t == 'op' and y2.a[0] in ('take', 'skip', 'filter', 'step', 'step_by', 'difference'):
                            x.violate('caps/part', 'only a part of the common capabilities is announced: %s' % show(v))
                        else:
                            c.note('capabilities: %s' % show(v)[:100])
                    return
        cols = [y for y in walk(v) if y.t == 'coll']
        if cols:
            for y in cols:
                its = pushes.get(y.a[0], ())
                for it in its:
                    si = sides(it, a)
                    if unknown(it):
                        c.note('capabilities: %s' % show(it)[:80])
                        return
                    if not si & {hs, rs}:
                        x.violate('caps/other', 'the capability %s is announced, which is not one that was offered' % show(it))
                        return
                q = dict(a.coll).get(y.a[0])
                if q is False:
                    x.violate('caps/unchecked', 'capabilities are announced without having been found on both sides')
                    return
                if not its:
                    x.violate('caps/none', 'no capability is ever announced')
            return
        if unknown(v):
            c.note('capabilities not understood: %s' % show(v)[:100])
            return
        if not {hs, rs} <= s:
            x.violate('caps/%s' % ('one-sided' if s & {hs, rs} else 'constant'), 'the capabilities announced are %s, which are not those both sides have' % show(v)[:120])
        elif any(isop(y, o) for y in walk(v) for o in ('union', 'chain', 'difference', 'symmetric_difference')):
            x.violate('caps/union', 'the capabilities announced are %s' % show(v)[:120])
        else:
            c.note('capabilities: %s' % show(v)[:100])
    Auto(c, g, Rec(svc=False, w=None, coll=(), walk=(), hit=False, **k.START), step)
    c.floor('agent hellos written', 2)
    c.floor('frame size samples', 20)
    c.floor('failed negotiations', 1)


# ------------------------------------------------------------------ C15
def C15(c):
    c.rule('the frame size limit in force for every read and write of a connection is the configured one until the agent '
           'hello is written, and the one announced in that hello from then on')
    limits(c, ('READ', 'WRITE'))
    c.floor('limits in force after the handshake', 4)


def limits(c, which, pre=''):
    """the frame size limit under which frames are read and written by a connection"""
    k = Conn(c)

    def step(a, e, x):
        n = e[0]
        if n == 'WRITE' and e[1] == 'ok' and frame_of(e[2]) == 'AgentHello':
            f = hello_value(e)
            check(a, e[4], 'the agent hello is written', x)
            return ('announced', young(uncast(f['max_frame_size'])), young(f['max_frame_size'])) if f else None
        if n == 'READ' and n in which:
            check(a, e[4], 'a frame is read', x)
        elif n == 'WRITE' and n in which:
            check(a, e[4], 'a frame is written', x)
        return a

    def check(a, lim, what, x):
        c.count('limits in force')
        if not isinstance(lim, V) or unknown(lim):
            c.note('limit not understood: %s' % (show(lim) if isinstance(lim, V) else lim))
            return
        if a[0] == 'configured':
            if k.runtime_field(lim) != 'max_frame_size':
                x.violate(pre + 'before/%s' % show(lim)[:40].split('.')[0], '%s before the handshake under the limit %s, not the configured one' % (what, show(lim)))
        else:
            c.count('limits in force after the handshake')
            l = young(uncast(lim))
            for sv in (0, 255, 256, 16380, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1):
                p, q = evalv(young(lim), {a[1]: sv}), evalv(a[2], {a[1]: sv})
                if p is not None and q is not None and p != q:
                    x.violate(pre + 'after/narrow', '%s after the handshake under the limit %d, not the %d announced' % (what, p, q))
                    return
            if l is not a[1] and not unknown(a[1]):
                if isop(l, 'min') and a[1] in l.a:
                    c.note('limit %s' % show(l)[:80])
                    return
                x.violate(pre + 'after/%s' % show(l)[:40].split('.')[0], '%s after the handshake under the limit %s, not the %s announced' % (what, show(l), show(a[1])))
    Auto(c, k.g, ('configured',), step)


# ------------------------------------------------------------------ C16
REORDER = ('rev', 'sorted', 'sortedby', 'skip', 'take', 'filter', 'set', 'dedup', 'step_by', 'chain', 'cycle')


def C16(c):
    c.rule('on every path, between the answer of the service and the next read exactly one ack is written; its ids are those of '
           'the notification at hand, its flags are clear, and its actions are the answer, element by element in order; no ack '
           'is written otherwise')
    k = Conn(c)
    g = k.g
    pushes = pushes_of(g)

    def step(a, e, x):
        a = k.follow(a, e)
        n = e[0]
        if n == 'READ' or n == 'WAIT' and e[1] == 'READ':
            if a.ans is not None and not a.done:
                x.violate('missing', 'a notification that was processed is not answered before the next frame is read')
                return None
            if a.ans is None and not a.done and a.frame is not None and a.n > 1 and a.kind == 'HaproxyNotify':
                c.count('notifications without an answer')
                if k.decided(a, k.field(a.frame, 'HaproxyNotify', 'fragmented')) == 0:
                    x.violate('unanswered', 'a complete notification is neither processed nor answered before the next frame is read')
                    return None
            if n == 'READ':
                return a.set(ans=None, done=False, pend=None)
            return a
        if is_svc(e, 'ok'):
            c.count('answers of the service')
            return a.set(ans=e[3], done=False)
        if n == 'next' and a.ans is not None:
            if e[1] is a.ans:
                if a.pend is not None:
                    x.violate('actions/dropped', 'an action the service returned is left out of the ack')
                return a.set(pend=e[2])
            return a
        if n == 'push' and a.pend is not None:
            if e[2] is a.pend:
                return a.set(pend=None)
            if mentions(e[2], a.pend):
                c.note('action in the ack: %s' % show(e[2])[:80])
                return a.set(pend=None)
            return a
        if n == 'cut' and a.ans is not None and not a.done and mentions(e[1], a.ans):
            x.violate('actions/cut', 'the rest of the actions the service returned is left out of the ack')
            return a.set(pend=None)
        if n == 'end' and a.ans is not None and e[1] is a.ans and a.pend is not None:
            x.violate('actions/dropped', 'an action the service returned is left out of the ack')
            return a.set(pend=None)
        if n == 'WRITE' and frame_of(e[2]) == 'AgentAck':
            ack(a, e, x)
            return a.set(done=True)
        if n == 'WRITE' and e[1] == 'ok' and a.ans is not None and not a.done and frame_of(e[2]) is not None:
            x.violate('other', 'a notification that was processed is answered with an %s' % frame_of(e[2]))
            return None
        return a

    def ack(a, e, x):
        c.count('acks written')
        p = e[2].a[2][0]
        if a.ans is None:
            x.violate('unasked', 'an ack is written although the service returned nothing for this frame')
            return
        if a.done:
            x.violate('twice', 'a second ack is written for one notification')
            return
        if p.t != 'adt':
            c.note('ack not understood: %s' % show(p)[:80])
            return
        f = fields(p)
        for n in ('stream_id', 'frame_id'):
            want = k.field(a.frame, 'HaproxyNotify', n)
            if f[n] is not want:
                if unknown(f[n]):
                    c.note('%s of an ack: %s' % (n, show(f[n])[:80]))
                else:
                    x.violate('ids/' + n, 'the %s of an ack is %s, not the one of its notification' % (n, show(f[n])))
        for n in ('fragmented', 'aborted'):
            v = f[n]
            if v.t == 'i':
                if v.a[0]:
                    x.violate('flags/' + n, 'an ack is marked %s' % n)
            elif unknown(v):
                c.note('%s of an ack: %s' % (n, show(v)[:60]))
            else:
                d = k.decided(a, v)
                if d != 0:
                    x.violate('flags/' + n, 'an ack is marked %s when %s' % (n, show(v)))
        v = f['actions']
        if v is a.ans or isop(v, 'list') and v.a[1] is a.ans:
            return
        for y in walk(v):
            if y.t == 'op' and (y.a[0] in REORDER or y.a[0].startswith('after:')) and mentions(y, a.ans):
                x.violate('actions/' + y.a[0], 'the actions of an ack are %s' % show(v)[:100])
                return
        if v.t == 'coll':
            its = pushes.get(v.a[0], ())
            if not its and not mentions(v, a.ans):
                x.violate('actions/none', 'the actions the service returned are not put into the ack')
            for it in its:
                if unknown(it):
                    c.note('actions of an ack: %s' % show(it)[:80])
                elif not mentions(it, a.ans):
                    for y in walk(it):
                        if y.t == 's' and y.a[0] == 'el' and mentions(young(y), young(a.ans)):
                            break
                    else:
                        x.violate('actions/other', 'an ack contains the action %s' % show(it)[:80])
                else:
                    el = [y for y in walk(it) if y.t == 's' and y.a[0] == 'el']
                    for y in el:
                        src = y.a[1] if len(y.a) > 1 else None
                        if isinstance(src, V) and any(z.t == 'op' and (z.a[0] in REORDER or z.a[0].startswith('after:')) for z in walk(src)):
                            x.violate('actions/order', 'the actions of an ack are taken from %s' % show(src)[:80])
            return
        if unknown(v):
            c.note('actions of an ack: %s' % show(v)[:100])
        elif not mentions(v, a.ans):
            x.violate('actions/other', 'the actions of an ack are %s, not those the service returned' % show(v)[:100])
        else:
            c.note('actions of an ack: %s' % show(v)[:100])

    def end(a, n, x):
        if n.end[0] == 'return' and a.ans is not None and not a.done:
            x.violate('missing/end', 'a connection ends without answering a notification that was processed')
    Auto(c, g, Rec(ans=None, done=False, pend=None, **k.START), step, end)
    c.floor('answers of the service', 2)
    c.floor('acks written', 2)


# ------------------------------------------------------------------ C17
def C17(c):
    c.rule('messages are handed to the service only on paths where the fragment flag of the notification at hand was found to be '
           'clear; with fragmentation negotiated a fragment is stored, nothing is written and the service is not called, and the '
           'final one is handed over together with what was stored for it; without it a fragment is refused with '
           'FragmentNotSupported')
    k = Conn(c)

    def frag(a):
        if a.frame is None:
            return None
        return k.decided(a, k.field(a.frame, 'HaproxyNotify', 'fragmented'))

    def step(a, e, x):
        if e[0] == 'READ':
            leaving(a, x)
        a = k.follow(a, e)
        n = e[0]
        if n == 'READ':
            return a.set(slot=None, stored=False, refused=False, w=False)
        if n == 'br' and e[1].t == 'op' and e[1].a[0] == 'contains' and any(isadt(y, 'Capability', 'Fragmentation') for y in walk(e[1])):
            hs = a.frame is not None and mentions(e[1], k.field(a.frame, 'HaproxyHello', 'capabilities'))
            rs = 'capabilities' in k.runtime_fields(e[1])
            if hs != rs and e[2]:
                # what only one of the two has is not negotiated
                half = a.half | {'H' if hs else 'R'}
                return a.set(half=half, neg=True if len(half) == 2 else None, other='%s alone' % show(e[1])[:100])
            return a.set(neg=bool(e[2]))
        if n in ('br', 'brx', 'next') and a.n == 1 and a.frame is not None and a.other != '?' and (
                mentions(e[1], k.field(a.frame, 'HaproxyHello', 'capabilities')) or 'capabilities' in k.runtime_fields(e[1]) or
                any(isadt(y, 'Capability') for y in walk(e[1]))):
            # decided by something else about the capabilities
            known = n == 'br' and (e[1].t == 'op' and e[1].a[0] == 'contains' and any(isadt(y, 'Capability') for y in walk(e[1])) or
                                   e[1].t == 'op' and e[1].a[0] in ('eq', 'lt') and any(isop(y, 'len') for y in e[1].a[1:] if isinstance(y, V)) or isop(e[1], 'len'))
            return a.set(other=show(e[1])[:100] if known and not unknown(e[1]) else '?')
        if n in ('occupied', 'vacant'):
            return a.set(slot=n)
        if n == 'mapget':
            return a.set(slot='occupied' if e[3] else 'vacant')
        if n in ('append', 'concat', 'mapset', 'vecop', 'push', 'insert') and a.frame is not None and any(
                mentions(y, k.field(a.frame, 'HaproxyNotify', 'messages')) for y in e[1:] if isinstance(y, V)):
            return a.set(stored=True)
        if is_svc(e, 'call'):
            c.count('calls of the service')
            if a.kind != 'HaproxyNotify':
                return a
            f = frag(a)
            if f is None:
                x.violate('call/unchecked', 'messages are handed to the service without the fragment flag of their frame being checked')
                return a
            if f == 1:
                x.violate('call/fragment', 'the messages of a fragment are handed to the service')
                return a
            v = e[4]
            ms = k.field(a.frame, 'HaproxyNotify', 'messages')
            if not mentions(v, ms):
                if unknown(v):
                    c.note('messages: %s' % show(v)[:80])
                else:
                    x.violate('call/other', 'the service is handed %s, without the messages of the frame at hand' % show(v)[:80])
            elif v is ms and a.neg and a.slot != 'vacant':
                x.violate('call/forgotten', 'the service is handed the final fragment without the fragments stored before it')
            return a
        if n == 'WRITE':
            fr = frame_of(e[2])
            if fr in ('AgentAck', 'AgentHello') and a.kind == 'HaproxyNotify' and frag(a) == 1:
                x.violate('reply', 'a fragment is answered with an %s' % fr)
            if fr == 'AgentDisconnect' and a.kind == 'HaproxyNotify' and frag(a) == 1 and not a.w:
                code, _ = code_text(e[2])
                c.count('fragments refused')
                if a.neg is False and code is not None and code.t == 'i' and code.a[0] != STATUS['FragmentNotSupported']:
                    x.violate('status/%d' % code.a[0], 'a fragment that was not negotiated is refused with status %d' % code.a[0])
                if a.neg is True and code is not None and code.t == 'i' and code.a[0] == STATUS['FragmentNotSupported']:
                    x.violate('refused', 'a fragment is refused although fragmentation was negotiated')
            return a.set(refused=True, w=a.w or e[1] == 'err')
        return a

    def leaving(a, x):
        """the connection goes on to the next frame"""
        if a.kind == 'HaproxyNotify' and frag(a) == 1:
            c.count('fragments kept')
            if a.neg is False:
                x.violate('accepted', 'a fragment is accepted although fragmentation was not negotiated')
            elif a.neg is True and not a.stored:
                x.violate('lost', 'the messages of a fragment are not stored')
            elif a.neg is None and a.other != '?':
                x.violate('unnegotiated', 'a fragment is accepted without fragmentation having been found among the capabilities negotiated%s' % (
                    '' if a.other is None else ' (decided by %s)' % a.other))
        elif a.kind == 'HaproxyNotify' and frag(a) is None and a.neg is False:
            x.violate('unchecked', 'without fragmentation a notification is accepted without its fragment flag being checked')
    Auto(c, k.g, Rec(neg=None, half=frozenset(), other=None, slot=None, stored=False, refused=False, w=False, **k.START), step)
    c.floor('calls of the service', 3)
    c.floor('fragments refused', 1)
    c.floor('fragments kept', 1)


# ------------------------------------------------------------------ C19
def C19(c):
    c.rule('every wait for a service to become ready or to answer happens under a timeout of the configured maximum processing '
           'time; after it expires the connection writes the status Timeout, after an error of the service Unknown, and in '
           'neither case an ack, a further read or a further call')
    k = Conn(c)

    def fixed(d):
        """a constant duration"""
        return d.t == 'op' and 'Duration::from_' in str(d.a[0]) and all(q.t == 'i' for q in d.a[1:])

    def step(a, e, x):
        a = k.follow(a, e)
        n = e[0]
        if n == 'WAIT' and str(e[1]).startswith('svc:svc'):
            c.count('waits for the service')
            u = e[2] if len(e) > 2 else ()
            if not any('max_process_time' in k.runtime_fields(d) for d in u):
                if any(unknown(d) and not fixed(d) for d in u):
                    c.note('wait under %s' % (show(u[0])[:60]))
                elif u:
                    x.violate('bound/%s' % e[1], 'a wait for the service (%s) is bounded by %s, not by the configured processing time' % (e[1][8:], show(u[0])))
                else:
                    x.violate('unbounded/%s' % e[1], 'a wait for the service (%s) is not bounded by the processing time' % e[1][8:])
            else:
                for d in u:
                    if 'max_process_time' in k.runtime_fields(d) and k.runtime_field(d) is None:
                        q = d
                        while q.t in ('fld', 'cref', 'ref') and isinstance(q.a[0], V):
                            q = q.a[0]
                        m = q.a[0].split('::')[-1] if q.t == 'op' and ('Duration::' in str(q.a[0]) or 'ops::arith::' in str(q.a[0])) else ''
                        if d.t == 'op' and d.a[0] in ('mul', 'shl', 'add', 'div', 'sub') or d.t == 'lin' or m.startswith(
                                ('saturating_', 'mul', 'div', 'checked_', 'abs_diff', 'add', 'sub')):
                            x.violate('scaled', 'a wait for the service is bounded by %s' % show(d))
                        else:
                            c.note('wait under %s' % show(d)[:60])
            return a
        if n == 'elapsed':
            return a.set(bad='timeout')
        if is_svc(e, 'err', 'ready-err'):
            return a.set(bad='error')
        if n == 'READ':
            if a.bad:
                x.violate('swallowed/%s' % a.bad, 'the connection goes on to the next frame after a %s of the service' % a.bad)
                return None
            return a
        if is_svc(e, 'ready', 'call', 'ok'):
            if a.bad == 'timeout' or a.bad == 'error' and e[2] != 'ready':
                x.violate('again/%s' % a.bad, 'the service is used further after a %s' % a.bad)
                return None
            return a
        if n == 'WRITE' and a.bad and not a.told:
            fr = frame_of(e[2])
            if fr == 'AgentDisconnect':
                code, _ = code_text(e[2])
                c.count('failed services reported')
                want = STATUS['Timeout'] if a.bad == 'timeout' else STATUS['Unknown']
                if code is not None and not unknown(code) and not (code.t == 'i' and code.a[0] == want) and not any(isop(y, 'downcast') for y in walk(code)):
                    x.violate('status/%s/%s' % (a.bad, show(code)[:30]), 'a %s of the service is reported with status %s' % (a.bad, show(code)))
                return a.set(told=True)
            if fr is not None:
                x.violate('success/%s' % a.bad, 'a %s of the service is answered with an %s' % (a.bad, fr))
            return a
        return a

    def end(a, n, x):
        if n.end[0] == 'return' and a.bad and not a.told:
            x.violate('silent/%s' % a.bad, 'a connection ends after a %s of the service without a report' % a.bad)
    Auto(c, k.g, Rec(bad=None, told=False, **k.START), step, end)
    c.floor('waits for the service', 2)
    c.floor('failed services reported', 4)


# ------------------------------------------------------------------ C20
def C20(c):
    c.rule('on no path of a connection is a frame read, a service called or a frame written after a disconnect frame was written, '
           'a health check was answered or a write failed (except the report of a reply that was too big to be sent); no service '
           'is made for a health check')
    k = Conn(c)
    wst = variants(adt_path('haproxy_spop::error::Error'))[1]

    def step(a, e, x):
        a = k.follow(a, e)
        n = e[0]
        if n == 'WAIT' and e[1] == 'READ' or n == 'READ':
            if a.over:
                x.violate('read/' + a.over, 'a frame is awaited or read after %s' % SAY[a.over])
                return None
            if n == 'READ':
                return a.set(hc=None)
            return a
        if n == 'SVC':
            if a.over:
                x.violate('service/' + a.over, 'a service is called after %s' % SAY[a.over])
                return None
            if e[1] == 'make' and a.hc:
                x.violate('make/healthcheck', 'a service is made for a health check')
            return a.set(made=a.made or e[1] == 'make')
        if n in ('br', 'brx'):
            if a.w is not None and isop(e[1], 'discr') and e[1].a[1] is a.w:
                if n == 'br' and e[2] == wst['TooBig'] or n == 'brx' and wst['TooBig'] not in e[2]:
                    if a.over == 'failed':
                        return a.set(over=None if a.fr != 'AgentDisconnect' else 'retry')
                return a
            if a.frame is not None and a.kind == 'HaproxyHello':
                hc = k.field(a.frame, 'HaproxyHello', 'healthcheck')
                if mentions(e[1], hc):
                    r = hcval(e, hc)
                    if r is not None:
                        if r and a.made:
                            x.violate('make/healthcheck', 'a service is made for a health check')
                        return a.set(hc=r)
            return a
        if n == 'WRITE':
            fr = frame_of(e[2])
            if a.over and not (a.over == 'retry' and fr == 'AgentDisconnect'):
                x.violate('write/' + a.over, 'an %s is written after %s' % (fr or 'unknown frame', SAY[a.over]))
                return None
            c.count('writes')
            if e[1] == 'err':
                return a.set(over='failed', w=e[3], fr=fr)
            if fr == 'AgentDisconnect':
                return a.set(over='disconnect')
            if fr == 'AgentHello' and a.hc:
                return a.set(over='healthcheck')
            if fr == 'AgentHello' and a.hc is None:
                return a.set(over='healthcheck') if False else a.set(blind=True)
            return a
        return a

    def hcval(e, hc):
        """what a decision says about a health check being asked for"""
        if e[0] != 'br':
            return None
        if isop(e[1], 'discr'):
            return False if e[2] == 0 else None
        flag = mk('fld', hc, 1, 0)
        if mentions(e[1], flag):
            v1, v0 = evalv(e[1], {flag: 1}), evalv(e[1], {flag: 0})
            if v1 is not None and v1 != v0:
                return v1 == e[2]
        # a comparison of the whole option
        for y in walk(e[1]):
            if isadt(y, 'Option', 'Some') and isinstance(y.a[2][0], V) and y.a[2][0].t == 'i':
                return bool(e[2]) == bool(y.a[2][0].a[0])
        return None

    SAY = {'disconnect': 'a disconnect frame was sent', 'healthcheck': 'a health check was answered', 'failed': 'a write failed',
           'retry': 'a disconnect frame was too big'}

    def step3(a, e, x):
        b = step(a, e, x)
        if b is not None and b.blind and (e[0] == 'READ'):
            x.violate('healthcheck/ignored', 'the connection goes on after its hello without having looked whether HAProxy asked for a health check')
            return None
        return b
    Auto(c, k.g, Rec(over=None, w=None, fr=None, hc=None, made=False, blind=False, **k.START), step3)
    c.floor('writes', 10)


# ------------------------------------------------------------------ C29
def C29(c):
    c.rule('every frame a connection writes is an agent hello, an ack or an agent disconnect; a hello is written at most once, and '
           'only while a HAProxy hello is the frame at hand')
    k = Conn(c)

    def step(a, e, x):
        a = k.follow(a, e)
        if e[0] != 'WRITE':
            return a
        fr = frame_of(e[2])
        c.count('frames written')
        if fr is None:
            if unknown(e[2]):
                c.note('frame written: %s' % show(e[2])[:80])
            else:
                x.violate('unknown/%s' % show(e[2])[:30].split('.')[0], 'the connection writes the frame %s' % show(e[2])[:80])
            return a
        if fr not in ('AgentHello', 'AgentAck', 'AgentDisconnect'):
            x.violate('kind/' + fr, 'the connection writes a %s frame' % fr)
        if fr == 'AgentHello':
            if a.hello:
                x.violate('hello/twice', 'a second agent hello is written')
            if a.kind != 'HaproxyHello':
                x.violate('hello/reply', 'an agent hello is written although the frame at hand was not found to be a HAProxy hello')
            return a.set(hello=True)
        return a
    Auto(c, k.g, Rec(hello=False, **k.START), step)
    c.floor('frames written', 10)


# ------------------------------------------------------------------ C31
def C31(c):
    c.rule('every call of a service maker or of a service follows a readiness report of the same one with no other call in between; '
           'after an error while waiting for readiness no call is made and no success is reported')
    k = Conn(c)

    def step(a, e, x):
        if e[0] == 'SVC':
            what, ev = e[1], e[2]
            st = dict(a)
            if ev == 'ready':
                st[what] = ('ready', e[3])
            elif ev == 'ready-err':
                st[what] = ('failed', None)
            elif ev == 'call':
                c.count('calls')
                s = st.get(what, (None, None))
                nm = 'service maker' if what == 'make' else 'service'
                if s[0] is None:
                    x.violate(what + '/unready', 'the %s is called without having reported that it is ready' % nm)
                elif s[0] == 'failed':
                    x.violate(what + '/failed', 'the %s is called although waiting for it to become ready failed' % nm)
                elif s[1] is not e[3] and young(s[1]) is not young(e[3]) and not unknown(e[3]):
                    x.violate(what + '/other', 'the %s that is called (%s) is not the one that reported ready (%s)' % (nm, show(e[3])[:60], show(s[1])[:60]))
                st[what] = (None, None)
            return tuple(sorted(st.items(), key=lambda t: t[0]))
        if e[0] == 'WRITE' and e[1] == 'ok' and frame_of(e[2]) in ('AgentHello', 'AgentAck'):
            for w, s in a:
                if s[0] == 'failed':
                    x.violate(w + '/success', 'an %s is sent although waiting for the service to become ready failed' % frame_of(e[2]))
        if e[0] == 'READ':
            for w, s in a:
                if s[0] == 'failed':
                    x.violate(w + '/goes-on', 'the connection goes on although waiting for the service to become ready failed')
                    return None
        return a
    Auto(c, k.g, (), step)
    c.floor('calls', 4)


# ------------------------------------------------------------------ the agent
def spawns(g):
    for n, evs, m in edges(g):
        for e in evs:
            if e[0] == 'SPAWN':
                yield n, e, m


def conn_of(v):
    """the connection inside a task"""
    for x in walk(v):
        if isadt(x, 'Connection'):
            return x
    return None


def tokens(c, g):
    """cancellation tokens the agent waits for"""
    return {e[1] for n, evs, m in edges(g) for e in evs if e[0] in ('CANCELLED', 'IS_CANCELLED')}


EXITS = ('process::exit', 'process::abort', 'intrinsics::abort')


def C21(c):
    c.rule('a connection runs as a task of its own whose outcome the agent never waits for; the only token it or its task ever '
           'cancels is the connection\'s own, which is a child of the agent\'s; nothing on its paths ends the process; the agent '
           'ends on no path but a requested shutdown')
    g = c.graph('agent')
    toks = tokens(c, g)
    for n, e, m in spawns(g):
        c.count('spawned tasks')
        v = conn_of(e[1])
        if v is None:
            c.note('no connection in the task %s' % show(e[1])[:80])
            continue
        t = fields(v).get('tok')
        ts = [fv for fv in v.a[2] if isop(fv, 'child') or fv in toks]
        t = t if t is not None else (ts[0] if ts else None)
        if t is None or unknown(t):
            c.note('token of a connection: %s' % (show(t)[:60] if t else '?'))
        elif t in toks:
            c.violate('token/shared', 'a connection gets the token of the agent itself (%s): cancelling it stops the agent and every other connection' % show(t), path_to(g, n))
        elif isop(t, 'child'):
            c.count('tokens of connections')
            pars = {x.a[1] for x in walk(t) if isop(x, 'child')}
    # what a connection cancels
    for name in ('serve', 'task'):
        try:
            h = c.graph(name)
        except Missing as x:
            c.note(str(x))
            continue
        for n, evs, m in edges(h):
            for e in evs:
                if e[0] == 'cancel-token':
                    c.count('cancellations')
                    t = e[1]
                    if name == 'serve':
                        own = t.t == 's' and t.a[0] == 'param' or isop(t, 'child') or isop(t, 'token')
                        if not own and not unknown(t):
                            c.violate('cancel/serve', 'a connection cancels %s, which is not its own token' % show(t), path_to(h, n) + [evs_str(evs)])
                    elif not (isop(t, 'child') or isop(t, 'token')) and not unknown(t):
                        c.violate('cancel/task', 'the task of a connection cancels %s, which is not its own token' % show(t), path_to(h, n) + [evs_str(evs)])
                elif e[0] == 'ABORT':
                    c.violate('abort/' + name, 'a task is aborted', path_to(h, n) + [evs_str(evs)])
                elif e[0] == 'opaque' and any(q in e[1] for q in EXITS):
                    c.violate('exit/' + name, 'a connection ends the process (%s)' % e[1], path_to(h, n) + [evs_str(evs)])
                elif e[0] == 'TRACKER' and e[1] in ('close',):
                    c.violate('tracker/' + name, 'a connection closes the tracker of the agent', path_to(h, n) + [evs_str(evs)])

    def step(a, e, x):
        if e[0] in ('CANCELLED',) or e[0] == 'IS_CANCELLED' and e[2]:
            return a | {'down'}
        if e[0] == 'WAIT' and e[1] in ('join', 'CONN', 'READ', 'WRITE'):
            x.violate('waits/' + e[1], 'the agent waits for a connection (%s)' % e[1])
        if e[0] == 'JOIN' or e[0] == 'CONN':
            return a | {'joined ' + e[1]}
        if e[0] == 'cancel-token':
            x.violate('cancel/agent', 'the agent cancels %s while it serves' % show(e[1])) if 'down' not in a else None
        if e[0] == 'ABORT' and 'down' not in a:
            x.violate('abort/agent', 'the agent aborts a task while it serves')
        if e[0] == 'opaque' and any(q in e[1] for q in EXITS):
            x.violate('exit/agent', 'the agent ends the process (%s)' % e[1])
        return a

    def end(a, n, x):
        c.count('endings of the agent')
        if n.end[0] == 'panic':
            x.violate('panic', '%s: the agent panics (%s)' % (n.end[3], n.end[1]))
        elif 'down' not in a and any(q.startswith('joined') for q in a):
            x.violate('ends', 'the agent ends because of the outcome of a connection')
    Auto(c, g, frozenset(), step, end)
    c.floor('spawned tasks', 1)
    c.floor('tokens of connections', 1)
    c.floor('cancellations', 1)


def C22(c):
    c.rule('on every path of the agent, after a shutdown was requested no connection is accepted any more, and the agent returns '
           'only after its task tracker reported empty or was waited for; every connection is spawned under that tracker with a '
           'child of the token that is cancelled; whenever a connection waits for a frame it also waits for its token; it looks '
           'at the token at no point between starting to process a notification and having written the reply')
    g = c.graph('agent')
    toks = tokens(c, g)
    trackers = {e[2] for n, evs, m in edges(g) for e in evs if e[0] == 'TRACKER'}

    def step(a, e, x):
        n = e[0]
        if n == 'CANCELLED' or n == 'IS_CANCELLED' and e[2]:
            return a.set(down=True)
        if a.down and (n == 'ACCEPT' or n == 'WAIT' and e[1] == 'accept'):
            x.violate('accepts', 'the agent goes on accepting connections after a shutdown was requested')
            return None
        if n == 'SPAWN':
            c.count('spawned tasks')
            return a.set(empty=False)
        if n == 'TRACKER':
            if e[1] == 'close':
                return a.set(closed=True)
            if e[1] == 'reopen':
                return a.set(closed=False)
            if e[1] in ('waited', 'empty'):
                return a.set(empty=True)
            if e[1] == 'not-empty':
                return a.set(empty=False)
        if n == 'WAIT' and e[1] == 'tracker':
            if not a.closed:
                x.violate('open', 'the agent waits for a tracker it never closed: the wait does not end')
        if n == 'ABORT':
            x.violate('abort', 'the agent aborts the task of a connection')
        return a

    def end(a, n, x):
        if n.end[0] != 'return':
            return
        c.count('endings of the agent')
        if not a.down:
            x.violate('early', 'the agent returns without a shutdown having been requested')
        elif not a.empty:
            x.violate('unfinished', 'the agent returns while connections it accepted may still be running')
    Auto(c, g, Rec(down=False, closed=False, empty=False), step, end)
    for n, e, m in spawns(g):
        f = e[1]
        if f.t == 'fut' and f.a[0] == 'tracked':
            c.count('tracked tasks')
            if trackers and f.a[1] not in trackers and not unknown(f.a[1]):
                c.violate('tracker', 'connections are tracked by %s, but the agent waits for %s' % (show(f.a[1]), ', '.join(show(t) for t in trackers)), path_to(g, n))
        elif unknown(f):
            c.note('task: %s' % show(f)[:80])
        elif trackers:
            c.violate('untracked', 'a connection is served by a task the agent does not wait for', path_to(g, n))
        else:
            c.note('the agent uses no task tracker')
        v = conn_of(f)
        t = fields(v).get('tok') if v is not None else None
        if t is not None and not unknown(t):
            c.count('tokens of connections')
            if t in toks:
                continue
            par = [x.a[1] for x in walk(t) if isop(x, 'child')]
            if not any(p in toks for p in par) and toks:
                c.violate('token', 'a connection gets the token %s, which a shutdown does not cancel' % show(t), path_to(g, n))
    try:
        h = c.graph('agent_shutdown')
        for n in ends(h):
            c.count('shutdown handles')
            if toks and n.end[1] not in toks and not unknown(n.end[1]):
                c.violate('handle', 'shutdown() hands out %s, but the agent waits for %s' % (show(n.end[1]), ', '.join(show(t) for t in toks)), path_to(h, n))
    except Missing as x:
        c.note(str(x))
    # the connection
    k = Conn(c)

    def cstep(a, e, x):
        n = e[0]
        if n == 'WAIT':
            if e[1] in ('READ', 'cancelled'):
                return a.set(waits=a.waits | {e[1]})
            return a
        if n == 'YIELD':
            c.count('suspensions')
            if 'READ' in a.waits and 'cancelled' not in a.waits:
                x.violate('deaf', 'a connection waits for a frame without waiting for its cancellation token')
            return a.set(waits=frozenset())
        if n == 'SVC' and e[1] == 'svc':
            if e[2] == 'call':
                c.count('notifications processed')
            return a.set(busy=e[2] in ('ready', 'call', 'ok'))
        if n == 'WAIT' and str(e[1]).startswith('svc:svc'):
            return a.set(busy=True)
        if n == 'elapsed':
            return a.set(busy=False)
        if n == 'WRITE' or n == 'READ':
            return a.set(busy=False, waits=frozenset())
        if n == 'CANCELLED' or n == 'IS_CANCELLED' and e[2]:
            if a.busy:
                x.violate('interrupted', 'a notification whose processing has begun is given up because of a shutdown')
                return None
            return a.set(waits=frozenset())
        if a.busy and n == 'drop' and isinstance(e[1], V) and e[1].t == 'fut' and e[1].a[0] == 'WRITE':
            x.violate('reply', 'the reply to a notification is given up')
        return a
    Auto(c, k.g, Rec(waits=frozenset(), busy=False), cstep)
    c.floor('spawned tasks', 1)
    c.floor('tokens of connections', 1)
    c.floor('suspensions', 4)
    c.floor('endings of the agent', 1)


def C23(c):
    c.rule('on every path of the agent the only suspensions while it serves are waits for the next connection and for a shutdown, '
           'both at once; every accepted connection is handed to a task of its own before the next wait; a failed accept, or '
           'anything but a requested shutdown, never ends the loop; nothing panics')
    g = c.graph('agent')

    def step(a, e, x):
        n = e[0]
        if n == 'CANCELLED' or n == 'IS_CANCELLED' and e[2]:
            return a.set(down=True)
        if a.down:
            return a
        if n == 'ACCEPT':
            if e[1] == 'ok':
                c.count('accepted connections')
            else:
                c.count('failed accepts')
            return a.set(conn=e[2] if e[1] == 'ok' else None, waits=frozenset(), last=e[1])
        if n == 'SPAWN':
            c.count('spawned tasks')
            return a.set(conn=None)
        if n == 'opaque' and a.conn is not None and any(mentions(v, a.conn) for v in e[2] if isinstance(v, V)):
            if any(y.t == 'cor' for v in e[2] if isinstance(v, V) for y in walk(v)):
                c.note('connection handed to %s' % e[1])
                return a.set(conn=None)
        if n == 'WAIT':
            if not isinstance(e[1], str):
                e = (n, show(e[1])[:60]) + e[2:]
            if a.conn is not None:
                if e[1] not in ('accept', 'cancelled'):
                    x.violate('inline/' + e[1], 'the agent waits (%s) for an accepted connection before it accepts the next' % e[1])
                else:
                    x.violate('dropped', 'an accepted connection is not served by a task of its own')
                return None
            if e[1] not in ('accept', 'cancelled'):
                x.violate('waits/' + e[1], 'the accept loop waits for something else than the next connection or a shutdown: %s' % e[1])
            return a.set(waits=a.waits | {e[1]})
        if n == 'blocklock' or n == 'opaque' and ('thread::sleep' in e[1] or 'block_on' in e[1]):
            x.violate('blocks', 'the accept loop blocks its thread')
        if n == 'YIELD':
            c.count('suspensions')
            if 'accept' not in a.waits:
                x.violate('paused', 'the accept loop suspends without waiting for the next connection')
            elif 'cancelled' not in a.waits:
                x.violate('deaf', 'the accept loop suspends without waiting for a shutdown')
            return a.set(waits=frozenset())
        return a

    def end(a, n, x):
        c.count('endings of the agent')
        if n.end[0] == 'panic':
            if not a.down:
                x.violate('panic', '%s: the agent panics (%s)' % (n.end[3], n.end[1]))
        elif n.end[0] == 'return' and not a.down:
            x.violate('ends/%s' % a.last, 'the agent stops without a shutdown having been requested%s' % (', after a failed accept' if a.last == 'err' else ''))
    Auto(c, g, Rec(down=False, conn=None, waits=frozenset(), last=None), step, end)
    c.floor('accepted connections', 1)
    c.floor('failed accepts', 1)
    c.floor('spawned tasks', 1)
    c.floor('suspensions', 1)


# ------------------------------------------------------------------ C30
DEFAULTS = {'max_frame_size': 16384, 'max_process_time': 15}
SETTERS = {'version': ('supported_versions', 'arg'), 'fragmentation': ('capabilities', 'Fragmentation'), 'pipelining': ('capabilities', 'Pipelining'),
           'asynchronous': ('capabilities', 'Async'), 'capabilities': ('capabilities', 'args'), 'capability': ('capabilities', 'arg'),
           'max_frame_size': ('max_frame_size', 'some'), 'max_process_time': ('max_process_time', 'some')}
SAME_LEN = ('list', 'set', 'copy', 'sorted', 'sortedby', 'rev')  # as empty as what they are made of
SHRINK = ('take', 'skip', 'filter', 'step_by', 'difference', 'intersection', 'dedup', 'slice')


def C30(c):
    c.rule('every runtime a builder makes has exactly the versions, capabilities, frame size and processing time of the builder, or '
           'for what is not set (decided on that very field) SPOP 2.0, 16384 and 15 s; every setter changes exactly its own field, '
           'by exactly its argument; a new builder is empty')
    bp = adt_path('builder::Builder')
    bf = ADTS[bp]['variants'][0]['fields']
    me = sym('param', 'self')
    fld = {n: mk('fld', me, None, i) for i, n in enumerate(bf)}
    g = c.graph('builder')

    def decided(a, v):
        """is an optional field set (1), unset (0); is a collection empty (0)/non-empty (1)?"""
        for b, d in a:
            if isop(b, 'discr') and b.a[1] is v and isinstance(d, int):
                return d
            for ln in sorted({y for y in walk(b) if isop(y, 'len')}, key=show):
                u = ln.a[1]
                while u.t == 'op' and u.a[0] in SAME_LEN and len(u.a) > 1:
                    u = u.a[1]
                if u is v and isinstance(d, int):
                    z = says_zero(rel(b, d), ln)
                    if z is not None:
                        return 1 - z
        return None

    def end(a, n, x):
        if n.end[0] == 'panic':
            x.violate('panic', '%s: building a runtime panics (%s)' % (n.end[3], n.end[1]))
            return
        rts = [y for y in walk(n.end[1]) if isadt(y, 'Runtime')]
        if not rts:
            c.note('no runtime in %s' % show(n.end[1])[:80])
            return
        c.count('runtimes built')
        f = fields(rts[0])
        lists(a, f, 'supported_versions', x)
        lists(a, f, 'capabilities', x)
        for nm in ('max_frame_size', 'max_process_time'):
            v, src = f[nm], fld[nm]
            pay = mk('fld', src, 1, 0)
            d = decided(a, src)
            if v is pay or v is src:
                if d == 0:
                    x.violate(nm + '/unset', '%s is taken from the builder although it is not set' % nm)
                continue
            const = v.a[0] if v.t == 'i' else None
            if v.t == 'adt' and v.a[0].endswith('Duration'):
                const = v.a[2][0].a[0] if v.a[2][0].t == 'i' else None
                ns = [y.a[0] for y in walk(v.a[2][1]) if y.t == 'i']
                if ns and ns[0]:
                    const = (const or 0) + ns[0] / 1e9
            if const is not None:
                if d == 1:
                    x.violate(nm + '/ignored', 'the %s given to the builder is not used' % nm)
                elif d is None:
                    if not any(mentions(b, src) for b, _ in a):
                        x.violate(nm + '/fixed', 'the %s of a runtime is %s, whatever the builder was given' % (nm, show(v)))
                if const != DEFAULTS[nm]:
                    x.violate(nm + '/default', 'the default %s is %s' % (nm, show(v)))
                continue
            if unknown(v) and d == 1 and isinstance(v, V) and v.t == 'op' and not v.syms and str(v.a[0]).startswith('call:core::'):
                # made of constants alone
                x.violate(nm + '/ignored', 'the %s given to the builder is not used: %s' % (nm, show(v)[:60]))
            elif unknown(v):
                c.note('%s of a runtime: %s' % (nm, show(v)[:80]))
            elif not mentions(v, src):
                x.violate(nm + '/other', 'the %s of a runtime is %s' % (nm, show(v)))
            elif isop(v, 'unwrap_or'):
                c.note('%s of a runtime: %s' % (nm, show(v)[:80]))
            else:
                x.violate(nm + '/changed', 'the %s of a runtime is %s, not what the builder was given' % (nm, show(v)))

    def lists(a, f, nm, x):
        v, src = f[nm], fld[nm]
        d = decided(a, src)
        if mentions(v, src):
            for y in walk(v):
                if y.t == 'op' and y.a[0] in SHRINK and mentions(y, src):
                    x.violate(nm + '/part', 'the %s of a runtime are %s' % (nm, show(v)[:80]))
            if any(y.t == 's' and 'grown' in y.a for y in walk(v)):
                # something was added to what the builder was given
                more = [(t, i) for t, its in pushes_of(g).items() if mentions(t, src) for i in its]
                own = [i for t, i in more if any(mentions(i, q) for q in (src, sym('el', src)))]
                if own or not more or d is None:
                    c.note('%s of a runtime: %s' % (nm, show(v)[:80]))
                elif d == 1:
                    x.violate(nm + '/more', 'to the %s given to the builder %s is added' % (nm, show(more[0][1])))
                elif nm != 'supported_versions' or any(
                        isadt(i, 'Version') and [q.a[0] for q in i.a[2] if q.t == 'i'] != [2, 0] for t, i in more):
                    x.violate(nm + '/default', 'the default %s are %s' % (nm, ', '.join(show(i) for t, i in more)))
                return
            if nm == 'supported_versions' and d is None:
                x.violate(nm + '/no-default', 'a builder without a version makes a runtime that supports none')
            if nm == 'supported_versions' and d == 0:
                x.violate(nm + '/no-default', 'a builder without a version makes a runtime that supports none')
            return
        if v.t == 'coll' and v.a[1].t == 'tup':
            its = v.a[1].a[0]
            if d == 1 or d is None and not any(mentions(b, src) for b, _ in a):
                x.violate(nm + '/ignored', 'the %s given to the builder are not used' % nm)
            elif nm == 'supported_versions':
                ok = len(its) == 1 and isadt(its[0], 'Version') and [q.a[0] for q in its[0].a[2] if q.t == 'i'] == [2, 0]
                if not ok and not any(unknown(i) for i in its):
                    x.violate(nm + '/default', 'the default versions are %s' % ', '.join(show(i) for i in its))
            elif its:
                x.violate(nm + '/default', 'the default %s are %s' % (nm, ', '.join(show(i) for i in its)))
            return
        # collected one by one
        its = pushes_of(g).get(v.a[0], ()) if v.t == 'coll' else ()
        if its and all(any(mentions(i, s) for s in (src, sym('el', src))) for i in its):
            c.note('%s of a runtime collected from %s' % (nm, ', '.join(show(i)[:40] for i in its)))
            return
        if unknown(v) or v.t == 'coll':
            c.note('%s of a runtime: %s' % (nm, show(v)[:80]))
        else:
            x.violate(nm + '/other', 'the %s of a runtime are %s' % (nm, show(v)[:80]))

    def step(a, e, x):
        if e[0] in ('br', 'brx') and (e[1], e[2]) not in a:
            return a + ((e[1], e[2]),)
        return a
    Auto(c, g, (), step, end)
    # a new builder
    try:
        h = c.graph('builder_new')
        for n in ends(h):
            if not isadt(n.end[1], 'Builder'):
                c.note('new builder: %s' % show(n.end[1])[:80])
                continue
            c.count('new builders')
            for nm, v in fields(n.end[1]).items():
                empty = isadt(v, 'Option', 'None') or v.t == 'coll' and v.a[1].t == 'tup' and not v.a[1].a[0]
                if not empty and not unknown(v):
                    if v.t == 'coll':
                        c.note('new builder: %s is %s' % (nm, show(v)[:60]))
                    elif nm in DEFAULTS and isadt(v, 'Option', 'Some') and v.a[2][0].t == 'i' and v.a[2][0].a[0] == DEFAULTS[nm]:
                        pass
                    else:
                        c.violate('new/' + nm, 'a new builder has the %s %s' % (nm, show(v)), path_to(h, n))
    except Missing as x:
        c.note(str(x))
    # the setters
    for d, fn in c.T.setters():
        name = fn['path'].split('::')[-1]
        if name not in SETTERS:
            if name not in ('new', 'make_service'):
                c.note('setter %s not looked at' % name)
            continue
        want, how = SETTERS[name]
        if want not in bf:
            c.note('the builder has no %s' % want)
            continue
        wi = bf.index(want)
        try:
            h = c.T.setter(d, fn)
        except Abort as e:
            c.note('setter %s: %s' % (name, e))
            continue
        for p in h.root.ip.covered:
            c.functions.add(p)
        arg = h.root.vals[1] if len(h.root.vals) > 1 else None
        for n in ends(h):
            c.count('setters')
            v = n.end[1]
            ch = None
            if v.t == 'upd' and v.a[0] is me:
                ch = dict(v.a[1])
            elif isadt(v, 'Builder'):
                ch = {i: x for i, x in enumerate(v.a[2]) if x is not mk('fld', me, None, i)}
            elif v is me:
                ch = {}
            if ch is None:
                c.note('setter %s returns %s' % (name, show(v)[:80]))
                continue
            for i in ch:
                if i != wi:
                    c.violate('setter/%s/%s' % (name, bf[i]), '%s() changes %s' % (name, bf[i]), path_to(h, n))
            evs = path_events(n)
            if how == 'some':
                nv = ch.get(wi)
                if nv is None:
                    c.violate('setter/%s/nothing' % name, '%s() does not set %s' % (name, want), path_to(h, n))
                elif isadt(nv, 'Option', 'Some'):
                    if nv.a[2][0] is not arg and not unknown(nv):
                        c.violate('setter/%s/value' % name, '%s() sets %s to %s' % (name, want, show(nv)), path_to(h, n))
                elif not unknown(nv):
                    c.violate('setter/%s/value' % name, '%s() sets %s to %s' % (name, want, show(nv)), path_to(h, n))
                continue
            items = []
            for e in evs:
                if e[0] in ('push', 'append') and e[1] is fld[want]:
                    items += e[2].a[0] if e[0] == 'append' and e[2].t in ('arr', 'tup') and how != 'args' else [e[2]]
            if how in ('arg', 'args') and any(e[0] == 'cut' for _, ev2, _ in edges(h) for e in ev2):
                c.violate('setter/%s/part' % name, '%s() keeps only so many of the %s' % (name, want), path_to(h, n))
            part = [y for y in walk(ch[wi]) if y.t == 'op' and y.a[0] in SHRINK] if wi in ch else ()
            if how in ('arg', 'args') and part:
                c.violate('setter/%s/part' % name, '%s() keeps %s' % (name, show(ch[wi])[:80]), path_to(h, n))
            if not items:
                if any(unknown(x) for x in ch.values()):
                    c.note('setter %s: %s' % (name, show(v)[:80]))
                elif how == 'args' and any(mentions(x, arg) for x in ch.values()) :
                    if not mentions(ch.get(wi, I(0)), fld[want]):
                        c.violate('setter/%s/replaces' % name, '%s() replaces the %s given before' % (name, want), path_to(h, n))
                elif how == 'args' and any(e[0] in ('next', 'end') and mentions(e[1], arg) for e in evs):
                    pass
                else:
                    c.violate('setter/%s/nothing' % name, '%s() does not add to %s' % (name, want), path_to(h, n))
                continue
            for it in items:
                if unknown(it):
                    c.note('setter %s adds %s' % (name, show(it)[:60]))
                elif how in ('arg', 'args'):
                    if it is not arg and not (how == 'args' and mentions(it, arg)):
                        c.violate('setter/%s/item' % name, '%s() adds %s' % (name, show(it)), path_to(h, n))
                elif not isadt(it, 'Capability', how):
                    c.violate('setter/%s/item' % name, '%s() adds %s' % (name, show(it)), path_to(h, n))
    # what a connection does with them
    embed(c, 'C14', lambda k, m: k.startswith(('size/', 'caps/')) or k == 'version/part')
    embed(c, 'C15', lambda k, m: 'before/' in k)
    embed(c, 'C19', lambda k, m: k.startswith(('bound/', 'unbounded/')) or k == 'scaled')
    c.floor('runtimes built', 4)
    c.floor('setters', 8)
