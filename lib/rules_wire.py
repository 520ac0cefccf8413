"""Rules for the wire format: what the reader accepts and builds, what the writer emits."""
from rulekit import *

FRAMES = {   # variant: (type id, struct)
    'HaproxyHello': (1, 'haproxy::Hello'), 'HaproxyDisconnect': (2, 'disconnect::Disconnect'),
    'HaproxyNotify': (3, 'haproxy::Notify'), 'AgentHello': (101, 'agent::Hello'),
    'AgentDisconnect': (102, 'disconnect::Disconnect'), 'AgentAck': (103, 'agent::Ack')}
TYPES = {0: 'Null', 1: 'Boolean', 2: 'Int32', 3: 'Uint32', 4: 'Int64', 5: 'Uint64', 6: 'Ipv4', 7: 'Ipv6', 8: 'String', 9: 'Binary'}
STATUS = {'Normal': 0, 'Io': 1, 'Timeout': 2, 'TooBig': 3, 'Invalid': 4, 'NoVersion': 5, 'NoFrameSize': 6, 'NoCapabilities': 7,
          'BadVersion': 8, 'BadFrameSize': 9, 'FragmentNotSupported': 10, 'InterlacedFrames': 11, 'FrameIdNotFound': 12,
          'ResourceAllocErr': 13, 'Unknown': 99}
KEYS = {   # frame: {key: (field, kind, mandatory status or None)}
    'HaproxyHello': {'supported-versions': ('supported_versions', 'list', 'NoVersion'),
                     'max-frame-size': ('max_frame_size', 'uint', 'NoFrameSize'),
                     'capabilities': ('capabilities', 'list', 'NoCapabilities'),
                     'healthcheck': ('healthcheck', 'bool', None),
                     'engine-id': ('engine_id', 'string', None)},
    'AgentHello': {'version': ('version', 'display', 'NoVersion'),
                   'max-frame-size': ('max_frame_size', 'uint', 'NoFrameSize'),
                   'capabilities': ('capabilities', 'list', 'NoCapabilities')},
    'HaproxyDisconnect': {'status-code': ('status_code', 'uint', False), 'message': ('message', 'string', False)},
    'AgentDisconnect': {'status-code': ('status_code', 'uint', False), 'message': ('message', 'string', False)}}
HELLO = ('HaproxyHello', 'AgentHello')
DISC = ('HaproxyDisconnect', 'AgentDisconnect')
FIXED = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'varint', 'typed'}
SCOPES = {'Process': 0, 'Session': 1, 'Transaction': 2, 'Request': 3, 'Response': 4}


def frame_path():
    return adt_path('frames::Frame')


def struct_path(variant):
    return adt_path('haproxy_spop::frame::' + FRAMES[variant][1])


def frame_field(variant, name):
    """the term for a field of the frame being written"""
    fp = frame_path()
    vi = variants(fp)[1][variant]
    return fieldof(mk('fld', sym('param', 'frame'), vi, 0), struct_path(variant), name)


def wirebody(x):
    """is x (the id of) the body of the frame read from the transport?"""
    return any('wirebody' in s.a for s in x.syms)


# ------------------------------------------------------------------ reader automaton
class Rd:
    """state of the reading automaton"""
    F = ('dec', 'hdr', 'ids', 'brs', 'tok', 'cnt', 'bad', 'left', 'miss', 'got', 'lost', 'bound')
    __slots__ = F

    def __init__(self, **k):
        for f in self.F:
            setattr(self, f, k.get(f))

    def key(self):
        return tuple(getattr(self, f) for f in self.F)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def set(self, **k):
        n = Rd()
        for f in self.F:
            setattr(n, f, k[f] if f in k else getattr(self, f))
        return n


RD0 = Rd(dec=(), hdr=(), ids=(), brs=(), tok=(), cnt=None, bad=False, left=None, miss=(), got=frozenset(), lost=False, bound=None)
HDR = ('u8', 'u32', 'varint', 'varint')


def tok_decided(tok, r):
    """note a decision on the numbers read"""
    out = []
    for t in tok:
        k, x, v = t
        d = decides(r, x)
        out.append((k, x, d if d is not None else v))
    return tuple(out)


# what keeps a text or a list of bytes what it is, and what does not
SAME = ('utf8', 'copy', 'tostr', 'asbytes', 'bytes', 'list', 'string', 'text')
CHANGED = ('utf8lossy', 'trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_start_matches', 'trim_end_matches',
           'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'rev', 'split', 'replace', 'lin', 'neg', 'wrap', 'slice',
           'strip_prefix', 'strip_suffix', 'and', 'repeat')


def kept(v, s):
    """is v the value s (True), something else (False), s after a change (its name) or s in an unknown way (None)?"""
    w = v
    while w is not s and (w.t == 'op' and w.a[0] in SAME and len(w.a) > 1 or w.t == 'fld' and w.a[-1] == '*'):
        w = w.a[1] if w.t == 'op' else w.a[0]
    if w is s or w.t == 'op' and w.a[0] == 'slice_n' and w.a[1] is s:
        return True
    if unknown(v):
        return None
    if s in v.syms or mentions(v, s):
        ch = [y.a[0] for y in walk(v) if y.t == 'op' and y.a[0] in CHANGED and mentions(y, s)]
        return ch[0] if ch else None
    return False


def reading(c, g, end, want):
    """run the automaton that follows what is read from a frame's body"""

    def say(prop, key, msg, x):
        if c.prop == prop:
            x.violate(key, msg)

    def step(a, e, x):
        k = e[0]
        if k == 'R' and wirebody(e[3]):
            kind, s = e[1], e[2]
            if len(a.hdr) < 4 and not a.lost:
                w = HDR[len(a.hdr)]
                if kind == w:
                    c.count('header reads')
                    return a.set(hdr=a.hdr + ((kind, s, None),))
                if kind in ('bytes',) or unknown(s):
                    c.note('header read in an unknown way: %s' % kind)
                    return a.set(lost=True)
                say('C04', 'header/%d/%s' % (len(a.hdr), kind),
                    'item %d of the frame header is read as %s, not as %s' % (len(a.hdr), kind, w), x)
                return a.set(lost=True)
            c.count('body reads')
            t = a.tok + ((kind, s, None),)
            cnt = a.cnt
            b = a
            if kind == 'u8':
                cnt = None
                b = b.set(bound=(s, 0, False, ()))
            elif kind == 'varint' and a.bound is not None and a.tok and a.tok[-1][1] is a.bound[0] and tuple(q[0] for q in a.tok[-3:]) == ('varint', 'bytes', 'u8'):
                nb, i, seen, dec = a.bound
                if i == 0 and not seen:
                    say('C06', 'message/over', 'an argument of a message is read without a look at the number announced', x)
                elif seen and i < 3 and dec:
                    got = [(evalv(t1, {nb: i}), d1) for t1, d1 in dec]
                    if all(q is not None for q, _ in got) and all(q == d1 if isinstance(d1, int) else q not in d1 for q, d1 in got):
                        say('C06', 'message/over', 'argument %d of a message is read although %d are announced' % (i + 1, i), x)
                b = b.set(bound=(nb, i + 1, False, dec) if i < 3 else None)
            return b.set(tok=t[-8:], cnt=cnt)
        if k in ('next', 'end', 'br', 'brx', 'opaque') and a.bound is not None and any(
                isinstance(y, V) and (a.bound[0] in y.syms or unknown(y)) for y in e[1:]):
            nb, i, seen, dec = a.bound
            a = a.set(bound=(nb, i, True, dec + ((e[1], e[2]),) if k in ('br', 'brx') else dec))
        if k in ('br', 'brx') and c.prop == 'C07' and len(a.hdr) == 4 and (a.hdr[2][1] in e[1].syms or a.hdr[3][1] in e[1].syms):
            if a.ids is None or len(a.ids) >= 12:
                a = a.set(ids=None)
            elif (e[1], e[2], k) not in a.ids:
                a = a.set(ids=a.ids + ((e[1], e[2], k),))
        if k in ('br', 'brx') and c.prop == 'C06' and a.dec is not None and any(t[0] == 'u8' and t[1] in e[1].syms for t in a.tok[-6:]):
            if (e[1], e[2], k) not in a.dec:
                a = a.set(dec=a.dec + ((e[1], e[2], k),) if len(a.dec) < 24 else None)
        if k == 'brx' and isinstance(e[2], (tuple, list, set, frozenset)) and 0 in e[2]:
            for i in (2, 3):
                if len(a.hdr) > i and a.hdr[i][1] is uncast(e[1]) and a.hdr[i][2] is None:
                    h = list(a.hdr)
                    h[i] = (h[i][0], h[i][1], ('z', 0))
                    a = a.set(hdr=tuple(h))
        if k == 'br':
            r = rel(e[1], e[2])
            b = a
            hd = tok_decided(a.hdr, r)
            if hd != a.hdr:
                b = b.set(hdr=hd)
            if len(a.hdr) >= 2 and a.hdr[1][1] in e[1].syms:
                b = b.set(brs=(b.brs + ((e[1], e[2]),))[-6:])
            for i in (2, 3):
                if len(hd) > i and hd[i][1] in e[1].syms:
                    z = says_zero(r, hd[i][1])
                    if z is None:
                        if r[3] and r[0] == 'eq' or not r[3] and r[0] == 'lt':
                            z = 'unknown'
                    if z is not None:
                        h = list(b.hdr)
                        h[i] = (h[i][0], h[i][1], ('z', z))
                        b = b.set(hdr=tuple(h))
            tk = tok_decided(b.tok, r)
            if tk != b.tok:
                b = b.set(tok=tk)
            # a count compared with the number of items
            for t in b.tok:
                if t[0] == 'u8' and t[1] in e[1].syms:
                    o, p, q, d = r
                    if o == 'eq':
                        b = b.set(cnt=(t[1], bool(d)))
                    elif o == 'lt':
                        # i < n false: all were read; n < i false: not too many
                        if t[1] in q.syms:
                            b = b.set(cnt=(t[1], not d))
                        else:
                            b = b.set(cnt=(t[1], not d) if not d else (t[1], False))
            return b
        if k == 'push' or k in ('mapset', 'insert'):
            it = e[2] if k == 'push' else tup(e[2], e[3]) if len(e) > 3 and isinstance(e[3], V) else None
            if isinstance(it, V):
                return item(a, it, x)
            return a
        if k == 'Rfail' and wirebody(e[2]):
            c.count('failing reads')
            return a.set(bad=('read of a %s failed' % e[1]))
        if k == 'bad' and any('rd' in s.a for s in e[2].syms):
            c.count('failing conversions')
            if any(s for s in e[2].syms if 'rd' in s.a):
                return a.set(bad=('%s refused' % e[1]))
        if k == 'dropbuf' and wirebody(e[1]):
            return a.set(left=(e[2], e[3]))
        if k == 'mapget' and e[2].t == 'str':
            if e[3] == 0 or str(e[3]) == '0':
                return a.set(miss=tuple(sorted(set(a.miss) | {e[2].a[0]})))
            return a.set(got=a.got | {e[2].a[0]})
        return a

    def item(a, it, x):
        t = a.tok
        if isadt(it, 'Action'):
            c.count('actions built')
            return action(a, it, x)
        if isadt(it, 'Message'):
            c.count('messages built')
            f = fields(it)
            if len(t) < 3:
                return a.set(tok=())
            kinds = tuple(q[0] for q in t[-3:])
            if kinds != ('varint', 'bytes', 'u8'):
                if all(q in FIXED or q == 'bytes' for q in kinds):
                    say('C06', 'message/layout', 'a message is read as %s, not as name and count' % (kinds,), x)
                return a.set(tok=())
            nm = t[-2][1]
            check_same(f['name'], nm, 'C06', 'message/name', 'the name of a message is not the one read', x)
            ok = a.cnt is not None and a.cnt[0] is t[-1][1] and a.cnt[1] or t[-1][2] is not None
            if not ok:
                say('C06', 'message/count', 'a message is built without its argument count matching the number of arguments read', x)
                say('C02', 'message/count', 'a message is built although fewer arguments were read than announced', x)
            return a.set(tok=(), cnt=None)
        if it.t == 'tup' and len(it.a[0]) == 2:
            c.count('items built')
            k, v = it.a[0]
            kinds = tuple(q[0] for q in t[-3:])
            if kinds != ('varint', 'bytes', 'typed'):
                if len(t) >= 2 and any(q[0] == 'typed' for q in t[-3:]):
                    say('C06', 'item/layout', 'a named item is read as %s, not as name and typed value' % (kinds,), x)
                    say('C05', 'item/layout', 'a named item is read as %s, not as name and typed value' % (kinds,), x)
                return a
            for p in ('C05', 'C06'):
                check_same(k, t[-2][1], p, 'item/name', 'the name of an item is not the one read', x)
                check_same(v, t[-1][1], p, 'item/value', 'the value of an item is not the one read', x)
            return a.set(tok=t[:-3])
        return a

    def action(a, it, x):
        t = a.tok
        f = fields(it)
        vn = vname(it)
        want = {'SetVar': ('u8', 'u8', 'u8', 'varint', 'bytes', 'typed'), 'UnsetVar': ('u8', 'u8', 'u8', 'varint', 'bytes')}.get(vn)
        if want is None or not t:
            return a.set(tok=())
        kinds = tuple(q[0] for q in t)
        if kinds != want:
            if all(q in FIXED or q == 'bytes' for q in kinds):
                say('C06', 'action/%s/layout' % vn, '%s is read as %s' % (vn, kinds), x)
            return a.set(tok=())
        ty, nb, sc = t[0], t[1], t[2]
        if ty[2] is None or nb[2] is None:
            rr = [q for q in (ty, nb) if q[2] is None]
            if ty[2] is None:
                say('C06', 'action/%s/type' % vn, 'the id of an action is not checked before %s is built' % vn, x)
            if nb[2] is None:
                say('C06', 'action/%s/count' % vn, 'the argument count of %s is not checked' % vn, x)
        if ty[2] is not None and ty[2] != {'SetVar': 1, 'UnsetVar': 2}[vn]:
            say('C06', 'action/%s/type' % vn, 'action id %s is read as %s' % (ty[2], vn), x)
        if nb[2] is not None and nb[2] != {'SetVar': 3, 'UnsetVar': 2}[vn]:
            say('C06', 'action/%s/count' % vn, '%s is read with %s arguments' % (vn, nb[2]), x)
        s = f.get('scope')
        if isinstance(s, V) and s.t == 'adt':
            n = SCOPES.get(vname(s))
            if sc[2] is not None and n is not None and sc[2] != n:
                say('C06', 'action/scope/%s' % vname(s), 'scope %s is read as %s' % (sc[2], vname(s)), x)
            if sc[2] is None:
                # the bytes that come to this scope by every decision made on them
                took = []
                for q in range(256) if a.dec is not None else ():
                    got = [(evalv(t1, {sc[1]: q}), d1, k1) for t1, d1, k1 in a.dec if sc[1] in t1.syms]
                    if any(z is None for z, _, _ in got):
                        took = None
                        break
                    if all(z not in d1 if k1 == 'brx' else z == d1 for z, d1, k1 in got):
                        took.append(q)
                if took is None or a.dec is None:
                    c.note('scope of an action decided in an unknown way')
                elif n is not None and [q for q in took if q != n]:
                    say('C06', 'action/scope/%s' % vname(s), 'scope %s is read as %s' % ([q for q in took if q != n][0], vname(s)), x)
        check_same(f['name'], t[4][1], 'C06', 'action/%s/name' % vn, 'the name of a variable is not the one read', x)
        if vn == 'SetVar':
            check_same(f['value'], t[5][1], 'C06', 'action/%s/value' % vn, 'the value of a variable is not the one read', x)
        return a.set(tok=(), cnt=None, dec=())

    def check_same(v, s, prop, key, msg, x):
        """v is the value read as s (perhaps converted)"""
        k = kept(v, s)
        if k is True:
            return
        if k == 'utf8lossy':
            say('C02', 'text', 'text that is not UTF-8 is delivered', x)
        if isinstance(k, str):
            say(prop, key + '/changed', '%s (%s)' % (msg, k), x)
            return
        if k is None:
            c.note('%s: %s' % (key, show(v)[:100]))
            return
        say(prop, key, msg, x)

    def fin(a, n, x):
        if n.end[0] != 'return':
            return
        end(a, n, x)

    return Auto(c, g, RD0, step, fin)


SIZES = (1, 2, 127, 239, 240, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)


def survivors(g):
    """the nodes from which a frame is still delivered"""
    pred = {}
    for n, evs, m in edges(g):
        pred.setdefault(m, []).append(n)
    alive = {n for n in ends(g) if isadt(n.end[1], 'Result', 'Ok')}
    todo = list(alive)
    while todo:
        for p in pred.get(todo.pop(), ()):
            if p not in alive:
                alive.add(p)
                todo.append(p)
    return alive


def refusals(c, g, prop):
    """the decisions that refuse a frame: none of them may refuse one that SPOP allows"""
    alive = survivors(g)
    key = {'C04': 'read/refused/', 'C05': 'read/refused/', 'C06': 'read/refused/'}[prop]

    def taken(t, d, env):
        got = evalv(t, env)
        if got is None:
            return None
        return got not in d if isinstance(d, (tuple, list, set, frozenset)) else got == d

    for n in g.nodes:
        if n not in alive:
            continue
        for evs, m in n.out:
            if m in alive:
                continue
            last = None
            for i, e in enumerate(evs):
                if e[0] in ('br', 'brx'):
                    last = i
                elif e[0] in ('R', 'bad', 'Rfail', 'opaque', 'mapget', 'next', 'end', 'io', 'push', 'ok') and not (e[0] == 'opaque' and 'Error' in str(e[1])):
                    last = None
            if last is None:
                continue
            t, d = evs[last][1], evs[last][2]
            if not any(m2 in alive and list(ev2[:last]) == list(evs[:last]) and len(ev2) > last and ev2[last][0] in ('br', 'brx') and ev2[last][1] is t
                       for ev2, m2 in n.out):
                continue
            c.count('refusing decisions')
            before = path_events(n) + list(evs[:last])
            rs = [e for e in before if e[0] == 'R' and wirebody(e[3])]
            if [e[1] for e in rs[:4]] != list(HDR)[:len(rs[:4])] or len(rs) < 3:
                continue
            ty, fl = rs[0][2], rs[1][2]
            ids = [e[2] for e in rs[2:4]]
            kind = fact(n.st, ty)
            if kind is None:
                bs = [e for e in before if e[0] in ('br', 'brx') and set(e[1].syms) == {ty}]
                ks = [k for k in range(256) if all(taken(e[1], e[2], {ty: k}) is not False for e in bs)]
                kind = ks[0] if len(ks) == 1 else None
            syms = set(t.syms)
            if prop == 'C04':
                for i, y in enumerate(ids):
                    if y not in syms:
                        continue
                    others = [q for q in syms if q is not y]
                    for o in (0, 5):
                        env = {q: o for q in others}
                        hits = [(v, taken(t, d, dict(env, **{}) | {y: v})) for v in SIZES]
                        no = [v for v, h in hits if h]
                        if no and any(h is False for _, h in hits):
                            nm = ('stream', 'frame')[i]
                            c.violate(key + nm, 'a frame is refused for its %s id (such as %d)' % (nm, no[0]), path_to(g, n))
                if fl in syms and syms == {fl} and kind in (3, 103):
                    no = [v for v in (0, 1, 2, 3) if taken(t, d, {fl: v})]
                    if no:
                        c.violate(key + 'flags', 'a frame is refused for its flags (such as %#x)' % no[0], path_to(g, n))
            elif prop == 'C05':
                its = [y for y in walk(t) if isop(y, 'mapval') and y.a[2].t == 'str']
                for it in its[:1]:
                    k = it.a[2].a[0]
                    nums = [y for y in walk(t) if y.t == 'fld' and y.a[0] is it]
                    lens = [y for y in walk(t) if isop(y, 'len')]
                    if not lens and len(nums) == 1 and not isop(t, 'discr'):
                        y = nums[0]
                        no = [v for v in (0, 1, 2, 100, 16384, (1 << 32) - 1) if taken(t, d, {y: v})]
                        if k == 'max-frame-size':
                            big = taken(t, d, {y: 1 << 32})
                            if no and not all(taken(t, d, {y: v}) for v in (0, 1, 2, 100, 16384, (1 << 32) - 1)):
                                c.violate(key + k, 'a max-frame-size of %d is refused' % no[0], path_to(g, n))
                            elif big:
                                for q in reach(m):
                                    er = err_of(q.end[1]) if q.end is not None and q.end[0] == 'return' else None
                                    if er is not None and er.t == 'adt' and vname(er) != 'BadFrameSize':
                                        c.violate(key + k + '/status', 'a max-frame-size that is too big is refused with %s' % vname(er), path_to(g, n))
                        elif no and k in ('status-code', 'healthcheck'):
                            c.violate(key + k, 'item %s is refused for its value (such as %d)' % (k, no[0]), path_to(g, n))
                    elif len(lens) == 1 and not any(isop(y, 'split') for y in walk(t)):
                        no = [v for v in (0, 1, 5, 300) if taken(t, d, {lens[0]: v})]
                        if no and k in ('engine-id', 'message') or k == 'capabilities' and 0 in no and mentions(lens[0], it):
                            c.violate(key + k, 'item %s is refused for its length (such as %d)' % (k, no[0]), path_to(g, n))
            elif prop == 'C06' and kind in (3, 103):
                body = {e[2]: j for j, e in enumerate(rs) if j >= 4 and e[2].t == 's'}
                texts = [y for y in walk(t) if isop(y, 'len') and any(e[1] == 'bytes' and kept(y.a[1], e[2]) is True for e in rs[4:])]
                if len(texts) == 1 and not isop(t, 'discr'):
                    no = [v for v in (0, 1, 5, 127, 128, 255, 256, 300, 10000) if taken(t, d, {texts[0]: v})]
                    if no:
                        c.violate(key + 'length', 'a text of length %d is refused' % no[0], path_to(g, n))
                    continue
                if t.t == 'op' and t.a[0] in ('str:contains', 'str:starts_with', 'str:ends_with', 'eq') and not unknown(t) and len(t.a) == 3 and \
                        any(e[1] == 'bytes' and kept(t.a[1], e[2]) is True and t.a[2].t in ('i', 'str') for e in rs[4:]):
                    c.violate(key + 'text', 'a text is refused for what it says: %s is %s' % (show(t)[:100], d), path_to(g, n))
                    continue
                if len(syms) == 1 and next(iter(syms)) in body:
                    y = next(iter(syms))
                    j = body[y]
                    if rs[j][1] == 'varint':
                        no = [v for v in (0, 1, 5, 200, 10000) if taken(t, d, {y: v})]
                        if no:
                            c.violate(key + 'length', 'a text of length %d is refused' % no[0], path_to(g, n))
                    elif rs[j][1] == 'u8' and kind == 3 and tuple(e[1] for e in rs[j - 2:j]) == ('varint', 'bytes'):
                        no = [v for v in range(256) if taken(t, d, {y: v})]
                        if no:
                            c.violate(key + 'count', 'a message with %d arguments is refused' % no[0], path_to(g, n))
                ls = [y for y in walk(t) if isop(y, 'len') and y.a[1].t == 'coll']
                if ls and all(q in ls[0].syms for q in syms) and len(ls) == 1:
                    no = [v for v in (0, 1, 2, 5, 100) if taken(t, d, {ls[0]: v})]
                    if no:
                        c.violate(key + 'list', 'a frame with a list of %d is refused' % no[0], path_to(g, n))


def reach(n):
    """the nodes behind n"""
    seen, todo = {n}, [n]
    while todo:
        for _, m in todo.pop().out:
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def read_result(n):
    """(frame variant, struct value) of a terminal node that delivers a frame"""
    v = ok_of(n.end[1])
    if v is None or v.t != 'adt':
        return None, v
    vn = vname(v)
    return vn, (v.a[2][0] if v.a[2] else None)


# ------------------------------------------------------------------ C01
def C01(c):
    c.rule('no path of the decoder, of the variable-length integer reader, of the typed-data reader or of the header-block '
           'reader ends in a panic: every arithmetic overflow check, index, slice, unwrap and buffer access on it is '
           'shown never to fail, or its failure is returned')
    for t in ('read', 'varint_get', 'typed_get', 'hdrs'):
        g = None
        if t == 'varint_get':
            # every byte kept apart bounds an accumulator tighter than its interval; where this does not
            # come to an end, the bytes of earlier turns are taken together
            try:
                g = c.graph('varint_get_aged')
                if g.root.ip.cut:
                    g = None
            except Abort:
                pass
        g = g or c.graph(t)
        for n in g.nodes:
            if n.end is None:
                continue
            c.count('terminal states of ' + t)
            if n.end[0] == 'panic':
                _, kind, path, span = n.end
                f = '::'.join(path.split('::')[-3:])
                c.violate('panic/%s/%s' % (f, str(kind)[:80]), '%s: %s in %s' % (span, kind, path), path_to(g, n))
    c.floor('terminal states of read', 20)
    c.floor('terminal states of hdrs', 3)


# ------------------------------------------------------------------ C02
def C02(c):
    c.rule('on every path of the decoder on which a read fails, text is not UTF-8, a number is refused or bytes are left '
           'over, the result is an error; a message is built only with as many arguments as announced; and a refusal for want of '
           'bytes does not happen with as many bytes as the accepting branch goes on to read')
    g = c.graph('read')

    def end(a, n, x):
        vn, st = read_result(n)
        if isadt(n.end[1], 'Result', 'Ok'):
            c.count('frames delivered')
            if a.bad:
                x.violate('bad/%s/%s' % (vn, a.bad), 'a %s frame is delivered although the %s' % (vn, a.bad))
            if a.left is not None and a.left[1] > 0:
                x.violate('left/%s' % vn, 'a %s frame is delivered with up to %s bytes of it unread' % (vn, a.left[1]))
            if a.left is None:
                c.note('the end of the buffer was not seen on a path that delivers a frame')
        else:
            c.count('frames refused')
    reading(c, g, end, 'C02')
    lack_of_bytes(c, g)
    for t in ('read', 'typed_get'):
        short_reads(c, c.graph(t))
    # items that are lost or made up on the way
    embed(c, 'C06', lambda k, m: k.startswith('message/') and 'count-truncated' not in k and 'write' not in k)
    embed(c, 'C37', lambda k, m: k.startswith(('dropped/', 'cut/', 'part/')))
    c.floor('frames delivered', 10)
    c.floor('failing reads', 10)


def short_reads(c, g):
    """what follows a length is read with that many bytes, not with however many are left"""
    def step(a, e, x):
        if e[0] != 'R':
            return a
        kind, s = e[1], e[2]
        if kind == 'bytes' and a != () and len(e) > 4 and isinstance(e[4], V):
            n = uncast(e[4])
            c.count('announced lengths')
            if unknown(n):
                c.note('a length read in an unknown way')
            elif a not in n.syms and not mentions(n, a):
                if any(q.a[0] == 'rem' for q in n.syms):
                    x.violate('short', 'as many bytes as are left (%s) are taken for text or data announced with %s' % (show(n)[:80], show(a)[:80]))
            elif isop(n, 'min') and any(q.a[0] == 'rem' for q in n.syms):
                x.violate('short', 'no more bytes than are left are taken for text or data announced with %s' % show(a)[:80])
        return s if kind == 'varint' else ()
    Auto(c, g, (), step)


def lack_of_bytes(c, g, good=lambda v: isadt(v, 'Result', 'Ok'), body=wirebody, start=lambda s: s.a[0] == 'wire'):
    """a refusal because too few bytes are left has to be one: with as many bytes as the accepting branch goes on to read there
    is none"""
    pred = {}
    for n, evs, m in edges(g):
        pred.setdefault(m, []).append(n)
    alive = {n for n in ends(g) if good(n.end[1])}
    todo = list(alive)
    while todo:
        for p in pred.get(todo.pop(), ()):
            if p not in alive:
                alive.add(p)
                todo.append(p)

    def reads(evs):
        return [e for e in evs if e[0] == 'R' and body(e[3])]

    def fixed(e):
        """fewest bytes a read takes"""
        if e[1] in ('varint', 'typed'):
            return 1
        if e[1] in FIXED:
            return int(e[1][1:]) // 8
        return e[4].a[0] if len(e) > 4 and isinstance(e[4], V) and e[4].t == 'i' else 0
    # fewest bytes read from a node to the delivery of a frame
    back = {}
    for n, evs, m in edges(g):
        if n in alive and m in alive:
            back.setdefault(m, []).append((n, sum(fixed(e) for e in reads(evs))))
    import heapq
    need = {n: 0 for n in alive if n.end is not None}
    q = [(0, i, n) for i, n in enumerate(need)]
    heapq.heapify(q)
    k = len(q)
    while q:
        d, _, n = heapq.heappop(q)
        if need.get(n, 1 << 60) < d:
            continue
        for p, w in back.get(n, ()):
            if need.get(p, 1 << 60) > d + w:
                need[p] = d + w
                k += 1
                heapq.heappush(q, (d + w, k, p))

    def left(v):
        """the symbols for bytes that are left in a term"""
        return [s for s in v.syms if s.a[0] == 'rem' or start(s)]
    done = set()
    for n in g.nodes:
        if n not in alive:
            continue
        for evs, m in n.out:
            if m in alive:
                continue
            last = None
            for i, e in enumerate(evs):
                if e[0] == 'br' and len(left(e[1])) == 1 and not any('nread' in y.a[:2] or y.a[0] == 'wid' for y in e[1].syms):
                    last = i
                elif e[0] in ('R', 'br', 'brx', 'bad', 'Rfail', 'opaque', 'mapget', 'next', 'end', 'io', 'push', 'ok'):
                    last = None
            if last is None:
                continue
            t, v = evs[last][1], evs[last][2]
            r = left(t)[0]
            before = path_events(n) + list(evs[:last])
            # what was read since the number of bytes left was r
            since, birth = [], None
            for e in before:
                if e[0] == 'R' and body(e[3]):
                    if birth or start(r):
                        since.append(e)
                    if not start(r) and e[2].t == 's' and e[2].a[1:] == r.a[1:]:
                        birth, since = True, []
            if not start(r) and not birth:
                c.note('bytes left not understood: %s' % show(t)[:80])
                continue
            # what the branch that is not refused goes on to read
            best = None
            for ev2, m2 in n.out:
                if m2 not in need or list(ev2[:last]) != list(evs[:last]):
                    continue
                j = next((j for j, e in enumerate(ev2) if e[0] == 'br' and e[1] is t and e[2] != v), None)
                if j is None:
                    continue
                rest = reads(ev2[j:])
                w = sum(fixed(e) for e in rest) + need[m2]
                # the number of arguments of a message can be the last byte of a frame
                rb = [e[1] for e in reads(before)]
                if rest and rest[0][1] == 'u8' and rb[4:5] == ['varint'] and rb[-2:] == ['varint', 'bytes']:
                    w = 1
                sz = rest[0][4] if rest and rest[0][1] == 'bytes' and len(rest[0]) > 4 and isinstance(rest[0][4], V) else None
                if best is None or w < best[0]:
                    best = (w, sz)
            if best is None:
                c.note('no branch beside the refusal at %s' % show(t)[:80])
                continue
            others = sorted({s for y in [t] + [e[4] for e in since if len(e) > 4 and isinstance(e[4], V)] for s in y.syms} - {r}, key=lambda y: y.n)
            hit = None
            known = False
            for qv in (0, 1, 7, 200):
                env = {y: qv for y in others}
                used = 0
                for e in since:
                    z = evalv(e[4], env) if e[1] == 'bytes' and len(e) > 4 and isinstance(e[4], V) else fixed(e)
                    used = None if z is None or used is None else used + z
                if used is None:
                    break
                z = 0
                if best[1] is not None and best[1].t != 'i':
                    z = evalv(best[1], env)
                    if z is None:
                        break
                for more in (0, 1, 5, 1000):
                    env[r] = used + best[0] + z + more
                    got = evalv(t, env)
                    if got is None:
                        break
                    known = True
                    if got == v:
                        hit = (used + best[0] + z + more, used, best[0] + z)
                        break
                if hit:
                    break
            if not known:
                c.note('bytes left not understood: %s' % show(t)[:80])
                continue
            c.count('refusals for want of bytes')
            if hit:
                key = 'refused/%s' % (reads(before)[-1][1] if reads(before) else 'start')
                if key not in done:
                    done.add(key)
                    c.violate(key, 'a frame is refused for want of bytes (%s) although there are %d and no more than %d are needed' % (
                        show(t)[:80], hit[0] - hit[1], hit[2]), path_to(g, n))


# ------------------------------------------------------------------ C03
def C03(c):
    c.rule('for each kind of typed value the bytes written are the type id with its flag bits and the payload of that kind; '
           'for each of the 256 possible type bytes the reader yields exactly the kind that byte stands for, with the '
           'payload read, or nothing')
    g = c.graph('typed_put')
    tp = adt_path('data::typed::Typed')
    byd, byn = variants(tp)
    root = sym('param', 'data')

    def step(a, e, x):
        if e[0] == 'W':
            w = (e[1], e[2], e[3])
            if isinstance(e[2], V) and any(y.t == 's' and y.a[:1] == ('el',) for y in e[2].syms):
                # written once for each of them
                return a if a and a[-1] == w else a + (w,)
            return a + (w,)
        return a

    def each(v):
        """what v is an element of"""
        return v.a[1] if v.t == 's' and v.a[:1] == ('el',) else None

    def end(a, n, x):
        if n.end[0] != 'return':
            return
        d = fact(n.st, op('discr', root))
        if d is None or d not in byd:
            c.note('typed writer: kind not decided on a path')
            return
        kind = byd[d]
        tid = [k for k, v in TYPES.items() if v == kind]
        if not tid:
            return
        tid = tid[0]
        c.count('kinds written')
        fld = mk('fld', root, byn[kind], 0)
        if not a:
            x.violate('write/%s/nothing' % kind, '%s writes nothing' % kind)
            return
        k0, v0, _ = a[0]
        for b in ((0, 1) if kind == 'Boolean' else (None,)):
            env = dict(fenv(n.st))
            want = tid
            if b is not None:
                if not consistent(n.st, {fld: b}):
                    continue
                env[fld] = b
                want = 1 | (0x10 if b else 0)
            got = evalv(v0, env)
            if k0 != 'u8':
                if k0 in FIXED:
                    x.violate('write/%s/type' % kind, 'the type of %s is written as %s' % (kind, k0))
                return
            if got is None:
                c.note('type byte of %s is %s' % (kind, show(v0)))
            elif got != want:
                x.violate('write/%s/type' % kind, 'the type byte of %s%s is %#x, not %#x' % (kind, '' if b is None else '(%s)' % bool(b), got, want))
        rest = a[1:]
        c.count('payloads written')

        def bad(why):
            if not any(unknown(v) for _, v, _ in rest):
                x.violate('write/%s/payload' % kind, 'the payload of %s is %s: %s' % (kind, why, ', '.join('%s %s' % (k, show(v)) for k, v, _ in rest)))
            else:
                c.note('payload of %s not understood' % kind)
        if kind in ('Null', 'Boolean'):
            if rest:
                bad('not empty')
        elif kind in ('Int32', 'Uint32', 'Int64', 'Uint64'):
            if len(rest) != 1 or rest[0][0] != 'varint':
                bad('not one variable-length integer')
            else:
                v = rest[0][1]
                need = (1 << 32) if kind.endswith('32') else (1 << 64)
                while v.t == 'op' and v.a[0] == 'cast':
                    if v.a[3] - v.a[2] + 1 < need:
                        bad('narrowed')
                    v = v.a[1]
                if v is not fld:
                    bad('not the value')
                lo = -need // 2 if kind.startswith('I') else 0
                for k in (lo, lo + 1, -1, 0, 1, 255, 1 << 31, lo + need - 1):
                    got = evalv(rest[0][1], {fld: k}) if lo <= k < lo + need else None
                    if got is not None and got % (1 << 64) != k % (1 << 64):
                        bad('%d for the value %d' % (got, k))
        elif kind in ('Ipv4', 'Ipv6'):
            n4 = 4 if kind == 'Ipv4' else 16
            tot = 0
            src = each(rest[0][1]) if len(rest) == 1 and rest[0][0] == 'u8' else None
            if src is not None and mentions(src, fld) and not unknown(src):
                if any(isop(y, 'rev') or isop(y, 'take') or isop(y, 'skip') for y in walk(src)):
                    bad('only a part of the address, or its bytes in another order')
                return
            for k, v, ln in rest:
                m = evalv(ln, {}) if isinstance(ln, V) else ln
                tot += m if m is not None else 1000
                if fld not in v.syms and not mentions(v, fld):
                    bad('not the address')
            if tot != n4 and tot < 1000:
                bad('not %d bytes' % n4)
            if any(k.endswith('le') for k, _, _ in rest):
                bad('little-endian')
            ix = [v.a[1].a[0] for _, v, _ in rest if v.t == 'idx' and v.a[1].t == 'i']
            if len(ix) == len(rest) == n4 and ix != list(range(n4)):
                bad('in another order')
        else:
            if len(rest) != 2 or rest[0][0] != 'varint' or rest[1][0] not in ('slice', 'bytes'):
                bad('not a length and the bytes')
            else:
                k = kept(rest[1][1], fld)
                if k is False:
                    bad('not the value')
                elif isinstance(k, str):
                    bad('not the value as it is (%s)' % k)
                elif k is None:
                    c.note('payload of %s: %s' % (kind, show(rest[1][1])[:80]))
                # a length is cut off before it is written
                q = rest[0][1]
                while q.t == 'op' and q.a[0] == 'cast':
                    if q.a[3] < (1 << 63) - 1:
                        bad('announced with its length cut to %d' % q.a[3])
                    q = q.a[1]
                ln = uncast(rest[0][1])
                if ln is not rest[1][2] and uncast(rest[1][2]) is not ln:
                    bad('announced with another length')
    Auto(c, g, (), step, end)
    c.floor('kinds written', 10)

    g = c.graph('typed_get')
    lack_of_bytes(c, g, lambda v: isadt(v, 'Option', 'Some') or isadt(v, 'Result', 'Ok'), lambda b: True, lambda s: s.a[0] == 'param')

    def rstep(a, e, x):
        if e[0] == 'R':
            return (a[0] + ((e[1], e[2]),), a[1])
        if e[0] == 'br':
            return (a[0], a[1] + ((e[1], e[2]),))
        return a
    seen = {}

    def rend(a, n, x):
        if n.end[0] != 'return':
            return
        v = some_of(n.end[1])
        if v is None:
            if isadt(n.end[1], 'Option') is False:
                c.note('typed reader: unknown result')
            return
        c.count('kinds read')
        rds, brs = a
        if not rds or rds[0][0] != 'u8':
            if rds and rds[0][0] in FIXED:
                x.violate('read/first', 'the type byte is read as %s' % rds[0][0])
            return
        T = rds[0][1]
        for b in range(256):
            env = {T: b}
            if any(evalv(t, env) not in (None, d) for t, d in brs) or not consistent(n.st, env):
                continue
            c.count('type bytes decided')
            k = b & 15
            want = TYPES.get(k)
            if v.t != 'adt':
                c.note('typed reader: result not decided')
                return
            got = vname(v)
            if want is None:
                x.violate('read/reserved', 'reserved type id %d is read as %s' % (k, got))
                continue
            if got != want:
                x.violate('read/%s' % want, 'type byte %#x is read as %s, not as %s' % (b, got, want))
                continue
            seen.setdefault(got, set()).add(b)
            payload(got, v.a[2][0] if v.a[2] else None, rds[1:], b, T, n, x)

    def payload(kind, v, rds, b, T, n, x):
        kinds = tuple(k for k, _ in rds)

        def bad(why):
            if v is not None and unknown(v):
                c.note('payload of %s not understood' % kind)
            else:
                x.violate('read/%s/payload' % kind, '%s is read from %s as %s: %s' % (kind, kinds, show(v) if v else '', why))
        if kind == 'Null':
            if rds:
                bad('bytes consumed')
        elif kind == 'Boolean':
            if rds:
                bad('bytes consumed')
            env = dict(fenv(n.st))
            env[T] = b
            got = evalv(v, env)
            if got is None:
                c.note('boolean read as %s' % show(v))
            elif got != (1 if b & 0x10 else 0):
                bad('type byte %#x' % b)
        elif kind in ('Int32', 'Uint32', 'Int64', 'Uint64'):
            if kinds != ('varint',):
                bad('not one variable-length integer')
                return
            w = v
            need = (1 << 32) if kind.endswith('32') else (1 << 64)
            while w.t == 'op' and w.a[0] == 'cast':
                if w.a[3] - w.a[2] + 1 < need:
                    bad('narrowed')
                w = w.a[1]
            if w is not rds[0][1]:
                bad('not the number read')
        elif kind in ('Ipv4', 'Ipv6'):
            if kinds == ('bytes',):
                if rds[0][1] not in v.syms and not mentions(v, rds[0][1]):
                    bad('not the bytes read')
                n4 = 4 if kind == 'Ipv4' else 16
                s = rds[0][1]
                if isop(s, 'slice_n') and s.a[2].t == 'i' and s.a[2].a[0] != n4:
                    bad('%d bytes' % s.a[2].a[0])
            elif any(k.endswith('le') for k in kinds):
                bad('little-endian')
            elif len(kinds) == 1:
                if kinds[0] in FIXED and kinds[0] != {'Ipv4': 'u32', 'Ipv6': 'u128'}[kind]:
                    bad('wrong width')
        else:
            if kinds != ('varint', 'bytes'):
                bad('not a length and the bytes')
            else:
                k = kept(v, rds[1][1])
                if k is False:
                    bad('not the bytes read')
                elif isinstance(k, str):
                    bad('not the bytes as they were read (%s)' % k)
                elif k is None:
                    c.note('payload of %s: %s' % (kind, show(v)[:80]))
                if not mentions(rds[1][1], rds[0][1]):
                    bad('not as many bytes as announced')
    Auto(c, g, ((), ()), rstep, rend)
    for k, name in TYPES.items():
        if name in ('Null', 'Boolean'):
            need = {k | f << 4 for f in (0, 1)} if name == 'Boolean' else {k}
        else:
            need = {k}
        for b in need:
            if b not in seen.get(name, ()) and not c.notes:
                c.violate('read/%s/refused' % name, 'type byte %#x is never read as %s' % (b, name))
    c.floor('kinds read', 10)


# ------------------------------------------------------------------ writer grammar
def writing(c, g):
    """follow what is written for each kind of frame"""
    fp = frame_path()
    byd, byn = variants(fp)
    fr = sym('param', 'frame')
    disc = op('discr', fr)

    def say(prop, key, msg, x):
        if c.prop == prop:
            x.violate(key, msg)

    def lost(why):
        c.note('writer not followed: ' + why)
        return ('lost',)

    def same(prop, key, got, want, what, x):
        """got is the value want, converted at most by casts that keep it"""
        w = got
        lost_bits = False
        while w.t == 'op' and w.a[0] in ('cast', 'bytes', 'utf8'):
            if w.a[0] == 'cast':
                lo, hi = g.root.ip.rng(x.dst.st, w.a[1])
                lost_bits |= lo < w.a[2] or hi > w.a[3]
            w = w.a[1]
        if w is want and lost_bits:
            say(prop, key, '%s is written with some of its bits cut off: %s' % (what, show(got)[:160]), x)
            return False
        if w is want:
            return True
        if unknown(got):
            c.note('%s written in an unknown way' % what)
            return True
        if isinstance(want, V) and evalv(op('eq', w, want), {}) == 1:
            return True
        say(prop, key, '%s is written as %s, not as %s' % (what, show(got)[:200], show(want)[:120]), x)
        return False

    def step(a, e, x):
        ph = a[0]
        if ph == 'lost':
            return a
        k = e[0]
        if k == 'opaque' and ph not in ('len',):
            return a
        if k == 'W':
            if e[1] == 'patch':
                return a
            return token(a, e[1], e[2], e[3], x)
        if k == 'next':
            return nxt(a, e[1], e[2], x)
        if k == 'end':
            return endit(a, e[1], x)
        if k == 'io' and e[1] in ('write_all', 'write', 'write_buf', 'write_all_buf') and e[2] == 'ok':
            if ph != 'sent':
                complete(a, x)
            return ('sent',)
        return a

    def vname_at(x):
        # decided before the event: look at the states around the edge
        for n in (x.dst, x.src):
            d = fact(n.st, disc)
            if d is not None:
                return byd.get(d)
        return None

    def token(a, kind, v, ln, x):
        ph = a[0]
        if ph == 'len':
            if kind == 'u32' or kind in ('fill', 'slice', 'zero'):
                return ('type',)
            if kind == 'u8' and v.t == 'i' and v.a[0] == 0:
                # the room for the length, byte by byte
                k = a[1] + 1 if len(a) > 1 else 1
                return ('len', k) if k < 4 else ('type',)
            ph = 'type'
        if ph == 'type':
            vn = vname_at(x)
            if vn is None:
                return lost('kind of frame not decided')
            if vn not in FRAMES:
                if vn == 'Unset':
                    return ('unset',)
                return lost('unknown kind of frame ' + vn)
            c.count('frame kinds written')
            if kind != 'u8':
                if kind in FIXED:
                    say('C04', 'write/%s/type' % vn, 'the type of a %s frame is written as %s' % (vn, kind), x)
                return lost('type')
            got = evalv(v, fenv(x.dst.st))
            if got is None:
                c.note('type of %s is %s' % (vn, show(v)))
            elif got != FRAMES[vn][0]:
                say('C04', 'write/%s/type' % vn, 'a %s frame is written with type %s' % (vn, got), x)
            return ('flags', vn)
        if ph == 'unset':
            return a
        if ph == 'flags':
            vn = a[1]
            if kind != 'u32':
                if kind in FIXED or kind == 'u32le':
                    say('C04', 'write/%s/flags' % vn, 'the flags of a %s frame are written as %s, not as 4 big-endian bytes' % (vn, kind), x)
                return lost('flags')
            F = frame_field(vn, 'fragmented') if vn in ('HaproxyNotify', 'AgentAck') else None
            A = frame_field(vn, 'aborted') if vn == 'AgentAck' else None
            for f in ((0, 1) if F is not None else (None,)):
                for ab in ((0, 1) if A is not None else (None,)):
                    env = {}
                    if f is not None:
                        env[F] = f
                    if ab is not None:
                        env[A] = ab
                    if not consistent(x.dst.st, env):
                        continue
                    want = (0 if f else 1) | (2 if ab else 0)
                    en = fenv(x.dst.st)
                    en.update(env)
                    got = evalv(v, en)
                    c.count('flag values decided')
                    if got is None:
                        c.note('flags of %s: %s' % (vn, show(v)))
                    elif got != want:
                        say('C04', 'write/%s/flags' % vn, 'a %s frame%s%s is written with flags %d, not %d' % (
                            vn, ' that is a fragment' if f else '', ' that is aborted' if ab else '', got, want), x)
            return ('sid', vn)
        if ph in ('sid', 'fid'):
            vn = a[1]
            nm = 'stream_id' if ph == 'sid' else 'frame_id'
            if kind != 'varint':
                if kind in FIXED:
                    say('C04', 'write/%s/%s' % (vn, nm), 'the %s of a %s frame is written as %s' % (nm, vn, kind), x)
                return lost(nm)
            if vn in ('HaproxyNotify', 'AgentAck'):
                same('C04', 'write/%s/%s' % (vn, nm), v, frame_field(vn, nm), 'the %s of a %s frame' % (nm, vn), x)
            else:
                same('C04', 'write/%s/%s' % (vn, nm), v, I(0), 'the %s of a %s frame' % (nm, vn), x)
            c.count('ids written')
            if ph == 'sid':
                return ('fid', vn)
            if vn in KEYS:
                return ('kv', vn, frozenset(), None)
            return ('list', vn, None, None)
        if ph == 'kv':
            return kv(a, kind, v, ln, x)
        if ph == 'list':
            return lst(a, kind, v, ln, x)
        return a

    def kv(a, kind, v, ln, x):
        _, vn, seen, sub = a
        if sub is None:
            if kind == 'varint':
                return ('kv', vn, seen, ('key', v))
            if kind == 'u32' or kind == 'slice':
                return ('done', vn, seen) if kind == 'u32' else lost('raw bytes')
            if kind in FIXED:
                say('C05', 'write/%s/item' % vn, 'an item of a %s frame starts with %s %s' % (vn, kind, show(v)), x)
            return lost('item of ' + vn)
        what = sub[0]
        if what == 'key':
            if kind not in ('slice', 'bytes') or v.t != 'str':
                return lost('key %s %s' % (kind, show(v)))
            key = v.a[0]
            n = evalv(sub[1], {})
            if n is not None and n != len(key):
                say('C05', 'write/%s/%s/keylen' % (vn, key), 'key %s is announced with %d bytes' % (key, n), x)
            c.count('items written')
            if key not in KEYS[vn]:
                say('C05', 'write/%s/%s' % (vn, key), 'a %s frame is written with an item %r that SPOP does not define for it' % (vn, key), x)
                return lost('unknown key')
            if key in seen:
                say('C05', 'write/%s/%s/twice' % (vn, key), 'item %s of a %s frame is written twice' % (key, vn), x)
            return ('kv', vn, seen | {key}, ('val', key))
        key = sub[1]
        field, fk, _ = KEYS[vn][key]
        f = frame_field(vn, field)
        opt = vn == 'HaproxyHello' and field in ('healthcheck', 'engine_id')
        inner = mk('fld', f, 1, 0) if opt else f
        tag = 'write/%s/%s' % (vn, key)
        if what == 'val':
            if kind == 'typed':
                if not mentions(v, f) and not unknown(v):
                    say('C05', tag, 'item %s of a %s frame is written with %s' % (key, vn, show(v)), x)
                c.note('item %s written as an undecided typed value' % key)
                return ('kv', vn, seen, None)
            if kind != 'u8':
                say('C05', tag + '/type', 'the value of item %s starts with %s' % (key, kind), x)
                return lost('value of ' + key)
            if fk == 'bool':
                for b in (0, 1):
                    if not consistent(x.dst.st, {inner: b}):
                        continue
                    en = fenv(x.dst.st)
                    en[inner] = b
                    got = evalv(v, en)
                    if got is None:
                        c.note('boolean written as %s' % show(v))
                    elif got != (0x11 if b else 0x01):
                        say('C05', tag, 'item %s is written as type byte %#x for %s' % (key, got, bool(b)), x)
                return ('kv', vn, seen, None)
            got = evalv(v, fenv(x.dst.st))
            want = 3 if fk == 'uint' else 8
            if got is None:
                c.note('type of %s is %s' % (key, show(v)))
            elif got != want:
                say('C05', tag + '/type', 'item %s of a %s frame is written with type %s (%s), not as %s' % (
                    key, vn, got, TYPES.get(got & 15), TYPES[want]), x)
                return lost('type of ' + key)
            return ('kv', vn, seen, (fk if fk == 'uint' else 'strlen', key))
        if what == 'uint':
            if kind != 'varint':
                say('C05', tag, 'the value of item %s is written as %s' % (key, kind), x)
                return lost(key)
            same('C05', tag, v, inner, 'item %s of a %s frame' % (key, vn), x)
            return ('kv', vn, seen, None)
        if what == 'strlen':
            return ('kv', vn, seen, ('str', key, v))
        if what == 'str':
            n = uncast(sub[2])
            if kind not in ('slice', 'bytes'):
                say('C05', tag, 'the value of item %s is written as %s' % (key, kind), x)
                return lost(key)
            if n is not uncast(ln) and not unknown(v):
                say('C05', tag + '/len', 'the value of item %s is announced with another length' % key, x)
            text(vn, key, fk, v, inner, x, tag)
            return ('kv', vn, seen, None)
        return a

    pushes = pushes_of(g)

    def text(vn, key, fk, v, f, x, tag):
        """v is the text of field f"""
        if fk == 'string':
            same('C05', tag, v, f, 'item %s of a %s frame' % (key, vn), x)
        elif fk == 'display':
            if isop(v, 'display') and v.a[1] is f or unknown(v):
                return
            if isop(v, 'join') and v.a[1].t == 'coll':
                its = pushes.get(v.a[1].a[0], ())
                if any(isop(i, 'display') and i.a[1] is f or unknown(i) for i in its):
                    if len(its) > 1:
                        c.note('item %s written as a list of %d' % (key, len(its)))
                    return
            if isop(v, 'text'):
                its = pushes.get(v.a[1], ())
                if any(mentions(i, f) or unknown(i) for i in its):
                    c.note('item %s is put together piece by piece' % key)
                    return
            if v.t == 'str' and not v.a[0] and any(k.t == 's' and k.a[:2] == ('coll', 'text') and any(mentions(i, f) for i in its) for k, its in pushes.items()):
                c.note('item %s is put together piece by piece' % key)
                return
            if not mentions(v, f):
                say('C05', tag, 'item %s of a %s frame is written as %s' % (key, vn, show(v)), x)
            else:
                c.note('item %s written as %s' % (key, show(v)[:100]))
        elif fk == 'list':
            if isop(v, 'join'):
                if v.a[2].t == 'str' and v.a[2].a[0] != ',':
                    say('C05', tag, 'item %s of a %s frame is joined with %r' % (key, vn, v.a[2].a[0]), x)
                col = v.a[1]
                its = pushes.get(col.a[0], ()) if col.t == 'coll' else ()
                for it in its:
                    if not any(mentions(it, s) for s in (f, sym('el', f))) and not unknown(it):
                        say('C05', tag, 'item %s of a %s frame lists %s' % (key, vn, show(it)), x)
                    elif not (isop(it, 'display') and it.a[1] is sym('el', f)):
                        c.note('item %s lists %s' % (key, show(it)[:80]))
            elif isop(v, 'text'):
                its = pushes.get(v.a[1], ())
                for it in its:
                    if it.t == 'str' and it.a[0] != ',' or it.t == 'i' and it.a[0] != ord(','):
                        say('C05', tag, 'item %s of a %s frame is joined with %s' % (key, vn, show(it)), x)
                    elif it.t not in ('str', 'i') and not any(mentions(it, s) for s in (f, sym('el', f))) and not unknown(it):
                        say('C05', tag, 'item %s of a %s frame lists %s' % (key, vn, show(it)), x)
                if its and not any(it.t in ('str', 'i') or unknown(it) for it in its):
                    say('C05', tag, 'the values of item %s of a %s frame are not separated' % (key, vn), x)
                c.note('item %s is put together piece by piece' % key)
            elif v.t == 'str' and not v.a[0] and any(k.t == 's' and k.a[:2] == ('coll', 'text') for k in pushes):
                c.note('item %s is put together piece by piece' % key)
            elif v.t == 'str' or not mentions(v, f) and not unknown(v) and not any('written' in s.a or 'many' in s.a for s in v.syms):
                say('C05', tag, 'item %s of a %s frame is written as %s' % (key, vn, show(v)), x)
            else:
                c.note('item %s written as %s' % (key, show(v)[:100]))

    # lists of messages and actions: ('list', vn, current item, state)
    def src_of(vn):
        return frame_field(vn, 'messages' if vn == 'HaproxyNotify' else 'actions')

    def nxt(a, src, el, x):
        if a[0] != 'list':
            return a
        _, vn, cur, s = a
        want = src_of(vn)
        if src is want:
            if s not in (None, 'item-done', 'kv-done'):
                say('C06', 'write/%s/incomplete' % vn, 'an item of a %s frame is left incomplete (%s)' % (vn, s), x)
            c.count('items of lists')
            return ('list', vn, el, 'name' if vn == 'HaproxyNotify' else 'type')
        if vn == 'HaproxyNotify' and cur is not None and src is fieldof(cur, adt_path('msg::Message'), 'args'):
            return ('list', vn, cur, ('kvname', el))
        if mentions(src, want):
            if unknown(src):
                return lost('items of %s come from %s' % (vn, show(src)))
            c.note('items of %s come from %s' % (vn, show(src)[:100]))
            return lost('items')
        return a

    def endit(a, src, x):
        if a[0] != 'list':
            return a
        _, vn, cur, s = a
        if src is src_of(vn):
            if s not in (None, 'item-done', 'kv-done'):
                say('C06', 'write/%s/incomplete' % vn, 'an item of a %s frame is left incomplete (%s)' % (vn, s), x)
            return ('list', vn, None, 'all')
        if vn == 'HaproxyNotify' and cur is not None and src is fieldof(cur, adt_path('msg::Message'), 'args'):
            if s != 'args':
                say('C06', 'write/args', 'the arguments of a message are written %s' % (s,), x)
            return ('list', vn, cur, 'kv-done')
        return a

    def lst(a, kind, v, ln, x):
        _, vn, cur, s = a
        if s == 'all':
            if kind == 'u32':
                return ('done', vn)
            say('C06', 'write/%s/extra' % vn, '%s %s is written after the items of a %s frame' % (kind, show(v)[:80], vn), x)
            return lost('after the items')
        if cur is None:
            if kind in ('u32', 'slice'):
                return lost('list written in another way')
            say('C06', 'write/%s/extra' % vn, '%s %s is written before the items of a %s frame' % (kind, show(v)[:80], vn), x)
            return lost('before the items')

        def expect(kinds, prop='C06'):
            if kind in kinds:
                return True
            if kind in FIXED or kind in ('slice', 'bytes'):
                say(prop, 'write/%s/layout/%s' % (vn, s if isinstance(s, str) else s[0]), '%s %s is written where SPOP has a %s' % (kind, show(v)[:80], kinds[0]), x)
            return False
        if vn == 'HaproxyNotify':
            mp = adt_path('msg::Message')
            if s == 'name':
                if not expect(('varint',)):
                    return lost('name')
                return ('list', vn, cur, ('name2', v))
            if isinstance(s, tuple) and s[0] == 'name2':
                if not expect(('slice', 'bytes')):
                    return lost('name')
                same('C06', 'write/message/name', v, fieldof(cur, mp, 'name'), 'the name of a message', x)
                if uncast(s[1]) is not uncast(ln):
                    say('C06', 'write/message/namelen', 'the name of a message is announced with another length', x)
                return ('list', vn, cur, 'count')
            if s == 'count':
                if not expect(('u8',)):
                    return lost('count')
                args = fieldof(cur, mp, 'args')
                n = op('len', args)
                if uncast(v) is n:
                    hi = x.g.root.ip.rng(x.dst.st, n)[1]
                    if hi > 255 and c.prop == 'C06':
                        x.violate('write/message/count-truncated', 'the argument count of a message is written modulo 256: a message '
                                  'with more than 255 arguments is written with a count that does not match')
                else:
                    same('C06', 'write/message/count', v, n, 'the argument count of a message', x)
                return ('list', vn, cur, 'args')
            if isinstance(s, tuple) and s[0] == 'kvname':
                if not expect(('varint',)):
                    return lost('argument name')
                return ('list', vn, cur, ('kvname2', s[1], v))
            if isinstance(s, tuple) and s[0] == 'kvname2':
                if not expect(('slice', 'bytes')):
                    return lost('argument name')
                same('C06', 'write/arg/name', v, mk('fld', s[1], None, 0), 'the name of an argument', x)
                if uncast(s[2]) is not uncast(ln):
                    say('C06', 'write/arg/namelen', 'the name of an argument is announced with another length', x)
                return ('list', vn, cur, ('kvval', s[1]))
            if isinstance(s, tuple) and s[0] == 'kvval':
                if not expect(('typed',)):
                    return lost('argument value')
                same('C06', 'write/arg/value', v, mk('fld', s[1], None, 1), 'the value of an argument', x)
                return ('list', vn, cur, 'args')
            say('C06', 'write/%s/extra' % vn, '%s %s is written in a message where SPOP has nothing (%s)' % (kind, show(v)[:80], s), x)
            return lost('extra')
        # actions
        ap = adt_path('action::Action')
        ad = ADTS[ap]
        d = fact(x.dst.st, op('discr', cur))
        if d is None:
            d = fact(x.src.st, op('discr', cur))
        names = {int(q['discr']): q['name'] for q in ad['variants']}
        an = names.get(d)
        if s == 'type':
            if an is None:
                return lost('kind of action not decided')
            if not expect(('u8',)):
                return lost('action id')
            got = evalv(v, fenv(x.dst.st))
            want = {'SetVar': 1, 'UnsetVar': 2}[an]
            if got is None:
                c.note('action id %s' % show(v))
            elif got != want:
                say('C06', 'write/%s/id' % an, '%s is written with action id %s' % (an, got), x)
            return ('list', vn, cur, ('nb', an))
        if not isinstance(s, tuple):
            say('C06', 'write/%s/extra' % vn, '%s %s is written after an action (%s)' % (kind, show(v)[:80], s), x)
            return lost('extra')
        an = s[1]
        if s[0] == 'nb':
            if not expect(('u8',)):
                return lost('action count')
            got = evalv(v, fenv(x.dst.st))
            want = {'SetVar': 3, 'UnsetVar': 2}[an]
            if got is None:
                c.note('action count %s' % show(v))
            elif got != want:
                say('C06', 'write/%s/count' % an, '%s is written with argument count %s' % (an, got), x)
            return ('list', vn, cur, ('scope', an))
        if s[0] == 'scope':
            if not expect(('u8',)):
                return lost('scope')
            sc = fieldof(cur, ap, 'scope', an)
            dd = op('discr', sc)
            bd, _ = variants(adt_path('action::Scope'))
            if uncast(v) is not dd:
                f = fact(x.dst.st, dd)
                got = evalv(v, fenv(x.dst.st))
                if f is not None and got is not None:
                    if f != got:
                        say('C06', 'write/%s/scope' % an, 'scope %s of %s is written as %s' % (bd.get(f), an, got), x)
                elif not mentions(v, sc) and not unknown(v):
                    say('C06', 'write/%s/scope' % an, 'the scope of %s is written as %s' % (an, show(v)), x)
                elif all(evalv(v, {dd: q}) is not None for q in bd):
                    bad = [q for q in bd if evalv(v, {dd: q}) != q]
                    if bad:
                        say('C06', 'write/%s/scope' % an, 'scope %s of %s is written as %s' % (bd[bad[0]], an, evalv(v, {dd: bad[0]})), x)
                else:
                    c.note('scope written as %s' % show(v))
            for dn, nm in bd.items():
                if SCOPES.get(nm) != dn:
                    say('C06', 'scope/%s' % nm, 'scope %s has id %d' % (nm, dn), x)
            return ('list', vn, cur, ('vlen', an))
        if s[0] == 'vlen':
            if not expect(('varint',)):
                return lost('variable name')
            return ('list', vn, cur, ('vname', an, v))
        if s[0] == 'vname':
            if not expect(('slice', 'bytes')):
                return lost('variable name')
            same('C06', 'write/%s/name' % an, v, fieldof(cur, ap, 'name', an), 'the name of a variable', x)
            if uncast(s[2]) is not uncast(ln):
                say('C06', 'write/%s/namelen' % an, 'the name of a variable is announced with another length', x)
            return ('list', vn, cur, ('vval', an) if an == 'SetVar' else 'item-done')
        if s[0] == 'vval':
            if not expect(('typed',)):
                return lost('value of a variable')
            same('C06', 'write/%s/value' % an, v, fieldof(cur, ap, 'value', an), 'the value of a variable', x)
            return ('list', vn, cur, 'item-done')
        return a

    def complete(a, x):
        ph = a[0]
        c.count('frames written')
        if ph in ('len', 'type', 'flags', 'sid', 'fid'):
            say('C04', 'write/incomplete/%s' % ph, 'a frame is sent with an incomplete header (before %s)' % ph, x)
            return
        if ph == 'unset':
            if c.prop == 'C04':
                x.violate('write/Unset', 'a frame of no kind is written with type 0, which no reader accepts')
            return
        if ph == 'kv' or ph == 'done' and len(a) > 2:
            vn, seen = a[1], a[2]
            if ph == 'kv' and a[3] is not None:
                say('C05', 'write/%s/incomplete' % vn, 'a %s frame is sent with an incomplete item %s' % (vn, a[3]), x)
            for key, (field, fk, _) in KEYS[vn].items():
                opt = vn == 'HaproxyHello' and field in ('healthcheck', 'engine_id')
                f = frame_field(vn, field)
                d = fact(x.src.st, op('discr', f)) if opt else 1
                if d is None:
                    d = fact(x.dst.st, op('discr', f))
                if key not in seen:
                    if d != 0:
                        say('C05', 'write/%s/%s/missing' % (vn, key), 'a %s frame is sent without its item %s' % (vn, key), x)
                elif opt and d == 0:
                    say('C05', 'write/%s/%s/absent' % (vn, key), 'item %s of a %s frame is written although it is absent' % (key, vn), x)
            return
        if ph == 'list':
            vn = a[1]
            if a[3] != 'all':
                src = src_of(vn)
                lo, hi = x.g.root.ip.rng(x.dst.st, op('len', src))
                if hi > 0:
                    say('C06', 'write/%s/left' % vn, 'a %s frame is sent before all its items are written' % vn, x)

    Auto(c, g, ('len',), step, None)


# ------------------------------------------------------------------ C04
def C04(c):
    c.rule('on every path of the writer the header is: type id of the kind of frame, 4 bytes of flags with FIN/ABORT as the '
           'frame has them, stream id, frame id (zero for hello and disconnect); on every path of the reader that delivers a '
           'frame, the kind is the one its type id stands for and fragmented, aborted and the ids are those header fields')
    writing(c, c.graph('write'))
    g = c.graph('read')
    fp = frame_path()
    seen = {}
    admitted = set()
    ids = [(vn, i, j, k) for vn, ks in (('HaproxyNotify', (1, 0)), ('AgentAck', (1, 0, 3, 2))) for k in ks
           for i in (0, 1, 0xf0, 1 << 32, (1 << 64) - 1) for j in (1, 2, 0xf0, 1 << 32, (1 << 64) - 1)]
    ids += [(vn, 0, 0, 1) for vn in HELLO + DISC]
    HEADS = {vn: [h for h in ids if h[0] == vn] for vn in FRAMES}

    def end(a, n, x):
        vn, s = read_result(n)
        if vn is None or not isadt(n.end[1], 'Result', 'Ok'):
            return
        c.count('frames delivered')
        if a.lost or len(a.hdr) < 4:
            if not a.lost:
                x.violate('read/header', 'a frame is delivered before its header is read')
            return
        ty, fl, sid, fid = a.hdr
        if vn not in FRAMES:
            x.violate('read/%s' % vn, 'a frame of kind %s is delivered' % vn)
            return
        if ty[2] is None:
            c.note('type of a delivered frame not decided')
        elif ty[2] != FRAMES[vn][0]:
            x.violate('read/%s/type' % vn, 'type id %s is read as %s' % (ty[2], vn))
        seen.setdefault(vn, 0)
        seen[vn] += 1
        # which valid headers this path delivers
        for h in HEADS.get(vn, ()):
            if h in admitted:
                continue
            env = {sid[1]: h[1], fid[1]: h[2], fl[1]: h[3]}
            if any(evalv(t, env) not in (None, d) for t, d in a.brs) or not consistent(n.st, env):
                continue
            if any(q is not None and (q in d if k == 'brx' else q != d) for t, d, k in a.ids or () for q in (evalv(t, env),)):
                continue
            admitted.add(h)
        if s is None or s.t != 'adt':
            return
        f = fields(s)
        for nm, t in (('stream_id', sid), ('frame_id', fid)):
            if nm in f:
                w = f[nm]
                while w.t == 'op' and w.a[0] == 'cast' and w.a[3] >= (1 << 64) - 1:
                    w = w.a[1]
                if w is not t[1] and not unknown(w):
                    x.violate('read/%s/%s' % (vn, nm), 'the %s of a %s frame is read as %s' % (nm, vn, show(w)))
        for nm, bit in (('fragmented', 1), ('aborted', 2)):
            if nm not in f:
                continue
            for b in (0, 1, 2, 3, 4, 7, 0xfffffffc, 0xffffffff):
                env = {fl[1]: b}
                if any(evalv(t, env) not in (None, d) for t, d in a.brs) or not consistent(n.st, env):
                    continue
                want = int(not b & 1) if nm == 'fragmented' else int(bool(b & 2))
                got = evalv(f[nm], dict(fenv(n.st), **{}) | env)
                c.count('flag values decided')
                if got is None:
                    c.note('%s read as %s' % (nm, show(f[nm])[:80]))
                elif got != want:
                    x.violate('read/%s/%s' % (vn, nm), 'a %s frame with flags %#x is read with %s = %s' % (vn, b, nm, bool(got)))
    reading(c, g, end, 'C04')
    refusals(c, g, 'C04')
    for vn in FRAMES:
        if vn not in seen:
            c.violate('read/%s/never' % vn, 'a %s frame is never delivered' % vn)
            continue
        no = [h for h in HEADS[vn] if h not in admitted]
        c.count('valid headers tried', len(HEADS[vn]))
        if no and len(no) < len(HEADS[vn]):
            c.violate('read/%s/refused' % vn, 'no path delivers a %s frame with the stream id %#x, the frame id %#x and the flags %d' % ((vn,) + no[0][1:]))
    c.floor('frames delivered', 10)
    c.floor('frames written', 7)


# ------------------------------------------------------------------ C05
def C05(c):
    c.rule('each item of a hello or disconnect frame is written once, under its SPOP key, with its SPOP type, from its field; '
           'on every path that delivers such a frame each field comes from its own key, read as its own type; a path on which '
           'a mandatory key is absent ends in the status that names it; an absent optional key yields an absent field')
    writing(c, c.graph('write'))
    g = c.graph('read')
    pushes = pushes_of(g)
    present = {}
    tagged = {}

    def keys_in(v, d=0):
        """(key, map, typed variant) of every item a value is taken from"""
        out = set()
        for y in walk(v):
            if isop(y, 'mapval') and y.a[2].t == 'str':
                out.add(y.a[2].a[0])
            if y.t == 'coll' and d < 3:
                for it in pushes.get(y.a[0], ()):
                    out |= keys_in(it, d + 1)
        return out

    def tags_in(v, d=0):
        out = set()
        for y in walk(v):
            if y.t == 'fld' and isop(y.a[0], 'mapval') and y.a[1] is not None:
                out.add(y.a[1])
            if y.t == 'coll' and d < 3:
                for it in pushes.get(y.a[0], ()):
                    out |= tags_in(it, d + 1)
        return out

    def splits(v, d=0):
        out = set()
        for y in walk(v):
            if isop(y, 'split'):
                out.add(y.a[2])
            if y.t == 'coll' and d < 3:
                for it in pushes.get(y.a[0], ()):
                    out |= splits(it, d + 1)
        return out

    byd, byn = variants(adt_path('data::typed::Typed'))

    def end(a, n, x):
        vn, s = read_result(n)
        if isadt(n.end[1], 'Result', 'Ok') and vn in KEYS and s is not None and s.t == 'adt':
            c.count('hello and disconnect frames delivered')
            f = fields(s)
            for key, (field, fk, status) in KEYS[vn].items():
                if field not in f:
                    continue
                v = f[field]
                c.count('fields read')
                ks = keys_in(v)
                if ks - {key}:
                    x.violate('read/%s/%s' % (vn, field), 'field %s of a %s frame comes from item %s' % (field, vn, sorted(ks - {key})))
                opt = isadt(v, 'Option')
                if key in a.miss:
                    if status:
                        x.violate('read/%s/%s/missing' % (vn, key), 'a %s frame without %s is delivered' % (vn, key))
                    elif opt and vname(v) == 'Some':
                        x.violate('read/%s/%s/absent' % (vn, key), 'an absent %s is read as %s' % (key, show(v)))
                elif key in a.got:
                    present.setdefault((vn, field), set()).add('some' if ks else show(v)[:60])
                    w = v
                    if opt and vname(v) == 'Some':
                        w = v.a[2][0]
                    want = {'uint': 'Uint32', 'bool': 'Boolean'}.get(fk, 'String')
                    if opt and vname(v) == 'None':
                        ds = [(t, r) for t, r in n.st.facts.items() if isop(t, 'discr') and isop(t.a[1], 'mapval') and t.a[1].a[2].t == 'str' and t.a[1].a[2].a[0] == key]
                        if len(ds) == 1 and ds[0][1][0] == ds[0][1][1] and byd.get(ds[0][1][0]) == want:
                            x.violate('read/%s/%s/dropped' % (vn, field), 'item %s of a %s frame is there, as a %s, and the field is left empty' % (key, vn, want))
                    if fk == 'string':
                        src = {y for y in walk(w) if y.t == 'fld' and isop(y.a[0], 'mapval') and y.a[0].a[2].t == 'str' and y.a[0].a[2].a[0] == key}
                        if len(src) == 1:
                            how = kept(w, next(iter(src)))
                            if isinstance(how, str):
                                x.violate('read/%s/%s/changed' % (vn, field), 'item %s of a %s frame is not kept as it is: %s (%s)' % (key, vn, show(w)[:120], how))
                    ts = tags_in(w)
                    names = {byd.get(int(ADTS[adt_path('data::typed::Typed')]['variants'][t]['discr'])) for t in ts if isinstance(t, int)}
                    okk = {'uint': {'Int32', 'Uint32', 'Int64', 'Uint64'}, 'bool': {'Boolean'}, 'string': {'String'}, 'list': {'String'}, 'display': {'String'}}[fk]
                    if ks:
                        tagged.setdefault((vn, field, key, fk), set()).update(names)
                    if names - okk:
                        x.violate('read/%s/%s/type' % (vn, key), 'item %s is read from a %s' % (key, sorted(names - okk)))
                    if fk == 'list':
                        for sp in splits(w):
                            ch = sp.a[0] if sp.t in ('i', 'str') else None
                            if ch not in (None, 44, ','):
                                x.violate('read/%s/%s/sep' % (vn, key), 'item %s is split at %r' % (key, ch))
                    if fk == 'uint' and isinstance(w, V) and w.t == 'i':
                        off = [q for q in (0, 1, 2, 3, 7, 99, 256, 1024, 16384, (1 << 32) - 1) if q != w.a[0] and admits(n, key, byn.get(want), q, None)]
                        if off and any(isop(t, 'discr') and an_item(t.a[1], key) for t in n.st.facts) and any(y.t == 'fld' and an_item(y.a[0], key) for t in n.st.facts for y in walk(t)):
                            x.violate('read/%s/%s/value' % (vn, key), 'item %s with the value %d is read as %d' % (key, off[0], w.a[0]))
                    if fk == 'uint' and ks:
                        # the value delivered is the number that arrived, or the frame is refused
                        for y in {y for y in walk(w) if y.t == 'fld' and an_item(y.a[0], key)}:
                            for q in {'Int32': (-1, -2, -(1 << 31)), 'Int64': (-1, -(1 << 32) + 7, -(1 << 63), (1 << 32) + 7), 'Uint64': ((1 << 32) + 7, 1 << 63)}.get(byd.get(
                                    int(ADTS[adt_path('data::typed::Typed')]['variants'][y.a[1]]['discr']) if isinstance(y.a[1], int) else None), ()):
                                got = evalv(w, {y: q})
                                if got is not None and got != q and admits(n, key, None, q, None):
                                    x.violate('read/%s/%s/value' % (vn, key), 'item %s with the value %d is read as %d' % (key, q, got))
                    if fk in ('uint', 'bool') and ks:
                        y = uncast(w)
                        if not (y.t == 'fld' and isop(y.a[0], 'mapval')) and not unknown(y) and fact(n.st, y) is None:
                            x.violate('read/%s/%s/value' % (vn, key), 'item %s is read as %s' % (key, show(w)))
                        z = w
                        while z.t == 'op' and z.a[0] == 'cast':
                            if fk == 'uint' and z.a[3] - z.a[2] + 1 < (1 << 32):
                                x.violate('read/%s/%s/narrow' % (vn, key), 'item %s is narrowed: %s' % (key, show(w)))
                            inner = z.a[1]
                            lo, hi = x.g.root.ip.rng(n.st, inner)
                            if fk == 'uint' and (hi > z.a[3]):
                                x.violate('read/%s/%s/narrow' % (vn, key), 'item %s is truncated to 32 bits: %s' % (key, show(w)))
                            z = inner
                elif not ks and v.t in ('i', 'str') or opt and vname(v) == 'None' and not ks:
                    if not any(unknown(q) for q in f.values()) and a.got:
                        x.violate('read/%s/%s/ignored' % (vn, key), 'item %s of a %s frame is never looked at: the field is %s' % (key, vn, show(v)))
            return
        er = err_of(n.end[1])
        if er is not None and a.hdr and a.miss and not a.bad:
            # which key is missing first decides the status; any of them is right
            ty = a.hdr[0][2]
            vn = [k for k, v in FRAMES.items() if v[0] == ty]
            if not vn or vn[0] not in KEYS:
                return
            vn = vn[0]
            miss = [KEYS[vn][k][2] for k in a.miss if k in KEYS[vn]]
            mand = [m for m in miss if m]
            c.count('missing items refused')
            if er.t == 'adt' and mand and vname(er) not in mand:
                # a later problem may be reported instead only if it is a mandatory one
                got = vname(er)
                x.violate('read/%s/%s/status' % (vn, a.miss[0]), 'a %s frame without %s is refused with %s, not %s' % (vn, ', '.join(a.miss), got, ' or '.join(mand)))
    reading(c, g, end, 'C05')
    refusals(c, g, 'C05')
    accepted(c, g, byn)
    gathered(c, g)
    # the type SPOP gives an item has to be one it is read from
    for (vn, field, key, fk), names in tagged.items():
        need = {'uint': 'Uint32', 'bool': 'Boolean'}.get(fk, 'String')
        if names and None not in names and need not in names:
            c.violate('read/%s/%s/refused' % (vn, key), 'item %s is read from a %s but not from a %s, which is what SPOP sends' % (key, ' or '.join(sorted(names)), need))
    for (vn, field), vs in present.items():
        c.count('fields with a source')
        if vs and 'some' not in vs and not c.notes:
            c.violate('read/%s/%s/dropped' % (vn, field), 'field %s of a %s frame is never filled from its item: %s' % (field, vn, sorted(vs)))
    c.floor('fields read', 10)
    c.floor('items written', 8)
    c.floor('missing items refused', 2)


def gathered(c, g):
    """every item of a hello or disconnect frame gets into the map its fields are taken from, as it was read"""
    maps, els, fed = set(), {}, {}
    for n, evs, m in edges(g):
        for e in evs:
            if e[0] == 'mapget':
                maps |= {y.a[0] for y in walk(e[1]) if y.t == 'coll'}
            elif e[0] == 'next' and e[1].t == 'coll':
                els[e[2]] = e[1].a[0]

    def added(e):
        """(collection, key, value) of something put into a map"""
        if e[0] == 'push' and e[1] in maps:
            v = e[2]
            if v.t == 'tup' and len(v.a) == 2 or v.t == 'tup' and len(v.a[0]) == 2:
                k, w = v.a if len(v.a) == 2 else v.a[0]
                return e[1], k, w
            return e[1], v, v
        if e[0] == 'mapset' and e[1].t == 'coll' and e[1].a[0] in maps:
            return e[1].a[0], e[2], e[3]
        return None

    for n, evs, m in edges(g):
        for e in evs:
            t = added(e)
            if t is None:
                continue
            c.count('items put into a map')
            for y in set(walk(t[1])) | set(walk(t[2])):
                if y in els:
                    fed.setdefault(t[0], set()).add(els[y])
            for what, v in (('name', t[1]), ('value', t[2])):
                ch = [y.a[0] for y in walk(v) if y.t == 'op' and y.a[0] in CHANGED and not unknown(y) and any(z in els or z.t == 's' and 'rd.bytes' in show(z) for z in walk(y))]
                ch = [k for k in ch if k not in ('slice', 'lin', 'and')]
                if ch:
                    c.violate('read/items/%s/%s' % (what, ch[0]), 'the %s of an item is not kept as it was read: %s' % (what, show(v)[:160]), path_to(g, n))
    if not fed:
        return
    names = sorted({k for d in KEYS.values() for k in d})
    srcs = set().union(*fed.values())

    def says(t, d, el, key):
        def text(y):
            return (y.t == 'fld' and y.a[0] is el or y.t == 'op' and y.a[0] in SAME and len(y.a) > 1 and text(y.a[1])
                    or y.t == 'fld' and y.a[-1] == '*' and text(y.a[0]))
        env = {}
        for y in walk(t):
            if isop(y, 'len') and text(y.a[1]):
                env[y] = len(key)
            elif isop(y, 'eq') and len(y.a) == 3 and text(y.a[1]) and y.a[2].t == 'str':
                env[y] = int(y.a[2].a[0] == key)
            elif isop(y, 'eq') and len(y.a) == 3 and text(y.a[2]) and y.a[1].t == 'str':
                env[y] = int(y.a[1].a[0] == key)
        got = evalv(t, env)
        if got is None:
            return None
        return got not in d if isinstance(d, (tuple, list, set, frozenset)) else got == d

    def skipped(a, x):
        if a.el is None or not a.brs:
            return
        for key in names:
            if all(says(t, d, a.el, key) is True for t, d in a.brs):
                x.violate('read/items/skipped/' + key, 'item %s of a frame is left out of the items its fields are taken from' % key)
                return

    def step(a, e, x):
        if e[0] == 'next' and e[1].t == 'coll' and e[1].a[0] in srcs:
            skipped(a, x)
            return a.set(el=e[2], brs=(), open=a.open | {e[1].a[0]})
        if a.el is not None and e[0] in ('br', 'brx'):
            return a.set(brs=a.brs + ((e[1], e[2]),)) if len(a.brs) < 16 else a.set(el=None)
        t = added(e)
        if t is not None:
            return a.set(el=None, brs=())
        if e[0] == 'end' and e[1].t == 'coll' and e[1].a[0] in srcs:
            skipped(a, x)
            return a.set(el=None, brs=(), open=a.open - {e[1].a[0]})
        if e[0] in ('opaque', 'R'):
            return a.set(el=None, brs=())
        if e[0] == 'mapget':
            for y in walk(e[1]):
                if y.t == 'coll' and fed.get(y.a[0], set()) & a.open:
                    x.violate('read/items/cut', 'the items of a frame are not all put where its fields are taken from')
            return a.set(el=None, brs=(), open=frozenset())
        return a
    Auto(c, g, Rec(el=None, brs=(), open=frozenset()), step)


def an_item(t, key):
    return isop(t, 'mapval') and t.a[2].t == 'str' and t.a[2].a[0] == key


def admits(n, key, d, num, size):
    """may the path to n be taken when the item is of variant d with this value (or text length)?"""
    env = None
    for t, (lo, hi, ex) in n.st.facts.items():
        if not any(an_item(y, key) for y in walk(t)):
            continue
        if isop(t, 'discr') and an_item(t.a[1], key):
            if d is not None and (not lo <= d <= hi or d in ex):
                return False
            continue
        env = {}
        for y in walk(t):
            if num is not None and y.t == 'fld' and an_item(y.a[0], key):
                env[y] = num
            elif size is not None and isop(y, 'len') and y.a[1].t != 'coll' and any(y.a[1] is z or kept(y.a[1], z) is True for z in walk(y.a[1]) if z.t == 'fld' and an_item(z.a[0], key)):
                env[y] = size
        got = evalv(t, env) if env else None
        if got is not None and (not lo <= got <= hi or got in ex):
            return False
    return True


def accepted(c, g, byn):
    """every value SPOP allows an item to have is admitted by some path on which the frame is delivered"""
    oks = {}
    for n in g.nodes:
        if n.end is not None and isadt(n.end[1], 'Result', 'Ok'):
            vn, s = read_result(n)
            if vn in KEYS:
                oks.setdefault(vn, []).append(n)

    for vn, ns in oks.items():
        for key, (field, fk, status) in KEYS[vn].items():
            want = {'uint': 'Uint32', 'bool': 'Boolean'}.get(fk, 'String')
            if fk == 'uint':
                tries = [(v, None) for v in (0, 1, 2, 100, 255, 256, 16384, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)]
            elif fk == 'string':
                tries = [(None, v) for v in (0, 1, 5, 300)]
            else:
                continue
            res = [(v, l, any(admits(n, key, byn.get(want), v, l) for n in ns)) for v, l in tries]
            c.count('values tried', len(res))
            no = [(v, l) for v, l, ok in res if not ok]
            if no and len(no) < len(res):
                v, l = no[0]
                c.violate('read/%s/%s/refused' % (vn, key), 'no path delivers a %s frame whose %s %s %d' % (vn, key, 'is' if l is None else 'has the length', v if l is None else l))
    # a size no frame can have is told apart from a malformed frame
    for n in g.nodes:
        er = err_of(n.end[1]) if n.end is not None and n.end[0] == 'return' else None
        if er is None or er.t != 'adt' or any(isop(t, 'haskey') and r[1] == 0 for t, r in n.st.facts.items()):
            continue
        big = small = True
        for t, (lo, hi, ex) in n.st.facts.items():
            ys = [y for y in walk(t) if y.t == 'fld' and an_item(y.a[0], 'max-frame-size')]
            if not ys:
                continue
            for v in (1 << 32, 100):
                got = evalv(t, {y: v for y in ys})
                if got is not None and (not lo <= got <= hi or got in ex):
                    if v == 100:
                        small = False
                    else:
                        big = False
        if big and not small:
            c.count('sizes that are too big')
            later = [k for k in ('capabilities',) if any(isop(t, 'haskey') and t.a[2].t == 'str' and t.a[2].a[0] == k for t in n.st.facts)]
            if vname(er) not in ('BadFrameSize',) and not later:
                c.violate('read/max-frame-size/status', 'a max-frame-size that is too big is refused with %s' % vname(er), path_to(g, n))


# ------------------------------------------------------------------ C06
def C06(c):
    c.rule('every message is written as name, count of its arguments, then each argument in order as name and typed value; every '
           'action as id, count, scope, name and (when setting) value, with all items written in order; the reader builds a '
           'message or action only from exactly that sequence of reads, with ids, counts and scopes checked')
    writing(c, c.graph('write'))
    g = c.graph('read')

    def end(a, n, x):
        vn, s = read_result(n)
        if isadt(n.end[1], 'Result', 'Ok') and vn in ('HaproxyNotify', 'AgentAck'):
            c.count('lists delivered')
            f = fields(s) if s is not None and s.t == 'adt' else {}
            v = f.get('messages' if vn == 'HaproxyNotify' else 'actions')
            if v is not None and v.t == 'coll' and not v.a[1] and a.cnt is not None:
                pass
            if a.tok and all(t[0] in FIXED or t[0] == 'bytes' for t in a.tok) and not a.bad:
                x.violate('read/%s/lost' % vn, 'a %s frame is delivered without an item that was read: %s' % (vn, ' '.join(t[0] for t in a.tok)))
    reading(c, g, end, 'C06')
    refusals(c, g, 'C06')
    order(c, g)
    c.floor('actions built', 2)
    c.floor('messages built', 1)
    c.floor('items of lists', 2)


def order(c, g):
    """items are appended at the end, never inserted elsewhere, sorted or removed"""
    for n, evs, m in edges(g):
        for e in evs:
            if e[0] == 'vecop':
                c.violate('list-op/%s' % e[1], 'the items read are changed by %s' % e[1], path_to(g, n))


# ------------------------------------------------------------------ C07
def C07(c):
    c.rule('every path that delivers a hello or disconnect has established that both ids are zero, every path that delivers a '
           'notify or ack that the frame id is not zero, and the type id is one of the six frame types')
    g = c.graph('read')

    def end(a, n, x):
        vn, s = read_result(n)
        if not isadt(n.end[1], 'Result', 'Ok'):
            c.count('frames refused')
            return
        c.count('frames delivered')
        if a.lost or len(a.hdr) < 4:
            return
        ty, fl, sid, fid = a.hdr

        CORNER = (0, 1, 2, 0x7f, 0xf0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 63, (1 << 32) - 1, (1 << 64) - 1)

        def witness(good):
            """ids that pass every decision of this path but not the rule, or None; '?' when a decision cannot be evaluated"""
            if a.ids is None:
                return '?'
            res = None
            for s1 in CORNER:
                for f1 in CORNER:
                    if good(s1, f1):
                        continue
                    env = {sid[1]: s1, fid[1]: f1}
                    ok = True
                    for t, d, k in a.ids:
                        q = evalv(t, env)
                        if q is None:
                            ok = ok and '?'
                        elif q in d if k == 'brx' else q != d:
                            ok = False
                            break
                    if ok is True:
                        return s1, f1
                    if ok == '?':
                        res = '?'
            return res

        def zero(t):
            v = t[2]
            if isinstance(v, tuple) and v[0] == 'z':
                return v[1]
            if isinstance(v, int):
                return int(v == 0)
            return None
        if vn in HELLO + DISC:
            for nm, t in (('stream id', sid), ('frame id', fid)):
                z = zero(t)
                c.count('header rules decided')
                w = None
                if z != 1:
                    w = witness(lambda s1, f1: (s1 if t is sid else f1) == 0)
                if w is not None and w != '?':
                    x.violate('%s/%s' % (vn, nm), 'a %s frame is delivered with stream id %#x and frame id %#x' % (vn, w[0], w[1]))
                elif w == '?':
                    c.note('%s checked in an unknown way' % nm)
        elif vn in ('HaproxyNotify', 'AgentAck'):
            z = zero(fid)
            c.count('header rules decided')
            w = witness(lambda s1, f1: f1 != 0) if z != 0 else None
            if w is not None and w != '?':
                x.violate('%s/frame id' % vn, 'a %s frame is delivered with stream id %#x and frame id %#x' % (vn, w[0], w[1]))
            elif w == '?':
                c.note('frame id checked in an unknown way')
        if ty[2] is None and vn in FRAMES:
            x.violate('%s/type' % vn, 'a %s frame is delivered although its type id may be another' % vn)
        elif ty[2] not in [v[0] for v in FRAMES.values()]:
            x.violate('type/%s' % ty[2], 'a frame of unknown type %s is delivered as %s' % (ty[2], vn))
    reading(c, g, end, 'C07')
    c.floor('frames delivered', 10)
    c.floor('header rules decided', 10)


# ------------------------------------------------------------------ C08
def limit_of(v):
    """is v the frame size limit of the framer?"""
    v = uncast(v)
    return v.t == 'fld' and any(s.a[:2] == ('param', 'self') for s in v.syms) or v.t == 's' and v.a[0] == 'param' and 'max' in str(v.a[1])


def C08(c):
    c.rule('on every path the body of a frame is read, and memory of a size the peer declared is reserved, only after the '
           'declared length was found not to exceed the configured maximum (equality allowed), and every other reservation '
           'while decoding is bounded by the bytes present or a constant')
    g = c.graph('read')

    def lossy(t, x):
        for y in walk(t):
            if isop(y, 'cast'):
                lo, hi = g.root.ip.rng(x.src.st, y.a[1])
                if lo < y.a[2] or hi > y.a[3]:
                    return True
            if isop(y, 'wrap'):
                return True
        return False

    def step(a, e, x):
        if e[0] == 'io' and e[1].startswith('read') and e[2] == 'ok' and a[0] == 'start' and e[1] not in ('read_exact',):
            c.count('length prefixes read')
            return ('len', e[4], None)
        if a[0] == 'start':
            if e[0] == 'io' and e[2] == 'ok':
                c.note('the length is read by ' + e[1])
            return a
        if e[0] == 'br' and a[0] == 'len' and a[1] in e[1].syms:
            o, p, q, d = rel(e[1], e[2])
            if o == 'lt':
                if lossy(e[1], x):
                    return ('len', a[1], ('other', e[1], e[2]))
                if limit_of(p) and q is a[1]:
                    return ('len', a[1], 'le' if not d else 'gt')
                if limit_of(q) and p is a[1]:
                    return ('len', a[1], 'lt' if d else 'ge')
                if any(limit_of(y) for y in walk(p) if y.t in ('fld', 's')) or any(limit_of(y) for y in walk(q) if y.t in ('fld', 's')):
                    return ('len', a[1], ('other', e[1], e[2]))
        if e[0] == 'io' and e[1] in ('read_exact', 'read', 'read_buf', 'read_to_end') and a[0] == 'len':
            c.count('body reads')
            bound(a, 'the body is read', x)
            return a
        if e[0] == 'alloc':
            c.count('reservations')
            n, span, hi, ub, rems = e[1:6]
            if hi <= 1 << 17:
                return a
            if any(limit_of(u) for u in ub + (n,)):
                return a
            m = uncast(n)
            while m.t == 'lin':
                m = m.a[0]
            if any(limit_of(u) for u in (m,)) or isop(m, 'min') and any(limit_of(u) for u in m.a[1:]):
                return a
            if m is a[1] and a[2] in ('le', 'lt'):
                return a
            if any(r in ub or r is m for r in rems) or any(uncast(u) in rems or u.t == 'lin' and u.a[0] in rems for u in ub):
                return a
            if isop(m, 'len') or unknown(n):
                return a
            if isop(m, 'min') and any(r in m.a for r in rems):
                return a
            x.violate('alloc/%s' % show(m)[:60].split('.')[0], '%s: memory is reserved for %s elements, which nothing bounds' % (span, show(n)))
        return a

    def bound(a, what, x):
        if a[2] == 'le':
            return
        if a[2] == 'lt':
            x.violate('equal', '%s only when the declared length is less than the maximum: a frame of exactly the maximum is refused' % what)
        elif isinstance(a[2], tuple):
            t, d = a[2][1], a[2][2]
            # evaluate the comparison at the limit
            lim = None
            for y in walk(t):
                if lim is None and y.t in ('fld', 's') and limit_of(y):
                    lim = y
            for extra, ok in ((0, True), (1, False), (4, False), (-1, True), ((1 << 16), False), ((1 << 31) - 500, False), ((1 << 32) - 1001, False)):
                v = evalv(t, {lim: 1000, a[1]: 1000 + extra})
                if v is None:
                    c.note('length compared in an unknown way: %s' % show(t))
                    return
                if (v == d) != ok:
                    x.violate('limit', '%s for a declared length of the maximum%+d: %s is %s' % (what, extra, show(t), d) if not ok else
                              'a declared length of the maximum%+d is refused: %s' % (extra, show(t)))
        else:
            x.violate('unbounded', '%s although the declared length was not found to be within the maximum' % what)

    def end(a, n, x):
        pass
    Auto(c, g, ('start',), step, end)
    for t in ('typed_get', 'hdrs'):
        g2 = c.graph(t)

        def step2(a, e, x):
            if e[0] == 'alloc':
                c.count('reservations')
                n, span, hi, ub, rems = e[1:6]
                m = uncast(n)
                while m.t == 'lin':
                    m = m.a[0]
                if hi <= 1 << 17 or unknown(n) or isop(m, 'len') or m in rems:
                    return a
                if any(uncast(u) in rems or u.t == 'lin' and u.a[0] in rems for u in ub):
                    return a
                if isop(m, 'min') and any(r in m.a for r in rems):
                    return a
                x.violate('alloc/%s/%s' % (t, show(m)[:60].split('.')[0]), '%s: memory is reserved for %s elements, which nothing bounds' % (span, show(n)))
            return a
        Auto(c, g2, 0, step2)
    connection_limit(c, 'READ')
    c.floor('body reads', 1)


# ------------------------------------------------------------------ C09 C10
def C09(c):
    c.rule('every write of frame bytes to the transport happens on a path where the length of the encoding was found not to '
           'exceed the maximum frame size; the refusal is TooBig')
    g = c.graph('write')
    ip = g.root.ip

    def lens(wb):
        """(declared, counted) length of a frame image"""
        return None

    def step(a, e, x):
        if e[0] == 'io' and e[1].startswith('write'):
            if e[2] == 'ok':
                c.count('writes to the transport')
            ok = None
            for k, f in list(x.dst.st.facts.items()) + list(x.src.st.facts.items()):
                if k.t == 'op' and k.a[0] == 'lt' and f[0] == f[1]:
                    p, q = uncast(k.a[1]), uncast(k.a[2])
                    cut = narrowed(ip, x.dst.st, k)
                    if cut is not None and (limit_of(p) or limit_of(q)):
                        x.violate('narrow', 'the length compared with the maximum is cut off: %s' % show(cut)[:120])
                    if limit_of(p) and f[0] == 0 and q.t != 'i':
                        ok = ('le', q)
                    elif limit_of(q) and f[0] == 1 and p.t != 'i':
                        ok = ok or ('lt', p)
                    elif f[0] == 0 and p.t == 'lin' and limit_of(p.a[0]) and q.t != 'i':
                        ok = ok or ('le', lin(q, -p.a[1]) if q.t != 'i' else q)
            v = e[4]
            if ok is None:
                x.violate('unchecked', 'frame bytes are written to the transport without the length of the frame being compared with the maximum')
            elif v.t == 'wb' and v.a[1]:
                p0 = v.a[1][0]
                if p0[0] == 'u32' and isinstance(p0[1], V):
                    want = uncast(p0[1])
                    if ok[0] == 'lt':
                        x.violate('equal', 'a frame of exactly the maximum size is refused')
                    if want is not ok[1] and not unknown(want):
                        d = difference(want, ok[1])
                        if d is None:
                            c.note('the length compared is %s, the length declared %s' % (show(ok[1])[:60], show(want)[:60]))
                        elif d != 0:
                            x.violate('off', 'the length compared with the maximum differs from the length of the frame by %d' % d)
        return a

    def end(a, n, x):
        er = err_of(n.end[1]) if n.end[0] == 'return' else None
        if er is not None:
            c.count('refusals')
            if er.t == 'adt' and vname(er) not in ('TooBig', 'Io'):
                x.violate('status/%s' % vname(er), 'a frame that cannot be sent is refused with %s' % vname(er))

    def step2(a, e, x):
        return step(a, e, x)
    Auto(c, g, 0, step2, end)
    tb = [n for n in ends(g) if err_of(n.end[1]) is not None and err_of(n.end[1]).t == 'adt' and vname(err_of(n.end[1])) == 'TooBig']
    c.count('refusals as too big', len(tb))
    # a refusal leaves nothing on the wire

    def step3(a, e, x):
        if e[0] == 'io' and e[1].startswith('write'):
            return 1
        return a

    def end3(a, n, x):
        er = err_of(n.end[1]) if n.end[0] == 'return' else None
        if er is not None and er.t == 'adt' and vname(er) == 'TooBig' and a:
            x.violate('partial', 'a frame that is too big is refused after a part of it was written')
    Auto(c, g, 0, step3, end3)
    c.floor('writes to the transport', 1)
    connection_limit(c, 'WRITE')
    if not tb:
        c.violate('never', 'no frame is ever refused as too big', [])
    sent = [e for n, evs, m in edges(g) for e in evs if e[0] == 'opaque' or e[0] == 'io' and e[1].startswith('write')]
    if tb and not sent and not [n for n in ends(g) if isadt(n.end[1], 'Result', 'Ok')]:
        c.violate('always', 'every frame is refused as too big', path_to(g, tb[0]))


def connection_limit(c, which):
    """the maximum compared with is the one in force on the connection"""
    import rules_conn
    try:
        rules_conn.limits(c, (which,), 'connection/')
    except (Missing, Abort) as e:
        c.note('connection not followed: %s' % e)


def narrowed(ip, st, v, hi=(1 << 32) - 1):
    """does a cast inside v cut a number off below hi?"""
    for y in walk(v):
        if isop(y, 'cast') and y.a[3] < hi:
            l, h = ip.rng(st, y.a[1])
            if h > y.a[3] or l < y.a[2]:
                return y
    return None


def linform(v, sign=1, out=None):
    out = {} if out is None else out
    v = uncast(v)
    if v.t == 'i':
        out[None] = out.get(None, 0) + sign * v.a[0]
    elif v.t == 'lin':
        out[None] = out.get(None, 0) + sign * v.a[1]
        linform(v.a[0], sign, out)
    elif v.t == 'op' and v.a[0] == 'add':
        linform(v.a[1], sign, out)
        linform(v.a[2], sign, out)
    elif v.t == 'op' and v.a[0] == 'sub':
        linform(v.a[1], sign, out)
        linform(v.a[2], -sign, out)
    else:
        out[v] = out.get(v, 0) + sign
    return out


def difference(a, b):
    """a - b when it is a constant, else None"""
    f = linform(a)
    linform(b, -1, f)
    k = f.pop(None, 0)
    return k if not any(f.values()) else None


def piece_len(ip, p):
    return p[2] if isinstance(p[2], V) else I(p[2])


def judged(sh, e, whole=()):
    """what a decision says of a read or write that may have done a part: nothing was done, all was done, or neither"""
    if sh is None:
        return None
    t, k = e[1], sh[2]
    if k in t.syms and len(t.syms) == 1:
        got = [evalv(t, {k: q}) for q in (0, 1, 2, 5, 1000)]
        if None not in got:
            got = [r == e[2] for r in got]
            if got == [True] + [False] * 4:
                return ('zero',) + sh[1:]
            return ('ok',) + sh[1:] if not whole and got[4] and not got[1] else sh
    mine = sorted((y for y in t.syms if any(q in ('wid', 'nread', 'nwritten') for q in y.a[:2])), key=lambda y: y.n)
    if mine and not whole:
        return ('ok',) + sh[1:]
    if mine and len(whole) == 1 and t.syms == whole | set(mine):
        env = {y: 0 for y in mine}
        env.update({y: 1000 for y in whole})
        got = [evalv(t, {**env, mine[0]: q}) for q in (1000, 10)]
        if None in got or got[0] == e[2] != got[1]:
            return ('ok',) + sh[1:]
        if got[1] == e[2] != got[0]:
            return ('more',) + sh[1:]
    return sh


def C10(c):
    c.rule('a frame image starts with its 4-byte big-endian length, equal to the sum of the lengths of the pieces that follow; '
           'it is handed over by a complete write and flushed before success is reported; reading takes the 4-byte big-endian '
           'length, then exactly that many bytes; transport errors become I/O errors; a read that has begun is never abandoned '
           'for another read of the same stream')
    g = c.graph('write')
    ip = g.root.ip

    def step(a, e, x):
        if e[0] == 'opaque' and a.ph == 'none':
            return a.set(ph='opaque')
        if e[0] == 'br':
            return a.set(sh=judged(a.sh, e))
        if e[0] == 'io' and e[1] == 'flush':
            short(a, x)
            if e[2] == 'ok' and a.ph == 'none':
                return a
            return a.set(ph='flushed' if e[2] == 'ok' else 'err')
        if e[0] == 'io' and e[1] == 'shutdown':
            return a
        if e[0] == 'io' and e[1].startswith('write'):
            if e[2] != 'ok':
                return a.set(ph='err', sh=None)
            c.count('writes to the transport')
            short(a, x)
            v = e[4]
            if v.t == 'wb' and v.a[1]:
                image(v, x)
            elif not unknown(v):
                c.note('written: %s' % show(v)[:80])
            return a.set(ph='written', sh=('part', e[1], e[5]) if e[1] in ('write', 'write_buf', 'write_vectored') else None)
        return a

    def short(a, x):
        if a.sh is not None and a.sh[0] == 'part':
            x.violate('partial', 'a %s, which may write a part of a frame, is taken for all of it' % a.sh[1])
        elif a.sh is not None and a.sh[0] == 'zero':
            x.violate('partial/zero', 'a %s that wrote nothing is taken for the rest of a frame' % a.sh[1])

    def image(v, x):
        ps = v.a[1]
        p0 = ps[0]
        if p0[0] == 'u32le':
            x.violate('prefix/le', 'the length prefix is little-endian')
            return
        if p0[0] != 'u32':
            if evalv(piece_len(ip, p0), {}) not in (None, 4):
                x.violate('prefix/width', 'the frame starts with %s, not with a 4-byte length' % p0[0])
            c.note('the length prefix is %s' % p0[0])
            return
        tot = I(0)
        d = {}
        linform(uncast(p0[1]), 1, d)
        for p in ps[1:]:
            linform(piece_len(ip, p), -1, d)
        k = d.pop(None, 0)
        c.count('frame images')
        rest = {q: n for q, n in d.items() if n}
        cut = narrowed(ip, x.dst.st, p0[1])
        if cut is not None:
            x.violate('prefix/narrow', 'the length prefix is cut off: %s' % show(cut)[:120])
        if unknown(p0[1]):
            c.note('length prefix %s' % show(p0[1])[:80])
        elif rest:
            c.note('length prefix and pieces differ by %s' % ', '.join('%d*%s' % (n, show(q)[:40]) for q, n in rest.items()))
            if p0[1].t == 'i':
                x.violate('prefix/constant', 'the length prefix is the constant %s' % show(p0[1]))
        elif k:
            x.violate('prefix/value', 'the length prefix differs from the number of bytes that follow by %d' % k)

    def end(a, n, x):
        if n.end[0] != 'return':
            return
        if isadt(n.end[1], 'Result', 'Ok'):
            c.count('sends reported complete')
            short(a, x)
            if a.ph == 'none':
                x.violate('nothing', 'a send that writes nothing is reported as complete')
            elif a.ph == 'written':
                x.violate('unflushed', 'a send is reported as complete before it is flushed')
            elif a.ph == 'err':
                x.violate('swallowed', 'a send whose write failed is reported as complete')
        else:
            er = err_of(n.end[1])
            if a.ph == 'err' and er is not None and er.t == 'adt' and vname(er) != 'Io':
                x.violate('status', 'a failed write is reported as %s' % vname(er))
    Auto(c, g, Rec(ph='none', sh=None), step, end)

    g = c.graph('read')

    def rstep(a, e, x):
        if e[0] == 'br':
            return a.set(sh=judged(a.sh, e, a.n.syms if a.n is not None else ()))
        if e[0] == 'io' and e[1].startswith('read'):
            c.count('reads from the transport')
            if e[2] != 'ok':
                return a.set(ph='err', sh=None)
            rshort(a, x, ('part', 'zero'))
            a = a.set(sh=('part', e[1], e[4]) if e[1] in ('read', 'read_buf') else None)
            if a.ph == 'start':
                if e[1] == 'read_u32':
                    return a.set(ph='len', n=e[4])
                if e[1] in ('read_u8', 'read_u16', 'read_u64', 'read_u32_le', 'read_u16_le', 'read_u64_le', 'read_i32'):
                    x.violate('read/prefix', 'the length of a frame is read by %s' % e[1])
                return a.set(ph='lost')
            if a.ph == 'len':
                n = e[4]
                if e[1] == 'read_to_end':
                    x.violate('read/all', 'the body of a frame is read to the end of the stream')
                elif e[1] == 'read_exact' and isinstance(n, V) and uncast(n) is not uncast(a.n) and not unknown(n):
                    x.violate('read/length', 'the body of a frame is read as %s bytes, not as the %s declared' % (show(n), show(a.n)))
                return a.set(ph='body')
            if a.ph == 'body' and e[1] not in ('read', 'read_buf'):
                x.violate('read/more', 'more is read from the transport after the body of a frame')
        return a

    def rshort(a, x, which=('part', 'zero', 'more')):
        if a.sh is not None and a.sh[0] in which and a.sh[0] != 'zero':
            x.violate('read/partial', 'a %s, which may return a part of what is asked for, is taken for all of it' % a.sh[1])
        elif a.sh is not None and a.sh[0] == 'zero':
            x.violate('read/partial/zero', 'a %s that returned nothing is taken for the rest of a frame' % a.sh[1])

    def rend(a, n, x):
        if n.end[0] != 'return':
            return
        if isadt(n.end[1], 'Result', 'Ok'):
            rshort(a, x)
            if a.ph in ('start', 'len'):
                x.violate('read/none', 'a frame is delivered before its body is read')
            if a.ph == 'err':
                x.violate('read/swallowed', 'a frame is delivered although reading failed')
        else:
            er = err_of(n.end[1])
            if a.ph == 'err':
                c.count('transport errors reported')
                if er is not None and er.t == 'adt' and vname(er) != 'Io':
                    x.violate('read/status', 'a transport failure while reading is reported as %s' % vname(er))
    Auto(c, g, Rec(ph='start', n=None, sh=None), rstep, rend)
    # the connection never abandons a read that has begun
    try:
        g = c.graph('serve')
    except (Missing, Abort) as e:
        c.note('connection not followed: %s' % e)
        return

    def sstep(a, e, x):
        if e[0] == 'WAIT' and e[1] == 'READ':
            return 'waiting'
        if e[0] == 'READ':
            return 'idle'
        if e[0] == 'drop' and isinstance(e[1], V) and e[1].t == 'fut' and e[1].a[0] == 'READ' and a == 'waiting':
            c.count('reads abandoned')
            return 'abandoned'
        return a

    def sstep2(a, e, x):
        if a == 'abandoned' and (e[0] == 'READ' or e[0] == 'WAIT' and e[1] == 'READ'):
            x.violate('abandoned', 'a frame is read after an earlier read that had begun was given up: the bytes it consumed are lost')
            return None
        return sstep(a, e, x)
    Auto(c, g, 'idle', sstep2)
    c.floor('frame images', 3)
    c.floor('sends reported complete', 3)


# ------------------------------------------------------------------ C33
def C33(c):
    c.rule('for every data writer, the value returned equals the sum of the lengths of the pieces written on that path; '
           'the variable-length integer writer writes k bytes exactly for the numbers for which the declared size is k')
    for t in ('typed_put', 'string_put', 'kv_put', 'kvlist_put0', 'kvlist_put1', 'kvlist_put2', 'kvlist_put3'):
        try:
            g = c.graph(t)
        except Missing as e:
            c.note(str(e))
            continue

        def step(a, e, x):
            if e[0] == 'W' and e[1] != 'patch':
                return a + (e[3],)
            return a

        def end(a, n, x):
            if n.end[0] != 'return':
                return
            d = linform(n.end[1])
            for p in a:
                linform(p if isinstance(p, V) else I(p), -1, d)
            c.count('writer paths')
            k = d.pop(None, 0)
            rest = {q: m for q, m in d.items() if m}
            if any(unknown(q) for q in rest):
                c.note('%s returns %s' % (t, show(n.end[1])[:80]))
            elif k or rest:
                kind = fact(n.st, op('discr', sym('param', 'data')))
                x.violate('%s/%s' % (t, kind), '%s returns a size that differs from what it wrote by %s' % (
                    t, ' '.join(['%+d' % k] * bool(k) + ['%+d*%s' % (m, show(q)[:60]) for q, m in rest.items()])))
        Auto(c, g, (), step, end)
    # the size of a header is what is written of it
    try:
        g, g2 = c.graph('metadata_put'), c.graph('metadata_size')
        ws = []
        for n in ends(g):
            d = {}
            evs = [e for e in path_events(n) if e[0] == 'W']
            for e in evs:
                linform(e[3] if isinstance(e[3], V) else I(e[3]), 1, d)
            ws.append({k: v for k, v in d.items() if v})
        for n in ends(g2):
            d = {}
            linform(n.end[1], 1, d)
            for k in list(d):
                if isinstance(k, V) and k.t == 's' and 'size_of' in str(k.a) and 'Flags' in str(k.a):
                    d[None] = d.get(None, 0) + 4 * d.pop(k)
            d = {k: v for k, v in d.items() if v}
            c.count('header sizes')
            if any(k is not None and unknown(k) for k in d):
                c.note('size of a header: %s' % show(n.end[1])[:100])
                continue
            for w in ws:
                if w != d:
                    c.violate('metadata', 'the size of a frame header is computed as %s, but what is written has %s' % (
                        show(n.end[1]), ' + '.join(('%d' % v if k is None else '%d*%s' % (v, show(k))) for k, v in w.items())), path_to(g2, n))
    except Missing as e:
        c.note(str(e))
    g = c.graph('varint_put')
    puts = {}

    def vstep(a, e, x):
        return a + 1 if e[0] == 'W' else a

    def vend(a, n, x):
        if n.end[0] != 'return':
            return
        k = evalv(n.end[1], {})
        if k is None:
            c.note('varint writer returns %s' % show(n.end[1]))
            return
        c.count('varint writer paths')
        if k != a:
            x.violate('varint/returned', 'writing %d bytes of a variable-length integer is reported as %d' % (a, k))
        lo, hi = g.root.ip.rng(n.st, g.root.vals[1])
        q = puts.setdefault(k, [lo, hi])
        q[0], q[1] = min(q[0], lo), max(q[1], hi)
        wrote.append((n.st, k))

    def written(v):
        """the bytes written for a number, when the paths that can be taken agree"""
        ks = {k for st, k in wrote if consistent(st, {g.root.vals[1]: v})}
        return ks.pop() if len(ks) == 1 else None
    wrote = []
    Auto(c, g, 0, vstep, vend)
    g2 = c.graph('varint_size')
    for n in ends(g2):
        k = evalv(n.end[1], {})
        lo, hi = g2.root.ip.rng(n.st, g2.root.vals[0])
        if k is None:
            c.note('varint size %s' % show(n.end[1]))
            continue
        c.count('varint sizes')
        for v in {lo, hi}:
            w = written(v)
            if w is not None and w != k and consistent(n.st, {g2.root.vals[0]: v}):
                c.violate('varint/size/%d' % k, 'the size declared for %d is %d, but %d bytes are written for it' % (v, k, w), path_to(g2, n))
        for kk, (l2, h2) in puts.items():
            if max(lo, l2) <= min(hi, h2) and kk != k and max(lo, l2) > 0 and any(
                    written(v) == kk and consistent(n.st, {g2.root.vals[0]: v}) for v in {max(lo, l2), min(hi, h2)}):
                c.violate('varint/size/%d' % k, 'the size declared for %d..%d is %d, but %d bytes are written for it' % (max(lo, l2), min(hi, h2), k, kk), path_to(g2, n))
    c.floor('writer paths', 12)
    c.floor('varint writer paths', 10)
