"""Rules for what the public types say of themselves: names, lists, constructors, accessors, conversions."""
from rules_conn import *
from rules_wire import kept

NAMES = {'Fragmentation': 'fragmentation', 'Pipelining': 'pipelining', 'Async': 'async'}
LISTS = {'supported-versions': 'Version', 'capabilities': 'Capability'}


def strs(v):
    return [y.a[0] for y in walk(v) if y.t == 'str']


# ------------------------------------------------------------------ C37
def C37(c):
    c.rule('the text of every capability is its SPOP name and the text of every capability is read back as that capability; a version '
           'is written as major, a dot, minor; and on every path that delivers a hello each item of a comma-separated list was parsed '
           'without the blanks around it and kept - except empty items of the capabilities, which are skipped - up to the end of '
           'the list')
    cp = adt_path('caps::Capability')
    byd, byn = variants(cp)
    names = {v['name']: i for i, v in enumerate(ADTS[cp]['variants'])}
    T = c.T
    # -- capabilities as text
    for n, i in sorted(names.items()):
        if n not in NAMES:
            c.note('capability %s has no name in SPOP' % n)
            continue
        g = T.shown('Capability', mk('adt', cp, i, ()))
        for nd in ends(g):
            c.count('texts of capabilities')
            # the paths of other capabilities (when the value is not decided) do not count
            evs = path_events(nd)
            got = strs(nd.end[1]) or [s for e in evs for y in e[1:] if isinstance(y, V) and e[0] == 'opaque' for s in strs(y)]
            if len(got) != 1:
                c.note('text of %s: %s' % (n, show(nd.end[1])[:80]))
            elif got[0] != NAMES[n]:
                c.violate('text/%s' % n, 'the capability %s is written as "%s", not as "%s"' % (n, got[0], NAMES[n]), path_to(g, nd))
    try:
        g = T.parsed('Capability')
    except Missing:
        g = None
        c.note('capabilities are not read through FromStr')
    read = {}
    odd = False
    if g is not None:
        for nd in ends(g):
            v = ok_of(nd.end[1])
            if v is None:
                continue
            if not isadt(v, 'Capability'):
                odd = True
                c.note('capability read: %s' % show(v)[:80])
                continue
            eqs = [strs(e[1])[0] for e in path_events(nd) if e[0] == 'br' and e[2] == 1 and isop(e[1], 'eq') and len(strs(e[1])) == 1]
            if len(eqs) != 1:
                odd = True
                c.note('capability read by: %s' % eqs)
                continue
            c.count('capabilities read')
            read[eqs[0]] = vname(v)
            if NAMES.get(vname(v)) != eqs[0]:
                c.violate('parse/%s' % vname(v), '"%s" is read as the capability %s' % (eqs[0], vname(v)), path_to(g, nd))
        if read and not odd:
            for n in names:
                if n in NAMES and NAMES[n] not in read:
                    c.violate('parse/never/%s' % n, 'the capability "%s" is refused' % NAMES[n])
    # -- versions as text
    vp = adt_path('version::Version')
    self_ = sym('param', 'v')
    try:
        g = T.shown('Version', self_)
    except Missing:
        g = None
        c.note('versions are not written through Display')
    if g is not None:
        for nd in ends(g):
            version_text(c, g, nd, vp, self_)
    try:
        g = T.parsed('Version')
        ok = {n: i for i, n in enumerate(ADTS[vp]['variants'][0]['fields'])}
        for nd in ends(g):
            v = ok_of(nd.end[1])
            if v is None or not isadt(v, 'Version'):
                continue
            for what, other in (('major', 2), ('minor', 1)):
                groups = {int(str(z.a[0])) for y in walk(v.a[2][ok[what]]) if y.t == 'op' and str(y.a[0]).endswith('Captures::get') for z in y.a[1:] if isinstance(z, V) and z.t == 'i'}
                if groups:
                    c.count('version fields read')
                    if groups == {other}:
                        c.violate('version/%s' % what, 'the %s number of a version is taken from the place of the other one' % what, path_to(g, nd))
    except Missing:
        c.note('versions are not read through FromStr')
    lists(c)
    embed(c, 'C05', lambda k, m: 'joined' in m)
    c.floor('texts of capabilities', 3)


def version_text(c, g, nd, vp, self_):
    v = nd.end[1]
    tm = [y for y in walk(v) if y.t == 'arr' and y.a[0] and all(isinstance(z, V) and z.t == 'i' for z in y.a[0])]
    args = [y for y in walk(v) if y.t == 'arr' and y.a[0] and all(isinstance(z, V) and z.t == 'op' and str(z.a[0]).startswith('fmt') for z in y.a[0])]
    if len(tm) != 1 or len(args) != 1:
        c.note('text of a version: %s' % show(v)[:80])
        return
    b = [z.a[0] for z in tm[0].a[0]]
    out, i, k, padded = [], 0, 0, None
    while i < len(b) and b[i] != 0:
        if b[i] >= 192 and b[i] < 208:
            # a placeholder: flags, width, precision and the index of the argument follow when their bits say so
            h, i, o = b[i], i + 1, {}
            for bit, n in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if h & bit:
                    o[bit] = sum(x << (8 * j) for j, x in enumerate(b[i:i + n]))
                    i += n
            k = o.get(8, k)
            out.append(args[0].a[0][k].a[1] if k < len(args[0].a[0]) else None)
            if k < len(args[0].a[0]) and args[0].a[0][k].a[0] != 'fmt':
                padded = len(out)
            k += 1
            if o.get(2, 0) > 1 or o.get(1, 0) & (1 << 21):
                padded = len(out)
        elif b[i] < 128 and i + b[i] < len(b):
            out.append(''.join(map(chr, b[i + 1:i + 1 + b[i]])))
            i += 1 + b[i]
        else:
            c.note('text of a version: %s' % b)
            return
    want = [fieldof(self_, vp, 'major'), '.', fieldof(self_, vp, 'minor')]
    c.count('texts of versions')
    if len(out) != 3 or any((x is not y if isinstance(y, V) else x != y) for x, y in zip(out, want)):
        if any(isinstance(x, V) and unknown(x) for x in out):
            c.note('text of a version: %s' % show(v)[:80])
            return
        c.violate('version/text', 'a version is written as %s, not as major.minor' % ''.join(show(x) if isinstance(x, V) else str(x) for x in out), path_to(g, nd))
    elif padded:
        c.violate('version/padded', 'the %s number of a version is written with a sign, padded or not in decimal: it is not the plain number' % ('major' if padded == 1 else 'minor'), path_to(g, nd))


SIDES = {'trim_start': {'start'}, 'trim_left': {'start'}, 'trim_end': {'end'}, 'trim_right': {'end'}, 'trim_matches': {'start', 'end'},
         'trim_start_matches': {'start'}, 'trim_end_matches': {'end'}}


def lists(c):
    """the comma-separated lists of a hello"""
    g = c.graph('read')

    def key(v):
        """the list a value is a part of"""
        for y in walk(v):
            if isop(y, 'mapval') and y.a[2].t == 'str' and y.a[2].a[0] in LISTS:
                return y.a[2].a[0]
        return None

    def source(v):
        """(key of the list, is it taken whole?) of what is iterated over; None when it is not a split list"""
        q = v
        whole = True
        while isinstance(q, V) and q.t == 'op' and q.a[0] not in ('split', 'splitn', 'rsplitn'):
            if q.a[0] in ('take', 'skip', 'step_by', 'skip_while', 'take_while', 'nth'):
                whole = False
            elif q.a[0] not in ('rev', 'list', 'asref'):
                return None
            q = q.a[1]
        if isop(q, 'splitn') or isop(q, 'rsplitn'):
            # the last part is all the rest of the list
            whole = False
        elif not isop(q, 'split') or unknown(q):
            return None
        k = key(q.a[1])
        return (k, whole) if k else None

    def chars(p):
        """the texts a pattern matches"""
        while p.t == 'cref' or isop(p, 'asref'):
            p = p.a[0] if p.t == 'cref' else p.a[1]
        if p.t == 'i':
            return [chr(p.a[0])]
        if p.t == 'str':
            return [p.a[0]]
        if p.t == 'arr' and all(x.t == 'i' for x in p.a[0]):
            return [chr(x.a[0]) for x in p.a[0]]
        if p.t in ('clo', 'fn'):
            if p not in preds:
                preds[p] = matching(c, g, p)
            return preds[p]
        return None
    preds = {}

    def comma(v):
        """is the list split at commas?"""
        for y in walk(v):
            if isop(y, 'split_whitespace') or isop(y, 'lines') or isop(y, 'chars'):
                return 0
            if isop(y, 'split') and len(y.a) > 2 or (isop(y, 'splitn') or isop(y, 'rsplitn')) and len(y.a) > 3:
                p = y.a[-1]
                p = p.a[0] if p.t == 'cref' else p
                cs = chars(p)
                if cs is not None:
                    return int(set(cs) == {','})
                return None
        return None

    def blanks(v):
        """does a trim pattern match a blank? (None: unknown)"""
        cs = chars(v)
        if cs is not None:
            return ' ' in cs
        if 'is_whitespace' in str(v) or 'is_ascii_whitespace' in str(v):
            return True
        return None

    def bare(v, el):
        """the sides of an item on which blanks were removed; None: not understood"""
        sides = set()
        while v is not el:
            v = v.a[0] if v.t == 'cref' else v
            if v is el:
                break
            if v.t != 'op':
                return None
            nm = v.a[0]
            if nm == 'trim':
                return {'start', 'end'}
            if nm in SIDES:
                if len(v.a) > 2:
                    b = blanks(v.a[2])
                    if b is None:
                        return None
                    if not b:
                        v = v.a[1]
                        continue
                sides |= SIDES[nm]
            elif nm not in ('to_string', 'asref', 'to_ascii_lowercase', 'to_lowercase'):
                return None
            v = v.a[1]
        return sides

    def says_empty(a, el, want):
        """was an item (or the whole list) found to be empty (want: 1) or not (0)?"""
        for t, d in a.brs:
            if isinstance(d, tuple):
                continue
            ln = [y for y in walk(t) if isop(y, 'len') and (mentions(y, el) or key(y) and not any('el' in s.a[:1] for s in y.syms))]
            for y in ln:
                z = says_zero(rel(t, d), y)
                if z is not None and z == want:
                    return True
            for y in walk(t):
                if isop(y, 'eq') and (mentions(y, el)) and any(s == '' for s in strs(y)):
                    if d == want:
                        return True
        return False

    def settle(a, x, after):
        """an item was looked at: it has to be kept, or be an empty one"""
        if a.el is None:
            return a
        k, el, kept = a.el
        if kept is None:
            if says_empty(a, el, 1):
                pass
            elif a.opq:
                c.note('item of %s not understood' % k)
            else:
                x.violate('dropped/' + k, 'an item of %s is neither kept nor refused' % k)
        return a.set(el=None, brs=())

    def step(a, e, x):
        n = e[0]
        if n in ('next', 'end'):
            s = source(e[1])
            if s is None:
                if key(e[1]):
                    return a.set(opq=True)
                return a
            k, whole = s
            sep = comma(e[1])
            if sep == 0:
                x.violate('separator/' + k, 'the items of %s are not separated by commas' % k)
            elif sep is None:
                c.note('separator of %s not understood: %s' % (k, show(e[1])[:100]))
            if not whole:
                x.violate('part/' + k, 'only a part of %s is taken apart' % k)
            a = settle(a, x, n)
            if n == 'end':
                return a.set(open=a.open - {k})
            c.count('list items looked at')
            return a.set(el=(k, e[2], None), open=a.open | {k})
        if n == 'cut' and source(e[1]):
            x.violate('part/' + source(e[1])[0], 'only a part of %s is looked at' % source(e[1])[0])
            return a
        if n == 'br' and key(e[1]):
            return a.set(brs=(a.brs + ((e[1], e[2]),))[-8:])
        if n == 'push' and a.el is not None:
            k, el, kept = a.el
            it = e[2]
            if not mentions(it, el):
                return a
            ps = [y for y in walk(it) if isop(y, 'parse')]
            if not ps or unknown(it) and not any(isop(y, 'trim') for y in walk(it)):
                c.note('item of %s: %s' % (k, show(it)[:80]))
                return a.set(el=(k, el, True))
            c.count('list items kept')
            arg = ps[0].a[-1]
            sides = bare(arg, el)
            if sides is None:
                c.note('item of %s: %s' % (k, show(arg)[:80]))
            elif len(sides) < 2:
                x.violate('blank/' + k, 'an item of %s is parsed with the blanks %s it' % (k, 'around' if not sides else 'after' if 'start' in sides else 'before'))
            if says_empty(a, el, 1):
                x.violate('inverted/' + k, 'an empty item of %s is parsed' % k)
            elif k == 'capabilities' and not says_empty(a, el, 0) and not a.opq:
                x.violate('empty/' + k, 'an empty item of %s is parsed instead of being skipped' % k)
            return a.set(el=(k, el, True))
        if n == 'opaque' and a.el is not None and any(isinstance(y, V) and mentions(y, a.el[1]) for y in e[2:3] if isinstance(y, V)):
            return a.set(opq=True)
        return a

    def end(a, n, x):
        if n.end[0] != 'return' or not isadt(n.end[1], 'Result', 'Ok'):
            return
        settle(a, x, 'ok')
        if a.open:
            for k in a.open:
                x.violate('cut/' + k, 'a frame is delivered before the end of %s was reached' % k)
    Auto(c, g, Rec(el=None, open=frozenset(), brs=(), opq=False), step, end)


# ------------------------------------------------------------------ C38
KINDS = {'()': 'Null', 'bool': 'Boolean', 'i32': 'Int32', 'u32': 'Uint32', 'i64': 'Int64', 'u64': 'Uint64', 'Ipv4Addr': 'Ipv4',
         'Ipv6Addr': 'Ipv6', 'String': 'String', '&str': 'String', 'Bytes': 'Binary', '&[u8]': 'Binary', 'Box<[u8]>': 'Binary',
         'Vec<u8>': 'Binary', 'BytesMut': 'Binary'}
INTS = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-(1 << 15), (1 << 15) - 1), 'u16': (0, (1 << 16) - 1), 'i32': (-(1 << 31), (1 << 31) - 1),
        'u32': (0, (1 << 32) - 1), 'i64': (-(1 << 63), (1 << 63) - 1), 'u64': (0, (1 << 64) - 1)}
FRAMES = ('Unset', 'HaproxyHello', 'HaproxyDisconnect', 'HaproxyNotify', 'AgentHello', 'AgentDisconnect', 'AgentAck')
CODES = {'UNSET': 0, 'HAPROXY_HELLO': 1, 'HAPROXY_DISCON': 2, 'HAPROXY_NOTIFY': 3, 'AGENT_HELLO': 101, 'AGENT_DISCON': 102, 'AGENT_ACK': 103}
FIN, ABORT = 1, 2



def short(ty):
    """the last part of a type's path, in the way its arguments are written"""

    import re
    return re.sub(r'[A-Za-z0-9_]+::', '', ty)


def odd(v):
    """is v built by something that is not understood?"""
    return unknown(v) or any(x.t == 'op' and x.a[0] not in ('cast', 'wrap', 'discr', 'band', 'bor', 'bnot', 'eq', 'contains', 'list', 'lin', 'lt') for x in walk(v))


def C38(c):
    c.rule('on every path through a public constructor, accessor or conversion of the protocol types the value that comes out is the one its '
           'name and SPOP say: the same variant, every argument in its own field and unchanged, every item of a list kept in order, flags as '
           'fragmented and aborted say, a data item of the kind of its source and back only from that kind')
    for part in (frames, flags, messages, actions, negotiated, typed, versions):
        part(c)
    c.floor('values built', 20)
    c.floor('conversions of data items', 12)


HERE = []


def calls(c, find, name, args=None, mem=None):
    """the paths through a function: (graph, end node, result), or nothing when there is no such function"""
    try:
        d, f = find() if callable(find) else find
    except Missing as e:
        c.note(str(e))
        return
    g = Root(c.T.w, d, f['key'], args, mem=mem).explore()
    for n in ends(g):
        HERE[:] = [n]
        yield g, n, n.end[1]


def is_(c, key, got, want, what, tr):
    """got has to be the term want"""
    c.count('values built')
    if got is want or isinstance(got, V) and isinstance(want, V) and kept(got, want) is True:
        return True
    # what is known of the wanted value on this path
    st = HERE[0].st
    if isinstance(got, V) and got.t == 'i' and fact(st, want) == got.a[0]:
        return True
    if isinstance(got, V) and got.t == 'adt' and not got.a[2] and fact(st, mk('op', 'discr', want)) == got.a[1]:
        return True
    if isinstance(got, V) and isinstance(want, V) and isinstance(kept(got, want), str) and not unknown(got):
        c.violate(key, '%s is %s: what is given is changed' % (what, show(got)[:80]), tr)
        return False
    if isinstance(got, V) and odd(got) or not isinstance(got, V):
        c.note('%s: %s' % (what, show(got)[:80] if isinstance(got, V) else got))
        return True
    c.violate(key, '%s is %s, not %s' % (what, show(got)[:60], show(want)[:60]), tr)
    return False


def whole(c, key, g, nd, coll, src, item, what, old=None):
    """the collection coll has to hold (what it held, and) every item of src, in order, each as item(el) says"""
    c.count('values built')
    if old is None and (coll is src or isop(coll, 'list') and coll.a[1] is src):
        return
    if old is None and coll.t != 'coll':
        q, cut = coll, None
        while isinstance(q, V) and q.t == 'op' and q.a[0] in ('rev', 'list'):
            cut = cut or (q.a[0] if q.a[0] == 'rev' else None)
            q = q.a[1]
        if cut and (q is src or q.t == 'coll' and not (isinstance(q.a[1], tuple) and len(q.a[1]) < 2)):
            c.violate(key + '/order', '%s: the items are turned round' % what, path_to(g, nd))
        else:
            c.note('%s: %s' % (what, show(coll)[:80]))
        return
    bad = []

    def note(m):
        if m not in bad:
            bad.append(m)
            c.note('%s: %s' % (what, m))

    def step(a, e, x):
        n = e[0]
        if n in ('next', 'end'):
            q, cut = e[1], None
            while isinstance(q, V) and q.t == 'op' and q.a[0] in ('take', 'skip', 'step_by', 'rev', 'take_while', 'skip_while', 'list', 'asref'):
                cut = cut or (q.a[0] if q.a[0] not in ('list', 'asref') else None)
                q = q.a[1]
            if old is not None and q is old and not cut:
                # what it held moves to another list
                if a.moved is not None:
                    x.violate(key + '/lost', '%s: some of what was there before is lost' % what)
                return a.set(moved=e[2]) if n == 'next' else a.set(moved=None, kept=True)
            if q is not src:
                return a
            if cut == 'rev':
                x.violate(key + '/order', '%s: the items are turned round' % what)
            elif cut:
                x.violate(key + '/cut', '%s: only some items are looked at (%s)' % (what, cut))
            if a.pend is not None and not a.odd:
                x.violate(key + '/dropped', '%s: an item is dropped' % what)
            if n == 'end':
                return a.set(pend=None, over=True)
            if a.over:
                return a.set(odd=True)
            return a.set(pend=e[2])
        if n == 'push':
            if a.pend is None or not mentions(e[2], a.pend):
                if old is not None and e[1] is old:
                    return a
                if a.moved is not None and e[2] is a.moved:
                    if a.to is not None:
                        x.violate(key + '/order', '%s: what was there before comes last' % what)
                    return a.set(moved=None)
                return a.set(odd=True) if mentions_item(e[2]) else a
            want = item(a.pend)
            if not want(e[2]):
                if odd(e[2]):
                    note('item %s' % show(e[2])[:60])
                else:
                    x.violate(key + '/item', '%s: an item becomes %s' % (what, show(e[2])[:60]))
            return a.set(pend=None, to=a.to or e[1])
        if n in ('insert', 'vecop', 'append', 'truncate', 'opaque'):
            return a.set(odd=True)
        return a

    def mentions_item(v):
        return any(y.t == 's' and y.a[:1] == ('el',) for y in walk(v))

    def end(a, n, x):
        if n is not nd:
            return
        if a.odd:
            note('made in a way that is not understood')
            return
        if a.pend is not None:
            x.violate(key + '/dropped', '%s: an item is dropped' % what)
        elif not a.over:
            x.violate(key + '/cut', '%s: not all the items are looked at' % what)
        if old is not None and a.to is not None and a.to is not old and not grown(a.to) and not a.kept:
            x.violate(key + '/lost', '%s: what was there before is lost' % what)

    def grown(v):
        return any(y is old for y in walk(v)) or any(s == old for s in v.a) or 'grown' in show(v)
    Auto(c, g, Rec(pend=None, over=False, odd=False, to=None, moved=None, kept=False), step, end)


def pairs(el):
    """a test for (key, value) of el"""
    def t(x):
        return x is el or x.t == 'tup' and len(x.a[0]) == 2 and all(isinstance(z, V) and z.t == 'fld' and z.a[0] is el and z.a[-1] == i for i, z in enumerate(x.a[0]))
    return t


def plain(el):
    return lambda x: x is el


def frames(c):
    T = c.T
    fp = adt_path('frames::Frame')
    tp = adt_path('frame::ty::Type')
    names = [v['name'] for v in ADTS[fp]['variants']]
    # the type of a frame
    try:
        m = T.method('Frame', 'frame_type', 'haproxy_spop')
    except Missing as e:
        m = None
        c.note(str(e))
    for i, n in enumerate(names):
        if n not in FRAMES:
            continue
        val = mk('adt', fp, i, () if n == 'Unset' else (sym('param', 'inner'),))
        loc = ('t', 'self')
        if m is not None:
            for g, nd, v in calls(c, m, n, [mk('ref', loc, ())], {loc: val}):
                if isadt(v, 'Type'):
                    c.count('values built')
                    if vname(v) != n:
                        c.violate('frame_type/' + n, 'the type of a frame %s is %s' % (n, vname(v)), path_to(g, nd))
                else:
                    c.note('type of %s: %s' % (n, show(v)[:60]))
        for g, nd, v in calls(c, lambda: T.method('Frame', 'metadata', 'haproxy_spop'), n, [mk('ref', loc, ())], {loc: val}):
            if n in ('HaproxyNotify', 'AgentAck'):
                if isadt(v, 'Option', 'None'):
                    c.violate('metadata/none/' + n, 'a frame %s has no metadata' % n, path_to(g, nd))
                elif some_of(v) is not None:
                    meta(c, g, nd, some_of(v), val.a[2][0], n)
            elif some_of(v) is not None and not odd(v):
                c.violate('metadata/some/' + n, 'a frame %s has metadata' % n, path_to(g, nd))
    # constructors
    for fn, var, lst, src in (('notify', 'HaproxyNotify', 'messages', 'msgs'), ('ack', 'AgentAck', 'actions', 'actions')):
        sid, fid, items = sym('param', 'a stream id'), sym('param', 'a frame id'), sym('param', 'items')
        for g, nd, v in calls(c, lambda: T.method('Frame', fn, 'haproxy_spop'), fn, [sid, fid, items]):
            if not isadt(v, 'Frame'):
                c.note('%s: %s' % (fn, show(v)[:60]))
                continue
            if vname(v) != var:
                c.violate(fn + '/variant', 'Frame::%s makes a frame %s' % (fn, vname(v)), path_to(g, nd))
                continue
            x = v.a[2][0]
            if x.t != 'adt':
                c.note('%s: %s' % (fn, show(v)[:60]))
                continue
            f = fields(x)
            tr = path_to(g, nd)
            is_(c, fn + '/stream_id', f['stream_id'], sid, 'the stream id of Frame::%s' % fn, tr)
            is_(c, fn + '/frame_id', f['frame_id'], fid, 'the frame id of Frame::%s' % fn, tr)
            is_(c, fn + '/fragmented', f['fragmented'], I(0), 'fragmented of Frame::%s' % fn, tr)
            if 'aborted' in f:
                is_(c, fn + '/aborted', f['aborted'], I(0), 'aborted of Frame::%s' % fn, tr)
            whole(c, fn + '/' + lst, g, nd, f[lst], items, plain, 'the %s of Frame::%s' % (lst, fn))
    for fn, var in (('haproxy_disconnect', 'HaproxyDisconnect'), ('agent_disconnect', 'AgentDisconnect'), ('new', None)):
        st, rs = sym('param', 'a status'), sym('param', 'a reason')
        for g, nd, v in calls(c, lambda: T.method('Frame' if var else 'Disconnect', fn, 'haproxy_spop'), fn, [st, rs]):
            tr = path_to(g, nd)
            if var is not None:
                if not isadt(v, 'Frame'):
                    c.note('%s: %s' % (fn, show(v)[:60]))
                    continue
                if vname(v) != var:
                    c.violate(fn + '/variant', 'Frame::%s makes a frame %s' % (fn, vname(v)), tr)
                    continue
                v = v.a[2][0]
            if not isadt(v, 'Disconnect'):
                c.note('%s: %s' % (fn, show(v)[:60]))
                continue
            f = fields(v)
            is_(c, (var or 'Disconnect') + '/status', uncast(f['status_code']), mk('op', 'discr', st), 'the status of %s' % fn, tr)
            is_(c, (var or 'Disconnect') + '/message', f['message'], rs, 'the message of %s' % fn, tr)
    # From of the payloads
    for d, f in fn_of(T.w, lambda f: f['path'].split('::')[-1] == 'from' and short(strip_generics(str(f.get('self') or ''))) == 'Frame'
                      and strip_generics(str(f.get('impl_of') or '')).split('::')[-1] == 'From'):
        b = T.w.body(*T.w.find(d, f['key']))
        src = strip_generics(str(b.dump.types[b.locals[1]].get('path') or ''))
        ps = src.split('::')
        want = {('haproxy', 'Hello'): 'HaproxyHello', ('haproxy', 'Notify'): 'HaproxyNotify', ('agent', 'Hello'): 'AgentHello', ('agent', 'Ack'): 'AgentAck'}.get(tuple(ps[-2:]))
        if want is None:
            continue
        x = sym('param', 'x')
        for g, nd, v in calls(c, (d, f), src, [x]):
            if isadt(v, 'Frame'):
                if vname(v) != want:
                    c.violate('from/' + want, 'a %s becomes a frame %s' % (src, vname(v)), path_to(g, nd))
                elif v.a[2]:
                    is_(c, 'from/payload/' + want, v.a[2][0], x, 'the payload of a frame made of a ' + src, path_to(g, nd))


def meta(c, g, nd, v, base, n):
    """the metadata v of a NOTIFY or ACK frame whose payload is base"""
    path = adt_path('haproxy::Notify' if n == 'HaproxyNotify' else 'agent::Ack')
    tr = path_to(g, nd)
    if v.t != 'adt':
        c.note('metadata: %s' % show(v)[:60])
        return
    f = fields(v)
    is_(c, 'metadata/stream_id/' + n, f['stream_id'], fieldof(base, path, 'stream_id'), 'the stream id in the metadata', tr)
    is_(c, 'metadata/frame_id/' + n, f['frame_id'], fieldof(base, path, 'frame_id'), 'the frame id in the metadata', tr)
    fl = f['flags']
    while fl.t == 'adt' and len(fl.a[2]) == 1:
        fl = fl.a[2][0]
    ps = ['fragmented'] + (['aborted'] if n == 'AgentAck' else [])
    terms = [fieldof(base, path, p) for p in ps]
    facts = [fact(nd.st, t) for t in terms]
    import itertools
    for vals in itertools.product((0, 1), repeat=len(ps)):
        if any(x is not None and x != y for x, y in zip(facts, vals)):
            continue
        got = evalv(fl, dict(zip(terms, vals)))
        want = (0 if vals[0] else FIN) | (ABORT if len(vals) > 1 and vals[1] else 0)
        c.count('values built')
        if got is None:
            c.note('flags: %s' % show(fl)[:60])
        elif got != want:
            c.violate('metadata/flags/%s/%s' % (n, ','.join(p for p, x in zip(ps, vals) if x) or 'plain'),
                      'the flags of a %s with %s are %d, not %d' % (n, ', '.join('%s=%s' % z for z in zip(ps, vals)), got, want), tr)


def flags(c):
    T = c.T
    mp = adt_path('metadata::Metadata')
    self_ = sym('param', 'm')
    loc = ('t', 'self')
    fl = fieldof(self_, mp, 'flags')
    for fn, bit, neg in (('is_final', FIN, False), ('fragmented', FIN, True), ('aborted', ABORT, False)):
        for g, nd, v in calls(c, lambda: T.method('Metadata', fn, 'haproxy_spop'), fn, [mk('ref', loc, ())], {loc: self_}):
            # the bits of the flags are the only unknown
            ls = {y for t in [v] + list(nd.st.facts) for y in walk(t) if y.t == 'fld' and mentions(y, fl)}
            outer = [y for y in ls if not any(z is not y and z.t == 'fld' and mentions(z, y) for z in ls)]
            if len(outer) > 1:
                c.note('%s: %s' % (fn, show(v)[:60]))
                continue
            for bits in range(4):
                env = {outer[0]: bits} if outer else {}
                if any(ev is not None and not (fa[0] <= ev <= fa[1]) for t, fa in nd.st.facts.items() for ev in [evalv(t, env)] if fa and fa[0] is not None):
                    continue
                got = evalv(v, env)
                c.count('values built')
                want = int(bool(bits & bit) != neg)
                if got is None:
                    c.note('%s: %s' % (fn, show(v)[:60]))
                elif got != want:
                    c.violate('Metadata/' + fn, 'Metadata::%s is %d for the flags %d' % (fn, got, bits), path_to(g, nd))
    for g, nd, v in calls(c, lambda: T.trait_fn('Metadata', 'Default', 'default'), 'default'):
        if v.t != 'adt':
            continue
        f = fields(v)
        x = f['flags']
        while x.t == 'adt' and len(x.a[2]) == 1:
            x = x.a[2][0]
        is_(c, 'Metadata/default/flags', x, I(FIN), 'the flags of the default metadata', path_to(g, nd))
        is_(c, 'Metadata/default/stream_id', f['stream_id'], I(0), 'the stream id of the default metadata', path_to(g, nd))
        is_(c, 'Metadata/default/frame_id', f['frame_id'], I(0), 'the frame id of the default metadata', path_to(g, nd))
    for ty, path, n in (('Ack', 'agent::Ack', 'AgentAck'), ('Notify', 'haproxy::Notify', 'HaproxyNotify')):
        for g, nd, v in calls(c, lambda: T.method(ty, 'metadata', 'haproxy_spop'), n, [mk('ref', loc, ())], {loc: self_}):
            meta(c, g, nd, v, self_, n)
    sid, fid = sym('param', 'a stream id'), sym('param', 'a frame id')
    for g, nd, v in calls(c, lambda: T.method('Ack', 'new', 'haproxy_spop'), 'Ack::new', [sid, fid]):
        if v.t != 'adt':
            continue
        f = fields(v)
        tr = path_to(g, nd)
        is_(c, 'Ack/stream_id', f['stream_id'], sid, 'the stream id of Ack::new', tr)
        is_(c, 'Ack/frame_id', f['frame_id'], fid, 'the frame id of Ack::new', tr)
        is_(c, 'Ack/fragmented', f['fragmented'], I(0), 'fragmented of Ack::new', tr)
        is_(c, 'Ack/aborted', f['aborted'], I(0), 'aborted of Ack::new', tr)


def messages(c):
    T = c.T
    name, args, val = sym('param', 'a name'), sym('param', 'arguments'), sym('param', 'a value')
    for g, nd, v in calls(c, lambda: T.method('Message', 'new', 'haproxy_spop'), 'Message::new', [name, args]):
        if v.t == 'adt':
            f = fields(v)
            is_(c, 'Message/name', f['name'], name, 'the name of Message::new', path_to(g, nd))
            whole(c, 'Message/args', g, nd, f['args'], args, pairs, 'the arguments of Message::new')
    mp = adt_path('msg::Message')
    bp = adt_path('msg::Builder')
    old = sym('param', 'the arguments so far')
    at = {n: i for i, n in enumerate(ADTS[mp]['variants'][0]['fields'])}

    def builder():
        m = [None, None]
        m[at['name']], m[at['args']] = name, old
        return mk('adt', bp, 0, (mk('adt', mp, 0, tuple(m)),))

    def inner(v):
        while v.t == 'adt' and not isadt(v, 'Message'):
            v = v.a[2][0]
        return fields(v) if v.t == 'adt' else None
    for g, nd, v in calls(c, lambda: T.method('Message', 'builder', 'haproxy_spop'), 'Message::builder', [name]):
        f = inner(v)
        if f:
            is_(c, 'Message/builder', f['name'], name, 'the name of Message::builder', path_to(g, nd))
    for fn, given in (('arg', [sym('param', 'a key'), val]), ('args', [args]), ('build', [])):
        for g, nd, v in calls(c, lambda: T.method('Builder', fn, 'haproxy_spop'), fn, [builder()] + given):
            f = inner(v)
            tr = path_to(g, nd)
            if f is None:
                c.note('%s: %s' % (fn, show(v)[:60]))
                continue
            is_(c, 'Builder/name/' + fn, f['name'], name, 'the name after Builder::' + fn, tr)
            evs = path_events(nd)
            if fn == 'build':
                is_(c, 'Builder/args/build', f['args'], old, 'the arguments of Builder::build', tr)
            elif fn == 'args' and [e for e in evs if e[0] == 'vecop' and e[1] in SHUFFLE and (e[2] is old or isop(e[2], 'grown') and mentions(e[2], old))]:
                e = [e for e in evs if e[0] == 'vecop' and e[1] in SHUFFLE][0]
                c.count('values built')
                c.violate('Builder/args/order', 'Builder::args does not append the new arguments to those given before (%s)' % e[1], tr)
            elif [e for e in evs if e[0] == 'insert' and e[2][0].t == 'i']:
                c.count('values built')
                c.violate('Builder/%s/order' % fn, 'Builder::%s puts an argument in front of those given before' % fn, tr)
            elif any(e[0] in ('insert', 'opaque', 'append', 'truncate') for e in evs):
                c.note('Builder::%s: %s' % (fn, [e[0] for e in evs]))
            elif fn == 'arg':
                ps = [e[2] for e in evs if e[0] == 'push']
                c.count('values built')
                if any(e[0] == 'vecop' for e in evs):
                    c.violate('Builder/arg/order', 'Builder::arg does more to the arguments than to append one', tr)
                if not ps:
                    c.violate('Builder/arg/lost', 'Builder::arg adds no argument', tr)
                elif len(ps) > 1:
                    c.violate('Builder/arg/more', 'Builder::arg adds %d arguments' % len(ps), tr)
                elif ps[0].t == 'tup':
                    is_(c, 'Builder/arg/name', ps[0].a[0][0], given[0], 'the name of the argument of Builder::arg', tr)
                    is_(c, 'Builder/arg/value', ps[0].a[0][1], given[1], 'the value of the argument of Builder::arg', tr)
            elif f['args'] is old or f['args'].t == 'coll' or isop(f['args'], 'coll'):
                cv = f['args'] if f['args'].t == 'coll' else mk('coll', old, ())
                whole(c, 'Builder/args', g, nd, cv, args, pairs, 'the arguments of Builder::args', old)


SHUFFLE = ('splice', 'reverse', 'dedup', 'retain', 'truncate', 'swap_remove', 'remove')


def actions(c):
    T = c.T
    sc, name, val = sym('param', 'a scope'), sym('param', 'a name'), sym('param', 'a value')
    for fn, var, args in (('set_var', 'SetVar', (('scope', sc), ('name', name), ('value', val))), ('unset_var', 'UnsetVar', (('scope', sc), ('name', name)))):
        for g, nd, v in calls(c, lambda: T.method('Action', fn, 'haproxy_spop'), fn, [x for _, x in args]):
            if not isadt(v, 'Action'):
                c.note('%s: %s' % (fn, show(v)[:60]))
            elif vname(v) != var:
                c.violate(fn + '/variant', 'Action::%s makes %s' % (fn, vname(v)), path_to(g, nd))
            else:
                f = fields(v)
                for k, x in args:
                    is_(c, '%s/%s' % (fn, k), f[k], x, 'the %s of Action::%s' % (k, fn), path_to(g, nd))


def negotiated(c):
    T = c.T
    np = adt_path('handshake::Negotiated')
    self_ = sym('param', 'negotiated')
    caps = fieldof(self_, np, 'capabilities')
    loc = ('t', 'self')
    for fn, want in (('supports_async', 'Async'), ('supports_fragmentation', 'Fragmentation'), ('supports_pipelining', 'Pipelining')):
        for g, nd, v in calls(c, lambda: T.method('Negotiated', fn, 'haproxy_spoa'), fn, [mk('ref', loc, ())], {loc: self_}):
            c.count('values built')
            if v.t == 'i':
                if not path_events(nd):
                    c.violate('Negotiated/' + fn, 'Negotiated::%s is always %d' % (fn, v.a[0]), path_to(g, nd))
                else:
                    c.note('%s: %s' % (fn, show(v)[:60]))
            elif isop(v, 'contains') and isadt(v.a[2], 'Capability') and v.a[1] is caps:
                if vname(v.a[2]) != want:
                    c.violate('Negotiated/' + fn, 'Negotiated::%s looks for %s' % (fn, vname(v.a[2])), path_to(g, nd))
            elif isop(v, 'bnot') and isop(v.a[1], 'contains'):
                c.violate('Negotiated/' + fn, 'Negotiated::%s says the opposite' % fn, path_to(g, nd))
            else:
                c.note('%s: %s' % (fn, show(v)[:60]))
    for g, nd, v in calls(c, lambda: T.method('Negotiated', 'agent_hello', 'haproxy_spoa'), 'agent_hello', [mk('ref', loc, ())], {loc: self_}):
        if v.t != 'adt':
            continue
        f = fields(v)
        tr = path_to(g, nd)
        is_(c, 'agent_hello/version', f['version'], fieldof(self_, np, 'version'), 'the version of Negotiated::agent_hello', tr)
        is_(c, 'agent_hello/max_frame_size', f['max_frame_size'], fieldof(self_, np, 'max_frame_size'), 'the frame size of Negotiated::agent_hello', tr)
        whole(c, 'agent_hello/capabilities', g, nd, f['capabilities'], caps, plain, 'the capabilities of Negotiated::agent_hello')


def typed(c):
    T = c.T
    tp = adt_path('typed::Typed')
    names = [v['name'] for v in ADTS[tp]['variants']]
    x = sym('param', 'x')
    for d, f in fn_of(T.w, lambda f: f['path'].split('::')[-1] == 'from' and short(strip_generics(str(f.get('self') or ''))) == 'Typed'
                      and strip_generics(str(f.get('impl_of') or '')).split('::')[-1] == 'From'):
        b = T.w.body(*T.w.find(d, f['key']))
        src = short(b.dump.types[b.locals[1]]['s'])
        import re
        src = re.sub(r"&'\w+ ", '&', src)
        if src == 'IpAddr':
            ap = adt_path('ip_addr::IpAddr') if any(k.endswith('ip_addr::IpAddr') for k in ADTS) else None
            for g, nd, v in calls(c, (d, f), src, [x]):
                k = fact(nd.st, mk('op', 'discr', x))
                if k is not None and isadt(v, 'Typed'):
                    c.count('conversions of data items')
                    want = ('Ipv4', 'Ipv6')[k]
                    if vname(v) != want:
                        c.violate('from/IpAddr/' + want, 'an %s address becomes a data item %s' % (want, vname(v)), path_to(g, nd))
                    else:
                        is_(c, 'from/IpAddr/value/' + want, v.a[2][0], mk('fld', x, k, 0), 'the address of a data item', path_to(g, nd))
            continue
        if src not in KINDS:
            continue
        for g, nd, v in calls(c, (d, f), src, [x]):
            if not isadt(v, 'Typed'):
                c.note('Typed from %s: %s' % (src, show(v)[:60]))
                continue
            c.count('conversions of data items')
            if vname(v) != KINDS[src]:
                c.violate('from/' + src, 'a %s becomes a data item %s, not %s' % (src, vname(v), KINDS[src]), path_to(g, nd))
            elif v.a[2]:
                is_(c, 'from/value/' + src, v.a[2][0], x, 'the value of a data item made of a ' + src, path_to(g, nd))
    for d, f in fn_of(T.w, lambda f: f['path'].split('::')[-1] == 'try_from' and strip_generics(str(f.get('impl_of') or '')).split('::')[-1] == 'TryFrom'):
        b = T.w.body(*T.w.find(d, f['key']))
        if short(b.dump.types[b.locals[1]]['s']) != 'Typed':
            continue
        dst = short(str(f.get('self')))
        if dst not in KINDS:
            continue
        for i, n in enumerate(names):
            if n not in KINDS.values():
                continue
            p = () if n == 'Null' else (sym('param', 'inner'),)
            for g, nd, v in calls(c, (d, f), dst, [mk('adt', tp, i, p)]):
                c.count('conversions of data items')
                good = KINDS[dst] == n
                if isadt(v, 'Result', 'Ok') and not good:
                    c.violate('into/%s/%s' % (dst, n), 'a data item %s is given out as a %s' % (n, dst), path_to(g, nd))
                elif isadt(v, 'Result', 'Err') and good:
                    c.violate('into/%s/refused' % dst, 'a data item %s is not given out as a %s' % (n, dst), path_to(g, nd))
                elif good and p and ok_of(v) is not None:
                    is_(c, 'into/%s/value' % dst, ok_of(v), p[0], 'the value given out of a data item %s' % n, path_to(g, nd))


def versions(c):
    T = c.T
    a, b = sym('param', 'major'), sym('param', 'minor')
    hint(a, 0, 255)
    hint(b, 0, 255)
    for g, nd, v in calls(c, lambda: T.method('Version', 'new', 'haproxy_spop'), 'Version::new', [a, b]):
        if v.t == 'adt':
            f = fields(v)
            is_(c, 'Version/major', f['major'], a, 'the major number of Version::new', path_to(g, nd))
            is_(c, 'Version/minor', f['minor'], b, 'the minor number of Version::new', path_to(g, nd))
    for g, nd, v in calls(c, lambda: T.trait_fn('Version', 'Default', 'default'), 'Version::default'):
        if isadt(v, 'Version'):
            f = fields(v)
            is_(c, 'Version/default/major', f['major'], I(2), 'the major number of the default version', path_to(g, nd))
            is_(c, 'Version/default/minor', f['minor'], I(0), 'the minor number of the default version', path_to(g, nd))
    # the order of versions
    x, y = sym('param', 'one'), sym('param', 'other')
    vp = adt_path('version::Version')
    lx, ly = ('t', 'self'), ('t', 'other')
    for g, nd, v in calls(c, lambda: T.trait_fn('Version', 'Ord', 'cmp'), 'cmp', [mk('ref', lx, ()), mk('ref', ly, ())], {lx: x, ly: y}):
        order(c, g, nd, v, x, y, vp)
        ordered(c, g, nd, v, x, y, vp)
    for g, nd, v in calls(c, lambda: T.trait_fn('Version', 'PartialOrd', 'partial_cmp'), 'partial_cmp', [mk('ref', lx, ()), mk('ref', ly, ())], {lx: x, ly: y}):
        w = some_of(v)
        if w is None:
            if isadt(v, 'Option', 'None'):
                c.violate('Version/partial', 'there are versions that do not compare', path_to(g, nd))
            continue
        ordered(c, g, nd, w, x, y, vp)


def ordered(c, g, nd, v, x, y, vp):
    """what a path of the comparison answers, for numbers that lead through it"""
    def val(t, env):
        if isadt(t, 'Ordering'):
            return t.a[1] - 1
        if isop(t, 'cmp') and t.a[1].t == 'tup' and t.a[2].t == 'tup':
            p, q = [tuple(evalv(z, env) for z in w.a[0]) for w in t.a[1:3]]
            return None if None in p + q or len(p) != len(q) else (p > q) - (p < q)
        return evalv(t, env)
    fs = [fieldof(s, vp, n) for s in (x, y) for n in ('major', 'minor')]
    ns = (0, 1, 2, 9, 100, 255)
    decided = False
    for a in ns:
        for b in ns:
            for d in ns:
                for e in ns:
                    env = dict(zip(fs, (a, b, d, e)))
                    ok = True
                    for t, f in nd.st.facts.items():
                        z = val(t.a[1] if isop(t, 'discr') else t, env)
                        if z is None or z < f[0] or z > f[1] or z in f[2]:
                            ok = False
                            break
                    z = val(v, env) if ok else None
                    if z is None:
                        continue
                    decided = True
                    want = ((a, b) > (d, e)) - ((a, b) < (d, e))
                    if (z > 0) - (z < 0) != want:
                        c.violate('Version/order', 'version %d.%d compares as %s to version %d.%d' % (a, b, ('less', 'equal', 'greater')[(z > 0) - (z < 0) + 1], d, e), path_to(g, nd))
                        return
    if decided:
        c.count('comparisons of versions')


def order(c, g, nd, v, x, y, vp):
    """versions compare by their major numbers, and by the minor ones when those are the same"""
    M, m = [mk('op', 'cmp', fieldof(x, vp, n), fieldof(y, vp, n)) for n in ('major', 'minor')]
    tr = path_to(g, nd)
    c.count('values built')
    if v is M or v is m:
        first = None
        for e in path_events(nd):
            if e[0] in ('br', 'brx') and isop(e[1], 'discr') and e[1].a[1] in (M, m):
                first = e[1].a[1]
                break
        if first is m or first is None and v is m:
            c.violate('Version/order', 'versions compare by their minor numbers first', tr)
    elif not odd(v) and not isop(v, 'cmp'):
        c.note('order of versions: %s' % show(v)[:60])
    elif isop(v, 'cmp') and v.a[1:] in ((M.a[2], M.a[1]), (m.a[2], m.a[1])):
        c.violate('Version/order', 'versions compare the other way round', tr)


# ------------------------------------------------------------------ C36
PARTS = ('C03', 'C04', 'C05', 'C06', 'C35', 'C37')
# outside what C36 says: the frame no peer can send, and messages of more than 255 arguments (known findings of C04 and C06)
BEYOND = {('C04', 'write/Unset'), ('C06', 'write/message/count-truncated')}


def C36(c):
    import check
    import rulekit
    c.rule('what is written for every field is SPOP\'s encoding of that field\'s value, and what is put in every field on a delivering path is '
           'the value SPOP\'s encoding has there: the rules of %s in both directions' % ', '.join(PARTS))
    for p in PARTS:
        s = rulekit.Ctx(c.T, p)
        check.rule_of(p)(s)
        for k, (msg, tr) in s.violations.items():
            if (p, k) not in BEYOND:
                c.violate('%s/%s' % (p, k), msg, tr)
        for k, n in s.counts.items():
            if k.startswith('graph '):
                c.counts[k] = n
            else:
                c.count(k, n)
        for n in s.notes:
            c.note(n)
        c.floors += [f for f in s.floors if f not in c.floors]
        c.functions |= s.functions
        c.samples += s.samples
        c.assumptions += [a for a in s.assumptions if a not in c.assumptions]
