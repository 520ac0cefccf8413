"""Rules for reassembly, the agent's runtime, header blocks and the code as a whole."""
import re
from rulekit import *
from rules_wire import CHANGED
from engine import strip_generics

CAP = 1 << 60


def frame_variant(name):
    for p, a in ADTS.items():
        if p.endswith('::frame::Frame') or p.split('::')[-1] == 'Frame' and a['kind'] == 'enum':
            for i, v in enumerate(a['variants']):
                if v['name'] == name:
                    return int(v['discr'])
    raise Missing('no frame kind ' + name)


# ------------------------------------------------------------- C18
def C18(c):
    c.rule('on every path of Reassembly::reassemble and of the two handlers built on it, the only key used is made of the stream id and '
           'the frame id of the fragment; with what the table held before (OLD) and the items of the fragment (NEW): a non-final '
           'fragment returns nothing and leaves OLD followed by NEW, a final one returns OLD followed by NEW and leaves nothing')
    n = 0
    for name, where_ in (('reassemble', None), ('reassembly_message', 'HaproxyNotify'), ('reassembly_action', 'AgentAck')):
        try:
            g = c.graph(name)
        except Missing as x:
            c.note(str(x))
            continue
        n += 1
        reassembly(c, g, name, where_)
    c.count('entry points', n)
    connection_keys(c)
    c.floor('entry points', 3)
    c.floor('final fragments', 6)
    c.floor('other fragments', 6)


def merged(key, x):
    """how a component of a key loses information: an operator, or None"""
    if key is x:
        return None
    if not isinstance(key, V) or not mentions(key, x):
        return None
    if key.t == 'op':
        if key.a[0] in ('add', 'sub', 'bxor', 'band', 'mul', 'shr', 'rem', 'div'):
            return key.a[0]
        if key.a[0] == 'bor' and not any(isop(y, 'shl') for y in walk(key)):
            return 'bor'
        if key.a[0] == 'cast' and key.a[3] - key.a[2] < (1 << 64) - 1:
            return 'cast'
    if key.t == 'lin':
        return merged(key.a[0], x)
    r = None
    for y in key.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if isinstance(z, V) and mentions(z, x):
                r = merged(z, x)
                if r is None:
                    return None
    return r


def connection_keys(c):
    """the connection reassembles under the ids of the frame at hand"""
    import rules_conn as RC
    k = RC.Conn(c)

    def step(a, e, x):
        a = k.follow(a, e)
        if e[0] in ('entry', 'mapget', 'mapset', 'mapdel', 'vacant', 'occupied') and a.kind == 'HaproxyNotify' and a.frame is not None:
            key = e[2]
            S, I_ = (k.field(a.frame, 'HaproxyNotify', f) for f in ('stream_id', 'frame_id'))
            if not any(mentions(key, k.field(a.frame, 'HaproxyNotify', f)) for f in ('stream_id', 'frame_id')):
                return a
            c.count('lookups of a connection')
            if isop(e[1], 'copy'):
                x.violate('connection/copied', 'the fragments of a notification are kept in a copy of the table of the connection, which is gone afterwards')
            if any(k.runtime_field(y) for y in walk(e[1])) or mentions(e[1], sym('param', 'runtime')):
                x.violate('connection/shared', 'the fragments of a notification are kept in a table all connections share (%s)' % show(e[1])[:80])
            for f, y in (('stream id', S), ('frame id', I_)):
                if not mentions(key, y):
                    x.violate('connection/key', 'the fragments of a notification are looked up under %s: the %s is not part of it' % (show(key)[:120], f))
                elif merged(key, y):
                    x.violate('connection/merged', 'the key %s does not keep the %s apart' % (show(key)[:120], f))
        return a
    Auto(c, k.g, Rec(**k.START), step)
    c.floor('lookups of a connection', 1)


def parts(v, roles):
    """a list of items as a sequence of OLD and NEW, or None"""
    if not isinstance(v, V):
        return None
    if v in roles:
        return (roles[v],)
    if v.t == 'op' and v.a[0] == 'concat':
        r = ()
        for x in v.a[1:]:
            p = parts(x, roles)
            if p is None:
                return None
            r += p
        return r
    if v.t == 'op' and v.a[0] == 'deref':
        return parts(v.a[1], roles)
    if v.t == 'coll' and (v.a[1] == () or items_of(v) == ()) or isop(v, 'empty'):
        return ()
    if v.t == 'op' and v.a[0].startswith('after:') and len(v.a) > 1 and not unknown(v):
        p = parts(v.a[1], roles)
        return ('CUT',) + p if p else None
    if isop(v, 'rev'):
        p = parts(v.a[1], roles)
        return ('REV',) + p if p else None
    if v.t == 'fld' or v.t == 'op' and v.a[0] == 'slot' or v.t == 's':
        x = v
        while isinstance(x, V) and x.t == 'fld':
            x = x.a[0]
        if isinstance(x, V) and (isop(x, 'slot') or x.t == 's' and x.a[0] in ('entry', 'mapget', 'slot', 'got')):
            return ('OLD',)
    return None


def reassembly(c, g, name, kind):
    root = g.root
    if kind is None:
        ps = {}
        names = root.body.names
        for i, v in enumerate(root.vals):
            nm = names.get(str(i + 1)) if isinstance(names, dict) else None
            ps[i] = v
        if len(root.vals) < 5:
            raise Missing('reassemble takes %d arguments' % len(root.vals))
        self_, frag, sid, fid, new = root.vals[:5]
        frag_v = None
    else:
        frag_v = frame_variant(kind)

    if kind is None:
        F, S, I_, N = frag, sid, fid, new
    else:
        ad = None
        for p, a in ADTS.items():
            if p.split('::')[-1] == {'HaproxyNotify': 'Notify', 'AgentAck': 'Ack'}[kind] and 'frame' in p:
                ad = a
        fr = None
        for n, evs, m in edges(g):
            for e in evs:
                if e[0] in ('br', 'brx') and isop(e[1], 'discr') and e[1].a[1].t == 's' and symkind(e[1].a[1]) == 'param':
                    fr = e[1].a[1]
        if ad is None or fr is None:
            raise Missing('no decision on the kind of frame')
        fs = ad['variants'][0]['fields']

        def part(nm):
            if nm not in fs:
                raise Missing('a %s has no %s' % (kind, nm))
            return mk('fld', mk('fld', fr, frag_v, 0), None, fs.index(nm))
        F, S, I_, N = (part(x) for x in ('fragmented', 'stream_id', 'frame_id', 'messages' if kind == 'HaproxyNotify' else 'actions'))
    roles = {N: 'NEW'} if N is not None else {}
    # lists made by the code and what they hold are followed by their slot

    def step(a, e, x):
        n = e[0]
        if n == 'br' and kind is not None and isop(e[1], 'discr') and e[1].a[1] == fr:
            return a.set(own=e[2] == frag_v)
        if n in ('entry', 'mapget', 'mapset', 'mapdel', 'vacant', 'occupied'):
            mp, key = e[1], e[2]
            c.count('table accesses')
            if unknown(key):
                c.note('key %s' % show(key)[:100])
            else:
                has = [mentions(key, S), mentions(key, I_)]
                if not all(has):
                    x.violate('key', 'fragments are kept under %s: %s is not part of it' % (show(key), 'the stream id' if not has[0] else 'the frame id'))
                elif merged(key, S) or merged(key, I_):
                    x.violate('merged', 'fragments are kept under %s, which is the same for different streams and frames' % show(key)[:120])
                elif a.key is not None and a.key != key:
                    x.violate('keys', 'fragments are kept under %s and looked up under %s' % (show(a.key), show(key)))
            a = a.set(key=key)
            if isop(mp, 'copy') or isop(mp, 'clone'):
                x.violate('copied', 'fragments are kept in a copy of the table, which is gone afterwards')
            if any(y.t == 's' and y.a[0] in ('static', 'global') for y in walk(mp)):
                x.violate('shared', 'fragments are kept in a table shared by all connections')
        if n == 'occupied' or n == 'mapget' and len(e) > 3 and e[3]:
            if a.slot is None:
                return a.set(found=True, slot=('OLD',))
            return a.set(found=True)
        if n == 'vacant' or n == 'mapget':
            if a.slot is None:
                return a.set(found=False, slot=())
            return a
        if n == 'mapset':
            p = parts(e[3], roles)
            if p is None:
                c.note('stored: %s' % show(e[3])[:120])
                return a.set(odd=True)
            return a.set(slot=p, there=True, cid=uncast(e[3]) if p == () else None)
        if n == 'mapclear':
            x.violate('dropped', 'the fragments of other streams and frames are dropped (%s)' % e[2])
            return a.set(odd=True)
        if n == 'mapdel':
            return a.set(slot=(), there=False, gone=a.slot, removed=True)
        if n in ('append', 'insert', 'vecop', 'push'):
            if n == 'append':
                d, s = parts(e[1], roles), parts(e[2], roles)
                if d is None or s is None:
                    c.note('append %s %s' % (show(e[1])[:60], show(e[2])[:60]))
                    return a.set(odd=True)
                if d == ('OLD',) and not a.removed:
                    return a.set(slot=(a.slot or ()) + s, there=True)
                if d == () and a.there:
                    # the empty list just stored, or another one
                    return a.set(slot=s) if a.cid is not None and a.cid is uncast(e[1]) else a.set(odd=True)
                return a
            d = parts(e[2], roles) if n == 'vecop' and e[1] in ('truncate', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'reverse', 'swap', 'rotate_left', 'rotate_right',
                                                                  'pop', 'remove', 'swap_remove', 'fill') else None
            if d and set(d) & {'OLD', 'NEW'}:
                x.violate('changed', 'the items of a fragment are changed by %s' % e[1])
                return a.set(odd=True)
            if n == 'vecop' and 'drain' not in str(e[1]):
                c.note('list operation %s' % str(e[1:])[:100])
            return a.set(odd=True) if n in ('insert', 'push') else a
        return a

    def end(a, n, x):
        if n.end[0] == 'panic':
            if n.end[1] not in ('unwind',):
                x.violate('panic', '%s: reassembly panics (%s)' % (n.end[2], n.end[1]))
            return
        if n.end[0] != 'return':
            return
        if a.key is None:
            if a.own and ok_of(n.end[1]) is not None and not unknown(n.end[1]) and not a.odd:
                x.violate('no-lookup', 'a fragment is answered without looking for the earlier ones of its stream and frame')
            return
        f = fact(n.st, F)
        if f is None:
            # the decision may not have been made on the flag itself
            r = n.end[1]
            c.note('a path does not decide on the fragment flag')
            o = ok_of(r)
            if o is not None and (isadt(o, 'Option', 'None') or isadt(o, 'Option', 'Some')):
                x.violate('flag', 'what is returned does not depend on the fragment being the final one')
            return
        r = n.end[1]
        o = ok_of(r)
        old = ('OLD',) if a.found else ()
        want = old + ('NEW',)
        # what is known to be empty may be left out
        none = set()
        for t, (lo, hi, _) in n.st.facts.items():
            if isop(t, 'len') and hi == 0 or isop(t, 'eq') and len(t.a) == 3 and isop(t.a[1], 'len') and t.a[2] is I(0) and lo == 1:
                q = parts((t if isop(t, 'len') else t.a[1]).a[1], roles)
                if q and len(q) == 1:
                    none |= set(q)
        want = tuple(y for y in want if y not in none)
        if a.slot is not None:
            a = a.set(slot=tuple(y for y in a.slot if y not in none))
        c.count('other fragments' if f else 'final fragments')
        if o is None:
            if not unknown(r):
                x.violate('error', 'a fragment is refused: %s' % show(r))
            return
        if f:
            if isadt(o, 'Option', 'Some'):
                x.violate('early', 'items are returned before the final fragment')
            elif a.odd:
                c.note('contents not followed')
            elif a.slot != want:
                x.violate('kept/%s' % ('next' if a.found else 'first'), 'after a non-final fragment %s the table holds %s instead of %s'
                          % ('following others' if a.found else 'that is the first', word(a.slot), word(want)))
            return
        if isadt(o, 'Option', 'None'):
            x.violate('lost', 'nothing is returned for the final fragment')
            return
        v = some_of(o)
        if v is None:
            c.note('returned %s' % show(o)[:100])
            return
        p = parts(v, roles)
        if p is not None:
            p = tuple(y for y in p if y not in none)
        if p is None or a.odd:
            c.note('returned %s' % show(v)[:120])
        elif p != want:
            x.violate('returned/%s' % ('several' if a.found else 'single'), 'for the final fragment %s is returned instead of %s' % (word(p), word(want)))
        if a.found and not a.removed and a.slot != () or a.there:
            x.violate('retained', 'after the final fragment the table still holds items for its stream and frame')
    Auto(c, g, Rec(own=kind is None, key=None, found=False, slot=None, there=False, gone=None, removed=False, odd=False, cid=None), step, end)


def word(p):
    return ' + '.join({'OLD': 'the earlier items', 'NEW': 'the items of the fragment', 'CUT': '(only some of)', 'REV': '(in reverse)'}[x] for x in p) if p else 'nothing'


# ------------------------------------------------------------- C24
def ack_fields(v):
    return fields(v) if v.t == 'adt' else {}


def items_of(l):
    if not isinstance(l, V) or l.t not in ('coll', 'op') or len(l.a) < 2:
        return None
    x = l.a[-1]
    if isinstance(x, V) and x.t == 'tup':
        x = x.a[0]
    return x if isinstance(x, tuple) else None


def C24(c):
    c.rule('every sequence of complete, abort, set_var and unset_var up to the bound, followed by the drop of the acker, is followed '
           'through the code with a state that starts as Acker::new builds it: exactly one ack is put into the channel over the whole '
           'life, by the first of complete, abort and drop, with the ids given to new, aborted as it was, and exactly the actions '
           'added before, in order; complete and abort answer Ok when that delivered, and Closed otherwise')
    A = c.T.acker_machine()
    for p in A.functions:
        c.functions.add(p)
    import os
    depth = 6 if os.environ.get('VERIF_TIER') == 'thorough' else 4
    methods = ('set_var', 'unset_var', 'complete', 'abort')
    seen = set()
    # (state, actions expected, delivered)
    work = [(A.initial, (), None, ())]
    while work:
        v, acts, done, hist = work.pop()
        k = (v, acts, done)
        if k in seen:
            continue
        seen.add(k)
        c.count('acker states')
        for o in A.drop(v):
            h = hist + ('drop',)
            c.count('lives followed to the end')
            judge(c, A, h, o, 'drop', acts, done)
        if len(hist) >= depth:
            continue
        for m in methods:
            args = [sym('param', '%s#%d' % (x, len(hist))) for x in A.argnames(m)]
            for o in A.call(m, v, args):
                h = hist + (m,)
                c.count('calls followed')
                d2 = judge(c, A, h, o, m, acts, done)
                a2 = acts
                if done is None and m in ('set_var', 'unset_var'):
                    a2 = acts + ((m, tuple(args)),)
                if o.value is not None:
                    work.append((o.value, a2, d2, h))
    c.floor('calls followed', 40)
    c.floor('lives followed to the end', 10)
    c.assumptions.append('sequences of at most %d calls on one acker' % depth)


def judge(c, A, h, o, m, acts, done):
    """checks one call; the delivery state after it"""
    trace = ['calls: ' + ', '.join(h)] + fmt_trace([(m, o.evs)]) + ['returns %s' % show(o.result)]
    if o.panic:
        c.violate('panic/' + m, '%s panics' % m, trace)
        return done
    sends = [e for e in o.evs if e[0] in ('SEND', 'SEND-ERR')]
    adds = m in ('set_var', 'unset_var')
    if adds:
        if sends:
            c.violate('add-sends', '%s delivers the ack' % m, trace)
        if done is None and not any(e[0] == 'opaque' for e in o.evs):
            kinds = [e[0] for e in o.evs if e[0] in ('push', 'insert', 'vecop', 'truncate')]
            if kinds != ['push']:
                c.violate('adds/' + m, '%s does not add exactly one action at the end (%s)' % (m, ', '.join(kinds) or 'nothing'), trace)
        return done
    if any(unknown(e[2]) for e in sends) or any(e[0] == 'opaque' for e in o.evs):
        c.note('%s not followed' % m)
    if done is not None:
        if sends:
            c.violate('twice/' + m, 'a second ack is delivered by %s after %s' % (m, done), trace)
        elif m != 'drop' and not isadt(o.result, 'Result', 'Err') and not unknown(o.result):
            c.violate('closed/' + m, '%s after %s does not report that the acker is closed' % (m, done), trace)
        return done
    if not sends:
        if any(e[0] == 'opaque' for e in o.evs):
            return done
        c.violate('none/' + m, 'no ack is delivered when the acker is %s' % {'complete': 'completed', 'abort': 'aborted', 'drop': 'dropped'}[m], trace)
        return m
    if len(sends) > 1:
        c.violate('twice/' + m, '%s delivers more than one ack' % m, trace)
    e = sends[0]
    if m != 'drop':
        good = isadt(o.result, 'Result', 'Ok')
        if not unknown(o.result):
            if e[0] == 'SEND' and not good:
                c.violate('answer/' + m, '%s reports an error although it delivered the ack' % m, trace)
            if e[0] == 'SEND-ERR' and good:
                c.violate('answer-err/' + m, '%s reports success although nobody receives the ack' % m, trace)
    if e[1] != A.sender and not unknown(e[1]):
        c.violate('channel/' + m, '%s puts the ack into another channel than the one of the receiver handed out' % m, trace)
    f = ack_fields(e[2])
    if not f:
        c.note('ack %s' % show(e[2])[:100])
        return m
    for k, w in (('stream_id', A.sid), ('frame_id', A.fid)):
        if f.get(k) != w and not unknown(f.get(k)):
            c.violate(k, 'the ack carries %s = %s' % (k, show(f.get(k))), trace)
    ab = f.get('aborted')
    want = 1 if m == 'abort' else 0
    if ab is not None and ab.t == 'i' and ab.a[0] != want:
        c.violate('aborted/' + m, 'the ack of an acker that was %s is%s marked aborted' % (
            {'complete': 'completed', 'abort': 'aborted', 'drop': 'dropped'}[m], '' if ab.a[0] else ' not'), trace)
    elif ab is not None and ab.t != 'i' and not unknown(ab):
        c.violate('aborted?/' + m, 'whether the ack is marked aborted depends on %s' % show(ab), trace)
    fr = f.get('fragmented')
    if fr is not None and fr.t == 'i' and fr.a[0]:
        c.violate('fragmented', 'the ack is marked as one of several fragments', trace)
    l = f.get('actions')
    its = items_of(l)
    if its is not None:
        got = []
        for x in its:
            if not isinstance(x, V) or unknown(x):
                c.note('actions %s' % show(l)[:100])
                return m
            got.append((vname(x), fields(x)))
        if len(got) != len(acts):
            c.violate('actions', 'the ack holds %d actions after %d were added' % (len(got), len(acts)), trace)
        else:
            for (vn, fs), (mm, args) in zip(got, acts):
                wn = 'SetVar' if mm == 'set_var' else 'UnsetVar'
                if vn != wn:
                    c.violate('order', 'the ack holds a %s where a %s was added' % (vn, wn), trace)
                    break
                for nm, av in zip(A.argnames(mm), args):
                    if nm in fs and derefsym(fs[nm]) != av and not mentions(fs[nm], av):
                        c.violate('argument/%s' % nm, 'the %s of an action is %s instead of the given %s' % (nm, show(fs[nm]), show(av)), trace)
    else:
        c.note('actions %s' % show(l)[:100])
    return m


# ------------------------------------------------------------- C25
def C25(c):
    c.rule('on every path of every poll_next of the library that reports Pending, a channel (or stream) was polled with the context of '
           'the task and reported Pending, or the task was woken; a stream ends exactly on the paths where its channel reported that '
           'it is closed and drained, and delivers exactly the item it received')
    n = 0
    for name, g in c.T.streams():
        n += 1
        c.counts['graph nodes of ' + name] = len(g.nodes)
        for p in g.root.ip.covered:
            c.functions.add(p)
        for k in g.root.ip.unmodelled:
            c.note('not modelled (result unknown) in %s: %s' % (name, k))

        def of_task(v, x, g=g):
            """whether a context is that of the task (or made from its waker)"""
            cx = g.root.vals[1] if len(g.root.vals) > 1 else None
            if v is None or not isinstance(v, V):
                return False
            if cx is None or any(mentions(v, y) for y in (cx, g.root.ip.peel(x.src.st, cx))):
                return True
            # a context that comes out of a call given nothing of the task is another one
            return unknown(v) and not (v.t == 'op' and str(v.a[0]).startswith('call:'))

        def step(a, e, x):
            if e[0] == 'RECV':
                c.count('receptions')
                what = e[1]
                if a.item is not None:
                    x.violate('dropped/' + name, '%s receives an item and then asks for another' % name)
                if what == 'pending':
                    return a.set(reg=a.reg or len(e) > 3 and of_task(e[3], x), pend=True, shut=False)
                if what == 'empty':
                    return a.set(pend=True, shut=False)
                if what == 'closed':
                    return a.set(shut=True)
                if what == 'item':
                    return a.set(item=e[3], shut=False)
            if e[0] == 'WAKE':
                return a.set(reg=True)
            if e[0] == 'opaque':
                # only what is given the context of the task can leave its waker somewhere
                cx = g.root.vals[1] if len(g.root.vals) > 1 else None
                gets = cx is None or any(mentions(v, y) for v in e[2] if isinstance(v, V) for y in (cx, g.root.ip.peel(x.src.st, cx)))
                return a.set(opaque=True, reg=a.reg or gets)
            return a

        def end(a, n_, x):
            if n_.end[0] == 'panic':
                x.violate('panic/' + name, '%s: polling %s panics (%s)' % (n_.end[2], name, n_.end[1]))
                return
            if n_.end[0] != 'return':
                return
            r = n_.end[1]
            if isadt(r, 'Poll', 'Pending'):
                c.count('pending answers')
                if not a.reg:
                    x.violate('unwoken/' + name, '%s reports Pending without having arranged for the task to be woken' % name)
                if a.item is not None:
                    x.violate('kept/' + name, '%s receives an item and reports Pending' % name)
                elif a.shut:
                    x.violate('endless/' + name, '%s reports Pending after its channel was closed and drained' % name)
            elif isadt(r, 'Poll', 'Ready'):
                o = r.a[2][0]
                if isadt(o, 'Option', 'None'):
                    c.count('ends of streams')
                    if a.item is not None:
                        x.violate('lost/' + name, '%s ends although it received an item' % name)
                    elif not a.shut and not a.opaque:
                        x.violate('ends/' + name, '%s ends although its channel is not closed and drained' % name)
                elif isadt(o, 'Option', 'Some'):
                    c.count('items delivered')
                    v = some_of(o)
                    if a.item is None:
                        if not unknown(v) and not a.opaque:
                            x.violate('invented/' + name, '%s delivers %s, which it did not receive' % (name, show(v)))
                    elif not mentions(v, a.item) and not unknown(v):
                        x.violate('other/' + name, '%s delivers %s instead of the item it received' % (name, show(v)))
                    else:
                        for y in swapped(v, a.item):
                            x.violate('parts/' + name, '%s delivers its item without %s' % (name, y))
                else:
                    c.note('%s delivers %s' % (name, show(o)[:80]))
            else:
                c.note('%s returns %s' % (name, show(r)[:80]))
        Auto(c, g, Rec(reg=False, pend=False, shut=False, item=None, opaque=False), step, end)
    c.count('streams', n)
    c.floor('streams', 2)
    c.floor('pending answers', 2)
    c.floor('ends of streams', 2)
    c.floor('items delivered', 2)


def swapped(v, item):
    """parts of a pair that was received and are not delivered"""
    got = {x.a[2] for x in walk(v) if x.t == "fld" and x.a[0] == item}
    if got and v != item:
        r = []
        for x in walk(v):
            if x == item:
                break
        for k in (0, 1):
            if not any(str(k) == str(p) or p == k or isinstance(p, tuple) and k in p for p in got) and not whole(v, item):
                r.append('part %d' % k)
        return r
    return []


def whole(v, item):
    """is the item used otherwise than through a field?"""
    def f(x):
        if x == item:
            return True
        if isinstance(x, tuple):
            return any(f(y) for y in x)
        if isinstance(x, V):
            if x.t == 'fld' and x.a[0] == item:
                return False
            return any(f(y) for y in x.a)
        return False
    return f(v)


# ------------------------------------------------------------- C26
def C26(c):
    c.rule('on every path of the dispatcher: the route is kept under the stream id and the frame id of the notification; without a '
           'route exactly one work item is queued, holding a new acker with these ids, together with the receiving end of the very '
           'channel the messages are put into, and the receiver of that acker is returned; with a route nothing is queued, the '
           'messages go to the channel kept and nothing is returned; each message of the notification is put into it once, in '
           'order, until its receiver is gone; the route is there afterwards exactly when more fragments follow and the work item '
           'was queued')
    g = c.graph('dispatch')
    no = c.T.notify_param(g)
    fs = no.fields
    F, S, I_, M = (no.value(k) for k in ('fragmented', 'stream_id', 'frame_id', 'messages'))

    def step(a, e, x):
        n = e[0]
        if n in ('entry', 'mapget', 'mapset', 'mapdel', 'vacant', 'occupied'):
            key = e[2]
            c.count('route accesses')
            if unknown(key):
                c.note('key %s' % show(key)[:100])
            else:
                has = [mentions(key, S), mentions(key, I_)]
                if not all(has):
                    x.violate('key', 'routes are kept under %s: %s is not part of it' % (show(key), 'the stream id' if not has[0] else 'the frame id'))
                elif merged(key, S) or merged(key, I_):
                    x.violate('merged', 'fragments are kept under %s, which is the same for different streams and frames' % show(key)[:120])
                elif a.key is not None and a.key != key:
                    x.violate('keys', 'routes are kept under %s and looked up under %s' % (show(a.key), show(key)))
            a = a.set(key=key)
        if n == 'occupied' or n == 'mapget' and e[3]:
            return a.set(found=True, route=True if a.found is None else a.route)
        if n == 'vacant' or n == 'mapget':
            return a.set(found=False if a.found is None else a.found)
        if n == 'mapset':
            t = txid(e[3])
            if t is None:
                c.note('route %s' % show(e[3])[:100])
            elif a.chan is not None and t != a.chan and t != 'OLD':
                x.violate('route', 'the route kept is not the channel of the work item')
            return a.set(route=True)
        if n == 'mapclear':
            x.violate('dropped', 'the routes of other notifications are dropped (%s)' % e[2])
            return None
        if n == 'mapdel':
            return a.set(route=False)
        if n == 'SEND' or n == 'SEND-ERR':
            ch, v = e[1], e[2]
            item = any(isadt(y, 'Acker') for y in walk(v))
            if item:
                c.count('work items queued' if n == 'SEND' else 'work items refused')
                if a.queued:
                    x.violate('twice', 'two work items are queued for one notification')
                if a.found:
                    x.violate('again', 'a further fragment of a notification queues a new work item')
                if a.sent:
                    x.violate('late', 'messages are forwarded before the work item is queued')
                rx = [y for y in walk(v) if y.t == 'op' and y.a[0] == 'rx']
                t = rxid(rx[0]) if rx else None
                for y in walk(v):
                    if isadt(y, 'Ack'):
                        f = fields(y)
                        for k, w in (('stream_id', S), ('frame_id', I_)):
                            if k in f and f[k] != w and not unknown(f[k]):
                                x.violate('id/' + k, 'the acker of the work item has %s = %s' % (k, show(f[k])))
                ot = [y for y in walk(v) if y.t == 'op' and y.a[0] == 'otx']
                return a.set(queued=n == 'SEND', failed=n != 'SEND', chan=t, ack=rxid(ot[0]) if ot else None)
            el = [y for y in walk(v) if y.t == 's' and y.a[0] == 'el']
            c.count('messages forwarded')
            if a.cur is None:
                if not unknown(v) and el:
                    x.violate('repeat', 'a message is forwarded twice')
                return a
            if not mentions(v, a.cur) and not unknown(v):
                x.violate('other', 'what is forwarded is %s and not the next message' % show(v))
            t = txid(ch)
            if a.found and t != 'OLD' and t is not None:
                x.violate('wrong-channel', 'the messages of a further fragment do not go to the work item of the first')
            if a.found is False and a.chan is not None and t is not None and t != a.chan:
                x.violate('wrong-channel', 'the messages of a notification do not go to its work item')
            return a.set(cur=None, sent=True, gone=a.gone or n == 'SEND-ERR')
        if n == 'next':
            if a.cur is not None:
                x.violate('skipped', 'a message is not forwarded')
            if derefsym(e[1]) != M and not mentions(e[1], M):
                return a
            odd = [y.a[0] for y in walk(e[1]) if y.t == 'op' and (y.a[0] in ('rev', 'skip', 'take', 'step_by', 'filter', 'sorted', 'sortedby') or
                                                                  y.a[0].startswith('after:'))]
            if odd:
                x.violate('order', 'the messages are forwarded through %s' % odd[0])
            return a.set(cur=e[2])
        if n == 'cut' and mentions(e[1], M):
            x.violate('cut', 'the messages after a number of them are not forwarded')
            return a.set(cur=None, all=True)
        if n == 'end':
            if a.cur is not None:
                x.violate('skipped', 'a message is not forwarded')
            if mentions(e[1], M):
                return a.set(all=True)
            return a
        return a

    def end(a, n, x):
        if n.end[0] == 'panic':
            x.violate('panic', '%s: the dispatcher panics (%s)' % (n.end[2], n.end[1]))
            return
        if n.end[0] != 'return':
            return
        r = n.end[1]
        f = fact(n.st, F)
        c.count('outcomes')
        if a.found is None:
            c.note('a path does not look for the route')
            if a.queued and not unknown(r):
                x.violate('no-lookup', 'a work item is queued without looking whether the notification has one')
            return
        if a.failed:
            if a.route:
                x.violate('stale', 'a route remains although its work item could not be queued')
            if ok_of(r) is not None:
                x.violate('unreported', 'that the work item could not be queued is not reported')
            return
        if not a.found and not a.queued:
            x.violate('none', 'the first fragment of a notification queues no work item')
            return
        o = ok_of(r)
        if o is None:
            if a.gone:
                return
            if not unknown(r):
                x.violate('error', 'a notification is refused: %s' % show(r)[:100])
            return
        if not a.all and not a.gone:
            x.violate('unforwarded', 'the dispatcher returns before all messages are forwarded')
        if a.found:
            if isadt(o, 'Option', 'Some'):
                x.violate('receiver-again', 'a further fragment yields a receiver of an ack')
        elif isadt(o, 'Option', 'None'):
            x.violate('receiver', 'the first fragment of a notification yields no receiver of its ack')
        else:
            v = some_of(o)
            t = rxid(v) if v is not None and v.t == 'op' else None
            if t is not None and a.ack is not None and t != a.ack:
                x.violate('wrong-receiver', 'the receiver returned is not the one of the acker queued')
        if f is None:
            x.violate('flag', 'the route does not depend on whether more fragments follow')
        elif f and not a.route:
            x.violate('unrouted', 'no route is kept for the fragments that follow')
        elif not f and a.route:
            x.violate('retained', 'the route remains after the final fragment')
    Auto(c, g, Rec(key=None, found=None, route=False, chan=None, ack=None, queued=False, failed=False, cur=None, sent=False, gone=False, all=False), step, end)
    c.floor('work items queued', 1)
    c.floor('messages forwarded', 2)
    c.floor('outcomes', 4)


def txid(v):
    """identity of the channel a sender belongs to; OLD for what the table held"""
    if v.t == 'op' and v.a[0] in ('tx', 'otx'):
        return v.a[1]
    for y in walk(v):
        if y.t == 'op' and y.a[0] == 'slot' or y.t == 's' and y.a[0] in ('entry', 'mapget', 'slot', 'got'):
            return 'OLD'
    for y in walk(v):
        if y.t == 'op' and y.a[0] in ('tx', 'otx'):
            return y.a[1]
    return None


def rxid(v):
    if v.t == 'op' and v.a[0] in ('rx', 'orx', 'otx', 'tx'):
        return v.a[1]
    return None


# ------------------------------------------------------------- C27
def lossy(g, st, v):
    """is there a number that a conversion in v does not keep?"""
    for y in walk(v):
        if isop(y, 'cast'):
            lo, hi = g.root.ip.rng(st, y.a[1])
            if lo < y.a[2] or hi > y.a[3]:
                return True
    return False


def C27(c):
    c.rule('on every path of hdrs_bin: a string is read as a variable-length integer and exactly that many bytes; strings pair up as '
           'name and value; each pair is appended (never replacing) to the map returned, in order and before the next is read, '
           'except the pair of empty strings, after which reading stops; reading stops nowhere else but where the block ends; a '
           'name or value that is refused as not valid HTTP makes the function return an error, and only that does')
    g = c.graph('hdrs')

    def empty(a, i):
        """are the decisions on a path consistent only with string i being empty?"""
        ln = a.lens[i]
        if ln is None:
            return False
        if ln.t == 'i':
            return ln.a[0] == 0
        for probe in (1, 2, 3, 7, 100):
            ok = True
            for t, d in a.brs:
                x = evalv(t, {ln: probe})
                if x is not None and x != d:
                    ok = False
            if ok:
                return False
        return True

    def both(a):
        """are the decisions on a path consistent only with both strings being empty?"""
        ls = a.lens
        if None in ls or any(l.t == 'i' for l in ls):
            return empty(a, 0) and empty(a, 1)
        vs = (0, 1, 2, 7, 100)
        brs = [(t, d) for t, d in a.brs if mentions(t, ls[0]) or mentions(t, ls[1])]
        return not any(all(evalv(t, {ls[0]: i, ls[1]: j}) in (None, d) for t, d in brs) for i in vs for j in vs if i or j)

    def pending(a, x, what):
        """what happened to the last complete pair"""
        if len(a.strs) == 2 and not a.done:
            if both(a):
                return 'end'
            x.violate('dropped/' + what, 'a header that was read is not in the result (%s)' % what)
        return None

    def step(a, e, x):
        n = e[0]
        if n == 'br':
            return a.set(brs=a.brs + ((e[1], e[2]),))
        if n == 'R' or n == 'Rfail':
            kind = e[1]
            if n == 'R' and kind == 'bytes':
                if a.ln is None:
                    if e[4] is not None and e[4].t == 'i' and e[4].a[0] == 0:
                        return a
                    x.violate('unsized', 'bytes are read without a length')
                    return None
                c.count('strings read')
                if e[4] is not None and e[4] != a.ln and uncast(e[4]) != a.ln and not unknown(e[4]):
                    x.violate('length', 'a string of length %s is read as %s bytes' % (show(a.ln), show(e[4])))
                elif e[4] is not None and isop(e[4], 'cast') and lossy(g, x.src.st, e[4]):
                    x.violate('length/cut', 'the length of a string is cut off: %s' % show(e[4]))
                    return None
                if len(a.strs) == 2:
                    a = a.set(strs=(), lens=(None, None), done=False)
                i = len(a.strs)
                lens = list(a.lens)
                lens[i] = a.ln
                return a.set(strs=a.strs + (e[2],), lens=tuple(lens), ln=None)
            c.count('lengths read')
            if len(a.strs) == 2:
                p = pending(a, x, 'the next is read')
                if p == 'end':
                    x.violate('past-end', 'reading goes on after the pair of empty strings')
                if a.bad:
                    x.violate('ignored', 'a header that is not valid HTTP is skipped')
                a = a.set(strs=(), lens=(None, None), done=False, brs=())
            if n == 'Rfail':
                return a.set(cut=True)
            if kind != 'varint':
                x.violate('length-kind', 'the length of a string is read as %s' % kind)
                return None
            if a.ln is not None:
                # the bytes of a string were not read: only where there are not that many
                if not short(a, None):
                    x.violate('skipped', 'a length is read, and then another one without its bytes')
                    return None
                return a.set(ln=e[2], cut=True)
            return a.set(ln=e[2])
        if n == 'hdr':
            c.count('headers added')
            how, coll, k, v = e[1:5]
            if how != 'append':
                x.violate('replaces', 'a header replaces an earlier one of the same name')
            if len(a.strs) < 2:
                x.violate('unpaired', 'a header is made of one string')
                return None
            if a.done:
                x.violate('twice', 'a header is added twice')
            for what, y, i in (('name', k, 0), ('value', v, 1)):
                if unknown(y):
                    c.note('%s %s' % (what, show(y)[:100]))
                elif not mentions(y, a.strs[i]):
                    x.violate(what, 'the %s of a header is %s' % (what, show(y)))
                else:
                    ch = [z.a[0] for z in walk(y) if z.t == 'op' and z.a[0] in CHANGED and mentions(z, a.strs[i]) and not (what == 'name' and 'case' in z.a[0])]
                    if ch:
                        x.violate(what + '/changed', 'the %s of a header is not the string that was read: %s' % (what, show(y)[:120]))
            return a.set(done=True, coll=coll)
        if n == 'bad' and e[1] in ('HeaderName', 'HeaderValue'):
            c.count('refusals of invalid strings')
            return a.set(bad=True)
        if n == 'opaque':
            return a.set(opaque=True)
        return a

    def end(a, n, x):
        if n.end[0] == 'panic':
            x.violate('panic', '%s: decoding panics (%s)' % (n.end[2], n.end[1]))
            return
        if n.end[0] != 'return':
            return
        r = n.end[1]
        c.count('outcomes')
        if isadt(r, 'Result', 'Err'):
            if not a.bad and not a.cut and not short(a, n) and not a.opaque:
                x.violate('refused', 'a valid block is refused: %s' % show(r)[:100])
            if a.bad and len(a.strs) == 2 and not a.opaque and None not in a.lens:
                env = {a.lens[0]: 0, a.lens[1]: 0}
                if all(evalv(t, env) in (None, d) for t, d in a.brs):
                    x.violate('terminator', 'the pair of empty strings that ends a block is refused as a header that is not valid')
            return
        if not isadt(r, 'Result', 'Ok'):
            c.note('returns %s' % show(r)[:100])
            return
        if a.bad and not (len(a.strs) == 2 and both(a)):
            x.violate('accepted', 'a header that is not valid HTTP is not reported')
        p = pending(a, x, 'reading ends')
        if p is None and not a.cut and not short(a, n) and not dry(a) and not a.opaque:
            x.violate('stops', 'reading stops before the end of the block')
        v = ok_of(r)
        if a.coll is not None and v.t == 'coll' and v.a[0] != a.coll and not unknown(v):
            x.violate('other-map', 'the map returned is not the one the headers were added to')

    def short(a, n):
        """a length that exceeds what is left"""
        for t, d in a.brs if a.ln is not None else ():
            op_, p, q, tr = rel(t, d)
            if op_ in ('lt', 'slt') and tr and q == a.ln and p != a.ln:
                return True
        return False

    def dry(a):
        """was the block found to be at its end?"""
        for t, d in reversed(a.brs):
            if any(y.t == 's' and y.a[0] in ('rem', 'param') for y in walk(t)) and not any(y.t == 's' and y.a[0] == 'fit' for y in walk(t)):
                op_, p, q, tr = rel(t, d)
                # nothing remains: not (0 < rem), rem == 0
                if op_ == 'lt' and p.t == 'i' and p.a[0] == 0 and not tr:
                    return True
                if op_ == 'eq' and tr and (q.t == 'i' and q.a[0] == 0 or p.t == 'i' and p.a[0] == 0):
                    return True
                if op_ == 'lt' and q.t == 'i' and q.a[0] == 1 and tr:
                    return True
        return False
    Auto(c, g, Rec(strs=(), lens=(None, None), ln=None, done=False, brs=(), bad=False, cut=False, coll=None, opaque=False), step, end)
    c.floor('strings read', 4)
    c.floor('headers added', 1)
    c.floor('refusals of invalid strings', 2)
    c.floor('outcomes', 4)


# ------------------------------------------------------------- C28
GUARD = re.compile(r'(?:\b(?:std|core|alloc|parking_lot|lock_api|dashmap|spin|crossbeam_utils)::[\w:]*(?:Mutex|RwLock|ReentrantLock|ReentrantMutex|ShardedLock)[\w]*Guard\b)'
                   r'|dashmap::mapref::[\w:]+|dashmap::iter::\w+|std::io::stdio::Std\w+Lock')
SHARED = re.compile(r'RwLockReadGuard|dashmap::mapref::one::Ref\b|dashmap::mapref::one::MappedRef\b|dashmap::mapref::multiple::RefMulti\b|dashmap::iter::Iter\b')
BLOCKING = re.compile(r'^(?:std::thread::(?:sleep|sleep_ms|sleep_until|park|park_timeout|functions::\w*(?:sleep|park)\w*|[\w:]*sleep\w*|[\w:]*park\w*)|std::fs::.*|std::net::.*'
                      r'|std::sync::barrier::.*wait.*|std::sync::(?:poison::)?condvar::.*wait.*'
                      r'|std::process::.*(?:output|status|wait|wait_with_output|spawn)'
                      r'|std::sync::mpsc::.*(?:recv|recv_timeout|iter)|std::sync::mpmc::.*(?:recv|recv_timeout)'
                      r'|futures_executor::.*block_on.*|futures::executor::.*block_on.*|tokio::.*::block_on|tokio::.*::blocking_\w+'
                      r'|tokio::task::blocking::block_in_place|std::io::stdio::.*(?:read_line|read_to_end|read_to_string|lines))$')
BLOCKNAMES = {'blocking_send', 'blocking_recv', 'blocking_lock', 'blocking_read', 'blocking_write', 'blocking_recv_many', 'block_on', 'block_on_stream'}
MAPLOCK = {'get': 0, 'contains_key': 0, 'len': 0, 'is_empty': 0, 'iter': 0, 'view': 0, 'get_mut': 1, 'entry': 1, 'insert': 1, 'remove': 1,
           'remove_if': 1, 'remove_if_mut': 1, 'alter': 1, 'alter_all': 1, 'retain': 1, 'iter_mut': 1, 'clear': 1}


def guard_in(types, ti, depth=0):
    """the lock guard a type holds (not behind a reference), or None"""
    t = types[ti]
    k = t['k']
    if depth > 8 or k in ('ref', 'ptr', 'fndef', 'fnptr'):
        return None
    if k == 'adt':
        m = GUARD.match(t['path'])
        if m:
            return t
    for a in t.get('args') or ():
        if isinstance(a, int):
            g = guard_in(types, a, depth + 1)
            if g is not None:
                return g
    for a in t.get('upvars') or ():
        if isinstance(a, int):
            g = guard_in(types, a, depth + 1)
            if g is not None:
                return g
    if k not in ('adt',) and not t.get('args'):
        m = GUARD.search(t['s']) if not t['s'].startswith(('&', '*', 'fn(', '{closure', '{async')) else None
        if m and k in ('other', 'dyn', 'alias'):
            return t
    return None


def lockkey(types, t):
    """what a guard or lock type protects: family and type arguments"""
    p = t['path']
    fam = 'dashmap' if p.startswith('dashmap') else 'lock'
    args = [types[a]['s'] for a in t.get('args') or () if isinstance(a, int)]
    return (fam,) + tuple(args[:2] if fam == 'dashmap' else args[-1:])


def callee(t):
    """function called by a call terminator"""
    if t[0] == 'call' and t[1][0] == 'k' and isinstance(t[1][1], dict) and 'fn' in t[1][1]:
        return t[1][1]['fn']
    return None


def C28(c):
    c.rule('of every coroutine of the library: no type the compiler keeps across one of its suspension points is, or holds, a guard of a '
           'thread-blocking lock or of a concurrent map; no function reachable from one calls a thread-blocking operation, or takes a '
           'lock or a shard of a map of the same type while it may still hold a guard of it')
    W = c.T.w
    n = 0
    for d in W.dumps:
        if d.crate == 'vmodels':
            continue
        for path, w in sorted(d.d['witnesses'].items()):
            n += 1
            for pt in w['points']:
                c.count('suspension points')
                for x in pt['tys']:
                    c.count('types kept across suspensions')
                    t = guard_in(d.types, x[0])
                    if t is not None:
                        c.violate('held/%s/%s' % (path, t['path']), '%s suspends while holding a %s (%s)' % (path, t['s'], x[1]),
                                  ['%s: suspension in %s' % (pt['span'], path), '%s: the guard' % x[1]])
                    else:
                        t2 = d.types[x[0]]
                        if t2['k'] == 'adt':
                            for dd in W.dumps:
                                pass
    c.count('coroutines', n)
    # what runs in tasks
    reach = reachable(W)
    locks = lock_sets(W)
    for (d, k) in sorted(reach, key=lambda x: (x[0].crate, x[1])):
        b = d.bodies[k]
        c.count('functions that run in tasks')
        c.functions.add(b['path'] if isinstance(b, dict) else b.path)
        for bb in b['blocks']:
            f = callee(bb['t'])
            if f is None:
                continue
            c.count('calls examined')
            for p in {f.get('inst_path') or '', f.get('path') or '', f.get('inst') or ''}:
                q = strip_generics(p)
                if BLOCKING.match(q) or f['name'] in BLOCKNAMES or blocking_method(d, f, q):
                    sp = bb['t'][-2] if isinstance(bb['t'][-2], str) else ''
                    c.violate('blocks/%s/%s' % (b['path'], q), '%s blocks its thread: it calls %s (%s)' % (b['path'], q, sp), ['%s: call of %s in %s' % (sp, q, b['path'])])
                    break
        if '/rustlib/' in b['span'] or '/registry/' in b['span']:
            continue
        reentrant(c, d, b, locks)
    c.floor('coroutines', 20)
    c.floor('suspension points', 60)
    c.floor('calls examined', 500)


def blocking_method(d, f, q):
    s = f.get('self')
    ts = d.types[s]['s'] if isinstance(s, int) else ''
    n = f['name']
    if n == 'join' and ts.startswith('std::thread'):
        return True
    if n in ('recv', 'recv_timeout', 'iter') and ts.startswith('std::sync::mpsc'):
        return True
    if n in ('wait', 'wait_while', 'wait_timeout') and (ts.startswith('std::sync') or ts.startswith('parking_lot')) :
        return True
    return False


def reachable(W):
    """bodies that run inside a task: the coroutines and what they (transitively) call"""
    out = set()
    work = []
    for d in W.dumps:
        if d.crate == 'vmodels':
            continue
        for k, b in d.bodies.items():
            if b.get('coroutine') or d.d['witnesses'].get(b['path']):
                work.append((d, k))
        for f in d.d['fns']:
            if f['path'].split('::')[-1] in ('poll_next', 'poll', 'poll_ready', 'call', 'drop', 'handle_frame', 'recieve_messages', 'reassemble',
                                            'complete', 'abort', 'set_var', 'unset_var') and f['key'] in d.bodies:
                work.append((d, f['key']))
    bykey = {}
    while work:
        x = work.pop()
        if x in out:
            continue
        out.add(x)
        d, k = x
        b = d.bodies[k]
        for bb in b['blocks']:
            f = callee(bb['t'])
            if f:
                for p in (f.get('inst'), f.get('inst_path')):
                    if not p:
                        continue
                    for dd in W.dumps:
                        if dd.crate == 'vmodels':
                            continue
                        if p in dd.bodies:
                            work.append((dd, p))
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], (list, dict)):
                    kk = s[2][1][1] if isinstance(s[2][1], list) and len(s[2][1]) > 1 else s[2][1].get('key') if isinstance(s[2][1], dict) else None
                    if isinstance(kk, str) and kk in d.bodies:
                        work.append((d, kk))
    return out


def lock_sets(W):
    """lock types each function of the library may take, itself or through what it calls"""
    direct, calls = {}, {}
    for d in W.dumps:
        for k, b in d.bodies.items():
            s = set()
            cs = set()
            for bb in b['blocks']:
                f = callee(bb['t'])
                if f is None:
                    continue
                l = takes(d, f)
                if l:
                    s.add(l)
                for p in (f.get('inst'), f.get('inst_path')):
                    if p:
                        cs.add(p)
            direct[k] = s
            calls[k] = cs
    ch = True
    while ch:
        ch = False
        for k in direct:
            for p in calls[k]:
                if p in direct and not direct[p] <= direct[k]:
                    direct[k] = direct[k] | direct[p]
                    ch = True
    return direct


def takes(d, f):
    """(lock key, exclusive) if calling f takes a thread-blocking lock"""
    s = f.get('self')
    if not isinstance(s, int):
        s = (f.get('targs') or [None])[0]
        p = strip_generics(f.get('inst_path') or f['path'])
        if p.startswith('dashmap::') and f['name'] in MAPLOCK and len(f.get('targs') or ()) >= 2:
            a = [d.types[x]['s'] for x in f['targs'][:2]]
            return ('dashmap',) + tuple(a), MAPLOCK[f['name']]
        if re.match(r'std::sync::.*(mutex|rwlock)', p) and f['name'] in ('lock', 'read', 'write') and f.get('targs'):
            return ('lock', d.types[f['targs'][-1]]['s']), int(f['name'] != 'read')
        return None
    t = d.types[s]
    while t['k'] == 'ref':
        t = d.types[t['inner']]
    if t['k'] != 'adt':
        return None
    if t['path'] == 'dashmap::DashMap' and f['name'] in MAPLOCK:
        return lockkey(d.types, dict(t, path='dashmap')), MAPLOCK[f['name']]
    if t['path'].split('::')[-1] in ('Mutex', 'RwLock') and not t['path'].startswith('tokio') and f['name'] in ('lock', 'read', 'write'):
        return lockkey(d.types, t), int(f['name'] != 'read')
    return None


def reentrant(c, d, b, locks):
    """forward dataflow: which locals may hold a guard; a call that takes the same kind of lock meanwhile"""
    guards = {}
    for i, ti in enumerate(b['locals']):
        t = guard_in(d.types, ti)
        if t is not None and t.get('path'):
            guards[i] = t
    if not guards:
        return
    c.count('functions that hold guards')
    blocks = b['blocks']
    inn = {0: frozenset()}
    work = [0]

    def kill_operand(o, s):
        if o[0] == 'm' and o[1][0] in s:
            return s - {o[1][0]}
        return s

    def operands(r):
        if isinstance(r, list):
            if len(r) == 2 and r[0] in ('m', 'c') and isinstance(r[1], list) and r[1] and isinstance(r[1][0], int):
                yield r
                return
            for x in r:
                for y in operands(x):
                    yield y
    while work:
        i = work.pop()
        s = inn[i]
        bb = blocks[i]
        dis = {}
        for st in bb['s']:
            if st[0] == 'dead':
                s = s - {st[1]}
            elif st[0] == '=':
                for o in operands(st[2]):
                    s = kill_operand(o, s)
                if st[2][0] == 'discr':
                    dis[st[1][0]] = st[2][1][0] if not st[2][1][1] else None
                if st[1][0] in guards:
                    s = s | {st[1][0]}
        t = bb['t']
        outs = []
        if t[0] == 'call':
            f = callee(t)
            s0 = s
            for o in operands(t[2]):
                s = kill_operand(o, s)
            if f is not None and s:
                want = set()
                l = takes(d, f)
                if l:
                    want.add(l)
                for p in (f.get('inst'), f.get('inst_path')):
                    if p in locks:
                        want |= locks[p]
                for (lk, excl) in want:
                    c.count('lock acquisitions under a guard examined')
                    for gi in s:
                        gt = guards[gi]
                        if lockkey(d.types, gt) == lk and (excl or not SHARED.match(gt['path'])):
                            c.violate('deadlock/%s' % b['path'], '%s takes a lock of the %s while it may still hold the guard %s' % (b['path'], lk[0], gt['s'][:100]),
                                      ['%s' % [z for z in t if isinstance(z, str) and '.rs:' in z], b['path']])
            dst = t[3]
            s2 = s
            if dst[0] in guards:
                s2 = s | {dst[0]}
            if t[4] is not None:
                outs.append((t[4], s2))
            if isinstance(t[5], int):
                outs.append((t[5], s))
        elif t[0] == 'switch':
            loc = None
            if t[1][0] in ('m', 'c') and not t[1][1][1]:
                loc = dis.get(t[1][1][0])
            for v, tgt in t[2]:
                s2 = s
                if loc in guards and d.types[b['locals'][loc]].get('path', '').endswith('option::Option') and v == '0':
                    s2 = s - {loc}
                outs.append((tgt, s2))
            if t[3] is not None:
                outs.append((t[3], s))
        elif t[0] == 'drop':
            s2 = s - {t[1][0]} if not t[1][1] else s
            for x in t[2:4]:
                if isinstance(x, int) and x < len(blocks):
                    outs.append((x, s2))
                    break
        elif t[0] == 'goto':
            outs.append((t[1], s))
        elif t[0] == 'assert':
            for x in t[1:]:
                if isinstance(x, int) and 0 <= x < len(blocks):
                    outs.append((x, s))
        for o, s2 in outs:
            if o not in inn or not s2 <= inn[o]:
                inn[o] = inn.get(o, frozenset()) | s2
                work.append(o)


# ------------------------------------------------------------- C32
def C32(c):
    c.rule('the compiler\'s syntax tree of both library crates holds no unsafe block, unsafe function, unsafe impl, unsafe trait, extern '
           'block or attribute that exempts code from the safety rules')
    for d in c.T.w.dumps:
        if d.crate == 'vmodels':
            continue
        c.count('items of syntax examined', d.d['unsafe_checked'])
        for u in d.d['unsafe']:
            t = u if isinstance(u, str) else ' '.join(str(x) for x in (u.values() if isinstance(u, dict) else u))
            key = re.sub(r':\d+', '', t)
            c.violate('unsafe/%s' % key[:80], 'unsafe code: %s' % t, [t])
    c.floor('items of syntax examined', 2000)


# ------------------------------------------------------------- C34
def C34(c):
    c.rule('on every path of the four handlers: the frame kind of the handler\'s own direction is accepted, its items are what is handed '
           'on; the disconnect of the same side becomes the error with exactly the status its code names, and Unknown for every other '
           'code; every other kind of frame becomes the error Invalid')
    STAT = None
    for p, a in ADTS.items():
        if p.endswith('spop::error::Error'):
            STAT = {int(v['discr']): v['name'] for v in a['variants']}
    if not STAT:
        raise Missing('no status type')
    for name, own, bye, items in (('notify_handler', 'HaproxyNotify', 'HaproxyDisconnect', 'messages'),
                                  ('ack_handler', 'AgentAck', 'AgentDisconnect', 'actions'),
                                  ('reassembly_message', 'HaproxyNotify', 'HaproxyDisconnect', 'messages'),
                                  ('reassembly_action', 'AgentAck', 'AgentDisconnect', 'actions')):
        try:
            g = c.graph(name)
        except Missing as x:
            c.note(str(x))
            continue
        c.count('handlers')
        ov, bv = frame_variant(own), frame_variant(bye)
        allv = {int(v['discr']) for p, a in ADTS.items() if p.endswith('::Frame') and a['kind'] == 'enum' for v in a['variants']}

        def step(a, e, x, name=name):
            if e[0] in ('br', 'brx') and isinstance(e[1], V):
                t = e[1]
                if t.t == 'op' and t.a[0] == 'discr' and symkind(t.a[1]) == 'param':
                    if t.a[1].t == 's':
                        if e[0] == 'br':
                            return a.set(kinds=frozenset([e[2]]) & a.kinds)
                        return a.set(kinds=a.kinds - frozenset(e[2]))
                elif a.kinds == frozenset([bv]) and t.t == 'fld':
                    if e[0] == 'br':
                        return a.set(code=e[2])
                    return a.set(code='other', excl=tuple(e[2]))
            return a

        def end(a, n, x, name=name, items=items):
            if n.end[0] == 'panic':
                x.violate('panic/' + name, '%s: %s panics (%s)' % (n.end[2], name, n.end[1]))
                return
            if n.end[0] != 'return':
                return
            r = n.end[1]
            c.count('outcomes')
            er = err_of(r)
            if er is None and ok_of(r) is None:
                c.note('%s returns %s' % (name, show(r)[:100]))
                return
            en = vname(er) if er is not None and er.t == 'adt' else None
            for k in a.kinds:
                if k == ov:
                    if er is not None:
                        if not unknown(er):
                            x.violate('own/' + name, '%s refuses its own kind of frame: %s' % (name, show(er)))
                    elif not name.startswith('reassembly'):
                        v = some_of(ok_of(r))
                        if isadt(ok_of(r), 'Option', 'None'):
                            x.violate('empty/' + name, '%s accepts a frame and delivers nothing' % name)
                        elif v is not None and not unknown(v) and not re.search(r'\.v%d\.0\.\d+$' % ov, show(v)):
                            if v.t == 'coll' or v.t == 'i':
                                x.violate('items/' + name, '%s delivers %s' % (name, show(v)))
                            else:
                                c.note('%s delivers %s' % (name, show(v)[:80]))
                elif k == bv:
                    if er is None:
                        x.violate('bye/' + name, '%s accepts a disconnect' % name)
                    elif en is None:
                        c.note('%s: disconnect gives %s' % (name, show(er)[:80]))
                    elif a.code is None:
                        x.violate('status/' + name, '%s answers every disconnect with %s' % (name, en))
                    elif a.code == 'other':
                        left = [s for v_, s in STAT.items() if v_ not in a.excl]
                        if en != 'Unknown':
                            x.violate('unknown/' + name, '%s turns an unknown status code into %s' % (name, en))
                        elif [s for s in left if s != 'Unknown']:
                            x.violate('known/' + name, '%s turns the status %s into Unknown' % (name, left[0]))
                    else:
                        w = STAT.get(a.code, 'Unknown')
                        c.count('status codes')
                        if en != w:
                            x.violate('code/%s/%s' % (name, w), '%s turns a disconnect with status %s (%d) into %s' % (name, w, a.code, en))
                else:
                    if er is None:
                        x.violate('accepts/%s/%s' % (name, k), '%s accepts a frame of another kind' % name)
                    elif en is not None and en != 'Invalid':
                        x.violate('error/%s' % name, '%s refuses a frame of another kind with %s' % (name, en))
        Auto(c, g, Rec(kinds=frozenset(allv), code=None, excl=()), step, end)
    c.floor('handlers', 4)
    c.floor('outcomes', 40)
    c.floor('status codes', 30)
