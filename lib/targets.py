"""The functions of /repo the rules look at, as analysed graphs (each built once per run)."""
from roots import *
from anchors import *
import anchors


class Missing(Exception):
    """what the rule is anchored on is not there"""


def vwalk(v):
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, V):
            yield x
            work.extend(x.a)
        elif isinstance(x, tuple):
            work.extend(x)


def either(a, b):
    """one of two values, told apart as far inside as possible"""
    if a is b:
        return a
    if a.t == b.t and len(a.a) == len(b.a) and a.t in ('adt', 'tup', 'coll', 'fr'):
        ps = []
        for x, y in zip(a.a, b.a):
            if x is y or x == y and not isinstance(x, V):
                ps.append(x)
            elif isinstance(x, V) and isinstance(y, V):
                ps.append(either(x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(isinstance(z, V) for z in x + y):
                ps.append(tuple(either(p, q) for p, q in zip(x, y)))
            else:
                break
        else:
            return mk(a.t, *ps)
    return mk('op', 'either', a, b)


class Targets:
    def __init__(self, dumps):
        self.w = load(dumps)
        self.graphs = {}
        self.by = {d.crate: d for d in self.w.dumps}

    def get(self, name):
        if name not in self.graphs:
            m = getattr(self, 'g_' + name, None)
            if m is None:
                raise Missing('no target ' + name)
            self.graphs[name] = m()
        return self.graphs[name]

    def method(self, selfty, name, crate=None):
        r = [(d, f) for d, f in fn_of(self.w, lambda f: f['path'].split('::')[-1] == name
                                      and strip_generics(str(f.get('self') or '')).split('::')[-1] == selfty)
             if crate is None or d.crate == crate]
        if not r:
            raise Missing('no function %s::%s' % (selfty, name))
        return r[0]

    def g_write(self):
        d, f = self.method('Framer', 'write_frame')
        r = poll_root(self.w, d, f['key'], None, anchors=WRITE_ANCHORS)
        r.ip.opts['no_add_overflow'] = True
        return r.explore(max_nodes=20000)

    def g_read(self):
        d, f = self.method('Framer', 'read_frame')
        r = poll_root(self.w, d, f['key'], None, anchors=READ_ANCHORS)
        return r.explore(max_nodes=20000)

    def inst(self, crate, path, *ends):
        """the shortest instance key of a path whose key ends with one of ends"""
        d = self.by[crate]
        ks = [k for k in d.bodies if strip_generics(k).endswith(path) and k.endswith(ends or '') and 'promoted' not in k]
        if not ks:
            raise Missing('no instance of ' + path)
        return d, min(ks, key=lambda k: (len(k), k))

    def bound_fn(self, name, trait, crate='haproxy_spop'):
        r = [(d, f) for d, f in fn_of(self.w, lambda f: f['path'].split('::')[-1] == name
                                      and str(f.get('impl_of') or '').split('<')[0].endswith(trait)) if d.crate == crate]
        if not r:
            raise Missing('no function %s of %s' % (name, trait))
        return r[0]

    def modfn(self, crate, name):
        r = [(d, f) for d, f in fn_of(self.w, lambda f: f['path'].endswith('::' + name)) if d.crate == crate]
        if not r:
            raise Missing('no function ' + name)
        return r[0]

    def bufroot(self, d, key, anchors, byref=False):
        """a function whose first argument is a buffer of unknown content"""
        rem = hint(sym('param', 'rem'), 0, (1 << 63) - 1)
        loc = ('t', 'buf')
        bv = mk('buf', sym('param', 'buf'), rem)
        return Root(self.w, d, key, [mk('ref', loc, ())], anchors=anchors, mem={loc: bv})

    def outroot(self, d, key, anchors):
        """a function whose first argument is a buffer to write to"""
        loc = ('t', 'out')
        r = Root(self.w, d, key, [mk('ref', loc, ())], anchors=anchors, mem={loc: mk('wb', sym('out'), ())})
        r.ip.opts['no_add_overflow'] = True
        return r

    def g_varint_get(self):
        d, f = self.modfn('haproxy_spop', 'varint::get')
        return self.bufroot(d, f['key'], []).explore()

    def g_varint_get_aged(self):
        """the reader with every byte it read kept apart"""
        d, f = self.modfn('haproxy_spop', 'varint::get')
        r = self.bufroot(d, f['key'], [])
        r.ip.opts['ages'] = 16
        return r.explore()

    def g_varint_put(self):
        d, f = self.modfn('haproxy_spop', 'varint::put')
        return self.outroot(d, f['key'], []).explore()

    def g_varint_size(self):
        d, f = self.modfn('haproxy_spop', 'varint::size_of')
        return Root(self.w, d, f['key']).explore()

    def g_typed_get(self):
        d, f = self.bound_fn("typed", "BufExt")
        return self.bufroot(d, f['key'], [a_varint_get]).explore()

    def g_typed_put(self):
        d, key = self.inst('haproxy_spop', '::put_typed', ', haproxy_spop::data::typed::Typed>')
        return self.outroot(d, key, [a_varint_put]).explore()

    def g_string_put(self):
        d, f = self.bound_fn("put_string", "BufMutExt")
        return self.outroot(d, f['key'], [a_varint_put]).explore()

    def g_kv_put(self):
        """the default put_kv, as instantiated for one kind of item"""
        d = self.by['haproxy_spop']
        ks = [k for k in d.bodies if '::put_kv<' in k and 'promoted' not in k and 'closure' not in k and '<Self' not in k]
        if not ks:
            raise Missing('no instance of put_kv')
        return self.outroot(d, min(ks, key=lambda k: (not k.endswith('&str>'), len(k), k)), [a_varint_put, a_typed_put]).explore()

    def kvlist_put(self, n):
        """the default put_kvlist, as instantiated for one kind of list, on a list of n items"""
        d = self.by['haproxy_spop']
        ks = [k for k in d.bodies if '::put_kvlist<' in k and 'promoted' not in k and 'closure' not in k and '<Self' not in k]
        if not ks:
            raise Missing('no instance of put_kvlist')
        loc = ('t', 'out')
        items = tuple(sym('param', 'item', i) for i in range(n))
        r = Root(self.w, d, min(ks, key=lambda k: (len(k), k)), [mk('ref', loc, ()), mk('coll', sym('param', 'list'), mk('tup', items))],
                 anchors=[a_varint_put, a_typed_put], mem={loc: mk('wb', sym('out'), ())})
        r.ip.opts['no_add_overflow'] = True
        return r.explore()

    def g_kvlist_put0(self):
        return self.kvlist_put(0)

    def g_kvlist_put1(self):
        return self.kvlist_put(1)

    def g_kvlist_put2(self):
        return self.kvlist_put(2)

    def g_kvlist_put3(self):
        return self.kvlist_put(3)

    def g_metadata_put(self):
        d, f = self.modfn('haproxy_spop', 'encode::metadata')
        return self.outroot(d, f['key'], [a_varint_put]).explore()

    def g_metadata_size(self):
        return self.on_self('Metadata', 'size', 'haproxy_spop', sym('param', 'metadata'), anchors=[a_varint_size]).explore()

    def g_hdrs(self):
        d, f = self.modfn('haproxy_spoa', 'hdrs_bin')
        rem = hint(sym('param', 'rem'), 0, (1 << 63) - 1)
        return Root(self.w, d, f['key'], [mk('buf', sym('param', 'buf'), rem)], anchors=[a_varint_get]).explore()

    def g_reassemble(self):
        d, f = self.method('Reassembly', 'reassemble', 'haproxy_spop')
        return Root(self.w, d, f['key']).explore()

    def on_frame(self, name):
        """the function below a handler constructor that takes the frame"""
        d = self.by['haproxy_spop']
        r = []
        for k in d.bodies:
            if '::%s::' % name in k and 'promoted' not in k:
                b = self.w.body(d, k)
                if any(t['k'] == 'adt' and t['path'].endswith('::Frame') for t in
                       (d.types[b.locals[i + 1]] for i in range(b.argc))):
                    r.append(k)
        if not r:
            raise Missing('no function of %s takes a frame' % name)
        return d, min(r, key=len)

    def g_notify_handler(self):
        d, k = self.on_frame('notify_handler')
        return poll_root(self.w, d, k, None).explore()

    def g_ack_handler(self):
        d, k = self.on_frame('ack_handler')
        return poll_root(self.w, d, k, None).explore()

    def reassembly_handler(self, what):
        r = [(d, f) for d, f in fn_of(self.w, lambda f: f['path'].split('::')[-1] == 'handle_frame'
                                      and strip_generics(str(f.get('self') or '')).split('::')[-1] == 'Reassembly'
                                      and str(f.get('self')).rstrip('>').endswith('::' + what)) if d.crate == 'haproxy_spop']
        if not r:
            raise Missing('no handle_frame for ' + what)
        d, f = r[0]
        return poll_root(self.w, d, f['key'], None).explore()

    def g_reassembly_message(self):
        return self.reassembly_handler('Message')

    def g_reassembly_action(self):
        return self.reassembly_handler('Action')

    def on_self(self, selfty, name, crate, value, anchors=None):
        """a method called on a given value behind its &self"""
        d, f = self.method(selfty, name, crate)
        loc = ('t', 'self')
        return Root(self.w, d, f['key'], [mk('ref', loc, ())], anchors=anchors, mem={loc: value} if value is not None else None)

    def trait_fn(self, selfty, trait, name, crate='haproxy_spop'):
        """(dump, fn) of a method of an implementation of a trait"""
        r = [(d, f) for d, f in fn_of(self.w, lambda f: f['path'].split('::')[-1] == name
                                      and strip_generics(str(f.get('self') or '')).split('::')[-1] == selfty
                                      and strip_generics(str(f.get('impl_of') or '')).split('::')[-1] == trait)
             if d.crate == crate]
        if not r:
            raise Missing('no %s of %s' % (trait, selfty))
        return r[0]

    def shown(self, selfty, value):
        """the Display of a value"""
        d, f = self.trait_fn(selfty, 'Display', 'fmt')
        loc = ('t', 'self')
        return Root(self.w, d, f['key'], [mk('ref', loc, ())], mem={loc: value}).explore()

    def parsed(self, selfty):
        d, f = self.trait_fn(selfty, 'FromStr', 'from_str')
        return Root(self.w, d, f['key'], []).explore()

    def g_disconnect_from(self):
        """<Disconnect as From<Error>>::from of the agent's error"""
        d, f = self.trait_fn('Disconnect', 'From', 'from', crate='haproxy_spoa')
        return Root(self.w, d, f['key'], [sym('param', 'err')]).explore()

    def acker(self, name):
        v = self.built('Acker', 'new', crate='haproxy_spoa')
        return self.on_self('Acker', name, 'haproxy_spoa', v.a[0][0]).explore()

    def g_acker_complete(self):
        return self.acker('complete')

    def g_acker_abort(self):
        return self.acker('abort')

    def acker_machine(self):
        return AckerMachine(self)

    def streams(self):
        """every poll_next of the library, explored"""
        r = []
        for d, f in fn_of(self.w, lambda f: f['path'].split('::')[-1] == 'poll_next'):
            ty = strip_generics(str(f.get('self') or '')).split('::')[-1]
            k = 'stream ' + ty
            if k not in self.graphs:
                self.graphs[k] = Root(self.w, d, f['key']).explore()
            r.append((ty, self.graphs[k]))
        return r

    def notify_param(self, g):
        return NotifyParam(g)

    def g_dispatch(self):
        v = self.built('Dispatcher', 'new', crate='haproxy_spoa')
        return self.on_self('Dispatcher', 'recieve_messages', 'haproxy_spoa', v).explore()

    def g_processor(self):
        d, f = self.stream_fn('Processor')
        return Root(self.w, d, f['key']).explore()

    def g_messages(self):
        d, f = self.stream_fn('Messages')
        return Root(self.w, d, f['key']).explore()

    def stream_fn(self, ty):
        r = [(d, f) for d, f in fn_of(self.w, lambda f: f['path'].split('::')[-1] == 'poll_next'
                                      and strip_generics(str(f.get('self') or '')).split('::')[-1] == ty)]
        if not r:
            raise Missing('no Stream for ' + ty)
        return r[0]

    def g_agent(self):
        d, f = self.method('Agent', 'serve', 'haproxy_spoa')
        return poll_root(self.w, d, f['key'], None, anchors=AGENT_ANCHORS).explore()

    def spawned(self):
        """the coroutines the agent runs as tasks"""
        r = []
        for n in self.get('agent').nodes:
            for evs, m in n.out:
                for e in evs:
                    if e[0] == 'SPAWN':
                        for x in vwalk(e[1]):
                            if x.t == 'cor' and x not in r:
                                r.append(x)
        return r

    def g_task(self):
        cs = self.spawned()
        if len(cs) != 1:
            raise Missing('the agent spawns %d kinds of tasks' % len(cs))
        return cor_root(self.w, self.by['haproxy_spoa'], cs[0], anchors=AGENT_ANCHORS).explore()

    def g_agent_shutdown(self):
        d, f = self.method('Agent', 'shutdown', 'haproxy_spoa')
        return Root(self.w, d, f['key']).explore()

    def g_builder(self):
        d, f = self.method('Builder', 'make_service', 'haproxy_spoa')
        return Root(self.w, d, f['key']).explore()

    def g_builder_new(self):
        d, f = self.method('Builder', 'new', 'haproxy_spoa')
        return Root(self.w, d, f['key']).explore()

    def setters(self):
        """methods of the builder that return a builder"""
        r = []
        for d, f in fn_of(self.w, lambda f: strip_generics(str(f.get('self') or '')).split('::')[-1] == 'Builder' and f.get('impl_of') in (None, '')):
            if d.crate == 'haproxy_spoa':
                r.append((d, f))
        return r

    def setter(self, d, f):
        k = 'setter ' + f['key']
        if k not in self.graphs:
            self.graphs[k] = Root(self.w, d, f['key']).explore()
        return self.graphs[k]

    def built(self, selfty, ctor, args=None, crate=None):
        """memory holding what a constructor returns for unknown arguments"""
        d, f = self.method(selfty, ctor, crate)
        r = Root(self.w, d, f['key'], args)
        ends = []
        work = [r.st]
        while work:
            s = work.pop()
            for x in r.ip.run(s):
                if x.end is None:
                    work.append(x)
                elif x.end[0] == 'return':
                    ends.append(x)
        if not 1 <= len(ends) <= 8:
            raise Abort('%s::%s has %d outcomes' % (selfty, ctor, len(ends)))
        vs = [r.ip.snap(e, e.end[1]) for e in ends]
        v = vs[0]
        for w in vs[1:]:
            v = either(v, w)
        return v

    def g_serve(self):
        conn = self.built('Connection', 'new', crate='haproxy_spoa')
        d, f = self.method('Connection', 'serve', 'haproxy_spoa')
        loc = ('t', 'conn')
        r = poll_root(self.w, d, f['key'], [mk('ref', loc, ())], anchors=SERVE_ANCHORS, mem={loc: conn})
        return r.explore(max_nodes=40000)


class Outcome:
    def __init__(self, evs, result, value, panic):
        self.evs, self.result, self.value, self.panic = evs, result, value, panic


class AckerMachine:
    """the acker as a state machine: its methods run one after another on one value"""

    def __init__(self, T):
        self.T = T
        self.loc = ('t', 'self')
        v = T.built('Acker', 'new', crate='haproxy_spoa')
        a = v.a[0][0]
        if a.t != 'adt' or a.a[0].split('::')[-1] != 'Acker':
            raise Missing('Acker::new does not return an acker and a receiver')
        self.initial = a
        rx = v.a[0][1]
        self.sender = None
        for x in vwalk(a):
            if x.t == 'op' and x.a[0] == 'otx' and len(rx.a) > 1 and x.a[1] == rx.a[1]:
                self.sender = x
        if self.sender is None:
            raise Missing('the acker does not hold the sender of the receiver handed out')
        d, f = T.method('Acker', 'new', 'haproxy_spoa')
        b = T.w.body(*T.w.find(d, f['key']))
        nm = [b.names.get(str(i + 1)) for i in range(b.argc)]
        self.sid, self.fid = [Root(T.w, d, f['key']).vals[i] for i in (0, 1)]
        self.functions = set()
        self.cache = {}

    def argnames(self, m):
        return {'set_var': ('scope', 'name', 'value'), 'unset_var': ('scope', 'name')}.get(m, ())

    def outcomes(self, r):
        g = r.explore()
        self.functions |= set(r.ip.covered)
        out = []
        for n in g.nodes:
            if n.end is None:
                continue
            evs = []
            x = n
            while x.pred is not None:
                x, e = x.pred
                evs = list(e) + evs
            out.append((n, evs))
        # every distinct way to an end
        res = []
        ends = {n.id: n for n, e in out}
        root = g.nodes[0]
        work = [(root, ())]
        steps = 0
        while work:
            n, evs = work.pop()
            steps += 1
            if steps > 2000:
                raise Abort('too many ways through the acker')
            if n.end is not None:
                v = n.st.mem.get(self.loc)
                if v is not None:
                    v = r.ip.snap(n.st, v)
                res.append(Outcome(evs, n.end[1] if n.end[0] == 'return' else mk('i', 0), v, n.end[0] == 'panic'))
                continue
            for e, m in n.out:
                work.append((m, evs + tuple(e)))
        return res

    def call(self, m, v, args):
        k = (m, v, tuple(args))
        if k not in self.cache:
            d, f = self.T.method('Acker', m, 'haproxy_spoa')
            r = Root(self.T.w, d, f['key'], [mk('ref', self.loc, ())] + list(args), mem={self.loc: v})
            self.cache[k] = self.outcomes(r)
        return self.cache[k]

    def drop(self, v):
        k = ('drop', v)
        if k not in self.cache:
            d = self.T.by['vmodels']
            ks = [x for x in d.bodies if strip_generics(x).endswith('end_of_life')]
            r = Root(self.T.w, d, ks[0], [v])
            self.cache[k] = self.outcomes(r)
        return self.cache[k]


class NotifyParam:
    """the parts of the notification a function is given"""

    def __init__(self, g):
        self.fields = None
        for p, a in ADTS.items():
            if p.endswith('haproxy::Notify') or p.split('::')[-1] == 'Notify':
                self.fields = a['variants'][0]['fields']
        if self.fields is None:
            raise Missing('no notification type')
        self.v = g.root.vals[1]

    def value(self, name):
        if name not in self.fields:
            raise Missing('a notification has no ' + name)
        i = self.fields.index(name)
        return mk("fld", self.v, None, i)


def summary(g, n=12, w=200):
    import collections
    ip = g.root.ip
    print('nodes', len(g.nodes), 'edges', g.edges, 'steps', ip.steps, 'unmodelled', ip.unmodelled, 'cut', ip.cut)
    c = collections.Counter(str(x.end)[:w] for x in g.nodes if x.end)
    for k, v in c.most_common(n):
        print('  ', v, k)


def points(g, npts=6, nv=8, w=90):
    import collections
    c = collections.defaultdict(list)
    for n in g.nodes:
        if n.end is None:
            c[tuple((x.fid, x.body.path.split('::')[-1] if not x.body.path.endswith('}') else '::'.join(x.body.path.split('::')[-2:]), x.bb) for x in n.st.fr)].append(n)
    for k, v in sorted(c.items(), key=lambda x: -len(x[1]))[:npts]:
        print(len(v), ' > '.join('%d:%s@%d' % x for x in k)[-200:])
        vary = collections.defaultdict(collections.Counter)
        for n in v:
            for kk, x in n.st.mem.items():
                vary[str(kk)[-70:]][x] += 1
            for kk, x in n.st.facts.items():
                vary['F ' + show(kk)[-150:]][str(x)] += 1
        for kk, cc in sorted(vary.items(), key=lambda x: (-len(x[1]), -len(x[0])))[:nv]:
            print('    ', len(cc), kk, ' | '.join((show(z) if not isinstance(z, str) else z)[:w] for z in list(cc)[:3]))


if __name__ == '__main__':
    import sys, time
    T = Targets(['/tmp/mo/haproxy_spop.json', '/tmp/mo/haproxy_spoa.json', '/tmp/mo/vmodels.json'])
    for nm in sys.argv[1:]:
        t = time.time()
        print('=====', nm)
        import roots
        try:
            summary(T.get(nm))
        except Abort as e:
            print('ABORT', e)
            roots.LAST.ip.graph.root = roots.LAST
            summary(roots.LAST.ip.graph)
            points(roots.LAST.ip.graph)
        print('   %.1fs' % (time.time() - t))
