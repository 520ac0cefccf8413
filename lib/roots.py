"""Roots: abstract initial states for the functions the rules look at."""
from engine import *
from models import MODELS, ADTS as _A, I, sym, mk, op, adt


def load(paths):
    w = World([Dump(p) for p in paths])
    return w


def fn_of(world, pred):
    """(dump, fn record) of the functions satisfying pred(fn)"""
    return [(d, f) for d in world.dumps for f in d.fns if pred(f)]


def by_suffix(world, *suffixes):
    r = []
    for d in world.dumps:
        for f in d.fns:
            if f['path'].endswith(suffixes):
                r.append((d, f))
    return r


LAST = None


class Root:
    """an interpreter set up at the entry of one function"""

    def __init__(self, world, dump, key, args=None, anchors=None, mem=None, models=None):
        self.world = world
        self.ip = Interp(world, models or MODELS, anchors or [])
        fb = world.find(dump, key)
        if fb is None:
            raise Abort('no MIR for ' + key)
        self.dump, self.key = fb
        self.body = world.body(*fb)
        self.st = St()
        self.st.mem = dict(mem or {})
        self.args = args
        b = self.body
        vals = []
        for i in range(b.argc):
            ty = b.dump.types[b.locals[i + 1]]
            v = None
            if args is not None and i < len(args):
                v = args[i]
            if v is None:
                v = sym('param', b.names.get(str(i + 1)) if isinstance(b.names, dict) else str(i + 1))
                r = ty_range(ty)
                if r:
                    hint(v, *r)
            vals.append(v)
        self.vals = vals
        fid = self.ip.fid(('root', b.key))
        self.ip.callbb = 0
        for i, v in enumerate(vals):
            self.st.mem[('l', fid, i + 1)] = v
        self.st.fr = (Frame(fid, b, 0, None),)

    def explore(self, **kw):
        global LAST
        LAST = self
        g = explore(self.ip, self.st, **kw)
        g.root = self
        return g


def poll_root(world, dump, key, args, anchors=None, mem=None, models=None):
    """root that polls the coroutine an async fn returns, until it is ready"""
    r = Root(world, dump, key, args, anchors, mem, models)
    # run the async fn itself (it only builds the coroutine)
    ends = []
    work = [r.st]
    while work:
        s = work.pop()
        for x in r.ip.run(s):
            if x.end is not None:
                ends.append(x)
            else:
                work.append(x)
    ends = [e for e in ends if e.end[0] == 'return']
    if len(ends) != 1:
        raise Abort('async fn %s has %d outcomes' % (key, len(ends)))
    s = ends[0]
    v = s.end[1]
    s.end = None
    s.evs = ()
    loc = ('t', 'root')
    s.mem[loc] = v
    s.fr = ()
    r.ip.callbb = 0
    while v.t == 'adt' and v.a[0].endswith('pin::Pin'):
        v = v.a[2][0]
    proj = ()
    if v.t == 'box':
        v = v.a[0]
        s.mem[loc] = v
    if v.t != 'cor':
        raise Abort('%s does not return a coroutine but %r' % (key, v))
    r.ip.poll_cor(s, loc, (), None)
    r.st = s
    return r


def cor_root(world, dump, cor, anchors=None, mem=None, facts=None, models=None):
    """root that polls a coroutine value (a spawned task)"""
    ip = Interp(world, models or MODELS, anchors or [])
    s = St()
    s.mem = dict(mem or {})
    loc = ('t', 'root')
    s.mem[loc] = cor
    ip.callbb = 0
    ip.poll_cor(s, loc, (), None)

    class R:
        pass
    r = Root.__new__(Root)
    r.world, r.ip, r.st, r.dump = world, ip, s, dump
    r.vals = []
    r.body = s.fr[0].body
    return r


def dump_graph(g, maxn=40, evs=True):
    for n in g.nodes[:maxn]:
        loc = '%s' % (n.end,) if n.end else ' > '.join('%s@%d' % (f.body.path.split('::')[-1] if not f.body.path.endswith('}') else '::'.join(f.body.path.split('::')[-2:]), f.bb) for f in n.st.fr[-3:])
        print('N%d %s' % (n.id, loc[:300]))
        for ev, m in n.out:
            print('    -> N%d  %s' % (m.id, '; '.join(str(e) for e in ev)[:1500]))


if __name__ == '__main__':
    import sys, re
    w = load(['/tmp/mo/haproxy_spop.json', '/tmp/mo/haproxy_spoa.json', '/tmp/mo/vmodels.json'])
    for d, f in fn_of(w, lambda f: re.search(sys.argv[1], f['key'])):
        print('=====', f['key'])
        try:
            if f.get('async'):
                r = poll_root(w, d, f['key'], None)
            else:
                b = w.body(*w.find(d, f['key']))
                args = []
                mem = {}
                for i in range(b.argc):
                    t = b.dump.types[b.locals[i + 1]]
                    nm = b.names.get(str(i + 1)) if isinstance(b.names, dict) else None
                    if nm in ('buf', 'b'):
                        rem = hint(sym('param', 'rem'), 0, (1 << 63) - 1)
                        bv = mk('buf', sym('param', 'buf'), rem)
                        if t['k'] == 'ref':
                            mem[('t', 'buf')] = bv
                            bv = mk('ref', ('t', 'buf'), ())
                        args.append(bv)
                    else:
                        args.append(None)
                r = Root(w, d, f['key'], args, mem=mem)
            g = r.explore()
            dump_graph(g)
            print('nodes', len(g.nodes), 'edges', g.edges, 'steps', r.ip.steps, 'unmodelled', r.ip.unmodelled, 'cut', r.ip.cut)
        except Abort as e:
            print('ABORT', e)
