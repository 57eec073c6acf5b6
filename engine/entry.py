"""Entry states: one abstract state per public function (and per handle drop) that stands for every call from any
history that satisfies the representation invariant (spec.py)."""
from vals import *
from dom import Lin, const, atom, half, Facts
from interp import Interp, State, ZERO, ONE
from models import NONE, some
from spec import Spec, at

KINDS = {'RcSlice': 'shared', 'ArcSlice': 'shared', 'WeakSlice': 'weak', 'RcSliceMut': 'mut', 'ArcSliceMut': 'mut',
         'RcSliceMutIter': 'mutiter', 'ArcSliceMutIter': 'mutiter', 'RcSliceMutParts': 'mutparts', 'ArcSliceMutParts': 'mutparts',
         'RcSliceParts': 'parts', 'ArcSliceParts': 'parts'}
CONSUMER = {'mutiter': ('IntoIterator', 'into_iter')}

def short(s): return s.rsplit('::', 1)[-1]

class Arg:
    __slots__ = ('kind', 'node', 'ref', 'obj', 'val', 'ty', 'base', 'buf', 'len', 'fam', 'n')
    def __init__(self, **k):
        for s in Arg.__slots__: setattr(self, s, k.get(s))

class Ctx:
    """analysis context: one program, one item configuration"""
    def __init__(self, prog, zst=False):
        self.pr = prog; self.spec = Spec(prog); self.it = Interp(prog, zst, self.spec); self.spec.it = self.it
        self.zst = zst
        self._root = {}
    def handle_kind(self, ty):
        t = self.pr.t(ty)
        if t['k'] == 'adt' and t['local']: return KINDS.get(short(t['n']))
        return None
    def fam(self, ty):
        n = self.pr.t(ty)['n']
        return 'arc' if '::arc::' in n else 'rc'
    def find_root(self, tyname, name, trait=None):
        """public function `name` of the (qualified) type"""
        for r in self.pr.roots:
            if r.get('self_name') == tyname and r['name'] == name and (trait is None or short(r.get('trait') or '') == trait): return r
        return None
    # ---------------------------------------------------------------- state building
    def fresh_node(self, st, n, fam):
        buf = 'B' + n
        cap, ln = at('cap', n), at('len', n)
        off = ZERO if self.zst else at('off', n)
        if getattr(self, 'fixlen', None) is not None: cap, off, ln = self.fixlen + 3, ZERO if self.zst else ONE, self.fixlen
        st.bufs[buf] = {'cap': cap, 'status': 'live', 'new': False}
        if not self.zst: st.assume_ge0(cap - off - ln)
        st.x.setdefault('entrynode', n)
        self.spec.mknode(st, n, fam, buf, off, ln)
        if fam == 'rc': st.assume_ge0(at('k', buf))
        return buf
    def make(self, st, ty, i, nodes):
        """abstract value of an argument of type ty; returns Arg"""
        pr = self.pr; t = pr.t(ty); ref = None; base = ty
        if t['k'] == 'ref':
            ref = 'mut' if t.get('m') or t.get('mut') or t['s'].startswith('&mut') else 'shared'
            base = t['t']; t = pr.t(base)
        k = self.handle_kind(base)
        a = Arg(ref=ref, ty=ty, base=base, kind=k)
        if k in ('shared', 'weak', 'mut'):
            n = a.node = str(len(nodes)); nodes.append(n); a.fam = self.fam(base)
            a.buf = self.fresh_node(st, n, a.fam); a.len = getattr(self, 'fixlen', None) or at('len', n)
            role = 'C' if k == 'mut' else 'H'
            if a.fam == 'rc':
                if k == 'shared':
                    st.assume_ge0(at('r', n) - 1); st.assume_eq0(at('a', n) - 1); st.assume_eq0(at('b', n) - 1)
                elif k == 'weak':
                    st.assume_ge0(at('w', n) - 1); st.assume_eq0(at('b', n) - 1)
            if k == 'weak': st.x['weakentry'] = n
            if k == 'shared': st.x[('held', n)] = True
            v = Agg(0, tuple(self.spec.build(st, ft, role, n, fn, base) for fn, ft in pr.fields(base)))
            a.val = v
        elif t['k'] == 'int': a.kind = 'int'; v = a.val = atom(('arg', i))
        elif t['k'] == 'adt' and t.get('box') and pr.t(t['args'][0])['k'] == 'slice':
            a.kind = 'box'; n = a.node = 'x%d' % i; a.buf = 'B' + n; a.len = at('len', n)
            st.bufs[a.buf] = {'cap': a.len, 'status': 'live', 'new': False, 'arg': True}
            v = a.val = BxS(a.buf, a.len)
        elif t['k'] == 'adt' and short(t['n']) == 'Vec':
            a.kind = 'vec'; n = a.node = 'x%d' % i; a.buf = 'B' + n; a.len = at('len', n)
            cap = at('cap', n); st.assume_ge0(cap - a.len)
            st.bufs[a.buf] = {'cap': cap, 'status': 'live', 'new': False, 'arg': True}
            v = a.val = Vc(IP(a.buf, ZERO), a.len, cap)
        elif k is not None:
            raise Undecided('argument of type %s needs a prelude' % t['s'])
        else: a.kind = 'user'; v = a.val = Opq('user', ('arg', i))
        return self.wrap(st, a, i, v)
    def wrap(self, st, a, i, v):
        if a.ref:
            o = ('A', i); st.mem[o] = v
            st.meta[o] = M('arg', None, a.base, None, 1, ZERO, 0, 'live', None, True, False, '')
            a.obj = o; a.val = P(o, ())
        else: a.val = v
        return a
    def start(self, st, root, args):
        st.x['args'] = tuple(args)
        self.it.push(st, root['key'], [a.val for a in args], None, root['out_ty'], None, 'continue')
        return st
    # ---------------------------------------------------------------- sub-runs on a completed state
    def sub(self, st, key, args, panics=False):
        """run a function on a copy of st (environment quiet); list of (state, result)"""
        s = st.clone(); s.frames = []; s.result = None; s.exitk = None; s.unwinding = False; s.steps = 0; s.panics = 0
        s.x['quiet'] = True; s.x.pop('uw', None)
        self.it.push(s, key, args, None, None, None, 'continue')
        return self.collect(s, panics)
    def sub_drop(self, st, v, ty):
        s = st.clone(); s.frames = []; s.result = None; s.exitk = None; s.unwinding = False; s.steps = 0; s.panics = 0
        s.x['quiet'] = True; s.x.pop('uw', None)
        o = ('A', 'drop'); s.mem[o] = v
        s.meta[o] = M('arg', None, ty, None, 1, ZERO, 0, 'live', None, True, False, '')
        self.it.push_tasks(s, [('drop', P(o, ()), ty)])
        return self.collect(s, False)
    def collect(self, s, panics):
        out = []; p0 = self.spec.probing; a0 = self.it.allow_panics
        self.spec.probing = True; self.it.allow_panics = panics
        try: stats = self.it.run(s, lambda x: out.append(x))
        finally: self.spec.probing = p0; self.it.allow_panics = a0
        if stats['undecided']: raise Undecided('probe: %s' % (stats['undecided'][0],))
        return out, stats['viol']
