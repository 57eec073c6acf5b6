"""Path-sensitive abstract interpreter for MIR.  A State abstracts a set of executions: abstract objects on
the heap, ownership tokens per object, linear facts over symbolic lengths/offsets/counts, and a trace of the
effects the properties talk about (items dropped, buffers freed, counts tested, orderings used ...)."""
import re, time
from vals import *
from dom import Lin, const, atom, half, low_bit, Facts, mk, U64

TRANSPARENT = {'NonNull', 'Unique', 'Cell', 'UnsafeCell', 'ManuallyDrop', 'MaybeUninit', 'MaybeDangling', 'Atomic', 'AtomicPtr', 'Wrapping'}
ZERO, ONE = Lin(0), Lin(1)
MAXSTEPS = 60000

PARAM = re.compile(r'<[A-Z][A-Z0-9]? as |[A-Z][A-Z0-9]?::')
UNITPAY = re.compile(r'::(\w+)\(\(\)\)$')

class Frame:
    __slots__ = ('kind', 'key', 'body', 'bb', 'i', 'fid', 'dest', 'dty', 'tgt', 'uw', 'tasks', 'unwinding', 'visits', 'def_', 'local')
    def copy(self):
        f = Frame.__new__(Frame)
        f.kind = self.kind; f.key = self.key; f.body = self.body; f.bb = self.bb; f.i = self.i; f.fid = self.fid; f.dest = self.dest; f.dty = self.dty
        f.tgt = self.tgt; f.uw = self.uw; f.tasks = self.tasks; f.unwinding = self.unwinding; f.visits = self.visits; f.def_ = self.def_; f.local = self.local
        return f

class State:
    __slots__ = ('frames', 'mem', 'meta', 'facts', 'trace', 'ctr', 'x', 'bufs', 'unwinding', 'panics', 'result', 'steps', 'exitk')
    def __init__(self):
        self.frames = []; self.mem = {}; self.meta = {}; self.facts = Facts(); self.trace = None; self.ctr = 0
        self.x = {}          # ghost facts: nodes, flags (immutable values only)
        self.bufs = {}; self.unwinding = False; self.panics = 0; self.result = None; self.steps = 0; self.exitk = None
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.meta = dict(self.meta); s.facts = self.facts
        s.trace = self.trace; s.ctr = self.ctr; s.x = dict(self.x); s.bufs = dict(self.bufs); s.unwinding = self.unwinding
        s.panics = self.panics; s.result = self.result; s.steps = self.steps; s.exitk = self.exitk
        return s
    def ev(self, *e): self.trace = (e, self.trace)
    def events(self):
        out, t = [], self.trace
        while t is not None: out.append(t[0]); t = t[1]
        out.reverse(); return out
    def fresh(self, hint):
        self.ctr += 1
        return '%s%d' % (hint, self.ctr)
    # facts
    def assume_ge0(self, l):
        f = self.facts.add_ge0(l)
        if f is None: return False
        self.facts = f; return True
    def assume_eq0(self, l):
        f = self.facts.add_eq0(l)
        if f is None: return False
        self.facts = f; return True
    def assume_ne0(self, l):
        f = self.facts.add_ne0(l)
        if f is None: return False
        self.facts = f; return True

def free(v):
    """either value can really occur: an answer of user code, an order of addresses"""
    if isinstance(v, Opq):
        if v.tag in ('user', 'sliceop', 'fmt', 'fmtb'): return True
        if v.tag == 'cmp' and any(isinstance(a, (P, IP)) for a in v.args[1:]): return True
        return any(free(a) for a in v.args) if isinstance(v.args, tuple) else free(v.args)
    return isinstance(v, Agg) and any(free(a) for a in v.fs)
import re
NAMED = re.compile(r"'[A-Za-z_]+(\d+)'")
def is_sz(l): return bool(l.t) and l.c == 0 and all(isinstance(a, tuple) and a[0] == 'sz' for a, _ in l.t)
def strip_sz(l):
    r = ZERO
    for a, k in l.t: r = r + (const(k) if a[1] == 1 else atom(a[1]).scale(k))
    return r
def szmul(l):
    r = ZERO
    if l.c: r = r + Lin(0, ((('sz', 1), l.c),))
    for a, k in l.t: r = r + atom(('sz', a)).scale(k)
    return r
def nz(l): return strip_sz(l) if is_sz(l) else l

class Interp:
    def __init__(self, prog, zst=False, hooks=None):
        self.pr = prog; self.zst = zst; self.hooks = hooks
        self.sz = ZERO if zst else Lin(0, ((('sz', 1), 1),))
        self.models = {}; self.undo = []
        import models
        models.install(self)
        self.nstates = 0; self.nsteps = 0; self.funcs = set()
        self.allow_panics = True
        self.path_cap = 20000; self.time_cap = 60.0

    # ------------------------------------------------------------ decisions
    def ge0(self, st, l):
        l = nz(l)
        r = st.facts.ge0(l)
        if r is None: raise Split([lambda s: s.assume_ge0(l), lambda s: s.assume_ge0(-l - 1)])
        return r
    def eq0(self, st, l):
        l = nz(l)
        r = st.facts.eq0(l)
        if r is None: raise Split([lambda s: s.assume_eq0(l), lambda s: s.assume_ne0(l)])
        return r
    def choose(self, st, key, n):
        """nondeterministic choice among n, fixed per key"""
        v = st.x.get(key)
        if v is None:
            def mkalt(i):
                def f(s): s.x[key] = i; return True
                return f
            raise Split([mkalt(i) for i in range(n)])
        return v
    def choice(self, st, hint, n):
        return self.choose(st, ('ch', hint, st.steps), n)

    # ------------------------------------------------------------ memory
    def set_tree(self, v, path, new):
        if not path: return new
        i = path[0]
        if not isinstance(v, Agg):
            if v is UNINIT: v = Agg(0, ())
            else: raise Undecided('write into %r' % (v,))
        fs = list(v.fs)
        while len(fs) <= i: fs.append(UNINIT)
        fs[i] = self.set_tree(fs[i], path[1:], new)
        return Agg(v.v, tuple(fs))
    def check_live(self, st, obj, what='access'):
        m = st.meta.get(obj)
        if m is not None and m.status == 'dead':
            raise Violation('uaf', '%s to freed %s' % (what, self.objname(st, obj)), obj=obj)
        t = st.x.get(('taint', obj))
        if t is not None: st.x.pop(('taint', obj)); self.hooks.tainted(self, st, obj, t)
    def objname(self, st, obj):
        m = st.meta.get(obj)
        if m is None: return str(obj)
        if self.hooks is not None and m.ty is not None:
            n = self.hooks.canonical(m.ty)
            if n: return n
        return self.pr.t(m.ty)['s'].split('<')[0].rsplit('::', 1)[-1] if m.ty is not None else str(obj)
    def load(self, st, ptr):
        if isinstance(ptr, P):
            self.check_live(st, ptr.obj)
            v = st.mem.get(ptr.obj, UNINIT)
            for n, i in enumerate(ptr.path):
                if isinstance(v, Lazy):
                    self.force(st, P(ptr.obj, ptr.path[:n]), v)
                    return self.load(st, ptr)
                if v is UNINIT: return UNINIT
                if not isinstance(v, Agg): raise Undecided('projection of %r' % (v,))
                v = v.fs[i] if i < len(v.fs) else UNINIT
            return v
        if isinstance(ptr, IP): return self.read_item(st, ptr)
        raise Undecided('load through %r' % (ptr,))
    def loadf(self, st, ptr):
        """load with laziness resolved"""
        v = self.load(st, ptr)
        while isinstance(v, Lazy):
            self.force(st, ptr, v)
            v = self.load(st, ptr)
        return v
    def force(self, st, ptr, v):
        """materialise a Lazy at ptr: single alternative in place, several by Split"""
        alts = self.hooks.expand(self, st, v)      # list of (refine fn | None, fn(state)->value)
        def mkalt(ref, val):
            def f(s):
                if ref is not None and ref(s) is False: return False
                self.poke(s, ptr, val(s)); return True
            return f
        raise Split([mkalt(r, w) for r, w in alts])
    def poke(self, st, ptr, v):
        st.mem[ptr.obj] = self.set_tree(st.mem.get(ptr.obj, UNINIT), ptr.path, v)
    def store(self, st, ptr, v):
        if isinstance(ptr, P):
            self.check_live(st, ptr.obj, 'write')
            if ptr.path:
                cur = st.mem.get(ptr.obj, UNINIT)
                p = ptr.path
                for n in range(len(p)):
                    if isinstance(cur, Lazy): self.force(st, P(ptr.obj, p[:n]), cur); return self.store(st, ptr, v)
                    if not isinstance(cur, Agg): break
                    cur = cur.fs[p[n]] if p[n] < len(cur.fs) else UNINIT
                if isinstance(cur, Lazy): self.force(st, ptr, cur)
                st.mem[ptr.obj] = self.set_tree(st.mem.get(ptr.obj, UNINIT), p, v)
            else:
                st.mem[ptr.obj] = v
            m = st.meta.get(ptr.obj)
            if m is not None:
                if m.tag is not None and not m.new: st.x[('mod', ptr.obj)] = True
                if m.kind == 'rc' and self.hooks is not None: self.hooks.on_store(self, st, ptr, v, m)
            return
        if isinstance(ptr, IP): return self.write_item(st, ptr, v)
        raise Undecided('store through %r' % (ptr,))

    def read_item(self, st, ptr):
        self.check_items(st, ptr.buf, ptr.off, ONE, 'read')
        st.ev('read', ptr.buf, ptr.off, self.site(st))
        return It(ptr.buf, ptr.off)
    def write_item(self, st, ptr, v):
        self.check_items(st, ptr.buf, ptr.off, ONE, 'write')
        if isinstance(v, It) and isinstance(v.buf, tuple) and v.buf[0] == 'cl':
            st.ev('moveitems', v.buf, v.off, ptr.buf, ptr.off, ONE, self.site(st)); return
        st.ev('write', ptr.buf, ptr.off, v, self.site(st))
    def check_items(self, st, buf, off, n, what):
        b = st.bufs.get(buf)
        if b is None or self.zst: return
        if st.facts.ge0(-n) is True: return          # empty
        if b['status'] == 'freed':
            if st.facts.ge0(n - 1) is not True:
                s2 = st.facts.add_ge0(n - 1)
                if s2 is None: return
            raise Violation('uaf', '%s of items after their buffer was freed' % what, extra=[n - 1])
        for l in (off, b['cap'] - off - n):
            if st.facts.ge0(l) is not True:
                f = st.facts.add_ge0(-l - 1)
                f = f and f.add_ge0(n - 1)
                if f is not None: raise Violation('oob', '%s of items [%r, +%r) outside their buffer' % (what, off, n), extra=[-l - 1, n - 1])

    # ------------------------------------------------------------ sites
    def site(self, st):
        for f in reversed(st.frames):
            if f.kind == 'mir' and f.local:
                b = f.body['blocks'][f.bb]
                sp = b[3]
                if f.i < len(b[0]): 
                    s = b[0][f.i]
                    if isinstance(s[-1], str): sp = s[-1]
                return (f.def_, sp)
        return ('', '')

    # ------------------------------------------------------------ places / operands
    def place(self, st, fr, pl):
        cur = P(('L', fr.fid, pl[0]), ()); ty = fr.body['locals'][pl[0]][0]
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.loadf(st, cur)
                t = self.pr.t(ty)
                if isinstance(v, Bx): cur = P(v.obj, ())
                elif isinstance(v, BxS): cur = SP(IP(v.buf, ZERO), v.len)
                elif isinstance(v, (P, IP, SP)): cur = v
                elif isinstance(v, Lin): cur = v
                elif isinstance(v, Opq): cur = v
                elif v is UNINIT: raise Undecided('deref of uninit')
                else: raise Undecided('deref of %r' % (v,))
                ty = self.pr.pointee(ty)
            elif k == '.':
                tn = self.pr.t(ty)
                trans = tn['k'] == 'pat' or (tn['k'] == 'adt' and (tn['n'].rsplit('::', 1)[-1] in TRANSPARENT or tn['box']))
                if not trans:
                    if isinstance(cur, P): cur = P(cur.obj, cur.path + (e[1],))
                    elif isinstance(cur, Opq): cur = Opq('field', (cur, e[1]))
                    else: raise Undecided('field of %r' % (cur,))
                ty = e[2]
            elif k == 'as': pass
            elif k in ('[]', '[c]'):
                if k == '[]': idx = self.loadf(st, P(('L', fr.fid, e[1]), ()))
                else: idx = const(e[1])
                if isinstance(cur, SP):
                    if k == '[c]' and e[3]: idx = cur.len - idx
                    b = cur.ptr
                    if isinstance(b, IP): cur = IP(b.buf, b.off if self.zst else b.off + idx)
                    elif isinstance(b, P) and idx.isconst(): cur = P(b.obj, b.path + (idx.c,))
                    elif isinstance(b, Lin) and self.zst: cur = IP('zst', ZERO)
                    else: raise Undecided('index %r' % (cur,))
                elif isinstance(cur, P) and isinstance(idx, Lin) and idx.isconst(): cur = P(cur.obj, cur.path + (idx.c,))
                else: raise Undecided('index %r' % (cur,))
                ty = self.pr.t(ty).get('t', ty)
            elif k == 'cast': ty = e[1]
            else: raise Undecided('projection %s' % k)
        return cur, ty
    def const_val(self, st, o):
        _, ty, val, s, pk = o
        t = self.pr.t(ty)
        if t['k'] == 'bool' or t['k'] == 'int' or t['k'] == 'char':
            if val is not None: return const(val)
            return self.sym_const(st, s)
        if pk is not None: return self.promoted(st, pk)
        if t['k'] in ('fndef',): return UNIT
        if t['k'] == 'adt':
            if t['ak'] == 'enum':
                vs = t.get('vs', [])
                if val is not None:
                    for i, v in enumerate(vs):
                        if v['d'] == val and not v['f']: return Agg(i, ())
                m = s.rsplit('::', 1)[-1]
                for i, v in enumerate(vs):
                    if v['n'] == m and not v['f']: return Agg(i, ())
                if 'None' in s:
                    for i, v in enumerate(vs):
                        if v['n'] == 'None': return Agg(i, ())
                if len(vs) == 2 and vs[0]['n'] == 'None' and val == 0: return Agg(0, ())
                m = UNITPAY.search(s)
                for i, v in enumerate(vs):
                    if m and v['n'] == m.group(1) and len(v['f']) == 1: return Agg(i, (UNIT,))
                return Opq('const', (s,))
            if t['pd']: return UNIT
            fs = self.pr.fields(ty)
            if all(self.pr.t(f[1])['k'] == 'adt' and self.pr.t(f[1])['pd'] for f in fs): return Agg(0, tuple(UNIT for _ in fs))
            return Opq('const', (s,))
        if t['k'] == 'tuple' and not t['ts']: return UNIT
        if t['k'] == 'closure' and not t['ts']: return UNIT
        return Opq('const', (s,))
    def sym_const(self, st, s):
        if 'IS_ZST' in s:
            if PARAM.match(s): return const(1 if self.zst else 0)
            return ZERO
        if PARAM.match(s) and 'SIZE' in s: return self.sz
        if PARAM.match(s) and 'ALIGN' in s: return atom('align')
        return Opq('const', (s,))
    def promoted(self, st, key):
        obj = ('S', key)
        if obj in st.mem: return st.mem[obj]
        b = self.pr.I.get(key, {}).get('body')
        if not b: return Opq('promoted', (key,))
        fr = Frame(); fr.kind = 'mir'; fr.key = key; fr.body = b; fr.fid = st.fresh('f'); fr.bb = 0; fr.i = 0; fr.local = False; fr.def_ = key
        try:
            for stn in b['blocks'][0][0]:
                if stn[0] == '=': self.assign(st, fr, stn)
            v = st.mem.get(('L', fr.fid, 0), UNINIT)
        except (Undecided, KeyError):
            v = Opq('promoted', (key,))
        st.mem[obj] = v
        return v
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'cp':
            p, ty = self.place(st, fr, o[1])
            return self.rd(st, p, True)
        if k == 'mv':
            p, ty = self.place(st, fr, o[1])
            v = self.rd(st, p, False)
            if isinstance(p, P) and p.obj[0] == 'L': self.kill(st, p)
            elif isinstance(p, P):
                # moved out of a box / aggregate behind a Box deref: the place is dead afterwards
                m = st.meta.get(p.obj)
                if m is not None and m.kind == 'box': self.kill(st, p)
            return v
        if k == 'k': return self.const_val(st, o)
        if k == 'rtchk': return ZERO
        raise Undecided('operand %s' % k)
    def kill(self, st, p):
        v = st.mem.get(p.obj)
        self.undo.append((p.obj, v))
        if not p.path: st.mem[p.obj] = UNINIT
        elif isinstance(v, Agg): st.mem[p.obj] = self.set_tree(v, p.path, UNINIT)
    def rd(self, st, p, forced):
        if isinstance(p, (P,)): return self.loadf(st, p) if forced else self.load(st, p)
        if isinstance(p, IP): return self.read_item(st, p)
        if isinstance(p, Lin):
            if self.zst: return It('zst', ZERO)
            raise Violation('uaf', 'read through a dangling or null pointer')
        if isinstance(p, Opq): return Opq('load', (p,))
        raise Undecided('read of %r' % (p,))

    # ------------------------------------------------------------ statements
    def assign(self, st, fr, s):
        v = self.rvalue(st, fr, s[2], s[1])
        p, ty = self.place(st, fr, s[1])
        if isinstance(p, (P, IP)): self.store(st, p, v)
        elif isinstance(p, Lin) and self.zst: st.ev('write', 'zst', ZERO, v, self.site(st))
        else: raise Undecided('assign to %r' % (p,))
    def rvalue(self, st, fr, r, dst):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            p, ty = self.place(st, fr, r[2])
            if isinstance(p, P) and self.pr.t(ty)['k'] == 'adt' and self.pr.name(ty) == 'Box' and False: pass
            return p
        if k == 'bin': return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un': return self.unop(st, r[1], self.operand(st, fr, r[2]))
        if k == 'cast': return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3])
        if k == 'discr':
            p, ty = self.place(st, fr, r[1])
            if isinstance(p, Opq): return Opq('discr', (p,))
            v = self.loadf(st, p)
            t = self.pr.t(ty)
            if isinstance(v, Opq): return Opq('discr', (v,))
            if v is UNINIT and t['k'] == 'adt' and self.pr.name(ty) == 'Option' and self.pr.t(self.pr.args(ty)[0])['k'] == 'never': return ZERO        # one value only
            if not isinstance(v, Agg): raise Undecided('discriminant of %r' % (v,))
            if t['k'] == 'adt': return const(t['vs'][v.v]['d'])
            return const(v.v)
        if k == 'agg':
            h = r[1]; vals = [self.operand(st, fr, x) for x in r[2]]
            if h[0] == 'adt':
                t = self.pr.t(h[1]); n = t['n'].rsplit('::', 1)[-1]
                if n in TRANSPARENT:
                    for v, (fn, ft) in zip(vals, self.pr.fields(h[1])):
                        tt = self.pr.t(ft)
                        if not (tt['k'] == 'adt' and tt['pd']): return v
                    return vals[0] if vals else UNIT
                return Agg(h[2], tuple(vals))
            if h[0] == 'rawptr':
                if isinstance(vals[1], Lin) and not isinstance(vals[0], SP): return SP(vals[0], vals[1])
                return vals[0]
            return Agg(0, tuple(vals))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            try: n = int(r[2].split('_')[0])
            except ValueError: n = 0
            return Agg(0, (v,) * n) if n <= 64 else Opq('repeat', ())
        if k == 'other':
            return Opq('rv', (r[1],))
        raise Undecided('rvalue %s' % k)
    def cast(self, st, kind, v, ty):
        t = self.pr.t(ty)
        if isinstance(v, Opq): return v
        if t['k'] == 'int':
            if isinstance(v, IP):
                if self.zst: return atom(('addr', v.buf))
                return atom(('addr', v.buf)) + szmul(v.off)
            if isinstance(v, P): return atom(('paddr', v))
            if isinstance(v, Lin): return self.narrow(st, v, t['s'])
            if isinstance(v, Agg): return const(v.v)
            return Opq('int', (v,))
        if isinstance(v, Lin) and ('Exposed' in kind or 'Transmute' in kind):
            if v.t and not self.zst:
                for a, kk in v.t:
                    if isinstance(a, tuple) and a[0] == 'addr' and kk == 1:
                        rest = v - atom(a)
                        if not rest.t and rest.c == 0: return IP(a[1], ZERO)
                        if is_sz(rest): return IP(a[1], strip_sz(rest))
                        raise Undecided('pointer from integer %r' % v)
            return v
        if 'Unsize' in kind:
            if isinstance(v, P):
                a = st.mem.get(v.obj)
                tgt = self.pr.pointee(ty)
                if tgt is not None and self.pr.t(tgt)['k'] == 'slice':
                    av = self.loadf(st, v)
                    if isinstance(av, Agg): return SP(v, const(len(av.fs)))
                return v
            return v
        if t['k'] in ('ptr', 'ref') or (t['k'] == 'adt'):
            if isinstance(v, SP):
                pt = self.pr.pointee(ty)
                if pt is not None and self.pr.t(pt)['k'] not in ('slice', 'str', 'dyn'):
                    if not (self.pr.t(pt)['k'] == 'adt' and 'slice' in str(self.pr.t(pt).get('s', ''))[:0]): return v.ptr
            return v
        return v
    BITS = {'u8': 8, 'i8': 7, 'u16': 16, 'i16': 15, 'u32': 32, 'i32': 31}
    def narrow(self, st, v, name):
        """conversion to a narrower integer type keeps the value, or loses a multiple of its modulus"""
        k = self.BITS.get(name)
        if k is None: return v
        mod = 1 << (8 * ((k + 7) // 8))
        if v.isconst():
            c = v.c % mod
            return const(c - mod if c >= (1 << k) else c)
        if any(isinstance(a, tuple) and a[0] in ('addr', 'paddr') for a in v.atoms()): return Opq('int', (v,))
        if self.ge0(st, v) and self.ge0(st, const((1 << k) - 1) - v): return v
        n = st.x['casts'] = st.x.get('casts', 0) + 1
        r = v - atom(('n', 'cast', n)).scale(mod)
        if not (st.assume_ge0(atom(('n', 'cast', n)) - 1) and st.assume_ge0(r) and st.assume_ge0(const((1 << k) - 1) - r)): raise Dead()
        return r
    def unop(self, st, op, v):
        if op == 'Not':
            if isinstance(v, Lin) and v.isconst() and v.c in (0, 1): return const(1 - v.c)
            if isinstance(v, Opq): return v.args[0] if v.tag == 'not' else Opq('not', (v,))
            raise Undecided('not of %r' % (v,))
        if op == 'PtrMetadata':
            if isinstance(v, SP): return v.len
            if isinstance(v, Opq): return Opq('meta', (v,))
            return UNIT
        if op == 'Neg' and isinstance(v, Lin): return -v
        raise Undecided('unop %s' % op)
    def notl(self, v, f=None):
        """bitwise not of a constant"""
        return const((U64 - 1) ^ v.c)
    def binop(self, st, op, a, b):
        if a is UNINIT or b is UNINIT: raise Undecided('uninitialised operand')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, SP) and isinstance(b, SP): a, b = a.ptr, b.ptr
            if isinstance(a, Agg) and isinstance(b, Agg) and not a.fs and not b.fs: a, b = const(a.v), const(b.v)
            if isinstance(a, IP) and isinstance(b, IP):
                if a.buf == b.buf: a, b = a.off, b.off
                elif op in ('Eq', 'Ne'): return const(0 if op == 'Eq' else 1) if not self.zst else Opq('cmp', (op, a, b))
            elif isinstance(a, P) and isinstance(b, P):
                if op == 'Eq': return const(1 if a == b else 0)
                if op == 'Ne': return const(0 if a == b else 1)
            elif isinstance(a, (IP, P)) and isinstance(b, Lin) or isinstance(b, (IP, P)) and isinstance(a, Lin):
                if op in ('Eq', 'Ne') and (a == ZERO or b == ZERO): return const(0 if op == 'Eq' else 1)
                return Opq('cmp', (op, a, b))
            if isinstance(a, Lin) and isinstance(b, Lin):
                if op == 'Eq': return const(1 if self.eq0(st, a - b) else 0)
                if op == 'Ne': return const(0 if self.eq0(st, a - b) else 1)
                if op == 'Lt': return const(1 if self.ge0(st, b - a - 1) else 0)
                if op == 'Le': return const(1 if self.ge0(st, b - a) else 0)
                if op == 'Gt': return const(1 if self.ge0(st, a - b - 1) else 0)
                return const(1 if self.ge0(st, a - b) else 0)
            return Opq('cmp', (op, a, b))
        if op == 'Offset':
            return self.ptr_add(st, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq('bin', (op, a, b))
        if not (isinstance(a, Lin) and isinstance(b, Lin)): raise Undecided('%s of %r, %r' % (op, a, b))
        base = op.replace('Unchecked', '').replace('WithOverflow', '')
        ov = None
        if base == 'Add':
            r = a + b
            if r.isconst(): ov = r.c >= U64; r = const(r.c % U64)
            elif any(isinstance(x, tuple) and x[0] == 'arg' for x in r.atoms()):
                ov = not self.ge0(st, const(U64 - 1) - r)
                if ov: r = r - U64
            else: ov = False
        elif base == 'Sub':
            r = a - b
            if r.isconst(): ov = r.c < 0; r = const(r.c % U64)
            else:
                ov = not self.ge0(st, r)
                if ov: r = r + U64
        elif base == 'Mul':
            if a.isconst(): r = b.scale(a.c)
            elif b.isconst(): r = a.scale(b.c)
            elif a == self.sz: r = szmul(b)
            elif b == self.sz: r = szmul(a)
            else: raise Undecided('nonlinear product')
            ov = False
            if r.isconst(): ov = r.c >= U64; r = const(r.c % U64)
        elif base == 'Div':
            if b.isconst() and b.c == 0: raise Dead()
            if b.isconst() and a.isconst(): r = const(a.c // b.c)
            elif b.isconst() and b.c & (b.c - 1) == 0: r = self.shr(a, b.c.bit_length() - 1)
            elif b == self.sz and (is_sz(a) or a == ZERO): r = strip_sz(a)
            else: raise Undecided('division %r / %r' % (a, b))
        elif base == 'Rem':
            if a.isconst() and b.isconst() and b.c: r = const(a.c % b.c)
            elif b.isconst() and b.c and b.c & (b.c - 1) == 0:
                k = b.c.bit_length() - 1; r = a - self.shr(a, k).scale(b.c)
            elif b == self.sz and (is_sz(a) or a == ZERO): r = ZERO
            else: raise Undecided('remainder')
        elif base == 'Shr':
            if not b.isconst(): raise Undecided('shift')
            r = self.shr(a, b.c % 64)
        elif base == 'Shl':
            if not b.isconst(): raise Undecided('shift')
            r = a.scale(1 << (b.c % 64))
            if r.isconst(): r = const(r.c % U64)
        elif base == 'BitAnd': r = self.bitand(st, a, b)
        elif base == 'BitOr':
            if a.isconst() and b.isconst(): r = const(a.c | b.c)
            elif a == ZERO: r = b
            elif b == ZERO: r = a
            else: raise Undecided('bitor')
        elif base == 'BitXor':
            if a.isconst() and b.isconst(): r = const(a.c ^ b.c)
            else: raise Undecided('bitxor')
        elif base == 'Cmp':
            d = self.binop(st, 'Lt', a, b)
            if d.c: return Agg(0, ())
            return Agg(1 if self.eq0(st, a - b) else 2, ())
        else: raise Undecided('binop ' + op)
        if 'WithOverflow' in op: return Agg(0, (r, const(1 if ov else 0)))
        return r
    def shr(self, a, k):
        for _ in range(k): a = half(a)
        return a
    def bitand(self, st, a, b):
        if a.isconst() and b.isconst(): return const(a.c & b.c)
        if a.isconst(): a, b = b, a
        if b.isconst():
            m = b.c
            if m == 0: return ZERO
            if m & (m + 1) == 0:           # low mask
                k = m.bit_length(); return a - self.shr(a, k).scale(1 << k)
            if m & (m - 1) == 0:           # single bit
                k = m.bit_length() - 1; h = self.shr(a, k); return low_bit(h).scale(m)
            if ((U64 - 1) ^ m) & ((U64 - 1) ^ m) + 1 == 0:    # high mask
                k = ((U64 - 1) ^ m).bit_length(); return self.shr(a, k).scale(1 << k)
            raise Undecided('bitand')
        d = a - b
        if d.isconst() and d.c in (1, -1):
            x = a if d.c == 1 else b
            k = self.ctz(x)
            if k is not None: return x - (1 << k)
        raise Undecided('bitand of symbolic values')
    def ctz(self, x):
        if x.c == 0: return None
        k = (x.c & -x.c).bit_length() - 1
        for _, c in x.t:
            if c % (1 << (k + 1)): return None
        return k
    def ptr_add(self, st, p, n, sub=False):
        if isinstance(n, Opq): raise Undecided('offset')
        if sub: n = -n
        while isinstance(n, Lin) and n.c >= U64 // 2: n = n - U64           # two's complement
        if isinstance(p, IP): return p if self.zst else IP(p.buf, p.off + n)
        if isinstance(p, SP): raise Undecided('offset of slice ptr')
        if isinstance(p, Lin):
            if self.zst: return p
            if n == ZERO: return p
            raise Undecided('offset of integer pointer')
        if isinstance(p, P) and n.isconst() and p.path:
            return P(p.obj, p.path[:-1] + (p.path[-1] + n.c,)) if n.c else p
        if isinstance(p, P) and n == ZERO: return p
        if isinstance(p, Opq): return Opq('off', (p, n))
        raise Undecided('pointer offset of %r' % (p,))

    # ------------------------------------------------------------ frames
    def push(self, st, key, args, dest, dty, tgt, uw):
        inst = self.pr.I[key]; b = inst['body']
        if len(st.frames) > 60: raise Undecided('call depth')
        f = Frame(); f.kind = 'mir'; f.key = key; f.body = b; f.bb = 0; f.i = 0; f.fid = st.fresh('f')
        f.dest = dest; f.dty = dty; f.tgt = tgt; f.uw = uw; f.tasks = None; f.unwinding = False; f.visits = {}
        f.def_ = inst['def']; f.local = bool(inst.get('local'))
        if f.local: self.funcs.add(f.def_)
        n = b['argc']
        if len(args) != n:
            # closures: untuple
            raise Undecided('arity of %s: %d vs %d' % (key, len(args), n))
        for j, a in enumerate(args): st.mem[('L', f.fid, j + 1)] = a
        st.frames.append(f)
    def push_tasks(self, st, tasks):
        f = Frame(); f.kind = 'task'; f.tasks = tuple(tasks); f.unwinding = False; f.fid = None; f.key = 'task'; f.body = None
        f.bb = f.i = 0; f.dest = f.dty = f.tgt = f.uw = None; f.visits = None; f.def_ = ''; f.local = False
        st.frames.append(f)
    def pop_locals(self, st, f):
        fid = f.fid
        for j in range(len(f.body['locals'])):
            st.mem.pop(('L', fid, j), None)
    def ret(self, st):
        f = st.frames[-1]
        v = st.mem.get(('L', f.fid, 0), UNINIT)
        rty = f.body['locals'][0][0]
        self.pop_locals(st, f)
        st.frames.pop()
        if f.dest is not None: self.store(st, f.dest, v)
        if st.frames:
            g = st.frames[-1]
            if g.kind == 'mir':
                if f.tgt is None: raise Dead()
                if f.tgt != 'stay': g.bb = f.tgt; g.i = 0
        else:
            st.result = v; st.exitk = 'return'
    def unwind(self, st):
        """begin or continue unwinding from the top frame (the callee has been popped)"""
        st.unwinding = True
        while st.frames:
            f = st.frames[-1]
            if f.kind == 'task':
                f.unwinding = True
                return
            uw = st.x.pop('uw', None)
            if uw is None: uw = 'continue'
            if isinstance(uw, int):
                f.bb = uw; f.i = 0; return
            if uw in ('terminate', 'unreachable'): raise Dead()
            self.pop_locals(st, f); st.frames.pop()
            st.x['uw'] = f.uw
        st.exitk = 'unwind'
    def panic(self, st, why, uw):
        if st.unwinding: raise Dead()         # abort
        st.panics += 1
        st.ev('panic', why, self.site(st))
        st.x['uw'] = uw
        self.unwind(st)
    def maybe_panic(self, st, why):
        """user code: choose between returning and unwinding; True = panics"""
        if not self.allow_panics or st.unwinding or st.panics or st.x.get('calm'): return False
        if self.choice(st, 'panic:' + why, 2) == 1:
            st.x['userpanic'] = True; return True
        return False

    def run(self, st, on_exit, budget=None):
        """explore all paths from st; on_exit(state) per completed path. Returns dict of counts."""
        t0 = time.time(); work = [st]; n = 0; stats = {'paths': 0, 'dead': 0, 'undecided': [], 'viol': []}
        while work:
            s = work.pop()
            n += 1
            if n > self.path_cap or time.time() - t0 > self.time_cap: stats['undecided'].append(('path budget exceeded', '')); break
            self.deadline = t0 + self.time_cap
            try:
                alts = self.run_path(s)
            except Violation as v:
                site = self.site(s)
                stats['viol'].append((v.kind, v.msg, site, s, v.kw)); stats['paths'] += 1
                continue
            except Dead:
                stats['dead'] += 1; continue
            except Undecided as u:
                stats['undecided'].append((str(u), self.site(s))); stats['paths'] += 1
                continue
            if alts is None:
                stats['paths'] += 1
                on_exit(s)
            else:
                work.extend(reversed(alts))
        return stats
    def run_path(self, s):
        while s.frames:
            top = s.frames[-1]
            fast = top.kind == 'mir' and top.i < len(top.body['blocks'][top.bb][0])
            if fast: i0 = top.i; snap = (s.facts, s.trace, s.ctr, s.unwinding, s.panics, s.steps)
            else: snap = (list(s.frames), top.copy(), s.mem, s.meta, s.facts, s.trace, s.ctr, s.x, s.bufs, s.unwinding, s.panics, s.steps)
            s.steps += 1; self.nsteps += 1
            if s.steps > MAXSTEPS or (s.steps & 255) == 0 and time.time() > self.deadline + 5: raise Undecided('step budget')
            self.undo = []
            if not fast:
                # calls and tasks may mutate several tables before they split
                s.mem = dict(s.mem); s.meta = dict(s.meta); s.x = dict(s.x); s.bufs = dict(s.bufs)
            try:
                self.step(s)
            except Split as sp:
                if fast:
                    # statements evaluate before they mutate, except that operands are moved out
                    for o, v in reversed(self.undo): s.mem[o] = v
                    top.i = i0
                    s.facts, s.trace, s.ctr, s.unwinding, s.panics, s.steps = snap
                else:
                    (s.frames, topc, s.mem, s.meta, s.facts, s.trace, s.ctr, s.x, s.bufs, s.unwinding, s.panics, s.steps) = snap
                    s.frames[-1] = topc
                out = []
                for a in sp.alts:
                    c = s.clone(); self.nstates += 1
                    try:
                        if a(c) is not False: out.append(c)
                    except Dead: pass
                    except Split: raise Undecided('nested split')
                if not out: raise Dead()
                return out
        return None
    def step(self, st):
        f = st.frames[-1]
        if f.kind == 'task': return self.step_task(st, f)
        b = f.body['blocks'][f.bb]
        if f.i < len(b[0]):
            s = b[0][f.i]
            k = s[0]
            if k == '=': self.assign(st, f, s)
            elif k == 'live': st.mem.pop(('L', f.fid, s[1]), None)
            elif k == 'dead': st.mem.pop(('L', f.fid, s[1]), None)
            elif k == 'setd': raise Undecided('set discriminant')
            elif k == 'copy':
                src, dst, n = [self.operand(st, f, x) for x in s[1:4]]
                self.movei(self, st, src, dst, n)
            f.i += 1
            return
        t = b[1]; k = t['k']
        if k == 'goto': self.jump(st, f, t['t'])
        elif k == 'switch':
            v = self.operand(st, f, t['d'])
            if isinstance(v, Agg) and not v.fs: v = const(v.v)
            if isinstance(v, Opq):
                # opaque boolean / discriminant: one choice per value, remembered
                neg = False
                if not free(v): raise Undecided('branch on %s' % v.tag)
                while v.tag == 'not': v = v.args[0]; neg = not neg
                n = len(t['ts']) + 1
                if self.pr.t(t['ty'])['k'] == 'bool':
                    c = self.choose(st, ('opq', v), 2)
                    c = (1 - c) if neg else c
                    for x, bb in t['ts']:
                        if x == c: return self.jump(st, f, bb)
                    return self.jump(st, f, t['o'])
                c = self.choose(st, ('opqi', v, f.bb, f.key), n)
                return self.jump(st, f, t['ts'][c][1] if c < len(t['ts']) else t['o'])
            if not isinstance(v, Lin): raise Undecided('switch on %r' % (v,))
            for x, bb in t['ts']:
                if self.eq0(st, v - x): return self.jump(st, f, bb)
            self.jump(st, f, t['o'])
        elif k == 'return': self.ret(st)
        elif k == 'resume':
            self.pop_locals(st, f); st.frames.pop()
            st.x['uw'] = f.uw
            if not st.frames: st.exitk = 'unwind'
            else: self.unwind(st)
        elif k in ('terminate', 'unreachable'): raise Dead()
        elif k == 'drop':
            p, ty = self.place(st, f, t['p'])
            f.bb = t['t']; f.i = 0
            if self.pr.needs_drop(t['ty']):
                self.push_tasks(st, [('drop', p, t['ty'], t['u'])])
                st.frames[-1].uw = t['u']
        elif k == 'assert':
            v = self.operand(st, f, t['c'])
            e = 1 if t['e'] else 0
            if isinstance(v, Opq):
                f.bb = t['t']; f.i = 0; return
            if v.c == e: self.jump(st, f, t['t'])
            else: self.panic(st, t['m'], t['u'])
        elif k == 'call': self.call(st, f, t)
        else: raise Undecided('terminator %s' % k)
    def jump(self, st, f, bb):
        if bb <= f.bb:
            n = f.visits = dict(f.visits)
            c = n[bb] = n.get(bb, 0) + 1
            if c in (5, 6, 7, 20, 21, 22):
                # nothing decided and nothing changed, but for what the round itself allocated: it goes on for ever
                if c in (5, 20): n[('ctr', bb)] = st.ctr
                else:
                    old = n.get(('round', bb)); new = n[('round', bb)] = self.snapshot(st, n[('ctr', bb)])
                    if old == new: raise Violation('endless', '%s goes round without end when nothing else happens' % f.def_.rsplit('::', 1)[-1])
            if n[bb] == 150: n[('mem', bb)] = (dict(st.mem), st.facts)
            if n[bb] > 200:
                m = n.get(('mem', bb))
                raise Undecided('%s in %s' % ('endless loop' if m is not None and m[0] == st.mem and m[1].cs == st.facts.cs else 'loop bound', f.def_))
        f.bb = bb; f.i = 0

    def snapshot(self, st, ctr):
        """the state up to the names of what was made after ctr"""
        def young(k): return any(int(m) > ctr for m in NAMED.findall(repr(k)))
        def canon(v): return NAMED.sub(lambda m: m.group(0) if int(m.group(1)) <= ctr else "'*'", repr(v))
        old = lambda d: {k: canon(v) for k, v in d.items() if not young(k)}
        x = {k: canon(v) for k, v in st.x.items() if not young(k)}
        return old(st.mem), {k: canon(m._replace(site=None)) for k, m in st.meta.items() if not young(k)}, old(st.bufs), x, st.facts.cs, st.panics, [(g.fid, g.bb) for g in st.frames]

    # ------------------------------------------------------------ calls
    def call(self, st, f, t):
        c = t['f']
        args = [self.operand(st, f, a) for a in t['a']]
        dest, dty = self.place(st, f, t['d'])
        self.invoke(st, c, args, dest, t['rt'], t['t'], t['u'])
    def finish(self, st, dest, v, tgt):
        """complete a modelled call in the current (caller) frame"""
        if dest is not None and tgt is not None:
            self.store(st, dest, v)
        g = st.frames[-1] if st.frames else None
        if g is not None and g.kind == 'mir':
            if tgt is None: raise Dead()
            if tgt != 'stay': g.bb = tgt; g.i = 0
    def invoke(self, st, c, args, dest, rt, tgt, uw):
        kind = c.get('kind')
        if kind == 'ptr': raise Undecided('call through pointer')
        if kind == 'ctor':
            name = c['def'].rsplit('::', 1)[-1]
            t = self.pr.t(rt)
            if self.pr.name(rt) in TRANSPARENT: return self.finish(st, dest, args[0], tgt)
            vi = 0
            for i, v in enumerate(t.get('vs', [])):
                if v['n'] == name: vi = i
            return self.finish(st, dest, Agg(vi, tuple(args)), tgt)
        name = c.get('res') or c['def']
        if self.hooks is not None:
            r = self.hooks.intercept(self, st, c, name, args, dest, rt, tgt, uw)
            if r is not None:
                if r is not True: self.finish(st, dest, r[0], tgt)
                return
        m = self.models.get(name) or self.models.get(c['def'])
        if m is not None:
            r = m(self, st, c, args, dest, rt, tgt, uw)
            if r is not None: self.finish(st, dest, r[0], tgt)
            return
        if kind == 'fnptrshim' and c.get('target'):
            a = args[1:]
            if len(a) == 1 and isinstance(a[0], Agg): a = list(a[0].fs)
            return self.invoke(st, c['target'], a, dest, rt, tgt, uw)
        if kind in ('item', 'closureonce'):
            key = c.get('key'); inst = self.pr.I.get(key)
            if inst is not None and inst.get('body'):
                if c.get('closure'):
                    a = [args[0]] + (list(args[1].fs) if isinstance(args[1], Agg) else [])
                    if len(args) > 1 and not isinstance(args[1], Agg): raise Undecided('closure args')
                    if kind == 'closureonce':
                        # by-value environment for a by-reference closure body
                        o = ('C', st.fresh('c')); st.mem[o] = args[0]; a[0] = P(o, ())
                        cty = c['args'][0] if c.get('args') else None
                        f = st.frames[-1]
                        self.push(st, key, a, dest, rt, tgt, uw)
                        return
                    return self.push(st, key, a, dest, rt, tgt, uw)
                return self.push(st, key, args, dest, rt, tgt, uw)
        r = self.user_call(st, c, name, args, dest, rt, tgt, uw)
        if r is not None: self.finish(st, dest, r[0], tgt)
    def call_value(self, st, fty, fval, args, dest, rt, tgt='stay', uw='continue'):
        """call a closure / fn item value of type fty with args"""
        t = self.pr.t(fty)
        if t['k'] == 'ref':
            return self.call_value(st, t['t'], self.loadf(st, fval) if not isinstance(fval, (Agg,)) else fval, args, dest, rt, tgt, uw)
        if t['k'] == 'fndef': return self.invoke(st, t['call'], list(args), dest, rt, tgt, uw)
        if t['k'] == 'closure':
            inst = self.pr.I.get(t['body'])
            if not inst or not inst.get('body'): raise Undecided('closure body')
            selfty = inst['body']['locals'][1][0]
            env = fval
            if self.pr.t(selfty)['k'] == 'ref' and not isinstance(fval, P):
                o = ('C', st.fresh('c')); st.mem[o] = fval; env = P(o, ())
            return self.push(st, t['body'], [env] + list(args), dest, rt, tgt, uw)
        raise Undecided('call of %s' % t['s'])
    def user_call(self, st, c, name, args, dest, rt, tgt, uw):
        """code outside the analysed crate without a model: user code when it is an unresolved trait method,
        otherwise not understood"""
        if c.get('kind') == 'unresolved' or c.get('kind') == 'virtual':
            for v in args: self.hand_over(st, v)
            if self.maybe_panic(st, name):
                self.panic(st, 'user code in ' + name, uw); return None
            st.ev('user', name, tuple(args), self.site(st))
            return (self.user_value(st, rt, (name, tuple(args), st.steps)),)
        if 'core::panicking' in name or name.startswith('core::option::expect_failed') or 'unwrap_failed' in name or tgt is None:
            self.panic(st, name, uw); return None
        raise Undecided('call to %s' % name)

    def hand_over(self, st, v):
        """what user code is given by value belongs to it from then on"""
        if isinstance(v, It): st.ev('handed', v.buf, v.off, ONE, self.site(st))
        elif isinstance(v, (Bx, BxS, Vc)) or isinstance(v, H) and v.obj is not None: raise Undecided('handles given to user code')
        elif isinstance(v, Agg):
            for x in v.fs: self.hand_over(st, x)
    def user_value(self, st, ty, what):
        """anything of the type"""
        t = self.pr.t(ty) if ty is not None else {'k': None}
        if t['k'] == 'tuple': return Agg(0, tuple(self.user_value(st, x, what + (i,)) for i, x in enumerate(t['ts'])))
        if t['k'] == 'adt' and what[0].endswith('Iterator::collect') and self.pr.name(ty) in ('Vec', 'Box') and isinstance(what[1][0], Opq):
            n = atom(('n', what[2])); b = self.new_buf(st, n); st.ev('create', b, ZERO, n, ('iter', what[1][0]))
            return Vc(IP(b, ZERO), n, n) if self.pr.name(ty) == 'Vec' else BxS(b, n)
        if t['k'] == 'adt' and self.pr.name(ty) == 'Option' and what[0].endswith(('::next', '::next_back', '::nth', '::last', '::size_hint')):
            if self.choice(st, ('user', what[2:]), 2):
                if what[0].endswith('::next'):
                    st.x['nexts'] = st.x.get('nexts', 0) + 1
                    if st.x['nexts'] > 5: raise Undecided('more than 5 items one by one')
                return Agg(1, (self.user_value(st, self.pr.args(ty)[0], what + ('some',)),))
            return Agg(0, ())
        if t['k'] in ('uint', 'int') and what[0].endswith('::size_hint'): return atom(('n', what[2:]))
        return Opq('user', what)

    # ------------------------------------------------------------ drop glue and other tasks
    def step_task(self, st, f):
        if not f.tasks:
            st.frames.pop()
            if f.unwinding:
                st.x['uw'] = f.uw if f.uw is not None else 'continue'
                if not st.frames: st.exitk = 'unwind'
                else: self.unwind(st)
            elif not st.frames: st.exitk = 'return'
            return
        t = f.tasks[0]
        f.tasks = f.tasks[1:]
        self.task(st, f, t)
    def more(self, f, tasks): f.tasks = tuple(tasks) + f.tasks
    def task(self, st, f, t):
        k = t[0]
        if k == 'drop': self.drop_place(st, f, t[1], t[2])
        elif k == 'rcdec': self.rc_dec(st, f, t[1], t[2])
        elif k == 'weakdec': self.weak_dec(st, t[1], t[2])
        elif k == 'rcfree':
            m = st.meta[t[1]]; st.meta[t[1]] = m._replace(status='dead')
        elif k == 'boxfree':
            m = st.meta[t[1]]; st.meta[t[1]] = m._replace(status='dead', lb=0)
        elif k == 'calldrop':
            self.push(st, t[1], [t[2]], ('L', None, None) and P(('C', st.fresh('u')), ()), None, 'stay', 'continue')
        elif k == 'items': self.drop_items(st, f, t[1], t[2], t[3])
        elif k == 'dealloc': self.dealloc(st, t[1], t[2])
        elif k == 'py': t[1](self, st, f, *t[2:])
        else: raise Undecided('task ' + k)
    def one_drop(self, st):
        st.x['drop1'] = st.x.get('drop1', 0) + 1
        if st.x['drop1'] > 4: raise Undecided('more than 4 items dropped one by one')
    def drop_items(self, st, f, buf, off, n):
        if not self.zst: self.check_items(st, buf, off, n, 'drop')
        if n == ONE: self.one_drop(st)
        st.ev('dropitems', buf, off, n, self.site(st))
        if st.facts.ge0(-n) is True: return                 # no item, no user code
        if self.maybe_panic(st, 'T::drop'):
            if not st.assume_ge0(n - 1): raise Dead()
            st.panics += 1; st.ev('panic', 'T::drop', self.site(st)); f.unwinding = True; st.unwinding = True
    def dealloc(self, st, ptr, cap):
        """free a T-buffer of capacity cap (items)"""
        if self.zst or st.facts.ge0(-cap) is True: return
        if self.eq0(st, cap): return
        if isinstance(ptr, IP):
            b = st.bufs.get(ptr.buf)
            if b is None: raise Undecided('free of unknown buffer')
            if b['status'] == 'freed': raise Violation('dfree', 'buffer freed twice')
            if st.facts.eq0(ptr.off) is not True: raise Violation('badfree', 'buffer freed at an address other than its start (offset %r)' % ptr.off, ne0=ptr.off)
            if st.facts.eq0(cap - b['cap']) is not True: raise Violation('badfree', 'buffer of %r items freed with the layout of %r items' % (b['cap'], cap), ne0=cap - b['cap'])
            b = dict(b); b['status'] = 'freed'; st.bufs[ptr.buf] = b
            st.ev('free', ptr.buf, self.site(st))
        elif isinstance(ptr, Lin): raise Violation('badfree', 'free of a dangling pointer')
        else: raise Undecided('free of %r' % (ptr,))
    def drop_place(self, st, f, p, ty):
        """drop the value of type ty at p; f is the current task frame"""
        t = self.pr.t(ty); k = t['k']
        if not self.pr.needs_drop(ty): return
        if isinstance(p, SP):
            if k == 'slice' and isinstance(p.ptr, IP): return self.drop_items(st, f, p.ptr.buf, p.ptr.off, p.len)
            if k == 'slice' and isinstance(p.ptr, Lin):
                if self.zst: return self.drop_items(st, f, 'zst', ZERO, p.len)
                if st.facts.eq0(p.len) is True: return
                if self.eq0(st, p.len): return
                raise Violation('uaf', 'drop of items through a dangling pointer')
            raise Undecided('drop of slice %r' % (p,))
        if isinstance(p, IP):
            return self.drop_items(st, f, p.buf, p.off, ONE)
        if isinstance(p, Opq): return
        if k == 'param':
            v = self.load(st, p)
            self.drop_val(st, f, v, ty); self.store_uninit(st, p)
            return
        v = self.load(st, p)
        if v is UNINIT: raise Undecided('drop of uninitialised place')
        if isinstance(v, Lazy) and v.kind in ('downw', 'samew', 'upw', 'up', 'upstruct'):
            self.poke(st, p, UNINIT); return         # releasing a bookkeeping reference nobody looked at has no effect of interest
        if isinstance(v, Lazy): v = self.loadf(st, p)
        if isinstance(v, Opq):
            if v.tag == 'slice': st.ev('drophandle', v.args, self.site(st)); return
            return
        if isinstance(v, (H, Bx, BxS, Vc, It)):
            return self.drop_val(st, f, v, ty)
        if isinstance(v, Dq):
            ety = self.pr.args(ty)[0]
            return self.more(f, [('drop', P(o, ()), ety) for o in v.items])
        if k == 'adt':
            if t['md']: return
            tasks = []
            if t.get('drop') and self.pr.I.get(t['drop'], {}).get('body') and t['local']:
                tasks.append(('calldrop', t['drop'], p))
            elif t.get('drop'):
                raise Undecided('drop of %s' % t['n'])
            if not isinstance(v, Agg): raise Undecided('drop of %r' % (v,))
            trans = self.pr.name(ty) in TRANSPARENT
            for i, (fn, fty) in enumerate(self.pr.fields(ty, v.v if t['ak'] == 'enum' else 0)):
                if self.pr.needs_drop(fty): tasks.append(('drop', p if trans else P(p.obj, p.path + (i,)), fty))
            return self.more(f, tasks)
        if k in ('tuple', 'closure'):
            tasks = []
            if not isinstance(v, Agg): raise Undecided('drop of %r' % (v,))
            for i, fty in enumerate(t['ts']):
                if self.pr.needs_drop(fty) and i < len(v.fs) and v.fs[i] is not UNINIT: tasks.append(('drop', P(p.obj, p.path + (i,)), fty))
            return self.more(f, tasks)
        if k == 'array': raise Undecided('drop of array')
        if k in ('dyn', 'alias', 'other'): return
        raise Undecided('drop of type %s' % t['s'])
    def store_uninit(self, st, p):
        pass
    def drop_val(self, st, f, v, ty):
        if isinstance(v, H):
            if v.obj is None: return
            self.more(f, [('rcdec' if v.kind == 'strong' else 'weakdec', v.fam, v.obj)])
        elif isinstance(v, It):
            self.one_drop(st)
            st.ev('dropitems', v.buf, v.off, ONE, self.site(st))
            if self.maybe_panic(st, 'T::drop'):
                st.panics += 1; st.ev('panic', 'T::drop', self.site(st)); f.unwinding = True; st.unwinding = True
        elif isinstance(v, Bx):
            self.check_live(st, v.obj, 'drop')
            m = st.meta[v.obj]
            self.more(f, [('drop', P(v.obj, ()), m.ty), ('boxfree', v.obj)])
        elif isinstance(v, BxS):
            self.more(f, ([('items', v.buf, ZERO, v.len)] if self.elems_need_drop(ty) else []) + [('dealloc', IP(v.buf, ZERO), v.len)])
        elif isinstance(v, Vc):
            ts = []
            if self.elems_need_drop(ty) and st.facts.eq0(v.len) is not True:
                if not isinstance(v.ptr, IP): raise Undecided('drop of Vec')
                ts.append(('items', v.ptr.buf, v.ptr.off, v.len))
            ts.append(('dealloc', v.ptr, v.cap))
            self.more(f, ts)
        elif isinstance(v, Opq): pass
        else: raise Undecided('drop of value %r' % (v,))

    def elems_need_drop(self, ty):
        """whether dropping a Box<[X]> or Vec<X> drops its elements (not those of MaybeUninit or ManuallyDrop)"""
        t = self.pr.t(ty) if ty is not None else None
        if t is None or t['k'] != 'adt' or self.pr.name(ty) not in ('Box', 'Vec'): return True
        a = self.pr.args(ty)[0]; e = self.pr.t(a)
        return self.pr.needs_drop(e['t'] if e['k'] == 'slice' else a)

    # ------------------------------------------------------------ reference counts
    def rc_dec(self, st, f, fam, obj):
        self.check_live(st, obj, 'release')
        m = st.meta[obj]
        if self.hooks is not None and self.hooks.on_release(self, st, f, fam, obj): return
        lb = m.lb - 1
        if lb < 0: raise Violation('overrelease', 'reference to %s released more often than it is held' % self.objname(st, obj), obj=obj)
        if m.strong is not None:
            if self.hooks is not None: self.hooks.on_count(st, obj)
            s = m.strong - 1
            z = True if lb == 0 and m.new and m.strong.isconst() else self.eq0(st, s)
            st.meta[obj] = m._replace(strong=s, lb=lb)
        else:
            z = False if lb > 0 else True if self.hooks is not None and self.hooks.exact(st, obj) else False if st.x.get('calm') and m.tag is not None else self.choice(st, ('zero', obj), 2) == 1
            st.meta[obj] = m._replace(lb=lb)
        st.ev('dec', obj, z, self.site(st))
        if z:
            if lb > 0: raise Violation('overrelease', '%s destroyed while still referenced' % self.objname(st, obj), obj=obj)
            st.meta[obj] = st.meta[obj]._replace(shared=False)
            if self.hooks is not None: self.hooks.on_exclusive(self, st, obj)
            self.more(f, [('drop', P(obj, ()), m.ty), ('rcfree', obj)])
    def weak_dec(self, st, fam, obj):
        m = st.meta[obj]
        w = m.wlb - 1
        if w < 0: raise Violation('overrelease', 'weak reference to %s released more often than it is held' % self.objname(st, obj), obj=obj)
        st.meta[obj] = m._replace(wlb=w, weak=None if m.weak is None else m.weak - 1)
    def inc_strong(self, st, obj):
        self.check_live(st, obj, 'clone')
        m = st.meta[obj]
        st.meta[obj] = m._replace(strong=None if m.strong is None else m.strong + 1, lb=m.lb + 1)
    def inc_weak(self, st, obj):
        m = st.meta[obj]
        st.meta[obj] = m._replace(weak=None if m.weak is None else m.weak + 1, wlb=m.wlb + 1)
    def new_obj(self, st, kind, ty, value, fam=None, strong=ONE, hint='o'):
        o = ('O', st.fresh(hint))
        st.mem[o] = value
        st.meta[o] = M(kind, fam, ty, strong, 1, ZERO, 0, 'live', None, True, False, self.site(st))
        return o
    def new_buf(self, st, cap, hint='buf', **kw):
        b = st.fresh(hint)
        d = {'cap': cap, 'status': 'live', 'new': True}; d.update(kw)
        st.bufs[b] = d
        return b
