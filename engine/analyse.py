"""Enumerates the obligation families (public functions and handle drops, in both item configurations and both build
profiles), runs the abstract interpreter on each and decides the obligations on every exit state."""
import time, traceback, os, json
from collections import Counter
import multiprocessing as mp
from vals import *
from dom import Lin, const, atom, half, Facts
from interp import State, ZERO, ONE
from models import NONE, some
import entry, checks, model, spec
from entry import Ctx, KINDS, short
from checks import Entry, Result, Checker

PROGS = {}          # 'on'/'off' -> Prog (set before forking)
_ctx = {}
def ctx(da, zst):
    k = (da, zst)
    if k not in _ctx: _ctx[k] = Ctx(PROGS[da], zst)
    return _ctx[k]

def tyname(r): return short(r.get('self_name') or '')
def fname(r): return '%s::%s::%s' % ('arc' if '::arc::' in (r.get('self_name') or '') else 'rc', tyname(r), r['name'])

# ------------------------------------------------------------------ one analysed call
def report_engine(C, stats):
    E, R = C.E, C.R
    for u in stats['undecided']:
        if getattr(E, 'expect', None) == 'rejects' and (u[0].startswith('endless loop') or u[0].startswith('loop bound') and E.N == ZERO): C.bad(E.entry, 'post', 'rejects', '%s does not reject %r parts but keeps looping' % (E.fn, E.N)); continue
        R.und.add('%s: %s at %s' % (E.name, u[0], u[1][0] if u[1] else ''))
    for kind, msg, site, s, kw in stats['viol']:
        if kind == 'endless':
            if getattr(E, 'expect', None) == 'rejects': C.bad(E.entry, 'post', 'rejects', '%s does not reject %r parts but keeps looping' % (E.fn, E.N)); continue
            for k in ('lock', 'post'): C.bad(s, k, 'endless', '%s (%s)' % (msg, site[1]))
            continue
        if kind == 'copy':
            if C.shares(): C.bad(s, 'effect', 'copy', msg)
            else: R.und.add('%s: %s' % (E.name, msg))
            continue
        at_ = ' in %s' % short(site[0]) if site[0] else ''
        d = kw.get('detail') or (C.it.objname(s, kw['obj']) if kw.get('obj') is not None else '')
        full = '%s%s (%s)' % (msg, at_, site[1])
        if 'ne0' in kw:
            for e in ([kw['ne0'] - 1], [-kw['ne0'] - 1]):
                if model.find(s.facts, e) is not None: C.bad(s, kind, d, full, extra=e, obj=kw.get('obj')); break
            else: R.und.add('%s: %s not established' % (E.name, kind))
        else: C.bad(s, kind, d, full, extra=kw.get('extra', ()), obj=kw.get('obj'))
    R.paths += stats['paths']; R.dead += stats['dead']

def containers(args): return [a for a in args if a.kind in ('mut', 'mutiter', 'mutparts', 'box', 'vec')]
def entry_claims(C, st, args):
    out = [(st.facts, [])]; C.vcache = {}
    for a in args:
        if a.kind in ('box', 'vec'): out = [(f, l + [(a.buf, ZERO, a.len)]) for f, l in out]
        elif a.kind in ('mut', 'mutiter', 'mutparts'):
            v = st.mem[a.obj] if a.ref else a.val
            nxt = []
            for f, l in out:
                s2 = st.clone(); s2.facts = f
                for f2, sp in C.views(s2, v, a.base, a.kind):
                    nxt.append((f2, l + [(sp.ptr.buf if isinstance(sp.ptr, IP) else 'zst', sp.ptr.off if isinstance(sp.ptr, IP) else ZERO, sp.len)]))
            out = nxt
    return out
def run_call(C, st, args, go):
    """analyse from st; go(state) arranges the call"""
    E = C.E
    E.args = args; E.recv = args[0] if args and args[0].kind in ('shared', 'weak', 'mut', 'mutiter', 'mutparts', 'parts') else None
    E.recvref = E.recv.ref if E.recv else None
    outs = 0
    for f, cl in entry_claims(C, st, args):
        s = st.clone(); s.facts = f
        if not C.zst: s.assume_ge0(C.it.sz - 1); s.assume_ge0(const((1 << 63) - 1) - C.it.sz)
        E.claims = cl; E.entry = s.clone()
        go(s)
        stats = C.it.run(s, C.exit_safe)
        report_engine(C, stats)
    C.finish()

# ------------------------------------------------------------------ preludes: iterator values as the library builds them
def base(pr, ty): return pr.t(ty)['t'] if pr.t(ty)['k'] == 'ref' else ty
def maker(c, ty, name):
    """public function `name` returning a value of type ty"""
    n = c.pr.t(ty)['n']
    for r in c.pr.roots:
        if r['name'] == name and r.get('exported'):
            o = c.pr.t(r['out_ty'])
            if o['k'] == 'adt' and o['n'] == n: return r
    raise Undecided('nothing makes a %s' % c.pr.name(ty))
def method(c, ty, name):
    n = c.pr.t(ty)['n']
    for r in c.pr.roots:
        if r.get('self_name') == n and r['name'] == name and r.get('exported'): return r
    raise Undecided('%s has no %s' % (c.pr.name(ty), name))
def settle(x, extra=()):
    """forget the history of a state: what it holds beyond the value of interest belongs to somebody else"""
    s = x.clone(); s.frames = []; s.result = None; s.exitk = None; s.unwinding = False; s.panics = 0; s.trace = None
    s.x.pop('quiet', None); s.x.pop('uw', None); s.x.pop('userpanic', None)
    for k in [k for k in s.x if isinstance(k, tuple) and k[0] in ('ch', 'opq', 'opqi', 'mod')]: s.x.pop(k)
    return s
def tokens_of(v, out, mem):
    if isinstance(v, H):
        if v.obj is not None: out.append(v)
    elif isinstance(v, Agg):
        for y in v.fs: tokens_of(y, out, mem)
    elif isinstance(v, Dq):
        for o in v.items: tokens_of(mem.get(o), out, mem)
    return out
def disown(s, v):
    """the references inside v belong to the environment from now on"""
    for h in tokens_of(v, [], s.mem):
        m = s.meta[h.obj]
        if h.kind == 'strong': s.meta[h.obj] = m._replace(lb=m.lb - 1)
        else: s.meta[h.obj] = m._replace(wlb=m.wlb - 1)
def argobj(s, o, v, ty):
    s.mem[o] = v
    s.meta[o] = M('arg', None, ty, None, 1, ZERO, 0, 'live', None, True, False, '')
    return P(o, ())
def sub(c, s, r, args):
    outs, viols = c.sub(s, r['key'], args)
    if viols: raise Undecided('prelude %s: %s' % (r['name'], viols[0][1]))
    return [x for x in outs if x.exitk == 'return']
def same_value(mem, v):
    if isinstance(v, Agg): return ('g', v.v, tuple(same_value(mem, y) for y in v.fs))
    if isinstance(v, Dq): return ('d', tuple(same_value(mem, mem.get(o)) for o in v.items))
    return v
def mutiter_values(c, ty):
    """[(label, state, value)]"""
    mk = maker(c, ty, 'into_iter'); st = State(); nodes = []
    a = c.make(st, mk['in_tys'][0], 0, nodes)
    out = []
    for x in sub(c, st, mk, [a.val]):
        s = settle(x); v = x.result; out.append(('fresh', s, v))
        for nm in ('split_off_to', 'split_off_from'):
            s2 = s.clone(); p = argobj(s2, ('A', 'pre'), v, ty)
            at_ = atom(('arg', 'pre'))
            for y in sub(c, s2, method(c, ty, nm), [p, at_]):
                rem = y.mem[('A', 'pre')]; oth = y.result
                for lab, keep, give in (('rest of ' + nm, rem, oth), ('result of ' + nm, oth, rem)):
                    z = settle(y); z.mem.pop(('A', 'pre')); z.meta.pop(('A', 'pre')); disown(z, give)
                    out.append((lab, z, keep))
    return out
def parts_values(c, ty, N, kind):
    """states of a parts iterator over N parts, by numbers (f, b) of parts already taken from either end"""
    if c.__dict__.get('pv', (None,))[0] == (ty, N): return c.pv[1]
    c.fixlen = const(BIGLEN) if N > BIG else None
    try: out = parts_values1(c, ty, N, kind, N if N <= BIG else 3)
    finally: c.fixlen = None
    c.pv = ((ty, N), out)
    return out
BIG = 256; BIGLEN = (3 << 40) + 12345          # more parts than this: few steps from either end, and a slice of known length
BIGFN = ('next', 'next_back', 'len', 'size_hint', 'as_slice', 'as_mut_slice', 'clone', 'is_empty')
def parts_values1(c, ty, N, kind, depth):
    mk = maker(c, ty, 'split_into_parts'); st = State(); nodes = []
    pty = mk['in_tys'][0]
    if kind == 'parts':
        buf = 'B0'; st.bufs[buf] = {'cap': at2('cap'), 'status': 'live', 'new': False}
        off = ZERO if c.zst else at2('off'); ln = at2('len')
        if c.fixlen is not None: off, ln = ZERO, c.fixlen; st.bufs[buf]['cap'] = ln
        elif not c.zst: st.assume_ge0(at2('cap') - off - ln)
        v0 = Opq('slice', (buf, off, ln)); view = (buf, off, ln)
    else:
        a = c.make(st, pty, 0, nodes); v0 = a.val; view = (a.buf, c.spec.node(st, a.node)[2], a.len)
    res = {}; out = []
    for x in sub(c, st, mk, [v0, const(N)]):
        s = settle(x)
        if kind == 'mutparts': alts = force_all(c, s, x.result)
        else: alts = [(s, x.result)]
        for s, v in alts:
            seen = {}; todo = [(0, 0, s, v)]
            while todo:
                f, b, s, v = todo.pop()
                key = (f, b, same_value(s.mem, v), s.facts.cs)
                if key in seen or f + b > N or f + b > depth: continue
                seen[key] = 1
                out.append((f, b, s, v, view))
                if f + b == N: continue
                for nm, df, db in (('next', 1, 0), ('next_back', 0, 1)):
                    s2 = s.clone(); p = argobj(s2, ('A', 'pre'), v, ty)
                    for y in sub(c, s2, method(c, ty, nm), [p]):
                        if not (isinstance(y.result, Agg) and y.result.fs): continue        # the contract of next is decided on its own
                        z = settle(y); rem = z.mem.pop(('A', 'pre')); z.meta.pop(('A', 'pre')); disown(z, y.result)
                        if [h.obj for h in tokens_of(rem, [], z.mem)] == [h.obj for h in tokens_of(v, [], s.mem)]: z.facts = s.facts
                        todo.append((f + df, b + db, z, rem))
    return out
def at2(k): return atom((k, '0'))
def force_all(c, s, v):
    """materialise the Lazy parts of v"""
    o = ('A', 'force'); s.mem[o] = v; s.meta[o] = M('arg', None, None, None, 1, ZERO, 0, 'live', None, True, False, '')
    todo = [s]; out = []
    from vals import Split
    def lz(w, path):
        if isinstance(w, Lazy): return path, w
        if isinstance(w, Agg):
            for i, y in enumerate(w.fs):
                r = lz(y, path + (i,))
                if r: return r
        return None
    while todo:
        x = todo.pop(); r = lz(x.mem[o], ())
        if r is None:
            w = x.mem.pop(o); x.meta.pop(o); out.append((x, w)); continue
        try: c.it.force(x, P(o, r[0]), r[1])
        except Split as sp:
            for a in sp.alts:
                y = x.clone()
                if a(y) is not False: todo.append(y)
    return out

# ------------------------------------------------------------------ jobs
def root(pr, key):
    for r in pr.roots:
        if r['key'] == key: return r
def setup(da, zst, r, name=None):
    c = ctx(da, zst)
    E = Entry(name or fname(r), fname(r).split('::')[0], r['name'], KINDS.get(tyname(r)), r, zst)
    E.da = da
    R = Result()
    return c, E, R, Checker(c, E, R)
def others(c, st, r, nodes, first):
    """remaining arguments after an iterator receiver"""
    args = []
    for i, ty in enumerate(r['in_tys']):
        if i == 0: args.append(first)
        else: args.append(c.make(st, ty, i, nodes))
    return args
def run_fn(da, zst, key):
    c = ctx(da, zst); r = root(c.pr, key)
    c, E, R, C = setup(da, zst, r)
    st = State(); nodes = []
    args = [c.make(st, ty, i, nodes) for i, ty in enumerate(r['in_tys'])]
    run_call(C, st, args, lambda s: c.start(s, r, args))
    return E, R
def run_deep(da, zst, key):
    """a function applied to a slice deep inside others, left alone by other threads"""
    c = ctx(da, zst); r = root(c.pr, key)
    c, E, R, C = setup(da, zst, r)
    st = State(); nodes = []; st.x['quiet'] = st.x['calm'] = True; st.x['updepth'] = 3
    args = [c.make(st, ty, i, nodes) for i, ty in enumerate(r['in_tys'])]
    run_call(C, st, args, lambda s: c.start(s, r, args))
    return E, R
def run_sole(da, zst, key):
    """exclusive access by the only handle left"""
    c = ctx(da, zst); r = root(c.pr, key)
    c, E, R, C = setup(da, zst, r)
    st = State(); nodes = []
    args = [c.make(st, ty, i, nodes) for i, ty in enumerate(r['in_tys'])]
    n = args[0].node; st.x['sole'] = n; st.x['quiet'] = True
    weak = r['name'] != 'get_mut'
    if not weak: st.x['noweak'] = True
    E.sole = 'no other handle%s is left' % (' but weak ones' if weak else '')
    if E.fam == 'rc':
        st.assume_eq0(spec.at('r', n) - 1); st.assume_eq0(spec.at('s', n))
        for side in 'LR':
            ch = c.spec.mkchild(st, n, side); st.assume_eq0(spec.at('a', ch))
            if not weak: st.assume_eq0(spec.at('b', ch))
        if not weak: st.assume_eq0(spec.at('w', n))
    run_call(C, st, args, lambda s: c.start(s, r, args))
    return E, R
def run_same(da, zst, key):
    """a function of two handles applied to two handles of one slice"""
    c = ctx(da, zst); r = root(c.pr, key)
    c, E, R, C = setup(da, zst, r)
    st = State(); nodes = []
    a = c.make(st, r['in_tys'][0], 0, nodes); n = a.node
    if E.fam == 'rc': st.assume_ge0(spec.at('r', n) - 2)
    b = entry.Arg(kind=a.kind, node=n, ref=None, ty=r['in_tys'][1], base=a.base, buf=a.buf, len=a.len, fam=a.fam)
    v = Agg(0, tuple(c.spec.build(st, ft, 'H', n, fn, a.base) for fn, ft in c.pr.fields(a.base)))
    b.ref = 'shared'; b.val = v; c.wrap(st, b, 1, v)
    args = [a, b]
    run_call(C, st, args, lambda s: c.start(s, r, args))
    return E, R
def run_iter(da, zst, key, N):
    """a method of an iterator type"""
    c = ctx(da, zst); r = root(c.pr, key)
    c, E, R, C = setup(da, zst, r)
    pr = c.pr; ty = base(pr, r['in_tys'][0]); kind = c.handle_kind(ty)
    vals = [(lab, s, v, None) for lab, s, v in mutiter_values(c, ty)] if kind == 'mutiter' else [((f, b), s, v, view) for f, b, s, v, view in parts_values(c, ty, N, kind)]
    R.values = len(vals)
    for lab, s, v, view in vals:
        st = s.clone(); nodes = ['0']
        E.pos = lab; E.N = N; E.view = view
        a = entry.Arg(kind=kind, ty=r['in_tys'][0], base=ty, ref=None, fam=E.fam)
        t0 = pr.t(r['in_tys'][0])
        if t0['k'] == 'ref': a.ref = 'mut' if t0['s'].startswith('&mut') or t0.get('m') or t0.get('mut') else 'shared'
        c.wrap(st, a, 0, v)
        args = others(c, st, r, nodes, a)
        run_call(C, st, args, lambda x: c.start(x, r, args))
    return E, R
POW = [1 << k for k in range(64)]
def run_nparts(da, zst, key, lo, hi):
    """split_into_parts for every number of parts: 0, the powers of two, and 2^k (2j + 3) for every k and j"""
    c = ctx(da, zst); r = root(c.pr, key)
    c, E, R, C = setup(da, zst, r)
    for k in range(lo, hi):
        cases = [('accepts', const(1 << k))]
        if k == 0: cases.append(('rejects', ZERO))
        if k < 63: cases.append(('rejects', atom(('arg', 'j')).scale(2 << k) + const(3 << k)))
        for what, n in cases:
            st = State(); nodes = []
            args = [c.make(st, r['in_tys'][0], 0, nodes)]
            if not n.isconst():
                st.assume_ge0(const((1 << 64) - 1) - n); st.x[('notpow2', n)] = True
            args.append(entry.Arg(kind='int', ty=r['in_tys'][1], val=n))
            E.N = n; E.expect = what; E.pos = None; E.view = None
            run_call(C, st, args, lambda s: c.start(s, r, args))
    return E, R
def run_drop(da, zst, ty, N):
    """dropping a handle"""
    c = ctx(da, zst); pr = c.pr; kind = c.handle_kind(ty)
    fam = c.fam(ty); nm = '%s::%s::drop' % (fam, pr.name(ty))
    E = Entry(nm, fam, 'drop', kind, None, zst); E.da = da; R = Result(); C = Checker(c, E, R)
    if kind in ('shared', 'weak', 'mut'):
        st = State(); a = c.make(st, ty, 0, []); vals = [(None, st, a.val, None, a)]
    else:
        if kind == 'mutiter': vs = [(lab, s, v, None) for lab, s, v in mutiter_values(c, ty)]
        else: vs = [((f, b), s, v, view) for f, b, s, v, view in parts_values(c, ty, N, kind)]
        vals = [(lab, s, v, view, entry.Arg(kind=kind, ty=ty, base=ty, ref=None, fam=fam, val=v)) for lab, s, v, view in vs]
    for lab, s, v, view, a in vals:
        E.pos = lab; E.N = N; E.view = view
        def go(x, v=v):
            o = ('A', 0); x.mem[o] = v; x.meta[o] = M('arg', None, ty, None, 1, ZERO, 0, 'live', None, True, False, '')
            c.it.push_tasks(x, [('drop', P(o, ()), ty)])
        run_call(C, s.clone(), [a], go)
    return E, R
def run_job(j):
    da, zst, kind = j[:3]
    try: return {'fn': run_fn, 'iter': run_iter, 'drop': run_drop, 'sole': run_sole, 'deep': run_deep, 'same': run_same, 'nparts': run_nparts}[kind](da, zst, *j[3:])
    except Undecided as u:
        R = Result(); R.und.add('%s: %s' % (j, u)); return Entry(str(j), '', '', None), R
def handle_types(pr, c):
    out = {}
    for r in pr.roots:
        if not r.get('exported'): continue
        for ty in list(r['in_tys']) + [r['out_ty']]:
            b = base(pr, ty); k = c.handle_kind(b)
            if k: out.setdefault(pr.t(b)['n'], b)
    return list(out.values())
def base_n(pr, ty): return pr.t(base(pr, ty)).get('n')
def jobs(pr, tier):
    out = []; c = ctx('on', False)
    def Ns(fn, k):
        if tier != 'quick': return (1, 2, 4, 8, 16)
        return (1, 2, 4, 8) if k == 'parts' or fn in ('next', 'next_back', 'as_slice', 'drop') else (1, 2, 4)
    bigs = (1 << 9, 1 << 17, 1 << 33, 1 << 62) if tier == 'quick' else tuple(1 << k for k in range(9, 63))
    for zst in (True, False):
        for r in pr.roots:
            if not r.get('exported'): continue
            if r['name'] == 'split_into_parts':
                out += [(da, zst, 'nparts', r['key'], lo, lo + 8) for da in sorted(PROGS) for lo in range(0, 64, 8)]; continue
            k = c.handle_kind(base(pr, r['in_tys'][0])) if r['in_tys'] else None
            if k == 'mutiter': out.append(('on', zst, 'iter', r['key'], 0))
            elif k in ('mutparts', 'parts'): out += [('on', zst, 'iter', r['key'], n) for n in Ns(r['name'], k) + (bigs if r['name'] in BIGFN else ())]
            else:
                out.append(('on', zst, 'fn', r['key']))
                if k == 'weak' and c.fam(base(pr, r['in_tys'][0])) == 'arc' and r['name'] not in ('clone', 'fmt'): out.append(('on', zst, 'deep', r['key']))
                if k == 'shared' and r['name'] in ('get_mut', 'into_mut') or r['name'] == 'try_from' and k == 'shared': out.append(('on', zst, 'sole', r['key']))
                if k in ('shared', 'weak') and len(r['in_tys']) == 2 and (r['in_tys'][0] == r['in_tys'][1] or r['name'] in ('eq', 'ne') and base_n(pr, r['in_tys'][0]) == base_n(pr, r['in_tys'][1])): out.append(('on', zst, 'same', r['key']))
            if r['name'] in ('split_off_from', 'split_off_to') and k == 'mutiter' and 'off' in PROGS: out.append(('off', zst, 'iter', r['key'], 0))
        for ty in handle_types(pr, c):
            k = c.handle_kind(ty)
            if k in ('mutparts', 'parts'): out += [('on', zst, 'drop', ty, n) for n in Ns('drop', k) + bigs[:1]]
            else: out.append(('on', zst, 'drop', ty, 0))
    return out + (release(out, tier) if 'off' in PROGS else [])
def release(out, tier):
    """the same calls with debug assertions off: in the quick tier, those that reach code which differs between the two"""
    on, off = PROGS['on'], PROGS['off']; c = ctx('on', False)
    if 'differ' not in c.__dict__:
        dump = lambda x: json.dumps(x, sort_keys=True)
        diff = {k for k, v in on.I.items() if v.get('local') and (k not in off.I or dump(off.I[k]['body']) != dump(v['body']))} | {k for k, v in off.I.items() if v.get('local') and k not in on.I}
        back = {}
        for pr in (on, off):
            for k, v in pr.I.items():
                for bl in (v['body'] or {'blocks': ()})['blocks']:
                    if bl[1]['k'] == 'call': back.setdefault(bl[1]['f'].get('key'), set()).add(k)
        todo = list(diff)
        while todo:
            for k in back.get(todo.pop(), ()):
                if k not in diff: diff.add(k); todo.append(k)
        c.differ = diff
    keys = {r['key'] for r in off.roots}; oc = ctx('off', False); tys = {off.t(x)['n']: x for x in handle_types(off, oc)}
    res = []; seen = {j for j in out if j[0] == 'off'}
    every = any('Drop>::drop' in k for k in c.differ)          # destructors run anywhere
    # iterators reach their states through these, whatever the method analysed
    drivers = {}
    for r in on.roots:
        if r.get('exported') and r['in_tys'] and r['name'] in ('next', 'next_back') and r['key'] in c.differ: drivers[on.t(base(on, r['in_tys'][0]))['n']] = 1
    for j in out:
        if j[0] != 'on': continue
        if j[2] == 'drop':
            t = on.t(j[3])['n']; hit = t in drivers and j[4] == 4 or every and j[4] in (0, 4)
            if t not in tys: continue
            k = ('off', j[1], 'drop', tys[t]) + j[4:]
        else:
            r = root(on, j[3]); k = ('off',) + j[1:]
            if j[3] not in keys: continue
            hit = (every or j[3] in c.differ or r['in_tys'] and on.t(base(on, r['in_tys'][0])).get('n') in drivers) and (j[2] != 'iter' or j[4] in (0, 4))
        if (hit or tier != 'quick') and k not in seen: seen.add(k); res.append(k)
    return res
