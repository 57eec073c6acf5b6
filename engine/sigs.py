"""Declaration-level analyses: auto traits, variance, drop check, reference lifetimes, visibility, crate graph.
Each returns a Report (instances, violations)."""
from common import witness

RC = ['RcSlice', 'WeakSlice', 'RcSliceParts', 'RcSliceMut', 'RcSliceMutIter', 'RcSliceMutParts']
ARC = ['ArcSlice', 'WeakSlice', 'ArcSliceParts', 'ArcSliceMut', 'ArcSliceMutIter', 'ArcSliceMutParts']
SHARED = {'RcSlice', 'RcSliceParts', 'ArcSlice', 'ArcSliceParts', 'WeakSlice'}
INTERNAL = {'RcSliceData', 'IntoMutGuard', 'GetMutGuard', 'GetMutGuardParentage', 'GetMutGuardChildType', 'ArcSliceData', 'DataGuard',
            'Gate', 'Latch', 'SliceAlloc', 'SliceItems', 'SliceItemsIter', 'SliceItemsParts', 'BinaryPartsIter', 'PtrOrIdx', 'PtrOrIdxRange'}

class Report:
    def __init__(self): self.inst = []; self.viol = []; self.undecided = []; self.notes = []
    def ok(self, what): self.inst.append(what)
    def bad(self, prop, key, msg): self.viol.append((prop, key, msg))

def short(d): return d.rsplit('::', 1)[-1]
def family(d):
    p = d.split('::')
    return 'rc' if 'rc' in p[1:-1] else 'arc' if 'arc' in p[1:-1] else None
def exported(pr):
    out = {}
    for a in pr.adts:
        if a['pub'] and family(a['def']): out[(family(a['def']), short(a['def']))] = a
    return out
def anchors(pr, rep):
    ex = exported(pr)
    miss = [k for k in [('rc', n) for n in RC] + [('arc', n) for n in ARC] if k not in ex]
    if miss: rep.missing = miss
    return ex

def c08(pr, work, thorough):
    rep = Report(); ex = anchors(pr, rep)
    for fam, names in (('rc', RC), ('arc', ARC)):
        for n in names:
            a = ex.get((fam, n))
            if a is None: continue
            for row in a['auto']:
                b, send, sync = row[0], row[1], row[2]
                hs, hy = b in ('Send', 'SendSync', 'CopyAll'), b in ('Sync', 'SendSync', 'CopyAll')
                if fam == 'rc': ws = wy = False
                elif n in ('ArcSlice', 'WeakSlice', 'ArcSliceParts'): ws = wy = hs and hy
                else: ws, wy = hs, hy
                for tr, got, want in (('Send', send, ws), ('Sync', sync, wy)):
                    what = '%s::%s<T>: %s where T: %s' % (fam, n, tr, b)
                    if got == want: rep.ok(what)
                    else: rep.bad('C08', 'auto:%s::%s:%s:%s' % (fam, n, tr, b), '%s is %s but must be %s' % (what, got, want))
    # every other exported type (guards, results) must follow the same direction: Rc-holding types never cross threads
    for (fam, n), a in ex.items():
        if fam == 'rc' and n not in RC and any(r[1] or r[2] for r in a['auto']) and a['params'] and any(p[1] for p in a['params']):
            rep.notes.append('public type %s::%s not in the table' % (fam, n))
    return rep

def pathof(fam, n): return 'rc_slice::%s::%s' % (fam, n)
def mkval(fam, n, items):
    """expression building a handle of the type from a Vec expression"""
    S = 'rc_slice::%s::%s' % (fam, 'RcSlice' if fam == 'rc' else 'ArcSlice')
    M = S + 'Mut'
    if n in ('RcSlice', 'ArcSlice'): return '%s::from_vec(%s)' % (S, items)
    if n == 'WeakSlice': return '%s::downgrade(&%s::from_vec(%s))' % (S, S, items)
    if n.endswith('SliceParts'): return '%s::split_into_parts(%s::from_vec(%s), 2)' % (S, S, items)
    if n.endswith('SliceMut'): return '%s::from_vec(%s)' % (M, items)
    if n.endswith('MutIter'): return '%s::from_vec(%s).into_iter()' % (M, items)
    return '%s::split_into_parts(%s::from_vec(%s), 2)' % (M, M, items)

def wit(rep, work, prop, key, good, bad, codes, what):
    """type-level witness pair: `good` must compile, `bad` (its twin) must be rejected with one of `codes`"""
    if good is not None:
        c, err = witness(work, 'g' + str(len(rep.inst) + len(rep.viol)), good)
        if c:
            rep.undecided.append('%s: the accepted twin of the witness does not compile (%s)' % (key, c)); 
            if bad is None: rep.bad(prop, key, what + ' (client program rejected: %s)' % ','.join(sorted(set(c))))
            return
        if bad is None: rep.ok('accepted: ' + what); return
    c, err = witness(work, 'b' + str(len(rep.inst) + len(rep.viol)), bad)
    if not c: rep.bad(prop, key, what + ' (client program accepted)')
    elif not set(c) & set(codes): rep.undecided.append('%s: rejected for another reason (%s)' % (key, c))
    else: rep.ok('rejected: ' + what)

def c09(pr, work, thorough):
    rep = Report(); ex = anchors(pr, rep)
    for (fam, n), a in sorted(ex.items()):
        for (p, isty), v in zip(a['params'], a['variances']):
            if not isty: continue
            if v == '+' : rep.ok('%s::%s covariant in %s' % (fam, n, p))
            elif v == '*': rep.ok('%s::%s bivariant in %s' % (fam, n, p))
            elif n in RC + ARC: rep.bad('C09', 'variance:%s::%s' % (fam, n), '%s::%s is not covariant in %s (variance %s)' % (fam, n, p, v))
    for fam, names in (('rc', RC), ('arc', ARC)):
        for n in names:
            if (fam, n) not in ex: continue
            ty = pathof(fam, n)
            wit(rep, work, 'C09', 'covariant:%s::%s' % (fam, n), 'pub fn f<\'a>(x: %s<&\'static str>) -> %s<&\'a str> { x }\n' % (ty, ty), None, [],
                '%s::%s<&\'static str> usable as %s::%s<&\'a str>' % (fam, n, fam, n))
            if n == 'WeakSlice': continue
            tr = 'use core::iter::IntoIterator;\npub struct Loud<\'a>(pub &\'a String);\nimpl<\'a> Drop for Loud<\'a> { fn drop(&mut self) { println!("{}", self.0); } }\n'
            good = tr + 'pub fn f() { let s = String::new(); let h = %s; drop(h); }\n' % mkval(fam, n, 'vec![Loud(&s)]')
            bad = tr + 'pub fn f() { let h; let s = String::new(); h = %s; }\n' % mkval(fam, n, 'vec![Loud(&s)]')
            wit(rep, work, 'C09', 'dropck:%s::%s' % (fam, n), good, bad, ['E0597', 'E0505', 'E0716'],
                'borrowed data may not expire before a %s::%s whose drop runs the items\' drop' % (fam, n))
    return rep

def regions(t, out, mut=None):
    """collect (region, mutable, kind) of every reference in a region-annotated type tree"""
    if t is None: return
    k = t[0]
    if k == 'ref': out.append((t[1], t[2], t[3])); regions(t[3], out)
    elif k in ('slice', 'array'): regions(t[1], out)
    elif k == 'ptr': regions(t[2], out)
    elif k == 'tuple':
        for x in t[1:]: regions(x, out)
    elif k == 'adt':
        for r in t[2]: out.append((r, None, t))
        for x in t[3]: regions(x, out)
def walk(t, f):
    if t is None: return
    f(t); k = t[0]
    if k == 'ref': walk(t[3], f)
    elif k in ('slice', 'array'): walk(t[1], f)
    elif k == 'ptr': walk(t[2], f)
    elif k == 'tuple':
        for x in t[1:]: walk(x, f)
    elif k == 'adt':
        for x in t[3]: walk(x, f)
def is_handle(t): return t is not None and t[0] == 'adt' and short(t[1]) in set(RC + ARC)

def c18(pr, work, thorough):
    rep = Report(); ex = anchors(pr, rep)
    for r in pr.roots:
        if not r['pub'] or r['unsafe'] or not r.get('self_name') or family(r['self_name']) is None: continue
        if r.get('trait') and short(r['trait']) in ('Debug', 'Hash', 'PartialEq'): continue
        outs = []; regions(r['outp'], outs)
        if not outs: continue
        ins = []
        for t in r['ins']: regions(t, ins)
        for rg, m, tgt in outs:
            if m is None: pool = [x for x in ins]
            elif m: pool = [x for x in ins if x[1] is True]
            else: pool = [x for x in ins if x[1] is not None]
            src = [x for x in pool if x[0] == rg and (m is None or is_handle(x[2]) or x[2][0] in ('slice', 'param'))]
            what = '%s: returned %s bounded by the borrow it comes from' % (r['def'], "&mut" if m else "&")
            if src and rg != "'static": rep.ok(what)
            else: rep.bad('C18', 'sig:%s' % r['def'], '%s returns a reference with region %s not tied to a %sborrow of the handle' % (r['def'], rg, 'mutable ' if m else ''))
    for fam in ('rc', 'arc'):
        S = 'rc_slice::%s::%sSlice' % (fam, 'Rc' if fam == 'rc' else 'Arc')
        for n in (RC if fam == 'rc' else ARC):
            if n == 'WeakSlice': continue
            meths = []
            if n in ('RcSlice', 'ArcSlice'):
                meths = [('deref', '&*h', False), ('as_ref', 'AsRef::<[String]>::as_ref(&h)', False), ('borrow', 'core::borrow::Borrow::<[String]>::borrow(&h)', False), ('get_mut', '%s::get_mut(&mut h)' % S, True)]
            elif n.endswith('SliceMut'):
                meths = [('deref', '&*h', False), ('deref_mut', '&mut *h', True), ('as_ref', 'AsRef::<[String]>::as_ref(&h)', False), ('as_mut', 'AsMut::<[String]>::as_mut(&mut h)', True),
                         ('borrow', 'core::borrow::Borrow::<[String]>::borrow(&h)', False), ('borrow_mut', 'core::borrow::BorrowMut::<[String]>::borrow_mut(&mut h)', True)]
            elif n.endswith('SliceParts'): meths = [('as_slice', 'h.as_slice()', False)]
            else: meths = [('as_slice', 'h.as_slice()', False), ('as_mut_slice', 'h.as_mut_slice()', True)]
            new = 'let mut h = %s;' % mkval(fam, n, 'vec![String::new()]')
            use = 'fn used<A>(_: A) {}\n'
            for m, e, mut in meths:
                good = use + 'pub fn f() { %s let r = %s; used(r); drop(h); }\n' % (new, e)
                bad = use + 'pub fn f() { %s let r = %s; drop(h); used(r); }\n' % (new, e)
                wit(rep, work, 'C18', 'outlive:%s::%s.%s' % (fam, n, m), good, bad, ['E0505'], 'reference from %s::%s::%s outlives its handle' % (fam, n, m))
                if mut:
                    good = use + 'pub fn f() { %s let a = %s; used(a); let b = %s; used(b); }\n' % (new, e, e)
                    bad = use + 'pub fn f() { %s let a = %s; let b = %s; used(a); used(b); }\n' % (new, e, e)
                    wit(rep, work, 'C18', 'alias:%s::%s.%s' % (fam, n, m), good, bad, ['E0499'], 'two mutable references from %s::%s::%s' % (fam, n, m))
                    bad = use + 'pub fn f() { let h = %s; let a = %s; used(a); }\n' % (mkval(fam, n, 'vec![String::new()]'), e)
                    wit(rep, work, 'C18', 'shared:%s::%s.%s' % (fam, n, m), good, bad, ['E0596'], 'mutable reference through an immutable handle from %s::%s::%s' % (fam, n, m))
    return rep

def internals(pr):
    """the crate's own types that public handles are made of"""
    pub = set(RC + ARC); seen = set()
    todo = [i for i, t in enumerate(pr.T) if t['k'] == 'adt' and t.get('local') and short(t['n']) in pub]
    while todo:
        t = pr.t(todo.pop())
        subs = [x for x in t.get('args') or [] if isinstance(x, int)] + [x for v in t.get('vs') or [] for _, x in v['f']]
        if isinstance(t.get('t'), int): subs.append(t['t'])
        for x in subs:
            if isinstance(x, int) and x not in seen: seen.add(x); todo.append(x)
    return {pr.t(i)['n'] for i in seen if pr.t(i)['k'] == 'adt' and pr.t(i).get('local') and short(pr.t(i)['n']) not in pub}
def c20(pr, work, thorough):
    rep = Report(); ex = anchors(pr, rep)
    own = internals(pr)
    for f in pr.pubfields: rep.bad('C20', 'pubfield:%s' % f, 'public field %s' % f)
    rep.ok('%d exported types have no public field' % len(ex))
    for a in pr.adts:
        if short(a['def']) in INTERNAL or a['def'] in own:
            if a['pub']: rep.bad('C20', 'exported:%s' % short(a['def']), 'internal type %s is reachable from outside the crate' % a['def'])
            else: rep.ok('internal type %s unreachable' % a['def'])
    MUTTR = {'DerefMut', 'AsMut', 'BorrowMut', 'IndexMut'}
    for i in pr.impls:
        n = short(i['self_name']); fam = family(i['self_name'])
        if fam and n in SHARED and i.get('trait') and short(i['trait']) in MUTTR:
            rep.bad('C20', 'impl:%s:%s::%s' % (short(i['trait']), fam, n), 'shared handle %s::%s implements %s' % (fam, n, short(i['trait'])))
        elif fam and n in SHARED and i.get('trait'): rep.ok('impl %s for %s::%s' % (short(i['trait']), fam, n))
    for r in pr.roots:
        if not r['pub'] or not r.get('self_name') or family(r['self_name']) is None: continue
        n = short(r['self_name']); fam = family(r['self_name'])
        if r['unsafe']: rep.ok('%s is unsafe' % r['def']); continue
        bad = []
        for t in r['ins'] + [r['outp']]:
            def f(x):
                if x[0] == 'ptr': bad.append('raw pointer')
                if x[0] == 'adt':
                    m = short(x[1])
                    if m in ('NonNull', 'UnsafeCell', 'AtomicPtr', 'Unique', 'Cell'): bad.append(m)
                    if m in INTERNAL or x[1] in own: bad.append('internal type ' + m)
                    if m in ('Rc', 'Arc') or (m == 'Weak' and 'alloc' in x[1]): bad.append(m)
            walk(t, f)
        if bad: rep.bad('C20', 'api:%s' % r['def'], 'safe public function %s exposes %s' % (r['def'], ', '.join(sorted(set(bad)))))
        else: rep.ok('%s exposes no raw parts' % r['def'])
        if n in SHARED and r['name'] != 'get_mut':
            outs = []; regions(r['outp'], outs)
            if any(m for _, m, _ in outs): rep.bad('C20', 'mut:%s' % r['def'], '%s hands out a mutable reference to shared items' % r['def'])
    for fam in ('rc', 'arc'):
        for n in ('RcSlice', 'ArcSlice', 'RcSliceParts', 'ArcSliceParts', 'WeakSlice'):
            if (fam, n) not in ex: continue
            new = 'let mut h = %s;' % mkval(fam, n, 'vec![1u8, 2]')
            good = 'pub fn f() { %s drop(h); }\n' % new
            if n in ('RcSlice', 'ArcSlice'):
                wit(rep, work, 'C20', 'indexmut:%s::%s' % (fam, n), 'pub fn f() { %s let x = h[0]; }\n' % new, 'pub fn f() { %s h[0] = 3; }\n' % new, ['E0594', 'E0596'], 'write to an item of %s::%s by index' % (fam, n))
            for tr, e in (('AsMut', 'AsMut::<[u8]>::as_mut(&mut h)'), ('BorrowMut', 'core::borrow::BorrowMut::<[u8]>::borrow_mut(&mut h)')):
                wit(rep, work, 'C20', '%s:%s::%s' % (tr, fam, n), good, 'pub fn f() { %s let m: &mut [u8] = %s; }\n' % (new, e), ['E0277'], 'mutable view of %s::%s via %s' % (fam, n, tr))
        for fld in ('data', 'into_mut_guard', 'data_guard', 'items', 'alloc', 'iter', 'get_mut_guard'): pass
    for mod in ('internal', 'rc::rc_slice', 'arc::arc_slice', 'rc::rc_slice_mut', 'arc::arc_slice_mut'):
        wit(rep, work, 'C20', 'mod:%s' % mod, 'use rc_slice::rc as x;\n', 'use rc_slice::%s as x;\n' % mod, ['E0603', 'E0432', 'E0433'], 'module %s is private' % mod)
    return rep

def c21(prs, work, thorough):
    rep = Report(); anchors(prs[0][1], rep)
    for da, pr in prs:
        names = [c[0] for c in pr.crates]
        for n in names:
            if n in ('core', 'alloc', 'compiler_builtins'): rep.ok('links %s (debug assertions %s)' % (n, da))
            else: rep.bad('C21', 'crate:%s' % n, 'the library links crate `%s`' % n)
        # every resolved callee belongs to core, alloc or this crate
        seen = set()
        for k, inst in pr.I.items():
            b = inst.get('body')
            if not b: continue
            for bl in b['blocks']:
                t = bl[1]
                if t['k'] == 'call' and 'def' in t['f']:
                    d = t['f'].get('res') or t['f']['def']
                    root = d.lstrip('<').split('::')[0].split(' ')[0]
                    seen.add(root)
                    if root in ('std', 'proc_macro', 'test'): rep.bad('C21', 'call:%s' % d, 'call to %s' % d)
        rep.ok('resolved callees come from: %s' % ', '.join(sorted(seen)))
    return rep
