#!/usr/bin/env python3
"""Pretty-print bodies of a driver dump (debug aid)."""
import json, sys
d = json.load(open(sys.argv[1])); T = d['types']
def ty(i): return T[i]['s']
def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == '.': s += '.%d' % e[1]
        elif e[0] == 'as': s += '@%d' % e[1]
        else: s += str(e)
    return s
def op(o):
    if o[0] in ('cp', 'mv'): return o[0] + ' ' + pl(o[1])
    if o[0] == 'k': return 'const %s' % (o[2] if o[2] is not None else o[3])
    return str(o)
def rv(r):
    k = r[0]
    if k == 'use': return op(r[1])
    if k in ('ref', 'addr'): return '&%s%s%s' % ('raw ' if k == 'addr' else '', 'mut ' if r[1] else '', pl(r[2]))
    if k == 'bin': return '%s(%s, %s)' % (r[1], op(r[2]), op(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2]))
    if k == 'cast': return '%s as %s (%s)' % (op(r[2]), ty(r[3]), r[1])
    if k == 'discr': return 'discr(%s)' % pl(r[1])
    if k == 'agg':
        h = r[1]; n = ty(h[1]) + ('@%d' % h[2]) if h[0] == 'adt' else h[0] if h[0] != 'closure' else ty(h[1])
        return '%s{%s}' % (n, ', '.join(op(x) for x in r[2]))
    return str(r)
for k, v in sorted(d['insts'].items()):
    if not any(a in k for a in sys.argv[2:]): continue
    b = v.get('body'); print('=====', k, v.get('span'))
    if not b: continue
    for i, l in enumerate(b['locals']): print('   let _%d: %s %s' % (i, ty(l[0]), l[1] or ''))
    for i, (st, t, cl, sp) in enumerate(b['blocks']):
        print(' bb%d%s:' % (i, ' (cleanup)' if cl else ''))
        for s in st:
            if s[0] == '=': print('    %s = %s' % (pl(s[1]), rv(s[2])))
            elif s[0] in ('live', 'dead'): pass
            else: print('   ', s)
        if t['k'] == 'call':
            f = t['f']; print('    %s = CALL %s [%s key=%s](%s) -> %s unwind %s' % (pl(t['d']), f.get('res') or f.get('def') or f, f['kind'], f.get('key'), ', '.join(op(a) for a in t['a']), t['t'], t['u']))
        elif t['k'] == 'switch': print('    switch %s %s else %s' % (op(t['d']), t['ts'], t['o']))
        elif t['k'] == 'drop': print('    drop %s: %s -> %s unwind %s' % (pl(t['p']), ty(t['ty']), t['t'], t['u']))
        elif t['k'] == 'assert': print('    assert %s == %s -> %s unwind %s (%s)' % (op(t['c']), t['e'], t['t'], t['u'], t['m']))
        else: print('   ', t['k'], t.get('t', ''))
