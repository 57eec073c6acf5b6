"""Loads the driver's dump: types, resolved MIR bodies, roots."""
import json

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']; self.I = d['insts']; self.roots = d['roots']
        self.adts = d['adts']; self.impls = d['impls']; self.crates = d['crates']; self.pubfields = d['pubfields']
        self.byname = {}
        for i, t in enumerate(self.T): self.byname.setdefault(t['s'], i)
        self.rootdefs = {}
        for r in self.roots: self.rootdefs.setdefault(r['def'], []).append(r)
        self._short = {}
    def t(self, i): return self.T[i]
    def name(self, i):
        """unqualified ADT name, or kind"""
        t = self.T[i]
        return t['n'].rsplit('::', 1)[-1] if t['k'] == 'adt' else t['k']
    def local_adt(self, i):
        t = self.T[i]
        return t['k'] == 'adt' and t['local']
    def args(self, i): return self.T[i].get('args', [])
    def needs_drop(self, i): return self.T[i].get('needs_drop', True)
    def fields(self, i, v=0):
        """list of (name, ty)"""
        t = self.T[i]
        if t['k'] == 'adt': return [tuple(f) for f in t['vs'][v]['f']] if t.get('vs') else []
        if t['k'] in ('tuple', 'closure'): return [(str(j), x) for j, x in enumerate(t['ts'])]
        return []
    def pointee(self, i):
        t = self.T[i]
        if t['k'] in ('ref', 'ptr'): return t['t']
        if t['k'] == 'pat': return self.pointee(t['t'])
        if t['k'] == 'adt':
            if t['box']: return t['args'][0]
            n = self.name(i)
            if n in ('NonNull', 'Unique'): return t['args'][0]
        return None
    def unwrap_ptr(self, i):
        """through refs/ptrs"""
        while self.T[i]['k'] in ('ref', 'ptr'): i = self.T[i]['t']
        return i
    def find_ty(self, s): return self.byname.get(s)
