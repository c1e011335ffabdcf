"""Cutting loops with invariants: modifies-set discovery, induction variables, Houdini over templates."""
import itertools
import terms as T
from terms import P, C, A, ATOMS, f_le, f_lt, f_ge, f_eq, f_not, f_and, f_or, f_imp, fresh, prove, psubst, fatoms, closure

import os
HD = os.environ.get('EV_HOUDINI')
def depends(p, leafs, fns, mark):
    """does p depend on one of the atoms `leafs`, on content functions `fns`, or on nondeterminism created after mark?"""
    seen, work = set(), list(p.atoms())
    while work:
        i = work.pop()
        if i in seen: continue
        seen.add(i)
        if i in leafs: return True
        a = ATOMS[i]
        if a.app:
            if any(a.app[0].startswith(f) for f in fns): return True
            for q in (a.app[1] if isinstance(a.app[1], tuple) else (a.app[1],)): work += q.atoms()
        elif not a.axioms and i >= mark: return True
        for f in a.axioms: work += fatoms(f)
    return False

class Var:
    __slots__ = ('kind', 'key', 'v0', 'cur', 'atom', 'ind', 'w', 'incs')
    def name(self): return f"{self.kind}{self.key}"

def getval(st, D, key, kind):
    if kind == 'phi': return st.frames[D - 1].env[key]
    oid, off, n = key
    o = st.mem.get(oid)
    if o is None: return None
    e = o.cells.get(off)
    if e is None or e[0] != n: return None
    return e[1]
def setval(st, D, key, kind, v):
    if kind == 'phi': st.frames[D - 1].env[key] = v; return
    oid, off, n = key
    o = st.mem[oid]; cells = dict(o.cells)
    for k in list(cells):
        if k < off + n and off < k + cells[k][0]: del cells[k]
    cells[off] = (n, v)
    st.mem[oid] = o.upd(cells=cells)

def poly(eng, v):
    """integer polynomial that stands for the value (raw, not canonical)"""
    import engine as E
    if isinstance(v, E.IV): return v.p
    if isinstance(v, E.PV): return v.p
    return None

def cut_loop(self, snap, succ):
    import engine as EN
    E = snap.clone(); fr = E.frames[-1]; D = len(E.frames)
    inst = EN.LoopInst(); inst.id = next(self.loopid); inst.header = succ; inst.blocks = fr.fn['lp'][succ]
    inst.cut = True; inst.cancelled = False; inst.fname = fr.fname; inst.snap = None
    loops = fr.loops
    while loops and succ not in loops[-1].blocks: loops = loops[:-1]
    blk = fr.fn['blocks'][succ]; vals = []
    for ins in blk:
        if ins['op'] != 'phi': break
        for pb, o in ins['a']:
            if pb == fr.bb: vals.append((ins['id'], self.opv(o, E))); break
    for i, v in vals: fr.env[i] = v
    fr.prev = fr.bb; fr.bb = succ; fr.ip = len(vals); fr.loops = loops + (inst,); E.lastev = ()
    phis = [i for i, _ in vals]
    mark = len(ATOMS)
    uid = inst.id
    baselog = E.wlog
    if E.wlog is None: E.wlog = ('root',)
    root = E.wlog
    nobj0 = E.nobj
    # what earlier rounds of the enclosing loop learnt about this loop on this path (modifies set; candidates that are not
    # inductive: the enclosing loop's candidates only ever get fewer, so they stay non-inductive).  Only ever prunes candidates.
    parent = next((l.id for f in reversed(E.frames) for l in reversed(f.loops) if l.cut and l.id != uid), None)
    ckey = (parent, succ, tuple((f.fname, f.bb) for f in E.frames), snap.trail)
    memo = self.lcache.setdefault(ckey, dict(mods={}, objs={}, dropped=set())) if parent is not None else dict(mods={}, objs={}, dropped=set())
    mods = {k: True for k in memo['mods'] if k[0] < nobj0 and k[0] in E.mem}      # cell key -> True
    objs = {k: True for k in memo['objs'] if k < nobj0 and k in E.mem}      # oid -> True
    E.trail = hash((E.trail, 'head', succ))
    def collect(states):
        new = False
        for b in states:
            n = b.wlog
            while n is not root:
                n, (oid, off, sz, val) = n
                if oid >= nobj0 or oid not in E.mem: continue
                if oid in objs: continue
                if off.const is not None and isinstance(sz, int):
                    k = (oid, off.const, sz)
                    if k in mods: continue
                    # overlapping cells of different shape: treat as the union of bytes -> whole object unless small
                    ovl = [m for m in mods if m[0] == oid and m[1] < off.const + sz and off.const < m[1] + m[2]]
                    if ovl:
                        big = [m for m in ovl if m[1] <= off.const and off.const + sz <= m[1] + m[2]]
                        if big: continue
                        for m in ovl: del mods[m]
                    mods[k] = True; new = True
                elif off.const is not None and isinstance(sz, P) and sz.const is not None and sz.const <= 64:
                    # small bulk write: cells of the entry state inside it, else whole object
                    objs[oid] = True; new = True
                else:
                    objs[oid] = True; new = True
                    for m in [m for m in mods if m[0] == oid]: del mods[m]
        return new
    fns = []
    def build(ind, K, general):
        """head state; returns (state, vars)"""
        H = E.clone(); vs = []; leafs = set()
        if K is not None: leafs.add(K.m[0][0][0])
        for oid in objs:
            fn = f"hv{uid}_{oid}_{next(self.headcount)}"; fns.append(fn)
            H.mem[oid] = E.mem[oid].upd(cells={}, hist=None, base=('fn', fn))
            H.wlog = (H.wlog, (oid, A(fresh('any')), C(0) + A(fresh('any')), None))
        for kind, key in [('phi', i) for i in phis] + [('cell', k) for k in mods]:
            v0 = getval(E, D, key, kind)
            va = Var(); va.kind = kind; va.key = key; va.v0 = v0; va.ind = None; va.atom = None; va.incs = []
            if kind == 'cell':
                H.wlog = (H.wlog, (key[0], C(key[1]), key[2], None))
                if v0 is None:
                    o = E.mem[key[0]]
                    if o.hist is not None or o.base[0] != 'uninit' or any(k < key[1] + key[2] and key[1] < k + e[0] for k, e in o.cells.items()):
                        # give the cell a definite entry value first
                        try: v0 = self.read(E, o, o.cells, o.hist, C(key[1]), key[2], f'i{8*key[2]}'); va.v0 = v0
                        except EN.Unsupported: v0 = None
            vk = (kind, key)
            if vk in ind:
                d = ind[vk]; p = v0.p + K * d
                nv = EN.IV(v0.w, p) if isinstance(v0, EN.IV) else EN.PV(v0.o, p)
                va.ind = d; va.w = getattr(v0, 'w', 64)
            elif v0 is None or v0 is EN.UNDEF: nv = EN.UNDEF
            elif isinstance(v0, EN.IV):
                if v0.w == 1 or v0.b is not None:
                    a = fresh('lb', 0, 1); nv = EN.IV(v0.w, A(a), f_eq(A(a) - 1))
                else:
                    a = fresh('lv', 0, (1 << v0.w) - 1); nv = EN.IV(v0.w, A(a))
                va.atom = a.id; leafs.add(a.id); va.w = v0.w
            elif isinstance(v0, EN.PV):
                if key in ptrobj.get(kind, {}) and ptrobj[kind][key] == 'bad': nv = EN.UNDEF
                else:
                    a = fresh('lp'); nv = EN.PV(v0.o, A(a)); va.atom = a.id; leafs.add(a.id); va.w = 64
            elif isinstance(v0, EN.FV):
                if v0.r is not None or self.real:
                    a = fresh('lr'); import z3; T.REALS[a.id] = z3.Real(a.name); nv = EN.FV(v0.w, r=z3.Real(a.name), at=frozenset([a.id])); leafs.add(a.id)
                else:
                    a = fresh('lf', 0, (1 << v0.w) - 1); nv = EN.FV(v0.w, A(a)); leafs.add(a.id)
            else: nv = v0
            va.cur = nv; vs.append(va)
            setval(H, D, key, kind, nv)
        return H, vs, leafs
    ptrobj = {'phi': {}, 'cell': {}}

    # -- phase 1: modifies set
    self.quiet += 1
    try:
        def modset():
            for rnd in range(12):
                H, vs, leafs = build({}, None, None)
                npc = len(H.pc); nf = len(self.forks)
                backs, exits = self.explore([H], D, inst)
                ch = collect(backs)
                for va in vs:
                    if isinstance(va.v0, EN.PV):
                        for b in backs:
                            nv = getval(b, D, va.key, va.kind)
                            if not isinstance(nv, EN.PV) or nv.o != va.v0.o:
                                if ptrobj[va.kind].get(va.key) != 'bad': ptrobj[va.kind][va.key] = 'bad'; ch = True
                if not ch: return H, vs, leafs, npc, nf, backs, exits
            raise EN.Unsupported('modifies set does not stabilise')
        if self.fast:
            # inside the modifies-set phase of an outer loop: the havocked head is all that is needed
            return modset()[-1]
        try:
            self.fast = True
            try: H, vs, leafs, npc, nf, backs, exits = modset()
            finally: self.fast = False
        except EN.Unsupported:
            if self.nofast: raise
            H, vs, leafs, npc, nf, backs, exits = modset()
        memo['mods'].update(mods); memo['objs'].update(objs)
        # -- loop unswitching: case split at the entry on undecided conditions of the body that the loop does not change
        split = []
        if self.unswitch and self.unsw_depth < 5:
            for f in self.forks[nf:]:
                if f in split or f_not(f) in split: continue
                if any(depends(A(ATOMS[i]), leafs, fns, mark) for i in fatoms(f)): continue
                if self.decide(E, f) is None: split.append(f)
                if len(split) >= 8: break
        del self.forks[nf:]
        if split:
            self.forks += split
            cases = [snap.clone()]
            for f in split:
                nxt = []
                for s in cases:
                    d = self.decide(s, f)
                    if d is None:
                        s2 = s.clone(); s2.trail = hash((s2.trail, len(nxt), 5)); s.trail = hash((s.trail, len(nxt), 4)); s2.assume(f_not(f)); s.assume(f); nxt += [s, s2]
                    else: nxt.append(s)
                cases = nxt
            q = self.quiet; self.quiet -= 1; self.unsw_depth += 1
            try:
                out = []
                for s in cases: out += self.cut_loop(s, succ)
                return out
            finally: self.quiet = q; self.unsw_depth -= 1
        # -- phase 2: induction variables
        ind = {}
        for va in vs:
            if va.atom is None: continue
            ok = True; ds = []
            for b in backs:
                nv = getval(b, D, va.key, va.kind)
                p = poly(self, nv)
                if p is None or isinstance(nv, EN.IV) and nv.b is not None: ok = False; break
                ds.append(p - A(ATOMS[va.atom]))
            va.incs = ds if ok else []
            if ok and ds and all(d == ds[0] for d in ds) and not depends(ds[0], leafs, fns, mark):
                ind[(va.kind, va.key)] = ds[0]
        guard = []
        for b in backs:
            lv = []
            for f in b.pc[npc:]: T._leaves(f, lv)
            guard.append(lv)
        incs = {(va.kind, va.key): va.incs for va in vs}
        atomof = {va.atom: va for va in vs if va.atom is not None}
        # -- phase 3: Houdini
        for attempt in range(8):
            K = A(fresh('k', 0, 2**64)); kid = K.m[0][0][0]
            H, vs, leafs = build(ind, K, None)
            sub = {}
            for aid, va in atomof.items():
                for nv in vs:
                    if nv.kind == va.kind and nv.key == va.key: sub[aid] = nv.cur.p if isinstance(nv.cur, (EN.IV, EN.PV)) else A(ATOMS[aid])
            # candidates: (name, fn(get, kpoly) -> formula)
            cands = []
            def addp(name, p):       # candidate p <= 0 over the variables (p is over H's atoms)
                gen = {va.atom: va for va in vs if va.atom is not None and va.atom in p.atoms()}
                def fn(get, k, st, p=p, gen=gen):
                    s = {kid: k}
                    for aid, va in gen.items():
                        q = get(va)
                        if q is None: return None
                        s[aid] = q
                    return f_le(psubst(p, s))
                cands.append([name, fn, True])
            seenp = set()
            def add(name, p):
                f = f_le(p)
                if f is True or f is False or f in seenp: return
                seenp.add(f); addp(name, f[1])
                # common monomial factor
                mons = [m for m, _ in p.m]
                if mons and all(mons):
                    com = list(mons[0])
                    for m in mons[1:]:
                        l2 = list(m); keep = []
                        for a in com:
                            if a in l2: keep.append(a); l2.remove(a)
                        com = keep
                    if com and all(ATOMS[a].lo is not None and ATOMS[a].lo >= 1 for a in com):
                        q = T.mk({T._div(m, tuple(com)): c for m, c in p.m})
                        if f_le(q) not in seenp: addp(name + '/factor', q); seenp.add(f_le(q))
            for va in vs:
                if va.ind is not None and isinstance(va.cur, EN.IV):
                    p = va.cur.p
                    add(f'{va.name()}>=0', -p); add(f'{va.name()}<2^w', p - ((1 << va.w) - 1))
                    if va.w == 32: add(f'{va.name()}>=-2^31', -p - (1 << 31)); add(f'{va.name()}<2^31', p - ((1 << 31) - 1))
                elif va.atom is not None and isinstance(va.cur, (EN.IV, EN.PV)):
                    x = va.cur.p; x0 = va.v0.p
                    if isinstance(va.v0, EN.IV): x0 = self.canon(E, va.v0)
                    add(f'{va.name()}>=entry', x0 - x); add(f'{va.name()}<=entry', x - x0)
                    ii = incs.get((va.kind, va.key)) or []
                    cs = [d.const for d in ii]
                    if ii and all(c is not None for c in cs):
                        add(f'{va.name()} lower rate', x0 + K * min(cs) - x); add(f'{va.name()} upper rate', x - x0 - K * max(cs))
            known = set(leafs)
            for lv in guard:
                for f in lv:
                    if f[0] == 'le': ps = [f[1]]; ne = False
                    elif f[0] == 'eq': ps = [f[1], -f[1]]; ne = False
                    elif f[0] == 'not' and f[1][0] == 'eq': ps = [f[1][1], -f[1][1]]; ne = True
                    else: continue
                    for p in ps:
                        q = psubst(p, sub)
                        if not (q.atoms() & leafs): continue
                        others = T.mk({m: c for m, c in q.m if not (set(m) & leafs)})
                        bad = [a for a in q.atoms() if a not in leafs and depends(A(ATOMS[a]), leafs | set(atomof), fns, mark)]
                        if bad: continue
                        if ne: add('guard-ne ' + str(q), q)
                        else:
                            add('guard ' + str(q), q)
                            dq = psubst(q, {kid: K + 1}) - q
                            if dq.m and kid not in dq.atoms() and not (set(q.atoms()) & (leafs - {kid})):
                                add('guard+step ' + str(q), q - dq)
            # witness cells
            for (woid, woff, wn, wt) in E.wit:
                if woid in objs:
                    ow = E.mem[woid]
                    try: ev0 = self.as_type(self.read(E, ow, ow.cells, ow.hist, woff, wn, wt), wt, E)
                    except EN.Unsupported: continue
                    def fn(get, k, st, woid=woid, woff=woff, wn=wn, wt=wt, ev0=ev0):
                        o = st.mem[woid]
                        v = self.as_type(self.read(st, o, o.cells, o.hist, woff, wn, wt), wt, st)
                        if isinstance(v, EN.FV) and (v.r is not None or ev0.r is not None):
                            a, b = self.toreal(v), self.toreal(ev0)
                            return T.z_formula(a.r == b.r, (), tuple(sorted(a.at | b.at)))
                        return f_eq(self.canon(st, v) - self.canon(E, ev0)) if isinstance(v, EN.IV) else f_eq(v.p - ev0.p)
                    cands.append([f'witness {woid}+{woff} unchanged', fn, True])
            for tmpl in self.templates:
                for nm, fn in tmpl(self, E, H, vs, K, fr): cands.append(['template ' + nm, fn, True])
            def getter(st):
                def get(va):
                    v = getval(st, D, va.key, va.kind)
                    if isinstance(v, EN.IV) and va.ind is None:
                        if v.b is not None: return self.mkbool(v.b, v.w).p
                        try: return self.canon(st, v)
                        except EN.Unsupported: return None
                    return poly(self, v)
                return get
            def evalc(c, st, k):
                try: f = c[1](getter(st), k, st)
                except EN.Unsupported: return False
                except EN.Fork: return False
                return False if f is None else f
            live = []
            names = {}
            for c in cands:
                nm = str(c[0])
                for va in vs:
                    for a in (va.cur.p.atoms() if isinstance(va.cur, (EN.IV, EN.PV)) and va.ind is None else ()):
                        if a in leafs: nm = nm.replace(ATOMS[a].name, va.name())
                nm = nm.replace(ATOMS[kid].name, 'K'); names[nm] = names.get(nm, 0) + 1
                c.append(f'{nm}#{names[nm]}')
            cands = [c for c in cands if c[3] not in memo['dropped']]
            cond = set()
            for c in cands:
                f = evalc(c, E, C(0))
                if self.proved(E, f): live.append(c)
            redo = False
            if HD: print('  CANDS', fr.fn['dem'][:50], succ, [(c[0], c in live) for c in cands])
            while True:
                H2 = H.clone()
                for c in live: H2.assume(evalc(c, H, K))
                backs, exits = self.explore([H2], D, inst)
                for va in vs:
                    if va.ind is None: continue
                    for b in backs:
                        nv = getval(b, D, va.key, va.kind); p = poly(self, nv)
                        if p is None or (p != va.v0.p + (K + 1) * va.ind and not self.proved(b, f_eq(p - va.v0.p - (K + 1) * va.ind))):
                            ind.pop((va.kind, va.key), None); redo = True
                if collect(backs): redo = True
                if redo: break
                keep = []
                for c in live:
                    if all(self.proved(b, evalc(c, b, K + 1)) for b in backs): keep.append(c)
                if HD and len(keep) != len(live):
                    for c in live:
                        if c not in keep:
                            for b in backs:
                                f = evalc(c, b, K + 1)
                                if not self.proved(b, f):
                                    print('  HOUDINI', fr.fn['dem'][:60], succ, 'drops', c[0], 'goal', f)
                                    for x in b.pc: print('        ', x)
                                    break
                if len(keep) == len(live): break
                cond |= set(c[3] for c in live) - set(c[3] for c in keep)
                live = keep
            if not redo: memo['dropped'] |= cond
            if not redo: break
        else: raise EN.Unsupported('loop invariants do not stabilise')
    finally:
        self.quiet -= 1
    self.loopinfo.append((fr.fn['dem'][:120], succ, [c[0] for c in live], len(backs), len(exits), {str(k): str(v) for k, v in ind.items()}))
    if not self.quiet:
        # the invariants were verified to hold at entry and to be preserved (Houdini's last round)
        self.invs_checked += len(live) + len(ind)
        for c in live: self.rec('invariant', c[0].split('(')[0].split(' ')[0] + ' established and preserved', fr.fn['dem'][:80], 'discharged', 'z3 (Houdini)', 0.0)
        H2 = H.clone()
        for c in live: H2.assume(evalc(c, H, K))
        H2.heads = H2.heads + (uid,)
        backs, exits = self.explore([H2], D, inst)
    for s in exits:
        if baselog is None: s.wlog = None
    return exits
