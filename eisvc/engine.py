"""eisvc: contract-based VC generator over the LLVM IR of the real Eisvogel code.

Executes the IR of a contract entry function (harness: requires; call of the real code; ensures) symbolically
over all inputs.  Every assert(), memory access, division, throw and ev_check is an obligation.  Loops whose trip
count is not concrete are cut with invariants (inferred by Houdini over templates, or supplied by the harness), so
there is no bound on iterations.
"""
import json, struct, sys, time, itertools, re, fractions
import z3
import terms as T
from terms import (P, C, A, ATOMS, f_le, f_lt, f_ge, f_gt, f_eq, f_not, f_and, f_or, f_imp, f_iff, f_xor,
                   fresh, named, app, prove, psubst)

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(self, f): self.f = f
class Fork2(Exception): pass
class CutNeeded(Exception):
    def __init__(self, inst): self.inst = inst
class Budget(Exception): pass

class IV:
    __slots__ = ('w', 'p', 'b')
    def __init__(self, w, p, b=None): self.w = w; self.p = p; self.b = b
    def __repr__(self): return f"i{self.w}:{self.p if self.b is None else self.b}"
class PV:
    __slots__ = ('o', 'p')
    def __init__(self, o, p): self.o = o; self.p = p
    def __repr__(self): return f"ptr({self.o}+{self.p})"
class FV:
    __slots__ = ('w', 'p', 'r', 'at')
    def __init__(self, w, p=None, r=None, at=frozenset()): self.w = w; self.p = p; self.r = r; self.at = at
    def __repr__(self): return f"f{self.w}:{self.p if self.r is None else self.r}"
class FN:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return f"fn:{self.n}"
class AG:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class UN:
    __slots__ = ()
    def __repr__(self): return 'undef'
UNDEF = UN()
NULL = PV(None, C(0))

def tbits(t):
    if t == 'ptr': return 64
    if t == 'f32': return 32
    if t == 'f64': return 64
    if t == 'f80': return 128
    if isinstance(t, str) and t[0] == 'i': return int(t[1:])
    raise Unsupported(f"type {t}")
def tsize(t):
    if isinstance(t, dict): return t['size']
    b = tbits(t)
    return (b + 7) // 8

class Obj:
    """immutable object record"""
    __slots__ = ('id', 'name', 'size', 'kind', 'cells', 'hist', 'base', 'ro')
    def __init__(self, id, name, size, kind, cells=None, hist=None, base=('uninit',), ro=False):
        self.id = id; self.name = name; self.size = size; self.kind = kind
        self.cells = cells or {}; self.hist = hist; self.base = base; self.ro = ro
    def upd(self, **kw):
        o = Obj(self.id, self.name, self.size, self.kind, self.cells, self.hist, self.base, self.ro)
        for k, v in kw.items(): setattr(o, k, v)
        return o
# history nodes: (kind, prev, ...)
#  ('W', prev, off, size, val) ('C', prev, dst, n, srcobj, srcoff) ('F', prev, dst, n, esize, val) ('K', prev, cells) ('H', prev, dst, n, fname)

class Frame:
    __slots__ = ('fn', 'env', 'bb', 'ip', 'prev', 'ret', 'rett', 'norm', 'loops', 'fname', 'allocas')
    def clone(self):
        f = Frame()
        f.fn = self.fn; f.env = dict(self.env); f.bb = self.bb; f.ip = self.ip; f.prev = self.prev
        f.ret = self.ret; f.rett = self.rett; f.norm = self.norm; f.loops = self.loops; f.fname = self.fname
        return f

class LoopInst:
    __slots__ = ('id', 'header', 'blocks', 'snap', 'iters', 'cut', 'cancelled', 'concrete', 'fname')

class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcs', 'ghost', 'nobj', 'wlog', 'canon', 'trace', 'thr', 'wit', 'unroll', 'heads', 'lastev', 'trail')
    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.pcs = set(self.pcs)
        s.ghost = dict(self.ghost); s.nobj = self.nobj; s.wlog = self.wlog; s.canon = set(self.canon); s.trace = self.trace
        s.thr = self.thr; s.wit = self.wit; s.unroll = self.unroll; s.heads = self.heads; s.lastev = self.lastev; s.trail = self.trail
        return s
    def assume(self, f):
        if f is True: return
        if f is not False and f[0] == 'and':
            for x in f[1]: self.assume(x)
            return
        if f not in self.pcs: self.pcs.add(f); self.pc.append(f)

class Engine:
    def __init__(self, mod, cfg=None):
        self.mod = mod; self.F = mod['functions']; self.G = mod['globals']
        self.cfg = cfg or {}
        self.obls = {}          # (kind,label,loc) -> dict
        self.failures = []
        self.inputs = []        # (name, atom)
        self.quiet = 0
        self.paths = 0; self.steps = 0
        self.covers = {}
        self.funcs = set()
        self.assumed = set()
        self.loopinfo = []
        self.loopid = itertools.count()
        self.real = bool(self.cfg.get('real'))
        self.deadline = None
        self.max_paths = self.cfg.get('max_paths', 20000)
        self.headcount = itertools.count()
        self.inames = {}
        self.invs_checked = 0
        self._i2r = {}        # integral reals
        self.templates = self.cfg.get('templates', [])
        self.forks = []; self.unswitch = self.cfg.get('unswitch', False); self.unsw_depth = 0; self.fast = False; self.nofast = False; self.lcache = {}; self.replace = []; self.repl_cache = {}
        self.notes = set()
        for n, f in self.F.items():
            f['name'] = n
            if not f['decl']:
                lp = {}
                for l in f['loops']: lp[l['header']] = frozenset(l['blocks'])
                f['lp'] = lp

    # ---------------------------------------------------------------- values
    def konst(self, o, st):
        if 'i' in o:
            w = tbits(o['t']); n = int(o['i'])
            if w == 1: return IV(1, C(n), bool(n))
            return IV(w, C(n))
        if 'fp' in o: return FV(tbits(o['t']), C(int(o['fp'])))
        if 'null' in o: return NULL
        if 'undef' in o:
            return self.zero(o['undef'], undef=True)
        if 'zero' in o: return self.zero(o['zero'])
        if 'fn' in o: return FN(o['fn'])
        if 'g' in o: return PV(self.global_obj(o['g'], st), C(0))
        if 'gep' in o: return self.gep(o['gep'], st, None)
        if 'agg' in o: return AG([self.konst(x, st) for x in o['agg']])
        if 'ce' in o:
            a = [self.konst(x, st) for x in o['a']]
            if o['ce'] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.cast(o['ce'], a[0], o['ot'], o['t'], st)
            if o['ce'] == 'sub': return IV(tbits(o['t']), a[0].p - a[1].p)
        raise Unsupported(f"constant {o}")
    def zero(self, t, undef=False):
        if isinstance(t, dict):
            if t['k'] == 's': return AG([self.zero(x, undef) for x in t['f']])
            return AG([self.zero(t['e'], undef) for _ in range(t['n'])])
        if undef: return UNDEF
        if t == 'ptr': return NULL
        if t[0] == 'f': return FV(tbits(t), C(0))
        if t == 'i1': return IV(1, C(0), False)
        return IV(tbits(t), C(0))
    def opv(self, o, st):
        if isinstance(o, int):
            return st.frames[-1].env[o]
        return self.konst(o, st)
    def undef_to(self, t):
        b = tbits(t) if not isinstance(t, dict) else None
        if isinstance(t, dict): return self.zero(t)
        if t == 'ptr': return NULL
        if t[0] == 'f': return FV(b, A(fresh('undef', 0, 2**b - 1)))
        if t == 'i1':
            a = A(fresh('undef', 0, 1)); return IV(1, a, f_eq(a - 1))
        return IV(b, A(fresh('undef', 0, 2**b - 1)))

    def boolof(self, v, st=None):
        if v is UNDEF: v = self.undef_to('i1')
        if v.b is not None: return v.b
        c = v.p.const
        if c is not None: return bool(c & 1)
        return f_eq(self.canon(st, v, False) - 1)
    def mkbool(self, f, w=1):
        if f is True: return IV(w, C(1), True)
        if f is False: return IV(w, C(0), False)
        a = named(('b2i', f), 'b', 0, 1)
        if not a.axioms:
            a.axioms = [f_iff(f, f_eq(A(a) - 1))]
        return IV(w, A(a), f)
    def canon(self, st, v, signed=False):
        """canonical (unsigned or signed) integer of v"""
        if v is UNDEF: raise Unsupported('undef int')
        if isinstance(v, PV):
            return self.ptrint(v, st)
        w, p = v.w, v.p
        c = p.const
        if c is not None:
            c &= (1 << w) - 1
            if signed and c >> (w - 1): c -= 1 << w
            return C(c)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        l, h = p.iv()
        okl = l is not None and l >= lo; okh = h is not None and h <= hi
        if okl and okh: return p
        k = (p, w, signed)
        if k in st.canon: return p
        fac = T.PRODS.get(p)
        if fac is not None:
            (_, ha), (_, hb) = fac[0].iv(), fac[1].iv()
            if ha is not None and hb is not None and ha * hb <= hi and all(self.proved(st, f_ge(x)) for x in fac):
                st.canon.add(k); return p
        if (okl or self.proved(st, f_le(C(lo) - p))) and (okh or self.proved(st, f_le(p - hi))):
            st.canon.add(k); return p
        # try the shifted representative (common: unsigned view of a small negative number or vice versa)
        for sh in ((1 << w), -(1 << w)):
            q = p + sh
            l, h = q.iv()
            if self.proved(st, f_le(C(lo) - q)) and self.proved(st, f_le(q - hi)): return q
        kn = self.bytes_known(p)
        if kn is not None and not signed:
            return self.compose(kn[:w // 8])
        a = named(('wrap', p, w, signed), 'wrap', lo, hi)
        if not a.axioms:
            pl, ph = p.iv()
            kk = fresh('k', None if pl is None else (pl - hi) // (1 << w), None if ph is None else (ph - lo) // (1 << w) + 1)
            a.axioms = [f_eq(A(a) - p + A(kk) * (1 << w))]
            T.DEFS[a.id] = ('wrap', p, w, signed); T.DEFS[kk.id] = ('wrapk', p, w, signed, a.id)
            if pl is not None or ph is not None: pass
        return A(a)
    def objbase(self, oid):
        return A(named(('base', oid), f'addr{oid}', 4096, 2**47))
    def ptrint(self, v, st):
        if isinstance(v, FN): return A(named(('fnaddr', v.n), 'fnaddr', 4096, 2**47))
        if v.o is None: return v.p
        return self.objbase(v.o) + v.p
    def intptr(self, p, st):
        for mon, c in p.m:
            if len(mon) == 1 and c == 1 and ATOMS[mon[0]].name.startswith('addr'):
                for k in T._named:
                    if k[0] == 'base' and T._named[k].id == mon[0]: return PV(k[1], p - A(ATOMS[mon[0]]))
        return PV(None, p)

    # byte decomposition ---------------------------------------------------------------------------
    _comp = {}
    _bytes = {}; _half = {}; _uns = {}
    def bytes_known(self, p):
        if p.const is not None: return [C((p.const >> (8 * i)) & 255) for i in range(16)]
        r = self._bytes.get(p) or self._comp.get(p)
        return r
    def bytes_of(self, p, n):
        """little-endian bytes of canonical p < 256^n"""
        r = self.bytes_known(p)
        if r is not None:
            return (list(r) + [C(0)] * n)[:n]
        l, h = p.iv()
        if l is not None and h is not None and l >= 0 and h < 256: return [p] + [C(0)] * (n - 1)
        ats = [app(f'byte{i}_{n}', p, 0, 255) for i in range(n)]
        s = C(0)
        for i, a in enumerate(ats): s = s + A(a) * (256 ** i)
        for a in ats: a.axioms = [f_eq(p - s)]
        r = [A(a) for a in ats]
        self._bytes[p] = r; self._comp[s] = r; self._rev = getattr(self, '_rev', {})
        self._rev[tuple(r)] = p
        return list(r)
    def halves(self, lo, hi):
        """the 64-bit integer of two 32-bit ones; remembers them"""
        s = lo + hi * 2**32
        if s.const is None: self._half[s] = (lo, hi)
        return s
    def half(self, v, i):
        """i-th 32-bit half of the stored value v, if it is known as a pair"""
        if not isinstance(v, IV): return None
        hv = self._half.get(v.p)
        if hv is None: return None
        p = hv[i]
        return IV(32, self._uns.get(p, p))
    def compose(self, bs):
        bs = list(bs)
        while len(bs) > 1 and bs[-1] == C(0): bs.pop()
        rev = getattr(self, '_rev', {})
        k = tuple(bs)
        if k in rev: return rev[k]
        s = C(0)
        for i, b in enumerate(bs): s = s + b * (256 ** i)
        if s.const is None and len(bs) > 1: self._comp[s] = bs
        return s

    # ---------------------------------------------------------------- proving
    def check_time(self):
        if self.deadline and time.time() > self.deadline: raise Budget('time budget exhausted')
    def proved(self, st, f):
        if f is True: return True
        if f is False: return False
        if f in st.pcs: return True
        if f_not(f) in st.pcs: return False
        self.check_time()
        return prove(st.pc, f, tl=1500, tn=1200).status == 'proved'
    def decide(self, st, f):
        if f is True or f is False: return f
        if f in st.pcs: return True
        nf = f_not(f)
        if nf in st.pcs: return False
        self.check_time()
        a = prove(st.pc, f, cheap=True).status
        if a == 'proved': return True
        b = prove(st.pc, nf, cheap=True).status
        if b == 'proved': return False
        if a == 'refuted' and b == 'refuted': return None
        if self.proved(st, f): return True
        if self.proved(st, nf): return False
        return None
    def oblig(self, st, kind, label, f, loc=''):
        """prove f; record; then continue assuming it"""
        if f is True and kind in ('bounds',):
            self.rec(kind, label, loc, 'discharged', 'trivial', 0.0); return
        if self.quiet:
            if f is False:
                raise PathEnd()
            st.assume(f); return
        self.check_time()
        r = prove(st.pc, f)
        if r.status == 'proved':
            self.rec(kind, label, loc, 'discharged', r.backend, r.time)
        else:
            # is the path feasible at all?
            if prove(st.pc, False).status == 'proved':
                self.rec(kind, label, loc, 'discharged', 'infeasible-path', r.time); raise PathEnd()
            self.rec(kind, label, loc, 'failed' if r.status == 'refuted' else 'unknown', r.backend, r.time)
            self.failures.append(dict(kind=kind, label=label, loc=loc, status=r.status, pc=list(st.pc), goal=f, ghost=dict(st.ghost),
                                      cut=bool(st.heads), trace=self.trace(st)))
            if f is False: raise PathEnd()
        st.assume(f)
    def trace(self, st):
        return [f"{fr.fn['dem'][:140]}" for fr in st.frames]
    def rec(self, kind, label, loc, status, backend, t):
        k = (kind, label, loc)
        o = self.obls.get(k)
        if o is None: o = self.obls[k] = dict(kind=kind, label=label, loc=loc, n=0, discharged=0, failed=0, unknown=0, time=0.0, backends={})
        o['n'] += 1; o[status] += 1; o['time'] += t; o['backends'][backend] = o['backends'].get(backend, 0) + 1

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, name, size, kind, base=('uninit',)):
        oid = st.nobj; st.nobj += 1
        st.mem[oid] = Obj(oid, name, size if isinstance(size, P) else C(size), kind, base=base)
        return oid
    def global_obj(self, g, st):
        key = ('g', g)
        if key in st.ghost: return st.ghost[key]
        gd = self.G[g]
        oid = -1000 - list(self.G).index(g)
        st.ghost[key] = oid
        if oid not in st.mem:
            o = Obj(oid, g, C(gd['size']), 'global', base=('uninit',) if 'init' not in gd else ('zero',), ro=gd['const'])
            st.mem[oid] = o
            if 'init' in gd:
                cells = {}
                self.init_cells(gd['init'], gd['t'], 0, cells, st)
                st.mem[oid] = o.upd(cells=cells)
        return oid
    def init_cells(self, init, t, off, cells, st):
        if isinstance(t, dict):
            if 'zero' in init or 'undef' in init: return
            if 'agg' not in init: raise Unsupported(f"global init {init}")
            for i, x in enumerate(init['agg']):
                if t['k'] == 's': self.init_cells(x, t['f'][i], off + t['o'][i], cells, st)
                else: self.init_cells(x, t['e'], off + i * t['es'], cells, st)
            return
        if 'undef' in init: return
        cells[off] = (tsize(t), self.konst(init, st))
    def log(self, st, oid, off, n, val):
        if st.wlog is not None: st.wlog = (st.wlog, (oid, off, n, val))
    def bounds(self, st, v, n, what, loc):
        """obligation: [v, v+n) lies inside the object v points to"""
        if not isinstance(v, PV): raise Unsupported(f"access through {v}")
        if v.o is None:
            self.oblig(st, 'bounds', f'{what} through null/unknown pointer', False, loc); raise PathEnd()
        o = st.mem[v.o]
        n = n if isinstance(n, P) else C(n)
        f = f_and(f_ge(v.p), f_le(v.p + n - o.size))
        if f is not True: self.oblig(st, 'bounds', what, f, loc)
    def store(self, st, v, n, val, loc, chk=True):
        if chk: self.bounds(st, v, n, 'store', loc)
        o = st.mem[v.o]
        self.log(st, v.o, v.p, n, val)
        c = v.p.const
        if c is not None and not o.hist_sym():
            cells = dict(o.cells)
            self.cells_put(cells, c, n, val, o, st)
            st.mem[v.o] = o.upd(cells=cells)
        elif c is not None:
            cells = dict(o.cells)
            self.cells_put(cells, c, n, val, o, st)
            st.mem[v.o] = o.upd(cells=cells)
        else:
            h = o.hist
            if o.cells: h = ('K', h, o.cells)
            st.mem[v.o] = o.upd(cells={}, hist=('W', h, v.p, n, val))
    def cells_put(self, cells, c, n, val, o, st):
        # remove / split overlapping cells
        for k in list(cells):
            kn = cells[k][0]
            if k < c + n and c < k + kn:
                if k >= c and k + kn <= c + n: del cells[k]
                elif kn == 8 and n == 4 and c - k in (0, 4) and self.half(cells[k][1], 0) is not None:
                    v = cells[k][1]; del cells[k]
                    cells[k + 4 - (c - k)] = (4, self.half(v, 0 if c != k else 1))
                else:
                    bs = self.val_bytes(cells[k][1], kn, st); del cells[k]
                    for i in range(kn):
                        if not (c <= k + i < c + n): cells[k + i] = (1, IV(8, bs[i]))
        cells[c] = (n, val)
    def val_bytes(self, v, n, st):
        if isinstance(v, IV): return self.bytes_of(self.canon(st, v), n)
        if isinstance(v, FV): return self.bytes_of(self.fbits(v), n)
        if isinstance(v, PV): return self.bytes_of(self.ptrint(v, st), n)
        if v is UNDEF: return [A(fresh('undef', 0, 255)) for _ in range(n)]
        raise Unsupported(f"bytes of {v}")
    def fbits(self, v):
        if v.r is not None:
            return A(named(('rbits', v.r.sexpr(), v.w), 'rbits', 0, 2**v.w - 1))
        return v.p
    def as_type(self, v, t, st):
        if v is UNDEF: return self.undef_to(t)
        if t == 'ptr':
            if isinstance(v, (PV, FN)): return v
            if isinstance(v, IV): return self.intptr(self.canon(st, v), st)
        elif t[0] == 'f':
            if isinstance(v, FV):
                return v
            if isinstance(v, IV): return FV(tbits(t), self.canon(st, v))
        elif t[0] == 'i':
            w = tbits(t)
            if isinstance(v, IV):
                if v.w == w: return v
                if v.w in (8,) and w == 1: return IV(1, v.p, v.b)
                if v.w == 1 and w == 8: return IV(8, v.p, v.b)
            if isinstance(v, PV): return IV(w, self.ptrint(v, st))
            if isinstance(v, FV): return IV(w, self.fbits(v))
        raise Unsupported(f"reinterpret {v} as {t}")
    def load(self, st, v, t, loc, chk=True):
        n = tsize(t)
        if isinstance(t, dict):
            fs, os = (t['f'], t['o']) if t['k'] == 's' else ([t['e']] * t['n'], [i * t['es'] for i in range(t['n'])])
            return AG([self.load(st, PV(v.o, v.p + o), f, loc, chk) for f, o in zip(fs, os)])
        if chk: self.bounds(st, v, n, 'load', loc)
        o = st.mem[v.o]
        r = self.read(st, o, o.cells, o.hist, v.p, n, t)
        return self.as_type(r, t, st)
    def read(self, st, o, cells, hist, off, n, t):
        c = off.const
        if cells:
            if c is not None:
                e = cells.get(c)
                if e is not None and e[0] == n: return e[1]
                ov = [k for k in cells if k < c + n and c < k + cells[k][0]]
                if ov:
                    if len(ov) == 1 and ov[0] <= c and c + n <= ov[0] + cells[ov[0]][0]:
                        kn, kv = cells[ov[0]]
                        if kv is UNDEF: return UNDEF
                        if kn == 8 and n == 4 and c - ov[0] in (0, 4):
                            hv = self.half(kv, (c - ov[0]) // 4)
                            if hv is not None: return hv
                        bs = self.val_bytes(kv, kn, st)[c - ov[0]:c - ov[0] + n]
                        return IV(8 * n, self.compose(bs))
                    if n == 8 and len(ov) == 2 and all(k in cells and cells[k][0] == 4 and isinstance(cells[k][1], IV) and self.bytes_known(cells[k][1].p) is None for k in (c, c + 4)):
                        hs = []
                        for k in (c, c + 4):
                            x = cells[k][1]; p = self.canon(st, x, False)
                            if p != x.p: self._uns[p] = x.p
                            hs.append(p)
                        return IV(64, self.halves(*hs))
                    bs = []
                    for i in range(n):
                        b = self.read1(st, o, cells, hist, c + i)
                        bs.append(b)
                    return IV(8 * n, self.compose(bs))
            else:
                return self.read_cells_sym(st, o, cells, hist, off, n, t, sorted(cells))
        return self.read_hist(st, o, hist, off, n, t)
    def read1(self, st, o, cells, hist, c):
        for k in cells:
            kn, kv = cells[k]
            if k <= c < k + kn: return self.val_bytes(kv, kn, st)[c - k]
        v = self.read_hist(st, o, hist, C(c), 1, 'i8')
        return self.canon(st, v) if isinstance(v, IV) else A(fresh('undef', 0, 255))
    def read_cells_sym(self, st, o, cells, hist, off, n, t, ks):
        for i, k in enumerate(ks):
            kn, kv = cells[k]
            rel = self.relation(st, off, n, C(k), kn)
            if rel == 'disj': continue
            if rel == 'same': return kv
            if isinstance(rel, tuple):      # maybe same
                rest = self.read_cells_sym(st, o, cells, hist, off, n, t, ks[i + 1:])
                return self.ite(rel[1], kv, rest, t, st)
            raise Unsupported(f"partial overlap symbolic read of {o.name}")
        return self.read_hist(st, o, hist, off, n, t)
    def relation(self, st, off, n, woff, wn):
        """'same' | 'disj' | ('may', F) | ('in', delta)"""
        d = off - woff
        c = d.const
        if c is not None:
            if c == 0 and n == wn: return 'same'
            if c >= wn or c <= -n: return 'disj'
            if c >= 0 and c + n <= wn: return 'part'
            return 'part'
        if n == wn and all(co % n == 0 for _, co in d.m):
            f = f_eq(d)
            if f is False: return 'disj'
            dd = self.decide(st, f)
            if dd is True: return 'same'
            if dd is False: return 'disj'
            return ('may', f)
        if self.decide(st, f_or(f_ge(d - wn), f_le(d + n))) is True: return 'disj'
        if n == wn and self.decide(st, f_eq(d)) is True: return 'same'
        return 'part'
    def inrange(self, st, off, n, dst, ln):
        f = f_and(f_ge(off - dst), f_le(off + n - dst - ln))
        g = f_or(f_le(off + n - dst), f_ge(off - dst - ln))
        if f is True: return True, f
        if g is True: return False, f
        # elements are never split when everything is a multiple of n
        if self.proved(st, f): return True, f
        if self.proved(st, g): return False, f
        dd = off - dst
        if all(co % n == 0 for _, co in dd.m) and all(co % n == 0 for _, co in ln.m): return None, f
        raise Unsupported('possibly partial overlap with a bulk write')
    def read_hist(self, st, o, hist, off, n, t):
        while hist is not None:
            k = hist[0]
            if k == 'W':
                _, prev, woff, wn, val = hist
                rel = self.relation(st, off, n, woff, wn)
                if rel == 'same': return val
                if rel == 'disj': hist = prev; continue
                if rel == 'part':
                    d = (off - woff).const
                    if d is not None and d >= 0 and d + n <= wn:
                        return IV(8 * n, self.compose(self.val_bytes(val, wn, st)[d:d + n]))
                    if d is not None and n > 1:
                        bs = []
                        for i in range(n):
                            b = self.read(st, o, {}, hist, off + i, 1, 'i8')
                            bs.append(self.canon(st, b) if isinstance(b, IV) else A(fresh('undef', 0, 255)))
                        return IV(8 * n, self.compose(bs))
                    raise Unsupported(f"partial overlap read {o.name}")
                rest = self.read_hist(st, o, prev, off, n, t)
                return self.ite(rel[1], val, rest, t, st)
            if k == 'K':
                return self.read(st, o, hist[2], hist[1], off, n, t)
            if k in ('C', 'F', 'H'):
                _, prev, dst, ln = hist[:4]
                r, f = self.inrange(st, off, n, dst, ln)
                if r is False: hist = prev; continue
                if k == 'C':
                    so, soff = hist[4], hist[5]
                    val = self.read(st, so, so.cells, so.hist, off - dst + soff, n, t)
                elif k == 'F':
                    es, val = hist[4], hist[5]
                    if es != n:
                        if n % es == 0 and es == 1:
                            b = self.val_bytes(val, 1, st)[0]; val = IV(8 * n, self.compose([b] * n))
                        else: raise Unsupported('fill element size')
                else: val = self.content(hist[4], off, n, t)
                if r is True: return val
                rest = self.read_hist(st, o, prev, off, n, t)
                return self.ite(f, val, rest, t, st)
            raise Unsupported(k)
        b = o.base
        if b[0] == 'zero':
            if t == 'ptr': return NULL
            return IV(8 * n, C(0)) if t[0] == 'i' else FV(8 * n, C(0))
        if b[0] == 'uninit': return self.content(f'uninit{o.id}', off, n, t)
        if b[0] == 'fn': return self.content(b[1], off, n, t)
        raise Unsupported(str(b))
    def content(self, fname, off, n, t):
        if t == 'ptr': return UNDEF if fname.startswith('uninit') else PV(None, A(app(f'{fname}_{n}', off, 0, 2**64 - 1)))
        if t[0] == 'f' and self.real:
            a = named(('rc', fname, off), f'{fname}[{off}]')
            r = z3.Real(a.name); T.REALS[a.id] = r
            return FV(8 * n, r=r, at=frozenset([a.id]))
        a = app(f'{fname}_{n}', off, 0, 256**n - 1)
        if t[0] == 'f': return FV(8 * n, A(a))
        return IV(8 * n, A(a))
    def ite(self, f, a, b, t, st):
        if f is True: return a
        if f is False: return b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if t == 'ptr': raise Fork(f)
        if t[0] == 'f': a = self.as_type(a, t, st); b = self.as_type(b, t, st)
        if isinstance(a, FV) and isinstance(b, FV):
            if a.r is not None or b.r is not None:
                ra, rb = self.toreal(a), self.toreal(b)
                if ra.r.eq(rb.r): return a
                return FV(a.w, r=z3.If(self.zfn(f), ra.r, rb.r), at=ra.at | rb.at | T.fatoms(f))
            return FV(a.w, self.ite_p(f, a.p, b.p))
        a = self.as_type(a, t, st) if not isinstance(a, IV) else a
        b = self.as_type(b, t, st) if not isinstance(b, IV) else b
        if a.b is not None and b.b is not None:
            return self.mkbool(f_or(f_and(f, a.b), f_and(f_not(f), b.b)), a.w)
        return IV(a.w, self.ite_p(f, self.canon(st, a), self.canon(st, b)))
    def ite_p(self, f, p, q):
        if p == q: return p
        pl, ph = p.iv(); ql, qh = q.iv()
        a = named(('ite', f, p, q), 'ite', None if pl is None or ql is None else min(pl, ql), None if ph is None or qh is None else max(ph, qh))
        if not a.axioms: a.axioms = [f_imp(f, f_eq(A(a) - p)), f_imp(f_not(f), f_eq(A(a) - q))]; T.ITES[a.id] = (f, p, q)
        return A(a)
    def zfn(self, f):
        return T.zf(f, False)
    def fill(self, st, dst, n, esize, val, loc):
        """n bytes (poly)"""
        if n.const is not None and n.const <= 64 * esize and n.const % esize == 0:
            for i in range(n.const // esize): self.store(st, PV(dst.o, dst.p + i * esize), esize, val, loc)
            return
        if n.const == 0: return
        if self.decide(st, f_le(n)) is True: return
        self.bounds_n(st, dst, n, 'fill', loc)
        o = st.mem[dst.o]; self.log(st, dst.o, dst.p, n, None)
        h = ('K', o.hist, o.cells) if o.cells else o.hist
        st.mem[dst.o] = o.upd(cells={}, hist=('F', h, dst.p, n, esize, val))
    def bounds_n(self, st, v, n, what, loc):
        """n >= 0 bytes, nothing required if n == 0"""
        if v.o is None:
            self.oblig(st, 'bounds', f'{what} through null/unknown pointer', f_le(n), loc); return
        o = st.mem[v.o]
        self.oblig(st, 'bounds', what, f_or(f_le(n), f_and(f_ge(v.p), f_le(v.p + n - o.size))), loc)
    def copy(self, st, dst, src, n, loc, what='copy'):
        c = n.const
        if c == 0: return
        if c is None and self.decide(st, f_le(n)) is True: return
        self.bounds_n(st, dst, n, what + ' (destination)', loc)
        self.bounds_n(st, src, n, what + ' (source)', loc)
        if dst.o is None or src.o is None: return
        so = st.mem[src.o]
        if c is not None and src.p.const is not None and dst.p.const is not None and c <= 4096:
            s0 = src.p.const
            # cell-wise copy when the source range is made of whole cells
            cs = [(k, so.cells[k]) for k in sorted(so.cells) if k < s0 + c and s0 < k + so.cells[k][0]]
            covered = sum(x[1][0] for x in cs)
            if all(k >= s0 and k + e[0] <= s0 + c for k, e in cs) and (covered == c or (so.hist is None and so.base[0] in ('uninit',))):
                for k, (kn, kv) in cs: self.store(st, PV(dst.o, dst.p + (k - s0)), kn, kv, loc, chk=False)
                return
            if c <= 32 and c in (1, 2, 4, 8):
                v = self.read(st, so, so.cells, so.hist, src.p, c, f'i{8*c}')
                self.store(st, dst, c, v, loc, chk=False); return
        elif c in (1, 2, 4, 8):
            v = self.read(st, so, so.cells, so.hist, src.p, c, f'i{8*c}')
            self.store(st, dst, c, v, loc, chk=False); return
        o = st.mem[dst.o]; self.log(st, dst.o, dst.p, n, None)
        h = ('K', o.hist, o.cells) if o.cells else o.hist
        st.mem[dst.o] = o.upd(cells={}, hist=('C', h, dst.p, n, so, src.p))
    def havoc(self, st, dst, n, fname, loc):
        self.bounds_n(st, dst, n, 'havoc', loc)
        if dst.o is None: return
        o = st.mem[dst.o]; self.log(st, dst.o, dst.p, n, None)
        h = ('K', o.hist, o.cells) if o.cells else o.hist
        st.mem[dst.o] = o.upd(cells={}, hist=('H', h, dst.p, n, fname))

    # ---------------------------------------------------------------- reals
    def toreal(self, v):
        if v.r is not None: return v
        c = v.p.const
        if c is not None:
            if v.w == 32: x = struct.unpack('<f', struct.pack('<I', c))[0]
            else: x = struct.unpack('<d', struct.pack('<Q', c))[0]
            if x != x or x in (float('inf'), float('-inf')): raise Unsupported('nan/inf constant in real mode')
            fr = fractions.Fraction(x)
            return FV(v.w, r=z3.RealVal(f"{fr.numerator}/{fr.denominator}"))
        a = named(('b2r', v.p, v.w), 'real')
        T.REALS[a.id] = z3.Real(a.name)
        return FV(v.w, r=z3.Real(a.name), at=frozenset([a.id]))
    def fconst(self, v):
        if v.r is not None: return None
        c = v.p.const
        if c is None: return None
        if v.w == 32: return struct.unpack('<f', struct.pack('<I', c))[0]
        if v.w == 64: return struct.unpack('<d', struct.pack('<Q', c))[0]
        return None
    def mkf(self, x, w):
        if w == 32: return FV(32, C(struct.unpack('<I', struct.pack('<f', x))[0]))
        return FV(64, C(struct.unpack('<Q', struct.pack('<d', x))[0]))
    def fbin(self, op, a, b, w):
        if a is UNDEF: a = self.undef_to(f'f{w}')
        if b is UNDEF: b = self.undef_to(f'f{w}')
        x, y = self.fconst(a), self.fconst(b)
        if self.real and not (a.r is None and b.r is None and x is not None and y is not None and self.exact(op, x, y, w) is not None):
            ra, rb = self.toreal(a), self.toreal(b)
            if op == 'fadd': r = ra.r + rb.r
            elif op == 'fsub': r = ra.r - rb.r
            elif op == 'fmul': r = ra.r * rb.r
            elif op == 'fdiv': r = ra.r / rb.r
            else: raise Unsupported(op)
            return FV(w, r=z3.simplify(r), at=ra.at | rb.at)
        if x is not None and y is not None:
            e = self.exact(op, x, y, w)
            if e is not None: return self.mkf(e, w)
        return FV(w, A(app(f'{op}{w}', (a.p, b.p), 0, 2**w - 1)))
    def exact(self, op, x, y, w):
        try:
            fx, fy = fractions.Fraction(x), fractions.Fraction(y)
            r = {'fadd': lambda: fx + fy, 'fsub': lambda: fx - fy, 'fmul': lambda: fx * fy, 'fdiv': lambda: fx / fy}[op]()
            e = float(r)
            if w == 32: e = struct.unpack('<f', struct.pack('<f', e))[0]
            if fractions.Fraction(e) == r and not (r == 0): return e
            if r == 0 and op in ('fadd', 'fsub'): return 0.0
        except Exception: pass
        return None
    def fcmp(self, pred, a, b, st):
        if a is UNDEF or b is UNDEF: return named_bool()
        if pred == 'true': return True
        if pred == 'false': return False
        op = pred[1:]
        if pred == 'ord': return True if self.real else T.f_eq(A(app('ord', (a.p, b.p), 0, 1)) - 1)
        if pred == 'uno': return False if self.real else T.f_eq(A(app('uno', (a.p, b.p), 0, 1)) - 1)
        x, y = self.fconst(a), self.fconst(b)
        if x is not None and y is not None:
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
        if self.real:
            ra, rb = self.toreal(a), self.toreal(b)
            e = {'eq': lambda: ra.r == rb.r, 'ne': lambda: ra.r != rb.r, 'lt': lambda: ra.r < rb.r, 'le': lambda: ra.r <= rb.r,
                 'gt': lambda: ra.r > rb.r, 'ge': lambda: ra.r >= rb.r}[op]()
            return T.z_formula(e, (), tuple(sorted(ra.at | rb.at)))
        w = a.w
        for u, v in ((a, b), (b, a)):
            if self.fconst(v) == 0.0 and op in ('eq', 'ne'):
                f = f_or(f_eq(u.p), f_eq(u.p - (1 << (w - 1))))
                return f if op == 'eq' else f_not(f)
        if op in ('gt', 'ge'):
            op = {'gt': 'lt', 'ge': 'le'}[op]; a, b = b, a
        if op == 'ne': return f_not(f_eq(A(app(f'feq{w}', (a.p, b.p), 0, 1)) - 1))
        return f_eq(A(app(f'f{op}{w}', (a.p, b.p), 0, 1)) - 1)
    def real_to_int(self, v, w, st, signed, mode='trunc'):
        x = self.fconst(v)
        if x is not None:
            import math
            if mode == 'floor': return C(math.floor(x))
            if mode == 'ceil': return C(math.ceil(x))
            return C(int(x))
        if not self.real: return A(app(f'f2i_{mode}{v.w}_{w}', v.p, 0 if not signed else -2**(w-1), 2**w - 1 if not signed else 2**(w-1)-1))
        v = self.toreal(v)
        r = v.r
        # integral real?
        s = z3.simplify(r)
        q = self._i2r.get(s.get_id())
        if q is not None: return q[1]
        k = ('r2i', mode, s.sexpr())
        a = named(k, mode, None, None)
        if not a.axioms:
            n = z3.ToReal(z3.Int(a.name))
            fl = z3.And(n <= r, r < n + 1); ce = z3.And(n - 1 < r, r <= n)
            e = fl if mode == 'floor' else ce if mode == 'ceil' else z3.If(r >= 0, fl, ce)
            a.axioms = [T.z_formula(e, (), tuple(sorted(set(v.at) | {a.id})))]
        return A(a)
    def int_to_real(self, p, w, at=frozenset()):
        c = p.const
        if c is not None: return self.mkf(float(c), w) if abs(c) < 2**24 else FV(w, r=z3.RealVal(c))
        r = z3.simplify(z3.ToReal(T.zp(p, False)))
        self._i2r[r.get_id()] = (r, p)
        return FV(w, r=r, at=p.atoms())

    # ---------------------------------------------------------------- instructions
    def gep(self, g, st, env):
        b = self.opv(g['base'], st)
        off = C(g['c'])
        for o, s in g['v']:
            v = self.opv(o, st)
            if v is UNDEF: raise Unsupported('undef index')
            off = off + self.canon(st, v, True) * s
        if isinstance(b, FN): raise Unsupported('gep on function')
        if b is UNDEF: return UNDEF
        return PV(b.o, b.p + off)
    def cast(self, op, v, ot, t, st):
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            if v is UNDEF: return self.undef_to(t)
            if isinstance(t, dict) or isinstance(ot, dict): return v
            return self.as_type(v, t, st)
        if v is UNDEF: v = self.undef_to(ot)
        if op == 'zext':
            if v.w == 1:
                return self.mkbool(self.boolof(v, st), tbits(t))
            p = self.canon(st, v, False)
            if v.w == 32 and p != v.p: self._uns[p] = v.p
            return IV(tbits(t), p, v.b)
        if op == 'sext':
            if v.w == 1:
                f = self.boolof(v, st); b = self.mkbool(f); return IV(tbits(t), -b.p)
            return IV(tbits(t), self.canon(st, v, True))
        if op == 'trunc':
            w = tbits(t)
            if w == 1:
                if v.b is not None: return IV(1, v.p, v.b)
                p = v.p
                if p.const is not None: return self.mkbool(bool(p.const & 1))
                l, h = p.iv()
                if l is not None and h is not None and l >= 0 and h <= 1: return IV(1, p, f_eq(p - 1))
                return self.mkbool(f_eq(self.divmod(st, self.canon(st, v), C(2))[1] - 1))
            if w == 32 and v.p.const is None:
                hv = self._half.get(v.p)
                p = v.p if hv is None else hv[0]
                if p in self._uns: p = self._uns[p]
                if hv is not None or p is not v.p: return IV(w, p, v.b)
            kn = self.bytes_known(v.p) if v.p.const is None else None
            if kn is not None and w % 8 == 0: return IV(w, self.compose((list(kn) + [C(0)] * 8)[:w // 8]))
            return IV(w, v.p, v.b)
        if op == 'ptrtoint': return IV(tbits(t), self.ptrint(v, st))
        if op == 'inttoptr':
            return self.intptr(self.canon(st, v), st)
        if op == 'fpext':
            if v.r is not None: return FV(tbits(t), r=v.r, at=v.at)
            x = self.fconst(v)
            if x is not None: return self.mkf(x, tbits(t))
            if self.real: r = self.toreal(v); return FV(tbits(t), r=r.r, at=r.at)
            return FV(tbits(t), A(app(f'fpext{v.w}', v.p, 0, 2**tbits(t) - 1)))
        if op == 'fptrunc':
            if v.r is not None: return FV(tbits(t), r=v.r, at=v.at)
            x = self.fconst(v)
            if x is not None and tbits(t) == 32 and struct.unpack('<f', struct.pack('<f', x))[0] == x: return self.mkf(x, 32)
            if self.real: r = self.toreal(v); return FV(tbits(t), r=r.r, at=r.at)
            # fptrunc(fpext(x)) == x
            m = v.p.m
            if len(m) == 1 and len(m[0][0]) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0][0]]
                if a.app and a.app[0] == f'fpext{tbits(t)}': return FV(tbits(t), a.app[1])
            return FV(tbits(t), A(app(f'fptrunc{v.w}', v.p, 0, 2**tbits(t) - 1)))
        if op in ('uitofp', 'sitofp'):
            p = self.canon(st, v, op == 'sitofp')
            c = p.const
            if c is not None and abs(c) < 2**24: return self.mkf(float(c), tbits(t))
            if self.real: return self.int_to_real(p, tbits(t))
            return FV(tbits(t), A(app(f'i2f{tbits(t)}', p, 0, 2**tbits(t) - 1)))
        if op in ('fptoui', 'fptosi'):
            return IV(tbits(t), self.real_to_int(v, tbits(t), st, op == 'fptosi'))
        raise Unsupported(op)
    def divmod(self, st, p, q):
        """floor division of p >= 0 by q > 0 (both canonical)"""
        c = q.const
        if c is not None:
            if p.const is not None: return C(p.const // c), C(p.const % c)
            if all(co % c == 0 for _, co in p.m):
                return P(tuple((k, v // c) for k, v in p.m)), C(0)
        l, h = p.iv(); ql, qh = q.iv()
        if p == q: return C(1), C(0)
        if self.proved(st, f_lt(p - q)) and self.proved(st, f_ge(p)): return C(0), p
        # exact polynomial division by a monomial
        if len(q.m) == 1 and q.m[0][0]:
            qm, qc = q.m[0]
            ok = True; r = {}
            for mon, co in p.m:
                d = T._div(mon, qm)
                if d is None or co % qc: ok = False; break
                r[d] = co // qc
            if ok: return T.mk(r), C(0)
        hi = None if h is None else max(h, 0) // max(ql or 1, 1)
        lo = 0 if l is not None and l >= 0 else None
        Q = named(('div', p, q), 'q', lo, hi); R = named(('rem', p, q), 'r', 0, None if qh is None else max(qh - 1, 0))
        if not Q.axioms:
            ax = f_imp(f_ge(q - 1), f_and(f_eq(p - A(Q) * q - A(R)), f_le(A(R) - q + 1)))
            Q.axioms = [ax]; R.axioms = [ax]
            T.DEFS[Q.id] = ('div', p, q); T.DEFS[R.id] = ('rem', p, q)
            # x/y <= x for y >= 1 and x >= 0
            Q.axioms.append(f_imp(f_and(f_ge(q - 1), f_ge(p)), f_and(f_ge(A(Q)), f_le(A(Q) - p))))
        return A(Q), A(R)
    def binop(self, op, a, b, t, st, loc):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fbin(op, a, b, tbits(t))
        w = tbits(t)
        if a is UNDEF: a = self.undef_to(t)
        if b is UNDEF: b = self.undef_to(t)
        if isinstance(a, PV): a = IV(64, self.ptrint(a, st))
        if isinstance(b, PV): b = IV(64, self.ptrint(b, st))
        if op == 'add': return self.red(IV(w, a.p + b.p))
        if op == 'sub': return self.red(IV(w, a.p - b.p))
        if op == 'mul':
            r = a.p * b.p
            if r.const is None and a.p.const is None and b.p.const is None and (len(a.p.m) > 1 or len(b.p.m) > 1) and r not in T.PRODS: T.PRODS[r] = (a.p, b.p)
            return self.red(IV(w, r))
        if w == 1 or (a.b is not None and b.b is not None and op in ('and', 'or', 'xor')):
            fa, fb = self.boolof(a, st), self.boolof(b, st)
            f = {'and': f_and, 'or': f_or, 'xor': f_xor}[op](fa, fb)
            return self.mkbool(f, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'
            p, q = self.canon(st, a, sg), self.canon(st, b, sg)
            self.oblig(st, 'div0', 'division by zero', f_not(f_eq(q)), loc)
            if sg:
                if not (self.proved(st, f_ge(p)) and self.proved(st, f_ge(q - 1))):
                    # truncated signed division by cases
                    if q.const is not None and q.const > 0:
                        f = f_ge(p)
                        d = self.decide(st, f)
                        if d is None: raise Fork(f)
                        if d is False:
                            Q, R = self.divmod(st, -p, q)
                            return IV(w, -Q) if op == 'sdiv' else IV(w, -R)
                    else: raise Unsupported('signed division')
            Q, R = self.divmod(st, p, q)
            return IV(w, Q if op[1:] == 'div' else R)
        if op == 'shl':
            q = self.canon(st, b)
            if q.const is not None: return self.red(IV(w, a.p * (1 << q.const)))
            if a.p.const == 1:
                return IV(w, A(app('pow2', q, 1, 2**(w - 1))))
            raise Unsupported('shl')
        if op in ('lshr', 'ashr'):
            q = self.canon(st, b)
            if q.const is None: raise Unsupported('shift')
            p = self.canon(st, a, op == 'ashr')
            if op == 'lshr' and q.const == 32 and p in self._half: return IV(w, self._half[p][1])
            if q.const % 8 == 0 and op == 'lshr' and (self.bytes_known(p) is not None or w in (32, 64)) and q.const:
                if all(co % (1 << q.const) == 0 for _, co in p.m): return IV(w, P(tuple((k, v >> q.const) for k, v in p.m)))
                bs = self.bytes_of(p, w // 8)
                return IV(w, self.compose(bs[q.const // 8:]))
            if op == 'ashr' and not self.proved(st, f_ge(p)):
                if all(co % (1 << q.const) == 0 for _, co in p.m): return IV(w, P(tuple((k, v >> q.const) for k, v in p.m)))
                d = self.decide(st, f_ge(p))
                if d is None: raise Fork(f_ge(p))
                if d is False:
                    Q, R = self.divmod(st, -p + ((1 << q.const) - 1), C(1 << q.const)); return IV(w, -Q)
            return IV(w, self.divmod(st, p, C(1 << q.const))[0])
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                m = y.p.const
                if m is None: continue
                m &= (1 << w) - 1
                if m == 0: return IV(w, C(0))
                if m == (1 << w) - 1: return x
                p = self.canon(st, x)
                if p.const is not None: return IV(w, C(p.const & m))
                l, h = p.iv()
                if (m & (m + 1)) == 0:
                    if h is not None and l is not None and l >= 0 and h <= m: return IV(w, p)
                    bl = m.bit_length()
                    if bl % 8 == 0:
                        return IV(w, self.compose(self.bytes_of(p, w // 8)[:bl // 8]))
                    return IV(w, self.divmod(st, p, C(m + 1))[1])
                inv = (~m) & ((1 << w) - 1)
                if (inv & (inv + 1)) == 0: return self.red(IV(w, p - self.divmod(st, p, C(inv + 1))[1]))
                if all(((m >> (8 * i)) & 255) in (0, 255) for i in range(w // 8)):
                    bs = self.bytes_of(p, w // 8)
                    return IV(w, self.compose([bs[i] if (m >> (8 * i)) & 255 else C(0) for i in range(w // 8)]))
                if m & (m - 1) == 0:
                    k = m.bit_length() - 1
                    q = self.divmod(st, p, C(1 << k))[0]
                    return IV(w, self.divmod(st, q, C(2))[1] * m)
            p, q = self.canon(st, a), self.canon(st, b)
            if p == q: return a
            r = named(('and', p, q), 'and', 0, 2**w - 1)
            if not r.axioms: r.axioms = [f_le(A(r) - p), f_le(A(r) - q)]
            return IV(w, A(r))
        if op == 'or':
            p, q = self.canon(st, a), self.canon(st, b)
            if p == C(0): return b
            if q == C(0): return a
            if p == q: return a
            if p.const is not None and q.const is not None: return IV(w, C(p.const | q.const))
            if w == 64 and self.bytes_known(p) is None and self.bytes_known(q) is None:
                for x, y in ((p, q), (q, p)):
                    l, h = y.iv()
                    if l is not None and l >= 0 and x.m and all(co % 2**32 == 0 for _, co in x.m) and (h is not None and h < 2**32 or self.proved(st, f_le(y - (2**32 - 1)))):
                        return IV(w, self.halves(y, P(tuple((kk, co >> 32) for kk, co in x.m))))
            ka, kb = self.bytes_or_shift(p, w, st), self.bytes_or_shift(q, w, st)
            if ka is not None and kb is not None and all(x == C(0) or y == C(0) for x, y in zip(ka, kb)):
                return IV(w, self.compose([x if y == C(0) else y for x, y in zip(ka, kb)]))
            r = named(('or', p, q), 'or', 0, 2**w - 1)
            if not r.axioms: r.axioms = [f_ge(A(r) - p), f_ge(A(r) - q), f_le(A(r) - p - q)]
            return IV(w, A(r))
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if y.p.const is not None and y.p.const & ((1 << w) - 1) == (1 << w) - 1: return self.red(IV(w, C(-1) - x.p))
                if y.p.const == 0: return x
            if a.p == b.p: return IV(w, C(0))
            p, q = self.canon(st, a), self.canon(st, b)
            if p.const is not None and q.const is not None: return IV(w, C(p.const ^ q.const))
            return IV(w, A(app(f'xor{w}', (p, q), 0, 2**w - 1)))
        raise Unsupported(op)
    def bytes_or_shift(self, p, w, st):
        k = self.bytes_known(p)
        if k is not None: return (list(k) + [C(0)] * 8)[:w // 8]
        # p = 256^i * q with q having known bytes
        for i in range(w // 8 - 1, 0, -1):
            if all(co % (256 ** i) == 0 for _, co in p.m):
                q = P(tuple((kk, v // 256 ** i) for kk, v in p.m))
                l, h = q.iv()
                n = w // 8 - i
                if l is not None and l >= 0 and h is not None and h < 256 ** n:
                    return [C(0)] * i + self.bytes_of(q, n)
        l, h = p.iv()
        if l is not None and l >= 0 and h is not None and h < 256 ** (w // 8):
            n = 1
            while 256 ** n <= h: n += 1
            return self.bytes_of(p, n) + [C(0)] * (w // 8 - n)
        return None
    def red(self, v):
        c = v.p.const
        if c is not None and not (0 <= c < (1 << v.w)): return IV(v.w, C(c & ((1 << v.w) - 1)))
        return v
    def icmp(self, pred, a, b, t, st):
        if a is UNDEF: a = self.undef_to(t)
        if b is UNDEF: b = self.undef_to(t)
        if isinstance(a, FN) or isinstance(b, FN):
            if isinstance(a, FN) and isinstance(b, FN): e = a.n == b.n
            else: e = False
            return e if pred == 'eq' else not e
        if isinstance(a, PV) or isinstance(b, PV):
            if not isinstance(a, PV) or not isinstance(b, PV): raise Unsupported('icmp ptr/int')
            if a.o == b.o: p, q = a.p, b.p
            elif pred in ('eq', 'ne'):
                if (a.o is None and a.p.const is None) or (b.o is None and b.p.const is None):
                    p, q = self.ptrint(a, st), self.ptrint(b, st)
                else:
                    return pred == 'ne'
            else: p, q = self.ptrint(a, st), self.ptrint(b, st)
        else:
            if a.w == 1:
                fa, fb = self.boolof(a, st), self.boolof(b, st)
                if pred == 'eq': return f_iff(fa, fb)
                if pred == 'ne': return f_xor(fa, fb)
            if pred in ('eq', 'ne'):
                # bool materialised in a wider integer
                for x, y in ((a, b), (b, a)):
                    if x.b is not None and y.p.const is not None:
                        c = y.p.const
                        f = x.b if c == 1 else f_not(x.b) if c == 0 else False
                        return f if pred == 'eq' else f_not(f)
                if a.p == b.p: return pred == 'eq'
            sg = pred[0] == 's'
            p, q = self.canon(st, a, sg), self.canon(st, b, sg)
        k = pred[-2:] if pred not in ('eq', 'ne') else pred
        if k == 'eq': return f_eq(p - q)
        if k == 'ne': return f_not(f_eq(p - q))
        if k == 'lt': return f_lt(p - q)
        if k == 'le': return f_le(p - q)
        if k == 'gt': return f_gt(p - q)
        if k == 'ge': return f_ge(p - q)
        raise Unsupported(pred)

    # ---------------------------------------------------------------- control
    def start(self, entry):
        st = State()
        st.frames = []; st.mem = {}; st.pc = []; st.pcs = set(); st.ghost = {}; st.nobj = 1; st.wlog = None
        st.canon = set(); st.trace = None; st.thr = False; st.wit = (); st.unroll = 0; st.heads = (); st.lastev = (); st.trail = 0
        self.push(st, entry, [], None, None, None)
        return st
    def push(self, st, fname, args, ret, rett, norm):
        fn = self.F[fname]
        if fn['decl']: raise Unsupported(f"external function {fn['dem']}")
        if len(st.frames) > 200: raise Unsupported('recursion too deep')
        self.funcs.add(fname)
        f = Frame(); f.fn = fn; f.fname = fname; f.env = {}; f.bb = 0; f.ip = 0; f.prev = None
        f.ret = ret; f.rett = rett; f.norm = norm; f.loops = ()
        for i, a in enumerate(args[:len(fn['args'])]): f.env[i] = a
        st.frames.append(f)
    def jump(self, st, fr, succ):
        """take edge fr.bb -> succ, evaluating phis; returns event or None"""
        fn = fr.fn
        # leaving loops
        loops = old = fr.loops
        while loops and succ not in loops[-1].blocks: loops = loops[:-1]
        ev = None
        if succ in fn['lp']:
            if loops and loops[-1].header == succ:
                inst = loops[-1]
                if inst.cut: ev = ('back', inst)
                else:
                    inst2 = inst
                    it = st.ghost.get(('it', inst.id), 0) + 1
                    st.ghost[('it', inst.id)] = it
                    conc = st.ghost.pop(('cc', inst.id), False)
                    if (not conc or self.cfg.get('cut', '-') in inst.fname) and it > st.unroll: raise CutNeeded(inst)
                    if it > 5000: raise Unsupported('too many iterations')
            else:
                inst = LoopInst(); inst.id = next(self.loopid); inst.header = succ; inst.blocks = fn['lp'][succ]
                inst.cut = False; inst.cancelled = False; inst.fname = fr.fname
                fr.loops = loops
                inst.snap = (st.clone(), succ)
                loops = loops + (inst,)
        evs = [('exit', i) for i in old if i.cut and i not in loops]
        if ev is not None: evs.append(ev)
        fr.loops = loops
        blk = fn['blocks'][succ]
        vals = []
        for ins in blk:
            if ins['op'] != 'phi': break
            for pb, o in ins['a']:
                if pb == fr.bb:
                    vals.append((ins['id'], self.opv(o, st))); break
            else: raise Unsupported('phi')
        for i, v in vals: fr.env[i] = v
        fr.prev = fr.bb; fr.bb = succ; fr.ip = len(vals)
        st.lastev = evs
        return evs

    def explore(self, init, depth=None, inst=None):
        """run states to completion.  If inst is given, stop at its back edges and exits (frame depth `depth`)."""
        work = list(init); backs = []; exits = []
        while work:
            st = work.pop()
            if any(l.cancelled for fr in st.frames for l in fr.loops): continue
            self.check_time()
            try:
                r = self.run(st, work, depth, inst)
            except PathEnd:
                if not self.quiet: self.paths += 1
                continue
            except CutNeeded as c:
                c.inst.cancelled = True
                snap, succ = c.inst.snap
                if any(l.cancelled for fr in snap.frames for l in fr.loops): continue
                for s2 in self.cut_loop(snap, succ):
                    e = self.event(s2, s2.lastev, depth, inst)
                    if e is None: work.append(s2)
                    elif e == 'back': backs.append(s2)
                    else: exits.append(s2)
                continue
            if r is None:
                if not self.quiet: self.paths += 1
            elif r[0] == 'back': backs.append(st)
            elif r[0] == 'exit': exits.append(st)
            if self.paths > self.max_paths: raise Budget('too many paths')
        return backs, exits

    def event(self, st, ev, depth, inst):
        """is this event the one the current exploration stops at?"""
        if not ev or inst is None: return None
        for e in ev:
            if e[1] is inst: return e[0]
        return None

    def run(self, st, work, depth, inst):
        while True:
            if not st.frames: return None
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bb][fr.ip]
            self.steps += 1
            if self.steps & 1023 == 0: self.check_time()
            op = ins['op']
            try:
                if op == 'br':
                    if len(ins['succ']) == 1: s = ins['succ'][0]
                    else:
                        f = self.boolof(self.opv(ins['a'][0], st), st)
                        s = self.branch(st, fr, ins, f, work)
                    ev = self.jump(st, fr, s)
                    e = self.event(st, ev, depth, inst)
                    if e: return (e,)
                    continue
                if op == 'switch':
                    v = self.opv(ins['a'][0], st)
                    p = self.canon(st, v)
                    tgt = None
                    for o, b in ins['cases']:
                        c = int(o['i'])
                        f = f_eq(p - c)
                        d = self.decide(st, f)
                        if d is True: tgt = b; break
                        if d is None: raise Fork(f)
                    ev = self.jump(st, fr, ins['def'] if tgt is None else tgt)
                    e = self.event(st, ev, depth, inst)
                    if e: return (e,)
                    continue
                if op == 'ret':
                    v = self.opv(ins['a'][0], st) if ins['a'] else None
                    st.frames.pop()
                    if not st.frames: return None
                    cf = st.frames[-1]
                    if fr.ret is not None: cf.env[fr.ret] = v
                    if fr.norm is not None:
                        ev = self.jump(st, cf, fr.norm)
                        e = self.event(st, ev, depth, inst)
                        if e: return (e,)
                    else: cf.ip += 1
                    continue
                if op in ('call', 'invoke'):
                    ev = self.call(st, fr, ins, work)
                    e = self.event(st, ev, depth, inst)
                    if e: return (e,)
                    continue
                if op == 'unreachable': raise PathEnd()
                v = self.simple(st, fr, ins, op)
                if v is not None: fr.env[ins['id']] = v
                fr.ip += 1
            except Fork as fk:
                d = self.decide(st, fk.f)
                if d is not None:
                    if d: st.assume(fk.f)
                    else: st.assume(f_not(fk.f))
                    continue
                self.forks.append(fk.f)
                s2 = st.clone(); s2.trail = hash((s2.trail, fr.bb, fr.ip, 3)); st.trail = hash((st.trail, fr.bb, fr.ip, 2))
                s2.assume(f_not(fk.f)); work.append(s2); st.assume(fk.f)

    def branch(self, st, fr, ins, f, work):
        a, b = ins['succ']
        if f is True or f is False:
            s = a if f else b
            for l in fr.loops:
                if (a in l.blocks) != (b in l.blocks): st.ghost[('cc', l.id)] = True
            return s
        d = self.decide(st, f)
        if d is True: return a
        if d is False: return b
        self.forks.append(f)
        s2 = st.clone(); s2.trail = hash((s2.trail, fr.bb, fr.fname, 1)); st.trail = hash((st.trail, fr.bb, fr.fname, 0))
        # continue with the edge that stays in the innermost loop first
        if fr.loops and b in fr.loops[-1].blocks and a not in fr.loops[-1].blocks:
            s2.assume(f); s2.ghost['force'] = None
            st.assume(f_not(f)); nxt = b
        else:
            s2.assume(f_not(f)); st.assume(f); nxt = a
        work.append(s2)
        return nxt

    def simple(self, st, fr, ins, op):
        a = ins['a']
        loc = ins.get('loc', '')
        if op == 'alloca':
            n = self.opv(a[0], st)
            sz = n.p * ins['size']
            return PV(self.new_obj(st, f"{fr.fname[:30]}:{ins['id']}", sz, 'stack'), C(0))
        if op == 'load':
            v = self.opv(a[0], st)
            if v is UNDEF: raise Unsupported('load through undef pointer')
            return self.load(st, v, ins['t'], loc)
        if op == 'store':
            v = self.opv(a[0], st); p = self.opv(a[1], st)
            t = ins['ot'][0]
            self.storet(st, p, t, v, loc)
            return None
        if op == 'getelementptr':
            return self.gep(ins['gep'], st, fr.env)
        if op == 'icmp':
            return self.mkbool(self.icmp(ins['pred'], self.opv(a[0], st), self.opv(a[1], st), ins['ot'][0], st))
        if op == 'fcmp':
            return self.mkbool(self.fcmp(ins['pred'], self.opv(a[0], st), self.opv(a[1], st), st))
        if op == 'select':
            f = self.boolof(self.opv(a[0], st), st)
            x, y = self.opv(a[1], st), self.opv(a[2], st)
            d = self.decide(st, f)
            if d is True: return x
            if d is False: return y
            if isinstance(x, (AG, FN)): raise Fork(f)
            if isinstance(x, PV) or isinstance(y, PV):
                if isinstance(x, PV) and isinstance(y, PV) and x.o == y.o and x.p == y.p: return x
                raise Fork(f)
            if x is UNDEF: return y
            if y is UNDEF: return x
            if ins['t'] == 'i1': return self.mkbool(f_or(f_and(f, self.boolof(x, st)), f_and(f_not(f), self.boolof(y, st))))
            return self.ite(f, x, y, ins['t'], st)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'freeze'):
            return self.cast(op, self.opv(a[0], st), ins['ot'][0], ins['t'], st)
        if op == 'fneg':
            v = self.opv(a[0], st)
            if v is UNDEF: v = self.undef_to(ins['t'])
            x = self.fconst(v)
            if x is not None: return self.mkf(-x, v.w)
            if self.real: r = self.toreal(v); return FV(v.w, r=-r.r, at=r.at)
            return FV(v.w, A(app(f'fneg{v.w}', v.p, 0, 2**v.w - 1)))
        if op == 'extractvalue':
            v = self.opv(a[0], st)
            for i in ins['idx']: v = v.v[i] if v is not UNDEF else UNDEF
            return v
        if op == 'insertvalue':
            v = self.opv(a[0], st); x = self.opv(a[1], st)
            def ins_(v, idx):
                if not idx: return x
                l = list(v.v); l[idx[0]] = ins_(l[idx[0]], idx[1:]); return AG(l)
            return ins_(v, ins['idx'])
        if op == 'landingpad': raise Unsupported('landingpad reached')
        if op in ('atomicrmw',):
            p = self.opv(a[0], st); v = self.opv(a[1], st)
            old = self.load(st, p, ins['ot'][1], loc)
            self.store(st, p, tsize(ins['ot'][1]), self.red(IV(old.w, old.p + v.p)), loc)
            return old
        if op == 'fence': return None
        if len(a) == 2:
            return self.binop(op, self.opv(a[0], st), self.opv(a[1], st), ins['t'], st, loc)
        raise Unsupported(f"instruction {op}")
    def storet(self, st, p, t, v, loc):
        if p is UNDEF: raise Unsupported('store through undef pointer')
        if isinstance(t, dict):
            if v is UNDEF: return
            fs, os = (t['f'], t['o']) if t['k'] == 's' else ([t['e']] * t['n'], [i * t['es'] for i in range(t['n'])])
            for f, o, x in zip(fs, os, v.v): self.storet(st, PV(p.o, p.p + o), f, x, loc)
            return
        if t == 'i1' and isinstance(v, IV): v = IV(8, v.p, v.b)
        if isinstance(v, IV) and v.b is None and t[0] == 'i' and v.p.const is None and tbits(t) < 64 or (isinstance(v, IV) and v.w != tbits(t) and t[0]=='i'):
            pass
        self.store(st, p, tsize(t), v, loc)

    # ---------------------------------------------------------------- calls
    def cstr(self, st, v):
        """constant C string"""
        if not isinstance(v, PV) or v.o is None: return '?'
        o = st.mem[v.o]; i = v.p.const; s = ''
        while i is not None and len(s) < 400:
            e = o.cells.get(i)
            if e is None: break
            c = e[1].p.const
            if not c: break
            s += chr(c); i += 1
        return s
    def closure_call(self, dem, sub):
        """the call operator of the closure type that is a template argument of the function with this demangled name"""
        i = dem.index(sub) + len(sub)
        if not sub.endswith('<'): i = dem.index('<', i) + 1
        if not hasattr(self, 'callops'):
            self.callops = {}
            for n, f in self.F.items():
                k = f['dem'].rfind("::operator()(")
                if k > 0 and not f['decl']:
                    pre = f['dem'][:k]
                    for q in range(len(pre)):       # the return type of a template call operator precedes the closure name
                        if q == 0 or pre[q - 1] == ' ': self.callops.setdefault(pre[q:], n)
        rest = dem[i:]; best = None
        for pre, n in self.callops.items():
            if rest.startswith(pre) and rest[len(pre):len(pre) + 1] in ('&', '>', ',') and (best is None or len(pre) > len(best[0])): best = (pre, n)
        return best and best[1]
    def call(self, st, fr, ins, work):
        callee = ins['callee']
        args = [self.opv(o, st) for o in ins['a']]
        for i, b in enumerate(ins.get('bv', [])):
            if b:
                o = self.new_obj(st, 'byval', b, 'stack')
                self.copy(st, PV(o, C(0)), args[i], C(b), ins.get('loc', ''))
                args[i] = PV(o, C(0))
        f = FN(callee['fn']) if isinstance(callee, dict) and 'fn' in callee else self.opv(callee, st)
        if not isinstance(f, FN): raise Unsupported(f"indirect call through {f} at {ins.get('loc')}")
        name = f.n; fn = self.F.get(name)
        if fn is None: raise Unsupported(f"function {name}")
        if self.replace:
            r = self.repl_cache.get(name)
            if r is None:
                r = (name, None)
                for sub, t, cb in self.replace:
                    if sub not in fn['dem'] or name == t or fn['decl']: continue
                    if not cb: r = (t, None); break
                    if len(self.F[t]['args']) != len(args) + 1: continue
                    op = self.closure_call(fn['dem'], sub)
                    if op: r = (t, op); break
                self.repl_cache[name] = r
            if r[1]: args = args + [FN(r[1])]
            if r[0] != name: name = r[0]; fn = self.F[name]
        import builtins_ev as B
        h = B.lookup(self, name, fn)
        if h is not None:
            r = h(self, st, fr, ins, args, fn)
            if r is B.PUSHED: return None
            if 'id' in ins: fr.env[ins['id']] = r
            if 'normal' in ins: return self.jump(st, fr, ins['normal'])
            fr.ip += 1
            return None
        self.push(st, name, args, ins.get('id'), ins['t'], ins.get('normal'))
        return None

class PathEnd(Exception): pass
def named_bool():
    a = fresh('undefb', 0, 1); return f_eq(A(a) - 1)
def _hs(self): return self.hist is not None
Obj.hist_sym = _hs
T.REALS = {}
import loops
Engine.cut_loop = loops.cut_loop
