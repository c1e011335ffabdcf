"""Polynomial integer terms, formulas and the prover used by the eisvc VC generator.

Integers are mathematical; machine wrap-around is made explicit by the engine (canonicalisation).
A term is a polynomial with integer coefficients over atoms.  An atom is a universally quantified
variable with a range and (possibly) defining axioms, or an application of an uninterpreted content
function to a term.  Formulas are nested tuples.
"""
import z3, time, os, math

ATOMS = []          # index -> Atom
STATS = {'queries': 0, 'time': 0.0, 'lin': 0, 'nla': 0, 'timeouts': 0}

class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'app', 'axioms', '_z', '_zl', 'inp', 'prod')
    def __init__(self, name, lo, hi, app=None):
        self.id = len(ATOMS); self.name = name; self.lo = lo; self.hi = hi; self.app = app
        self.axioms = []; self._z = None; self._zl = None; self.inp = False
        ATOMS.append(self)

_intern = {}
class P:
    __slots__ = ('m', '_iv', '_z', '_zl', '_at', '_nl')
    def __new__(cls, items):           # hash-consed: equality is identity
        p = _intern.get(items)
        if p is None:
            p = _intern[items] = object.__new__(cls)
            p.m = items; p._iv = False; p._z = None; p._zl = None; p._at = None; p._nl = None
        return p
    def __repr__(self): return pstr(self)
    def __add__(self, o): return padd(self, o if isinstance(o, P) else C(o))
    def __radd__(self, o): return padd(C(o), self)
    def __sub__(self, o): return padd(self, pscale(o if isinstance(o, P) else C(o), -1))
    def __rsub__(self, o): return padd(C(o), pscale(self, -1))
    def __mul__(self, o): return pmul(self, o) if isinstance(o, P) else pscale(self, o)
    __rmul__ = __mul__
    def __neg__(self): return pscale(self, -1)
    @property
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and self.m[0][0] == (): return self.m[0][1]
        return None
    @property
    def c0(self):
        return self.m[0][1] if self.m and self.m[0][0] == () else 0
    def atoms(self):
        if self._at is None: self._at = frozenset(a for mon, _ in self.m for a in mon)
        return self._at
    def iv(self):
        if self._iv is False: self._iv = interval(self)
        return self._iv
    def nonlinear(self):
        if self._nl is None: self._nl = any(len(mon) > 1 for mon, _ in self.m)
        return self._nl

def mk(d): return P(tuple(sorted((k, v) for k, v in d.items() if v)))
_consts = {}
def C(n):
    p = _consts.get(n)
    if p is None: p = _consts[n] = P((((), n),)) if n else P(())
    return p
def A(atom): return P((((atom.id,), 1),))
def padd(a, b):
    if not a.m: return b
    if not b.m: return a
    d = dict(a.m)
    for k, v in b.m: d[k] = d.get(k, 0) + v
    return mk(d)
def pscale(a, n):
    if n == 0: return C(0)
    if n == 1: return a
    return P(tuple((k, v * n) for k, v in a.m))
def pmul(a, b):
    d = {}
    for k1, v1 in a.m:
        for k2, v2 in b.m:
            k = tuple(sorted(k1 + k2)); d[k] = d.get(k, 0) + v1 * v2
    return mk(d)
def psubst(p, sub):
    """substitute atom id -> P"""
    if not (p.atoms() & sub.keys()): return p
    r = C(0)
    for mon, c in p.m:
        t = C(c)
        for a in mon: t = pmul(t, sub[a] if a in sub else A(ATOMS[a]))
        r = padd(r, t)
    return r
def pstr(p):
    if not p.m: return '0'
    out = []
    for mon, c in p.m:
        s = '*'.join(ATOMS[a].name if not ATOMS[a].app else f"{ATOMS[a].app[0]}({ATOMS[a].app[1]})" for a in mon)
        out.append(str(c) if not s else (s if c == 1 else f"{c}*{s}"))
    return ' + '.join(out)

def _imul(a, b):
    (l1, h1), (l2, h2) = a, b
    if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
        return (l1 * l2, None if h1 is None or h2 is None else h1 * h2)
    if None in (l1, h1, l2, h2): return (None, None)
    c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    return (min(c), max(c))
def mon_iv(mon):
    r = (1, 1)
    i = 0
    while i < len(mon):
        a = ATOMS[mon[i]]; n = 1
        while i + n < len(mon) and mon[i + n] == mon[i]: n += 1
        iv = (a.lo, a.hi)
        for _ in range(n): r = _imul(r, iv)
        if n == 2 and len(mon) == 2 and r[0] is None: r = (0, None)
        i += n
    return r
def interval(p):
    lo = hi = 0
    for mon, c in p.m:
        l, h = mon_iv(mon)
        if c < 0: l, h = h, l
        lo = None if lo is None or l is None else lo + l * c
        hi = None if hi is None or h is None else hi + h * c
    return (lo, hi)

# ---- formulas -------------------------------------------------------------------------------
def f_le(p):      # p <= 0
    lo, hi = p.iv()
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    g = 0
    for mon, c in p.m:
        if mon: g = math.gcd(g, c)
    if g > 1:
        d = {mon: (c // g if mon else -((-c) // g)) for mon, c in p.m}
        p = mk(d)
    return ('le', p)
def f_lt(p): return f_le(p + 1)
def f_ge(p): return f_le(-p)
def f_gt(p): return f_le(1 - p)
def f_eq(p):      # p == 0
    lo, hi = p.iv()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    if lo == 0 and hi == 0: return True
    g = 0
    for mon, c in p.m:
        if mon: g = math.gcd(g, c)
    if g > 1:
        if p.c0 % g: return False
        p = P(tuple((k, v // g) for k, v in p.m))
    for mon, c in p.m:
        if mon:
            if c < 0: p = -p
            break
    return ('eq', p)
def f_not(f):
    if f is True: return False
    if f is False: return True
    if f[0] == 'not': return f[1]
    if f[0] == 'le': return f_le(1 - f[1])
    if f[0] == 'and': return f_or(*[f_not(x) for x in f[1]])
    if f[0] == 'or': return f_and(*[f_not(x) for x in f[1]])
    return ('not', f)
def f_and(*fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        if f[0] == 'and': out += [x for x in f[1] if x not in out]
        elif f not in out: out.append(f)
    for f in out:
        if f_not(f) in out: return False
    if not out: return True
    return out[0] if len(out) == 1 else ('and', tuple(out))
def f_or(*fs):
    out = []
    for f in fs:
        if f is False: continue
        if f is True: return True
        if f[0] == 'or': out += [x for x in f[1] if x not in out]
        elif f not in out: out.append(f)
    for f in out:
        if f_not(f) in out: return True
    if not out: return False
    return out[0] if len(out) == 1 else ('or', tuple(out))
def f_imp(a, b): return f_or(f_not(a), b)
def f_iff(a, b):
    if a is True: return b
    if b is True: return a
    if a is False: return f_not(b)
    if b is False: return f_not(a)
    if a == b: return True
    return f_and(f_imp(a, b), f_imp(b, a))
def f_xor(a, b): return f_not(f_iff(a, b))

_fpolys = {}
def fpolys(f):
    """all polynomials in f"""
    if f is True or f is False: return ()
    r = _fpolys.get(f)
    if r is not None: return r
    if f[0] in ('le', 'eq'): r = (f[1],)
    elif f[0] == 'not': r = fpolys(f[1])
    elif f[0] in ('and', 'or'): r = tuple(q for x in f[1] for q in fpolys(x))
    elif f[0] == 'z': r = tuple(f[2])
    else: r = ()
    _fpolys[f] = r
    return r
_fatoms = {}
def fatoms(f):
    if f is True or f is False: return frozenset()
    r = _fatoms.get(f)
    if r is None:
        r = frozenset(a for p in fpolys(f) for a in p.atoms())
        if f[0] == 'z': r = r | frozenset(f[3])
        elif f[0] == 'not' and f[1][0] == 'z': r = r | frozenset(f[1][3])
        elif f[0] in ('and', 'or'):
            for x in f[1]: r = r | fatoms(x)
        _fatoms[f] = r
    return r

def z_formula(expr, polys=(), atoms=()):
    """raw z3 boolean; key is the sexpr so that equal expressions compare equal"""
    expr = z3.simplify(expr)
    if z3.is_true(expr): return True
    if z3.is_false(expr): return False
    _zreg.setdefault(expr.get_id(), expr)
    return ('z', expr.get_id(), tuple(polys), tuple(atoms))
_zreg = {}

# ---- atoms ------------------------------------------------------------------------------------
_named = {}
def fresh(name, lo=None, hi=None):
    return Atom(f"{name}!{len(ATOMS)}", lo, hi)
def named(key, name, lo=None, hi=None):
    a = _named.get(key)
    if a is None: a = _named[key] = fresh(name, lo, hi)
    return a
_apps = {}
def app(fname, p, lo, hi):
    key = (fname, p)
    a = _apps.get(key)
    if a is None:
        a = _apps[key] = Atom(f"{fname}[{p}]", lo, hi, (fname, p))
    return a
_ufs = {}
def uf(fname, sort='int', n=1):
    k = (fname, sort, n)
    if k not in _ufs:
        _ufs[k] = z3.Function(fname, *([z3.IntSort()] * n), z3.IntSort() if sort == 'int' else z3.RealSort())
    return _ufs[k]

def zmon(mon, lin):
    if lin and len(mon) > 1: return z3.Int('m_' + '_'.join(map(str, mon)))
    r = None
    for a in mon:
        z = zatom(ATOMS[a], lin); r = z if r is None else r * z
    return r
def zatom(a, lin):
    z = a._zl if lin else a._z
    if z is None:
        if a.app:
            args = a.app[1] if isinstance(a.app[1], tuple) else (a.app[1],)
            z = uf(a.app[0], n=len(args))(*[zp(x, lin) for x in args])
        else: z = z3.Int(a.name)
        if lin: a._zl = z
        else: a._z = z
    return z
def zp(p, lin=False):
    z = p._zl if lin else p._z
    if z is None:
        ts = []
        for mon, c in p.m:
            if not mon: ts.append(z3.IntVal(c))
            else:
                t = zmon(mon, lin); ts.append(t if c == 1 else c * t)
        z = z3.IntVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
        if lin: p._zl = z
        else: p._z = z
    return z
_zf = {}
def zf(f, lin=False):
    if f is True: return z3.BoolVal(True)
    if f is False: return z3.BoolVal(False)
    k = (f, lin); r = _zf.get(k)
    if r is not None: return r
    t = f[0]
    if t == 'le': r = zp(f[1], lin) <= 0
    elif t == 'eq': r = zp(f[1], lin) == 0
    elif t == 'not': r = z3.Not(zf(f[1], lin))
    elif t == 'and': r = z3.And([zf(x, lin) for x in f[1]])
    elif t == 'or': r = z3.Or([zf(x, lin) for x in f[1]])
    elif t == 'z': r = _zreg[f[1]]
    else: raise Exception(f)
    _zf[k] = r
    return r

# ---- prover -------------------------------------------------------------------------------------
def _nonneg(mon):
    return all(ATOMS[a].lo is not None and ATOMS[a].lo >= 0 for a in mon)
def _div(mon, t):
    m = list(mon)
    for a in t:
        if a in m: m.remove(a)
        else: return None
    return tuple(m)
def _leaves(f, out):
    if f is True or f is False: return
    if f[0] == 'and':
        for x in f[1]: _leaves(x, out)
    else: out.append(f)

def product_lemmas(facts, extra_polys, cap=400, rounds=2):
    """sound consequences of the facts: fact * nonneg monomial, chosen so that they talk about monomials that occur"""
    leaves = []
    for f in facts: _leaves(f, leaves)
    ineqs = [f for f in leaves if f[0] in ('le', 'eq')]
    ors = [f for f in leaves if f[0] == 'or']
    mons = set()
    for p in extra_polys:
        for mon, _ in p.m:
            if len(mon) > 1: mons.add(mon)
    for f in facts:
        for p in fpolys(f):
            for mon, _ in p.m:
                if len(mon) > 1: mons.add(mon)
    if not mons: return [], mons
    # facts about single atoms from their ranges
    out, seen = [], set()
    atoms = set(a for m in mons for a in m)
    base = [f[1:] + (f[0],) for f in ineqs]
    base = [(f[1], f[0]) for f in ineqs]
    done = set()
    frontier = set(mons)
    for _ in range(rounds):
        new = set()
        for m in sorted(frontier, key=lambda x: (len(x), x)):
            for p, op in base:
                for t, _c in p.m:
                    if not t or len(t) >= len(m): continue
                    cof = _div(m, t)
                    if not cof or not (op == 'eq' or _nonneg(cof)): continue
                    k = (p, cof)
                    if k in done: continue
                    done.add(k)
                    q = pmul(p, P(((cof, 1),)))
                    lem = f_le(q) if op == 'le' else f_eq(q)
                    if lem is True or lem in seen: continue
                    seen.add(lem); out.append(lem)
                    for mon, _ in q.m:
                        if len(mon) > 1 and mon not in mons: new.add(mon)
                    if len(out) > cap: return out, mons | new
        mons |= new; frontier = new
        if not new: break
    return out, mons

def sign_lemmas(polys, mons, cap=120):
    """for p = D*X + R: X >= 1 -> D*X >= D and X <= -1 -> D*X <= -D  (D a nonneg monomial)"""
    out, seen = [], set()
    for p in polys:
        ds = set()
        nl = [mon for mon, _ in p.m if len(mon) > 1]
        for mon in nl:
            for t in set(mon):
                ds.add(_div(mon, (t,)))
        for D in ds:
            if not D or not _nonneg(D): continue
            X = {}
            for mon, c in p.m:
                q = _div(mon, D)
                if q is not None: X[q] = X.get(q, 0) + c
            X = mk(X)
            if not X.m or X.const is not None: continue
            k = (D, X)
            if k in seen: continue
            seen.add(k)
            DX = pmul(X, P(((D, 1),))); Dp = P(((D, 1),))
            out.append(f_imp(f_ge(X - 1), f_ge(DX - Dp)))
            out.append(f_imp(f_le(X + 1), f_le(DX + Dp)))
            out.append(f_imp(f_eq(X), f_eq(DX)))
            if len(out) > cap: return out
    return out

def closure(forms):
    """axioms of all atoms reachable from the formulas"""
    ax, seen, work = [], set(), []
    def add_atoms(f):
        for a in fatoms(f):
            if a not in seen: seen.add(a); work.append(a)
    for f in forms: add_atoms(f)
    while work:
        a = ATOMS[work.pop()]
        if a.app:
            for q in (a.app[1] if isinstance(a.app[1], tuple) else (a.app[1],)):
                for b in q.atoms():
                    if b not in seen: seen.add(b); work.append(b)
        for f in a.axioms:
            ax.append(f); add_atoms(f)
    return ax, seen

def ranges(atoms):
    out = []
    for i in atoms:
        a = ATOMS[i]
        r = _ranges.get((i, a.lo, a.hi))
        if r is None:
            v = A(a); r = []
            if a.lo is not None: r.append(('le', C(a.lo) - v))
            if a.hi is not None: r.append(('le', v - a.hi))
            _ranges[(i, a.lo, a.hi)] = r
        out += r
    return out
_ranges = {}
def zadd(s, forms, lin):
    ctx = s.ctx.ref(); sv = s.solver
    for f in forms: z3.Z3_solver_assert(ctx, sv, zf(f, lin).ast)
_flin = {}
def flinear(f):
    r = _flin.get(f)
    if r is None:
        r = f is True or f is False or (f[0] != 'z' and not any(x[0] == 'z' for x in _parts(f)) and not any(p.nonlinear() for p in fpolys(f)))
        _flin[f] = r
    return r
def _parts(f):
    yield f
    if f[0] == 'not': yield from _parts(f[1])
    elif f[0] in ('and', 'or'):
        for x in f[1]: yield from _parts(x)
def holds(f, val):
    """evaluate a formula under an assignment of integers to atoms"""
    if f is True or f is False: return f
    t = f[0]
    if t in ('le', 'eq'):
        v = 0
        for mon, c in f[1].m:
            x = c
            for a in mon: x *= val(a)
            v += x
        return v <= 0 if t == 'le' else v == 0
    if t == 'not': return not holds(f[1], val)
    if t == 'and': return all(holds(x, val) for x in f[1])
    if t == 'or': return any(holds(x, val) for x in f[1])
    raise KeyError

class Model:
    """values of a satisfying assignment; atoms it does not know are worked out from their definitions"""
    def __init__(self, vals): self.vals = vals; self.truth = {}
    def val(self, a):
        v = self.vals.get(a)
        if v is None:
            d = DEFS.get(a)
            if a in ITES:
                c, x, y = ITES[a]; v = self.poly(x if holds(c, self.val) else y)
            elif d is None:
                t = ATOMS[a]
                if t.app: raise KeyError
                v = t.lo if t.lo is not None else min(t.hi, 0) if t.hi is not None else 0
            elif d[0] == 'wrap':
                v = self.poly(d[1]) % (1 << d[2])
                if d[3] and v >> (d[2] - 1): v -= 1 << d[2]
            elif d[0] == 'wrapk': v = (self.poly(d[1]) - self.val(d[4])) >> d[2]
            elif d[0] == 'div': q = self.poly(d[2]); v = self.poly(d[1]) // q if q > 0 else 0
            else: q = self.poly(d[2]); v = self.poly(d[1]) % q if q > 0 else 0
            self.vals[a] = v
        return v
    def poly(self, p):
        v = 0
        for mon, c in p.m:
            x = c
            for a in mon: x *= self.val(a)
            v += x
        return v
    def holds(self, f):
        r = self.truth.get(f)
        if r is None: r = self.truth[f] = holds(f, self.val)
        return r
DEFS = {}
MODELS = []
def remember(m, ats):
    try: MODELS.insert(0, Model({a: m.eval(zatom(ATOMS[a], True), model_completion=True).as_long() for a in ats}))
    except AttributeError: return
    del MODELS[12:]
def known_model(forms, goalneg):
    """an earlier assignment that satisfies all of forms and the negated goal"""
    for i, m in enumerate(MODELS):
        try:
            if m.holds(goalneg) and all(m.holds(f) for f in forms):
                if i: MODELS.insert(0, MODELS.pop(i))
                return m
        except KeyError: pass
    return None

def slice_facts(facts, goal_atoms):
    """cone of influence (sound: dropping facts only weakens)"""
    infos = []
    for f in facts:
        if f is True: continue
        at = fatoms(f)
        # include atoms reachable through axioms
        ax, allat = closure([f])
        infos.append((f, allat))
    rel = set(goal_atoms); out = []; changed = True; rest = infos
    while changed:
        changed = False; nrest = []
        for f, at in rest:
            if not at or at & rel:
                out.append(f)
                if not at <= rel: rel |= at; changed = True
            else: nrest.append((f, at))
        if len(nrest) != len(rest): changed = True
        rest = nrest
    return out

PRODS = {}          # product polynomial -> (factor, factor), registered by the engine for machine multiplications
def prod_lemmas(mons, cap=24):
    out = []
    for p, (a, b) in PRODS.items():
        nl = [m for m, _ in p.m if len(m) > 1]
        if nl and all(m in mons for m in nl):
            out.append(f_imp(f_and(f_ge(a), f_ge(b)), f_ge(p)))
            out.append(f_imp(f_and(f_ge(a - 1), f_ge(b)), f_ge(p - b)))
            out.append(f_imp(f_and(f_ge(b - 1), f_ge(a)), f_ge(p - a)))
            if len(out) >= 3 * cap: break
    return out
_clos1 = {}
DUMP = os.environ.get('EV_DUMP')

class Result:
    __slots__ = ('status', 'model', 'backend', 'time')
    def __init__(self, status, model=None, backend='', time=0.0):
        self.status = status; self.model = model; self.backend = backend; self.time = time

def eq_of(f, facts):
    """polynomials known to be zero because of fact f (together with the other facts)"""
    if f[0] == 'eq': yield f[1]
    elif f[0] == 'le' and ('le', -f[1]) in facts: yield f[1]
    elif f[0] == 'and':
        for g in f[1]: yield from eq_of(g, facts)
def elim(p, q):
    """eliminate an atom of the linear equation q = 0 that occurs with coefficient +-1 from p"""
    for mon, c in q.m:
        if len(mon) == 1 and abs(c) == 1 and mon[0] in p.atoms() and not any(mon[0] in m for m, _ in q.m if len(m) > 1):
            return psubst(p, {mon[0]: pscale(q, -c) + A(ATOMS[mon[0]])})
    return p

SCALE = 1
ITES = {}           # atom id -> (condition, value if true, value if false)
TIMEOUT_LIN = 4000
TIMEOUT_NLA = 6000
_cache = {}
_AMUL = z3.Function('abs_mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
_ADIV = z3.Function('abs_div', z3.RealSort(), z3.RealSort(), z3.RealSort())
def abstracted(e, memo):
    """products and quotients of real terms as uninterpreted functions (a consequence of the abstraction holds for real arithmetic too)"""
    i = e.get_id()
    r = memo.get(i)
    if r is not None: return r[1]
    if e.num_args() == 0: r = e
    else:
        a = [abstracted(x, memo) for x in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and z3.is_real(e):
            num = [x for x in a if z3.is_rational_value(x)]; oth = sorted((x for x in a if not z3.is_rational_value(x)), key=lambda x: x.sexpr())
            r = None
            for x in oth: r = x if r is None else _AMUL(r, x)
            for x in num: r = x if r is None else x * r
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(a[1]):
            memo[0] = memo.get(0, ()) + ((a[0], a[1]),); r = _ADIV(a[0], a[1])
        else: r = z3.z3._to_expr_ref(z3.Z3_update_term(e.ctx_ref(), e.as_ast(), len(a), (z3.Ast * len(a))(*[x.as_ast() for x in a])), e.ctx)
    memo[i] = (e, r)
    return r

def prove(facts, goal, want_model=False, tl=None, tn=None, noelim=False, cheap=False):
    """facts |= goal ?   status in proved / refuted / unknown"""
    if goal is True: return Result('proved', backend='trivial')
    if goal in facts: return Result('proved', backend='trivial')
    t0 = time.time(); STATS['queries'] += 1
    ng = f_not(goal)
    if ng is True and not facts: return Result('refuted')
    gat = closure([ng])[1] if ng is not True else set()
    fs = slice_facts(facts, gat) if ng is not True else [f for f in facts if f is not True]
    key = (frozenset(fs), goal)
    c = _cache.get(key)
    if c is not None and not (want_model and c.status == 'refuted' and c.model is None): return c
    if goal is not False and not noelim and goal[0] in ('eq', 'le') and goal[1].nonlinear():
        p = goal[1]
        for _ in range(12):
            i = next((i for i in sorted(p.atoms()) if i in ITES), None)
            if i is None: break
            c, x, y = ITES[i]
            if prove(facts, f_eq(A(ATOMS[i]) - x)).status == 'proved': p = psubst(p, {i: x})
            elif prove(facts, f_eq(A(ATOMS[i]) - y)).status == 'proved': p = psubst(p, {i: y})
            else: break
        if goal[0] == 'eq':
            for f in fs:
                for q in eq_of(f, facts): p = elim(p, q)
        if p != goal[1]:
            res = prove(facts, f_eq(p) if goal[0] == 'eq' else f_le(p), want_model, tl, tn, True)
            if res.status == 'proved' and res.backend == 'trivial': res = Result('proved', backend='substitution')
            _cache[key] = res
            return res
    forms = fs + ([ng] if ng is not True else [])
    ax, at = closure(forms)
    rg = ranges(at)
    allf = forms + ax
    if ng is not True and not want_model and not any(ATOMS[a].app for a in at) and known_model(ax + rg + fs, ng) is not None:
        res = Result('refuted', backend='model'); res.time = time.time() - t0; STATS['time'] += res.time
        _cache[key] = res
        return res
    if ng is not True and not want_model and flinear(ng):
        # stage 0: linear facts only; a model of them that satisfies all facts refutes the goal for good
        lf = [f for f in allf if flinear(f)]
        if len(lf) < len(allf):
            s = z3.Solver(); s.set('timeout', 1500)
            zadd(s, lf + rg, True)
            r = s.check(); res = None
            if r == z3.unsat: res = Result('proved', backend='z3-lia'); STATS['lin'] += 1
            elif r == z3.sat and not any(ATOMS[a].app for a in at):
                m = s.model(); vals = {}
                def val(a):
                    v = vals.get(a)
                    if v is None: v = vals[a] = m.eval(zatom(ATOMS[a], True), model_completion=True).as_long()
                    return v
                try:
                    if all(holds(f, val) for f in allf if not flinear(f)): remember(m, at); res = Result('refuted', backend='z3-lia+model')
                except (KeyError, AttributeError): pass
            if res is not None:
                res.time = time.time() - t0; STATS['time'] += res.time
                _cache[key] = res
                return res
            if DUMP and r == z3.sat and not cheap: print('   STAGE0', [str(f)[:200] for f in allf if not flinear(f)][:5])
    if cheap: return Result('unknown')
    lem, mons = product_lemmas(allf + rg, [])
    polys = [p for f in allf for p in fpolys(f)]
    # differences relevant for sign lemmas: equalities / disequalities and inequalities of the goal
    gp = list(fpolys(ng)) if ng is not True else []
    sl = sign_lemmas(gp + [p for p in polys if p.nonlinear()], mons) if mons else []
    if sl:
        lem2, mons2 = product_lemmas(allf + rg, [p for f in sl for p in fpolys(f)])
        have = set(lem)
        for l in lem2:
            if l not in have: have.add(l); lem.append(l)
        mons = mons | mons2
    if PRODS and mons: sl = sl + prod_lemmas(mons)
    s = z3.Solver(); s.set('timeout', SCALE * (tl or TIMEOUT_LIN))
    zadd(s, allf + rg + lem + sl, True)
    for f in lem + sl:
        for p in fpolys(f):
            for mon, _ in p.m:
                if len(mon) > 1: mons.add(mon)
    for p in polys:
        for mon, _ in p.m:
            if len(mon) > 1: mons.add(mon)
    for mon in mons:
        l, h = mon_iv(mon); z = zmon(mon, True)
        if l is not None: s.add(z >= l)
        if h is not None: s.add(z <= h)
    r = s.check()
    if DUMP: print('   LIN', r, goal, f'{time.time()-t0:.2f}')
    res = None
    if r == z3.unsat: res = Result('proved', backend='z3-lia+product-lemmas'); STATS['lin'] += 1
    elif not mons and r == z3.sat and not any(f[0] == 'z' for f in []):
        res = Result('refuted', backend='z3-lia')
        if not any(ATOMS[a].app for a in at): remember(s.model(), at)
        if want_model: res.model = s.model()
    if res is None:
        s2 = z3.Solver(); s2.set('timeout', SCALE * (tn or TIMEOUT_NLA))
        zadd(s2, allf + rg + lem + sl, False)
        r2 = z3.unknown
        if any(f[0] == 'z' for f in (x for f in allf if f is not True and f is not False for x in _parts(f))):
            s3 = z3.Solver(); s3.set('timeout', SCALE * (tl or TIMEOUT_LIN)); memo = {}
            for e in s2.assertions(): s3.add(abstracted(e, memo))
            if s3.check() == z3.unsat:
                res = Result('proved', backend='z3-uf+lira'); STATS['lin'] += 1
                res.time = time.time() - t0; STATS['time'] += res.time
                _cache[key] = res
                return res
        r2 = s2.check(); STATS['nla'] += 1
        if DUMP: print('   NLA', r2, goal, f'{time.time()-t0:.2f}')
        if r2 == z3.unsat: res = Result('proved', backend='z3-nia')
        elif r2 == z3.sat:
            res = Result('refuted', backend='z3-nia')
            if want_model: res.model = s2.model()
        else: res = Result('unknown', backend='z3'); STATS['timeouts'] += 1
    res.time = time.time() - t0; STATS['time'] += res.time
    _cache[key] = res
    return res

def small_model(facts, goal, inputs, timeout=8000):
    """a counter-model with small inputs if there is one; returns z3 model or None"""
    ng = f_not(goal)
    forms = [f for f in facts if f is not True] + ([ng] if ng is not True else [])
    ax, at = closure(forms); rg = ranges(at)
    for bound in (3, 6, 12, 40, 1000, None):
        s = z3.Solver(); s.set('timeout', timeout)
        for f in forms + ax + rg: s.add(zf(f, False))
        if bound is not None:
            for a in inputs:
                if a.id in at:
                    z = zatom(a, False); lo = a.lo if a.lo is not None else -bound
                    if a.hi is not None and a.hi - lo <= bound: continue
                    s.add(z <= max(lo, 0) + bound, z >= max(lo, -bound))
        if s.check() == z3.sat: return s.model()
    return None
