"""Invariant templates that a contract configuration can enable (candidates only: Houdini keeps what is inductive)."""
from terms import C, A, ATOMS, f_le, f_lt, f_eq, f_imp, f_not, f_and, f_or

def witness_count(eng, E, H, vs, K, fr):
    """ghost counters registered with ev_counter: unchanged until a loop variable has passed a witness coordinate, one more from then on"""
    import engine as EN
    W = [a for k, a in E.ghost.items() if isinstance(k, tuple) and k[0] == 'inp' and k[1].split('#')[0] == 'W']
    ints = [va for va in vs if isinstance(va.cur, EN.IV) and va.cur.b is None and va.w == 64]
    cnt = [va for va in ints if va.kind == 'cell' and ('counter', va.key[0], va.key[1]) in E.ghost]
    for x in cnt:
        x0 = eng.canon(E, x.v0)
        for v in ints:
            if v in cnt: continue
            try: v0 = eng.canon(E, v.v0)
            except EN.Unsupported: continue
            for w in W:
                def c1(get, k, st, x=x, v=v, w=w, x0=x0, v0=v0):
                    p, q = get(v), get(x)
                    return None if p is None or q is None else f_imp(f_or(f_le(p - A(w)), f_lt(A(w) - v0)), f_eq(q - x0))
                def c2(get, k, st, x=x, v=v, w=w, x0=x0, v0=v0):
                    p, q = get(v), get(x)
                    return None if p is None or q is None else f_imp(f_and(f_lt(A(w) - p), f_le(v0 - A(w))), f_eq(q - x0 - 1))
                yield f'{x.name()} before {v.name()} passes {w.name}', c1
                yield f'{x.name()} after {v.name()} passed {w.name}', c2

def chunk_grid(eng, E, H, vs, K, fr):
    """v is at its entry value, or at least one chunk size past it, or not below the end of the range (inputs chunk#i, end#i)"""
    import engine as EN
    inp = {k[1]: a for k, a in E.ghost.items() if isinstance(k, tuple) and k[0] == 'inp'}
    for v in vs:
        if not (isinstance(v.cur, EN.IV) and v.cur.b is None and v.w == 64): continue
        try: v0 = eng.canon(E, v.v0)
        except EN.Unsupported: continue
        for n, c in inp.items():
            if n.split('#')[0] != 'chunk': continue
            e = inp.get(n.replace('chunk', 'end'))
            if e is None: continue
            def c1(get, k, st, v=v, v0=v0, c=c, e=e):
                p = get(v)
                return None if p is None else f_or(f_eq(p - v0), f_or(f_le(v0 + A(c) - p), f_le(A(e) - p)))
            yield f'{v.name()} on the chunk grid {n}', c1

def witness_copy(eng, E, H, vs, K, fr):
    """watched cell: unchanged until a loop variable has passed a witness coordinate, equal to the source cell from then on"""
    import engine as EN
    src = E.ghost.get('witsrc')
    if src is None: return
    W = [a for k, a in E.ghost.items() if isinstance(k, tuple) and k[0] == 'inp' and k[1].split('#')[0] == 'W']
    def cell(st, o, p, n, t):
        ob = st.mem[o]
        return eng.as_type(eng.read(st, ob, ob.cells, ob.hist, p, n, t), t, st)
    for (woid, woff, wn, wt) in E.wit:
        try: e0 = cell(E, woid, woff, wn, wt); s0 = cell(E, src[0], src[1], wn, wt)
        except (EN.Unsupported, EN.Fork): continue
        if getattr(e0, 'p', None) is None or getattr(s0, 'p', None) is None: continue
        def cand(nm, val, v0, woid=woid, woff=woff, wn=wn, wt=wt, e0=e0, s0=s0):
            for w in W:
                def c1(get, k, st, w=w, val=val, v0=v0):
                    p = val(get, k)
                    if p is None: return None
                    q = cell(st, woid, woff, wn, wt)
                    return f_and(f_imp(f_or(f_le(p - A(w)), f_lt(A(w) - v0)), f_eq(q.p - e0.p)), f_imp(f_and(f_lt(A(w) - p), f_le(v0 - A(w))), f_eq(q.p - s0.p)))
                yield f'watched cell copied when {nm} passes {w.name}', c1
        for v in vs:
            if not (isinstance(v.cur, EN.IV) and v.cur.b is None and v.w == 64): continue
            try: v0 = eng.canon(E, v.v0)
            except EN.Unsupported: continue
            yield from cand(v.name(), lambda get, k, v=v: get(v), v0)
        yield from cand('the iteration count', lambda get, k: k, C(0))

def nullsup_budget(eng, E, H, vs, K, fr):
    """word count of the null-suppressed encoding after k elements of V words: p - p0 <= 4*(V*k + k/2), and half a word less while a
    streak of nulls (32-bit counter n > 0) is open; n <= k"""
    import engine as EN
    ptrs = [v for v in vs if isinstance(v.cur, EN.PV)]
    cnts = [v for v in vs if isinstance(v.cur, EN.IV) and v.cur.b is None and v.w == 32]
    idx = [v for v in vs if isinstance(v.cur, EN.IV) and v.cur.b is None and v.w == 64]
    for n in cnts:
        try: n0 = eng.canon(E, n.v0)
        except EN.Unsupported: continue
        if n0.const != 0: continue
        def c0(get, k, st, n=n):
            q = get(n)
            return None if q is None else f_le(q - k)
        yield f'{n.name()} <= iterations', c0
        for x in ptrs:
            for V in (1, 2, 3):
                def c1(get, k, st, n=n, x=x, V=V):
                    p, q = get(x), get(n)
                    if p is None or q is None: return None
                    e = (p - x.v0.p) * 2 - k * (8 * V)      # 8 * excess words
                    return f_and(f_imp(f_eq(q), f_le(e - k * 4)), f_imp(f_lt(C(0) - q), f_le(e + 4 - k * 4)))
                yield f'{x.name()} within the null-suppression budget of {V} words, {n.name()}', c1

def word_pointer(eng, E, H, vs, K, fr):
    """pointer variables advance in whole 32-bit words"""
    import engine as EN
    for x in vs:
        if not isinstance(x.cur, EN.PV) or x.ind is not None: continue
        def c(get, k, st, x=x):
            p = get(x)
            return None if p is None else f_eq(eng.divmod(st, p - x.v0.p, C(4))[1])
        yield f'{x.name()} a whole number of words from its entry value', c

def list_walk(eng, E, H, vs, K, fr):
    """traversal of a linked list whose ghost array (ev_witness_src) holds (list, position) pairs: after k steps the loop variable is the
    slot at position k (from the back: len - 1 - k), or the end marker when k = len"""
    import engine as EN
    src = E.ghost.get('witsrc')
    if src is None: return
    inp = {k[1]: a for k, a in E.ghost.items() if isinstance(k, tuple) and k[0] == 'inp'}
    def cell(st, p):
        o = st.mem[src[0]]
        return eng.as_type(eng.read(st, o, o.cells, o.hist, src[1] + p, 8, 'i64'), 'i64', st).p
    NONE = C(2**64 - 1)
    for v in vs:
        if not (isinstance(v.cur, EN.IV) and v.cur.b is None and v.w == 64): continue
        for l, nm in ((0, 'free'), (1, 'alloc')):
            if nm not in inp or f'l{l}' not in inp: continue
            L = A(inp[nm]); n = A(inp['n'])
            def c1(get, k, st, v=v, l=l, L=L, n=n):
                p = get(v)
                if p is None: return None
                r = k if 'front' in inp else L - 1 - k
                return f_or(f_and(f_eq(p - NONE), f_eq(k - L)), f_and(f_lt(p - n), f_eq(cell(st, p * 16) - l), f_eq(cell(st, p * 16 + 8) - r), f_lt(k - L)))
            yield f'{v.name()} is the slot at the position given by the iteration count in list {l}', c1

def same_advance(eng, E, H, vs, K, fr):
    """two variables of variable step that advance by the same amounts, and do not pass an input N"""
    import engine as EN
    inp = {k[1]: a for k, a in E.ghost.items() if isinstance(k, tuple) and k[0] == 'inp'}
    xs = []
    for v in vs:
        if v.ind is not None or not (isinstance(v.cur, EN.IV) and v.cur.b is None and v.w == 64): continue
        try: xs.append((v, eng.canon(E, v.v0)))
        except EN.Unsupported: continue
    for n, (x, x0) in enumerate(xs):
        for y, y0 in xs[:n]:
            def c1(get, k, st, x=x, y=y, x0=x0, y0=y0):
                p, q = get(x), get(y)
                return None if p is None or q is None else f_eq(p - q - x0 + y0)
            yield f'{x.name()} advances with {y.name()}', c1
            for a, b, a0, b0 in ((x, y, x0, y0), (y, x, y0, x0)):
                def c3(get, k, st, a=a, b=b):
                    p, q = get(a), get(b)
                    return None if p is None or q is None else f_le(p - q)
                yield f'{a.name()} <= {b.name()}', c3
        for nm, a in inp.items():
            if nm.split('#')[0] != 'N': continue
            def c2(get, k, st, x=x, a=a):
                p = get(x)
                return None if p is None else f_le(p - A(a))
            yield f'{x.name()} does not pass {nm}', c2
