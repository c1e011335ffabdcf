"""Contracts of external functions, LLVM intrinsics and the ev_* specification primitives."""
import re, z3
import terms as T
from terms import P, C, A, ATOMS, f_le, f_lt, f_ge, f_eq, f_not, f_and, f_or, fresh, named, app, prove

PUSHED = object()
_cache = {}
def lookup(E, name, fn):
    k = name
    if k in _cache: return _cache[k]
    h = EXACT.get(name)
    if h is None:
        d = fn['dem']
        if fn['decl'] or any(d.startswith(x) for x in OVERRIDE_PREFIX):
            for rx, f in PATTERNS:
                if rx.search(d): h = f; break
        if h is None and fn['decl'] and fn.get('noret'): h = b_throw
    _cache[k] = h
    return h

def EN():
    import engine
    return engine

# ---- specification primitives ---------------------------------------------------------------------
def ev_nat(E, st, fr, ins, a, fn):
    nm = E.cstr(st, a[0]); lo, hi = E.canon(st, a[1]), E.canon(st, a[2])
    return ev_input(E, st, nm, lo, hi, 64)
def ev_input(E, st, nm, lo, hi, w):
    cnt = st.ghost.get(('in', nm), 0); st.ghost[('in', nm)] = cnt + 1
    key = f"{nm}#{cnt}" if cnt else nm
    l, h = lo.const, hi.const
    a = fresh('in_' + key, l, h if h is not None else (1 << w) - 1)
    a.inp = True
    st.ghost[('inp', key)] = a
    if h is None: st.assume(f_le(A(a) - hi))
    if l is None: a.lo = 0; st.assume(f_le(lo - A(a)))
    if not st.heads: E.inputs.append((key, a))
    return EN().IV(w, A(a))
def ev_int(E, st, fr, ins, a, fn):
    nm = E.cstr(st, a[0]); lo, hi = E.canon(st, a[1], True), E.canon(st, a[2], True)
    return ev_input(E, st, nm, lo, hi, 64)
def ev_bool(E, st, fr, ins, a, fn):
    nm = E.cstr(st, a[0])
    v = ev_input(E, st, nm, C(0), C(1), 1)
    return EN().IV(1, v.p, f_eq(v.p - 1))
def ev_any_bool(E, st, fr, ins, a, fn):
    v = A(fresh('any', 0, 1)); return EN().IV(1, v, f_eq(v - 1))
def ev_any(E, st, fr, ins, a, fn):
    return EN().IV(64, A(fresh('any', 0, 2**64 - 1)))
def ev_real(E, st, fr, ins, a, fn):
    nm = E.cstr(st, a[0])
    if not E.real:
        v = ev_input(E, st, nm, C(0), C(2**64 - 1), 64); return EN().FV(64, v.p)
    x = fresh('in_' + nm); x.inp = True
    T.REALS[x.id] = z3.Real(x.name); E.inputs.append((nm, x))
    return EN().FV(64, r=z3.Real(x.name), at=frozenset([x.id]))
def ev_assume(E, st, fr, ins, a, fn):
    f = E.boolof(a[0], st)
    if f is False: raise EN().PathEnd()
    if f is not True:
        st.assume(f)
        if E.proved(st, False): raise EN().PathEnd()
def ev_check(E, st, fr, ins, a, fn):
    lab = E.cstr(st, a[1])
    E.covers.setdefault(lab, 0); E.covers[lab] += 1
    E.oblig(st, 'ensures', lab, E.boolof(a[0], st), ins.get('loc', ''))
def ev_cover(E, st, fr, ins, a, fn):
    lab = E.cstr(st, a[0])
    if E.quiet: return
    c = E.covers.get('cover:' + lab)
    if c: return
    m = T.small_model(st.pc, False, [x for _, x in E.inputs], timeout=3000)
    if m is not None: E.covers['cover:' + lab] = 1
    else: E.covers.setdefault('cover:' + lab, 0)
def ev_havoc(E, st, fr, ins, a, fn):
    p, n = a[0], E.canon(st, a[1])
    nm = E.cstr(st, a[2])
    cnt = st.ghost.get(('hv', nm), 0); st.ghost[('hv', nm)] = cnt + 1
    E.havoc(st, p, n, f'{nm}' if not cnt else f'{nm}#{cnt}', ins.get('loc', ''))
def ev_zero(E, st, fr, ins, a, fn):
    p, n, es = a[0], E.canon(st, a[1]), E.canon(st, a[2]).const
    E.fill(st, p, n, es, EN().IV(8 * es, C(0)), ins.get('loc', ''))
def ev_fill(E, st, fr, ins, a, fn):
    """ev_fill(dst, count, elemsize, pointer to the value)"""
    cnt, es = E.canon(st, a[1]), E.canon(st, a[2]).const
    o = st.mem[a[3].o]
    v = E.read(st, o, o.cells, o.hist, a[3].p, es, f'i{8*es}')
    E.fill(st, a[0], cnt * es, es, v, ins.get('loc', ''))
def ev_copy(E, st, fr, ins, a, fn):
    E.copy(st, a[0], a[1], E.canon(st, a[2]), ins.get('loc', ''))
def ev_concrete(E, st, fr, ins, a, fn):
    """is the count a small constant on this path (then the primitive is unrolled element by element)"""
    p = E.canon(st, a[0])
    c = p.const
    return EN().IV(1, C(0), c is not None and c <= 64)
def ev_witness(E, st, fr, ins, a, fn):
    n = E.canon(st, a[1]).const
    t = f'f{8*n}' if n == 4 else f'i{8*n}'
    st.wit = st.wit + ((a[0].o, a[0].p, n, t),)
def ev_witness_src(E, st, fr, ins, a, fn):
    """the cell whose value the watched cell is expected to receive (only a source of candidate invariants)"""
    st.ghost['witsrc'] = (a[0].o, a[0].p)
def ev_throws_if(E, st, fr, ins, a, fn):
    st.thr = E.boolof(a[0], st)
def ev_unroll(E, st, fr, ins, a, fn):
    st.unroll = E.canon(st, a[0]).const
def ev_real_mode(E, st, fr, ins, a, fn): E.real = True
def ev_counter(E, st, fr, ins, a, fn):
    """registers a ghost counter: loop invariants relate it to the position of the witness inputs W, W#1, ..."""
    st.ghost[('counter', a[0].o, a[0].p.const)] = True
def stub(E, name, target, cb):
    # a contract for a function that is not there (renamed, inlined by hand): the contract file does not fit this code
    if not any(name in f['dem'] for f in E.F.values()): raise EN().Unsupported('no function ' + name)
    E.replace.append((name, target, cb)); E.repl_cache.clear()
def ev_replace(E, st, fr, ins, a, fn):
    """calls of the function whose demangled name contains the string go to the given contract (callers are checked against it)"""
    if not isinstance(a[1], EN().FN): raise EN().Unsupported('ev_replace target')
    stub(E, E.cstr(st, a[0]), a[1].n, False)
    E.notes.add('callee taken by its contract: ' + E.cstr(st, a[0]))
def ev_replace_cb(E, st, fr, ins, a, fn):
    """as ev_replace for a function template that takes a closure: the contract gets the closure's call operator as an extra last argument"""
    if not isinstance(a[1], EN().FN): raise EN().Unsupported('ev_replace target')
    stub(E, E.cstr(st, a[0]), a[1].n, True)
    E.notes.add('callee taken by its contract: ' + E.cstr(st, a[0]))
def ev_same_object(E, st, fr, ins, a, fn):
    return EN().IV(1, C(0), a[0].o is not None and a[0].o == a[1].o)
def ev_byte_offset(E, st, fr, ins, a, fn):
    return EN().IV(64, a[0].p)
def ev_note(E, st, fr, ins, a, fn): E.notes.add(E.cstr(st, a[0]))

def b_throw(E, st, fr, ins, a, fn):
    E.oblig(st, 'throw', f"no unexpected exception ({fn['dem'][:60]})", st.thr, ins.get('loc', ''))
    if not E.quiet: E.covers['throw'] = E.covers.get('throw', 0) + 1
    raise EN().PathEnd()
def b_assert_fail(E, st, fr, ins, a, fn):
    E.oblig(st, 'assert', f"assert({E.cstr(st, a[0])[:100]})", False, ins.get('loc', ''))
    raise EN().PathEnd()
def b_abort(E, st, fr, ins, a, fn):
    E.oblig(st, 'assert', fn['dem'][:60], False, ins.get('loc', ''))
    raise EN().PathEnd()
def nop(E, st, fr, ins, a, fn):
    t = ins['t']
    if t == 'void': return None
    if t == 'ptr': return a[0] if a else EN().NULL
    return E.undef_to(t)
def b_new(E, st, fr, ins, a, fn):
    n = E.canon(st, a[0])
    E.oblig(st, 'alloc', 'allocation size is representable', f_le(n - (2**63 - 1)), ins.get('loc', ''))
    return EN().PV(E.new_obj(st, 'heap', n, 'heap'), C(0))
def b_memcpy(E, st, fr, ins, a, fn):
    E.copy(st, a[0], a[1], E.canon(st, a[2]), ins.get('loc', ''), 'memcpy')
    return a[0]
def b_memset(E, st, fr, ins, a, fn):
    n = E.canon(st, a[2])
    v = a[1]
    c = v.p.const
    if n.const is not None and c == 0 and n.const > 0:
        # keep typed zero cells possible: one zero byte range
        E.bounds_n(st, a[0], n, 'memset', ins.get('loc', ''))
        o = st.mem[a[0].o]; E.log(st, a[0].o, a[0].p, n.const if a[0].p.const is not None else n, None)
        if a[0].p.const is not None and n.const <= 4096:
            cells = dict(o.cells); b = a[0].p.const
            # remove whole cells in the range, keep others
            for k in list(cells):
                if k < b + n.const and b < k + cells[k][0]:
                    if not (k >= b and k + cells[k][0] <= b + n.const): raise EN().Unsupported('memset splits a cell')
                    del cells[k]
            st.mem[a[0].o] = o.upd(cells={}, hist=('F', ('K', o.hist, cells) if cells else o.hist, a[0].p, n, 1, EN().IV(8, C(0))))
            return a[0]
    E.fill(st, a[0], n, 1, EN().IV(8, E.canon(st, EN().IV(8, v.p))), ins.get('loc', ''))
    return a[0]
def b_bswap(E, st, fr, ins, a, fn):
    w = a[0].w if hasattr(a[0], 'w') else 32
    if a[0] is EN().UNDEF: return E.undef_to(ins['t'])
    p = E.canon(st, a[0])
    bs = E.bytes_of(p, w // 8)
    return EN().IV(w, E.compose(list(reversed(bs))))
def b_memcmp(E, st, fr, ins, a, fn): raise EN().Unsupported('memcmp')
def b_strlen(E, st, fr, ins, a, fn): return EN().IV(64, C(len(E.cstr(st, a[0]))))
def b_minmax(E, st, fr, ins, a, fn):
    k = fn['name'].split('.')[1]
    sg = k[0] == 's'
    p, q = E.canon(st, a[0], sg), E.canon(st, a[1], sg)
    f = f_lt(p - q) if k.endswith('min') else f_lt(q - p)
    d = E.decide(st, f)
    return EN().IV(a[0].w, p if d is True else q if d is False else E.ite_p(f, p, q))
def b_abs(E, st, fr, ins, a, fn):
    p = E.canon(st, a[0], True); f = f_ge(p); d = E.decide(st, f)
    return EN().IV(a[0].w, p if d is True else -p if d is False else E.ite_p(f, p, -p))
def b_ovf(E, st, fr, ins, a, fn):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow', fn['name'])
    sg = m.group(1) == 's'; w = a[0].w
    p, q = E.canon(st, a[0], sg), E.canon(st, a[1], sg)
    r = {'add': p + q, 'sub': p - q, 'mul': p * q}[m.group(2)]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    f = f_or(f_lt(r - lo), f_lt(C(hi) - r))
    return EN().AG([EN().IV(w, r), E.mkbool(f)])
def b_floor(E, st, fr, ins, a, fn):
    v = a[0]; mode = 'ceil' if 'ceil' in fn['name'] else 'floor' if 'floor' in fn['name'] else 'trunc'
    if v is EN().UNDEF: return E.undef_to(ins['t'])
    x = E.fconst(v)
    import math
    if x is not None: return E.mkf(float({'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}[mode](x)), v.w)
    if E.real: return E.int_to_real(E.real_to_int(v, 64, st, True, mode), v.w)
    return EN().FV(v.w, A(app(f'{mode}{v.w}', v.p, 0, 2**v.w - 1)))
def b_fabs(E, st, fr, ins, a, fn):
    v = a[0]
    x = E.fconst(v)
    if x is not None: return E.mkf(abs(x), v.w)
    if E.real: r = E.toreal(v); return EN().FV(v.w, r=z3.If(r.r >= 0, r.r, -r.r), at=r.at)
    return EN().FV(v.w, A(app(f'fabs{v.w}', v.p, 0, 2**v.w - 1)))
def b_fmuladd(E, st, fr, ins, a, fn):
    w = a[0].w
    return E.fbin('fadd', E.fbin('fmul', a[0], a[1], w), a[2], w)
def b_fmath(E, st, fr, ins, a, fn):
    n = re.sub(r'\W', '_', fn['name'])
    w = a[0].w
    if E.real:
        k = tuple(E.toreal(x).r.sexpr() for x in a)
        x = named(('fmath', n, k), n); T.REALS[x.id] = z3.Real(x.name)
        return EN().FV(w, r=z3.Real(x.name), at=frozenset([x.id]))
    return EN().FV(w, A(app(n, tuple(x.p for x in a), 0, 2**w - 1)))
def b_modf(E, st, fr, ins, a, fn):
    v = a[0]; w = v.w
    x = E.fconst(v)
    import math
    if x is not None:
        f, i = math.modf(x); ip, fp = E.mkf(i, w), E.mkf(f, w)
    elif E.real:
        ip = E.int_to_real(E.real_to_int(v, 64, st, True, 'trunc'), w); fp = E.fbin('fsub', v, ip, w)
    else:
        ip = EN().FV(w, A(app(f'trunc{w}', v.p, 0, 2**w - 1))); fp = EN().FV(w, A(app(f'fracpart{w}', v.p, 0, 2**w - 1)))
    E.store(st, a[1], w // 8, ip, ins.get('loc', ''))
    return fp
def b_expect(E, st, fr, ins, a, fn): return a[0]
def b_isconst(E, st, fr, ins, a, fn): return EN().IV(1, C(0), False)
def b_exch_add(E, st, fr, ins, a, fn):
    return EN().IV(32, C(2))       # reference counts never reach zero: no deallocation is modelled
def b_uninit_n(E, st, fr, ins, a, fn):
    """value-initialisation through no_init_alloc default-initialises: the elements stay indeterminate"""
    E.notes.add('std::__uninitialized_default_n_a with no_init_alloc leaves the elements indeterminate')
    es = 4
    return EN().PV(a[0].o, a[0].p + E.canon(st, a[1]) * es)
def b_default_append(E, st, fr, ins, a, fn):
    """std::vector growth: new storage, old elements kept, new elements indeterminate (no_init_alloc)"""
    loc = ins.get('loc', '')
    E.notes.add('std::vector<T, no_init_alloc<T>>::_M_default_append(n) taken by its contract: size grows by n, old elements keep their values, the storage moves')
    this = a[0]; n = E.canon(st, a[1]); es = 4
    start = E.load(st, this, 'ptr', loc); fin = E.load(st, EN().PV(this.o, this.p + 8), 'ptr', loc)
    if not isinstance(start, EN().PV) or not isinstance(fin, EN().PV) or start.o != fin.o: raise EN().Unsupported('vector growth')
    old = fin.p - start.p
    tot = old + n * es
    E.oblig(st, 'alloc', 'allocation size is representable', f_le(tot - (2**63 - 1)), loc)
    new = EN().PV(E.new_obj(st, 'heap', tot, 'heap'), C(0))
    if start.o is not None and old.const != 0: E.copy(st, new, start, old, loc)
    E.store(st, this, 8, new, loc)
    for k in (8, 16): E.store(st, EN().PV(this.o, this.p + k), 8, EN().PV(new.o, tot), loc)
    return None
def b_objsize(E, st, fr, ins, a, fn): return EN().IV(64, C(2**64 - 1))
def b_exc_alloc(E, st, fr, ins, a, fn):
    return EN().PV(E.new_obj(st, 'exception', a[0].p, 'heap'), C(0))
def b_exc_ctor(E, st, fr, ins, a, fn): return None
def b_next_prime(E, st, fr, ins, a, fn): raise EN().Unsupported('hash table')

# ---- streams: an iostream is an opaque object with a ghost byte buffer ---------------------------------
def stream_of(st, v):
    if not isinstance(v, EN().PV) or v.o is None: return None
    return st.ghost.get(('stream', v.o))
def ev_stream(E, st, fr, ins, a, fn):
    o = E.new_obj(st, 'stream', 4096, 'stream'); b = E.new_obj(st, 'file', 2**62, 'file')
    st.ghost[('stream', o)] = b; st.ghost[('gp', o)] = C(0); st.ghost[('pp', o)] = C(0); st.ghost[('end', o)] = C(0)
    # vptr: virtual base offsets are not needed (iostream -> istream at 0, ostream at 16)
    return EN().PV(o, C(0))
def ev_stream_start(E, st, fr, ins, a, fn):
    """start the stream at an arbitrary position p with arbitrary earlier contents"""
    p = E.canon(st, a[1]); o = a[0].o
    st.ghost[('gp', o)] = p; st.ghost[('pp', o)] = p; st.ghost[('end', o)] = p
    b = st.ghost[('stream', o)]
    st.mem[b] = st.mem[b].upd(base=('fn', f'file{b}'))
def ev_stream_rewind(E, st, fr, ins, a, fn): st.ghost[('gp', a[0].o)] = E.canon(st, a[1])
def ev_stream_file(E, st, fr, ins, a, fn):
    """a file: one position for reading and writing, arbitrary contents, the given size and position"""
    o = a[0].o; st.ghost[('joint', o)] = True; st.ghost[('end', o)] = E.canon(st, a[1]); setpos(st, o, 'gp', E.canon(st, a[2]))
    b = E.new_obj(st, 'file', 2**62, 'file'); st.ghost[('stream', o)] = b; st.mem[b] = st.mem[b].upd(base=('fn', f'file{b}'))
def ev_stream_at(E, st, fr, ins, a, fn):
    o = a[0].o; st.ghost[('end', o)] = E.canon(st, a[1]); setpos(st, o, 'gp', E.canon(st, a[2]))
def ev_stream_refuse(E, st, fr, ins, a, fn): st.ghost[('refuse', a[0].o)] = E.boolof(a[1], st)
def ev_stream_size(E, st, fr, ins, a, fn): return EN().IV(64, st.ghost[('end', a[0].o)])
def setpos(st, o, which, p):
    for w in (('gp', 'pp') if ('joint', o) in st.ghost else (which,)): st.ghost[(w, o)] = p
def b_tell(which):
    def f(E, st, fr, ins, a, fn):
        if stream_of(st, a[0]) is None: raise EN().Unsupported('position of an unknown stream')
        return EN().AG([EN().IV(64, st.ghost[(which, a[0].o)]), EN().IV(64, C(0))])
    return f
def b_seek(which):
    def f(E, st, fr, ins, a, fn):
        o = a[0].o
        if stream_of(st, a[0]) is None: raise EN().Unsupported('seek on an unknown stream')
        off = E.canon(st, a[1], True)
        if '_Ios_Seekdir' in fn['dem']:
            d = a[2].p.const
            if d is None: raise EN().Unsupported('symbolic seek direction')
            off = off + (C(0), st.ghost[(which, o)], st.ghost[('end', o)])[d]
        E.oblig(st, 'stream', 'seek stays inside the file', f_and(f_ge(off), f_le(off - st.ghost[('end', o)])), ins.get('loc', ''))
        setpos(st, o, which, off)
        return a[0]
    return f
def ev_stream_tellg(E, st, fr, ins, a, fn): return EN().IV(64, st.ghost[('gp', a[0].o)])
def ev_stream_tellp(E, st, fr, ins, a, fn): return EN().IV(64, st.ghost[('pp', a[0].o)])
def ev_stream_byte(E, st, fr, ins, a, fn):
    b = st.mem[st.ghost[('stream', a[0].o)]]
    v = E.read(st, b, b.cells, b.hist, E.canon(st, a[1]), 1, 'i8')
    return EN().IV(32, E.canon(st, EN().IV(8, v.p)) if v is not EN().UNDEF else A(fresh('u', 0, 255)))
def b_write(E, st, fr, ins, a, fn):
    o = a[0].o
    if ('stream', o) not in st.ghost: return a[0]
    n = E.canon(st, a[2], True); pp = st.ghost[('pp', o)]
    if ('refuse', o) in st.ghost: E.oblig(st, 'stream', 'nothing is written when the operation is to be refused', f_not(st.ghost[('refuse', o)]), ins.get('loc', ''))
    E.oblig(st, 'bounds', 'write length is nonnegative', f_ge(n), ins.get('loc', ''))
    if n.const != 0:
        E.copy(st, EN().PV(st.ghost[('stream', o)], pp), a[1], n, ins.get('loc', ''), 'stream write')
    if ('joint', o) in st.ghost:
        e = st.ghost[('end', o)]
        if E.proved(st, f_le(pp + n - e)): pass
        elif E.proved(st, f_ge(pp + n - e)): st.ghost[('end', o)] = pp + n
        else: raise EN().Unsupported('write that may or may not reach the end of the file')
        setpos(st, o, 'pp', pp + n)
    else: st.ghost[('pp', o)] = pp + n; st.ghost[('end', o)] = pp + n
    return a[0]
def b_read(E, st, fr, ins, a, fn):
    o = a[0].o
    n = E.canon(st, a[2], True); gp = st.ghost[('gp', o)]
    E.oblig(st, 'bounds', 'read length is nonnegative', f_ge(n), ins.get('loc', ''))
    E.oblig(st, 'stream', 'read does not run past the data written', f_le(gp + n - st.ghost[('end', o)]), ins.get('loc', ''))
    if n.const != 0:
        E.copy(st, a[1], EN().PV(st.ghost[('stream', o)], gp), n, ins.get('loc', ''), 'stream read')
    setpos(st, o, 'gp', gp + n)
    return a[0]

EXACT = {k: v for k, v in globals().items() if k.startswith('ev_')}
EXACT.update({
    '__assert_fail': b_assert_fail, 'abort': b_abort, 'exit': b_abort, '_ZSt9terminatev': b_abort, '__cxa_pure_virtual': b_abort,
    '__cxa_allocate_exception': b_exc_alloc, '__cxa_throw': b_throw, '__cxa_free_exception': nop, '__cxa_rethrow': b_throw,
    '_Znwm': b_new, '_Znam': b_new, '_ZnwmSt11align_val_t': b_new, 'malloc': b_new, '_ZdlPv': nop, '_ZdlPvm': nop, '_ZdaPv': nop, '_ZdlPvmSt11align_val_t': nop, 'free': nop,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset, 'memcmp': b_memcmp, 'strlen': b_strlen,
    'htonl': b_bswap, 'ntohl': b_bswap,
    'modf': b_modf, 'modff': b_modf, 'floor': b_floor, 'ceil': b_floor, 'trunc': b_floor, 'floorf': b_floor, 'ceilf': b_floor,
    '__libc_single_threaded': nop,
    '_ZN9__gnu_cxxL27__exchange_and_add_dispatchEPii': b_exch_add, '_ZN9__gnu_cxxL21__atomic_add_dispatchEPii': nop,
    '_ZN9__gnu_cxx27__exchange_and_add_dispatchEPii': b_exch_add, '_ZN9__gnu_cxx21__atomic_add_dispatchEPii': nop,
})
OVERRIDE_PREFIX = ('std::vector<float, no_init_alloc<float, std::allocator<float>>>::_M_default_append', 'std::vector<float, no_init_alloc<float, std::allocator<float> > >::_M_default_append', 'float* std::__uninitialized_default_n_a<float*, unsigned long, no_init_alloc<float', '__gnu_cxx::__exchange_and_add', '__gnu_cxx::__atomic_add', 'std::runtime_error::', 'std::logic_error::', 'std::out_of_range::', 'std::operator<<',
                   'std::ostream::operator<<', 'std::_Sp_counted_base<(__gnu_cxx::_Lock_policy)2>::_M_release', 'std::_Sp_counted_base<(__gnu_cxx::_Lock_policy)2>::_M_add_ref')
PATTERNS = [(re.compile(p), f) for p, f in [
    (r'>::_M_default_append\(', b_default_append), (r'__uninitialized_default_n_a<', b_uninit_n), (r'^llvm\.mem(cpy|move)', b_memcpy), (r'^llvm\.memset', b_memset), (r'^llvm\.bswap', b_bswap),
    (r'^llvm\.(s|u)(min|max)', b_minmax), (r'^llvm\.abs', b_abs), (r'^llvm\.[us](add|sub|mul)\.with\.overflow', b_ovf),
    (r'^llvm\.(floor|ceil|trunc)\.', b_floor), (r'^llvm\.fabs', b_fabs), (r'^llvm\.fmuladd', b_fmuladd),
    (r'^llvm\.expect', b_expect), (r'^llvm\.is\.constant', b_isconst), (r'^llvm\.objectsize', b_objsize),
    (r'^llvm\.(sqrt|pow|exp|log|sin|cos)', b_fmath), (r'^(sqrt|pow|exp|log|sin|cos|powf|sqrtf|sinf|cosf|expf|logf|hypot|atan|atan2)$', b_fmath),
    (r'^llvm\.(stacksave|stackrestore|donothing|dbg|lifetime|invariant|experimental|va_)', nop), (r'^llvm\.trap', b_abort), (r'^llvm\.ubsantrap', b_abort),
    (r'^std::__throw_', b_throw), (r'^__gnu_cxx::__exchange_and_add', b_exch_add), (r'^__gnu_cxx::__atomic_add', nop),
    (r'^std::_Sp_counted_base.*::_M_(release|add_ref)', nop),
    (r'^std::(runtime_error|logic_error|out_of_range|exception|bad_alloc|length_error|domain_error|invalid_argument)::', b_exc_ctor),
    (r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::write\(', b_write),
    (r'^std::(istream|basic_istream<char, std::char_traits<char> ?>)::read\(', b_read),
    (r'^std::(istream|basic_istream<char, std::char_traits<char> ?>)::tellg\(', b_tell('gp')), (r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::tellp\(', b_tell('pp')),
    (r'^std::(istream|basic_istream<char, std::char_traits<char> ?>)::seekg\(', b_seek('gp')), (r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::seekp\(', b_seek('pp')),
    (r'^std::(ostream|basic_ostream<char, std::char_traits<char> ?>)::operator<<', nop),
    (r'operator<<', nop), (r'^std::ios_base::', nop), (r'^std::__cxx11::basic_string<char.*>::(basic_string|~basic_string)', b_exc_ctor),
    (r'^__cxa_(atexit|guard)', nop),
]]
