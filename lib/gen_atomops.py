"""Writes the table of atomic operations harness/atom.c chooses from: each of catomic.h's
operations, for each type and each memory order it can be given."""
ORD = ['relaxed', 'consume', 'acquire', 'release', 'acq_rel', 'seq_cst']
INT = {'u8': ('8', 'c89atomic_uint8'), 'u16': ('16', 'c89atomic_uint16'), 'u32': ('32', 'c89atomic_uint32'), 'u64': ('64', 'c89atomic_uint64'),
       'i8': ('i8', 'c89atomic_int8'), 'i16': ('i16', 'c89atomic_int16'), 'i32': ('i32', 'c89atomic_int32'), 'i64': ('i64', 'c89atomic_int64')}
FLT = {'f32': ('f32', 'float'), 'f64': ('f64', 'double')}
SIZE = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'ptr': 8, 'g': 8, 'g32': 4, 'flag': 1, 'lock': 1}
LOADS, STORES, RMWS = [0, 1, 2, 5], [0, 3, 5], [0, 1, 2, 3, 4, 5]
PAIRS = [(0, 0), (2, 0), (2, 2), (3, 0), (4, 2), (5, 5), (5, 0), (5, 2), (4, 0)]
FETCH = {'add': 'fetch_add', 'sub': 'fetch_sub', 'or': 'fetch_or', 'xor': 'fetch_xor', 'and': 'fetch_and'}

def table():
    """[(op, type, orders, C statement)]; in the statement x, e, d are values, o the object, y the result"""
    t = []
    def c89(op, ty, ct, cfn, suf, orders, expr):
        pass
    for ty, (s, ct) in list(INT.items()) + list(FLT.items()) + [('ptr', ('ptr', 'void *'))]:
        p = '(volatile void **)o' if ty == 'ptr' else '(volatile %s *)o' % ct
        def imp(op, fn, args, kind):
            t.append((op, ty, 'i', kind, ct, 'c89atomic_%s_%s(%s%s)' % (fn, s, p, args)))
        def exp(op, fn, args, kind, orders):
            for o in orders:
                oo = o if isinstance(o, tuple) else (o,)
                t.append((op, ty, ''.join(map(str, oo)), kind, ct, 'c89atomic_%s_explicit_%s(%s%s%s)' % (
                    fn, s, p, args, ''.join(', c89atomic_memory_order_' + ORD[x] for x in oo))))
        imp('load', 'load', '', 'v'); exp('load', 'load', '', 'v', LOADS)
        imp('store', 'store', ', x', '-'); exp('store', 'store', ', x', '-', STORES)
        imp('xchg', 'exchange', ', x', 'v'); exp('xchg', 'exchange', ', x', 'v', RMWS)
        imp('cas', 'compare_exchange_strong', ', &x, d', 'c'); exp('cas', 'compare_exchange_strong', ', &x, d', 'c', PAIRS)
        imp('casw', 'compare_exchange_weak', ', &x, d', 'c'); exp('casw', 'compare_exchange_weak', ', &x, d', 'c', PAIRS)
        imp('cswap', 'compare_and_swap', ', x, d', 'v')
        if ty in INT:
            for op, fn in FETCH.items():
                imp(op, fn, ', x', 'v'); exp(op, fn, ', x', 'v', RMWS)
            imp('clear', 'clear', '', '-'); exp('clear', 'clear', '', '-', STORES)
            imp('tas', 'test_and_set', '', 'v'); exp('tas', 'test_and_set', '', 'v', RMWS)
            if ty[0] == 'u':
                t.append(('lockfree', ty, '0', 'b', ct, 'c89atomic_is_lock_free_%s(%s)' % (s, p)))
        elif ty != 'ptr':
            exp('clear', 'clear', '', '-', STORES)
    # the generic macros
    g, ct = '(atomic_ullong *)o', 'c89atomic_uint64'
    def gen(op, ords, kind, expr, ty='g', c=ct):
        t.append((op, ty, ords, kind, c, expr))
    gen('load', 'i', 'v', 'atomic_load(%s)' % g)
    gen('load', 'g', 'v', 'atomic_get(c89atomic_uint64, %s)' % g)
    gen('store', 'i', '-', 'atomic_store(%s, x)' % g)
    gen('store', '0g', '-', 'atomic_init(%s, x)' % g)
    gen('xchg', 'i', 'v', 'atomic_exchange(%s, x)' % g)
    gen('cas', 'i', 'c', 'atomic_compare_exchange_strong(%s, &x, d)' % g)
    gen('casw', 'i', 'c', 'atomic_compare_exchange_weak(%s, &x, d)' % g)
    gen('cas', 'g', 'c', 'atomic_cas(%s, &x, d)' % g)
    gen('cas', 'h', 'c', 'atomic_swap(%s, &x, d)' % g)
    gen('cas', 'i', 'c', 'atomic_cas_32((atomic_uint *)o, &x, d)', 'g32', 'c89atomic_uint32')
    gen('load', 'i', 'v', 'c89atomic_load_32((atomic_uint *)o)', 'g32', 'c89atomic_uint32')
    gen('store', 'i', '-', 'c89atomic_store_32((atomic_uint *)o, x)', 'g32', 'c89atomic_uint32')
    gen('lockfree', '0', 'b', 'atomic_is_lock_free(%s)' % g)
    for o in LOADS: gen('load', str(o), 'v', 'atomic_load_explicit(%s, memory_order_%s)' % (g, ORD[o]))
    for o in STORES: gen('store', str(o), '-', 'atomic_store_explicit(%s, x, memory_order_%s)' % (g, ORD[o]))
    for o in RMWS: gen('xchg', str(o), 'v', 'atomic_exchange_explicit(%s, x, memory_order_%s)' % (g, ORD[o]))
    for op, fn in FETCH.items():
        gen(op, 'i', 'v', 'atomic_%s(%s, x)' % (fn, g))
        for o in RMWS: gen(op, str(o), 'v', 'atomic_%s_explicit(%s, x, memory_order_%s)' % (fn, g, ORD[o]))
    for a, b in PAIRS:
        gen('cas', '%d%d' % (a, b), 'c', 'atomic_compare_exchange_strong_explicit(%s, &x, d, memory_order_%s, memory_order_%s)' % (g, ORD[a], ORD[b]))
        gen('casw', '%d%d' % (a, b), 'c', 'atomic_compare_exchange_weak_explicit(%s, &x, d, memory_order_%s, memory_order_%s)' % (g, ORD[a], ORD[b]))
    # flags and locks
    f = '(atomic_flag *)o'
    def flag(op, ords, kind, expr, ty='flag'):
        t.append((op, ty, ords, kind, 'c89atomic_uint8', expr))
    flag('load', 'i', 'v', 'atomic_flag_load(%s)' % f)
    flag('tas', 'i', 'v', 'atomic_flag_test_and_set(%s)' % f)
    flag('clear', 'i', '-', 'atomic_flag_clear(%s)' % f)
    for o in LOADS: flag('load', str(o), 'v', 'atomic_flag_load_explicit(%s, memory_order_%s)' % (f, ORD[o]))
    for o in RMWS: flag('tas', str(o), 'v', 'atomic_flag_test_and_set_explicit(%s, memory_order_%s)' % (f, ORD[o]))
    for o in STORES: flag('clear', str(o), '-', 'atomic_flag_clear_explicit(%s, memory_order_%s)' % (f, ORD[o]))
    flag('lock', 'l', '-', 'atomic_lock(o)', 'lock')
    flag('unlock', 'l', '-', 'atomic_unlock(o)', 'lock')
    flag('lock', 'c', '-', 'c89atomic_spinlock_lock((atomic_spinlock *)o)', 'lock')
    flag('unlock', 'c', '-', 'c89atomic_spinlock_unlock((atomic_spinlock *)o)', 'lock')
    flag('tas', '2', 'v', 'atomic_flag_test_and_set_explicit(%s, memory_order_acquire)' % f, 'lock')
    return t

def is_sc(ords):
    return ords in ('i', 'g', 'h', '5', '55')

def names():
    return [('%s_%s_%s' % (op, ty, ords), op, ty, ords) for op, ty, ords, k, c, e in table()]

def main(path):
    w, tab = [], []
    for op, ty, ords, kind, ct, expr in table():
        n = '%s_%s_%s' % (op, ty, ords)
        body = []
        if ', x' in expr or '&x' in expr: body.append('%s x; memcpy(&x, a, sizeof x);' % ct)
        if ', d' in expr: body.append('%s d; memcpy(&d, b, sizeof d);' % ct)
        if kind == 'v': body.append('{ %s y = (%s)%s; memcpy(r, &y, sizeof y); return sizeof y; }' % (ct, ct, expr))
        elif kind == 'c': body.append('r[0] = !!%s; memcpy(r + 1, &x, sizeof x); return 1 + sizeof x;' % expr)
        elif kind == 'b': body.append('r[0] = !!%s; return 1;' % expr)
        else: body.append('%s; return 0;' % expr)
        w.append('static int %s(void *o, const unsigned char *a, const unsigned char *b, unsigned char *r) { %s }' % (n, ' '.join(body)))
        tab.append('{ "%s", "%s", %d, %s }' % (n, op, 1 if is_sc(ords) else 0, n))
    w.append('static struct { const char *n, *op; int sc; int (*f)(void *, const unsigned char *, const unsigned char *, unsigned char *); } optab[] = {\n%s };' % ',\n'.join(tab))
    open(path, 'w').write('\n'.join(w) + '\n')
if __name__ == '__main__':
    import sys
    main(sys.argv[1])
