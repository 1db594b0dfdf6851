from lib.engine import Query

SRC = ['strbuf.c', 'strview.c']
SPECS = {}
WELLFORMED, CONTENT, FIXED, ALLOC, CAPACITY = 1, 2, 4, 8, 16
OPS = dict(append='APPEND', prepend='PREPEND', insert='INSERT', assign='ASSIGN', append_char='APPEND_CHAR', before='BEFORE', after='AFTER')
FMT = {'printf': 'PRINTF', 'append_printf': 'APPEND_PRINTF', 'prnf': 'PRNF', 'append_prnf': 'APPEND_PRNF', 'append_using': 'FETCH'}
PR, PN = ('printf', 'append_printf'), ('prnf', 'append_prnf')


def spec(pid, queries, bounds, assumptions=()):
    names = [x.name for x in queries]
    assert len(set(names)) == len(names), (pid, [n for n in names if names.count(n) > 1])
    SPECS[pid] = dict(queries=queries, bounds=bounds, assumptions=list(assumptions) + [
        'allocations succeed',
        'memcpy, memmove, memset, strlen are the C definitions in harness/models.c',
        'CBMC\'s LP64 x86-64 data model'])


def q(name, entry, defs, unwind=100, harness='h_buf.c', tier='quick', **kw):
    defs = {k: v for k, v in defs.items() if v is not False}
    if defs.get('ARENA', 1):
        # accesses outside of the blocks are found by the guards; CBMC's own checks are made with ARENA=0
        kw.setdefault('omit', ['--bounds-check', '--pointer-check'])
    else:
        kw.setdefault('timeout', 400)
    if defs.get('CAP', 4) > 50:
        kw.setdefault('flags', ['--max-field-sensitivity-array-size', '1200'])
        unwind = max(unwind, defs['CAP'] + defs.get('SN', 0) + 100)
    return Query(name, harness, entry, SRC, dict({'STRBUF_CAPACITY_GROW_STEP': 4}, **defs), unwind=unwind, tier=tier, **kw)


def tag(defs):
    """the part of a query's name that tells its configuration"""
    t = []
    if defs.get('FIXED'): t.append('fixed')
    if defs.get('SELF'): t.append('self')
    if 'CSTR' in defs: t.append('cstr')
    if 'ANYINDEX' in defs: t.append('any index')
    if defs.get('STDLIB'): t.append('stdlib')
    if defs.get('INPLACE'): t.append('in place')
    if defs.get('ARENA') == 0: t.append('exact blocks')
    if 'STRBUF_CAPACITY_GROW_STEP' in defs: t.append('step %d' % defs['STRBUF_CAPACITY_GROW_STEP'])
    if 'ELSEWHERE' in defs: t.append('elsewhere %d' % defs['ELSEWHERE'])
    if 'ARGS' in defs: t.append('args ' + defs['ARGS'].replace('{', '(').replace('}', ')'))
    if 'FEW' in defs: t.append('at edges')
    if defs.get('VCAT'): t.append('va_list')
    return ' '.join(t)


def sized(op, entry, defs, cap, groups, **kw):
    """one query for each group of sizes of the content"""
    return [q('%s %s cap %d size %d-%d src %s' % (op, tag(defs), cap, a, b, defs.get('SN')), entry, dict(defs, CAP=cap, SLO=a, SHI=b),
              cost=(b + 1) * (20 if defs.get('ARENA') == 0 else 1), **kw) for a, b in groups]


def each(cap):
    return [(s, s) for s in range(cap + 1)]


def splice(op, g, cap=4, sn=5, groups=None, tier='quick', **defs):
    if defs.get('SELF'): sn = 0
    if defs.get('SELF'): defs.setdefault('AK', 2*cap + 2*defs.get('STRBUF_CAPACITY_GROW_STEP', 4))
    if groups is None:
        groups = each(cap) if op in ('insert', 'before', 'after') else [(0, cap)]
    return sized(op, 'h_splice', dict(dict(OP=OPS[op], G=g, SN=sn), **defs), cap, groups, tier=tier)


def fmt(op, g, cap=4, sn=5, groups=None, tier='quick', **defs):
    d = dict(OP=FMT[op], G=g, SN=sn, **defs)
    kw = dict(harness='h_fmt.c', tier=tier)
    if 'printf' in op:
        d.update({'STRBUF_PROVIDE_PRINTF': None, 'vsnprintf': 'v_vsnprintf'})
    if 'prnf' in op:
        d.update({'STRBUF_PROVIDE_PRNF': None, 'PLATFORM_PC': None})
        kw['incs'] = ['test']
        if not defs.get('FIXED'):
            d.setdefault('NBLK', 3 + sn // 4)
    return sized(op, 'h_fmt', d, cap, groups or [(0, 1), (2, cap)], **kw)


def cat(g, cap=3, sn=2, nargs=2, groups=None, tier='quick', **defs):
    if not defs.get('FIXED'):
        defs.setdefault('NBLK', 3)
    op = 'vcat' if defs.get('VCAT') else 'cat'
    return sized('%s%d' % (op, nargs), 'h_cat', dict(defs, G=g, SN=sn, NARGS=nargs), cap, groups or each(cap), harness='h_cat.c', tier=tier)


# one call with an invalid view among the arguments; bounds small, as the solver decides all of it
INV = [dict(ARGS=a, nargs=n, cap=1, sn=1, AK=ak, groups=[(1, 1)]) for a, n, ak in (
    ('{-2,0}', 1, 2), ('{-2,0},{-1,1}', 2, 2), ('{-1,1},{-2,0}', 2, 2), ('{-2,0},{0,1}', 2, 2), ('{0,1},{-2,0}', 2, 2), ('{-2,0},{-2,0}', 2, 2))]


def cat_inv(g, **defs):
    out = []
    for i in INV:
        d = dict(i, **defs)
        if d.get('FIXED') and '{0,' in d['ARGS']: continue
        out += cat(g, STRBUF_CAPACITY_GROW_STEP=2, **d)
    for x in out:
        x.unwind = 20
        x.unwindset.update({'memcpy.0': 4, 'memmove.0': 4, 'memmove.1': 4, 'blk_copy.0': 4, 'memset.0': 4})
        x.cost = 50
    return out


def life(op, entry, g, cap=4, sn=5, tier='quick', **defs):
    if entry == 'h_resize': defs.setdefault('NBLK', 3)
    kw = {k: defs.pop(k) for k in ('incs', 'unwind', 'omit', 'cost') if k in defs}
    return [q('%s %s cap %d' % (op, tag(defs), cap), entry, dict(defs, G=g, CAP=cap, SN=sn), harness='h_life.c', tier=tier, **kw)]


STEP = 'STRBUF_CAPACITY_GROW_STEP'
SPLICES = ('append', 'prepend', 'insert', 'assign', 'append_char', 'before', 'after')
FMTS = ('printf', 'append_printf', 'prnf', 'append_prnf', 'append_using')


def big(g, fixed=0, ops=SPLICES, tier='quick'):
    """content of some hundred bytes: sizes beyond what an 8 bit integer holds"""
    out = []
    for op in ops:
        for cap, s, n in ((130, 126, 3), (262, 254, 3), (262, 2, 259)):
            if n == 259 and op not in ('append', 'assign'): continue
            if op == 'append_char': n = 1
            out += splice(op, g, cap=cap, sn=n, groups=[(s, s)], NLO=n, FEW=1, FIXED=fixed, tier=tier if s != 254 else 'thorough', AK=cap + 8)
    return out


def listed(op, g, cap, calls, tier='quick', **defs):
    """these calls only: (size of the content, of the source, offset of a self view, index or position, size of the view there)"""
    d = dict(dict(OP=OPS[op], G=g, SN=0 if defs.get('SELF') else max(c[1] for c in calls),
                  LIST=','.join('{%s}' % ','.join(map(str, c)) for c in calls)), **defs)
    return [q('%s %s cap %d %d calls from size %d' % (op, tag(defs), cap, len(calls), calls[0][0]), 'h_splice', dict(d, CAP=cap), unwind=cap + 100, cost=len(calls)*cap/4,
              flags=['--max-field-sensitivity-array-size', '1200'], tier=tier)]


def blocks(g, fixed=0, tier='quick'):
    """sources and shifts around the default step of 16 and multiples of it"""
    d = {STEP: 16, 'FIXED': fixed}
    out = []
    for s, ns, idx in ((37, (15, 16, 17, 33), (0, 1, 18, 37)), (16, (1, 16), (0, 8, 15, 16))):
        out += listed('insert', g, 72 if fixed else 40, [(s, n, 0, i, 0) for n in ns for i in idx], tier=tier, **d)
        out += listed('append', g, 72 if fixed else 40, [(s, n, 0, 0, 0) for n in ns], tier=tier, **d)
        out += listed('prepend', g, 72 if fixed else 40, [(s, n, 0, 0, 0) for n in ns], tier=tier, **d)
    return out


def blocks_self(g, fixed=0, tier='quick'):
    d = {STEP: 16, 'FIXED': fixed, 'SELF': 1, 'AK': 110}
    out = []
    for op, idx in (('insert', (0, 8, 20, 40)), ('append', (0,)), ('prepend', (0,)), ('before', (20,)), ('after', (20,))):
        out += listed(op, g, 100 if fixed else 40, [(40, n, f, i, 4 if op in ('before', 'after') else 0) for n, f in ((16, 3), (17, 23), (33, 7)) for i in idx], tier=tier, **d)
    return out


def big_self(g, tier='quick'):
    """self views at offsets beyond what an 8 bit integer holds, with and without expansion"""
    d = {STEP: 16, 'SELF': 1, 'AK': 280}
    return (listed('insert', g, 262, [(257, 4, 0, 255, 0), (257, 4, 253, 1, 0), (260, 4, 253, 255, 0), (260, 4, 256, 1, 0), (260, 4, 254, 256, 0)], tier=tier, **d)
            + listed('prepend', g, 262, [(257, 4, 253, 0, 0), (260, 4, 256, 0, 0)], tier=tier, **d) + listed('append', g, 262, [(257, 4, 253, 0, 0), (260, 4, 256, 0, 0)], tier=tier, **d)
            + listed('assign', g, 262, [(260, 4, 256, 0, 0), (260, 257, 3, 0, 0)], tier=tier, **d)
            + listed('after', g, 262, [(260, 4, 254, 256, 1), (257, 4, 0, 256, 1)], tier=tier, **d) + listed('before', g, 262, [(260, 4, 254, 256, 1), (257, 4, 0, 256, 1)], tier=tier, **d))


def narg(ns, tier='quick'):
    """strbuf_cat() of each number of arguments"""
    d = {'CAP': 20, 'SN': 130, 'FIXED': 1}
    for n in ns: d['L%d' % n] = ','.join('A(%d)' % i for i in reversed(range(n)))
    d['COUNTS'] = ' '.join('{ strview_t r = strbuf_cat(&b, L%d); check(b, %d, r); }' % (n, n) for n in ns)
    return [q('cat of %d..%d arguments' % (ns[0], ns[-1]), 'h_narg', d, unwind=140, harness='h_narg.c', flags=['--max-field-sensitivity-array-size', '1200'], tier=tier, cost=10)]


def count(ns):
    """the number of arguments the macro tells"""
    d = {'STUB': None, 'CAP': 1, 'SN': 1, 'FIXED': 1}
    for n in ns: d['L%d' % n] = ','.join(['I(first)'] + ['I(%d)' % i for i in range(1, n)])
    d['COUNTS'] = ' '.join('strbuf_cat(&b, L%d); expect(%d, first);' % (n, n) for n in ns)
    return [Query('count of %d..%d arguments' % (ns[0], ns[-1]), 'h_narg.c', 'h_count', [], d, unwind=10, cost=10)]


def elsewhere(g, tier='quick', **defs):
    """insert_before and insert_after at a view that is not one of the content"""
    return [x for op in ('before', 'after') for e in (1, 2, 3, 4, 5, 6) for f in (0, 1)
            for x in splice(op, g, cap=2, sn=1, NLO=1, groups=[(1, 1)], ELSEWHERE=e, FIXED=f, tier=tier, **defs)]


def exact(g, ops=SPLICES, tier='quick'):
    """every block an object of its own of exactly the size requested, with CBMC's own checks"""
    out = []
    for op in ops:
        for f in (0, 1):
            out += splice(op, g, cap=2, sn=3, groups=each(2), NLO=2, FEW=1, FIXED=f, ARENA=0, tier=tier)
    for op in ('append', 'insert', 'assign', 'after'):
        for f in (0, 1):
            out += splice(op, g, cap=2, groups=each(2), FEW=1, FIXED=f, SELF=1, ARENA=0, tier=tier)
    for x in out: x.unwind = 11
    return out


def everything(g, fixed, tier='quick', **defs):
    """all operations; at the edges and in the middle in the quick tier, everywhere in the thorough one"""
    out = []
    for op in SPLICES:
        out += splice(op, g, FIXED=fixed, FEW=1, groups=[(0, 2), (3, 4)] if op in ('insert', 'before', 'after') else None, tier=tier, **defs)
        if op in ('insert', 'before', 'after'):
            out += splice(op, g, FIXED=fixed, tier='thorough', **defs)
    for op in ('append', 'prepend', 'insert', 'assign', 'before', 'after'):
        out += splice(op, g, cap=3, SELF=1, FIXED=fixed, FEW=1, groups=[(0, 2), (3, 3)] if op in ('insert', 'before', 'after') else None, tier=tier, **defs)
        if op in ('insert', 'before', 'after'):
            out += splice(op, g, cap=4, SELF=1, FIXED=fixed, tier='thorough', **defs)
    if not defs.get('INPLACE'):
        for op in FMTS:
            out += fmt(op, g, FIXED=fixed, tier=tier, **defs)
        out += cat(g, FIXED=fixed, tier=tier, cap=2, groups=[(0, 1), (2, 2)], sn=3, **defs)
        out += cat(g, FIXED=fixed, tier='thorough', cap=3, **defs)
    out += life('strip', 'h_strip', g, cap=3, sn=1, FIXED=fixed, tier=tier, **defs)
    out += life('resize', 'h_resize', g, cap=3, sn=5, FIXED=fixed, tier=tier, **defs)
    out += life('end', 'h_end', g, FIXED=fixed, tier=tier, **defs)
    return out


def stdlib(g):
    """the default allocator, on top of realloc() and free() of the harness"""
    d = dict(STDLIB=1, STRBUF_DEFAULT_ALLOCATOR_STDLIB=None, malloc='v_malloc', calloc='v_calloc', realloc='v_realloc', free='v_free')
    out = []
    for op in ('append', 'append_char'):
        out += splice(op, g, FEW=1, **d)
    out += cat(g, cap=2, groups=[(1, 2)], **d)
    out += life('resize', 'h_resize', g, cap=3, sn=5, **d) + life('end', 'h_end', g, **d) + life('create', 'h_create', g, **d)
    return out


spec('B01', everything(WELLFORMED, 0) + everything(WELLFORMED, 1) + cat_inv(WELLFORMED) + cat_inv(WELLFORMED, FIXED=1)
     + life('create', 'h_create', WELLFORMED) + exact(WELLFORMED) + elsewhere(WELLFORMED) + big(WELLFORMED),
     'content 0..4 bytes (also 126, 254), sources 0..5 bytes (also 259) and self views, capacity 4 step 4, all symbolic bytes')
spec('B02', [x for op in ('append', 'append_char', 'prepend', 'insert') for x in splice(op, CONTENT)]
     + [x for op in ('append', 'prepend', 'insert') for x in splice(op, CONTENT, CSTR=1, FEW=1)]
     + [x for op in ('append', 'append_char', 'prepend', 'insert') for x in splice(op, CONTENT, FIXED=1)]
     + splice('insert', CONTENT, ANYINDEX=1, NLO=2, sn=2)
     + [x for op in ('append', 'prepend', 'insert') for x in splice(op, CONTENT, cap=9, sn=11, NLO=6, **{STEP: 16, 'FEW': 1}, groups=[(0, 4), (5, 9)])]
     + big(CONTENT, ops=('append', 'append_char', 'prepend', 'insert')) + blocks(CONTENT) + blocks(CONTENT, 1, 'thorough'), 'content 0..4 bytes in capacity 4 (0..9, 126, 254), sources of 0..5 bytes (6..11), every index from before the start to past the end and INT_MIN/INT_MAX; any int index for a source of 2 bytes')
spec('B03', [x for f in (0, 1) for op in ('append', 'prepend', 'insert', 'assign', 'before', 'after') for x in splice(op, CONTENT, SELF=1, FIXED=f)]
     + [x for f in (0, 1) for op in ('append', 'prepend', 'insert', 'assign', 'before', 'after') for x in splice(op, CONTENT, SELF=1, FIXED=f, cap=9, AK=20, FEW=1, groups=[(3, 4)])]
     + blocks_self(CONTENT) + blocks_self(CONTENT, 1, 'thorough') + big_self(CONTENT), 'content 0..4 bytes in capacity 4, every view of it, every index or position; content 3..4 bytes in capacity 9 (no expansion)')
spec('B04', everything(FIXED, 1) + cat_inv(FIXED, FIXED=1) + big(FIXED, fixed=1), 'capacity 4 (also 130, 262), content 0..4 bytes, sources 0..5 bytes and self views')
spec('B05', cat(CONTENT) + cat(CONTENT, VCAT=1) + cat(CONTENT, nargs=1) + cat(CONTENT, nargs=3, FEW=1) + cat(CONTENT, FIXED=1) + cat(CONTENT, nargs=3, FEW=1, FIXED=1, sn=4) + cat_inv(CONTENT)
     + narg([15, 16, 17]) + narg([63]) + narg([64]) + narg([127]) + [x for n in range(1, 127) if n not in (63, 64) for x in narg([n], 'thorough')]
     + count(range(1, 64)) + count(range(64, 96)) + count(range(96, 128)), '1..3 arguments, each any view of a content of 0..3 bytes or outside bytes of 0..2; invalid views in content of 1 byte')
spec('B06', splice('assign', CONTENT) + splice('assign', CONTENT, FIXED=1) + splice('assign', CONTENT, cap=9, sn=20, groups=[(0, 4), (5, 9)]) + big(CONTENT, ops=('assign',)), 'content 0..4 (0..9) bytes, sources 0..5 (0..20, 259) bytes')
spec('B07', everything(ALLOC, 0) + cat_inv(ALLOC) + everything(ALLOC, 0, INPLACE=1) + stdlib(ALLOC) + life('create', 'h_create', ALLOC) + exact(ALLOC), 'content 0..4 bytes, sources 0..5 bytes and self views, allocators which move blocks, resize in place, and realloc(); capacity step 4')
spec('B08', everything(CAPACITY, 0) + cat_inv(CAPACITY)
     + [x for st, sn in ((1, 5), (3, 8), (5, 12), (16, 18), (7, 15)) for op in ('append', 'insert', 'assign', 'append_char') for x in splice(op, CAPACITY, sn=sn, NLO=sn - 4 if op == 'insert' else -1, FEW=1, groups=[(0, 4)], **{STEP: st})]
     + [x for f in (0, 1) for x in life('resize, content', 'h_resize', CAPACITY | CONTENT, FIXED=f)] + life('create', 'h_create', CAPACITY | CONTENT)
     + big(CAPACITY), 'content 0..4 bytes, sources up to 18 bytes, steps 1,3,4,5,7,16; grow and shrink of capacity 3 and 4 to 0..9')
spec('B10', [x for op in PR for f in (0, 1) for x in fmt(op, CONTENT, FIXED=f)], 'content 0..4 bytes in capacity 4, formatted text of 0..5 arbitrary bytes, or failing at either call; vsnprintf() is a stub')
spec('B11', [x for op in PN for f in (0, 1) for x in fmt(op, CONTENT, FIXED=f)], 'content 0..4 bytes in capacity 4, formatted text of 0..5 arbitrary bytes; vfptrprnf() is a stub')
spec('B12', [x for f in (0, 1) for x in fmt('append_using', CONTENT, FIXED=f)], 'content 0..4 bytes in capacity 4, fetchers returning -2..free+2, INT_MIN, INT_MAX')
spec('B13', [x for f in (0, 1) for x in life('strip', 'h_strip', CONTENT, cap=3, sn=1, FIXED=f)] + life('strip', 'h_strip', CONTENT, cap=3, sn=1, CSTR=1), 'content 0..3 bytes, set of 0..2 characters or invalid, as a view or C string')
spec('B14', life('fixed', 'h_fixed', 31) + life('fixed_size', 'h_fixed_size', 31, ARENA=0) + life('static', 'h_static', 31, ARENA=0), 'capacity for every size_t; misalignments 0..7 with sizes around the header')
spec('B15', [x for f in (0, 1) for x in life('end', 'h_end', 31, FIXED=f)], 'content 0..4 bytes in capacity 4')
spec('B16', life('null', 'h_null', 31, ARENA=0, STRBUF_PROVIDE_PRINTF=None, STRBUF_PROVIDE_PRNF=None, vsnprintf='v_vsnprintf', PLATFORM_PC=None, incs=['test'])
     + life('no_default', 'h_no_default', 31, ARENA=0), 'all functions with both kinds of NULL (no symbolic size)')
spec('B17', [x for f in (0, 1) for op in ('before', 'after') for x in splice(op, CONTENT, FIXED=f)]
     + [x for op in ('before', 'after') for x in splice(op, CONTENT, CSTR=1, cap=2, sn=2)] + elsewhere(CONTENT) + big(CONTENT, ops=('before', 'after')), 'content 0..4 bytes in capacity 4 and every view of it, sources 0..5 bytes and C strings; views elsewhere for content of 1 byte; content of 126 bytes')


def seq(tier='quick', length=2, **defs):
    """all sequences of operations, one query for each first one"""
    out = []
    for first in range(16):
        d = dict(defs, FIRST=first, LEN=length, CAP=4, SN=3, G=31, AK=44 if length > 2 else 24, NBLK=3 + defs.get('TWO', 0),
                 STRBUF_PROVIDE_PRINTF=None, vsnprintf='v_vsnprintf')
        name = 'seq%d %s%s start %d first %d' % (length, tag(defs), ' two buffers' if defs.get('TWO') else '', defs.get('START', 2), first)
        out.append(q(name, 'h_seq', d, harness='h_seq.c', tier=tier))
    return out


spec('B18', seq(START=2) + seq('thorough', START=0) + seq(START=3, FIXED=1) + seq(START=2, TWO=1) + seq(START=3, TWO=1, FIXED=1)
     + seq('thorough', 3, START=2) + seq('thorough', 3, START=4, FIXED=1),
     'all pairs (thorough: triples) of 16 operations with parameters, on a content of 2 or 3 bytes in capacity 4, one or two buffers; content symbolic')


def huge(entry, op, step=16, **kw):
    d = {'OP': op, 'memmove': 'v_memmove', 'memcpy': 'v_memcpy', 'STRBUF_PROVIDE_PRINTF': None, 'vsnprintf': 'v_vsnprintf', STEP: step}
    return Query('%s %s step %d' % (entry[2:], op.lower(), step), 'h_max.c', entry, SRC, d, unwind=6, omit=['--bounds-check', '--pointer-check'], **kw)


spec('B09', [huge('h_refused', op) for op in ('APPEND', 'PREPEND', 'INSERT', 'APPEND_CHAR', 'CAT', 'VCAT3', 'PRINTF', 'SELF', 'ASSIGN', 'BEFORE')]
     + [huge('h_accepted', op, cost=10) for op in ('APPEND', 'PREPEND', 'INSERT', 'APPEND_CHAR', 'PRINTF', 'SELF', 'ASSIGN', 'BEFORE')]
     + [huge('h_accepted', 'APPEND_CHAR', 48)] + [huge('h_resized', 'APPEND')],
     'all sizes and capacities 0..INT_MAX and all sizes of the source; content is abstracted (ranges of copies are checked)')
