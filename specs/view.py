from lib.engine import Query

SRC = ['strview.c']
H = 'h_view.c'
PL = {0: 'margin', 1: 'start', 2: 'end'}


def q(name, entry, defs, unwind, tier='quick', cost=1, harness=H, **kw):
    return Query(name, harness, entry, SRC, defs, unwind=unwind, tier=tier, cost=cost, **kw)


def split(name, entry, axes, base=None, unwind=9, **kw):
    """one query for each combination of the -D values in axes"""
    out = [(name, dict(base or {}))]
    for k, vals in axes:
        out = [('%s,%s=%s' % (n, k, v), dict(d, **{k: v})) for n, d in out for v in vals]
    return [q(n, entry, d, unwind, **kw) for n, d in out]


LONG = ['--max-field-sensitivity-array-size', '700']


def long(name, entry, tier='quick', cost=4, **d):
    """views of more than 256 bytes, see harness/h_long.c"""
    kw = dict(hints={'memcmp_nocase.0': 262}, repo_unwind=5) if 'needle' in entry else {}
    return q('long ' + name, entry, d, 270, tier=tier, cost=cost, harness='h_long.c', flags=LONG, omit=['--bounds-check', '--pointer-check'], **kw)


SPECS = {}


def spec(pid, queries, bounds, assumptions=()):
    SPECS[pid] = dict(queries=queries, bounds=bounds, assumptions=list(assumptions) + [
        'bodies of memcpy, memmove, memcmp, memset, strlen and <ctype.h> are the C definitions in harness/models.c (C locale)',
        'CBMC\'s LP64 x86-64 data model'])


spec('V01', [qq for fn in range(14) for qq in split('bounds', 'h_bounds', [('FN', [fn]), ('PLACE', [1, 2])], dict(HN=5 if fn not in (11,) else 4, NN=2), unwind=9)],
     'source 0..5 bytes flush with the start or the end of its object, sets and needles up to 2 characters, all indexes')
spec('V02', [q('sub', 'h_sub', {}, 3, harness='h_viewidx.c')], 'none: all sizes 0..INT_MAX and all pairs of int indexes (loop free)')
spec('V03', split('trim', 'h_trim', [('TRIM', [0, 1, 2]), ('PLACE', [0, 1, 2]), ('CSTR', [0, 1])], dict(HN=6, NN=2), unwind=10)
     + split('trim3', 'h_trim', [('TRIM', [0, 1, 2])], dict(HN=8, NN=4), unwind=12, tier='thorough')
     + [q('trim_invalid', 'h_trim_invalid', {}, 6)]
     + [long('trim %d' % e, 'h_long_trim', END=e, WN=2) for e in range(4)] + [long('set', 'h_long_set', WN=3)], 'source 0..6 bytes (8), set 0..2 characters (4); long: 257 known characters to trim and 2 arbitrary ones; a set of 259')
for pid, last in (('V04', 0), ('V05', 1)):
    spec(pid, split('find', 'h_find', [('PLACE', [0, 1, 2]), ('NOCASE', [0, 1])], dict(HN=6, NN=3, LAST=last), unwind=9, cost=5)
         + split('find_c', 'h_find', [('NOCASE', [0, 1])], dict(HN=6, NN=3, LAST=last, CSTR=1), unwind=9, cost=5)
         + [q('find_invalid', 'h_find_invalid', dict(HN=4, NN=2), 8)]
         + [long('haystack %d' % n, 'h_long_find', LAST=last, NOCASE=n, WN=3, cost=6) for n in (0, 1)]
         + [long('needle %d' % n, 'h_long_needle', LAST=last, NOCASE=n, WN=1, cost=30, tier='thorough' if last else 'quick') for n in (0, 1)],
         'haystack 0..6 bytes, needle 0..3 bytes; long: haystack of 259 bytes of which 3 arbitrary at the far end, needle of 259 bytes')
spec('V06', split('match', 'h_match', [('PLACE', [0, 1, 2]), ('NOCASE', [0, 1])], dict(HN=5), unwind=10)
     + split('match_c', 'h_match', [('NOCASE', [0, 1])], dict(HN=5, CSTR=1), unwind=10)
     + split('same', 'h_match_same', [('NOCASE', [0, 1])], dict(HN=5), unwind=10)
     + split('contains', 'h_contains', [('NOCASE', [0, 1])], dict(HN=5, NN=3), unwind=10)
     + [long('match %d' % w, 'h_long_match', WN=2, WHERE=w, cost=8) for w in (0, 1, 2)], 'views of 0..5 bytes; long: 259 bytes, 2 arbitrary ones at the start, in the middle or at the end')
spec('V07', split('compare', 'h_compare', [('PLACE', [0, 1, 2])], dict(HN=6), unwind=11)
     + [q('compare3', 'h_compare3', dict(HN=4), 10)]
     + [long('compare %d' % w, 'h_long_compare', WN=2, WHERE=w, cost=6) for w in (0, 1, 2)], 'views of 0..6 bytes (pairs), 0..4 bytes (triples); long: 259 bytes, 2 arbitrary ones at the start, in the middle or at the end')
for pid, last in (('V08', 0), ('V09', 1)):
    spec(pid, split('split', 'h_split', [('PLACE', [0, 1, 2]), ('QUOTES', [0, 1])], dict(HN=6, NN=2, LAST=last), unwind=10)
         + [q('split_invalid', 'h_split_invalid', dict(HN=4, NN=2), 8)]
         + [long('split', 'h_long_split', WN=3, LAST=last, cost=8)], 'source 0..6 bytes, 0..2 delimiters; long: 259 bytes of which 3 arbitrary at the far end')
spec('V10', split('all', 'h_split_all', [('QUOTES', [0, 1])], dict(HN=5, NN=2, DN=4), unwind=10, cost=5)
     + [long('fields %d' % d, 'h_long_split_all', LN=257, DN=d, tier='quick' if d < 259 else 'thorough', cost=30) for d in (256, 257, 259)],
     'source 0..5 bytes, arrays of 0..4 elements; long: 256 delimiters and an arbitrary byte, arrays of 256, 257 and 259')
spec('V11', [q('index', 'h_index', {}, 3, harness='h_viewidx.c'), q('pop', 'h_pop', {}, 3, harness='h_viewidx.c')],
     'none: all sizes 0..INT_MAX and all int indexes (loop free)')
spec('V12', split('left_right', 'h_left_right', [('KIND', [0, 1, 2, 3])], dict(ON=64), 3, harness='h_viewidx.c') + [ q('swap', 'h_swap', {}, 3, harness='h_viewidx.c')],
     'source and pos anywhere within an object of 64 bytes (loop free), or invalid, or elsewhere')
spec('V13', split('line', 'h_line', [('PLACE', [0, 1, 2])], dict(HN=6), unwind=10)
     + [long('line', 'h_long_line', WN=3, cost=12)], 'source 0..6 bytes, every state of the discriminator; long: 259 bytes, 3 arbitrary at the end')
spec('V14', [q('chunks1', 'h_line_chunks', dict(HN=4, CUTS=1), 8), q('chunks2', 'h_line_chunks', dict(HN=3, CUTS=2), 8)],
     'text of 0..4 characters in 2 chunks, 0..3 in 3')
spec('V15', split('dequote', 'h_dequote', [('PLACE', [0, 1, 2])], dict(HN=7), unwind=10)
     + [long('dequote', 'h_long_dequote', WN=3, cost=16)], 'source 0..7 bytes; long: 129 levels of quotes, 3 arbitrary bytes in, before or behind the middle')
spec('V16', split('to_cstr', 'h_to_cstr', [('PLACE', [0, 1, 2])], dict(HN=5), unwind=12) + [q('cstr', 'h_cstr', dict(HN=6), 10), q('huge', 'h_to_cstr_huge', dict(HN=5), 12), long('cstr', 'h_long_cstr', WN=3, cost=16)],
     'view 0..5 bytes, destination 0..8 bytes and INT_MAX..SIZE_MAX; long: view of 259, destination of 256..261 bytes')
spec('V17', [q('macros', 'h_macros', dict(HN=3), 12)], 'views of 0..3 bytes; literals with and without NUL characters')
