from lib.engine import Query

SPECS = {}
BUF = ['strbuf.c', 'strview.c']
STEP = 'STRBUF_CAPACITY_GROW_STEP'
TYPES = ['%sint%d_t' % (u, n) for n in (8, 16, 32, 64) for u in ('', 'u')]


def spec(pid, queries, bounds, assumptions=()):
    names = [x.name for x in queries]
    assert len(set(names)) == len(names), (pid, [n for n in names if names.count(n) > 1])
    SPECS[pid] = dict(queries=queries, bounds=bounds, assumptions=list(assumptions) + [
        'memcpy, memmove, memset are the C definitions in harness/models.c',
        'CBMC\'s LP64 x86-64 data model, little endian'])


# ---------------------------------------------------------------- byte order, packing
def pack(name, entry, defs, tier='quick', **kw):
    d = dict({STEP: 4, 'CAP': 3, 'SN': 8, 'G': 31, 'VERIF_CONFIG': 1}, **defs)
    return Query(name, 'h_pack.c', entry, BUF, d, unwind=40, tier=tier, incs=['accessories'], decay=False, **kw)


spec('A01', [pack('endian ' + t, 'h_endian', {'T': t}) for t in TYPES]
     + [pack('big endian ' + t, 'h_big_endian', {'T': t, '__BYTE_ORDER__': '__ORDER_BIG_ENDIAN__'}) for t in TYPES], 'all values of the eight types; the configuration for big endian machines by values, not memory')

SIZED = [('int8_t', 'uint8_t'), ('int16_t', 'uint16_t'), ('int32_t', 'uint32_t'), ('int64_t', 'uint64_t')]
ARENA_OMIT = ['--bounds-check', '--pointer-check']


def packs():
    out = []
    for t in TYPES:
        n = int(''.join(c for c in t if c.isdigit())) // 8
        for f in (0, 1):
            for big in (0, 1):
                for cap, sizes in ((3, (0, 1, 2, 3)), (9, (0, 1, 2, 9))):
                    for s in sizes:
                        # without and with growth, and at the limit
                        tier = 'quick' if s in (0, cap) or s + n == cap else 'thorough'
                        out.append(pack('pack %s%s %s size %d cap %d' % (t, ' fixed' if f else '', 'BE' if big else 'LE', s, cap), 'h_pack',
                                        {'T': t, 'FIXED': f, 'BIG': big, 'SIZE': s, 'CAP': cap, 'BYARENA': int(cap == 9)}, omit=ARENA_OMIT, tier=tier))
    return out


def packseqs():
    out, m = [], 0
    for i in range(4):
        for j in range(4):
            for k in range(4):
                for o in range(8):
                    m += 1
                    # a signed and an unsigned type of each width in every place
                    t = SIZED[i][(j + k + o) % 2], SIZED[j][(i + k + o // 2) % 2], SIZED[k][(i + j + 1 + o // 4) % 2]
                    f = m % 2
                    tier = 'quick' if (i + j + o) % 4 == 0 else 'thorough'
                    out.append(pack('seq%s %s %s %s order %d' % (' fixed' if f else '', *t, o), 'h_packseq',
                                    {'T': t[0], 'T2': t[1], 'T3': t[2], 'BYARENA': 1, 'O1': o & 1, 'O2': o >> 1 & 1, 'O3': o >> 2, 'CAP': 24, 'FIXED': f, 'AK': 40, 'NBLK': 4},
                                    tier=tier, omit=ARENA_OMIT))
    return out


spec('A02', packs() + [pack('unpack ' + t, 'h_unpack', {'T': t}) for t in TYPES] + packseqs(),
     'content 0..3, 9 bytes in capacity 3, 9, all values of the eight types, views that continue by 0..2 bytes; sequences of three integers (quick: a part of the combinations of widths and orders)')


# ---------------------------------------------------------------- read() and write()
def io(name, entry, defs, tier='quick', **kw):
    d = dict({STEP: 4, 'G': 31, 'read': 'v_read', 'write': 'v_write'}, **defs)
    src = BUF + ['accessories/strbuf_io.c', 'accessories/strview_io.c']
    return Query(name, 'h_io.c', entry, src, d, unwind=70, tier=tier, incs=['accessories'], **kw)


def conf(f):
    return ' fixed' if f else ''


IOA = ['read() and write() are stubs, which may give any result that POSIX permits, short ones and errors included']
spec('A03', [io('read%s cap %d' % (conf(f), c), 'h_read', dict(CAP=c, FIXED=f, STEPS=2), omit=ARENA_OMIT, tier=t) for f in (0, 1) for c, t in ((0, 'quick'), (1, 'quick'), (5, 'quick'), (9, 'thorough'))]
     + [io('read exact%s cap %d' % (conf(f), c), 'h_read', dict(CAP=c, FIXED=f, STEPS=1, ARENA=0)) for f in (0, 1) for c in (2,)]
     + [io('nothing', 'h_nothing', dict(ARENA=0))],
     'content and capacity of 0..5 bytes (thorough: 9), two reads in sequence, every result', IOA)
spec('A04', [io('write%s size %d cap %d steps %d' % (conf(f), s, c, n), 'h_bufwrite', dict(SIZE=s, CAP=c, FIXED=f, STEPS=n), omit=ARENA_OMIT, tier=t, cost=s + n)
             for f in (0, 1) for s, c, n, t in [(s, 3, 3, 'quick') for s in range(4)] + [(s, 6, 2, 'quick') for s in range(7)] + [(4, 4, 4, 'thorough'), (9, 12, 3, 'thorough')]]
     + [io('write exact%s size %d' % (conf(f), s), 'h_bufwrite', dict(SIZE=s, CAP=2, FIXED=f, STEPS=2, ARENA=0)) for f in (0, 1) for s in (0, 1, 2)]
     + [io('view place %d' % p, 'h_viewwrite', dict(PLACE=p, SN=6, STEPS=3, CAP=6)) for p in (0, 1, 2)]
     + [io('nothing', 'h_nothing', dict(ARENA=0))],
     'content of 0..6 bytes (thorough: 9), two or three (thorough: four) calls of write() in sequence, every result', IOA)


# ---------------------------------------------------------------- AES
AES = ['accessories/strbuf_crypt/aes/%s.c' % n for n in ('aes_sbox', 'aes_invsbox', 'gf256mul', 'aes_keyschedule', 'aes_enc', 'aes_dec', 'aes256_enc', 'aes256_dec', 'memxor')]
CRYPT = ['accessories/strbuf_crypt', 'accessories/strbuf_crypt/aes', 'accessories']


def aes(name, entry, defs=None, tier='quick', **kw):
    return Query(name, 'h_aes.c', entry, AES, defs or {}, unwind=70, tier=tier, incs=CRYPT, flags=['--max-field-sensitivity-array-size', '300'], **kw)


spec('A05', [aes('sbox', 'h_sbox'), aes('invsbox', 'h_invsbox'), aes('gf256mul', 'h_gfmul', {'RED': '0x1b'})]
     + [aes('gf256mul by %d, any polynomial' % k, 'h_gfmul', {'FACTOR': k}, tier='quick' if k < 16 or k & (k - 1) == 0 or k in (0x53, 0xca, 0xff) else 'thorough') for k in range(256)],
     'every byte; every pair of bytes with the polynomial of AES, and every byte by 23 (thorough: all 256) factors with every polynomial of degree 8')
spec('A06', [aes('aes256_init', 'h_keys')] + [aes('aes%d_init' % k, 'h_keys', {'KEYBITS': k}, tier='thorough') for k in (128, 192)], 'all 2^256 keys')
F2 = {'INVMIX': 'f_invmix2'}
spec('A07', [aes('enc %d rounds' % n, 'h_enc', {'NR': n}, cost=20, timeout=150, tier='quick' if n in (1, 2, 3, 7, 14) else 'thorough') for n in range(1, 15)]
     + [aes('dec %d rounds' % n, 'h_dec', dict(F2, NR=n), cost=20, timeout=150, tier='quick' if n in (1, 2, 3, 7, 14) else 'thorough') for n in range(1, 15)]
     # only some of the bytes of each column: decided however InvMixColumns is written
     + [aes('dec %d rounds, column %d' % (n, c), 'h_dec', dict(F2, NR=n, COLUMN=c), timeout=150, tier='quick' if n == 2 or c == 15 else 'thorough') for n in (2, 5, 13) for c in (1, 2, 4, 8, 3, 5, 9, 6, 10, 12)]
     + [aes('invmix of the harness, column %d' % c, 'h_invmix', {'COLUMN': c}) for c in (3, 5, 9, 6, 10, 12)] + [aes('invmix of the harness, column 15', 'h_invmix', {'COLUMN': 15}, tier='thorough')]
     + [aes('%s14 %s byte %d' % (d, 'key %d' % k if k >= 0 else 'block', at), 'h_%s14' % d, dict(F2, KEYNO=k, AT=at), cost=25 - k, tier='quick' if (k, at) in ((-1, 10), (0, 0), (1, 5), (6, 3), (11, 12), (14, 6)) else 'thorough')
        for d in ('enc', 'dec') for k in range(-1, 15) for at in range(16)]
     + [aes('both14 block byte %d' % at, 'h_both14', {'AT': at}, tier='quick' if at == 9 else 'thorough') for at in range(16)],
     'totals of 1..14 rounds (quick: 1, 2, 3, 7, 14) with an arbitrary state in front of the last two (decryption: the last) rounds, reached by known round keys, and arbitrary round keys from there on; '
     '14 rounds for all values of one byte of the block or of a round key, the rest known',
     ['a fault that depends both on a round before the last two of its total and on more than one byte of that state lies outside of the bounds'])


# ---------------------------------------------------------------- CBC
CSRC = BUF + ['accessories/strbuf_crypt/strbuf_crypt.c', 'accessories/strbuf_crypt/aes/memxor.c']


def crypt(op, size, cap, fixed, tier='quick', real=False, **defs):
    exact = defs.get('ARENA') == 0
    padded = size // 16 * 16 + 16
    d = dict({STEP: 16, 'NBLK': 1 if fixed else 3, 'G': 31, 'SN': 1, 'SIZE': size, 'CAP': cap, 'FIXED': fixed, 'AK': max(cap, padded) + 32}, **defs)
    name = '%s%s size %d cap %d%s' % (op, conf(fixed), size, cap, ''.join(' %s %s' % kv for kv in defs.items()))
    src = CSRC
    if real:
        d['REAL'] = 1
        src = CSRC + [a for a in AES if 'memxor' not in a]
    return Query(name, 'h_crypt.c', 'h_' + op, src, d, unwind=max(cap, padded) + 60, tier=tier, incs=CRYPT, omit=() if exact else ARENA_OMIT,
                 flags=['--max-field-sensitivity-array-size', '300'], cost=1 + size, **kw_real(real))


def kw_real(real):
    return {'timeout': 300} if real else {}


def crypts(op):
    out = []
    for s in range(0, 66):
        q = 'quick' if s < 35 else 'thorough'
        edge = 'quick' if s in (0, 1, 15, 16, 17, 31, 32, 33, 47, 48) else 'thorough'
        full = s // 16 * 16 + 16
        out += [crypt(op, s, max(s, 1), 0, q), crypt(op, s, full, 0, edge), crypt(op, s, full, 1, q), crypt(op, s, full + 9, 1, edge)]
        if op == 'encrypt':
            out += [crypt(op, s, c, 1, edge if c in (s, full - 1) else 'thorough') for c in range(s, full)]
        if op == 'decrypt':
            out += [crypt(op, s, s, 1, q)]
    return out + [crypt(op, s, s // 16 * 16 + 16, 1, ARENA=0) for s in (0, 15, 16, 20)]


CA = ['the block cipher is an arbitrary permutation for the key (a stub of aes256_init/enc/dec); that AES is one is the subject of A05 to A07',
      'an allocator gives the context a block of its own']
spec('A08', crypts('encrypt') + [crypt('real', s, 32, 1, real=True, AT=at) for s, at in ((20, 18), (5, -1))], 'content of 0..34, 47, 48 (thorough: 65) bytes; all contents, keys, vectors', CA)
spec('A09', crypts('roundtrip') + [crypt('real', s, 32, 1, real=True, AT=at, BACK=1) for s, at in ((20, 18),)], 'content of 0..34, 47, 48 (thorough: 65) bytes; all contents, keys, vectors', CA)
spec('A10', crypts('decrypt'), 'content of 0..34, 47, 48 (thorough: 65) bytes; all contents, keys, vectors', CA)
