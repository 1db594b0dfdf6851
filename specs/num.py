"""N: number conversions"""
from lib.engine import Query

SRC = ['strnum.c', 'strview.c']
AD = dict(ALLDIGITS=None, isdigit='v_isdigit', isxdigit='v_isxdigit')
U = ['uchar', 'ushort', 'uint', 'ulong', 'ullong']
S = ['char', 'short', 'int', 'long', 'llong']
FIX = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
BITS = dict(uchar=8, ushort=16, uint=32, ulong=64, ullong=64, char=8, short=16, int=32, long=64, llong=64,
            u8=8, u16=16, u32=32, u64=64, i8=8, i16=16, i32=32, i64=64)
SPECS = {}


def spec(pid, queries, bounds, assumptions=()):
    names = [q.name for q in queries]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    SPECS[pid] = dict(queries=queries, bounds=bounds, assumptions=list(assumptions) + [
        '<ctype.h> functions are their C locale definitions (harness/models.c); CBMC\'s LP64 x86-64 data model'])


def q(name, entry, defs, unwind, src=SRC, **kw):
    return Query(name, 'h_num.c', entry, src, defs, unwind=unwind, **kw)


def text(ty, n, entry='h_text', **kw):
    d = dict(dict(TY=ty, LEN=n, MINLEN=0), **kw.pop('defs', {}))
    if 'OPTMASK' in d: kw['suffix'] = ' opt&%d=%d' % (d['OPTMASK'], d['OPTVAL'])
    return q('%s %s %d%s' % (entry[2:], ty, n, kw.pop('suffix', '')), entry, d, n + 3, **kw)


def shape(ty, lead, digits, entry='h_shape', **kw):
    """spaces, sign, prefix, zeros, the digits lead, arbitrary digits, tail"""
    tier, cost, src, extra = kw.pop('tier', 'quick'), kw.pop('cost', 1), kw.pop('src', SRC), kw.pop('defs', {})
    d = dict(AD if lead and lead[0] != '0' and not kw.get('tail') else {}, TY=ty, LEAD='"%s"' % lead, DIGITS=digits, **extra)
    name = '%s %s %s+%d' % (entry[2:], ty, lead, digits)
    n = len(lead) + digits
    for k in ('spaces', 'zeros'):
        if kw.get(k):
            d[k.upper()] = kw[k]; name += ' %s=%d' % (k, kw[k]); n += kw[k]
    for k in ('sign', 'prefix'):
        if kw.get(k):
            d[k.upper()] = "'%s'" % kw[k]; name += ' %s%s' % (k[0], kw[k]); n += 2
    if kw.get('opt'):
        d['OPT'] = kw['opt']; name += ' opt=%d' % kw['opt']
    if kw.get('tail'):
        d['TAIL'] = '"%s"' % kw['tail']; name += ' tail=%s' % kw['tail']; n += len(kw['tail'])
    return q(name, entry, d, n + 3, src=src, tier=tier, cost=cost)


def limits(ty, sign='', entry='h_shape', **kw):
    """arbitrary digits around the limit of the type on that side, and just beyond its number of digits"""
    b = BITS[ty]
    signed = ty in S or ty[0] == 'i'
    lim = str((1 << b) - 1 if not signed else (1 << (b-1)) - (0 if sign == '-' else 1))
    k = len(lim)
    out = []
    if k <= 3:
        out.append(shape(ty, '', 4, entry, sign=sign, **kw))          # all of 0..9999
    else:
        free = 3 if k > 5 else 4
        out.append(shape(ty, lim[:k-free], free, entry, sign=sign, **kw))
        out.append(shape(ty, lim[0], 4 if k > 5 else 5, entry, sign=sign, **kw))
        out.append(shape(ty, str(1 << b)[:-3], 3, entry, sign=sign, zeros=1, **kw) if b < 64 else
                   shape(ty, '1' + lim[1:k-2], 3, entry, sign=sign, zeros=1, **kw))
    return out


def uniq(qs):
    seen = {}
    for x in qs:
        seen.setdefault(x.name, x)
    return list(seen.values())


spec('N01', uniq([x for ty in U for x in limits(ty)]
     + [text(ty, 3) for ty in U]
     + [shape('ullong', l, n) for l in '19' for n in (1, 2, 4, 6, 7)]
     + [shape('ullong', l, n, cost=9) for l in '14' for n in (8, 9, 11)]
     + [shape('ullong', l, n) for l, n in (('42949', 6), ('99999999', 3), ('4294967', 5), ('429496720', 4), ('184467440737', 5), ('1844674407370955', 4), ('1844674407370955161', 1),
                                            ('1844674407370955161', 2), ('18446744073709551', 4), ('99999999999999999', 3), ('1844674407370955', 6), ('10000000000000000', 7))]
     + [shape(ty, '1', n, cost=6) for ty, n in (('uint', 11), ('uint', 20))]
     + [shape('ullong', '1', n, tier='thorough', cost=60) for n in (10, 12, 14, 16, 17, 18, 19, 20, 21)]
     + [shape('ullong', l, n, tier='thorough', cost=60) for l in '29' for n in (9, 10, 18, 19)]
     + [shape(ty, '18446744073709551', 3, zeros=z, spaces=sp) for ty in ('ulong', 'ullong') for z, sp in ((0, 2), (3, 1))]
     + [shape(ty, l, 0, zeros=z, spaces=1, tail=tl) for ty in ('ushort', 'ullong') for l, z, tl in (('65535', 0, ';1'), ('', 3, 'a'), ('18446744073709551615', 20, '.'), ('18446744073709551616', 0, ' '))]),
     'every text of 0..3 characters; digit strings: 1 to 4 arbitrary digits, leading digit 1, 4 or 9 and up to 11 arbitrary ones (thorough: up to 21), and 1..7 arbitrary digits '
     'after the leading digits of each limit, up to 24 digits, zeros and spaces')
spec('N02', uniq([x for ty in S for sg in ('', '+', '-') for x in limits(ty, sg)]
     + [text(ty, 3) for ty in S]
     + [shape('llong', l, n, sign=sg, cost=2) for sg in '+-' for l, n in (('1', 6), ('42949', 6), ('922337203685477', 4), ('922337203685477580', 2), ('18446744073709551', 3), ('99999999999999999', 4))]
     + [shape('llong', '1', n, sign='-', tier='thorough', cost=60) for n in (8, 9, 10, 17, 18, 19)]
     + [shape(ty, '', 3, sign=sg, opt=8) for ty in ('char', 'int') for sg in '+-']
     + [shape(ty, l, 0, sign='-', zeros=z, spaces=2, tail=tl) for ty in ('short', 'llong') for l, z, tl in (('32768', 0, '-'), ('9223372036854775808', 5, 'e'), ('9223372036854775809', 0, '-'), ('', 1, '-'))]),
     'every text of 0..3 characters; with each sign: arbitrary digits around each limit, up to 21 digits')
spec('N03', uniq([shape(ty, '1', n, prefix=p) for ty in ('uchar', 'uint', 'ullong', 'int', 'llong') for p, n in (('x', 1), ('X', 3), ('x', 7), ('b', 6), ('B', 7), ('b', 8))]
     + [shape(ty, l, n, prefix='x', cost=2) for ty in ('ullong', 'ulong', 'llong', 'long') for l, n in (('7', 15), ('f', 15), ('1', 16), ('8', 15), ('1', 17))]
     + [shape('llong', l, n, prefix='x', sign='-') for l, n in (('8', 15), ('7', 15), ('80000000000000', 2))]
     + [shape(ty, l, n, opt=2) for ty in ('ushort', 'uint') for l, n in (('f', 3), ('1', 4), ('8', 7), ('a', 8))]
     + [shape(ty, l, n, opt=1) for ty in ('uchar', 'ushort', 'ullong') for l, n in (('1', 7), ('1' * 12, 4), ('1' * 13, 4), ('1' * 60, 4), ('1' + '0' * 60, 4), ('1' + '0' * 59, 4))]
     + [shape('llong', '1' + '0' * 59, 4, opt=1, sign='-'), shape('llong', '1' * 60, 3, prefix='b'), shape('llong', '1' * 60, 4, prefix='b', sign='+')]
     + [shape(ty, l, 0, prefix=p, zeros=z, tail=tl) for ty in ('ullong', 'int') for p, l, z, tl in (('x', 'Ff', 2, 'g'), ('b', '101', 3, '2'), ('x', '', 1, 'x'), ('b', '', 0, '2'), ('x', '', 0, 'g'))]
     + [text(ty, 4, defs=dict(OPTMASK=7, OPTVAL=v)) for ty in ('uchar', 'int') for v in (0, 1, 2)]),
     'every text of 0..4 characters for uchar and int; hexadecimal with 1..18 arbitrary digits, binary up to 65 digits of which up to 8 arbitrary')
spec('N04', [text(ty, n) for ty in ('uchar', 'char', 'int', 'ullong') for n in (1, 2, 3)]
     + [text(ty, 4, defs=dict(MINLEN=4, OPTMASK=7, OPTVAL=v), cost=3) for ty in ('uchar', 'int') for v in (0, 1, 2, 4, 5, 6)]
     + [text(ty, 5, defs=dict(MINLEN=5, OPTMASK=63, OPTVAL=v), cost=5) for ty in ('int',) for v in (0, 1, 2, 4, 8, 16)]
     + [text(ty, n, defs=dict(MINLEN=n, OPTMASK=7, OPTVAL=v), cost=20, tier='thorough') for ty in ('uchar', 'char', 'int', 'llong') for n in (5, 6) for v in (0, 1, 2, 4, 5, 6)],
     'every text of 0..4 characters (5 for int with single options; 6 thorough) with every combination of options but both bases')
NULLS = [q('null %s' % ty, 'h_null', dict(TY=ty, LEN=2), 5) for ty in U + S]
spec('N05', NULLS + [text(ty, 3) for ty in U + S], 'every text of 0..3 characters and option, for each of the ten functions; NULL and invalid sources, NULL destinations')
spec('N06', [q('list %s %d' % (ty, n), 'h_list', dict(TY=ty, LEN=n, ROUNDS=r), n + 3, cost=n, tier=t) for ty in ('uchar', 'int', 'llong') for n, r, t in ((3, 2, 'quick'), (4, 2, 'quick'), (5, 3, 'thorough'))]
     + [text(ty, 4) for ty in ('ushort', 'long')]
     + [shape(ty, '1', 0, zeros=1, spaces=sp, tail=tl, sign=sg, prefix=p, opt=o) for ty in ('int', 'llong') for sp, tl, sg, p, o in
        ((2, ' 2', '', '', 0), (0, '-2', '-', '', 0), (1, 'x2', '', '', 0), (0, ' 0x2', '+', 'x', 0), (0, 'b1', '', '', 4), (0, 'g', '-', 'x', 0), (0, '2b', '', 'b', 0), (0, '..', '', '', 2))],
     'every text of 0..4 characters (5) read as a list by 2 (3) conversions with every option')
spec('N07', uniq([text(ty, 3, 'h_value') for ty in U + S + FIX] + [text(ty, 3, 'h_generic') for ty in U + S]
     + [x for ty in U + S + FIX for x in limits(ty, '', 'h_value_shape')] + [x for ty in S + FIX[4:] for x in limits(ty, '-', 'h_value_shape')]
     + [x for ty in U + S for x in limits(ty, '', 'h_generic_shape')] + [x for ty in S for x in limits(ty, '-', 'h_generic_shape')]),
     'every text of 0..3 characters and option; digits around both limits of each of the 18 types')

# ---------------------------------------------------------------- floating point
W = dict(float='double', double='double', ldouble='long double')


def f(name, entry, defs, unwind, n=5, **kw):
    h = {'consume_decimal_digits.0': min(n, 10) + 1, 'split_digits.0': n + 1, 'consume_decimal_digits.1': 2 if n < 9 else 12,
         'consume_decimal_digits.2': 2 if n < 19 else 4, 'memcmp_nocase.0': 9}
    for x in W:
        h['make_%s.0' % x] = h['make_%s.1' % x] = 2 + n // 18
    return Query(name, 'h_float.c', entry, SRC, defs, unwind=unwind, hints=h, **kw)


def ftext(ty, n, entry='h_ftext', suffix='', **d):
    kw = {k: d.pop(k) for k in ('tier', 'cost') if k in d}
    if 'POW_FULL' not in d: d['POW_ANY'] = None
    return f('%s %s %d%s' % (entry[2:], ty, n, suffix), entry, dict(FT=ty, LEN=n, **d), n + 6, n=n, **kw)


def fval(ty, t, scale, ndig=19, tier='quick', **d):
    """the text t is the number of its first ndig digits times 10^scale"""
    return f('fval %s %s%s' % (ty, t if len(t) < 16 else t[:7] + '..' + t[-7:] + str(len(t)), ''), 'h_fval',
             dict(dict(FT=ty, TEXT='"%s"' % t, SCALEF='1e%d%s' % (scale, 'L' if ty == 'ldouble' else ''), WIDE=W[ty], NDIG=ndig), **d),
             len(t) + 4, n=len(t), cost=3 + len(t) / 4, tier=tier)


def fsame(ty, a, b, tier='quick', **d):
    return f('fsame %s %s %s' % (ty, a, b), 'h_fsame', dict(FT=ty, TEXT='"%s"' % a, TEXT2='"%s"' % b, WIDE=W[ty], TOL='(16*EPS)', **d), max(len(a), len(b)) + 4, n=max(len(a), len(b)), cost=5, tier=tier)


def frange(ty, t, limit, ndig=19, tier='quick', **d):
    return f('frange %s %s' % (ty, t if len(t) < 16 else t[:7] + '..' + t[-7:] + str(len(t))), 'h_frange',
             dict(FT=ty, TEXT='"%s"' % t, LIMIT=limit, NDIG=ndig, WIDE=W[ty], **dict(dict(POW_FULL=None), **d)), len(t) + 4, n=len(t), cost=5 + len(t), tier=tier)


POW = 'pow(), powf() and powl() of 10 and an integer are correctly rounded powers of ten (harness/powtab.h), the replay uses those of libm; the long double of the symbolic run has the precision of IEEE quad'
SPECS['N05']['queries'] += [f('fnull %s' % ty, 'h_fnull', dict(FT=ty, LEN=2, POW_ANY=None), 8) for ty in W] + [ftext(ty, 3) for ty in W]
SPECS['N07']['queries'] += [ftext(ty, 2, 'h_fvalue') for ty in W]
spec('N08', [ftext(ty, n) for ty in W for n in (3, 4)]
     + [ftext(ty, 5, suffix=' opt=%d' % o, MINLEN=5, OPTVAL=o, cost=5) for ty in W for o in (0, 32)]
     + [ftext('double', 5, suffix=' opt=%d' % o, MINLEN=5, OPTVAL=o, cost=5) for o in (8, 16)]
     + [ftext(ty, 7, suffix=' ' + p, MINLEN=5, OPTVAL=o, FIRST='"%s"' % p, cost=6) for ty, p, o in (('float', '1.5', 0), ('double', '.5e', 0), ('ldouble', ' -1', 0), ('float', '0e', 0), ('double', '1e+', 16), ('double', '5.E', 32))]
     + [ftext(ty, 6, suffix=' all', MINLEN=6, tier='thorough', cost=50) for ty in W]
     + [f('fword %s %s' % (ty, w), 'h_fword', dict(FT=ty, WORD='"%s"' % w, POW_ANY=None, **({'TAILN': 2} if w == 'inf' else {})), 14, cost=4) for ty in W for w in ('inf', 'infinity', 'nan', '-inf', '+nan', ' infinity')],
     'every text of 0..4 characters and option (5 with single options, 6 thorough), up to 7 after fixed first characters, the words with one character replaced and 1..2 after; exponents up to 30 in magnitude',
     ['pow() has a positive finite result (the syntax does not depend on which)'])
VALS = [('##', 0), ('#', 0), ('##.#', -1), ('.##', -2), ('-#.#', -1), ('+#.', 0), ('0##', 0), ('1##e5', 5), ('##e-7', -7), ('2#.#e10', 9), ('0.00##', -4), ('3.1##', -3), ('1.0#00', -4),
        ('  -##1.5e+2', 1), ('##E0', 0), ('1#e-20', -20)]
LONG = [('12##' + '0' * 16, 16), ('1##' + '0' * 21, 21), ('12##' + '0' * 24, 24), ('.' + '0' * 15 + '1##', -18), ('1.' + '0' * 12 + '1##', -15), ('12345678901.#', -1), ('4294967##', 0)]
spec('N09', [fval(ty, t, s, tier='quick' if ty == 'float' or t in (('##', '##.#', '-#.#', '1##e5', '##e-7', '0.00##', '1.0#00') if ty == 'double' else ('.##', '3.1##', '2#.#e10')) else 'thorough') for ty in W for t, s in VALS]
     + [fval(ty, t, s, ndig=len(t.rstrip('0')) if s > 0 else 19, tier='quick' if (ty == 'double') == (i not in (3, 6)) else 'thorough') for ty in ('float', 'double') for i, (t, s) in enumerate(LONG)]
     + [fval(ty, '1##' + '0' * 41, 41, ndig=3, POW_FULL=None) for ty in ('double',)]
     + [fval(ty, t, s, ndig=n, tier=t_) for ty, t_, t, s, n in (('float', 'quick', '.1234567890123456789#', -19, 19), ('double', 'quick', '12.345678901234567890123456#', -17, 19), ('double', 'quick', '.' + '0' * 19 + '1##', -22, 22),
        ('float', 'quick', '12345678901234567890123456#', 8, 19), ('double', 'thorough', '#234567890123456789012', 3, 19), ('float', 'thorough', '0.#234567890123456789#1', -18, 19), ('double', 'thorough', '.' + '0' * 21 + '1##', -24, 24),
        ('ldouble', 'thorough', '.1234567890123456789#', -19, 19))]
     + [fval('float', '12##e-45', -45, POW_FULL=None), fval('float', '0.00#e40', 37, POW_FULL=None), fval('double', '12##e-320', 0, SCALEF='1e-20*1e-300', POW_FULL=None), fval('float', '1##e-38', -38, POW_FULL=None),
        fval('double', '1##e300', 300, POW_FULL=None), fval('float', '1##e35', 35, POW_FULL=None)]
     + [fval(ty, '0e##', 0, SCALEF='0.0') for ty in W] + [fval('double', '0.00e-#', 0, SCALEF='0.0')]
     + [fsame(ty, a, b, tier='quick' if ty == 'float' or a == '##.#' else 'thorough') for ty in W for a, b in (('#.##e5', '###e3'), ('##.#', '.###e2'), ('1##e-4', '0.01##'), ('-#5.#', '-#5#e-1'))],
     '1..4 arbitrary digits in texts of up to 44 characters (more than 19 significant digits on either side, where one conversion does not hold them, too), on both sides of the point, exponents from -320 to 300', [POW])
spec('N10', [ftext(ty, 4, 'h_fsafe', POW_FULL=None, cost=8) for ty in ('float',)] + [ftext(ty, 4, 'h_fsafe', cost=8) for ty in ('double', 'ldouble')]
     + [frange('float', t, l, n) for t, l, n in (('#' + '0' * 38, 4, 1), ('#e38', 4, 19), ('3.4#e38', 341, 19), ('.000#e42', 4, 19), ('1e##', 139, 19), ('-#e38', 4, 19), ('-0.1e#9', 14, 19), ('1e-2147483###', 1649, 19), ('1e2147483###', 0, 19))]
     + [frange('double', t, l, n) for t, l, n in (('#e308', 2, 19), ('1#e307', 18, 19), ('1e30#', 19, 19), ('.00#e311', 2, 19), ('1e-2147483###', 1649, 19), ('1e+999999999#', 0, 19))]
     + [frange('ldouble', t, l, n) for t, l, n in (('#e4932', 2, 19), ('1e493#', 13, 19), ('1e-2147483###', 1649, 19), ('1e+2147483###', 0, 19))]
     + [frange('double', '#' + '0' * 308, 2, 1, tier='thorough')],
     'every text of 0..4 characters; 1..3 arbitrary digits (of mantissa or exponent) around each limit of the three types and of the range of int', [POW])
CFG = dict(STRNUM_NOFLOAT=None, VERIF_CONFIG=1)
spec('N11', [text(ty, 3, e, defs=CFG) for ty in U + S for e in ('h_generic', 'h_text')] + [text(ty, 3, 'h_value', defs=CFG) for ty in FIX]
     + uniq([x for ty in U + S for x in limits(ty, '', 'h_generic_shape', defs=CFG)] + [x for ty in S for x in limits(ty, '-', 'h_generic_shape', defs=CFG)]),
     'the STRNUM_NOFLOAT configuration: every text of 0..3 characters and option; digits around both limits of each type')
