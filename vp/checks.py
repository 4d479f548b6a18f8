"""Registry: property id -> jobs."""
CHECKS = {}

WIP = {}


def check(pid, **kw):
    CHECKS[pid] = kw


def wip(pid, **kw):   # not registered yet
    WIP[pid] = kw


MODES = ['M_NORMAL', 'M_ERASER', 'M_LOCK', 'M_COLOR', 'M_POSTERIZE', 'M_NORMAL_P', 'M_ERASER_P', 'M_LOCK_P']
BL = ['brushmodes.c', 'helpers.c']


BOPT = lambda m: dict(ints='int', fork_fselect=not m.endswith('_P'))


def blend_job(what, m, **kw):
    d = dict(name='%s-%s' % (what.lower(), m[2:].lower()), harness='blend_valid.c', srcs=BL,
             hdefs={'MODE': m, 'WHAT_' + what: None}, opts=dict(ints='int', fork_fselect=not m.endswith('_P')), wrap=['rand'])
    d.update(kw)
    return d


check('P01', budget=dict(quick=150), jobs=[dict(name='fastpow-contract', harness='fastpow.c', opts=dict(ints='int'))] + [blend_job('VALID', m) for m in MODES])
check('P02', jobs=[blend_job('ALPHA', m, opts=dict(BOPT(m), assume='f2i|fdiv0|fastpow.*')) for m in MODES if 'ERASER' not in m])

check('P04', jobs=[dict(name='sem-' + m[2:].lower(), harness='blend_sem.c', srcs=BL, hdefs={'MODE': m}, opts=dict(BOPT(m), assume='f2i|fdiv0|fastpow.*'), wrap=['rand'],
                        pins=[{'part': p} for p in range(5) if (m in ('M_NORMAL_P', 'M_ERASER_P', 'M_LOCK_P')) or p != 4]) for m in MODES])
P03PAT = lambda m: [0, 2, 5] if m.endswith('_P') else [0, 1, 2, 4] if m == 'M_COLOR' else range(8)
P03OPT = lambda m: dict(BOPT(m), assume='div0|f2i|fdiv0|fastpow.*')
check('P03', jobs=[dict(name='rle-' + m[2:].lower(), harness='blend_rle.c', srcs=BL, hdefs={'MODE': m}, opts=P03OPT(m), wrap=['rand'],
                        pins=[{'pattern': p} for p in P03PAT(m)]) for m in MODES] +
      [dict(name='rle-color-deep', harness='blend_rle.c', srcs=BL, hdefs={'MODE': 'M_COLOR'}, opts=P03OPT('M_COLOR'), wrap=['rand'], tier='thorough',
            pins=[{'pattern': p} for p in (3, 5, 6, 7)])])
# ---- P11 rectangles, P08 tile map
check('P11', jobs=[dict(name='point', harness='rect.c', srcs=['mypaint-rectangle.c'], opts=dict(overflow=True)),
                   dict(name='rect', harness='rect.c', srcs=['mypaint-rectangle.c'], defs={'RECT': None, 'COPY': None}, opts=dict(overflow=True))])
check('P08', jobs=[dict(name='size%d' % s, harness='tilemap.c', srcs=['tilemap.c'], defs={'SIZE': s}, opts=dict(leaks=True),
                        pins=[{'row': r} for r in range(2 * s + 1)], tier='thorough' if s > 2 else None) for s in (1, 2, 3)])
OQ = ['operationqueue.c', 'fifo.c', 'tilemap.c']
P4 = [{'o0': i, 'o1': j} for i in range(4) for j in range(4)]
check('P07', jobs=[
    dict(name='grow', harness='opqueue.c', srcs=OQ, defs={'HEAVY_DEBUG': None, 'NOPS': 3, 'DISTINCT': None}, pins=P4, opts=dict(leaks=True)),
    dict(name='drain', harness='opqueue.c', srcs=OQ, defs={'HEAVY_DEBUG': None, 'NOPS': 4, 'LO': -1, 'HI': 0, 'DRAIN': None}, pins=P4, opts=dict(leaks=True)),
    dict(name='full', harness='opfull.c', srcs=OQ, defs={'HEAVY_DEBUG': None, 'NOPS': 3}, pins=[{'o0': i, 'o1': j} for i in (0, 1) for j in (0, 1)], opts=dict(leaks=True)),
    dict(name='long', harness='oplong.c', srcs=OQ, defs={'HEAVY_DEBUG': None, 'NOPS': 4}, pins=[{'o0': i, 'y': y} for i in range(5) for y in (1, 3)], opts=dict(leaks=True), tier='quick'),
    dict(name='longer', harness='oplong.c', srcs=OQ, defs={'HEAVY_DEBUG': None, 'NOPS': 5, 'FAR': 4}, pins=[{'o0': i, 'o1': j, 'y': y} for i in range(5) for j in range(5) for y in (1, 3)], opts=dict(leaks=True), tier='thorough'),
    dict(name='double', harness='opqueue.c', srcs=OQ, defs={'NOPS': 2, 'LO': 9, 'HI': 10, 'YLO': -10, 'YHI': 9, 'EDGE': None}, pins=P4, opts=dict(leaks=True)),
])
TSRC = ['mypaint-tiled-surface.c', 'mypaint-surface.c', 'mypaint-rectangle.c', 'mypaint-symmetry.c', 'mypaint-matrix.c', 'helpers.c'] + OQ
check('P09', jobs=[
    dict(name='cover', harness='cover.c', srcs=TSRC, defs={'LIM': 50, 'RMAX': 24}, opts=dict(conc_f2i=12), pins=[{'part': i} for i in range(8)], tier='quick'),
    dict(name='cover-wide', harness='cover.c', srcs=TSRC, opts=dict(conc_f2i=12), pins=[{'part': i} for i in range(8)], tier='thorough'),
])

D4 = {'MYPAINT_TILE_SIZE': 1024}
SYMS = [(0, 2, 2), (1, 2, 2), (2, 2, 4), (3, 3, 3), (3, 5, 5), (4, 2, 4), (4, 3, 6)]


def sp(t, l, w, c=1, f=0):
    return {'type': t, 'lines': l, 'which': w, 'cap': c, 'fail': f}


check('P26', jobs=[
    dict(name='dabs', harness='dirty.c', srcs=TSRC, defs=D4, opts=dict(leaks=True),
         pins=[{'cap': c, 'kind0': a, 'kind1': b, 'which': w} for c in (0, 1, 2, 3, 99) for a in (0, 1) for b in (0, 1) for w in (0, 1)]),
    dict(name='symmetry', harness='dirty.c', srcs=TSRC, defs=D4, hdefs=dict(SYM=1, K=1, LIM=1), opts=dict(leaks=True, conc_f2i=8), tier='quick',
         pins=[sp(t, l, w, 8) for t, l, k in SYMS for w in range(k)] + [sp(t, l, w, 2) for t, l, k in SYMS for w in range(1, k, 3)]),
    dict(name='symmetry-deep', harness='dirty.c', srcs=TSRC, defs=D4, hdefs=dict(SYM=1, K=1, LIM=2), opts=dict(leaks=True, conc_f2i=8), tier='thorough',
         pins=[sp(t, l, w, c) for t, l, k in SYMS for w in range(k) for c in (1, 2, 8)]),
    dict(name='symmetry-many', harness='dirty.c', srcs=TSRC, defs=D4, hdefs=dict(SYM=1, K=1, LIM=0.01), opts=dict(leaks=True, conc_f2i=8),
         pins=[sp(4, 32, w, c, 2) for w in (0, 40) for c in (1, 70)] + [sp(4, 20, 39, 1, 2)] +
              [sp(3, 40, 39, 1, 2)] + [sp(3, 40, w, c) for w, c in ((1, 60), (39, 3))] + [sp(3, 40, 0, 1, 1)]),
])

check('P10', jobs=[dict(name='visible', harness='invisible.c', srcs=TSRC, opts=dict(conc_f2i=6, fork_fselect=False), pins=[{'why': w} for w in range(5)])])
check('P30', jobs=[dict(name='dispatch', harness='dispatch.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 8}, opts=dict(),
    pins=[dict(lock=a, colorize=b, posterize=c, paint=p) for a in range(3) for b in range(3) for c in range(3) for p in range(3)])])
FSRC = TSRC + ['mypaint-fixed-tiled-surface.c']
check('P12', jobs=[
    dict(name='tiles', harness='fixed.c', srcs=FSRC, defs={'MYPAINT_TILE_SIZE': 2}, opts=dict(leaks=True), pins=[{'w': w, 'h': h} for w in range(5) for h in range(5)]),
    dict(name='new', harness='fixed_new.c', srcs=FSRC, defs={'malloc': 'my_malloc'}, opts=dict(leaks=True, overflow=True), pins=[{'part': 0}] + [{'part': 1, 'fail': i} for i in range(3)]),
])
MSRC = ['mypaint-mapping.c', 'helpers.c']
check('P14', jobs=[
    dict(name='curve', harness='mapping.c', srcs=MSRC, opts=dict(leaks=True), pins=[{'n': n, 'in': s % 3, 'shape': s} for n in (0, 1) for s in range(5)], tier='quick'),
    dict(name='curve-deep', harness='mapping.c', srcs=MSRC, hdefs={'NP': 4}, opts=dict(leaks=True), pins=[{'n': n, 'in': i, 'shape': s} for n in (0, 1, 2) for s in range(5) for i in range(3)], tier='thorough'),
    dict(name='curve-x', harness='mapping.c', srcs=MSRC, hdefs={'FREEX': None}, opts=dict(leaks=True), pins=[{'n': n, 'in': 1, 'shape': s} for n in (0, 1) for s in range(3)]),
    dict(name='curve-long', harness='mapping.c', srcs=MSRC, hdefs={'LONG': None}, opts=dict(leaks=True), pins=[{'n': n, 'shape': s} for n in range(5) for s in range(3)]),
    dict(name='history', harness='mapping_hist.c', srcs=MSRC, hdefs={'NOPS': 3}, opts=dict(leaks=True), pins=[{'i0': i, 'n0': n} for i in (0, 1) for n in range(4)]),
])


def mp(r, h, s, a, g, ys=range(6)):
    return [dict(radius=r, hardness=h, softness=s, aspect=a, angle=g, y=y) for y in ys]


ALLM = mp(0, 0, 0, 0, 0) + mp(1, 1, 0, 0, 1) + mp(1, 2, 1, 1, 2) + mp(2, 3, 0, 2, 3)
check('P06', jobs=[
    dict(name='falloff', harness='mask.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 1}, opts=dict(conc_f2i=20), tier='quick',
         pins=mp(0, 0, 0, 0, 0, (0, 4)) + mp(1, 1, 0, 0, 1, (3, 4)) + mp(1, 2, 1, 1, 2, (2, 3)) + mp(2, 3, 0, 2, 3, (0, 5))),
    dict(name='small', harness='mask.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 1}, hdefs={'SPAN': 4}, opts=dict(conc_f2i=20), tier='quick',
         pins=mp(3, 0, 0, 0, 0, (0, 1, 5)) + mp(4, 1, 0, 0, 1, (2, 5)) + mp(5, 2, 1, 1, 2, (3,))),
    dict(name='layout', harness='mask.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 3}, hdefs={'SPAN': 2}, opts=dict(conc_f2i=20),
         pins=mp(0, 0, 0, 0, 0, (0, 2)) + mp(3, 0, 0, 0, 0, (0, 1))),
    dict(name='falloff-all', harness='mask.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 1}, opts=dict(conc_f2i=20), tier='thorough',
         pins=ALLM + mp(0, 1, 2, 1, 3) + mp(2, 2, 0, 2, 1)),
    dict(name='small-all', harness='mask.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 1}, hdefs={'SPAN': 4}, opts=dict(conc_f2i=20), tier='thorough',
         pins=mp(3, 0, 0, 0, 0) + mp(4, 1, 0, 0, 1) + mp(5, 2, 1, 1, 2)),
])
BSRC = ['mypaint-brush.c', 'mypaint-brush-settings.c', 'mypaint-mapping.c', 'rng-double.c', 'helpers.c', 'mypaint-surface.c']
check('P16', jobs=[dict(name='buckets', harness='buckets.c', srcs=BSRC, realjson=True, opts=dict(leaks=True), pins=[{'buckets': b, 'op': o} for b in (0, 1) for o in (0, 1)]),
    dict(name='paint', harness='buckets_paint.c', srcs=BSRC, realjson=True, opts=dict(leaks=True), pins=[{'opaque canvas': i} for i in (0, 1)])])
check('P17', jobs=[
    dict(name='values', harness='settings.c', srcs=BSRC, realjson=True, hdefs={'VALUES': None}, opts=dict(leaks=True), pins=[{'part': i, 'defaults': d} for i in range(8) for d in (0, 1)]),
    dict(name='names', harness='settings.c', srcs=['mypaint-brush-settings.c'], realjson=True, pins=[{'what': w, 'half': h} for w in (0, 1, 2) for h in (0, 1)]),
])
TRIP = lambda ts, bs: [dict(order=o, top=t, bottom=b) for o in range(6) for t in ts for b in bs]
check('P21', jobs=[dict(name='hsv', harness='color.c', srcs=['helpers.c'], hdefs={'HSV': None}, pins=[{'order': o} for o in range(6)])] + [j for k in ('HSV', 'HSL') for j in (
    dict(name=k.lower() + '-trip', harness='color.c', srcs=['helpers.c'], hdefs={k: None, 'TRIP': None}, tier='quick', pins=TRIP((0, 1), (2, 3)) if k == 'HSV' else [dict(order=o, top=t, bottom=b) for o in range(6) for t, b in ((0, 3), (0, 2), (1, 3), (0, 1), (1, 2)) if (o + t + b) % 2 or (t, b) == (0, 3)]),
    dict(name=k.lower() + '-trip-all', harness='color.c', srcs=['helpers.c'], hdefs={k: None, 'TRIP': None}, tier='thorough', pins=TRIP(range(3), range(4))))])
check('P22', jobs=[
    dict(name='angle', harness='angle.c', srcs=['helpers.c'], pins=[{'what': 0, 'n': n} for n in range(3)] + [{'what': 1}, {'what': 2}]),
])
SYM13 = [(0, 2), (1, 2), (2, 2), (3, 1), (3, 3), (3, 5), (4, 2), (4, 3)]
check('P13', jobs=[
    dict(name='copies', harness='symmetry.c', srcs=TSRC, defs=D4, opts=dict(leaks=True), tier='quick',
         pins=[dict(type=t, lines=l, angle=(t + l) % 5, when=0) for t, l in SYM13] + [dict(type=2, lines=2, angle=1, when=w) for w in (1, 2, 3)] + [dict(type=4, lines=2, angle=3, when=1)]
             + [dict(type=t, lines=2, angle=3, when=w) for t, w in ((0, 4), (0, 5), (1, 6), (2, 7), (3, 8), (1, 9), (0, 9), (0, 10))]),
    dict(name='copies-all', harness='symmetry.c', srcs=TSRC, defs=D4, opts=dict(leaks=True), tier='thorough',
         pins=[dict(type=t, lines=l, angle=a, when=w) for t, l in SYM13 + [(3, 7), (4, 5)] for a in range(5) for w in range(11)]),
])

check('P29', jobs=[
    dict(name='corner', harness='corner.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 8}, opts=dict(leaks=True), tier='quick', pins=[dict(ax=1, ay=1, sx=x, sy=y) for x in range(3) for y in range(3)]),
    dict(name='corner-all', harness='corner.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 8}, opts=dict(leaks=True), tier='thorough', pins=[dict(ax=a, ay=b, sx=x, sy=y) for a in range(3) for b in range(3) for x in range(3) for y in range(3)]),
    dict(name='order', harness='order.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 8}, hdefs=dict(K=2), opts=dict(leaks=True), tier='quick', pins=[{'a0': a, 'p0': p} for a in range(5) for p in range(3)]),
    dict(name='order-deep', harness='order.c', srcs=TSRC, defs={'MYPAINT_TILE_SIZE': 8}, opts=dict(leaks=True), tier='thorough', pins=[{'a0': a, 'p0': p, 'a1': b} for a in range(5) for b in range(5) for p in range(3)]),
])

def s5(deep):
    r = []
    for w in range(4):
        for p in (0, 1):
            for x in range(3):
                for rad in range(4):
                    for a in range(3 if w != 2 else 1):
                        for rnd in ((0, 1, 4) if p and rad > 1 else (0,)):
                            if (w != 2 or not p or rad == 0) and (deep or (a == (x + rad) % 2 or w == 2) and rnd == 0 and (rad < 3 or not p) and (x + rad + w + p) % 2):
                                r.append(dict(what=w, paint=p, x=x, radius=rad, alpha=a, random=rnd))
    return r


check('P05', jobs=[
    dict(name='sample', harness='sample.c', srcs=TSRC + ['brushmodes.c'], defs={'MYPAINT_TILE_SIZE': 8}, wrap=['rand'], opts=dict(assume='fdiv0'), tier='quick', pins=s5(0)),
    dict(name='sample-all', harness='sample.c', srcs=TSRC + ['brushmodes.c'], defs={'MYPAINT_TILE_SIZE': 8}, wrap=['rand'], opts=dict(assume='fdiv0'), tier='thorough', pins=s5(1)),
])
BJ = dict(srcs=BSRC, realjson=True, opts=dict(leaks=True))
BJ2 = dict(BJ, opts=dict(leaks=True, assume='domain|fovf'))
check('P18', jobs=[
    dict(name='stroke', harness='stroke.c', **BJ2, tier='quick', pins=[dict(part=q, dir=(s + q) % 4, stops=s) for s in range(5) for q in (0, 1)] + [dict(part=2, which=w) for w in range(4)] + [dict(part=3, how=h) for h in (0, 1)] +
         [dict(part=4, visible=v, time=1) for v in (0, 1)] + [dict(part=5, bad=i, which=1) for i in (0, 1, 3)]),
    dict(name='stroke-all', harness='stroke.c', **BJ2, tier='thorough', pins=[dict(part=q, dir=d, stops=s) for s in range(5) for d in range(4) for q in (0, 1)] +
         [dict(part=4, visible=v, time=t) for v in (0, 1) for t in (0, 2)] + [dict(part=5, bad=i, which=w) for i in range(4) for w in (0, 1)]),
])
P19A = [dict(part=0, other=o) for o in (0, 1)] + [dict(part=1)] + [dict(part=2, hardness=h, radius=r) for h, r in ((0, 0), (1, 1), (2, 0), (3, 2), (1, 3), (2, 3))] + [dict(part=p) for p in (3, 4)] + [dict(part=5, radius=r) for r in range(7)] + [dict(part=6, full=0)] + [dict(part=6, full=1, opacity=o, dabs=n) for o in range(5) for n in (0, 1)]
P19B = [dict(part=7, which=w, base=bb) for w in range(3) for bb in (1, 2)] + [dict(part=8, view=v) for v in range(3)]
P19C = [dict(part=7, which=w, base=bb) for w in range(6) for bb in range(3) if w in (3, 4, 5) or bb == 0]
check('P19', jobs=[dict(name='dab', harness='dabparams.c', **BJ2, pins=P19A + P19B), dict(name='dab-colors', harness='dabparams.c', **BJ2, pins=P19C, tier='thorough')])

P15W = [dict(part=1, where=w, kind=k, order=(w + k) % 2, setting=1, defaults=k % 2) for w in range(14) for k in range(9) if w not in (3, 6, 10, 11, 12) or k in (1, 8)]
P15X = [dict(p, order=1 - p['order'], defaults=1 - p['defaults']) for p in P15W]
check('P15', jobs=[dict(name='load', harness='load.c', **BJ, pins=[dict(part=0, points=p, setting=s, order=(p + s) % 2, defaults=1 if s == 1 else (p + s) // 2 % 2) for p in range(3) for s in range(4)] + P15W + [dict(part=2, setting=0)]),
    dict(name='load-more', harness='load.c', **BJ, tier='thorough', pins=P15X)])
check('P20', jobs=[dict(name='random', harness='random.c', wrap=['rng_double_next'], **BJ2, pins=[dict(part=0, big=1)] + [dict(part=1, big=g, amount=k) for g, k in ((0, 1), (1, 2), (1, 0), (0, 3))] + [dict(part=2, big=g, amount=1 - g, fixed=f) for g in (0, 1) for f in range(4)] + [dict(part=3, big=0, amount=1), dict(part=3, big=1, amount=0)] + [dict(part=4, big=0)])])
check('P25', jobs=[dict(name='iface', harness='iface.c', srcs=sorted(set(BSRC) | set(FSRC)), defs={'MYPAINT_TILE_SIZE': 2}, realjson=True, opts=dict(leaks=True), pins=[{'part': p} for p in range(4)])])
P27P = [dict(base=b, operation=o) for b in range(4) for o in range(4)]
check('P27', jobs=[dict(name='matrix', harness='matrix.c', srcs=['mypaint-matrix.c'], pins=P27P, tier='quick'), dict(name='matrix-more', harness='matrix.c', hdefs={'NA': 8}, srcs=['mypaint-matrix.c'], pins=P27P, tier='thorough')])
