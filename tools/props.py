"""What each check runs.  A stage is one of
  Conf(jobs, aspects)      records of the implementation judged by Conform.tla
  MC(module, cfg, what)    a small-scope exhaustive check of the specification itself
  Session(...), Life(...)  scripts made from the specification, replayed into the implementation (sessions.py)
  Probe(name)              a known finding, shown to be (still) there
"""
from vlib import Job, walk

class Conf:
    def __init__(s, jobs, aspects): s.jobs = jobs; s.aspects = aspects.split()
class MC:
    def __init__(s, module, cfg, what, thorough=False): s.module = module; s.cfg = cfg; s.what = what; s.thorough = thorough

class Probe:
    """a known finding on its own input; good: are these results as they should be?"""
    def __init__(s, name, good): s.name = name; s.good = good
class Builds:
    """programs that must compile, and run"""
    def __init__(s, bins): s.bins = bins
class Combos:
    """what each configuration of the crate offers must compile"""
class Decl:
    """declarations of derived types, accepted or refused by the compiler"""
def same(rs): return len(set(rs)) == 1
class Scr:
    """jobs of a program that performs scripts of operations: (job, cases, extra arguments)"""
    def __init__(s, bin, jobs, aspects, variants=3, limit=2500):
        s.bin = bin; s.jobs = jobs; s.aspects = aspects.split(); s.variants = variants; s.limit = limit

def tag(*ts): return lambda t: bool(t.tags & set(ts))
def both(a, b): return lambda t: a(t) and b(t)
def non(a): return lambda t: not a(t)
anyt = lambda t: True
std = tag('std')
derived = tag('d')
def limable(t):
    x = t.t['fs'][0]['t'] if t.t['k'] == 'struct' and len(t.t['fs']) == 1 else t.t
    if 'lt' not in x or x['lt']['l'] == 'x' or 'any' in t.kinds or any(f['skip'] for y in walk(t.t) for f in y.get('fs', [])): return False
    return not any('lt' in y and y['lt']['l'] != 'u32' for k in ('t', 'a', 'b') if k in x for y in walk(x[k]))
solid = lambda t: not t.hollow          # counts in the input are bounded by its size
closed = lambda t: not t.open
colls = lambda t: bool(t.kinds & {'seq', 'set', 'map', 'arr'})
keyed = lambda t: bool(t.kinds & {'set', 'map'})
maybe_borrowed = lambda t: t.ref or 'Cow' in t.name or bool(t.tags & {'dref'})
varint = lambda t: 'varint' in t.kinds or any(True for x in [t] if 'varint' in str(x.t))

READ = 'valid wellformed val accepts accepts-short rejects class eof'
RT = 'roundtrip rt-length rt-taken'
WRITE = 'bytes write-refused write-agree need wellformed'
LIM = 'bytes write-refused need trunc-accepted roundtrip rt-length'
BUF = 'buf-err buf-fits buf-outside buf-small'

def job(bin, kind, n, sel=anyt, **k): return Job(bin, kind, n, sel, **k)
def three(kind, n, sel=anyt, dsel=None, **k):
    """core, derive and ext with case counts n"""
    out = []
    for b, m, s in (('core', n[0], sel), ('derive', n[1], dsel or sel), ('ext', n[2], sel)):
        if m: out.append(Job(b, kind, m, s, **k))
    return out
RS = 'step-accepts step-val step-rejects step-class step-result step-taken step-length query order borrow-mode borrow-outside'
PEEKS = 'peek-accepts peek-val peek-rejects peek-class'
RINGS = [MC('Ring', 'Ring%d.cfg' % c, 'the ring-buffered stream reader refines the cursor, buffer of %d' % c, c in (1, 2)) for c in (0, 1, 2, 4)] + \
        [MC('Ring', 'RingBig.cfg', 'the same, longer input', True)]
def laws(g, extra=''):
    what = 'every input over a small alphabet, of every schema of a set of small ones (%s): totality, soundness, round trip with any tail, no shorter input, mirrored byte orders, steadiness' % g.lower()
    return [MC('Laws', 'Laws%s.cfg' % g, what), MC('Laws', 'Laws%sMid.cfg' % g, what + ', one byte longer', True)] + ([MC('Laws', 'Laws%sBig.cfg' % g, what + ', two bytes longer', True)] if g in ('Plain', 'Tags', 'Attrs', 'Vars') else [])
ALLSRC = 'guided,valid,prefix,mut,rand'
BADSRC = 'guided,guided,mut,mut,rand,len,prefix'

PROPS = {
 'P01': laws('Plain') + [Conf([job('core', 'enc', 16, std), job('core', 'dec', 6, both(std, solid), src='valid')], 'bytes write-refused need val rejects')],
 'P02': laws('Colls') + [Conf(three('lim', (5, 3, 3), both(limable, solid)), LIM), Conf(three('rt', (8, 4, 8)), RT)],
 'P03': [Conf([job('derive', 'enc', 5), job('derive', 'dec', 6, solid, src='valid,valid,prefix')], 'bytes need write-agree val rejects valid length eof')],
 'P04': [Conf(three('dec', (9, 5, 4), solid, src='guided,guided,valid,prefix,prefix,mut,rand'), 'agree eof schedule borrow-mode rejects accepts-short'), Probe('partial-tail', same), Probe('fault-then-eof', same)],
 'P05': [Conf(three('enc', (8, 4, 4)), 'write-agree write-refused bytes buf-fits buf-err'), Conf(three('sflt', (2, 1, 1)), 'sink-prefix sink-error')],
 'P06': [Conf(three('enc', (9, 4, 6)), 'need write-refused ' + BUF)],
 'P07': [Conf(three('sched', (9, 5, 3), solid, src='guided,valid,valid,prefix,mut', modes='su,sb'), 'schedule interrupted val rejects accepts accepts-short agree eof')]
        + RINGS + [Scr('session', [('bs', 300, []), ('ring', 0, [])], PEEKS + ' ' + RS, limit=1200)],
 'P12': RINGS + [Scr('session', [('rs', 2500, ['--focus', 'peek']), ('bs', 300, []), ('ring', 0, [])], PEEKS + ' ' + RS)],
 'P24': RINGS + [Scr('session', [('rs', 6000, []), ('bs', 500, [])], PEEKS + ' ' + RS)],
 'P25': [Scr('session', [('ws', 4000, [])], 'query appends counted back')],
 'P08': [Scr('session', [('rs', 1200, [])], 'step-taken step-length step-val'),
         Conf(three('seq', (6, 3, 4)), 'seq-val seq-taken seq-length'), Conf(three('rt', (4, 2, 3)), 'rt-length rt-taken'),
         Conf(three('dec', (3, 2, 2), solid, src='valid,mut'), 'length taken')],
 'P09': laws('Plain') + [Conf(three('trunc', (7, 4, 4)), 'min trunc-accepted trunc-class')],
 'P10': laws('Tags') + [Conf(three('dec', (14, 7, 8), solid, src=BADSRC), READ + ' eof-flag small told')],
 'P11': [Conf(three('dec', (14, 6, 6), both(solid, colls), src='len,len,guided,mut', limit=200 << 20), 'alloc accepts-short class')],
 'P13': laws('Vars') + [Conf([job('derive', 'enc', 60, varint), job('derive', 'dec', 60, both(varint, solid), src=ALLSRC), job('derive', 'rt', 30, varint)],
              WRITE + ' val rejects accepts-short length taken ' + RT)],
 'P14': laws('Lengths') + [Conf([job('derive', 'lim', 16, both(limable, tag('len')))], LIM),
         Conf([job('derive', 'enc', 12, tag('len')), job('derive', 'dec', 16, both(tag('len'), solid), src='guided,guided,valid,mut,len,prefix'), job('derive', 'rt', 6, tag('len'))],
              WRITE + ' ' + BUF + ' ' + READ + ' length taken ' + RT)],
 'P15': laws('Tags') + [Conf([job('derive', 'enc', 16, tag('enum')), job('derive', 'dec', 30, both(tag('enum'), solid), src='guided,guided,valid,mut,rand,prefix'), job('derive', 'rt', 10, tag('enum'))],
              WRITE + ' ' + READ + ' length taken ' + RT)],
 'P16': laws('Attrs') + [Conf([job('derive', 'enc', 10, tag('attr')), job('derive', 'dec', 24, both(tag('attr'), solid), src='guided,guided,valid,mut,prefix,prefix'), job('derive', 'rt', 8, tag('attr'))],
              WRITE + ' ' + READ + ' length taken agree ' + RT)],
 'P17': [MC('Build', 'Build.cfg', 'building composites of up to two levels, every failing position: histories allowed by Life'),
         MC('Build', 'BuildBig.cfg', 'three levels', True),
         Conf([job('life', 'life', 14, lambda t: solid(t) or 'hollow' in t.tags)], 'val accepts rejects')],
 'P18': [Conf([job('core', 'dec', 24, both(maybe_borrowed, solid), src='guided,valid,valid,prefix,mut'), job('derive', 'dec', 14, both(maybe_borrowed, solid), src='guided,valid,valid,prefix,mut'),
               job('core', 'rt', 10, maybe_borrowed), job('derive', 'rt', 8, maybe_borrowed)],
              'borrow-mode borrow-outside borrow-align borrow-order val accepts accepts-short rejects class eof ' + RT)],
 'P19': [Scr('session', [('en', 150, [])], 'helper'), Conf([job('core', 'enc', 16, tag('plain', 'bytes')), job('core', 'dec', 14, both(tag('plain', 'bytes'), solid), src='guided,valid,valid,prefix,mut'),
               job('core', 'rt', 8, tag('plain', 'bytes')), job('core', 'lim', 12, both(tag('plain', 'bytes'), limable)), job('derive', 'enc', 12, tag('prim')), job('derive', 'dec', 14, both(tag('prim'), solid), src='guided,valid,valid,prefix,mut'), job('derive', 'rt', 5, tag('prim'))],
              WRITE + ' ' + BUF + ' val rejects accepts accepts-short class eof agree length taken ' + RT)],
 'P20': [Conf(three('sflt', (8, 5, 5)), 'sink-prefix sink-error'), Conf(three('enc', (3, 1, 2)), 'write-agree bytes')],
 'P21': [Conf(three('flt', (5, 3, 3)), 'source-error'), Conf(three('dec', (4, 2, 2), solid, src='prefix,mut'), 'eof eof-flag eof-io class small told'),
         Conf([job('ctx', 'ctx', 20, solid, src='guided,guided,valid,mut,prefix'), job('ctx', 'ctxw', 12)],
              'ctx-thread ctx-back ctx-order user-error val accepts accepts-short rejects class eof bytes write-refused'),
         Conf([job('ctx', 'flt', 3), job('ctx', 'sflt', 3)], 'source-error sink-prefix sink-error'),
         Conf([job('ctx', 'dec', 6, solid, src='guided,prefix,mut'), job('ctx', 'rt', 4)], READ + ' eof-flag eof-io length taken ' + RT),
         Probe('size-context', lambda rs: set(rs) == {'[9]'})],
 'P22': laws('Colls') + [Conf([job('core', 'enc', 12, keyed), job('core', 'dec', 40, both(keyed, solid), src='guided,valid,mut'), job('core', 'lim', 10, both(limable, both(colls, solid))), job('core', 'rt', 14, colls),
               job('ext', 'enc', 10, keyed), job('ext', 'dec', 30, both(keyed, solid), src='guided,valid,mut'), job('derive', 'rt', 3, colls), job('derive', 'dec', 10, both(keyed, solid), src='valid,mut')],
              'wellformed val valid rejects bytes need agree length taken ' + RT)],
 'P23': [Conf([job('ext', 'enc', 10), job('ext', 'rt', 8), job('ext', 'trunc', 5), job('ext', 'dec', 24, solid, src='guided,guided,valid,mut,rand,prefix,len'), job('ext', 'sflt', 2), job('ext', 'flt', 2)],
              WRITE + ' ' + BUF + ' ' + READ + ' agree schedule length taken min trunc-accepted trunc-class sink-prefix sink-error source-error ' + RT)],
 'P26': [Decl()],
 'P27': [Combos(), Builds(['nostd@alloc', 'nostd@bare']),
         Conf([job(b + '@' + v, k, n, s, src=src) for v in ('alloc', 'bare') for b in ('core', 'derive', 'ext') if b != 'ext' or v == 'alloc'
               for k, n, s, src in (('enc', 4, anyt, None), ('dec', 8, solid, 'guided,guided,valid,mut,prefix,len'), ('rt', 4, anyt, None), ('trunc', 2, anyt, None))],
              WRITE + ' ' + BUF + ' ' + READ + ' agree length min trunc-accepted trunc-class borrow-mode borrow-outside borrow-align borrow-order ' + RT),
         Conf([job(b + '@opt', k, n, s, src=src) for b in ('core', 'derive')
               for k, n, s, src in (('enc', 4, anyt, None), ('dec', 10, solid, 'guided,guided,valid,mut,prefix,len'), ('rt', 4, anyt, None), ('trunc', 2, anyt, None), ('sched', 2, solid, 'guided,valid'), ('sflt', 1, anyt, None), ('flt', 1, anyt, None), ('lim', 2, limable, None))],
              WRITE + ' ' + BUF + ' ' + READ + ' agree schedule interrupted length taken min trunc-accepted trunc-class borrow-mode borrow-outside borrow-align borrow-order sink-prefix sink-error source-error alloc ' + RT),
         Conf([job('derive@opt', 'enc', 12, tag('len'))], WRITE + ' ' + BUF),
         Scr('session@opt', [('rs', 1500, []), ('bs', 200, []), ('ws', 800, []), ('en', 40, [])], PEEKS + ' ' + RS + ' appends counted back helper')],
}
