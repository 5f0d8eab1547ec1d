#!/usr/bin/env python3
"""Makes a Rust program with many derived types, each with its schema (impl Model).
usage: gen_derive.py SEED SCALE > derive.rs"""
import random, sys
R = random.Random(int(sys.argv[1]))
SCALE = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
PART = sys.argv[3] if len(sys.argv) > 3 else "all"

class T:
    def __init__(s, rs, **k):
        s.rs = rs
        s.size = k.get('size')        # memory size if plain
        s.default = k.get('default', True)
        s.copy = k.get('copy', False)
        s.key = k.get('key', False)
        s.bare = k.get('bare')        # kind of collection the macro knows
        s.life = k.get('life', False)
        s.open = k.get('open', False)
        s.small = k.get('small', False)
        s.clone = True
INTS = [T(n, size=z, copy=True, key=True, small=True) for n, z in
        [('u8',1),('u16',2),('u32',4),('u64',8),('u128',16),('i8',1),('i16',2),('i32',4),('i64',8),('i128',16)]]
FLOATS = [T('f32', size=4, copy=True), T('f64', size=8, copy=True)]
def I(n): return next(x for x in INTS + FLOATS if x.rs == n)
BOOL = T('bool', copy=True, key=True, small=True)
CHAR = T('char', copy=True, key=True, small=True)
MISC = [T('Duration', copy=True, key=True), T('SystemTime', default=False), T('Ipv4Addr', default=False, copy=True, key=True), T('Ipv6Addr', default=False, copy=True),
        T('IpAddr', default=False), T('NonZeroU8', default=False, copy=True), T('NonZeroU32', default=False, copy=True), T('NonZeroI16', default=False, copy=True),
        T('usize', copy=True, key=True), T('()', copy=True), T('Endianness', default=False, copy=True), T('Uuid', copy=True, default=True)]
BARE = PART == 'bare'       # not even an allocator
NOSTD = PART == 'alloc' or BARE
if NOSTD: MISC = [t for t in MISC if t.rs != 'SystemTime']
STRING = T('String', key=True, bare='str')
DEFINED = []      # T of derived types without open ends

def vec(t): return T('Vec<%s>' % t.rs, bare='seq', life=t.life)
def cows(t):
    if LIFE: t = R.choice(LS)
    return T("Cow<'static, [%s]>" % t.rs, bare='cow')
COWSTR = T("Cow<'static, str>", bare='cow', key=True)
def arr(t, n): return T('[%s; %d]' % (t.rs, n), size=(t.size * n if t.size else None), copy=t.copy, default=t.default, key=t.key)
def opt(t): return T('Option<%s>' % t.rs, bare=('opt' if t.bare else None), life=t.life)
def box(t): return T('Box<%s>' % t.rs, default=t.default)
def tup(ts): return T('(%s,)' % ', '.join(x.rs for x in ts), default=all(x.default for x in ts), copy=all(x.copy for x in ts))
def bmap(k, v): return T('BTreeMap<%s, %s>' % (k.rs, v.rs), bare='map')
def hmap(k, v): return T('HashMap<%s, %s>' % (k.rs, v.rs), bare='map')
def bset(k): return T('BTreeSet<%s>' % k.rs, bare='set')
def hset(k): return T('HashSet<%s>' % k.rs, bare='set')
def cow(t): return T("Cow<'static, %s>" % t.rs, bare='cow')
if BARE:
    STRING = COWSTR = T("&'static str", default=False, bare='ref', life=True)
    vec = cows = lambda t: arr(t, 2)
    box = cow = bset = hset = lambda t: t
    bmap = hmap = lambda k, v: tup([k, v])
LIFE = PART == 'life'
LS = [T('L', key=True), T('L', key=True), T('L0', key=True), T('LB', key=True)]
KEYS = LS if LIFE else [I('u8'), I('u16'), I('u32'), I('i16'), I('u64'), CHAR, BOOL, STRING]

def scalar():
    r = R.random()
    if LIFE and r < .85: return R.choice(LS)
    if r < .55: return R.choice(INTS[:4] + INTS)
    if r < .65: return R.choice(FLOATS)
    if r < .78: return BOOL
    if r < .86: return CHAR
    return R.choice(MISC)
def some(depth=2):
    r = R.random()
    if depth == 0 or r < .42: return scalar()
    if r < .50: return STRING
    if r < .60: return vec(some(depth - 1))
    if r < .66: return arr(some(depth - 1), R.choice([0, 1, 2, 3, 5]))
    if r < .73: return opt(some(depth - 1))
    if r < .76: return box(some(depth - 1))
    if r < .82: return tup([some(depth - 1) for _ in range(R.randint(1, 3))])
    if r < .92: return R.choice([lambda: bmap(R.choice(KEYS), some(depth - 1)), lambda: hmap(R.choice(KEYS), some(depth - 1)),
                                 lambda: bset(R.choice(KEYS)), lambda: hset(R.choice(KEYS))])()
    if r < .96: return R.choice([COWSTR, cows(R.choice(INTS)), cows(R.choice(INTS + [BOOL])), cow(hset(I('u16'))), cow(bmap(I('u8'), I('u32')))])
    if DEFINED: return R.choice(DEFINED)
    return scalar()
def collection(inner=None):
    """a field type that takes a length attribute"""
    e = inner or (lambda: some(1))
    return R.choice([lambda: STRING, lambda: STRING, lambda: vec(R.choice(INTS)), lambda: vec(I('u8')), lambda: vec(e()), lambda: vec(e()),
                     lambda: cows(R.choice(INTS)), lambda: COWSTR, lambda: bmap(R.choice(KEYS), e()), lambda: hmap(R.choice(KEYS), e()),
                     lambda: bset(R.choice(KEYS)), lambda: hset(R.choice(KEYS)), lambda: cow(bset(I('u16'))), lambda: cow(hset(I('u32'))),
                     lambda: cow(bmap(I('u16'), e())), lambda: cow(hmap(I('u16'), I('u8'))), lambda: REFS[R.randrange(len(REFS))]])()
if BARE:
    def collection(inner=None): return STRING
REFS = [T("&'static [u8]", bare='ref', life=True), T("&'static str", bare='ref', life=True)]

class F:
    def __init__(s, ty):
        s.ty = ty; s.attrs = []; s.lt = None; s.doe = False; s.skip = False; s.pre = b''; s.varint = False; s.expr = None; s.opt_lt = False; s.small = False; s.tagged = None; s.fixed = None
    def schema(s, me):
        if s.varint: t = 'varint_schema()'
        else:
            t = '<%s as Model>::schema()' % s.ty.rs
            if s.lt: t = 'with_lt(%s, %s)' % (t, q(s.lt))
        return 'fieldx(%s, %s, %s, &%s)' % (t, str(s.doe).lower(), str(s.skip).lower(), list(s.pre))
    def gen(s):
        if s.expr: return '{ let n = (%s) as usize; let n = if r.chance(1, 14) { n + 1 } else { n }; <%s as GenN>::gen_n(r, n) }' % (s.expr, s.ty.rs)
        if s.lt and '"eof"' not in s.lt: return '{ gen_upto::<%s>(r, "%s") }' % (s.ty.rs, s.lt.split('"')[3])
        if s.fixed: return s.fixed
        if s.tagged is not None: return '(%du64 as %s)' % (s.tagged, s.ty.rs)
        if s.small: return '(r.below(24) as %s)' % s.ty.rs
        return '<%s as Model>::gen(r)' % s.ty.rs
def q(s): return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')
LTS = [('u7','u7'),('u8','u8'),('u16','u16'),('u32','u32'),('u64','u64'),('u64_varint','varint')]
def length_type(f, choose=None):
    if BARE and f.ty.rs not in (STRING.rs, opt(STRING).rs): f.ty = R.choice([STRING, opt(STRING)])
    a, l = choose or R.choice(LTS)
    f.attrs.append('length_type = %s' % a); f.lt = '{"l":"%s"}' % l
PRES = [('b"RU"', b'RU'), ('"ab\\u{e9}"', 'abé'.encode()), ('7u8', b'\x07'), ("'x'", b'x'), ("'\\u{20ac}'", '€'.encode()), ('true', b'\1'), ('b\'Z\'', b'Z'), ('-3i8', b'\xfd'), ('b"\\0\\xff\\0"', b'\0\xff\0'), ('""', b''), ('false', b'\0'),
        ('-128i8', b'\x80')]
def prefix(f):
    if BARE: return
    a, b = R.choice(PRES)
    f.attrs.append('constant_prefix = %s' % a); f.pre = b
def expr_over(names, kinds):
    """(rust expression, json) over earlier small fields; works on values and references"""
    i = R.randrange(len(names)); n, k = names[i], kinds[i]
    fx = '{"x":"f","i":%d}' % (k + 1)
    r = R.random()
    if r < .4: return n, fx
    if r < .6: d = R.choice([2, 3]); return '%s / %d' % (n, d), '{"x":"div","a":%s,"b":{"x":"n","n":%d}}' % (fx, d)
    if r < .8: d = R.choice([4, 7]); return '%s %% %d' % (n, d), '{"x":"mod","a":%s,"b":{"x":"n","n":%d}}' % (fx, d)
    if r < .9: return '(%s / 4) * 2' % n, '{"x":"mul","a":{"x":"div","a":%s,"b":{"x":"n","n":4}},"b":{"x":"n","n":2}}' % fx
    return '%s / 2 + 1' % n, '{"x":"add","a":{"x":"div","a":%s,"b":{"x":"n","n":2}},"b":{"x":"n","n":1}}' % fx

OUT = []; REG = []
CNT = [0]
def name(p):
    CNT[0] += 1
    return '%s%d' % (p, CNT[0])

WORDS = ['a', 'b', 'len', 'kind', 'value', 'data', 'x', 'y', 'tag', 'reader', 'out', 'count', 'r#type', 'error', 'size', 'name', 'rest', 'id', 'flags', 'bytes', 'key', 'length', 'result', 'slice', 't0', 't1']
def fnames(n, form):
    if form == 'tuple': return ['t%d' % i for i in range(n)]
    return R.sample(WORDS, n)
def fields(mode, form, n, last=True, in_enum=False):
    """mode: set of features"""
    fs = []; names = fnames(n, form); small = []
    for i in range(n):
        islast = i == n - 1 and last
        f = None
        r = R.random()
        if 'prim' in mode: f = F(R.choice(mode['prim']))
        elif 'len' in mode and r < .75:
            k = R.random()
            if small and k < .35:
                f = F(collection())
                e, x = expr_over([names[j] for j in small], small)
                f.expr = e; f.attrs.append('length = ' + e); f.lt = '{"l":"x","x":%s,"nm":"%s"}' % (x, names[i].replace('r#', ''))
            elif k < .45 and islast:
                f = F(collection(lambda: R.choice(LS[:2] if LIFE else INTS + [BOOL, CHAR])))
                f.attrs.append('length = ..'); f.lt = '{"l":"eof"}'
            elif k < .75:
                f = F(collection()); length_type(f)
            elif k < .82:
                f = F(opt(collection())); length_type(f)
            elif k < .9:
                f = F(I(R.choice(['u8', 'u8', 'u16', 'u32']))); f.small = True; small.append(i)
                if R.random() < .3: pass
            else:
                f = F(I('u64')); f.varint = True; f.attrs.append('varint')
        elif 'attr' in mode and r < .6:
            k = R.random()
            f = F(some(2))
            if k < .35 and not in_enum:
                while not f.ty.default: f = F(some(2))
                f.skip = True; f.attrs.append('skip')
            elif k < .65: prefix(f)
        if f is None:
            f = F(some(2))
            if 'len' in mode and R.random() < .5: f = F(I('u8')); f.small = True; small.append(i)
            if 'varint' in mode and R.random() < .5: f = F(I('u64')); f.varint = True; f.attrs.append('varint')
        if 'attr' in mode and not f.skip and f.ty.bare and not f.attrs and R.random() < .3: length_type(f)
        if 'attr' in mode and not f.skip and not any('constant_prefix' in a for a in f.attrs) and R.random() < .15: prefix(f)
        fs.append(f)
    if 'attr' in mode and last and R.random() < mode.get('doe', .5):
        # the last fields tolerate a missing tail
        k = 1 if R.random() < .6 else 2
        for f in fs[-k:]:
            if f.ty.default and not f.skip: f.doe = True; f.attrs.append('default_on_eof')
    for f in fs: R.shuffle(f.attrs)
    return fs, names
def is_open(fs): return any(f.doe or (f.lt and '"eof"' in f.lt) or f.ty.open for f in fs)
def attr_str(f):
    if not f.attrs: return ''
    if len(f.attrs) > 1 and R.random() < .4: return ' '.join('#[speedy(%s)]' % a for a in f.attrs) + ' '
    return '#[speedy(%s)] ' % ', '.join(f.attrs)
def body(fs, names, form, enum=False):
    pub = '' if enum else 'pub '
    if form == 'unit': return ''
    if form == 'tuple': return '(' + ', '.join(attr_str(f) + pub + f.ty.rs for f in fs) + ')'
    return ' { ' + ', '.join('%s%s%s: %s' % (attr_str(f), pub, n, f.ty.rs) for f, n in zip(fs, names)) + ' }'
def ctor(path, fs, names, form):
    if form == 'unit': return path
    if form == 'tuple': return path + '(' + ', '.join(names) + ')'
    return path + ' { ' + ', '.join(names) + ' }'
def lifed(nm, b):
    """a type with borrowed parts has a lifetime parameter"""
    if "'static" not in b: return nm, b, nm
    return nm + "<'a>", b.replace("'static", "'a"), nm + "<'static>"
def bare(nm): return nm.split('<')[0]
def gens(fs, names): return ' '.join('let %s: %s = %s;' % (n, f.ty.rs, f.gen()) for f, n in zip(fs, names))

def struct(mode, tags, repr_=None, form=None, n=None, nested=True, extra=(), always=False, define=True):
    form = form or R.choice(['named', 'named', 'tuple', 'tuple', 'unit' if not mode else 'named'])
    if form == 'unit': n = 0
    if n is None: n = R.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    nm = name('S')
    fs, names = fields(mode, form, n)
    op = is_open(fs)
    packed = repr_ and 'packed' in repr_
    copy = all(f.ty.copy for f in fs)
    key = all(f.ty.key and not f.skip for f in fs) and not packed
    dv = ['Clone'] + (['Copy'] if copy else []) + ['Readable', 'Writable']
    if key: dv += ['PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash']
    a = ''
    if repr_: a += '#[repr(%s)] ' % repr_
    if always: a += '#[speedy(unsafe_is_primitive = always)] '
    dn, bd, nm = lifed(nm, body(fs, names, form))
    OUT.append('#[derive(%s)] %spub struct %s%s%s' % (', '.join(dv), a, dn, bd, ';' if form != 'named' else ''))
    acc = (lambda i, n: 'self.%s' % (i if form == 'tuple' else n))
    def use(i, f, n, what): return ('{ let x = %s; x.%s }' if packed else '%s.%s') % (acc(i, n), what)
    OUT.append('''impl Model for %s {
    fn schema() -> String { struct_schema(&[%s]) }
    fn val(&self, o: &mut String) { o.push('['); %s o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { %s %s }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { %s let _ = f; }
}''' % (nm, ', '.join(f.schema(nm) for f in fs), " o.push(','); ".join(use(i, f, n, 'val(o);') for i, (f, n) in enumerate(zip(fs, names))),
        gens(fs, names), ctor(bare(nm), fs, names, form), ' '.join(use(i, f, n, 'borrows(f);') for i, (f, n) in enumerate(zip(fs, names)))))
    REG.append(('', tags + (' open' if op else '') + (' dref' if any(f.ty.life for f in fs) else ''), nm))
    t = T(nm, default=False, copy=copy, life=any(f.ty.life for f in fs), open=op)
    t.plain = bool(fs) and all(f.ty in INTS + FLOATS and not f.attrs for f in fs)
    if define and not op and not t.life: DEFINED.append(t)
    if nested and not op:
        for x in extra: REG.append(('', tags + (' dref' if t.life else ''), x % nm))
    return t

def enum(mode, tags, extra=(), tt=None, style=None, peek=False):
    nm = name('E'); attrs = ['peek_tag'] if peek else []
    tt = tt or R.choice([None, None] + LTS)
    if tt: attrs.append('tag_type = ' + tt[0])
    tl = tt[1] if tt else 'u32'
    width = {'u7':7,'u8':8,'u16':16,'u32':32,'u64':64,'varint':64}[tl]
    R.shuffle(attrs)
    k = R.choice([1, 2, 3, 4, 6])
    vs = []; prev = -1; used = set()
    unit_only = style == 'disc'
    op = life = False; copy = True
    for i in range(k):
        form = 'unit' if unit_only else R.choice(['unit', 'named', 'tuple', 'tuple'])
        if peek and form == 'unit' and (i == 0 or R.random() < .6): form = 'tuple'
        n = 0 if form == 'unit' else R.choice([1, 1, 2, 3])
        fs, names = fields(mode, form, n, in_enum=True)
        names = [n_ if form != 'named' else n_ for n_ in names]
        # tags: counted on, discriminant, attribute
        va = ''; disc = ''
        how = R.random()
        tag = prev + 1
        if how < .5 or tag >= 2 ** width or tag in used:
            for _ in range(100):
                tag = R.randrange(2 ** R.randrange(8, 57)) if peek and tl == 'varint' and R.random() < .7 else R.choice([R.randrange(6), R.randrange(2 ** min(width, 8)), R.randrange(2 ** width), 2 ** width - 1 - R.randrange(3), 2 ** R.randrange(width), 2 ** (7 * R.randrange(1, 9)) % 2 ** width])
                if tag not in used: break
            else: continue
            if unit_only and tag < 2 ** 63: disc = ' = %d' % tag if R.random() < .5 else ' = %s' % hex(tag)
            else: va = '#[speedy(tag = %d)] ' % tag
            if disc and R.random() < .25:
                for _ in range(100):
                    t2 = R.randrange(2 ** width)
                    if t2 not in used: va = '#[speedy(tag = %d)] ' % t2; disc_tag = tag; tag = t2; break
        used.add(tag); prev = tag
        if peek and fs:
            # the tag is what the first field holds
            fs[0] = F(I({7: 'u8', 8: R.choice(['u8', 'u8', 'i8']), 16: 'u16', 32: 'u32', 64: 'u64'}[width])); fs[0].tagged = tag
            if tl == 'varint': fs[0].varint = True; fs[0].attrs.append('varint')
        op = op or is_open(fs); life = life or any(f.ty.life for f in fs); copy = copy and all(f.ty.copy for f in fs)
        vs.append((va, 'V%d' % i, body(fs, names, form, True), disc, fs, names, form, tag))
    if not vs: return
    # rust discriminants must differ from one another as well
    seen = set(); nd = 0; good = True
    for v in vs:
        if v[3]: nd = int(v[3][3:], 0)
        if nd in seen or nd >= 2 ** 63: good = False
        seen.add(nd); nd += 1
    a = ''
    if any(v[3] for v in vs):
        if not good: return enum(mode, tags, extra, tt, None)
        a += '#[repr(u64)] '
    if attrs: a += '#[speedy(%s)] ' % ', '.join(attrs)
    dn, bd, nm = lifed(nm, ', '.join(v[0] + v[1] + v[2] + v[3] for v in vs))
    OUT.append('#[derive(Clone, Readable, Writable)] %spub enum %s { %s }' % (a, dn, bd))
    made = [v for v in vs if v[4]] if peek else vs
    def pat(v): return ctor('%s::%s' % (bare(nm), v[1]), v[4], v[5], v[6])
    def pat2(v):
        if v[6] == 'named': return '%s::%s { %s }' % (bare(nm), v[1], ', '.join('%s: f_%d' % (n, j) for j, n in enumerate(v[5])))
        if v[6] == 'tuple': return '%s::%s(%s)' % (bare(nm), v[1], ', '.join('f_%d' % j for j in range(len(v[5]))))
        return '%s::%s' % (bare(nm), v[1])
    OUT.append('''impl Model for %s {
    fn schema() -> String { enum_schema("%s", %s, &[%s]) }
    fn val(&self, o: &mut String) { match self { %s } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(%d) { %s _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { %s } let _ = f; }
}''' % (nm, tl, str(peek).lower(), ', '.join('(%d, vec![%s])' % (v[7], ', '.join(f.schema(nm) for f in v[4])) for v in vs),
        ' '.join('%s => { o.push_str("[%d,["); %s o.push_str("]]"); }' % (pat2(v), i + 1, " o.push(','); ".join('f_%d.val(o);' % j for j in range(len(v[5])))) for i, v in enumerate(vs)),
        len(made), ' '.join('%d => { %s %s }' % (i, gens(v[4], v[5]), pat(v)) for i, v in enumerate(made)),
        ' '.join('%s => { %s }' % (pat2(v), ' '.join('f_%d.borrows(f);' % j for j in range(len(v[5])))) for i, v in enumerate(vs))))
    REG.append(('', tags + (' open' if op else '') + (' dref' if life else ''), nm))
    t = T(nm, default=False, life=life, open=op)
    if not op and not life: DEFINED.append(t)
    if not op:
        for x in extra: REG.append(('', tags + (' dref' if life else ''), x % nm))
    return t

# ---------------------------------------------------------------- type parameters
TP = [T('T', default=False), T('U', default=False)]
def generic_field(ps):
    p = R.choice(ps)
    return R.choice([lambda: p, lambda: p, lambda: p, lambda: vec(p), lambda: opt(p), lambda: arr(p, R.choice([1, 2, 3])), lambda: box(p), lambda: T('(u8, %s)' % p.rs), lambda: bmap(I('u8'), p),
                     lambda: opt(vec(p)), lambda: vec(opt(p)), lambda: T('Result<%s, u16>' % p.rs), lambda: T("Cow<'static, [%s]>" % p.rs, bare='cow'), lambda: hmap(I('u16'), p), lambda: scalar(), lambda: STRING])()
def tps(ps): return '<' + ', '.join('%s: Model + Clone + \'static' % p.rs for p in ps) + '>'
def generic(repr_=None, pool=None, insts=(), kind='struct', attr=False, tags='d generic'):
    ps = TP[:R.choice([1, 1, 2])]
    args = '<%s>' % ', '.join(p.rs for p in ps)
    def fs_(n):
        fs = [F((pool and R.choice(pool(ps))) or generic_field(ps)) for _ in range(n)]
        for i, p in enumerate(ps):        # every parameter is used
            if not any(x.ty.rs == p.rs for x in fs) and repr_ is None or not any(p.rs in x.ty.rs.replace("String", "") for x in fs): fs.append(F(p))
        for f in fs:
            if attr and f.ty.bare and R.random() < .5: length_type(f)
            elif attr and R.random() < .2: prefix(f)
        return fs
    if kind == 'struct':
        nm = name('G'); form = R.choice(['named', 'tuple'])
        fs = fs_(R.choice([1, 2, 2, 3])); names = fnames(len(fs), form)
        b = body(fs, names, form); dn, b, full = lifed(nm, b)
        lt = "'a, " if 'static' in full else ''
        # bounds and defaults of parameters, in all the places they may be
        w = ''; decl = []
        for p in ps:
            bd = 'Clone' if 'Cow' in b else ''
            r = R.random()
            if lt: bd = (bd + ' + ' if bd else '') + "'a"
            if bd and r < .5: decl.append('%s: %s' % (p.rs, bd))
            else:
                decl.append(p.rs)
                if bd: w += (', ' if w else ' where ') + '%s: %s' % (p.rs, bd)
        w_ = w
        OUT.append('#[derive(Clone, Readable, Writable)] %spub struct %s<%s%s>%s' % ('#[repr(%s)] ' % repr_ if repr_ else '', nm, lt, ', '.join(decl), (w_ + b) if form == 'named' else (b + w_ + ';')))
        me = '%s<%s%s>' % (nm, "'static, " if lt else '', ', '.join(p.rs for p in ps))
        acc = (lambda i, n: 'self.%s' % (i if form == 'tuple' else n))
        OUT.append('''impl%s Model for %s {
    fn schema() -> String { struct_schema(&[%s]) }
    fn val(&self, o: &mut String) { o.push('['); %s o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { %s %s }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { %s let _ = f; }
}''' % (tps(ps), me, ', '.join(f.schema(nm) for f in fs), " o.push(','); ".join('%s.val(o);' % acc(i, n) for i, n in enumerate(names)),
            gens(fs, names), ctor(nm, fs, names, form), ' '.join('%s.borrows(f);' % acc(i, n) for i, n in enumerate(names))))
    else:
        nm = name('H'); lt = ''
        tt = R.choice(LTS); vs = []
        for i in range(R.choice([2, 3])):
            form = R.choice(['tuple', 'named'])
            fs = [F(generic_field(ps)) for _ in range(R.choice([1, 2]))]
            if i == 0:
                for p in ps: fs.append(F(p))
            for f in fs:
                if 'Cow' in f.ty.rs: f.ty = vec(R.choice(ps))
            vs.append(('V%d' % i, form, fs, fnames(len(fs), form)))
        vs.append(('Z', 'unit', [], []))
        OUT.append('#[derive(Clone, Readable, Writable)] #[speedy(tag_type = %s)] pub enum %s%s { %s }' % (tt[0], nm, args, ', '.join(v + body(fs, ns, form, True) for v, form, fs, ns in vs)))
        me = nm + args
        def pat2(v, form, ns):
            if form == 'named': return '%s::%s { %s }' % (nm, v, ', '.join('%s: f_%d' % (n, j) for j, n in enumerate(ns)))
            if form == 'tuple': return '%s::%s(%s)' % (nm, v, ', '.join('f_%d' % j for j in range(len(ns))))
            return '%s::%s' % (nm, v)
        OUT.append('''impl%s Model for %s {
    fn schema() -> String { enum_schema("%s", false, &[%s]) }
    fn val(&self, o: &mut String) { match self { %s } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(%d) { %s _ => unreachable!() }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { %s } let _ = f; }
}''' % (tps(ps), me, tt[1], ', '.join('(%d, vec![%s])' % (i, ', '.join(f.schema(nm) for f in fs)) for i, (v, form, fs, ns) in enumerate(vs)),
            ' '.join('%s => { o.push_str("[%d,["); %s o.push_str("]]"); }' % (pat2(v, form, ns), i + 1, " o.push(','); ".join('f_%d.val(o);' % j for j in range(len(ns)))) for i, (v, form, fs, ns) in enumerate(vs)),
            len(vs), ' '.join('%d => { %s %s }' % (i, gens(fs, ns), ctor('%s::%s' % (nm, v), fs, ns, form)) for i, (v, form, fs, ns) in enumerate(vs)),
            ' '.join('%s => { %s }' % (pat2(v, form, ns), ' '.join('f_%d.borrows(f);' % j for j in range(len(ns)))) for v, form, fs, ns in vs)))
    for k in range(R.choice([2, 3])):
        a = ', '.join(R.choice(insts or ['u8', 'u16', 'u32', 'u64', 'String', 'bool', 'Vec<u16>', '[u8; 3]', 'Option<u8>', '(u8, u32)', "Cow<'static, str>", 'char', '()', 'f32', 'Vec<String>']) for _ in ps)
        t = '%s<%s%s>' % (nm, "'static, " if lt else '', a)
        REG.append(('', tags, t if R.random() < .6 else R.choice(["Vec<%s>", "Box<[%s]>", "[%s; 2]", "Option<%s>", "BTreeMap<u8, %s>"] + (["Cow<'static, [%s]>"] if not lt else [])) % t))
    return nm
def generics():
    for i in range(N(9)): generic()
    for i in range(N(4)): generic(attr=True)
    for i in range(N(5)): generic(kind='enum')
    # plain ones: whether they can be read in bulk depends on the parameters
    plain = lambda ps: ps + [I('u8'), I('u16'), I('u32')] + [arr(p, 2) for p in ps]
    for rp in ['C', 'C', 'transparent', None, None]:
        if rp == 'transparent':
            nm = name('G')
            OUT.append('#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct %s<T>(pub T);' % nm)
            OUT.append('''impl<T: Model + Clone + 'static> Model for %s<T> {
    fn schema() -> String { struct_schema(&[fieldx(T::schema(), false, false, &[])]) }
    fn val(&self, o: &mut String) { o.push('['); self.0.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { %s(T::gen(r)) }
}''' % (nm, nm))
            for a in R.sample(['u8', 'u16', 'u32', 'u64', 'f64', 'i16', 'bool', 'char', 'String', '[u16; 2]', 'Option<u16>'], 5): REG.append(('', 'd generic prim', R.choice(["Vec<%s>", "Cow<'static, [%s]>", "[%s; 3]", "Box<[%s]>"]) % ('%s<%s>' % (nm, a))))
        else:
            nm = generic(rp, plain, ['u8', 'u16', 'u32', 'u32', 'bool', 'f32', '[u16; 2]', 'i16', 'u64', 'char'], tags='d generic prim')
# ---------------------------------------------------------------- recursive types
def recursive():
    for i in range(N(7)):
        nm = name('R'); kind = R.choice(['enum', 'enum', 'struct', 'pair'])
        me = nm
        down = [lambda: 'Box<%s>' % me, lambda: 'Vec<%s>' % me, lambda: 'Option<Box<%s>>' % me, lambda: 'BTreeMap<u8, %s>' % me, lambda: '(Box<%s>, u8)' % me, lambda: '[Box<%s>; 2]' % me,
                lambda: 'Vec<Box<%s>>' % me, lambda: 'Option<Vec<%s>>' % me, lambda: 'HashMap<u16, %s>' % me, lambda: 'Box<[%s]>' % me]
        ends = ['Vec<%s>', 'Option<Box<%s>>', 'BTreeMap<u8, %s>', 'Option<Vec<%s>>', 'Box<[%s]>']
        tt = R.choice(LTS)
        LIMIT = 3
        if kind == 'struct':
            fs = ['u16', R.choice(ends) % nm] + (['u8'] if R.random() < .5 else [])
            R.shuffle(fs)
            OUT.append('#[derive(Clone, Readable, Writable)] pub struct %s(%s);' % (nm, ', '.join('pub ' + f for f in fs)))
            end = {'Vec': 'Vec::new()', 'Opt': 'None', 'BTr': 'BTreeMap::new()', 'Box': 'Vec::new().into()'}
            def g(f): return '<%s as Model>::gen(r)' % f if nm not in f else 'if d >= %d { %s } else { <%s as Model>::gen(r) }' % (LIMIT, end[f[:3]], f)
            OUT.append('''impl Model for %s {
    fn schema() -> String { deeper(|d| if d > %d { any_schema() } else { struct_schema(&[%s]) }) }
    fn val(&self, o: &mut String) { o.push('['); %s o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| %s(%s)) }
}''' % (nm, LIMIT, ', '.join('field(<%s as Model>::schema())' % f for f in fs), " o.push(','); ".join('self.%d.val(o);' % j for j in range(len(fs))), nm, ', '.join(g(f) for f in fs)))
        elif kind == 'enum':
            vs = [[]] if R.random() < .4 else [['u16']]
            for j in range(R.choice([1, 2, 3])):
                fs = [R.choice(down)()]
                if R.random() < .5: fs.insert(R.choice([0, 1]), R.choice(['u8', 'u16', 'String']))
                vs.append(fs)
            if R.random() < .5: vs.append([R.choice(['u8', 'bool', '[u8; 4]'])])
            OUT.append('#[derive(Clone, Readable, Writable)] #[speedy(tag_type = %s)] pub enum %s { %s }' % (tt[0], nm, ', '.join('V%d' % j + ('(%s)' % ', '.join(fs) if fs else '') for j, fs in enumerate(vs))))
            def pt(j, fs): return '%s::V%d' % (nm, j) + ('(%s)' % ', '.join('f_%d' % x for x in range(len(fs))) if fs else '')
            flat = [j for j, fs in enumerate(vs) if not any(nm in f for f in fs)]
            OUT.append('''impl Model for %s {
    fn schema() -> String { deeper(|d| if d > %d { any_schema() } else { enum_schema("%s", false, &[%s]) }) }
    fn val(&self, o: &mut String) { match self { %s } }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= %d { %d } else { r.below(%d) } { %s _ => unreachable!() }) }
}''' % (nm, LIMIT, tt[1], ', '.join('(%d, vec![%s])' % (j, ', '.join('field(<%s as Model>::schema())' % f for f in fs)) for j, fs in enumerate(vs)),
                ' '.join('%s => { o.push_str("[%d,["); %s o.push_str("]]"); }' % (pt(j, fs), j + 1, " o.push(','); ".join('f_%d.val(o);' % x for x in range(len(fs)))) for j, fs in enumerate(vs)),
                LIMIT, flat[0], len(vs), ' '.join('%d => %s::V%d%s,' % (j, nm, j, '(%s)' % ', '.join('<%s as Model>::gen(r)' % f for f in fs) if fs else '') for j, fs in enumerate(vs))))
        else:         # two types that contain one another
            a = nm; b = name('R')
            OUT.append('#[derive(Clone, Readable, Writable)] pub struct %s { pub n: u8, pub kids: Vec<%s>, pub end: u16 }' % (a, b))
            OUT.append('#[derive(Clone, Readable, Writable)] #[speedy(tag_type = u8)] pub enum %s { One(Box<%s>), Two { a: Option<Box<%s>>, b: u8 }, Leaf(u32) }' % (b, a, b))
            OUT.append('''impl Model for %(a)s {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { struct_schema(&[field(u8::schema()), field(<Vec<%(b)s> as Model>::schema()), field(u16::schema())]) }) }
    fn val(&self, o: &mut String) { o.push('['); self.n.val(o); o.push(','); self.kids.val(o); o.push(','); self.end.val(o); o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| %(a)s { n: u8::gen(r), kids: if d >= 3 { vec![] } else { Model::gen(r) }, end: u16::gen(r) }) }
}
impl Model for %(b)s {
    fn schema() -> String { deeper(|d| if d > 5 { any_schema() } else { enum_schema("u8", false, &[(0, vec![field(<%(a)s as Model>::schema())]), (1, vec![field(<Option<Box<%(b)s>> as Model>::schema()), field(u8::schema())]), (2, vec![field(u32::schema())])]) }) }
    fn val(&self, o: &mut String) { match self { %(b)s::One(x) => { o.push_str("[1,["); x.val(o); } %(b)s::Two { a, b } => { o.push_str("[2,["); a.val(o); o.push(','); b.val(o); } %(b)s::Leaf(x) => { o.push_str("[3,["); x.val(o); } } o.push_str("]]"); }
    fn gen(r: &mut Rng) -> Self { deeper(|d| match if d >= 4 { 2 } else { r.below(3) } { 0 => %(b)s::One(Model::gen(r)), 1 => %(b)s::Two { a: if d >= 3 { None } else { Model::gen(r) }, b: u8::gen(r) }, _ => %(b)s::Leaf(u32::gen(r)) }) }
}''' % {'a': a, 'b': b})
            REG.append(('', 'd rec', b))
        REG.append(('', 'd rec', nm))
        if R.random() < .4: REG.append(('', 'd rec', R.choice(['Vec<%s>', 'Option<%s>', '(u8, %s)']) % nm))

def N(n): return max(1, int(round(n * SCALE)))
def basic():
    for i in range(N(26)):
        struct({}, 'd basic', repr_=R.choice([None, None, 'C']), extra=R.sample(["Vec<%s>", "Option<%s>", "(u8, %s, u16)", "BTreeMap<u8, %s>", "[%s; 2]", "Box<%s>"], 1))
    for i in range(N(8)): enum({}, 'd basic', extra=R.sample(["Vec<%s>", "Option<%s>", "(u8, %s, u16)", "[%s; 3]"], 1))
def prim():
    w = [I(x) for x in ['u8', 'u16', 'u32', 'u64', 'u128', 'i16', 'i32', 'f32', 'f64', 'i8']]
    seqs = ["Vec<%s>", "Box<[%s]>", "Cow<'static, [%s]>", "[%s; 3]", "(u8, [%s; 2], Vec<%s>)", "HashMap<u8, %s>", "Vec<[%s; 2]>", "Vec<(%s, u8)>"]
    def ex(k): return [x.replace('%s', '%(n)s') for x in R.sample(seqs, k)]
    plans = []
    for i in range(N(10)): plans.append((None, w, None))
    for i in range(N(8)): plans.append(('C', w, None))
    for i in range(N(6)): plans.append(('packed', w, None))
    plans.append(('C, packed', [I('u8'), I('i8')], 4))
    for i in range(N(4)): plans.append(('transparent', w, 1))
    for i in range(N(4)): plans.append(('C', [I('u16'), I('i16'), arr(I('u16'), 2), arr(I('u8'), 2)], None))
    for i in range(N(4)): plans.append((None, [I('u32'), I('i32'), I('f32'), arr(I('u32'), 2), arr(I('u8'), 4), arr(I('u16'), 2)], None))
    for i in range(N(4)): plans.append((None, [I('u32'), I('u16'), I('u8'), I('u16'), I('u8')], R.choice([3, 4, 5])))
    for i in range(N(3)): plans.append(('packed', [arr(I('u8'), 3), I('u16'), arr(I('u32'), 2), I('u64')], None))
    made = []
    for rp, pool, n in plans:
        n = n or R.choice([1, 2, 2, 3, 4, 5, 6])
        pl = list(pool)
        if made and not (rp and 'packed' in rp) and R.random() < .35: pl = pl + [R.choice(made)] * 3
        if made and rp == 'transparent': pl = [R.choice(made + w)]
        same = R.random() < .4 and rp != 'transparent'
        if same: pl = [R.choice(pl)]
        form = R.choice(['named', 'tuple'])
        t = struct({'prim': pl}, 'd prim', repr_=rp, form=form, n=n, nested=False)
        t.copy = True
        if not (rp and 'packed' in rp): made.append(t)
        for x in R.sample(seqs, 2): REG.append(('', 'd prim', x.replace('%s', t.rs)))
        if rp == 'packed' and t.plain:
            REG.append(('le', 'd prim dref', "&'static [%s]" % t.rs))
            REG.append(('le', 'd prim dref', "(u8, &'static [%s])" % t.rs))
        if rp == 'transparent' and t.plain:
            REG.append(('le', 'd prim dref mref', "&'static [%s]" % t.rs))
        if R.random() < .3: REG.append((R.choice(['le', 'be']), 'd prim', "Vec<%s>" % t.rs))
        if R.random() < .3: REG.append((R.choice(['le', 'be']), 'd prim', "[%s; 2]" % t.rs))
    # every order of fields that leaves no padding, up to three of them; some of four
    import itertools
    sizes = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}
    combos = [c for n in (2, 3) for c in itertools.product(['u8', 'u16', 'u32'] if n == 3 else ['u8', 'u16', 'u32', 'u64'], repeat=n)]
    more = [c for c in itertools.product(['u8', 'u16', 'u32', 'u64'], repeat=4)] + [c for c in itertools.product(['u8', 'u16', 'u32'], repeat=5)]
    def tight(c): return sum(sizes[x] for x in c) % max(sizes[x] for x in c) == 0 and len(set(c)) > 1
    pick = [c for c in combos if tight(c)]
    pick = R.sample(pick, min(len(pick), N(26))) + R.sample([c for c in more if tight(c)], N(10))
    for c in pick:
        t = layout([I(x) for x in c], R.choice([None, None, None, 'C']))
        REG.append(('', 'd prim', R.choice(["Vec<%s>", "Box<[%s]>", "[%s; 3]", "Cow<'static, [%s]>"]) % t.rs))
    # declared to be plain
    t = struct({'prim': [I('u32')]}, 'd prim', repr_='C', form='named', n=3, always=True)
    for x in ["Vec<%s>", "[%s; 2]", "Cow<'static, [%s]>"]: REG.append(('', 'd prim', x % t.rs))
    REG.append(('le', 'd prim dref mref', "&'static [%s]" % t.rs))
def layout(ts, repr_):
    nm = name('Q'); fs = [F(t) for t in ts]
    emit_simple(nm, fs, 'd prim', R.choice(['named', 'tuple']), repr_, copy=True)
    return T(nm, copy=True)
def length():
    for i in range(N(44)): struct({'len': 1}, 'd len', n=R.choice([2, 3, 4, 5]), form=R.choice(['named', 'tuple']))
    for a in LTS:     # every encoding with every kind of collection
        for c in [lambda: vec(R.choice(INTS)), lambda: STRING, lambda: bmap(I('u8'), I('u16')), lambda: hset(I('u16')), lambda: cows(I('u32')), lambda: opt(vec(I('u8'))), lambda: REFS[R.randrange(2)], lambda: vec(opt(I('u16')))]:
            if R.random() > .62: continue
            one(c(), 'd len', a)
def one(ty, tags, a):
    nm = name('L'); f = F(ty); length_type(f, a)
    form = R.choice(['named', 'tuple'])
    emit_simple(nm, [f], tags, form)
def emit_simple(nm, fs, tags, form, repr_=None, copy=False, packed=False, names_=None):
    names = names_ or fnames(len(fs), form)
    dn, bd, nm = lifed(nm, body(fs, names, form))
    OUT.append('#[derive(Clone, %sReadable, Writable)] %spub struct %s%s%s' % ('Copy, ' if copy else '', '#[repr(%s)] ' % repr_ if repr_ else '', dn, bd, ';' if form == 'tuple' else ''))
    acc = (lambda i, n: ('{self.%s}' if packed else 'self.%s') % (i if form == 'tuple' else n))
    OUT.append('''impl Model for %s {
    fn schema() -> String { struct_schema(&[%s]) }
    fn val(&self, o: &mut String) { o.push('['); %s o.push(']'); }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| { %s %s }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { %s let _ = f; }
}''' % (nm, ', '.join(f.schema(nm) for f in fs), " o.push(','); ".join('(%s).val(o);' % acc(i, n) for i, n in enumerate(names)),
        gens(fs, names), ctor(bare(nm), fs, names, form), ' '.join('%s.borrows(f);' % acc(i, n) for i, n in enumerate(names)) if not packed else ''))
    REG.append(('', tags + (' open' if is_open(fs) else '') + (' dref' if any(f.ty.life for f in fs) else ''), nm))
def enums():
    for tt in LTS:
        for i in range(N(3)): enum({}, 'd enum', tt=tt)
        enum({}, 'd enum', tt=tt, style='disc')
    for i in range(N(4)): enum({}, 'd enum', style='disc')
    for i in range(N(6)): enum({'attr': 1, 'len': 1}, 'd enum')
def peeks():
    for tt in LTS:
        enum({}, 'd enum peek', tt=tt, peek=True, extra=R.sample(["Vec<%s>", "Option<%s>", "(u8, %s, u16)", "[%s; 3]", "Box<%s>", "BTreeMap<u8, %s>"], 2))
        if R.random() < .5: enum({}, 'd enum peek', tt=tt, peek=True)
    enum({}, 'd enum peek', peek=True, tt=None)
    for i in range(N(2)): enum({}, 'd enum peek', tt=LTS[5], peek=True)
def attrs():
    for i in range(N(40)): struct({'attr': 1}, 'd attr', n=R.choice([2, 3, 4, 5]), form=R.choice(['named', 'tuple']))
    for i in range(N(8)): struct({'attr': 1, 'len': 1}, 'd attr', n=R.choice([2, 3, 4, 5]), form=R.choice(['named', 'tuple']))
    for i in range(N(6)): enum({'attr': 1}, 'd attr')
    # fields that are plain but for an attribute, in runs
    for rp in ['C', 'C', 'C', 'packed', 'transparent', None, None, None]:
        for what in ['skip', 'prefix', 'varint', 'doe']:
            if R.random() < .3: continue
            z = R.choice(['u8', 'u16', 'u32', 'u64'])
            fs = [F(I(z)) for _ in range(1 if rp == 'transparent' else R.choice([2, 2, 3]))]
            f = fs[-1] if what == 'doe' else R.choice(fs)
            if what == 'varint':
                if rp == 'packed': continue
                for g in fs: g.ty = I('u64')
                f.varint = True; f.attrs.append('varint')
            elif what == 'prefix': prefix(f)
            else:
                f.attrs.append('skip' if what == 'skip' else 'default_on_eof')
                if what == 'skip': f.skip = True
                else: f.doe = True
            if rp == 'packed': fs = [x for x in fs]
            nm = name('K')
            emit_simple(nm, fs, 'd attr', 'named', rp, packed=rp == 'packed')
            if what != 'doe':
                for x in R.sample(["Vec<%s>", "Box<[%s]>", "[%s; 3]", "Cow<'static, [%s]>", "(u8, [%s; 2])"], 2): REG.append(('', 'd attr', x % nm))
    # every prefix
    for a, b in [] if BARE else PRES:
        f = F(R.choice([I('u8'), I('u16'), BOOL, STRING])); f.attrs.append('constant_prefix = ' + a); f.pre = b
        g = F(I('u16'))
        emit_simple(name('P'), [f, g] if R.random() < .5 else [g, f], 'd attr', 'named')
    # a missing tail, for every kind of field
    for ty in [I('u8'), I('u64'), BOOL, CHAR, STRING, vec(I('u8')), vec(I('u32')), vec(STRING), opt(I('u16')), opt(vec(I('u16'))), opt(STRING), arr(I('u16'), 3), bmap(I('u8'), I('u16')), hset(I('u16')), COWSTR, cows(I('u16')), cow(bset(I('u8'))), tup([I('u8'), I('u16')]), arr(I('u8'), 4)]:
        if BARE and not ty.default: continue     # what is made up for the missing tail borrows nothing
        f = F(ty); f.doe = True; f.attrs.append('default_on_eof')
        if ty.bare and R.random() < .4: length_type(f)
        if R.random() < .2: prefix(f)
        if not f.attrs[1:] and ty.rs == 'u64' : f.varint = True; f.attrs.append('varint')
        emit_simple(name('D'), [F(I(R.choice(['u8', 'u16']))), f], 'd attr', R.choice(['named', 'tuple']))
def varints():
    for i in range(N(6)): struct({'varint': 1}, 'd varint', n=R.choice([1, 2, 3, 4]), form=R.choice(['named', 'tuple']), extra=R.sample(["Vec<%s>", "Option<%s>", "[%s; 3]"], 1))
    for a in ['one', 'vec']:
        f = F(I('u64')); f.varint = True; f.attrs.append('varint')
        emit_simple(name('X'), [f] if a == 'one' else [f, F(I('u8'))], 'd varint', 'tuple')
    f = F(vec(I('u16'))); length_type(f, LTS[5]); emit_simple(name('X'), [f], 'd varint', 'named')
    f = F(STRING); length_type(f, LTS[5]); g = F(I('u64')); g.varint = True; g.attrs.append('varint'); emit_simple(name('X'), [f, g], 'd varint', 'named')
    for rp in ['transparent', 'C']:
        f = F(I('u64')); f.varint = True; f.attrs.append('varint'); emit_simple(name('X'), [f], 'd varint', 'tuple', rp)
        REG.append(('', 'd varint', 'Vec<%s>' % ('X%d' % CNT[0]))); REG.append(('', 'd varint', '[%s; 2]' % ('X%d' % CNT[0])))
    enum({'varint': 1}, 'd varint', tt=LTS[5]); enum({}, 'd varint', tt=LTS[5])

def views():
    """runs borrowed as they are, of everything that is plain in memory"""
    OUT.append('#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct Vz {}')
    OUT.append('impl Model for Vz { fn schema() -> String { struct_schema(&[]) } fn val(&self, o: &mut String) { o.push_str("[]") } fn gen(_: &mut Rng) -> Self { Vz {} } fn borrows(&self, _: &mut dyn FnMut(Borrow)) {} }')
    es = [I(x) for x in ['u16', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'f32', 'f64']]
    for rp, k in [('packed', [I('u16'), I('u8')]), ('packed', [I('i8'), I('i8')]), ('transparent', [I('u32')]), ('packed', [I('u64'), I('u32'), I('u16')])]:
        nm = name('V'); emit_simple(nm, [F(t) for t in k], 'd view', R.choice(['named', 'tuple']), rp, copy=True, packed=rp == 'packed')
        es += [T(nm, copy=True)] * 2
    def view(t=None): return T("&'static [%s]" % (t or R.choice(es)).rs, bare='ref', life=True)
    for i in range(N(26)):
        form = R.choice(['named', 'tuple']); k = R.choice(['none', 'none', 'lt', 'lt', 'expr', 'expr', 'eof', 'eof', 'opt', 'doe', 'optlt', 'pre'])
        f = F(view()); fs = [F(I(R.choice(['u8', 'u16', 'u32', 'u64']))) for _ in range(R.choice([0, 0, 1, 2]))] + [f]
        if k in ('opt', 'optlt'): f.ty = T('Option<%s>' % f.ty.rs, bare='opt', life=True)
        if k in ('lt', 'optlt'): length_type(f)
        if k == 'expr':
            g = F(I(R.choice(['u8', 'u16', 'u32']))); g.small = True; fs = [g] + fs
            names = fnames(len(fs), form); e, x = expr_over([names[0]], [0])
            f.expr = e; f.attrs.append('length = ' + e); f.lt = '{"l":"x","x":%s,"nm":"%s"}' % (x, names[fs.index(f)].replace('r#', ''))
        if k == 'eof': f.attrs.append('length = ..'); f.lt = '{"l":"eof"}'
        if k == 'doe': f.attrs.append('default_on_eof'); f.doe = True
        if k == 'pre': prefix(f)
        if k not in ('eof', 'doe') and R.random() < .5: fs.append(F(R.choice([I('u8'), I('u32'), view()])))
        emit_simple(name('V'), fs, 'd view', form, names_=names if k == 'expr' and len(names) == len(fs) else None if k != 'expr' else names + ['more'] if form == 'named' else None)
    # of elements that take no room
    f = F(T("&'static [Vz]", bare='ref', life=True)); f.attrs.append('length = ..'); f.lt = '{"l":"eof"}'; f.fixed = '&[]'
    emit_simple(name('V'), [F(I('u8')), f], 'd view', 'named')
    for i in range(N(4)):
        nm = name('E')
        OUT.append("#[derive(Clone, Readable, Writable)] pub enum %s<'a> { A(#[speedy(length_type = u8)] &'a [%s]), B { n: u8, #[speedy(length = n / 2)] v: &'a [%s] }, C(u16) }" % (nm, *(lambda a, b: (a.rs, b.rs))(*(VE.setdefault(nm, (R.choice(es), R.choice(es)))))))
        a, b = VE[nm]
        OUT.append('''impl Model for %s<'static> {
    fn schema() -> String { enum_schema("u32", false, &[(0, vec![fieldx(with_lt(<&'static [%s] as Model>::schema(), "{\\"l\\":\\"u8\\"}"), false, false, &[])]), (1, vec![fieldx(<u8 as Model>::schema(), false, false, &[]), fieldx(with_lt(<&'static [%s] as Model>::schema(), "{\\"l\\":\\"x\\",\\"x\\":{\\"x\\":\\"div\\",\\"a\\":{\\"x\\":\\"f\\",\\"i\\":1},\\"b\\":{\\"x\\":\\"n\\",\\"n\\":2}},\\"nm\\":\\"v\\"}"), false, false, &[])]), (2, vec![fieldx(<u16 as Model>::schema(), false, false, &[])])]) }
    fn val(&self, o: &mut String) { match self { %s::A(v) => { o.push_str("[1,["); v.val(o); o.push_str("]]"); } %s::B { n, v } => { o.push_str("[2,["); n.val(o); o.push(','); v.val(o); o.push_str("]]"); } %s::C(x) => { o.push_str("[3,["); x.val(o); o.push_str("]]"); } } }
    fn gen(r: &mut Rng) -> Self { deeper(|_d| match r.below(3) { 0 => %s::A(gen_upto(r, "u8")), 1 => { let n = r.below(24) as u8; let k = (n / 2) as usize + r.chance(1, 14) as usize; %s::B { n, v: GenN::gen_n(r, k) } } _ => %s::C(Model::gen(r)) }) }
    fn borrows(&self, f: &mut dyn FnMut(Borrow)) { match self { %s::A(v) => v.borrows(f), %s::B { v, .. } => v.borrows(f), _ => {} } }
}''' % ((nm, a.rs, b.rs) + (nm,) * 8))
        REG.append(('', 'd view dref', nm + "<'static>"))
VE = {}
parts = {'basic': basic, 'prim': prim, 'length': length, 'enums': enums, 'attrs': attrs, 'varints': varints, 'peeks': peeks, 'generics': generics, 'recursive': recursive, 'views': views}
FULL = SCALE
for k, f in parts.items():
    if PART == 'opt': SCALE = FULL * (5 if k == 'length' else 1)     # checks that a build may leave out
    if PART in ('all', 'alloc', 'opt', k) or (BARE and k in ('basic', 'length', 'enums', 'attrs', 'varints', 'peeks', 'prim')): f()
if LIFE:
    for i in range(N(30)): struct({}, 'life', repr_=R.choice([None, None, 'C']), form=R.choice(['named', 'tuple']), extra=R.sample(["Vec<%s>", "Option<%s>", "(u8, %s, L)", "BTreeMap<L, %s>", "[%s; 2]", "Box<[%s]>"], 2))
    for i in range(N(14)): enum({}, 'life', extra=R.sample(["Vec<%s>", "(u8, %s, L)", "[%s; 3]"], 1))
    for i in range(N(30)): struct({'len': 1}, 'life', n=R.choice([2, 3, 4, 5]), form=R.choice(['named', 'tuple']))
    for i in range(N(20)): struct({'attr': 1}, 'life', n=R.choice([2, 3, 4, 5]), form=R.choice(['named', 'tuple']))
    for i in range(N(6)): struct({'attr': 1, 'len': 1}, 'life', n=R.choice([3, 4, 5]), form=R.choice(['named', 'tuple']))
    for i in range(N(4)): enum({'attr': 1}, 'life')
    for ty in [vec(LS[0]), opt(LS[0]), opt(vec(LS[2])), bmap(LS[0], LS[3]), hset(LS[0]), arr(LS[0], 3), tup([LS[0], LS[3]]), cows(LS[0])]:
        f = F(ty); f.doe = True; f.attrs.append('default_on_eof')
        emit_simple(name('D'), [F(LS[0]), f], 'life', R.choice(['named', 'tuple']))

print('''// Made by tools/gen_derive.py. Derived types and their schemas.
%suse harness::model::*;
use harness::ops::TypeOps;
use harness::util::*;
use harness::{reg, reg_be, reg_le};
use speedy::{Endianness, Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::*;
use std::num::*;
use std::time::{Duration, SystemTime};
use uuid::Uuid;
''' % ('use harness::life::*;\n' if LIFE else ''))
# what is to be had without the standard library
if NOSTD:
    OUT = [x.replace('HashMap<', 'BTreeMap<').replace('HashSet<', 'BTreeSet<') for x in OUT]
    REG = [(a, b, c.replace('HashMap<', 'BTreeMap<')) for a, b, c in REG]
if BARE: REG = [(a, b, c) for a, b, c in REG if not any(x in c for x in ('Vec<', 'Box<', 'Cow<', 'BTreeMap<', "'static ["))]
print('\n'.join(OUT))
print('pub fn register(v: &mut Vec<TypeOps>) {')
for how, tags, t in REG:
    print('    reg%s!(v, "%s"; %s);' % ('_' + how if how else '', tags, t))
print('}')
