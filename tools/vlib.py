"""What the checks share: building the harness, running its jobs, judging the records with TLC."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPEEDY_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CORES = 8
BINS = ['core', 'derive', 'ext', 'session', 'life', 'ctx']

# other builds of the crate: the harness' features, the profile, the derived types
VARIANTS = {'alloc': (['--no-default-features', '--features', 'alloc,derive,noext'], 'debug', 'small.rs'),
            'bare': (['--no-default-features', '--features', 'derive'], 'debug', 'bare.rs'),
            'opt': (['--release'], 'release', 'opt.rs')}
VARBINS = ['core@alloc', 'derive@alloc', 'ext@alloc', 'nostd@alloc', 'core@bare', 'derive@bare', 'nostd@bare', 'core@opt', 'derive@opt', 'session@opt']

class ToolError(Exception):
    pass
class BuildBroken(Exception):
    """the harness no longer compiles against the crate, although the crate does"""

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

# ------------------------------------------------------------------- building
def files_under(d, skip=('target', '.git')):
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            yield os.path.join(root, f)
def tree_key(extra=()):
    h = hashlib.sha256()
    fs = [x for d in ('src', 'speedy-derive') for x in files_under(os.path.join(REPO, d))]
    fs += [os.path.join(REPO, x) for x in ('Cargo.toml', 'build.rs')]
    fs += list(files_under(HARNESS)) + list(extra)
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            h.update(hashlib.sha256(open(f, 'rb').read()).digest())
    return h.hexdigest()[:24]

def stamp(name): return os.path.join(BUILD, 'stamp', name)
def read_file(p):
    try:
        return open(p).read()
    except OSError:
        return ''
def write_file(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + '.tmp', 'w') as f:
        f.write(s)
    os.replace(p + '.tmp', p)

class Lock:
    def __enter__(s):
        os.makedirs(BUILD, exist_ok=True)
        s.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a):
        s.f.close()

def cargo(args, env=None, timeout=800):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(env or {})
    return sh(['cargo'] + args, cwd=HARNESS, env=e, timeout=timeout)

def clean(profile):
    """modification times say nothing here: sources may be older than the build"""
    base = tree_key()
    name = 'cleaned-' + profile
    if read_file(stamp(name)) != base:
        cargo(['clean', '--offline', '-p', 'speedy', '-p', 'speedy-derive', '-p', 'harness'] + (['--release'] if profile == 'release' else []))
        write_file(stamp(name), base)
def build(bins, derive=None):
    """Builds the harness programs (of one variant) from the current tree; derive: another generated program.
    Returns the paths of the programs."""
    variant = bins[0].split('@')[1] if '@' in bins[0] else None
    args, profile, small = VARIANTS[variant] if variant else ([], 'debug', None)
    env = {('LIFE_RS' if bins == ['life'] else 'DERIVE_RS'): derive} if derive else {}
    if small: env['DERIVE_RS'] = os.path.join(HARNESS, 'src', 'gen', small)
    with Lock():
        key = tree_key([derive] if derive else [])
        out = {}
        todo = []
        for b in bins:
            tag = b + ('-' + os.path.basename(derive)[:-3] if derive else '')
            out[b] = os.path.join(BUILD, 'bin', tag)
            if read_file(stamp(tag)) != key or not os.path.exists(out[b]):
                todo.append((b, tag))
        if not todo:
            return out
        clean(profile)
        cmd = ['build', '--offline'] + args
        for b, _ in todo:
            cmd += ['--bin', b.split('@')[0]]
        r = cargo(cmd, env)
        if r.returncode != 0:
            write_file(stamp('cleaned-' + profile), '')
            log = os.path.join(BUILD, 'build.log')
            write_file(log, r.stdout)
            if 'error[E' in r.stdout or 'error: proc-macro' in r.stdout or re.search(r'^error: ', r.stdout, re.M):
                # the crate as users get it, or (of another variant) the usual one
                own = sh(['cargo', 'build', '--offline', '--lib'], cwd=HARNESS, timeout=600)
                if own.returncode == 0:
                    raise BuildBroken(log)
            raise ToolError('build failed, see ' + log + '\n' + r.stdout[-3000:])
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        for b, tag in todo:
            src = os.path.join(BUILD, 'target', profile, b.split('@')[0])
            shutil.copyfile(src, out[b] + '.tmp')
            os.chmod(out[b] + '.tmp', 0o755)
            os.replace(out[b] + '.tmp', out[b])
            write_file(stamp(tag), key)
        return out

# -------------------------------------------------------------------- schemas
def walk(t):
    """every schema inside a schema"""
    if isinstance(t, dict):
        if 'k' in t:
            yield t
        for v in t.values():
            yield from walk(v)
    elif isinstance(t, list):
        for v in t:
            yield from walk(v)
LENW = {'u7': 1, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'varint': 1, 'eof': 0, 'x': 0}
def fmin(fs): return sum(0 if f['skip'] or f['doe'] else len(f['pre']) + tmin(f['t']) for f in fs)
def tmin(t):
    k = t['k']
    if k in ('int', 'nz'): return t['w']
    if k in ('bool', 'mask', 'varint', 'opt', 'res', 'el', 'mark'): return 1
    if k in ('char', 'regex'): return 4
    if k == 'raw': return t['n']
    if k in ('unit', 'any', 'elz'): return 0
    if k in ('dur', 'systime', 'date'): return 12
    if k == 'tup': return sum(tmin(x) for x in t['ts'])
    if k in ('arr', 'rarr'): return t['n'] * tmin(t['t'])
    if k in ('seq', 'str', 'set', 'map', 'rseq', 'rstr'): return LENW[t['lt']['l']]
    if k == 'inv': return tmin(t['t'])
    if k == 'struct': return fmin(t['fs'])
    if k == 'enum': return (0 if t['peek'] else LENW[t['tt']]) + min(fmin(v['fs']) for v in t['vs'])
    raise ToolError('schema kind ' + k)
def hollow(t):
    """has a run, of a length stated in the input, of elements that may take no bytes"""
    for x in walk(t):
        if x['k'] == 'rseq' and x['lt']['l'] == 'eof': continue      # found without counting
        if x['k'] in ('seq', 'set', 'rseq') and tmin(x['t']) == 0: return True
        if x['k'] == 'map' and tmin(x['a']) + tmin(x['b']) == 0: return True
    return False
def bottom(t): return any(x['k'] == 'any' for x in walk(t))
def is_open(t):
    for x in walk(t):
        if x.get('lt', {}).get('l') == 'eof': return True
        for f in x.get('fs', []):
            if f['doe']: return True
    return False
class Ty:
    def __init__(s, i, d):
        s.i = i; s.name = d['name']; s.tags = set(d['tags'].split()); s.t = d['t']; s.min = d['min']; s.size = d['size']
        s.kinds = {x['k'] for x in walk(s.t)}
        s.hollow = hollow(s.t); s.open = is_open(s.t); s.ref = bool(s.kinds & {'rseq', 'rstr', 'rarr'})

# ----------------------------------------------------------------------- jobs
class Job:
    def __init__(s, bin, job, n, sel=None, src=None, modes=None, limit=None, cap=None, extra=None):
        s.bin = bin; s.job = job; s.n = n; s.sel = sel or (lambda t: True); s.src = src; s.modes = modes
        s.limit = limit; s.cap = cap; s.extra = extra or []
    def args(s, types, seed, n):
        a = ['run', '--job', s.job, '--n', str(n), '--seed', str(seed), '--types', ','.join(str(t.i) for t in types)]
        if s.src: a += ['--src', s.src]
        if s.modes: a += ['--modes', s.modes]
        if s.limit: a += ['--limit', str(s.limit)]
        return a + s.extra

def run_shard(cmd, out, d, budget, restarts=12):
    """A generator-like task: runs a shard to its end, restarting it behind cases that crash."""
    os.makedirs(d, exist_ok=True)
    skip, n, hangs = 0, 0, 0
    end = time.time() + budget
    while True:
        try:
            p = subprocess.run(cmd + ['--skip', str(skip), '--out', out, '--dir', d], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=max(5, end - time.time()))
            rc = p.returncode
            err = p.stderr.decode(errors='replace')[-400:]
        except subprocess.TimeoutExpired:
            return 'timeout'
        if rc == 0:
            return 'ok'
        b = open(os.path.join(d, 'pending'), 'rb').read() if os.path.exists(os.path.join(d, 'pending')) else b''
        m = int.from_bytes(b[:8], 'little')
        try:
            rec = json.loads(b[8:8 + m])
            ident = rec['id']
        except Exception:
            raise ToolError('harness failed (%s): %s' % (rc, err))
        if 'not a type' in err or 'unknown job' in err:
            raise ToolError(err)
        rec['k'] = 'crash'; rec['rc'] = rc; rec['err'] = err
        # drop what was written of an unfinished line
        if os.path.exists(out):
            data = open(out, 'rb').read()
            if data and not data.endswith(b'\n'):
                open(out, 'wb').write(data[:data.rfind(b'\n') + 1])
        with open(out, 'a') as f:
            f.write(json.dumps(rec) + '\n')
        skip = ident
        n += 1
        hangs += 'watchdog' in err
        if n >= restarts or hangs >= 2:
            return 'ok'

def run_jobs(prog, cmdargs, work, label, budget):
    from concurrent.futures import ThreadPoolExecutor
    outs = [os.path.join(work, '%s.%d.json' % (label, k)) for k in range(CORES)]
    def one(k):
        return run_shard([prog] + cmdargs + ['--shard', str(k), '--shards', str(CORES)], outs[k], os.path.join(work, 'd%s%d' % (label, k)), budget)
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(CORES)))
    lines = []
    for o in outs:
        if os.path.exists(o):
            with open(o) as f:
                lines += [l for l in f.read().split('\n') if l]
            os.remove(o)
    return lines, res

# ------------------------------------------------------------------------ TLC
def tlc(module, cfg, work, env=None, workers=CORES, timeout=600, args=(), heap='6g'):
    meta = os.path.join(work, 'meta-%s-%d' % (os.path.basename(cfg), int(time.time() * 1e6)))
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA), 'tlc2.TLC',
           '-workers', str(workers), '-config', cfg, '-metadir', meta, '-noGenerateSpecTE', *args, module]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC took more than %d s on %s' % (timeout, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist

class Judged:
    def __init__(s): s.bad = []; s.states = 0; s.trans = 0; s.records = 0

def judge(lines, types_json, aspects, work, label, timeout=600):
    """Which records are not behaviours of the specification, and in what respect."""
    j = Judged()
    if not lines:
        return j
    recs = os.path.join(work, label + '.recs.json')
    with open(recs, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    params = os.path.join(work, label + '.params.json')
    with open(params, 'w') as f:
        json.dump({'types': types_json, 'recs': recs, 'aspects': sorted(aspects), 'lanes': 64}, f)
    rc, out, gen, dist = tlc('Conform.tla', 'Conform.cfg', work, {'PARAMS': params}, timeout=timeout)
    seen = set()
    for m in re.finditer(r'<<"BAD", (\d+), \{([^}]*)\}>>', out.replace('\n', ' ')):
        n = int(m.group(1))
        if n in seen: continue
        seen.add(n)
        j.bad.append((n - 1, [x.strip().strip('"') for x in m.group(2).split(',')]))
    j.states, j.trans, j.records = dist, gen, len(lines)
    os.remove(recs)
    if rc != 0 or dist < len(lines):
        raise ToolError('TLC failed on %s (exit %d, %d of %d records)\n%s' % (label, rc, dist, len(lines), out[-3000:]))
    j.bad.sort()
    return j
