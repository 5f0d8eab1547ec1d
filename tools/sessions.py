"""Stages whose programs perform scripts of operations."""
import json, os, random, re
from vlib import *

def shorten(x, n=700):
    t = json.dumps(x) if not isinstance(x, str) else x
    return t if len(t) <= n else t[:n] + '...'

def ring_scripts(run, st):
    """Behaviours of Ring.tla as scripts: one for every way the ring can look when an operation ends, times variations."""
    rc, out, gen, dist = tlc('Ring.tla', 'RingGen.cfg', run.work, timeout=600, args=('-deadlock',))
    if rc != 0: raise ToolError('RingGen: ' + out[-2000:])
    run.cov['states'] += dist; run.cov['transitions'] += gen
    base = sorted(set(re.findall(r'"SCRIPT (.*?)\| (.*?)"', out.replace('\n', ' '))))
    if len(base) < 500: raise ToolError('RingGen made only %d scripts' % len(base))
    r = random.Random(run.seed)
    U = 1024                                   # a unit of the model; 8 of them are the buffer
    out = []
    for ops, steps in base:
        for v in range(st.variants if run.tier == 'quick' else st.variants * 4):
            jig = (lambda: 0) if v == 0 else (lambda: r.choice([-1, 0, 0, 1]))
            o = []
            for x in ops.split():
                k, n = x.split(':'); n = max(0, int(n) * U + jig())
                if k == 'peek': o.append('pb:0:%d' % n)
                else: o.append(r.choice(['rb:0:%d', 'sk:0:%d', 'vec:0:%d', 'str:0:%d'] if v else ['rb:0:%d']) % n)
            # the state is looked at: more of both kinds
            for _ in range(3):
                o.append('%s:0:%d' % (r.choice(['rb', 'pb']), r.choice([1, 2, 3, 5, 7, 8, 9]) * U + r.choice([-1, 0, 1])))
            s = [str(1 << 20) if x == 'all' else str(max(1, int(x) * U + jig())) for x in steps.split() if x != '0']
            # behind the script the source gives what it likes
            s += [str(r.choice([1 << 20, r.randrange(1, 9000), 1024, 8192])) for _ in range(2)]
            out.append('%s|%d|%s' % (' '.join(o), 24 * U + (r.choice([0, 0, 1, -1, 5000]) if v else 0), ' '.join(s)))
    limit = st.limit if run.tier == 'quick' else 10 ** 9
    return out if len(out) <= limit else r.sample(out, limit)

def stage(run, st, idx):
    prog = run.prog(st.bin)
    tj = os.path.join(run.work, 'types-none.json')
    write_file(tj, '[]')
    quick = run.tier == 'quick'
    batch, prov = [], []
    for k, (job, n, extra) in enumerate(st.jobs):
        args = ['run', '--job', job, '--n', str(n if quick else n * 20), '--seed', str(run.seed * 1000 + 1)] + extra
        if job == 'ring':
            path = os.path.join(BUILD, 'gen', 'ring-%s.txt' % run.prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            scripts = ring_scripts(run, st)
            write_file(path, '\n'.join(scripts) + '\n')
            args += ['--scripts', path]
        lines, res = run_jobs(prog, args, run.work, '%d.s%d' % (idx, k), 150 if quick else 1500)
        if 'timeout' in res and not any('"crash"' in l for l in lines): raise ToolError('a job took too long: %s' % args[:6])
        if not lines: raise ToolError('no records from %s' % args[:6])
        run.cov['stages'].append({'job': job, 'program': st.bin, 'records': len(lines)})
        batch += lines; prov += [(job, args)] * len(lines)
    step = 12000
    for at in range(0, len(batch), step):
        part = batch[at:at + step]
        res = judge(part, tj, st.aspects, run.work, '%d.s' % idx, timeout=600 if quick else 2400)
        run.cov['states'] += res.states; run.cov['transitions'] += res.trans
        run.cov['traces_validated_against_impl'] += res.records
        for i in random.Random(run.seed).sample(range(len(part)), min(3, len(part))):
            run.sample(json.loads(part[i]))
        for i, fails in res.bad:
            rec = json.loads(part[i]); job, args = prov[at + i]
            run.violate('%s: %s %s' % (','.join(fails), job, shorten(rec.get('ops', rec.get('what', '')), 300)),
                        {'kind': 'session', 'bin': st.bin, 'args': args + ['--only', str(rec['id'])], 'aspects': st.aspects, 'fails': fails, 'record': rec})

def replay(run, d, path):
    tj = os.path.join(run.work, 'types-none.json')
    write_file(tj, '[]')
    lines, res = run_jobs(run.prog(d['bin']), d['args'], run.work, 'replay', 100)
    j = judge(lines, tj, d['aspects'], run.work, 'replay')
    for l in lines: print(shorten(l, 6000))
    print('fails:', j.bad)
    if j.bad: print('VIOLATION property=%s replay=%s' % (run.prop, path))
    return 1 if j.bad else 0
