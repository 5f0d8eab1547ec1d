"""Configurations of the crate: Features.tla says which there are and what each offers; the compiler says what of it
compiles, Features.tla judges."""
import json, os, re
from vlib import *

COMBOS = os.path.join(VERIF, 'combos')
TARGET = os.path.join(BUILD, 'combos')

def render(i, n):
    k, ty = i['k'], i['ty']
    if k == 'both': return "pub fn i%d<'a, C: Context>() { both::<'a, C, %s>() }" % (n, ty)
    if k == 'read': return "pub fn i%d<'a, C: Context>() { reads::<'a, C, %s>() }" % (n, ty)
    if k == 'write': return "pub fn i%d<'a, C: Context>() { writes::<C, %s>() }" % (n, ty)
    if k == 'use': return "pub fn i%d(b: &[u8]) { let _ = %s; }" % (n, ty)
    return 'pub mod i%d { use super::*; #[derive(Readable, Writable)] %s }' % (n, ty)

def check(fs, env):
    return sh(['cargo', 'check', '--offline', '--no-default-features', '--features', ','.join(fs), '--message-format', 'json'], cwd=COMBOS,
              env=dict({k: v for k, v in os.environ.items() if k != 'RUSTFLAGS'}, CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=TARGET, **env), timeout=600)

def fresh():
    key = tree_key(list(files_under(COMBOS)))
    if read_file(stamp('combos')) != key:
        r = sh(['cargo', 'clean', '--offline', '-p', 'speedy', '-p', 'speedy-derive', '-p', 'combos'], cwd=COMBOS, env=dict(os.environ, CARGO_TARGET_DIR=TARGET))
        write_file(stamp('combos'), key)

def broken(fs, items, work):
    """the items that do not compile with these features, with the message"""
    path = os.path.join(work, 'combos.rs')
    bad, live = {}, list(range(len(items)))
    for rounds in range(8):
        write_file(path, '\n'.join(render(items[n], n) for n in live) + '\n')
        r = check(fs, {'COMBOS_RS': path})
        seen, now = [], {}
        for l in r.stdout.split('\n'):
            if not l.startswith('{'): continue
            m = json.loads(l)
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
            inside = '/combos#' in m.get('package_id', '') or m.get('target', {}).get('name') == 'combos'
            m = m['message']; seen.append(m['message'])
            lines = [s['line_start'] for s in m['spans'] if s['file_name'] == path]
            if not inside: return dict(bad, library=m['message'] + ' ' + ' '.join('%s:%d' % (s['file_name'], s['line_start']) for s in m['spans'][:1]))
            if lines: now.setdefault(live[lines[0] - 1], m['message'])
        if r.returncode == 0: return bad
        if not now:
            if seen: return dict(bad, library=seen[0])
            raise ToolError('cargo check with %s: %s' % (fs, r.stdout[-1500:]))
        bad.update(now)
        live = [n for n in live if n not in now]
    return bad

def configs(work, deep):
    out = os.path.join(work, 'combos.json')
    rc, o, _, _ = tlc('FeaturesGen.tla', 'FeaturesGen.cfg', work, {'OUT': out, 'DEEP': '1' if deep else '0'})
    if rc != 0: raise ToolError('FeaturesGen: ' + o[-1500:])
    return [json.loads(l) for l in open(out)]

def warm(work):
    for c in configs(work, False):
        fresh()
        broken(c['fs'], c['items'], work)
def stage(run, st):
    cs = configs(run.work, run.tier != 'quick')
    found, tried = [], 0
    with Lock():
        fresh()
        for c in cs:
            b = broken(c['fs'], c['items'], run.work)
            tried += len(c['items'])
            found.append(b)
    recs = os.path.join(run.work, 'combos.recs.json')
    with open(recs, 'w') as f:
        for c, b in zip(cs, found):
            f.write(json.dumps({'fs': c['fs'], 'bad': [{'k': 'library', 'ty': 'the library'} if n == 'library' else c['items'][n] for n in b]}) + '\n')
    rc, o, gen, dist = tlc('FeaturesJudge.tla', 'FeaturesJudge.cfg', run.work, {'RECS': recs})
    if rc != 0 or dist < 2 * len(cs): raise ToolError('FeaturesJudge: ' + o[-1500:])
    run.cov['states'] += dist; run.cov['transitions'] += gen; run.cov['traces_validated_against_impl'] += len(cs)
    run.cov['stages'].append({'configurations': len(cs), 'items compiled': tried})
    for m in re.finditer(r'<<"BAD", (\d+), "(.*)">>', o):
        n = int(m.group(1)) - 1
        ty = m.group(2).replace('\\"', '"').replace('\\\\', '\\')
        why = next((v for k, v in found[n].items() if (k == 'library' and ty == 'the library') or (k != 'library' and cs[n]['items'][k]['ty'] == ty)), '')
        item = next((i for i in cs[n]['items'] if i['ty'] == ty), None)
        run.violate('does not compile with features {%s}: %s   %s' % (', '.join(sorted(cs[n]['fs'])), ty, why[:300]), {'kind': 'combo', 'fs': cs[n]['fs'], 'item': item, 'message': why})
def replay(run, d, path):
    with Lock():
        fresh()
        bad = broken(d['fs'], [d['item']] if d['item'] else [], run.work)
    print('features:', ', '.join(d['fs'])); print(d['item'] and d['item']['ty'] or 'the library', '|', 'does not compile: %s' % list(bad.values())[0] if bad else 'compiles')
    if bad: print('VIOLATION property=%s replay=%s' % (run.prop, path))
    return int(bool(bad))
