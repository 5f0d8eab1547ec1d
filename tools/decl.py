"""Declarations of derived types that can or cannot be honoured: Declare.tla lists them, they are given to the
compiler, and Declare.tla judges what became of each."""
import json, os, re
from vlib import *

HEAD = '''
use speedy::{Readable, Writable};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
const NAME: u8 = 1;
#[derive(Clone, Debug, Default, PartialEq, Readable, Writable)] pub struct Inner { x: u16 }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct Packed { x: u8, y: u16 }
#[derive(Clone, Copy, Readable, Writable)] #[repr(packed)] pub struct PackedBool { x: u8, y: bool }
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct Clear(u32);
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct ClearBool(bool);
#[derive(Clone, Copy, Readable, Writable)] #[repr(transparent)] pub struct ClearChar(char);
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] #[speedy(unsafe_is_primitive = always)] pub struct Forced { x: u16, y: u16 }
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Ordered { x: u16, y: u16 }
#[derive(Clone, Copy, Readable, Writable)] #[repr(C)] pub struct Padded { x: u8, y: u16 }
#[derive(Clone, Copy, Readable, Writable)] pub enum Choice { A, B }
pub fn reads<'a, T: Readable<'a, speedy::LittleEndian>>() {}
fn main() {}
'''
D = '#[derive(Readable, Writable)] '
MAX = {'none': 2**32 - 1, 'u7': 127, 'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'u64_varint': 2**64 - 1}

def attrs(xs, apart=False):
    if not xs: return ''
    return ' '.join('#[speedy(%s)]' % x for x in xs) + ' ' if apart else '#[speedy(%s)] ' % ', '.join(xs)
def shaped(shape, n, fields):
    """fields: (attributes, type)"""
    lt = "<'a>" if any("'a" in t for _, t in fields) else ''
    named = ', '.join('%sf%d: %s' % (a, i, t) for i, (a, t) in enumerate(fields))
    tup = ', '.join(a + t for a, t in fields)
    if shape == 'named': return '%spub struct T%d%s { %s }' % (D, n, lt, named)
    if shape == 'tuple': return '%spub struct T%d%s(%s);' % (D, n, lt, tup)
    if shape == 'variant': return '%spub enum T%d%s { A, B { %s } }' % (D, n, lt, named)
    return '%spub enum T%d%s { A(%s), B }' % (D, n, lt, tup)
def number(v, tt): return v[1] if v[0] == 'z' else MAX[tt] - v[1]
def render(d, n):
    if d['k'] == 'field': return shaped(d['shape'], n, [(attrs(d['as'], d['apart']), d['ty'])])
    if d['k'] == 'last':
        return shaped(d['shape'], n, [('#[speedy(length = ..)] ', d['ty']) if i == d['at'] else ('', d['other']) for i in range(1, d['n'] + 1)])
    if d['k'] == 'enum':
        vs = ', '.join('%s%s%s' % ('#[speedy(tag = %d)] ' % number(v['tag'], d['tt']) if v['tag'] else '', 'ABC'[i], ' = %d' % number(v['disc'], d['tt']) if v['disc'] else '') for i, v in enumerate(d['vs']))
        return '%s%spub enum T%d { %s }' % (D, '' if d['tt'] == 'none' else '#[speedy(tag_type = %s)] ' % d['tt'], n, vs)
    if d['k'] == 'view':
        a = attrs([d['a']] if d['a'] else []); t = "&'a [%s]" % d['el']
        if d['form'] == 'plain': return "%spub struct T%d<'a> { n: u8, %sx: %s, y: u16 }" % (D, n, a, t) if d['a'] != 'length = ..' else "%spub struct T%d<'a> { n: u8, %sx: %s }" % (D, n, a, t)
        if d['form'] == 'tuple': return "%spub struct T%d<'a>(%s%s);" % (D, n, a, t)
        if d['form'] == 'option': return "%spub struct T%d<'a> { %sx: Option<%s> }" % (D, n, a, t)
        if d['form'] == 'variant': return "%spub enum T%d<'a> { A(%s%s), B }" % (D, n, a, t)
        return "%spub struct T%d<'a, E> { %sx: &'a [E] } pub fn f%d<'a>() { reads::<'a, T%d<'a, %s>>() }" % ('#[derive(Readable)] ', n, a, n, n, d['el'])
    a = attrs(d['as']); on = d['on']
    if on == 'struct': return D + a + '#[repr(C)] #[derive(Copy, Clone)] pub struct T%d { x: u8, y: u8 }' % n
    if on == 'tuple': return D + a + '#[repr(C)] #[derive(Copy, Clone)] pub struct T%d(u8, u8);' % n
    if on == 'unit': return D + a + '#[repr(C)] #[derive(Copy, Clone)] pub struct T%d;' % n
    if on == 'enum': return D + a + 'pub enum T%d { A(u8), B }' % n
    if on == 'variant': return D + 'pub enum T%d { %sA(u8), #[speedy(tag = 9)] B }' % (n, a)
    if on == 'union': return D + a + '#[derive(Copy, Clone)] pub union T%d { x: u8, y: i8 }' % n
    ty = 'u64' if 'varint' in d['as'] else 'String'
    return D + 'pub struct T%d { %sx: %s, y: u8 }' % (n, a, ty)

def refused(decls, live, work):
    """which of the live declarations have an error in one run of the compiler"""
    path = os.path.join(work, 'decl.rs')
    head = HEAD.count('\n')
    write_file(path, HEAD + '\n'.join(render(decls[n], n) for n in live) + '\n')
    with Lock():
        clean('debug')
        r = cargo(['check', '--offline', '--bin', 'decl', '--message-format', 'json'], {'DECL_RS': path})
    bad, seen, other = {}, False, []
    for l in r.stdout.split('\n'):
        if not l.startswith('{'): continue
        m = json.loads(l)
        if m.get('reason') != 'compiler-message': continue
        m = m['message']
        if m['level'] != 'error': continue
        seen = True
        at = [s for s in m['spans'] if s['file_name'] == path]
        if at and head < at[0]['line_start'] <= head + len(live):
            bad.setdefault(live[at[0]['line_start'] - head - 1], m['message'])
        elif m['spans']: other.append(m['message'])
    if (r.returncode != 0) != seen or (seen and not bad) or other: raise ToolError('cargo check of the declarations: %s %s' % (other[:2], r.stdout[-1500:]))
    return bad

def stage(run, st):
    out = os.path.join(run.work, 'decls.json')
    rc, o, _, _ = tlc('DeclareGen.tla', 'DeclareGen.cfg', run.work, {'OUT': out})
    if rc != 0: raise ToolError('DeclareGen: ' + o[-1500:])
    decls = [json.loads(l) for l in open(out)]
    live, why, rounds = list(range(len(decls))), {}, 0
    # errors found early keep the compiler from looking for others
    while True:
        bad = refused(decls, live, run.work)
        rounds += 1
        if not bad: break
        if rounds > 12: raise ToolError('still errors after %d runs of the compiler' % rounds)
        why.update(bad)
        live = [n for n in live if n not in bad]
    recs = os.path.join(run.work, 'decl.recs.json')
    with open(recs, 'w') as f:
        for n, d in enumerate(decls): f.write(json.dumps({'d': d, 'got': 'refuse' if n in why else 'accept'}) + '\n')
    rc, o, gen, dist = tlc('DeclareJudge.tla', 'DeclareJudge.cfg', run.work, {'RECS': recs})
    if rc != 0 or dist < len(decls): raise ToolError('DeclareJudge: ' + o[-1500:])
    run.cov['states'] += dist; run.cov['transitions'] += gen; run.cov['traces_validated_against_impl'] += len(decls)
    run.cov['stages'].append({'declarations': len(decls), 'refused': len(why), 'runs of the compiler': rounds})
    for n in list(range(0, len(decls), len(decls) // 8))[:8]:
        run.sample({'declaration': render(decls[n], n), 'became': 'refuse' if n in why else 'accept', 'message': why.get(n, '')})
    for m in re.finditer(r'<<"BAD", (\d+), "(\w+)">>', o):
        n = int(m.group(1)) - 1
        run.violate('should be %sd: %s   %s' % (m.group(2), render(decls[n], n), why.get(n, '')[:300]),
                    {'kind': 'decl', 'decl': decls[n], 'source': render(decls[n], n), 'want': m.group(2), 'message': why.get(n, '')})
def replay(run, d, path):
    bad = refused([d['decl']], [0], run.work)
    got = 'refuse' if bad else 'accept'
    print(render(d['decl'], 0)); print('should be %sd, is %sd %s' % (d['want'], got, bad.get(0, '')))
    if got != d['want']: print('VIOLATION property=%s replay=%s' % (run.prop, path))
    return int(got != d['want'])
