"""Assembles the Verus crate for a set of functions under contract (and, transitively, the contracts they call)."""
import glob, os, re, sys, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxxast, xlate, prelude, config

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types, unused_parens, unused_assignments, unreachable_code, unused_braces, path_statements, unused_must_use)]
use vstd::prelude::*;
verus! {
'''
TAIL = '''
} // verus!
fn main() {}
'''

def load_contracts():
    cs = {}; raws = {}
    for f in sorted(glob.glob(VERIF + '/contracts/*.vc')):
        c, meta = xlate.parse_contracts(f)
        for k in list(c):
            if k.startswith('TEMPLATE') or k == 'CLIENT': del c[k]; continue
            c[k].file = os.path.basename(f)
        cs.update(c); raws[os.path.basename(f)] = meta
    return cs, raws

class Crate:
    def __init__(s): s.lines = []; s.map = []   # (first, last, kind, name)
    def add(s, text, kind, name):
        a = len(s.lines) + 1
        s.lines += text.split('\n')
        s.map.append((a, len(s.lines), kind, name))
    def text(s): return '\n'.join(s.lines) + '\n'
    def where(s, line):
        for a, b, k, n in s.map:
            if a <= line <= b: return k, n
        return None, None

def build(prog, contracts, raws, tops, stubs=(), cfg=None, extra=None, only=()):
    """returns (crate, tr, closure, failed)"""
    cfg = cfg or config.CFG
    tr = xlate.Tr(prog, contracts, cfg)
    todo = list(tops); closure = []
    while todo:
        n = todo.pop(0)
        if n in closure: continue
        closure.append(n)
        tr.translate(n)
        if n in only: continue   # used through its contract; what it calls is not needed
        for c in sorted(tr.callees.get(n, ())):
            if c not in closure: todo.append(c)
    files = []
    def need(f):
        if f in files: return
        for u in raws[f]['use']:
            if u.endswith('.vc'): need(u)
        files.append(f)
    for n in closure:
        if n in contracts: need(contracts[n].file)
    cr = Crate()
    cr.add(HEAD, 'head', '')
    cr.add(open(VERIF + '/model/std.rs').read(), 'model', 'std')
    specs = []
    for f in files:
        for u in raws[f]['use']:
            if u.endswith('.rs') and u not in specs: specs.append(u)
    heaproots = []
    cells = []
    for f in files:
        for r in raws[f]['heap']:
            if ':' in r:
                if r not in cells: cells.append(r)
            elif r not in heaproots: heaproots.append(r)
    cr.add(prelude.heap_text(tr, [r for r in config.ROOTS if r in heaproots], [(c.split(':')[0], config.CELLTYPES[c.split(':')[0]]) for c in cells]), 'heap', '')
    for u in specs: cr.add(open(VERIF + '/spec/' + u).read(), 'spec', u)
    for f in files: cr.add(raws[f]['raw'], 'specs', f)
    for n in closure:
        t = tr.out.get(n)
        if t is None or n in stubs:
            t = stub(tr, n)
            if t is None: continue
            cr.add(t, 'stub', n)
        else:
            cr.add(re.sub(r'(?m)^pub fn ', '#[verifier::spinoff_prover]\npub fn ', t, count=1), 'fn', n)
    if extra: cr.add(extra, 'extra', '')
    cr.add(TAIL, 'tail', '')
    return cr, tr, closure

def stub(tr, name):
    """signature and contract only (trusted): used when the body is outside the translated subset"""
    t = tr.out.get(name)
    if t is not None:
        return cut_body(t)
    return tr.stub_text(name)

def cut_body(t):
    i = t.index('pub fn ')
    # body starts at the last line that is exactly '{' at column 0
    j = t.index('\n{\n', i)
    return t[:i] + '#[verifier::external_body]\n' + t[i:j] + '\n{ unimplemented!() }\n'
