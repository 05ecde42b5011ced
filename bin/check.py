#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current working tree (see DESIGN.md)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF + '/extract'); sys.path.insert(0, HERE)
import cxxast, gen, xlate, config
from props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
BUDGET = 840

def left(): return BUDGET - (time.time() - T0)
def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ build of the concrete driver from /repo's sources
FLAVOURS = {
    'plain': ['-O1', '-g1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'],
    'dist': ['-O1', '-g1', '-DDISTANCE_ONLY', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
    'tsan': ['-O1', '-g1', '-DDISTANCE_ONLY', '-fsanitize=thread'],
}
def sh(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **k)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return None, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

def protoc(scratch):
    g = scratch + '/gen/liblevenshtein/proto'; os.makedirs(g, exist_ok=True)
    rc, o, e = sh(['protoc', '--proto_path=' + REPO + '/proto', '--cpp_out=' + g, REPO + '/proto/liblevenshtein.proto'], 60)
    if rc != 0: raise Exception('protoc failed: ' + e[:500])
    return scratch + '/gen'

def build_driver(scratch, flavour):
    fl = FLAVOURS[flavour] + ['-std=c++20', '-w', '-I' + REPO + '/src', '-I' + REPO + '/third-party', '-I' + scratch + '/gen', '-pthread']
    out = scratch + '/' + flavour; os.makedirs(out, exist_ok=True)
    srcs = sorted(glob.glob(REPO + '/src/liblevenshtein/**/*.cpp', recursive=True))
    if '-DDISTANCE_ONLY' in fl: srcs = [f for f in srcs if '/liblevenshtein/distance/' in f]
    else: srcs.append(scratch + '/gen/liblevenshtein/proto/liblevenshtein.pb.cc')
    srcs = [VERIF + '/harness/driver.cpp'] + srcs + [REPO + '/third-party/MurmurHash2.cpp']
    def one(f):
        o = out + '/' + f.replace('/', '_') + '.o'
        rc, so, se = sh(['g++'] + fl + ['-c', f, '-o', o], 400)
        return o, rc, se
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, srcs))
    bad = [r for r in rs if r[1] != 0]
    if bad: raise Exception('does not compile: ' + bad[0][2][:800])
    rc, so, se = sh(['g++'] + fl + [r[0] for r in rs] + ['-o', out + '/driver', '-lprotobuf', '-lpthread'], 200)
    if rc != 0: raise Exception('does not link: ' + se[:800])
    return out + '/driver'

def mined():
    ints, chars = set(), set()
    for f in glob.glob(REPO + '/src/liblevenshtein/**/*', recursive=True) + glob.glob(REPO + '/third-party/*.cpp'):
        if not f.endswith(('.cpp', '.h')): continue
        t = open(f, errors='replace').read()
        t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
        for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F]+|\d+)[uUlLzZ]*(?![\w.'])", t):
            v = int(m.group(1), 0) if not re.match(r'^0\d', m.group(1)) else int(m.group(1), 8)
            if 2 <= v <= 4000: ints.add(v)
            if 1 <= v <= 255: chars.add(v)
        for m in re.finditer(r"'(\\x[0-9a-fA-F]+|\\.|[^'\\\n])'", t):
            try: chars.add(ord(eval("'" + m.group(1) + "'", {})) & 255)
            except Exception: pass
    return sorted(ints), sorted(chars)

def search(scratch, flavour, driver, modes, secs, seeds, lvl=0):
    """runs the driver; returns (cases tried, failure or None)"""
    ints, chars = mined()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1' % (1 if flavour == 'asan' else 0), TSAN_OPTIONS='halt_on_error=1:second_deadlock_stack=1',
               UBSAN_OPTIONS='print_stacktrace=1', LSAN_OPTIONS='')
    def one(job):
        (mode, alg), seed = job
        d = tempfile.mkdtemp(dir=scratch); cur = d + '/cur'
        cmd = [driver, 'mode=' + mode, 'alg=%d' % alg, 'seed=%d' % seed, 'secs=%g' % secs, 'level=%d' % lvl, 'cur=' + cur, 'tmp=' + d, 'ints=' + ','.join(map(str, ints)), 'chars=' + ''.join('%02x' % c for c in chars)]
        rc, o, e = sh(cmd, secs + 150, env=env)
        if flavour == 'tsan' and 'unexpected memory mapping' in e: rc, o, e = sh(['setarch', '-R'] + cmd, secs + 150, env=env)
        if flavour == 'tsan' and ('unexpected memory mapping' in e or 'setarch:' in e): return 0, None    # this kernel cannot run the race detector
        n = re.search(r'^CASES (\d+)', o, re.M); n = int(n.group(1)) if n else 0
        if rc == 0 and n: return n, None
        case = re.search(r'^CASE (.*)', o, re.M)
        if case: case = case.group(1)
        else:
            try: case = open(cur, 'rb').read().split(b'\n')[0].split(b'\0')[0].decode()
            except Exception: case = ''
        f = re.search(r'^FAIL (.*)', o, re.M)
        if f: what = f.group(1)
        elif rc is None: what = 'a call does not finish'
        else:
            m = re.search(r'(SUMMARY: .*|runtime error: .*|WARNING: ThreadSanitizer: .*|.*Assertion .* failed.*|terminate called.*)', e)
            what = 'the program ends abnormally (%s)' % (m.group(1).strip() if m else 'exit status %s' % rc)
        return n, (what, case, e[-6000:])
    jobs = [(m, s) for s in seeds for m in modes]
    with ThreadPoolExecutor(min(8, len(jobs))) as ex: rs = list(ex.map(one, jobs))
    tot = sum(r[0] for r in rs)
    fails = [r[1] for r in rs if r[1]]
    fails.sort(key=lambda f: (len(f[1]) == 0, len(f[1])))
    return tot, (fails[0] if fails else None)

# ------------------------------------------------------------------ deductive verification
class Result:
    def __init__(s):
        s.failures = []; s.undecided = {}; s.verified = 0; s.errors = 0; s.fns = []; s.stubs = {}; s.smt_ms = 0; s.raw = ''; s.times = []; s.trusted = []; s.inlined = {}; s.whole = None; s.cmd = ''; s.clauses = 0

def run_verus(path, rlimit, timeout):
    cmd = ['verus', path, '--rlimit', str(rlimit), '--multiple-errors', '8', '--output-json', '--time-expanded', '--num-threads', '8', '--', '--error-format=json']
    rc, o, e = sh(cmd, timeout)
    try: js = json.loads(o)
    except Exception: js = None
    diags = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except Exception: pass
    return rc, js, [d for d in diags if d.get('level') == 'error'], ' '.join(cmd)

def dump(scratch):
    return cxxast.build(REPO, scratch + '/gen', sorted(glob.glob(REPO + '/src/liblevenshtein/*/*.cpp')))

def verify(scratch, pid, p, tier, res, prog):
    xlate.FLAGS.clear(); xlate.FLAGS.update(p.get('flags', []))
    cs, raws = gen.load_contracts()
    missing = [t for t in p['tops'] if t not in cs]
    if missing: raise Exception('contract missing: %s' % missing)
    bad = {}
    for attempt in range(8):
        try:
            cr, tr, closure = gen.build(prog, cs, raws, p['tops'], stubs=set(bad) | set(p.get('stub', {})), only=p.get('stub', {}))
        except Exception as ex:
            res.whole = 'the classes of the program are outside the model: %s: %s' % (type(ex).__name__, ex); return
        for n, why in tr.failed.items():
            if n not in bad and n not in p.get('stub', {}): bad[n] = 'outside the translated subset: %s' % why
        path = scratch + '/' + pid + '.rs'
        open(path, 'w').write(cr.text())
        rc, js, errs, cmd = run_verus(path, p.get('rlimit', 60), min(left() - 60, p.get('vtime', 600)))
        res.cmd = cmd
        if rc is None: res.whole = 'the verifier did not finish in time'; return
        vr = (js or {}).get('verification-results')
        hard = [d for d in errs if d.get('code') or not vr or vr.get('encountered-vir-error')]
        if not vr or vr.get('encountered-vir-error') or (hard and vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0):
            new = {}
            for d in errs:
                for sp in d.get('spans', []):
                    if not sp.get('is_primary'): continue
                    k, n = cr.where(sp['line_start'])
                    if k == 'fn' and n not in bad: new[n] = 'contract does not fit the changed code: ' + d['message'][:200]
            if not new:
                res.whole = 'the translated program is rejected: ' + '; '.join(d['message'][:200] for d in errs[:3]); return
            bad.update(new); continue
        break
    else:
        res.whole = 'too many functions outside the verifiable subset'; return
    res.undecided = bad
    res.verified, res.errors = vr['verified'], vr['errors']
    res.fns = [n for k, n in [(m[2], m[3]) for m in cr.map] if k == 'fn']
    res.stubs = {n: p['stub'][n] for n in p.get('stub', {}) if n in closure}
    res.inlined = {n: sorted(v) for n, v in tr.inlined.items() if v and n in res.fns}
    sm = js['times-ms']['smt']; res.smt_ms = sm.get('smt-run', 0)
    for m in sm.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): res.times.append((f['function'].split('::')[-1], f['time'], f['success']))
    text = cr.text()
    res.clauses = sum(len([x for x in re.split(r',\n', c) if x.strip()]) for n in res.fns for c in (cs[n].requires, cs[n].ensures) if n in cs)
    res.trusted = trusted(cr, tr)
    if re.search(r'\b(admit|assume)\s*\(', text): raise Exception('assume/admit in generated text')
    for d in errs:
        if not d.get('spans'): continue
        prim = [s for s in d['spans'] if s.get('is_primary')] or d['spans']
        fn = None
        for s in prim + d['spans']:
            k, n = cr.where(s['line_start'])
            if k == 'fn': fn = n; break
        kinds = [cr.where(s['line_start']) for s in d['spans']]
        rec = {'fn': fn, 'message': d['message'], 'spans': [{'text': ' '.join(t['text'].strip() for t in s.get('text', []))[:300], 'label': s.get('label'), 'in': cr.where(s['line_start'])[1]} for s in d['spans']], 'rendered': d.get('rendered', '')[:3000]}
        if fn is None:
            res.undecided['(library)'] = 'a library lemma is not accepted: %s %s' % (d['message'], kinds); continue
        if 'rlimit' in d['message'].lower() or 'resource limit' in d['message'].lower():
            res.undecided[fn] = 'the solver gave up (resource limit)'; continue
        if p.get('relevant') and not p['relevant'](rec):
            continue
        res.failures.append(rec)
    res.failures = [f for f in res.failures if f['fn'] not in res.undecided or f['message']]

def trusted(cr, tr):
    t = []
    for a, b, k, n in cr.map:
        if k == 'stub': t.append('contract of %s (body not verified in this check)' % n)
    ext = 0
    for a, b, k, n in cr.map:
        if k in ('model', 'heap', 'specs', 'spec'):
            ext += '\n'.join(cr.lines[a - 1:b]).count('external_body')
    t.append('%d external_body specifications of std containers, strings, heap cells, locks and MurmurHash (model/std.rs and the generated heap accessors)' % ext)
    return t

def vacuity(scratch, pid, p, prog, res):
    """every verified function with a contract must fail when assert(false) is added at its start (contradictory preconditions would hide everything)"""
    xlate.FLAGS.clear(); xlate.FLAGS.update(p.get('flags', []))
    cs, raws = gen.load_contracts()
    for n in cs:
        if cs[n].client is not None: cs[n].client = cs[n].client.replace('\n{\n', '\n{\nassert(false);\n', 1)
        else: cs[n].hooks['entry'] = 'assert(false);\n' + cs[n].hooks.get('entry', '')
    cr, tr, closure = gen.build(prog, cs, raws, p['tops'], stubs=set(res.undecided) | set(p.get('stub', {})), only=p.get('stub', {}))
    path = scratch + '/vac.rs'; open(path, 'w').write(cr.text())
    rc, js, errs, cmd = run_verus(path, 20, min(left() - 30, 400))
    if not js or 'verification-results' not in js: return None
    failed = set()
    for d in errs:
        for s in d.get('spans', []):
            k, n = cr.where(s['line_start'])
            if k == 'fn': failed.add(n)
    return sorted(set(res.fns) - failed)

# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]; p = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='vc-%s-' % pid)
    try: return decide(pid, p, tier, seed, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, p, tier, seed, scratch):
    global BUDGET
    if tier == 'thorough': BUDGET = 3500
    res = Result(); flavour = p['build']
    protoc(scratch)
    pool = ThreadPoolExecutor(2)
    fdrv = pool.submit(build_driver, scratch, flavour)
    prog = None
    try: prog = dump(scratch)
    except Exception as ex: res.whole = 'clang rejects the program or the extraction failed: %s' % str(ex)[:300]
    if prog is not None: verify(scratch, pid, p, tier, res, prog)
    driver = fdrv.result()
    vac = None
    if tier == 'thorough' and prog is not None and not res.whole and not res.failures: vac = vacuity(scratch, pid, p, prog, res)
    hurt = bool(res.failures) or bool(res.undecided) or bool(res.whole)
    secs = (p.get('secs', 12) if tier == 'quick' else 180)
    seeds = [seed * 100 + i for i in range(max(1, 8 // len(p['modes'])))]
    cases, fail = search(scratch, flavour, driver, p['modes'], secs, seeds, 0)
    if not fail and hurt:
        c2, fail = search(scratch, flavour, driver, p['modes'], min(150 if tier == 'quick' else 600, max(20, left() - 200)), [s + 50 for s in seeds], 1)
        cases += c2
    if not fail and res.failures and p.get('others'):
        c3, f3 = search(scratch, flavour, driver, p['others'], 40 if tier == 'quick' else 120, seeds[:2], 1)
        if f3 and cases >= 2000:
            log('  obligations fail, but the failing input found breaks another property and none was found (%d tried) for this one: %s' % (cases, f3[0][:300]))
            for r in res.failures: res.undecided[r['fn']] = 'its contract, which says more than this property needs, no longer holds: %s' % r['message']
            res.failures = []
    wall = time.time() - T0
    log('%s: %d functions under contract, %d verified items, %d failed obligations, %d undecided, solver %.1f s; %d concrete cases; %.0f s' % (pid, len(res.fns), res.verified, len(res.failures), len(res.undecided) + bool(res.whole), res.smt_ms / 1000, cases, wall))
    if res.whole: log('  undecided by proof: ' + res.whole)
    for n, w in res.undecided.items(): log('  undecided by proof: %s: %s' % (n, w))
    if vac: log('  contracts with contradictory preconditions: %s' % vac); raise Exception('vacuous contract')
    rc = 0; replay = None
    if fail or res.failures:
        os.makedirs(VERIF + '/replays', exist_ok=True)
        replay = VERIF + '/replays/%s.txt' % pid
        with open(replay, 'w') as f:
            f.write('# property %s  (replay: bash bin/replay.sh %s)\n' % (pid, replay))
            for r in res.failures:
                f.write('# failed obligation in %s: %s\n' % (r['fn'], r['message']))
                for s in r['spans']: f.write('#    %s  %s   [%s]\n' % (s['label'] or '', s['text'], s['in']))
            if fail:
                f.write('# failing input: %s\n' % fail[0])
                for l in fail[2].split('\n'): f.write('# | %s\n' % l)
                if fail[1]: f.write(fail[1] + '\n')
            for r in res.failures:
                for l in r['rendered'].split('\n'): f.write('# %s\n' % l)
        for r in res.failures[:6]: log('  failed obligation in %s: %s: %s' % (r['fn'], r['message'], ' / '.join(s['text'][:120] for s in r['spans'][:2])))
        if fail: log('  failing input: ' + fail[0][:600])
        log('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if fail else ' no-failing-input-found'))
        rc = 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - T0, 1), 'violations': rc,
          'coverage': {
              'obligations': res.verified + res.errors, 'discharged': res.verified, 'checker_cmd': res.cmd or 'verus', 'trusted_base': res.trusted,
              'functions_under_contract': res.fns, 'contract_clauses': res.clauses, 'inlined_without_contract': res.inlined, 'used_by_contract_only': res.stubs,
              'back_end': 'Verus 0.2026.09.13 / Z3', 'solver_ms': res.smt_ms, 'slowest': sorted(res.times, key=lambda t: -t[1])[:8],
              'undecided_by_proof_bounded_instead': dict(res.undecided, **({'*': res.whole} if res.whole else {})),
              'bounded_concrete_cases': cases, 'bounded_modes': [list(m) for m in p['modes']], 'bounded_note': 'concrete search against the compiled library, bounded; never counted as proved',
              'vacuity_checked': (vac == []), 'failed_obligations': [{'fn': r['fn'], 'message': r['message']} for r in res.failures]},
          'assumptions': ASSUME + p.get('assume', [])}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    for l in open(VERIF + '/known_findings.txt'):
        if l.startswith('KNOWN property=%s ' % pid): log('KNOWN-FINDING: ' + l[6:].strip())
    return rc

ASSUME = ['the clang AST to Verus translation in /verif/extract preserves the meaning of the supported C++ subset',
          'std containers, strings, streams, locks and MurmurHash64A behave as specified in /verif/model/std.rs',
          'memory never runs out and no exception is thrown',
          'strings and counters stay below the bounds named in the preconditions (MAXLEN); stack depth is unbounded']

if __name__ == '__main__':
    sys.exit(main())
