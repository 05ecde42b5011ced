"""Mechanical C++ -> Verus translation of the function bodies found by cxxast.

Every statement and expression of a translated body is rendered; a construct outside the supported
subset raises Unsupported for that function (which is then reported as not decided by proof).
What is dropped or abstracted is listed in DESIGN.md ("What the extraction drops").
"""
import copy, re
from cxxast import Unsupported, ptype, strip_ref, tyname, short

RUST_KW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try hp int nat open closed spec proof exec ghost tracked old forall exists choose assert assume invariant decreases requires ensures is matches has result'.split())

DEBUG = False

def san(n):
    n = re.sub(r'\W', '_', n)
    return n + '_' if n in RUST_KW else n

STD_DEFAULT = {'str': 'str_new()', 'vec': 'vec_new()', 'queue': 'queue_new()', 'stack': 'stack_new()', 'map': 'map_new()', 'umap': 'map_new()',
               'set': 'set_new()', 'uset': 'set_new()', 'stream': 'str_new()'}

class Contract:
    def __init__(s, name):
        s.name = name; s.params = None; s.ret = None; s.requires = ''; s.ensures = ''; s.decreases = ''; s.loops = {}; s.hooks = {}
        s.prologue = ''; s.attrs = ''; s.file = None; s.sig = {}; s.opts = set(); s.loop_attrs = {}; s.props = None; s.client = None

FLAGS = set()
def select(lines):
    """@if FLAG / @else / @endif: variants of a contract (sequential or concurrent reading of the lock)"""
    out = []; on = [True]
    for l in lines:
        t = l.strip()
        if t.startswith('@if '): on.append(t[4:].strip() in FLAGS)
        elif t == '@else': on[-1] = not on[-1]
        elif t == '@endif': on.pop()
        elif all(on): out.append(l)
    return out

def parse_contracts(path):
    """contract file format: see DESIGN.md"""
    out = {}; meta = {'heap': [], 'use': [], 'raw': ''}
    cur = None; sect = None; buf = []
    def flush():
        nonlocal buf, sect
        t = '\n'.join(buf).rstrip(); buf = []
        if cur is None or sect is None: return
        if sect[0] in ('requires', 'ensures', 'decreases'):
            setattr(cur, sect[0], (getattr(cur, sect[0]) + '\n' + t).strip())
        elif sect[0] == 'loop':
            cur.loops[sect[1]] = (cur.loops.get(sect[1], '') + '\n' + t)
        elif sect[0] == 'at':
            cur.hooks[sect[1]] = cur.hooks.get(sect[1], '') + t + '\n'
    lines = select(open(path).read().split('\n'))
    i = 0
    raw = False
    while i < len(lines):
        ln = lines[i]; i += 1
        if raw:
            if ln.strip() == '@endraw': raw = False
            else: meta['raw'] += ln + '\n'
            continue
        if ln.strip() == '@raw': raw = True; continue
        mc = re.match(r'^@client (\w+)(?:\s+with\s+(.*))?$', ln)
        if mc:   # a program that uses functions under contract: its own contract is the theorem
            flush(); sect = None
            t = ''
            while lines[i].strip() != '@endclient': t += lines[i] + '\n'; i += 1
            i += 1
            cur = Contract(mc.group(1)); cur.file = path; cur.client = t; out[cur.name] = cur; cur = None; continue
        mc = re.match(r'^@clients (\w+)\s*=\s*(\w+)\s+with\s+(.*)$', ln)
        if mc:
            t = out[mc.group(2)].client
            for q in (mc.group(3) + ';;' + mc.group(2) + ':=' + mc.group(1)).split(';;'):
                a, b = q.split(':=', 1); t = re.sub(r'\b' + re.escape(a.strip()) + r'\b', b.strip(), t)
            c = Contract(mc.group(1)); c.file = path; c.client = t; out[c.name] = c; continue
        m = re.match(r'^@(\w+)\s*(.*)$', ln)
        if not m:
            if not ln.strip().startswith('//!'): buf.append(ln)
            continue
        k, rest = m.group(1), m.group(2).strip()
        flush(); sect = None
        if k == 'heap': meta['heap'] += rest.split()
        elif k == 'use': meta['use'] += rest.split()
        elif k == 'broadcast': meta['broadcast'] = rest
        elif k == 'fn':
            mm = re.match(r'^(\w+)\s*\(([^)]*)\)\s*(?:->\s*(\w+))?\s*$', rest)
            if not mm: raise Exception('bad @fn ' + rest + ' in ' + path)
            cur = Contract(mm.group(1)); cur.file = path
            cur.params = [x.strip() for x in mm.group(2).split(',') if x.strip()]
            cur.ret = mm.group(3) or 'r'
            cur.prologue = 'broadcast use {%s};\n' % meta['broadcast'] if meta.get('broadcast') else ''
            out[cur.name] = cur
        elif k == 'same':
            # @same NEW = OLD with A:=B, C:=D   textual instantiation of a contract for another template instance
            mm = re.match(r'^(\w+)\s*=\s*(\w+)(?:\s+with\s+(.*))?$', rest)
            import copy
            src = out[mm.group(2)]; c = copy.deepcopy(src); c.name = mm.group(1)
            subs = []
            for p in (mm.group(3) or '').split(';;'):
                if ':=' in p:
                    a, b = p.split(':=', 1); subs.append((a.strip(), b.strip()))
            def sb(t):
                for a, b in subs: t = re.sub(r'\b' + re.escape(a) + r'\b', b, t)
                return t
            c.requires, c.ensures, c.decreases = sb(c.requires), sb(c.ensures), sb(c.decreases)
            c.loops = {a: sb(b) for a, b in c.loops.items()}; c.hooks = {sb(a): sb(b) for a, b in c.hooks.items()}
            out[c.name] = c; cur = c
        elif k in ('requires', 'ensures', 'decreases'):
            sect = (k,)
            if rest: buf.append(rest)
        elif k == 'loop':
            sect = ('loop', int(rest))
        elif k == 'loopattr':
            a, b = rest.split(None, 1); cur.loop_attrs[int(a)] = b
        elif k == 'at':
            sect = ('at', rest)
        elif k == 'hide': cur.prologue = ''.join('hide(%s); ' % x.strip() for x in rest.split(',')) + '\n' + cur.prologue
        elif k == 'attr': cur.attrs += rest + '\n'
        elif k == 'opt': cur.opts |= set(rest.split())
        elif k == 'props': cur.props = rest.split()
        elif k == 'end': cur = None
        else: raise Exception('unknown directive @%s in %s' % (k, path))
    flush()
    return out, meta

def s_safe(f):
    try: return f()
    except Exception: return None

class V:
    """a translated expression: Rust code and C++ type"""
    def __init__(s, code, ty, mut=False):
        s.code, s.ty, s.mut = code, ty, mut

SIMPLE = re.compile(r'^(\*?\w+|\w+ as \w+|\d+\w*)$')

class LV:
    """lvalue"""
    def __init__(s, get, set, ty, kind='', ref=None, guard=None, pre=''):
        s.get, s.set, s.ty, s.kind, s.ref, s.guard, s.pre = get, set, ty, kind, ref, guard, pre

class Tr:
    def __init__(s, prog, contracts, cfg):
        s.prog, s.contracts, s.cfg = prog, contracts, cfg
        s.value_classes = set(cfg['value_classes'])
        s.guards = {}       # (root, field) -> mutex field that has to be held to touch the field
        if 'seq' not in FLAGS:
            for c in list(prog.classes):
                if c in cfg['value_classes'] or s_safe(lambda: s.root(c)) != c: continue
                fs = s_safe(lambda: s.all_fields(c)) or []
                mx = [f for f, ty, dc in fs if ty[0] == 'mutex']
                if len(mx) == 1:
                    for f, ty, dc in fs:
                        if f != mx[0]: s.guards[(c, f)] = mx[0]
        s.fnenums = {}                         # enum -> ordered variants
        for e, vs in cfg.get('fn_enums', {}).items(): s.fnenums[e] = list(vs)
        s.used_classes = []
        s.out = {}; s.failed = {}
        s.callees = {}                         # fn -> contracts used
        s.locals = {}                          # fn -> [(name, type)]
        s.inlined = {}                         # fn -> set of inlined functions
        s.loopcount = {}
        s.nodes_needed = set()
    # ---- classes
    def root(s, c):
        while s.prog.classes.get(c) and s.prog.classes[c].bases: c = s.prog.classes[c].bases[0]
        return c
    def family(s, root):
        return [c for c in sorted(s.prog.classes) if s.root(c) == root]
    def all_fields(s, root):
        """fields of the hierarchy: [(name, type, declaring class)]"""
        out = []
        order = sorted(s.family(root), key=lambda c: (s.depth(c), c))
        for c in order:
            for f, t in s.prog.classes[c].fields: out.append((f, t, c))
        return out
    def depth(s, c):
        d = 0
        while s.prog.classes.get(c) and s.prog.classes[c].bases: c = s.prog.classes[c].bases[0]; d += 1
        return d
    def is_heap(s, c): return c in s.prog.classes and c not in s.value_classes and not c.startswith('hash__')
    def is_value(s, c): return c in s.value_classes
    def tag(s, c):
        fam = s.cfg['tags'].get(s.root(c))
        if fam is None: return None
        if c not in fam: raise Unsupported('new class in a hierarchy: ' + c)
        return fam[c]
    # ---- types
    def fnenum(s, sig):
        key = sigkey(sig)
        nm = s.cfg['fn_types'].get(key)
        if nm is None: raise Unsupported('function type ' + key)
        return nm
    def rt(s, t):
        k = t[0]
        if k in ('ref', 'rref'): return s.rt(t[1])
        if k == 'int': return t[1]
        if k == 'bool' or k == 'bitref': return 'bool'
        if k == 'void': return '()'
        if k in ('ptr',):
            if t[1][0] == 'int' and t[1][1] == 'i8': return 'Str'
            return 'Addr'
        if k in ('str', 'stream'): return 'Str'
        if k in ('vec', 'ilist', 'list', 'array', 'carr'): return 'CVec<%s>' % s.rt(t[1])
        if k == 'queue': return 'CQueue<%s>' % s.rt(t[1])
        if k == 'stack': return 'CStack<%s>' % s.rt(t[1])
        if k == 'umap' and t[1][0] == 'cls' and s.is_heap(t[1][1]): return s.root(t[1][1]) + '_map'
        if k in ('map', 'umap'): return 'CMap<%s, %s>' % (s.rtk(t[1]), s.rt(t[2]))
        if k in ('set', 'uset'): return 'CSet<%s>' % s.rt(t[1])
        if k == 'pair': return '(%s, %s)' % (s.rtk(t[1]), s.rt(t[2]))
        if k == 'fn': return s.fnenum(t[1])
        if k == 'mutex': return 'u64'
        if k == 'iter':
            if t[1][0] == 'pair' and t[2] in ('tree', 'hash'): return 'FIter<%s, %s>' % (s.rtk(t[1][1]), s.rt(t[1][2]))
            return 'SIter<%s>' % s.rt(t[1])
        if k == 'cls':
            if s.is_value(t[1]): return t[1] + '_o'
            if s.is_heap(t[1]): return 'Addr'
            if t[1] in s.cfg.get('ext_types', {}): return s.cfg['ext_types'][t[1]]
        raise Unsupported('type %s' % (t,))
    def rtk(s, t):
        if t[0] == 'cls' and s.is_heap(t[1]): return s.root(t[1]) + '_o'
        return s.rt(t)
    def default(s, t):
        k = t[0]
        if k == 'umap' and t[1][0] == 'cls' and s.is_heap(t[1][1]): return s.root(t[1][1]) + '_map_new()'
        if k == 'map' and t[1][0] == 'cls' and s.is_heap(t[1][1]): raise Unsupported('ordered map with object keys')
        if k in STD_DEFAULT: return STD_DEFAULT[k]
        if k == 'pair': return '(%s, %s)' % (s.default(t[1]), s.default(t[2]))
        if k == 'fn': return s.fnenum(t[1]) + '::Empty'
        if k == 'mutex': return '0u64'
        return 'havoc::<%s>()' % s.rt(t)
    # ---- function translation
    def translate(s, name):
        if name in s.out or name in s.failed: return
        f = s.prog.funcs.get(name)
        c = s.contracts[name]
        if c.client is not None:
            s.out[name] = c.client; s.callees[name] = set(w for w in re.findall(r'\w+', c.client) if w in s.contracts and w != name); s.inlined[name] = set(); return
        if f is None:
            if name in s.cfg.get('dispatch', {}):
                s.out[name] = s.dispatch(name); return
            if name.endswith('__ctor_0') and name[:-8] in s.prog.classes:
                try: s.out[name] = s.implicit_ctor(name, name[:-8], c); return
                except Unsupported as e: s.failed[name] = str(e); s.out[name] = None; return
            s.failed[name] = 'function not found in the current sources'
            s.out[name] = None
            return
        try:
            ctx = Ctx(s, f, c)
            s.out[name] = ctx.function()
        except Unsupported as e:
            s.failed[name] = str(e); s.out[name] = None
        except Exception as e:
            if DEBUG: raise
            s.failed[name] = 'translator: %s: %s' % (type(e).__name__, e); s.out[name] = None
    def base_ctor(s, cls, n):
        """the inherited constructor an implicit one with n arguments runs"""
        bases = s.prog.classes[cls].bases; bf = None
        if bases:
            for nm, g in s.prog.funcs.items():
                if g.cls == bases[0] and g.kind == 'CXXConstructorDecl' and len(g.params) == n: bf = g
        return bf
    def implicit_ctor(s, name, cls, c):
        """a default constructor the compiler supplies"""
        bf = s.base_ctor(cls, 0)
        if bf is None: raise Unsupported('constructor of ' + cls)
        g = copy.copy(bf); g.name = name
        ctx = Ctx(s, g, c)
        v = ctx.inline_ctor(cls, None, bf, [])
        s.inlined[name].add(bf.name)
        return render_fn(name, 'hp: &mut Heap', 'Addr' if not s.is_value(cls) else cls + '_o', c, v.code if hasattr(v, 'code') else str(v))
    def stub_text(s, name):
        f = s.prog.funcs.get(name); c = s.contracts.get(name)
        if f is None or c is None: return None
        try:
            return Ctx(s, f, c).function(sigonly=True)
        except Unsupported:
            return None
    def dispatch(s, name):
        """verified dispatcher of a defunctionalised std::function"""
        d = s.cfg['dispatch'][name]; c = s.contracts[name]
        enum = d['enum']; args = d['args']; ps = c.params
        sig = 'hp: &mut Heap, %s: %s, ' % (ps[0], enum) + ', '.join('%s: %s' % (ps[i + 1], t) for i, t in enumerate(args))
        ret = d.get('ret')
        arms = []
        s.callees.setdefault(name, set())
        for v in s.fnenums[enum]:
            if v in d.get('objects', {}):
                fn = d['objects'][v]; s.callees[name].add(fn)
                arms.append('%s::%s(o) => %s(hp, o, %s),' % (enum, v, fn, ', '.join(ps[1:])))
            else:
                fn = v; s.callees[name].add(fn)
                if fn not in s.contracts: arms.append('%s::%s => { no_contract(); unreached() },' % (enum, v)); continue
                arms.append('%s::%s => %s(hp, %s),' % (enum, v, fn, ', '.join(ps[1:])))
        arms.append('%s::Empty => { call_of_empty_function(); unreached() },' % enum)
        body = '    match %s {\n        %s\n    }' % (ps[0], '\n        '.join(arms))
        return render_fn(name, sig, ret, c, body)

def sigkey(sig):
    def n(t):
        t = t
        if t[0] in ('ref', 'rref'): return n(t[1])
        if t[0] == 'ptr': return n(t[1]) + '*'
        if t[0] == 'func': return n(t[1]) + '(' + ','.join(n(a) for a in t[2]) + ')'
        return tyname(t)
    return n(sig)

def render_fn(name, sig, ret, c, body, external=False):
    t = c.attrs
    if external: t += '#[verifier::external_body]\n'
    t += 'pub fn %s(%s)' % (name, sig)
    if ret and ret != '()': t += ' -> (%s: %s)' % (c.ret, ret)
    t += '\n'
    if c.requires: t += '    requires\n        ' + c.requires.strip().rstrip(',') + ',\n'
    if c.ensures: t += '    ensures\n        ' + c.ensures.strip().rstrip(',') + ',\n'
    if c.decreases: t += '    decreases ' + c.decreases.strip().rstrip(',') + '\n'
    t += '{\n' + (body if not external else '    unimplemented!()') + '\n}\n'
    return t

class Scope:
    def __init__(s): s.items = []

class Ctx:
    def __init__(s, tr, f, c):
        s.moved = set()
        s.tr, s.f, s.c, s.prog = tr, f, c, tr.prog
        s.tu = f.tu; s.env = {}; s.tmp = 0; s.loopn = 0; s.this = None
        s.scopes = []; s.frames = [0]; s.depth = 0; s.ret = ('fn',)
        s.localnames = []; s.loopscopes = []; s.rename = None
        s.istack = [f.name]
        s.callee_set = tr.callees.setdefault(f.name, set())
        s.inl = tr.inlined.setdefault(f.name, set())
    def fresh(s, p='__t'):
        s.tmp += 1; return '%s%d' % (p, s.tmp)
    # ---------------------------------------------------------------- function
    def function(s, sigonly=False):
        f, c, tr = s.f, s.c, s.tr
        ps = list(c.params); sig = ['hp: &mut Heap']; pre = ''
        isctor = f.kind == 'CXXConstructorDecl'
        if f.cls and not f.cls.startswith('hash__') and not f.static:
            if tr.is_value(f.cls):
                if isctor: pass
                else:
                    nm = ps.pop(0); sig.append('%s: %s_o' % (nm, f.cls)); s.this = (nm, f.cls, True)
            else:
                if isctor: pass
                else:
                    nm = ps.pop(0); sig.append('%s: Addr' % nm); s.this = (nm, f.cls, False)
        if len(ps) != len(f.params): raise Unsupported('parameter count of %s changed' % f.name)
        for nm, p in zip(ps, f.params):
            t = ptype(p['type']); rt = None
            if s.byref(f, p):
                sig.append('%s: &mut %s' % (nm, tr.rt(t))); s.env[p['id']] = ('mutref', nm, strip_ref(t))
            else:
                assigned = mutated_var(f.body, p['id']) or any(mutated_var(i, p['id']) for i in f.inits)
                sig.append('%s: %s' % (nm, tr.rt(t)))
                s.env[p['id']] = ('var', nm, strip_ref(t))
                if assigned: pre += '    let mut %s = %s;\n' % (nm, nm)
        ret = None
        if isctor:
            ret = (f.cls + '_o') if tr.is_value(f.cls) else 'Addr'
        elif f.kind != 'CXXDestructorDecl':
            t = func_rtype(f)
            if t[0] == 'ref' and t[1][0] == 'stream': ret = None
            elif t[0] == 'ref' and t[1] == ('cls', f.cls): ret = 'Addr'
            elif t[0] != 'void': ret = tr.rt(t)
        s.retty = ret
        if sigonly: return render_fn(f.name, ', '.join(sig), ret, c, '', external=True)
        s.scopes = [Scope()]
        body = s.c.prologue + pre + s.hook('entry')
        if isctor:
            body += s.ctor_body(f, {}, 'this_', final=True)
        else:
            body += s.stmts(f.body.get('inner', []))
            if f.kind == 'CXXDestructorDecl':
                body += s.base_dtor(f, s.this[0])
            if not self_terminates(f.body):
                body += s.exit_scopes(0)
                if ret is None: body += s.hook('return')
        tr.locals[f.name] = s.localnames
        tr.loopcount[f.name] = s.loopn
        miss = [k for k in c.loops if k >= s.loopn]
        if miss or (s.loopn > 0 and any(k not in c.loops for k in range(s.loopn)) and 'loopsok' not in c.opts):
            raise Unsupported('loops of %s changed: contract has %s, code has %d' % (f.name, sorted(c.loops), s.loopn))
        return render_fn(f.name, ', '.join(sig), ret, c, body)
    def hook(s, where):
        if s.ret[0] != 'fn' and where in ('entry', 'return'): return ''
        t = s.c.hooks.get(where)
        return ('\n' + t + '\n') if t else ''
    def byref(s, f, p):
        q = p['type'].get('qualType', ''); t = ptype(p['type'])
        if t[0] != 'ref': return False
        if t[1][0] == 'cls' and s.tr.is_heap(t[1][1]): return False
        if t[1][0] == 'fn': return False
        if q.strip().startswith('const') or ' const &' in q or s_const(p): return False
        return s.mutates(f, p['id'])
    def mutates(s, f, pid, seen=None):
        seen = seen or set()
        if (f.name, pid) in seen: return False
        seen.add((f.name, pid))
        return mut_ref(s, f, f.body, pid, seen)
    # ---------------------------------------------------------------- constructors
    def base_dtor(s, f, this):
        code = ''
        cl = s.prog.classes.get(f.cls)
        for b in cl.bases:
            d = b + '__dtor_0'
            if d in s.prog.funcs:
                code += s.call_named(d, V(this, ('ptr', ('cls', b))), []).code + ';\n'
        return code
    def record(s, f, cls, env_args):
        """evaluates member initialisers; returns (pre-statements, {field: code})"""
        vals = {}; pre = ''
        cl = s.prog.classes[cls]
        inits = {}
        basec = None
        for i in (f.inits if f else []):
            if 'anyInit' in i:
                if i['inner'][0]['kind'] != 'CXXDefaultInitExpr': inits[i['anyInit']['name']] = i['inner'][0]
            elif 'baseInit' in i: basec = i['inner'][0]
            else: raise Unsupported('constructor initialiser')
        for fld, t in cl.fields:
            if fld in inits:
                v = s.expr(inits[fld], want=t)
                code = v.code
            elif fld in cl.finit:
                tu0 = s.tu; s.tu = cl.finit[fld][0]
                code = s.expr(cl.finit[fld][1], want=t).code
                s.tu = tu0
            else:
                if t[0] == 'cls' and s.tr.is_value(t[1]): raise Unsupported('default member ' + fld)
                code = 'uninit()' if t[0] in ('int', 'bool', 'ptr', 'char') else s.tr.default(t)
            n = s.fresh('__f')
            pre += 'let %s: %s = %s;\n' % (n, s.tr.rt(t), code)
            vals[fld] = n
        return pre, vals
    def ctor_body(s, f, _, thisname, final):
        """body of a constructor function: allocate with initialisers, run the body, return the object"""
        cls = f.cls; tr = s.tr
        pre, vals = s.record(f, cls, None)
        code = pre
        if tr.is_value(cls):
            code += 'let mut %s = %s_o { %s };\n' % (thisname, cls, ', '.join('%s: %s' % kv for kv in vals.items()))
            s.this = (thisname, cls, True); s.thismut = True
        else:
            code += 'let %s = hp.%s_new(%s);\n' % (thisname, tr.root(cls), s.objlit(cls, vals))
            s.this = (thisname, cls, False)
        s.scopes.append(Scope())
        code += s.stmts((f.body or {}).get('inner', []))
        code += s.pop_scope()
        code += s.hook('return') if final else ''
        code += thisname
        return code
    def objlit(s, cls, vals):
        root = s.tr.root(cls)
        parts = []
        for fld, t, dc in s.tr.all_fields(root):
            if fld in vals: parts.append('%s: %s' % (fld, vals[fld]))
            else: parts.append('%s: %s' % (fld, s.tr.default(t)))
        tag = s.tr.tag(cls)
        if tag is not None: parts.append('cls_tag: %du64' % tag)
        return '%s_o { %s }' % (root, ', '.join(parts))
    def construct(s, cls, ctorname, args):
        """construct an object; returns V of address (heap) or record (value)"""
        tr = s.tr
        f = s.prog.funcs.get(ctorname) if ctorname else None
        if ctorname and ctorname in tr.contracts:
            s.callee_set.add(ctorname)
            return s.emit_call(ctorname, f, None, args)
        if f is None:
            # implicit default constructor, inherited constructor, or copy
            if len(args) == 1 and strip_ref(args[0].ty) == ('cls', cls) and tr.is_value(cls): return args[0]
            bf = tr.base_ctor(cls, len(args))
            if not args and cls + '__ctor_0' in tr.contracts and s.f.name != cls + '__ctor_0':
                s.callee_set.add(cls + '__ctor_0')
                return V('%s__ctor_0(hp)' % cls, ('ptr', ('cls', cls)) if not tr.is_value(cls) else ('cls', cls), True)
            if bf is None and args: raise Unsupported('constructor of ' + cls)
            return s.inline_ctor(cls, None, bf, args)
        return s.inline_ctor(cls, f, None, args)
    def inline_ctor(s, cls, f, bf, args):
        tr = s.tr
        if len(s.istack) > 14: raise Unsupported('inlining depth')
        code = '{\n'
        g = f or bf
        sv = s.save()
        if g is not None:
            s.istack = s.istack + [g.name]; s.inl.add(g.name)
            code += s.bind_params(g, args)
            s.tu = g.tu
        s.this = None
        vals = {}
        if bf is not None:
            p, v = s.record(bf, bf.cls, None); code += p; vals.update(v)
            p, v = s.record(None, cls, None); code += p; vals.update(v)
        else:
            p, v = s.record(f, cls, None); code += p; vals.update(v)
        th = s.fresh('__o')
        if tr.is_value(cls):
            code += 'let mut %s = %s_o { %s };\n' % (th, cls, ', '.join('%s: %s' % kv for kv in vals.items()))
            s.this = (th, cls, True)
        else:
            code += 'let %s = hp.%s_new(%s);\n' % (th, tr.root(cls), s.objlit(cls, vals))
            s.this = (th, cls, False)
        s.ret = ('none',)
        s.scopes.append(Scope())
        for gg in (bf, f):
            if gg is not None and gg.body:
                if has_return(gg.body): raise Unsupported('return in constructor')
                code += s.stmts(gg.body.get('inner', []))
        code += s.pop_scope()
        s.restore(sv)
        code += th + '\n}'
        return V(code, ('ptr', ('cls', cls)) if not tr.is_value(cls) else ('cls', cls), True)
    def save(s):
        return (s.this, s.tu, s.ret, s.istack, dict(s.env), s.scopes, s.loopscopes)
    def restore(s, sv):
        s.this, s.tu, s.ret, s.istack, s.env, s.scopes, s.loopscopes = sv
    # ---------------------------------------------------------------- scopes
    def pop_scope(s):
        sc = s.scopes.pop()
        return s.scope_code(sc)
    def scope_code(s, sc):
        return ''.join(reversed(sc.items))
    def exit_scopes(s, upto):
        return ''.join(s.scope_code(sc) for sc in reversed(s.scopes[upto:]))
    # ---------------------------------------------------------------- statements
    def stmts(s, lst):
        return ''.join(s.stmt(x) for x in lst)
    def block(s, n):
        """statement as a Rust block body with its own scope"""
        s.scopes.append(Scope())
        lst = n.get('inner', []) if n.get('kind') == 'CompoundStmt' else [n]
        code = s.stmts(lst)
        if lst and terminates(lst[-1]): s.scopes.pop()
        else: code += s.pop_scope()
        return code
    def stmt(s, n):
        k = n.get('kind')
        m = getattr(s, 'st_' + k, None)
        if m: return m(n)
        # expression statement
        v = s.expr(n, discard=True)
        if v is None or v.code in ('', '()'): return ''
        return v.code + ';\n'
    def st_NullStmt(s, n): return ''
    def st_CompoundStmt(s, n): return '{\n' + s.block(n) + '}\n'
    def st_AttributedStmt(s, n): return s.stmt(n['inner'][-1])
    def st_DeclStmt(s, n):
        return ''.join(s.vardecl(d) for d in n.get('inner', []))
    def vardecl(s, d):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'NamespaceAliasDecl'): return ''
        if d['kind'] != 'VarDecl': raise Unsupported('declaration ' + d['kind'])
        if d.get('storageClass') == 'static': raise Unsupported('static local')
        t0 = ptype(d['type']); t = strip_ref(t0)
        init = next((c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr') and c['kind'] != 'FullComment'), None)
        nm = s.local_name(d)
        tr = s.tr
        if t[0] == 'lock':
            return s.lock(d, t, init, nm)
        if t[0] == 'lambda':
            lam = find_kind(init, 'LambdaExpr')
            s.env[d['id']] = ('lambda', lam, dict(s.env), s.this, s.tu); return ''
        if t[0] == 'fn':
            lam = find_kind(init, 'LambdaExpr') if init else None
            if lam is not None:
                s.env[d['id']] = ('lambda', lam, dict(s.env), s.this, s.tu); return ''
        if t0[0] in ('ref', 'rref') and init is not None:
            if t[0] == 'cls' and tr.is_heap(t[1]):
                v = s.expr(init); s.env[d['id']] = ('var', nm, t)
                return 'let %s: Addr = %s;\n' % (nm, v.code)
            if not s_const(d) and t0[0] == 'ref':
                lv = s.lvalue(init)
                s.env[d['id']] = ('alias', lv); return ''
        if t[0] == 'cls' and tr.is_heap(t[1]):
            # object with automatic storage: lives in the heap map until the scope ends
            if init is None: raise Unsupported('uninitialised object')
            v = s.expr(init, want=t)
            s.env[d['id']] = ('var', nm, t)
            drop = ''
            if s.prog.classes[t[1]].has_dtor:
                drop += s.destroy(nm, t[1])
            drop += 'hp.%s_free(%s);\n' % (tr.root(t[1]), nm)
            s.scopes[-1].items.append(drop)
            return 'let %s: Addr = %s;\n' % (nm, v.code)
        rt = tr.rt(t)
        if init is None:
            code = tr.default(t) if t[0] != 'cls' else 'havoc::<%s>()' % rt
            s.env[d['id']] = ('var', nm, t)
            return 'let mut %s: %s = %s;\n' % (nm, rt, code)
        v = s.expr(init, want=t)
        s.env[d['id']] = ('var', nm, t) if t[0] != 'iter' else ('var', nm, t, getattr(v, 'guard', None))
        return 'let mut %s: %s = %s;\n' % (nm, rt, v.code)
    def local_name(s, d):
        base = san(d.get('name', 'anon'))
        if len(s.istack) > 1:
            # inlined code: locals get a unique suffix unless the contract speaks about that very name
            nm = base + '__i%d' % (s.tmp + 1); s.tmp += 1
            if s.c.opts and ('keep:' + base) in s.c.opts: nm = base
        else:
            nm = base
        m = (s.rename or {}).get(nm)
        if m: nm = m
        s.localnames.append((nm, d['type'].get('qualType', '')))
        return nm
    def destroy(s, addr, cls):
        d = cls + '__dtor_0'
        if d in s.prog.funcs:
            return s.call_named(d, V(addr, ('ptr', ('cls', cls))), []).code + ';\n'
        # implicitly generated: base destructors
        code = ''
        for b in s.prog.classes[cls].bases: code += s.destroy(addr, b)
        return code
    def lock(s, d, t, init, nm):
        mem = find_kind(init, 'MemberExpr') if init else None
        if mem is None: raise Unsupported('lock without mutex')
        arg = [c for c in init.get('inner', []) if c.get('kind')]
        if len(arg) != 1: raise Unsupported('lock options')
        base, cls = s.member_base(mem)
        root = s.tr.root(cls)
        mode = 'shared' if t[1] == 'shared_lock' else 'excl'
        fn = '%s_%s' % (root, mem['name'])
        st = s.fresh('__lk')
        s.env[d['id']] = ('lock', fn, mode, base, st)
        s.scopes[-1].items.append('if %s { %s_unlock_%s(hp, %s); }\n' % (st, fn, mode, base))
        return 'let mut %s: bool = true; %s_lock_%s(hp, %s);\n' % (st, fn, mode, base)
    def st_IfStmt(s, n):
        inner = [c for c in n['inner'] if c]
        pre = ''
        if n.get('hasInit') or n.get('hasVar'):
            s.scopes.append(Scope())
            k = 0
            while inner[k]['kind'] == 'DeclStmt': pre += s.stmt(inner[k]); k += 1
            inner = inner[k:]
        if n.get('isConstexpr'): raise Unsupported('if constexpr')
        c = s.cond(inner[0])
        code = 'if %s {\n%s}' % (c, s.block(inner[1]))
        if len(inner) > 2: code += ' else {\n%s}' % s.block(inner[2])
        code += '\n'
        if pre:
            tail = '' if terminates(n) else s.scope_code(s.scopes[-1])
            s.scopes.pop()
            code = '{\n' + pre + code + tail + '}\n'
        return code
    def cond(s, e):
        v = s.expr(e)
        c = v.code
        if c.startswith('{') : c = '(' + c + ')'
        return c
    def loop_head(s, k):
        t = s.c.loops.get(k, '')
        a = s.c.loop_attrs.get(k, '#[verifier::loop_isolation(false)]')
        return a, t
    def st_WhileStmt(s, n):
        inner = [c for c in n['inner'] if c]
        if len(inner) != 2: raise Unsupported('while with declaration')
        return s.mkloop(inner[0], inner[1], None)
    def mkloop(s, cond, body, inc, pre=''):
        k = s.loopn; s.loopn += 1
        a, inv = s.loop_head(k)
        c = s.cond(cond) if cond is not None else 'true'
        s.loopscopes = s.loopscopes + [(len(s.scopes), inc)]
        b = s.block(body)
        i = s.stmt(inc) if inc is not None else ''
        s.loopscopes = s.loopscopes[:-1]
        return '%s%s\nwhile %s\n%s\n{\n%s%s%s%s};\n%s' % (s.hook('loop %d before' % k), a, c, inv, s.hook('loop %d begin' % k), b, i, s.hook('loop %d end' % k), s.hook('loop %d after' % k))
    def st_DoStmt(s, n):
        body, cond = n['inner'][0], n['inner'][1]
        k = s.loopn; s.loopn += 1
        a, inv = s.loop_head(k)
        s.loopscopes = s.loopscopes + [(len(s.scopes), ('do', cond))]
        b = s.block(body)
        s.loopscopes = s.loopscopes[:-1]
        c = s.cond(cond)
        return '%s%s\nloop\n%s\n{\n%s%s%sif !(%s) { break; }\n%s}\n%s' % (s.hook('loop %d before' % k), a, inv, s.hook('loop %d begin' % k), b, s.hook('loop %d test' % k), c, s.hook('loop %d end' % k), s.hook('loop %d after' % k))
    def st_ForStmt(s, n):
        init, _cv, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        s.scopes.append(Scope())
        code = '{\n'
        if init and init.get('kind'): code += s.stmt(init)
        code += s.mkloop(cond if cond and cond.get('kind') else None, body, inc if inc and inc.get('kind') else None)
        code += s.pop_scope() + '}\n'
        return code
    def st_CXXForRangeStmt(s, n):
        inner = n['inner']
        # [init], range decl, begin decl, end decl, cond, inc, loopvar decl, body
        parts = [c for c in inner if c and c.get('kind')]
        body = parts[-1]; lv = parts[-2]; rng = parts[0]
        if rng['kind'] != 'DeclStmt': raise Unsupported('range-for init')
        rdecl = rng['inner'][0]
        t = strip_ref(ptype(rdecl['type']))
        k = s.loopn
        s.scopes.append(Scope())
        code = '{\n'
        if t[0] == 'cls' and s.tr.is_heap(t[1]):
            # user-defined begin/end: the statements clang synthesised
            code += s.stmt(rng)
            code += s.stmt(parts[1]) + s.stmt(parts[2])
            newbody = {'kind': 'CompoundStmt', 'inner': [lv, body]}
            code += s.mkloop(parts[3], newbody, parts[4])
            code += s.pop_scope() + '}\n'
            return code
        src = s.expr(rdecl['inner'][0])
        s.loopn += 1
        r, ix = '__rng%d' % k, '__idx%d' % k
        code += 'let %s: %s = %s;\nlet mut %s: u64 = 0;\n' % (r, s.tr.rt(t), src.code, ix)
        kind = {'vec': 'vec', 'ilist': 'vec', 'list': 'vec', 'array': 'vec', 'map': 'map', 'umap': 'umap', 'set': 'set', 'uset': 'set'}.get(t[0])
        if kind == 'umap' and t[1][0] == 'cls' and s.tr.is_heap(t[1][1]): kind = None
        if kind is None: raise Unsupported('range-for over %s' % (t,))
        a, inv = s.loop_head(k)
        s.loopscopes = s.loopscopes + [(len(s.scopes), ('raw', '%s = %s + 1;\n' % (ix, ix)))]
        s.scopes.append(Scope())
        b = ''
        vd = lv['inner'][0]
        if kind in ('map', 'umap'): et = ('pair', t[1], t[2])
        else: et = t[1]
        if vd['kind'] == 'DecompositionDecl':
            e = s.fresh('__e')
            b += 'let %s = %s_at(%s, %s);\n' % (e, kind if kind == 'vec' else kind + '_elem', r, ix)
            binds = [x for x in vd['inner'] if x.get('kind') == 'BindingDecl']
            if et[0] != 'pair' or len(binds) != 2: raise Unsupported('structured binding')
            for i, bd in enumerate(binds):
                nm = s.local_name({'name': bd['name'], 'type': {'qualType': '?'}})
                b += 'let %s = %s.%d;\n' % (nm, e, i)
                s.env[bd['id']] = ('var', nm, et[1 + i])
                for x in bd.get('inner', []):
                    if x.get('kind') == 'VarDecl': s.env[x['id']] = ('var', nm, et[1 + i])
        else:
            vt = ptype(vd['type'])
            if vt[0] == 'ref' and not s_const(vd) and mutated_var(body, vd['id']): raise Unsupported('element modified through reference')
            nm = s.local_name(vd)
            b += 'let mut %s: %s = %s_at(%s, %s);\n' % (nm, s.tr.rt(et), kind if kind == 'vec' else kind + '_elem', r, ix)
            s.env[vd['id']] = ('var', nm, et)
        lst = body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]
        b += s.stmts(lst)
        if lst and terminates(lst[-1]): s.scopes.pop(); term = True
        else:
            b += s.pop_scope(); term = False
            if plain_lvalue(rdecl['inner'][0]): b += 'range_same(%s, %s);\n' % (r, s.expr(rdecl['inner'][0]).code)
        s.loopscopes = s.loopscopes[:-1]
        code += '%s%s\nwhile %s < %s_size(%s)\n%s\n{\n%s%s%s%s};\n%s' % (s.hook('loop %d before' % k), a, ix, kind, r, inv, s.hook('loop %d begin' % k), b,
                 '' if term else '%s = %s + 1;\n' % (ix, ix), '' if term else s.hook('loop %d end' % k), s.hook('loop %d after' % k))
        code += s.pop_scope() + '}\n'
        return code
    def st_BreakStmt(s, n):
        if not s.loopscopes: raise Unsupported('break')
        return s.exit_scopes(s.loopscopes[-1][0]) + s.hook('break') + 'break;\n'
    def st_ContinueStmt(s, n):
        if not s.loopscopes: raise Unsupported('continue')
        up, inc = s.loopscopes[-1]
        code = s.exit_scopes(up)
        if isinstance(inc, tuple) and inc[0] == 'raw': code += inc[1]
        elif isinstance(inc, tuple) and inc[0] == 'do': code += 'if !(%s) { break; }\n' % s.cond(inc[1])
        elif inc is not None: code += s.stmt(inc)
        return code + 'continue;\n'
    def st_ReturnStmt(s, n):
        e = [c for c in n.get('inner', []) if c and c.get('kind')]
        mode = s.ret
        if mode[0] == 'fn':
            void = not e or s.retty is None
            code = ''
            if e:
                if s.retty is None:
                    code += s.stmt(e[0])
                    void = True
                else:
                    v = s.expr(e[0], want=func_rtype(s.f))
                    r = '__r'
                    code += 'let %s: %s = %s;\n' % (r, s.retty, v.code)
            code += s.exit_scopes(0)
            if s.f.kind == 'CXXDestructorDecl': code += s.base_dtor(s.f, s.this[0])
            code += s.hook('return')
            return '{\n' + code + ('return;\n' if void else 'return __r;\n') + '}\n'
        if mode[0] == 'flag':
            code = ''
            if e and mode[2]: code += '%s = %s;\n' % (mode[2], s.expr(e[0], want=mode[5]).code)
            elif e: code += s.stmt(e[0])
            code += s.exit_scopes(mode[3])
            code += '%s = true;\n' % mode[1]
            return code + 'break;\n'
        raise Unsupported('return in this position')
    def switch_chain(s, n):
        inner = [c for c in n['inner'] if c]
        if len(inner) != 2: raise Unsupported('switch with declaration')
        v = s.expr(inner[0])
        groups = []   # (labels or None for default, stmts)
        def add(st):
            labels = []; isdef = False
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    if len(st['inner']) != 2: raise Unsupported('case range')
                    labels.append(st['inner'][0]); st = st['inner'][1]
                else:
                    isdef = True; st = st['inner'][0]
            groups.append([labels, isdef, [st]])
        for st in inner[1].get('inner', []):
            if st['kind'] in ('CaseStmt', 'DefaultStmt'): add(st)
            else:
                if not groups: raise Unsupported('switch body')
                groups[-1][2].append(st)
        out = []
        for gi, (labels, isdef, sts) in enumerate(groups):
            flat = []
            for x in sts:
                if x['kind'] == 'CompoundStmt' and len(sts) == 1: flat += x.get('inner', [])
                elif x['kind'] == 'CompoundStmt' and len(sts) == 2 and sts[1]['kind'] == 'BreakStmt': flat += x.get('inner', [])
                else: flat.append(x)
            if flat and flat[-1]['kind'] == 'BreakStmt': flat = flat[:-1]
            elif gi < len(groups) - 1 and not (flat and terminates(flat[-1])): raise Unsupported('fallthrough')
            if any(has_break(x) for x in flat): raise Unsupported('break inside switch branch')
            if isdef and gi != len(groups) - 1: 
                pass
            out.append((labels, isdef, flat))
        return v, out
    def st_SwitchStmt(s, n):
        v, groups = s.switch_chain(n)
        sv = s.fresh('__sw')
        code = '{\nlet %s = %s;\n' % (sv, v.code)
        dflt = None; first = True
        for labels, isdef, sts in groups:
            if isdef:
                dflt = sts; continue
            cs = ' || '.join('%s == %s' % (sv, paren(s.expr(l).code)) for l in labels)
            code += ('if ' if first else ' else if ') + cs + ' {\n' + s.block({'kind': 'CompoundStmt', 'inner': sts}) + '}'
            first = False
        if dflt is not None:
            if first: code += s.block({'kind': 'CompoundStmt', 'inner': dflt})
            else: code += ' else {\n' + s.block({'kind': 'CompoundStmt', 'inner': dflt}) + '}'
        return code + '\n}\n'
    # ---------------------------------------------------------------- inlining
    def bind_params(s, g, args):
        code = ''
        newenv = {}
        for p, a in zip(g.params, args):
            t = ptype(p['type'])
            if isinstance(a, tuple) and a[0] == 'lambda':
                newenv[p['id']] = a; continue
            if isinstance(a, LV):
                newenv[p['id']] = ('alias', a); continue
            nm = san(p.get('name') or 'unnamed') + '__i%d' % (s.tmp + 1); s.tmp += 1
            if s.c.opts and ('keep:' + san(p.get('name', ''))) in s.c.opts: nm = san(p['name'])
            mut = mutated_var(g.body, p['id'])
            code += 'let %s%s: %s = %s;\n' % ('mut ' if mut else '', nm, s.tr.rt(t), a.code)
            newenv[p['id']] = ('var', nm, strip_ref(t))
        s.env = dict(s.env); s.env.update(newenv)
        return code
    def inline(s, g, this, args):
        if g.name in s.istack and s.istack.count(g.name) >= 1 and not g.name.startswith('DawgNode__for_each'): raise Unsupported('recursive function without contract: ' + g.name)
        if len(s.istack) > 14: raise Unsupported('inlining depth')
        if g.body is None: raise Unsupported('no body for ' + g.name)
        s.inl.add(g.name)
        sv = s.save()
        rt = func_rtype(g)
        code = ''
        th = None
        if this is not None:
            if re.match(r'^\w+$', this.code): thn = this.code
            else:
                thn = s.fresh('__th'); code += 'let %s = %s;\n' % (thn, this.code)
            th = (thn, g.cls, s.tr.is_value(g.cls))
        code += s.bind_params(g, args)
        s.istack = s.istack + [g.name]; s.this = th; s.tu = g.tu
        s.scopes = s.scopes + []
        base = len(s.scopes)
        s.scopes = list(s.scopes) + [Scope()]
        s.loopscopes = []
        ismut = True
        body = s.tail(g.body.get('inner', []), base, rt)
        selfret = rt[0] == 'ref' and rt[1][0] == 'cls' and rt[1][1] == g.cls
        s.restore(sv)
        if not code and '\n' not in body.strip() and not body.strip().endswith(';'):
            c = body.strip()
            return V(c if c else '()', rt)
        vd = rt[0] == 'void' or (rt[0] == 'ref' and rt[1][0] == 'stream')
        v = V('{\n' + code + body + '\n}', ('void',) if vd else rt, True)
        return v
    def tail(s, lst, base, rt):
        """statements of an inlined body, in tail position; the block's value is the returned value"""
        void = rt[0] == 'void' or (rt[0] == 'ref' and rt[1][0] == 'stream')
        code = ''
        for i, st in enumerate(lst):
            k = st.get('kind'); rest = lst[i + 1:]
            if k == '__pop':
                code += s.pop_scope(); continue
            if k == 'ReturnStmt':
                e = [c for c in st.get('inner', []) if c and c.get('kind')]
                ex = s.exit_scopes(base)
                if not e: return code + ex
                if void:
                    return code + s.stmt(e[0]) + ex
                v = s.expr(e[0], want=rt)
                if not ex: return code + v.code
                r = s.fresh('__rv')
                return code + 'let %s = %s;\n%s%s' % (r, v.code, ex, r)
            if not has_return(st):
                code += s.stmt(st); continue
            if k == 'CompoundStmt':
                s.scopes.append(Scope())
                return code + s.tail(st.get('inner', []) + [{'kind': '__pop'}] + rest, base, rt)
            if k == 'IfStmt' and not st.get('hasInit') and not st.get('hasVar'):
                inner = [c for c in st['inner'] if c]
                a = inner[1]; b = inner[2] if len(inner) > 2 else None
                fa = not self_terminates(a); fb = b is None or not self_terminates(b)
                if fa and fb and [x for x in rest if x.get('kind') != '__pop']: raise Unsupported('partial return in inlined code')
                c = s.cond(inner[0])
                sc0 = [Scope_copy(x) for x in s.scopes]
                def br(x, falls):
                    s.scopes = [Scope_copy(y) for y in sc0] + [Scope()]
                    l = ([] if x is None else x.get('inner', []) if x['kind'] == 'CompoundStmt' else [x])
                    r = s.tail(l + ([{'kind': '__pop'}] + rest if falls else []), base, rt)
                    s.scopes = [Scope_copy(y) for y in sc0]
                    return r
                ca = br(a, fa); cb = br(b, fb)
                return code + 'if %s {\n%s\n} else {\n%s\n}' % (c, ca, cb)
            if k == 'SwitchStmt':
                return code + s.tail([s.switch_to_if(st)] + rest, base, rt)
            if k in ('WhileStmt', 'ForStmt', 'CXXForRangeStmt', 'DoStmt'):
                fl = s.fresh('__done'); vl = None if void else s.fresh('__ret')
                code += 'let mut %s: bool = false;\n' % fl
                if vl: code += 'let mut %s: %s = havoc::<%s>();\n' % (vl, s.tr.rt(rt), s.tr.rt(rt))
                sv = s.ret
                if nested_loop_return(st): raise Unsupported('return from nested loops in inlined code')
                s.ret = ('flag', fl, vl, len(s.scopes) + (1 if k != 'WhileStmt' and k != 'DoStmt' else 0), base, rt)
                # scopes opened inside the loop are left by 'break' handling: exit to the loop body level
                code += s.stmt(st)
                s.ret = sv
                ex = s.exit_scopes(base)
                sc0 = [Scope_copy(x) for x in s.scopes]
                rc = s.tail(rest, base, rt)
                s.scopes = sc0
                return code + 'if %s {\n%s%s\n} else {\n%s\n}' % (fl, ex, vl or '', rc)
            raise Unsupported('return inside %s in inlined code' % k)
        code += s.exit_scopes(base)
        return code
    def switch_to_if(s, n):
        inner = [c for c in n['inner'] if c]
        v, groups = s.switch_chain(n)
        cur = None
        for labels, isdef, sts in groups:
            if isdef: cur = {'kind': 'CompoundStmt', 'inner': sts}
        for labels, isdef, sts in reversed(groups):
            if isdef: continue
            node = {'kind': 'IfStmt', 'inner': [{'kind': '__SwCond', 'e': inner[0], 'labels': labels}, {'kind': 'CompoundStmt', 'inner': sts}] + ([cur] if cur else [])}
            cur = node
        return cur
    def ex___SwCond(s, n, **kw):
        v = s.expr(n['e'])
        return V(' || '.join('%s == %s' % (paren(v.code), paren(s.expr(l).code)) for l in n['labels']), ('bool',))
    # ---------------------------------------------------------------- lvalues
    def lvalue(s, n):
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            return s.lvalue(n['inner'][0])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr') and n['castKind'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion'):
            return s.lvalue(n['inner'][0])
        if k == 'DeclRefExpr':
            b = s.env.get(n['referencedDecl']['id'])
            if b is None: raise Unsupported('reference to ' + n['referencedDecl'].get('name', '?'))
            if b[0] == 'var': return LV(b[1], lambda v: '%s = %s' % (b[1], v), b[2], 'var', ref='&mut ' + b[1], guard=b[3] if len(b) > 3 else None)
            if b[0] == 'mutref': return LV('*' + b[1], lambda v: '*%s = %s' % (b[1], v), b[2], 'var', ref='&mut *' + b[1])
            if b[0] == 'alias': return b[1]
            raise Unsupported('lvalue ' + b[0])
        if k == 'MemberExpr':
            return s.member(n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = s.expr(n['inner'][0]); t = strip_ref(ptype(n['type']))
            return s.deref(p, t)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            pre = s.expr(n).code
            lv = s.lvalue(n['inner'][0])
            return LV('{ %s; %s }' % (pre, lv.get), lv.set, lv.ty, lv.kind)
        if k == 'CXXOperatorCallExpr':
            op = opname(n)
            if op == 'operator[]':
                base = s.lvalue(n['inner'][1]); bt = strip_ref(base.ty); ix = s.expr(n['inner'][2])
                return s.index(base, bt, ix)
            if op == 'operator*':
                t = strip_ref(ptype(n['inner'][1]['type']))
                v = s.expr(n)
                return LV(v.code, None, strip_ref(v.ty))
        if k == 'ArraySubscriptExpr':
            base = s.lvalue(skipcast(n['inner'][0])); ix = s.expr(n['inner'][1])
            return s.index(base, strip_ref(base.ty), ix)
        if k == 'CXXThisExpr':
            return LV(s.this[0], None, ('cls', s.this[1]))
        if k == 'CXXMemberCallExpr':
            me = skip(n['inner'][0])
            if me.get('name') in ('front', 'back', 'top', 'at'):
                pass
        v = s.expr(n)
        return LV(v.code, None, strip_ref(v.ty))
    def deref(s, p, t):
        tr = s.tr
        if t[0] == 'cls' and tr.is_heap(t[1]): return LV(p.code, None, t, 'obj')
        if t[0] in ('stack', 'umap', 'map', 'uset', 'set', 'queue', 'vec', 'str'):
            cn = s.cell(t)
            pc = p.code
            return LV('hp.%s_get(%s)' % (cn, pc), lambda v: 'hp.%s_set(%s, %s)' % (cn, pc, v), t, 'cell')
        if t[0] == 'cls' and tr.is_value(t[1]):
            return LV(p.code, None, t, 'val')
        raise Unsupported('dereference of %s' % (t,))
    def cell(s, t):
        key = tyname(t); nm = s.tr.cfg['cells'].get(key)
        if nm is None: raise Unsupported('pointer to ' + key)
        return nm
    def index(s, base, bt, ix):
        ic = ix.code
        if bt[0] in ('vec', 'array', 'carr', 'ilist'):
            def st(v):
                if base.kind == 'var': return 'vec_set(%s, %s, %s)' % (base.ref, s.atomize(ic), v)
                c = s.fresh('__c')
                return '{ let mut %s = %s; vec_set(&mut %s, %s, %s); %s; }' % (c, base.get, c, ic, v, base.set(c))
            return LV('vec_at(%s, %s)' % (base.get, ic), st, bt[1], 'idx')
        if bt[0] == 'str':
            def st(v):
                if base.kind == 'var': return 'str_set(%s, %s, %s)' % (base.ref, s.atomize(ic), v)
                raise Unsupported('string element assignment')
            return LV('str_at(%s, %s)' % (base.get, ic), st, ('int', 'i8'), 'idx')
        if bt[0] in ('map', 'umap'):
            if bt[1][0] == 'cls' and s.tr.is_heap(bt[1][1]):
                # keys stored by value, compared with the class's operator==
                root = s.tr.root(bt[1][1])
                def st(v):
                    c = s.fresh('__c')
                    return '{ let mut %s = %s; let __k = hp.%s_obj(%s); %s_map_put(hp, &mut %s, __k, %s); %s; }' % (c, base.get, root, ic, root, c, v, base.set(c))
                return LV('map_bad()', st, bt[2], 'idx')
            def st(v):
                if base.kind == 'var': return 'map_put(%s, %s, %s)' % (base.ref, ic, v)
                c = s.fresh('__c')
                return '{ let mut %s = %s; map_put(&mut %s, %s, %s); %s; }' % (c, base.get, c, ic, v, base.set(c))
            # a read through operator[] inserts a default value for a missing key
            def rd():
                if base.kind == 'var': return 'map_index(%s, %s, %s)' % (base.ref, ic, s.tr.default(bt[2]) if bt[2][0] != 'ptr' else '0u64')
                c = s.fresh('__c')
                return '{ let mut %s = %s; let __v = map_index(&mut %s, %s, %s); %s; __v }' % (c, base.get, c, ic, s.tr.default(bt[2]) if bt[2][0] != 'ptr' else '0u64', base.set(c))
            return LV(rd(), st, bt[2], 'idx')
        raise Unsupported('index into %s' % (bt,))
    def atomize(s, c): return c
    def member_base(s, n):
        """(address or record code, class) of the object a MemberExpr selects from"""
        b = n['inner'][0]
        if n.get('isArrow'):
            v = s.expr(b); t = strip_ref(v.ty)
            cls = t[1][1] if t[0] == 'ptr' and t[1][0] == 'cls' else None
            bt = ptype(b['type'])
            if bt[0] == 'ptr' and bt[1][0] == 'cls': cls = bt[1][1]
            return v.code, cls
        lv = s.lvalue(b)
        bt = strip_ref(ptype(b['type']))
        return lv.get, (bt[1] if bt[0] == 'cls' else None)
    def member(s, n):
        tr = s.tr; name = n['name']
        ib = skipcast(n['inner'][0])
        bt = ptype(n['inner'][0]['type']); bt = strip_ref(bt)
        if n.get('isArrow') and bt[0] == 'ptr': bt = bt[1]
        if bt[0] == 'pair' or (bt[0] == 'iter'):
            # pair member: through an iterator's operator-> or a pair object
            if n.get('isArrow'):
                inner = skip(n['inner'][0])
                if inner['kind'] == 'CXXOperatorCallExpr':
                    it = s.lvalue(inner['inner'][1])
                    g = 'hp.%s; ' % it.guard if it.guard else ''
                    ity = strip_ref(it.ty)
                    if ity[0] != 'iter' : raise Unsupported('-> on %s' % (ity,))
                    if tr.rt(ity).startswith('SIter'): raise Unsupported('-> on sequence iterator')
                    c = 'fiter_%s(%s)' % ('key' if name == 'first' else 'val', it.get)
                    if g: c = '{ %s%s }' % (g, c)
                    pt = ity[1]
                    return LV(c, None, pt[1] if name == 'first' else pt[2])
                raise Unsupported('pointer to pair')
            base = s.lvalue(n['inner'][0])
            i = 0 if name == 'first' else 1
            def st(v):
                if base.kind == 'var': return '%s.%d = %s' % (base.get, i, v)
                c = s.fresh('__c')
                return '{ let mut %s = %s; %s.%d = %s; %s; }' % (c, base.get, c, i, v, base.set(c))
            g = base.get
            if g.startswith('{'): g = '(' + g + ')'
            return LV('%s.%d' % (g, i), st, bt[1 + i], 'sub')
        if bt[0] != 'cls': raise Unsupported('member %s of %s' % (name, bt))
        cls = s.prog.idcls.get((s.tu, n.get('referencedMemberDecl'))) or bt[1]
        # field
        fld = name
        root = tr.root(cls)
        ftype = None
        c = cls
        for f_, t_, dc in tr.all_fields(root) if cls in s.prog.classes else []:
            if f_ == fld: ftype = t_
        if ftype is None: raise Unsupported('field %s of %s' % (fld, cls))
        code, _ = s.member_base(n)
        if tr.is_value(bt[1]):
            c0 = code
            if c0.startswith('{'): c0 = '(' + c0 + ')'
            base = skip(n['inner'][0])
            def st(v):
                if base['kind'] == 'CXXThisExpr' or s.this and c0 == s.this[0]: return '%s.%s = %s' % (c0, fld, v)
                blv = s.lvalue(n['inner'][0])
                if blv.kind == 'var': return '%s.%s = %s' % (blv.get, fld, v)
                raise Unsupported('assignment to member of a value object')
            return LV('%s.%s' % (c0, fld), st, ftype, 'vfield')
        rn = tr.cfg.get('rename_fields', {}).get((root, fld), fld)
        mutx = tr.guards.get((root, fld))
        g = '%s_guard_%s(%s)' % (root, fld, code) if mutx else None
        return LV('hp.%s_get_%s(%s)' % (root, fld, code), lambda v: s.setfield(root, fld, code, v), ftype, 'field', guard=g)
    def setfield(s, root, fld, code, v):
        if SIMPLE.match(v) and SIMPLE.match(code): return 'hp.%s_set_%s(%s, %s)' % (root, fld, code, v)
        a = s.fresh('__v'); b = s.fresh('__b')
        return '{ let %s = %s; let %s = %s; hp.%s_set_%s(%s, %s); }' % (a, v, b, code, root, fld, b, a)
    # ---------------------------------------------------------------- expressions
    def expr(s, n, want=None, discard=False):
        k = n['kind']
        m = getattr(s, 'ex_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n, want=want, discard=discard)
    def through(s, n, want=None, discard=False): return s.expr(n['inner'][0], want=want, discard=discard)
    ex_ParenExpr = ex_ExprWithCleanups = ex_MaterializeTemporaryExpr = ex_CXXBindTemporaryExpr = ex_ConstantExpr = through
    ex_SubstNonTypeTemplateParmExpr = lambda s, n, **kw: s.expr([c for c in n['inner'] if c['kind'] != 'NonTypeTemplateParmDecl'][-1], **kw)
    ex_CXXStdInitializerListExpr = through
    def ex_CXXDefaultInitExpr(s, n, **kw): raise Unsupported('default init expr')
    def ex_ImplicitCastExpr(s, n, want=None, discard=False):
        return s.cast(n, want)
    ex_CStyleCastExpr = ex_CXXStaticCastExpr = ex_CXXFunctionalCastExpr = ex_CXXReinterpretCastExpr = ex_CXXConstCastExpr = ex_ImplicitCastExpr
    def cast(s, n, want=None):
        ck = n['castKind']; e = n['inner'][0]; t = ptype(n['type'])
        if ck == 'LValueToRValue':
            lv = s.lvalue(e); v = V(lv.get, lv.ty); v.guard = lv.guard; return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BitCast', 'ToVoid', 'BaseToDerived'):
            v = s.expr(e, want=want)
            return v
        if ck == 'NullToPointer': return V('0u64', t)
        if ck == 'PointerToBoolean':
            v = s.expr(e); return V('(%s != 0)' % paren(v.code), ('bool',))
        if ck == 'IntegralToBoolean':
            v = s.expr(e); return V('(%s != 0)' % paren(v.code), ('bool',))
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            v = s.expr(e); return V(v.code, t)
        if ck == 'IntegralCast':
            v = s.expr(e); src = strip_ref(v.ty)
            if src[0] == 'bool':
                if t[0] == 'bool': return v
                return V('b2%s(%s)' % (t[1], v.code), t)
            if src[0] == 'cls': src = ('int', 'i32')      # enum
            if t[0] == 'bool': return V('(%s != 0)' % paren(v.code), t)
            if src[0] != 'int' or t[0] != 'int': raise Unsupported('cast %s to %s' % (src, t))
            return s.intcast(v.code, src[1], t[1])
        raise Unsupported('cast ' + ck)
    def intcast(s, code, a, b):
        if a == b: return V(code, ('int', b))
        m = re.match(r'^(-?\d+)(?:i32|u32|u64|i64|i8|u8)?$', code)
        if m:
            bits = {'u64': 64, 'i64': 64, 'i32': 32, 'u32': 32, 'i8': 8, 'u8': 8, 'u16': 16, 'i16': 16}[b]
            x = int(m.group(1)) % (1 << bits)
            if b[0] == 'i' and x >= 1 << (bits - 1): x -= 1 << bits
            return V('%d%s' % (x, b) if x >= 0 else '(%d%s)' % (x, b), ('int', b))
        rng = {'u64': (0, 2**64 - 1), 'i64': (-2**63, 2**63 - 1), 'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1), 'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1)}
        if rng[b][0] <= rng[a][0] and rng[a][1] <= rng[b][1]:
            return V('(%s as %s)' % (paren(code), b), ('int', b))
        return V('%s_to_%s(%s)' % (a, b, code), ('int', b))
    def ex_IntegerLiteral(s, n, **kw):
        t = ptype(n['type']); return V('%s%s' % (n['value'], t[1]), t)
    def ex_CharacterLiteral(s, n, **kw):
        v = n['value']; v = v - 256 if v > 127 else v
        return V('%di8' % v if v >= 0 else '(%di8)' % v, ('int', 'i8'))
    def ex_CXXBoolLiteralExpr(s, n, **kw): return V('true' if n['value'] else 'false', ('bool',))
    def ex_CXXNullPtrLiteralExpr(s, n, **kw): return V('0u64', ('ptr', ('void',)))
    def ex_StringLiteral(s, n, **kw):
        import ast as _a
        val = n['value']
        try: b = _a.literal_eval(val)
        except Exception: raise Unsupported('string literal')
        bs = b.encode('utf-8')
        code = 'str_new()'
        for x in bs:
            code = 'str_pushed(%s, %s)' % (code, '%di8' % x if x < 128 else '(%di8)' % (x - 256))
        return V(code, ('str',))
    def ex_CXXThisExpr(s, n, **kw):
        if s.this is None:
            return V('0u64', ('ptr', ('cls', '?')))
        return V(s.this[0], ('ptr', ('cls', s.this[1])))
    def ex_DeclRefExpr(s, n, **kw):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] not in s.prog.enums: raise Unsupported('enumerator')
            return V('%di32' % s.prog.enums[d['name']], ('int', 'i32'))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            nm = s.prog.mang.get((s.tu, d['id']))
            return V(nm or '?' + d['name'], ('funcref', nm))
        if d['id'] not in s.env and d['kind'] == 'VarDecl':
            t = strip_ref(ptype(n['type']))
            if t[0] == 'cls' and t[1].startswith('hash__'): return V('0u64', t)
            g = s.prog.ids.get((s.tu, d['id']))
            raise Unsupported('global variable ' + d.get('name', '?'))
        if d['id'] in s.moved: raise Unsupported('use of a moved-from object')
        b = s.env.get(d['id'])
        if b and b[0] == 'lambda': return b
        lv = s.lvalue(n)
        v = V(lv.get, lv.ty); v.guard = lv.guard
        return v
    def ex_MemberExpr(s, n, **kw):
        lv = s.member(n); v = V(lv.get, lv.ty); v.guard = lv.guard; return v
    def ex_ArraySubscriptExpr(s, n, **kw):
        lv = s.lvalue(n); return V(lv.get, lv.ty)
    def ex_UnaryOperator(s, n, want=None, discard=False):
        op = n['opcode']; e = n['inner'][0]; t = ptype(n['type'])
        if op == '!': return V('!%s' % paren(s.expr(e).code), ('bool',))
        if op == '*':
            lv = s.lvalue(n); return V(lv.get, lv.ty)
        if op == '&':
            lv = s.lvalue(e)
            lt = strip_ref(lv.ty)
            if lt[0] == 'cls' and s.tr.is_heap(lt[1]): return V(lv.get, ('ptr', lt))
            if lt[0] == 'funcref': return V(lv.get, lt)
            raise Unsupported('address of %s' % (lt,))
        if op == '-':
            v = s.expr(e)
            m = re.match(r'^(\d+)i32$', v.code)
            if m: return V('-%si32' % m.group(1) if False else '(-%si32)' % m.group(1), v.ty)
            if v.ty[0] == 'int' and v.ty[1][0] == 'u': return V('wsub_%s(0%s, %s)' % (v.ty[1], v.ty[1], v.code), v.ty)
            return V('(0 - %s)' % paren(v.code), v.ty)
        if op == '+': return s.expr(e)
        if op in ('++', '--'):
            lv = s.lvalue(e); ty = strip_ref(lv.ty)
            if ty[0] != 'int': raise Unsupported('++ on %s' % (ty,))
            new = s.arith('+' if op == '++' else '-', lv.get, '1' + ty[1], ty)
            if discard: return V(lv.set(new), ('void',), True)
            if n.get('isPostfix'):
                o = s.fresh('__old'); return V('{ let %s = %s; %s; %s }' % (o, lv.get, lv.set(new), o), ty, True)
            return V('{ %s; %s }' % (lv.set(new), lv.get), ty, True)
        if op == '~': raise Unsupported('~')
        raise Unsupported('unary ' + op)
    def arith(s, op, a, b, ty):
        k = ty[1]
        if k[0] == 'u':
            nm = {'+': 'wadd', '-': 'wsub', '*': 'wmul'}.get(op)
            if nm: return '%s_%s(%s, %s)' % (nm, k, a, b)
            if op in ('/', '%'): return '(%s %s %s)' % (paren(a), op, paren(b))
            if op in ('<<', '>>'):
                nm = 'shl' if op == '<<' else 'shr'
                return '%s_%s(%s, %s)' % (nm, k, a, b)
            if op in ('&', '|', '^'): return '(%s %s %s)' % (paren(a), op, paren(b))
        else:
            if op in ('+', '-', '*'): return '(%s %s %s)' % (paren(a), op, paren(b))
        raise Unsupported('arithmetic %s on %s' % (op, k))
    def ex_BinaryOperator(s, n, want=None, discard=False):
        op = n['opcode']; l, r = n['inner']
        if op == '=':
            lv = s.lvalue(l)
            if lv.set is None: raise Unsupported('assignment target')
            v = s.expr(r, want=lv.ty)
            if discard: return V(lv.set(v.code), ('void',), True)
            return V('{ %s; %s }' % (lv.set(v.code), lv.get), lv.ty, True)
        if op == ',':
            a = s.expr(l, discard=True); b = s.expr(r, discard=discard)
            return V('{ %s; %s }' % (a.code, b.code), b.ty, True)
        a = s.expr(l); b = s.expr(r)
        if op in ('&&', '||'): return V('(%s %s %s)' % (paren(a.code), op, paren(b.code)), ('bool',))
        at, bt = strip_ref(a.ty), strip_ref(b.ty)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if at[0] in ('str',) or bt[0] == 'str': raise Unsupported('string compare')
            return V('(%s %s %s)' % (paren(a.code), op, paren(b.code)), ('bool',))
        t = ptype(n['type'])
        if t[0] != 'int': raise Unsupported('binary %s' % op)
        return V(s.arith(op, a.code, b.code, t), t)
    def ex_CompoundAssignOperator(s, n, want=None, discard=False):
        op = n['opcode'][:-1]; lv = s.lvalue(n['inner'][0]); r = s.expr(n['inner'][1])
        ty = strip_ref(lv.ty)
        ct = ptype(n['computeResultType']) if 'computeResultType' in n else ty
        if ty[0] == 'bool' or ct[0] != 'int': raise Unsupported('compound assignment')
        if ct != ty:
            a = s.intcast(lv.get, ty[1], ct[1]).code
            new = s.intcast(s.arith(op, a, r.code, ct), ct[1], ty[1]).code
        else:
            new = s.arith(op, lv.get, r.code, ty)
        if discard: return V(lv.set(new), ('void',), True)
        return V('{ %s; %s }' % (lv.set(new), lv.get), ty, True)
    def ex_ConditionalOperator(s, n, want=None, discard=False):
        c, a, b = n['inner']
        va, vb = s.expr(a, want=want), s.expr(b, want=want)
        return V('(if %s { %s } else { %s })' % (s.cond(c), va.code, vb.code), strip_ref(va.ty) if va.ty[0] != 'ptr' or va.ty[1][0] != 'void' else vb.ty, True)
    def ex_CXXRewrittenBinaryOperator(s, n, **kw):
        # a < b written as (a <=> b) < 0, or as 0 < (b <=> a)
        e = skip(n['inner'][0])
        if e.get('kind') == 'CXXOperatorCallExpr' and len(e['inner']) == 3:
            op = skip(e['inner'][0]).get('referencedDecl', {}).get('name', '')
            for k in (1, 2):
                sp = skip(e['inner'][k])
                if sp.get('kind') == 'CXXOperatorCallExpr' and skip(sp['inner'][0]).get('referencedDecl', {}).get('name') == 'operator<=>':
                    a, b = s.expr(sp['inner'][1]), s.expr(sp['inner'][2])
                    if strip_ref(a.ty)[0] != 'str' or strip_ref(b.ty)[0] not in ('str', 'ptr') or op[8:] not in ('<', '>', '<=', '>='): break
                    o = op[8:] if k == 1 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op[8:]]
                    f = {'<': 'str_lt(%s, %s)', '>': 'str_gt(%s, %s)', '<=': '!str_gt(%s, %s)', '>=': '!str_lt(%s, %s)'}[o]
                    return V('(' + f % (a.code, b.code) + ')', ('bool',))
        return s.expr(n['inner'][0], **kw)
    def ex_CXXDefaultArgExpr(s, n, **kw):
        raise Unsupported('default argument')
    def ex_InitListExpr(s, n, want=None, discard=False):
        t = want or ptype(n['type']); t = strip_ref(t)
        el = [c for c in n.get('inner', []) if c.get('kind')]
        if t[0] in ('vec', 'ilist', 'carr', 'array'):
            if t[0] == 'array' and len(el) == 1 and el[0]['kind'] == 'InitListExpr': return s.expr(el[0], want=('array', t[1], t[2]))
            code = 'vec_new()'
            for e in el: code = 'vec_pushed(%s, %s)' % (code, s.expr(e).code)
            return V(hoist_pushed(s, el, t), t, True)
        if len(el) == 1: return s.expr(el[0], want=want)
        if not el: return V(s.tr.default(t), t)
        raise Unsupported('initialiser list for %s' % (t,))
    def ex_CXXScalarValueInitExpr(s, n, **kw):
        t = ptype(n['type']); 
        return V('false' if t[0] == 'bool' else '0%s' % s.tr.rt(t), t)
    ex_ImplicitValueInitExpr = ex_CXXScalarValueInitExpr
    def ctor_args(s, f, n):
        return s.args(f, [c for c in n.get('inner', []) if c.get('kind')])
    def ex_CXXConstructExpr(s, n, want=None, discard=False):
        t = strip_ref(ptype(n['type'])); tr = s.tr
        el = [c for c in n.get('inner', []) if c.get('kind')]
        if t[0] == 'cls' and t[1] in s.prog.classes:
            cls = t[1]
            if len(el) == 1:
                at = strip_ref(ptype(el[0]['type']))
                if at == t:
                    if tr.is_value(cls): return s.expr(el[0])
                    if n.get('elidable'): return s.expr(el[0])
                    # by-value copy of a heap-class prvalue
                    if skip(el[0])['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr'): return s.expr(el[0])
                    raise Unsupported('copy of ' + cls)
            return s.construct_node(cls, n, el)
        if t[0] == 'fn':
            if not el: return V(tr.fnenum(t[1]) + '::Empty', t)
            lam = find_lambda(el[0])
            if lam is not None: return ('lambda', lam, dict(s.env), s.this, s.tu)
            v = s.expr(el[0])
            if isinstance(v, tuple): return v
            vt = strip_ref(v.ty)
            if vt[0] == 'fn': return V(v.code, t)
            enum = tr.fnenum(t[1])
            if vt[0] == 'funcref':
                if vt[1] is None: raise Unsupported('unknown function')
                if vt[1] not in tr.fnenums[enum]:
                    raise Unsupported('function %s stored in a std::function' % vt[1])
                return V('%s::%s' % (enum, vt[1]), t)
            if vt[0] == 'cls' and tr.is_value(vt[1]):
                if vt[1] not in tr.fnenums[enum]: raise Unsupported('callable ' + vt[1])
                return V('%s::%s(%s)' % (enum, vt[1], v.code), t, True)
            raise Unsupported('std::function from %s' % (vt,))
        if t[0] in ('str',):
            if not el: return V('str_new()', t)
            el = [e for e in el if e['kind'] != 'CXXDefaultArgExpr']
            if len(el) == 1:
                v = s.expr(el[0]); vt = strip_ref(v.ty)
                if vt[0] in ('str', 'stream') or (vt[0] == 'ptr'): return V(v.code, t)
            raise Unsupported('string constructor')
        if t[0] in STD_DEFAULT:
            el = [e for e in el if e['kind'] != 'CXXDefaultArgExpr']
            if not el: return V(tr.default(t), t)
            if len(el) == 1:
                e0 = skip(el[0])
                v = s.expr(el[0], want=t if e0['kind'] in ('InitListExpr', 'CXXStdInitializerListExpr') else None)
                vt = strip_ref(v.ty)
                if vt[0] == 'int' and t[0] == 'vec': return V('vec_filled(%s, %s)' % (v.code, zero(t[1])), t)
                if vt[0] == 'ilist' or vt[0] == t[0]: return V(v.code, t, v.mut)
            if len(el) == 2 and t[0] == 'vec':
                a, b = s.expr(el[0]), s.expr(el[1])
                if strip_ref(a.ty)[0] == 'int': return V('vec_filled(%s, %s)' % (a.code, b.code), t)
            raise Unsupported('constructor of %s' % (t,))
        if t[0] == 'pair':
            if not el: return V(tr.default(t), t)
            if len(el) == 2:
                a, b = s.expr(el[0], want=t[1]), s.expr(el[1], want=t[2])
                return V('(%s, %s)' % (a.code, b.code), t)
            if len(el) == 1:
                v = s.expr(el[0])
                if strip_ref(v.ty)[0] == 'pair': return V(v.code, t)
        if t[0] == 'iter' and len(el) == 1:
            v = s.expr(el[0]); return v
        if t[0] == 'cls' and t[1].startswith('hash__'): return V('0u64', t)
        if t[0] == 'cls' and t[1] in tr.cfg.get('ext_types', {}):
            if not el: return V(tr.cfg['ext_new'][t[1]], t)
        raise Unsupported('construction of %s' % (t,))
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr
    def construct_node(s, cls, n, el):
        # find the constructor by the constructor type clang recorded
        ct = n.get('ctorType', {}).get('qualType')
        cands = [g for g in s.prog.funcs.values() if g.cls == cls and g.kind == 'CXXConstructorDecl']
        nargs = len(el)
        best = [g for g in cands if g.node['type']['qualType'] == ct] or [g for g in cands if norm_ct(g.node['type']['qualType']) == norm_ct(ct or '')]
        g = best[0] if best else None
        if g is None:
            c2 = [g for g in cands if len(g.params) == nargs]
            if len(c2) == 1: g = c2[0]
        if g is None and nargs and not s.prog.classes[cls].bases: raise Unsupported('constructor %s %s' % (cls, ct))
        args = s.args(g, el)
        return s.construct(cls, g.name if g else None, args)
    def args(s, g, el):
        out = []
        ps = g.params if g else [None] * len(el)
        for i, e in enumerate(el):
            p = ps[i] if i < len(ps) else None
            if e['kind'] == 'CXXDefaultArgExpr':
                # default value: look at any declaration of the parameter
                out.append(s.default_arg(g, i)); continue
            if p is not None and s.byref(g, p):
                out.append(s.lvalue(e)); continue
            v = s.expr(e, want=ptype(p['type']) if p is not None else None)
            out.append(v)
        return out
    def default_arg(s, g, i):
        for (tu, id_), nm in s.prog.mang.items():
            if nm == g.name:
                node = s.prog.ids.get((tu, id_))
                ps = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
                if i < len(ps) and ps[i].get('inner'):
                    e = next((x for x in ps[i]['inner'] if x.get('kind') and 'Comment' not in x['kind']), None)
                    if e is not None:
                        tu0 = s.tu; s.tu = tu
                        v = s.expr(e); s.tu = tu0
                        return v
        raise Unsupported('default argument of ' + g.name)
    def ex_CXXNewExpr(s, n, want=None, discard=False):
        t = ptype(n['type'])[1]
        if n.get('isArray'): raise Unsupported('new[]')
        if t[0] == 'cls' and s.tr.is_heap(t[1]):
            e = [c for c in n.get('inner', []) if c.get('kind')]
            v = s.expr(e[0], want=t)
            return V(v.code, ('ptr', t), True)
        if t[0] in STD_DEFAULT:
            return V('hp.%s_new(%s)' % (s.cell(t), s.tr.default(t)), ('ptr', t), True)
        if t[0] == 'cls' and t[1] in s.tr.cfg.get('ext_types', {}):
            return V('hp.%s_new(%s)' % (t[1], s.tr.cfg['ext_new'][t[1]]), ('ptr', t), True)
        raise Unsupported('new %s' % (t,))
    def ex_CXXDeleteExpr(s, n, want=None, discard=False):
        if n.get('isArray') or n.get('isArrayAsWritten'): raise Unsupported('delete[]')
        v = s.expr(n['inner'][0]); t = ptype(n['inner'][0]['type'])
        t = strip_ref(t)[1]
        p = s.fresh('__d')
        if t[0] == 'cls' and s.tr.is_heap(t[1]):
            cls = t[1]; root = s.tr.root(cls)
            if s.prog.classes[cls].poly or s.prog.classes[root].poly:
                subs = [c for c in s.tr.family(root)]
                leafs = [c for c in subs if not any(c in s.prog.classes[x].bases for x in subs)]
                if len(leafs) == 1: cls = leafs[0]
                else: raise Unsupported('virtual destructor dispatch')
            dt = s.destroy(p, cls)
            return V('{ let %s = %s; if %s != 0 {\n%shp.%s_free(%s);\n} }' % (p, v.code, p, dt, root, p), ('void',), True)
        if t[0] in STD_DEFAULT:
            return V('{ let %s = %s; if %s != 0 { hp.%s_free(%s); } }' % (p, v.code, p, s.cell(t), p), ('void',), True)
        if t[0] == 'cls' and t[1] in s.tr.cfg.get('ext_types', {}):
            return V('{ let %s = %s; if %s != 0 { hp.%s_free(%s); } }' % (p, v.code, p, t[1], p), ('void',), True)
        raise Unsupported('delete of %s' % (t,))
    # ---------------------------------------------------------------- calls
    def call_named(s, name, this, args):
        tr = s.tr
        g = s.prog.funcs.get(name)
        if name in tr.contracts:
            s.callee_set.add(name)
            return s.emit_call(name, g, this, args)
        if g is None: raise Unsupported('call of unknown function ' + name)
        return s.inline(g, this, args)
    def emit_call(s, name, g, this, args):
        pre = ''; post = ''; actual = ['hp']
        if this is not None:
            if SIMPLE.match(this.code): actual.append(this.code)
            else:
                a = s.fresh('__a'); pre += 'let %s = %s;\n' % (a, this.code); actual.append(a)
        for a in args:
            if isinstance(a, tuple): raise Unsupported('lambda passed to a function under contract: ' + name)
            if isinstance(a, LV):
                if a.ref: actual.append(a.ref)
                else:
                    c = s.fresh('__m'); pre += 'let mut %s = %s;\n' % (c, a.get); actual.append('&mut ' + c); post += a.set(c) + ';\n'
            elif SIMPLE.match(a.code): actual.append(a.code)
            else:
                c = s.fresh('__a'); pre += 'let %s = %s;\n' % (c, a.code); actual.append(c)
        bh = s.c.hooks.get('before call ' + name, ''); ah = s.c.hooks.get('after call ' + name, '')
        def sub(t):
            for i, x in enumerate(actual[1:]):
                t = re.sub(r'\$%d\b' % (i + 1), re.sub(r'^&mut ', '', x), t)
            return t
        bh, ah = sub(bh), sub(ah)
        rt = ('void',)
        if g is not None:
            if g.kind == 'CXXConstructorDecl': rt = ('cls', g.cls) if s.tr.is_value(g.cls) else ('ptr', ('cls', g.cls))
            elif g.kind != 'CXXDestructorDecl': rt = func_rtype(g)
            if rt[0] == 'ref' and rt[1][0] == 'stream': rt = ('void',)
        call = '%s(%s)' % (name, ', '.join(actual))
        if rt[0] == 'void':
            return V('{\n%s%s%s;\n%s%s}' % (pre, bh, call, post, ah), rt, True)
        if not pre and not post and not bh and not ah: return V(call, rt, True)
        if not post and not ah: return V('{\n%s%s%s\n}' % (pre, bh, call), rt, True)
        r = s.fresh('__c')
        ah = ah.replace('$r', r)
        return V('{\n%s%slet %s = %s;\n%s%s%s\n}' % (pre, bh, r, call, post, ah, r), rt, True)
    def ex_CallExpr(s, n, want=None, discard=False):
        inner = n['inner']
        callee = skip(inner[0])
        if callee['kind'] == 'DeclRefExpr':
            d = callee['referencedDecl']
            nm = s.prog.mang.get((s.tu, d['id']))
            if nm:
                g = s.prog.funcs.get(nm)
                if nm in s.tr.contracts or g is not None:
                    if g is None: raise Unsupported('no definition of ' + nm)
                    return s.call_named(nm, None, s.args(g, inner[1:]))
                raise Unsupported('no definition of ' + nm)
            return s.std_call(d['name'], inner[1:], n)
        if callee['kind'] == 'MemberExpr':   # static member through object
            nm = s.prog.mang.get((s.tu, callee.get('referencedMemberDecl')))
            if nm:
                g = s.prog.funcs[nm]; return s.call_named(nm, None, s.args(g, inner[1:]))
        raise Unsupported('call of ' + callee['kind'])
    def std_call(s, name, el, n):
        if name in ('move', 'forward', 'as_const'):
            v = s.expr(el[0]); d = skip(el[0])
            if name == 'move' and d['kind'] == 'DeclRefExpr' and not isinstance(v, tuple) and strip_ref(v.ty)[0] not in ('int', 'bool', 'ptr'): s.moved.add(d['referencedDecl']['id'])
            return v
        if name in ('min', 'max') and len(el) == 2:
            a, b = s.expr(el[0]), s.expr(el[1]); t = strip_ref(a.ty)
            if t[0] != 'int': raise Unsupported(name)
            return V('%s_%s(%s, %s)' % (name, t[1], a.code, b.code), t)
        if name == 'make_pair':
            a, b = s.expr(el[0]), s.expr(el[1])
            return V('(%s, %s)' % (a.code, b.code), ('pair', strip_ref(a.ty), strip_ref(b.ty)))
        if name == 'MurmurHash64A' and len(el) == 3:
            a = s.expr(el[0]); b = s.expr(el[1]); c = s.expr(el[2])
            at = strip_ref(a.ty)
            fn = 'murmur_str' if at[0] == 'str' else 'murmur_vec'
            return V('%s(%s, %s, %s)' % (fn, a.code, b.code, c.code), ('int', 'u64'))
        if name == 'swap' and len(el) == 2:
            a, b = s.lvalue(el[0]), s.lvalue(el[1])
            t = s.fresh('__sw')
            return V('{ let %s = %s; %s; %s; }' % (t, a.get, a.set(b.get), b.set(t)), ('void',), True)
        raise Unsupported('library function ' + name)
    def ex_CXXMemberCallExpr(s, n, want=None, discard=False):
        me = skip(n['inner'][0]); el = [c for c in n['inner'][1:] if c.get('kind')]
        if me['kind'] != 'MemberExpr': raise Unsupported('member call')
        nm = s.prog.mang.get((s.tu, me.get('referencedMemberDecl')))
        if nm:
            cls = s.prog.idcls.get((s.tu, me.get('referencedMemberDecl')))
            b = me['inner'][0]
            if me.get('isArrow'): this = s.expr(b)
            else:
                lv = s.lvalue(b); this = V(lv.get, ('cls', cls))
            st = strip_ref(ptype(b['type']))
            if st[0] == 'ptr': st = st[1]
            nm = s.resolve_virtual(nm, cls, me['name'], len(el), st[1] if st[0] == 'cls' else cls)
            if isinstance(nm, list): return s.vdispatch(nm, this, el)
            g = s.prog.funcs.get(nm)
            if g is None: raise Unsupported('no definition of ' + nm)
            if g.static: this = None
            return s.call_named(nm, this, s.args(g, el))
        return s.std_method(me, el, n, discard)
    def resolve_virtual(s, nm, cls, meth, nargs, static):
        tr = s.tr
        root = tr.root(cls)
        isv = any(meth + '/%d' % nargs in s.prog.classes[c].virtuals for c in tr.family(root)) if root in s.prog.classes else False
        if not isv: return nm
        fam = tr.family(root)
        def impl(c):
            while c:
                k = '%s__%s_%d' % (c, meth, nargs)
                if k in s.prog.funcs: return k
                b = s.prog.classes[c].bases; c = b[0] if b else None
            return None
        def derives(c, a):
            while c:
                if c == a: return True
                b = s.prog.classes[c].bases; c = b[0] if b else None
            return False
        conc = [c for c in fam if derives(c, static) and c in (tr.cfg['tags'].get(root) or {}) ]
        impls = {impl(c) for c in conc}
        if len(impls) == 1: return impls.pop()
        return [(tr.tag(c), impl(c)) for c in conc]
    def vdispatch(s, lst, this, el):
        th = s.fresh('__vt'); root = None
        code = 'let %s = %s;\n' % (th, this.code)
        g0 = s.prog.funcs[lst[0][1]]; root = s.tr.root(g0.cls)
        avs = s.args(g0, el); names = []
        for a in avs:
            x = s.fresh('__va'); code += 'let %s = %s;\n' % (x, a.code); names.append(V(x, a.ty))
        tg = s.fresh('__tag')
        code += 'let %s = hp.%s_get_cls_tag(%s);\n' % (tg, root, th)
        chain = ''
        for i, (tag, fn) in enumerate(lst):
            c = s.call_named(fn, V(th, this.ty), names).code
            chain += ('if %s == %d { %s } else ' % (tg, tag, c))
        chain += '{ unreached() }'
        return V('{\n%s%s\n}' % (code, chain), func_rtype(g0), True)
    def std_method(s, me, el, n, discard):
        name = me['name']; b = me['inner'][0]
        el = [e for e in el if e['kind'] != 'CXXDefaultArgExpr']
        if me.get('isArrow'):
            p = s.expr(b); pt = strip_ref(ptype(b['type']))[1]
            if pt[0] == 'cls' and pt[1] in s.tr.cfg.get('ext_types', {}): return s.ext_method(pt[1], p.code, True, name, el, n)
            base = s.deref(p, pt)
        else:
            base = s.lvalue(b)
        t = strip_ref(base.ty)
        if t[0] == 'cls' and t[1] in s.tr.cfg.get('ext_types', {}): return s.ext_method(t[1], base, False, name, el, n)
        if t[0] == 'bitref' or t[0] == 'bool':
            if name == 'operator bool': return V(base.get, ('bool',))
        U = ('int', 'u64'); B = ('bool',); VOID = ('void',)
        k = {'umap': 'map', 'uset': 'set', 'array': 'vec', 'list': 'vec', 'ilist': 'vec', 'stream': 'str'}.get(t[0], t[0])
        rd = {}
        if k in ('vec', 'queue', 'stack', 'map', 'set', 'str'):
            rd = {('size', 0): ('size', U), ('empty', 0): ('is_empty', B)}
        if k == 'str':
            rd.update({('length', 0): ('size', U), ('substr', 1): ('substr', t), ('substr', 2): ('substr2', t), ('compare', 1): ('compare', ('int', 'i32')), ('c_str', 0): ('id', t), ('data', 0): ('id', t),
                       ('str', 0): ('id', ('str',)), ('at', 1): ('at_checked', ('int', 'i8')), ('back', 0): ('back', ('int', 'i8')), ('front', 0): ('front', ('int', 'i8'))})
        if k == 'vec': rd.update({('front', 0): ('front', t[1]), ('back', 0): ('back', t[1]), ('at', 1): ('at', t[1]), ('data', 0): ('id', t)})
        if k == 'queue': rd.update({('front', 0): ('front', t[1])})
        if k == 'stack': rd.update({('top', 0): ('top', t[1])})
        heapkey = k == 'map' and t[1][0] == 'cls' and s.tr.is_heap(t[1][1])
        if k == 'map':
            it = ('iter', ('pair', t[1], t[2]), 'tree')
            rd.update({('find', 1): ('find', it), ('contains', 1): ('contains', B), ('count', 1): ('count', U), ('end', 0): ('end', it), ('at', 1): ('at', t[2])})
        if heapkey and (name not in ('find', 'end') or t[0] != 'umap'): raise Unsupported('%s on a map with object keys' % name)
        if k == 'set': rd.update({('contains', 1): ('contains', B), ('count', 1): ('count', U)})
        key = (name, len(el))
        if key in rd:
            fn, rt = rd[key]
            if fn == 'id': return V(base.get, rt)
            if heapkey and fn == 'find':
                root = s.tr.root(t[1][1])
                a = s.expr(el[0])
                v = V('{ let __k = hp.%s_obj(%s); let __m = %s; %s_map_find(hp, __m, __k) }' % (root, a.code, base.get, root), rt, True)
                return v
            args = [base.get] + [s.expr(e).code for e in el]
            v = V('%s_%s(%s)' % (s.tr.root(t[1][1]) + '_map' if heapkey else k, fn, ', '.join(args)), rt)
            if rt[0] == 'iter' and base.guard: v.guard = base.guard
            return v
        wr = {}
        if k == 'queue': wr = {('push', 1): ('push', VOID), ('pop', 0): ('pop', VOID)}
        if k == 'stack': wr = {('push', 1): ('push', VOID), ('pop', 0): ('pop', VOID)}
        if k == 'vec': wr = {('push_back', 1): ('push', VOID), ('emplace_back', 1): ('push', VOID), ('pop_back', 0): ('pop', VOID), ('clear', 0): ('clear', VOID)}
        if k == 'set': wr = {('insert', 1): ('insert', VOID), ('emplace', 1): ('insert', VOID), ('erase', 1): ('erase', VOID), ('clear', 0): ('clear', VOID)}
        if k == 'map': wr = {('erase', 1): ('erase', VOID), ('clear', 0): ('clear', VOID)}
        if k == 'str': wr = {('push_back', 1): ('push', VOID), ('append', 1): ('append', VOID), ('clear', 0): ('clear', VOID), ('pop_back', 0): ('pop', VOID)}
        args = None
        if key in wr: fn, rt = wr[key]; args = [s.expr(e, want=t[1] if k != 'str' and k != 'map' else None).code for e in el]
        elif name == 'emplace' and k in ('queue', 'stack') or name == 'emplace_back' and k == 'vec':
            fn, rt = 'push', VOID
            et = t[1]
            if et[0] == 'pair' and len(el) == 2: args = ['(%s, %s)' % (s.expr(el[0]).code, s.expr(el[1]).code)]
            elif et[0] == 'cls':
                cands = [g for g in s.prog.funcs.values() if g.cls == et[1] and g.kind == 'CXXConstructorDecl' and len(g.params) == len(el)]
                if len(cands) != 1: raise Unsupported('emplace')
                args = [s.construct(et[1], cands[0].name, s.args(cands[0], el)).code]
            elif len(el) == 1: args = [s.expr(el[0]).code]
        elif k == 'map' and name in ('emplace', 'try_emplace', 'insert_or_assign') and len(el) == 2:
            fn = 'put' if name == 'insert_or_assign' else 'emplace'; rt = VOID
            args = [s.expr(e).code for e in el]
        elif k == 'map' and name == 'insert' and len(el) == 1:
            fn, rt = 'insert', VOID; args = [s.expr(el[0]).code]
        elif t[0] == 'lock' or (not me.get('isArrow') and s.env_lock(b)):
            return s.lock_method(b, name)
        if args is None: raise Unsupported('method %s of %s' % (name, t))
        if rt[0] == 'void' and not discard and ptype(n['type'])[0] != 'void': raise Unsupported('result of %s used' % name)
        pre = ''; al = []
        for a in args:
            if SIMPLE.match(a): al.append(a)
            else:
                x = s.fresh('__a'); pre += 'let %s = %s;\n' % (x, a); al.append(x)
        if base.ref:
            return V('{ %s%s_%s(%s); }' % (pre, k, fn, ', '.join([base.ref] + al)), rt, True)
        if base.set is None: raise Unsupported('mutating call on temporary')
        c = s.fresh('__c')
        return V('{ %slet mut %s = %s; %s_%s(%s); %s; }' % (pre, c, base.get, k, fn, ', '.join(['&mut ' + c] + al), base.set(c)), rt, True)
    def env_lock(s, b):
        b = skip(b)
        return b['kind'] == 'DeclRefExpr' and s.env.get(b['referencedDecl']['id'], (None,))[0] == 'lock'
    def lock_method(s, b, name):
        b = skip(b); l = s.env[b['referencedDecl']['id']]
        if name == 'unlock': return V('{ if %s { %s_unlock_%s(hp, %s); %s = false; } else { unlock_not_held(); } }' % (l[4], l[1], l[2], l[3], l[4]), ('void',), True)
        if name == 'lock': return V('{ %s_lock_%s(hp, %s); %s = true; }' % (l[1], l[2], l[3], l[4]), ('void',), True)
        raise Unsupported('lock method ' + name)
    def ext_method(s, cls, base, isptr, name, el, n):
        m = s.tr.cfg['ext_methods'].get((cls, name, len(el)))
        if m is None: raise Unsupported('method %s of %s' % (name, cls))
        fn, rt, mut = m
        args = [s.expr(e).code for e in el]
        pre = ''; al = []
        for a in args:
            if SIMPLE.match(a): al.append(a)
            else:
                x = s.fresh('__a'); pre += 'let %s = %s;\n' % (x, a); al.append(x)
        if isptr:
            return V('{ %s%s(%s) }' % (pre, fn + '_p', ', '.join(['hp', base] + al)), rt, True)
        if mut: return V('{ %s%s(%s) }' % (pre, fn, ', '.join([base.ref] + al)), rt, True)
        return V('{ %s%s(%s) }' % (pre, fn, ', '.join([base.get] + al)), rt, True)
    def ex_CXXOperatorCallExpr(s, n, want=None, discard=False):
        op = opname(n); inner = n['inner']; ref = skip(inner[0])
        el = [c for c in inner[1:] if c.get('kind')]
        nm = s.prog.mang.get((s.tu, ref['referencedDecl']['id'])) if ref['kind'] == 'DeclRefExpr' else None
        if nm:
            g = s.prog.funcs.get(nm)
            if g is None: raise Unsupported('no definition of ' + nm)
            if g.kind == 'CXXMethodDecl':
                th = None
                if not g.cls.startswith('hash__'):
                    lv = s.lvalue(el[0]); th = V(lv.get, ('cls', g.cls))
                return s.call_named(nm, th, s.args(g, el[1:]))
            if op == 'operator<<':
                return s.stream_user(nm, g, el)
            return s.call_named(nm, None, s.args(g, el))
        # user class method not in table (e.g. defaulted)
        if op == 'operator()':
            f0 = s.env_lambda(el[0])
            if f0 is not None: return s.call_lambda(f0, el[1:])
            v = s.expr(el[0]); t = strip_ref(v.ty)
            if t[0] == 'fn':
                enum = s.tr.fnenum(t[1]); d = enum + '__call'
                if d not in s.tr.contracts: raise Unsupported('no contract for calls through ' + enum)
                s.callee_set.add(d)
                avs = [s.expr(a) for a in el[1:]]
                r = s.emit_call(d, None, v, avs)
                rt = t[1][1]
                if rt[0] != 'void':
                    r = V(s.valued_call(d, v, avs), rt, True)
                return r
            raise Unsupported('call of %s' % (t,))
        if op == 'operator[]':
            lv = s.lvalue(n); return V(lv.get, lv.ty)
        if op == 'operator=':
            lv = s.lvalue(el[0]); t = strip_ref(lv.ty)
            if t[0] == 'bitref': pass
            v = s.expr(el[1], want=lv.ty)
            if t[0] == 'cls' and s.tr.is_heap(t[1]): raise Unsupported('object assignment')
            if lv.set is None: raise Unsupported('assignment')
            if discard: return V(lv.set(v.code), ('void',), True)
            return V('{ %s; %s }' % (lv.set(v.code), lv.get), t, True)
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a, b = s.expr(el[0]), s.expr(el[1])
            t = strip_ref(a.ty); tb = strip_ref(b.ty)
            if t[0] == 'str' and tb[0] in ('str', 'ptr'):
                o = {'==': 'str_eq(%s, %s)', '!=': '!str_eq(%s, %s)', '<': 'str_lt(%s, %s)', '>': 'str_gt(%s, %s)', '<=': '!str_gt(%s, %s)', '>=': '!str_lt(%s, %s)'}[op[8:]]
                return V('(' + o % (a.code, b.code) + ')', ('bool',))
            if t[0] == 'iter':
                e2 = skip(el[1]); g = getattr(a, 'guard', None)
                if s.tr.rt(t).startswith('FIter'):
                    if not is_end_call(e2): raise Unsupported('iterator comparison')
                    bb = s.expr(el[1])   # evaluates end(): keeps access obligations on the container
                    c = 'fiter_is_end(%s, %s)' % (a.code, bb.code)
                else:
                    c = 'siter_eq(%s, %s)' % (a.code, b.code)
                return V(c if op == 'operator==' else '!' + c, ('bool',))
            if t[0] in ('bitref', 'bool'):
                return V('(%s %s %s)' % (a.code, op[8:], b.code), ('bool',))
            if t[0] == 'pair': return V('(pair_eq(%s, %s))' % (a.code, b.code) if op == 'operator==' else '!pair_eq(%s, %s)' % (a.code, b.code), ('bool',))
            raise Unsupported('%s on %s' % (op, t))
        if op == 'operator*':
            v = s.expr(el[0]); t = strip_ref(v.ty)
            if t[0] == 'iter':
                if s.tr.rt(t).startswith('SIter'): return V('siter_get(%s)' % v.code, t[1])
                return V('fiter_pair(%s)' % v.code, t[1])
        if op == 'operator++':
            lv = s.lvalue(el[0]); t = strip_ref(lv.ty)
            if t[0] == 'iter' and lv.ref and s.tr.rt(t).startswith('SIter') and discard: return V('siter_inc(%s)' % lv.ref, ('void',), True)
        if op == 'operator<<': return s.stream(el, discard)
        if op == 'operator+':
            a, b = s.expr(el[0]), s.expr(el[1])
            if strip_ref(a.ty)[0] == 'str':
                if strip_ref(b.ty) == ('int', 'i8'): return V('str_pushed(%s, %s)' % (a.code, b.code), ('str',))
                return V('str_concat(%s, %s)' % (a.code, b.code), ('str',))
        if op == 'operator+=':
            lv = s.lvalue(el[0]); b = s.expr(el[1])
            if strip_ref(lv.ty)[0] == 'str':
                nv = 'str_pushed(%s, %s)' % (lv.get, b.code) if strip_ref(b.ty) == ('int', 'i8') else 'str_concat(%s, %s)' % (lv.get, b.code)
                return V(lv.set(nv), ('void',), True)
        raise Unsupported('operator %s' % op)
    def valued_call(s, d, v, avs):
        pre = ''; al = []
        for x in [v] + avs:
            if SIMPLE.match(x.code): al.append(x.code)
            else:
                a = s.fresh('__a'); pre += 'let %s = %s;\n' % (a, x.code); al.append(a)
        bh = s.c.hooks.get('before call ' + d, ''); ah = s.c.hooks.get('after call ' + d, '')
        for i, x in enumerate(al):
            bh = re.sub(r'\$%d\b' % (i + 1), x, bh); ah = re.sub(r'\$%d\b' % (i + 1), x, ah)
        call = '%s(hp, %s)' % (d, ', '.join(al))
        r = s.fresh('__c')
        return '{\n%s%slet %s = %s;\n%s%s\n}' % (pre, bh, r, call, ah.replace('$r', r), r)
    def env_lambda(s, e):
        e = skip(e)
        if e['kind'] == 'DeclRefExpr':
            b = s.env.get(e['referencedDecl']['id'])
            if b and b[0] == 'lambda': return b
        if e['kind'] == 'LambdaExpr': return ('lambda', e, dict(s.env), s.this, s.tu)
        return None
    def ex_LambdaExpr(s, n, **kw): return ('lambda', n, dict(s.env), s.this, s.tu)
    def call_lambda(s, lam, el):
        node, env, this, tu = lam[1:]
        op = None
        for c in node['inner']:
            if c.get('kind') == 'CXXRecordDecl':
                for m in c.get('inner', []):
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()': op = m
        if op is None: raise Unsupported('lambda')
        ps = [c for c in op.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][-1]
        if any(not cap_ref(c) for c in node['inner'] if c.get('kind') == 'FieldDecl'): pass
        args = [s.expr(e) for e in el]
        sv = s.save()
        code = ''
        ne = dict(env)
        # parameters appear twice in the dump (call operator and the trailing body share declarations)
        for p, a in zip(ps, args):
            nm = san(p.get('name') or 'unnamed') + '__l%d' % (s.tmp + 1); s.tmp += 1
            code += 'let %s: %s = %s;\n' % (nm, s.tr.rt(ptype(p['type'])), a.code)
            ne[p['id']] = ('var', nm, strip_ref(ptype(p['type'])))
        s.env = ne; s.this = this; s.tu = tu
        s.istack = s.istack + ['lambda']
        base = len(s.scopes)
        s.scopes = list(s.scopes) + [Scope()]
        s.loopscopes = []
        rt = op_rtype(op)
        b = s.tail(body.get('inner', []), base, rt)
        s.restore(sv)
        return V('{\n' + code + b + '\n}', rt, True)
    def stream(s, el, discard):
        """out << x for library operand types; the stream's accumulated text is the modelled value"""
        lhs, rhs = el
        pre = ''
        l0 = skip(lhs)
        if l0['kind'] == 'CXXOperatorCallExpr' and opname(l0) == 'operator<<':
            pre = s.expr(l0, discard=True).code + ';\n'
            tgt = s.stream_target(l0)
        else:
            tgt = s.lvalue(l0)
        r = s.expr(rhs); t = strip_ref(r.ty)
        if t[0] == 'str' or t[0] == 'ptr' and r.code.startswith('str_'): nv = 'str_concat(%s, %s)' % (tgt.get, r.code)
        elif t == ('int', 'i8'): nv = 'str_pushed(%s, %s)' % (tgt.get, r.code)
        else: raise Unsupported('streaming %s' % (t,))
        return V('{ %s%s; }' % (pre, tgt.set(nv)), ('void',), True)
    def stream_target(s, n):
        l0 = skip(n['inner'][1])
        if l0['kind'] == 'CXXOperatorCallExpr' and opname(l0) == 'operator<<': return s.stream_target(l0)
        return s.lvalue(l0)
    def stream_user(s, nm, g, el):
        lhs, rhs = el
        l0 = skip(lhs); pre = ''
        if l0['kind'] == 'CXXOperatorCallExpr' and opname(l0) == 'operator<<':
            pre = s.expr(l0, discard=True).code + ';\n'; tgt = s.stream_target(l0)
        else: tgt = s.lvalue(l0)
        lv = s.lvalue(rhs)
        c = s.call_named(nm, None, [tgt, V(lv.get, lv.ty)])
        return V('{ %s%s; }' % (pre, c.code), ('void',), True)
    def ex_UserDefinedLiteral(s, n, **kw): raise Unsupported('user-defined literal')
    def ex_CXXInheritedCtorInitExpr(s, n, **kw): raise Unsupported('inherited ctor')

def Scope_copy(x):
    y = Scope(); y.items = list(x.items); return y

def hoist_pushed(s, el, t):
    pre = ''; names = []
    for e in el:
        v = s.expr(e, want=t[1]); nm = s.fresh('__x'); pre += 'let %s = %s;\n' % (nm, v.code); names.append(nm)
    code = 'vec_new()'
    if len(names) <= 6 and names:
        code = 'vec_of%d(%s)' % (len(names), ', '.join(names))
    else:
        for nm in names: code = 'vec_pushed(%s, %s)' % (code, nm)
    return '{\n%s%s\n}' % (pre, code)

def zero(t):
    if t[0] == 'bool': return 'false'
    if t[0] == 'int': return '0' + t[1]
    if t[0] == 'ptr': return '0u64'
    raise Unsupported('default element')

def paren(c):
    if re.match(r'^[\w.]+$', c) or (c.startswith('(') and matched(c)): return c
    if re.match(r'^[\w.]+\(.*\)$', c, re.S) and matched(c[c.index('('):]): return c
    return '(' + c + ')'

def matched(c):
    d = 0
    for i, ch in enumerate(c):
        if ch in '([{': d += 1
        elif ch in ')]}':
            d -= 1
            if d == 0: return i == len(c) - 1
    return False

def skip(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr') or \
            (n.get('kind') in ('ImplicitCastExpr', 'CXXStaticCastExpr') and n['castKind'] in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueToRValue', 'ConstructorConversion')):
        n = n['inner'][0]
    return n
skipcast = skip

def plain_lvalue(n):
    k = n.get('kind')
    if k in ('DeclRefExpr', 'CXXThisExpr'): return True
    if k in ('MemberExpr', 'ImplicitCastExpr', 'ParenExpr') or k == 'UnaryOperator' and n.get('opcode') == '*': return all(plain_lvalue(c) for c in n.get('inner', []))
    return False

def is_end_call(n):
    n = skip(n)
    while n.get('kind') == 'CXXConstructExpr' and n.get('inner'): n = skip(n['inner'][0])
    if n.get('kind') == 'CXXMemberCallExpr':
        me = skip(n['inner'][0]); return me.get('name') in ('end', 'cend')
    return False

def opname(n):
    r = skip(n['inner'][0])
    return r.get('referencedDecl', {}).get('name', '?')

def norm_ct(q): return re.sub(r'liblevenshtein::(distance::)?', '', q).replace('std::', '')

def s_const(d):
    q = d['type'].get('qualType', '')
    return q.strip().startswith('const ') or q.rstrip().endswith('const &') or ' const &' in q

def find_kind(n, k):
    if not n: return None
    if n.get('kind') == k: return n
    for c in n.get('inner', []) or []:
        r = find_kind(c, k)
        if r: return r
    return None

def find_lambda(n):
    n = skip(n)
    while n.get('kind') in ('CXXConstructExpr', 'CXXFunctionalCastExpr') and n.get('inner'): n = skip(n['inner'][0])
    return n if n.get('kind') == 'LambdaExpr' else None

def has_return(n):
    if n.get('kind') == 'ReturnStmt': return True
    if n.get('kind') == 'LambdaExpr': return False
    return any(has_return(c) for c in n.get('inner', []) or [])

def has_break(n):
    if n.get('kind') in ('BreakStmt', 'ContinueStmt'): return True
    if n.get('kind') in ('LambdaExpr', 'WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt'): return False
    return any(has_break(c) for c in n.get('inner', []) or [])

def nested_loop_return(n):
    loops = ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')
    def rec(x, d):
        if x.get('kind') == 'ReturnStmt': return d > 1
        if x.get('kind') == 'LambdaExpr': return False
        if x.get('kind') in loops: d += 1
        return any(rec(c, d) for c in x.get('inner', []) or [])
    return rec(n, 0)

def terminates(n):
    k = n.get('kind')
    if k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt'): return True
    if k == 'CompoundStmt':
        i = n.get('inner', []); return bool(i) and terminates(i[-1])
    if k == 'IfStmt':
        i = [c for c in n['inner'] if c]
        i = [c for c in i if c['kind'] != 'DeclStmt']
        return len(i) == 3 and terminates(i[1]) and terminates(i[2])
    return False

def self_terminates(n):
    """every path through n ends in return"""
    k = n.get('kind')
    if k == 'ReturnStmt': return True
    if k == 'CompoundStmt':
        i = n.get('inner', []); return bool(i) and self_terminates(i[-1])
    if k == 'IfStmt':
        i = [c for c in n['inner'] if c]; i = [c for c in i if c['kind'] != 'DeclStmt']
        return len(i) == 3 and self_terminates(i[1]) and self_terminates(i[2])
    if k == 'SwitchStmt':
        b = n['inner'][-1].get('inner', [])
        hasdef = find_kind(n['inner'][-1], 'DefaultStmt') is not None
        def last(x):
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'): x = x['inner'][-1]
            return x
        return hasdef and bool(b) and not has_break(n['inner'][-1]) and self_terminates(last(b[-1])) and all(self_terminates(last(x)) or True for x in b)
    return False

MUT_METHODS = {'push', 'push_back', 'emplace', 'emplace_back', 'pop', 'pop_back', 'insert', 'erase', 'clear', 'resize', 'assign', 'append', 'swap', 'try_emplace', 'insert_or_assign', 'reserve', 'replace'}

def refs(n, pid):
    n = skip(n)
    return n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == pid

def lhs_base(n, pid):
    """does assigning to n modify variable pid?"""
    n = skip(n)
    k = n.get('kind')
    if k == 'DeclRefExpr': return n['referencedDecl'].get('id') == pid
    if k == 'MemberExpr' and not n.get('isArrow'): return lhs_base(n['inner'][0], pid)
    if k == 'ArraySubscriptExpr': return lhs_base(n['inner'][0], pid)
    if k == 'CXXOperatorCallExpr' and opname(n) == 'operator[]': return lhs_base(n['inner'][1], pid)
    return False

def mutated_var(n, pid):
    if not n: return False
    k = n.get('kind')
    if k in ('BinaryOperator', 'CompoundAssignOperator') and (n['opcode'] == '=' or k == 'CompoundAssignOperator') and lhs_base(n['inner'][0], pid): return True
    if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&') and lhs_base(n['inner'][0], pid): return True
    if k == 'CXXOperatorCallExpr':
        op = opname(n)
        if op in ('operator=', 'operator+=', 'operator++', 'operator--', 'operator<<', 'operator>>') and len(n['inner']) > 1 and lhs_base(n['inner'][1], pid): return True
        for a in n['inner'][2:]:
            if refs_nonconst(a, pid): return True
    if k == 'CXXMemberCallExpr':
        me = skip(n['inner'][0])
        if me.get('kind') == 'MemberExpr' and me['name'] in MUT_METHODS and lhs_base(me['inner'][0], pid): return True
        for a in n['inner'][1:]:
            if refs_nonconst(a, pid): return True
    if k in ('CallExpr', 'CXXConstructExpr'):
        for a in n.get('inner', [])[1 if k == 'CallExpr' else 0:]:
            if refs_nonconst(a, pid): return True
    return any(mutated_var(c, pid) for c in n.get('inner', []) or [])

def refs_nonconst(a, pid):
    # a bare lvalue argument (no const or rvalue conversion) may be bound to a non-const reference
    return a.get('kind') == 'DeclRefExpr' and a.get('referencedDecl', {}).get('id') == pid and not a['type'].get('qualType', '').startswith('const')

def mut_ref(ctx, f, n, pid, seen):
    """is reference parameter pid modified in n (following calls into repository functions)?"""
    if not n: return False
    k = n.get('kind')
    if k in ('BinaryOperator', 'CompoundAssignOperator') and (n['opcode'] == '=' or k == 'CompoundAssignOperator') and lhs_base(n['inner'][0], pid): return True
    if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&') and lhs_base(n['inner'][0], pid): return True
    if k == 'CXXOperatorCallExpr':
        op = opname(n)
        if op in ('operator=', 'operator+=', 'operator++', 'operator--', 'operator<<', 'operator>>') and len(n['inner']) > 1 and lhs_base(n['inner'][1], pid): return True
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
        ref = None
        if k == 'CallExpr':
            r = skip(n['inner'][0]); ref = ctx.prog.mang.get((f.tu, r.get('referencedDecl', {}).get('id'))); args = n['inner'][1:]
        elif k == 'CXXMemberCallExpr':
            me = skip(n['inner'][0]); args = n['inner'][1:]
            if me.get('kind') == 'MemberExpr':
                ref = ctx.prog.mang.get((f.tu, me.get('referencedMemberDecl')))
                if ref is None and me['name'] in MUT_METHODS and lhs_base(me['inner'][0], pid): return True
        elif k == 'CXXOperatorCallExpr':
            r = skip(n['inner'][0]); ref = ctx.prog.mang.get((f.tu, r.get('referencedDecl', {}).get('id'))); args = n['inner'][1:]
            g = ctx.prog.funcs.get(ref) if ref else None
            if g is not None and g.kind == 'CXXMethodDecl': args = args[1:]
            elif g is None: args = []
        else: args = n.get('inner', [])
        g = ctx.prog.funcs.get(ref) if ref else None
        for i, a in enumerate(args):
            if refs_nonconst(a, pid):
                if g is not None and i < len(g.params):
                    if ctx.byref_seen(g, g.params[i], seen): return True
                elif k != 'CXXConstructExpr':
                    if k == 'CXXOperatorCallExpr': continue
                    return True
    return any(mut_ref(ctx, f, c, pid, seen) for c in n.get('inner', []) or [])

def byref_seen(self, g, p, seen):
    q = p['type'].get('qualType', ''); t = ptype(p['type'])
    if t[0] != 'ref' or s_const(p): return False
    if t[1][0] == 'cls' and self.tr.is_heap(t[1][1]): return False
    return self.mutates(g, p['id'], seen)
Ctx.byref_seen = byref_seen

def cap_ref(fd): return True

def func_rtype(f):
    if f.rtype is None:
        f.rtype = op_rtype(f.node)
    return f.rtype

def op_rtype(node):
    q = node['type']
    s = q.get('desugaredQualType') or q['qualType']
    from cxxast import TP
    m = re.search(r'->\s*(.*)$', s)
    if s.startswith('auto ') and m:
        t = TP(m.group(1)).parse()
    else:
        # 'T (args)': cut at the first top-level '('
        d = 0
        for i, ch in enumerate(s):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0: break
        t = TP(s[:i].strip()).parse()
    return fix(t)

ALIASES = {'Candidate': ('pair', ('str',), ('int', 'u64'))}
def fix(t):
    if t[0] == 'cls' and t[1] in ALIASES: return ALIASES[t[1]]
    if t[0] == 'cls' and t[1] in ('size_t', 'uint64_t'): return ('int', 'u64')
    if t[0] in ('ref', 'rref', 'ptr'): return (t[0], fix(t[1]))
    return t
