"""Loads clang's JSON AST of the repository's translation units and indexes it.

Nothing here interprets the program: it records declarations (by clang id, per translation unit),
function definitions (by a readable unique name), class fields and enumerators.
"""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

class Unsupported(Exception):
    pass

def load_docs(text):
    dec = json.JSONDecoder(); i = 0; out = []; n = len(text)
    while i < n:
        while i < n and text[i].isspace(): i += 1
        if i >= n: break
        o, i = dec.raw_decode(text, i); out.append(o)
    return out

# ---------------------------------------------------------------- types
INTS = {'unsigned long': 'u64', 'unsigned long long': 'u64', 'long': 'i64', 'long long': 'i64', 'int': 'i32',
        'unsigned int': 'u32', 'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16',
        'unsigned short': 'u16', 'std::size_t': 'u64', 'size_t': 'u64', 'uint64_t': 'u64', 'std::uint64_t': 'u64',
        'uint32_t': 'u32', 'int32_t': 'i32', 'int64_t': 'i64', 'std::ptrdiff_t': 'i64', 'ptrdiff_t': 'i64',
        'uint8_t': 'u8', '__uint64_t': 'u64', 'unsigned': 'u32', 'size_type': 'u64', 'difference_type': 'i64'}

def tokenize(s):
    return re.findall(r'[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_~][A-Za-z_0-9]*)*|::|\d+[uUlL]*|&&|[<>,*&()\[\]]|\.\.\.|->', s)

class TP:
    """tiny parser for the type strings clang prints"""
    def __init__(self, s):
        m = re.match(r'^(const )?\(lambda at', s)
        if '(lambda at' in s or '(anonymous' in s:
            self.lam = True; self.t = []
        else:
            self.lam = False; self.t = tokenize(s)
        self.i = 0; self.s = s
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.peek(); self.i += 1; return x
    def parse(self):
        if self.lam: return ('lambda',)
        ty = self.base()
        return self.suffix(ty)
    def suffix(self, ty):
        while True:
            p = self.peek()
            if p == '*': self.next(); ty = ('ptr', ty)
            elif p == '&' : self.next(); ty = ('ref', ty)
            elif p == '&&': self.next(); ty = ('rref', ty)
            elif p in ('const', 'volatile', 'noexcept', 'restrict'):
                self.next()
            elif p == '[':
                self.next(); n = self.next()
                if n != ']':
                    self.next()
                ty = ('carr', ty, n)
            elif p == '(':
                # function type: T (args)
                self.next()
                if self.peek() == '*':
                    self.next()
                    if self.peek() == ')': self.next()
                    ty = ('ptr', ty); continue
                args = []
                while self.peek() not in (')', None):
                    args.append(self.parse_one())
                    if self.peek() == ',': self.next()
                self.next()
                ty = ('func', ty, tuple(args))
                while self.peek() in ('const', 'noexcept'): self.next()
                if self.peek() == '->':
                    self.next(); rt = self.parse_one(); ty = ('func', rt, ty[2])
            else:
                return ty
    def parse_one(self):
        return self.suffix(self.base())
    def base(self):
        words = []
        while True:
            p = self.peek()
            if p in ('const', 'volatile', 'typename', 'struct', 'class', 'enum'):
                self.next(); continue
            if p is None: break
            if p == '::':
                self.next(); continue
            if re.match(r'^\d', p):
                self.next(); return ('num', int(re.match(r'\d+', p).group()))
            if re.match(r'^[A-Za-z_]', p):
                if words and not (words[-1] in ('unsigned', 'long', 'signed', 'short')):
                    break
                words.append(self.next()); 
                continue
            break
        if not words: raise Unsupported('type ' + self.s)
        name = ' '.join(words)
        args = None
        if self.peek() == '<':
            self.next(); args = []
            while self.peek() not in ('>', None):
                if self.peek() == '(':       # (liblevenshtein::Algorithm)0
                    self.next(); self.parse_one(); self.next(); args.append(('num', int(re.match(r'\d+', self.next()).group())))
                else:
                    args.append(self.parse_one())
                if self.peek() == ',': self.next()
            self.next()
            # nested ::member after template args
            if self.peek() == '::':
                self.next(); mem = self.next()
                name = name + '::' + mem
                return ('named', name, tuple(args))
        return mk(name, args)

_PP = ('ptr', ('cls', 'Position'))
ALIAS = {'Comparator': ('fn', ('func', ('int', 'i32'), (_PP, _PP))), 'Candidate': ('pair', ('str',), ('int', 'u64'))}
ALGS = ['STANDARD', 'TRANSPOSITION', 'MERGE_AND_SPLIT']

def short(name):
    return name.split('::')[-1]

def mk(name, args):
    n = name
    if n in INTS and args is None: return ('int', INTS[n])
    if n == 'bool' or n == '_Bool': return ('bool',)
    if n == 'void': return ('void',)
    if n == 'auto': return ('auto',)
    s = short(n)
    if n.startswith('std::') or not n.startswith('liblevenshtein'):
        if s in ('string', 'basic_string'): return ('str',)
        if args is not None:
            a = [unconst(x) for x in args]
            arity = {'queue': 1, 'stack': 1, 'set': 1, 'unordered_set': 1, 'map': 2, 'unordered_map': 2}.get(s)
            if arity and any(not any(d in repr(x) for d in ("'std::less", "'std::hash", "'std::equal_to", "'std::allocator", "'less'", "'hash'", "'equal_to'", "'allocator'", "'std::deque", "'deque", "hash__")) for x in a[arity:]):
                return ('named', n, tuple(args))
            if s == 'vector': return ('vec', a[0])
            if s == 'initializer_list': return ('ilist', a[0])
            if s == 'queue': return ('queue', a[0])
            if s == 'stack': return ('stack', a[0])
            if s == 'map': return ('map', a[0], a[1])
            if s == 'unordered_map': return ('umap', a[0], a[1])
            if s == 'set': return ('set', a[0])
            if s == 'unordered_set': return ('uset', a[0])
            if s == 'list': return ('list', a[0])
            if s == 'pair': return ('pair', a[0], a[1])
            if s == 'array': return ('array', a[0], a[1])
            if s == 'function': return ('fn', a[0])
            if s in ('shared_lock', 'unique_lock', 'lock_guard', 'scoped_lock'): return ('lock', s)
            if s in ('_Rb_tree_const_iterator', '_Rb_tree_iterator', '_List_iterator', '_List_const_iterator', '_Node_iterator', '_Node_const_iterator',
                     '_Node_iterator_base'):
                kind = 'tree' if 'Rb_tree' in s else 'list' if 'List' in s else 'hash'
                return ('iter', a[0], kind)
            if s == '__normal_iterator':
                return ('iter', a[0][1] if a[0][0] == 'ptr' else a[0], 'vec')
            if s in ('basic_ostream', 'basic_stringstream', 'basic_ostringstream', 'basic_iostream'): return ('stream',)
            if s == 'hash': return ('cls', 'hash__' + tyname(a[0]))
            if s == 'tuple_element' or s == 'tuple_element_t': 
                return ('named', n, tuple(args))
        if s in ('ostream', 'stringstream', 'ostringstream', 'basic_ostream'): return ('stream',)
        if s in ('shared_mutex', 'mutex', 'shared_timed_mutex'): return ('mutex',)
        if s == '_Bit_reference': return ('bitref',)
        if s == 'nullptr_t': return ('nullptr',)
    # repository class
    cls = s
    if args is None and s in ALIAS: return ALIAS[s]
    if args is not None:
        cls = s + '__' + '_'.join(tyname(x) for x in args)
    return ('cls', cls)

def unconst(t): return t

def tyname(t):
    if not t: return ''
    k = t[0]
    if isinstance(k, tuple): return '_'.join(tyname(x) for x in t)
    if k == 'int': return t[1]
    if k == 'str': return 'string'
    if k == 'num': return ALGS[t[1]] if t[1] < 3 else str(t[1])
    if k == 'cls': return t[1]
    if k == 'pair': return 'pair'
    if k == 'iter': return t[2] + 'iter'
    if k == 'ptr': return 'p' + tyname(t[1])
    if k == 'ref': return tyname(t[1])
    if k == 'rref': return 'rr' + tyname(t[1])
    if len(t) > 1: return k + '_' + '_'.join(tyname(x) if isinstance(x, tuple) else str(x) for x in t[1:])
    return k

_cache = {}
def ptype(tnode):
    """type node ({'qualType':..., 'desugaredQualType':...}) -> parsed type"""
    s = tnode.get('desugaredQualType') or tnode.get('qualType')
    if s not in _cache:
        _cache[s] = TP(s).parse()
    return _cache[s]

def strip_ref(t):
    while t[0] in ('ref', 'rref'): t = t[1]
    return t

# ---------------------------------------------------------------- program index
class Func:
    def __init__(s, name, node, tu, cls, kind, mangled):
        s.name, s.node, s.tu, s.cls, s.kind, s.mangled = name, node, tu, cls, kind, mangled
        s.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        s.body = next((c for c in node.get('inner', []) if c.get('kind') == 'CompoundStmt'), None)
        s.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        s.static = node.get('storageClass') == 'static'
        s.rtype = None

class Cls:
    def __init__(s, name):
        s.name = name; s.fields = []; s.bases = []; s.virtuals = set(); s.has_dtor = False; s.finit = {}; s.poly = False

class Program:
    def __init__(s):
        s.funcs = {}      # readable name -> Func (definition)
        s.mang = {}       # (tu or None, mangled) -> readable name
        s.classes = {}    # class name -> Cls
        s.ids = {}        # (tu,id) -> decl node
        s.idcls = {}      # (tu,id) -> class name of method / field
        s.enums = {}      # enumerator name -> value
        s.errors = []
        s.overrides = {}  # class -> set of method names defined

def demangle(names):
    names = sorted(n for n in names if n)
    if not names: return {}
    out = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))

def split_targs(s):
    """'merge<(A)0>' -> ('merge', '<...>')"""
    if s.startswith('operator'):
        return s, ''
    i = s.find('<')
    return (s, '') if i < 0 else (s[:i], s[i:])

OPN = {'operator()': 'call', 'operator==': 'eq', 'operator!=': 'ne', 'operator*': 'deref', 'operator++': 'inc', 'operator<<': 'shl', 'operator<': 'lt', 'operator[]': 'idx',
       'operator->': 'arrow', 'operator=': 'assign'}

def qual_split(d):
    """split demangled signature into (list of qualified components, params text)"""
    # cut the parameter list: last top-level '('
    depth = 0; i = 0
    d = d.replace('(anonymous namespace)::', '')
    d = re.sub(r'\[abi:[^\]]*\]', '', d)
    comps = []; cur = ''; n = len(d)
    # drop return type for templates: find the start of the name is handled by taking last space at depth 0 before '('
    pos = None; depth = 0; k = 0
    while k < n:
        c = d[k]
        if d.startswith('operator()', k): k += 10; continue
        if d.startswith('operator<<', k): k += 10; continue
        if d.startswith('operator->', k): k += 10; continue
        if d.startswith('operator<', k): k += 9; continue
        if c == '<': depth += 1
        elif c == '>' : depth -= 1
        elif c == '(':
            if depth == 0: pos = k; break
            # parenthesised inside template args
        k += 1
    name = d if pos is None else d[:pos]
    params = '' if pos is None else d[pos:]
    # remove return type
    depth = 0; cut = 0; k = 0
    while k < len(name):
        c = name[k]
        if name.startswith('operator', k): break
        if c in '<(': depth += 1
        elif c in '>)': depth -= 1
        elif c == ' ' and depth == 0: cut = k + 1
        k += 1
    name = name[cut:]
    depth = 0; k = 0
    while k < len(name):
        if name.startswith('operator', k) and depth == 0:
            cur += name[k:]; break
        c = name[k]
        if c in '<(': depth += 1
        elif c in '>)': depth -= 1
        if depth == 0 and name.startswith('::', k):
            comps.append(cur); cur = ''; k += 2; continue
        cur += c; k += 1
    comps.append(cur)
    return comps, params

def targ_name(t):
    inner = t[1:-1]
    inner = inner.replace('(liblevenshtein::Algorithm)', '')
    try:
        p = TP('x<' + inner + '>')
        p.next(); p.next(); args = []
        while p.peek() not in ('>', None):
            args.append(p.parse_one())
            if p.peek() == ',': p.next()
        return '__' + '_'.join(tyname(a) for a in args)
    except Exception:
        return '__' + re.sub(r'\W+', '_', inner)

def readable(dem, nparams, special=None):
    comps, params = qual_split(dem)
    comps = [c for c in comps if c not in ('liblevenshtein', 'distance') or comps.index(c) == len(comps) - 1]
    # keep a function really called 'distance'
    out = []
    for c in comps:
        b, t = split_targs(c)
        if b in ('std', '__cxx11') and c is not comps[-1]: continue
        b = OPN.get(b, b)
        b = re.sub(r'\W', '_', b)
        out.append(b + (targ_name(t) if t else ''))
    return out

def walk(n, f, ctx=None):
    f(n)
    for c in n.get('inner', []) or []:
        walk(c, f)

def dump(repo, gen, path, scratch):
    cmd = ['clang++', '-std=c++20', '-I' + repo + '/src', '-I' + repo + '/third-party', '-I' + repo + '/third-party/MurmurHash2', '-I' + gen, '-fsyntax-only', '-Wno-everything',
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=liblevenshtein', path]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=240)
    if r.returncode != 0:
        raise Unsupported('clang failed on %s: %s' % (path, r.stderr[-2000:]))
    return load_docs(r.stdout)

def index(prog, tu, docs):
    pend = []   # function nodes with their class context
    mangled = set()
    def rec(n, cls, intemplate):
        k = n.get('kind')
        if not k: return
        if k == 'NamespaceDecl' and n.get('name') == 'proto': return
        if 'id' in n: prog.ids.setdefault((tu, n['id']), n)
        if k in ('FunctionTemplateDecl', 'ClassTemplateDecl'):
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck in ('ClassTemplateSpecializationDecl',):
                    rec(c, cls, False)
                elif ck in ('FunctionDecl', 'CXXMethodDecl') and c.get('mangledName') and any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                    rec(c, cls, False)
                else:
                    rec(c, cls, True)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        if 'type' in c: args.append(ptype(c['type']))
                        elif 'value' in c: args.append(('num', int(c['value'])))
                        else:
                            args.append(('num', -1))
                nm = nm + '__' + '_'.join(tyname(a) for a in args)
            if intemplate:
                for c in n.get('inner', []): rec(c, None, True)
                return
            if n.get('completeDefinition') and nm:
                cl = prog.classes.get(nm)
                new = cl is None
                if new:
                    cl = Cls(nm); prog.classes[nm] = cl
                    for b in n.get('bases', []):
                        cl.bases.append(ptype(b['type'])[1])
                    if n.get('definitionData', {}).get('isPolymorphic'): cl.poly = True
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl' and 'name' in c:
                        prog.idcls[(tu, c['id'])] = nm
                        if new:
                            cl.fields.append((c['name'], ptype(c['type'])))
                            if c.get('hasInClassInitializer') and c.get('inner'):
                                cl.finit[c['name']] = (tu, c['inner'][0])
            for c in n.get('inner', []):
                rec(c, nm or cls, False)
            return
        if k == 'EnumDecl':
            v = 0
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    if c.get('inner') and 'value' in c['inner'][0]: v = int(c['inner'][0]['value'])
                    prog.enums[c['name']] = v; v += 1
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            if intemplate:
                pass
            else:
                m = n.get('mangledName')
                if m:
                    mangled.add(m); pend.append((n, cls, m))
                if k != 'FunctionDecl' : prog.idcls[(tu, n['id'])] = cls
            # index nested declarations (params, locals)
            for c in n.get('inner', []):
                walk(c, lambda x: prog.ids.setdefault((tu, x['id']), x) if 'id' in x else None)
            return
        if k == 'VarDecl':
            return
        for c in n.get('inner', []) or []:
            if isinstance(c, dict): rec(c, cls, intemplate)
    for d in docs:
        rec(d, None, False)
    return pend, mangled

def build(repo, gen, files, scratch=None):
    prog = Program()
    with ThreadPoolExecutor(8) as ex:
        futs = [(f, ex.submit(dump, repo, gen, f, scratch)) for f in files]
        res = []
        for f, fu in futs:
            try: res.append((f, fu.result()))
            except Exception as e: prog.errors.append('%s: %s' % (f, e))
    allp = []; allm = set()
    for f, docs in res:
        tu = os.path.relpath(f, repo)
        pend, m = index(prog, tu, docs)
        allp += [(tu,) + p for p in pend]; allm |= m
    dm = demangle(allm)
    prog.names = {}
    # first, compute names; definitions and declarations share a mangled name
    groups = {}
    info = {}
    for tu, n, cls, m in allp:
        k = n['kind']
        ps = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        internal = n.get('storageClass') == 'static' and k == 'FunctionDecl' or m.startswith('_ZL') or '12_GLOBAL__N_' in m
        key = (tu, m) if internal else m
        if key in info: continue
        comps = readable(dm.get(m, m), len(ps))
        if k == 'CXXConstructorDecl': comps[-1] = 'ctor'
        elif k == 'CXXDestructorDecl': comps[-1] = 'dtor'
        base = '__'.join(comps) + '_%d' % len(ps)
        pts = re.sub(r'\W', '_', '_'.join(tyname(ptype(c['type'])) for c in ps))
        info[key] = (base, pts)
        groups.setdefault(base, set()).add(key)
    used = set()
    for key, (base, pts) in info.items():
        nm = base if len(groups[base]) == 1 else base + '__' + pts
        i = 2; n0 = nm
        while nm in used:
            nm = n0 + '_%d' % i; i += 1
        used.add(nm); prog.names[key] = nm
    for tu, n, cls, m in allp:
        k = n['kind']
        nparams = sum(1 for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl')
        key = (tu, m) if (tu, m) in prog.names else m
        nm = prog.names[key]
        prog.mang[(tu, n['id'])] = nm
        body = any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', []))
        c2 = cls
        if k != 'FunctionDecl':
            rc = readable(dm.get(m, m), nparams)
            c2 = rc[-2] if len(rc) >= 2 else cls
        prog.idcls[(tu, n['id'])] = c2
        if k == 'CXXDestructorDecl' and c2 in prog.classes and not n.get('isImplicit') and not n.get('explicitlyDefaulted'):
            prog.classes[c2].has_dtor = True
        if n.get('virtual') and c2 in prog.classes:
            prog.classes[c2].virtuals.add(n['name'] + '/%d' % nparams)
        if body and (nm not in prog.funcs) and not n.get('isImplicit'):
            prog.funcs[nm] = Func(nm, n, tu, c2 if k != 'FunctionDecl' else None, k, m)
    for tu, n, cls, m in allp:
        if n['kind'] == 'CXXMethodDecl' and n.get('storageClass') == 'static':
            nm = prog.names.get(m)
            if nm in prog.funcs: prog.funcs[nm].static = True
    prog.dm = dm
    return prog

if __name__ == '__main__':
    import glob
    p = build(sys.argv[1], sys.argv[2], sorted(glob.glob(sys.argv[1] + '/src/**/*.cpp', recursive=True)))
    print(p.errors)
    for k, f in sorted(p.funcs.items()): print(k, f.cls, f.tu, f.kind)
    for k, c in sorted(p.classes.items()): print(k, c.bases, c.fields, c.has_dtor, c.poly, c.virtuals)
    print(p.enums)
