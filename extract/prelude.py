"""Generates the heap model (one finite map of records per class hierarchy) from the classes clang reports."""
from cxxast import Unsupported, ptype
import os

HERE = os.path.dirname(os.path.abspath(__file__))

def heap_text(tr, roots, cells):
    """roots: heap classes; cells: [(cell name, rust type)]"""
    t = ''
    heap_fields = []
    for c in sorted(tr.value_classes):
        if c not in tr.prog.classes: continue
        try:
            fs = ['    pub %s: %s,' % (f, tr.rt(ty)) for f, ty in tr.prog.classes[c].fields]
        except Unsupported: continue
        t += '#[derive(Clone, Copy)]\npub struct %s_o {\n%s\n}\n' % (c, '\n'.join(fs))
    for e, vs in tr.fnenums.items():
        arms = ['Empty']
        for v in vs: arms.append('%s(%s_o)' % (v, v) if tr.is_value(v) else v)
        t += '#[derive(Clone, Copy)]\npub enum %s { %s }\n' % (e, ', '.join(arms))
    m = ''
    def upd(root, expr): return 'Heap { %s: %s, ..*old(self) }' % (root, expr)
    def ops(root, rec):
        s = ''
        s += '''#[verifier::external_body]
pub fn {r}_new(&mut self, o: {o}) -> (r: Addr)
    ensures r != 0, !old(self).{r}.contains_key(r), *final(self) == ({u1}) {{ unimplemented!() }}
#[verifier::external_body]
pub fn {r}_free(&mut self, a: Addr)
    requires old(self).{r}.contains_key(a) ensures *final(self) == ({u2}) {{ unimplemented!() }}
'''.format(r=root, o=rec, u1=upd(root, 'old(self).%s.insert(r, o)' % root), u2=upd(root, 'old(self).%s.remove(a)' % root))
        return s
    for root in roots:
        fields = []
        for f, ty, dc in tr.all_fields(root): fields.append((f, tr.rt(ty)))
        if root in tr.cfg['tags']: fields.append(('cls_tag', 'u64'))
        t += '#[derive(Clone, Copy)]\npub struct %s_o {\n%s\n}\n' % (root, '\n'.join('    pub %s: %s,' % x for x in fields) or '')
        heap_fields.append((root, 'Map<Addr, %s_o>' % root))
        m += ops(root, root + '_o')
        m += '''#[verifier::external_body]
pub fn {r}_obj(&self, a: Addr) -> (r: {r}_o) requires self.{r}.contains_key(a) ensures r == self.{r}[a] {{ unimplemented!() }}
'''.format(r=root)
        for f, rt in fields:
            mx = tr.guards.get((root, f))
            g1 = ', self.%s[a].%s >= 1' % (root, mx) if mx else ''
            g2 = ', old(self).%s[a].%s == 2' % (root, mx) if mx else ''
            m += '''#[verifier::external_body]
pub fn {r}_get_{f}(&self, a: Addr) -> (r: {t}) requires self.{r}.contains_key(a){g1} ensures r == self.{r}[a].{f} {{ unimplemented!() }}
#[verifier::external_body]
pub fn {r}_set_{f}(&mut self, a: Addr, v: {t}) requires old(self).{r}.contains_key(a){g2} ensures *final(self) == ({u}) {{ unimplemented!() }}
'''.format(r=root, f=f, t=rt, g1=g1, g2=g2, u=upd(root, 'old(self).{r}.insert(a, {r}_o {{ {f}: v, ..old(self).{r}[a] }})'.format(r=root, f=f)))
            if mx:
                m += '''pub fn {r}_guard_{f}(&self, a: Addr) requires self.{r}.contains_key(a){g1} {{ }}
'''.format(r=root, f=f, g1=g1)
    for cell, rt in cells:
        heap_fields.append((cell, 'Map<Addr, %s>' % rt))
        m += ops(cell, rt)
        m += '''#[verifier::external_body]
pub fn {r}_get(&self, a: Addr) -> (r: {t}) requires self.{r}.contains_key(a) ensures r == self.{r}[a] {{ unimplemented!() }}
#[verifier::external_body]
pub fn {r}_set(&mut self, a: Addr, v: {t}) requires old(self).{r}.contains_key(a) ensures *final(self) == ({u}) {{ unimplemented!() }}
'''.format(r=cell, t=rt, u=upd(cell, 'old(self).%s.insert(a, v)' % cell))
    t += '#[verifier::ext_equal]\npub struct Heap {\n%s\n}\n' % '\n'.join('    pub %s: %s,' % x for x in heap_fields)
    t += 'impl Heap {\n' + m + '}\n'
    return t
