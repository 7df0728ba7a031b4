"""Assembles one Verus file per property from extracted functions, contracts,
dependency stubs and lemmas, runs Verus on it and classifies the outcome."""
import json, os, re, subprocess, time, hashlib
from fractions import Fraction
from . import extract, external
from .extract import Contract, FnRenderer, load_contracts, dump, walk, let_names, shape, operators, calls, Unsupported, AnchorLost, SRC, VERIF

VX = os.path.join(VERIF, 'vx')
BASE = os.path.join(VX, 'baseline.json')
ROOTS = ['bitvec', 'ndarray', 'labrador_ldpc', 'dwt', 'ed25519', 'ed25519_dalek', 'image', 'imageproc', 'num', 'utils', 'encoding',
         'embedding', 'three_bit_quantization', 'signature', 'watermarking', 'zernike', 'moments', 'feature', 'image_features', 'cli', 'web', 'js_sys']

CASTS = ['u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'i128', 'u128']


def gen_casts():
    out = ['pub trait VxAs<T>: Sized { spec fn as_ens(self, r: T) -> bool; fn vx_as(self) -> (r: T) ensures self.as_ens(r); }']
    for a in CASTS:
        for b in CASTS:
            out.append('impl VxAs<%s> for %s { #[verifier::inline] open spec fn as_ens(self, r: %s) -> bool { r == self as %s } '
                       'fn vx_as(self) -> (r: %s) { #[verifier::truncate] (self as %s) } }' % (b, a, b, b, b, b))
    for b in CASTS:
        out.append('impl VxAs<%s> for bool { #[verifier::inline] open spec fn as_ens(self, r: %s) -> bool { r == (if self { 1%s } else { 0%s }) } '
                   'fn vx_as(self) -> (r: %s) { if self { 1 } else { 0 } } }' % (b, b, b, b, b))
    out.append('pub fn vx_conv<T, A: VxAs<T>>(a: A) -> (r: T) ensures a.as_ens(r) { a.vx_as() }')
    return '\n'.join(out)


def gen_float_casts():
    out = []
    for b in CASTS:
        out.append('impl VxAs<%s> for f64 { open spec fn as_ens(self, r: %s) -> bool { fin(self) ==> '
                   'r as int == clamp_int(trunc_real(val(self)), %s::MIN as int, %s::MAX as int) } '
                   '#[verifier::external_body] fn vx_as(self) -> (r: %s) { self as %s } }' % (b, b, b, b, b, b))
        out.append('impl VxAs<f64> for %s { open spec fn as_ens(self, r: f64) -> bool { fin(r) && int_as_f64(self as int, r) } '
                   '#[verifier::external_body] fn vx_as(self) -> (r: f64) { self as f64 } }' % b)
    for a in CASTS + ['f64', 'f32']:
        # single precision is outside the contracts: nothing is known of such a number
        out.append('impl VxAs<f32> for %s { open spec fn as_ens(self, r: f32) -> bool { true } #[verifier::external_body] fn vx_as(self) -> (r: f32) { self as f32 } }' % a)
        if a != 'f32':
            out.append('impl VxAs<%s> for f32 { open spec fn as_ens(self, r: %s) -> bool { true } #[verifier::external_body] fn vx_as(self) -> (r: %s) { self as %s } }' % (a, a, a, a))
    out.append('impl VxAs<f64> for f64 { open spec fn as_ens(self, r: f64) -> bool { r == self } fn vx_as(self) -> (r: f64) { self } }')
    return '\n'.join(out)


GEN = {'casts': gen_casts, 'float_casts': gen_float_casts}


def baseline():
    if os.path.exists(BASE):
        return json.load(open(BASE))
    return {}


class File:
    def __init__(self, rel, d, path):
        self.rel = rel
        self.path = path
        self.src = open(self.path, 'rb').read()
        if 'error' in d:
            raise Unsupported('%s: %s' % (rel, d['error']))
        self.items = d['items']
        self.fns = {}
        for it in self.items:
            if it['k'] == 'fn':
                self.fns[it['name']] = (it, None)
            elif it['k'] == 'impl':
                for f in it['fns']:
                    self.fns['%s::%s' % (it['self'], f['name'])] = (f, it)
            elif it['k'] == 'trait':
                for f in it['fns']:
                    self.fns['trait %s::%s' % (it['name'], f['name'])] = (f, it)


# what parts prove of the source of the dependency
PROVED = {'dwtmod': ' (proved of the source of the crate by the check of C15)', 'ldpc': ' (for undamaged words proved of the source of the crate by the check of C05)'}


def trusted_items(name, t):
    """Mechanical scan of a prelude for what is assumed rather than proved."""
    out = []
    gen = t.count('fn vx_as(self)')
    for m in re.finditer(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?(fn|struct) (\w+)', t):
        if m.group(2) != 'vx_as':
            out.append('%s: assumed contract of %s' % (name, m.group(2)))
    for m in re.finditer(r'axiom fn (\w+)', t):
        out.append('%s: axiom %s' % (name, m.group(1)))
    for m in re.finditer(r'\b(assume|admit)\(', t):
        out.append('%s: %s' % (name, m.group(1)))
    if gen and name == 'floats':
        out.append('floats: casts between f64 and integers (generated)')
    return sorted(set(out))


def modpath(rel):
    crate, rest = rel.split('/src/')
    crate = crate.replace('-', '_')
    parts = rest[:-3].split('/')
    if parts[-1] in ('lib', 'mod', 'main'):
        parts = parts[:-1]
    return [crate] + parts


class Unit:
    """files: {rel: {'roots': [...], 'use': extra}}"""

    def __init__(self, spec, mode='accept', canary=False, update=None):
        self.spec = spec
        self.mode = mode
        self.canary = canary
        self.trace = {}
        self.lines = []
        self.map = []            # (first line, last line, 'file::fn')
        self.contracted = []
        self.uncontracted = []
        self.canaries = {}       # line -> label
        self.labels = []
        self.floats = set()
        self.shapes = {}
        self.names = {}
        self.ops = {}
        self.calls = {}
        self.unbounded = []      # functions whose loops have no measure
        self.has_refuse = False
        self.base = baseline()
        self.trusted = []

    def w(self, text):
        self.lines += text.split('\n')

    def build(self):
        spec = self.spec
        rels = list(spec['files'])
        at = {r: external.prepare(r) if spec['files'][r].get('external') else os.path.join(SRC, r) for r in rels}
        d = dump([at[r] for r in rels])
        self.files = {r: File(r, d[at[r]], at[r]) for r in rels}
        self.inline_helpers()
        want = self.closure()
        tree = {}
        for r in rels:
            tree[tuple(modpath(r))] = r
        body = []
        self.render_modules(tree, want)
        out = self.text()
        for i, line in enumerate(out.split('\n')):
            for m in re.finditer(r'assert\(vx_canary\((\d+)\)\);', line):
                self.canaries.setdefault(i + 1, []).append(self.labels[int(m.group(1))])
        return out

    def inline_helpers(self):
        """Functions that are neither under contract nor known from the tree the contracts were written for
        (extracted helpers) are replaced by their statements where they are called."""
        for r, f in self.files.items():
            cf = self.contract_file(r)
            known = set(load_contracts(cf)) if os.path.exists(cf) else set()

            def resolver(owner):
                def resolve(path, method):
                    parts = path.split('::')
                    if method or parts[0] == 'Self':
                        key = owner and '%s::%s' % (owner, parts[-1])
                    elif len(parts) == 1 or parts[:-1] in (['self'], ['crate']):
                        key = parts[-1]
                    else:
                        key = '::'.join(parts[-2:])
                    if not key or key not in f.fns or key in known or (r + '::' + key) in self.base:
                        return None
                    fn, imp = f.fns[key]
                    if not method and any(p['k'] == 'self' for p in fn['params']):
                        return None
                    return fn
                return resolve
            done = {}
            for key, (fn, imp) in f.fns.items():
                if fn.get('body'):
                    done[key] = (json.loads(json.dumps(fn['body'])), imp)
            for key, (b, imp) in done.items():
                b = extract.inline_calls(b, resolver(imp['self'] if imp and imp.get('self') else None))
                f.fns[key][0]['body'] = b

    def contract_file(self, rel):
        o = self.spec['files'][rel]
        return os.path.join(VX, 'contracts', o['vxc'] if o.get('vxc') else rel.replace('/src/', '__').replace('/', '__').replace('.rs', '.vxc'))

    # ---- which functions
    def closure(self):
        """Functions reachable from the unit's roots inside the unit's files."""
        byname = {}
        for r, f in self.files.items():
            for key in f.fns:
                if key.startswith('trait '):
                    continue
                byname.setdefault(key.split('::')[-1], []).append((r, key))
        want = set()
        todo = []
        for r, o in self.spec['files'].items():
            for root in o.get('roots', []):
                if root not in self.files[r].fns:
                    raise AnchorLost('function %s not found in %s' % (root, r))
                todo.append((r, root))
        while todo:
            x = todo.pop()
            if x in want:
                continue
            want.add(x)
            fn, _ = self.files[x[0]].fns[x[1]]
            if not fn.get('body'):
                continue
            if x[1] in self.spec['files'][x[0]].get('assume', []):
                continue
            for n in walk(fn['body']):
                name = None
                if n['k'] == 'call' and n['f']['k'] == 'path':
                    name = n['f']['p'].split('::')[-1]
                    qual = n['f']['p'].split('::')
                    cands = byname.get(name, [])
                    if len(qual) >= 2:
                        if qual[-2] == 'Self':
                            c2 = [c for c in cands if c[0] == x[0] and '::' in c[1]]
                        else:
                            c2 = [c for c in cands if c[1] == qual[-2] + '::' + name]
                            if not c2:
                                c2 = [c for c in cands if '::' not in c[1] and modpath(c[0])[-1] == qual[-2]]
                        cands = c2
                    else:
                        cands = [c for c in cands if '::' not in c[1]]
                        if len(cands) > 1:
                            same = [c for c in cands if c[0] == x[0]]
                            cands = same or cands
                    todo += cands
                elif n['k'] == 'method':
                    if n['m'] in extract.RENAME or n['m'] in extract.ITER_ADAPT | extract.ITER_END:
                        continue
                    todo += [c for c in byname.get(n['m'], []) if '::' in c[1]]
                elif n['k'] == 'path':
                    name = n['p'].split('::')[-1]
                    todo += [c for c in byname.get(name, []) if '::' not in c[1] and c[0] == x[0] and n['p'] == name]
        return want

    # ---- text
    def render_modules(self, tree, want):
        spec = self.spec
        self.w('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_assignments)]')
        self.w('#![allow(private_interfaces, private_bounds, unused_must_use, path_statements)]')
        self.w('use vstd::prelude::*;')
        self.w('verus! {')
        self.w('global size_of usize == 8;')
        pre = ['core'] + spec.get('prelude', [])
        self.groups = []
        fl_at = None
        for p in pre:
            t = open(os.path.join(VX, 'prelude', p + '.rs')).read()
            t = self.expand(re.sub(r'/\*GEN:(\w+)\*/', lambda m: GEN[m.group(1)](), t))
            if '/*PANIC*/' in t:
                t = t.replace('/*PANIC*/', '#[verifier::external_body] pub fn vx_panic() -> ! %s { panic!() }' % (
                    'requires false' if self.mode != 'refuse' else 'ensures false'))
            if 'broadcast group group_%s' % p in t:
                self.groups.append('crate::vx_%s::group_%s' % (p, p))
            if p == 'floats':
                self.groups.append('crate::vx_floats::group_lits')
            self.trusted += [x + PROVED.get(p, '') for x in trusted_items(p, t)]
            start = len(self.lines) + 1
            self.w('pub mod vx_%s { use vstd::prelude::*; %s' % (p, ' '.join('use crate::vx_%s::*;' % q for q in pre[:pre.index(p)])))
            if p == 'floats':
                fl_at = len(self.lines)
            self.w(t)
            self.w('}')
            self.map.append((start, len(self.lines), 'prelude:' + p))
        lem = spec.get('lemmas', [])
        lgroups = []
        for i, l in enumerate(lem):
            t = open(os.path.join(VX, 'lemmas', l + '.rs')).read()
            t = self.expand(t)
            start = len(self.lines) + 1
            self.w('pub mod vxl_%s { use vstd::prelude::*; %s %s' % (
                l, ' '.join('use crate::vx_%s::*;' % q for q in pre), ' '.join('use crate::vxl_%s::*;' % q for q in lem[:i])))
            self.w('broadcast use {vstd::seq::group_seq_axioms, vstd::group_vstd_default%s};' % ''.join(', ' + g for g in self.groups) if self.groups else '')
            self.w(t)
            self.w('}')
            self.map.append((start, len(self.lines), 'lemma:' + l))
        self.allpre = ['crate::vx_%s' % q for q in pre] + ['crate::vxl_%s' % q for q in lem]
        have = set()
        for q in pre:
            t = open(os.path.join(VX, 'prelude', q + '.rs')).read()
            m = re.search(r'//\s*ROOTS:\s*(.*)', t)
            if m:
                for x in m.group(1).split():
                    have.add(x)
                    self.w('pub use vx_%s::%s;' % (q, x))
        crates = sorted({k[0] for k in tree})
        self.roots = sorted(have | set(crates))
        # nested module tree
        nested = {}
        for k in tree:
            cur = nested
            for part in k:
                cur = cur.setdefault(part, {})
        self.emit_tree(nested, (), tree, want)
        tl = spec.get('theorems')
        if tl:
            start = len(self.lines) + 1
            t = self.expand(open(os.path.join(VX, 'theorems', tl + '.rs')).read())
            if self.canary:
                t = self.theorem_canaries(t)
            self.w('pub mod vx_theorems { use vstd::prelude::*; %s' % ' '.join('use %s::*;' % a for a in self.allpre))
            self.w('use crate::{%s};' % ', '.join(self.roots))
            if self.groups:
                self.w('broadcast use {%s};' % ', '.join(self.groups))
            self.w(t)
            self.w('}')
            self.map.append((start, len(self.lines), 'theorem:' + tl))
        if fl_at is not None:
            self.lines.insert(fl_at, ' '.join(self.float_axioms()))
            self.map = [(a + (a > fl_at), b + (b >= fl_at), n) for a, b, n in self.map]
        self.w('} // verus!')
        self.w('fn main() {}')

    def expand(self, t):
        m = self.mode
        t = re.sub(r'/\*IF:(\w+)\*/(.*?)/\*END\*/', lambda x: x.group(2) if x.group(1) == m else '', t, flags=re.S)
        return t

    def float_axioms(self):
        out = []
        names = []
        for dg in sorted(self.floats | {'0.0', '1.0', '0.5', '2.0', '0.25', '8.0'}):
            s = dg if ('.' in dg or 'e' in dg) else dg + '.0'
            if s.endswith('.'):
                s += '0'
            fr = Fraction(float(dg))
            n = 'ax_lit_' + re.sub(r'\W', '_', dg)
            if n in names:
                continue
            names.append(n)
            out.append('pub broadcast axiom fn %s() ensures #[trigger] val(%sf64) == %dreal / %dreal, fin(%sf64);' % (n, s, fr.numerator, fr.denominator, s))
        out.append('pub broadcast group group_lits {%s}' % ', '.join(names))
        return out

    def emit_tree(self, node, path, tree, want):
        for name, sub in sorted(node.items()):
            p = path + (name,)
            self.w('pub mod %s {' % name)
            self.w('use vstd::prelude::*; ' + ' '.join('use %s::*;' % a for a in self.allpre))
            rr = [x for x in self.roots if x not in sub and x != name]
            if rr:
                self.w('use crate::{%s};' % ', '.join(rr))
            if self.groups:
                self.w('broadcast use {%s};' % ', '.join(self.groups))
            if p in tree:
                self.emit_file(tree[p], want)
            self.emit_tree(sub, p, tree, want)
            self.w('}')

    def emit_file(self, rel, want):
        f = self.files[rel]
        o = self.spec['files'][rel]
        cf = self.contract_file(rel)
        contracts = load_contracts(cf) if os.path.exists(cf) else {}
        keep = {k for r, k in want if r == rel}
        skip_use = o.get('drop_use', [])
        crate = modpath(rel)[0]
        if o.get('use'):
            self.w(o['use'])
        for it in f.items:
            if it['k'] == 'use':
                t = f.src[it['s'][0]:it['s'][1]].decode()
                if any(re.search(x, t) for x in skip_use) or re.search(r'use\s+std::(io|fmt|fs|env|path)', t):
                    continue
                t = re.sub(r'^\s*(#\[[^\]]*\]\s*)*', '', t)
                t = t.replace('crate::', 'crate::%s::' % crate)
                self.w(t)
        used = set()
        for k in keep:
            fn = f.fns[k][0]
            for n in walk(fn.get('body')):
                if n['k'] == 'path':
                    used.add(n['p'].split('::')[-1])
        for it in f.items:
            if it['k'] == 'const' and it['name'] in used | set(o.get('consts', [])):
                e = it['e']
                tx = f.src[it['e']['s'][0]:it['e']['s'][1]].decode()
                ty = re.sub(r"&(?!\s*')", "&'static ", f.src[it['ty'][0]:it['ty'][1]].decode())
                if o.get('const', {}).get(it['name']):
                    self.w(o['const'][it['name']].replace('VALUE', tx))
                else:
                    self.w('pub const %s: %s = %s;' % (it['name'], ty, tx))
            elif it['k'] == 'typedef' and o.get('types'):
                self.w(f.src[it['noattr'][0]:it['noattr'][1]].decode())
            elif it['k'] == 'structdef' and it['name'] in o.get('structs', []):
                tx = re.sub(r'^\s*(#\[[^\]]*\]\s*)*', '', f.src[it['noattr'][0]:it['noattr'][1]].decode()).replace('pub(crate)', 'pub')
                self.w(re.sub(r'([{,]\s*)(?!pub\b)(\w+\s*:(?!:))', r'\1pub \2', tx))
                if it['name'] in o.get('clone', []) and re.search(r'derive\([^)]*\bClone\b', f.src[it['s'][0]:it['s'][1]].decode()):
                    fs = re.findall(r'(?:pub\s+)?(\w+)\s*:(?!:)', tx[tx.index('{'):])
                    self.w('impl VxClone for %s { open spec fn cloned(&self, r: Self) -> bool { %s } fn vx_clone(&self) -> (r: Self) { %s { %s } } }' % (
                        it['name'], ' && '.join('VxClone::cloned(&self.%s, r.%s)' % (x, x) for x in fs), it['name'], ', '.join('%s: self.%s.vx_clone()' % (x, x) for x in fs)))
                if o.get('after_struct', {}).get(it['name']):
                    self.w(o['after_struct'][it['name']])
            elif it['k'] == 'enumdef' and it['name'] in o.get('enums', []):
                copy = re.search(r'derive\([^)]*\bCopy\b', f.src[it['s'][0]:it['s'][1]].decode())
                self.w(('#[derive(Clone, Copy)] ' if copy else '') + re.sub(r'^\s*(#\[[^\]]*\]\s*)*', '', f.src[it['noattr'][0]:it['noattr'][1]].decode()))
        for it in f.items:
            if it['k'] == 'fn' and it['name'] in keep:
                self.emit_fn(rel, f, it, it['name'], contracts, crate, o)
            elif it['k'] == 'impl':
                ks = [x for x in it['fns'] if '%s::%s' % (it['self'], x['name']) in keep]
                if not ks:
                    continue
                head = re.sub(r'^\s*(#\[[^\]]*\]\s*)*', '', f.src[it['head'][0]:it['head'][1]].decode())
                if it['trait'] and not o.get('keep_trait'):
                    # trait impls become inherent impls: the contract sits on the function itself
                    g = f.src[it['generics'][0]:it['generics'][1]].decode() if it['generics'] else ''
                    head = 'impl%s %s ' % (g, f.src[it['selfty'][0]:it['selfty'][1]].decode())
                self.w(head + '{')
                for x in ks:
                    self.emit_fn(rel, f, x, '%s::%s' % (it['self'], x['name']), contracts, crate, o)
                self.w('}')

    def emit_fn(self, rel, f, fn, key, contracts, crate, o):
        c = contracts.get(key)
        full = rel + '::' + key
        self.shapes[full] = shape(fn)
        self.names[full] = let_names(fn)
        self.ops[full] = operators(fn)
        self.calls[full] = calls(fn)
        b = self.base.get(full, {})
        assumed = key in o.get('assume', [])
        rn = FnRenderer(f.src, fn, c, b.get('names'), self.mode, self.trace, owner=full,
                        ctx={'crate': crate, 'methods': o.get('methods', {}), 'index': o.get('index'), 'effects': o.get('effects')})
        rn.canary = (lambda what: '\n;%s\n' % self.new_canary('%s %s' % (full, what))) if self.canary and not assumed else None
        body = None if assumed else rn.render_body()
        self.floats |= rn.floats
        t = lambda s: f.src[s[0]:s[1]].decode()
        ps = []
        # parameter names: contract names refer to baseline names
        for p in fn['params']:
            ps.append(t(p['s']))
        gen = t(fn['generics']) if fn['generics'] else ''
        if fn['name'] in (o.get('effects') or {}).get('fns', []):
            ps.insert(0, 'vx_w: &mut World')
        sig = 'pub fn %s%s(%s)' % (fn['name'], gen, ', '.join(ps))
        ret = c.ret if c else 'r'
        if fn['ret']:
            sig += ' -> (%s: %s)' % (ret, t(fn['ret']))
        if fn['where']:
            sig += ' ' + t(fn['where'])
        req, ens = [], []
        if c:
            (self.contracted if not assumed else self.uncontracted).append(full)
            g = lambda k: rn.ann(c.get(k))
            if g('requires'):
                req.append(g('requires').rstrip().rstrip(','))
            if g('ensures'):
                ens.append(g('ensures').rstrip().rstrip(','))
            if g('accepts') and self.mode != 'refuse':
                req.append(g('accepts').rstrip().rstrip(','))
            rf = g('refuse')
            if rf:
                self.has_refuse = True
                if self.mode != 'refuse':
                    req.append('!(%s)' % rf)
                else:
                    ens.append('!(%s)' % rf)
        else:
            self.uncontracted.append(full)
        start = len(self.lines) + 1
        attrs = '#[verifier::loop_isolation(false)]'
        if rn.no_measure or full not in self.base or self.base[full]['shape'] != self.shapes[full]:
            # a loop without a measure: whether it ends is left open
            attrs += ' #[verifier::exec_allows_no_decreases_clause]'
            self.unbounded.append(full)
        if c and c.get('attr'):
            attrs += ' ' + c.get('attr')
        if assumed:
            attrs += ' #[verifier::external_body]'
            self.trusted.append('contract of %s assumed in this unit%s' % (full, o.get('why', '')))
        self.w(attrs)
        self.w(sig)
        if req:
            self.w('  requires ' + ', '.join(req) + ',')
        if ens:
            self.w('  ensures ' + ', '.join(ens) + ',')
        if c and c.get('decreases'):
            self.w('  decreases ' + rn.ann(c.get('decreases')))
        self.w('{')
        if assumed:
            self.w('unimplemented!()')
        else:
            if self.canary:
                g = rn.ann(c.get('ghost')) if c and c.get('ghost') else ''
                body = (g and g + '\n') + self.new_canary(full + ' entry') + '\n' + body[len(g):]
            self.w(body)
        self.w('}')
        self.map.append((start, len(self.lines), full))

    def new_canary(self, label):
        """An assertion that has to fail: where it does not, the code after it is vacuously correct."""
        k = len(self.labels)
        self.labels.append(label)
        return 'assert(vx_canary(%d));' % k

    def theorem_canaries(self, t):
        """A canary at the end of every executable theorem."""
        out = []
        name = None
        for line in t.split('\n'):
            m = re.match(r'pub fn (thm_\w+)', line)
            if m:
                name = m.group(1)
            if line == '}' and name:
                last = out.pop() if out else ''
                c = self.new_canary('theorem %s end' % name)
                out += [last, c] if last.rstrip().endswith((';', '}', '{')) else [c, last]
                name = None
            out.append(line)
        return '\n'.join(out)

    def unknown_calls(self):
        """Calls of functions outside the extracted code for which no contract was written: Verus may know them,
        but perhaps not enough of them for the proof."""
        text = self.text()
        known = set(extract.RENAME) | extract.ITER_ADAPT | extract.ITER_END | extract.KNOWN_CALLS
        known |= {x.split('::')[-1] for x in re.findall(r'\bfn (\w+)', text)} | {x.split('::')[-1] for x in re.findall(r'\b(?:struct|enum) (\w+)', text)}
        paths = set(extract.PATHS)
        for b in self.base.values():
            for c in b.get('calls', []):
                (paths if '::' in c else known).add(c)
        out = set()
        for full, cs in self.calls.items():
            for c in cs:
                if '::' in c:
                    last = c.split('::')[-1]
                    own = any(k == last or k.endswith('::' + last) for f in self.files.values() for k in f.fns)
                    if c not in paths and not own and c.split('::')[-2] not in ('vx',):
                        out.add((full, c))
                elif c not in known:
                    out.add((full, c))
        return sorted(out)

    def text(self):
        return '\n'.join(self.lines) + '\n'

    def where(self, line):
        for a, b, n in self.map:
            if a <= line <= b:
                return n
        return '?'


VERIFY_ERR = re.compile(r'(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|'
                        r'possible division by zero|decreases not satisfied|could not prove termination|loop ensures|possible bit shift|'
                        r'unable to prove|cannot prove|requires not satisfied|recommendation not met|loop must have a decreases|may not|opens_invariants|'
                        r'panic unreachable|unreachable)')
RLIMIT = re.compile(r'(Resource limit|rlimit)', re.I)


def run_verus(path, timeout=600, rlimit=None, threads=8, extra=()):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '20', '--triggers-mode', 'silent', '--num-threads', str(threads)]
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    cmd += list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        return {'status': 'timeout', 'wall': time.time() - t0, 'errors': [], 'stderr': '', 'cmd': ' '.join(cmd)}
    res = {'wall': time.time() - t0, 'stderr': err, 'cmd': ' '.join(cmd), 'rc': rc}
    try:
        j = json.loads(out[out.index('{'):])
    except ValueError:
        j = {}
    vr = j.get('verification-results', {})
    res['verified'] = vr.get('verified', 0)
    res['nerrors'] = vr.get('errors', 0)
    res['smt_ms'] = j.get('times-ms', {}).get('smt', {}).get('total', 0) if isinstance(j.get('times-ms', {}).get('smt'), dict) else 0
    fl = []
    smt = j.get('times-ms', {}).get('smt', {})
    if isinstance(smt, dict):
        for mo in smt.get('smt-run-module-times', []) or []:
            for f in mo.get('function-breakdown', []):
                fl.append({'module': mo['module'], 'function': f['function'].split('::', 1)[-1], 'mode': f.get('mode:', f.get('mode')), 'success': f['success'], 'us': f['time-micros']})
    res['functions'] = [f for f in fl if f['mode'] != 'spec']
    errs = []
    blocks = re.split(r'\n(?=(?:error|warning|note)(?:\[|:))', '\n' + err)
    for b in blocks:
        m = re.match(r'\s*error(\[E\d+\])?: (.*)', b)
        if not m:
            continue
        msg = m.group(2)
        if msg.startswith('aborting due'):
            continue
        locs = [int(x) for x in re.findall(r'-->\s+[^\n:]+\.rs:(\d+):\d+', b)]
        kind = 'tool'
        if m.group(1):
            kind = 'tool'
        elif RLIMIT.search(msg):
            kind = 'rlimit'
        elif VERIFY_ERR.search(msg):
            kind = 'verify'
        labels = [int(x) for x in re.findall(r'^\s*(\d+) \|', b, flags=re.M)]
        errs.append({'kind': kind, 'msg': msg, 'line': locs[0] if locs else 0, 'lines': labels, 'text': b.strip()})
    res['errors'] = errs
    if rc == 0 and res['nerrors'] == 0 and not errs and vr.get('success', True):
        res['status'] = 'proved'
    elif any(e['kind'] == 'tool' for e in errs) or not errs:
        res['status'] = 'tool'
    elif any(e['kind'] == 'rlimit' for e in errs) and not any(e['kind'] == 'verify' for e in errs):
        res['status'] = 'rlimit'
    else:
        res['status'] = 'failed'
    return res
