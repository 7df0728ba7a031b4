"""Mechanical extraction of functions from /repo's current source into Verus.

The text of every function is copied from the source file.  The rewrite rules
below replace only byte ranges of constructs Verus does not accept; each
application is recorded and reported in the evidence.  Contracts, invariants
and proof blocks come from /verif/vx/contracts and are spliced in by function
name and loop ordinal.
"""
import json, os, re, subprocess, difflib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
SRC = os.path.join(REPO, 'lib/sia/rust')


class Unsupported(Exception):
    pass


class AnchorLost(Exception):
    pass


# ----------------------------------------------------------------- contracts
class Contract:
    def __init__(self, name):
        self.name = name
        self.ret = 'r'
        self.sec = {}          # (kind, arg) -> text
        self.params = None

    def get(self, kind, arg=None):
        return self.sec.get((kind, arg))


def load_contracts(path):
    """{fn name: Contract} of one .vxc file."""
    out = {}
    cur = None
    key = None
    buf = []

    def flush():
        nonlocal buf
        if cur is not None and key is not None:
            t = '\n'.join(buf).strip()
            if key in cur.sec:
                t = cur.sec[key] + '\n' + t
            cur.sec[key] = t
        buf = []
    for line in open(path):
        line = line.rstrip('\n')
        m = re.match(r'@(\w+)\s*(.*)$', line)
        if not m:
            if key is not None:
                buf.append(line)
            continue
        flush()
        key = None
        d, rest = m.group(1), m.group(2).strip()
        if d == 'fn':
            cur = Contract(rest)
            out[rest] = cur
        elif d == 'ret':
            cur.ret = rest
        elif d == 'names':
            cur.params = rest.split()
        elif d == 'loop':
            n, what = rest.split(None, 1)
            what, _, tail = what.partition(' ')
            key = ('loop-' + what, int(n))
            if tail:
                buf.append(tail)
        elif d == 'panic':
            n, _, tail = rest.partition(' ')
            key = ('panic', int(n))
            if tail:
                buf.append(tail)
        else:
            key = (d, None)
            if rest:
                buf.append(rest)
    flush()
    return out


# ------------------------------------------------------------------ the dump
def dump(files):
    exe = os.path.join(VERIF, '.build', 'vx', 'debug', 'vx')
    r = subprocess.run([exe] + files, capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported('vx: ' + r.stderr[-500:])
    return json.loads(r.stdout)


def walk(n):
    """All nodes below n, pre-order in source order."""
    if isinstance(n, dict):
        if 'k' in n:
            yield n
            if n['k'] == 'inlined':
                for x in ('args', 'params', 'body'):
                    yield from walk(n[x])
                return
        for k, v in sorted(((k, v) for k, v in n.items() if isinstance(v, (dict, list))),
                           key=lambda kv: pos(kv[1])):
            yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def pos(v):
    if isinstance(v, dict) and 's' in v:
        return v['s'][0]
    if isinstance(v, list):
        for x in v:
            if isinstance(x, dict) and 's' in x:
                return x['s'][0]
    return 0


def pat_names(p):
    if not p:
        return []
    return [x['name'] for x in walk(p) if x['k'] == 'pident']


def let_names(fn):
    """Every name a function binds, in source order: parameters, lets, patterns."""
    out = []
    for p in fn['params']:
        if p['k'] == 'param':
            out += pat_names(p['pat'])
    for n in walk(fn['body']):
        if n['k'] == 'let':
            out += pat_names(n['pat'])
        elif n['k'] == 'for':
            out += pat_names(n['pat'])
        elif n['k'] == 'closure':
            for q in n['ps']:
                out += pat_names(q)
        elif n['k'] == 'arm':
            out += pat_names(n['pat'])
        elif n['k'] == 'param':
            out += pat_names(n['pat'])
    return out


ITER_ADAPT = {'map', 'enumerate', 'step_by', 'flatten', 'rev', 'filter', 'by_vals', 'cloned', 'copied', 'zip', 'iter', 'into_iter',
              'chunks', 'chunks_exact', 'skip', 'take'}
ITER_END = {'collect', 'for_each', 'fold', 'all', 'any', 'sum', 'count'}


def shape(fn):
    """The loops of a function in source order, with their adapters: equal shapes mean that the
    invariants are anchored where they were.  Conditions, calls and plain statements do not count."""
    f = []
    for n in walk(fn['body']):
        k = n['k']
        if k == 'for':
            f.append('for-range' if strip_paren(n['e'])['k'] == 'range' else 'for')
        elif k in ('while', 'loop', 'unsafe'):
            f.append(k)
        elif k == 'method':
            if n['m'] in (ITER_ADAPT - {'take', 'skip', 'by_vals', 'cloned', 'copied', 'iter', 'into_iter', 'filter', 'map'}) or n['m'] in ITER_END or n['m'] == 'mapv':
                f.append(n['m'])
            elif n['m'] in ('map', 'filter') and n['a'] and n['a'][0]['k'] == 'closure':
                f.append(n['m'])
    return f


def strip_paren(e):
    while e['k'] == 'paren' or (e['k'] == 'method' and e['m'] in ('rev', 'step_by', 'take', 'skip')):
        e = e['e'] if e['k'] == 'paren' else e['recv']
    return e


def operators(fn):
    """Classes of operators the solver only knows through explicit lemmas."""
    c = {'<<': 'shift', '>>': 'shift', '<<=': 'shift', '>>=': 'shift', '&': 'bits', '|': 'bits', '^': 'bits', '&=': 'bits', '|=': 'bits', '^=': 'bits'}
    return sorted({c[n['op']] for n in walk(fn['body']) if n['k'] in ('bin', 'opassign') and n.get('op') in c})


KNOWN_CALLS = {'Some', 'Ok', 'Err', 'None'}


def calls(fn):
    """Names of everything a function calls."""
    out = set()
    for n in walk(fn['body']):
        if n['k'] == 'method':
            out.add(n['m'])
        elif n['k'] == 'call' and n['f']['k'] == 'path':
            out.add(n['f']['p'])
    return sorted(out)


def inlinable(fn):
    """The body of a helper whose call can be replaced by its statements, else None."""
    if not fn.get('body') or fn['generics'] or fn['where']:
        return None
    b = json.loads(json.dumps(fn['body']))
    st = b['stmts']
    if st and st[-1]['k'] == 'stmt' and st[-1]['e']['k'] == 'return':
        if st[-1]['e'].get('e'):
            st[-1] = {'k': 'stmt', 's': st[-1]['s'], 'semi': False, 'e': st[-1]['e']['e']}
        else:
            st.pop()

    def leaves(n):
        if isinstance(n, dict):
            if n.get('k') == 'closure':
                return False
            return n.get('k') in ('return', 'try') or any(leaves(v) for v in n.values())
        if isinstance(n, list):
            return any(leaves(x) for x in n)
        return False
    return None if leaves(b) else b


def inline_calls(n, resolve, depth=0):
    """Replaces calls of helper functions by their statements, everywhere below n."""
    if isinstance(n, list):
        for i, x in enumerate(n):
            n[i] = inline_calls(x, resolve, depth)
        return n
    if not isinstance(n, dict):
        return n
    for k, v in n.items():
        if isinstance(v, (dict, list)):
            n[k] = inline_calls(v, resolve, depth)
    h = None
    if n.get('k') == 'call' and n['f'].get('k') == 'path':
        h = resolve(n['f']['p'], False)
        args = n['a']
    elif n.get('k') == 'method' and n['recv'].get('k') == 'path' and n['recv'].get('p') == 'self':
        h = resolve(n['m'], True)
        args = n['a']
    if h is None or depth > 4:
        return n
    ps = [p for p in h['params'] if p['k'] == 'param']
    if len(ps) != len(args):
        return n
    b = inlinable(h)
    if b is None:
        return n
    return {'k': 'inlined', 's': n['s'], 'args': args, 'params': json.loads(json.dumps(ps)), 'ret': h['ret'],
            'body': inline_calls(b, resolve, depth + 1)}


# ------------------------------------------------------------------ renderer
RENAME = {  # std methods without a usable specification -> prelude trait method with an assumed contract
    'to_le_bytes': 'vx_to_le_bytes', 'to_be_bytes': 'vx_to_be_bytes', 'chunks': 'vx_chunks', 'chunks_exact': 'vx_chunks_exact',
    'to_vec': 'vx_to_vec', 'concat': 'vx_concat', 'try_into': 'vx_try_into', 'copy_from_slice': 'vx_copy_from_slice',
    'rem_euclid': 'vx_rem_euclid', 'round': 'vx_round', 'floor': 'vx_floor', 'ceil': 'vx_ceil', 'abs': 'vx_abs', 'trunc': 'vx_trunc',
    'unwrap_or': 'vx_unwrap_or', 'saturating_mul': 'vx_saturating_mul', 'extend_from_slice': 'vx_extend_from_slice',
    'append': 'vx_append', 'extend': 'vx_extend', 'as_bytes': 'vx_as_bytes', 'starts_with': 'vx_starts_with', 'pow': 'vx_pow',
    'as_slice': 'vx_as_slice', 'is_ok': 'vx_is_ok', 'to_string': 'vx_to_string', 'as_raw': 'vx_as_raw',
    'clone': 'vx_clone', 'first': 'vx_first', 'get': 'vx_get', 'max': 'vx_max', 'min': 'vx_min', 'is_err': 'vx_is_err',
    'mapv': 'vx_mapv', 'unwrap': 'vx_unwrap', 'swap_remove': 'vx_swap_remove', 'expect': 'vx_expect',
    'powf': 'vx_powf', 'powi': 'vx_powi', 'sqrt': 'vx_sqrt', 'atan2': 'vx_atan2', 'fract': 'vx_fract', 'cos': 'vx_cos', 'sin': 'vx_sin',
    'split_at': 'vx_split_at', 'div_ceil': 'vx_div_ceil', 'is_multiple_of': 'vx_is_multiple_of', 'push_str': 'vx_push_str', 'to_owned': 'vx_to_owned',
}
PATHS = {
    'u8::from_str_radix': 'vx_u8_from_str_radix', 'u16::from_le_bytes': '<u16 as VxFromLe<2>>::vx_from_le_bytes',
    'i64::from_le_bytes': '<i64 as VxFromLe<8>>::vx_from_le_bytes', 'u16::from_be_bytes': '<u16 as VxFromLe<2>>::vx_from_be_bytes',
    'i64::from_be_bytes': '<i64 as VxFromLe<8>>::vx_from_be_bytes', 'Vec::from': 'vx_vec_from', 'Vec::from_iter': 'vx_vec_from',
    'String::from_utf8': 'vx_string_from_utf8', 'String::with_capacity': 'vx_string_with_capacity', 'String::new': 'vx_string_new',
    'image::guess_format': 'vx_guess_format', 'image::load_from_memory_with_format': 'vx_load_as',
    'DynamicImage::from': 'crate::image::vx_dyn_from', 'String::from': 'vx_string_from',
    'std::process::exit': 'vx_exit', 'process::exit': 'vx_exit', 'exit': 'vx_exit',
    'Option::Some': 'Option::Some', 'f64::from': 'vx_conv::<f64, _>', 'u16::from': 'vx_conv::<u16, _>', 'u32::from': 'vx_conv::<u32, _>', 'u64::from': 'vx_conv::<u64, _>',
    'usize::from': 'vx_conv::<usize, _>', 'i16::from': 'vx_conv::<i16, _>', 'i32::from': 'vx_conv::<i32, _>', 'i64::from': 'vx_conv::<i64, _>', 'i128::from': 'vx_conv::<i128, _>',
}


class FnRenderer:
    def __init__(self, src, fn, contract, base_names, mode, trace, owner='', ctx=None):
        self.src = src
        self.fn = fn
        self.c = contract
        self.mode = mode
        self.trace = trace
        self.loop_no = 0
        self.panic_no = 0
        self.no_measure = False
        self.uid = 0
        self.owner = owner
        self.floats = set()
        self.ctx = ctx or {}
        self.nothing = set()
        cur = let_names(fn) if fn.get('body') else []
        self.map = {}
        if base_names and cur != base_names:
            sm = difflib.SequenceMatcher(a=base_names, b=cur, autojunk=False)
            for tag, i1, i2, j1, j2 in sm.get_opcodes():
                if tag == 'replace' and i2 - i1 == j2 - j1:
                    for a, b in zip(base_names[i1:i2], cur[j1:j2]):
                        self.map.setdefault(a, b)
        self.curnames = set(cur)

    # -- text helpers
    def t(self, span):
        return self.src[span[0]:span[1]].decode()

    def rule(self, name):
        self.trace[name] = self.trace.get(name, 0) + 1

    def ann(self, text):
        """Contract text with baseline local names renamed to the current ones."""
        if text is None:
            return None
        if self.map:
            m = {a: b for a, b in self.map.items() if a not in self.curnames}
            if m:
                text = re.sub(r'(?<![\w.:])(' + '|'.join(map(re.escape, m)) + r')(?![\w(:])', lambda x: m[x.group(1)], text)
        return text

    def fresh(self, p):
        self.uid += 1
        return '%s_%d' % (p, self.uid)

    # -- generic rendering: original text, children replaced
    def r(self, n):
        f = getattr(self, 'n_' + n['k'], None)
        if f is not None:
            return f(n)
        return self.generic(n)

    def generic(self, n):
        kids = []

        def collect(v):
            if isinstance(v, dict) and 'k' in v:
                kids.append(v)
            elif isinstance(v, dict):
                for x in v.values():
                    collect(x)
            elif isinstance(v, list):
                for x in v:
                    collect(x)
        for k, v in n.items():
            if k not in ('k', 's'):
                collect(v)
        kids.sort(key=lambda x: x['s'][0])
        out = []
        p = n['s'][0]
        for c in kids:
            if c['s'][0] < p:
                continue
            out.append(self.t([p, c['s'][0]]))
            out.append(self.r(c))
            p = c['s'][1]
        out.append(self.t([p, n['s'][1]]))
        return ''.join(out)

    # -- patterns stay verbatim
    def n_pident(self, n):
        return self.t(n['s'])
    n_ptuple = n_pref = n_pwild = n_ptype = n_pother = n_pident

    def bind(self, pat, value):
        """`let pat = value;` with reference patterns turned into dereferences."""
        if pat['k'] == 'vxarg':
            return 'let vx_arg = %s;' % value
        if not any(x['k'] == 'pref' for x in walk(pat)):
            return 'let %s = %s;' % (self.t(pat['s']), value)
        self.rule('reference pattern -> dereference')
        after = []

        def go(p):
            if p['k'] == 'pref':
                if p['p']['k'] == 'pwild':
                    return '_'
                v = self.fresh('vx_p')
                after.append(self.bind(p['p'], '*' + v))
                return v
            if p['k'] == 'ptuple':
                return '(' + ', '.join(go(x) for x in p['e']) + (',' if len(p['e']) == 1 else '') + ')'
            if any(x['k'] == 'pref' for x in walk(p)):
                raise Unsupported('pattern ' + self.t(p['s']))
            return self.t(p['s'])
        return 'let %s = %s; %s' % (go(pat), value, ' '.join(after))

    def n_const(self, n):
        self.rule('local `const` -> `let`')
        return 'let %s: %s = %s;' % (n['name'], self.t(n['ty']), self.r(n['e']))

    def n_item(self, n):
        raise Unsupported('nested item')

    def n_opaque(self, n):
        raise Unsupported('expression: ' + self.t(n['s'])[:60])

    n_unsafe = n_opaque

    def n_lit(self, n):
        if n['lit'] == 'float':
            self.floats.add(n['digits'])
        return self.t(n['s'])

    def n_unary(self, n):
        if n['op'] == '-' and not (n['e']['k'] == 'lit' and n['e']['lit'] == 'int'):
            self.rule('unary minus -> VxNeg::vx_neg')
            return 'VxNeg::vx_neg(%s)' % self.r(n['e'])
        return self.generic(n)

    def n_paren(self, n):
        return '(' + self.r(n['e']) + ')'

    def n_cast(self, n):
        ty = self.t(n['ty']).strip()
        if ty == '_':
            raise Unsupported('cast to _')
        if ty in ('Ix',):
            ty = 'usize'
        self.rule('`e as T` -> VxAs::<T>::vx_as(e)')
        if n['e']['k'] == 'lit' and n['e']['lit'] == 'int' and not n['e']['suffix'] and ty not in ('f64',):
            return '(%s%s)' % (self.r(n['e']), ty)
        return 'VxAs::<%s>::vx_as(%s)' % (ty, self.r(n['e']))

    def n_inlined(self, n):
        self.rule('call of a helper without contract -> its statements')
        out = []
        hs = []
        for p, a in zip(n['params'], n['args']):
            h = self.fresh('vx_h')
            hs.append(h)
            out.append('let %s: %s = %s;' % (h, self.t(p['ty']), self.r(a)))
        for p, h in zip(n['params'], hs):
            out.append(self.bind(p['pat'], h))
        save = self.want, self.want_is_ret
        self.want, self.want_is_ret = (self.t(n['ret']) if n['ret'] else None), False
        out.append(self.stmts(n['body']))
        self.want, self.want_is_ret = save
        return '{ ' + ' '.join(out) + ' }'

    def n_macro(self, n):
        p = n['path'].split('::')[-1]
        if p in ('println', 'eprintln', 'print', 'eprint', 'debug_assert', 'log', 'debug_assert_eq', 'console_log'):
            self.rule('`%s!` dropped' % p)
            return '();' if n.get('semi') else '()'
        if p in ('panic', 'unimplemented', 'unreachable', 'todo'):
            self.rule('`panic!` -> vx_panic()')
            k = self.panic_no
            self.panic_no += 1
            pr = self.ann(self.c.get('panic', k)) if self.c else None
            semi = ';' if n.get('semi') else ''
            if pr:
                return '{ proof { %s } vx_panic() }%s' % (pr, semi)
            return 'vx_panic()' + semi
        if p == 'assert':
            self.rule('`assert!(c)` -> if !c { vx_panic() }')
            if not n.get('args'):
                raise Unsupported('assert!')
            return 'if !(%s) { vx_panic() }' % self.r(n['args'][0])
        if p == 'vec':
            self.rule('`vec!` -> vx_vec*')
            if n['sep'] == 'none':
                return 'Vec::new()'
            a = [self.r(x) for x in n['args']]
            if n['sep'] == ';':
                return 'vx_vec_rep(%s, %s)' % tuple(a)
            return 'vx_vec_of([%s])' % ', '.join(a)
        if p == 'bitvec':
            self.rule('`bitvec![]` -> BitVec::new()')
            tx = self.t(n['s'])
            if re.fullmatch(r'[\w:\s]*!\s*[\[\(\{]\s*[\]\)\}]\s*', tx):
                return 'bitvec::prelude::BitVec::<usize, bitvec::prelude::Lsb0>::new()'
            m = re.fullmatch(r'[\w:\s]*!\s*\[\s*(\w+)\s*,\s*(\w+)\s*;\s*\]', tx)
            if m:
                return 'bitvec::prelude::BitVec::<%s, %s>::new()' % m.groups()
            raise Unsupported('bitvec!: ' + tx)
        if p in ('write', 'format'):
            tx = self.t(n['s'])
            m = re.fullmatch(r'write!\s*\(\s*(&mut\s+\w+|\w+)\s*,\s*"\{:02x\}"\s*,\s*([^,]+?)\s*,?\s*\)', tx)
            if m:
                self.rule('`write!(s, "{:02x}", b)` -> vx_write_02x(s, b)')
                return 'vx_write_02x(%s, %s)' % m.groups() + (';' if n.get('semi') else '')
            m = re.fullmatch(r'write!\s*\(\s*(&mut\s+\w+|\w+)\s*,\s*"\{(\w+):02x\}"\s*,?\s*\)', tx)
            if m:
                self.rule('`write!(s, "{:02x}", b)` -> vx_write_02x(s, b)')
                return 'vx_write_02x(%s, %s)' % m.groups() + (';' if n.get('semi') else '')
            m = re.fullmatch(r'format!\s*\(\s*"\{:02x\}"\s*,\s*([^,]+?)\s*,?\s*\)', tx) or re.fullmatch(r'format!\s*\(\s*"\{(\w+):02x\}"\s*\)', tx)
            if m:
                self.rule('`format!("{:02x}", b)` -> vx_format_02x(b)')
                return 'vx_format_02x(%s)' % m.group(1)
            m = re.fullmatch(r'format!\s*\(\s*"((?:[^"\\{}]|\{\w*(?::\?)?\})*)"\s*(?:,.*)?\)', tx, flags=re.S)
            if p == 'format' and m and n.get('args'):
                self.rule('`format!` with plain placeholders -> concatenation')
                v = self.fresh('vx_f')
                args = list(n['args'][1:])
                out = ['let mut %s = vx_string_new();' % v]
                for piece in re.findall(r'[^{}]+|\{[^{}]*\}', m.group(1)):
                    if piece[0] == '{' and piece.endswith(':?}'):
                        x = piece[1:-3]
                        if not x:
                            if not args:
                                raise Unsupported('format!: ' + tx)
                            x = self.r(args.pop(0))
                        out.append('vx_push_dbg(&mut %s, &(%s));' % (v, x))
                    elif piece == '{}':
                        if not args:
                            raise Unsupported('format!: ' + tx)
                        out.append('vx_push_disp(&mut %s, &(%s));' % (v, self.r(args.pop(0))))
                    elif piece[0] == '{':
                        out.append('vx_push_disp(&mut %s, &(%s));' % (v, piece[1:-1]))
                    else:
                        out.append('%s.vx_push_str("%s");' % (v, piece))
                if args:
                    raise Unsupported('format!: ' + tx)
                return '{ %s %s }' % (' '.join(out), v) + (';' if n.get('semi') else '')
            raise Unsupported(p + '!: ' + tx)
        raise Unsupported('macro ' + n['path'])

    def n_call(self, n):
        ef = self.ctx.get('effects')
        if ef and n['f']['k'] == 'path':
            key = re.sub(r'\s', '', self.t(n['f']['s']))
            if key in ef['calls']:
                self.rule('`%s(...)` -> %s(vx_w, ...)' % (key, ef['calls'][key]))
                return '%s(%s)' % (ef['calls'][key], ', '.join(['vx_w'] + [self.r(a) for a in n['a']]))
        return self.generic(n)

    def n_path(self, n):
        tx = self.t(n['s'])
        key = re.sub(r'\s', '', tx)
        if key in PATHS:
            self.rule('`%s` -> %s' % (key, PATHS[key]))
            return PATHS[key]
        if key.startswith('crate::'):
            return key.replace('crate::', 'crate::%s::' % self.ctx.get('crate', ''), 1)
        return tx

    def n_index(self, n):
        i = n['i']
        if i['k'] == 'range':
            self.rule('`e[a..b]` -> (*vx_sub(&e, a, b))')
            e = self.r(n['e'])
            if i['lo'] is not None and i['hi'] is not None and not i['incl']:
                return '(*VxSub::vx_sub(&%s, %s, %s))' % (e, self.r(i['lo']), self.r(i['hi']))
            if i['lo'] is not None and i['hi'] is not None and i['incl']:
                return '(*VxSub::vx_sub(&%s, %s, (%s) + 1))' % (e, self.r(i['lo']), self.r(i['hi']))
            if i['lo'] is None and i['hi'] is not None and not i['incl']:
                return '(*VxSub::vx_sub(&%s, 0, %s))' % (e, self.r(i['hi']))
            if i['lo'] is not None and i['hi'] is None:
                return '(*VxSub::vx_sub_from(&%s, %s))' % (e, self.r(i['lo']))
            if i['lo'] is None and i['hi'] is None:
                return '(*VxSub::vx_sub_from(&%s, 0))' % e
            raise Unsupported('range index')
        if i['k'] == 'array' and len(i['a']) == 2:
            self.rule('`m[[i, j]]` -> *m.get(Ix2(i, j)).unwrap()')
            return '(*%s.vx_get(ndarray::Ix2(%s)).vx_unwrap())' % (self.r(n['e']), ', '.join(self.r(a) for a in i['a']))
        if self.ctx.get('index'):
            self.rule('`e[i]` -> *e.vx_idx(i)')
            return '(*%s.vx_idx(%s))' % (self.r(n['e']), self.r(i))
        return self.generic(n)

    def n_assign(self, n):
        l = n['l']
        if l['k'] == 'index' and l['i']['k'] == 'array' and len(l['i']['a']) == 2:
            self.rule('`m[[i, j]] = e` -> *m.get_mut(Ix2(i, j)).unwrap() = e')
            v = self.fresh('vx_v')
            return '{ let %s = %s; *%s.get_mut(ndarray::Ix2(%s)).vx_unwrap() = %s; }' % (v, self.r(n['r']), self.r(l['e']), ', '.join(self.r(a) for a in l['i']['a']), v)
        return self.generic(n)

    def n_range(self, n):
        raise Unsupported('range value: ' + self.t(n['s']))

    def n_closure(self, n):
        raise Unsupported('closure value: ' + self.t(n['s'])[:60])

    def n_struct(self, n):
        return self.generic(n)

    def n_finit(self, n):
        if n['short']:
            return n['n']
        return '%s: %s' % (n['n'], self.r(n['e']))

    def n_field(self, n):
        e = n['e']
        if n['n'] == '0' and e['k'] == 'method' and e['m'] == 'split_at' and len(e['a']) == 2:
            self.rule('`.split_at(ax, i).0` -> .vx_split_first(ax, i)')
            return '%s.vx_split_first(%s)' % (self.r(e['recv']), ', '.join(self.r(a) for a in e['a']))
        return self.generic(n)

    def n_method(self, n):
        ch = self.chain(n)
        if ch is not None:
            return self.render_chain(*ch)
        m = n['m']
        if m in ('map', 'filter', 'and_then', 'map_err', 'unwrap_or_else', 'ok_or_else', 'is_some_and') and len(n['a']) == 1 and n['a'][0]['k'] == 'closure':
            return self.render_option_combinator(n)
        if m == 'mapv' and len(n['a']) == 1 and n['a'][0]['k'] in ('closure', 'path'):
            return self.render_mapv(n)
        recv = self.r(n['recv'])
        if m == 'assign_elem' and len(n['a']) == 1:
            self.rule('`x.assign_elem(e)` -> let v = e; x.assign_elem(v)')
            v = self.fresh('vx_v')
            return '{ let %s = %s; %s.assign_elem(%s) }' % (v, self.r(n['a'][0]), recv, v)
        if m == 'get' and len(n['a']) == 1 and n['a'][0]['k'] == 'range':
            g = n['a'][0]
            if g['lo'] is None or g['hi'] is None or g['incl']:
                raise Unsupported('get range')
            self.rule('`.get(a..b)` -> .vx_get_range(a, b)')
            return '%s.vx_get_range(%s, %s)' % (recv, self.r(g['lo']), self.r(g['hi']))
        args = ', '.join(self.r(a) for a in n['a'])
        tf = self.t(n['turbofish']) if n.get('turbofish') else ''
        ef = self.ctx.get('effects')
        if ef and m in ef['methods']:
            self.rule('`.%s(...)` -> .%s(vx_w, ...)' % (m, ef['methods'][m]))
            return '%s.%s(%s)' % (recv, ef['methods'][m], 'vx_w' + (', ' + args if args else ''))
        hook = self.ctx.get('methods', {}).get(m)
        if hook is not None:
            self.rule('`.%s()` -> .%s()' % (m, hook))
            return '%s.%s%s(%s)' % (recv, hook, tf, args)
        if m in RENAME:
            self.rule('`.%s()` -> .%s()' % (m, RENAME[m]))
            m = RENAME[m]
        return '%s.%s%s(%s)' % (recv, m, tf, args)

    def render_mapv(self, n):
        c = n['a'][0]
        self.rule('`.mapv(closure)` -> loop over the cells in row order')
        k = self.loop_no
        self.loop_no += 1
        recv = self.r(n['recv'])
        if c['k'] == 'path':
            body = lambda v: '%s(%s)' % (self.r(c), v)
        else:
            if len(c['ps']) != 1 or any(x['k'] == 'return' for x in walk(c['b'])):
                raise Unsupported('mapv closure')
            body = lambda v: '{ %s %s }' % (self.bind(c['ps'][0], v), self.r(c['b']))
        src = ('seq', 'vx_m%d.vx_cells()' % k, n)
        return '{ let vx_m%d = &%s; let mut vx_acc%d = Vec::new(); %s\n} vx_m%d.vx_from_cells(vx_acc%d) }' % (
            k, recv, k, self.emit_loop(src, [], k, lambda v: 'vx_acc%d.push(%s);' % (k, body(v))), k, k)

    def render_option_combinator(self, n):
        m = n['m']
        c = n['a'][0]
        if len(c['ps']) != 1:
            raise Unsupported('closure arity')
        p = self.t(c['ps'][0]['s'])
        recv = self.r(n['recv'])
        body = self.r(c['b'])
        self.rule('Option/Result `.%s(closure)` -> match' % m)
        if m == 'map':
            return '(match %s { Some(%s) => Some(%s), None => None })' % (recv, p, body)
        if m == 'filter':
            v = self.fresh('vx_o')
            return '(match %s { Some(%s) => { let %s = &%s; if %s { Some(%s) } else { None } }, None => None })' % (recv, v, p, v, body, v)
        if m == 'and_then':
            return '(match %s { Some(%s) => %s, None => None })' % (recv, p, body)
        if m == 'is_some_and':
            return '(match %s { Some(%s) => %s, None => false })' % (recv, p, body)
        if m == 'map_err':
            v = self.fresh('vx_o')
            return '(match %s { Ok(%s) => Ok(%s), Err(%s) => Err(%s) })' % (recv, v, v, p, body)
        raise Unsupported('combinator ' + m)

    # -- iterator chains
    def chain(self, n):
        """(source, [adapter nodes], end node) when n is an iterator expression consumed here."""
        if n['m'] not in ITER_END:
            return None
        ops = []
        cur = n['recv']
        while True:
            while cur['k'] == 'paren' and cur['e']['k'] != 'range':
                cur = cur['e']
            if cur['k'] == 'method' and cur['m'] in ('map', 'enumerate', 'step_by', 'flatten', 'rev', 'filter', 'by_vals', 'cloned', 'copied', 'flat_map', 'zip', 'skip', 'take'):
                ops.append(cur)
                cur = cur['recv']
                continue
            break
        ops.reverse()
        return cur, ops, n

    def source(self, e):
        """(setup text, len expr, item expr template with {i}, plain) of a loop source."""
        while e['k'] == 'paren':
            e = e['e']
        if e['k'] == 'range':
            return ('range', e)
        if e['k'] == 'method' and e['m'] in ('iter', 'into_iter') and not e['a']:
            inner = e['recv']
            tx = self.r(inner)
            if e['m'] == 'iter':
                if inner['k'] in ('macro', 'call', 'method', 'array'):
                    v = self.fresh('vx_t')
                    return ('seq', 'VxIter::vx_iter(&%s)' % v, inner, 'let %s = %s;' % (v, tx))
                return ('seq', 'VxIter::vx_iter(&%s)' % tx, inner)
            return ('seq', 'VxItems::vx_items(%s)' % tx, inner)
        if e['k'] == 'method' and e['m'] in ('rows_mut', 'columns_mut', 'enumerate_pixels_mut'):
            return ('mutview', e)
        return ('seq', 'VxItems::vx_items(%s)' % self.r(e), e)

    def loop_parts(self, k):
        g = (lambda what: self.ann(self.c.get('loop-' + what, k)) if self.c else None)
        return {w: g(w) for w in ('inv', 'head', 'end', 'before', 'after', 'ghost', 'ens', 'headghost', 'outer')}

    def emit_loop(self, src, steps, k, body_fn, extra_inv=''):
        """Index loop over src; steps transform the item; body_fn(item text) gives the body."""
        p = self.loop_parts(k)
        i, n, s = 'vx_i%d' % k, 'vx_n%d' % k, 'vx_s%d' % k
        pre = []
        inv = []
        kind = src[0]
        step = '1'
        rev = False
        st = list(steps)
        if kind == 'range':
            e = src[1]
            lo = self.r(e['lo']) if e['lo'] is not None else None
            hi = self.r(e['hi']) if e['hi'] is not None else None
            if lo is None or hi is None:
                raise Unsupported('open range')
            if st and st[0][0] == 'step_by':
                step = st[0][1]
                st = st[1:]
            pre.append('let vx_lo%d = %s;' % (k, lo))
            pre.append('let vx_hi%d = %s;' % (k, hi))
            f = 'vx_range_len_incl' if e['incl'] else 'vx_range_len'
            if step == '1':
                pre.append('let %s: usize = VxRange::%s(vx_lo%d, vx_hi%d);' % (n, f, k, k))
                item = 'VxRange::vx_range_at(vx_lo%d, %s)' % (k, i)
            else:
                pre.append('let vx_st%d = %s;' % (k, step))
                pre.append('let %s: usize = VxRange::%s_step(vx_lo%d, vx_hi%d, vx_st%d);' % (n, f, k, k, k))
                item = 'VxRange::vx_range_at_step(vx_lo%d, %s, vx_st%d)' % (k, i, k)
        elif kind == 'seq':
            if len(src) > 3:
                pre.append(src[3])
            pre.append('let %s = %s;' % (s, src[1]))
            pre.append('let %s: usize = %s.len();' % (n, s))
            item = '%s[%s]' % (s, i)
            inv.append('%s == %s@.len()' % (n, s))
        elif kind == 'mutview':
            e = src[1]
            base = self.r(e['recv'])
            pre.append('let %s: usize = %s.vx_%s_count();' % (n, base, e['m']))
            item = '%s.vx_%s_at(%s)' % (base, e['m'], i)
        # positions: take, skip and rev select and order the items before anything drops or multiplies them
        sel = [x for x in st if x[0] in ('take', 'skip', 'rev')]
        posn = {len(st): '%s'}
        if sel:
            cut = [j for j, x in enumerate(st) if x[0] in ('filter', 'flatten')]
            last = max(j for j, x in enumerate(st) if x[0] in ('take', 'skip', 'rev'))
            if cut and cut[0] < last:
                raise Unsupported('take, skip or rev after filter')
            q = 0
            tr = {}
            lens = [n]
            for j, (name, arg) in enumerate(st):
                if name in ('take', 'skip'):
                    q += 1
                    pre.append('let vx_k%d_%d: usize = vx_least(%s, %s);' % (k, q, arg, lens[-1]))
                    if name == 'take':
                        lens.append('vx_k%d_%d' % (k, q))
                        tr[j] = '%s'
                    else:
                        pre.append('let vx_l%d_%d: usize = %s - vx_k%d_%d;' % (k, q, lens[-1], k, q))
                        lens.append('vx_l%d_%d' % (k, q))
                        tr[j] = '(%%s + vx_k%d_%d)' % (k, q)
                elif name == 'rev':
                    tr[j] = '(%s - 1 - %%s)' % lens[-1]
            cur = '%s'
            for j in range(len(st) - 1, -1, -1):
                posn[j + 1] = cur
                if j in tr:
                    cur = tr[j] % cur if cur != '%s' else tr[j]
            posn[0] = cur
            if len(lens) > 1:
                pre.append('let vx_all%d = %s; let %s: usize = %s;' % (k, n, n, lens[-1]))
                inv = [x.replace('%s == ' % n, 'vx_all%d == ' % k) for x in inv]
            item = item.replace(i, posn[0] % i) if posn[0] != '%s' else item
        else:
            posn[0] = '%s'
        out = []
        out.append((p['outer'] or '') + ' { ' + ' '.join(pre))
        if p['ghost']:
            out.append(p['ghost'])
        if p['before']:
            out.append('proof { %s }' % p['before'])
        out.append('let mut %s: usize = 0;' % i)
        invs = ['%s <= %s' % (i, n)] + inv
        if extra_inv:
            invs.append(extra_inv)
        if p['inv']:
            invs.append(p['inv'])
        out.append(('#[verifier::allow_complex_invariants] ' if p['ens'] else '') + 'while %s < %s' % (i, n))
        out.append('  %s ' % ('invariant_except_break' if p['ens'] else 'invariant') + ',\n    '.join(x.rstrip().rstrip(',') for x in invs) + ',')
        if p['ens']:
            out.append('  ensures ' + p['ens'].rstrip().rstrip(',') + ',')
        out.append('  decreases %s - %s' % (n, i))
        out.append('{')
        cur = item
        binds = []
        idx = '%s - 1' % i
        if kind == 'mutview':
            idx = '(%s - 1)' % i
        v = self.fresh('vx_x')
        if p['headghost']:
            out.append(p['headghost'])
        out.append('let %s = %s; %s = %s + 1;' % (v, item, i, i))
        if self.canary:
            out.append(self.canary('loop %d' % k))
        if p['head']:
            out.append('proof { %s }' % p['head'])
        tail = ''
        dropped = False
        for j, (name, arg) in enumerate(st):
            if name in ('take', 'skip', 'rev'):
                continue
            if name == 'enumerate':
                if dropped:
                    raise Unsupported('enumerate after filter')
                w = self.fresh('vx_x')
                out.append('let %s = (%s, %s);' % (w, posn.get(j, '%s') % ('%s - 1' % i if posn.get(j, '%s') == '%s' else '(%s - 1)' % i), v))
                v = w
            elif name in ('by_vals', 'cloned', 'copied'):
                w = self.fresh('vx_x')
                out.append('let %s = *%s;' % (w, v))
                v = w
            elif name == 'map':
                w = self.fresh('vx_x')
                pt, body = arg
                out.append('let %s = { %s %s };' % (w, self.bind(pt, v), body()))
                v = w
            elif name == 'filter':
                pt, body = arg
                out.append('if { %s %s } {' % (self.bind(pt, '&' + v), body()))
                tail += '}'
                dropped = True
            elif name == 'flatten':
                v = ('flat', v)
            else:
                raise Unsupported('adapter ' + name)
        out.append(body_fn(v))
        out.append(tail)
        if p['end']:
            out.append('proof { %s }' % p['end'])
        out.append('}')
        if p['after']:
            out.append('proof { %s }' % p['after'])
        return '\n'.join(out)     # caller closes the outer block

    def steps(self, ops):
        st = []
        for o in ops:
            m = o['m']
            if m in ('map', 'filter'):
                if len(o['a']) != 1:
                    raise Unsupported(m)
                c = o['a'][0]
                if c['k'] == 'path':
                    st.append((m, ({'k': 'vxarg'}, (lambda c=c: '%s(vx_arg)' % self.r(c)))))
                    continue
                if c['k'] != 'closure' or len(c['ps']) != 1:
                    raise Unsupported(m + ' without closure')
                if any(x['k'] == 'return' for x in walk(c['b'])):
                    raise Unsupported('return in closure')
                st.append((m, (c['ps'][0], (lambda c=c: self.r(c['b'])))))
            elif m in ('step_by', 'take', 'skip'):
                st.append((m, self.r(o['a'][0])))
            elif m in ('rev', 'enumerate', 'flatten', 'by_vals', 'cloned', 'copied'):
                st.append((m, None))
            else:
                raise Unsupported('adapter ' + m)
        return st

    def render_chain(self, srcnode, ops, end):
        m = end['m']
        if m == 'collect' and not ops and self.t(srcnode['s']) in ('env::args()', 'std::env::args()'):
            self.rule('`env::args().collect()` -> vx_args()')
            return 'vx_args()'
        self.rule('iterator chain -> index loop')
        k = self.loop_no
        self.loop_no += 1
        src = self.source(srcnode)
        st = self.steps(ops)
        if m == 'for_each':
            c = end['a'][0]
            if c['k'] != 'closure' or len(c['ps']) != 1:
                raise Unsupported('for_each')
            if any(x['k'] == 'return' for x in walk(c['b'])):
                raise Unsupported('return in closure')
            return self.emit_loop(src, st, k, lambda v: '%s %s;' % (self.bind(c['ps'][0], v), self.r(c['b']))) + '\n}'
        acc = 'vx_acc%d' % k
        if m == 'collect':
            tf = self.t(end['turbofish']) if end.get('turbofish') else ''
            want = tf or self.want or ''
            js = re.match(r'(::)?\s*<?\s*(js_sys\s*::\s*)?Array\b', want) is not None
            if 'BitVec' in want:
                m2 = re.search(r'BitVec\s*<[^>]*>', want)
                tyt = m2.group(0) if m2 else 'BitVec'
                if srcnode is not None and not st:
                    pass
                init = 'let mut %s: %s = BitVec::new();' % (acc, tyt)
                return '{ %s %s\n} %s }' % (init, self.emit_loop(src, st, k, lambda v: '%s.push(*%s);' % (acc, v)), acc)
            if want.replace(' ', '').startswith('Result<') or '::<Result' in want.replace(' ', ''):
                i = self.fresh('vx_e')
                fn_level = self.want_is_ret
                if not fn_level:
                    raise Unsupported('collect into Result not in tail position')
                return '{ let mut %s = Vec::new(); %s\n} Ok(%s) }' % (
                    acc, self.emit_loop(src, st, k, lambda v: 'match %s { Ok(vx_ok) => { %s.push(vx_ok); } Err(vx_er) => { return Err(vx_er); } }' % (v, acc)), acc)

            def push(v):
                if isinstance(v, tuple):
                    return 'vx_push_all(&mut %s, %s);' % (acc, v[1])
                return '%s.push(%s);' % (acc, v)
            return '{ let mut %s%s = Vec::new(); %s\n} %s }' % (acc, ': Vec<JsValue>' if js else '', self.emit_loop(src, st, k, push), 'vx_js_array(%s)' % acc if js else acc)
        if m == 'fold':
            c = end['a'][1]
            if c['k'] != 'closure' or len(c['ps']) != 2:
                raise Unsupported('fold')
            if any(x['k'] == 'return' for x in walk(c['b'])):
                c = strip_tail_return(c)
            init = self.r(end['a'][0])
            a, b = c['ps']
            return '{ let mut %s = %s; %s\n} %s }' % (
                acc, init, self.emit_loop(src, st, k, lambda v: '%s = { %s %s %s };' % (acc, self.bind(a, acc), self.bind(b, v), self.r(c['b']))), acc)
        if m in ('all', 'any'):
            raise Unsupported(m)
        raise Unsupported('iterator end ' + m)

    canary = None
    want = None
    want_is_ret = False

    def n_for(self, n):
        self.rule('`for` -> index loop')
        k = self.loop_no
        self.loop_no += 1
        e = n['e']
        while e['k'] == 'paren' and e['e']['k'] != 'range':
            e = e['e']
        ops = []
        while e['k'] == 'method' and e['m'] in ('enumerate', 'step_by', 'by_vals', 'cloned', 'copied', 'map', 'rev', 'take', 'skip', 'filter'):
            ops.append(e)
            e = e['recv']
            while e['k'] == 'paren' and e['e']['k'] != 'range':
                e = e['e']
        ops.reverse()
        src = self.source(e)
        st = self.steps(ops)
        return self.emit_loop(src, st, k, lambda v: '%s %s' % (self.bind(n['pat'], v), self.inner(n['b']))) + '\n}'

    def n_while(self, n):
        k = self.loop_no
        self.loop_no += 1
        p = self.loop_parts(k)
        inv = p['inv']
        dec = self.ann(self.c.get('loop-dec', k)) if self.c else None
        out = ''
        if p['before']:
            out += 'proof { %s } ' % p['before']
        out += 'while ' + self.r(n['c'])
        if inv:
            out += '\n invariant ' + inv.rstrip().rstrip(',') + ','
        if dec:
            out += '\n decreases ' + dec.rstrip().rstrip(',')
        else:
            self.no_measure = True
        out += '{ ' + (p['headghost'] or '') + (self.canary('loop %d' % k) if self.canary else '') + ('proof { %s } ' % p['head'] if p['head'] else '') + self.inner(n['b']) + ('proof { %s } ' % p['end'] if p['end'] else '') + '}'
        if p['after']:
            out += ' proof { %s }' % p['after']
        if p['before'] or p['after']:
            out = '{ ' + out + ' }'
        return out

    def n_loop(self, n):
        k = self.loop_no
        self.loop_no += 1
        p = self.loop_parts(k)
        dec = self.ann(self.c.get('loop-dec', k)) if self.c else None
        ens = self.ann(self.c.get('loop-ens', k)) if self.c else None
        out = ('#[verifier::allow_complex_invariants] ' if p['inv'] or ens else '') + 'loop'
        if p['inv']:
            out += '\n invariant_except_break ' + p['inv'].rstrip().rstrip(',') + ','
        if ens:
            out += '\n ensures ' + ens.rstrip().rstrip(',') + ','
        if dec:
            out += '\n decreases ' + dec.rstrip().rstrip(',')
        else:
            self.no_measure = True
        out += '{ ' + (p['headghost'] or '') + (self.canary('loop %d' % k) if self.canary else '') + ('proof { %s } ' % p['head'] if p['head'] else '') + self.inner(n['b']) + ('proof { %s } ' % p['end'] if p['end'] else '') + '}'
        pre = ''
        if p['before']:
            pre = 'proof { %s } ' % p['before']
        if p['ghost']:
            pre += p['ghost'] + ' '
        if p['after']:
            out += ' proof { %s }' % p['after']
        if pre or p['after']:
            return '{ ' + pre + out + ' }'
        return out

    # -- statements
    def inner(self, b, tail=None):
        """Statements of a block without its braces."""
        return self.stmts(b)

    def stmts(self, b):
        out = []
        for s in b['stmts']:
            out.append(self.r(s))
        return '\n'.join(out)

    def n_block(self, b):
        return '{ ' + self.stmts(b) + ' }'

    def n_blockexpr(self, n):
        return self.n_block(n['b'])

    def n_let(self, n):
        if n['else'] is not None:
            raise Unsupported('let else')
        save = self.want, self.want_is_ret
        ty = self.t(n['ty']) if n['ty'] else None
        self.want, self.want_is_ret = ty, False
        init = self.r(n['init']) if n['init'] is not None else None
        self.want, self.want_is_ret = save
        if init is not None and any(x['k'] == 'pref' for x in walk(n['pat'])):
            return self.bind(n['pat'], init)
        return 'let %s%s%s;' % (self.t(n['pat']['s']), ': ' + self.ty(ty) if ty else '', ' = ' + init if init is not None else '')

    def ty(self, t):
        return t

    def n_stmt(self, n):
        tx = self.r(n['e'])
        if n['semi']:
            return tx + ';'
        return tx

    def render_body(self):
        b = self.fn['body']
        c = self.c
        stmts = list(b['stmts'])
        out = []
        entry = self.ann(c.get('entry')) if c else None
        if c and c.get('ghost'):
            out.append(self.ann(c.get('ghost')))
        if entry:
            out.append('proof { %s }' % entry)
        tailp = self.ann(c.get('tail')) if c else None
        ret = self.t(self.fn['ret']) if self.fn['ret'] else None
        last = None
        if stmts and stmts[-1]['k'] == 'stmt' and not stmts[-1]['semi'] and ret:
            last = stmts.pop()
        elif stmts and stmts[-1]['k'] == 'stmt' and stmts[-1]['semi'] and stmts[-1]['e']['k'] == 'return' and ret:
            last = {'k': 'stmt', 'semi': False, 'e': stmts[-1]['e']['e'], 's': stmts[-1]['s']}
            stmts.pop()
        elif stmts and stmts[-1]['k'] == 'stmt' and not stmts[-1]['semi'] and not ret:
            pass
        for s in stmts:
            out.append(self.r(s))
        if last is not None:
            save = self.want, self.want_is_ret
            self.want, self.want_is_ret = ret, True
            e = last['e']
            if e['k'] == 'return':
                e = e['e']
            tx = self.r(e)
            self.want, self.want_is_ret = save
            if tailp or self.canary:
                out.append('let vx_ret: %s = %s;' % (ret, tx))
                if self.canary:
                    out.append(self.canary('end'))
                if tailp:
                    out.append('proof { %s }' % tailp)
                out.append('vx_ret')
            else:
                out.append(tx)
        elif tailp or self.canary:
            if self.canary and not ret:
                out.append(self.canary('end'))
            if tailp:
                out.append('proof { %s }' % tailp)
        return '\n'.join(out)


def strip_tail_return(c):
    """Closure whose body block ends in `return e;` -> same closure with tail `e`."""
    c = json.loads(json.dumps(c))
    b = c['b']
    if b['k'] == 'blockexpr':
        st = b['b']['stmts']
        if st and st[-1]['k'] == 'stmt' and st[-1]['e']['k'] == 'return':
            st[-1] = {'k': 'stmt', 's': st[-1]['s'], 'semi': False, 'e': st[-1]['e']['e']}
            if not any(x['k'] == 'return' for x in walk(b)):
                return c
    raise Unsupported('return in closure')
