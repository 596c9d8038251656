"""C++ AST (JSON dumped by hvx) -> WhyML.

Statement by statement, structure preserving.  Knows C++, std:: and xt:: (through the handlers of ext.py), not Higra:
hg:: functions are either inlined from their extracted body or, when they have a contract, called through it.
Everything outside the supported subset raises Unsupported.
"""
import re

class Unsupported(Exception):
    pass

KW = set("""abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant continue
diverges do done downto else end ensures epsilon exception exists export false float for forall fun function ghost goal if import
in inductive invariant label lemma let match meta module mutable not old partial predicate private pure raise raises range
reads rec ref requires result return returns scope so then theory to true try type use val variant while with writes eq len elts at_
this_ div mod set get map int real bool""".split())

def sane(n):
    n = re.sub(r'\W', '_', n)
    if not n or n[0].isdigit(): n = 'v' + n
    if n[0].isupper(): n = 'v_' + n
    if n.startswith('_'): n = n.lstrip('_') or 'v'
    if n[0].isupper(): n = 'v_' + n
    if n in KW: n += '_'
    return n

# ---------------------------------------------------------------- C++ types
def strip_targs(n):
    out = []; d = 0; i = 0
    while i < len(n):
        c = n[i]
        if n.startswith('operator<', i) or n.startswith('operator>', i) or n.startswith('operator-', i):
            m = re.match(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|<|>|->\*?|-=|--|-)', n[i:])
            if d == 0: out.append(m.group(0))
            i += len(m.group(0)); continue
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)

def parse_type(s):
    """-> (head, [args]) ; cv/ref/pointer markers kept as heads '&', '*'"""
    s = s.strip()
    while True:
        t = s
        if s.startswith('const '): s = s[6:].strip()
        if s.startswith('volatile '): s = s[9:].strip()
        if s.endswith(' const'): s = s[:-6].strip()
        if s.endswith('*const'): s = s[:-5].strip()
        if s == t: break
    if s.endswith('&&'): return ('&&', [parse_type(s[:-2])])
    if s.endswith('&'): return ('&', [parse_type(s[:-1])])
    if s.endswith('*'): return ('*', [parse_type(s[:-1])])
    m = re.match(r'^([^<]*)<', s)
    if not m: return (s, [])
    head = m.group(1); i = len(head) + 1; d = 1; a = []; st = i; par = 0
    while i < len(s) and d > 0:
        c = s[i]
        if c in '([{': par += 1
        elif c in ')]}': par -= 1
        elif c == '<' and par == 0: d += 1
        elif c == '>' and par == 0:
            d -= 1
            if d == 0: a.append(s[st:i])
        elif c == ',' and d == 1 and par == 0: a.append(s[st:i]); st = i + 1
        i += 1
    rest = s[i:]
    if rest.strip():
        return (strip_targs(s), [])
    return (head, [parse_type(x) for x in a if x.strip()])

INTS = {'int': (32, 1), 'long': (64, 1), 'long long': (64, 1), 'short': (16, 1), 'char': (8, 1), 'signed char': (8, 1),
        'unsigned int': (32, 0), 'unsigned long': (64, 0), 'unsigned long long': (64, 0), 'unsigned short': (16, 0), 'unsigned char': (8, 0)}
VECS = {'xt::xtensor_adaptor', 'std::vector', 'std::priority_queue', 'xt::xtensor_container', 'xt::xarray_container', 'xt::xfixed_container', 'std::stack', 'std::array', 'std::initializer_list', 'xt::svector', 'std::deque', 'std::unordered_set', 'std::set', 'xt::uvector'}

def INT(): return 'int'
def is_vec(t): return isinstance(t, tuple) and t[0] == 'vec'
def is_rec(t): return isinstance(t, tuple) and t[0] == 'rec'
def wty(t):
    if isinstance(t, str): return t
    if t[0] == 'vec':
        return 'vec ' + wtyp(t[1])
    if t[0] == 'queue': return 'queue ' + wtyp(t[1])
    if t[0] == 'pair': return 'pair %s %s' % (wtyp(t[1]), wtyp(t[2]))
    if t[0] == 'rec': return t[1]
    if t[0] == 'fun': return ' -> '.join([wtyp(x) for x in t[1]] + [wtyp(t[2])])
    raise Unsupported('type %r' % (t,))
def wtyp(t):
    s = wty(t)
    return '(%s)' % s if ' ' in s else s

# ---------------------------------------------------------------- values
class Val:
    ref = False
class PV(Val):                       # pure value: WhyML expression
    def __init__(s, e, ty, stable=False): s.e, s.ty, s.stable = e, ty, stable
    def __repr__(s): return 'PV(%s:%s)' % (s.e, s.ty)
class Var:                           # WhyML variable
    def __init__(s, name, ty, mut): s.name, s.ty, s.mut = name, ty, mut
class Place(Val):                    # lvalue
    def __init__(s, root, path=(), ty=None): s.root, s.path, s.ty = root, tuple(path), ty if ty is not None else root.ty
    def __repr__(s): return 'Place(%s,%s)' % (s.root.name, s.path)
class Obj(Val):                      # scalar-replaced object (fields: Val or cells)
    def __init__(s, rec, fields, bound=False): s.rec, s.fields, s.bound = rec, fields, bound
class Lam(Val):
    def __init__(s, fid, caps, this): s.fid, s.caps, s.this = fid, caps, this
class FnV(Val):
    def __init__(s, fn): s.fn = fn
class Iter(Val):                     # iterator / pointer into a vec; idx: PV (pure) or Place of an int var
    def __init__(s, base, idx, rev=False): s.base, s.idx = base, idx
class Shape(Val):
    def __init__(s, dims): s.dims = dims
class View(Val):                     # xt::view(place, range(b,e))
    def __init__(s, base, b, e): s.base, s.b, s.e = base, b, e
class Range(Val):
    def __init__(s, b, e): s.b, s.e = b, e
class Opaque(Val):
    def __init__(s, what, data=None): s.what, s.data = what, data
class ObjVec(Val):
    """vector of scalar-replaced objects: one vector per field (the objects of a vector share the containers their iterators point into)"""
    def __init__(s, rec, comps): s.rec, s.comps = rec, comps     # comps: field -> Place (vec) | ['iter', Place (vec int), base] | ObjVec
    def first(s):
        for c in s.comps.values(): return c.first() if isinstance(c, ObjVec) else (c[1] if isinstance(c, list) else c)
class Unit(Val):
    pass
UNIT = Unit()

class Ctx:
    """One extracted translation unit."""
    def __init__(self, dump, short):
        self.types = dump['types']
        self.fns = {f['id']: f for f in dump['functions']}
        self.recs = {}
        for r in dump['records']:
            self.recs[self.types[r['ty']]] = r
        self.short = short           # rec qualified name (no targs) -> short name
        self.recname = {}            # full type -> why record name
        self.recdefs = {}            # why record name -> [(field, ty)]
        self.recorder = []
    def ts(self, i): return self.types[i] if i is not None and i >= 0 else 'void'

OBJ_RECS = ('hg::counting_iterator', 'hg::irange', 'hg::iterator_wrapper', 'hg::transform_forward_iterator', 'hg::details::light_axis_view',
            'hg::accumulator_', 'hg::accumulator_detail', 'hg::forward_iterator_facade', 'hg::random_iterator_facade', 'hg::tree_internal::tree_graph_')

# records that keep a pointer to a buffer which is not modified during their life: the pointer is translated as the pointed contents
PTR_VALUE_RECS = ('hg::range_minimum_query_internal::rmq_sparse_table', 'hg::range_minimum_query_internal::rmq_sparse_table_block', 'hg::lca_internal::lca_rmq')

class Types:
    def __init__(self, ctx): self.c = ctx
    def isobj(self, full):
        q = strip_targs(full)
        if q.startswith(OBJ_RECS): return True
        r = self.c.recs.get(full)
        if r is None: return False
        for f in r['fields']:
            t = self.c.types[f['ty']]
            p = parse_type(t)
            if p[0] == '*' and q in PTR_VALUE_RECS: continue
            if p[0] in ('&', '&&', '*') or p[0] in ('std::function', '__gnu_cxx::__normal_iterator'): return True
            h = t[6:] if t.startswith('const ') else t
            if h in self.c.recs and h != full and self.isobj(h): return True
            if '(lambda' in t or '(anonymous class' in t: return True
        return False
    def full(self, s):
        s = s.strip()
        ch = True
        while ch:
            ch = False
            for suf in ('&&', '&', '*', 'const'):
                if s.endswith(suf): s = s[:-len(suf)].strip(); ch = True
            if s.startswith('const '): s = s[6:].strip(); ch = True
        return s
    def why(self, s):
        """C++ canonical type string -> WhyML type, or None when it has no value type (iterators, lambdas, ...)"""
        f = self.full(s)
        if f in INTS: return 'int'
        if f == 'bool': return 'bool'
        if f in ('double', 'float', 'long double'): return 'real'
        if f == 'void': return 'unit'
        if f.startswith('std::basic_string<char,'): return 'int'          # identity of the string: equal iff the contents are equal
        h, a = parse_type(f)
        if h == 'std::queue':
            t = self.why(self.unparse(a[0]))
            if t is None: raise Unsupported('queue of ' + f)
            return ('queue', t)
        if h in VECS:
            if h == 'xt::xtensor_container':
                if len(a) > 1 and a[1][0] != '1': raise Unsupported('multi-dimensional tensor ' + f)
                el = a[0][1][0]
            elif h == 'xt::xarray_container': el = a[0][1][0]
            elif h == 'xt::xfixed_container':
                if len(a[1][1]) != 1: raise Unsupported('multi-dimensional tensor ' + f)
                el = a[0]
            elif h == 'xt::xtensor_adaptor':
                if a[0][0] == '&' and len(a) > 1 and a[1][0] == '1': return self.why(self.unparse(a[0]).rstrip('&').strip())   # view of a whole std::vector
                if len(a) > 1 and a[1][0] != '1' or a[0][0] != 'xt::xbuffer_adaptor': raise Unsupported('adaptor ' + f)
                el = a[0][1][0][1][0]
            else: el = a[0]
            t = self.why(self.unparse(el))
            if t is None: raise Unsupported('vec of ' + f)
            return ('vec', t)
        if h == 'xt::xexpression':
            if a[0][0] == 'xt::xview': return self.why('xt::xexpression<%s>' % self.unparse(a[0][1][0]).replace('const ', '').rstrip('&'))
            if a[0][0] == 'xt::xfunction':
                op = a[0][1][0][0].split('::')[-1].rstrip('>')
                if op in ('logical_not', 'logical_and', 'logical_or', 'less', 'less_equal', 'greater', 'greater_equal', 'equal_to', 'not_equal_to'): return ('vec', 'bool')
                if op in ('plus', 'minus', 'multiplies', 'divides', 'negate', 'identity'):
                    ts = [self.why('xt::xexpression<%s>' % self.unparse(x).replace('const ', '').rstrip('&')) if not self.unparse(x).startswith('xt::xscalar') else None for x in a[0][1][1:]]
                    ts = [t for t in ts if t]
                    return ('vec', 'real') if ('vec', 'real') in ts or op == 'divides' else ts[0]
                raise Unsupported('lazy expression ' + op)
            if a[0][0] == 'xt::xgenerator': return ('vec', self.why(self.unparse(a[0][1][1])))
            if a[0][0] == 'xt::xindex_view': return self.why('xt::xexpression<%s>' % self.unparse(a[0][1][0]).replace('const ', '').rstrip('&'))
            if a[0][0] == 'xt::xbroadcast' and a[0][1][0][0] == 'xt::xscalar': return ('vec', self.why(self.unparse(a[0][1][0][1][0])))
            return self.why(self.unparse(a[0]))
        if h == 'std::pair' or (h == 'std::tuple' and len(a) == 2):
            x, y = self.why(self.unparse(a[0])), self.why(self.unparse(a[1]))
            if x is None or y is None: return None
            return ('pair', x, y)
        if f in self.c.recs and not self.isobj(f): return ('rec', self.rec(f))
        if f.startswith('hg::') and f not in self.c.recs and re.match(r'hg::\w+(::\w+)*$', f): return 'int'   # enum
        return None
    def unparse(self, p):
        h, a = p
        if h in ('&', '&&', '*'): return self.unparse(a[0]) + h
        if not a: return h
        return h + '<' + ', '.join(self.unparse(x) for x in a) + '>'
    def rec(self, full):
        if full in self.c.recname: return self.c.recname[full]
        r = self.c.recs[full]; q = strip_targs(full)
        base = None
        for k, v in self.c.short:
            if q == k or (k.endswith('$') and re.search(k, full)): base = v; break
        if base is None: base = sane(q.split('::')[-1])
        name = base; k = 1
        while name in self.c.recdefs: k += 1; name = '%s%d' % (base, k)
        self.c.recname[full] = name; self.c.recdefs[name] = None
        fs = []
        for f in r['fields']:
            t = self.why(self.c.types[f['ty']])
            if t is None: raise Unsupported('field %s of %s' % (f['name'], full))
            if self.c.types[f['ty']].rstrip().endswith('*'): t = ('vec', t)
            fs.append((f['name'], t))
        self.c.recdefs[name] = fs; self.c.recorder.append(name)
        return name
    def fld(self, rec, f):
        return '%s_%s' % (rec, f.lstrip('_'))

def fixed_len(full):
    """number of elements of a 1-D tensor of fixed shape"""
    m = re.match(r'(?:const )?xt::xfixed_container<.*, xt::fixed_shape<(\d+)>', full)
    return m.group(1) if m else None
def default_ct(t, full):
    n = fixed_len(full) if is_vec(t) else None
    return '(vec_any %s : %s)' % (n, wty(t)) if n else default_of(t) if is_vec(t) else '(any %s)' % wty(t)
def default_of(t):
    if t == 'int': return '0'
    if t == 'real': return '0.0'
    if t == 'bool': return 'false'
    if is_vec(t): return '(vec_empty ())'
    return '(any %s)' % wty(t)

class FnTrans:
    """Translates one function (under contract) into a WhyML definition."""
    def __init__(self, ctx, contracts, ext, spec):
        self.c = ctx; self.T = Types(ctx); self.contracts = contracts; self.ext = ext; self.spec = spec
        self.names = {}              # base name -> count
        self.immut = set()
        self.env = {}
        self.out = []
        self.writes = []             # stack of write logs
        self.declared = []           # stack of declared names
        self.loopno = 0
        self.excs = []
        self.used = {}               # why name -> contract used
        self.thisv = None
        self.raises = False
        self.retmode = []; self.rsdepth = 0
        self.anchor_hits = set()
        self.varlog = []             # (name, type) in declaration order
        self.inl = []
        self.loops = []
        self.calln = {}
        self.asgn = {}
        self.brk = []
        self.rename = {}
        self.pnames = None
        self.inlined = set()

    # ---- helpers
    def ts(self, i): return self.c.ts(i)
    def wt(self, i): return self.T.why(self.ts(i))
    def emit(self, s): self.out.append(s)
    def fresh(self, base):
        b = sane(base)
        b = self.rename.get(b, b)
        k = self.names.get(b, 0)
        while True:
            n = b if k == 0 else '%s_%d' % (b, k)
            k += 1
            if n == b or n not in self.names: break
        self.names[b] = k
        if n != b: self.names.setdefault(n, 1)
        if self.declared: self.declared[-1].add(n)
        return n
    def isstable(self, e):
        return re.match(r'^\(?-?\d+\)?$', e) is not None or e in self.immut or e in ('true', 'false') or re.match(r'^\(?-?\d+\.\d+\)?$', e) is not None
    def let(self, base, pv):
        n = self.fresh(base); self.immut.add(n)
        self.emit('let %s = %s in' % (n, pv.e))
        return PV(n, pv.ty, True)
    def stab(self, pv, base='t'):
        if self.isstable(pv.e): return pv
        m = re.match(r'^\(?(\w+)\.(\w+)\)?$', pv.e)
        if m and m.group(1) in self.immut: return pv
        return self.let(base, pv)
    def block(self, f):
        sv = self.out; self.out = []
        f()
        r = self.out; self.out = sv
        return r

    def anchor(self, key):
        for t in self.spec.get('at', {}).get(key, []):
            self.anchor_hits.add(key)
            self.emit(t if t.rstrip().endswith((';', ' in')) else t + ';')

    # ---- places
    def read(self, p):
        s = p.root.name; t = p.root.ty
        for k, x in p.path:
            if k == 'f': s = '%s.%s' % (s, x[0])
            elif k == 'i': s = '(vget %s %s)' % (self.par(s), self.par(x))
        return PV(s, p.ty, (not p.root.mut) and all(k == 'f' for k, _ in p.path))
    def par(self, e):
        return e if re.match(r"^[\w.']+$", e) or (e.startswith('(') and self.balanced(e)) else '(%s)' % e
    def balanced(self, e):
        d = 0
        for i, c in enumerate(e):
            if c == '(': d += 1
            elif c == ')':
                d -= 1
                if d == 0 and i != len(e) - 1: return False
        return True
    def write(self, p, v):
        if not p.root.mut: raise Unsupported('write to immutable %s' % p.root.name)
        # nested functional update
        def upd(cur, path):
            if not path: return v
            k, x = path[0]
            if k == 'f':
                return '{ %s with %s = %s }' % (cur, x[0], upd('%s.%s' % (cur, x[0]), path[1:]))
            if len(path) == 1: return '(vset %s %s %s)' % (self.par(cur), self.par(x), self.par(v))
            return '(vset %s %s %s)' % (self.par(cur), self.par(x), self.par(upd('(vget %s %s)' % (self.par(cur), self.par(x)), path[1:])))
        val = upd(p.root.name, p.path)
        self.emit('%s <- %s;' % (p.root.name, val))
        self.logw(p)
        nm = p.root.name
        self.asgn[nm] = self.asgn.get(nm, 0) + 1
        self.anchor('after:%s:%d' % (nm, self.asgn[nm]))
        self.anchor('after:%s' % nm)
    def logw(self, p, kind=None):
        fp = []
        k2 = 'assign'
        for k, x in p.path:
            if k == 'f': fp.append(x[0])
            else: k2 = 'set'; break
        for w in self.writes: w.append((p.root, tuple(fp), kind or k2))

    # reads a Val as a pure value
    def rv(self, v):
        if isinstance(v, PV): return v
        if isinstance(v, Place): return self.read(v)
        if isinstance(v, View): return PV('(vslice %s %s %s)' % (self.par(self.rv(v.base).e), self.par(v.b.e), self.par(v.e.e)), self.rv(v.base).ty)
        if isinstance(v, Obj):
            nm = self.T.rec(v.rec) if v.rec in self.c.recs and not self.T.isobj(v.rec) else None
            if nm:
                fs = self.c.recdefs[nm]
                return PV('{ ' + '; '.join('%s = %s' % (self.T.fld(nm, f), self.rv(v.fields[f]).e) for f, t in fs) + ' }', ('rec', nm))
        raise Unsupported('cannot read %s as a value' % type(v).__name__)

    # ---- variables
    def declare(self, did, name, v, ty, mut=True, cppname=None):
        """bind declaration did to value v"""
        if isinstance(v, (PV, Place, View)) or (isinstance(v, Obj) and v.rec in self.c.recs and not self.T.isobj(v.rec)):
            pv = self.rv(v)
            t = pv.ty if ty is None else ty
            n = self.fresh(name)
            if mut: self.emit('let ref %s = %s in' % (n, pv.e))
            else:
                self.emit('let %s = %s in' % (n, pv.e)); self.immut.add(n)
            b = Place(Var(n, t, mut))
            self.varlog.append((n, wty(t)))
        elif isinstance(v, Obj): b = self.bindobj(name, v, mut)
        elif isinstance(v, Iter):
            b = self.binditer(name, v, mut)
        else: b = v
        if did is not None: self.env[did] = b
        return b
    def binditer(self, name, v, mut=True):
        pv = self.rv(v.idx)
        n = self.fresh(name)
        if mut: self.emit('let ref %s = %s in' % (n, pv.e))
        else: self.emit('let %s = %s in' % (n, pv.e)); self.immut.add(n)
        self.varlog.append((n, 'int'))
        return Iter(v.base, Place(Var(n, 'int', mut)))
    def bindobj(self, name, v, mut=True):
        fs = {}
        for f, x in v.fields.items():
            nm = name if f in ('m_position', 'm_base') else name + '_' + f.lstrip('_')
            if isinstance(x, Obj): fs[f] = self.bindobj(nm, x, mut)
            elif isinstance(x, Iter): fs[f] = self.binditer(nm, x, mut)
            elif isinstance(x, PV):
                if self.isstable(x.e) and (not mut or (self.T.isobj(v.rec) and f not in self.all_assigned())): fs[f] = x; continue
                n = self.fresh(nm)
                if mut: self.emit('let ref %s = %s in' % (n, x.e))
                else: self.emit('let %s = %s in' % (n, x.e)); self.immut.add(n)
                self.varlog.append((n, wty(x.ty)))
                fs[f] = Place(Var(n, x.ty, mut))
            else: fs[f] = x
        return Obj(v.rec, fs, True)
    def copyval(self, v):
        """value semantics copy of a Val (for by-value params / object copies): stable snapshot"""
        if isinstance(v, Obj):
            return Obj(v.rec, {f: (self.copyval(x) if not (isinstance(x, Place) and f in self.reffields(v.rec)) else x) for f, x in v.fields.items()})
        if isinstance(v, Iter): return Iter(v.base, self.stab(self.rv(v.idx)))
        if isinstance(v, Place): return self.rv(v)
        if isinstance(v, Shape): return Shape(list(v.dims))
        return v
    def reffields(self, rec):
        r = self.c.recs.get(rec)
        if not r: return ()
        return {f['name'] for f in r['fields'] if self.ts(f['ty']).rstrip().endswith(('&', '&&'))}

    # ================================================================ expressions
    def ev(self, e, hint=None):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s (%s) line %s' % (e['k'], e.get('cls'), e.get('l')))
        return m(e)
    def evr(self, e): return self.rv(self.ev(e))

    def e_Int(self, e):
        t = self.wt(e['ty'])
        if t == 'bool': return PV('true' if e['v'] != '0' else 'false', 'bool', True)
        if t == 'real': return PV('%s.0' % e['v'], 'real', True)
        v = e['v']
        return PV(v if not v.startswith('-') else '(%s)' % v, 'int', True)
    def e_Enum(self, e): return PV(e['v'] if not e['v'].startswith('-') else '(%s)' % e['v'], 'int', True)
    def e_Bool(self, e): return PV('true' if e['v'] else 'false', 'bool', True)
    def e_Float(self, e):
        if e.get('nan'): raise Unsupported('NaN literal')
        if e.get('inf') or e.get('largest'):
            return PV({1: '(real_max ())', -1: '(real_lowest ())'}[e.get('inf') or e.get('largest')], 'real')
        from fractions import Fraction
        from decimal import Decimal
        d = Decimal(repr(e['d']))
        s = format(d, 'f')
        if '.' not in s: s += '.0'
        return PV(s if not s.startswith('-') else '(-. %s)' % s[1:], 'real', True)
    def e_Known(self, e): return e['v']
    def e_Str(self, e): return Opaque('str', int('01' + e['hex'], 16) if 'hex' in e else None)
    def e_Null(self, e): return Opaque('null')
    def e_OffsetOf(self, e): return Opaque('offsetof', e['name'])
    def e_Zero(self, e): return PV(default_of(self.wt(e['ty'])), self.wt(e['ty']))
    def e_This(self, e): return self.thisv
    def e_ToVoid(self, e): self.ev(e['e']); return UNIT
    def e_Throw(self, e):
        self.emit_throw(); return UNIT
    def emit_throw(self):
        if self.spec.get('raises') is not None:
            self.raises = True
            self.emit('raise Hg_error;')
        else:
            self.emit('assert { [@expl:no error is raised] false }; absurd;')
    def e_Ref(self, e):
        b = self.env.get(e['id'])
        if b is None: raise Unsupported('unbound %s' % e['name'])
        return b
    def e_FnRef(self, e): return FnV(e['fn'])
    def e_Member(self, e):
        if 'fn' in e: raise Unsupported('member function reference')
        b = self.ev(e['base'])
        r = self.member(b, e['name'], self.ts(e.get('fty', e['ty'])))
        if isinstance(r, (Place, PV)) and is_vec(r.ty) and self.ts(e.get('fty', e['ty'])).rstrip().rstrip('const').rstrip().endswith('*'): return Iter(r, PV('0', 'int', True))
        return r
    def member(self, b, name, fty=None):
        if isinstance(b, Obj):
            if name not in b.fields: raise Unsupported('field %s of %s' % (name, b.rec))
            return b.fields[name]
        if isinstance(b, Place):
            t = b.ty
            if is_rec(t):
                for f, ft in self.c.recdefs[t[1]]:
                    if f == name: return Place(b.root, b.path + (('f', (self.T.fld(t[1], f), ft)),), ft)
            if isinstance(t, tuple) and t[0] == 'pair' and name in ('first', 'second'):
                return Place(b.root, b.path + (('f', ('fst' if name == 'first' else 'snd', None)),), t[1] if name == 'first' else t[2])
            raise Unsupported('field %s of place %s' % (name, t))
        if isinstance(b, PV):
            t = b.ty
            if is_rec(t):
                for f, ft in self.c.recdefs[t[1]]:
                    if f == name: return PV('%s.%s' % (self.par(b.e), self.T.fld(t[1], f)), ft)
            if isinstance(t, tuple) and t[0] == 'pair' and name in ('first', 'second'):
                return PV('%s.%s' % (self.par(b.e), 'fst' if name == 'first' else 'snd'), t[1] if name == 'first' else t[2])
        if isinstance(b, Iter): return self.member(self.deref(b), name, fty)
        raise Unsupported('member %s of %s' % (name, type(b).__name__))
    def deref(self, it):
        if isinstance(it, Iter):
            return self.index(it.base, self.rv(it.idx))
        if isinstance(it, Obj): return it
        if isinstance(it, Place) and not isinstance(it.ty, str): return it
        raise Unsupported('deref of %s' % type(it).__name__)
    def as_index(self, v):
        """an object used as an index: through its conversion operator to an integer"""
        full = next(k for k, n in self.c.recname.items() if n == v.ty[1])
        for f in self.c.fns.values():
            if f.get('method') and not f['params'] and f['name'] == full + '::operator long' and self.T.full(self.ts(f['rec'])) == full: return self.rv(self.inline(f, [], self.stab(v)))
        raise Unsupported('index of type %s' % full)
    def index(self, b, i, pure=False):
        """b[i] -> Place or PV"""
        if is_rec(i.ty): i = self.as_index(i)
        if isinstance(b, Shape):
            if re.match(r'^\d+$', i.e): return b.dims[int(i.e)]
            raise Unsupported('symbolic shape index')
        if isinstance(b, Opaque) and b.what == 'shape1': return b.data
        if isinstance(b, ObjVec): return self.objvec_at(b, self.stab(i, 'ix'))
        if isinstance(b, View):
            return self.index(b.base, PV('(%s + %s)' % (b.b.e, i.e), 'int'))
        if isinstance(b, Place):
            if not is_vec(b.ty): raise Unsupported('index of %s' % (b.ty,))
            return Place(b.root, b.path + (('i', i.e),), b.ty[1])
        if isinstance(b, PV):
            if not is_vec(b.ty): raise Unsupported('index of %s' % (b.ty,))
            return PV('(vget %s %s)' % (self.par(b.e), self.par(i.e)), b.ty[1])
        raise Unsupported('index of %s' % type(b).__name__)
    def stabplace(self, p):
        if not isinstance(p, Place): return p
        path = []
        for k, x in p.path:
            if k == 'i' and not self.isstable(x): x = self.let('ix', PV(x, 'int')).e
            path.append((k, x))
        return Place(p.root, tuple(path), p.ty)
    def e_Sub(self, e):
        b = self.ev(e['base']); i = self.evr(e['idx'])
        if isinstance(b, Iter): return self.deref(Iter(b.base, PV(i.e if self.rv(b.idx).e == '0' else '(%s + %s)' % (self.rv(b.idx).e, i.e), 'int')))
        return self.index(b, i)

    def cint(self, tyid):
        return INTS.get(self.T.full(self.ts(tyid)))
    def e_Cast(self, e):
        ck = e['ck']; src = e['e']['ty']; dst = e['ty']
        if ck == 'IntegralCast' and self.cint(src) == (64, 0) and self.cint(dst) == (64, 1): return self.evm(e['e'])
        if ck == 'NullToPointer': return Opaque('null')
        v = self.ev(e['e'])
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            v = self.rv(v)
            if v.ty == 'bool': return PV('(if %s then 1 else 0)' % v.e, 'int')
            s, d = self.cint(src), self.cint(dst)
            if s and d: return self.icast(v, s, d)
            return v
        if ck == 'IntegralToFloating':
            v = self.rv(v)
            if v.ty == 'bool': return PV('(if %s then 1.0 else 0.0)' % v.e, 'real')
            if re.match(r'^\d+$', v.e): return PV(v.e + '.0', 'real', True)
            return PV('(r_of_int %s)' % self.par(v.e), 'real')
        if ck == 'FloatingToIntegral':
            return PV('(real_trunc %s)' % self.par(self.rv(v).e), 'int')
        if ck == 'FloatingCast': return v
        if ck in ('IntegralToBoolean',): 
            v = self.rv(v)
            return PV('(%s <> 0)' % v.e, 'bool') if v.ty == 'int' else v
        if ck == 'FloatingToBoolean': return PV('(not (r_eq %s 0.0))' % self.par(self.rv(v).e), 'bool')
        if ck in ('BitCast',): return v
        raise Unsupported('cast %s' % ck)
    def evm(self, e):
        """operand of a conversion unsigned 64 -> signed 64: wrap-around inside sums, products and conversions cancels out"""
        k = e['k']
        if k == 'Bin' and e['op'] in ('+', '-', '*') and self.cint(e['ty']) == (64, 0):
            a, b = self.evm(e['a']), self.evm(e['b'])
            return PV('(%s %s %s)' % (self.par(a.e), e['op'], self.par(b.e)), 'int')
        if k == 'Cast' and e['ck'] == 'IntegralCast' and self.cint(e['ty']) in ((64, 0), (64, 1)) and self.cint(e['e']['ty']) is not None: return self.evm(e['e'])
        if k == 'Cond':
            c = self.evr(e['c']); ra, rb = [], []
            ba = self.block(lambda: ra.append(self.evm(e['a']))); bb = self.block(lambda: rb.append(self.evm(e['b'])))
            a, b = ra[0], rb[0]
            s = '(if %s then %s else %s)' % (c.e, 'begin %s %s end' % ('\n'.join(ba), a.e) if ba else a.e, 'begin %s %s end' % ('\n'.join(bb), b.e) if bb else b.e)
            return self.let('t', PV(s, 'int')) if ba or bb else PV(s, 'int')
        v = self.evr(e)
        return v if v.ty == 'int' else self.conv(v, 'int')
    def icast(self, v, s, d):
        (sw, ss), (dw, ds) = s, d
        m = re.match(r'^\(?(-?\d+)\)?$', v.e)
        if m:
            k = int(m.group(1))
            if ds or k >= 0: return v
            raise Unsupported('negative constant converted to unsigned')
        if ss and not ds: return PV('(to_unsigned %s)' % self.par(v.e), 'int')
        if dw < sw: return PV('(narrow%s%d %s)' % ('' if ds else 'u', dw, self.par(v.e)), 'int')
        return v
    # ---- operators
    def e_Un(self, e):
        op = e['op']
        if op in ('++', '--', '++post', '--post'):
            p = self.ev(e['e'])
            if isinstance(p, Iter):
                o = self.rv(p.idx); old = self.stab(o) if op.endswith('post') else None
                self.write(p.idx, '%s %s 1' % (o.e, op[0]))
                return Iter(p.base, old) if old else p
            p = self.stabplace(p)
            if not isinstance(p, Place): raise Unsupported('++ on %s' % type(p).__name__)
            cur = self.rv(p)
            old = self.let('t', cur) if op.endswith('post') and not e.get('discard') else None
            if cur.ty == 'real': self.write(p, '(%s %s. 1.0)' % (cur.e, op[0]))
            else:
                ct = self.cint(e['ty'])
                if op[0] == '-' and ct and not ct[1]: self.write(p, '(sub_unsigned %s 1)' % self.par(cur.e))
                else: self.write(p, '(%s %s 1)' % (cur.e, op[0]))
            return old if old is not None else p
        if op == '*': return self.deref(self.ev(e['e']))
        if op == '&': 
            v = self.ev(e['e'])
            if isinstance(v, Place) and v.path and v.path[-1][0] == 'i': return Iter(Place(v.root, v.path[:-1], ('vec', v.ty)), PV(v.path[-1][1], 'int'))
            return v
        v = self.evr(e['e'])
        if op == '!':
            if v.e in ('true', 'false'): return PV('false' if v.e == 'true' else 'true', 'bool', True)
            return PV('(not %s)' % self.par(v.e), 'bool')
        if op == '-':
            if v.ty == 'real': return PV('(-. %s)' % self.par(v.e), 'real')
            if re.match(r'^\d+$', v.e): return PV('(-%s)' % v.e, 'int', True)
            return PV('(- %s)' % self.par(v.e), 'int')
        if op == '+': return v
        raise Unsupported('unary ' + op)
    def e_Bin(self, e):
        op = e['op']
        if op == '=': return self.assign(e['a'], e['b'])
        if op == ',': self.ev(e['a']); return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.evr(e['a'])
            if a.e in ('true', 'false'): return self.evr(e['b']) if (a.e == 'true') == (op == '&&') else a
            r = []
            blk = self.block(lambda: r.append(self.evr(e['b'])))
            b = r[0]
            if blk:
                body = 'begin ' + '\n'.join(blk) + ' ' + b.e + ' end'
                s = '(if %s then %s else false)' % (a.e, body) if op == '&&' else '(if %s then true else %s)' % (a.e, body)
                return self.let('b', PV(s, 'bool'))
            return PV('(%s %s %s)' % (a.e, op, b.e), 'bool')
        av = self.ev(e['a']); bv = self.ev(e['b'])
        if isinstance(av, Iter) or isinstance(bv, Iter): return self.iterop(op, av, bv)
        if isinstance(av, Opaque) and av.what == 'shapeit': return self.ext.shapeit_op(self, op, av, bv)
        a, b = self.rv(av), self.rv(bv)
        return self.binop(op, a, b, e['ty'])
    def iterop(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            x, y = self.rv(a.idx), self.rv(b.idx)
            if op == '-': return PV('(%s - %s)' % (x.e, y.e), 'int')
            return PV('(%s %s %s)' % (x.e, {'==': '=', '!=': '<>'}.get(op, op), y.e), 'bool')
        if isinstance(a, Iter):
            return Iter(a.base, PV('(%s %s %s)' % (self.rv(a.idx).e, op, self.par(self.rv(b).e)), 'int'))
        raise Unsupported('pointer op ' + op)
    def binop(self, op, a, b, tyid):
        if a.ty == 'int' and b.ty == 'bool': b = PV('(if %s then 1 else 0)' % b.e, 'int')
        if b.ty == 'int' and a.ty == 'bool': a = PV('(if %s then 1 else 0)' % a.e, 'int')
        if a.ty == 'real' and b.ty == 'int': b = PV('(r_of_int %s)' % self.par(b.e), 'real')
        if b.ty == 'real' and a.ty == 'int': a = PV('(r_of_int %s)' % self.par(a.e), 'real')
        t = a.ty; x, y = self.par(a.e), self.par(b.e)
        lit = lambda q: re.match(r'^\(?(-?\d+)\)?$', q)
        if t == 'int' and b.ty == 'int' and lit(x) and lit(y):
            i, j = int(lit(x).group(1)), int(lit(y).group(1))
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return PV('true' if {'==': i == j, '!=': i != j, '<': i < j, '<=': i <= j, '>': i > j, '>=': i >= j}[op] else 'false', 'bool', True)
            if op in ('+', '-', '*'):
                r = {'+': i + j, '-': i - j, '*': i * j}[op]
                if r >= 0: return PV(str(r), 'int', True)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if t == 'int': return PV('(%s %s %s)' % (x, {'==': '=', '!=': '<>'}.get(op, op), y), 'bool')
            if t == 'real':
                if op == '!=': return PV('(not (r_eq %s %s))' % (x, y), 'bool')
                return PV('(%s %s %s)' % ({'==': 'r_eq', '<': 'r_lt', '<=': 'r_le', '>': 'r_gt', '>=': 'r_ge'}[op], x, y), 'bool')
            if t == 'bool':
                if op == '==': return PV('(b_eq %s %s)' % (x, y), 'bool')
                if op == '!=': return PV('(not (b_eq %s %s))' % (x, y), 'bool')
            raise Unsupported('comparison on %s' % (t,))
        if t == 'real' and b.ty == 'real':
            if op == '*' and not re.match(r'^\(?-?\d+\.\d+\)?$', x) and not re.match(r'^\(?-?\d+\.\d+\)?$', y): return PV('(r_mul %s %s)' % (x, y), 'real')
            if op in ('+', '-', '*'): return PV('(%s %s. %s)' % (x, op, y), 'real')
            if op == '/': return PV('(r_div %s %s)' % (x, y), 'real')
        if t == 'int' and b.ty == 'int':
            ct = self.cint(tyid) if tyid is not None else (64, 1)
            if op == '-' and ct and not ct[1]: return PV('(sub_unsigned %s %s)' % (x, y), 'int')
            if op in ('+', '-', '*'): return PV('(%s %s %s)' % (x, op, y), 'int')
            if op == '/' and b.e == '1': return a
            if op == '/' and b.e in ('(- 1)', '(-1)'): return PV('(- %s)' % x, 'int')
            if op == '*' and b.e in ('(- 1)', '(-1)'): return PV('(- %s)' % x, 'int')
            if op == '*' and b.e == '1': return a
            if op == '/': return PV('(c_div %s %s)' % (x, y), 'int')
            if op == '%': return PV('(c_mod %s %s)' % (x, y), 'int')
            if op == '<<': return PV('(c_shl %s %s)' % (x, y), 'int')
            if op == '>>': return PV('(c_shr %s %s)' % (x, y), 'int')
            if op == '|': return PV('(c_or %s %s)' % (x, y), 'int')
            if op == '&': return PV('(c_and %s %s)' % (x, y), 'int')
        if t == 'bool' and b.ty == 'bool':
            if op == '&': return PV('(b_and %s %s)' % (x, y), 'bool')
            if op == '|': return PV('(b_or %s %s)' % (x, y), 'bool')
        raise Unsupported('binary %s on %s' % (op, t))
    def conv(self, v, t):
        """implicit numeric conversion performed inside library templates"""
        if t is None or v.ty == t: return v
        if v.ty == 'int' and t == 'real': return PV('(r_of_int %s)' % self.par(v.e), 'real')
        if v.ty == 'bool' and t == 'int': return PV('(if %s then 1 else 0)' % v.e, 'int')
        if v.ty == 'bool' and t == 'real': return PV('(if %s then 1.0 else 0.0)' % v.e, 'real')
        if v.ty == 'int' and t == 'bool': return PV('(%s <> 0)' % v.e, 'bool')
        return v
    def e_CAssign(self, e):
        p = self.ev(e['a']); op = e['op'][:-1]
        if isinstance(p, Iter):
            b = self.evr(e['b'])
            self.write(p.idx, '(%s %s %s)' % (self.rv(p.idx).e, op, self.par(b.e))); return p
        p = self.stabplace(p)
        b = self.evr(e['b'])
        cur = self.rv(p)
        r = self.binop(op, cur, b, e['cty'])
        if cur.ty == 'int' and r.ty == 'real': r = PV('(real_trunc %s)' % r.e, 'int')
        r = self.conv(r, cur.ty)
        self.write(p, r.e)
        return p
    def e_Cond(self, e):
        c = self.evr(e['c']); ra, rb = [], []
        if c.e in ('true', 'false'): return self.ev(e['a'] if c.e == 'true' else e['b'])
        ba = self.block(lambda: ra.append(self.ev(e['a']))); bb = self.block(lambda: rb.append(self.ev(e['b'])))
        a, b = ra[0], rb[0]
        if not isinstance(a, (PV, Place)) or not isinstance(b, (PV, Place)):
            # symbolic objects: only when condition is a known constant
            if c.e == 'true': self.out += ba; return a
            if c.e == 'false': self.out += bb; return b
            raise Unsupported('conditional on objects')
        a, b = self.rv(a), self.rv(b)
        b = self.conv(b, a.ty)
        s = '(if %s then %s else %s)' % (c.e, 'begin %s %s end' % ('\n'.join(ba), a.e) if ba else a.e, 'begin %s %s end' % ('\n'.join(bb), b.e) if bb else b.e)
        if ba or bb: return self.let('t', PV(s, a.ty))
        return PV(s, a.ty)
    def assign(self, ea, eb):
        b = self.ev(eb)
        a = self.ev(ea)
        return self.assign_to(a, b)
    def assign_to(self, a, b):
        if isinstance(a, Iter):
            if not isinstance(b, Iter): raise Unsupported('pointer assignment')
            if isinstance(a.idx, Place):
                self.write(a.idx, self.rv(b.idx).e)
                if a.base.root is not b.base.root or a.base.path != b.base.path:
                    a.base = b.base
                return a
            raise Unsupported('pointer assignment')
        if isinstance(a, View):
            bv = self.rv(b)
            if is_vec(bv.ty): s = '(vblit %s %s %s %s)' % (self.par(self.rv(a.base).e), self.par(a.b.e), self.par(a.e.e), self.par(self.conv(bv, self.rv(a.base).ty[1]).e))
            else: s = '(vfill %s %s %s %s)' % (self.par(self.rv(a.base).e), self.par(a.b.e), self.par(a.e.e), self.par(self.conv(bv, self.rv(a.base).ty[1]).e))
            self.write(a.base, s)
            return a
        if isinstance(a, Obj):
            if not isinstance(b, Obj): raise Unsupported('object assignment')
            for f, x in list(b.fields.items()):
                if f in a.fields and isinstance(a.fields[f], (Place, Iter, Obj)): self.assign_to(a.fields[f], x)
                else: a.fields[f] = x
            return a
        if not isinstance(a, Place): raise Unsupported('assignment to %s' % type(a).__name__)
        a = self.stabplace(a)
        v = self.conv(self.rv(b), a.ty)
        self.write(a, v.e)
        return a
    def e_InitList(self, e):
        t = None
        full = self.T.full(self.ts(e['ty']))
        if full in self.c.recs: return self.initrec(full, [self.ev(x) for x in e['a']])
        try: t = self.wt(e['ty'])
        except Unsupported: t = None
        vs = [self.ev(x) for x in e['a']]
        if len(vs) == 1 and not is_vec(t): return vs[0]
        if not vs: return PV(default_of(t), t) if t else Opaque('init0')
        return Opaque('initlist', [self.rv(v) if isinstance(v, (PV, Place)) else v for v in vs])
    def initrec(self, full, vs):
        r = self.c.recs[full]
        fs = {}
        for f, v in zip(r['fields'], vs): fs[f['name']] = self.copyval(v)
        return Obj(full, fs)
    def e_Lambda(self, e):
        caps = {}
        for c in e['caps']:
            if 'init' in c: caps[c['id']] = self.copyval(self.ev(c['init']))
            elif 'id' in c:
                b = self.env.get(c['id'])
                if b is None: continue
                if c['byref']: caps[c['id']] = b
                else:
                    v = self.copyval(b)
                    if isinstance(v, PV): v = self.stab(v, 'cap')
                    caps[c['id']] = v
        return Lam(e.get('id'), caps, self.thisv)
    def e_Ctor(self, e):
        return self.ext.ctor(self, e)
    def e_MCall(self, e): return self.ext.mcall(self, e)
    def e_OpCall(self, e): return self.ext.opcall(self, e)
    def e_Call(self, e): return self.ext.call(self, e)

    # ================================================================ calls
    def find_contract(self, fid):
        return self.contracts.get(fid)
    def call_hg(self, fn, args, this=None, tyid=None):
        """args: list of Val (unevaluated lvalues kept as Place)"""
        fid = fn['id']
        f = self.c.fns.get(fid)
        if f is None: raise Unsupported('no body for %s' % fn['name'])
        ct = self.find_contract(fid)
        if ct is not None and not (ct.get('inline')):
            return self.call_contract(f, ct, args, this)
        if fn['name'].startswith('hg::logger::'): return UNIT                # diagnostics only
        h = self.ext.override(self, f, args, this)
        if h is not None: return h
        return self.inline(f, args, this)
    def call_contract(self, f, ct, args, this):
        w = ct['why']; self.used[w] = ct
        ss = []; post = []
        ps = []
        if f.get('method') and not f.get('static') and not f.get('ctor'):
            ps.append((this, "this", not f["const"] or bool(ct.get("mutable_this")), None))
        elif f.get('ctor'): pass
        for p, a in zip(f['params'], args):
            t = self.ts(p['ty'])
            ps.append((a, p['name'], t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and not p.get('cref'), t))
        for a, nm, mutref, t in ps:
            if isinstance(a, Obj) and a.rec and a.rec in self.c.recs and not self.c.recs[a.rec]['fields']: continue
            if t is not None and isinstance(a, (Opaque,)) and a.what in ('tag', 'cmp'): continue
            if isinstance(a, Lam): continue
            if isinstance(a, Obj) and t is not None and self.whole_range(self.T.full(t)) is not None:
                b, x, y = a.fields['first'], a.fields['first'].idx, a.fields['last'].idx
                if a.fields['last'].base.root is not b.base.root or a.fields['last'].base.path != b.base.path: raise Unsupported('range over two containers')
                v = self.rv(b.base)
                self.emit('assert { [@expl:range over a whole container] %s = 0 /\\ %s = %s.len };' % (self.rv(x).e, self.rv(y).e, self.par(v.e)))
                ss.append(self.par(v.e)); continue
            if mutref and isinstance(a, Place):
                if not a.path and a.root.mut: ss.append(a.root.name); self.logw(a)
                else:
                    a = self.stabplace(a)
                    n = self.fresh('tmp'); self.emit('let ref %s = %s in' % (n, self.rv(a).e)); ss.append(n); post.append((a, n))
            elif mutref and isinstance(a, Obj) and a.rec in self.c.recs and not self.T.isobj(a.rec):     # *this inside a constructor
                pv = self.rv(a)
                n = self.fresh('tmp'); self.emit('let ref %s = %s in' % (n, pv.e)); ss.append(n)
                for fl, ft in self.c.recdefs[pv.ty[1]]: post.append((a.fields[fl], '%s.%s' % (n, self.T.fld(pv.ty[1], fl))))
            else:
                v = self.rv(a)
                if t is not None:
                    try: v = self.conv(v, self.T.why(t))
                    except Unsupported: pass
                ss.append(self.par(v.e))
        if not ss: ss = ['()']
        rt = self.ret_type(f)
        call = '%s %s' % (w, ' '.join(ss))
        if ct.get('raises') is not None:
            if self.spec.get('raises') is None:
                call = '(try %s with Hg_error -> absurd end)' % call
            else: self.raises = True
        k = self.calln[w] = self.calln.get(w, 0) + 1
        self.anchor('before:%s:%d' % (w, k)); self.anchor('before:%s' % w)
        if rt == 'unit':
            self.emit(call + ';'); res = UNIT
        else:
            n = self.fresh('r_' + w); self.immut.add(n)
            self.emit('let %s = %s in' % (n, call)); res = PV(n, rt, True)
        for a, n in post: self.write(a, n)
        self.anchor('call:%s:%d' % (w, k)); self.anchor('call:%s' % w)
        return res
    def ret_type(self, f):
        if f.get('ctor'): return self.T.why(self.ts(f['rec']))
        t = self.T.why(self.ts(f['ret']))
        return t
    def bind_params(self, f, args, hints=True):
        for p, a in zip(f['params'], args):
            t = self.ts(p['ty'])
            isref = t.endswith('&')
            if isref:
                if isinstance(a, Place): a = self.stabplace(a)
                elif isinstance(a, PV): a = self.stab(a, p['name'] or 'arg')
                if isinstance(a, PV) and t.endswith('&&'):
                    self.declare(p['id'], p['name'] or 'arg', a, None, True); continue
                self.env[p['id']] = a
            else:
                v = self.copyval(a)
                if isinstance(v, PV):
                    try: wt_ = self.T.why(t)
                    except Unsupported: wt_ = None
                    v = self.conv(v, wt_)
                if isinstance(v, (PV,)):
                    if p['id'] in self.assigned_in(f): self.declare(p['id'], p['name'] or 'arg', v, None, True)
                    else: self.env[p['id']] = self.stab(v, p['name'] or 'arg')
                elif isinstance(v, Iter) and p['id'] in self.assigned_in(f): self.env[p['id']] = self.binditer(p['name'] or 'arg', v, True)
                elif isinstance(v, Obj) and not v.bound: self.env[p['id']] = self.bindobj(p['name'] or 'arg', v, True)
                else: self.env[p['id']] = v
    def assigned_in(self, f):
        if '_asg' in f: return f['_asg']
        s = set()
        def root(x):
            while isinstance(x, dict):
                if x.get('k') == 'Ref': s.add(x['id']); return
                if x.get('k') == 'Member' : x = x['base']
                elif x.get('k') == 'Sub': x = x['base']
                elif x.get('k') == 'OpCall' and x.get('op') in ('[]', '()'): x = x['args'][0]
                elif x.get('k') == 'MCall': x = x['obj']
                elif x.get('k') == 'Un' and x.get('op') == '*': x = x['e']
                elif x.get('k') == 'Cast': x = x['e']
                elif x.get('k') == 'Cond': root(x['a']); x = x['b']
                elif x.get('k') == 'Call' and x.get('args'): 
                    for y in x['args'][1:]: root(y)
                    x = x['args'][0]
                else: return
        def walk(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k == 'Bin' and x['op'] == '=' or k == 'CAssign': root(x['a'])
                elif k == 'Un' and ('++' in x['op'] or '--' in x['op'] or x['op'] == '&'): root(x['e'])
                elif k == 'OpCall' and x['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '|=', '&='): root(x['args'][0])
                elif k == 'MCall':
                    if not x['fn'].get('const'): root(x['obj'])
                    for a, pt in zip(x['args'], x['fn']['ptypes']):
                        if self.ts(pt).endswith('&') and not self.ts(pt).startswith('const '): root(a)
                elif k == 'Call' and 'fn' in x:
                    for a, pt in zip(x['args'], x['fn']['ptypes']):
                        if self.ts(pt).endswith('&') and not self.ts(pt).startswith('const '): root(a)
                elif k == 'Decl':
                    for v in x['v']:
                        t = self.ts(v['ty'])
                        if t.endswith('&') and 'init' in v and not t.startswith('const '): root(v['init'])
                elif k == 'Lambda':
                    pass
                for y in x.values(): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(f['body']); walk(f.get('inits'))
        # lambdas defined inside write captured variables through their own bodies
        for fid2 in self.lambda_ids(f['body']):
            g = self.c.fns.get(fid2)
            if g is not None: s |= self.assigned_in(g)
        f['_asg'] = s
        return s
    def lambda_ids(self, x):
        r = []
        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'Lambda' and x.get('id'): r.append(x['id'])
                if x.get('k') in ('OpCall', 'Call', 'MCall') and x.get('fn', {}).get('lambda') and x['fn'].get('id'): r.append(x['fn']['id'])
                for y in x.values(): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(x)
        return r
    def inline(self, f, args, this=None):
        if f['id'] in self.inl: raise Unsupported('recursive inlining of %s' % f['name'])
        if len(self.inl) > 40: raise Unsupported('inlining too deep')
        self.inl.append(f['id']); self.inlined.add(f['name'])
        sv_this = self.thisv; sv_env = dict(self.env)
        try:
            if f.get('ctor'): return self.inline_ctor(f, args)
            if this is not None: self.thisv = this
            self.bind_params(f, args)
            return self.body_value(f)
        finally:
            self.inl.pop(); self.thisv = sv_this
            env = self.env; self.env = sv_env
    def inline_ctor(self, f, args):
        full = self.T.full(self.ts(f['rec']))
        self.bind_params(f, args)
        fs = self.default_fields(full, f)
        o = Obj(full, fs)
        o = self.bindobj_ctor(full, o, f)
        self.thisv = o
        self.stmts(self.flat(f['body']))
        return Obj(full, dict(o.fields))
    def default_fields(self, full, f):
        r = self.c.recs.get(full)
        if r is None: raise Unsupported('record %s' % full)
        fs = {}
        # members are initialised in declaration order: hvx gives inits in initialisation order
        sv_this = self.thisv
        cur = Obj(full, fs)
        self.thisv = cur
        for i in f.get('inits', []):
            if 'field' in i:
                v = self.ev(i['e'])
                ft = next((x for x in r['fields'] if x['name'] == i['field']), None)
                t = self.ts(ft['ty']) if ft else ''
                if t.endswith('&'):
                    fs[i['field']] = self.stabplace(v) if isinstance(v, Place) else v
                else:
                    if t.rstrip().endswith('*') and isinstance(v, Iter) and self.rv(v.idx).e == '0' and not self.T.isobj(full): v = self.rv(v.base)
                    v = self.copyval(v)
                    if isinstance(v, PV) and not t.rstrip().endswith('*'):
                        try: v = self.conv(v, self.T.why(t))
                        except Unsupported: pass
                    fs[i['field']] = v
            elif 'base' in i:
                v = None
                try: v = self.ev(i['e'])
                except Unsupported:
                    b = self.c.recs.get(self.T.full(self.ts(i['base'])))
                    if b is not None and b['fields']: raise
                if isinstance(v, Obj): fs.update(v.fields)
            elif i.get('deleg'):
                v = self.ev(i['e'])
                if isinstance(v, Obj): fs.update(v.fields)
        self.thisv = sv_this
        for x in r['fields']:
            if x['name'] not in fs:
                try: t = self.T.why(self.ts(x['ty']))
                except Unsupported: t = None
                if t is None: continue
                if self.ts(x['ty']).rstrip().endswith('*') and not self.T.isobj(full): t = ('vec', t)
                fs[x['name']] = PV(default_ct(t, self.ts(x['ty'])), t)
        return fs
    def all_assigned(self):
        if not hasattr(self.c, 'allasg'):
            self.c.allasg = set()
            for f in self.c.fns.values():
                if not f.get('lambda'): self.c.allasg |= self.assigned_members(f)
        return self.c.allasg
    def assigned_members(self, f):
        if '_asgm' in f: return f['_asgm']
        s = set()
        def names(x):
            if isinstance(x, dict):
                if x.get('k') == 'Member' and 'name' in x: s.add(x['name'])
                for y in x.values(): names(y)
            elif isinstance(x, list):
                for y in x: names(y)
        def walk(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k == 'Bin' and x['op'] == '=' or k == 'CAssign': names(x['a'])
                elif k == 'Un' and ('++' in x['op'] or '--' in x['op'] or x['op'] == '&'): names(x['e'])
                elif k in ('OpCall', 'MCall', 'Call'):
                    if k == 'MCall' and not x['fn'].get('const'): names(x['obj'])
                    if k == 'OpCall' and x['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '()', '[]'): names(x['args'][0])
                    if 'fn' in x and len(x['fn']['ptypes']) <= len(x['args']):
                        for a, pt in zip(x['args'], x['fn']['ptypes']):
                            if self.ts(pt).endswith('&') and not self.ts(pt).startswith('const '): names(a)
                    else: names(x)
                for y in x.values(): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(f['body']); f['_asgm'] = s
        return s
    def bindobj_ctor(self, full, o, f=None):
        fs = {}
        r = self.c.recs[full]
        asg = self.assigned_members(f) if f else None
        for f, x in o.fields.items():
            if isinstance(x, PV):
                if asg is not None and f not in asg and self.isstable(x.e) and self.T.isobj(full): fs[f] = x; continue
                n = self.fresh('this_' + f.lstrip('_'))
                self.emit('let ref %s = %s in' % (n, x.e)); fs[f] = Place(Var(n, x.ty, True))
            elif isinstance(x, (Obj,)) and not x.bound and x.rec in self.c.recs and not self.T.isobj(x.rec):
                n = self.fresh('this_' + f.lstrip('_')); pv = self.rv(x)
                self.emit('let ref %s = %s in' % (n, pv.e)); fs[f] = Place(Var(n, pv.ty, True))
            else: fs[f] = x
        return Obj(full, fs, True)

    # vectors of scalar-replaced objects
    def objvec(self, full, name):
        r = self.c.recs.get(full)
        if r is None or not r['fields']: raise Unsupported('vector of %s' % full)
        comps = {}
        for f in r['fields']:
            ft = self.T.full(self.ts(f['ty'])); t = self.ts(f['ty']); nm = name + '_' + f['name'].lstrip('_')
            if ft in self.c.recs and self.T.isobj(ft): comps[f['name']] = self.objvec(ft, nm); continue
            it = t.rstrip().endswith('*') or parse_type(t)[0] == '__gnu_cxx::__normal_iterator' or self.iterlike(t)
            vt = ('vec', 'int' if it else self.T.why(t))
            if vt[1] is None: raise Unsupported('vector of objects with field %s' % t)
            n = self.fresh(nm); self.emit('let ref %s = (vec_empty () : %s) in' % (n, wty(vt))); self.varlog.append((n, wty(vt)))
            p = Place(Var(n, vt, True))
            comps[f['name']] = ['iter', p, None] if it else p
        return ObjVec(full, comps)
    def iterlike(self, t): return 'iterator' in strip_targs(t)
    def objvec_push(self, v, o):
        if not isinstance(o, Obj): raise Unsupported('push of %s' % type(o).__name__)
        for f, c in v.comps.items():
            x = o.fields.get(f)
            if isinstance(c, ObjVec): self.objvec_push(c, x); continue
            p = c
            if isinstance(c, list):
                if not isinstance(x, Iter): raise Unsupported('push of an object: field %s' % f)
                if c[2] is not None and (c[2].root is not x.base.root or c[2].path != x.base.path): raise Unsupported('iterators into different containers')
                c[2] = x.base; p = c[1]; x = x.idx
            self.write(p, '(vpush %s %s)' % (self.rv(p).e, self.par(self.rv(x).e))); self.logw(p)
    def objvec_at(self, v, i, top=True):
        fs = {}
        if top: self.emit('assert { [@expl:subscript in bounds] 0 <= %s < %s.len };' % (i.e, self.rv(v.first()).e))
        for f, c in v.comps.items():
            if isinstance(c, ObjVec): fs[f] = self.objvec_at(c, i, False)
            elif isinstance(c, list): fs[f] = Iter(c[2], self.index(c[1], i))
            else: fs[f] = self.index(c, i)
        return Obj(v.rec, fs, True)
    # function body as a value
    def flat(self, s):
        if s is None: return []
        if s['k'] == 'Block': return s['s']
        return [s]
    def has_return(self, s):
        if isinstance(s, dict):
            if s.get('k') == 'Return': return True
            if s.get('k') == 'Lambda': return False
            return any(self.has_return(v) for k, v in s.items())
        if isinstance(s, list): return any(self.has_return(x) for x in s)
        return False
    def always_returns(self, ss):
        for s in ss:
            if s['k'] == 'Return': return True
            if s['k'] == 'Block' and self.always_returns(s['s']): return True
            if s['k'] == 'If' and 'e' in s and self.always_returns(self.flat(s['t'])) and self.always_returns(self.flat(s['e'])): return True
            if s['k'] == 'Expr' and s['e'].get('k') == 'Throw': return True
        return False
    def body_value(self, f):
        body = self.fold(self.flat(f['body']))
        rt = self.T.full(self.ts(f['ret']))
        isvoid = rt == 'void'
        if not any(self.has_return(s) for s in body):
            self.stmts(body); return UNIT
        # single tail return
        if body[-1]['k'] == 'Return' and not any(self.has_return(s) for s in body[:-1]):
            self.stmts(body[:-1])
            if 'e' not in body[-1]: return UNIT
            v = self.ev(body[-1]['e'])
            if not self.ts(f['ret']).endswith('&'):
                if isinstance(v, Place): v = self.rv(v)
                if isinstance(v, PV): v = self.conv(v, self.T.why(self.ts(f['ret'])))
            if isinstance(v, PV) and not self.isstable(v.e) and not f.get('lambda') and len(v.e) > 60: v = self.let('r', v)
            elif isinstance(v, PV) and not self.isstable(v.e) and self.mentions_mutable(v.e): v = self.let('r', v)
            return v
        if isvoid:
            n = self.fresh_exc('unit')
            self.retmode.append(('exc', n, 'unit'))
            blk = self.block(lambda: self.stmts(body))
            self.retmode.pop()
            self.emit('(try begin'); self.out += blk; self.emit('() end with %s _ -> () end);' % n)
            return UNIT
        if body[-1]['k'] == 'If' and not any(self.has_return(s) for s in body[:-1]) and 'init' not in body[-1]:
            n0 = len(self.out); st = body[-1]
            self.stmts(body[:-1]); c = self.evr(st['c'])
            if c.e in ('true', 'false'): return self.body_value(dict(f, body={'k': 'Block', 's': self.flat(st['t'] if c.e == 'true' else st.get('e'))}))
            body = [{'k': 'If', 'c': {'k': 'Known', 'v': c}, **{k: v for k, v in st.items() if k not in ('k', 'c')}}]
        t = self.T.why(self.ts(f['ret']))
        if t is None: raise Unsupported('early return of a symbolic object in %s' % f['name'])
        e = self.ret_block(body, t)
        return self.let('r', PV(e, t))
    def mentions_mutable(self, e):
        return True
    def fresh_exc(self, t):
        n = 'Ret%d' % (len(self.excs) + 1); self.excs.append((n, t)); return n
    def ret_block(self, body, t):
        """structured early returns -> expression string"""
        try:
            r = self.ret_struct(body, t)
        except NotStructured:
            raise
        if r is not None: return r
        n = self.fresh_exc(wtyp(t))
        self.retmode.append(('exc', n, t))
        blk = self.block(lambda: self.stmts(body))
        self.retmode.pop()
        return '(try begin %s absurd end with %s r_ -> r_ end)' % ('\n'.join(blk), n)
    def structurable(self, ss):
        for i, s in enumerate(ss):
            if not self.has_return(s): continue
            if s['k'] == 'Return': return True
            if s['k'] == 'Block': return i == len(ss) - 1 and self.structurable(s['s']) or (self.always_returns(s['s']) and self.structurable(s['s']))
            if s['k'] == 'If' and 'init' not in s:
                th = self.flat(s['t']); el = self.flat(s.get('e')); rest = ss[i + 1:]
                if self.always_returns(th): return self.structurable(th) and self.structurable(el + rest)
                if self.always_returns(el): return self.structurable(el) and self.structurable(th + rest)
                return False
            return False
        return False
    def ret_struct(self, ss, t):
        if not self.structurable(ss): return None
        self.rsdepth += 1
        try: out = self.block(lambda: self._rs(ss, t))
        finally: self.rsdepth -= 1
        return '(begin ' + '\n'.join(out) + ' end)'
    def _rs(self, ss, t):
        for i, s in enumerate(ss):
            if not self.has_return(s): self.stmt(s); continue
            if s['k'] == 'Return':
                v = self.ev(s['e']) if 'e' in s else UNIT
                e = '()' if v is UNIT else self.conv(self.rv(v), t).e
                if not self.rsdepth:
                    if 'return' in self.spec.get('at', {}) and v is not UNIT: self.emit('let res_ = %s in' % e); e = 'res_'
                    self.anchor('return')
                self.emit(e); return
            if s['k'] == 'Block': self._rs(s['s'], t); return
            c = self.evr(s['c'])
            th = self.flat(s['t']); el = self.flat(s.get('e')); rest = ss[i + 1:]
            if not self.always_returns(th): th = th + rest
            else: el = el + rest
            if c.e in ('true', 'false'): self._rs(th if c.e == 'true' else el, t); return
            sv = dict(self.env)
            a = self.block(lambda: self._rs(th, t)); self.env = dict(sv)
            b = self.block(lambda: self._rs(el, t)); self.env = sv
            self.emit('if %s then begin %s end else begin %s end' % (c.e, '\n'.join(a), '\n'.join(b)))
            return
        self.emit('absurd')
    def call_lambda(self, lam, fid, args):
        fid = fid or lam.fid
        f = self.c.fns.get(fid)
        if f is None: raise Unsupported('lambda body')
        if fid in self.inl: raise Unsupported('recursive lambda')
        self.inl.append(fid)
        sv_env = dict(self.env); sv_this = self.thisv
        try:
            self.env.update(lam.caps); self.thisv = lam.this
            self.bind_params(f, args)
            return self.body_value(f)
        finally:
            self.inl.pop(); self.env = sv_env; self.thisv = sv_this

    # ================================================================ statements
    def stmts(self, ss):
        for s in ss: self.stmt(s)
    def scoped(self, ss):
        sv = dict(self.env); self.stmts(ss)
        self.env = {k: v for k, v in self.env.items() if k in sv}; self.env.update({k: sv[k] for k in sv if k not in self.env})
    def stmt(self, s):
        m = getattr(self, 's_' + s['k'], None)
        if m is None: raise Unsupported('statement %s (%s) line %s' % (s['k'], s.get('cls'), s.get('l')))
        try: m(s)
        except Unsupported as ex:
            if not getattr(ex, 'loc', None): ex.loc = s.get('l'); ex.args = (str(ex) + ' [line %s]' % s.get('l'),)
            raise
    def begin_block(self, ss):
        """nested scope emitted as begin ... end"""
        out = self.block(lambda: self.scoped(ss))
        return out
    def s_Block(self, s):
        out = self.begin_block(s['s'])
        if not out: return
        if any(x.rstrip().endswith(' in') for x in out):
            self.emit('begin'); self.out += out; self.emit('() end;')
        else: self.out += out
    def s_Nop(self, s): pass
    def s_Expr(self, s):
        e = s['e']
        if e.get('k') == 'Un': e = dict(e); e['discard'] = True
        v = self.ev(e)
        if isinstance(v, PV) and not self.isstable(v.e) and 'vget' in v.e: self.emit('let _ = %s in' % v.e)
    def s_Decl(self, s):
        for v in s['v']: self.decl(v)
    def decl(self, v):
        t = self.ts(v['ty'])
        if v.get('static'): raise Unsupported('static local')
        if 'bindings' in v: return self.decomp(v)
        isref = t.endswith('&')
        if 'init' not in v:
            wt_ = self.T.why(t)
            if wt_ is None: raise Unsupported('uninitialised %s' % t)
            self.declare(v['id'], v['name'], PV(default_ct(wt_, t), wt_), wt_, True); return
        x = self.ev(v['init'])
        name = v['name'] or 'v'
        if isref:
            if isinstance(x, Place): self.env[v['id']] = self.stabplace(x)
            elif isinstance(x, PV): self.declare(v['id'], name, x, None, not t.startswith('const '))
            elif isinstance(x, Obj) and not x.bound: self.env[v['id']] = self.bindobj(name, x, True)
            else: self.env[v['id']] = x
            return
        x = self.copyval(x)
        if isinstance(x, ObjVec):
            self.env[v['id']] = self.objvec(x.rec, name); return
        if isinstance(x, Opaque) and x.what == 'initlist': x = self.ext.initlist_value(self, x, self.T.why(t))
        if isinstance(x, Obj) and x.rec in self.c.recs and not self.T.isobj(x.rec): x = self.rv(x)
        if isinstance(x, PV):
            try: wt_ = self.T.why(t)
            except Unsupported: wt_ = None
            x = self.conv(x, wt_)
            cst = v.get('cst', False)
            self.declare(v['id'], name, x, None, not cst)
        else: self.declare(v['id'], name, x, None, True)
        self.anchor('decl:' + sane(name))
    def decomp(self, v):
        x = self.ev(v['init']); t = self.ts(v['ty'])
        if not t.endswith('&'): x = self.copyval(x)
        if isinstance(x, PV): x = self.declare(None, v['name'] or 'dc', x, None, True)
        elif isinstance(x, Obj) and not x.bound: x = self.bindobj('dc', x, True)
        self.env[v['id']] = x
        for i, b in enumerate(v['bindings']):
            if 'e' in b: self.env[b['id']] = self.ev(b['e'])
            else:
                p = self.member(x, ['first', 'second'][i])
                self.env[b['id']] = p
                if 'hold' in b: self.env[b['hold']] = p
    def s_If(self, s):
        if 'init' in s or 'cvar' in s: raise Unsupported('if with declaration')
        # hg_assert: if (!(test)) throw
        c = self.evr(s['c'])
        if c.e in ('true', 'false'):
            blk = self.begin_block(self.flat(s['t'] if c.e == 'true' else s.get('e')))
            if blk: self.emit('begin'); self.out += blk; self.emit('() end;')
            return
        th = self.begin_block(self.flat(s['t']))
        el = self.begin_block(self.flat(s.get('e'))) if 'e' in s else []
        self.emit('if %s then begin' % c.e); self.out += th; self.emit('()')
        if el: self.emit('end else begin'); self.out += el; self.emit('()')
        self.emit('end;')
    def s_Return(self, s):
        v = self.ev(s['e']) if 'e' in s else UNIT
        mode = self.retmode[-1]
        bound = v is not UNIT and mode[0] == 'fn' and 'return' in self.spec.get('at', {})
        if not bound and mode[0] == 'fn': self.anchor('return')
        if v is UNIT: e = '()'
        else:
            v = self.rv(v); t = mode[2]
            e = self.conv(v, t if not isinstance(t, str) or t in ('int', 'real', 'bool') else None).e
            if bound: self.emit('let res_ = %s in' % e); e = 'res_'; self.anchor('return')
        if mode[0] == 'fn': self.emit('return (%s);' % e)
        else: self.emit('raise (%s (%s));' % (mode[1], e))
    def s_Break(self, s):
        if not self.brk: raise Unsupported('break')
        self.emit('break;')
    def s_Continue(self, s):
        if not self.brk: raise Unsupported('continue')
        if self.brk[-1] is not None: self.emit("raise Cont;"); self.brk[-1]['used'] = True
        else: self.emit('continue;')
    def s_Do(self, s):
        c = s['c']
        if c.get('k') in ('Bool', 'Cast', 'Int') :
            cv = self.ev(c)
            if isinstance(cv, PV) and cv.e in ('false', '0', '(0 <> 0)'):
                out = self.begin_block(self.flat(s['b']))
                if out: self.emit('begin'); self.out += out; self.emit('() end;')
                return
        # do b while(c): go = true; while go do b; go <- c done
        n = self.fresh('go'); self.emit('let ref %s = true in' % n)
        def cond(): return PV(n, 'bool')
        def post():
            v = self.evr(c); self.emit('%s <- %s;' % (n, v.e))
        self.loop(cond, self.flat(s['b']), post, None, s)
    def s_While(self, s):
        self.loop(lambda: self.evr(s['c']), self.flat(s['b']), None, None, s)
    def s_For(self, s):
        sv = dict(self.env)
        self.emit('begin')
        mark = len(self.out)
        if 'init' in s: self.stmt(s['init'])
        inc = None
        if 'inc' in s:
            def inc():
                e = s['inc']
                if e.get('k') == 'Un': e = dict(e); e['discard'] = True
                self.ev(e)
        var = None
        c = s.get('c')
        self.loop((lambda: self.evr(c)) if c else (lambda: PV('true', 'bool')), self.flat(s['b']), inc, self.autovariant(c, s.get('inc')), s)
        self.emit('() end;')
        self.env = sv
    def autovariant(self, c, inc):
        if not c or not inc: return None
        def lhs(x):
            while x.get('k') == 'Cast': x = x['e']
            return x
        conj = [c]
        while any(x.get('k') == 'Bin' and x['op'] == '&&' for x in conj):
            conj = [y for x in conj for y in ([x['a'], x['b']] if x.get('k') == 'Bin' and x['op'] == '&&' else [x])]
        up = inc.get('k') == 'Un' and '++' in inc['op'] or inc.get('k') == 'CAssign' and inc['op'] == '+='
        down = inc.get('k') == 'Un' and '--' in inc['op'] or inc.get('k') == 'CAssign' and inc['op'] == '-='
        tgt = lhs(inc['e'] if inc['k'] == 'Un' else inc['a']) if (up or down) else None
        if tgt is None or tgt.get('k') != 'Ref': return None
        for x in conj:
            if x.get('k') == 'Bin' and x['op'] in ('<', '<=', '!=', '>', '>='):
                a = lhs(x['a'])
                if a.get('k') == 'Ref' and a['id'] == tgt['id']:
                    def f(x=x):
                        r = []
                        blk = self.block(lambda: r.append((self.evr(x['a']), self.evr(x['b']))))
                        if blk: return None
                        p, q = r[0]
                        e = '(%s) - (%s)' % ((q.e, p.e) if up else (p.e, q.e))
                        return self.logic(e)
                    return f
        return None
    def logic(self, e):
        """program expression -> formula/term usable in a specification (only simple integer terms)"""
        e = re.sub(r'\bvget\b', 'vat', e)
        for k in ('to_unsigned', 'narrow32', 'narrow8', 'narrow16', 'narrowu32', 'narrowu8', 'narrowu16'): e = re.sub(r'\b%s\b' % k, '', e)
        e = re.sub(r'\bsub_unsigned (\S+) (\S+?)(?=[)\s]|$)', r'(\1 - \2)', e)
        return e
    def has_continue(self, x, top=True):
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'Continue': return True
            if not top and k in ('While', 'For', 'Do', 'RangeFor', 'Lambda'):
                if k == 'Do' and x['c'].get('k') in ('Bool', 'Cast', 'Int'): pass
                else: return False
            return any(self.has_continue(v, False) for v in x.values())
        if isinstance(x, list): return any(self.has_continue(v, False) for v in x)
        return False
    def loop(self, cond, body, post, autovar, s):
        self.loopno += 1; L = self.loopno
        key = 'loop%d' % L
        sp = self.spec.get('loops', {}).get(L, {})
        self.anchor(key + '.pre')
        # 1st: condition
        rc = []
        cb = self.block(lambda: rc.append(cond()))
        c = rc[0]
        self.writes.append([]); self.declared.append(set())
        cont = post is not None and self.has_continue(body)
        self.brk.append({} if cont else None)
        sv = dict(self.env)
        def bodyf():
            self.anchor(key + '.begin')
            self.scoped(body)
        blk = self.block(bodyf)
        self.brk.pop()
        if cont:
            blk = ['(try begin'] + blk + ['() end with Cont -> () end);']
            if ('Cont', None) not in self.excs: self.excs.append(('Cont', None))
        if post is not None: blk += self.block(post)
        blk += self.block(lambda: self.anchor(key + '.end'))
        writes = self.writes.pop(); decl = self.declared.pop()
        if self.declared: self.declared[-1] |= decl
        self.env = sv
        # automatic frame invariants
        inv = []
        pre = []
        roots = {}
        for r, fp, k in writes:
            if r.name in decl: continue
            roots.setdefault(r.name, (r, []))[1].append((fp, k))
        for n, (r, ws) in roots.items():
            snap = '%s_at%d' % (n, L)
            need = False
            if any(fp == () and k == 'assign' for fp, k in ws):
                need = True
            elif is_vec(r.ty):
                inv.append('%s.len = %s.len' % (n, snap)); need = True
            elif is_rec(r.ty):
                fields = [(self.T.fld(r.ty[1], f), ft) for f, ft in self.c.recdefs[r.ty[1]]]
                for f, ft in fields:
                    m = [(fp, k) for fp, k in ws if fp and fp[0] == f]
                    if not m: inv.append('%s.%s = %s.%s' % (n, f, snap, f)); need = True
                    elif is_vec(ft) and all(k == 'set' and fp == (f,) for fp, k in m): inv.append('%s.%s.len = %s.%s.len' % (n, f, snap, f)); need = True
            if need or True:
                if not snap in self.immut:
                    pre.append('let ghost %s = %s in' % (snap, n)); self.immut.add(snap)
        self.out += pre
        self.anchor(key + '.ghost')
        lines = []
        if cb: lines.append('while (begin %s %s end) do' % ('\n'.join(cb), c.e))
        else: lines.append('while %s do' % c.e)
        for i in inv: lines.append('invariant { [@expl:loop %d frame (auto)] %s }' % (L, i))
        for i in sp.get('inv', []):
            nm, fm = i if isinstance(i, tuple) else ('', i)
            lines.append('invariant { [@expl:loop %d invariant %s] %s }' % (L, nm, fm))
        var = sp.get('var')
        if var is None and autovar is not None: var = autovar()
        if var: lines.append('variant { %s }' % var)
        elif not sp.get('noterm'): raise Unsupported('no variant for loop %d' % L)
        self.loops.append(dict(no=L, line=s.get('l'), kind=s['k'], var=var))
        self.out += lines + blk + ['() done;']
        self.anchor(key + '.post')
    def s_RangeFor(self, s):
        sv = dict(self.env)
        self.emit('begin')
        vn = s['var']['name'] or 'x'
        # rename helper variables after the loop variable
        rg = s['range']['v'][0]; bg = s['begin']['v'][0]; en = s['end']['v'][0]
        rg = dict(rg, name=vn + '_range'); bg = dict(bg, name=vn + '_it'); en = dict(en, name=vn + '_end', cst=True)
        self.decl(rg)
        rv_ = self.env[rg['id']]
        self.decl(bg); self.decl(en)
        bit = self.env[bg['id']]; eit = self.env[en['id']]
        auto = None
        def pos(x):
            if isinstance(x, Iter): return self.rv(x.idx).e
            if isinstance(x, Obj):
                if 'm_position' in x.fields: return self.rv(x.fields['m_position']).e
                if 'm_base' in x.fields: return pos(x.fields['m_base'])
            return None
        pb, pe = pos(bit), pos(eit)
        if pb and pe:
            step = '1'
            if isinstance(bit, Obj) and 'm_step' in bit.fields: step = self.rv(bit.fields['m_step']).e
            auto = lambda: '(if %s >= %s then %s - %s else %s - %s)' % (pe, pb, pe, pb, pb, pe)
        def cond():
            return self.evr(s['c'])
        body = [{'k': 'Decl', 'v': [s['var']], 'l': s.get('l')}] + self.flat(s['b'])
        self.loop(cond, body, lambda: self.ev(s['inc']), auto, s)
        self.emit('() end;')
        self.env = sv
    def s_Switch(self, s):
        c = self.stab(self.evr(s['c']), 'sw')
        # supported: sequence of case groups each ending with break/return/throw
        items = []; cur = None
        def add(st):
            nonlocal cur
            if st['k'] in ('Case', 'Default'):
                lab = st
                labels = []
                while st['k'] in ('Case', 'Default'):
                    labels.append(self.rv(self.ev(st['c'])).e if st['k'] == 'Case' else None)
                    st = st['b']
                if cur is not None and cur[1] and not self.ends(cur[1]):
                    raise Unsupported('switch fallthrough')
                cur = (labels, []); items.append(cur)
            cur[1].append(st)
        for st in self.flat(s['b']): add(st)
        default = None; n = 0
        for labels, body in items:
            if body and body[-1]['k'] == 'Break': body = body[:-1]
            elif len(body) == 1 and body[0]['k'] == 'Block' and body[0]['s'] and body[0]['s'][-1]['k'] == 'Break': body = [dict(body[0], s=body[0]['s'][:-1])]
            if None in labels: default = body; continue
            self.emit('%sif %s then begin' % ('' if n == 0 else 'else ', ' || '.join('(%s = %s)' % (c.e, l) for l in labels)))
            self.out += self.begin_block(body); self.emit('() end'); n += 1
        if default is not None:
            if n: self.emit('else begin')
            else: self.emit('begin')
            self.out += self.begin_block(default); self.emit('() end')
        self.emit(';')
    def fold(self, ss):
        """switch on a parameter fixed by the precondition: only the case taken is translated"""
        r = []
        for i, s in enumerate(ss):
            if s['k'] != 'Switch': r.append(s); continue
            c = s['c']
            while c.get('k') in ('Cast', 'Paren', 'ICast') or ('e' in c and isinstance(c['e'], dict) and 'id' not in c): c = c['e']
            b = self.env.get(c.get('id'))
            if not isinstance(b, PV) or not re.match(r'^-?\d+$', b.e): r.append(s); continue
            items = []
            for st in self.flat(s['b']):
                labels = []
                while st['k'] in ('Case', 'Default'):
                    labels.append(self.rv(self.ev(st['c'])).e if st['k'] == 'Case' else None)
                    st = st['b']
                items.append((labels, st))
            hit = [j for j, (l, _) in enumerate(items) if b.e in l] or [j for j, (l, _) in enumerate(items) if None in l]
            taken = []
            if hit:
                for l, st in items[hit[0]:]:
                    if st['k'] == 'Break': break
                    taken.append(st)
                    if self.ends([st]) or self.always_returns([st]): break
            if taken and taken[-1]['k'] == 'Block' and taken[-1]['s'] and taken[-1]['s'][-1]['k'] == 'Break': taken[-1] = dict(taken[-1], s=taken[-1]['s'][:-1])
            if any(self.has_return(x) for x in taken[:-1]): r.append(s); continue
            r += taken
            if taken and self.always_returns(taken): return r
        return r
    def ends(self, body):
        l = body[-1]
        if l['k'] in ('Break', 'Return'): return True
        if l['k'] == 'Block': return bool(l['s']) and self.ends(l['s'])
        if l['k'] == 'Expr' and l['e'].get('k') == 'Throw': return True
        return False

    # ================================================================ whole function
    def param_decls(self, f):
        """-> list of (why name, type, mutable ref?, Val) ; binds env"""
        ps = []
        asg = self.assigned_in(f)
        if f.get('method') and not f.get('static') and not f.get('ctor') and not f.get('lambda'):
            t = self.T.why(self.ts(f['rec']))
            if t is None: raise Unsupported('method of object type')
            mut = not f['const']
            n = self.fresh('this')
            ps.append((n, t, mut, False)); self.thisv = Place(Var(n, t, mut))
            if not mut:
                self.immut.add(n)
                if self.spec.get('mutable_this'): ps[-1] = (n, t, True, False); self.thisv = Place(Var(n, t, True)); self.immut.discard(n)
        for pi, p in enumerate(f['params']):
            ct = self.ts(p['ty'])
            try: t = self.T.why(ct)
            except Unsupported: t = None
            if t is None and parse_type(self.T.full(ct))[0] == 'xt::xfunction': t = self.T.why('xt::xexpression<%s>' % self.T.full(ct))
            if t is None:
                full = self.T.full(ct)
                if full in self.c.recs and not self.c.recs[full]['fields']:
                    self.env[p['id']] = Obj(full, {}); continue
                if full.startswith('std::') and strip_targs(full)[5:] in self.ext.FUNCTORS: self.env[p['id']] = Opaque('cmp', strip_targs(full)[5:]); continue
                if full.startswith('(lambda at'): self.env[p['id']] = Lam(None, {}, None); continue      # without captures (a capture would be an unbound name)
                el = self.whole_range(full)
                if el is not None:                              # a range over a whole container: the container
                    n = self.fresh(p['name']); ps.append((n, ('vec', el), False, False)); self.immut.add(n); b = Place(Var(n, ('vec', el), False))
                    self.env[p['id']] = Obj(full, {'first': Iter(b, PV('0', 'int', True)), 'last': Iter(b, PV('%s.len' % n, 'int', True))}, True); continue
                h = self.spec.get('params', {}).get(p['name'])
                if isinstance(h, tuple) and h[0] == 'fun':      # a pure, total user function
                    n = self.fresh(p['name']); ps.append((n, h, False, False)); self.immut.add(n); self.env[p['id']] = Opaque('purefn', (n, h[2])); continue
                if h: t = h
                else: raise Unsupported('parameter %s of type %s' % (p['name'], ct))
            mutref = ct.endswith('&') and not ct.startswith('const ') and not ct.endswith('&&')
            n = self.fresh((self.pnames[pi] if self.pnames and pi < len(self.pnames) else p['name']) or 'arg')
            ps.append((n, t, mutref, fixed_len(self.T.full(ct)) or ct.replace('const ', '').startswith('unsigned')))
            if mutref: self.env[p['id']] = Place(Var(n, t, True))
            else:
                self.immut.add(n)
                self.env[p['id']] = Place(Var(n, t, False))
        return ps
    def whole_range(self, full):
        """element type when `full' is a pair of iterators of a vector"""
        h, a = parse_type(full)
        if h != 'hg::iterator_wrapper' or a[0][0] != '__gnu_cxx::__normal_iterator': return None
        x = a[0][1][0]
        return self.T.why(self.T.unparse(x[1][0])) if x[0] == '*' else None
    def signature(self, f, kind):
        """header of val/let for f.  kind: 'val' | 'let'"""
        ps = self.param_decls(f)
        return ps
    def clause_lines(self, f, ps, spec):
        L = []
        for n, t, mut, uns in ps:
            if uns and t == 'int': L.append('requires { [@expl:unsigned %s] 0 <= %s }' % (n, n))
            if is_vec(t): L.append('requires { [@expl:size of %s] 0 <= %s.len }' % (n, n))
            if is_vec(t) and isinstance(uns, str): L.append('requires { [@expl:size of %s] %s.len = %s }' % (n, n, uns))
        for i, c in enumerate(spec.get('requires', [])):
            nm, fm = c if isinstance(c, tuple) else ('', c)
            L.append('requires { [@expl:precondition %s] %s }' % (nm, fm))
        for i, c in enumerate(spec.get('ensures', [])):
            nm, fm = c if isinstance(c, tuple) else ('', c)
            L.append('ensures { [@expl:postcondition %s] %s }' % (nm, fm))
        return L
    def fn_text(self, f):
        """let definition"""
        spec = self.spec
        ps = self.param_decls(f)
        rt = self.ret_type(f)
        if rt is None: raise Unsupported('return type %s' % self.ts(f['ret']))
        hdr = ['let %s %s : %s' % (spec['why'], ' '.join('(%s%s: %s)' % ('ref ' if m else '', n, wty(t)) for n, t, m, u in ps) or '()', wty(rt))]
        hdr += self.clause_lines(f, ps, spec)
        if is_vec(rt): hdr.append('ensures { [@expl:size of result] 0 <= result.len }')
        if spec.get('raises') is not None: hdr.append('raises { Hg_error -> [@expl:error only if] %s }' % (spec['raises'] or 'true'))
        for p in f['params']:           # parameters fixed by the precondition (checked): dead branches are not translated
            if p['name'] in spec.get('const', {}):
                c = spec['const'][p['name']]; b = self.env[p['id']]
                self.emit('assert { [@expl:fixed parameter %s] %s = %s };' % (b.root.name, b.root.name, {'false': 'False', 'true': 'True'}.get(c, c)))
                self.env[p['id']] = PV(c, b.ty, True)
        # by-value / const parameters that are modified locally get a local copy
        asg = self.assigned_in(f)
        for p in f['params']:
            b = self.env[p['id']]
            if isinstance(b, Place) and not b.root.mut and (p['id'] in asg or (is_rec(b.ty) and self.mutable_fields(p))):
                nm = b.root.name
                self.emit('let ref %s = %s in' % (nm, nm)); self.immut.discard(nm)
                self.env[p['id']] = Place(Var(nm, b.ty, True))
        if f.get('method') and f.get('const') and isinstance(self.thisv, Place) and not self.thisv.root.mut and self.mutable_rec(self.thisv.ty):
            nm = self.thisv.root.name
            self.emit('let ref %s = %s in' % (nm, nm)); self.immut.discard(nm)
            self.thisv = Place(Var(nm, self.thisv.ty, True))
        self.anchor('entry')
        body = self.fold(self.flat(f['body']))
        if f.get('ctor'):
            full = self.T.full(self.ts(f['rec']))
            fs = self.default_fields(full, f)
            o = self.bindobj_ctor(full, Obj(full, fs)); self.thisv = o
            self.anchor('ctor')
            self.stmts(body)
            self.anchor('return')
            res = self.rv(Obj(full, dict(o.fields))).e
            self.emit(res)
        else:
            self.retmode.append(('fn', None, rt))
            if rt == 'unit':
                self.stmts(body); self.anchor('return'); self.emit('()')
            else:
                st = self.structurable(body)
                if st: self._rs(body, rt)
                else:
                    self.stmts(body); self.emit('absurd')
            self.retmode.pop()
        txt = hdr + ['= begin'] + (['if false then raise Hg_error;'] if spec.get('raises') is not None else []) + self.out + ['end']
        return '\n'.join(txt)
    def mutable_rec(self, t):
        if not is_rec(t): return False
        for full, n in self.c.recname.items():
            if n == t[1]: return any(x['mut'] for x in self.c.recs[full]['fields'])
        return False
    def mutable_fields(self, p):
        full = self.T.full(self.ts(p['ty']))
        r = self.c.recs.get(full)
        return bool(r) and any(x['mut'] for x in r['fields'])

class NotStructured(Exception): pass
