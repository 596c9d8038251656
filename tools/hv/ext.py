"""std:: / xt:: / language runtime handlers of the translation (trusted model of the C++ standard library and of xtensor)."""
import re
from translate import *

def nm(fn): return strip_targs(fn['name'])
def base(fn): return nm(fn).split('::')[-1]

def is_container(n):
    return n.startswith(('std::vector::', 'xt::xfixed_container::', 'xt::xtensor_container::', 'xt::xarray_container::', 'xt::xcontainer::', 'xt::xstrided_container::', 'xt::xaccessible::',
                         'xt::xconst_accessible::', 'xt::xcontiguous_iterable::', 'xt::xconst_iterable::', 'xt::xiterable::', 'xt::xfunction::', 'xt::xgenerator::', 'xt::xview::', 'xt::xindex_view::',
                         'xt::xstrided_view_base::', 'xt::xstrided_view::', 'xt::xview_semantic::', 'std::array::', 'xt::svector::', 'xt::uvector::', 'xt::xadaptor', 'xt::xtensor_adaptor', 'xt::xbroadcast::', 'std::deque::'))

def vec_ty(tr, tyid):
    try: t = tr.wt(tyid)
    except Unsupported: t = None
    return t if is_vec(t) else None

def first_scalar(tr, v):
    """{n} / n -> PV int"""
    if isinstance(v, Opaque) and v.what == 'initlist':
        if len(v.data) != 1: raise Unsupported('multi-dimensional shape')
        return tr.rv(v.data[0])
    if isinstance(v, Shape):
        if len(v.dims) != 1: raise Unsupported('multi-dimensional shape')
        return v.dims[0]
    v = tr.rv(v)
    if is_vec(v.ty):
        tr.emit('assert { [@expl:one-dimensional shape] %s.len = 1 };' % tr.par(v.e))
        return PV('(vget %s 0)' % tr.par(v.e), v.ty[1])
    return v

def shape_dims(tr, v):
    if isinstance(v, Opaque) and v.what == 'initlist': return [tr.rv(x) for x in v.data]
    if isinstance(v, Shape): return list(v.dims)
    return None

def tolen(tr, v):
    if isinstance(v, Range) or isinstance(v, View):
        return PV('(%s - %s)' % (v.e.e, v.b.e), 'int')
    p = tr.rv(v)
    if isinstance(p.ty, tuple) and p.ty[0] == 'queue': return PV('(%s.qv.len - %s.qh)' % (tr.par(p.e), tr.par(p.e)), 'int')
    return PV('%s.len' % tr.par(p.e), 'int')

def elem_default(t): return default_of(t)

def mkvec(tr, items, t):
    """container literal"""
    e = '(vec_empty ())'
    tr_t = ('vec', t)
    cur = tr.let('lit', PV('(vec_empty () : %s)' % wty(tr_t), tr_t))
    for x in items:
        x = tr.conv(tr.rv(x), t)
        cur = tr.let('lit', PV('vpush %s %s' % (cur.e, tr.par(x.e)), tr_t))
    return cur

def initlist_value(tr, x, t):
    if t is None: return x
    if is_vec(t): return mkvec(tr, x.data, t[1])
    if isinstance(t, tuple) and t[0] == 'pair':
        return PV('{ fst = %s; snd = %s }' % tuple(tr.conv(tr.rv(v), ty).e for v, ty in zip(x.data, t[1:])), t)
    return x

def asvec(tr, v):
    """anything expression-like -> PV of vec type, let-bound"""
    if isinstance(v, Opaque) and v.what == 'lazy': v = v.data()
    p = tr.rv(v)
    return p

def letv(tr, s, t, n='xv'): return tr.let(n, PV(s, t))

# ------------------------------------------------------------------ constructors
def ctor(tr, e):
    fn = e['fn']; n = nm(fn)
    cls = n.rsplit('::', 1)[0]
    full = tr.T.full(tr.ts(e['ty']))
    a = e['a']
    if fn.get('copy'):
        v = tr.ev(a[0])
        return tr.copyval(v) if not isinstance(v, View) else v
    if cls == 'std::function' or '(lambda' in n or '(anonymous class)' in n:
        return tr.ev(a[0])
    if cls in ('std::vector', 'std::stack', 'std::priority_queue', 'std::deque', 'xt::xtensor_container', 'xt::xarray_container', 'xt::xfixed_container', 'xt::svector', 'xt::uvector'):
        return vec_ctor(tr, e, fn, a, cls)
    if cls == 'std::basic_string' or cls.startswith('std::basic_string<'):
        a = [x for x in a if not x.get('defarg')]
        v = tr.ev(a[0]) if len(a) == 1 else None
        if isinstance(v, Opaque) and v.what == 'str' and v.data is not None: return PV(str(v.data), 'int', True)
        raise Unsupported('string constructor')
    if cls == 'std::queue':
        t = tr.wt(e['ty'])
        a = [x for x in a if not x.get('defarg')]
        if a: raise Unsupported('queue constructor')
        return PV('(queue_empty () : %s)' % wty(t), t)
    if cls == 'std::pair':
        t = tr.wt(e['ty'])
        vs = [tr.ev(x) for x in a]
        return mkpair(tr, vs, t)
    if cls == 'std::variant': return tr.ev(a[0])
    if cls == '__gnu_cxx::__normal_iterator': return tr.ev(a[0])
    if cls in ('std::allocator',): return Opaque('tag')
    if cls.startswith('std::') and cls[5:] in FUNCTORS: return Opaque('cmp', cls[5:])
    if n.startswith('hg::'):
        if fn.get('id') in tr.c.fns: return tr.call_hg(fn, [tr.ev(x) for x in a])
        if fn.get('default') or not a:
            return default_obj(tr, full)
    r = tr.c.recs.get(full)
    if r is not None and not a: return default_obj(tr, full)
    if r is not None and not r['fields']: return Obj(full, {})
    raise Unsupported('constructor %s' % n)

def default_obj(tr, full):
    r = tr.c.recs.get(full)
    if r is None: raise Unsupported('default construction of %s' % full)
    fs = {}
    for x in r['fields']:
        try: t = tr.T.why(tr.ts(x['ty']))
        except Unsupported: t = None
        if t is None: continue
        fs[x['name']] = PV(default_of(t) if is_vec(t) else '(any %s)' % wty(t), t)
    return Obj(full, fs)

def mkpair(tr, vs, t):
    if t is None or not all(isinstance(v, (PV, Place)) for v in vs):
        return Obj('std::pair', {'first': tr.copyval(vs[0]), 'second': tr.copyval(vs[1])})
    ps = [tr.conv(tr.rv(v), ty) for v, ty in zip(vs, t[1:])]
    return PV('{ fst = %s; snd = %s }' % (ps[0].e, ps[1].e), t)

def shapeit_op(tr, op, a, b):
    sh, k = a.data
    if isinstance(b, Opaque) and b.what == 'shapeit':
        if b.data[0] is not sh: raise Unsupported('iterators of different shapes')
        if op == '-': return PV(str(k - b.data[1]), 'int', True)
        return tr.binop(op, PV(str(k), 'int', True), PV(str(b.data[1]), 'int', True), None)
    n = tr.rv(b).e
    if op in ('+', '-') and re.match(r'^\d+$', n): return Opaque('shapeit', (sh, k + int(n) if op == '+' else k - int(n)))
    raise Unsupported('shape iterator ' + op)

def vec_ctor(tr, e, fn, a, cls):
    t = None
    try: t = tr.wt(e['ty'])
    except Unsupported:
        ft = tr.T.full(tr.ts(e['ty']))
        el = ft[len('std::vector<'):ft.index(', std::allocator<')] if ft.startswith('std::vector<') else ''
        el = next((x for x in tr.c.recs if ft.startswith('std::vector<%s, ' % x)), el)
        if cls == 'std::vector' and el in tr.c.recs and tr.T.isobj(el) and not [x for x in a if not x.get('defarg')]: return ObjVec(el, None)
    if not is_vec(t): t = None
    a = [x for x in a if not x.get('defarg') and not (x.get('k') == 'Ctor' and 'std::allocator' in x['fn']['name'])]
    pt = [tr.ts(p) for p in fn['ptypes']]
    fl = fixed_len(tr.ts(e['ty']))
    if fl and not pt: return letv(tr, '(vec_any %s : %s)' % (fl, wty(t)), t, 'va')
    if t is None:
        if len(a) == 1: return tr.ev(a[0])
        raise Unsupported('container of %s' % tr.ts(e['ty']))
    el = t[1]
    if not a: return PV('(vec_empty () : %s)' % wty(t), t)
    if cls in ('std::vector',):
        if 'initializer_list' in pt[0]:
            v = tr.ev(a[0])
            if isinstance(v, Opaque) and v.what == 'initlist': return mkvec(tr, v.data, el)
            if isinstance(v, Opaque): return PV('(vec_empty () : %s)' % wty(t), t)
            return mkvec(tr, [v], el)
        if pt[0].startswith('unsigned long'):
            n = tr.evr(a[0])
            x = tr.evr(a[1]) if len(a) > 1 else PV(elem_default(el), el)
            return letv(tr, 'vec_const %s %s' % (tr.par(n.e), tr.par(tr.conv(x, el).e)), t, 'vc')
        if len(a) == 2:
            i, j = tr.ev(a[0]), tr.ev(a[1])
            if isinstance(i, Opaque) and i.what == 'shapeit' and isinstance(j, Opaque) and j.what == 'shapeit': return Shape(list(i.data[0].dims[i.data[1]:j.data[1]]))
            if isinstance(i, Iter) and isinstance(j, Iter):
                return letv(tr, 'vslice %s %s %s' % (tr.par(tr.rv(i.base).e), tr.par(tr.rv(i.idx).e), tr.par(tr.rv(j.idx).e)), t, 'vs')
        raise Unsupported('vector constructor %s' % pt)
    if cls in ('std::stack', 'std::priority_queue'):
        raise Unsupported('stack constructor')
    # xtensor / xarray
    p0 = pt[0]
    v = tr.ev(a[0])
    if cls in ('xt::svector', 'xt::uvector') and 'initializer_list' in p0:
        return Shape([tr.rv(x) for x in v.data]) if isinstance(v, Opaque) and v.what == 'initlist' else Shape([tr.rv(v)])
    if 'xexpression' in p0 or 'xtensor_container' in p0 or 'xarray_container' in p0:
        v = asvec(tr, v)
        return convvec(tr, v, el)
    if 'initializer_list' in p0 and 'unsigned long' not in p0 and cls == 'xt::xtensor_container':
        if isinstance(v, Opaque) and v.what == 'initlist': return mkvec(tr, v.data, el)
        return mkvec(tr, [v], el)
    if ('std::array' in p0 or 'svector' in p0 or 'vector' in p0 or cls != ''):
        # (shape [, value] [, layout])
        if isinstance(v, Opaque) and v.what == 'initlist' or isinstance(v, Shape) or (isinstance(v, (PV, Place)) and (is_vec(v.ty) or v.ty == 'int')):
            n = first_scalar(tr, v)
            if len(a) > 1 and 'layout_type' not in pt[1]:
                x = tr.conv(tr.evr(a[1]), el)
                return letv(tr, 'vec_const %s %s' % (tr.par(n.e), tr.par(x.e)), t, 'vc')
            return letv(tr, '(vec_any %s : %s)' % (tr.par(n.e), wty(t)), t, 'va')
    raise Unsupported('array constructor %s' % pt)

def convvec(tr, v, el):
    if v.ty == ('vec', el): return v
    raise Unsupported('element conversion %s -> %s' % (v.ty, el))

# ------------------------------------------------------------------ member calls
def callable_of(v):
    return v if isinstance(v, (Lam, FnV)) else None

def mcall(tr, e):
    fn = e['fn']; n = nm(fn); b = base(fn)
    if n.startswith('hg::') and fn.get('id') in tr.c.fns:
        this = tr.ev(e['obj'])
        if fn.get('static'): this = None
        return tr.call_hg(fn, [tr.ev(x) for x in e['args']], this)
    obj = tr.ev(e['obj'])
    args = e['args']
    if b in ('derived_cast',): return obj
    if n.startswith('std::priority_queue::'):
        if b in ('push', 'emplace'): return pq_push(tr, e, obj, args)
        if b not in ('top', 'pop', 'empty', 'size'): raise Unsupported(n)
        return container_call(tr, e, fn, b, obj, args)
    if n.startswith('std::stack::') or n.startswith(('std::vector::', 'std::deque::')) or is_container(n):
        return container_call(tr, e, fn, b, obj, args)
    if n.startswith('std::queue::'):
        q = tr.rv(obj); s = tr.par(q.e)
        if b == 'empty': return PV('(%s.qh = %s.qv.len)' % (s, s), 'bool')
        if b == 'size': return tolen(tr, obj)
        if b in ('front',): return PV('(qfront %s)' % s, q.ty[1])
        if b in ('push', 'emplace'):
            v = tr.conv(tr.evr(args[0]), q.ty[1]); obj = tr.stabplace(obj)
            tr.write(obj, '(qpush %s %s)' % (tr.par(tr.rv(obj).e), tr.par(v.e))); return UNIT
        if b == 'pop': tr.write(obj, '(qpop %s)' % s); return UNIT
    if n.startswith('std::function'): raise Unsupported('std::function::' + b)
    raise Unsupported('member call %s' % n)

def container_call(tr, e, fn, b, obj, args):
    if isinstance(obj, Opaque) and obj.what == 'lazy': obj = asvec(tr, obj)
    if isinstance(obj, Shape):
        if b == 'size': return PV(str(len(obj.dims)), 'int', True)
        if b in ('begin', 'cbegin'): return Opaque('shapeit', (obj, 0))
        if b in ('end', 'cend'): return Opaque('shapeit', (obj, len(obj.dims)))
        if b == 'insert':
            it = tr.ev(args[0])
            if isinstance(it, Opaque) and it.what == 'shapeit' and it.data[0] is obj: obj.dims.insert(it.data[1], tr.stab(tr.evr(args[1]))); return UNIT
        raise Unsupported('shape.' + b)
    if isinstance(obj, ObjVec):
        if b in ('push_back', 'emplace_back') and len(args) == 1: tr.objvec_push(obj, tr.ev(args[0])); return UNIT
        if b == 'reserve':
            for x in args: tr.ev(x)
            return UNIT
        if b == 'size': return tolen(tr, obj.first())
        if b == 'empty': return PV('(%s = 0)' % tolen(tr, obj.first()).e, 'bool')
        if b == 'back': return tr.objvec_at(obj, tr.let('lst', PV('%s.len - 1' % tr.rv(obj.first()).e, 'int')))
        if b == 'front': return tr.objvec_at(obj, PV('0', 'int', True))
        if b in ('begin', 'cbegin'): return Iter(obj, PV('0', 'int', True))
        if b in ('end', 'cend'): return Iter(obj, tolen(tr, obj.first()))
        raise Unsupported('vector of objects: ' + b)
    if b == 'size': return tolen(tr, obj)
    if b == 'insert' and len(args) == 2:
        it = tr.ev(args[0]); x = tr.conv(tr.evr(args[1]), obj.ty[1])
        if not isinstance(it, Iter): raise Unsupported('insert')
        k = tr.stab(tr.rv(it.idx)); x = tr.stab(x)
        tr.write(obj, '(vinsert %s %s %s)' % (tr.par(tr.rv(obj).e), tr.par(k.e), tr.par(x.e))); tr.logw(obj); return Iter(obj, k)
    if b == 'insert' and len(args) == 3 and isinstance(obj, Place):
        i, j = tr.ev(args[1]), tr.ev(args[2])
        if isinstance(i, Opaque) and i.what == 'shapeit' and isinstance(j, Opaque) and j.what == 'shapeit' and i.data[1] >= j.data[1]: return UNIT   # empty range
        raise Unsupported('insert of a range')
    if b == 'dimension': return PV('1', 'int', True)
    if b == 'shape':
        if args:
            i = tr.evr(args[0])
            if i.e == '0': return tolen(tr, obj)
            raise Unsupported('shape(%s)' % i.e)
        return Shape([tolen(tr, obj)])
    if b == 'empty': return PV('(%s = 0)' % tolen(tr, obj).e, 'bool')
    if b in ('begin', 'cbegin', 'linear_begin', 'linear_cbegin', 'data'):
        return Iter(obj if isinstance(obj, Place) else tr.stab(tr.rv(obj), 'cont'), PV('0', 'int', True))
    if b in ('end', 'cend', 'linear_end', 'linear_cend'):
        if not isinstance(obj, Place): obj = tr.stab(tr.rv(obj), 'cont')
        return Iter(obj, tolen(tr, obj))
    if b in ('operator()', 'operator[]', 'at', 'unchecked', 'element', 'flat', 'data_element'):
        return tr.index(obj, tr.evr(args[0]))
    if b == 'front': return tr.index(obj, PV('0', 'int', True))
    if b in ('back', 'top'):
        if isinstance(obj, Place):
            s = tr.rv(obj); i = tr.let('lst', PV('%s.len - 1' % tr.par(s.e), 'int'))
            return tr.index(obj, i)
        return PV('(vtop %s)' % tr.par(tr.rv(obj).e), obj.ty[1])
    if b in ('push_back', 'push', 'emplace_back', 'emplace'):
        el = obj.ty[1]
        if not args: v = PV('(vec_empty () : %s)' % wty(el), el) if is_vec(el) else PV(elem_default(el), el)
        elif len(args) == 1:
            v = tr.ev(args[0])
            if isinstance(v, Obj): v = tr.rv(v)
            v = tr.conv(tr.rv(v), el)
        else:
            vs = [tr.ev(x) for x in args]
            v = aggregate(tr, el, vs)
        if not tr.isstable(v.e): v = tr.stab(v, 'pv')
        obj = tr.stabplace(obj)
        tr.write(obj, '(vpush %s %s)' % (tr.par(tr.rv(obj).e), tr.par(v.e)))
        tr.logw(obj)
        if b == 'emplace_back' : return tr.index(obj, PV('(%s.len - 1)' % tr.par(tr.rv(obj).e), 'int'))
        return UNIT
    if b in ('pop_back', 'pop'):
        obj = tr.stabplace(obj)
        tr.write(obj, '(vpop %s)' % tr.par(tr.rv(obj).e)); return UNIT
    if b == 'erase' and len(args) == 1:
        obj = tr.stabplace(obj); it = tr.ev(args[0])
        if not isinstance(it, Iter): raise Unsupported('erase by value')
        k = tr.stab(tr.rv(it.idx))
        tr.write(obj, '(verase %s %s)' % (tr.par(tr.rv(obj).e), tr.par(k.e))); tr.logw(obj); return Iter(obj, k)
    if b == 'clear':
        obj = tr.stabplace(obj); tr.write(obj, '(vclear %s)' % tr.par(tr.rv(obj).e)); return UNIT
    if b == 'reshape':
        sh = tr.ev(args[0])
        if isinstance(sh, Shape) and len(sh.dims) == 1:
            tr.emit('assert { [@expl:reshape keeps the size] %s = %s };' % (sh.dims[0].e, tolen(tr, obj).e)); return UNIT
        raise Unsupported('reshape')
    if b in ('reserve', 'shrink_to_fit'):
        for x in args: tr.ev(x)
        return UNIT
    if b == 'resize':
        obj = tr.stabplace(obj); el = obj.ty[1]
        n = first_scalar(tr, tr.ev(args[0]))
        if nm(fn).startswith('std::'):
            x = tr.conv(tr.evr(args[1]), el) if len(args) > 1 and not args[1].get('defarg') else PV(elem_default(el), el)
            tr.write(obj, '(vresize %s %s %s)' % (tr.par(tr.rv(obj).e), tr.par(n.e), tr.par(x.e)))
        else: tr.write(obj, '(vec_any %s)' % tr.par(n.e))
        return UNIT
    if b == 'fill':
        obj = tr.stabplace(obj); v = tr.conv(tr.evr(args[0]), obj.ty[1]); s = tr.par(tr.rv(obj).e)
        tr.write(obj, '(vec_const %s.len %s)' % (s, tr.par(v.e))); return UNIT
    if b == 'operator=':
        return tr.assign_to(obj, tr.ev(args[0]))
    raise Unsupported('container method %s' % nm(fn))

def aggregate(tr, el, vs):
    if isinstance(el, tuple) and el[0] == 'pair':
        return PV('{ fst = %s; snd = %s }' % tuple(tr.conv(tr.rv(v), t).e for v, t in zip(vs, el[1:])), el)
    if is_rec(el):
        fs = tr.c.recdefs[el[1]]
        # constructor taking the fields in declaration order
        full = next(k for k, v in tr.c.recname.items() if v == el[1])
        for f in tr.c.fns.values():
            if f.get('ctor') and tr.T.full(tr.ts(f['rec'])) == full and len(f['params']) == len(vs):
                return tr.rv(tr.inline(f, vs))
        if len(fs) == len(vs):
            return PV('{ ' + '; '.join('%s = %s' % (tr.T.fld(el[1], f), tr.conv(tr.rv(v), t).e) for (f, t), v in zip(fs, vs)) + ' }', el)
    raise Unsupported('emplace of %s' % (el,))

# ------------------------------------------------------------------ operator calls
FUNCTORS = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}
def opcall(tr, e):
    fn = e['fn']; n = nm(fn); op = e['op']; a = e['args']
    if fn.get('lambda') or (op == '()' and '(anonymous class)' in n):
        lam = tr.ev(a[0]); args = [tr.ev(x) for x in a[1:]]
        if not isinstance(lam, Lam): raise Unsupported('lambda object')
        return tr.call_lambda(lam, lam.fid or fn.get('id'), args)
    if n.startswith('std::function') and op == '()':
        f = tr.ev(a[0]); args = [tr.ev(x) for x in a[1:]]
        return apply(tr, f, args)
    if op == '()' and n.startswith('std::') and n.split('::')[1] in FUNCTORS:
        x, y = tr.evr(a[1]), tr.evr(a[2])
        return tr.binop(FUNCTORS[n.split('::')[1]], x, y, None)
    if n.startswith('hg::') and fn.get('id') in tr.c.fns:
        args = [tr.ev(x) for x in a]
        if e.get('member'): return tr.call_hg(fn, args[1:], args[0])
        return tr.call_hg(fn, args)
    if op == '=' :
        if n.startswith('hg::') or n.startswith('std::') or n.startswith('xt::') or fn.get('defaulted'):
            b = tr.ev(a[1]); x = tr.ev(a[0])
            if isinstance(b, Opaque) and b.what == 'initlist' and isinstance(x, (Place,)): b = initlist_value(tr, b, x.ty)
            if isinstance(b, Obj) and isinstance(x, Place): b = tr.rv(b)
            if isinstance(x, Place) and is_vec(x.ty) and isinstance(b, (PV, Place, View)) and not is_vec(tr.rv(b).ty):
                s = tr.rv(x); b = PV('(vec_const %s.len %s)' % (tr.par(s.e), tr.par(tr.conv(tr.rv(b), x.ty[1]).e)), x.ty)
            return tr.assign_to(x, b)
    if op in ('[]', '()') and n.startswith('xt::xreducer::'):
        o = tr.ev(a[0])
        if isinstance(o, Opaque) and o.what == 'reduced': return o.data
    if op in ('[]', '()') and (is_container(n) or n.startswith('__gnu_cxx::__normal_iterator')):
        o = tr.ev(a[0])
        if isinstance(o, Opaque) and o.what == 'lazy': o = asvec(tr, o)
        if isinstance(o, Iter): return tr.deref(Iter(o.base, PV('(%s + %s)' % (tr.rv(o.idx).e, tr.evr(a[1]).e), 'int')))
        if len(a) != 2: raise Unsupported('multi-dimensional access')
        i = tr.evr(a[1])
        if isinstance(o, ObjVec): return tr.objvec_at(o, tr.stab(i, 'ix'))
        return tr.index(o, i)
    if n.startswith('__gnu_cxx::') or n.startswith('std::_') or n.startswith('xtl::') or n.startswith('xt::xiterator') or n.startswith('std::operator') :
        o = tr.ev(a[0])
        if isinstance(o, (Iter,)):
            if op == '*': return tr.deref(o)
            if op == '->': return tr.deref(o)
            if op in ('++', '--'):
                post = len(a) > 1
                cur = tr.rv(o.idx); old = tr.stab(cur) if post and not e.get('discard') else None
                if not isinstance(o.idx, Place): raise Unsupported('++ on a temporary iterator')
                tr.write(o.idx, '(%s %s 1)' % (cur.e, op[0]))
                return Iter(o.base, old) if old is not None else o
            if op in ('+=', '-='):
                tr.write(o.idx, '(%s %s %s)' % (tr.rv(o.idx).e, op[0], tr.par(tr.evr(a[1]).e))); return o
            y = tr.ev(a[1])
            return tr.iterop(op, o, y)
        if isinstance(o, (PV, Place)) and not isinstance(o.ty, str) and o.ty[0] == 'pair' and op in ('<', '=='): raise Unsupported('pair comparison')
    if op in ('==', '!=') and any('basic_string' in tr.ts(q) for q in fn.get('ptypes', [])):
        xs = [tr.ev(x) for x in a]
        xs = [PV(str(x.data), 'int', True) if isinstance(x, Opaque) and x.what == 'str' and x.data is not None else tr.rv(x) for x in xs]
        return tr.binop(op, xs[0], xs[1], None)
    if n.startswith('xt::operator'):
        return xt_op(tr, op, [tr.ev(x) for x in a])
    if n.startswith('xt::noalias_proxy') : return tr.assign_to(tr.ev(a[0]), tr.ev(a[1]))
    raise Unsupported('operator %s (%s)' % (op, n))

def xt_op(tr, op, vs):
    """element-wise operation, evaluated eagerly to a vec defined point-wise"""
    if len(vs) == 1:
        a = tr.stab(asvec(tr, vs[0]))
        if not is_vec(a.ty): raise Unsupported('unary xt operator on a scalar')
        x = '%s.elts i_' % tr.par(a.e)
        if op == '!' and a.ty[1] == 'bool': return pointwise(tr, a.ty, '%s.len' % tr.par(a.e), 'if (%s) = True then False else True' % x)
        if op == '-' and a.ty[1] in ('int', 'real'): return pointwise(tr, a.ty, '%s.len' % tr.par(a.e), ('- (%s)' if a.ty[1] == 'int' else '-. (%s)') % x)
        raise Unsupported('unary xt operator ' + op)
    a, b = [asvec(tr, v) for v in vs]
    va, vb = is_vec(a.ty), is_vec(b.ty)
    a, b = tr.stab(a), tr.stab(b)
    ta = a.ty[1] if va else a.ty; tb = b.ty[1] if vb else b.ty
    xa = '%s.elts i_' % tr.par(a.e) if va else a.e; xb = '%s.elts i_' % tr.par(b.e) if vb else b.e
    if ta == 'int' and tb == 'real': xa = 'from_int (%s)' % xa; ta = 'real'
    if tb == 'int' and ta == 'real': xb = 'from_int (%s)' % xb; tb = 'real'
    if va and vb:
        tr.emit('assert { [@expl:same shape] %s.len = %s.len };' % (tr.par(a.e), tr.par(b.e)))
    ln = '%s.len' % tr.par(a.e if va else b.e)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        o = {'==': '=', '!=': '<>'}.get(op, op)
        if ta == 'real' and o not in ('=', '<>'): o += '.'
        t = ('vec', 'bool'); f = 'if (%s) %s (%s) then True else False' % (xa, o, xb)
    elif op in ('+', '-', '*'):
        if ta == 'real': op += '.'
        t = ('vec', ta); f = '(%s) %s (%s)' % (xa, op, xb)
    elif op in ('&&', '||'):
        t = ('vec', 'bool'); f = 'if (%s) %s (%s) then True else False' % (xa + ' = True', '/\\' if op == '&&' else '\\/', xb + ' = True')
    else: raise Unsupported('xt operator %s' % op)
    return pointwise(tr, t, ln, f)

def pointwise(tr, t, ln, term):
    """fresh vec r with r[i_] = term for 0 <= i_ < ln"""
    return letv(tr, 'vec_pw (%s) (pure { fun i_ -> %s })' % (ln, term), t, 'pw')

def apply(tr, f, args):
    if isinstance(f, Lam): return tr.call_lambda(f, f.fid, args)
    if isinstance(f, FnV): return tr.call_hg(f.fn, args)
    if isinstance(f, Opaque) and f.what == 'cmp':
        return tr.binop(FUNCTORS[f.data], tr.rv(args[0]), tr.rv(args[1]), None)
    if isinstance(f, Opaque) and f.what == 'purefn':
        name, rt = f.data
        return PV('(%s %s)' % (name, ' '.join(tr.par(tr.rv(x).e) for x in args)), rt)
    raise Unsupported('call of %s' % type(f).__name__)

# ------------------------------------------------------------------ free function calls
def call(tr, e):
    if 'fn' not in e:
        f = tr.ev(e['callee'])
        return apply(tr, f, [tr.ev(x) for x in e['args']])
    fn = e['fn']; n = nm(fn); a = e['args']
    if n == 'xt::adapt_struct_array':
        it = tr.ev(a[0]); fld = tr.ev(a[1]).data; ln = tr.evr(a[2])
        v = tr.stab(tr.rv(it.base)); el = v.ty[1]
        fname, ft = None, None
        for f, t in tr.c.recdefs[el[1]]:
            if f == fld: fname, ft = tr.T.fld(el[1], f), t
        if fname is None: raise Unsupported('adapt_struct_array field %s' % fld)
        tr.emit('assert { [@expl:adapted length] 0 <= %s <= %s.len };' % (ln.e, tr.par(v.e)))
        return pointwise(tr, ('vec', ft), ln.e, '(%s.elts i_).%s' % (tr.par(v.e), fname))
    if n == 'xt::has_shape' and len(a) == 2:
        x = tr.ev(a[0]); y = tr.ev(a[1])
        if not isinstance(y, Shape) or len(y.dims) != 1: raise Unsupported('has_shape')
        return PV('(%s = %s)' % (tolen(tr, x).e, tr.par(tr.rv(y.dims[0]).e)), 'bool')
    if n == 'xt::adapt' and len([x for x in a if x.get('k') != 'DefaultArg']) == 2:   # 1-d view of a whole container
        v = tr.stab(tr.rv(tr.ev(a[0]))); ln = first_scalar(tr, tr.ev(a[1])); ln = tr.conv(ln, 'int') if hasattr(tr, 'conv') else ln
        tr.emit('assert { [@expl:adapted length] %s = %s.len };' % (ln.e, tr.par(v.e)))
        return v
    if n.startswith('hg::') :
        if fn.get('id') in tr.c.fns:
            h = hg_call(tr, n, fn, a, e)
            if h is not None: return h
            return tr.call_hg(fn, [tr.ev(x) for x in a])
        raise Unsupported('no body for %s' % n)
    if n in ('std::move', 'std::forward', 'std::as_const', 'xt::eval', 'xt::noalias', 'std::ref', 'std::cref'):
        v = tr.ev(a[0])
        if n == 'xt::eval' and isinstance(v, Opaque) and v.what == 'lazy': v = asvec(tr, v)
        return v
    if n == 'std::make_pair':
        try: t = tr.wt(e['ty'])
        except Unsupported: t = None
        return mkpair(tr, [tr.ev(x) for x in a], t)
    if n == 'std::swap':
        x, y = tr.stabplace(tr.ev(a[0])), tr.stabplace(tr.ev(a[1]))
        t1 = tr.let('sw', tr.rv(x)); t2 = tr.let('sw', tr.rv(y))
        tr.write(x, t2.e); tr.write(y, t1.e); return UNIT
    if n in ('std::min', 'std::max') and len(a) == 2:
        x, y = tr.evr(a[0]), tr.evr(a[1])
        p = 'r_' if x.ty == 'real' else 'i_'
        return PV('(%s%s %s %s)' % (p, n[5:], tr.par(x.e), tr.par(y.e)), x.ty)
    if n in ('std::sqrt', 'sqrt'):
        x = tr.conv(tr.evr(a[0]), 'real')
        return letv(tr, 'r_sqrt %s' % tr.par(x.e), 'real', 'sq')
    if n in ('std::abs', 'std::fabs', 'fabs'):
        x = tr.evr(a[0])
        return PV('(%s %s)' % ('r_abs' if x.ty == 'real' else 'c_abs', tr.par(x.e)), x.ty)
    if n in ('std::begin', 'std::cbegin', 'std::end', 'std::cend'):
        return container_call(tr, e, fn, n[5:], tr.ev(a[0]), [])
    if n in ('std::numeric_limits::max', 'std::numeric_limits::lowest', 'std::numeric_limits::infinity', 'std::numeric_limits::min'):
        t = tr.wt(e['ty'])
        if t == 'real' and n.endswith(('max', 'lowest', 'min')): return PV({'max': '(real_max ())', 'lowest': '(real_lowest ())', 'min': '(real_tiny ())'}[n.split('::')[-1]], 'real')
        raise Unsupported(n)
    if n == 'std::fill':
        i, j, x = tr.ev(a[0]), tr.ev(a[1]), tr.evr(a[2])
        if isinstance(i, Iter) and isinstance(j, Iter) and isinstance(i.base, Place):
            s = '(vfill %s %s %s %s)' % (tr.par(tr.rv(i.base).e), tr.par(tr.rv(i.idx).e), tr.par(tr.rv(j.idx).e), tr.par(tr.conv(x, i.base.ty[1]).e))
            tr.write(i.base, s); return UNIT
        raise Unsupported('std::fill')
    if n == '__builtin_clzll': return PV('(c_clz64 %s)' % tr.par(tr.evr(a[0]).e), 'int')
    if n in ('log', 'std::log', 'log2', 'std::log2', 'ceil', 'std::ceil', 'exp', 'std::exp'):
        tr.evr(a[0]); return letv(tr, '(any real)', 'real', 'fn')
    if n == 'std::min_element' and len(a) == 2:
        i, j = tr.ev(a[0]), tr.ev(a[1])
        if isinstance(i, Iter) and isinstance(j, Iter):
            bt = tr.rv(i.base)
            if bt.ty == ('vec', 'int'):
                k = letv(tr, 'vmin_element_i %s %s %s' % (tr.par(bt.e), tr.par(tr.rv(i.idx).e), tr.par(tr.rv(j.idx).e)), 'int', 'smallest')
                return Iter(i.base, k)
        raise Unsupported('std::min_element')
    if n == 'std::find':
        i, j, x = tr.ev(a[0]), tr.ev(a[1]), tr.evr(a[2])
        if isinstance(i, Iter) and isinstance(j, Iter):
            bt = tr.rv(i.base)
            k = letv(tr, 'vfind %s %s %s %s' % (tr.par(bt.e), tr.par(tr.rv(i.idx).e), tr.par(tr.rv(j.idx).e), tr.par(tr.conv(x, bt.ty[1]).e)), 'int', 'found')
            return Iter(i.base, k)
        raise Unsupported('std::find')
    if n == 'xt::arange':
        v = [tr.evr(x) for x in a]
        if len(v) == 1: v = [PV('0', 'int', True)] + v
        if len(v) == 3 and v[2].e != '1': raise Unsupported('arange step')
        if v[0].ty != 'int': raise Unsupported('real arange')
        return letv(tr, 'vec_range %s %s' % (tr.par(v[0].e), tr.par(v[1].e)), ('vec', 'int'), 'ar')
    if n in ('xt::zeros', 'xt::ones', 'xt::empty', 'xt::xtensor_container::from_shape', 'xt::xarray_container::from_shape'):
        t = None
        if n.endswith('from_shape'): t = vec_ty(tr, e['ty']); el = t[1]
        else:
            ta = fn.get('targs') or []
            el = tr.T.why(tr.ts(ta[0]['ty']))
            t = ('vec', el)
        sz = first_scalar(tr, tr.ev(a[0]))
        if n == 'xt::zeros': s = 'vec_const %s %s' % (tr.par(sz.e), default_of(el))
        elif n == 'xt::ones': s = 'vec_const %s %s' % (tr.par(sz.e), {'int': '1', 'real': '1.0', 'bool': 'true'}[el])
        else: s = '(vec_any %s : %s)' % (tr.par(sz.e), wty(t))
        return letv(tr, s, t, 'nv')
    if n in ('xt::zeros_like', 'xt::ones_like', 'xt::empty_like', 'xt::full_like'):
        v = asvec(tr, tr.ev(a[0])); t = v.ty; el = t[1]; ln = '%s.len' % tr.par(v.e)
        if n == 'xt::empty_like': s = '(vec_any %s : %s)' % (ln, wty(t))
        elif n == 'xt::full_like': s = 'vec_const %s %s' % (ln, tr.par(tr.conv(tr.evr(a[1]), el).e))
        else: s = 'vec_const %s %s' % (ln, default_of(el) if n == 'xt::zeros_like' else {'int': '1', 'real': '1.0', 'bool': 'true'}[el])
        return letv(tr, s, t, 'nv')
    if n in ('xt::flatten', 'xt::ravel'): return tr.ev(a[0])
    if n == 'xt::index_view':
        v = asvec(tr, tr.ev(a[0])); ix = asvec(tr, tr.ev(a[1]))
        return letv(tr, 'vindex %s %s' % (tr.par(v.e), tr.par(ix.e)), v.ty, 'iv')
    if n == 'xt::range':
        return Range(tr.stab(tr.evr(a[0])), tr.stab(tr.evr(a[1])))
    if n == 'xt::view':
        v = tr.ev(a[0]); r = tr.ev(a[1])
        if isinstance(r, Range) and len(a) == 2:
            if not isinstance(v, Place): v = tr.stab(tr.rv(v))
            return View(v, r.b, r.e)
        raise Unsupported('xt::view')
    if n == 'xt::ellipsis': return Opaque('tag', 'ellipsis')
    if n == 'xt::strided_view':
        v = tr.ev(a[0]); s = tr.ev(a[1])
        items = s.data if isinstance(s, Opaque) and s.what == 'initlist' else [s]
        items = [x for x in items if not (isinstance(x, Opaque) and x.what == 'tag')]
        if len(items) == 1 and isinstance(items[0], Range):
            if not isinstance(v, Place): v = tr.stab(tr.rv(v))
            return View(v, items[0].b, items[0].e)
        raise Unsupported('xt::strided_view')
    if n == 'xt::equal':
        return xt_op(tr, '==', [tr.ev(x) for x in a])
    if n == 'xt::same_shape':
        x, y = shape_dims(tr, tr.ev(a[0])), shape_dims(tr, tr.ev(a[1]))
        if x is None or y is None or len(x) != 1 or len(y) != 1: raise Unsupported('same_shape')
        return PV('(%s = %s)' % (x[0].e, y[0].e), 'bool')
    if n in ('std::stable_sort', 'std::sort') and len(a) == 3: return std_sort(tr, a, n == 'std::stable_sort')
    if n in ('xt::amin', 'xt::amax'):
        v = asvec(tr, tr.ev(a[0]))
        if any(not x.get('defarg') for x in a[1:]) or v.ty[1] not in ('int', 'real'): raise Unsupported(n)
        return Opaque('reduced', letv(tr, 'v%s_%s %s' % (n[4:], v.ty[1][0], tr.par(v.e)), v.ty[1], n[4:]))
    if n == 'std::equal':
        i, j, k = [tr.ev(x) for x in a[:3]]
        rest = lambda x: x.data[0].dims[x.data[1]:]
        if isinstance(i, Opaque) and i.what == 'shapeit' and isinstance(k, Opaque) and k.what == 'shapeit':
            m = j.data[1] - i.data[1]
            c = ['(%s = %s)' % (x.e, y.e) for x, y in zip(rest(i)[:m], rest(k))]
            if len(rest(k)) < m: raise Unsupported('std::equal reads past the end of a shape')
            return PV(' && '.join(c) if c else 'true', 'bool')
        if isinstance(i, Iter) and isinstance(k, Opaque) and k.what == 'shapeit' and not rest(k):
            tr.emit('assert { [@expl:std::equal in bounds] %s = %s };' % (tr.rv(i.idx).e, tr.rv(j.idx).e)); return PV('true', 'bool', True)
        raise Unsupported(n)
    raise Unsupported('call %s' % n)

def std_sort(tr, a, stable):
    """std::stable_sort(begin, end, comp) on a whole container of indices: contract of the standard"""
    i, j, f = [tr.ev(x) for x in a]
    if not (isinstance(i, Iter) and isinstance(j, Iter) and isinstance(i.base, Place)): raise Unsupported('stable_sort range')
    tr.emit('assert { [@expl:the whole container is sorted] %s = 0 /\\ %s = %s };' % (tr.rv(i.idx).e, tr.rv(j.idx).e, tolen(tr, i.base).e))
    p = tr.stabplace(i.base); el = p.ty[1]
    old = tr.let('unsorted', tr.rv(p))
    # comparator as a formula: evaluated on two symbolic elements
    tr.immut |= {'x_', 'y_'}
    r = []
    blk = tr.block(lambda: r.append(tr.rv(apply(tr, f, [PV('x_', el, True), PV('y_', el, True)]))))
    fm = logic_cmp(r[0].e, blk)
    if fm[1]:
        tr.emit('assert { [@expl:comparator well defined] forall k_ l_: int. 0 <= k_ < %s.len -> 0 <= l_ < %s.len -> let x_ = %s.elts k_ in let y_ = %s.elts l_ in %s };' % (old.e, old.e, old.e, old.e, fm[1]))
    new = tr.fresh('sorted'); perm = new + '_perm'; inv = new + '_inv'; tr.immut |= {new, perm, inv}
    tr.emit('let %s, ghost %s, ghost %s = vsort%s %s (pure { fun x_ y_ -> if %s then True else False }) in' % (new, perm, inv, ('' if stable else '_any') + ('_i' if el == 'int' else ''), old.e, fm[0]))
    tr.write(p, new)
    return UNIT

def pq_push(tr, e, obj, args):
    """std::priority_queue (default comparator): kept as the sequence of its elements in increasing order, the top is the last one; the position among equivalent elements is unspecified"""
    el = obj.ty[1]
    ty = tr.ts(e['obj'].get('ty')) if isinstance(e['obj'], dict) else ''
    h, ta = parse_type(tr.T.full(ty))
    if h != 'std::priority_queue' or len(ta) > 2 and ta[2][0] != 'std::less': raise Unsupported('priority queue type ' + ty)
    vs = [tr.ev(x) for x in args]
    v = tr.conv(tr.rv(vs[0]), el) if len(vs) == 1 else aggregate(tr, el, vs)
    if not tr.isstable(v.e): v = tr.stab(v, 'pv')
    tr.immut |= {'x_', 'y_'}; r = []
    x, y = PV('x_', el, True), PV('y_', el, True)
    if is_rec(el):
        full = next(k for k, w in tr.c.recname.items() if w == el[1])
        m = [f for f in tr.c.fns.values() if f['name'] == full + '::operator<' or f['name'].endswith('::operator<') and f.get('rec') is not None and tr.T.full(tr.ts(f['rec'])) == full]
        g = [f for f in tr.c.fns.values() if f['name'].split('<')[0].endswith('operator') and f['name'].endswith('operator<') and f.get('rec') is None and len(f['params']) == 2 and tr.T.full(tr.ts(f['params'][0]['ty'])) == full]
        if m: blk = tr.block(lambda: r.append(tr.rv(tr.call_hg(m[0], [y], x))))
        elif g: blk = tr.block(lambda: r.append(tr.rv(tr.call_hg(g[0], [x, y]))))
        else: raise Unsupported('comparator of ' + full)
        c, wd = logic_cmp(r[0].e, blk)
        if wd: raise Unsupported('comparator reading a container')
    else:
        c = {'int': 'x_ < y_', 'real': 'x_ <. y_'}.get(el)
        if c is None: raise Unsupported('priority queue of %r' % (el,))
    obj = tr.stabplace(obj)
    new = tr.fresh('pq'); tr.immut |= {new, new + '_pos'}
    tr.emit('let %s, ghost %s_pos = pq_push %s %s (pure { fun x_ y_ -> if %s then True else False }) in' % (new, new, tr.par(tr.rv(obj).e), tr.par(v.e), c))
    tr.write(obj, new); tr.logw(obj)
    return UNIT

def logic_cmp(e, blk):
    """program comparison -> (formula, well-definedness)"""
    sub = {}
    for l in blk:
        m = re.match(r'let (\w+) = (.*) in$', l, re.S)
        if not m: raise Unsupported('comparator body: ' + l)
        for k, v in sub.items(): 
            l2 = re.sub(r'\b%s\b' % k, '(%s)' % v, m.group(2)); 
            m = re.match(r'let (\w+) = (.*) in$', 'let %s = %s in' % (m.group(1), l2), re.S)
        sub[m.group(1)] = m.group(2)
    for k in reversed(list(sub)): e = re.sub(r'\b%s\b' % k, '(%s)' % sub[k], e)
    wd = []
    def rep(m): return m
    # vget v i
    out = e
    pat = re.compile(r"\(vget ((?:\w|\.)+|\([^()]*\)) ((?:\w|\.)+|\([^()]*\))\)")
    while True:
        m = pat.search(out)
        if not m: break
        v, i = m.group(1), m.group(2)
        wd.append('0 <= %s < %s.len' % (i, v))
        out = out[:m.start()] + '(%s.elts %s)' % (v, i) + out[m.end():]
        out = out
    for k, v in (('r_lt', '<.'), ('r_le', '<=.'), ('r_gt', '>.'), ('r_ge', '>=.'), ('r_eq', '=')):
        out = re.sub(r"\(%s (\([^()]*(?:\([^()]*\)[^()]*)*\)|[\w.]+) (\([^()]*(?:\([^()]*\)[^()]*)*\)|[\w.]+)\)" % k, r'(\1 %s \2)' % v, out)
    return out, ' /\\ '.join(wd)

def hg_call(tr, n, fn, a, e):
    return None

def override(tr, f, args, this):
    return None
