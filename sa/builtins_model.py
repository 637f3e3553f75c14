"""Models of the built-ins and of the few external names the sources use."""
from __future__ import annotations

import builtins as _b
from fractions import Fraction as _F

from .absint import (BuiltinM, ClassV, DictO, EnumM, Ext, ExcV, FuncV, IterO,
                     K, NONE, NOT_IMPLEMENTED, Num, Obj, Opq, PV, PyFn,
                     RangeV, Seq, SetO, SliceV, StrT, Term, Undecided,
                     Wrapped, add_part, pv_bool, is_exc_name, Bound)
from .poly import Rat

_BUILTIN_NAMES = set(dir(_b))


def builtin(name):
    if name == 'NotImplemented':
        return NOT_IMPLEMENTED
    if name == 'Ellipsis':
        return K(Ellipsis)
    if name in _BUILTIN_NAMES:
        return Ext('builtins.' + name)
    return None


# ------------------------------------------------------------------ iteration
def list_iter(I, seq, reverse=False):
    pos = {}  # world mask per position

    def step(m):
        out, done = PV(), 0
        seen = 0
        todo = []
        for p, w in list(pos.items()):
            w2 = w & m
            seen |= w
            if w2:
                todo.append((p, w2))
        fresh = m & ~seen
        if fresh:
            todo.append((0, fresh))
        for p, w in todo:
            got = 0
            for ln, (pm, items) in seq.parts.items():
                ww = w & pm
                if not ww:
                    continue
                if p < ln:
                    out.merge(items[ln - 1 - p if reverse else p].at(ww))
                    got |= ww
                else:
                    done |= ww
            if p in pos:
                pos[p] &= ~w
            pos[p + 1] = pos.get(p + 1, 0) | got
            rest = w & ~got
            pos[p] = pos.get(p, 0) | rest
            if not pos[p]:
                del pos[p]
        return out, done
    it = IterO(step)
    it.seq = seq
    return it


def range_iter(I, r):
    pos = {}

    def step(m):
        out, done = PV(), 0
        seen = 0
        todo = []
        for p, w in list(pos.items()):
            seen |= w
            if w & m:
                todo.append((p, w & m))
        if m & ~seen:
            todo.append((0, m & ~seen))
        for p, w in todo:
            if p < len(r):
                out.add(K(r[p]), w)
                pos[p] = pos.get(p, 0) & ~w
                if not pos[p]:
                    del pos[p]
                pos[p + 1] = pos.get(p + 1, 0) | w
            else:
                done |= w
                pos[p] = pos.get(p, 0) | w
        return out, done
    return IterO(step)


def next_iter(I, a, node):
    """iterator over an object with __next__"""
    def step(m):
        I.handlers.append([])
        v = I.call_method(a, '__next__', [], m, node)
        done = 0
        for rec in I.handlers.pop():
            if I.exc_matches(rec[0], Ext('builtins.StopIteration')):
                done |= rec[1]
            else:
                I.handlers[-1].append(rec)
        return v, done
    return IterO(step)


def to_iter(I, a, m, node=None):
    if isinstance(a, IterO):
        return a
    if isinstance(a, Seq):
        return list_iter(I, a)
    if isinstance(a, RangeV):
        return range_iter(I, a.r)
    if isinstance(a, SetO):
        items = Seq('list', {0: (m, [])})
        for pv, pm in a.items:
            w = pm & m
            if w:
                list_append(I, items, pv, w)
        return list_iter(I, items)
    if isinstance(a, DictO):
        items = Seq('list', {0: (m, [])})
        for k, _, pm in a.items:
            w = pm & m
            if w:
                list_append(I, items, k, w)
        return list_iter(I, items)
    if isinstance(a, K) and isinstance(a.v, str):
        return list_iter(I, Seq('list', {len(a.v): (
            m, [PV.of(K(c), m) for c in a.v])}))
    if isinstance(a, ClassV) and a.is_enum:
        return list_iter(I, Seq('list', {len(a.members): (
            m, [PV.of(x, m) for x in a.members.values()])}))
    if isinstance(a, Obj):
        fn, _ = a.cls.lookup('__iter__')
        if fn is not None:
            r = I.call_method(a, '__iter__', [], m, node)
            if len(r.d) == 1 and r.only() is a:
                return next_iter(I, a, node)
            return I.iterate_pv(r, r.cov(), node)
        if a.cls.lookup('__getitem__')[0] is not None and \
                a.cls.lookup('__len__')[0] is not None:
            ln = I.call_method(a, '__len__', [], m, node)
            seq = Seq('list')
            for x, w in ln.items():
                items = []
                for i in range(x.v):
                    it = I.call_method(a, '__getitem__', [PV.of(K(i), w)], w,
                                       node)
                    items.append(it)
                seq.parts[x.v] = (w, items)
            return list_iter(I, seq)
        if a.cls.lookup('__next__')[0] is not None:
            return next_iter(I, a, node)
    if isinstance(a, (Opq, Term)) and 'iter' in a.info:
        return a.info['iter'](I, m)
    if isinstance(a, (K, Num)):
        I.raise_name('TypeError', m, node)
        return IterO(lambda mm: (PV(), 0))
    I.fail(f'iteration over {a!r}', node)


# ------------------------------------------------------------------ sequences
def list_append(I, seq, v, m):
    list_extend_items(seq, [v], m)


def list_extend_items(seq, items, m):
    if not m:
        return
    moved = []
    for ln, (pm, its) in list(seq.parts.items()):
        w = pm & m
        if not w:
            continue
        moved.append((w, [x.at(w) for x in its] + [x.at(w) for x in items]))
        rest = pm & ~w
        if rest:
            seq.parts[ln] = (rest, [x.at(rest) for x in its])
        else:
            del seq.parts[ln]
    for w, its in moved:
        add_part(seq.parts, w, its)


def list_extend(I, seq, other, m):
    for ln, (pm, items) in list(other.parts.items()):
        w = pm & m
        if w:
            list_extend_items(seq, items, w)


def transform(seq, m, fn):
    """rewrite the parts of a list under mask: fn(ln, items) -> items"""
    moved = []
    for ln, (pm, its) in list(seq.parts.items()):
        w = pm & m
        if not w:
            continue
        moved.append((w, fn(ln, [x.at(w) for x in its], w)))
        rest = pm & ~w
        if rest:
            seq.parts[ln] = (rest, [x.at(rest) for x in its])
        else:
            del seq.parts[ln]
    for w, its in moved:
        add_part(seq.parts, w, its)


def norm_index(I, i, node):
    if isinstance(i, K) and type(i.v) in (int, bool):
        return int(i.v)
    if isinstance(i, EnumM) and i.cls.int_enum:
        return i.value.only().v
    return None


def slice_bounds(I, s, node):
    out = []
    for x in (s.lo, s.hi, s.st):
        k = None if x == NONE else norm_index(I, x, node)
        if k is None and x != NONE:
            I.fail(f'slice bound {x!r}', node)
        out.append(k)
    return out


def getitem(I, a, i, m, node):
    if isinstance(a, Seq):
        if isinstance(i, SliceV):
            lo, hi, st = slice_bounds(I, i, node)
            out = Seq(a.kind)
            tot = 0
            for ln, (pm, items) in a.parts.items():
                w = pm & m
                if w:
                    add_part(out.parts, w, items[slice(lo, hi, st)])
                    tot |= w
            return PV.of(out, tot)
        k = norm_index(I, i, node)
        if k is None:
            if isinstance(i, (Opq, Term, Num)):
                I.fail(f'index {i!r}', node)
            I.raise_name('TypeError', m, node)
            return PV()
        out = PV()
        for ln, (pm, items) in a.parts.items():
            w = pm & m
            if not w:
                continue
            if -ln <= k < ln:
                out.merge(items[k].at(w))
            else:
                I.raise_name('IndexError', w, node)
        return out
    if isinstance(a, DictO):
        out = PV()
        rem = m
        for k, v, pm in a.items:
            w = rem & pm
            if w:
                t, _ = I.eq_pv(PV.of(i, w), k.at(w), w, node)
                out.merge(v.at(t))
                rem &= ~t
        I.raise_name('KeyError', rem, node)
        return out
    if isinstance(a, K) and isinstance(a.v, str):
        k = norm_index(I, i, node)
        if k is not None:
            try:
                return PV.of(K(a.v[k]), m)
            except IndexError:
                I.raise_name('IndexError', m, node)
                return PV()
    if isinstance(a, RangeV):
        k = norm_index(I, i, node)
        if isinstance(i, SliceV):
            lo, hi, st = slice_bounds(I, i, node)
            return PV.of(RangeV(a.r[slice(lo, hi, st)]), m)
        try:
            return PV.of(K(a.r[k]), m)
        except IndexError:
            I.raise_name('IndexError', m, node)
            return PV()
    if isinstance(a, Obj):
        return I.call_method(a, '__getitem__', [PV.of(i, m)], m, node)
    if isinstance(a, ClassV) and a.is_enum and isinstance(i, K):
        if i.v in a.members:
            return PV.of(a.members[i.v], m)
        I.raise_name('KeyError', m, node)
        return PV()
    if isinstance(a, (ClassV, Ext)):
        return PV.of(a, m)
    if isinstance(a, (K, Num)):
        I.raise_name('TypeError', m, node)
        return PV()
    I.fail(f'subscript of {a!r}', node)


def setitem(I, a, idx, val, m, node):
    """-> mask of worlds where it succeeded"""
    ok = 0
    for i, w in idx.items():
        w &= m
        if not w:
            continue
        if isinstance(a, Seq):
            if a.kind == 'tuple':
                I.raise_name('TypeError', w, node)
                continue
            k = norm_index(I, i, node)
            if k is None:
                if isinstance(i, SliceV):
                    lo, hi, st = (None if x == NONE
                                  else norm_index(I, x, node)
                                  for x in (i.lo, i.hi, i.st))
                    new = I.to_list(val.at(w), w, node)
                    for l2, (m2, its2) in new.parts.items():
                        ww = w & m2

                        def fn(ln, its, mm, its2=its2):
                            its = list(its)
                            its[slice(lo, hi, st)] = [x.at(mm)
                                                      for x in its2]
                            return its
                        transform(a, ww, fn)
                        ok |= ww
                    continue
                I.fail(f'index {i!r}', node)
            for ln, (pm, items) in list(a.parts.items()):
                ww = pm & w
                if not ww:
                    continue
                if -ln <= k < ln:
                    items = list(items)
                    items[k] = items[k].write(val, ww)
                    a.parts[ln] = (pm, items)
                    ok |= ww
                else:
                    I.raise_name('IndexError', ww, node)
        elif isinstance(a, DictO):
            dict_set(I, a, PV.of(i, w), val.at(w), w, node)
            ok |= w
        elif isinstance(a, Obj):
            r = I.call_method(a, '__setitem__', [PV.of(i, w), val.at(w)], w,
                              node)
            ok |= r.cov()
        else:
            I.fail(f'item assignment on {a!r}', node)
    return ok


def delitem(I, a, idx, m, node):
    ok = 0
    for i, w in idx.items():
        w &= m
        if isinstance(a, Seq):
            k = norm_index(I, i, node)
            for ln, (pm, items) in list(a.parts.items()):
                ww = pm & w
                if not ww:
                    continue
                if isinstance(i, SliceV):
                    lo, hi, st = (None if x == NONE
                                  else norm_index(I, x, node)
                                  for x in (i.lo, i.hi, i.st))

                    def fn(l_, its, mm):
                        its = list(its)
                        del its[slice(lo, hi, st)]
                        return its
                    transform(a, ww, fn)
                    ok |= ww
                elif -ln <= k < ln:
                    transform(a, ww, lambda l_, its, mm: its[:k % ln]
                              + its[k % ln + 1:])
                    ok |= ww
                else:
                    I.raise_name('IndexError', ww, node)
        elif isinstance(a, DictO):
            rem = w
            for e in a.items:
                ww = rem & e[2]
                if ww:
                    t, _ = I.eq_pv(PV.of(i, ww), e[0].at(ww), ww, node)
                    e[2] &= ~t
                    rem &= ~t
                    ok |= t
            I.raise_name('KeyError', rem, node)
        elif isinstance(a, Obj):
            r = I.call_method(a, '__delitem__', [PV.of(i, w)], w, node)
            ok |= r.cov()
        else:
            I.fail(f'del item of {a!r}', node)
    return ok


def dict_set(I, d, kv, vv, m, node):
    rem = m
    for e in d.items:
        w = rem & e[2]
        if w:
            t, _ = I.eq_pv(kv.at(w), e[0].at(w), w, node)
            if t:
                e[1] = e[1].write(vv, t)
                rem &= ~t
    if rem:
        d.items.append([kv.at(rem), vv.at(rem), rem])


def set_add(I, s, v, m, node):
    has = I.set_has(s, v, m, node)
    new = m & ~has
    if new:
        s.items.append([v.at(new), new])


def make_set(I, pv, m, node, kind):
    s = SetO(kind)
    it = I.iterate_pv(pv, m, node)
    live = m
    fin = 0
    for _ in range(I.MAX_ITER):
        v, done = it.step(live)
        fin |= done
        live = v.cov()
        if not live:
            break
        set_add(I, s, v, live, node)
    return PV.of(s, fin)


def make_dict(I, pv, m, node):
    d = DictO()
    seq = I.to_list(pv, m, node)
    fin = 0
    for ln, (w, items) in seq.parts.items():
        for it in items:
            k = I.getitem_pv(it.at(w), PV.of(K(0), w), w, node)
            v = I.getitem_pv(it.at(w), PV.of(K(1), w), w, node)
            dict_set(I, d, k, v, w, node)
        fin |= w
    return PV.of(d, fin)


def length(I, a, m, node):
    if isinstance(a, Seq):
        out = PV()
        for ln, (pm, _) in a.parts.items():
            out.add(K(ln), pm & m)
        return out
    if isinstance(a, SetO):
        return count_masks(m, [pm for _, pm in a.items])
    if isinstance(a, DictO):
        return count_masks(m, [pm for _, _, pm in a.items])
    if isinstance(a, RangeV):
        return PV.of(K(len(a.r)), m)
    if isinstance(a, K) and isinstance(a.v, str):
        return PV.of(K(len(a.v)), m)
    if isinstance(a, Obj) and a.cls.lookup('__len__')[0] is not None:
        return I.call_method(a, '__len__', [], m, node)
    if isinstance(a, ClassV) and a.is_enum:
        return PV.of(K(len(a.members)), m)
    if isinstance(a, (Opq, Term)) and 'len' in a.info:
        return a.info['len'].at(m)
    if isinstance(a, (Opq, Term, StrT, Ext)):
        I.fail(f'len of {a!r}', node)
    I.raise_name('TypeError', m, node)
    return PV()


def count_masks(m, masks):
    cur = {0: m}
    for pm in masks:
        new = {}
        for k, w in cur.items():
            a, b = w & pm, w & ~pm
            if a:
                new[k + 1] = new.get(k + 1, 0) | a
            if b:
                new[k] = new.get(k, 0) | b
        cur = new
    out = PV()
    for k, w in cur.items():
        out.add(K(k), w)
    return out


def sort_items(I, items, m, key, reverse, node):
    """stable insertion network; items all live on m"""
    import ast as _ast
    keys = []
    for it in items:
        if key is None or set(key.d) == {NONE}:
            keys.append(it)
        else:
            k = I.call_pv(key.at(m), [it.at(m)], {}, m, node)
            m &= k.cov()
            keys.append(k)
    items = [i.at(m) for i in items]
    keys = [k.at(m) for k in keys]
    if reverse:
        items.reverse()
        keys.reverse()
    n = len(items)
    for i in range(1, n):
        live = m
        for j in range(i, 0, -1):
            if not live:
                break
            r = PV()
            x, y = keys[j].at(live), keys[j - 1].at(live)
            r = I.order_pv('Lt', x, y, live, node)
            lost = live & ~r.cov()
            m &= ~lost
            t, f = I.truth(r, r.cov(), node)
            if t:
                for arr in (items, keys):
                    lo, hi = arr[j - 1], arr[j]
                    arr[j - 1], arr[j] = lo.write(hi, t), hi.write(lo, t)
            live = t
    if reverse:
        items.reverse()
    return [i.at(m) for i in items], m


def do_sort(I, seq, m, kw, node, kind='list'):
    key = kw.get('key')
    rev = kw.get('reverse')
    reverse = False
    if rev is not None:
        reverse = bool(rev.only().v)
    out = Seq(kind)
    tot = 0
    for ln, (pm, items) in seq.parts.items():
        w = pm & m
        if not w:
            continue
        its, w2 = sort_items(I, [i.at(w) for i in items], w, key, reverse,
                             node)
        if w2:
            add_part(out.parts, w2, its)
            tot |= w2
    return out, tot


def min_max(I, which, args, kw, m, node):
    if len(args) == 1:
        seq = I.to_list(args[0], m, node)
    else:
        c = m
        for a in args:
            c &= a.cov()
        seq = Seq('list', {len(args): (c, args)})
    key = kw.get('key')
    out = PV()
    for ln, (pm, items) in seq.parts.items():
        w = pm & m
        if not w:
            continue
        if ln == 0:
            if 'default' in kw:
                out.merge(kw['default'].at(w))
            else:
                I.raise_name('ValueError', w, node)
            continue
        best = items[0].at(w)
        kf = None if key is None or set(key.d) == {NONE} else key

        def keyof(v, mm):
            if kf is None:
                return v
            return I.call_pv(kf.at(mm), [v], {}, mm, node)
        bk = keyof(best, w)
        w &= bk.cov()
        for it in items[1:]:
            it = it.at(w)
            ik = keyof(it, w)
            w &= ik.cov()
            r = I.order_pv('Lt' if which == 'min' else 'Gt', ik.at(w),
                           bk.at(w), w, node)
            w &= r.cov()
            t, _ = I.truth(r, w, node)
            best = best.at(w).write(it, t)
            bk = bk.at(w).write(ik, t)
        out.merge(best.at(w))
    return out


def fraction_of(I, args, m, node):
    out = PV()
    if not args:
        return PV.of(Num(Rat.const(0)), m)
    if len(args) == 2:
        import ast as _ast
        return I.binop_pv(_ast.Div(), fraction_of(I, args[:1], m, node),
                          fraction_of(I, args[1:], m, node), m, node)
    for a, w in args[0].items():
        w &= m
        if isinstance(a, Num):
            out.add(a, w)
        elif isinstance(a, K) and type(a.v) in (int, bool):
            out.add(Num(Rat.const(int(a.v))), w)
        elif isinstance(a, K) and type(a.v) is float:
            if a.v - a.v == 0:
                out.add(Num(Rat.const(_F(a.v))), w)
            else:
                I.raise_name('ValueError', w, node)
        elif isinstance(a, (Opq,)) and 'scalar' in a.info:
            out.add(a, w)
        else:
            I.fail(f'Fraction({a!r})', node)
    return out


def identity_eq(a, b):
    return a == b


# ------------------------------------------------------------ method models
def call_method(I, f, args, kw, m, node):
    a, name = f.self, f.name
    if name.startswith('object.'):
        return object_method(I, a, name[7:], args, m, node)
    if name.startswith('seqmixin.'):
        meth = name[9:]
        if meth == '__iter__':
            return PV.of(to_iter(I, a, m, node), m)
        seq = I.to_list(PV.of(a, m), m, node)
        c = 0
        for pm, _ in seq.parts.values():
            c |= pm
        if meth == '__reversed__':
            return PV.of(list_iter(I, seq, True), c)
        return seq_method(I, seq, meth, args, kw, c, node)
    if isinstance(a, Seq):
        return seq_method(I, a, name, args, kw, m, node)
    if isinstance(a, SetO):
        return set_method(I, a, name, args, kw, m, node)
    if isinstance(a, DictO):
        return dict_method(I, a, name, args, kw, m, node)
    if isinstance(a, IterO):
        if name == '__next__':
            v, done = a.step(m)
            I.raise_name('StopIteration', done, node)
            return v
        if name == '__iter__':
            return PV.of(a, m)
    if isinstance(a, (K, Num)) and name in CMP:
        import ast as _ast
        return I.compare_atoms_multi(CMP[name](), a, args[0], m, node) \
            if hasattr(I, 'compare_atoms_multi') else _cmp_multi(
                I, CMP[name](), a, args[0], m, node)
    if isinstance(a, (K, Num)) and name in ARITH:
        return I.binop_pv(ARITH[name](), PV.of(a, m), args[0], m, node)
    if isinstance(a, K) and type(a.v) in (int, bool) and \
            name == 'bit_length':
        return PV.of(K(a.v.bit_length()), m)
    if isinstance(a, K) and isinstance(a.v, str):
        if all(isinstance(x, K) for v in args for x in v.d) and name not in (
                'join', 'format'):
            out = PV()
            combos = [((), m)]
            for v in args:
                combos = [(c + (x.v,), w & wx) for c, w in combos
                          for x, wx in v.items() if w & wx]
            for c, w in combos:
                r = getattr(a.v, name)(*c)
                if not isinstance(r, (str, int, bool)):
                    if unknown_method(I, 'str', name, m, node):
                        return PV()
                    I.fail(f'str.{name}', node)
                out.add(K(r), w)
            return out
        if name == 'join':
            seq = I.to_list(args[0], m, node)
            out = PV()
            for ln, (pm, items) in seq.parts.items():
                w = pm & m
                outs = [((), w)]
                for i, it in enumerate(items):
                    new = {}
                    for pre, ww in outs:
                        for x, wx in it.at(ww).items():
                            p = x.parts if isinstance(x, StrT) else (x.v,)
                            key = pre + ((a.v,) if i else ()) + p
                            new[key] = new.get(key, 0) | wx
                    outs = list(new.items())
                for pre, ww in outs:
                    st = StrT(pre)
                    out.add(K(''.join(st.parts)) if all(
                        isinstance(x, str) for x in st.parts) else st, ww)
            return out
        if name == 'format':
            return format_str(I, (a.v,), args, kw, m, node)
    if isinstance(a, StrT) and name == 'format':
        return format_str(I, a.parts, args, kw, m, node)
    if isinstance(a, RangeV):
        if name == '__iter__':
            return PV.of(range_iter(I, a.r), m)
        if name == '__len__':
            return PV.of(K(len(a.r)), m)
        if name == '__getitem__':
            return I.getitem_pv(PV.of(a, m), args[0], m, node)
        return seq_method(I, I.to_list(PV.of(a, m), m, node), name, args, kw,
                          m, node)
    I.fail(f'method {name} of {a!r}', node)


def percent_str(I, a, b, m, node):
    """``a % b`` of strings"""
    import re
    parts = a.parts if isinstance(a, StrT) else (a.v,)

    def field(x):
        if x.group(1) not in 'srdi%':
            I.fail('% formatting', node)
        return {'s': '{}', 'r': '{!r}', '%': '%'}.get(x.group(1), '{}')
    new = []
    for p in parts:
        if isinstance(p, str):
            if re.search(r'%[^srdi%]', p):
                I.fail('% formatting', node)
            p = re.sub('%(.)', field, p.replace('{', '{{')
                       .replace('}', '}}'))
        new.append(p)
    out = PV()
    if isinstance(b, Seq) and b.kind == 'tuple':
        for ln, (pm, items) in b.parts.items():
            if pm & m:
                out.merge(format_str(I, new, items, {}, pm & m, node))
        return out
    if isinstance(b, DictO):
        I.fail('% formatting', node)
    return format_str(I, new, [PV.of(b, m)], {}, m, node)


def format_str(I, fmt, args, kw, m, node):
    import string
    outs = [((), m)]
    auto = 0
    held = [p for p in fmt if not isinstance(p, str)]
    marks = {chr(0xe000 + j): p for j, p in enumerate(held)}
    back = {id(p): c for c, p in marks.items()}
    fmt = ''.join(p if isinstance(p, str) else back[id(p)] for p in fmt)

    def literal(text):
        parts = ()
        for c in text:
            parts += (marks.get(c, c),)
        return parts
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        lit = literal(lit) if marks else (lit,)
        outs = [(pre + lit, w) for pre, w in outs]
        if field is None:
            continue
        if spec:
            I.fail('format spec', node)
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            I.fail('format field', node)
        new = {}
        for pre, w in outs:
            for x, wx in v.at(w).items():
                for sa, ws in I.to_str(x, conv or 's', wx, node).items():
                    key = pre + (sa.parts if isinstance(sa, StrT)
                                 else (sa.v,))
                    new[key] = new.get(key, 0) | ws
        outs = list(new.items())
    out = PV()
    for pre, w in outs:
        st = StrT(pre)
        out.add(K(''.join(st.parts)) if all(isinstance(x, str)
                                            for x in st.parts) else st, w)
    return out


import ast as _ast  # noqa: E402
CMP = {'__lt__': _ast.Lt, '__le__': _ast.LtE, '__gt__': _ast.Gt,
       '__ge__': _ast.GtE, '__eq__': _ast.Eq, '__ne__': _ast.NotEq}
ARITH = {'__add__': _ast.Add, '__sub__': _ast.Sub, '__mul__': _ast.Mult,
         '__truediv__': _ast.Div, '__floordiv__': _ast.FloorDiv,
         '__mod__': _ast.Mod, '__and__': _ast.BitAnd, '__or__': _ast.BitOr,
         '__xor__': _ast.BitXor}


def _cmp_multi(I, op, a, pv, m, node):
    out = PV()
    for b, w in pv.items():
        w &= m
        if w:
            out.merge(I.compare_atoms(op, a, b, w, node))
    return out


def object_method(I, a, name, args, m, node):
    if name == '__eq__':
        out = PV()
        for b, w in args[0].items():
            w &= m
            if a == b:
                out.add(K(True), w)
            else:
                out.add(NOT_IMPLEMENTED, w)
        return out
    if name == '__ne__':
        t, f = I.eq_pv(PV.of(a, m), args[0], m, node)
        return pv_bool(f, t)
    if name == '__hash__':
        return PV.of(Term('id', [PV.of(a, m)]), m)
    if name in ('__repr__', '__str__'):
        return PV.of(StrT((('objrepr', a),)), m)
    I.fail(f'object.{name}', node)


def unknown_method(I, kind, name, m, node):
    """a name no built-in container of the kind has"""
    import collections
    cls = {'deque': collections.deque}.get(kind) or getattr(_b, kind, None)
    if cls is None or hasattr(cls, name):
        return False
    I.raise_name('AttributeError', m, node)
    return True


def seq_method(I, a, name, args, kw, m, node):
    if name in CMP:
        out = PV()
        for b, w in args[0].items():
            w &= m
            if isinstance(b, Seq) and b.kind == a.kind:
                out.merge(I.compare_atoms(CMP[name](), a, b, w, node))
            else:
                out.add(NOT_IMPLEMENTED, w)
        return out
    if name == '__len__':
        return length(I, a, m, node)
    if name == '__getitem__':
        return I.getitem_pv(PV.of(a, m), args[0], m, node)
    if name == '__setitem__':
        ok = setitem(I, a, args[0], args[1], m, node)
        return PV.of(NONE, ok)
    if name == '__iter__':
        return PV.of(list_iter(I, a), m)
    if name == '__reversed__':
        return PV.of(list_iter(I, a, True), m)
    if name == '__hash__':
        return PV.of(Term('hash', [PV.of(a, m)]), m)
    if name == '__contains__':
        t = f = 0
        for x, w in args[0].items():
            t1, f1 = I.contains(a, x, w & m, node)
            t |= t1
            f |= f1
        return pv_bool(t, f)
    if name == '__add__':
        return I.binop_pv(_ast.Add(), PV.of(a, m), args[0], m, node)
    if name == 'copy':
        c = Seq(a.kind)
        for ln, (pm, its) in a.parts.items():
            if pm & m:
                c.parts[ln] = (pm & m, [x.at(m) for x in its])
        return PV.of(c, m)
    if name in ('index', 'count'):
        x = args[0]
        lo = args[1] if len(args) > 1 else PV.of(K(0), m)
        hi = args[2] if len(args) > 2 else PV.of(NONE, m)
        out = PV()
        for ln, (pm, items) in a.parts.items():
            for lo_, wl in lo.items():
                for hi_, wh in hi.items():
                    w = pm & m & wl & wh
                    if not w:
                        continue
                    rng = range(*slice(lo_.v, hi_.v).indices(ln))
                    if name == 'count':
                        rng = range(ln)
                    hits = []
                    rem = w
                    for i in rng:
                        if not rem:
                            break
                        t = f = 0
                        for p, wp in items[i].items():
                            for q, wq in x.items():
                                ww = wp & wq & rem
                                if ww:
                                    t1, f1 = I.is_or_eq(p, q, ww, node)
                                    t |= t1
                                    f |= f1
                        lost = rem & ~(t | f)
                        rem &= ~lost
                        w &= ~lost
                        hits.append(t)
                        if name == 'index':
                            out.add(K(i), t)
                            rem &= ~t
                    if name == 'index':
                        I.raise_name('ValueError', rem, node)
                    else:
                        out.merge(count_masks(w, hits))
        return out
    if a.kind == 'tuple':
        if unknown_method(I, 'tuple', name, m, node):
            return PV()
        I.fail(f'tuple.{name}', node)
    if name == 'append':
        list_append(I, a, args[0], m)
        return PV.of(NONE, m)
    if name == 'appendleft':
        transform(a, m, lambda ln, its, w: [args[0].at(w)] + its)
        return PV.of(NONE, m)
    if name == 'extend':
        seq = I.to_list(args[0], m, node)
        c = 0
        for pm, _ in seq.parts.values():
            c |= pm
        list_extend(I, a, seq, c)
        return PV.of(NONE, c)
    if name == 'insert':
        for i, w in args[0].items():
            w &= m
            if w:
                def fn(ln, its, mm, k=i.v):
                    its = list(its)
                    its.insert(k, args[1].at(mm))
                    return its
                transform(a, w, fn)
        return PV.of(NONE, m)
    if name == 'rotate' and a.kind == 'deque':
        for i, w in (args[0].items() if args else [(K(1), m)]):
            k = norm_index(I, i, node)

            def turn(ln, its, w, k=k):
                j = -k % len(its) if its else 0
                return its[j:] + its[:j]
            transform(a, w & m, turn)
        return PV.of(NONE, m)
    if name in ('pop', 'popleft'):
        idx = args[0] if args else PV.of(K(0 if name == 'popleft' else -1),
                                         m)
        out = PV()
        for i, w in idx.items():
            w &= m
            k = norm_index(I, i, node)
            for ln, (pm, items) in list(a.parts.items()):
                ww = pm & w
                if not ww:
                    continue
                if -ln <= k < ln:
                    out.merge(items[k].at(ww))
                    j = k % ln
                    # done below, one pass per original length
                else:
                    I.raise_name('IndexError', ww, node)
            okm = w & out.cov()
            transform(a, okm, lambda ln, its, mm: its[:k % ln]
                      + its[k % ln + 1:])
        return out
    if name == 'reverse':
        transform(a, m, lambda ln, its, w: its[::-1])
        return PV.of(NONE, m)
    if name == 'clear':
        transform(a, m, lambda ln, its, w: [])
        return PV.of(NONE, m)
    if name == 'remove':
        ix = seq_method(I, a, 'index', args, {}, m, node)
        c = ix.cov()
        for i, w in ix.items():
            transform(a, w, lambda ln, its, mm, k=i.v: its[:k] + its[k + 1:])
        return PV.of(NONE, c)
    if name == 'sort':
        s, tot = do_sort(I, a, m, kw, node)
        for ln in list(a.parts):
            pm, its = a.parts[ln]
            rest = pm & ~tot
            if rest:
                a.parts[ln] = (rest, [x.at(rest) for x in its])
            else:
                del a.parts[ln]
        for ln, (pm, its) in s.parts.items():
            add_part(a.parts, pm, its)
        return PV.of(NONE, tot)
    if unknown_method(I, a.kind, name, m, node):
        return PV()
    I.fail(f'{a.kind}.{name}', node)


def set_method(I, a, name, args, kw, m, node):
    if name == 'add':
        set_add(I, a, args[0], m, node)
        return PV.of(NONE, m)
    if name == 'pop':
        out = PV()
        rem = m
        for e in a.items:
            w = rem & e[1]
            if w:
                out.merge(e[0].at(w))
                e[1] &= ~w
                rem &= ~w
        I.raise_name('KeyError', rem, node)
        return out
    if name in ('discard', 'remove'):
        rem = m
        for e in a.items:
            w = rem & e[1]
            if w:
                t, _ = I.eq_pv(args[0].at(w), e[0].at(w), w, node)
                e[1] &= ~t
                rem &= ~t
        if name == 'remove':
            I.raise_name('KeyError', rem, node)
            return PV.of(NONE, m & ~rem)
        return PV.of(NONE, m)
    if name == 'update':
        for x in args:
            seq = I.to_list(x, m, node)
            for ln, (pm, items) in seq.parts.items():
                for it in items:
                    set_add(I, a, it, pm & m, node)
        return PV.of(NONE, m)
    if name in ('union', 'intersection', 'difference', 'copy',
                'symmetric_difference'):
        out = SetO(a.kind)
        for pv, pm in a.items:
            if pm & m:
                out.items.append([pv.at(m), pm & m])
        for x in args:
            other = make_set(I, x, m, node, 'set').only()
            out = set_op(I, {'union': 'BitOr', 'intersection': 'BitAnd',
                             'difference': 'Sub',
                             'symmetric_difference': 'BitXor'}[name], out,
                         other, m, node)
        return PV.of(out, m)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        other = make_set(I, args[0], m, node, 'set').only()
        if name == 'isdisjoint':
            t = m
            for pv, pm in a.items:
                w = t & pm
                if w:
                    t &= ~I.set_has(other, pv.at(w), w, node)
            return pv_bool(t, m & ~t)
        return I.order_atoms('LtE' if name == 'issubset' else 'GtE', a,
                             other, m, node)
    if name == '__len__':
        return length(I, a, m, node)
    if name == '__contains__':
        t = I.set_has(a, args[0], m, node)
        return pv_bool(t, m & ~t)
    if name == '__hash__':
        return PV.of(Term('hash', [PV.of(a, m)]), m)
    if name == '__iter__':
        return PV.of(to_iter(I, a, m, node), m)
    if name == 'clear':
        for e in a.items:
            e[1] &= ~m
        return PV.of(NONE, m)
    if unknown_method(I, 'set', name, m, node):
        return PV()
    I.fail(f'set.{name}', node)


def set_op(I, op, a, b, m, node):
    out = SetO(a.kind)
    for pv, pm in a.items:
        w = pm & m
        if not w:
            continue
        has = I.set_has(b, pv.at(w), w, node)
        keep = {'BitOr': w, 'BitAnd': has, 'Sub': w & ~has,
                'BitXor': w & ~has}[op]
        if keep:
            out.items.append([pv.at(keep), keep])
    if op in ('BitOr', 'BitXor'):
        for pv, pm in b.items:
            w = pm & m
            if not w:
                continue
            has = I.set_has(a, pv.at(w), w, node)
            keep = w & ~has
            if keep:
                out.items.append([pv.at(keep), keep])
    return out


def dict_method(I, a, name, args, kw, m, node):
    if name in ('get', 'pop', 'setdefault'):
        out = PV()
        rem = m
        for e in a.items:
            w = rem & e[2]
            if w:
                t, _ = I.eq_pv(args[0].at(w), e[0].at(w), w, node)
                out.merge(e[1].at(t))
                if name == 'pop':
                    e[2] &= ~t
                rem &= ~t
        if rem:
            if len(args) > 1:
                out.merge(args[1].at(rem))
            elif name == 'pop':
                I.raise_name('KeyError', rem, node)
                return out
            else:
                out.merge(PV.of(NONE, rem))
            if name == 'setdefault':
                dict_set(I, a, args[0].at(rem), out.at(rem), rem, node)
        return out
    if name in ('keys', 'values', 'items'):
        seq = Seq('list', {0: (m, [])})
        for k, v, pm in a.items:
            w = pm & m
            if w:
                if name == 'keys':
                    x = k.at(w)
                elif name == 'values':
                    x = v.at(w)
                else:
                    x = PV.of(Seq('tuple', {2: (w, [k.at(w), v.at(w)])}), w)
                list_append(I, seq, x, w)
        return PV.of(seq, m)
    if name == '__getitem__':
        return I.getitem_pv(PV.of(a, m), args[0], m, node)
    if name == '__setitem__':
        dict_set(I, a, args[0], args[1], m, node)
        return PV.of(NONE, m)
    if name == '__contains__':
        out = PV()
        for x, w in args[0].items():
            out.merge(pv_bool(*I.contains(a, x, w & m, node)))
        return out
    if name == '__len__':
        return length(I, a, m, node)
    if name == 'clear':
        for e in a.items:
            e[2] &= ~m
        return PV.of(NONE, m)
    if name == 'popitem':
        out = PV()
        rem = m
        for e in reversed(a.items):
            w = rem & e[2]
            if w:
                out.merge(PV.of(Seq('tuple', {2: (w, [e[0].at(w),
                                                      e[1].at(w)])}), w))
                e[2] &= ~w
                rem &= ~w
        I.raise_name('KeyError', rem, node)
        return out
    if name == 'update':
        for k, v in kw.items():
            dict_set(I, a, PV.of(K(k), m), v.at(m), m, node)
        for x in args:
            for b, w in x.items():
                if isinstance(b, Obj) and '_d' in b.attrs:
                    dict_method(I, a, 'update', [b.attrs['_d'].at(w)], {}, w,
                                node)
                    continue
                if not isinstance(b, DictO):
                    b = make_dict(I, PV.of(b, w & m), w & m, node).only()
                for k, v, pm in b.items:
                    dict_set(I, a, k.at(w), v.at(w), pm & w & m, node)
        return PV.of(NONE, m)
    if name == 'copy':
        d = DictO()
        d.items = [[k, v, pm & m] for k, v, pm in a.items if pm & m]
        return PV.of(d, m)
    if unknown_method(I, 'dict', name, m, node):
        return PV()
    I.fail(f'dict.{name}', node)


def container_binop(I, name, a, b, m, node):
    if isinstance(a, Seq) and isinstance(b, Seq) and name == 'Add' and \
            a.kind == b.kind:
        out = Seq(a.kind)
        tot = 0
        for la, (ma, ia) in a.parts.items():
            for lb, (mb, ib) in b.parts.items():
                w = ma & mb & m
                if w:
                    add_part(out.parts, w, ia + ib)
                    tot |= w
        return PV.of(out, tot)
    for s, k in ((a, b), (b, a)):
        if isinstance(s, Seq) and isinstance(k, K) and type(k.v) is int and \
                name == 'Mult':
            out = Seq(s.kind)
            tot = 0
            for ln, (pm, its) in s.parts.items():
                w = pm & m
                if w:
                    add_part(out.parts, w, its * k.v)
                    tot |= w
            return PV.of(out, tot)
    if isinstance(a, DictO) and isinstance(b, DictO) and name == 'BitOr':
        d = dict_method(I, a, 'copy', [], {}, m, node)
        for x, w in d.items():
            dict_method(I, x, 'update', [PV.of(b, w)], {}, w, node)
        return d
    if isinstance(a, SetO) and isinstance(b, SetO) and name in (
            'BitOr', 'BitAnd', 'Sub', 'BitXor'):
        return PV.of(set_op(I, name, a, b, m, node), m)
    if name == 'Mod' and isinstance(getattr(a, 'v', ''), str) and isinstance(
            a, (K, StrT)):
        I.fail('% formatting', node)
    if isinstance(a, (K, StrT)) and isinstance(b, (K, StrT)) and \
            name == 'Add':
        pa = a.parts if isinstance(a, StrT) else (a.v,)
        pb = b.parts if isinstance(b, StrT) else (b.v,)
        return PV.of(StrT(pa + pb), m)
    if isinstance(a, (Opq, Term, Ext)) or isinstance(b, (Opq, Term, Ext)):
        if I.loading and isinstance(a, (Ext, ClassV)):
            return PV.of(Ext('union'), m)
        I.fail(f'operator {name} on {a!r}, {b!r}', node)
    if I.loading and isinstance(a, (Ext, ClassV)):
        return PV.of(Ext('union'), m)
    I.raise_name('TypeError', m, node)
    return PV()


# ------------------------------------------------------------ external names
def call_ext(I, f, args, kw, m, node):
    name = f.name
    mod = I.ext_models.get(name)
    if mod is not None:
        return mod(I, args, kw, m, node)
    fn = EXT.get(name)
    if fn is not None:
        return fn(I, args, kw, m, node)
    short = name.split('.')[-1]
    if name.startswith('builtins.') and is_exc_name(short):
        return PV.of(ExcV(short, tuple(args)), m)
    if name.endswith('.__new__'):
        cls = args[0].only()
        if isinstance(cls, ClassV):
            return PV.of(Obj(cls), m)
    if name.endswith('.__init__') or name.endswith('.__init_subclass__'):
        return PV.of(NONE, m)
    if I.loading:
        if name == 'enum.auto':
            return PV.of(Term('enum.auto', []), m)
        return PV.of(Ext(name + '()'), m)
    if short in CMP and args and isinstance(args[0].only(), (Num, K)):
        pass
    I.fail(f'call of external {name}', node)


def ext(name):
    def deco(fn):
        for n in name.split():
            EXT[n] = fn
        return fn
    return deco


EXT = {}


@ext('builtins.len')
def _len(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        if w & m:
            out.merge(length(I, a, w & m, node))
    return out


@ext('builtins.bool')
def _bool(I, args, kw, m, node):
    if not args:
        return PV.of(K(False), m)
    return pv_bool(*I.truth(args[0], m, node))


@ext('builtins.int')
def _int(I, args, kw, m, node):
    if not args:
        return PV.of(K(0), m)
    out = PV()
    for a, w in args[0].items():
        w &= m
        if isinstance(a, K) and isinstance(a.v, (int, bool)):
            out.add(K(int(a.v)), w)
        elif isinstance(a, EnumM) and a.cls.int_enum:
            out.merge(a.value.at(w))
        elif isinstance(a, K) and isinstance(a.v, str):
            try:
                out.add(K(int(a.v)), w)
            except ValueError:
                I.raise_name('ValueError', w, node)
        elif isinstance(a, Num):
            I.lose('int()', w, node)
            out.add(a, w)
        elif isinstance(a, (K, Seq, SetO, DictO)):
            I.raise_name('TypeError', w, node)
        else:
            I.fail(f'int({a!r})', node)
    return out


@ext('builtins.float')
def _float(I, args, kw, m, node):
    if not args:
        return PV.of(K(0.0), m)
    out = PV()
    for a, w in args[0].items():
        w &= m
        if isinstance(a, K) and isinstance(a.v, (int, float, str)):
            try:
                out.add(K(float(a.v)), w)
            except ValueError:
                I.raise_name('ValueError', w, node)
        elif isinstance(a, Num):
            I.lose('float()', w, node)
            out.add(a, w)
        elif isinstance(a, (K, Seq, SetO, DictO)):
            I.raise_name('TypeError', w, node)
        else:
            I.fail(f'float({a!r})', node)
    return out


@ext('builtins.abs')
def _abs(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        w &= m
        if isinstance(a, K):
            out.add(K(abs(a.v)), w)
        elif isinstance(a, Num):
            p, z, n = I.sign(a.r, w, node)
            out.add(a, p | z)
            out.add(Num(-a.r), n)
        else:
            I.fail('abs', node)
    return out


@ext('builtins.min')
def _min(I, args, kw, m, node):
    return min_max(I, 'min', args, kw, m, node)


@ext('builtins.max')
def _max(I, args, kw, m, node):
    return min_max(I, 'max', args, kw, m, node)


@ext('builtins.sorted')
def _sorted(I, args, kw, m, node):
    seq = I.to_list(args[0], m, node)
    s, tot = do_sort(I, seq, m, kw, node)
    return PV.of(s, tot)


@ext('builtins.list')
def _list(I, args, kw, m, node):
    if not args:
        return PV.of(Seq('list', {0: (m, [])}), m)
    s = I.to_list(args[0], m, node)
    return _seq(s)


def _seq(s):
    c = 0
    for pm, _ in s.parts.values():
        c |= pm
    return PV.of(s, c)


@ext('builtins.tuple')
def _tuple(I, args, kw, m, node):
    if not args:
        return PV.of(Seq('tuple', {0: (m, [])}), m)
    return _seq(I.to_list(args[0], m, node, 'tuple'))


@ext('collections.deque')
def _deque(I, args, kw, m, node):
    if not args:
        return PV.of(Seq('deque', {0: (m, [])}), m)
    return _seq(I.to_list(args[0], m, node, 'deque'))


@ext('builtins.set')
def _set(I, args, kw, m, node):
    if not args:
        return PV.of(SetO('set'), m)
    return make_set(I, args[0], m, node, 'set')


@ext('builtins.frozenset')
def _fset(I, args, kw, m, node):
    if not args:
        return PV.of(SetO('frozenset'), m)
    return make_set(I, args[0], m, node, 'frozenset')


@ext('builtins.dict')
def _dict(I, args, kw, m, node):
    if args:
        for a, w in args[0].items():
            if isinstance(a, Obj) and '_d' in a.attrs:
                return _dict(I, [a.attrs['_d'].at(w & m)], kw, m, node)
            if isinstance(a, DictO):
                r = dict_method(I, a, 'copy', [], {}, m, node)
                break
        else:
            r = make_dict(I, args[0], m, node)
        for k, v in kw.items():
            for d, w in r.items():
                dict_set(I, d, PV.of(K(k), w), v.at(w), w, node)
        return r
    d = DictO()
    for k, v in kw.items():
        d.items.append([PV.of(K(k), m), v, m])
    return PV.of(d, m)


@ext('builtins.dict.fromkeys')
def _fromkeys(I, args, kw, m, node):
    d = DictO()
    value = args[1] if len(args) > 1 else PV.of(NONE, m)
    it = I.iterate_pv(args[0], m, node)
    live = m
    for _ in range(I.MAX_ITER):
        v, done = it.step(live)
        live = v.cov()
        if not live:
            break
        dict_set(I, d, v, value.at(live), live, node)
    return PV.of(d, m)


@ext('builtins.range')
def _range(I, args, kw, m, node):
    out = PV()
    combos = [((), m)]
    for v in args:
        combos = [(c + (norm_index(I, x, node),), w & wx) for c, w in combos
                  for x, wx in v.items() if w & wx]
    for c, w in combos:
        if None in c:
            I.fail('range over non-constant', node)
        out.add(RangeV(range(*c)), w)
    return out


@ext('builtins.enumerate')
def _enumerate(I, args, kw, m, node):
    it = I.iterate_pv(args[0], m, node)
    start = args[1] if len(args) > 1 else kw.get('start')
    start = 0 if start is None else start.only().v
    cnt = {start: I.full}

    def step(mm):
        v, done = it.step(mm)
        live = v.cov()
        idx = PV()
        new = {}
        for k, w in cnt.items():
            a, b = w & live, w & ~live
            idx.add(K(k), a)
            if a:
                new[k + 1] = new.get(k + 1, 0) | a
            if b:
                new[k] = new.get(k, 0) | b
        cnt.clear()
        cnt.update(new)
        if not live:
            return PV(), done
        return PV.of(Seq('tuple', {2: (live, [idx, v])}), live), done
    return PV.of(IterO(step), m)


@ext('builtins.zip')
def _zip(I, args, kw, m, node):
    its = [I.iterate_pv(a, m, node) for a in args]
    strict = 'strict' in kw and kw['strict'].only().v

    def step(mm):
        vals, done = [], 0
        live = mm
        for i, it in enumerate(its):
            v, d = it.step(live)
            if strict and d and i:
                I.raise_name('ValueError', d, node)
                d = 0
            done |= d
            live = v.cov()
            vals.append(v)
        if not live:
            return PV(), done
        return PV.of(Seq('tuple', {len(its): (
            live, [v.at(live) for v in vals])}), live), done
    if not its:
        return PV.of(IterO(lambda mm: (PV(), mm)), m)
    return PV.of(IterO(step), m)


@ext('builtins.map')
def _map(I, args, kw, m, node):
    fn = args[0]
    its = [I.iterate_pv(a, m, node) for a in args[1:]]

    def step(mm):
        vals, done = [], 0
        live = mm
        for it in its:
            v, d = it.step(live)
            done |= d
            live = v.cov()
            vals.append(v)
        if not live:
            return PV(), done
        return I.call_pv(fn.at(live), [v.at(live) for v in vals], {}, live,
                         node), done
    return PV.of(IterO(step), m)


def _filter_step(I, fn, it, node, keep_true=True):
    def step(mm):
        out, done = PV(), 0
        live = mm
        for _ in range(I.MAX_ITER):
            if not live:
                break
            v, d = it.step(live)
            done |= d
            live = v.cov()
            if not live:
                break
            if fn is None:
                r = v
            else:
                r = I.call_pv(fn.at(live), [v], {}, live, node)
            live = r.cov()
            t, f = I.truth(r, live, node)
            if not keep_true:
                t, f = f, t
            out.merge(v.at(t))
            live = f
        return out, done
    return IterO(step)


@ext('builtins.filter itertools.filterfalse')
def _filter(I, args, kw, m, node):
    fn = args[0]
    if set(fn.d) == {NONE}:
        fn = None
    return PV.of(_filter_step(I, fn, I.iterate_pv(args[1], m, node), node),
                 m)


def _filterfalse(I, args, kw, m, node):
    fn = args[0]
    if set(fn.d) == {NONE}:
        fn = None
    return PV.of(_filter_step(I, fn, I.iterate_pv(args[1], m, node), node,
                              False), m)


EXT['itertools.filterfalse'] = _filterfalse


def _anyall(I, args, m, node, want):
    it = I.iterate_pv(args[0], m, node)
    live = m
    hit = fin = 0
    for _ in range(I.MAX_ITER):
        if not live:
            break
        v, done = it.step(live)
        fin |= done
        live = v.cov()
        t, f = I.truth(v, live, node)
        if want:
            hit |= t
            live = f
        else:
            hit |= f
            live = t
    return (pv_bool(hit, fin) if want else pv_bool(fin, hit))


@ext('builtins.any')
def _any(I, args, kw, m, node):
    return _anyall(I, args, m, node, True)


@ext('builtins.all')
def _all(I, args, kw, m, node):
    return _anyall(I, args, m, node, False)


@ext('builtins.sum')
def _sum(I, args, kw, m, node):
    seq = I.to_list(args[0], m, node)
    out = PV()
    start = args[1] if len(args) > 1 else kw.get('start', PV.of(K(0), m))
    for ln, (pm, items) in seq.parts.items():
        w = pm & m
        acc = start.at(w)
        for it in items:
            acc = I.binop_pv(_ast.Add(), acc, it.at(w), w, node)
            w = acc.cov()
        out.merge(acc)
    return out


@ext('builtins.iter')
def _iter(I, args, kw, m, node):
    if len(args) != 1:
        def step(mm):
            v = I.call_pv(args[0].at(mm), [], {}, mm, node)
            t, f = I.eq_pv(v, args[1].at(v.cov()), v.cov(), node)
            return v.at(f), t
        return PV.of(IterO(step), m)
    return PV.of(I.iterate_pv(args[0], m, node), m)


@ext('builtins.next')
def _next(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        w &= m
        if not w:
            continue
        if isinstance(a, Obj) and a.cls.lookup('__next__')[0] is not None:
            a = next_iter(I, a, node)
        if not isinstance(a, IterO):
            if isinstance(a, (Seq, SetO, DictO, K, Num, Obj)):
                I.raise_name('TypeError', w, node)
                continue
            I.fail(f'next({a!r})', node)
        v, done = a.step(w)
        out.merge(v)
        if len(args) > 1:
            out.merge(args[1].at(done))
        else:
            I.raise_name('StopIteration', done, node)
    return out


@ext('builtins.reversed')
def _reversed(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        w &= m
        if isinstance(a, Seq):
            out.add(list_iter(I, a, True), w)
        elif isinstance(a, Obj) and a.cls.lookup('__reversed__')[0] \
                is not None:
            out.merge(I.call_method(a, '__reversed__', [], w, node))
        else:
            seq = I.to_list(PV.of(a, w), w, node)
            out.add(list_iter(I, seq, True), w)
    return out


@ext('builtins.isinstance')
def _isinstance(I, args, kw, m, node):
    t = 0
    for a, wa in args[0].items():
        for c, wc in args[1].items():
            w = wa & wc & m
            if w and I.isinstance_atom(a, c):
                t |= w
    return pv_bool(t, m & ~t)


@ext('builtins.issubclass')
def _issubclass(I, args, kw, m, node):
    t = 0
    for a, wa in args[0].items():
        for c, wc in args[1].items():
            w = wa & wc & m
            if w:
                cs = [c] if not isinstance(c, Seq) else [
                    i.only() for _, its in c.parts.values() for i in its]
                if any(x in a.mro for x in cs):
                    t |= w
    return pv_bool(t, m & ~t)


@ext('builtins.type')
def _type(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        w &= m
        if w:
            out.add(I.type_of(a), w)
    return out


@ext('builtins.callable')
def _callable(I, args, kw, m, node):
    t = 0
    for a, w in args[0].items():
        if isinstance(a, (FuncV, Bound, ClassV, BuiltinM, PyFn)) or (
                isinstance(a, Obj) and a.cls.lookup('__call__')[0]
                is not None) or (isinstance(a, Ext) and callable(
                    getattr(_b, a.name.split('.')[-1], None))):
            t |= w & m
    return pv_bool(t, m & ~t)


@ext('builtins.getattr')
def _getattr(I, args, kw, m, node):
    out = PV()
    for n, wn in args[1].items():
        for a, wa in args[0].items():
            w = wn & wa & m
            if w:
                out.merge(I.getattr_atom(a, n.v, w, node,
                                         args[2] if len(args) > 2 else None))
    return out


@ext('builtins.hasattr')
def _hasattr(I, args, kw, m, node):
    t = 0
    for n, wn in args[1].items():
        for a, wa in args[0].items():
            w = wn & wa & m
            if w:
                I.handlers.append([])
                r = I.getattr_atom(a, n.v, w, node)
                I.handlers.pop()
                t |= r.cov()
    return pv_bool(t, m & ~t)


@ext('builtins.setattr builtins.object.__setattr__')
def _setattr(I, args, kw, m, node):
    for n, wn in args[1].items():
        for a, wa in args[0].items():
            w = wn & wa & m
            if w:
                I.setattr_atom(a, n.v, args[2].at(w), w, node)
    return PV.of(NONE, m)


@ext('builtins.hash')
def _hash(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        w &= m
        if not w:
            continue
        if isinstance(a, Obj) or isinstance(a, EnumM):
            fn, owner = a.cls.lookup('__hash__')
            if fn is not None:
                out.merge(I.call_method(a, '__hash__', [], w, node))
                continue
            eq, _ = a.cls.lookup('__eq__')
            if eq is not None:
                I.raise_name('TypeError', w, node)
                continue
            out.add(Term('id', [PV.of(a, w)]), w)
        elif isinstance(a, (Seq, SetO, DictO)):
            if getattr(a, 'kind', 'dict') in ('list', 'set', 'deque',
                                              'dict'):
                I.raise_name('TypeError', w, node)
            else:
                out.add(Term('hash', [PV.of(a, w)]), w)
        else:
            out.add(Term('hash', [PV.of(a, w)]), w)
    return out


@ext('builtins.id')
def _id(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        out.add(Term('id', [PV.of(a, w & m)]), w & m)
    return out


@ext('builtins.repr')
def _repr(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        if w & m:
            out.merge(I.to_str(a, 'r', w & m, node))
    return out


@ext('builtins.str')
def _str(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        if w & m:
            out.merge(I.to_str(a, 's', w & m, node))
    return out


@ext('builtins.slice')
def _slice(I, args, kw, m, node):
    vals = list(args)
    if len(vals) == 1:
        vals = [PV.of(NONE, m)] + vals
    while len(vals) < 3:
        vals.append(PV.of(NONE, m))
    out = PV()
    for a, wa in vals[0].items():
        for b, wb in vals[1].items():
            for c, wc in vals[2].items():
                out.add(SliceV(a, b, c), wa & wb & wc & m)
    return out


@ext('builtins.divmod')
def _divmod(I, args, kw, m, node):
    q = I.binop_pv(_ast.FloorDiv(), args[0], args[1], m, node)
    r = I.binop_pv(_ast.Mod(), args[0], args[1], m, node)
    c = q.cov() & r.cov()
    return PV.of(Seq('tuple', {2: (c, [q.at(c), r.at(c)])}), c)


@ext('builtins.object')
def _object(I, args, kw, m, node):
    return PV.of(Opq('object()'), m)


@ext('builtins.property')
def _property(I, args, kw, m, node):
    return PV.of(Wrapped('property', args[0].only()), m)


@ext('builtins.print')
def _print(I, args, kw, m, node):
    return PV.of(NONE, m)


@ext('itertools.chain')
def _chain(I, args, kw, m, node):
    return PV.of(chain_iter([I.iterate_pv(a, m, node) for a in args]), m)


def chain_iter(its):
    fin = [0] * len(its)

    def step(mm):
        out, done = PV(), mm
        live = mm
        for i, it in enumerate(its):
            w = live & ~fin[i]
            if w:
                v, d = it.step(w)
                out.merge(v)
                fin[i] |= d
                live &= ~(w & ~d)
        return out, live
    return IterO(step)


@ext('itertools.chain.from_iterable')
def _chain_from(I, args, kw, m, node):
    outer = I.iterate_pv(args[0], m, node)
    inner = []               # [worlds inside it, iterator]

    def step(mm):
        out, done, todo = PV(), 0, mm
        while todo:
            for ent in inner:
                w = ent[0] & todo
                if w:
                    v, d = ent[1].step(w)
                    out.merge(v)
                    ent[0] &= ~(d | (w & ~v.cov()))
                    todo &= ~(w & ~d)
            inner[:] = [e for e in inner if e[0]]
            if todo:
                v, d = outer.step(todo)
                done |= d
                todo = v.cov()
                for a, w in v.items():
                    inner.append([w, I.iterate(a, w, node)])
        return out, done
    return PV.of(IterO(step), m)


@ext('itertools.repeat')
def _repeat(I, args, kw, m, node):
    if len(args) > 1:
        parts = {}
        for a, w in args[1].items():
            w &= m
            if w:
                n = max(a.v, 0)
                old = parts.get(n, (0,))[0]
                parts[n] = (old | w, [args[0].at(old | w)] * n)
        return PV.of(list_iter(I, Seq('list', parts)), m)
    return PV.of(IterO(lambda mm: (args[0].at(mm), 0)), m)


@ext('itertools.count')
def _count(I, args, kw, m, node):
    start = args[0] if args else kw.get('start', PV.of(K(0), m))
    by = args[1] if len(args) > 1 else kw.get('step', PV.of(K(1), m))
    cur = [start.at(m)]

    def step(mm):
        out = cur[0].at(mm)
        new = cur[0].at(cur[0].cov() & ~mm)
        cur[0] = PV(dict(new.d)).merge(
            I.binop_pv(_ast.Add(), out, by.at(mm), mm, node))
        return out, 0
    return PV.of(IterO(step), m)


@ext('itertools.islice')
def _islice(I, args, kw, m, node):
    """lazy for (stop) and (start, stop), as far as the source is consumed"""
    combos = [((), m)]
    for v in args[1:]:
        combos = [(c + (x.v,), w & wx) for c, w in combos
                  for x, wx in v.items() if w & wx]
    it = I.iterate_pv(args[0], m, node)
    out = Seq('list')
    for bounds, mm in combos:
        sl = slice(*bounds)
        if sl.stop is None:
            seq = I.to_list(PV.of(it, mm), mm, node)
            r = getitem(I, seq, SliceV(K(sl.start), K(None), K(sl.step)), mm,
                        node)
            for ln, (pm, its) in r.only().parts.items():
                add_part(out.parts, pm & mm, its)
            continue
        cols, live = [], mm
        parts = []
        for _ in range(sl.stop):
            v, done = it.step(live)
            if done:
                parts.append((done, [c.at(done) for c in cols]))
            live = v.cov()
            if not live:
                break
            cols.append(v)
        if live:
            parts.append((live, [c.at(live) for c in cols]))
        for pm, its in parts:
            add_part(out.parts, pm, its[sl])
    return PV.of(list_iter(I, out), m)


@ext('itertools.pairwise')
def _pairwise(I, args, kw, m, node):
    seq = I.to_list(args[0], m, node)
    out = Seq('list')
    for ln, (pm, items) in seq.parts.items():
        its = [PV.of(Seq('tuple', {2: (pm, [a, b])}), pm)
               for a, b in zip(items, items[1:])]
        add_part(out.parts, pm, its)
    return PV.of(list_iter(I, out), m)


@ext('itertools.takewhile')
def _takewhile(I, args, kw, m, node):
    it = I.iterate_pv(args[1], m, node)
    stopped = [0]

    def step(mm):
        fin = mm & stopped[0]
        live = mm & ~stopped[0]
        if not live:
            return PV(), fin
        v, d = it.step(live)
        r = I.call_pv(args[0].at(v.cov()), [v], {}, v.cov(), node)
        t, f = I.truth(r, r.cov(), node)
        stopped[0] |= f
        return v.at(t), d | f | fin
    return PV.of(IterO(step), m)


@ext('functools.reduce')
def _reduce(I, args, kw, m, node):
    seq = I.to_list(args[1], m, node)
    out = PV()
    for ln, (pm, items) in seq.parts.items():
        w = pm & m
        if not w:
            continue
        items = list(items)
        if len(args) > 2:
            acc = args[2].at(w)
        elif items:
            acc = items.pop(0).at(w)
        else:
            I.raise_name('TypeError', w, node)
            continue
        for it in items:
            acc = I.call_pv(args[0].at(w), [acc, it.at(w)], {}, w, node)
            w = acc.cov()
        out.merge(acc)
    return out


@ext('functools.partial')
def _partial(I, args, kw, m, node):
    fn, pre = args[0], args[1:]

    def call(I2, a2, kw2, mm, nd):
        k = {x: v.at(mm) for x, v in kw.items()}
        k.update(kw2)
        return I2.call_pv(fn.at(mm), [p.at(mm) for p in pre] + a2, k, mm, nd)
    return PV.of(PyFn('partial', call), m)


@ext('operator.attrgetter')
def _attrgetter(I, args, kw, m, node):
    names = [a.only().v for a in args]

    def call(I2, a2, kw2, mm, nd):
        outs = []
        for n in names:
            v = a2[0]
            for part in n.split('.'):
                v = I2.getattr_pv(v, part, v.cov(), nd)
            outs.append(v)
        if len(outs) == 1:
            return outs[0]
        c = mm
        for o in outs:
            c &= o.cov()
        return PV.of(Seq('tuple', {len(outs): (c, [o.at(c) for o in outs])}),
                     c)
    return PV.of(PyFn('attrgetter', call), m)


@ext('operator.itemgetter')
def _itemgetter(I, args, kw, m, node):
    def call(I2, a2, kw2, mm, nd):
        outs = [I2.getitem_pv(a2[0], k.at(mm), mm, nd) for k in args]
        if len(outs) == 1:
            return outs[0]
        c = mm
        for o in outs:
            c &= o.cov()
        return PV.of(Seq('tuple', {len(outs): (c, [o.at(c) for o in outs])}),
                     c)
    return PV.of(PyFn('itemgetter', call), m)


@ext('operator.methodcaller')
def _methodcaller(I, args, kw, m, node):
    nm = args[0].only().v

    def call(I2, a2, kw2, mm, nd):
        f = I2.getattr_pv(a2[0], nm, mm, nd)
        return I2.call_pv(f, [x.at(mm) for x in args[1:]],
                          {k: v.at(mm) for k, v in kw.items()}, f.cov(), nd)
    return PV.of(PyFn('methodcaller', call), m)


def _mk_operator():
    def cmpf(op):
        def f(I, args, kw, m, node):
            out = PV()
            for a, wa in args[0].items():
                for b, wb in args[1].items():
                    w = wa & wb & m
                    if w:
                        out.merge(I.compare_atoms(op(), a, b, w, node))
            return out
        return f

    def binf(op):
        return lambda I, args, kw, m, node: I.binop_pv(
            op(), args[0], args[1], m, node)
    for n, op in (('lt', _ast.Lt), ('le', _ast.LtE), ('gt', _ast.Gt),
                  ('ge', _ast.GtE), ('eq', _ast.Eq), ('ne', _ast.NotEq),
                  ('is_', _ast.Is), ('is_not', _ast.IsNot)):
        EXT['operator.' + n] = cmpf(op)
    for n, op in (('add', _ast.Add), ('sub', _ast.Sub), ('mul', _ast.Mult),
                  ('truediv', _ast.Div), ('and_', _ast.BitAnd),
                  ('or_', _ast.BitOr), ('xor', _ast.BitXor),
                  ('floordiv', _ast.FloorDiv), ('mod', _ast.Mod)):
        EXT['operator.' + n] = binf(op)
    for n, op in (('iadd', _ast.Add), ('lshift', _ast.LShift),
                  ('rshift', _ast.RShift), ('pow', _ast.Pow),
                  ('concat', _ast.Add)):
        EXT['operator.' + n] = binf(op)
    EXT['operator.neg'] = lambda I, args, kw, m, node: I.binop_pv(
        _ast.Mult(), PV.of(K(-1), m), args[0], m, node)
    EXT['operator.truth'] = lambda I, args, kw, m, node: pv_bool(
        *I.truth(args[0], m, node))

    def contains(I, args, kw, m, node):
        out = PV()
        for a, wa in args[0].items():
            for b, wb in args[1].items():
                if wa & wb & m:
                    out.merge(pv_bool(*I.contains(a, b, wa & wb & m, node)))
        return out
    EXT['operator.contains'] = contains
    EXT['operator.not_'] = lambda I, args, kw, m, node: pv_bool(
        *reversed(I.truth(args[0], m, node)))
    EXT['operator.getitem'] = lambda I, args, kw, m, node: I.getitem_pv(
        args[0], args[1], m, node)


_mk_operator()


@ext('itertools.groupby')
def _groupby(I, args, kw, m, node):
    """eager for keys, groups are iterators over materialised members"""
    key = args[1] if len(args) > 1 else kw.get('key')
    if key is not None and set(key.d) == {NONE}:
        key = None
    seq = I.to_list(args[0], m, node)
    out = Seq('list', {0: (m, [])})
    for ln, (pm, items) in seq.parts.items():
        w0 = pm & m
        keys = []
        for it in items:
            keys.append(it.at(w0) if key is None else I.call_pv(
                key.at(w0), [it.at(w0)], {}, w0, node))
        # start[i]: worlds in which a group starts at i
        starts = []
        for i in range(ln):
            if i == 0:
                starts.append(w0)
            else:
                t, f = I.eq_pv(keys[i], keys[i - 1], w0, node)
                starts.append(f)
        for i in range(ln):
            w = starts[i]
            if not w:
                continue
            grp = Seq('list', {0: (w, [])})
            live = w
            for j in range(i, ln):
                if j > i:
                    live &= ~starts[j]
                if not live:
                    break
                list_append(I, grp, items[j].at(live), live)
            list_append(I, out, PV.of(Seq('tuple', {2: (w, [
                keys[i].at(w), PV.of(list_iter(I, grp), w)])}), w), w)
    return PV.of(list_iter(I, out), m)


@ext('rithm.fraction.Fraction')
def _fraction(I, args, kw, m, node):
    return fraction_of(I, args, m, node)


@ext('contextlib.suppress')
def _suppress(I, args, kw, m, node):
    return PV.of(Opq('suppress', suppress=[a.only() for a in args]), m)


@ext('typing.cast typing_extensions.cast')
def _cast(I, args, kw, m, node):
    return args[1].at(m)


@ext('typing_extensions.assert_never typing.assert_never')
def _never(I, args, kw, m, node):
    I.raise_name('AssertionError', m, node)
    return PV()


@ext('builtins.round math.floor math.ceil math.trunc')
def _round(I, args, kw, m, node):
    if any(isinstance(a, Num) for a in args[0].d):
        I.lose('rounding', m, node)
    else:
        for a in args[0].d:
            if not (isinstance(a, K) and type(a.v) in (int, bool)):
                I.fail(f'rounding {a!r}', node)
    return _int(I, args[:1], kw, m, node)


@ext('analysis.first_annotation')
def _first_annotation(I, args, kw, m, node):
    out = PV()
    for f, w in args[0].items():
        a = (f.node.args.posonlyargs + f.node.args.args)
        a = [x for x in a if x.annotation is not None][0].annotation
        if isinstance(a, _ast.Constant):
            a = _ast.parse(a.value, mode='eval').body
        from .absint import Frame
        fr = f.closure
        if fr is None:
            fr = Frame(None, f.module, None, 'module')
            fr.vars = f.module.ns
        out.merge(I.eval(a, fr, w & m))
    return out


@ext('copy.copy')
def _copy(I, args, kw, m, node):
    out = PV()
    for a, w in args[0].items():
        w &= m
        if isinstance(a, Seq) and a.kind != 'tuple':
            out.add(Seq(a.kind, {ln: (pm & w, list(its)) for ln, (pm, its)
                                 in a.parts.items() if pm & w}), w)
        elif isinstance(a, (K, Num, FuncV, ClassV, EnumM, Seq, Ext)):
            out.add(a, w)
        elif isinstance(a, DictO):
            out.merge(dict_method(I, a, 'copy', [], {}, w, node))
        elif isinstance(a, SetO):
            out.merge(make_set(I, PV.of(a, w), w, node, a.kind))
        elif isinstance(a, Obj) and a.cls.lookup('__copy__')[0] is not None:
            out.merge(I.call_method(a, '__copy__', [], w, node))
        elif isinstance(a, Obj):
            o = Obj(a.cls)
            for n, v in a.attrs.items():
                o.attrs[n] = v.at(w)
            out.add(o, w)
        else:
            I.fail(f'copy of {a!r}', node)
    return out


@ext('copy.deepcopy')
def _deepcopy(I, args, kw, m, node):
    done = {}

    def pv(v, m):
        r = PV()
        for a, w in v.items():
            w &= m
            if w:
                r.add(atom(a), w)
        return r

    def atom(a):
        if id(a) in done:
            return done[id(a)][1]
        if isinstance(a, Seq):
            r = Seq(a.kind)
            done[id(a)] = (a, r)
            for ln, (pm, its) in a.parts.items():
                r.parts[ln] = (pm, [pv(x, pm) for x in its])
        elif isinstance(a, SetO):
            r = SetO(a.kind)
            r.items = [type(e)((pv(e[0], e[1]), e[1])) for e in a.items]
        elif isinstance(a, DictO):
            r = DictO()
            done[id(a)] = (a, r)
            r.items = [[pv(k, pm), pv(v, pm), pm] for k, v, pm in a.items]
        elif isinstance(a, Obj):
            r = Obj(a.cls)
            done[id(a)] = (a, r)
            for n, v in a.attrs.items():
                r.attrs[n] = pv(v, v.cov())
        else:
            return a
        done[id(a)] = (a, r)
        return r
    return pv(args[0], m)


@ext('typing.NewType typing_extensions.NewType')
def _newtype(I, args, kw, m, node):
    return PV.of(PyFn('NewType', lambda I, a, k, mm, nd: a[0].at(mm)), m)
