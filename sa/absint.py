"""World-set abstract interpreter for the Python subset used by ``rene``.

The abstract domain is a finite set of *worlds* (equivalence classes of inputs:
order types of coordinates, orientations of triples, class combinations ...).
An abstract value (``PV``) is a partition of a set of worlds into abstract
atoms; the abstract state at every program point is therefore a map from
worlds to values that is computed for all worlds at once, by following the
syntax tree: a branch splits the set, a join unites it.  Scalars are atoms that
carry the *formula* the source computes (``Rat``); they can only be compared,
and a comparison is answered by the sign tables that define the worlds.
Anything a table does not determine makes the analysis ``Undecided``.
"""
from __future__ import annotations

import ast
import builtins
import os
import threading
from fractions import Fraction

from .poly import Rat, Poly


# libraries replaced by their contracts, written in the analysed subset
MODELLED = ('prioq', 'dendroid', 'pystd')
MODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'model')
threading.stack_size(64 * 1024 * 1024)


class Undecided(Exception):
    """the analysis cannot give an answer (never reported as a pass)"""


# --------------------------------------------------------------------- atoms
class Endless(Undecided):
    """a loop or recursion of the analysed program exceeds every bound that
    inputs of this size can need"""


class K:
    __slots__ = ('v', 'h')

    def __init__(self, v):
        self.v = v
        self.h = None

    def __eq__(self, o):
        return (isinstance(o, K) and type(self.v) is type(o.v)
                and (self.v is o.v or self.v == o.v))

    def __hash__(self):
        h = self.h
        if h is None:
            h = self.h = hash((type(self.v).__name__, self.v))
        return h

    def __repr__(self):
        return repr(self.v)


class NotImpl:
    def __repr__(self):
        return 'NotImplemented'


NOT_IMPLEMENTED = K(NotImplemented)
NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class Num:
    """a symbolic scalar"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def __eq__(self, o):
        return isinstance(o, Num) and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        return f'<{self.r}>'


class Ext:
    """an external (non-repository) name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return f'<ext {self.name}>'


class Opq:
    """an opaque token: has identity and nothing else"""

    def __init__(self, name, **info):
        self.name = name
        self.info = info

    def __repr__(self):
        return f'<{self.name}>'


EXT_CONSTANTS = {'sys.maxsize': 2 ** 63 - 1}


def _standard_models():
    """names of the standard library modelled in source (model/pystd)"""
    with open(os.path.join(MODEL, 'pystd', '__init__.py')) as f:
        tree = ast.parse(f.read())
    names = {}
    for node in tree.body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            names[node.name.replace('__', '.')] = node.name
        elif isinstance(node, ast.Assign):
            names[node.targets[0].id.replace('__', '.')] = \
                node.targets[0].id
    return {k: v for k, v in names.items() if '.' in k}


STANDARD = _standard_models()


class Term:
    """an uninterpreted application"""

    def __init__(self, fn, args, **info):
        self.fn = fn
        self.args = args
        self.info = info

    def __repr__(self):
        return f'{self.fn}(...)'


class ModuleV:
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.path = None
        self.loading = True

    def __repr__(self):
        return f'<module {self.name}>'


class ClassV:
    def __init__(self, name, qualname, module, bases):
        self.name = name
        self.qualname = qualname
        self.module = module
        self.bases = bases
        self.attrs = {}
        self.members = {}
        self.is_enum = any(
            (isinstance(b, ClassV) and b.is_enum)
            or (isinstance(b, Ext) and b.name in (
                'enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag'))
            for b in bases)
        self.int_enum = any(
            (isinstance(b, ClassV) and b.int_enum)
            or (isinstance(b, Ext) and b.name in ('enum.IntEnum',
                                                  'enum.IntFlag'))
            for b in bases)
        self.is_exc = any(
            (isinstance(b, ClassV) and b.is_exc)
            or (isinstance(b, Ext) and is_exc_name(b.name)) for b in bases)
        self.mro = [self] + merge_mro(
            [list(b.mro) if isinstance(b, ClassV) else [b] for b in bases]
            + [list(bases)])

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def has_ext_base(self, names):
        return any(isinstance(c, Ext) and c.name in names for c in self.mro)

    def subclass_of(self, other):
        return other in self.mro

    def __repr__(self):
        return f'<class {self.name}>'


def merge_mro(seqs):
    seqs = [s for s in (list(s) for s in seqs) if s]
    out = []
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Undecided('inconsistent MRO')
        out.append(c)
        seqs = [[x for x in s if x != c] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


EXC_PARENT = {
    'BaseException': None, 'Exception': 'BaseException',
    'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception',
    'AttributeError': 'Exception', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError',
    'StopIteration': 'Exception', 'TypeError': 'Exception',
    'ValueError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError',
}


def is_exc_name(name):
    return name.replace('builtins.', '') in EXC_PARENT


class ExcV:
    """an exception instance of a builtin type"""

    def __init__(self, name, args=()):
        self.name = name
        self.args = args

    def __eq__(self, o):
        return isinstance(o, ExcV) and o.name == self.name

    def __hash__(self):
        return hash(('exc', self.name))

    def __repr__(self):
        return self.name


def exc_isa(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENT.get(name)
    return False


class EnumM:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


class FuncV:
    def __init__(self, node, module, closure, name, qualname, cls, defaults,
                 kwdefaults):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name
        self.qualname = qualname
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.is_gen = (not isinstance(node, ast.Lambda)
                       and has_yield(node))
        self.key = f'{module.name}:{qualname}'
        self.locals_ = None
        self.memo = None if self.is_gen else {}
        self.impure = self.pure = 0

    def __repr__(self):
        return f'<function {self.key}>'


class Wrapped:
    """property / classmethod / staticmethod / ... descriptor"""

    def __init__(self, kind, fn, setter=None):
        self.kind = kind
        self.fn = fn
        self.setter = setter
        self.getter = '' if kind == 'cached_property' else None
        self.name = getattr(fn, 'name', None)


def trivial_getter(f):
    """attribute read by a property that only says 'return self.attr'"""
    if not isinstance(f, FuncV) or isinstance(f.node, ast.Lambda):
        return ''
    body = [s for s in f.node.body if not (
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    args = f.node.args.posonlyargs + f.node.args.args
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(
            body[0].value, ast.Attribute) and isinstance(
            body[0].value.value, ast.Name) and len(args) == 1 and \
            body[0].value.value.id == args[0].arg:
        return body[0].value.attr
    return ''


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __eq__(self, o):
        return (isinstance(o, Bound) and self.fn == o.fn
                and self.self == o.self)

    def __hash__(self):
        return hash((self.fn, self.self))

    def __repr__(self):
        return f'<bound {self.fn!r} of {self.self!r}>'


class BuiltinM:
    """method of a built-in container / str, bound"""
    __slots__ = ('name', 'self')

    def __init__(self, name, self_):
        self.name = name
        self.self = self_

    def __eq__(self, o):
        return (isinstance(o, BuiltinM) and self.name == o.name
                and self.self == o.self)

    def __hash__(self):
        return hash((self.name, self.self))

    def __repr__(self):
        return f'<method {self.name} of {self.self!r}>'


class PyFn:
    """a builtin implemented by the analyser"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Obj:
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        Obj._n += 1
        self.id = Obj._n

    def __repr__(self):
        return f'<{self.cls.name}#{self.id}>'


class Seq:
    """list / tuple / deque: per-length partition of the worlds"""

    def __init__(self, kind, parts=None):
        self.kind = kind
        self.parts = parts if parts is not None else {}

    def __repr__(self):
        return f'<{self.kind} lens={sorted(self.parts)}>'


class SetO:
    def __init__(self, kind='set'):
        self.kind = kind
        self.items = []  # [PV, mask]

    def __repr__(self):
        return f'<{self.kind}>'


class DictO:
    def __init__(self):
        self.items = []  # [key PV, value PV, mask]

    def __repr__(self):
        return '<dict>'


class RangeV:
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def __eq__(self, o):
        return isinstance(o, RangeV) and self.r == o.r

    def __hash__(self):
        return hash(('range', self.r.start, self.r.stop, self.r.step))

    def __repr__(self):
        return repr(self.r)


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __eq__(self, o):
        return isinstance(o, SliceV) and (self.lo, self.hi, self.st) == (
            o.lo, o.hi, o.st)

    def __hash__(self):
        return hash(('slice', self.lo, self.hi, self.st))


class IterO:
    """iterator object; ``step(mask) -> (PV, exhausted mask)``"""

    def __init__(self, step, partial=None, gen=None):
        self.step = step
        self._partial = partial
        self.gen = gen

    def partial(self, m):
        """like step, but may serve only some worlds for now:
        -> (PV, exhausted mask, mask of the worlds not served yet)"""
        if self._partial is not None:
            return self._partial(m)
        v, done = self.step(m)
        return v, done, 0


class Coroutine:
    """one suspended interpretation of a generator body (own thread)"""

    def __init__(self, gen, frame, m):
        self.gen, self.I, self.m = gen, gen.I, m
        self.frame = frame
        frame.yields = self
        self.entries = []          # ('val', PV) / ('exc', record)
        self.done = 0
        self.finished = False
        self.error = None
        self.thread = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.state = None

    def emit(self, v):
        self.entries.append(['val', v, v.cov()])
        self._suspend()

    def _suspend(self):
        self._flush()
        self.back.release()
        self.go.acquire()

    def _flush(self):
        left = self.I.handlers[0]
        for rec in left:
            self.entries.append(['exc', rec, rec[1]])
        left.clear()

    def _run(self):
        I = self.I
        self.go.acquire()
        try:
            end = I.exec_block(self.frame.func.node.body, self.frame, self.m)
            self.done = end | self.frame.ret.cov()
            self._flush()
        except BaseException as e:   # handed to the consumer
            self.error = e
        self.finished = True
        self.back.release()

    def resume(self):
        I = self.I
        saved = (I.frames, I.handlers, I.depth, I.cur_node, I.exc_ctx)
        if self.state is None:
            self.state = (I.frames + [self.frame], [[]], I.depth, I.cur_node,
                          [])
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        I.frames, I.handlers, I.depth, I.cur_node, I.exc_ctx = self.state
        self.go.release()
        self.back.acquire()
        self.state = (I.frames, I.handlers, I.depth, I.cur_node, I.exc_ctx)
        I.frames, I.handlers, I.depth, I.cur_node, I.exc_ctx = saved
        if self.error is not None:
            raise self.error


class LazyGen:
    """generator object: bodies run in step with their consumer.

    The worlds of one generator call may be consumed at different places;
    every such group gets its own coroutine.  A world that is suspended while
    others of its coroutine go on runs ahead, its values are kept in order.
    """

    def __init__(self, I, f, frame, m):
        self.I, self.f, self.m = I, f, m
        self.frame = frame
        self.groups = []
        self.started = 0

    def iterator(self):
        return IterO(self.step, self.partial, self)

    def _frame(self, m):
        fr = Frame(self.f, self.frame.module, self.frame.parent)
        fr.vars = {k: v.at(m) for k, v in self.frame.vars.items()}
        fr.first = self.frame.first
        fr.locals_ = self.frame.locals_
        return fr

    def returned(self, m):
        out = PV()
        for g in self.groups:
            out.merge(g.frame.ret.at(m & g.m))
        out.add(NONE, m & ~out.cov())
        return out

    def _serve(self, mm):
        """-> (PV, done, worlds that raised, worlds still to be served)"""
        out, done, lost = PV(), 0, 0
        rem = mm
        for g in self.groups:
            w = rem & g.m
            if not w:
                continue
            keep = []
            for ent in g.entries:
                kind, val, left = ent
                take = left & w
                if take:
                    if kind == 'val':
                        out.merge(val.at(take))
                    else:
                        exc, _, loc = val
                        self.I.handlers[-1].append((exc, take, loc))
                        lost |= take
                        g.m &= ~take
                    w &= ~take
                    rem &= ~take
                    ent[2] &= ~take
                if ent[2]:
                    keep.append(ent)
            g.entries = keep
            d = w & g.done
            done |= d
            rem &= ~d
        return out, done, lost, rem

    def _advance(self, rem):
        fresh = rem & self.m & ~self.started
        if fresh:
            self.started |= fresh
            self.groups.append(Coroutine(self, self._frame(fresh), fresh))
        for g in self.groups:
            if g.m & rem and not g.finished:
                g.resume()

    def partial(self, mm):
        mm &= self.m
        for _ in range(self.I.MAX_ITER * 4):
            out, done, lost, rem = self._serve(mm)
            if not rem or out.d or done or lost:
                return out, done, rem
            before = [(g.finished, len(g.entries)) for g in self.groups]
            self._advance(rem)
            if before == [(g.finished, len(g.entries))
                          for g in self.groups]:
                return out, done, 0
        self.I.fail('unbounded generator')

    def step(self, mm):
        out, done = PV(), 0
        mm &= self.m
        for _ in range(self.I.MAX_ITER * 4):
            v, d, rem = self.partial(mm)
            out.merge(v)
            done |= d
            mm = rem
            if not mm:
                return out, done
        self.I.fail('unbounded generator')


class StrT:
    """string built from parts (f-string / concatenation)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, StrT) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'f' + repr(self.parts)


# ------------------------------------------------------------------------ PV
class PV:
    """partition of a set of worlds into atoms; the table is shared between
    values until one of them changes (``s``), ``c`` caches the coverage"""
    __slots__ = ('d', 'c', 's')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self.c = None
        self.s = False

    @staticmethod
    def of(atom, m):
        r = PV.__new__(PV)
        r.s = False
        r.c = m
        r.d = {atom: m} if m else {}
        return r

    def cov(self):
        c = self.c
        if c is None:
            c = 0
            for m in self.d.values():
                c |= m
            self.c = c
        return c

    def at(self, m):
        c = self.c
        if c is None:
            c = self.cov()
        r = PV.__new__(PV)
        if not c & ~m:
            r.d = self.d
            r.c = c
            r.s = self.s = True
            return r
        r.s = False
        r.c = c & m
        d = r.d = {}
        if r.c:
            if len(self.d) == 1:
                for a in self.d:
                    d[a] = r.c
            else:
                for a, w in self.d.items():
                    w &= m
                    if w:
                        d[a] = w
        return r

    def add(self, atom, m):
        if m:
            if self.s:
                self.d = dict(self.d)
                self.s = False
            self.d[atom] = self.d.get(atom, 0) | m
            if self.c is not None:
                self.c |= m

    def merge(self, o):
        if not o.d:
            return self
        if not self.d:
            self.d = o.d
            self.s = o.s = True
            self.c = o.c
            return self
        if self.s:
            self.d = dict(self.d)
            self.s = False
        d = self.d
        for a, w in o.d.items():
            if a in d:
                d[a] |= w
            else:
                d[a] = w
        self.c = None
        return self

    def write(self, o, m):
        """masked overwrite -> new PV"""
        if not self.cov() & ~m:
            return o.at(m)
        d = {}
        for a, w in self.d.items():
            w &= ~m
            if w:
                d[a] = w
        r = PV(d)
        r.merge(o.at(m))
        return r

    def items(self):
        return list(self.d.items())

    def only(self):
        if len(self.d) == 1:
            return next(iter(self.d))
        raise Undecided(f'value is not unique: {self!r}')

    def __repr__(self):
        return 'PV' + repr({a: bin(m).count('1') for a, m in self.d.items()})


def pv_bool(t, f):
    p = PV()
    p.add(TRUE, t)
    p.add(FALSE, f)
    return p


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(node):
    """names bound in a function body (its locals)"""
    names, nonlocal_ = set(), set()
    a = node.args
    for x in (a.posonlyargs + a.args + a.kwonlyargs):
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # only walrus targets leak
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx,
                                                  (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            nonlocal_.update(n.names)
        stack.extend(ast.iter_child_nodes(n))
    return names - nonlocal_


PURE_EXT = {'builtins.isinstance', 'builtins.type', 'builtins.callable'}


class Frame:
    def __init__(self, func, module, parent=None, kind='func'):
        self.func = func
        self.module = module
        self.vars = {}
        self.parent = parent
        self.kind = kind
        self.ret = PV()
        self.loops = []
        self.locals_ = None
        self.yields = None
        self.globals_ = set()
        self.nonlocals_ = set()
        self.first = None

    def where(self, node):
        fn = self.func.qualname if self.func is not None else '<module>'
        path = self.module.path or self.module.name
        return f'{path}:{getattr(node, "lineno", "?")} in {fn}'

    def site(self, node):
        """like ``where``, without the line"""
        fn = self.func.qualname if self.func is not None else '<module>'
        return f'{self.module.name}:{fn}'


class Interp:
    MAX_ITER = 4000
    MAX_LOOP = 1500
    MAX_DEPTH = 80

    def __init__(self, root, nworlds, overrides=None, ext=None):
        self.root = root
        self.n = nworlds
        self.full = (1 << nworlds) - 1
        self.modules = {}
        self.handlers = [[]]
        self.overrides = overrides or {}
        self.ext_models = ext or {}
        self.sign_tables = {}
        self.depth = 0
        self.sites = {}      # (path, qualname, lineno) -> mask of returns
        self.functions = {}  # key -> mask
        self.branches = 0
        self.loading = 0
        self.frames = []
        self.exc_ctx = []
        self.cur_node = None
        self.asts = {}
        self.truth_oracles = {}
        self.notes = []
        self.lossy = []       # (what, construct, mask)
        self.sign_hook = None
        self.dispatch = {}
        self.arith = {}
        self.rec = None       # reads of the summary being recorded
        self.rec_bad = False
        self.memo_on = True
        self.rat_hook = None
        self.eq_hook = None
        self.attr_hook = None
        self.call_hook = None

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split('.')
        base = os.path.join(
            MODEL if parts[0] in MODELLED else self.root, *parts)
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            is_pkg = True
        else:
            path = base + '.py'
            is_pkg = False
        if not os.path.exists(path):
            return None
        mod = ModuleV(name)
        mod.path = os.path.relpath(path, self.root)
        mod.is_pkg = is_pkg
        self.modules[name] = mod
        if len(parts) > 1:
            self.module('.'.join(parts[:-1]))
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        self.asts[name] = tree
        fr = Frame(None, mod, None, 'module')
        fr.vars = mod.ns
        mod.ns['__name__'] = PV.of(K(name), self.full)
        self.loading += 1
        self.handlers.append([])
        try:
            m = self.exec_block(tree.body, fr, self.full)
        finally:
            left = self.handlers.pop()
            self.loading -= 1
        if left or m != self.full:
            raise Undecided(f'module {name} raises at import: {left}')
        mod.loading = False
        if len(parts) > 1:
            parent = self.modules['.'.join(parts[:-1])]
            parent.ns.setdefault(parts[-1], PV.of(mod, self.full))
        return mod

    def ext_value(self, name):
        """a name of an external module: a known constant, a model in
        source or opaque"""
        if name in EXT_CONSTANTS:
            return PV.of(K(EXT_CONSTANTS[name]), self.full)
        if name in STANDARD and name not in self.ext_models:
            return self.module('pystd').ns[STANDARD[name]]
        return PV.of(Ext(name), self.full)

    def resolve_from(self, mod, level, name):
        if not level:
            return name
        parts = mod.name.split('.')
        if not mod.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([name] if name else []))

    def get(self, dotted):
        """'rene._utils:to_sign' or 'rene._exact:Box' -> atom"""
        modname, qual = dotted.split(':')
        mod = self.module(modname)
        if mod is None:
            raise Undecided(f'module {modname} is gone')
        parts = qual.split('.')
        if parts[0] not in mod.ns:
            raise Undecided(f'{dotted} is gone')
        cur = mod.ns[parts[0]].only()
        for p in parts[1:]:
            cur, _ = cur.lookup(p)
            if cur is None:
                raise Undecided(f'{dotted} is gone')
            cur = cur.only()
        return cur

    # ------------------------------------------------------------ utility
    def fail(self, msg, node=None, fr=None, kind=Undecided):
        loc = ''
        fr = fr or (self.frames[-1] if self.frames else None)
        node = node or self.cur_node
        if fr is not None and node is not None:
            loc = fr.where(node) + ': '
        raise kind(loc + msg)

    def raise_(self, exc, m, node=None):
        self.rec_bad = True
        if m:
            fr = self.frames[-1] if self.frames else None
            loc = fr.where(node or self.cur_node) if fr is not None and (
                node or self.cur_node) is not None else '?'
            self.handlers[-1].append((exc, m, loc))

    def raise_name(self, name, m, node=None):
        self.raise_(ExcV(name), m, node)

    def num(self, atom):
        if isinstance(atom, Num):
            return atom.r
        if isinstance(atom, K):
            if type(atom.v) in (int, bool):
                return Rat.const(int(atom.v))
            if type(atom.v) is float and self.lossy and \
                    atom.v - atom.v == 0:
                return Rat.const(Fraction(atom.v))
        return None

    def lose(self, what, m, node=None):
        """a coordinate is rounded; it is interpreted as if it were not"""
        site = self.frames[-1].site(node) if self.frames else '?'
        if not any(w == what and c == site for w, c, _ in self.lossy):
            self.lossy.append((what, site, m))

    def sign(self, r, m, node=None):
        """(pos, zero, neg) masks of the sign of a rational formula"""
        p, z, n = self.sign_poly(r.n, m, node)
        if r.d.is_const():
            return p, z, n
        dp, dz, dn = self.sign_poly(r.d, m, node)
        if dz:
            self.fail(f'denominator {r.d} may vanish', node)
        return (p & dp) | (n & dn), z, (p & dn) | (n & dp)

    def sign_poly(self, poly, m, node=None):
        if not m:
            return 0, 0, 0
        s, c = poly.canonical()
        if s == 0:
            return 0, m, 0
        if c.is_const():
            return (m, 0, 0) if s > 0 else (0, 0, m)
        t = self.sign_tables.get(c)
        if t is None and self.sign_hook is not None:
            t = self.sign_hook(c, m)
        if t is None:
            self.fail(f'the sign of "{poly}" is not determined by the domain',
                      node)
        p, z, n, valid = t
        if m & ~valid:
            self.fail(f'the sign of "{poly}" is only partially determined',
                      node)
        if s < 0:
            p, n = n, p
        return p & m, z & m, n & m

    # -------------------------------------------------------------- truth
    def truth(self, pv, m, node=None):
        t = f = 0
        for a, w in pv.items():
            w &= m
            if not w:
                continue
            if isinstance(a, K):
                if a.v is NotImplemented:
                    t |= w
                elif a.v:
                    t |= w
                else:
                    f |= w
            elif isinstance(a, Num):
                p, z, n = self.sign(a.r, w, node)
                t |= p | n
                f |= z
            elif isinstance(a, Seq):
                for ln, (pm, _) in a.parts.items():
                    if ln:
                        t |= w & pm
                    else:
                        f |= w & pm
            elif isinstance(a, SetO):
                ne = 0
                for _, pm in a.items:
                    ne |= pm
                t |= w & ne
                f |= w & ~ne
            elif isinstance(a, DictO):
                ne = 0
                for _, _, pm in a.items:
                    ne |= pm
                t |= w & ne
                f |= w & ~ne
            elif isinstance(a, RangeV):
                if len(a.r):
                    t |= w
                else:
                    f |= w
            elif isinstance(a, Obj):
                b, _ = a.cls.lookup('__bool__')
                ln, _ = a.cls.lookup('__len__')
                if b is not None:
                    r = self.call_method(a, '__bool__', [], w, node)
                    t1, f1 = self.truth(r, r.cov(), node)
                    t |= t1
                    f |= f1
                elif ln is not None:
                    r = self.call_method(a, '__len__', [], w, node)
                    t1, f1 = self.truth(r, r.cov(), node)
                    t |= t1
                    f |= f1
                else:
                    t |= w
            elif isinstance(a, EnumM):
                if a.cls.int_enum:
                    t1, f1 = self.truth(a.value, w, node)
                    t |= t1
                    f |= f1
                else:
                    t |= w
            elif isinstance(a, (FuncV, Bound, ClassV, ModuleV, IterO, PyFn,
                                SliceV)):
                t |= w
            elif isinstance(a, (Opq, Term)):
                orc = self.truth_oracles.get(a)
                if orc is None:
                    self.fail(f'truth of {a!r} is unknown', node)
                t |= w & orc
                f |= w & ~orc
            elif isinstance(a, Ext) and a.name == 'typing.TYPE_CHECKING':
                f |= w
            elif isinstance(a, StrT):
                t |= w
            else:
                self.fail(f'truth of {a!r} is unknown', node)
        self.branches += 1
        return t, f

    # --------------------------------------------------------- comparison
    def eq_atoms(self, a, b, m, node=None):
        """-> (true mask, false mask); lost worlds raised"""
        if not m:
            return 0, 0
        if self.eq_hook is not None:
            r = self.eq_hook(self, a, b, m)
            if r is not None:
                return r
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            p, z, n = self.sign(na - nb, m, node)
            return z, p | n
        if isinstance(a, K) and isinstance(b, K):
            if a.v is NotImplemented or b.v is NotImplemented:
                r = a.v is b.v
            else:
                r = a.v == b.v
            return (m, 0) if r else (0, m)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.kind != b.kind:
                return 0, m
            t = 0
            for la, (ma, ia) in a.parts.items():
                pb = b.parts.get(la)
                if pb is None:
                    continue
                mm = m & ma & pb[0]
                for x, y in zip(ia, pb[1]):
                    if not mm:
                        break
                    mm, _ = self.eq_pv(x.at(mm), y.at(mm), mm, node)
                t |= mm
            return t, m & ~t
        if isinstance(a, SetO) and isinstance(b, SetO):
            t = m
            for s1, s2 in ((a, b), (b, a)):
                for pv, pm in s1.items:
                    need = t & pm
                    if need:
                        t &= ~need | self.set_has(s2, pv, need, node)
            return t, m & ~t
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return (m, 0) if a.r == b.r else (0, m)
        if isinstance(a, DictO) and isinstance(b, DictO):
            self.fail('dict equality', node)
        if isinstance(a, (Obj,)) or isinstance(b, (Obj,)):
            return self.obj_eq(a, b, m, node)
        if isinstance(a, EnumM) and a.cls.int_enum and not isinstance(
                b, EnumM):
            return self.eq_pv(a.value.at(m), PV.of(b, m), m, node)
        if isinstance(a, EnumM) or isinstance(b, EnumM):
            if isinstance(a, EnumM) and a.cls.lookup('__eq__')[0] is not None:
                return self.obj_eq(a, b, m, node)
            return (m, 0) if a is b else (0, m)
        if isinstance(a, (StrT,)) or isinstance(b, StrT):
            if a == b:
                return m, 0
            self.fail(f'equality of strings {a!r}, {b!r}', node)
        if isinstance(a, Term) or isinstance(b, Term):
            if a is b:
                return m, 0
            self.fail(f'equality of {a!r} and {b!r} is unknown', node)
        if a == b:
            return m, 0
        if isinstance(a, Opq) and isinstance(b, Opq):
            return 0, m
        return 0, m

    def obj_eq(self, a, b, m, node):
        order = [(a, b), (b, a)]
        if (isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls
                and b.cls.subclass_of(a.cls)):
            order.reverse()
        left = m
        t = f = 0
        for x, y in order:
            if not left:
                break
            if isinstance(x, (Obj, EnumM)):
                fn, _ = x.cls.lookup('__eq__')
                if fn is None:
                    continue
                r = self.call_method(x, '__eq__', [PV.of(y, left)], left,
                                     node)
                ni = r.d.get(NOT_IMPLEMENTED, 0)
                r2 = PV({k: v for k, v in r.d.items()
                         if k != NOT_IMPLEMENTED})
                t1, f1 = self.truth(r2, r2.cov(), node)
                t |= t1
                f |= f1
                left = ni
        if a is b:
            t |= left
        else:
            f |= left
        return t, f

    def eq_pv(self, x, y, m, node=None):
        t = f = 0
        for a, wa in x.items():
            wa &= m
            if not wa:
                continue
            for b, wb in y.items():
                w = wa & wb
                if w:
                    t1, f1 = self.eq_atoms(a, b, w, node)
                    t |= t1
                    f |= f1
        return t, f

    def set_has(self, s, pv, m, node=None):
        t = 0
        for q, pm in s.items:
            w = m & pm & ~t
            if w:
                t1, _ = self.eq_pv(pv.at(w), q.at(w), w, node)
                t |= t1
        return t

    def is_atoms(self, a, b, m, node=None):
        if isinstance(a, K) and isinstance(b, K):
            if type(a.v) in (bool, type(None), type(NotImplemented),
                             type(Ellipsis)) or type(b.v) in (
                    bool, type(None), type(NotImplemented), type(Ellipsis)):
                return (m, 0) if a == b else (0, m)
            if type(a.v) is int and type(b.v) is int and (
                    -5 <= a.v <= 256 and -5 <= b.v <= 256):
                return (m, 0) if a.v == b.v else (0, m)
            if type(a.v) is type(b.v) and a.v == b.v:
                self.fail('identity of constants', node)
            return 0, m
        if isinstance(a, Num) and isinstance(b, Num):
            self.fail('identity of scalars', node)
        if isinstance(a, (Term, Seq)) and a is not b and type(a) is type(b):
            if isinstance(a, Seq):
                return 0, m
            self.fail(f'identity of {a!r} and {b!r}', node)
        return (m, 0) if a == b else (0, m)

    ORDER = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'),
             'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__')}

    def compare_atoms(self, op, a, b, m, node=None):
        """-> PV"""
        name = type(op).__name__
        if name == 'Eq':
            if isinstance(a, (Obj, EnumM)) or isinstance(b, (Obj, EnumM)):
                pass
            return pv_bool(*self.eq_atoms(a, b, m, node))
        if name == 'NotEq':
            t, f = self.eq_atoms(a, b, m, node)
            return pv_bool(f, t)
        if name == 'Is':
            return pv_bool(*self.is_atoms(a, b, m, node))
        if name == 'IsNot':
            t, f = self.is_atoms(a, b, m, node)
            return pv_bool(f, t)
        if name in ('In', 'NotIn'):
            t, f = self.contains(b, a, m, node)
            return pv_bool(t, f) if name == 'In' else pv_bool(f, t)
        return self.order_atoms(name, a, b, m, node)

    def order_atoms(self, name, a, b, m, node):
        if isinstance(a, EnumM) and a.cls.int_enum:
            a = a.value.only()
        if isinstance(b, EnumM) and b.cls.int_enum:
            b = b.value.only()
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            key = ('Sub', na, nb)
            r = self.arith.get(key)
            if r is None:
                r = self.arith[key] = Num(na - nb)
            p, z, n = self.sign(r.r, m, node)
            t = {'Lt': n, 'Gt': p, 'LtE': n | z, 'GtE': p | z}[name]
            return pv_bool(t, m & ~t)
        if isinstance(a, K) and isinstance(b, K):
            try:
                r = {'Lt': lambda: a.v < b.v, 'Gt': lambda: a.v > b.v,
                     'LtE': lambda: a.v <= b.v,
                     'GtE': lambda: a.v >= b.v}[name]()
            except TypeError:
                self.raise_name('TypeError', m, node)
                return PV()
            return PV.of(K(bool(r)), m)
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
            t = f = 0
            for la, (ma, ia) in a.parts.items():
                for lb, (mb, ib) in b.parts.items():
                    mm = m & ma & mb
                    if not mm:
                        continue
                    for x, y in zip(ia, ib):
                        if not mm:
                            break
                        e, ne = self.eq_pv(x.at(mm), y.at(mm), mm, node)
                        if ne:
                            r = self.order_pv(name, x.at(ne), y.at(ne), ne,
                                              node)
                            t1, f1 = self.truth(r, r.cov(), node)
                            t |= t1
                            f |= f1
                        mm = e
                    if mm:
                        r = {'Lt': la < lb, 'Gt': la > lb, 'LtE': la <= lb,
                             'GtE': la >= lb}[name]
                        if r:
                            t |= mm
                        else:
                            f |= mm
            return pv_bool(t, f)
        if isinstance(a, SetO) and isinstance(b, SetO):
            def sub(x, y):
                t = m
                for pv, pm in x.items:
                    need = t & pm
                    if need:
                        t &= ~need | self.set_has(y, pv, need, node)
                return t
            if name in ('LtE', 'Lt'):
                le, ge = sub(a, b), sub(b, a)
            else:
                le, ge = sub(b, a), sub(a, b)
            t = le if name in ('LtE', 'GtE') else le & ~ge
            return pv_bool(t, m & ~t)
        left, refl = self.ORDER[name]
        out = PV()
        rem = m
        for x, y, meth in ((a, b, left), (b, a, refl)):
            if not rem:
                break
            if isinstance(x, (Obj, EnumM)):
                fn, _ = x.cls.lookup(meth)
                if fn is None:
                    continue
                r = self.call_method(x, meth, [PV.of(y, rem)], rem, node)
                rem = r.d.get(NOT_IMPLEMENTED, 0)
                out.merge(PV({k: v for k, v in r.d.items()
                              if k != NOT_IMPLEMENTED}))
        if rem:
            if any(isinstance(x, (Opq, Term, Ext)) for x in (a, b)):
                self.fail(f'order of {a!r} and {b!r} is unknown', node)
            self.raise_name('TypeError', rem, node)
        return out

    def order_pv(self, name, x, y, m, node):
        out = PV()
        for a, wa in x.items():
            for b, wb in y.items():
                w = wa & wb & m
                if w:
                    out.merge(self.order_atoms(name, a, b, w, node))
        return out

    def contains(self, cont, item, m, node=None):
        self.rec_bad = True
        if isinstance(cont, (SetO,)):
            t = self.set_has(cont, PV.of(item, m), m, node)
            return t, m & ~t
        if isinstance(cont, DictO):
            t = 0
            for k, _, pm in cont.items:
                w = m & pm & ~t
                if w:
                    t1, _ = self.eq_pv(PV.of(item, w), k.at(w), w, node)
                    t |= t1
            return t, m & ~t
        if isinstance(cont, Obj):
            fn, _ = cont.cls.lookup('__contains__')
            if fn is not None:
                r = self.call_method(cont, '__contains__', [PV.of(item, m)],
                                     m, node)
                return self.truth(r, r.cov(), node)
        if isinstance(cont, (K, StrT)) and isinstance(
                getattr(cont, 'v', ''), str):
            if isinstance(cont, K) and isinstance(item, K):
                return (m, 0) if item.v in cont.v else (0, m)
            self.fail('string containment', node)
        if isinstance(cont, RangeV) and isinstance(item, K):
            return (m, 0) if item.v in cont.r else (0, m)
        if isinstance(cont, ClassV) and cont.is_enum:
            return ((m, 0) if isinstance(item, EnumM) and item.cls is cont
                    else (0, m))
        # generic iteration
        it = self.iterate(cont, m, node)
        t = 0
        rem = m
        for _ in range(self.MAX_ITER):
            pv, done = it.step(rem)
            rem = pv.cov()
            if not rem:
                break
            t1 = 0
            for a, w in pv.items():
                i1, _ = self.is_or_eq(a, item, w, node)
                t1 |= i1
            t |= t1
            rem &= ~t1
        return t, m & ~t

    def is_or_eq(self, a, b, m, node):
        if a == b and not isinstance(a, Num):
            return m, 0
        return self.eq_atoms(a, b, m, node)

    # ---------------------------------------------------------- attributes
    def getattr_pv(self, pv, name, m, node=None):
        out = PV()
        for a, w in pv.items():
            w &= m
            if w:
                out.merge(self.getattr_atom(a, name, w, node))
        return out

    def bind(self, val, self_atom, cls, m, node):
        """descriptor protocol for class attribute PV"""
        out = PV()
        for a, w in val.items():
            w &= m
            if not w:
                continue
            if isinstance(a, FuncV):
                out.add(Bound(a, self_atom), w)
            elif isinstance(a, Wrapped):
                if a.kind in ('property', 'cached_property'):
                    short = a.getter
                    if short is None:
                        short = a.getter = trivial_getter(a.fn)
                    if short and isinstance(self_atom, Obj) and \
                            short in self_atom.attrs and \
                            not self_atom.cls.lookup(short)[0]:
                        v = self_atom.attrs[short]
                        if self.rec is not None:
                            self.rec.append((self_atom.attrs, short, v))
                        v = v.at(w)
                        if v.c == w and a.fn.key not in self.overrides:
                            fs = self.functions
                            fs[a.fn.key] = fs.get(a.fn.key, 0) | w
                            out.merge(v)
                            continue
                    r = self.call_atom(a.fn, [PV.of(self_atom, w)], {}, w,
                                       node)
                    out.merge(r)
                    if a.kind == 'cached_property':
                        self.rec_bad = True
                        self.setattr_atom(self_atom, a.name, r, r.cov(),
                                          node)
                elif a.kind == 'classmethod':
                    out.add(Bound(a.fn, cls), w)
                elif a.kind == 'staticmethod':
                    out.add(a.fn, w)
                else:
                    self.fail(f'descriptor {a.kind}', node)
            elif isinstance(a, Obj) and self_atom is not None and \
                    a.cls.lookup('__get__')[0] is not None:
                out.merge(self.call_method(a, '__get__', [
                    PV.of(self_atom, w), PV.of(cls, w)], w, node))
            else:
                out.add(a, w)
        return out

    SEQ_MIXIN = ('collections.abc.Sequence', 'typing.Sequence',
                 'collections.abc.MutableSequence')

    def getattr_atom(self, a, name, m, node=None, default=None):
        if self.attr_hook is not None:
            r = self.attr_hook(self, a, name, m)
            if r is not None:
                return r
        if isinstance(a, Obj):
            cv, owner = a.cls.lookup(name)
            if cv is not None:
                # data descriptor (property) first
                if any(isinstance(x, Wrapped) and x.kind == 'property'
                       for x in cv.d):
                    return self.bind(cv, a, a.cls, m, node)
            if name in a.attrs:
                v = a.attrs[name]
                if self.rec is not None:
                    self.rec.append((a.attrs, name, v))
                v = v.at(m)
                miss = m & ~v.cov()
                if not miss:
                    return v
                if cv is None:
                    self.raise_name('AttributeError', miss, node)
                    return v
                return v.merge(self.bind(cv, a, a.cls, miss, node))
            if cv is not None:
                return self.bind(cv, a, a.cls, m, node)
            if name == '__class__':
                return PV.of(a.cls, m)
            if name == '__dict__':
                self.fail('__dict__ access', node)
            if a.cls.has_ext_base(self.SEQ_MIXIN) and name in (
                    'index', 'count', '__iter__', '__contains__',
                    '__reversed__'):
                return PV.of(BuiltinM('seqmixin.' + name, a), m)
            if name in ('__eq__', '__ne__', '__hash__', '__repr__',
                        '__str__', '__lt__', '__le__', '__gt__', '__ge__',
                        '__bool__', '__len__', '__iter__'):
                if name in ('__eq__', '__ne__', '__hash__', '__repr__',
                            '__str__'):
                    return PV.of(BuiltinM('object.' + name, a), m)
            ga, _ = a.cls.lookup('__getattr__')
            if ga is not None:
                return self.call_method(a, '__getattr__',
                                        [PV.of(K(name), m)], m, node)
            if default is not None:
                return default.at(m)
            self.raise_name('AttributeError', m, node)
            return PV()
        if isinstance(a, ClassV):
            cv, owner = a.lookup(name)
            if cv is not None:
                out = PV()
                for x, w in cv.items():
                    w &= m
                    if isinstance(x, Wrapped):
                        if x.kind == 'classmethod':
                            out.add(Bound(x.fn, a), w)
                        elif x.kind == 'staticmethod':
                            out.add(x.fn, w)
                        else:
                            out.add(x, w)
                    else:
                        out.add(x, w)
                miss = m & ~out.cov()
                if miss:
                    self.raise_name('AttributeError', miss, node)
                return out
            if name in ('__name__', '__qualname__'):
                return PV.of(K(a.qualname if name == '__qualname__'
                               else a.name), m)
            if name == '__module__':
                return PV.of(K(a.module.name), m)
            if name == '__members__' and a.is_enum:
                d = DictO()
                for n, mem in a.members.items():
                    d.items.append([PV.of(K(n), self.full),
                                    PV.of(mem, self.full), self.full])
                return PV.of(d, m)
            if name == '__new__':
                return PV.of(Ext('builtins.object.__new__'), m)
            if name in ('__mro__', '__bases__'):
                cs = a.mro if name == '__mro__' else a.bases
                return PV.of(Seq('tuple', {len(cs): (
                    m, [PV.of(c, m) for c in cs])}), m)
            if name == 'mro':
                self.fail('mro', node)
            if any(isinstance(b, Ext) for b in a.mro) and self.loading:
                return self.ext_value(f'{a.name}.{name}').at(m)
            if default is not None:
                return default.at(m)
            self.raise_name('AttributeError', m, node)
            return PV()
        if isinstance(a, ModuleV):
            if name in a.ns:
                return a.ns[name].at(m)
            sub = self.module(a.name + '.' + name)
            if sub is not None:
                return PV.of(sub, m)
            if default is not None:
                return default.at(m)
            self.raise_name('AttributeError', m, node)
            return PV()
        if isinstance(a, EnumM):
            if name in ('name', '_name_'):
                return PV.of(K(a.name), m)
            if name in ('value', '_value_'):
                return a.value.at(m)
            if name == '__class__':
                return PV.of(a.cls, m)
            cv, owner = a.cls.lookup(name)
            if cv is not None:
                return self.bind(cv, a, a.cls, m, node)
            if name in ('__eq__', '__hash__', '__repr__', '__str__'):
                return PV.of(BuiltinM('object.' + name, a), m)
            if default is not None:
                return default.at(m)
            self.raise_name('AttributeError', m, node)
            return PV()
        if isinstance(a, SuperV):
            cls = a.obj.cls if isinstance(a.obj, (Obj, EnumM)) else a.obj
            mro = cls.mro
            i = mro.index(a.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and name in c.attrs:
                    v = c.attrs[name]
                    if name == '__new__':
                        return v.at(m)
                    if isinstance(a.obj, ClassV):
                        out = PV()
                        for x, w in v.items():
                            if isinstance(x, Wrapped) and \
                                    x.kind == 'classmethod':
                                out.add(Bound(x.fn, a.obj), w & m)
                            else:
                                out.add(x, w & m)
                        return out
                    return self.bind(v, a.obj, cls, m, node)
            if name == '__new__':
                return PV.of(Ext('builtins.object.__new__'), m)
            if name == '__init__':
                return PV.of(Ext('builtins.object.__init__'), m)
            if name in ('__eq__', '__hash__', '__repr__', '__str__',
                        '__ne__'):
                return PV.of(BuiltinM('object.' + name, a.obj), m)
            if name in ('__init_subclass__',):
                return PV.of(PyFn(name, lambda i, ar, kw, mm, nd: PV.of(
                    NONE, mm)), m)
            self.raise_name('AttributeError', m, node)
            return PV()
        if isinstance(a, (FuncV,)):
            if name in ('__name__', '__qualname__'):
                return PV.of(K(getattr(a, name.strip('_'))), m)
            if name == '__doc__':
                return PV.of(K(None), m)
            self.fail(f'attribute {name} of function', node)
        if isinstance(a, Bound):
            if name == '__self__':
                return PV.of(a.self, m)
            if name == '__func__':
                return PV.of(a.fn, m)
            if name == '__name__' and isinstance(a.fn, FuncV):
                return PV.of(K(a.fn.name), m)
            self.fail(f'attribute {name} of method', node)
        if isinstance(a, (Seq, SetO, DictO, IterO, StrT)):
            if name == '__class__':
                return PV.of(self.type_of(a), m)
            return PV.of(BuiltinM(name, a), m)
        if isinstance(a, RangeV):
            if name in ('start', 'stop', 'step'):
                return PV.of(K(getattr(a.r, name)), m)
            return PV.of(BuiltinM(name, a), m)
        if isinstance(a, SliceV):
            if name in ('start', 'stop', 'step'):
                return {'start': a.lo, 'stop': a.hi, 'step': a.st}[name].at(m)
        if isinstance(a, K):
            if isinstance(a.v, str) or name in (
                    'bit_length', '__eq__', '__lt__', '__le__', '__gt__',
                    '__ge__', '__ne__', '__add__', '__sub__', '__mul__',
                    '__and__', '__or__', '__xor__', '__hash__', '__repr__'):
                return PV.of(BuiltinM(name, a), m)
            if name == '__class__':
                return PV.of(self.type_of(a), m)
            if name in ('numerator', 'real') and type(a.v) is int:
                return PV.of(a, m)
            if name == 'denominator' and type(a.v) is int:
                return PV.of(K(1), m)
            if default is not None:
                return default.at(m)
            self.raise_name('AttributeError', m, node)
            return PV()
        if isinstance(a, Num):
            if name in ('__eq__', '__lt__', '__le__', '__gt__', '__ge__',
                        '__add__', '__sub__', '__mul__', '__truediv__',
                        '__ne__', '__neg__', '__abs__', '__hash__'):
                return PV.of(BuiltinM(name, a), m)
            self.fail(f'attribute {name} of a scalar', node)
        if isinstance(a, Ext) and a.name.startswith('builtins.') and \
                name in ('__name__', '__qualname__'):
            return PV.of(K(a.name[9:]), m)
        if isinstance(a, Ext):
            return self.ext_value(f'{a.name}.{name}').at(m)
        if isinstance(a, ExcV):
            self.fail(f'attribute {name} of an exception', node)
        if isinstance(a, (Opq, Term)):
            if default is not None and a.info.get('no_attrs'):
                return default.at(m)
            at = a.info.get('attrs')
            if at and name in at:
                return at[name].at(m)
            if a.info.get('no_attrs'):
                self.raise_name('AttributeError', m, node)
                return PV()
            self.fail(f'attribute {name} of {a!r} is unknown', node)
        if isinstance(a, Wrapped):
            if name in ('setter', 'getter', 'deleter', 'fget'):
                if name == 'fget':
                    return PV.of(a.fn, m)
                return PV.of(PyFn(name, lambda i, ar, kw, mm, nd: PV.of(
                    Wrapped('property', a.fn, ar[0].only()), mm)), m)
        self.fail(f'attribute {name} of {a!r}', node)

    def short(self, x, m):
        if isinstance(x, Num) and not x.r.d.is_const():
            return Num(self.rat_hook(x.r, m))
        return x

    def setattr_atom(self, a, name, val, m, node=None):
        self.rec_bad = True
        if isinstance(a, (Obj, ClassV)):
            if isinstance(a, Obj):
                cv, _ = a.cls.lookup(name)
                if cv is not None and any(
                        isinstance(x, Wrapped) and x.kind == 'property'
                        for x in cv.d):
                    for x, w in cv.items():
                        w &= m
                        if not w:
                            continue
                        if isinstance(x, Wrapped) and x.setter is not None:
                            self.call_atom(x.setter, [PV.of(a, w),
                                                      val.at(w)], {}, w, node)
                        else:
                            self.raise_name('AttributeError', w, node)
                    return
            if self.rat_hook is not None and any(
                    isinstance(x, Num) and not x.r.d.is_const()
                    for x in val.d):
                short = PV()
                for x, w in val.d.items():
                    short.add(self.short(x, w), w)
                val = short
            a.attrs[name] = a.attrs.get(name, PV()).write(val, m)
            return
        if isinstance(a, ModuleV):
            a.ns[name] = a.ns.get(name, PV()).write(val, m)
            return
        self.fail(f'attribute assignment on {a!r}', node)

    # --------------------------------------------------------------- calls
    def call_method(self, atom, name, args, m, node=None):
        fn = self.getattr_atom(atom, name, m, node)
        return self.call_pv(fn, args, {}, fn.cov(), node)

    def call_pv(self, fn, args, kw, m, node=None):
        out = PV()
        for a, w in fn.items():
            w &= m
            if w:
                out.merge(self.call_atom(a, [x.at(w) for x in args],
                                         {k: v.at(w) for k, v in kw.items()},
                                         w, node))
        return out

    def call_atom(self, f, args, kw, m, node=None):
        if not m:
            return PV()
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kw, m, node)
            if r is not None:
                return r
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, m, node)
        if isinstance(f, Bound):
            return self.call_atom(f.fn, [PV.of(f.self, m)] + args, kw, m,
                                  node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, m, node)
        if not (isinstance(f, Ext) and f.name in PURE_EXT):
            self.rec_bad = True
        if isinstance(f, PyFn):
            return f.fn(self, args, kw, m, node)
        if isinstance(f, BuiltinM):
            return bm.call_method(self, f, args, kw, m, node)
        if isinstance(f, Ext):
            return bm.call_ext(self, f, args, kw, m, node)
        if isinstance(f, Wrapped) and f.kind == 'staticmethod':
            return self.call_atom(f.fn, args, kw, m, node)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup('__call__')
            if c is not None:
                return self.call_method(f, '__call__', args, m, node)
        if isinstance(f, K):
            self.raise_name('TypeError', m, node)
            return PV()
        if isinstance(f, (Opq, Term)) and 'call' in f.info:
            return f.info['call'](self, args, kw, m, node)
        self.fail(f'call of {f!r}', node)

    def bind_args(self, f, args, kw, m, node):
        """-> dict name -> PV, or None when the call is ill-formed"""
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = {}
        kw = dict(kw)
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i].arg] = v
            else:
                extra.append(v)
        if a.vararg:
            env[a.vararg.arg] = PV.of(
                Seq('tuple', {len(extra): (m, extra)}), m)
        elif extra:
            return None
        for i, p in enumerate(pos):
            if p.arg in env:
                if p.arg in kw and i >= len(a.posonlyargs):
                    return None
                continue
            if p.arg in kw and i >= len(a.posonlyargs):
                env[p.arg] = kw.pop(p.arg)
                continue
            j = i - (len(pos) - len(f.defaults))
            if j >= 0:
                env[p.arg] = f.defaults[j].at(m)
            else:
                return None
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg].at(m)
            else:
                return None
        if a.kwarg:
            d = DictO()
            for k, v in kw.items():
                d.items.append([PV.of(K(k), m), v, m])
            env[a.kwarg.arg] = PV.of(d, m)
        elif kw:
            return None
        return env

    def call_func(self, f, args, kw, m, node=None):
        if f.memo is not None and self.memo_on and not kw:
            key = []
            for x in args:
                if len(x.d) != 1:
                    break
                for a in x.d:
                    key.append(a)
            else:
                if f.key not in self.overrides:
                    return self.memo_call(f, tuple(key), args, m, node)
        return self.call_plain(f, args, kw, m, node)

    def memo_call(self, f, key, args, m, node):
        """summaries of effect-free calls, reused while all the attributes
        and globals they read are the same values"""
        out = PV()
        todo = m
        for ent in f.memo.get(key, ()):
            w = ent[0] & todo
            if w:
                for d, k, v in ent[1]:
                    if d.get(k) is not v:
                        ent[0] = 0
                        break
                else:
                    out.merge(ent[2].at(w))
                    todo &= ~w
                    if self.rec is not None:
                        self.rec.extend(ent[1])
                    if not todo:
                        return out
        rec, bad = self.rec, self.rec_bad
        self.rec, self.rec_bad = [], False
        r = self.call_plain(f, [x.at(todo) for x in args], {}, todo, node)
        mine, mine_bad = self.rec, self.rec_bad
        self.rec, self.rec_bad = rec, bad or mine_bad
        if mine_bad or r.cov() != todo:
            f.impure += 1
            if f.impure > 3 and not f.memo:
                f.memo = None
            elif f.impure > 30 and f.impure > 4 * f.pure:
                f.memo = None
        else:
            f.pure += 1
            seen, reads = set(), []
            for d, k, v in mine:
                if (id(d), k) not in seen:
                    seen.add((id(d), k))
                    reads.append((d, k, v))
            if rec is not None:
                rec.extend(reads)
            if f.memo is not None:
                res = r.at(todo)
                if not reads and len(res.d) == 1 and all(
                        isinstance(a, K) for a in key):
                    # depends on constants only: the same in every world
                    todo = self.full
                    res = PV.of(next(iter(res.d)), todo)
                old = f.memo.get(key)
                if old is not None:
                    f.memo[key] = [e for e in old if e[0]]
                for ent in f.memo.setdefault(key, []):
                    if ent[0] and len(ent[1]) == len(reads) and all(
                            a[0] is b[0] and a[1] == b[1] and a[2] is b[2]
                            for a, b in zip(ent[1], reads)):
                        new = PV(dict(ent[2].d))
                        new.merge(res)
                        ent[2] = new
                        ent[0] |= todo
                        break
                else:
                    f.memo[key].append([todo, reads, res])
        if not out.d:
            return r
        out.merge(r)
        return out

    def call_plain(self, f, args, kw, m, node=None):
        env = self.bind_args(f, args, kw, m, node)
        if env is None:
            self.raise_name('TypeError', m, node)
            return PV()
        ov = self.overrides.get(f.key)
        if ov is not None:
            r = ov(self, env, m, node)
            if r is not None:
                return r
        self.functions[f.key] = self.functions.get(f.key, 0) | m
        if self.depth > self.MAX_DEPTH:
            self.fail(f'recursion limit in {f.key}', node, kind=Endless)
        fr = Frame(f, f.module, f.closure)
        fr.vars = env
        pos = f.node.args.posonlyargs + f.node.args.args
        fr.first = pos[0].arg if pos else None
        if f.locals_ is None:
            f.locals_ = assigned_names(f.node)
        fr.locals_ = f.locals_
        self.frames.append(fr)
        self.depth += 1
        saved = self.cur_node
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr, m)
            if f.is_gen:
                return PV.of(LazyGen(self, f, fr, m).iterator(), m)
            end = self.exec_block(f.node.body, fr, m)
            if end:
                fr.ret.merge(PV.of(NONE, end))
            return fr.ret
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur_node = saved

    def instantiate(self, cls, args, kw, m, node):
        self.rec_bad = True
        if cls.is_enum:
            return self.enum_lookup(cls, args, m, node)
        if cls.is_exc:
            o = Obj(cls)
            o.attrs['args'] = PV.of(Seq('tuple', {len(args): (m, args)}), m)
            if isinstance(cls.lookup('__init__')[0], PV):
                r = self.call_pv(self.getattr_atom(o, '__init__', m, node),
                                 args, kw, m, node)
                return PV.of(o, r.cov())
            return PV.of(o, m)
        nw, _ = cls.lookup('__new__')
        out = PV()
        if nw is None:
            out = PV.of(Obj(cls), m)
        else:
            for a, w in nw.items():
                w &= m
                if isinstance(a, Wrapped):
                    a = a.fn
                out.merge(self.call_atom(
                    a, [PV.of(cls, w)] + [x.at(w) for x in args],
                    {k: v.at(w) for k, v in kw.items()}, w, node))
        res = PV()
        init, _ = cls.lookup('__init__')
        for a, w in out.items():
            if isinstance(a, Obj) and a.cls.subclass_of(cls) and \
                    init is not None:
                r = self.call_method(a, '__init__', [x.at(w) for x in args],
                                     w, node) if not kw else self.call_pv(
                    self.getattr_atom(a, '__init__', w, node),
                    [x.at(w) for x in args],
                    {k: v.at(w) for k, v in kw.items()}, w, node)
                res.add(a, r.cov())
            else:
                if init is None and nw is None and (args or kw):
                    if not cls.has_ext_base(('typing.NamedTuple',)):
                        self.raise_name('TypeError', w, node)
                        continue
                res.add(a, w)
        return res

    def enum_lookup(self, cls, args, m, node):
        out = PV()
        rem = m
        for mem in cls.members.values():
            if not rem:
                break
            t, _ = self.eq_pv(args[0].at(rem), mem.value.at(rem), rem, node)
            out.add(mem, t)
            rem &= ~t
        for mem in cls.members.values():
            w = args[0].d.get(mem, 0) & rem
            out.add(mem, w)
            rem &= ~w
        if rem:
            self.raise_name('ValueError', rem, node)
        return out

    # ----------------------------------------------------------- iteration
    def iterate(self, a, m, node=None):
        self.rec_bad = True
        return bm.to_iter(self, a, m, node)

    def iterate_pv(self, pv, m, node=None):
        """IterO over a PV of iterables"""
        items = [(a, w & m) for a, w in pv.items() if w & m]
        if len(items) == 1:
            return self.iterate(items[0][0], items[0][1], node)
        its = [(self.iterate(a, w, node), w) for a, w in items]

        def step(mm):
            out, done = PV(), 0
            for it, w in its:
                w &= mm
                if w:
                    p, d = it.step(w)
                    out.merge(p)
                    done |= d
            return out, done
        return IterO(step)

    def to_list(self, pv, m, node=None, kind='list'):
        """materialise an iterable PV into a fresh Seq"""
        it = self.iterate_pv(pv, m, node)
        parts = {}
        cols = []
        live = m
        for _ in range(self.MAX_ITER):
            v, done = it.step(live)
            if done:
                parts[len(cols)] = (done, [c.at(done) for c in cols])
            live = v.cov()
            if not live:
                break
            cols.append(v)
        else:
            self.fail('unbounded iteration', node)
        # worlds lost to exceptions inside iteration drop out automatically
        return Seq(kind, {ln: p for ln, p in parts.items() if p[0]})

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts, fr, m):
        for s in stmts:
            if not m:
                break
            self.cur_node = s
            fn = self.dispatch.get(type(s))
            if fn is None:
                fn = self.dispatch[type(s)] = getattr(
                    self, 'x_' + type(s).__name__, self.x_unsupported)
            m = fn(s, fr, m)
        return m

    def x_unsupported(self, s, fr, m):
        self.fail(f'unsupported statement {type(s).__name__}', s, fr)

    def x_Pass(self, s, fr, m):
        return m

    def x_Expr(self, s, fr, m):
        if isinstance(s.value, ast.Constant):
            return m
        return self.eval(s.value, fr, m).cov()

    def x_Return(self, s, fr, m):
        v = PV.of(NONE, m) if s.value is None else self.eval(s.value, fr, m)
        c = v.cov()
        key = (fr.module.path, fr.func.qualname, s.lineno)
        self.sites[key] = self.sites.get(key, 0) | c
        fr.ret.merge(v)
        return 0

    def x_Assign(self, s, fr, m):
        v = self.eval(s.value, fr, m)
        m = v.cov()
        if isinstance(s.value, ast.Call) and v.d and isinstance(
                next(iter(v.d)), Ext) and next(iter(v.d)).name in (
                'collections.namedtuple()', 'typing.NamedTuple()'):
            v = self.functional_tuple(s, fr)
        for t in s.targets:
            m = self.assign(t, v.at(m), fr, m)
        return m

    def x_AnnAssign(self, s, fr, m):
        if s.value is None:
            return m
        v = self.eval(s.value, fr, m)
        return self.assign(s.target, v, fr, v.cov())

    def x_AugAssign(self, s, fr, m):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr, m, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr, m)
            cur = self.getattr_pv(base, t.attr, base.cov(), t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr, m)
            idx = self.eval(t.slice, fr, base.cov())
            cur = self.getitem_pv(base, idx, idx.cov(), t)
        m = cur.cov()
        v = self.eval(s.value, fr, m)
        m = v.cov()
        new = PV()
        for a, w in cur.items():
            w &= m
            if not w:
                continue
            if isinstance(a, Seq) and a.kind in ('list', 'deque') and \
                    isinstance(s.op, ast.Add):
                r = self.call_method(a, 'extend', [v.at(w)], w, s)
                new.add(a, r.cov())
            elif isinstance(a, SetO) and a.kind == 'set' and isinstance(
                    s.op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)):
                meth = {'BitOr': 'update', 'Sub': 'difference_update',
                        'BitAnd': 'intersection_update',
                        'BitXor': 'symmetric_difference_update'}[
                            type(s.op).__name__]
                r = self.call_method(a, meth, [v.at(w)], w, s)
                new.add(a, r.cov())
            else:
                new.merge(self.binop_pv(s.op, PV.of(a, w), v.at(w), w, s,
                                        True))
        m = new.cov()
        if isinstance(t, ast.Name):
            return self.assign(t, new, fr, m)
        if isinstance(t, ast.Attribute):
            for a, w in base.at(m).items():
                self.setattr_atom(a, t.attr, new.at(w), w, t)
            return m
        for a, w in base.at(m).items():
            m &= ~(w & ~self.setitem(a, idx.at(w), new.at(w), w, t))
        return m

    def assign(self, t, v, fr, m):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr, m)
            return m
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr, m)
            m = base.cov()
            for a, w in base.items():
                self.setattr_atom(a, t.attr, v.at(w), w, t)
            return m
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr, m)
            idx = self.eval(t.slice, fr, base.cov())
            m = idx.cov()
            ok = 0
            for a, w in base.at(m).items():
                ok |= self.setitem(a, idx.at(w), v.at(w), w, t)
            return ok
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, fr, m, t)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fr, m)
        self.fail(f'assignment target {type(t).__name__}', t, fr)

    def unpack(self, elts, v, fr, m, node):
        seq = self.to_list(v, m, node)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        ok = 0
        cols = [PV() for _ in elts]
        starred = Seq('list')
        for ln, (w, items) in seq.parts.items():
            w &= m
            if not w:
                continue
            if star:
                if ln < len(elts) - 1:
                    self.raise_name('ValueError', w, node)
                    continue
                i = star[0]
                k = ln - (len(elts) - 1)
                for j in range(i):
                    cols[j].merge(items[j].at(w))
                mid = items[i:i + k]
                pm, pi = starred.parts.get(k, (0, [PV() for _ in mid]))
                starred.parts[k] = (pm | w, [
                    x.merge(y.at(w)) for x, y in zip(pi, mid)])
                for j in range(i + 1, len(elts)):
                    cols[j].merge(items[j + k - 1].at(w))
                ok |= w
            else:
                if ln != len(elts):
                    self.raise_name('ValueError', w, node)
                    continue
                for j, it in enumerate(items):
                    cols[j].merge(it.at(w))
                ok |= w
        if star:
            cols[star[0]] = PV.of(starred, ok)
        for e, c in zip(elts, cols):
            ok = self.assign(e, c.at(ok), fr, ok)
        return ok

    def store_name(self, name, v, fr, m):
        tgt = fr
        if name in fr.globals_:
            ns = fr.module.ns
            ns[name] = ns.get(name, PV()).write(v, m)
            return
        if name in fr.nonlocals_:
            tgt = fr.parent
            while tgt is not None and name not in tgt.vars:
                tgt = tgt.parent
            if tgt is None:
                self.fail(f'nonlocal {name}', None, fr)
        tgt.vars[name] = tgt.vars.get(name, PV()).write(v, m)

    def load_name(self, name, fr, m, node):
        f = fr
        first = True
        while f is not None:
            if f.kind in ('func', 'comp', 'module') or first:
                if name in f.vars and not (f.kind == 'func'
                                           and name in f.globals_):
                    if f is not fr:
                        self.rec_bad = True
                    v = f.vars[name].at(m)
                    miss = m & ~v.cov()
                    if miss:
                        if f.kind == 'class':
                            v = v.merge(self.load_outer(name, f, miss, node))
                        else:
                            self.raise_name('UnboundLocalError', miss, node)
                    return v
                if f.kind == 'func' and f.locals_ and name in f.locals_ \
                        and name not in f.globals_ \
                        and name not in f.nonlocals_:
                    self.raise_name('UnboundLocalError', m, node)
                    return PV()
            first = False
            f = f.parent
        return self.load_outer(name, fr, m, node)

    def load_outer(self, name, fr, m, node):
        ns = fr.module.ns
        if name in ns:
            v = ns[name]
            if self.rec is not None:
                self.rec.append((ns, name, v))
            v = v.at(m)
            miss = m & ~v.cov()
            if miss:
                self.raise_name('NameError', miss, node)
            return v
        b = bm.builtin(name)
        if b is not None:
            return PV.of(b, m)
        self.raise_name('NameError', m, node)
        return PV()

    def x_Delete(self, s, fr, m):
        self.rec_bad = True
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.vars:
                    fr.vars[t.id] = fr.vars[t.id].at(~m & self.full)
                    if not fr.vars[t.id].d:
                        del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, fr, m)
                idx = self.eval(t.slice, fr, base.cov())
                m = idx.cov()
                ok = 0
                for a, w in base.at(m).items():
                    ok |= bm.delitem(self, a, idx.at(w), w, t)
                m = ok
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, fr, m)
                m = base.cov()
                for a, w in base.items():
                    if t.attr in a.attrs:
                        a.attrs[t.attr] = a.attrs[t.attr].at(~w)
            else:
                self.fail('del target', t, fr)
        return m

    def x_If(self, s, fr, m):
        c = self.eval(s.test, fr, m)
        t, f = self.truth(c, c.cov(), s.test)
        mt = self.exec_block(s.body, fr, t) if t else 0
        mf = self.exec_block(s.orelse, fr, f) if f else 0
        return mt | mf

    def x_While(self, s, fr, m):
        live, exited = m, 0
        fr.loops.append([0, 0])
        brk = 0
        for _ in range(self.MAX_LOOP):
            if not live:
                break
            c = self.eval(s.test, fr, live)
            t, f = self.truth(c, c.cov(), s.test)
            exited |= f
            fr.loops[-1][1] = 0
            live = self.exec_block(s.body, fr, t) if t else 0
            live |= fr.loops[-1][1]
            brk |= fr.loops[-1][0]
            fr.loops[-1][0] = 0
        else:
            self.fail('loop bound exceeded', s, fr, Endless)
        fr.loops.pop()
        if s.orelse and exited:
            exited = self.exec_block(s.orelse, fr, exited)
        return exited | brk

    def x_For(self, s, fr, m):
        src = self.eval(s.iter, fr, m)
        live = src.cov()
        it = self.iterate_pv(src, live, s)
        exited = brk = 0
        fr.loops.append([0, 0])
        for _ in range(self.MAX_ITER):
            if not live:
                break
            v, done, pending = it.partial(live)
            exited |= done
            live = v.cov()
            if not live | pending:
                break
            live = self.assign(s.target, v, fr, live) if live else 0
            fr.loops[-1][1] = 0
            live = self.exec_block(s.body, fr, live) if live else 0
            live |= fr.loops[-1][1] | pending
            brk |= fr.loops[-1][0]
            fr.loops[-1][0] = 0
        else:
            self.fail('loop bound exceeded', s, fr, Endless)
        fr.loops.pop()
        if s.orelse and exited:
            exited = self.exec_block(s.orelse, fr, exited)
        return exited | brk

    def x_Break(self, s, fr, m):
        fr.loops[-1][0] |= m
        return 0

    def x_Continue(self, s, fr, m):
        fr.loops[-1][1] |= m
        return 0

    def x_Assert(self, s, fr, m):
        c = self.eval(s.test, fr, m)
        t, f = self.truth(c, c.cov(), s.test)
        self.raise_name('AssertionError', f, s)
        return t

    def x_Raise(self, s, fr, m):
        if s.exc is None:
            if not self.exc_ctx:
                self.fail('bare raise', s, fr)
            for exc, w in self.exc_ctx[-1].items():
                self.raise_(exc, w & m, s)
            return 0
        v = self.eval(s.exc, fr, m)
        for a, w in v.items():
            if isinstance(a, Ext) and is_exc_name(a.name):
                a = ExcV(a.name.replace('builtins.', ''))
            elif isinstance(a, ClassV):
                a = Obj(a)
            self.raise_(a, w, s)
        return 0

    def exc_matches(self, exc, cls):
        if isinstance(cls, Ext):
            nm = cls.name.replace('builtins.', '')
            if isinstance(exc, ExcV):
                return exc_isa(exc.name, nm)
            if isinstance(exc, Obj):
                for c in exc.cls.mro:
                    if isinstance(c, Ext) and exc_isa(
                            c.name.replace('builtins.', ''), nm):
                        return True
            return False
        if isinstance(cls, ClassV):
            return isinstance(exc, Obj) and exc.cls.subclass_of(cls)
        if isinstance(cls, Seq):
            return any(self.exc_matches(exc, i.only())
                       for _, its in cls.parts.values() for i in its)
        self.fail(f'except clause over {cls!r}')

    def x_Try(self, s, fr, m):
        self.rec_bad = True
        rets_before = fr.ret.cov()
        self.handlers.append([])
        after = self.exec_block(s.body, fr, m)
        caught = self.handlers.pop()
        # an exception raised in a world ends that world's execution, so the
        # first record per world is the one that counts
        out = 0
        for h in s.handlers:
            if not caught:
                break
            if h.type is None:
                pred = None
            else:
                tv = self.eval(h.type, fr, self.full)
                pred = tv.only()
            hit, rest = [], []
            for rec in caught:
                (hit if pred is None or self.exc_matches(rec[0], pred)
                 else rest).append(rec)
            caught = rest
            if hit:
                hm = 0
                ctx = PV()
                for exc, w, _ in hit:
                    hm |= w
                    ctx.add(exc, w)
                if h.name:
                    self.store_name(h.name, ctx, fr, hm)
                self.exc_ctx.append(ctx)
                out |= self.exec_block(h.body, fr, hm)
                self.exc_ctx.pop()
        for rec in caught:
            self.handlers[-1].append(rec)
        if s.orelse and after:
            after = self.exec_block(s.orelse, fr, after)
        out |= after
        if s.finalbody:
            e = self.exec_block(s.finalbody, fr, m)
            if e != m:
                self.fail('control flow in finally', s, fr)
        return out

    def x_With(self, s, fr, m):
        self.rec_bad = True
        return self.with_items(s, s.items, fr, m)

    def with_items(self, s, items, fr, m):
        if not items:
            return self.exec_block(s.body, fr, m)
        item = items[0]
        v = self.eval(item.context_expr, fr, m)
        after = 0
        for a, w in v.items():
            if isinstance(a, Opq) and a.info.get('suppress') is not None:
                enter = PV.of(NONE, w)
                classes = a.info['suppress']
            else:
                classes = None
                enter = self.call_pv(self.getattr_atom(a, '__enter__', w, s),
                                     [], {}, w, s)
                w &= enter.cov()
            if item.optional_vars is not None and w:
                self.assign(item.optional_vars, enter.at(w), fr, w)
            self.handlers.append([])
            done = self.with_items(s, items[1:], fr, w)
            caught = self.handlers.pop()
            raised = 0
            for rec in caught:
                raised |= rec[1]
            if classes is not None:
                for rec in caught:
                    if any(self.exc_matches(rec[0], c) for c in classes):
                        done |= rec[1]
                    else:
                        self.handlers[-1].append(rec)
                after |= done
                continue
            quiet = w & ~raised
            if quiet:
                r = self.call_pv(self.getattr_atom(a, '__exit__', quiet, s),
                                 [PV.of(NONE, quiet)] * 3, {}, quiet, s)
                done &= r.cov() | raised
            for exc, em, loc in caught:
                cls = exc.cls if isinstance(exc, Obj) else Ext(
                    'builtins.' + exc.name)
                r = self.call_pv(
                    self.getattr_atom(a, '__exit__', em, s),
                    [PV.of(cls, em), PV.of(exc, em), PV.of(NONE, em)], {},
                    em, s)
                t, f = self.truth(r, em & r.cov(), s)
                done |= t
                if f:
                    self.handlers[-1].append((exc, f, loc))
            after |= done
        return after

    def x_Global(self, s, fr, m):
        self.rec_bad = True
        fr.globals_.update(s.names)
        return m

    def x_Nonlocal(self, s, fr, m):
        self.rec_bad = True
        fr.nonlocals_.update(s.names)
        return m

    def x_Import(self, s, fr, m):
        self.rec_bad = True
        for al in s.names:
            top = al.name.split('.')[0]
            mod = self.module(al.name)
            if mod is not None:
                self.store_name(al.asname or top, PV.of(
                    mod if al.asname else self.modules[top], m), fr, m)
            else:
                self.store_name(al.asname or top, PV.of(
                    Ext(al.name if al.asname else top), m), fr, m)
        return m

    def x_ImportFrom(self, s, fr, m):
        self.rec_bad = True
        name = self.resolve_from(fr.module, s.level, s.module or '')
        if name == '__future__':
            return m
        internal = name.split('.')[0] in ('rene',) + MODELLED
        mod = self.module(name) if internal else None
        for al in s.names:
            if internal:
                if mod is None:
                    self.raise_name('ImportError', m, s)
                    return 0
                if al.name in mod.ns:
                    v = mod.ns[al.name].at(m)
                else:
                    sub = self.module(name + '.' + al.name)
                    if sub is None:
                        self.raise_name('ImportError', m, s)
                        return 0
                    v = PV.of(sub, m)
            else:
                v = self.ext_value(f'{name}.{al.name}').at(m)
            self.store_name(al.asname or al.name, v, fr, m)
        return m

    def make_func(self, node, fr, m):
        cls = fr.cls_under if fr.kind == 'class' else None
        name = getattr(node, 'name', '<lambda>')
        if fr.kind == 'class':
            q = fr.qual + '.' + name
        elif fr.kind in ('func', 'comp') and fr.func is not None:
            q = fr.func.qualname + '.<locals>.' + name
        else:
            q = name
        a = node.args
        defaults = [self.eval(d, fr, m) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr, m)
               for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = fr if fr.kind in ('func', 'comp') else (
            fr.parent if fr.kind == 'class' else None)
        while closure is not None and closure.kind == 'class':
            closure = closure.parent
        if closure is not None and closure.kind == 'module':
            closure = None
        f = FuncV(node, fr.module, closure, name, q, cls, defaults, kwd)
        return f

    def decorate(self, v, decs, fr, m):
        for d in reversed(decs):
            dv = self.eval(d, fr, m)
            fn = dv.only()
            if isinstance(fn, Ext):
                nm = fn.name
                base = nm.split('.')[-1]
                if nm == 'builtins.property' or base == 'abstractproperty':
                    v = Wrapped('property', v)
                elif base == 'cached_property':
                    v = Wrapped('cached_property', v)
                elif nm == 'builtins.classmethod':
                    v = Wrapped('classmethod', v)
                elif nm == 'builtins.staticmethod':
                    v = Wrapped('staticmethod', v)
                elif base in ('final', 'override', 'abstractmethod',
                              'overload', 'unique', 'wraps',
                              'runtime_checkable', 'verify',
                              'no_type_check', 'wraps()', 'deprecated()',
                              'dataclass_transform()'):
                    if base == 'overload':
                        v.is_overload = True
                elif base in ('dataclass', 'dataclass()'):
                    self.dataclass(v, {
                        k.arg: k.value.value for k in d.keywords}
                        if isinstance(d, ast.Call) else {}, fr)
                else:
                    self.fail(f'decorator {nm}', d, fr)
            else:
                r = self.call_pv(dv, [PV.of(v, m)], {}, m, d)
                v = r.only()
        return v

    # --------------------------------------------------- generated classes
    def fields_of(self, cls):
        """[(name, default expression or None)] in definition order"""
        out = {}
        for c in reversed(cls.mro):
            if isinstance(c, ClassV) and getattr(c, 'node', None):
                for st in c.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(
                            st.target, ast.Name) and 'ClassVar' not in \
                            ast.unparse(st.annotation):
                        out[st.target.id] = (st.value, c)
        return out

    def synthesize(self, cls, source, fr):
        """methods given in source, defined in the body of a class"""
        tree = ast.parse(source)
        for n in ast.walk(tree):
            if hasattr(n, 'lineno'):
                n.lineno = n.end_lineno = cls.node.lineno
        cf = Frame(fr.func, fr.module, fr, 'class')
        cf.qual = cls.qualname
        cf.cls_under = cls
        cf.vars = {}
        for f in tree.body:
            if f.name not in cls.attrs:
                cls.attrs[f.name] = PV.of(self.make_func(f, cf, self.full),
                                          self.full)

    def dataclass(self, cls, opts, fr):
        fields = self.fields_of(cls)
        args, body, shown = [], [], []
        star = bool(opts.get('kw_only'))
        for name, (value, owner) in fields.items():
            init, compare = True, True
            default = None
            if isinstance(value, ast.Call) and ast.unparse(
                    value.func).split('.')[-1] == 'field':
                kws = {k.arg: k.value for k in value.keywords}
                init = ast.unparse(kws['init']) != 'False' \
                    if 'init' in kws else True
                compare = ast.unparse(kws['compare']) != 'False' \
                    if 'compare' in kws else True
                if 'default_factory' in kws:
                    default = f'({ast.unparse(kws["default_factory"])})()'
                elif 'default' in kws:
                    default = f'({ast.unparse(kws["default"])})'
                owner.attrs.pop(name, None)
            elif value is not None:
                default = f'({ast.unparse(value)})'
            if init:
                args.append(name if default is None
                            else f'{name}=__unset__')
            if default is not None:
                body.append(f'self.{name} = ' + (
                    f'{default} if {name} is __unset__ else {name}'
                    if init else default))
            elif init:
                body.append(f'self.{name} = {name}')
            if compare:
                shown.append(name)
        if cls.lookup('__post_init__')[0] is not None:
            body.append('self.__post_init__()')
        tup = '(' + ''.join(f'{{0}}.{n}, ' for n in shown) + ')'
        a, b = tup.format('self'), tup.format('other')
        src = []
        if opts.get('init', True):
            text = ', '.join(['self'] + (['*'] if star and args else [])
                             + args)
            src.append(f'def __init__({text}):\n    '
                       + '\n    '.join(body or ['pass']))
        if opts.get('eq', True):
            src.append('def __eq__(self, other):\n'
                       '    if other.__class__ is not self.__class__:\n'
                       '        return NotImplemented\n'
                       f'    return {a} == {b}')
            if opts.get('frozen') or opts.get('unsafe_hash'):
                src.append(f'def __hash__(self):\n    return hash({a})')
        if opts.get('order'):
            for n, op in (('lt', '<'), ('le', '<='), ('gt', '>'),
                          ('ge', '>=')):
                src.append(f'def __{n}__(self, other):\n'
                           f'    return {a} {op} {b}')
        src.append('def __repr__(self):\n    return '
                   + repr(f'{cls.name}(...)'))
        fr.module.ns.setdefault('__unset__', PV.of(Opq('unset'), self.full))
        self.synthesize(cls, '\n'.join(src), fr)

    def functional_tuple(self, s, fr):
        args = s.value.args
        try:
            names = ast.literal_eval(args[1])
        except ValueError:
            names = [e.elts[0].value for e in args[1].elts]
        if isinstance(names, str):
            names = names.replace(',', ' ').split()
        names = [n if isinstance(n, str) else n[0] for n in names]
        dfl = {k.arg: k.value for k in s.value.keywords}.get('defaults')
        values = [ast.unparse(e) for e in dfl.elts] if dfl is not None else []
        pad = [None] * (len(names) - len(values)) + values
        node = ast.parse(f'class {args[0].value}(__named_tuple__):\n' + (
            '\n'.join(f'    {n}: object' + (f' = {v}' if v else '')
                      for n, v in zip(names, pad)) or '    pass')).body[0]
        for n in ast.walk(node):
            if hasattr(n, 'lineno'):
                n.lineno = n.end_lineno = s.lineno
        old = fr.vars.get(args[0].value)
        fr.module.ns['__named_tuple__'] = PV.of(Ext('typing.NamedTuple'),
                                                self.full)
        self.x_ClassDef(node, fr, self.full)
        v = fr.vars[args[0].value]
        if old is None:
            del fr.vars[args[0].value]
        else:
            fr.vars[args[0].value] = old
        return v

    def named_tuple(self, cls, fr):
        fields = self.fields_of(cls)
        text = ', '.join(['self'] + [
            n if v is None else f'{n}={ast.unparse(v)}'
            for n, (v, _) in fields.items()])
        body = [f'self.{n} = {n}' for n in fields] or ['pass']
        for n in fields:
            cls.attrs.pop(n, None)
        self.synthesize(cls, f'def __init__({text}):\n    '
                        + '\n    '.join(body), fr)
        cls.attrs['_fields'] = PV.of(Seq('tuple', {len(fields): (
            self.full, [PV.of(K(n), self.full) for n in fields])}),
            self.full)

    def x_FunctionDef(self, s, fr, m):
        self.rec_bad = True
        f = self.make_func(s, fr, m)
        v = self.decorate(f, s.decorator_list, fr, m)
        self.store_name(s.name, PV.of(v, m), fr, m)
        return m

    def x_ClassDef(self, s, fr, m):
        self.rec_bad = True
        bases = []
        named = False
        for b in s.bases:
            bv = self.eval(b, fr, m)
            a = bv.only()
            if a == Ext('typing.NamedTuple'):
                a = self.module('pystd').ns['_NamedTuple'].only()
                named = True
            if a not in bases and not (isinstance(a, Ext) and a.name in (
                    'builtins.object',)):
                bases.append(a)
        q = s.name if fr.kind == 'module' else (
            (fr.qual + '.' if fr.kind == 'class' else
             fr.func.qualname + '.<locals>.') + s.name)
        cls = ClassV(s.name, q, fr.module, bases)
        cls.node = s
        cf = Frame(fr.func, fr.module, fr, 'class')
        cf.qual = q
        cf.cls_under = cls
        cf.vars = cls.attrs
        m2 = self.exec_block(s.body, cf, m)
        if m2 != m:
            self.fail('class body raises', s, fr)
        if named:
            self.named_tuple(cls, fr)
        if cls.is_enum:
            auto = 0
            ignore = set()
            for k, v in list(cls.attrs.items()):
                if k.startswith('_') or k in ignore:
                    continue
                a = v.only()
                if isinstance(a, (FuncV, Wrapped, ClassV)):
                    continue
                if isinstance(a, Term) and a.fn == 'enum.auto':
                    auto += 1
                    a = K(auto)
                    v = PV.of(a, self.full)
                elif isinstance(a, K) and type(a.v) is int:
                    auto = a.v
                dup = [x for x in cls.members.values()
                       if x.value.only() == a]
                mem = dup[0] if dup else EnumM(cls, k, v)
                if not dup:
                    cls.members[k] = mem
                cls.attrs[k] = PV.of(mem, self.full)
        for c in cls.mro[1:]:
            if isinstance(c, ClassV) and '__init_subclass__' in c.attrs:
                f = c.attrs['__init_subclass__'].only()
                self.call_atom(getattr(f, 'fn', f), [PV.of(cls, m)], {
                    k.arg: self.eval(k.value, fr, m) for k in s.keywords
                    if k.arg != 'metaclass'}, m, s)
                break
        v = self.decorate(cls, s.decorator_list, fr, m)
        self.store_name(s.name, PV.of(v, m), fr, m)
        return m

    def x_TypeAlias(self, s, fr, m):
        return m

    def x_Match(self, s, fr, m):
        subj = self.eval(s.subject, fr, m)
        rem = subj.cov()
        out = 0
        for case in s.cases:
            if not rem:
                break
            hit = self.match(case.pattern, subj.at(rem), fr, rem)
            if case.guard is not None and hit:
                g = self.eval(case.guard, fr, hit)
                hit2, _ = self.truth(g, g.cov(), case.guard)
                rem &= ~(hit & ~g.cov())
                hit = hit2
            rem &= ~hit
            out |= self.exec_block(case.body, fr, hit)
        return out | rem

    def match(self, p, subj, fr, m):
        if isinstance(p, ast.MatchValue):
            v = self.eval(p.value, fr, m)
            t, _ = self.eq_pv(subj, v, m, p)
            return t
        if isinstance(p, ast.MatchSingleton):
            return subj.d.get(K(p.value), 0) & m
        if isinstance(p, ast.MatchAs):
            hit = m if p.pattern is None else self.match(p.pattern, subj, fr,
                                                         m)
            if p.name:
                self.store_name(p.name, subj.at(hit), fr, hit)
            return hit
        if isinstance(p, ast.MatchOr):
            hit = 0
            for q in p.patterns:
                hit |= self.match(q, subj.at(m & ~hit), fr, m & ~hit)
            return hit
        if isinstance(p, ast.MatchSequence):
            hit = 0
            pats = p.patterns
            star = [i for i, q in enumerate(pats)
                    if isinstance(q, ast.MatchStar)]
            for a, w in subj.items():
                w &= m
                if isinstance(a, Obj) and a.cls.lookup('_fields')[0]:
                    a = self.to_list(PV.of(a, w), w, p)
                if not isinstance(a, Seq):
                    continue
                for ln, (pm, items) in list(a.parts.items()):
                    ww = w & pm
                    if ln < len(pats) - 1 or (not star and ln != len(pats)):
                        continue
                    k = star[0] if star else len(pats)
                    tail = len(pats) - k - 1 if star else 0
                    pairs = list(zip(pats[:k], items[:k])) + (list(zip(
                        pats[k + 1:], items[ln - tail:])) if star else [])
                    for q, it in pairs:
                        if ww:
                            ww = self.match(q, it.at(ww), fr, ww)
                    if star and ww and pats[k].name:
                        rest = Seq('list', {ln - tail - k: (
                            ww, list(items[k:ln - tail]))})
                        self.store_name(pats[k].name, PV.of(rest, ww), fr,
                                        ww)
                    hit |= ww
            return hit
        if isinstance(p, ast.MatchClass):
            cv = self.eval(p.cls, fr, m)
            hit = 0
            for c, w in cv.items():
                t, _ = self.isinstance_pv(subj.at(w), c, w)
                names = []
                if p.patterns:
                    if isinstance(c, ClassV):
                        args = c.lookup('__match_args__')[0]
                        if args is not None:
                            (_, its), = args.only().parts.values()
                            names = [x.only().v for x in its]
                        else:
                            names = list(self.fields_of(c))
                    elif len(p.patterns) == 1:
                        if t:
                            t = self.match(p.patterns[0], subj.at(t), fr, t)
                        names = None
                if names is not None and len(names) < len(p.patterns):
                    self.raise_name('TypeError', t, p)
                    t = 0
                pairs = list(zip(names or (), p.patterns)) + list(
                    zip(p.kwd_attrs, p.kwd_patterns))
                for attr, q in pairs:
                    if t:
                        t = self.match(q, self.getattr_pv(
                            subj.at(t), attr, t), fr, t)
                hit |= t
            return hit
        self.fail(f'pattern {type(p).__name__}', p, fr)

    def isinstance_pv(self, subj, cls, m):
        t = 0
        for a, w in subj.items():
            if self.isinstance_atom(a, cls):
                t |= w & m
        return t, m & ~t

    def type_of(self, a):
        if isinstance(a, Obj):
            return a.cls
        if isinstance(a, EnumM):
            return a.cls
        if isinstance(a, K):
            return Ext('builtins.' + type(a.v).__name__)
        if isinstance(a, Seq):
            return Ext({'deque': 'collections.deque'}.get(
                a.kind, 'builtins.' + a.kind))
        if isinstance(a, SetO):
            return Ext('builtins.' + a.kind)
        if isinstance(a, DictO):
            return Ext('builtins.dict')
        if isinstance(a, StrT):
            return Ext('builtins.str')
        if isinstance(a, SliceV):
            return Ext('builtins.slice')
        if isinstance(a, RangeV):
            return Ext('builtins.range')
        if isinstance(a, Num):
            return Ext('rithm.fraction.Fraction')
        if isinstance(a, ClassV):
            return Ext('builtins.type')
        if isinstance(a, (FuncV,)):
            return Ext('types.FunctionType')
        if isinstance(a, ExcV):
            return Ext('builtins.' + a.name)
        if isinstance(a, IterO):
            return Ext('types.GeneratorType')
        if isinstance(a, (Bound, BuiltinM, PyFn)):
            return Ext('types.MethodType')
        if isinstance(a, Ext) and a.name.startswith('builtins.') and \
                isinstance(getattr(builtins, a.name[9:], None), type):
            return Ext('builtins.type')
        if isinstance(a, (Opq, Term)) and 'cls' in a.info:
            return a.info['cls']
        self.fail(f'type of {a!r}')

    EXT_SUP = {
        'builtins.bool': {'builtins.int', 'numbers.Rational'},
        'builtins.int': {'numbers.Rational'},
        'builtins.list': {'collections.abc.Sequence', 'typing.Sequence',
                          'collections.abc.Iterable'},
        'builtins.tuple': {'collections.abc.Sequence', 'typing.Sequence',
                           'collections.abc.Iterable'},
        'builtins.str': {'collections.abc.Sequence',
                         'collections.abc.Iterable'},
        'builtins.dict': {'collections.abc.Mapping', 'typing.Mapping',
                          'collections.abc.MutableMapping',
                          'collections.abc.Iterable'},
        'builtins.set': {'collections.abc.Set', 'collections.abc.Iterable'},
        'builtins.frozenset': {'collections.abc.Set',
                               'collections.abc.Iterable'},
        'builtins.range': {'collections.abc.Sequence',
                           'collections.abc.Iterable'},
        'collections.deque': {'collections.abc.Iterable'},
    }

    def isinstance_atom(self, a, cls):
        if isinstance(cls, Seq):
            return any(self.isinstance_atom(a, i.only())
                       for _, its in cls.parts.values() for i in its)
        ty = self.type_of(a)
        if isinstance(cls, ClassV):
            return isinstance(ty, ClassV) and ty.subclass_of(cls)
        if isinstance(cls, Ext):
            if cls.name == 'builtins.object':
                return True
            if isinstance(ty, Ext):
                return ty == cls or cls.name in self.EXT_SUP.get(
                    ty.name, ())
            if isinstance(ty, ClassV):
                if cls in ty.mro:
                    return True
                if cls.name in ('builtins.int',) and ty.int_enum:
                    return True
                return False
        self.fail(f'isinstance against {cls!r}')

    # ---------------------------------------------------------- expressions
    def eval(self, e, fr, m):
        if not m:
            return PV()
        self.cur_node = e
        fn = self.dispatch.get(type(e))
        if fn is None:
            fn = self.dispatch[type(e)] = getattr(
                self, 'e_' + type(e).__name__, self.e_unsupported)
        return fn(e, fr, m)

    def e_unsupported(self, e, fr, m):
        self.fail(f'unsupported expression {type(e).__name__}', e, fr)

    def e_Constant(self, e, fr, m):
        return PV.of(K(e.value), m)

    def e_Name(self, e, fr, m):
        return self.load_name(e.id, fr, m, e)

    def e_Attribute(self, e, fr, m):
        v = self.eval(e.value, fr, m)
        return self.getattr_pv(v, e.attr, v.cov(), e)

    def e_NamedExpr(self, e, fr, m):
        v = self.eval(e.value, fr, m)
        tgt = fr
        while tgt.kind == 'comp':
            tgt = tgt.parent
        self.store_name(e.target.id, v, tgt, v.cov())
        return v

    def e_BoolOp(self, e, fr, m):
        out = PV()
        live = m
        for i, x in enumerate(e.values):
            v = self.eval(x, fr, live)
            live = v.cov()
            if i == len(e.values) - 1:
                out.merge(v)
                break
            t, f = self.truth(v, live, x)
            if isinstance(e.op, ast.And):
                out.merge(v.at(f))
                live = t
            else:
                out.merge(v.at(t))
                live = f
            if not live:
                break
        return out

    def e_UnaryOp(self, e, fr, m):
        v = self.eval(e.operand, fr, m)
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v, v.cov(), e)
            return pv_bool(f, t)
        out = PV()
        for a, w in v.items():
            if isinstance(a, K) and isinstance(a.v, (int, float)):
                out.add(K({'USub': lambda: -a.v, 'UAdd': lambda: +a.v,
                           'Invert': lambda: ~a.v}[type(e.op).__name__]()),
                        w)
            elif isinstance(a, Num) and isinstance(e.op, ast.USub):
                out.add(Num(-a.r), w)
            elif isinstance(a, Num) and isinstance(e.op, ast.UAdd):
                out.add(a, w)
            elif isinstance(a, Obj):
                nm = {'USub': '__neg__', 'UAdd': '__pos__',
                      'Invert': '__invert__'}[type(e.op).__name__]
                out.merge(self.call_method(a, nm, [], w, e))
            else:
                self.fail(f'unary operator on {a!r}', e, fr)
        return out

    def e_BinOp(self, e, fr, m):
        a = self.eval(e.left, fr, m)
        b = self.eval(e.right, fr, a.cov())
        return self.binop_pv(e.op, a, b, b.cov(), e)

    OPS = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
           'Div': '__truediv__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__',
           'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__',
           'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__',
           'MatMult': '__matmul__'}

    def binop_pv(self, op, x, y, m, node, inplace=False):
        out = PV()
        for a, wa in x.items():
            wa &= m
            if not wa:
                continue
            for b, wb in y.items():
                w = wa & wb
                if w:
                    out.merge(self.binop(op, a, b, w, node, inplace))
        return out

    def binop(self, op, a, b, m, node, inplace=False):
        name = type(op).__name__
        if isinstance(a, EnumM) and a.cls.int_enum and \
                a.cls.lookup(self.OPS[name])[0] is None:
            a = a.value.only()
        if isinstance(b, EnumM) and b.cls.int_enum:
            b = b.value.only()
        if isinstance(a, (Obj, EnumM)) or isinstance(b, (Obj, EnumM)):
            meth = self.OPS[name]
            out = PV()
            rem = m
            tries = []
            if inplace:
                tries.append((a, b, '__i' + meth[2:]))
            tries += [(a, b, meth), (b, a, '__r' + meth[2:])]
            for s, o, nm in tries:
                if not rem:
                    break
                if isinstance(s, (Obj, EnumM)) and s.cls.lookup(nm)[0] \
                        is not None:
                    if nm.startswith('__r') and isinstance(o, Obj) and \
                            o.cls is s.cls:
                        continue
                    r = self.call_method(s, nm, [PV.of(o, rem)], rem, node)
                    rem = r.d.get(NOT_IMPLEMENTED, 0)
                    out.merge(PV({k: v for k, v in r.d.items()
                                  if k != NOT_IMPLEMENTED}))
            if rem:
                self.raise_name('TypeError', rem, node)
            return out
        if name == 'Mod' and (isinstance(a, StrT) or isinstance(a, K)
                              and isinstance(a.v, str)):
            return bm.percent_str(self, a, b, m, node)
        if isinstance(a, Num) or isinstance(b, Num):
            na, nb = self.num(a), self.num(b)
            if na is not None and nb is not None:
                if name in ('Add', 'Sub', 'Mult'):
                    key = (name, na, nb)
                    r = self.arith.get(key)
                    if r is None:
                        r = self.arith[key] = Num(
                            na + nb if name == 'Add' else
                            na - nb if name == 'Sub' else na * nb)
                    return PV.of(r, m)
                if name == 'Div':
                    if nb.n.is_zero():
                        self.raise_name('ZeroDivisionError', m, node)
                        return PV()
                    if not nb.is_const():
                        z = self.sign(nb, m, node)[1]
                        if z:
                            self.raise_name('ZeroDivisionError', z, node)
                            m &= ~z
                            if not m:
                                return PV()
                        self.note_division(nb, m, node)
                    return PV.of(Num(na / nb), m)
                if name == 'Pow' and nb.is_const():
                    k = nb.const_value()
                    if k.denominator == 1 and 0 <= k <= 8:
                        r = Rat.const(1)
                        for _ in range(int(k)):
                            r = r * na
                        return PV.of(Num(r), m)
                if name == 'FloorDiv':
                    self.lose('//', m, node)
                    return self.binop(ast.Div(), a, b, m, node)
            if na is None and isinstance(a, (K, Seq, SetO, DictO)) or \
                    nb is None and isinstance(b, (K, Seq, SetO, DictO)):
                self.raise_name('TypeError', m, node)
                return PV()
            if name == 'Mod':
                self.lose('%', m, node)
            self.fail(f'scalar operator {name} on {a!r}, {b!r}', node)
        if isinstance(a, K) and isinstance(b, K):
            import operator as o
            fn = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv,
                  'FloorDiv': o.floordiv, 'Mod': o.mod, 'BitAnd': o.and_,
                  'BitOr': o.or_, 'BitXor': o.xor, 'Pow': o.pow,
                  'LShift': o.lshift, 'RShift': o.rshift}[name]
            try:
                return PV.of(K(fn(a.v, b.v)), m)
            except ZeroDivisionError:
                self.raise_name('ZeroDivisionError', m, node)
                return PV()
            except TypeError:
                self.raise_name('TypeError', m, node)
                return PV()
        return bm.container_binop(self, name, a, b, m, node)

    def note_division(self, den, m, node):
        self.notes.append(('division', den, m, self.frames[-1].where(node)
                           if self.frames else '?'))

    def e_Compare(self, e, fr, m):
        out = PV()
        left = self.eval(e.left, fr, m)
        live = left.cov()
        for i, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rx, fr, live)
            live = right.cov()
            r = PV()
            for a, wa in left.items():
                wa &= live
                if not wa:
                    continue
                for b, wb in right.items():
                    w = wa & wb
                    if w:
                        r.merge(self.compare_atoms(op, a, b, w, e))
            live = r.cov()
            if i == len(e.ops) - 1:
                out.merge(r)
                break
            t, f = self.truth(r, live, e)
            out.merge(r.at(f))
            live = t
            left = right.at(t)
            if not live:
                break
        return out

    def e_IfExp(self, e, fr, m):
        c = self.eval(e.test, fr, m)
        t, f = self.truth(c, c.cov(), e.test)
        return self.eval(e.body, fr, t).merge(self.eval(e.orelse, fr, f))

    def e_Lambda(self, e, fr, m):
        self.rec_bad = True
        return PV.of(self.make_func(e, fr, m), m)

    def eval_args(self, e, fr, m):
        """-> list of (args, kw, mask) alternatives"""
        alts = [([], {}, m)]
        for x in e.args:
            new = []
            for args, kw, w in alts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, fr, w)
                    seq = self.to_list(v, v.cov(), x)
                    for ln, (pm, items) in seq.parts.items():
                        ww = w & pm
                        if ww:
                            new.append((args + list(items), kw, ww))
                else:
                    v = self.eval(x, fr, w)
                    if v.cov():
                        new.append((args + [v], kw, v.cov()))
            alts = new
        for k in e.keywords:
            new = []
            for args, kw, w in alts:
                v = self.eval(k.value, fr, w)
                c = v.cov()
                if not c:
                    continue
                if k.arg is None:
                    for a, aw in v.items():
                        if not isinstance(a, DictO):
                            self.fail('** argument', e, fr)
                        kk = dict(kw)
                        for key, val, pm in a.items:
                            if aw & ~pm:
                                self.fail('** argument', e, fr)
                            kk[key.at(aw).only().v] = val
                        new.append((args, kk, aw))
                else:
                    kk = dict(kw)
                    kk[k.arg] = v
                    new.append((args, kk, c))
            alts = new
        return alts

    def e_Call(self, e, fr, m):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not \
                e.args:
            f = fr
            while f.kind == 'comp':
                f = f.parent
            fn = f.func
            first = f.vars[f.first].at(m)
            out = PV()
            for a, w in first.items():
                out.add(SuperV(fn.cls, a), w)
            return out
        fv = self.eval(e.func, fr, m)
        out = PV()
        for args, kw, w in self.eval_args(e, fr, fv.cov()):
            self.cur_node = e
            out.merge(self.call_pv(fv.at(w), args, kw, w, e))
        return out

    def e_Tuple(self, e, fr, m):
        return self.build_seq('tuple', e.elts, fr, m)

    def e_List(self, e, fr, m):
        return self.build_seq('list', e.elts, fr, m)

    def build_seq(self, kind, elts, fr, m):
        self.rec_bad = True
        alts = {0: (m, [])}
        for x in elts:
            live = 0
            for w, _ in alts.values():
                live |= w
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr, live)
                seq = self.to_list(v, v.cov(), x)
                new = {}
                for ln, (w, items) in alts.items():
                    for l2, (w2, it2) in seq.parts.items():
                        ww = w & w2
                        if ww:
                            add_part(new, ww, items + it2)
                alts = new
            else:
                v = self.eval(x, fr, live)
                c = v.cov()
                alts = {ln + 1: (w & c, [i.at(c) for i in items] + [v.at(w)])
                        for ln, (w, items) in alts.items() if w & c}
        tot = 0
        for w, _ in alts.values():
            tot |= w
        if not tot:
            return PV()
        return PV.of(Seq(kind, alts), tot)

    def e_Set(self, e, fr, m):
        self.rec_bad = True
        s = SetO()
        for x in e.elts:
            v = self.eval(x, fr, m)
            m = v.cov()
            bm.set_add(self, s, v, m, e)
        return PV.of(s, m)

    def e_Dict(self, e, fr, m):
        self.rec_bad = True
        d = DictO()
        for k, x in zip(e.keys, e.values):
            if k is None:
                v = self.eval(x, fr, m)
                m = v.cov()
                for a, w in v.items():
                    for kk, vv, pm in a.items:
                        bm.dict_set(self, d, kk, vv, pm & w, e)
                continue
            kv = self.eval(k, fr, m)
            vv = self.eval(x, fr, kv.cov())
            m = vv.cov()
            bm.dict_set(self, d, kv, vv, m, e)
        return PV.of(d, m)

    def e_Subscript(self, e, fr, m):
        base = self.eval(e.value, fr, m)
        if self.loading and all(isinstance(a, (Ext,)) for a in base.d):
            return base
        if all(isinstance(a, ClassV) and not a.is_enum
               for a in base.d) or all(
                isinstance(a, Ext) for a in base.d):
            return base    # generic alias
        idx = self.eval(e.slice, fr, base.cov())
        return self.getitem_pv(base, idx, idx.cov(), e)

    def e_Slice(self, e, fr, m):
        def part(x):
            return PV.of(NONE, m) if x is None else self.eval(x, fr, m)
        out = PV()
        lo, hi, st = part(e.lower), part(e.upper), part(e.step)
        for a, wa in lo.items():
            for b, wb in hi.items():
                for c, wc in st.items():
                    w = wa & wb & wc
                    if w:
                        out.add(SliceV(a, b, c), w)
        return out

    def getitem_pv(self, base, idx, m, node):
        out = PV()
        for a, wa in base.items():
            wa &= m
            if not wa:
                continue
            if isinstance(a, Seq):
                if self.rec is not None:
                    for ln, ent in a.parts.items():
                        if ent[0] & wa:
                            self.rec.append((a.parts, ln, ent))
            elif isinstance(a, Obj):
                pass
            else:
                self.rec_bad = True
            for i, wi in idx.items():
                w = wa & wi
                if w:
                    if isinstance(i, SliceV):
                        self.rec_bad = True
                    out.merge(bm.getitem(self, a, i, w, node))
        return out

    def setitem(self, a, idx, val, m, node):
        return bm.setitem(self, a, idx, val, m, node)

    def e_JoinedStr(self, e, fr, m):
        outs = [((), m)]
        for p in e.values:
            new = {}
            for pre, w in outs:
                if isinstance(p, ast.Constant):
                    key = pre + (p.value,)
                    new[key] = new.get(key, 0) | w
                else:
                    v = self.eval(p.value, fr, w)
                    for a, wa in v.items():
                        s = self.to_str(a, chr(p.conversion)
                                        if p.conversion != -1 else 's', wa,
                                        p, p.format_spec)
                        for sa, ws in s.items():
                            key = pre + (sa.parts if isinstance(sa, StrT)
                                         else (sa.v,))
                            new[key] = new.get(key, 0) | ws
            outs = list(new.items())
        out = PV()
        for parts, w in outs:
            st = StrT(parts)
            if all(isinstance(x, str) for x in st.parts):
                out.add(K(''.join(st.parts)), w)
            else:
                out.add(st, w)
        return out

    def to_str(self, a, conv, m, node=None, spec=None):
        if spec is not None:
            return PV.of(StrT((('fmt', conv, a),)), m)
        if isinstance(a, K):
            return PV.of(K(repr(a.v) if conv == 'r' else str(a.v)), m)
        if isinstance(a, StrT):
            if conv == 'r':
                return PV.of(StrT((('r', a),)), m)
            return PV.of(a, m)
        if isinstance(a, Obj):
            nm = '__repr__'
            if conv == 's' and a.cls.lookup('__str__')[0] is not None:
                nm = '__str__'
            if a.cls.lookup(nm)[0] is not None:
                return self.call_method(a, nm, [], m, node)
            return PV.of(StrT((('objrepr', a),)), m)
        if isinstance(a, EnumM):
            nm = '__str__' if conv == 's' else '__repr__'
            fn, _ = a.cls.lookup(nm)
            if fn is not None:
                return self.call_method(a, nm, [], m, node)
            return PV.of(K(f'{a.cls.name}.{a.name}'), m)
        if isinstance(a, Seq):
            return self.seq_str(a, m, node)
        return PV.of(StrT(((conv, a),)), m)

    def seq_str(self, a, m, node):
        out = PV()
        br = {'list': ('[', ']'), 'tuple': ('(', ')')}[a.kind]
        for ln, (pm, items) in a.parts.items():
            w = pm & m
            if not w:
                continue
            outs = [((br[0],), w)]
            for i, it in enumerate(items):
                new = {}
                for pre, ww in outs:
                    for x, wx in it.at(ww).items():
                        for sa, ws in self.to_str(x, 'r', wx, node).items():
                            key = pre + ((', ',) if i else ()) + (
                                sa.parts if isinstance(sa, StrT)
                                else (sa.v,))
                            new[key] = new.get(key, 0) | ws
                outs = list(new.items())
            for pre, ww in outs:
                tail = ',)' if a.kind == 'tuple' and ln == 1 else br[1]
                out.add(StrT(pre + (tail,)), ww)
        return out

    def e_Starred(self, e, fr, m):
        self.fail('starred', e, fr)

    def e_Yield(self, e, fr, m):
        self.rec_bad = True
        v = PV.of(NONE, m) if e.value is None else self.eval(e.value, fr, m)
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        f.yields.emit(v)
        return PV.of(NONE, v.cov())

    def e_YieldFrom(self, e, fr, m):
        self.rec_bad = True
        v = self.eval(e.value, fr, m)
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        live = v.cov()
        it = self.iterate_pv(v, live, e)
        exited = 0
        for _ in range(self.MAX_ITER):
            if not live:
                break
            x, done, pending = it.partial(live)
            exited |= done
            if x.d:
                f.yields.emit(x)
            live = x.cov() | pending
        else:
            self.fail('unbounded iteration', e, fr)
        if it.gen is not None:
            return it.gen.returned(exited)
        return PV.of(NONE, exited)

    # ---------------------------------------------------- comprehensions
    def comp_iter(self, e, fr, m):
        self.rec_bad = True
        """generator expression / comprehension -> (IterO, mask)"""
        gens = e.generators
        cf = Frame(fr.func, fr.module, fr, 'comp')
        cf.first = fr.first
        first = self.eval(gens[0].iter, fr, m)
        m = first.cov()
        elt = e.elt if not isinstance(e, ast.DictComp) else ast.Tuple(
            elts=[e.key, e.value], ctx=ast.Load())
        interp = self
        its = [None] * len(gens)
        its[0] = self.iterate_pv(first, m, e)

        def level(k, mm):
            """advance generator k under mm -> (produced mask, done mask)"""
            got = done = 0
            live = mm
            for _ in range(interp.MAX_ITER):
                if not live:
                    break
                v, d = its[k].step(live)
                done |= d
                live = v.cov()
                if not live:
                    break
                live = interp.assign(gens[k].target, v, cf, live)
                ok = live
                for c in gens[k].ifs:
                    if not ok:
                        break
                    cv = interp.eval(c, cf, ok)
                    live &= ~(ok & ~cv.cov())
                    t, f = interp.truth(cv, cv.cov(), c)
                    ok = t
                got |= ok
                live &= ~ok
            else:
                interp.fail('comprehension bound', e, fr)
            return got, done

        inner_live = [0] * len(gens)

        def advance(mm):
            """bring every world in mm to its next complete binding"""
            if len(gens) == 1:
                return level(0, mm)
            got = done = 0
            # worlds whose innermost iterators are active
            pend = mm
            for _ in range(interp.MAX_ITER):
                if not pend:
                    break
                k = len(gens) - 1
                progressed = 0
                while k >= 0:
                    act = pend & (inner_live[k] if k else interp.full)
                    if act:
                        g, d = level(k, act)
                        lost = act & ~g & ~d
                        pend &= ~lost
                        if k:
                            inner_live[k] &= ~d
                        else:
                            done |= d
                            pend &= ~d
                        # open inner levels for g
                        kk = k + 1
                        if kk < len(gens):
                            if g:
                                sv = interp.eval(gens[kk].iter, cf, g)
                                pend &= ~(g & ~sv.cov())
                                g = sv.cov()
                                old = its[kk]
                                new = interp.iterate_pv(sv, g, e)
                                its[kk] = _split_iter(old, new, g)
                                inner_live[kk] |= g
                                for j in range(kk + 1, len(gens)):
                                    inner_live[j] &= ~g
                            progressed |= act
                        else:
                            got |= g
                            pend &= ~g
                            progressed |= act
                        break_now = True
                        break
                    k -= 1
                if not progressed:
                    break
            return got, done

        def step(mm):
            saved = interp.cur_node
            interp.frames.append(cf)
            try:
                got, done = advance(mm)
                v = interp.eval(elt, cf, got) if got else PV()
            finally:
                interp.frames.pop()
                interp.cur_node = saved
            return v, done
        return IterO(step), m

    def e_GeneratorExp(self, e, fr, m):
        it, m = self.comp_iter(e, fr, m)
        return PV.of(it, m)

    def e_ListComp(self, e, fr, m):
        it, m = self.comp_iter(e, fr, m)
        seq = self.to_list(PV.of(it, m), m, e)
        c = 0
        for pm, _ in seq.parts.values():
            c |= pm
        return PV.of(seq, c)

    def e_SetComp(self, e, fr, m):
        it, m = self.comp_iter(e, fr, m)
        return bm.make_set(self, PV.of(it, m), m, e, 'set')

    def e_DictComp(self, e, fr, m):
        it, m = self.comp_iter(e, fr, m)
        return bm.make_dict(self, PV.of(it, m), m, e)


def _split_iter(old, new, mask):
    if old is None:
        return new

    def step(mm):
        out, done = PV(), 0
        a = mm & mask
        b = mm & ~mask
        if a:
            p, d = new.step(a)
            out.merge(p)
            done |= d
        if b:
            p, d = old.step(b)
            out.merge(p)
            done |= d
        return out, done
    return IterO(step)


def add_part(parts, w, items):
    ln = len(items)
    if ln in parts:
        pm, pi = parts[ln]
        parts[ln] = (pm | w, [PV(dict(x.d)).merge(y.at(w))
                              for x, y in zip(pi, items)])
    else:
        parts[ln] = (w, [x.at(w) for x in items])


from . import builtins_model as bm  # noqa: E402  (mutual import)
