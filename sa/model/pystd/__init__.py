"""Source models of standard library names, interpreted like the analysed
sources.  ``pkg__name`` models ``pkg.name``."""
import analysis


class _Missing:
    pass


_MISSING = _Missing()


# -------------------------------------------------------------- collections
class _Dict:
    def __init__(self, *args, **kwargs):
        self._d = dict(*args, **kwargs)

    def __missing__(self, key):
        raise KeyError(key)

    def __getitem__(self, key):
        if key in self._d:
            return self._d[key]
        return self.__missing__(key)

    def __setitem__(self, key, value):
        self._d[key] = value

    def __delitem__(self, key):
        del self._d[key]

    def __contains__(self, key):
        return key in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __eq__(self, other):
        if isinstance(other, _Dict):
            return self._d == other._d
        return self._d == other

    def get(self, key, default=None):
        return self._d.get(key, default)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def setdefault(self, key, default=None):
        return self._d.setdefault(key, default)

    def pop(self, key, *default):
        return self._d.pop(key, *default)

    def update(self, *args, **kwargs):
        self._d.update(*args, **kwargs)

    def clear(self):
        self._d.clear()


class collections__OrderedDict(_Dict):
    def move_to_end(self, key, last=True):
        value = self._d.pop(key)
        if last:
            self._d[key] = value
        else:
            old = list(self._d.items())
            self._d.clear()
            self._d[key] = value
            self._d.update(old)

    def popitem(self, last=True):
        if not self._d:
            raise KeyError('dictionary is empty')
        items = list(self._d.items())
        key, value = items[-1] if last else items[0]
        del self._d[key]
        return key, value

    def copy(self):
        return collections__OrderedDict(self._d)


class collections__defaultdict(_Dict):
    def __init__(self, default_factory=None, *args, **kwargs):
        self._d = dict(*args, **kwargs)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        self._d[key] = value = self.default_factory()
        return value

    def copy(self):
        return collections__defaultdict(self.default_factory, self._d)


class collections__Counter(_Dict):
    def __init__(self, iterable=()):
        self._d = {}
        self.update(iterable)

    def __missing__(self, key):
        return 0

    def update(self, iterable=()):
        if isinstance(iterable, dict):
            for key, count in iterable.items():
                self._d[key] = self._d.get(key, 0) + count
        elif isinstance(iterable, _Dict):
            for key, count in iterable._d.items():
                self._d[key] = self._d.get(key, 0) + count
        else:
            for key in iterable:
                self._d[key] = self._d.get(key, 0) + 1

    def subtract(self, iterable=()):
        for key in iterable:
            self._d[key] = self._d.get(key, 0) - 1

    def __eq__(self, other):
        if not isinstance(other, collections__Counter):
            return False
        return (all(other[key] == count for key, count in self._d.items())
                and all(self[key] == count
                        for key, count in other._d.items()))

    def __add__(self, other):
        result = collections__Counter()
        for source in (self, other):
            for key, count in source._d.items():
                result._d[key] = result._d.get(key, 0) + count
        return result

    def __sub__(self, other):
        result = collections__Counter()
        for key, count in self._d.items():
            if count > other[key]:
                result._d[key] = count - other[key]
        return result

    def elements(self):
        for key, count in self._d.items():
            for _ in range(count):
                yield key

    def most_common(self, n=None):
        items = sorted(self._d.items(), key=lambda item: item[1],
                       reverse=True)
        return items if n is None else items[:n]

    def total(self):
        return sum(self._d.values())

    def copy(self):
        return collections__Counter(self)


class _NamedTuple:
    def _values(self):
        return tuple([getattr(self, name) for name in self._fields])

    def __iter__(self):
        return iter(self._values())

    def __len__(self):
        return len(self._fields)

    def __getitem__(self, item):
        return self._values()[item]

    def __contains__(self, item):
        return item in self._values()

    def __eq__(self, other):
        return self._values() == (other._values()
                                  if isinstance(other, _NamedTuple)
                                  else other)

    def __ne__(self, other):
        return not (self == other)

    def __hash__(self):
        return hash(self._values())

    def __lt__(self, other):
        return self._values() < tuple(other)

    def __le__(self, other):
        return self._values() <= tuple(other)

    def __gt__(self, other):
        return self._values() > tuple(other)

    def __ge__(self, other):
        return self._values() >= tuple(other)

    def __add__(self, other):
        return self._values() + tuple(other)

    def _asdict(self):
        return {name: getattr(self, name) for name in self._fields}

    def _replace(self, **kwargs):
        values = self._asdict()
        values.update(kwargs)
        return type(self)(**values)

    def index(self, value):
        return self._values().index(value)

    def count(self, value):
        return self._values().count(value)


# ---------------------------------------------------------------- functools
def functools__lru_cache(maxsize=128, typed=False):
    def decorate(function):
        return functools__cache(function)

    if callable(maxsize):
        return functools__cache(maxsize)
    return decorate


def functools__cache(function):
    cache = {}

    def cached(*args, **kwargs):
        key = (args, tuple(kwargs.items()))
        if key in cache:
            return cache[key]
        result = function(*args, **kwargs)
        cache[key] = result
        return result

    return cached


class _Key:
    def __init__(self, value, compare):
        self.value = value
        self.compare = compare

    def __lt__(self, other):
        return self.compare(self.value, other.value) < 0

    def __le__(self, other):
        return self.compare(self.value, other.value) <= 0

    def __gt__(self, other):
        return self.compare(self.value, other.value) > 0

    def __ge__(self, other):
        return self.compare(self.value, other.value) >= 0

    def __eq__(self, other):
        return self.compare(self.value, other.value) == 0


def functools__cmp_to_key(compare):
    def key(value):
        return _Key(value, compare)

    return key


def functools__total_ordering(cls):
    names = [name for name in ('__lt__', '__le__', '__gt__', '__ge__')
             if hasattr(cls, name)]
    if not names:
        raise ValueError('must define at least one ordering operation')
    if '__lt__' in names:
        if '__gt__' not in names:
            setattr(cls, '__gt__',
                    lambda self, other: not (self < other or self == other))
        if '__le__' not in names:
            setattr(cls, '__le__',
                    lambda self, other: self < other or self == other)
        if '__ge__' not in names:
            setattr(cls, '__ge__', lambda self, other: not (self < other))
    elif '__le__' in names:
        if '__ge__' not in names:
            setattr(cls, '__ge__',
                    lambda self, other: not (self <= other) or self == other)
        setattr(cls, '__lt__',
                lambda self, other: self <= other and not (self == other))
        if '__gt__' not in names:
            setattr(cls, '__gt__', lambda self, other: not (self <= other))
    elif '__gt__' in names:
        setattr(cls, '__lt__',
                lambda self, other: not (self > other or self == other))
        if '__ge__' not in names:
            setattr(cls, '__ge__',
                    lambda self, other: self > other or self == other)
        setattr(cls, '__le__', lambda self, other: not (self > other))
    else:
        setattr(cls, '__le__',
                lambda self, other: not (self >= other) or self == other)
        setattr(cls, '__gt__',
                lambda self, other: self >= other and not (self == other))
        setattr(cls, '__lt__', lambda self, other: not (self >= other))
    return cls


class _Single:
    """a single dispatch table"""

    def __init__(self, function):
        self.function = function
        self.entries = []

    def find(self, value):
        found = None
        for cls, function in self.entries:
            if isinstance(value, cls) and (found is None
                                           or issubclass(cls, found[0])):
                found = (cls, function)
        return self.function if found is None else found[1]

    def register(self, cls, function=None):
        if function is None:
            if isinstance(cls, type):
                return lambda func: self.register(cls, func)
            function = cls
            cls = analysis.first_annotation(function)
        self.entries.append((cls, function))
        return function


class functools__singledispatch(_Single):
    def __call__(self, *args, **kwargs):
        return self.find(args[0])(*args, **kwargs)


class functools__singledispatchmethod(_Single):
    def __get__(self, instance, owner=None):
        def method(*args, **kwargs):
            return self.find(args[0])(instance, *args, **kwargs)

        return method


# ------------------------------------------------------------------- heapq
def heapq__heappush(heap, item):
    heap.append(item)
    _siftdown(heap, 0, len(heap) - 1)


def heapq__heappop(heap):
    lastelt = heap.pop()
    if heap:
        returnitem = heap[0]
        heap[0] = lastelt
        _siftup(heap, 0)
        return returnitem
    return lastelt


def heapq__heapreplace(heap, item):
    returnitem = heap[0]
    heap[0] = item
    _siftup(heap, 0)
    return returnitem


def heapq__heappushpop(heap, item):
    if heap and heap[0] < item:
        item, heap[0] = heap[0], item
        _siftup(heap, 0)
    return item


def heapq__heapify(x):
    n = len(x)
    for i in reversed(range(n // 2)):
        _siftup(x, i)


def heapq__nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:n]


def heapq__nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:n]


def heapq__merge(*iterables, key=None, reverse=False):
    result = []
    for iterable in iterables:
        result.extend(iterable)
    result.sort(key=key, reverse=reverse)
    return iter(result)


def _siftdown(heap, startpos, pos):
    newitem = heap[pos]
    while pos > startpos:
        parentpos = (pos - 1) >> 1
        parent = heap[parentpos]
        if newitem < parent:
            heap[pos] = parent
            pos = parentpos
            continue
        break
    heap[pos] = newitem


def _siftup(heap, pos):
    endpos = len(heap)
    startpos = pos
    newitem = heap[pos]
    childpos = 2 * pos + 1
    while childpos < endpos:
        rightpos = childpos + 1
        if rightpos < endpos and not heap[childpos] < heap[rightpos]:
            childpos = rightpos
        heap[pos] = heap[childpos]
        pos = childpos
        childpos = 2 * pos + 1
    heap[pos] = newitem
    _siftdown(heap, startpos, pos)


# ------------------------------------------------------------------ bisect
def bisect__bisect_right(a, x, lo=0, hi=None, *, key=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


def bisect__bisect_left(a, x, lo=0, hi=None, *, key=None):
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


bisect__bisect = bisect__bisect_right


def bisect__insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect__bisect_right(a, x if key is None else key(x), lo, hi,
                                  key=key), x)


def bisect__insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect__bisect_left(a, x if key is None else key(x), lo, hi,
                                 key=key), x)


bisect__insort = bisect__insort_right


# --------------------------------------------------------------- itertools
def itertools__combinations(iterable, r):
    pool = tuple(iterable)
    n = len(pool)
    if r == 0:
        yield ()
    else:
        for i in range(n):
            for tail in itertools__combinations(pool[i + 1:], r - 1):
                yield (pool[i],) + tail


def itertools__combinations_with_replacement(iterable, r):
    pool = tuple(iterable)
    if r == 0:
        yield ()
    else:
        for i in range(len(pool)):
            for tail in itertools__combinations_with_replacement(pool[i:],
                                                                 r - 1):
                yield (pool[i],) + tail


def itertools__permutations(iterable, r=None):
    pool = tuple(iterable)
    if r is None:
        r = len(pool)
    if r == 0:
        yield ()
    else:
        for i in range(len(pool)):
            for tail in itertools__permutations(pool[:i] + pool[i + 1:],
                                                r - 1):
                yield (pool[i],) + tail


def itertools__product(*iterables, repeat=1):
    pools = [tuple(iterable) for iterable in iterables] * repeat
    result = [()]
    for pool in pools:
        result = [head + (item,) for head in result for item in pool]
    return iter(result)


def itertools__zip_longest(*iterables, fillvalue=None):
    pools = [list(iterable) for iterable in iterables]
    size = max([len(pool) for pool in pools], default=0)
    for i in range(size):
        yield tuple([pool[i] if i < len(pool) else fillvalue
                     for pool in pools])


def itertools__accumulate(iterable, func=None, *, initial=None):
    iterator = iter(iterable)
    total = initial
    if initial is None:
        total = next(iterator, _MISSING)
        if total is _MISSING:
            return
    yield total
    for element in iterator:
        total = total + element if func is None else func(total, element)
        yield total


def itertools__starmap(function, iterable):
    for args in iterable:
        yield function(*args)


def itertools__dropwhile(predicate, iterable):
    dropping = True
    for item in iterable:
        if dropping and predicate(item):
            continue
        dropping = False
        yield item


def itertools__cycle(iterable):
    saved = []
    for item in iterable:
        yield item
        saved.append(item)
    while saved:
        for item in saved:
            yield item


def itertools__compress(data, selectors):
    for item, selector in zip(data, selectors):
        if selector:
            yield item


def itertools__batched(iterable, n):
    batch = []
    for item in iterable:
        batch.append(item)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)


class _Tee:
    def __init__(self, source, buffer):
        self.source = source
        self.buffer = buffer
        self.position = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.position == len(self.buffer):
            self.buffer.append(next(self.source))
        value = self.buffer[self.position]
        self.position += 1
        return value


def itertools__tee(iterable, n=2):
    source = iter(iterable)
    buffer = []
    return tuple([_Tee(source, buffer) for _ in range(n)])


# -------------------------------------------------------------- contextlib
class _Context:
    def __init__(self, generator):
        self.generator = generator

    def __enter__(self):
        return next(self.generator)

    def __exit__(self, kind, value, traceback):
        if kind is None:
            next(self.generator, None)
            return False
        return False


def contextlib__contextmanager(function):
    def enter(*args, **kwargs):
        return _Context(function(*args, **kwargs))

    return enter


class contextlib__nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, kind, value, traceback):
        return False


# -------------------------------------------------------------------- math
def math__prod(iterable, start=1):
    result = start
    for item in iterable:
        result = result * item
    return result


def math__gcd(*values):
    result = 0
    for value in values:
        value = abs(value)
        while value:
            result, value = value, result % value
    return result


def math__isqrt(n):
    result = 0
    while (result + 1) * (result + 1) <= n:
        result += 1
    return result
