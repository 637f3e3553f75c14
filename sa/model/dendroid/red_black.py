"""contract of dendroid's ordered map and keyed set (read by the analyser,
never run): entries sorted by ``<`` on keys"""


class _Sorted:
    def __init__(self):
        self._keys = []
        self._values = []

    def _lower(self, key):
        low, high = 0, len(self._keys)
        while low < high:
            middle = (low + high) // 2
            if self._keys[middle] < key:
                low = middle + 1
            else:
                high = middle
        return low

    def _index(self, key):
        index = self._lower(key)
        if index < len(self._keys) and not (key < self._keys[index]):
            return index
        return -1

    def _insert(self, key, value):
        index = self._lower(key)
        if index < len(self._keys) and not (key < self._keys[index]):
            return index
        self._keys.insert(index, key)
        self._values.insert(index, value)
        return -1

    def _delete(self, index):
        self._keys.pop(index)
        self._values.pop(index)

    def __len__(self):
        return len(self._keys)

    def clear(self):
        self._keys.clear()
        self._values.clear()


class Map(_Sorted):
    def __contains__(self, key):
        return self._index(key) >= 0

    def __delitem__(self, key):
        index = self._index(key)
        if index < 0:
            raise KeyError(key)
        self._delete(index)

    def __getitem__(self, key):
        index = self._index(key)
        if index < 0:
            raise KeyError(key)
        return self._values[index]

    def __setitem__(self, key, value):
        index = self._insert(key, value)
        if index >= 0:
            self._values[index] = value

    def __iter__(self):
        return iter(list(self._keys))

    def get(self, key, default=None):
        index = self._index(key)
        return default if index < 0 else self._values[index]

    def keys(self):
        return list(self._keys)

    def values(self):
        return list(self._values)

    def items(self):
        return list(zip(self._keys, self._values))

    def ceil(self, key):
        index = self._lower(key)
        if index == len(self._keys):
            raise KeyError(key)
        return self._values[index]

    def floor(self, key):
        index = self._lower(key)
        if index < len(self._keys) and not (key < self._keys[index]):
            return self._values[index]
        if index == 0:
            raise KeyError(key)
        return self._values[index - 1]

    def next(self, key):
        index = self._index(key)
        if index < 0:
            raise KeyError(key)
        if index + 1 == len(self._keys):
            raise KeyError('Corresponds to maximum')
        return self._values[index + 1]

    def prev(self, key):
        index = self._index(key)
        if index < 0:
            raise KeyError(key)
        if index == 0:
            raise KeyError('Corresponds to minimum')
        return self._values[index - 1]

    def pop(self, key, *default):
        index = self._index(key)
        if index < 0:
            if default:
                return default[0]
            raise KeyError(key)
        result = self._values[index]
        self._delete(index)
        return result

    def max(self):
        if not self._keys:
            raise KeyError('Map is empty')
        return self._values[len(self._values) - 1]

    def min(self):
        if not self._keys:
            raise KeyError('Map is empty')
        return self._values[0]


class KeyedSet(_Sorted):
    def __init__(self, key):
        super().__init__()
        self._key = key

    @property
    def key(self):
        return self._key

    def _to_key(self, value):
        return value if self._key is None else self._key(value)

    def __contains__(self, value):
        return self._index(self._to_key(value)) >= 0

    def __iter__(self):
        return iter(list(self._values))

    def add(self, value):
        self._insert(self._to_key(value), value)

    def remove(self, value):
        index = self._index(self._to_key(value))
        if index < 0:
            raise ValueError('is not in set')
        self._delete(index)

    def discard(self, value):
        index = self._index(self._to_key(value))
        if index >= 0:
            self._delete(index)

    def ceil(self, value):
        index = self._lower(self._to_key(value))
        if index == len(self._keys):
            raise ValueError('No value found')
        return self._values[index]

    def floor(self, value):
        key = self._to_key(value)
        index = self._lower(key)
        if index < len(self._keys) and not (key < self._keys[index]):
            return self._values[index]
        if index == 0:
            raise ValueError('No value found')
        return self._values[index - 1]

    def next(self, value):
        index = self._index(self._to_key(value))
        if index < 0:
            raise ValueError('is not in set')
        if index + 1 == len(self._keys):
            raise ValueError('Corresponds to maximum')
        return self._values[index + 1]

    def prev(self, value):
        index = self._index(self._to_key(value))
        if index < 0:
            raise ValueError('is not in set')
        if index == 0:
            raise ValueError('Corresponds to minimum')
        return self._values[index - 1]

    def max(self):
        if not self._keys:
            raise ValueError('Set is empty')
        return self._values[len(self._values) - 1]

    def min(self):
        if not self._keys:
            raise ValueError('Set is empty')
        return self._values[0]


def map_(*items):
    result = Map()
    for key, value in items:
        result[key] = value
    return result


def set_(*values, key=None):
    result = KeyedSet(key)
    for value in values:
        result.add(value)
    return result
