"""contract of prioq.base.PriorityQueue (read by the analyser, never run)"""


class PriorityQueue:
    def __init__(self, *values, key=None, reverse=False):
        self._key = key
        self._reverse = reverse
        self._values = []
        self._keys = []
        for value in values:
            self.push(value)

    def __len__(self):
        return len(self._values)

    @property
    def key(self):
        return self._key

    @property
    def reverse(self):
        return self._reverse

    def clear(self):
        self._values.clear()
        self._keys.clear()

    def _front(self):
        best = 0
        for index in range(1, len(self._values)):
            if (
                self._keys[best] < self._keys[index]
                if self._reverse
                else self._keys[index] < self._keys[best]
            ):
                best = index
        return best

    def peek(self):
        if not self._values:
            raise ValueError('Priority queue is empty')
        return self._values[self._front()]

    def pop(self):
        if not self._values:
            raise IndexError('index out of range')
        index = self._front()
        self._keys.pop(index)
        return self._values.pop(index)

    def push(self, value):
        self._values.append(value)
        self._keys.append(value if self._key is None else self._key(value))

    def values(self):
        return [
            value
            for _, value in sorted(
                zip(self._keys, self._values), reverse=self._reverse
            )
        ]
