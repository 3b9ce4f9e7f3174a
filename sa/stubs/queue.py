"""What the analysis knows about queue.Queue, used by one thread."""


class Empty(Exception):
    pass


class Full(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self._items = []

    def qsize(self):
        return len(self._items)

    def empty(self):
        return len(self._items) == 0

    def full(self):
        return 0 < self.maxsize <= len(self._items)

    def put(self, item, block=True, timeout=None):
        if 0 < self.maxsize <= len(self._items):
            raise Full()
        self._items.append(item)

    def put_nowait(self, item):
        self.put(item)

    def get(self, block=True, timeout=None):
        if len(self._items) == 0:
            # with block there is nobody who could ever add one
            raise Empty()
        return self._items.pop(0)

    def get_nowait(self):
        return self.get()


SimpleQueue = Queue
