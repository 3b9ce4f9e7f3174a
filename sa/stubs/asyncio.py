"""What the analysis knows about asyncio: one event loop, tasks in first-in first-out order."""

from _sched import create_task, suspend, ready, stuck


class CancelledError(BaseException):
    pass


class Loop:
    def __init__(self):
        self._handler = None

    def set_exception_handler(self, f):
        self._handler = f

    def is_running(self):
        return True


_LOOP = Loop()


class CurrentTask:
    def set_name(self, n):
        pass

    def get_name(self):
        return "task"


_TASK = CurrentTask()


def get_event_loop():
    return _LOOP


def get_running_loop():
    return _LOOP


def new_event_loop():
    return _LOOP


def current_task():
    return _TASK


_TASKS = []


def all_tasks():
    return set(_TASKS)


async def sleep(d, result=None):
    await suspend("sleep")
    return result


async def gather(*coros, return_exceptions=False):
    tasks = [c if hasattr(c, "cancel") else create_task(c) for c in coros]
    results = []
    for t in tasks:
        if return_exceptions:
            try:
                results.append(await t)
            except BaseException as e:
                results.append(e)
        else:
            results.append(await t)
    return results


FIRST_COMPLETED = "FIRST_COMPLETED"
ALL_COMPLETED = "ALL_COMPLETED"


async def wait(fs, *, timeout=None, return_when="ALL_COMPLETED"):
    tasks = list(fs)
    done = [t for t in tasks if t.done()]
    if len(done) < len(tasks) and not (done and return_when == "FIRST_COMPLETED"):
        await ready("wait")
        done = [t for t in tasks if t.done()]
        if len(done) < len(tasks) and not (done and return_when == "FIRST_COMPLETED"):
            await suspend("wait")
            done = [t for t in tasks if t.done()]
            if len(done) < len(tasks) and not (done and return_when == "FIRST_COMPLETED"):
                stuck("wait", fs)
    return done, [t for t in tasks if not t.done()]


async def wait_for(fut, timeout):
    return await fut


async def shield(arg):
    return await arg


class Lock:
    def __init__(self):
        self._locked = False

    def locked(self):
        return self._locked

    async def acquire(self):
        if self._locked:
            await ready("lock")
            if self._locked:
                await suspend("lock")
            if self._locked:
                stuck("lock", self)
        self._locked = True
        return True

    def release(self):
        self._locked = False

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, a, b, c):
        self.release()


class Event:
    def __init__(self):
        self._flag = False
        self._sets = 0

    def is_set(self):
        return self._flag

    def set(self):
        self._flag = True
        self._sets += 1

    def clear(self):
        self._flag = False

    async def wait(self):
        if not self._flag:
            n = self._sets
            await ready("event")
            if not self._flag and self._sets == n:
                await suspend("event")
            if not self._flag and self._sets == n:
                stuck("event", self)
        return True


class Queue:
    def __init__(self, maxsize=0):
        self._maxsize = maxsize
        self._items = []

    def qsize(self):
        return len(self._items)

    def empty(self):
        return not self._items

    def full(self):
        return self._maxsize > 0 and len(self._items) >= self._maxsize

    def put_nowait(self, item):
        self._items.append(item)

    async def put(self, item):
        if self._maxsize > 0 and len(self._items) >= self._maxsize:
            await ready("put")
            if len(self._items) >= self._maxsize:
                await suspend("put")
            if len(self._items) >= self._maxsize:
                stuck("queue", self)
        self._items.append(item)

    def get_nowait(self):
        return self._items.pop(0)

    async def get(self):
        if not self._items:
            await ready("get")
            if not self._items:
                await suspend("get")
            if not self._items:
                stuck("queue", self)
        return self._items.pop(0)
