"""What the analysis knows about the logging module (one thread, a root logger without handlers of its own)."""

NOTSET = 0
DEBUG = 10
INFO = 20
WARNING = 30
WARN = 30
ERROR = 40
CRITICAL = 50
FATAL = 50
NAMES = {0: "NOTSET", 10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}
NUMBERS = {"NOTSET": 0, "DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50}


class Journal:
    """What the handlers did."""

    def __init__(self):
        self.entries = []


journal = Journal()


def _level(level):
    if isinstance(level, str):
        return NUMBERS[level]
    return level


def getLevelName(level):
    if level in NAMES:
        return NAMES[level]
    if level in NUMBERS:
        return NUMBERS[level]
    return "Level %s" % (level,)


class LogRecord:
    def __init__(self, name, level, pathname, lineno, msg, args, exc_info, func=None, sinfo=None):
        self.name = name
        self.levelno = level
        self.levelname = NAMES[level]
        self.pathname = pathname
        self.filename = pathname
        self.module = pathname
        self.lineno = lineno
        self.funcName = func
        self.msg = msg
        self.args = args
        self.exc_info = exc_info
        self.exc_text = None
        self.stack_info = sinfo
        self.created = 1.5
        self.msecs = 500.0
        self.relativeCreated = 0.5
        self.thread = 1
        self.threadName = "MainThread"
        self.processName = "MainProcess"
        self.process = 1
        self.taskName = None

    def getMessage(self):
        if self.args:
            return str(self.msg) % self.args
        return str(self.msg)


def makeLogRecord(dict):
    record = LogRecord(None, 0, "", 0, "", (), None)
    record.__dict__.update(dict)
    return record


def addLevelName(level, name):
    NAMES[level] = name
    NUMBERS[name] = level


def getLevelNamesMapping():
    return dict(NUMBERS)


def shutdown():
    pass


class Formatter:
    def __init__(self, fmt=None, datefmt=None, style="%", validate=True):
        self._fmt = "%(message)s" if fmt is None else fmt

    def usesTime(self):
        return "%(asctime)" in self._fmt

    def formatTime(self, record, datefmt=None):
        return "TIME"

    def formatException(self, ei):
        return "EXCEPTION"

    def formatStack(self, stack_info):
        return stack_info

    def format(self, record):
        record.message = record.getMessage()
        return self.formatMessage(record)

    def formatMessage(self, record):
        s = self._fmt
        s = s.replace("%(name)s", record.name).replace("%(levelname)s", record.levelname)
        s = s.replace("%(filename)s", record.filename).replace("%(lineno)d", str(record.lineno)).replace("%(funcName)s", str(record.funcName))
        s = s.replace("%(asctime)s", "TIME").replace("%(levelno)d", str(record.levelno)).replace("%(levelno)s", str(record.levelno))
        if "%(log_id)s" in s:
            s = s.replace("%(log_id)s", str(record.log_id))
        return s.replace("%(message)s", record.message)


class Filterer:
    pass


class Handler(Filterer):
    def __init__(self, level=0):
        self.level = _level(level)
        self.formatter = None
        self.filters = []
        self.lock = None
        self.name = None

    def get_name(self):
        return self.name

    def set_name(self, name):
        self.name = name

    def setLevel(self, level):
        self.level = _level(level)

    def setFormatter(self, fmt):
        self.formatter = fmt

    def addFilter(self, f):
        if f not in self.filters:
            self.filters.append(f)

    def removeFilter(self, f):
        if f in self.filters:
            self.filters.remove(f)

    def filter(self, record):
        for f in self.filters:
            ok = f.filter(record) if hasattr(f, "filter") else f(record)
            if not ok:
                return False
        return True

    def createLock(self):
        pass

    def handleError(self, record):
        pass

    def acquire(self):
        pass

    def release(self):
        pass

    def format(self, record):
        if self.formatter is None:
            return Formatter().format(record)
        return self.formatter.format(record)

    def emit(self, record):
        raise NotImplementedError

    def handle(self, record):
        if self.filter(record):
            self.emit(record)
            return True
        return False

    def flush(self):
        pass

    def close(self):
        pass


class StreamHandler(Handler):
    def __init__(self, stream=None):
        Handler.__init__(self)
        self.stream = stream

    def emit(self, record):
        journal.entries.append(("console", record.levelname, self.format(record)))


class FileHandler(StreamHandler):
    def __init__(self, filename, mode="a", encoding=None, delay=False, errors=None):
        StreamHandler.__init__(self)
        self.baseFilename = filename
        self.mode = mode
        journal.entries.append(("open", filename, mode))

    def emit(self, record):
        journal.entries.append((self.baseFilename, record.levelname, self.format(record)))

    def close(self):
        journal.entries.append(("close", self.baseFilename, ""))


class NullHandler(Handler):
    def emit(self, record):
        pass

    def handle(self, record):
        pass


class Logger(Filterer):
    def __init__(self, name, level=0):
        self.name = name
        self.level = _level(level)
        self.parent = None
        self.propagate = True
        self.handlers = []
        self.disabled = False

    def setLevel(self, level):
        self.level = _level(level)

    def getEffectiveLevel(self):
        if self.level:
            return self.level
        if self.parent is not None:
            return self.parent.level
        return 0

    def isEnabledFor(self, level):
        return not self.disabled and level >= self.getEffectiveLevel()

    def addHandler(self, h):
        if h not in self.handlers:
            self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def getChild(self, suffix):
        return getLogger(self.name + "." + suffix)

    def makeRecord(self, name, level, fn, lno, msg, args, exc_info, func=None, extra=None, sinfo=None):
        record = LogRecord(name, level, fn, lno, msg, args, exc_info, func, sinfo)
        if extra is not None:
            for k in extra:
                setattr(record, k, extra[k])
        return record

    def hasHandlers(self):
        return len(self.handlers) > 0

    def callHandlers(self, record):
        for h in self.handlers:
            if record.levelno >= h.level:
                h.handle(record)
        if self.propagate and self.parent is not None:
            for h in self.parent.handlers:
                if record.levelno >= h.level:
                    h.handle(record)

    def handle(self, record):
        self.callHandlers(record)

    def log(self, level, msg, *args, exc_info=None, stack_info=False, stacklevel=1, extra=None):
        if not self.isEnabledFor(level):
            return
        record = LogRecord(self.name, level, "FILE", 7, msg, args, exc_info)
        if extra is not None:
            for k in extra:
                setattr(record, k, extra[k])
        self.callHandlers(record)

    def debug(self, msg, *args, **kw):
        self.log(DEBUG, msg, *args, **kw)

    def info(self, msg, *args, **kw):
        self.log(INFO, msg, *args, **kw)

    def warning(self, msg, *args, **kw):
        self.log(WARNING, msg, *args, **kw)

    def warn(self, msg, *args, **kw):
        self.log(WARNING, msg, *args, **kw)

    def error(self, msg, *args, **kw):
        self.log(ERROR, msg, *args, **kw)

    def critical(self, msg, *args, **kw):
        self.log(CRITICAL, msg, *args, **kw)

    def exception(self, msg, *args, **kw):
        self.log(ERROR, msg, *args, **kw)


root = Logger("root", WARNING)
loggers = {}


def getLogger(name=None):
    if not name or name == "root":
        return root
    if name not in loggers:
        l = Logger(name)
        l.parent = root
        loggers[name] = l
    return loggers[name]


def basicConfig(level=None, format=None, handlers=None, force=False, filename=None, filemode="a", stream=None, **kw):
    if force:
        for h in root.handlers[:]:
            root.removeHandler(h)
            h.close()
    if len(root.handlers) == 0:
        if handlers is None:
            handlers = [FileHandler(filename, filemode) if filename else StreamHandler(stream)]
        for h in handlers:
            if h.formatter is None:
                h.setFormatter(Formatter(format))
            root.addHandler(h)
        if level is not None:
            root.setLevel(level)
