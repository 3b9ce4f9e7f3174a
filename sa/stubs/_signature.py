"""inspect.signature of a function of the program."""


class _empty:
    pass


class Parameter:
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = range(5)
    empty = _empty

    def __init__(self, name, kind, has, default):
        self.name = name
        self.kind = kind
        self.default = default if has else _empty


class BoundArguments:
    def __init__(self, signature, arguments):
        self.signature = signature
        self.arguments = arguments

    @property
    def args(self):
        out = []
        for n, p in self.signature.parameters.items():
            if p.kind in (0, 1) and n in self.arguments:
                out.append(self.arguments[n])
            elif p.kind == 2:
                for v in self.arguments.get(n, ()):
                    out.append(v)
        return tuple(out)

    @property
    def kwargs(self):
        out = {}
        for n, p in self.signature.parameters.items():
            if p.kind == 3 and n in self.arguments:
                out[n] = self.arguments[n]
            elif p.kind == 4:
                out.update(self.arguments.get(n, {}))
        return out

    def apply_defaults(self):
        new = {}
        for n, p in self.signature.parameters.items():
            if n in self.arguments:
                new[n] = self.arguments[n]
            elif p.default is not _empty:
                new[n] = p.default
            elif p.kind == 2:
                new[n] = ()
            elif p.kind == 4:
                new[n] = {}
        self.arguments = new


class Signature:
    empty = _empty

    def __init__(self, params):
        self.parameters = {}
        for n, k, h, d in params:
            self.parameters[n] = Parameter(n, k, h, d)

    def _bind(self, args, kwargs, partial):
        left = list(args)
        kw = dict(kwargs)
        out = {}
        for n, p in self.parameters.items():
            if p.kind == 2:
                if left:
                    out[n] = tuple(left)
                    left = []
            elif p.kind == 4:
                if kw:
                    out[n] = kw
                    kw = {}
            elif p.kind != 3 and left:
                if n in kw:
                    raise TypeError("multiple values for argument")
                out[n] = left.pop(0)
            elif n in kw:
                out[n] = kw.pop(n)
            elif p.default is _empty and not partial:
                raise TypeError("missing a required argument")
        if left or kw:
            raise TypeError("too many arguments")
        return BoundArguments(self, out)

    def bind(self, *args, **kwargs):
        return self._bind(args, kwargs, False)

    def bind_partial(self, *args, **kwargs):
        return self._bind(args, kwargs, True)
