from _native import _gcm


def contextmanager(fn):
    def helper(*args, **kw):
        return _gcm(fn(*args, **kw))
    helper.__name__ = fn.__name__
    return helper


class suppress:
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return None

    def __exit__(self, cls, exc, tb):
        return cls is not None and issubclass(cls, self.excs)


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *a):
        return None


class ExitStack:
    def __init__(self):
        self.callbacks = []

    def __enter__(self):
        return self

    def callback(self, f, *args, **kw):
        self.callbacks.append((f, args, kw))
        return f

    def __exit__(self, *a):
        while self.callbacks:
            f, args, kw = self.callbacks.pop()
            f(*args, **kw)
        return False
