"""Built-in functions that call back into the program or iterate, written in Python and
analysed like the program itself."""

SOURCE = '''
def _collect(it):
    r = []
    for x in it:
        r.append(x)
    return r

def any(it):
    for x in it:
        if x:
            return True
    return False

def all(it):
    for x in it:
        if not x:
            return False
    return True

def sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r

def enumerate(it, start=0):
    i = start
    for x in it:
        yield (i, x)
        i += 1

def zip(a, b, *more, strict=False):
    ia = iter(a)
    ib = iter(b)
    while True:
        try:
            x = next(ia)
            y = next(ib)
        except StopIteration:
            return
        yield (x, y)

def range(a, b=None, c=1):
    if b is None:
        b = a
        a = 0
    if c < 0:
        while a > b:
            yield a
            a += c
    else:
        while a < b:
            yield a
            a += c

def map(f, it, *more):
    for x in it:
        yield f(x)

def filter(f, it):
    for x in it:
        if x if f is None else f(x):
            yield x

def _iter2(f, sentinel):
    while True:
        v = f()
        if v == sentinel:
            return
        yield v

class _GeneratorContext(object):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, typ, value, tb):
        if typ is None:
            next(self.gen, None)
            return False
        try:
            self.gen.throw(value)
        except StopIteration as x:
            return x is not value
        return False

    def __call__(self, fn):
        return fn

def contextmanager(fn):
    def helper(*args, **kw):
        return _GeneratorContext(fn(*args, **kw))
    return helper

class suppress(object):
    def __init__(self, *classes):
        self._classes = classes

    def __enter__(self):
        return None

    def __exit__(self, typ, value, tb):
        return typ is not None and issubclass(typ, self._classes)

class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, typ, value, tb):
        self.thing.close()

class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, typ, value, tb):
        return None

class _Callback(object):
    def __init__(self, fn, args):
        self.fn = fn
        self.args = args

    def __exit__(self, typ, value, tb):
        self.fn(*self.args)
        return False

class ExitStack(object):
    def __init__(self):
        self._exits = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()
        self._exits.append(cm)
        return r

    def push(self, cm):
        self._exits.append(cm)
        return cm

    def callback(self, fn, *args):
        self._exits.append(_Callback(fn, args))
        return fn

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        return self._exit0(typ, value, tb)

    def _exit0(self, typ, value, tb):
        if not self._exits:
            return False
        cm = self._exits.pop()
        try:
            done = cm.__exit__(typ, value, tb)
        except BaseException as x:
            if self._exit1(type(x), x, None):
                return True
            raise
        if done:
            self._exit1(None, None, None)
            return True
        return self._exit1(typ, value, tb)

    def _exit1(self, typ, value, tb):
        if not self._exits:
            return False
        cm = self._exits.pop()
        try:
            done = cm.__exit__(typ, value, tb)
        except BaseException as x:
            if self._exit2(type(x), x, None):
                return True
            raise
        if done:
            self._exit2(None, None, None)
            return True
        return self._exit2(typ, value, tb)

    def _exit2(self, typ, value, tb):
        if not self._exits:
            return False
        cm = self._exits.pop()
        try:
            done = cm.__exit__(typ, value, tb)
        except BaseException as x:
            if self._exit3(type(x), x, None):
                return True
            raise
        if done:
            self._exit3(None, None, None)
            return True
        return self._exit3(typ, value, tb)

    def _exit3(self, typ, value, tb):
        if not self._exits:
            return False
        cm = self._exits.pop()
        try:
            done = cm.__exit__(typ, value, tb)
        except BaseException as x:
            if self._exit4(type(x), x, None):
                return True
            raise
        if done:
            self._exit4(None, None, None)
            return True
        return self._exit4(typ, value, tb)

    def _exit4(self, typ, value, tb):
        if not self._exits:
            return False
        cm = self._exits.pop()
        try:
            done = cm.__exit__(typ, value, tb)
        except BaseException as x:
            if self._exit5(type(x), x, None):
                return True
            raise
        if done:
            self._exit5(None, None, None)
            return True
        return self._exit5(typ, value, tb)

    def _exit5(self, typ, value, tb):
        while self._exits:
            cm = self._exits.pop()
            cm.__exit__(typ, value, tb)
        return False

def copyfileobj(src, dst, length=0):
    while True:
        buf = src.read(65536)
        if not buf:
            break
        dst.write(buf)

def chain(*its):
    for it in its:
        for x in it:
            yield x

def repeat(x):
    while True:
        yield x

def count(start=0, step=1):
    while True:
        yield start
        start += step

def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x

def starmap(f, it):
    for x in it:
        yield f(*x)

def islice(it, n):
    i = 0
    for x in it:
        if i >= n:
            return
        yield x
        i += 1

def reduce(f, it, initial=None):
    r = initial
    for x in it:
        r = f(r, x)
    return r
'''

NAMES = {
    "any": "any", "all": "all", "sum": "sum", "enumerate": "enumerate", "zip": "zip", "range": "range",
    "map": "map", "filter": "filter", "$collect": "_collect", "$iter2": "_iter2",
    "contextlib.contextmanager": "contextmanager", "contextlib.suppress": "suppress",
    "contextlib.closing": "closing", "contextlib.nullcontext": "nullcontext",
    "contextlib.ExitStack": "ExitStack", "shutil.copyfileobj": "copyfileobj",
    "itertools.chain": "chain", "itertools.repeat": "repeat", "itertools.count": "count",
    "itertools.takewhile": "takewhile", "itertools.starmap": "starmap", "itertools.islice": "islice",
    "functools.reduce": "reduce",
}


def load(eng):
    m = eng.load_module("$prelude", path="<prelude>", source=SOURCE)
    o = eng.base[m]
    return {k: o.attrs[v] for k, v in NAMES.items()}
