"""Iterators whose every step is recorded and can fail."""

import collections.abc

from . import zoo


class Box:
    """Holds children in attributes."""


class Tok:
    """An object that is one token."""

    def __init__(self, tok):
        self.tok = tok

    def __getstate__(self):
        zoo.fire("tok", self.tok)
        return {"tok": self.tok}

    def __setstate__(self, state):
        self.tok = state["tok"]


class Source:
    """What an iterator yields, in steps that cannot be pre-empted inside."""

    def __init__(self, ident, items, fail):
        self.ident = ident
        self.items = items
        self.fail = fail
        self.pos = 0

    def take(self):
        i = self.pos
        zoo.fire("next", (self.ident, i), self)
        return self.items[i] if i < len(self.items) else None


class It:
    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return self

    def __next__(self):
        return step(self.src)


class ItSlots:
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return self

    def __next__(self):
        return step(self.src)


class ItAbc(collections.abc.Iterator):
    """Also false and of no length, to be taken like any other."""

    def __init__(self, src):
        self.src = src

    def __next__(self):
        return step(self.src)

    def __bool__(self):
        return True


class Shared(It):
    """Taken by several threads: a position is claimed before anything else."""

    def __next__(self):
        src = self.src
        i = src.pos
        if i >= len(src.items):
            raise StopIteration
        src.pos = i + 1
        zoo.fire("next", (src.ident, i), src)
        return src.items[i]


def step(src):
    i = src.pos
    zoo.fire("next", (src.ident, i), src)
    if i >= len(src.items):
        raise StopIteration
    src.pos = i + 1
    return src.items[i]


def gen(src):
    while True:
        try:
            yield step(src)
        except StopIteration:
            return


KINDS = {"It": It, "ItSlots": ItSlots, "ItAbc": ItAbc, "gen": gen, "shared": Shared}


def make_red(tok):
    r = RedIt()
    r.tok = tok
    return r


class RedIt:
    """Hands its items over as iterators."""

    tok = li = di = None

    def __reduce__(self):
        return make_red, (self.tok,), None, self.li, self.di

    def append(self, v):
        pass

    def extend(self, v):
        pass

    def __setitem__(self, k, v):
        pass
