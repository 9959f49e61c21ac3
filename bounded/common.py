"""shared by the run-time harnesses: strict equality, snapshots"""
import copy
import dataclasses, random, sys


def same(a, b):
    """equal in every respect a user can observe: types, order of dicts, names of catch-all keys; not source positions"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a) if f.name != "linepos")
    return a == b


def diff(a, b, path=""):
    """first difference, for messages"""
    if type(a) is not type(b):
        return f"{path}: {a!r} is not {b!r}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)!r} are not {list(b)!r}"
        for k in a:
            d = diff(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        for x, y in zip(a, b):
            d = diff(x, y, path + ".key")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: {len(a)} items instead of {len(b)}: {a!r} is not {b!r}"
        return None
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            if f.name != "linepos":
                d = diff(getattr(a, f.name), getattr(b, f.name), f"{path}.{f.name}")
                if d:
                    return d
        return None
    return None if a == b else f"{path}: {a!r} is not {b!r}"


snap = copy.deepcopy


def cut(seq, shard, shards):
    for i, x in enumerate(seq):
        if i % shards == shard:
            yield x


def exc(e):
    return f"{type(e).__name__}: {e}"


class Swarm(random.Random):
    """For every other case, each place in the generators that makes a choice prefers a few of its alternatives: inputs in
    which the same few characters and parts come together in many ways are otherwise improbable."""

    few = None

    def new_case(self):
        self.few = {} if self.random() < 0.5 else None

    def choice(self, seq):
        if self.few is None or len(seq) < 4 or self.random() < 0.15:
            return super().choice(seq)
        f = sys._getframe(1)
        key = (f.f_code, f.f_lasti, len(seq))
        if key not in self.few:
            n = self.randint(1, 4)
            self.few[key] = [self.randrange(len(seq)) for _ in range(n)]
        return seq[super().choice(self.few[key])]
