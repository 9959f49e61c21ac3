"""C08: metadata operations of entries, sections and resources"""
from pyvc.contract import Contract, lemma, pred, ghost
from moz.l10n.model import Entry, Metadata, Resource, Section, Message

W = "moz.l10n.model:_WithMeta."


def first_value(self, key):
    for m in self.meta:
        if m.key == key:
            return m.value
    return None


def has(self, key, value):
    return any(m.key == key and (value is None or m.value == value) for m in self.meta)


def kept(meta, key):
    return [m for m in meta if m.key != key]


def count(meta, key):
    return sum(1 for m in meta if m.key == key)


def without(self, key):
    self.meta = kept(self.meta, key)
    return (self, key)


def n_removed(self, key):
    return len(self.meta) - len(kept(self.meta, key))


def with_value(self, key, value):
    """the first item with the key, and no other, has the value; appended if there is none"""
    for m in self.meta:
        if m.key == key:
            m.value = value
            return (self, key, value)
    self.meta = self.meta + [Metadata(key, value)]
    return (self, key, value)


def after_set(self, key, value):
    self.set_meta(key, value)
    return self.get_meta(key) == value and self.has_meta(key, value) and self.has_meta(key)


def after_del(self, key):
    self.del_meta(key)
    return self.get_meta(key) is None and not self.has_meta(key) and self.del_meta(key) == 0


def none(self, key, value):
    return None


for K in (Entry[Message], Section[Message], Resource[Message]):
    n = K.__origin__.__name__
    Contract(W + "get_meta", dict(self=K, key=str), result=first_value, prop="C08", public=True, name=f"{n}.get_meta")
    Contract(W + "has_meta", dict(self=K, key=str, value=str | None), result=has, prop="C08", public=True, name=f"{n}.has_meta")
    Contract(W + "del_meta", dict(self=K, key=str), result=n_removed, final=without, modifies=True, prop="C08", public=True, name=f"{n}.del_meta")
    Contract(W + "set_meta", dict(self=K, key=str, value=str), result=none, final=with_value, modifies=True, prop="C08", public=True, name=f"{n}.set_meta")
    lemma(f"{n}/value-after-set", dict(self=K, key=str, value=str), after_set, prop="C08")
    lemma(f"{n}/nothing-after-del", dict(self=K, key=str), after_del, prop="C08")
