"""C18: paths/discover.py: targets of reference paths, names of locale directories, over an assumed contract of os.path"""
from __future__ import annotations
from dataclasses import dataclass
from typing import Literal
from pyvc import types as T
from pyvc.contract import Contract, Relation
from pyvc.world import abstract
from moz.l10n.paths.discover import L10nDiscoverPaths

D = "moz.l10n.paths.discover:"

is_dir = abstract("isdir", bool)
norm = abstract("normpath", str)
joined = abstract("join", str)


def s_isdir(w, path):
    return is_dir(path)


def s_normpath(w, path):
    return norm(path)


def s_join(w, a, b):
    return joined((a, b))


STUBS = {D + "isdir": s_isdir, D + "normpath": s_normpath, D + "join": s_join}


@dataclass
class World:
    pass


# ---------------------------------------------------------------- directories of locales
def world1(base, locale, locale_dir_sep):
    return World()


def dirname(base, locale, locale_dir_sep):
    """the locale itself, unless only the directory with an underscore exists or underscores are used by others"""
    if "-" not in locale or is_dir(joined((base, locale))):
        return locale
    alt = locale.replace("-", "_")
    return alt if locale_dir_sep == "_" or is_dir(joined((base, alt))) else locale


Contract(D + "_locale_dirname", dict(base=str, locale=str, locale_dir_sep=Literal["-", "_"]), stubs=STUBS, world=world1, result=dirname, prop="C18", name="_locale_dirname")


# ---------------------------------------------------------------- all paths
SELF = T.TCls(L10nDiscoverPaths, {"base": str, "locales": list[str] | None, "ref_paths": list[str], "locale_dir_sep": Literal["-", "_"], "_ref_root": str})


def world2(self):
    return World()


def target_path(self, ref_path):
    t = ref_path.replace(self._ref_root, joined((self.base, "{locale}")), 1)
    return t[:-1] if t.endswith(".pot") else t


def all_paths(self):
    paths = {}
    for r in self.ref_paths:
        paths[(r, target_path(self, r))] = self.locales
    return paths


Contract("moz.l10n.paths.discover:L10nDiscoverPaths.all", dict(self=SELF), stubs=STUBS, world=world2, result=all_paths, prop="C18", public=True, name="L10nDiscoverPaths.all")


# ---------------------------------------------------------------- the target of one path
def world3(self, target, locale):
    return World()


def filled(self, target, locale):
    return norm(target.format(locale=dirname(self.base, locale, self.locale_dir_sep)))


Contract(D + "L10nDiscoverPaths.format_target_path", dict(self=SELF, target=str, locale=str), stubs=STUBS, world=world3, result=filled, prop="C18", public=True, name="L10nDiscoverPaths.format_target_path")


def world4(self, ref_path, ref_required, locale):
    return World()


def target_args(self, ref_path, ref_required, locale):
    return self, ref_path


def target_kwargs(self, ref_path, ref_required, locale):
    return dict(ref_required=ref_required, locale=locale)


def target(self, ref_path, ref_required, locale):
    """the path of a known reference, or of any if it is not required, for the locale if it is a known one"""
    path = norm(joined((self._ref_root, ref_path)))
    if path.endswith(".po") and path not in self.ref_paths:
        path += "t"
    if ref_required and path not in self.ref_paths:
        return None, ()
    t = target_path(self, path)
    if locale is None:
        return t, self.locales or ()
    if self.locales is None or locale in self.locales:
        return filled(self, t, locale), {locale}
    return None, ()


Contract(
    D + "L10nDiscoverPaths.target", dict(self=SELF, ref_path=str, ref_required=bool, locale=str | None), args=target_args, kwargs=target_kwargs,
    stubs=STUBS, world=world4, result=target, prop="C18", public=True, name="L10nDiscoverPaths.target",
)
