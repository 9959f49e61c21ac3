"""C18: L10nConfigPaths and L10nDiscoverPaths"""
import itertools, os, re, tempfile
from functools import cache
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths, get_android_locale
from .common import cut, exc

CONTRACTS = ["config_paths"]
BUDGET = 25
LEVEL = "other"
RULE = "random file trees and configurations of up to 4 paths entries with wildcards *, **, **/, variables, env, locale lists, includes and special characters in names; random discover trees; non-trivial: a reference file matches"
ASSUMPTIONS = ['os.path.join, normpath and isdir are functions of their arguments and do not fail; str.format of a template which is not known is a function of the template and its fields and does not fail']
EXPLANATION = "for all inputs, over an assumed contract of os.path: L10nDiscoverPaths.all, target and format_target_path meet their contracts; in addition path and locale selection against an independent matcher on enumerated configurations; functions under contract as listed"

STARS = re.compile(r"\*\*/\**|\*\*|\*")
VARS = re.compile(r"\{(\w+)\}")
LOCALES = ["fr", "de", "he", "en-GB", "sr-Latn"]


@cache
def pattern(p):
    """the regular expression of a template: wildcards and variables, everything else literally"""
    out = ""
    i = 0
    stars = 0
    seen = set()
    while i < len(p):
        m = STARS.match(p, i)
        if m:
            k = m[0]
            out += f"(?P<_{stars}>" + ("[^/]*" if k == "*" else "(?:.*/)?" if k == "**/" else ".*") + ")"
            stars += 1
            i = m.end()
            continue
        m = VARS.match(p, i)
        if m:
            out += f"(?P={m[1]})" if m[1] in seen else f"(?P<{m[1]}>[^/]*)"
            seen.add(m[1])
            i = m.end()
            continue
        out += re.escape(p[i])
        i += 1
    return re.compile(out, re.S)


def captures(p, path):
    m = pattern(p).fullmatch(path)
    if m is None:
        return None
    d = m.groupdict()
    return [d[k] for k in sorted((k for k in d if re.fullmatch(r"_\d+", k)), key=lambda k: int(k[1:]))], {k: v for k, v in d.items() if not re.fullmatch(r"_\d+", k)}


def fill(p, stars):
    it = iter(stars)
    return STARS.sub(lambda m: next(it), p)


def fmt(p, d):
    return VARS.sub(lambda m: d.get(m[1], m[0]), p)


def po(p):
    return p[:-1] if p.endswith(".pot") else p


TREES = ["a.ftl", "b.ftl", "b.properties", "x/a.ftl", "x/y/a.ftl", "x/y/b.po", "x/t.pot", "t.pot", "c++/a.ftl", "d.e/a.b.ftl", "dXe/a.b.ftl", "(f)/a.ftl", "x-y/a$.ftl", "y/x/a.ftl", "x/x/x.ftl"]
REFS = ["en/*.ftl", "en/**", "en/**/*.ftl", "en/*/a.ftl", "en/x/**/*.ftl", "en/a.ftl", "en/x/y/b.po", "en/t.pot", "en/x/*.pot", "en/c++/*.ftl", "en/d.e/*.ftl", "en/(f)/*", "en/*.pot", "en/**/a.ftl", "en/x-y/a$.ftl", "en/**.ftl", "en/d.e/a.b.ftl", "en/x/y/*.po", "en/**/x/*.ftl", "ref+/q.ftl"]
PRE = ["{locale}/", "{l10n_base}/{locale}/", "l10n/{locale}/", "values-{android_locale}/", "{locale}/{module}/", "x.{locale}/", "{locale}+/", "{env}/{locale}/", "a.b/{locale}/", "{locale}.{locale}/"]


def shape(ref, r):
    """an l10n template with the wildcards of ref"""
    rest = ref.split("/", 1)[1]
    pre = r.choice(PRE)
    k = r.random()
    if k < 0.6:
        return pre + (po(rest) if r.random() < 0.5 else rest)
    if k < 0.7:
        return pre + "sub/" + rest
    st = STARS.findall(rest)
    ext = os.path.splitext(rest)[1]
    if len(st) == 1 and not st[0].startswith("**/") and "*" not in ext:
        return pre + r.choice(["pre-" + st[0] + ext, st[0] + ".x" + ext, "q/" + st[0] + "." + "z" + ext])
    return pre + rest


def config(r, depth=0):
    paths = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        ref = r.choice(REFS)
        d = dict(reference=ref, l10n=shape(ref, r))
        if r.random() < 0.35:
            d["locales"] = r.sample(LOCALES, r.randrange(1, 4))
        paths.append(d)
        if r.random() < 0.25 and "*" not in ref:
            paths.append(dict(reference=ref, l10n=shape(ref, r), **({"locales": r.sample(LOCALES, r.randrange(1, 3))} if r.random() < 0.7 else {})))
    c = dict(paths=paths)
    if r.random() < 0.7:
        c["locales"] = r.sample(LOCALES, r.randrange(1, 5))
    if r.random() < 0.3 or "{env}" in repr(paths):
        c["env"] = {"env": r.choice(["e", "e.f", "e+"])}
    if r.random() < 0.15:
        c["basepath"] = r.choice([".", ".."])
    if depth == 0 and r.random() < 0.2:
        c["includes"] = [config(r, 1)]
    return c


def cases(r, tier, shard, shards):
    def small():
        for ref in REFS:
            for pre in PRE:
                c = dict(paths=[dict(reference=ref, l10n=pre + ref.split("/", 1)[1])], locales=["fr", "he"])
                if "{env}" in pre:
                    c["env"] = {"env": "e.f"}
                yield ("config", TREES, c, [])
        for files in (["en-US/a.ftl", "fr/a.ftl", "de/a.ftl"], ["en/a.pot", "fr/a.po", "fr_CA/a.po", "pt_BR/a.po"], ["x/en-US/a.ftl", "x/fr/a.ftl"], ["en-US/a.ftl", "az_Latn_AZ/a.ftl", "de/a.ftl"], ["en-US/a/b.ftl", "en-US/t.pot", "en-US/c.po"], ["en-US/.x.ftl", "en-US/a.ftl", ".git/fr/a.ftl"],
                      ["en-US/a.txt", "en/a.ftl", "fr/a.ftl"], ["src/a.ftl", "en/b.ftl", "l/fr/a.ftl"]):
            for ign in ("", "a.*\n", "b/\n"):
                for how in ("abs", "rel", "dot", "ref"):
                    yield ("discover", files, ign, how)

    yield from cut(small(), shard, shards)
    while True:
        files = r.sample(TREES, r.randrange(3, len(TREES)))
        c = config(r)
        force = ["en/" + r.choice(["new.ftl", "x/new.ftl", "x/y/z/new.ftl", "new.txt"])] if r.random() < 0.2 else []
        if r.random() < 0.85:
            yield ("config", files, c, force)
        else:
            files = [d + "/" + f for d in r.sample(["en-US", "en", "fr", "de", "pt-BR", "zh_TW", "sr-Latn", "az_Latn_AZ", "uz-Cyrl-UZ", "src", "x/y"], r.randrange(2, 6)) for f in r.sample(["a.ftl", "b.po", "t.pot", "q/c.ini", "q/d.txt", ".h.ftl", "e+.ftl"], r.randrange(1, 4))]
            yield ("discover", files, r.choice(["", "", "b.*\n", "q\n", "*.ftl\n"]), r.choice(["abs", "rel", "dot", "ref"]))


def make(d, files):
    for f in files:
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w"):
            pass


def flat(c, out, ref_root, inherit=None):
    """entries in lookup order: (reference template, l10n template, locales of the path, locales of its configuration)"""
    env = c.get("env")
    for p in c["paths"]:
        t = p["l10n"]
        out.append((os.path.normpath(os.path.join(ref_root, p["reference"])), fmt(t, env) if env else t, p.get("locales"), c.get("locales"), c))
    return out


def glob_match(tpl, path):
    """does a file path match a reference glob: no hidden parts, ** only as a whole part"""
    ps, qs = tpl.split("/"), path.split("/")

    def go(i, j):
        if i == len(ps):
            return j == len(qs)
        if ps[i] == "**":
            if i == len(ps) - 1:
                return j < len(qs)
            return any(go(i + 1, k) for k in range(j, len(qs)))
        return j < len(qs) and re.fullmatch("[^/]*".join(re.escape(x) for x in re.split(r"\*+", ps[i])), qs[j]) is not None and go(i + 1, j + 1)

    return go(0, 0)


def check_config(files, c, force):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        root = os.path.join(d, "p")
        make(root, ["en/" + f for f in files] + ["ref+/q.ftl"])
        base = os.path.normpath(os.path.join(root, c.get("basepath", ".")))
        if c.get("basepath") == "..":
            make(base, ["en/" + f for f in files] + ["ref+/q.ftl"])
        incl = c.get("includes", [])
        confs = {"l10n.toml": dict(c)}
        if incl:
            confs["l10n.toml"]["includes"] = [{"path": f"i{k}.toml"} for k in range(len(incl))]
            for k, x in enumerate(incl):
                confs[f"i{k}.toml"] = {**x, "basepath": "."}
        loaded = []

        def load(p):
            loaded.append(p)
            return confs[os.path.basename(p)]

        fp = [os.path.join(base, f) for f in force]
        try:
            paths = L10nConfigPaths(os.path.join(root, "l10n.toml"), cfg_load=load, force_paths=fp or None)
        except Exception as e:
            return f"configuration raised {exc(e)}"
        # the entries of the configuration, then those of its includes
        groups = []  # (configuration, base, {ref: {template: locales}})
        for k, x in enumerate([c, *incl]):
            b = base
            left = set(fp) if k == 0 else set()
            env = x.get("env")
            data = {}
            tpls = []
            have = sorted([os.path.join(dp, f) for dp, _, fs in os.walk(os.path.join(b)) for f in fs if "/en/" in dp + "/" or "ref+" in dp])
            for p in x["paths"]:
                ref = os.path.normpath(os.path.join(b, p["reference"]))
                t = fmt(p["l10n"], env) if env else p["l10n"]
                tpls.append((ref, t))
                if "*" in ref:
                    cand = [f for f in have if glob_match(ref, f)] + sorted(f for f in left if pattern(ref).fullmatch(f))
                    left -= set(cand)
                    for f in cand:
                        g = captures(ref, f)
                        if g is None:
                            continue
                        data.setdefault(f, {})[fill(t, g[0])] = p.get("locales")
                else:
                    data.setdefault(ref, {})[t] = p.get("locales")
            groups.append((x, b, data, tpls))
        refs = [f for g in groups for f in g[2]]
        if sorted(paths.ref_paths) != sorted(refs):
            return f"reference paths {sorted(paths.ref_paths)} instead of {sorted(refs)}"
        fm = {"module": "m.1"}

        def want(ref, locale):
            for x, b, data, _ in groups:
                own = x.get("locales")
                if locale is not None and own and locale not in own:
                    if x is c:
                        return None
                    continue
                if ref not in data:
                    continue
                pd = data[ref]
                if locale is not None:
                    t = next((t for t, l in pd.items() if l is not None and locale in l), None)
                    if t is None:
                        t = next((t for t, l in reversed(pd.items()) if l is None), None)
                    if t is None:
                        continue
                    lcs = {locale}
                else:
                    t = next((t for t, l in pd.items() if l is None), None)
                    if t is not None:
                        lcs = set(own or ())
                    else:
                        ok = [(t, set(l) & set(own) if own else set(l)) for t, l in reversed(pd.items())]
                        ok = [o for o in ok if o[1]]
                        if not ok:
                            continue
                        t, lcs = ok[0]
                lm = {**fm, "l10n_base": b}
                path = po(fmt(t, lm))
                path = os.path.normpath(os.path.join(b, path))
                if locale is not None:
                    path = os.path.normpath(fmt(path, {"locale": locale, "android_locale": get_android_locale(locale)}))
                return path, lcs, b, t
            return None

        for ref in sorted(set(refs)) + [os.path.join(base, "en/none.ftl"), os.path.join(base, "en")]:
            for locale in [None] + LOCALES + ["xx"]:
                w = want(ref, locale)
                try:
                    g = paths.target(ref, format_map=fm, locale=locale)
                    g2 = paths.target(os.path.relpath(ref, base), format_map=fm, locale=locale) if not incl else g
                except Exception as e:
                    return f"target({ref!r}, locale={locale!r}) raised {exc(e)}"
                if locale is None and any(sum(l is None for l in x[2].get(ref, {}).values()) > 1 for x in groups):
                    continue
                if w is None:
                    if g[0] is not None or set(g[1]):
                        return f"target({ref!r}, locale={locale!r}) is {g} instead of nothing"
                    continue
                if g[0] != w[0] or set(g[1]) != w[1]:
                    return f"target({ref!r}, locale={locale!r}) is {g} instead of {w[:2]}"
                if g2 != g:
                    return f"target of the relative path of {ref!r} is {g2} instead of {g}"
                if locale is None:
                    continue
                # and back
                rel = os.path.relpath(w[0], base)
                hits = []
                for x, b, data, tpls in groups:
                    for rt, t in tpls:
                        tt = po(t)
                        cp = captures(tt.removeprefix("{l10n_base}/"), rel)
                        if cp is None:
                            continue
                        rp = os.path.normpath(fill(rt, cp[0]))
                        if rp in data:
                            hits.append((rp, cp[1]))
                        elif rp.endswith(".po") and rp + "t" in data:
                            hits.append((rp + "t", cp[1]))
                try:
                    back = paths.find_reference(w[0])
                except Exception as e:
                    return f"find_reference({w[0]!r}) raised {exc(e)}"
                if not hits or back != hits[0]:
                    if hits or back is not None:
                        return f"find_reference({w[0]!r}) is {back} instead of {hits[:1]}"
                if len(hits) == 1 and hits[0][0] != ref and not ref.endswith((".po", ".pot")):
                    if hits[0][0] in refs and len({h for h in refs}) > 1 and captures_ambiguous(w[3]):
                        continue
                    return f"find_reference({w[0]!r}) is {back} and not {ref!r}"
                if not hits and "{" not in rel:
                    return f"find_reference({w[0]!r}) finds nothing for the target of {ref!r}"
                # a path that differs in one literal character is not matched by accident
                for i in range(0, len(rel), 3):
                    alt = rel[:i] + ("~" if rel[i] != "/" else "_") + rel[i + 1 :]
                    okalt = any(captures(po(t).removeprefix("{l10n_base}/"), alt) and (os.path.normpath(fill(rt, captures(po(t).removeprefix("{l10n_base}/"), alt)[0])) in data or os.path.normpath(fill(rt, captures(po(t).removeprefix("{l10n_base}/"), alt)[0])) + "t" in data)
                                for x, b, data, tpls in groups for rt, t in tpls)
                    back = paths.find_reference(alt)
                    if (back is not None) != okalt:
                        return f"find_reference({alt!r}) is {back}"
        want_all = {}
        try:
            got = paths.all(fm)
        except Exception as e:
            return f"all() raised {exc(e)}"
        for x, b, data, _ in groups:
            for ref, pd in data.items():
                for t in pd:
                    want_all[(ref, os.path.normpath(os.path.join(b, po(fmt(t, {**fm, "l10n_base": b})))))] = 1
        if set(got) != set(want_all):
            return f"all() is {sorted(got)} instead of {sorted(want_all)}"
        if not incl:
            for (ref, t), lcs in got.items():
                opts = [l if l else c.get("locales") for tt, l in groups[0][2][ref].items() if os.path.normpath(os.path.join(base, po(fmt(tt, {**fm, "l10n_base": base})))) == t]
                if len(opts) == 1 and lcs != opts[0]:
                    return f"all() gives locales {lcs} instead of {opts[0]} for {ref}"
        return None


def captures_ambiguous(t):
    return len(STARS.findall(t)) > 1


LOC = re.compile(r"[a-z]{2,3}([-_][A-Z][a-z]{3})?([-_][A-Z]{2})?|ca-valencia|ja-JP-mac")
EXTS = (".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml")


def check_discover(files, ign, how):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        make(d, files)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            kw = {}
            root = d
            if how == "rel":
                os.chdir(os.path.dirname(d))
                root = os.path.basename(d)
            elif how == "dot":
                root = "."
            elif how == "ref":
                kw["ref_root"] = "."
            if ign:
                for x in {f[:i] for f in files for i in range(len(f)) if f[i] == "/"}:
                    with open(os.path.join(d, x, ".l10n-ignore"), "w") as f:
                        f.write(ign)
            try:
                p = L10nDiscoverPaths(root, **kw)
            except Exception as e:
                if type(e).__name__ == "MissingSourceDirectoryError":
                    ok = [f for f in files if any(x in ("en-US", "en", "en_US", "en-us", "en_us") for x in f.split("/")[:-1]) and f.endswith(EXTS) and not os.path.basename(f).startswith(".")]
                    return f"no source directory found in {files}" if ok else None
                return f"raised {exc(e)}"
            rr = os.path.relpath(os.path.abspath(p.ref_root), d)
            src = [x for x in ("en-US", "en") if any(f.startswith(x + "/") and f.endswith(EXTS) and not os.path.basename(f).startswith(".") for f in files)]
            pots = [x for x in src if any(f.startswith(x + "/") and f.endswith(".pot") for f in files)]
            if how != "ref" and src and rr not in (pots or src)[:1]:
                return f"reference directory {rr} instead of {(pots or src)[0]}"
            skip = {"": lambda f: False, "a.*\n": lambda f: os.path.basename(f).startswith("a."), "b.*\n": lambda f: os.path.basename(f).startswith("b."),
                    "b/\n": lambda f: "/b/" in f, "q\n": lambda f: "q" in f.split("/"), "*.ftl\n": lambda f: f.endswith(".ftl")}[ign if rr != "." else ""]
            want = sorted(os.path.relpath(f, rr) for f in files if (rr == "." or f.startswith(rr + "/")) and not any(x.startswith(".") for x in f.split("/")) and not skip(f))
            got = sorted(os.path.relpath(os.path.abspath(f), os.path.join(d, rr)) for f in p.ref_paths)
            if got != want:
                return f"reference paths {got} instead of {want}"
            if p.base is None:
                p.base = os.path.join(d, "new")
            b = os.path.relpath(os.path.abspath(p.base), d)
            lcs = p.locales
            if lcs is not None:
                dirs = {f[len(b) + 1 :].split("/")[0] for f in files if b == "." or f.startswith(b + "/")} if b != "." else {f.split("/")[0] for f in files}
                dirs = {x.replace("_", "-") for x in dirs if LOC.fullmatch(x) and x not in ("en-US", "en", "en_US", "en-us", "en_us")}
                if set(lcs) != dirs:
                    return f"locales {lcs} instead of {sorted(dirs)} in {b}"
            for f in got:
                ref = os.path.join(p.ref_root, f)
                t, ls = p.target(f)
                w = os.path.normpath(os.path.join(d, b, "{locale}", po(f)))
                if t is None or os.path.abspath(t) != w or set(ls) != set(lcs or ()):
                    return f"target({f!r}) is {t}, {ls} instead of {w}"
                if f.endswith(".pot") and f[:-1] not in got and p.target(f[:-1]) != (t, ls):
                    return f"target({f[:-1]!r}) is {p.target(f[:-1])} instead of {t}"
                if not any(os.path.abspath(k[1]) == w and k[0] in p.ref_paths for k in p.all()):
                    return f"all() lacks {w}"
                for lc in (lcs or ["fr"]) + ["xx"]:
                    t, ls = p.target(f, locale=lc)
                    if lcs is not None and lc not in lcs:
                        if t is not None or set(ls):
                            return f"target({f!r}, locale={lc!r}) is {t}"
                        continue
                    ok = [os.path.normpath(os.path.join(d, b, x, po(f))) for x in (lc, lc.replace("-", "_"))]
                    ex = [y for y, x in zip(ok, (lc, lc.replace("-", "_"))) if os.path.isdir(os.path.join(d, b, x))]
                    if t is None or os.path.abspath(t) not in (ex[:1] or ok) or set(ls) != {lc}:
                        return f"target({f!r}, locale={lc!r}) is {t}, {ls} instead of {ok}"
                    back = p.find_reference(os.path.abspath(t)) if how != "rel" else p.find_reference(os.path.relpath(t, p.base))
                    alt = [k for k in (f, po(f), po(f) + "t" if f.endswith(".po") else f) if k in got]
                    if not LOC.fullmatch(lc):
                        continue
                    if back is None or os.path.relpath(os.path.abspath(back[0]), os.path.join(d, rr)) not in alt or back[1] != {"locale": lc}:
                        return f"find_reference({t!r}) is {back} instead of {f!r}"
            if p.target("none.ftl")[0] is not None or p.find_reference(os.path.join("fr", "none.ftl")) is not None or (p.find_reference("x+y/" + got[0]) if got else None) is not None:
                return "a path that is not a reference has a target"
        finally:
            os.chdir(cwd)


def check(case):
    if case[0] == "config":
        return check_config(*case[1:])
    return check_discover(*case[1:])
