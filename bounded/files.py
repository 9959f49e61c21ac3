"""file contents of every format, and random changes to them"""
import os

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "samples")
BY = {".dtd": "dtd", ".ftl": "fluent", ".inc": "inc", ".ini": "ini", ".properties": "properties", ".po": "gettext", ".xliff": "xliff", ".xml": "android"}
EXT = dict(dtd=".dtd", fluent=".ftl", inc=".inc", ini=".ini", properties=".properties", gettext=".po", xliff=".xliff", android=".xml", plain_json=".json", webext=".json")

SAMPLES = {
    "dtd": ['<!ENTITY a "b">\n', "<!-- c -->\n<!ENTITY a.b 'it\"s'>\n\n<!-- d\n  e -->\n\n<!ENTITY c \"&foo; &#38; %\">\n", '<!ENTITY a "">\n<!ENTITY b "x\n  y">\n', "# x\n<!ENTITY a \"b\">"],
    "fluent": ["a = b\n", "# c\na = { $x }\n    .b = d { -t }\n-t = T\n\n## S\n\n# e\nf =\n    { $n ->\n        [one] x\n       *[other] y\n    }\n", "### r\n\n## s\n\n## t\n# u\nv = w\n", "a = { \"{\" } { NUMBER($x, y: 1, z: \"s\") }\n", "a =\n  b\n    c\n\n  d\n", "a\n"],
    "inc": ["#define a b\n", "# c\n#define a b c\n\n# #define x y\n#define d\n", "#filter emptyLines\n\n#define a b\n"],
    "ini": ["[s]\na=b\n", "; c\n[s]\n# d\na = b\n\n; e\nf = g\n  h\n\n[t]\n\n; standalone\n\ni=j ; k\n"],
    "plain_json": ['{"a": "b", "c": {"d": "e"}}', '{\n  "a": {"b": {"c": "d"}, "e": ""}, "f.g": "h"}', '{"a": {}}', '{"": "x"}'],
    "properties": ["a = b\n", "# c\na=b\n! d\n\ne : f\\\n   g\nh\\ i j\\u00e9\\n\n", "a=%1$S %d\n\n#\n# x\n\nb\n", " a = \\ b\n"],
    "webext": ['{"a": {"message": "b"}}', '{"a": {"message": "b $c$ $1 $$", "description": "d", "placeholders": {"c": {"content": "$1", "example": "e"}}}}', "{}"],
    "gettext": ['msgid ""\nmsgstr ""\n\nmsgid "a"\nmsgstr "b"\n', '# h\nmsgid ""\nmsgstr ""\n"Language: fi\\n"\n"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n\n# t\n#. e\n#: f:1 g:2\n#, fuzzy, c-format\n#| msgid "p"\nmsgctxt "c"\nmsgid "a"\nmsgid_plural "b"\nmsgstr[0] "x"\nmsgstr[1] "y"\n\n#~ msgid "o"\n#~ msgstr "q"\n'],
    "android": ['<resources><string name="a">b</string></resources>', '<?xml version="1.0" encoding="utf-8"?>\n<resources>\n  <!-- c -->\n  <string name="a">%1$s \\\'x\\\' <b>y</b> \\u00a0z</string>\n  <plurals name="p">\n    <item quantity="one">1</item>\n    <item quantity="other">%d</item>\n  </plurals>\n  <string-array name="r">\n    <item>x</item>\n    <item>"  y "</item>\n  </string-array>\n</resources>\n'],
    "xliff": ['<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="a" source-language="en" datatype="x"><body><trans-unit id="a"><source>b</source></trans-unit></body></file></xliff>',
              '<?xml version="1.0" encoding="utf-8"?>\n<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">\n  <file original="a" source-language="en" target-language="fi" datatype="x">\n    <body>\n      <!-- c -->\n      <group id="g">\n        <trans-unit id="a" approved="yes">\n          <source>b <x id="1"/> &lt;</source>\n          <target state="translated">c <g id="2">d</g></target>\n          <note from="x">n</note>\n        </trans-unit>\n      </group>\n    </body>\n  </file>\n</xliff>\n'],
}
for _n in sorted(os.listdir(D)):
    with open(os.path.join(D, _n), encoding="utf-8", newline="") as _f:
        _k = BY.get(os.path.splitext(_n)[1]) or ("webext" if _n.startswith("m") else "plain_json")
        SAMPLES[_k].append(_f.read())

CHARS = list(" \n\t#;=:[]{}<>&\"'\\!%$@?*.-_/|~,aA1é\u3000\U0001f600\u00a0\u2028\r\x0b\x00") + ["\n\n", "  ", "//", "--", "<!--", "-->", "&lt;", "&#39;", "\\n", "\\u0041", "\\", "%%", "%s", "$1", "$a$", "{ $x }", "&a;", "]]>", "<b>", "</b>", "msgid", "\"\"", "\n#", "\n ", "one", "0"]


def mutate(r, s, n=None):
    for _ in range(n if n is not None else r.choice([0, 1, 1, 2, 3, 5])):
        k = r.random()
        i = r.randrange(len(s) + 1)
        if k < 0.4:
            s = s[:i] + r.choice(CHARS) + s[i:]
        elif k < 0.55:
            s = s[:i] + s[i + r.choice([1, 1, 2, 5]) :]
        else:
            ls = s.split("\n")
            j = r.randrange(len(ls))
            if k < 0.7:
                del ls[j]
            elif k < 0.8:
                ls.insert(j, ls[r.randrange(len(ls))])
            elif k < 0.9:
                m = r.randrange(len(ls))
                ls[j], ls[m] = ls[m], ls[j]
            else:
                ls.insert(j, r.choice(["", "# c", "  ", "<!-- c -->", "; c", "// c", "#. c"]))
            s = "\n".join(ls)
    return s


def any_file(r, fmts=None):
    """(format, text)"""
    f = r.choice(fmts or sorted(SAMPLES))
    return f, mutate(r, r.choice(SAMPLES[f]))
