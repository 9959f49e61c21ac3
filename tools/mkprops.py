"""Writes properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["python/moz/l10n/" + f for f in files],
            state=[dict(name=a, meaning=b, where="python/moz/l10n/" + c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where="python/moz/l10n/" + b) for a, b in mechanism],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "Message JSON is a lossless encoding",
 "Encoding any well-formed message with message_to_json and decoding the result with message_from_json gives back an equal message: same kind, same text and placeholder sequence, same arguments, functions, options, attributes and declarations in the same order, same selectors, and the same variants with their keys, including the names of catch-all keys. The encoding has the shape of schemas/message.json, and neither call changes its argument.",
 ["inputs"], "every well-formed PatternMessage and SelectMessage: any number of declarations, pattern parts, options, attributes, selectors and variants, any strings including empty ones",
 "Tests round-trip a few dozen sample messages; combinations such as an empty literal argument, catch-all names or markup kinds with options are sampled one at a time at best.",
 ["message/to_json.py", "message/from_json.py", "model.py"],
 [("message_to_json", "message/to_json.py"), ("message_from_json", "message/from_json.py")])

prop("C02", "Entry JSON is a lossless encoding",
 "Encoding any entry with entry_to_json and decoding it with entry_from_json gives back an equal entry: the same id parts (which may contain dots and backslashes), value, properties, comment and metadata in order. Distinct ids encode to distinct keys, and the encoded entry leaves out the members that are empty.",
 ["inputs"], "every entry whose id is a non-empty tuple of non-empty strings and whose values are well-formed messages",
 "The tests use a handful of ids; injectivity of the dotted id encoding is a statement about all pairs of string tuples.",
 ["message/to_json.py", "message/from_json.py", "model.py"],
 [("entry_to_json", "message/to_json.py"), ("entry_from_json", "message/from_json.py")])

prop("C03", "The MessageFormat 2 JSON data model is a lossless encoding",
 "For every message, mf2_to_json followed by mf2_from_json gives back an equal message, including declaration order, input/local declarations, catch-all key values and attributes without a value. JSON from which no message can be built (missing members, members of the wrong type, unknown types, arrays in place of objects and the reverse) is reported with MF2ValidationError and never with another exception.",
 ["inputs"], "every well-formed message; for the error part, every JSON object tree",
 "Tests cover sample messages only, and the error paths for a few malformed documents.",
 ["formats/mf2/to_json.py", "formats/mf2/from_json.py"],
 [("mf2_to_json", "formats/mf2/to_json.py"), ("mf2_from_json", "formats/mf2/from_json.py")])

prop("C04", "MessageFormat 2 syntax round-trips every valid message",
 "For every valid message, the text produced by mf2_serialize_message is accepted by mf2_parse_message and parses to an equal message, up to joining adjacent text, dropping empty text, and the order into which validation puts the declarations. In particular escapes, quoting of literals, empty literals, options, attributes and markup survive, and a message that starts like a complex message stays plain text.",
 ["inputs"], "every PatternMessage and SelectMessage that mf2_validate_message accepts, with strings of any characters MF2 source may contain",
 "Quoting and escaping depend on every character and on combinations of neighbouring parts; tests sample a few strings.",
 ["formats/mf2/serialize.py", "formats/mf2/message_parser.py"],
 [("mf2_serialize_message, mf2_serialize_pattern", "formats/mf2/serialize.py"), ("MF2MessageParser", "formats/mf2/message_parser.py")])

prop("C05", "The MessageFormat 2 parser is total and yields only valid messages",
 "For every source string, mf2_parse_message either returns a message that mf2_validate_message accepts, or raises MF2ParseError with a position inside the source; it never raises any other exception, never loops and never silently discards source characters.",
 ["inputs"], "every string of any length",
 "Tests feed a fixed list of syntax errors; index errors at the end of input and accepted-but-invalid messages hide in inputs nobody listed.",
 ["formats/mf2/message_parser.py", "formats/mf2/validate.py"],
 [("MF2MessageParser", "formats/mf2/message_parser.py"), ("mf2_validate_message", "formats/mf2/validate.py")],
 [("pos", "index into the source, always between 0 and its length", "formats/mf2/message_parser.py")])

prop("C06", "MF2 validation accepts exactly the valid messages",
 "mf2_validate_message returns for every message that satisfies the MF2 data model rules and raises MF2ValidationError for every other one: names that are not MF2 names, expressions with neither argument nor function, options without a function, selectors that are not declared with a function directly or through a chain of declarations, variants with a wrong number of keys, variants not covering the catch-all case, and declarations with a dependency cycle. When it returns, the message is unchanged except that its declarations may be re-ordered so that each one comes after the declarations it depends on.",
 ["inputs"], "every message built from the model classes, valid or not",
 "Each rule is tested with one or two violations; the rules are universally quantified over parts, options, declarations and variants.",
 ["formats/mf2/validate.py"],
 [("mf2_validate_message", "formats/mf2/validate.py")])

prop("C07", "normalize() keeps the meaning of a message",
 "PatternMessage.normalize and SelectMessage.normalize leave every pattern with the same placeholders in the same order and the same concatenated text between them, with no empty and no adjacent text parts. They keep exactly the declarations that the selectors and placeholders (including their options) reach directly or through other kept declarations, change nothing else, and applying them again changes nothing.",
 ["inputs"], "every PatternMessage and SelectMessage",
 "Reachability through chains of declarations and runs of empty or adjacent text are unbounded; tests use two or three fixed shapes.",
 ["util/normalize.py", "model.py"],
 [("_normalize_pattern, _normalize_declarations", "util/normalize.py"), ("normalize", "model.py")])

prop("C08", "Metadata operations keep the metadata list consistent",
 "On entries, sections and resources: get_meta returns the value of the first metadata item with the key or None; has_meta tells whether one exists, with the given value if one is given; set_meta changes only the value of the first item with the key, or appends one item when there is none; del_meta removes exactly the items with the key and returns how many. All other items keep their values and order.",
 ["inputs", "histories"], "every metadata list (including repeated keys), key and value, and every sequence of operations",
 "Tests use short lists with distinct keys; repeated keys and empty values are the cases that matter.",
 ["model.py"], [("_WithMeta", "model.py")])

prop("C09", "Placeholder parsing of message strings loses nothing",
 "For every format and every source text that parse_message accepts, serialize_message writes the message as a text which parse_message reads as the same message again (up to the division of text into literals and placeholders) and which serialize_message reproduces exactly. For printf-style strings, the source attributes and literal parts of the parsed pattern concatenate to exactly the source string, and formats without placeholders give back the source itself. Neither function changes its arguments.",
 ["inputs"], "every source string of the format",
 "Placeholder syntaxes interact with arbitrary surrounding text; tests list a few dozen strings.",
 ["util/printf.py", "message/parse.py", "message/serialize.py", "formats/webext/parse.py", "formats/webext/serialize.py"],
 [("parse_printf_pattern", "util/printf.py"), ("parse_message", "message/parse.py"), ("serialize_message", "message/serialize.py")])

prop("C10", ".properties files round-trip every resource",
 "Serializing any resource in the properties format and parsing the text gives back the same entries in the same order with identical ids and values, and identical comments up to surrounding blank lines, whatever characters keys and values contain (leading and trailing spaces, separators, backslashes, newlines, control and non-BMP characters, with a UTF-8 or a Latin-1 encoding); parsing any .properties text gives the keys, values and comments which its separators, escapes and continued lines stand for. With trim_comments, all comments and nothing else disappear. A resource the format cannot represent is refused with an error and never written out wrong.",
 ["inputs"], "every resource whose sections and entries the serializer accepts, and both encodings",
 "Escaping must be correct for each character in each position; tests use a few sample lines.",
 ["formats/properties/parse.py", "formats/properties/serialize.py"],
 [("properties_serialize", "formats/properties/serialize.py"), ("properties_parse, PropertiesParser", "formats/properties/parse.py")])

prop("C11", "JSON-based resource formats round-trip every resource",
 "Serializing any resource in the plain JSON or the WebExtension messages.json format gives valid JSON that parses back to the same entries in the same order, with the same ids, values, comments and placeholders; plain JSON nests ids by their parts, so its entries come back grouped by parent. A resource these formats cannot represent (metadata, conflicting or duplicate ids, unsupported message parts) is refused with an error rather than written with data lost, and the resource passed in is not changed.",
 ["inputs"], "every resource whose ids and messages are well formed",
 "Nested ids that conflict or are not adjacent, and placeholders with clashing names or literal dollar signs, are not reachable from the fixtures.",
 ["formats/plain_json/parse.py", "formats/plain_json/serialize.py", "formats/webext/parse.py", "formats/webext/serialize.py"],
 [("plain_json_serialize", "formats/plain_json/serialize.py"), ("webext_serialize, webext_serialize_message", "formats/webext/serialize.py")])

prop("C12", "DTD, INC and INI files round-trip every representable resource",
 "Serializing a resource in the DTD, INC or INI format and parsing the text gives back the same sections and entries in order with the same ids, values and comments, for every resource whose strings the format can carry: up to white space around comment lines, &quot; for double quotes in DTD values which have both kinds, and section ids and comments of DTD and INC files, whose entries are all in one section. Identifiers the format does not allow raise an error instead of producing text that parses to something else, and with trim_comments no comment is written.",
 ["inputs"], "every resource with string or single-string-pattern values",
 "The line-based syntaxes give special meaning to characters at the start and end of lines; fixtures contain only friendly strings.",
 ["formats/dtd/serialize.py", "formats/inc/serialize.py", "formats/ini/serialize.py", "formats/dtd/parse.py", "formats/inc/parse.py", "formats/ini/parse.py"],
 [("dtd_serialize", "formats/dtd/serialize.py"), ("inc_serialize", "formats/inc/serialize.py"), ("ini_serialize", "formats/ini/serialize.py")])

prop("C13", "Gettext files round-trip messages, plurals and metadata",
 "Serializing any gettext resource and parsing the result gives back the same header metadata and the same entries in order: msgid and msgctxt, singular and plural values per plural category, translator and extracted comments up to white space, references, flags and obsolete marks (with up to ten plural forms, the last of which is read as the default one; an obsolete entry keeps only its translator comments and flags). Parsing a PO file gives its entries with these data, whatever the layout of its strings, references and flags. A message, identifier or metadata item gettext cannot express is refused with ValueError.",
 ["inputs"], "every resource in the gettext model: one section, ids of one or two parts, pattern or single-selector plural messages, gettext metadata keys",
 "Combinations of metadata and plural categories are unbounded; two fixture files exist.",
 ["formats/gettext/parse.py", "formats/gettext/serialize.py"],
 [("gettext_parse", "formats/gettext/parse.py"), ("gettext_serialize", "formats/gettext/serialize.py")])

prop("C14", "Fluent resources and messages round-trip",
 "Serializing any Fluent resource and parsing the text gives back an equal resource: messages, terms, attributes, selectors with the same variants and defaults, functions with positional and named arguments, message and term references, string literals with special characters, multi-line values and comments at every level. Equality is up to what Fluent does not tell apart: quoted text and text, names of local selector variables, $n and NUMBER($n) as selectors, the order of attributes, empty sections, and a first comment of the file, which is its info metadata. For every combination of selector values, the text of a parsed message is the one the Fluent syntax gives it, and also after it is serialized again. Select messages whose variants do not form nested selections with one default each, and other values Fluent cannot express, are refused with a ValueError.",
 ["inputs"], "every resource in the Fluent message model and every valid FTL text",
 "Variant flattening and text escaping interact with indentation and special leading characters; the fixtures sample this.",
 ["formats/fluent/parse.py", "formats/fluent/serialize.py"],
 [("fluent_parse, fluent_parse_message", "formats/fluent/parse.py"), ("fluent_serialize, fluent_serialize_message", "formats/fluent/serialize.py")])

prop("C15", "Android string resources round-trip text exactly",
 "Serializing any Android strings resource and parsing the XML gives back the same strings, plurals and string-arrays in order with the same ids, attributes, comments, text and placeholders: quotes, apostrophes, backslashes, leading @ and ?, newlines, repeated spaces, control characters and entities included. Read by the Android escaping rules, the XML of a string gives exactly its text. Equality is up to what Android strings do not tell apart: printf placeholders and escaped HTML in text are recognised when parsing, a space before a block tag or after <br> or <hr> is a newline, and double dashes and line indents in comments are rewritten. The result is always well-formed XML, whatever texts, comments and attributes contain. With trim_comments, all comments and nothing else disappear.",
 ["inputs"], "every resource in the Android model, any strings of XML characters",
 "Android escaping depends on character neighbourhoods and whitespace runs; tests sample a few.",
 ["formats/android/parse.py", "formats/android/serialize.py"],
 [("android_parse, android_parse_message", "formats/android/parse.py"), ("android_serialize, android_serialize_message", "formats/android/serialize.py")])

prop("C16", "XLIFF 1.2 resources round-trip",
 "Serializing any XLIFF resource and parsing the XML gives back the same files, groups, units, notes, attributes, sources, targets and inline elements in the same order, up to the order of the children of a unit, the layout of comments, and comments of groups becoming comment entries. This holds for targets or sources as the messages, and for Xcode stringsdict and xcstrings files as they are parsed (with at most one substitution, next to no other unnumbered placeholder). The output is always well-formed XML whatever the text, notes, comments and attribute values contain, and data which the format cannot express is refused with an error.",
 ["inputs"], "every resource in the XLIFF model, any strings of XML characters",
 "Nested groups, attribute metadata and inline elements combine freely; a few fixture files exist.",
 ["formats/xliff/parse.py", "formats/xliff/serialize.py", "formats/xliff/common.py"],
 [("xliff_parse", "formats/xliff/parse.py"), ("xliff_serialize", "formats/xliff/serialize.py")])

prop("C17", "Android locale codes convert back and forth",
 "parse_android_locale(get_android_locale(code)) gives back every well-formed BCP 47 locale code of a two- or three-letter language and optional script, region and variant parts in their canonical case. The legacy Android language codes iw, in and ji stand for he, id and yi: get_android_locale writes the legacy code and parse_android_locale reads it back as the current one. parse_android_locale gives None for every string that is neither a language with an optional -r region nor b+ followed by subtags of 1 to 8 letters and digits joined by +.",
 ["inputs"], "every locale code of that shape, and for the last part every string",
 "Tests cover a dozen codes; the statement is about the whole grammar.",
 ["paths/android_locale.py"],
 [("get_android_locale, parse_android_locale", "paths/android_locale.py")])

prop("C18", "Configured localization paths map references and targets consistently",
 "For every TOML project configuration, L10nConfigPaths.target gives for a reference file the path obtained by filling the wildcards and variables of its l10n template, and find_reference on that path for each of its locales leads back to the same reference file and the same path variables. A path matches only as a whole and with all characters of the pattern literally except wildcards and variables; ignored or excluded paths, and targets in locales outside a path's locale list, are never returned.",
 ["inputs", "configurations"], "every configuration of normalised paths of literal characters, * and ** wildcards, {locale} and other variables, and every reference file below it",
 "Patterns and file names with regular-expression characters, several wildcards or nested configurations are hardly sampled.",
 ["paths/config.py", "paths/discover.py"],
 [("L10nConfigPaths.target, find_reference, path_regex", "paths/config.py"), ("L10nDiscoverPaths", "paths/discover.py")])

prop("C19", "add_entries adds exactly the missing entries",
 "add_entries(target, source) leaves every entry that the target already had in place with its data and relative order, except for values it was asked to update, adds each source entry that was missing exactly once, in the section with the same id, directly after its predecessor from the source where the target has that one in a section with the same id and comment, and returns the number of changes. Doing it again adds nothing, and the source is never changed.",
 ["inputs", "histories"], "every pair of resources whose entry ids are distinct within each section id",
 "The position of an insertion depends on both resources; tests use a few pairs.",
 ["resource/add_entries.py"],
 [("add_entries", "resource/add_entries.py")])

prop("C20", "l10n_equal is an equivalence that ignores only order and empty parts",
 "l10n_equal is reflexive, symmetric and transitive, is unaffected by the order of sections, of entries within a section, and of metadata, by standalone comments, by sections without entries, and by white space around comments; any difference in an id, value, property, metadata item (as a set of values per key) or attached comment of a section, entry or resource makes it false. Neither resource is changed by the comparison.",
 ["inputs"], "all resources with distinct section ids and entry ids, and pairs and triples of them",
 "Equivalence and order-independence are statements about pairs and triples and about permutations; tests compare a few resources.",
 ["resource/l10n_equal.py"],
 [("l10n_equal", "resource/l10n_equal.py")])

prop("C21", "Builds contain only reference entries, with translations or fallbacks",
 "A localized file built from a reference and a localization holds, for every message of the reference in reference order, the localized message when the localization has one with that id and otherwise the reference one (in formats where fallbacks are kept) or nothing, never a message the reference lacks, and none of the localization's comments. A Fluent message that lacks attributes which the reference has counts as missing, and its attributes which the reference lacks are left out. The reported counts agree with what was written.",
 ["inputs", "configurations"], "every pair of reference and localization resources, including a missing localization",
 "Merging is tested on a few files; it must hold for any overlap of the two resources.",
 ["bin/build.py", "bin/build_file.py"],
 [("write_target_file", "bin/build.py"), ("build_file", "bin/build_file.py")])

prop("C22", "compare reports exactly the missing messages",
 "The compare tool reports for a pair of files exactly the message ids that are in the reference and not in the localization as missing (all of them where the localized file is absent), and files that cannot be parsed as errors; the printed totals equal the sums over files, and the JSON report holds the same data.",
 ["inputs"], "every pair of reference and localization resources",
 "The existing tests run the tool on one sample project.",
 ["bin/compare.py"], [("compare", "bin/compare.py")])

prop("C23", "fix rewrites files to their canonical form or leaves them alone",
 "For every localization file, the fix tool writes exactly the serialization of the parsed file or nothing: a file that already is the serialization of what it parses to is left alone and reported as such, and when a file cannot be parsed or serialized, its bytes on disk stay as they were. The exit status is 1 if a file failed to parse or serialize (unsupported ones are skipped), and without --continue no file after the first failed one is touched.",
 ["inputs", "fault_sequences"], "every file content and every parse or serialization failure",
 "Failures part-way through serialization are not exercised by the tests.",
 ["bin/fix.py"], [("fix, fix_file", "bin/fix.py")])

prop("C24", "lint accepts exactly the files that parse",
 "The lint tool reports every file that its parser rejects as a failure and no file that it accepts; a file of unknown format or with undecodable bytes is reported as unsupported, except that with --skip-unknown files without a known extension are skipped unread. The exit status is 0 exactly if no file failed or was unsupported, 1 otherwise, and 2 for unusable arguments. It never changes a file.",
 ["inputs"], "every set of files, parseable, unparseable or of unknown format",
 "Tests use one directory with a few files.",
 ["bin/lint.py"], [("lint, lint_file", "bin/lint.py")])

prop("C25", "Migrations add the right messages and never touch existing ones",
 "Applying a migration changes only the localized files of the resources in its map. It adds each entry whose function gives a value and whose id the localization does not yet have exactly once, in the section of its id, after the last of the entries it is made from or that the same migration handled before it, and otherwise at the end of the last section it fits in; everything that exists stays as it was. A file that cannot be parsed, or whose result cannot be serialized, keeps its bytes. Copied values are independent of their source, a dry run writes nothing, and the result lists for each changed file exactly the added entries.",
 ["inputs", "histories"], "every reference and localization resource, and every set of entries to migrate",
 "Insertion positions and partially existing targets vary without bound; tests use a few.",
 ["migrate/__init__.py", "migrate/utils.py"],
 [("Migrate.apply", "migrate/__init__.py"), ("copy, entry, plural helpers", "migrate/utils.py")])

prop("C26", "Format detection is deterministic and follows names and content",
 "detect_format depends only on the file name and content: the extension decides for every extension with one format, content decides among JSON and XML formats, and None is returned for anything unrecognised. parse_resource on a source of a detected format uses that format's parser, and reports an unsupported one with UnsupportedFormat.",
 ["inputs"], "every file name and every byte content",
 "Tests check one name per format.",
 ["formats/__init__.py", "resource/parse_resource.py", "resource/serialize_resource.py"],
 [("detect_format", "formats/__init__.py"), ("parse_resource", "resource/parse_resource.py")])

prop("C27", "The JavaScript library agrees with the Python one",
 "The JavaScript parsers and serializers of the JSON message encoding produce and accept the same encodings as the Python library for every message of the formats they support.",
 ["inputs"], "every message of the supported formats",
 "The two test suites share no data.",
 ["../../../js"], [("@mozilla/l10n", "../../../js")])

prop("C28", "Parsed entries carry the source lines they come from",
 "Each entry that the .properties and Fluent parsers give has a linepos with the 1-based numbers of the line its comment (or, without one, the entry) starts on, of the line of its key, of the line its value starts on, and of the line after its last one; resource sections and standalone comments carry their own lines in the same way. This holds for every layout: blank lines, multi-line comments and values, \\n, \\r\\n (and \\r in .properties) at the ends of lines, and with or without one at the end of the file.",
 ["inputs"], "every .properties and Fluent text",
 "Line numbers depend on all the text before an entry and on each kind of line end; the tests check the lines of two fixture files.",
 ["formats/properties/parse.py", "formats/fluent/parse.py"],
 [("PropertiesParser, properties_parse", "formats/properties/parse.py"), ("LinePosMapper, fluent_parse", "formats/fluent/parse.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
