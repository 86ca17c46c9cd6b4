"""Single source for properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


GETTERS = ["Get/GetN/GetC/GetNC results", "IsTranslated*", "GetTranslations/GetCtxTranslations"]

prop("C01", "PO documents load faithfully, whatever their layout",
     "After parsing a well-formed UTF-8 PO document, every lookup (plain, context, plural, plural with context) returns exactly the decoded msgstr (or msgstr[i]) the document gives for that (context, msgid), and entries with different contexts, ids or plural forms never affect one another. "
     "The outcome does not depend on layout: strings split over any number of continuation lines, comments of every kind (including obsolete #~ entries and #| previous ids), blank lines, indentation, LF or CRLF line ends, missing final newline, raw or backslash-escaped characters, the order of entries and the order or sparseness of the msgstr[i] lines. "
     "Entries whose msgstr is empty, and ids the document does not contain, yield the caller's own text.",
     ["inputs"], "every well-formed UTF-8 PO document, every layout of it, every lookup",
     "the tests parse about a dozen fixed documents; layouts, entry orders, split points and escapes combine without bound",
     ["po.go", "domain.go", "translation.go"],
     [("line state machine", "po.go Parse/parseString/parseMessage"), ("entry buffering", "po.go saveBuffer")],
     [("translations", "entries without context", "domain.go"), ("contextTranslations", "entries by context", "domain.go")], GETTERS)

prop("C02", "MO files load faithfully, whatever their byte order and layout",
     "After parsing a well-formed GNU MO file, every lookup returns exactly the string the file stores for that (context, msgid, plural form), and ids the file does not contain yield the caller's own text. "
     "This holds for little- and big-endian files, for any number and length of messages, any placement, padding or sharing of the descriptor tables and strings inside the file, and with or without a hash table.",
     ["inputs"], "every well-formed MO file (revision 0 or 1), every lookup",
     "the tests read three little-endian files all laid out by msgfmt; none is big-endian or has another layout",
     ["mo.go", "domain.go"], [("header, table and string reads", "mo.go Parse"), ("EOT/NUL splitting", "mo.go addTranslation")],
     observe=GETTERS)

prop("C03", "A PO file and the MO file of the same catalogue are interchangeable",
     "For any catalogue (headers, plural rule, entries with and without contexts and plurals, some untranslated), loading it as a PO document or as the MO file of that catalogue gives the same result for every lookup at every count, every IsTranslated query, and the same Language, Plural-Forms and header values. "
     "This holds for Po and Mo objects directly and when the file is picked up from a locale directory.",
     ["inputs"], "every catalogue, every lookup, both file formats",
     "the tests compare the two formats on one fixture, key by key for a few strings",
     ["po.go", "mo.go", "domain.go", "locale.go"], [("two parsers filling one Domain type", "po.go, mo.go"), ("header parsing shared by both", "domain.go parseHeaders")],
     observe=GETTERS + ["Headers, Language, PluralForms"])

prop("C04", "Plural formulas evaluate with C semantics",
     "For every Plural-Forms formula built from comparisons (==, !=, <, <=, >, >=) of `n` or `n % k` (k > 0) with an unsigned decimal literal, operands in either order, combined with &&, || and arbitrarily nested ?: (whose results are integer literals) and parentheses, with any number of blanks between tokens, the compiled expression gives for every 32-bit n the value C gives. "
     "A formula without ?: gives 1 when it is true and 0 when it is false, and a formula that is an integer literal is that constant.",
     ["inputs"], "every formula of the grammar, every n in 0..2^32-1",
     "the tests use about 40 fixed formulas on small n; nesting, operand order, grouping and large n are unbounded",
     ["plurals/compiler.go", "plurals/expression.go", "plurals/tests.go", "plurals/math.go"],
     [("tokenizer and precedence table", "plurals/compiler.go"), ("comparison operators", "plurals/tests.go")],
     observe=["plurals.Compile(...).Eval(n)"])

prop("C05", "Compiling any plural formula is total",
     "Compiling any string whatsoever terminates without panicking or leaving goroutines behind, and returns either a usable expression and no error, or an error and no expression. "
     "Every expression so obtained evaluates for every 32-bit n without panicking, always to the same non-negative number for the same n. "
     "What is accepted is, blanks left out, a C expression, and if only comparisons serve as its conditions the number is the one C gives.",
     ["inputs"], "every string as formula, every n",
     "tests compile five malformed strings; a malformed header reaches this code from any catalogue file",
     ["plurals/compiler.go", "plurals/math.go", "domain.go"],
     [("error returns of the compiler", "plurals/compiler.go"), ("compile on header parse", "domain.go parseHeaders")],
     observe=["plurals.Compile, Expression.Eval, goroutine count"])

prop("C06", "Plural lookups select the form the catalogue's rule names",
     "For every count n, GetN/GetNC and AppendN/AppendNC on Domain, Po, Mo and Locale return the msgstr whose index is the value of the catalogue's Plural-Forms formula at n "
     "(from 2^32 on: of any formula that, as those of natural languages, compares with numbers below a million and whose moduli divide a million). "
     "A catalogue without that header, or whose formula does not compile, uses the custom plural resolver if one was set and otherwise form 0 for n = 1 and form 1 for any other n. "
     "If the selected form is missing or empty the result is the msgid when the form is 0 and the plural msgid otherwise.",
     ["inputs", "configurations"], "every formula, every set of msgstr[i], every n, with/without header, with/without resolver",
     "tests evaluate the rule of a handful of catalogues at a handful of counts, and the resolver once",
     ["domain.go", "translation.go", "po.go", "mo.go", "locale.go"],
     [("pluralForm", "domain.go"), ("Plural-Forms header parsing", "domain.go parseHeaders"), ("form fallback", "translation.go GetN")],
     observe=["GetN/GetNC/AppendN/AppendNC"])

prop("C07", "An untranslated lookup returns the caller's own text",
     "A lookup that finds no non-empty translation - unknown id, context, domain or language, missing or unreadable file, empty msgstr, an entry without a plural looked up as a plural - returns the msgid the caller passed or, for plural lookups, the caller's msgid or plural msgid: the msgid when n = 1 under a rule that makes 1 the first form, the plural msgid when n is not 1 and its form is not the first. "
     "It never returns an empty string, a string of another entry or context, or text the caller did not pass; this holds on Domain, Po, Mo, Locale, and the package functions, configured or not.",
     ["inputs", "configurations"], "every catalogue, every lookup not translated in it, every API level",
     "tests look up a few missing ids on a few fixtures",
     ["domain.go", "translation.go", "locale.go", "gotext.go"],
     [("default returns", "domain.go Get/GetN/GetC/GetNC"), ("missing-domain defaults", "locale.go GetD/GetND/GetDC/GetNDC"), ("last-locale fallback", "gotext.go")],
     observe=["Get* results"])

prop("C08", "Formatting happens exactly when arguments are given",
     "Without format arguments every lookup returns the selected translation (or fallback) verbatim, however many % signs it contains; with arguments it returns exactly fmt.Sprintf(text, args...) of that same text. "
     "Every Append function returns the caller's prefix bytes followed by what the matching Get function returns for the same arguments, leaving the caller's bytes untouched.",
     ["inputs"], "every text, every argument list, every prefix, every lookup function of Domain, Po, Mo, Locale and package",
     "tests format a few fixed strings with one %s or %d",
     ["helper.go", "domain.go", "locale.go", "gotext.go"],
     [("FormatString/Appendf", "helper.go"), ("vars... forwarding at each layer", "locale.go, gotext.go, po.go, mo.go")],
     observe=["Get*/Append* results"])

prop("C09", "Named formatting equals positional formatting of the named values",
     "Sprintf(format, params) returns what fmt.Sprintf returns for the same format with every %(name)verb replaced by the positional verb, precision and width kept, and the named values passed in order of appearance. "
     "Names may repeat, appear in any order, or be absent from params (then nil is formatted); surrounding text, %% included, is preserved; NPrintf prints that same string.",
     ["inputs"], "every format built from text, %% and %(name)verb directives over the supported verbs, every params map",
     "tests use six fixed formats",
     ["helper.go"], [("directive regexp and reassembly", "helper.go reformatSprintf/parseSprintf")],
     observe=["Sprintf result, NPrintf stdout"])

prop("C10", "A mutable catalogue behaves like a map under any edit history",
     "Under any history of Set, SetN, SetC, SetNC, SetRefs, DropStaleTranslations and lookups on a Domain or Po, loaded from a file or empty, each lookup, IsTranslated query, GetRefs and translation listing reflects exactly the last value set for that (context, id, plural form), and no operation affects any other key, form or context. "
     "A plural id given to SetN or SetNC is kept with an entry that had none, and DropStaleTranslations removes exactly the entries that none of the Set* functions has touched since they were loaded.",
     ["histories"], "every interleaving of mutators and lookups, over any keys",
     "tests run a few two-step sequences; no test mixes contexts, forms, references and stale dropping",
     ["domain.go", "translation.go", "po.go"],
     [("mutators", "domain.go Set/SetN/SetC/SetNC/SetRefs"), ("dirty flag", "translation.go"), ("DropStaleTranslations", "domain.go")],
     [("dirty", "entry set since load", "translation.go")], GETTERS + ["GetRefs"])

prop("C11", "Exporting a catalogue as PO text and reading it back is lossless",
     "For any catalogue held by a Domain or Po - parsed or built with the Set functions, with any text in ids, plural ids, contexts and translations (quotes, backslashes, line breaks, non-ASCII), any single-line header values and references without blanks - the text written by MarshalText is a well-formed PO document that any conforming reader decodes to the same headers, header comments, entries, plural forms, contexts and source references. "
     "Parsing it back into a new Po gives a catalogue equal in every lookup, listing, header and reference.",
     ["inputs", "histories"], "every catalogue, however built, with any UTF-8 text",
     "tests round-trip one fixture and one string with a quote in the middle",
     ["domain.go", "po.go"], [("MarshalText", "domain.go"), ("EscapeSpecialCharacters", "domain.go"), ("Unquote on read", "po.go")],
     observe=["MarshalText bytes", "lookups after re-parse"])

prop("C12", "Exported PO text is canonical",
     "The text MarshalText writes depends only on the catalogue's content: two catalogues with the same content give identical bytes whatever the order in which entries, forms and headers were added or parsed, and repeated calls give identical bytes. "
     "Header fields come in the conventional order, entries are ordered by first source reference (path, then numeric line), then context, then id, forms by index, and re-exporting parsed exported text reproduces it byte for byte.",
     ["inputs", "histories"], "every catalogue, every insertion order, every repetition",
     "tests compare one export once; map iteration order varies from run to run",
     ["domain.go"], [("header and reference sorting", "domain.go MarshalText")],
     observe=["MarshalText bytes"])

prop("C13", "A catalogue survives binary serialisation and stays fully usable",
     "For any Domain, Po or Mo, UnmarshalBinary(MarshalBinary()) into a new object, of the same or another of these types, gives the same answer to every lookup and IsTranslated query at every count, the same headers, Language, Plural-Forms, listings and references. "
     "Apart from the comments at the head of the file, a custom resolver and the marks of entries touched since loading, which are not part of the encoding, the restored object accepts every further operation - Set functions, Parse, export, serialisation - with the same outcome as the original.",
     ["inputs", "histories"], "every catalogue (empty parts included), every later operation",
     "tests serialise two catalogues and compare a few lookups",
     ["domain.go", "po.go", "mo.go", "translator.go"],
     [("gob encoding", "domain.go MarshalBinary/UnmarshalBinary"), ("TranslatorEncoding", "translator.go")],
     observe=GETTERS)

prop("C14", "A Locale survives binary serialisation",
     "For any Locale holding any set of domains loaded from PO or MO files or added in memory, a Locale restored from its MarshalBinary output has the same language and default domain and answers every lookup and IsTranslated query of every domain identically, plural rules included. "
     "The restored Locale keeps working as a Locale: it can load further domains from the same directory, change its default domain and be serialised again.",
     ["inputs", "histories"], "every Locale, every lookup on the restored object",
     "tests serialise one Locale and compare a few strings with the default plural rule",
     ["locale.go", "translator.go", "domain.go"],
     [("LocaleEncoding", "locale.go MarshalBinary/UnmarshalBinary"), ("GetTranslator", "translator.go")],
     observe=["Locale Get*/IsTranslated*", "GetDomain/GetLanguage"])

prop("C15", "Catalogue files are found by the documented precedence",
     "Adding domain d to a Locale with directory P and language ll_CC loads the first existing file of P/ll_CC/LC_MESSAGES/d.po, P/ll/LC_MESSAGES/d.po, P/ll_CC/d.po, P/ll/d.po and then the same four with .mo, where ll is the part of the language before the country; if none exists the domain stays as it was. "
     "GetActualLanguage(d) names the language directory of exactly that file (empty if none), adding a domain again reloads it from disk, and the first domain added becomes the default domain until SetDomain.",
     ["configurations", "histories"], "every subset of the eight candidate files, every language code, several domains, reloads",
     "tests use one fixture tree in which almost every candidate set has one file",
     ["locale.go"], [("findExt", "locale.go"), ("GetActualLanguage", "locale.go"), ("AddDomain", "locale.go")],
     observe=["Locale lookups after AddDomain", "GetActualLanguage", "GetDomain"])

prop("C16", "Locale names are simplified consistently",
     "SimplifiedLocale cuts a locale name at the first ':', '@' or '.', trims surrounding space and is idempotent. "
     "Every entry point that takes a language - NewLocale and its fs variants, SetLanguage, Configure, the language list of the IsTranslated functions - treats names with the same simplified form alike, and GetLanguage/GetLanguages report the simplified names in the configured order.",
     ["inputs"], "every locale name with any encoding, modifier, alternative list or surrounding space",
     "tests use five fixed names",
     ["helper.go", "locale.go", "gotext.go"], [("SimplifiedLocale", "helper.go"), ("its call sites", "locale.go NewLocale, gotext.go SetLanguage/Configure")],
     observe=["SimplifiedLocale, GetLanguage(s)", "lookups"])

prop("C17", "Package lookups try the configured languages in order",
     "With languages L1:...:Lk configured (or Locales set), every package lookup - with or without domain, context and plural - returns the translation from the first language whose catalogue translates that message (for plurals: the form that language's own rule selects for n), whether loaded from files or attached in memory. "
     "If no language translates it, the result is the caller's own text, formatted with the arguments.",
     ["configurations", "inputs"], "every list of languages, every placement of a message in their catalogues, every lookup function",
     "tests configure two languages and look up a few strings",
     ["gotext.go", "locale.go", "domain.go"], [("language loop", "gotext.go GetD/GetND/GetDC/GetNDC"), ("IsTranslated probes", "locale.go, domain.go")],
     observe=["package Get*"])

prop("C18", "IsTranslated agrees with what a lookup returns",
     "At every level (Domain, Po, Mo, Locale by domain, package) each IsTranslated query is true exactly when the lookup with the same domain, context, id and count finds a non-empty stored translation for the selected form instead of falling back. "
     "At package level, with or without an explicit list, it is true exactly when at least one of the named languages that is configured translates the message; the answer never depends on which lookups ran before.",
     ["inputs", "configurations", "histories"], "every catalogue and plural rule, every query, every list of languages",
     "tests query a few ids of the English and Arabic fixtures",
     ["domain.go", "locale.go", "gotext.go", "translation.go"], [("IsTranslated family", "domain.go, locale.go, gotext.go")],
     observe=["IsTranslated*, Get*"])

prop("C19", "Package state depends only on the current configuration",
     "After any history of Configure, SetLibrary, SetLanguage, SetDomain, SetLocales and lookups, the getters report the values last set and every package lookup and IsTranslated query gives what a package freshly configured with those values gives; earlier configurations and earlier lookups of any domain leave no trace. "
     "A package that was never configured answers lookups with the caller's own text instead of failing.",
     ["histories"], "every sequence of configuration calls and lookups over several libraries, languages and domains",
     "tests run short fixed sequences and always configure before looking up",
     ["gotext.go", "locale.go"], [("loadLocales", "gotext.go"), ("lazy AddDomain", "gotext.go GetD"), ("setters", "gotext.go")],
     [("globalConfig", "library, domain, languages, locales", "gotext.go")], ["package functions"])

prop("C20", "The PO parser survives any input and skips what it does not understand",
     "Parsing any byte sequence whatsoever as PO terminates without panicking, and the object can then be queried, edited, exported and serialised. "
     "Lines that are not PO syntax (no comment mark, keyword or quoted string) are ignored: a document with such lines between its entries, or with lines lacking a colon among its header fields, loads exactly as without them.",
     ["inputs"], "every byte sequence, and every well-formed document with junk lines inserted between entries",
     "tests parse two slightly malformed documents",
     ["po.go", "domain.go"], [("isValidLine and state machine", "po.go"), ("Unquote errors", "po.go"), ("parseHeaders", "domain.go")],
     observe=["Parse, then all operations"])

prop("C21", "The MO parser survives any input with bounded memory",
     "Parsing any byte sequence as MO - truncated, corrupted, with arbitrary counts, offsets and lengths - terminates without panicking, allocates memory in proportion to the size of the input and of the text loaded from it rather than to the numbers written in it, and never makes up text: every string it loads occurs in the input. "
     "The object can then be queried and serialised, and entries it held before keep working unless the input supplies them anew. "
     "A file with an unknown magic number or major format revision is not read at all: the object stays exactly as it was.",
     ["inputs"], "every byte sequence; especially mutations of valid files in every header and table field",
     "the only malformed inputs tests use are an empty slice and a wrong magic number",
     ["mo.go"], [("bounds handling in Parse", "mo.go")],
     observe=["Parse, allocation volume, GetTranslations"])

prop("C22", "Catalogues are safe for concurrent use",
     "Any number of goroutines may look up, query, list, edit (Set functions, SetRefs, DropStaleTranslations, SetPluralResolver), export, serialise and parse into one Domain, Po or Mo at the same time without a data race, deadlock or panic. "
     "Every lookup returns a value that some ordering of the operations explains: the fallback or a string set for exactly that key and form, never a mixture, and never an older value than one this goroutine already saw complete.",
     ["schedules", "histories"], "every interleaving of any operations of several goroutines",
     "one test races a single reader and writer of Po on a few keys without checking values",
     ["domain.go", "po.go", "mo.go"], [("trMutex and pluralMutex", "domain.go"), ("lock in Parse", "po.go, mo.go")],
     [("trMutex", "guards the translation maps", "domain.go"), ("pluralMutex", "guards the plural rule", "domain.go")], ["race detector, lookup values"])

prop("C23", "Locales and the package API are safe for concurrent use",
     "Any number of goroutines may use one Locale (lookups, IsTranslated, AddDomain, AddTranslator, SetDomain, GetTranslations, MarshalBinary, UnmarshalBinary, GetLanguage, GetActualLanguage) or the package functions (lookups of any domain, loaded or not, IsTranslated, getters, and the setters) at the same time without a data race, deadlock or panic. "
     "While the configuration is not being changed every lookup returns exactly what it returns sequentially, also when it is the one that triggers loading a domain. "
     "Changes (attached Translators, settings) take effect as in some order of the calls: once the last one returned, lookups answer by it, whatever was looked up or loaded meanwhile.",
     ["schedules", "histories"], "every interleaving of lookups, lazy loads and reconfigurations",
     "tests run two short race scenarios on the default domain",
     ["locale.go", "gotext.go"], [("Locale RWMutex", "locale.go"), ("globalConfig RWMutex", "gotext.go")],
     [("Domains", "loaded translators by name", "locale.go")], ["race detector, lookup values"])

prop("C24", "Listings are isolated snapshots",
     "GetTranslations and GetCtxTranslations of Domain, and GetTranslations of Locale, list exactly the stored entries with their ids, plural ids, forms and references at that moment. "
     "Changing anything in the returned maps, entries, forms or reference slices never changes the catalogue, and changing the catalogue never changes a listing already returned.",
     ["histories", "inputs"], "every catalogue, every mutation of the snapshot and of the catalogue afterwards",
     "tests compare lengths of one copy and never modify it",
     ["domain.go", "locale.go"], [("deep copy", "domain.go GetTranslations/GetCtxTranslations")], observe=["listings, lookups, GetRefs"])

prop("C25", "Catalogue headers are read completely and case-insensitively where it matters",
     "From the header entry of a PO or MO catalogue every `Key: value` line becomes a header value under exactly that key, trimmed, colons in the value and repeated keys (in order) kept; lines without a colon are ignored. "
     "Language and Plural-Forms are recognised whatever the case of their key, reported by the Language and PluralForms fields of Domain, Po and Mo alike, and the plural rule takes effect whatever the spacing and order of nplurals and plural.",
     ["inputs"], "every header block, in both formats",
     "tests check three headers of two fixtures",
     ["domain.go", "po.go", "mo.go"], [("parseHeaders", "domain.go"), ("HeaderMap", "domain.go")], observe=["Headers, Language, PluralForms, GetN"])

prop("C26", "Files from the OS and from any fs.FS load alike; unreadable ones change nothing",
     "A catalogue tree gives the same lookups, domains and actual languages whether it is read from the operating system, from an fs.FS at its root, or from an fs.FS below a path, for Locale, Po and Mo objects. "
     "Loading a path that is missing, is a directory or cannot be read does not panic and leaves the object and its earlier translations exactly as they were, and no file read is left open.",
     ["configurations", "inputs", "fault_sequences"], "every tree of catalogue files, every source kind, any file failing to open or read",
     "tests use one embedded tree and one missing file",
     ["translator.go", "locale.go", "po.go", "mo.go"], [("getFileData", "translator.go"), ("fileExists/findExt", "locale.go")], observe=["lookups after load"])

prop("C27", "xgotext extracts exactly the translatable calls",
     "From any Go program - also when the scanned directory lies above its module - xgotext extracts one message for every call of Get, GetN, GetD, GetND, GetC, GetNC, GetDC or GetNDC on the gotext package (under any import name other than a dot) or on a value whose type is one of gotext's types that translate (Locale, Po, Mo, Domain, Translator), a pointer to it or an alias of it - variable, parameter, field, call result, nested to any depth - whose arguments naming domain, id, plural and context are string literals and whose id is not empty, with exactly the literals' values, domain and file:line. "
     "Calls on anything else (other packages' types, HeaderMap.Get), and calls with non-literal or missing arguments, add nothing and never stop the extraction of the rest.",
     ["programs"], "every Go program, every way of reaching a gotext receiver, every literal spelling",
     "tests run over one fixture program",
     ["cli/xgotext/parser/gofile.go", "cli/xgotext/parser/dir/golang.go", "cli/xgotext/parser/pkg-tree/golang.go"],
     [("InspectCallExpr/CheckType", "gofile.go"), ("ParseGetter", "gofile.go")], observe=["DomainMap contents", "xgotext output files"])

prop("C28", "Extracted templates are well-formed and lossless",
     "The .pot file written for a domain is a well-formed PO template that reads back, with gotext's own parser or any conforming one, to exactly the extracted messages: ids, plural ids, contexts and sorted source locations (of files without blanks in their paths), for any text in them (quotes, backslashes, line breaks, tabs, non-ASCII). "
     "The output is the same bytes whatever the order in which the messages were found.",
     ["inputs", "histories"], "every set of messages with any text, every order of discovery",
     "tests look for a substring of one dumped message",
     ["cli/xgotext/parser/domain.go", "cli/xgotext/parser/gofile.go"],
     [("Dump and escaping", "cli/xgotext/parser/domain.go"), ("Save", "cli/xgotext/parser/domain.go")], observe=[".pot bytes"])

prop("C29", "Directory scans visit every directory except the excluded ones",
     "A recursive scan hands every directory below the root (root included) to the parsers exactly once, except the directories on the exclude list and everything below them. "
     "A directory is excluded only if its path relative to the root is a listed path or lies below one; directories whose names merely begin like a listed one are scanned. "
     "How the root is named - absolute, relative, through a symbolic link - makes no difference.",
     ["configurations"], "every directory tree, every exclude list",
     "the test has one subdirectory and one excluded one",
     ["cli/xgotext/parser/dir/parser.go", "cli/xgotext/main.go"], [("ParseDirRec", "cli/xgotext/parser/dir/parser.go")], observe=["directories passed to a registered parser"])

prop("C30", "Merging extracted messages loses nothing and ignores order",
     "Adding messages to a domain map keeps one message per (domain, context, id), under the default domain when none is named, with the locations of all its occurrences and a plural id if any occurrence had one. "
     "The collected result is the same whatever the order in which the occurrences were added, up to the order of locations.",
     ["histories"], "every multiset of occurrences whose plural ids agree, every order",
     "tests merge two occurrences in one order",
     ["cli/xgotext/parser/domain.go"], [("AddTranslation/AddLocations", "cli/xgotext/parser/domain.go")], observe=["DomainMap contents"])

prop("C31", "Source references belong to the entry they precede",
     "In a parsed PO document that starts with a header entry, the references of each entry are exactly those on the #: lines directly before it (all of them, in order, over any number of lines), and an entry without such lines has none; this holds for entries with and without context or plural. "
     "References set or parsed are returned by GetRefs and the listings and survive export to PO text.",
     ["inputs", "histories"], "every document with any distribution of reference lines over entries",
     "tests read the references of single entries set through the API",
     ["po.go", "domain.go"], [("parseComment/saveBuffer", "po.go"), ("SetRefs/GetRefs", "domain.go"), ("MarshalText", "domain.go")],
     [("refBuffer", "pending #: references", "domain.go")], ["GetRefs, GetTranslations, GetCtxTranslations, MarshalText"])

prop("C32", "Corrupt serialised data is rejected without damage",
     "UnmarshalBinary of any byte sequence on a Domain, Po, Mo or Locale never panics. "
     "When it returns an error the object is exactly as before - same lookups, headers, language, default domain - and when it returns none the object is usable for every operation. "
     "An encoding whose end is missing, or that holds the encoding of a domain whose end is missing, is rejected.",
     ["inputs", "fault_sequences"], "every byte sequence; especially truncations, bit flips and splices of valid encodings",
     "tests only decode what they have just encoded",
     ["domain.go", "locale.go", "translator.go"], [("decode before assign", "domain.go UnmarshalBinary, locale.go UnmarshalBinary")], observe=["lookups before/after a failed decode"])

prop("C33", "Documents parsed into one object add up",
     "When PO documents (or MO files) are parsed one after another into the same object, every message has the content of the last document that contains it - plural id, forms and references, nothing left over from earlier ones - and messages of earlier documents that no later one contains stay. "
     "Header fields work the same way: a field is reported with the value(s) of the last document that has it, in any spelling of its name, and the plural rule in force is that of the last Plural-Forms field (a custom resolver or the default rule if that one can't be compiled). "
     "The comments at the head are those of the last document that has some; parsing a document a second time changes nothing, and a binary round trip in between makes no difference.",
     ["histories"], "every sequence of documents, with repetitions, edits and serialisation in between",
     "tests parse once per object",
     ["domain.go", "po.go", "mo.go"], [("parseHeaders", "domain.go"), ("Parse/saveBuffer", "po.go"), ("addTranslation", "mo.go")],
     [("Headers", "header fields of all documents", "domain.go"), ("pluralforms", "rule in force", "domain.go"), ("headerComments", "comments at the head", "domain.go")],
     ["Headers, Language, PluralForms, lookups, listings, MarshalText"])

prop("C34", "Catalogues and configuration own their data",
     "Nothing a caller does afterwards to data handed over or taken out changes a catalogue or the package configuration: not overwriting the bytes given to Parse or UnmarshalBinary, "
     "nor the slices given to SetRefs, NewTranslationWithRefs or SetLocales, nor what GetRefs, GetLanguages, GetLocales, MarshalText, MarshalBinary or the Append functions returned. "
     "Nor does what these returned change when the catalogue or configuration does, or another one is exported. "
     "The formatting functions leave their arguments as they were. "
     "And catalogues share nothing: changing one - its entries, references, plural resolver or header values, by parsing or decoding into it - leaves every other one as it was, however they were made.",
     ["histories"], "every catalogue and configuration, every later change by the caller",
     "tests never touch what they passed in or got back",
     ["domain.go", "translation.go", "gotext.go", "po.go", "mo.go"], [("GetRefs", "domain.go"), ("SetRefs", "translation.go"), ("SetLocales/GetLocales/GetLanguages", "gotext.go")],
     observe=["the whole observable state before and after"])

prop("C35", "Translation and HeaderMap values behave as the maps they are",
     "A Translation, made by its constructors or taken from a listing, is a map of forms: after any sequence of Set, SetN and SetRefs, Get and GetN return the string last set for that form, "
     "or - when there is none or it is empty - the ID for form 0 and the PluralID for the others; IsTranslated and IsTranslatedN say whether a non-empty string is there, and IsStale is true until the first of these calls. "
     "A listed Translation answers like the catalogue's own lookups for the form of that count, and is stale exactly when no Set function touched the entry since it was loaded. "
     "A HeaderMap keeps the values of each exactly spelled key in order: Add appends, Set replaces, Del removes, Get gives the first value or an empty string and Values all; what is in a Domain's Headers is what its export carries.",
     ["histories"], "every call sequence on these values, every catalogue they were listed from",
     "tests call each method once on a fixed value",
     ["translation.go", "domain.go"], [("Translation", "translation.go"), ("HeaderMap", "domain.go"), ("GetTranslations", "domain.go")],
     observe=["returned strings and flags", "fields", "exported header"])

prop("C36", "Any Translator serves a Locale and the package; any encoding restores",
     "A Locale and the package-level functions answer a lookup in a domain with what that domain's Translator - a Po, a Mo or an implementation of the user's own, the last attached under the name - "
     "returns for exactly the caller's msgid, msgid_plural, count, context and arguments, asked through the method of that kind; the IsTranslated functions, and the package's choice of language, follow the Translator's Domain. "
     "A TranslatorEncoding, filled in by hand (with maps left nil where there is nothing) or serialised by any Translator inside a Locale, restores to a catalogue with that content, headers, language and plural rule, "
     "which can be looked up, listed, edited and exported.",
     ["inputs", "histories"], "every Translator implementation, catalogue, lookup kind and argument list",
     "tests only attach Po and Mo objects they loaded from fixtures",
     ["locale.go", "gotext.go", "translator.go"], [("Locale lookups", "locale.go"), ("package lookups", "gotext.go"), ("TranslatorEncoding.GetTranslator", "translator.go")],
     observe=["returned strings and flags", "calls the Translator received"])

prop("C37", "Lookups nest: arguments may use the library while they are formatted",
     "An argument of a lookup may be a value whose String, Error or Format method itself uses the library: looks up texts through the package, a Locale, a Po, a Mo or a Domain (the same ones, also domains that are not loaded yet), "
     "sets or adds to them, or configures the package. The outer lookup, a Get or Append function of any of these, terminates and gives its own text, chosen before its arguments are formatted, with each argument's text as that moment has it - "
     "also while other goroutines configure, load and set.",
     ["histories", "schedules"], "every nesting of lookups and changes, every interleaving with writers",
     "tests only pass arguments without methods",
     ["gotext.go", "locale.go", "domain.go", "helper.go"], [("package lookups", "gotext.go"), ("Locale lookups", "locale.go"), ("Domain lookups", "domain.go"), ("FormatString", "helper.go")],
     observe=["returned strings", "termination", "how often each method was called"])

prop("C38", "Files are exchanged with GNU gettext, and looked up alike",
     "A PO document in any layout msgcat writes, and an MO file msgfmt compiles under any of its options, is read by gotext as the messages, contexts, plural forms, references and header fields GNU gettext sees in them. "
     "What MarshalText exports, after any history of loading and editing, is a document msgcat and msgfmt accept and read the same way. Over one directory of compiled catalogues and one language list, the package and Locale lookups "
     "give the texts, and for every count the plural form, that GNU gettext's own run time gives.",
     ["inputs", "histories"], "every catalogue, tool option, edit history, plural rule, count and language list",
     "tests hold a few fixture files and no other reader or writer",
     ["po.go", "mo.go", "domain.go", "locale.go", "gotext.go", "plurals/compiler.go"], [("Po.Parse", "po.go"), ("Mo.Parse", "mo.go"), ("Domain.MarshalText", "domain.go"), ("package lookups", "gotext.go")],
     observe=["returned strings", "listings and headers", "acceptance and reading by msgcat and msgfmt", "output of gettext and ngettext"])

prop("C39", "xgotext writes its templates completely or says that it failed",
     "When Save or the xgotext binary reports success (nil, exit status 0), every domain's template is in the output directory, complete and with nothing of an older one, whatever the directory held before or whether it existed; other files there are as they were. "
     "When a template cannot be written - the storage fills up at any byte, the directory or a parent of it is a file, the template's name is taken by a directory or a dangling link - the failure is reported: an error from Save, a message and a non-zero exit status from the binary. "
     "An input that does not exist, or flags that are missing or contradict each other, are reported so too, and change nothing in the output directory.",
     ["inputs", "fault_sequences"], "every set of messages, every state of the output directory, every point at which writing fails",
     "tests save once to a fresh directory",
     ["cli/xgotext/parser/domain.go", "cli/xgotext/main.go"], [("DomainMap.Save", "cli/xgotext/parser/domain.go"), ("Domain.Save", "cli/xgotext/parser/domain.go"), ("main", "cli/xgotext/main.go")],
     observe=["returned error, exit status and messages", "files in the output directory"])

prop("C40", "A program gets, for every text xgotext extracted, its translation",
     "When the templates xgotext extracts from a program are translated - written as PO or MO by any tool, or filled in through gotext's own Parse, Set functions and MarshalText - and installed in the directory the program configures, "
     "every extractable lookup of that program, by a getter of the package, a Locale or a Translator, for every count and with or without arguments, returns the translation of its message in its domain and context.",
     ["programs", "inputs"], "every program, domain, context, text and spelling of a literal, plural rule and file format",
     "tests check the extractor against a fixture, never together with the library",
     ["cli/xgotext/parser/gofile.go", "cli/xgotext/parser/domain.go", "gotext.go", "locale.go", "po.go", "mo.go"],
     [("getter table", "cli/xgotext/parser/gofile.go"), ("Domain.Dump", "cli/xgotext/parser/domain.go"), ("package lookups", "gotext.go"), ("Locale lookups", "locale.go")],
     observe=["output of the compiled program"])

prop("C41", "The same guarantees hold where integers have 32 bits",
     "On platforms whose int has 32 bits, PO and MO files, well-formed or corrupt, serialised catalogues, plural formulas over the whole range of 32-bit constants, and every sequence of edits and exports behave as on 64-bit ones: "
     "nothing is misread, rejected or panics that a 64-bit platform handles.",
     ["configurations", "inputs", "histories"], "every input of the loading, plural, formatting, editing and serialisation guarantees",
     "the tests run on the developer's platform only",
     ["mo.go", "po.go", "domain.go", "plurals/compiler.go"], [("Mo.Parse offsets and sizes", "mo.go"), ("constants of formulas", "plurals/compiler.go"), ("counts", "domain.go")],
     observe=GETTERS)

prop("C42", "Serialised data keep their documented layout",
     "The binary encodings of catalogues and Locales are gob streams of TranslatorEncoding and LocaleEncoding: any program that knows those layouts reads from them exactly the catalogue's headers, language, plural rule, messages, forms and references. "
     "What such a program, an earlier or a later release of the library writes in those layouts, with fewer or further fields, is restored as the catalogue it describes.",
     ["inputs", "histories"], "every content, history of edits and size, by every encodable type",
     "tests only decode what the same build has encoded, so that a change of both sides goes unnoticed",
     ["domain.go", "translator.go", "translation.go", "locale.go"], [("Domain.MarshalBinary", "domain.go"), ("Domain.UnmarshalBinary", "domain.go"), ("TranslatorEncoding", "translator.go"), ("LocaleEncoding", "locale.go")],
     observe=["bytes of MarshalBinary as decoded by encoding/gob", "lookups and listings after UnmarshalBinary"])

prop("C43", "Independent work stays independent under concurrency",
     "Goroutines that share no catalogue may use the library at the same time: each formats (positionally or by name), escapes, simplifies locale names, compiles and evaluates plural formulas, and loads, edits, looks up, exports, encodes and restores Po, Mo, Domain, Translation and Locale objects of its own. "
     "None of it races, crashes or blocks, every result is what the same work gives alone, and input shared between the goroutines is only read.",
     ["schedules", "inputs"], "every combination of work and every interleaving of it",
     "no test uses two objects, or a formatting function, from two goroutines; state shared behind the scenes (a cache, a scratch buffer, a parser's registers) stays invisible to sequential tests",
     ["domain.go", "po.go", "mo.go", "helper.go", "plurals/compiler.go", "locale.go", "translator.go"], [("reformatSprintf", "helper.go"), ("Compile", "plurals/compiler.go"), ("EscapeSpecialCharacters", "domain.go"), ("Parse", "po.go, mo.go")],
     [("package variables", "only read after initialisation", "helper.go, domain.go, plurals/compiler.go")], ["race detector, results of the work"])

prop("C44", "A Locale answers from what its history gave it",
     "At any point in the life of Locales that read one tree of catalogue files - files written, replaced or removed, domains added and added again, in-memory catalogues attached under several domains or Locales, edited in place or through the Locale's Domains, domains deleted, the default domain changed, a whole Locale encoded and decoded into another - every domain answers from the catalogue it was given last: as loaded at that moment plus the edits since, whatever happened to its file. "
     "A domain without a file keeps what it has; a shared catalogue shows its edits wherever it is attached; a decoded Locale takes over language, default domain and domains, and is independent of the one it came from; functions without a domain use the default one; GetTranslations lists the messages without context of every domain and no others; GetActualLanguage follows the tree as it is now.",
     ["histories"], "every history of loads, attachments, edits, moves and file changes over any number of Locales",
     "tests use one Locale, add each domain once and never change a file",
     ["locale.go", "domain.go", "translator.go"], [("AddDomain/readDomain/saveDomain", "locale.go"), ("AddTranslator", "locale.go"), ("UnmarshalBinary", "locale.go"), ("GetTranslations", "locale.go")],
     [("Locale.Domains, defaultDomain", "replaced per domain; never by a failed load", "locale.go")], ["Locale lookups, listings, getters"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
