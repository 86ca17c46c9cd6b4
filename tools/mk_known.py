"""Dev helper: writes known_findings.txt from the fix commits (committed result; never run by a check)."""
import subprocess, os
M = [
("71f22f6", ["C01"], "a msgstr[1] continued on a second line: the continuation was appended to form 0"),
("f46e958", ["C31", "C01", "C24"], "an entry without #: lines got the references (and after an entry without msgid the context) of the entry before it; a second #: line replaced the first"),
("d5b7027", ["C07"], "GetN of an entry without msgid_plural and without that form returned the empty string"),
("2d827ad", ["C02", "C03"], "Mo.GetN of a message without plural at n=2 returned the msgid instead of the caller's plural (its msgid was stored as plural id)"),
("82daa7e", ["C05"], "plurals.Compile(\"n==1 ? 0 : x\") returned an expression with a nil branch; Eval panicked"),
("f2ac3d4", ["C05"], "plurals.Compile(\"n%0==1\") succeeded; Eval panicked with a division by zero"),
("c15a41d", ["C05"], "every failing plurals.Compile left a goroutine behind"),
("abb2445", ["C04"], "\"(n==1) || (n==2)\" lost its first and last parenthesis"),
("c968d0a", ["C04"], "\"n==1 ? n==2 ? 0 : 1 : 2\" did not compile: the first ':' was taken for the outer '?'"),
("da8b3a2", ["C04"], "\" 0\", \"(0)\" and \"1\" did not compile"),
("e5a62d8", ["C04"], "\"(n%10)==1\" did not compile"),
("0717e2c", ["C18"], "IsTranslated(id) asked for the form of n=0 while Get returns form 0"),
("97a6ebb", ["C19", "C07"], "package lookups after SetLocales(nil) with no language panicked"),
("aca86c6", ["C23"], "package lookups read Locale.Domains without its lock while another goroutine loads a domain"),
("7a8acd3", ["C17", "C19"], "GetDC/GetNDC of a domain that was never looked up without context returned the id"),
("8405f4d", ["C18"], "package IsTranslatedD answered false for a domain on disk that no lookup had loaded before"),
("d040c45", ["C13", "C14"], "a deserialised catalogue used the Germanic plural rule whatever its Plural-Forms, and Set on one without entries panicked"),
("3c8f41f", ["C13"], "Headers, Language and PluralForms of a Po or Mo were empty after UnmarshalBinary"),
("3ce7663", ["C32"], "Locale.UnmarshalBinary replaced path, language and default domain before failing on a domain"),
("7192a31", ["C22", "C23"], "GetTranslations, MarshalText, MarshalBinary and SetPluralResolver ran without locks"),
("f9e6cde", ["C11"], "backslashes, and quotes in headers and contexts, were exported unescaped"),
("f636a2e", ["C12"], "msgstr[i] lines were exported in map order"),
("92cef4d", ["C10"], "DropStaleTranslations dropped an entry that SetRefs had touched"),
("0b2afc1", ["C10"], "SetN on an entry without plural id lost the plural id it was given"),
("572b5b8", ["C11"], "forms of an entry without plural id were exported as one msgstr"),
("5b25291", ["C11"], "a plural entry without forms was exported without any msgstr"),
("36ec13d", ["C21"], "an MO header with 2^31 messages allocated gigabytes; out-of-range strings were loaded as zero bytes"),
("d33da71", ["C15"], "fil_PH looked in fi/, and xx looked in xx twice"),
("f344b5f", ["C15"], "GetActualLanguage preferred a nearer .mo file to the .po file AddDomain loads"),
("01ed301", ["C26"], "AddDomain of an unreadable file replaced the loaded domain by an empty one"),
("81db000", ["C09"], "Sprintf(\"100%%(x)s\", ...) took the escaped percent sign for a directive"),
("3372d23", ["C14", "C24"], "Locale.GetTranslations and MarshalBinary with a nil Translator panicked"),
("7083064", ["C27"], "xgotext crashed on GetD(variable, \"id\")"),
("429462f", ["C27", "C28"], "a context given as a raw string literal was written with its backquotes"),
("33aebee", ["C27", "C28"], "Get(\"\") was written as a second header entry"),
("770f993", ["C30"], "the plural id was lost when a singular occurrence of the message came first"),
("f616b92", ["C29"], "excluding \"vendor\" also excluded \"vendored\""),
("8da02f7", ["C27"], "a package that imports another package of the same name lost its types; its calls were not extracted"),
("3588b3d", ["C27"], "xgotext -pkg-tree skipped packages that use gotext objects without importing gotext"),
("8843856", ["C03", "C07"], "an unknown id looked up with context used n==1 while the same id without context used the catalogue's rule"),
("37aece3", ["C07", "C03"], "an untranslated plural lookup returned the plural id stored with the entry instead of the caller's"),
("9f9ae56", ["C18"], "IsTranslated(id, \"\") answered for a domain attached in memory, whose actual language is empty"),
("e45a50d", ["C19"], "after SetLocales with a Locale that had no default domain, the first lookup of any domain made that domain the package default for one call"),
("a64780c", ["C04", "C25"], "a tab between the tokens of a plural formula made the formula unusable"),
("401aca2", ["C23"], "a package lookup that lazily loaded a domain replaced the Translator attached to it by AddTranslator at the same time"),
("b983977", ["C23"], "Locale.AddDomain and GetActualLanguage read the path and language without the lock that UnmarshalBinary writes them under"),
("63f2a38", ["C33"], "parsing a second document (or the same one again) into a Po kept reporting the first values of its header fields, the old plural rule included, exported every field twice and repeated the comments at the head"),
("32525d4", ["C34"], "changing the slice given to SetRefs or SetLocales, or returned by GetRefs, GetLanguages or GetLocales, changed the catalogue or configuration"),
("97c7500", ["C23"], "SetLocales read the path, default domain and language of the Locales without their locks"),
("44723e4", ["C27"], "below a scanned root outside the package's module, calls on imports without an explicit name were not extracted"),
("8a63fed", ["C27", "C29"], "a root directory reached through a symbolic link was not scanned at all"),
("8ad27ef", ["C06", "C38"], "GetN of 4294967297 took the form of 1: counts were truncated to 32 bits before the formula was evaluated"),
("d7b6ea3", ["C38"], "an entry set for one count only was exported with a gap among its plural forms, which msgfmt and msgcat refuse"),
("e123fd9", ["C37"], "a package lookup with an argument whose String method looks up a text through the package too waited forever for the configuration's lock"),
("ef6969d", ["C37"], "a Locale lookup with an argument whose String method adds a domain or Translator to the Locale (as a package lookup in a domain not yet loaded does) waited forever"),
("8299f01", ["C37"], "a Domain, Po or Mo lookup with an argument whose String method sets an entry of it waited forever"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
have = {l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("fix:")}
assert have == {m[0] for m in M}, (have - {m[0] for m in M}, {m[0] for m in M} - have)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w") as f:
    f.write("# Genuine defects found in leonelquinteros/gotext. \"fixed:\" entries were repaired and suppress nothing.\n")
    for h, ps, t in reversed(M):
        for p in ps:
            f.write("fixed: property=%s %s %s\n" % (p, h, t))
