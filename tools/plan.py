"""How each property's harness is built and run."""

PBT = "property-based testing (rapid): "

PLAN = {
    "C01": dict(pkg="lib", technique=PBT + "generated catalogues written in generated PO layouts, against the catalogue model"),
    "C02": dict(pkg="lib", technique=PBT + "generated catalogues written by an independent MO writer in generated layouts, against the catalogue model"),
    "C03": dict(pkg="lib", technique=PBT + "differential: the same generated catalogue as PO and as MO"),
    "C04": dict(pkg="lib", technique=PBT + "grammar-generated plural formulas against an independent C evaluator"),
    "C05": dict(pkg="lib", technique=PBT + "grammar-generated, mutated and arbitrary formula strings; totality, determinism and goroutine invariants"),
    "C06": dict(pkg="lib", technique=PBT + "generated catalogues with generated plural rules against a C evaluator of the rule"),
    "C07": dict(pkg="lib", technique=PBT + "generated untranslated and nearly present keys at every API level against the fallback model"),
    "C08": dict(pkg="lib", technique=PBT + "generated format texts and arguments at every API level against fmt.Sprintf of the model text"),
    "C09": dict(pkg="lib", technique=PBT + "metamorphic: named formats against the positional format built from the same generated segments"),
    "C10": dict(pkg="lib", technique=PBT + "stateful: generated edit histories against a map model"),
    "C11": dict(pkg="lib", technique=PBT + "round trip through MarshalText, decoded by an independent PO reader and by gotext"),
    "C12": dict(pkg="lib", technique=PBT + "metamorphic: one generated content built in several ways and orders must export to the same bytes"),
    "C13": dict(pkg="lib", technique=PBT + "round trip through MarshalBinary, then differential histories on original and restored object"),
    "C14": dict(pkg="lib", technique=PBT + "round trip of generated Locales through MarshalBinary, then differential use"),
    "C15": dict(pkg="lib", technique=PBT + "generated file trees against the documented search order"),
    "C16": dict(pkg="lib", technique=PBT + "generated locale names against the definition, and metamorphic over decorated names at every entry point"),
    "C17": dict(pkg="lib", technique=PBT + "generated language lists over generated trees and in-memory Locales against the first-language-that-translates model"),
    "C18": dict(pkg="lib", technique=PBT + "generated catalogues, histories and language lists; IsTranslated against the model and against the lookup"),
    "C19": dict(pkg="lib", technique=PBT + "stateful: generated configuration histories against a freshly configured model"),
    "C20": dict(pkg="lib", technique=PBT + "structured and mutated byte strings as PO (totality, then every operation), and generated documents with junk lines against the catalogue model"),
    "C21": dict(pkg="lib", vmem=6 << 30, technique=PBT + "mutated MO files; allocation bound, substring and retention invariants"),
    "C22": dict(pkg="lib", race=True, procs=4, technique="concurrent property-based testing (rapid): generated programs of 2-5 goroutines under the race detector, values checked for register linearizability"),
    "C23": dict(pkg="lib", race=True, procs=4, technique="concurrent property-based testing (rapid): generated programs of lookups, lazy loads and reconfigurations under the race detector, against the sequential model and register histories"),
    "C24": dict(pkg="lib", technique=PBT + "generated histories, listings against the map model and deep-copy isolation in both directions"),
    "C25": dict(pkg="lib", technique=PBT + "generated header blocks in PO and MO against an independent reading of them"),
    "C26": dict(pkg="lib", technique=PBT + "differential over OS, fs.FS and fs.FS-with-path, with injected unreadable files"),
    "C27": dict(pkg="cli", cli=True, technique=PBT + "grammar-generated Go programs through the xgotext binary, against the generator's knowledge of each call"),
    "C28": dict(pkg="cli", technique=PBT + "generated sets of extracted calls saved in two orders; round trip through gotext and an independent PO reader"),
    "C29": dict(pkg="cli", cli=True, technique=PBT + "generated directory trees and exclude lists against the definition of exclusion, in process and through the binary"),
    "C30": dict(pkg="cli", technique=PBT + "generated multisets of occurrences added in two orders against the fold of all of them"),
    "C31": dict(pkg="lib", technique=PBT + "generated documents with generated reference lines against the catalogue model and an independent reader"),
    "C32": dict(pkg="lib", vmem=8 << 30, technique=PBT + "mutated encodings; differential of the object before and after, then every operation"),
    "C33": dict(pkg="lib", technique=PBT + "stateful: generated sequences of documents parsed into one object against the fold of them, and against one document with the sum"),
    "C34": dict(pkg="lib", technique=PBT + "metamorphic: the caller overwrites what it passed in and got out; every observation must stay"),
    "C35": dict(pkg="lib", technique=PBT + "stateful: call sequences on Translation and HeaderMap values against map models; listed Translations against the lookups"),
    "C36": dict(pkg="lib", technique=PBT + "differential: Locales and the package over Translators of the harness's own, against asking those directly; hand-made TranslatorEncodings against the catalogue model"),
    "C37": dict(pkg="lib", technique=PBT + "stateful: lookups whose arguments use the library, three levels deep, against the model of the package, Locale and catalogues; and by concurrent goroutines"),
    "C39": dict(pkg="cli", cli=True, technique=PBT + "fault injection: templates saved to generated places, with storage that fills up after a generated number of bytes, obstacles in the way and bad flags"),
    "C41": dict(pkg="lib", arch="386", runs=["C01", "C02", "C04", "C05", "C06", "C08", "C10", "C11", "C13", "C20", "C21", "C25", "C32"], pct=30, procs=2, shards=8,
                technique=PBT + "the generated cases and oracles of thirteen other properties in a process with 32-bit integers"),
    "C40": dict(pkg="cli", cli=True, technique=PBT + "end to end: generated programs are extracted, their templates translated, and the programs run over the result"),
    "C42": dict(pkg="lib", technique=PBT + "differential against a second definition of the encoded layouts: generated catalogues read and written by gob through types of the harness's own"),
    "C43": dict(pkg="lib", race=True, procs=4, technique="concurrent property-based testing (rapid): generated independent pieces of work in 2-6 goroutines under the race detector, differential against the same work done alone"),
    "C44": dict(pkg="lib", technique=PBT + "stateful: a model of the Locales as maps of catalogues, over generated histories"),
    "C38": dict(pkg="lib", technique=PBT + "differential against GNU gettext: its tools read and write generated catalogues, its run time looks them up"),
}

NOTE = "Sampled: holds for every generated case of the run (counts and samples in the evidence file), not for all inputs. Trusts the harness's model and the Go toolchain."
for _s in PLAN.values():
    _s.setdefault("note", NOTE)
