#!/usr/bin/env python3
# Source of properties.jsonl: run `python3 mkprops.py` to regenerate it.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Concurrent translation gives the sequential answers",
 "Any number of goroutines may translate at the same time (singular, plural, with context, with arguments; through the package functions, a shared translations value, derived handles or one shared catalog) and may query headers, locales and supported languages or save that catalog meanwhile, as long as none of them changes the shared value. Every call then returns exactly what it would return alone, with no data race, panic, deadlock or endless loop. The caller's argument slices are never modified.",
 ["schedules","inputs"],"every interleaving of any set of concurrent read-side calls on shared catalogs and handles, from a cold or a warm process",
 "The tests are sequential (no goroutine, no -race run), so they sample one schedule of an API whose main use is request-serving goroutines.",
 ["translations.go","translaton.go","gettext.go","translator/file.go","translator/plural.go","plurals/exp.go","f/format.go","tag.go","http.go"],
 [("catalog lookups read maps that are only written by loading","translator/file.go X/XN64"),("per-call parser and listener objects","plurals/exp.go Eval"),("sync.Map tag cache","tag.go Tag"),("argument slice handling","f/format.go Format")],
 [("entries/headers/plural","catalog contents and derived header and plural tables","translator/file.go File"),("domains/langs","registry of loaded catalogs","translations.go, translaton.go")],
 ["return values of T/N/X/XN families","race detector reports","panics","argument backing arrays after the call"])
p("C02","Plural form selection is right under any evaluation history",
 "For every valid plural rule of C-like integer arithmetic over the non-negative count n, and every n for which all its intermediate values are defined in C and not negative, the selected form equals the value C gives the expression (any non-zero value counts as true), whatever expressions, valid or malformed, were evaluated before or are being evaluated at the same time. A catalog whose rule is malformed, or selects a form outside the declared number of forms or one that is missing or empty in the entry, answers with the source-language singular or plural text. No evaluation panics.",
 ["schedules","histories","inputs"],"every sequence and interleaving of evaluations of every mix of common, uncommon and malformed rules and counts",
 "The tests evaluate a few expressions once each, mostly hand-written common ones; the parser keeps process-wide caches that every evaluation reads and extends, so the answer could depend on history and interleaving.",
 ["plurals/exp.go","plurals/common.go","plurals/err.go","plurals/stack.go","translator/plural.go","translator/file.go"],
 [("table of common rules","plurals/common.go"),("ANTLR parser with a stack evaluating listener","plurals/exp.go"),("range check on the selected form","translator/file.go XN64")],
 [("parser DFA and prediction caches","process-wide, extended by every evaluation","plurals/parser (generated)")],
 ["plurals.Eval","XN64 of a catalog with the rule in its header","N/XN functions"])
p("C03","Derived handles are isolated snapshots",
 "A handle obtained from another translations value by choosing a domain or locale, from the global one, or from a request context, starts with the parent's current domain, locale, source locale and bound domains except for what was chosen. From then on changing the domain, locale, source locale or bound domains of either one never shows in the other, in any order of changes. Goroutines may each derive handles from a common unchanging parent and change their own handles concurrently without a data race.",
 ["histories","schedules"],"every history of derivations and changes over any set of handles, and every interleaving of goroutines owning disjoint handles",
 "The tests derive one handle and look once; they never change parent and child alternately or concurrently.",
 ["translations.go","init.go","gettext.go","context.go"],
 [("deep enough copy of the handle","translations.go clone"),("derivations work on a copy","translations.go D/L, init.go Global, context.go WithContext")],
 [("locale/domain/domains/sourceCodeLocale","per-handle selection and registry","translations.go Translations")],
 ["getters and translations of every live handle after every step","race detector reports"])
p("C04","Domain registry follows its model over any history",
 "After any history of bind, load, remove, clear and select operations on any domains and locales, including loads that fail wholly or partly, a translations value reports exactly the domains bound and not removed since, each translating with the catalogs of its last successful bind. Removing the current domain or clearing selects the default domain and keeps the locale and source locale; removing an unknown domain changes nothing and says so. Unbound domains and locales without catalog answer with the source text.",
 ["histories","fault_sequences"],"every sequence of registry operations interleaved with failing loads",
 "The tests run one or two fixed short sequences, and none in which a load fails in the middle of a history.",
 ["translations.go","init.go","translaton.go"],
 [("bind replaces only after a successful load","translations.go BindFS"),("removal resets the current domain","translations.go RemoveDomain/ClearDomains"),("no-op translation for unknown domain or locale","translaton.go GetOrNoop")],
 [("domains","bound domains","translations.go Translations"),("domain","current domain","translations.go Translations")],
 ["Domains/HasDomain/Domain/Locale/Locales/UsedLocale and translations after every operation"])
p("C05","Locale negotiation agrees with the state it is asked about",
 "At every point of any history, and for concurrent callers, the supported locales of a translations value are the sorted distinct set of its source locale and its current domain's catalog languages, and the most matching locale, and the language chosen for a web request without language cookie, are always one of the supported locales of the value they were asked on (the global one for the package functions and for requests): the one the language matcher prefers for the value's locale or the request's accepted languages. A language cookie takes precedence and is returned as it is. The locale reported as used is the selected one exactly when the current domain has a catalog for it, and the source locale otherwise. Selecting the empty locale selects the system default.",
 ["histories","schedules","configurations"],"every history of loading, selecting and removing, every environment default, and every interleaving of concurrent negotiations sharing the tag cache",
 "The tests ask a fixed global state once, so answers computed from another instance's state or from a stale cache entry pass them.",
 ["translations.go","http.go","matcher.go","tag.go","locale/detect.go","context.go"],
 [("supported set derived from current state","translations.go Locales"),("matcher over supported set","matcher.go, http.go"),("tag cache","tag.go")],
 [("cachedTag","process-wide cache of parsed tags","tag.go")],
 ["Locales/MostMatchLocale/UsedLocale/GetUserLang/SetLocale/WithContext"])
p("C06","A load survives faults in single files",
 "Loading a tree of catalogs takes every well-formed catalog that can be read, and a file or sub-directory that cannot be opened, examined, listed or read to its end, or is malformed, or names no language, contributes nothing and stops nothing else from loading; files not named .po or .mo are left alone. For one language a readable text catalog wins over a binary one, and a damaged text catalog does not displace a readable binary one. The domain is bound or replaced exactly when at least one catalog was taken; otherwise the previous binding stays in force untouched.",
 ["fault_sequences","inputs"],"every placement of open, examine, list, read and close errors and damaged files over every catalog tree and previous binding",
 "The tests load healthy trees only; no test file system ever fails.",
 ["translaton.go","translations.go","fs.go","init.go"],
 [("per-file error isolation in the walk","translaton.go LoadFS"),("mo pass before po pass","translaton.go LoadFS"),("bind after success","translations.go BindFS")],
 [("langs","catalogs by language","translaton.go Translation")],
 ["BindFS/Bind/Load/LoadFS results through translations and domain queries"])
p("C07","Loading does not depend on how I/O is delivered",
 "A catalog tree loads to the same translations however its file system delivers it: reads in pieces of any size, empty reads, end of file reported with or after the last data, wrong reported sizes, interrupted system calls, any directory order, minimal or rich file system implementations, or a path to a directory or to a single file. Every file a load opens is closed again by the time the load returns, also when it fails.",
 ["fault_sequences","schedules","inputs"],"every splitting of every file into reads and every legal behaviour of the file system interface",
 "The tests use os and embedded file systems, which deliver a small file in one read and never interrupt, and cannot observe leaked handles.",
 ["translaton.go","fs.go"],
 [("read to the end before parsing","translaton.go LoadFile"),("deferred close","translaton.go LoadFS"),("path as file system","fs.go")],
 [],["translations after the load","open handle count of the simulated file system"])
p("C08","Damaged catalogs are contained",
 "However the stored bytes of a text, template or binary catalog are damaged, reading it ends with a catalog or an error: no panic, no endless loop, and no memory use out of proportion to the file. Whatever such a read accepted can be queried and translated with, for every message, context and count, and saved again, without a panic and without such memory use. Catalogs already loaded keep answering as before.",
 ["fault_sequences","inputs"],"every damage (flipped bits, lost, zeroed, repeated or swapped blocks, truncation) of every catalog",
 "The tests read healthy files and a handful of malformed snippets; none damages a binary catalog's tables or uses a damaged catalog afterwards.",
 ["translator/po.go","translator/mo.go","translator/file.go","translator/reader.go","translator/plural.go"],
 [("line parser error returns","translator/po.go readEntry"),("bounds given by the byte reader","translator/mo.go ReadMo"),("range checks at lookup","translator/file.go")],
 [],["ReadPo/ReadPot/ReadMo, then all read operations on the result","allocation and step limits"])
p("C09","A torn catalog never yields made-up translations",
 "If only a leading part of a stored catalog survives (a torn or lost tail; for text catalogs possibly zero-filled), a translation served from what loads is the stored translation or the source text, for every message and count; only the very last entry of a text catalog, cut between its lines, may answer with a leading part of its stored translation. A binary catalog that lost any of its strings is refused as a whole.",
 ["crash_points","fault_sequences"],"every cut position and tail treatment of every catalog in text or binary form",
 "No test loads a truncated catalog.",
 ["translator/po.go","translator/mo.go","translator/file.go"],
 [("quoted strings must be closed","translator/util.go"),("length and offset tables","translator/mo.go"),("missing forms fall back","translator/file.go XN64")],
 [],["translations after loading every torn image"])
p("C10","A save reports success only if everything was written",
 "Saving a catalog in text, template or binary form returns no error exactly when the destination accepted every byte of the complete file; a destination that fails or accepts less at any point makes the save return an error. What it accepted by then is a leading part of the complete file. The catalog itself is unchanged either way, and repeating the save into a healthy destination produces the complete file.",
 ["fault_sequences","crash_points"],"every failure point and kind of the destination for every catalog and format",
 "The tests save into a memory buffer that never fails.",
 ["translator/po.go","translator/pot.go","translator/mo.go"],
 [("encode into a buffer, then one checked transfer","translator/po.go, pot.go, mo.go")],
 [],["returned error","bytes accepted by the destination","second save"])
p("C11","A completed save survives a crash and reloads equivalently",
 "Once a text or binary save has returned success and its destination is durable, reloading the stored bytes after any crash gives a catalog that answers every header query, message, context and count like the original (which holds at least one entry), over repeated save, crash and reload cycles and changes of format. Saving the reloaded catalog again reproduces the same bytes if every message has a translation. A template reloads to the same messages. What is stored is a valid file of its format to any other reader (as gettext defines it): a text one uses only the escapes gettext knows and has a msgstr for every message and a msgctxt only for messages with a context; a binary one holds exactly the catalog's messages, its strings ended by zeros, in increasing byte order of id.",
 ["crash_points","histories","inputs"],"every catalog (any text in ids, contexts, forms and translations the format can hold), every crash point after the acknowledged save, every cycle of saves and edits",
 "The tests round-trip two fixed files and compare part of the result.",
 ["translator/po.go","translator/pot.go","translator/mo.go","translator/wrap.go","translator/util.go","translator/file.go"],
 [("quoting and wrapping of text","translator/pot.go writeString, translator/wrap.go"),("offset tables","translator/mo.go SaveAsMo"),("parsers","translator/po.go, translator/mo.go")],
 [],["catalog reloaded from the durable bytes of the simulated disk"])
p("C12","A catalog depends only on the entries it holds",
 "The answers, headers and saved bytes of a catalog are a function of the entries it currently holds: not of the order they were added or replaced in, of what was read, translated or saved in between, nor of any random iteration order. Adding an entry with the context and id of an existing one replaces it, including the header entry, whose new language and plural rule take effect at once.",
 ["histories","schedules"],"every history of additions, replacements and reads, under every hash seed",
 "The tests fill a catalog once, in one order, and read it afterwards.",
 ["translator/file.go","translator/entry.go","translator/plural.go"],
 [("derived header and plural tables","translator/file.go initHeader/initPlural"),("sorted output","translator/file.go SortedEntry, translator/entry.go getSortKey")],
 [("headers/plural","tables derived from the header entry","translator/file.go File")],
 ["answers, headers and saved bytes compared with a model and with a fresh catalog of the same entries"])
p("C13","Template extraction succeeds only with a complete result",
 "When the extraction command exits with success, the output holds exactly one entry for every message its keywords select in every matched template file, each with the source positions of all its uses (of uses that disagree on being plural the kept kind's), and nothing else but the header, which comes first and owns the empty message; messages of one file come in the order of their first lines. With valid arguments, a pattern that matches no directory and nothing failing it succeeds. If the keywords or the pattern are malformed, a matched file cannot be read or parsed, the directory cannot be listed, or the output cannot be opened, fully written or closed, the command exits with failure and says so.",
 ["fault_sequences","inputs"],"every placement of system call failures, short transfers and interruptions over every set of templates",
 "The tests run the extraction once on two healthy files and never make a system call fail.",
 ["cmd/xtemplate/main.go","cmd/xtemplate/internal/run.go","cmd/xtemplate/internal/param.go","cmd/xtemplate/internal/keyword.go"],
 [("first error kept and returned","cmd/xtemplate/internal/run.go Run"),("exit status","cmd/xtemplate/main.go"),("close error reported","cmd/xtemplate/internal/run.go Run")],
 [("entries","messages collected so far","cmd/xtemplate/internal/param.go Context")],
 ["exit status, standard error and output bytes of the command on a simulated kernel"])
p("C14","Template extraction is reproducible",
 "Two runs of the extraction command with the same arguments over the same files write the same bytes, whatever the hash seeds, directory order, read sizes and interruptions, except that the creation date shows the clock of the run.",
 ["schedules","fault_sequences","configurations"],"every hash seed, directory order, I/O delivery and clock value",
 "The tests compare with an expected file in which each message and file occurs in a way that hides the order.",
 ["cmd/xtemplate/internal/run.go","cmd/xtemplate/internal/param.go","translator/file.go"],
 [("sorted entries","translator/file.go SortedEntry"),("order of templates in one file","cmd/xtemplate/internal/run.go resolveOneFile"),("clock only in one header","cmd/xtemplate/internal/param.go header")],
 [],["output bytes of paired runs"])
p("C15","A failed extraction leaves the earlier output alone",
 "When the extraction command fails or is killed before it has extracted everything (bad keywords or pattern, a template that cannot be read or parsed), the file at the output path (which the pattern does not match) is byte for byte what it was before, or still absent. Template files are never changed.",
 ["fault_sequences","crash_points"],"every failure and every kill point before extraction is complete, for every earlier content of the output",
 "No test runs a failing extraction over an existing output.",
 ["cmd/xtemplate/internal/param.go","cmd/xtemplate/internal/run.go","cmd/xtemplate/internal/keyword.go"],
 [("when the output is opened","cmd/xtemplate/internal/param.go newCtx, keyword.go Writer")],
 [],["simulated file system after the run"])
p("C16","User code called by the library may block, fail or call back",
 "While user-supplied code called by the library (values formatted into a message, a custom translator, a context, a file system being loaded, a destination being saved to) is blocked, other goroutines still complete translations (also with the value being loaded or the catalog being saved), queries, derivations, and loads and saves of other values. Such code may itself call the library, with right answers and without deadlock. If it panics or ends its goroutine, the panic is contained by formatting or reaches the caller, and every later or concurrent call behaves as if that call had not happened.",
 ["schedules","fault_sequences"],"every interleaving with every blocking, panicking and re-entering behaviour of user code",
 "The tests pass plain values and healthy file systems only.",
 ["translations.go","translaton.go","translator/file.go","translator/po.go","translator/mo.go","f/format.go","tag.go"],
 [("no lock held across user code","translations.go, translaton.go, f/format.go"),("state changed only after user code returned","translations.go BindFS")],
 [],["completion of every goroutine, deadlock detection, results of later calls"])
p("C17","Locale names are normalised to language_REGION",
 "Every locale name is reported in the form language_REGION whatever spelling it was given in, and normalising a normalised name changes nothing.",
 ["inputs"],"every locale name","The tests normalise a few names.",["locale/detect.go"],[("language tag parsing","locale/detect.go Normalize")])
p("C18","Surplus arguments never show in formatted messages",
 "Formatting a message with more arguments than it has verbs prints no trace of the surplus ones, and a message without arguments is returned verbatim.",
 ["inputs"],"every message and argument list","The tests format a few messages.",["f/format.go"],[("consume the surplus with an indexed verb","f/format.go Format")])
p("C19","Keyword specifications are parsed as documented or refused",
 "Every keyword specification of the extraction command is either understood with exactly the argument positions it states or refused with an error.",
 ["inputs"],"every specification string","The tests parse a few specifications.",["cmd/xtemplate/internal/keyword.go"],[("specification parser","cmd/xtemplate/internal/keyword.go ParseKeywords")])
p("C20","A translation assembled piece by piece follows its model",
 "After any history of adding translators (catalogs read before, or the program's own), reading catalogs from bytes or single files, and loading whole file systems, some of them damaged or failing, a translation value (bare, or bound and obtained from its domain) holds for each language exactly what was added last for it under any spelling of that language, and answers with it; a language it holds nothing for answers with the source text. Adding returns the translator it replaces; one without language is ignored. Reading reports success exactly when it took a catalog, keeps no reference to the caller's bytes, and otherwise changes nothing. Other values never change, and goroutines may look up in a common value concurrently while they assemble their own, without a data race.",
 ["histories","fault_sequences","schedules"],"every history of additions and failing reads over several values and every interleaving of lookups with the assembling of others",
 "The tests load one healthy tree through the registry; none adds a translator, replaces one, or has a read fail on a value that holds something.",
 ["translaton.go","translations.go","translator.go","translator/translator.go"],
 [("add or replace by normalised language","translaton.go AddOrReplace"),("taken only after it was parsed and has a language","translaton.go LoadPo/LoadMo"),("no-op translator for what is not there","translaton.go GetOrNoop")],
 [("langs","translators by language","translaton.go Translation")],["Get/GetOrNoop and the translations of every value in every language","return values of additions and reads","race detector reports"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["title"]
