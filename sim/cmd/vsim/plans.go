package main

import "strings"

// phase is a part of a check: how many scenarios run in which worker.
type phase struct {
	bin      string // plain, race, xt
	quick    int64
	thorough int64
	batch    int64 // scenarios per process
	cold     int64 // scenarios that get a fresh process each, before the rest
}

func (p phase) name() string { return p.bin }

type plan struct {
	id          string
	level       string
	phases      []phase
	needs       []string // further binaries
	rule        string
	expect      []string // faults and probes every run of the check should meet
	real        []string
	stubs       []string
	assumptions []string
}

func (p *plan) batches(ph phase, base, n int64) (l []batch) {
	i := int64(0)
	for ; i < ph.cold && i < n; i++ {
		l = append(l, batch{base + i, 1})
	}
	for i < n {
		c := ph.batch
		if i+c > n {
			c = n - i
		}
		l = append(l, batch{base + i, c})
		i += c
	}
	return
}

var libReal = []string{"every package of github.com/youthlin/t from the working tree", "antlr, x/text, go-locale", "Go standard library (fmt, io/fs, os, sync, encoding/binary, regexp)"}
var commonAssume = []string{
	"goroutines interleave at statement boundaries of the repository's own code and at lock, once and map operations of package sync; the race detector covers what lies between two such points",
	"a batch of seeded runs samples the space; it does not enumerate it",
}

func words(s string) []string { return strings.Fields(s) }

var plans = map[string]*plan{}

func addPlan(p *plan) {
	if p.level == "" {
		p.level = "exploration"
	}
	if p.real == nil {
		p.real = libReal
	}
	p.assumptions = append(p.assumptions, commonAssume...)
	plans[p.id] = p
}

const (
	fFS      = "short read,empty read,data with end of file,wrong size"
	fFSErr   = "open error,read error,list error"
	fKernel  = "kernel: short read,kernel: interrupted open,kernel: interrupted read,kernel: interrupted list,kernel: directory order,kernel: wrong size"
	fKernErr = "kernel: open error,kernel: read error,kernel: list error"
)

func list(parts ...string) (l []string) {
	for _, p := range parts {
		l = append(l, strings.Split(p, ",")...)
	}
	return
}

var (
	stubFS     = "the fs.FS given to the library: a simulated tree with injected delivery and faults (sim/worker/simfs.go)"
	stubKernel = "the Linux file system calls below package syscall: an in-memory kernel with injected delivery, faults, loss of unsynced data (sim/simkernel)"
	stubSched  = "the choice of the running goroutine: the seeded scheduler inside the runtime; locks, maps, channels and allocation stay real"
	stubClock  = "clock, timers and random seeds of the runtime"
)

func init() {
	addPlan(&plan{id: "C01", phases: []phase{{"race", 16000, 400000, 40, 64}},
		rule:   "Each run draws a set of catalogs with plural rules and headers, handles derived from them and 2 to 5 goroutines with 1 to 8 calls each (translation families, header, locale and language queries, saves of a shared catalog, shared argument slices), and a schedule policy; the results of all calls are compared with a sequential model, the race detector watches, argument slices are compared afterwards. A run is non-trivial if the schedule switched goroutines at least twice; distinct by the hash of its event log (operations, results, switches).",
		expect: list("preemption,shared argument slices"), stubs: []string{stubSched, stubClock}})
	addPlan(&plan{id: "C02", phases: []phase{{"race", 20000, 500000, 40, 64}},
		rule:   "Each run draws C expressions over n (all operators, common rules in many spellings, malformed ones) as rules of catalogs, a history of evaluations that warms the parser's caches, then concurrent evaluations; every result is compared with a C evaluator in the harness and the fallback rules. A run is non-trivial if it has concurrent evaluations and switched between them or an earlier history; distinct by event log.",
		expect: list("preemption,malformed rule,undefined value,very many rules,very many counts"), stubs: []string{stubSched, stubClock}})
	addPlan(&plan{id: "C03", phases: []phase{{"race", 12000, 300000, 40, 32}},
		rule:   "Each run draws a history of loads, selections and removals on a tree of handles derived from each other, from the global value and from request contexts, then goroutines that derive handles from a common parent and change their own; every handle's domain, locale, source locale, bound domains and translations are compared with a model in which handles are plain copies. Every run is counted as non-trivial (it derives at least one handle); distinct by event log.",
		expect: list("preemption,load,failed load,domain removed,very many domains,very long chain of handles,very many messages", fFS), stubs: []string{stubSched, stubFS, stubClock}})
	addPlan(&plan{id: "C04", phases: []phase{{"plain", 40000, 1000000, 200, 0}},
		rule:   "Each run draws a history of binds, loads (healthy, failing, of nothing, of damaged files, from file systems with faults), replacements, removals and selections; after each operation all registry queries and translations of every domain and locale are compared with the registry model. Non-trivial: at least four operations; distinct by event log.",
		expect: list("load,failed load,domain removed,very many domains,very long chain of handles,very many messages", fFS, fFSErr), stubs: []string{stubFS, stubClock}})
	addPlan(&plan{id: "C05", phases: []phase{{"race", 12000, 300000, 40, 64}},
		rule:   "Each run draws a history of loads, selections and removals over several handles, environments and request headers and cookies, asks for supported, used and most matching locales in between, and then from several goroutines; answers are compared with the model's supported set and the reference matcher applied to it. Every run asks at least once; distinct by event log.",
		expect: list("preemption,load,failed load,domain removed,very many domains,very long chain of handles,very many messages", fFS), stubs: []string{stubSched, stubFS, stubClock}})
	addPlan(&plan{id: "C06", phases: []phase{{"plain", 40000, 1000000, 200, 0}},
		rule:   "Each run draws a tree of text and binary catalogs, some malformed in one of eleven ways, a previous binding, a way of loading (file system object or path on the simulated kernel) and faults at single files and directories (open, examine, list, read after some bytes, close; permanent or transient); the catalogs taken, the binding and all translations are compared with the set the model says is readable. Non-trivial: at least one faulty or malformed item; distinct by event log.",
		expect: list(fFS, fFSErr, fKernel, fKernErr, "close error,stat error,kernel: close error,load by path,nothing to take,something to take,content: cut,content: nolang"), stubs: []string{stubFS, stubKernel, stubClock}})
	addPlan(&plan{id: "C07", phases: []phase{{"plain", 40000, 1000000, 200, 0}},
		rule:   "Each run draws a tree and loads it several times with different deliveries (piece sizes, empty reads, end of file with or after data, sizes, interrupted calls, directory order, minimal or rich file system types, directory or single file path), with and without faults; the resulting translations are compared with each other and the model, and the simulated file system counts handles left open. Every run compares at least two deliveries; distinct by event log.",
		expect: list(fFS, fFSErr, fKernel, fKernErr, "compared with the model,single file"), stubs: []string{stubFS, stubKernel, stubClock}})
	addPlan(&plan{id: "C08", phases: []phase{{"plain", 16000, 500000, 200, 0}},
		rule:   "Each run stores a catalog as text, template or binary, damages the stored bytes up to a few times in one of eighteen ways (flips, lost, zeroed, repeated, swapped blocks, table words, quotes, long lines), reads them with all three readers and through a load next to a healthy catalog, and uses and saves whatever was accepted, under step and allocation limits. Every run is counted; distinct by event log.",
		expect: list("damage: cut,damage: flip,damage: zero,damage: swap,damage: dup,damage: word,damage: unquote,accepted by mo,accepted by po,accepted by pot,refused by mo,refused by po,loaded"), stubs: []string{stubFS, "the allocator's limit (one request above the limit panics like an impossible size)", stubClock}})
	addPlan(&plan{id: "C09", phases: []phase{{"plain", 40000, 1000000, 200, 0}},
		rule:   "Each run stores a catalog (written by the harness or by the library's save), cuts it at several positions, for text possibly with a tail of zeros, loads each torn image and compares every translation with the stored and the source text. Every run is counted; distinct by event log.",
		expect: list("lost tail,tail of zeros,accepted a part,refused,stored by a save"), stubs: []string{"storage: the stored image with a torn tail", stubClock}})
	addPlan(&plan{id: "C10", phases: []phase{{"plain", 32000, 800000, 200, 0}},
		rule:   "Each run draws a catalog with unusual texts and saves it in the three formats to destinations that fail, accept less, or recover at a drawn byte (plain writers, writers with further interfaces, files on the simulated kernel with full disk, write errors, short and interrupted writes), some concurrently; the returned error, the accepted bytes, the catalog afterwards and a repeated save are compared with the complete file. Every run is counted; distinct by event log.",
		expect: list("destination: error,destination: short,destination: blip,kernel: disk full,kernel: short write,kernel: interrupted write,kernel: write error,save failed,save failed after a part,save succeeded"), stubs: []string{"io.Writer destinations", stubKernel, stubClock}})
	addPlan(&plan{id: "C11", phases: []phase{{"plain", 32000, 800000, 200, 0}},
		rule:   "Each run draws a catalog with unusual texts and up to several cycles of save (text or binary, in place or by rename, synced), crash of the simulated kernel (which drops what was not synced), reload by reader or bound path, and edits; every acknowledged and durable file must answer like the model and save to the same bytes; templates reload to the same messages. Every run crashes at least once; distinct by event log.",
		expect: list("crash,crash before the data was durable,kernel: unsynced data lost,kernel: short write,kernel: short read,reloaded mo,reloaded po,template reloaded"), stubs: []string{stubKernel, stubClock}})
	addPlan(&plan{id: "C12", phases: []phase{{"plain", 24000, 800000, 200, 0}},
		rule:   "Each run draws the entries of a catalog and two different lives that end with the same entries (order, replacements, headers, reads, translations and saves in between, start from a stored file), under different hash seeds; answers and headers are compared with the model at every step and the saved bytes of both lives with each other. Every run is counted; distinct by event log.",
		expect: list("begun with a stored catalog,header added,header replaced,replaced,stored twice,two lives agree"), stubs: []string{"hash seeds of maps", stubClock}})
	xtReal := []string{"the command's main package internal/xtemplate and every package of github.com/youthlin/t from the working tree, in a process of its own per run", "Go standard library (os, path/filepath, text/template, flag, encoding)"}
	stubXT := []string{stubKernel + ", standard output and error included", stubClock, "process exit and death (at a drawn system call)"}
	addPlan(&plan{id: "C13", phases: []phase{{"plain", 28000, 600000, 100, 0}}, needs: []string{"xt"}, real: xtReal, stubs: stubXT,
		rule:   "Each run draws a tree of template files from a grammar of actions, control structures, definitions and pipelines, keyword specifications, a pattern, delimiters and an output, and runs the extraction command over the simulated kernel with drawn delivery, and in three of five runs faults or unusable inputs (open, read after some bytes, list, create, write, close, full disk; malformed template, keyword or pattern). Output and exit status are compared with the uses the generator put into the matched files. Non-trivial: the matched files use at least one message; distinct by event log.",
		expect: list("kernel: short read,kernel: interrupted open,kernel: interrupted read,kernel: interrupted write,kernel: short write,kernel: directory order,kernel: wrong size,kernel: open error,kernel: read error,kernel: list error,kernel: create error,kernel: write error,kernel: close error,kernel: disk full,complete output,failed with a reason,file with messages")})
	addPlan(&plan{id: "C14", phases: []phase{{"plain", 12000, 300000, 100, 0}}, needs: []string{"xt"}, real: xtReal, stubs: stubXT,
		rule:   "Each run draws a tree of templates and arguments like C13 and runs the command two to four times, with different hash seeds, directory orders, read sizes, interruptions and clocks; outputs are compared byte by byte but for the creation date, which must lie within the simulated run. Non-trivial: the matched files use at least two messages; distinct by event log.",
		expect: list("kernel: short read,kernel: interrupted open,kernel: interrupted read,kernel: interrupted write,kernel: short write,kernel: directory order,kernel: wrong size,runs compared,date compared")})
	addPlan(&plan{id: "C15", phases: []phase{{"plain", 20000, 500000, 100, 0}}, needs: []string{"xt"}, real: xtReal, stubs: stubXT,
		rule:   "Each run draws a tree of templates, arguments and an earlier output (or none) and runs the command with refused arguments, malformed templates, faults, or a kill at a drawn system call; where it ended before everything was extracted the output path must be untouched, and template files always. Non-trivial: the command did not succeed; distinct by event log.",
		expect: list("kernel: killed,kernel: open error,kernel: read error,kernel: list error,kernel: write error,kernel: disk full,killed before the extraction was complete,failed before the extraction was complete,ended after the extraction")})
	addPlan(&plan{id: "C16", phases: []phase{{"race", 12000, 300000, 40, 32}},
		rule:   "Each run draws catalogs, handles and 2 to 5 goroutines; some of their operations hand user code to the library (values to format, a custom translator, a file system, a destination, a context), which at a drawn call blocks until all goroutines without blocking user code have finished, sleeps, panics (also with a value that panics when printed), ends its goroutine, or calls the library back (translate, derive, load, save, bind the very value being bound). The scheduler detects goroutines that cannot go on; answers of all goroutines, of the calls back and of later calls on everything involved are compared with the model. Non-trivial: user code did something; distinct by event log.",
		expect: list("value: blocks,value: panics,value: panics twice,value: ends its goroutine,value: calls back,value: is slow,translator: blocks,translator: panics,translator: calls back,file system: blocks,file system: panics,file system: ends its goroutine,file system: calls back,destination: blocks,destination: panics,destination: calls back,context: blocks,context: panics,context: calls back,panic reached the caller,panic contained by formatting"), stubs: []string{stubSched, "values, translator, file system, destination and context given to the library", stubClock}})
	addPlan(&plan{id: "C20", phases: []phase{{"race", 16000, 400000, 60, 32}},
		rule:   "Each run draws a few translators (catalogs that were read, and the program's own types), catalog trees with unreadable and malformed files, and a history of assembling, adding, reading bytes and single files (damaged, failing or delivered in pieces) and loading trees on several translation values, bare or bound; then goroutines that look up in the common values and assemble their own. Results and answers in every language are compared with a model after each operation. Non-trivial: at least three operations; distinct by event log.",
		expect: list("preemption,op new,op add,op load,op file,op fs,op bound,op get", fFS, fFSErr), stubs: []string{stubSched, stubFS, "translators of the program's own", stubClock}})
}
