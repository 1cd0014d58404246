// Package xtjob is what a worker and the simulated extraction command, a
// process of its own, tell each other.
package xtjob

import (
	"verif.local/sim/core"
	"verif.local/sim/simkernel"
)

type File struct {
	Path string
	Data []byte
	Dir  bool
}

// Job is one run of the command.
type Job struct {
	Args   []string
	Files  []File
	D      simkernel.Delivery
	Faults []simkernel.Fault
	Free   int64 // bytes left on the disk, negative: no limit
	KillAt int   // the system call at which the process is killed
	Clock  int64 // seconds
	Seed   uint64
	CPUs   int
	Zone   int // of the local time, in seconds
	Env    []string
	Sched  core.Sched // how its goroutines are scheduled
	Steps  int64      // decision points after which the run counts as endless
}

// Result is how it went.
type Result struct {
	Exit     int
	Killed   bool
	Stuck    bool
	Panic    string
	Stop     string // why no goroutine can go on
	Tasks    int
	Steps    int64
	Switches int64
	ILHash   uint64
	Stdout   []byte
	Stderr   []byte
	Files    map[string][]byte
	Fired    map[string]int64
	Hits     []int          // per fault
	Read     map[string]int // how far each file was read
	Calls    int
	ClockA   int64 // virtual time at start and end, ns
	ClockB   int64
	Open     []string // files still open
	Log      []string
	Sites    []uint32 // decision points passed
}
