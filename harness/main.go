//go:build verifmc

// Package main is the bounded-exhaustive model checker for goledger.  It is compiled into the
// goledger module through a build overlay (see run.py) and calls the real code directly.
//
// A property is an enumeration: a function that calls W.Case for every element of a finite space,
// always in the same order.  The space is split over worker processes by case number, so a crash,
// an os.Exit or a hang of the code under test is attributed to the case that was running and the
// enumeration goes on behind it.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"
	"unsafe"
)

// Prop describes one check.
type Prop struct {
	ID          string
	Level       string // model_checking, exploration or fault_enumeration
	Rule        string
	Assumptions []string
	Fresh       bool // a violation must reproduce in a fresh process (command line level checks)
	Run         func(w *W)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// W is one worker's view of the enumeration.
type W struct {
	prop     *Prop
	Thorough bool
	Seed     int64
	Scratch  string

	shard, nshard int64
	start, end    int64 // cases outside [start,end] are skipped
	only          int64 // -1: all
	idx           int64
	deadline      time.Time
	stopped       bool
	truncatedAt   int64
	show          bool

	status  *[4]int64 // mmap: [0] current case, [1] evaluations
	out     *bufio.Writer
	outf    *os.File
	unknown int

	evals     int64
	trans     int64
	traces    int64
	nontriv   map[uint64]struct{}
	states    map[uint64]struct{}
	outcomes  map[string]int64
	samples   []string
	nextSamp  int64
	known     map[string]string
	hitKnown  map[string]bool
	caseStart int64 // cpu ns at the start of the current case (atomic)
	caseWall  int64 // wall ns
	caseLive  int32
	section   string
}

// T is one case.
type T struct {
	w    *W
	idx  int64
	desc func() string
}

type failure struct{ key, msg string }

// Failf records a violation and ends the case.  The violation is identified by the case description.
func (t *T) Failf(format string, args ...interface{}) {
	panic(failure{"", fmt.Sprintf(format, args...)})
}

// FailKey is Failf with an explicit identity for the known-findings file.
func (t *T) FailKey(key, format string, args ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, args...)})
}

// State records a visited state (by its canonical text).
func (t *T) State(s string) { t.w.states[hash64(s)] = struct{}{} }

// Nontrivial records that the case was non-trivial; identical texts count once.
func (t *T) Nontrivial(s string) { t.w.nontriv[hash64(s)] = struct{}{} }

// Trans counts transitions executed on the implementation.
func (t *T) Trans(n int64) { t.w.trans += n }

// Trace counts a model trace that was replayed step by step on the implementation.
func (t *T) Trace() { t.w.traces++ }

// Outcome tallies what happened.
func (t *T) Outcome(s string) { t.w.outcomes[s]++ }

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	x := h.Sum64()
	// mix with the length to make accidental collisions of short keys unlikely
	x ^= uint64(len(s)) * 0x9E3779B97F4A7C15
	return x
}

// Section names the part of the space that follows (evidence only).
func (w *W) Section(name string) { w.section = name }

// Skip advances the case counter over n cases if none of them is wanted.
func (w *W) mine(i int64) bool {
	if w.only >= 0 {
		return i == w.only
	}
	return i%w.nshard == w.shard && i >= w.start && (w.end < 0 || i <= w.end)
}

// Done tells an enumeration that it may stop early.
func (w *W) Done() bool {
	return w.stopped || (w.only >= 0 && w.idx > w.only) || (w.end >= 0 && w.idx > w.end)
}

var slowCases = os.Getenv("VERIF_SLOW") != ""

// Case is one element of the space.
func (w *W) Case(desc func() string, body func(t *T)) {
	i := w.idx
	w.idx++
	if w.stopped || !w.mine(i) {
		return
	}
	if w.evals&15 == 0 && w.only < 0 && realNow().After(w.deadline) {
		w.stopped = true
		w.truncatedAt = i
		return
	}
	if describeOnly {
		fmt.Fprint(realStdout, desc())
		os.Exit(0)
	}
	t := &T{w: w, idx: i, desc: desc}
	w.evals++
	w.status[0] = i
	w.status[1] = w.evals
	atomic.StoreInt64(&w.caseStart, cpuNanos())
	atomic.StoreInt64(&w.caseWall, realNow().UnixNano())
	atomic.StoreInt32(&w.caseLive, 1)
	slow0 := realNow()
	time.Local = localZones[i%int64(len(localZones))]
	key, msg, bad := w.runCase(t, body)
	if slowCases && realNow().Sub(slow0) > 50*time.Millisecond {
		if f, err := os.OpenFile(os.Getenv("VERIF_SLOW"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			defer f.Close()
			fmt.Fprintf(f, "slow: case %d [%s] %s: %s\n", i, w.section, clip(desc(), 200), realNow().Sub(slow0))
		}
	}
	atomic.StoreInt32(&w.caseLive, 0)
	w.status[0] = -1
	if w.evals >= w.nextSamp && len(w.samples) < 12 {
		w.samples = append(w.samples, "["+w.section+"] "+clip(desc(), 600))
		w.nextSamp = w.evals*3 + 1
	}
	if bad {
		w.violation(i, key, desc(), msg+" (time zone "+localZones[i%int64(len(localZones))].String()+")")
	}
}

// localZones are the local time zones the cases take turns in: nothing but the current
// day and the printed offset of the current time may depend on it. They include days
// without midnight, skipped days and half hours.
var localZones = func() (out []*time.Location) {
	for _, n := range []string{"UTC", "America/Havana", "Pacific/Apia", "Australia/Lord_Howe", "UTC", "America/Sao_Paulo", "Pacific/Kiritimati"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		out = append(out, l)
	}
	return
}()

func (w *W) runCase(t *T, body func(t *T)) (key, msg string, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			restoreStd()
			if f, ok := r.(failure); ok {
				key, msg, bad = f.key, f.msg, true
				return
			}
			key, msg, bad = "", fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000)), true
		}
	}()
	body(t)
	return
}

type vrec struct {
	Case    int64
	Key     string
	Desc    string
	Msg     string
	Section string
	Shard   int64
	Known   bool
}

func (w *W) violation(i int64, key, desc, msg string) {
	if key == "" {
		key = desc
	}
	_, kn := w.known[key]
	v := vrec{i, key, desc, msg, w.section, w.shard, kn}
	b, _ := json.Marshal(v)
	w.out.WriteString("V ")
	w.out.Write(b)
	w.out.WriteString("\n")
	w.out.Flush()
	if w.show {
		fmt.Fprintf(realStdout, "case %d [%s] %s\n  %s\n", i, w.section, desc, msg)
	}
	if !kn {
		w.unknown++
		if w.unknown >= 3 && w.only < 0 {
			w.stopped = true
			w.truncatedAt = i
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	exitHang   = 77
	cpuLimit   = 60 * int64(time.Second)
	wallLimit  = 240 * int64(time.Second)
	memLimitKB = 3 << 20
)

func (w *W) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if atomic.LoadInt32(&w.caseLive) == 0 {
			continue
		}
		why := ""
		if cpuNanos()-atomic.LoadInt64(&w.caseStart) > cpuLimit {
			why = "does not terminate (60 s of processor time)"
		} else if realNow().UnixNano()-atomic.LoadInt64(&w.caseWall) > wallLimit {
			why = "does not terminate (240 s)"
		} else if rss := rssKB(); rss > memLimitKB {
			why = fmt.Sprintf("uses %d MB of memory", rss>>10)
		}
		if why != "" {
			os.WriteFile(os.Getenv("VERIF_HANGFILE"), []byte(why), 0644)
			syscall.Exit(exitHang)
		}
	}
}

func rssKB() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize()) / 1024
}

var realStdout, realStderr *os.File
var devnull *os.File
var describeOnly = os.Getenv("VERIF_DESCRIBE") != ""

func restoreStd() { os.Stdout = devnull; os.Stderr = devnull }

func main() {
	realStdout, realStderr = os.Stdout, os.Stderr
	var (
		prop     = flag.String("prop", "", "")
		tier     = flag.String("tier", "quick", "")
		seed     = flag.Int64("seed", 1, "")
		evidence = flag.String("evidence", "", "")
		rdir     = flag.String("replaydir", "", "")
		known    = flag.String("known", "", "")
		worker   = flag.Int64("worker", -1, "")
		nw       = flag.Int64("nw", 8, "")
		start    = flag.Int64("start", 0, "")
		end      = flag.Int64("end", -1, "")
		only     = flag.Int64("only", -1, "")
		status   = flag.String("status", "", "")
		outfile  = flag.String("out", "", "")
		deadline = flag.Int64("deadline", 0, "seconds")
		show     = flag.Bool("show", false, "")
	)
	flag.Parse()
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *worker < 0 && *only < 0 {
		parent(p, *tier, *seed, *evidence, *rdir, *known, *nw, *deadline)
		return
	}
	var err error
	devnull, err = os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	log.SetOutput(devnull)
	w := &W{prop: p, Thorough: *tier == "thorough", Seed: *seed, shard: *worker, nshard: *nw, start: *start, end: *end, only: *only,
		nontriv: map[uint64]struct{}{}, states: map[uint64]struct{}{}, outcomes: map[string]int64{}, known: loadKnown(*known, p.ID), truncatedAt: -1,
		nextSamp: 1, show: *show}
	dl := *deadline
	if dl == 0 {
		dl = 1 << 20
	}
	w.deadline = realNow().Add(time.Duration(dl) * time.Second)
	w.Scratch = filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("w%d-%d", *worker, os.Getpid()))
	if err := os.MkdirAll(w.Scratch, 0755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Chdir(w.Scratch)
	w.status = new([4]int64)
	if *status != "" {
		w.status = mmapStatus(*status)
	}
	w.status[0] = -1
	if *outfile != "" {
		w.outf, err = os.OpenFile(*outfile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		w.outf = devnull
	}
	w.out = bufio.NewWriter(w.outf)
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	go w.watchdog()
	restoreStd()
	p.Run(w)
	restoreStd()
	os.Chdir("/")
	os.RemoveAll(w.Scratch)
	st := wstats{Evals: w.evals, Trans: w.trans, Traces: w.traces, Total: w.idx, TruncatedAt: w.truncatedAt, Samples: w.samples, Outcomes: w.outcomes}
	b, _ := json.Marshal(st)
	w.out.WriteString("S ")
	w.out.Write(b)
	w.out.WriteString("\n")
	w.out.Flush()
	if *outfile != "" {
		writeHashes(*outfile+".nt", w.nontriv)
		writeHashes(*outfile+".st", w.states)
	}
	if *only >= 0 {
		if w.unknown > 0 {
			os.Exit(1)
		}
		if *show {
			fmt.Fprintln(realStdout, "the case passes")
		}
	}
	os.Exit(0)
}

type wstats struct {
	Evals, Trans, Traces, Total, TruncatedAt int64
	Samples                                  []string
	Outcomes                                 map[string]int64
}

func writeHashes(fn string, m map[uint64]struct{}) {
	f, err := os.Create(fn)
	if err != nil {
		return
	}
	bw := bufio.NewWriter(f)
	var b [8]byte
	for k := range m {
		binary.LittleEndian.PutUint64(b[:], k)
		bw.Write(b[:])
	}
	bw.Flush()
	f.Close()
}

func readHashes(fn string, m map[uint64]struct{}) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func mmapStatus(fn string) *[4]int64 {
	f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f.Truncate(32)
	b, err := syscall.Mmap(int(f.Fd()), 0, 32, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return (*[4]int64)(unsafe.Pointer(&b[0]))
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
}

func loadKnown(fn, prop string) map[string]string {
	m := map[string]string{}
	if fn == "" {
		return m
	}
	b, err := os.ReadFile(fn)
	if err != nil {
		return m
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintf(os.Stderr, "%s: %v\n", fn, err)
		os.Exit(2)
	}
	for _, f := range k.Findings {
		if f.Property == prop {
			m[f.Key] = f.What
		}
	}
	return m
}

// ---------------------------------------------------------------------------------------------

type result struct {
	viols     []vrec
	stats     []wstats
	harness   []string // problems of the harness itself
	lostEvals int64
}

func parent(p *Prop, tier string, seed int64, evidence, rdir, known string, nw, deadline int64) {
	t0 := time.Now()
	if deadline == 0 {
		deadline = 240
		if tier == "thorough" {
			deadline = 780
		}
	}
	work := os.Getenv("VERIF_SCRATCH")
	self, _ := os.Executable()
	type wres struct {
		r  result
		nt map[uint64]struct{}
	}
	ch := make(chan result, nw)
	ntAll := map[uint64]struct{}{}
	stAll := map[uint64]struct{}{}
	for k := int64(0); k < nw; k++ {
		go func(k int64) {
			var r result
			start := int64(0)
			for restart := 0; ; restart++ {
				left := deadline - int64(time.Since(t0).Seconds())
				if left < 1 {
					left = 1
				}
				of := filepath.Join(work, fmt.Sprintf("out-%d-%d", k, restart))
				sf := filepath.Join(work, fmt.Sprintf("status-%d", k))
				hf := filepath.Join(work, fmt.Sprintf("hang-%d", k))
				os.Remove(hf)
				cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(k), "-nw", fmt.Sprint(nw),
					"-start", fmt.Sprint(start), "-status", sf, "-out", of, "-deadline", fmt.Sprint(left), "-known", known)
				cmd.Env = append(os.Environ(), "VERIF_HANGFILE="+hf)
				var tail tailBuf
				cmd.Stderr = &tail
				err := cmd.Run()
				vs, st, ok := readOut(of)
				r.viols = append(r.viols, vs...)
				if ok {
					r.stats = append(r.stats, st)
				}
				if err == nil && ok {
					break
				}
				s := mmapStatus(sf)
				cur, ev := s[0], s[1]
				if cur < 0 {
					r.harness = append(r.harness, fmt.Sprintf("worker %d: %v outside any case: %s", k, err, tail.String()))
					break
				}
				r.lostEvals += ev
				why := "the process ended: " + fmt.Sprint(err)
				if b, e := os.ReadFile(hf); e == nil {
					why = string(b)
				}
				r.viols = append(r.viols, vrec{Case: cur, Msg: why + "\n" + tail.String(), Shard: k})
				start = cur + 1
				if restart >= 1 || len(r.viols) >= 4 { // hangs are dear: two of them per worker are enough
					break
				}
			}
			ch <- r
		}(k)
	}
	var all result
	for k := int64(0); k < nw; k++ {
		r := <-ch
		all.viols = append(all.viols, r.viols...)
		all.stats = append(all.stats, r.stats...)
		all.harness = append(all.harness, r.harness...)
		all.lostEvals += r.lostEvals
	}
	outs, _ := filepath.Glob(filepath.Join(work, "out-*.nt"))
	for _, o := range outs {
		readHashes(o, ntAll)
		readHashes(strings.TrimSuffix(o, ".nt")+".st", stAll)
	}
	sort.Slice(all.viols, func(i, j int) bool {
		x, y := all.viols[i], all.viols[j]
		if (x.Desc == "") != (y.Desc == "") {
			return y.Desc == "" // hangs and crashes last
		}
		return x.Case < y.Case
	})

	// Confirm.
	knownm := loadKnown(known, p.ID)
	reported, unconfirmed := 0, 0
	knownHit := map[string]bool{}
	for _, v := range all.viols {
		if v.Known {
			knownHit[v.Key] = true
			continue
		}
		if reported >= 3 || v.Desc == "" && reported > 0 {
			break
		}
		how, desc, msg := confirm(self, work, p, tier, seed, known, nw, v)
		if how == "" {
			unconfirmed++
			fmt.Printf("note: case %d did not reproduce and is not reported: %s\n", v.Case, clip(v.Msg, 400))
			continue
		}
		if v.Desc == "" {
			v.Desc = desc
			v.Key = desc
		}
		if _, ok := knownm[v.Key]; ok {
			knownHit[v.Key] = true
			continue
		}
		if msg != "" && v.Msg == "" {
			v.Msg = msg
		}
		os.MkdirAll(rdir, 0755)
		fn := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, v.Case))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "case": v.Case, "shard": v.Shard, "nw": nw, "how": how,
			"section": v.Section, "key": v.Key, "input": v.Desc, "what": v.Msg}, "", " ")
		os.WriteFile(fn, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, fn)
		fmt.Printf("  input: %s\n  what: %s\n", clip(v.Desc, 1500), clip(v.Msg, 2500))
		reported++
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, knownm[k])
	}

	// Evidence.
	var ev, tr, tc, total int64
	trunc := int64(-1)
	outc := map[string]int64{}
	var samples []string
	for _, s := range all.stats {
		ev += s.Evals
		tr += s.Trans
		tc += s.Traces
		if s.Total > total {
			total = s.Total
		}
		if s.TruncatedAt >= 0 && (trunc < 0 || s.TruncatedAt < trunc) {
			trunc = s.TruncatedAt
		}
		for k, v := range s.Outcomes {
			outc[k] += v
		}
	}
	for i := 0; i < 12; i++ {
		for _, s := range all.stats {
			if i < len(s.Samples) && len(samples) < 24 {
				samples = append(samples, s.Samples[i])
			}
		}
	}
	ev += all.lostEvals
	exhaustive := trunc < 0 && len(all.harness) == 0 && all.lostEvals == 0
	cov := map[string]interface{}{"rule": p.Rule, "samples": samples, "exhaustive": exhaustive, "outcomes": outc}
	cov["evaluations"] = ev
	if p.Level == "model_checking" {
		cov["states"] = len(stAll)
		cov["transitions"] = tr
		cov["traces_validated_against_impl"] = tc
	} else {
		cov["distinct_nontrivial"] = len(ntAll)
	}
	if trunc >= 0 {
		cov["truncated_at_case"] = trunc
	}
	doc := map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "wall_s": time.Since(t0).Seconds(),
		"violations": reported, "assumptions": p.Assumptions}
	if evidence != "" {
		b, _ := json.MarshalIndent(doc, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0755)
		if err := os.WriteFile(evidence, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s: %d cases evaluated of %d, nontrivial=%d states=%d transitions=%d exhaustive=%v violations=%d unconfirmed=%d %.1fs\n", p.ID, tier, ev, total, len(ntAll), len(stAll), tr, exhaustive, reported, unconfirmed, time.Since(t0).Seconds())
	for _, k := range sortedKeys(outc) {
		fmt.Printf("   outcome %-40s %d\n", k, outc[k])
	}
	if reported > 0 {
		os.Exit(1)
	}
	if len(all.harness) > 0 {
		for _, h := range all.harness {
			fmt.Println("ERROR:", h)
		}
		os.Exit(2)
	}
	if ev == 0 {
		fmt.Println("ERROR: nothing was evaluated")
		os.Exit(2)
	}
	os.Exit(0)
}

// confirm re-runs a violating case: alone in fresh processes first and then, unless the property
// wants a fresh process, behind the cases that preceded it in its worker.
func confirm(self, work string, p *Prop, tier string, seed int64, known string, nw int64, v vrec) (how, desc, msg string) {
	try := func(args ...string) (bool, string, string) {
		of := filepath.Join(work, "confirm")
		os.Remove(of)
		hf := filepath.Join(work, "hang-confirm")
		os.Remove(hf)
		sf := filepath.Join(work, "status-confirm")
		args = append([]string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-known", known, "-out", of, "-status", sf, "-nw", fmt.Sprint(nw)}, args...)
		cmd := exec.Command(self, args...)
		cmd.Env = append(os.Environ(), "VERIF_HANGFILE="+hf)
		err := cmd.Run()
		vs, _, ok := readOut(of)
		for _, x := range vs {
			if x.Case == v.Case {
				return true, x.Desc, x.Msg
			}
		}
		if err != nil && !ok && mmapStatus(sf)[0] == v.Case {
			return true, "", fmt.Sprint(err)
		}
		return false, "", ""
	}
	hits := 0
	n := 5
	if v.Desc == "" {
		n = 1 // a crash or a hang: each try may take a minute
	}
	for i := 0; i < n; i++ {
		if ok, d, m := try("-only", fmt.Sprint(v.Case)); ok {
			hits++
			if d != "" {
				desc, msg = d, m
			}
		}
	}
	if hits == n {
		if desc == "" && v.Desc == "" {
			desc = describe(self, p, tier, seed, v.Case)
		}
		return fmt.Sprintf("-only %d: %d of %d", v.Case, hits, n), desc, msg
	}
	m2 := 20
	if hits == 0 && v.Desc == "" {
		m2 = 2
	}
	for i := 0; i < m2; i++ {
		if ok, d, m := try("-only", fmt.Sprint(v.Case)); ok {
			hits++
			if d != "" {
				desc, msg = d, m
			}
		}
	}
	if hits > 0 {
		if desc == "" && v.Desc == "" {
			desc = describe(self, p, tier, seed, v.Case)
		}
		return fmt.Sprintf("-only %d: %d of %d", v.Case, hits, n+m2), desc, msg
	}
	if p.Fresh {
		return "", "", ""
	}
	for _, from := range []int64{v.Case - 8*nw, v.Case - 400*nw, 0} {
		if from < 0 {
			from = 0
		}
		if ok, d, m := try("-worker", fmt.Sprint(v.Shard), "-start", fmt.Sprint(from), "-end", fmt.Sprint(v.Case)); ok {
			return fmt.Sprintf("-worker %d -start %d -end %d (depends on the cases before it)", v.Shard, from, v.Case), d, m
		}
	}
	return "", "", ""
}

func describe(self string, p *Prop, tier string, seed int64, i int64) string {
	cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-only", fmt.Sprint(i))
	cmd.Env = append(os.Environ(), "VERIF_DESCRIBE=1")
	b, _ := cmd.Output()
	return string(b)
}

func readOut(fn string) (vs []vrec, st wstats, ok bool) {
	f, err := os.Open(fn)
	if err != nil {
		return
	}
	defer f.Close()
	rd := bufio.NewReader(f)
	for {
		line, err := rd.ReadString('\n')
		if len(line) > 2 && strings.HasSuffix(line, "\n") {
			switch line[0] {
			case 'V':
				var v vrec
				if json.Unmarshal([]byte(line[2:]), &v) == nil {
					vs = append(vs, v)
				}
			case 'S':
				if json.Unmarshal([]byte(line[2:]), &st) == nil {
					ok = true
				}
			}
		}
		if err != nil {
			return
		}
	}
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1500 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return clip(string(t.b), 1500) }

func sortedKeys(m map[string]int64) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
