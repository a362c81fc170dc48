package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Merged is the union of all workers' observations.
type Merged struct {
	Cases      int64
	Nontrivial int64
	Counters   map[string]int64
	Sets       map[string]map[uint64]struct{}
	Acc        map[string][]int64
	Samples    []string
}

func (m *Merged) add(s *Stats) {
	m.Cases += s.Cases
	m.Nontrivial += s.Nontrivial
	for k, v := range s.Counters {
		m.Counters[k] += v
	}
	for k, l := range s.Sets {
		if m.Sets[k] == nil {
			m.Sets[k] = map[uint64]struct{}{}
		}
		for _, h := range l {
			m.Sets[k][h] = struct{}{}
		}
	}
	for k, l := range s.Acc {
		if m.Acc[k] == nil {
			m.Acc[k] = make([]int64, len(l))
		}
		for i, v := range l {
			m.Acc[k][i] += v
		}
	}
	m.Samples = append(m.Samples, s.Samples...)
}

// ---- worker ----

// The builds of the monitors: plain, with the race detector, with pauses
// in the library's concurrent functions (see perturb.go), and for a 32-bit
// platform.
const (
	plainBuild = iota
	raceBuild
	delayBuild
	narrowBuild
)

var buildNames = []string{"plain", "race", "delay", "32-bit"}

// protoOut is where a worker reports to its supervisor.
var protoOut = os.Stdout

// worker <prop> <seed> <tier> <build> <start> <step> <end> [finding]
func workerMain(a []string) {
	p := props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	tier := a[2]
	build, _ := strconv.Atoi(a[3])
	start, _ := strconv.Atoi(a[4])
	step, _ := strconv.Atoi(a[5])
	end, _ := strconv.Atoi(a[6])
	if build != raceBuild {
		// A runaway allocation must end this process, not the sandbox.
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(200)
	if p.Quiet {
		beQuiet()
	}
	st := newStats()
	emit := func(tag string, v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			fatal("%v", err)
		}
		protoOut.Write([]byte(tag + " " + string(b) + "\n"))
	}
	if len(a) > 7 {
		for _, f := range p.Findings {
			if f.ID == a[7] {
				protoOut.Write([]byte("C 0\n"))
				if v := runCase(p, seed, tier, build, 0, st, f.Probe); v != nil {
					v.Finding = f.ID
					emit("V", v)
				}
			}
		}
	} else {
		for i := start; i < end; i += step {
			protoOut.Write([]byte("C " + strconv.Itoa(i) + "\n"))
			if v := runCase(p, seed, tier, build, i, st, p.Run); v != nil {
				emit("V", v)
				break
			}
		}
	}
	st.seal()
	emit("S", st)
}

// ---- supervisor ----

type supervisor struct {
	p        *Prop
	seed     uint64
	tier     string
	exes     [4]string // by build
	mu       sync.Mutex
	viol     []*Violation
	inconcl  []string
	merged   *Merged
	stop     chan struct{}
	stopOnce sync.Once
}

const (
	cpuLimit  = 40.0 // CPU seconds one case may use (cases take milliseconds)
	wallLimit = 240  // seconds without progress and without CPU: inconclusive
	rssLimit  = 3 << 30
)

func procCPU(pid int) (cpu float64, rss int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0, false
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	r, _ := strconv.ParseInt(f[21], 10, 64)
	return (u + k) / 100, r * int64(os.Getpagesize()), true
}

type tailBuf struct {
	mu   sync.Mutex
	head bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if t.head.Len() < 1<<16 {
		t.head.Write(p)
	}
	t.mu.Unlock()
	return len(p), nil
}

type shardResult struct {
	viol    *Violation
	inconcl string
	done    bool
}

// runShard runs one worker process to its end.
func (s *supervisor) runShard(build int, start, step, end int, finding string) shardResult {
	args := []string{"worker", s.p.ID, fmt.Sprint(s.seed), s.tier, fmt.Sprint(build), fmt.Sprint(start), fmt.Sprint(step), fmt.Sprint(end)}
	if finding != "" {
		args = append(args, finding)
	}
	cmd := exec.Command(s.exes[build], args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
	if build != raceBuild {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return shardResult{inconcl: err.Error()}
	}
	errb := &tailBuf{}
	cmd.Stderr = errb
	if err := cmd.Start(); err != nil {
		return shardResult{inconcl: err.Error()}
	}
	var mu sync.Mutex
	cur, cases := -1, 0
	var curCPU float64
	lastMove := time.Now()
	var viol *Violation
	gotStats := false
	kill := ""
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		lastCase, idleCPU := -2, 0.0
		for {
			select {
			case <-quit:
				return
			case <-s.stop:
				mu.Lock()
				if kill == "" {
					kill = "stopped"
				}
				mu.Unlock()
				cmd.Process.Kill()
				return
			case <-t.C:
			}
			cpu, rss, ok := procCPU(cmd.Process.Pid)
			if !ok {
				continue
			}
			mu.Lock()
			n := cases
			if n != lastCase {
				lastCase, curCPU, lastMove, idleCPU = n, cpu, time.Now(), cpu
			}
			spent := cpu - curCPU
			idle := time.Since(lastMove).Seconds()
			_ = idleCPU
			switch {
			case spent > cpuLimit*raceFactor(build):
				kill = "cpu"
			case rss > rssLimit:
				kill = "memory"
			case idle > wallLimit*raceFactor(build):
				kill = "stalled"
			}
			k := kill
			mu.Unlock()
			if k != "" {
				cmd.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := sc.ReadString('\n')
		if len(line) > 2 && err == nil {
			body := strings.TrimSpace(line[2:])
			switch line[0] {
			case 'C':
				n, _ := strconv.Atoi(body)
				mu.Lock()
				cur = n
				cases++
				mu.Unlock()
			case 'V':
				v := &Violation{}
				if json.Unmarshal([]byte(body), v) == nil {
					viol = v
				}
			case 'S':
				st := &Stats{}
				if json.Unmarshal([]byte(body), st) == nil {
					gotStats = true
					s.mu.Lock()
					s.merged.add(st)
					s.mu.Unlock()
				}
			}
		}
		if err != nil {
			if err != io.EOF {
				break
			}
			break
		}
	}
	werr := cmd.Wait()
	close(quit)
	wg.Wait()
	mu.Lock()
	k := kill
	mu.Unlock()
	if viol != nil {
		if viol.Kind == "harness-panic" {
			return shardResult{inconcl: "monitor failed on case " + fmt.Sprint(viol.Idx) + ": " + viol.Message + "\n" + viol.Stack}
		}
		return shardResult{viol: viol}
	}
	if k == "stopped" {
		return shardResult{done: false}
	}
	if gotStats && werr == nil {
		return shardResult{done: true}
	}
	stderr := errb.head.String()
	v := &Violation{Prop: s.p.ID, Seed: s.seed, Tier: s.tier, Idx: cur, Build: buildNames[build], Finding: finding}
	v.Stack = stderr
	if len(v.Stack) > 12000 {
		v.Stack = v.Stack[:12000]
	}
	switch {
	case k == "cpu":
		v.Kind, v.Message = "livelock", fmt.Sprintf("case used more than %.0f s of CPU without finishing (such a case takes milliseconds)", cpuLimit*raceFactor(build))
	case k == "memory":
		v.Kind, v.Message = "memory", "resident memory grew beyond 3 GiB in one case"
	case k == "stalled":
		return shardResult{inconcl: fmt.Sprintf("worker stalled on case %d (%s build)", cur, buildNames[build])}
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		v.Kind, v.Message = "race", "data race: "+raceSummary(stderr)
	case strings.Contains(stderr, "all goroutines are asleep"):
		v.Kind, v.Message = "deadlock", "all goroutines are asleep - deadlock"
	case strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate memory"):
		v.Kind, v.Message = "memory", "runaway allocation (address space limit reached)"
	case strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "unexpected fault"):
		v.Kind, v.Message = "crash", firstLineWith(stderr, "panic:", "fatal error:", "unexpected fault")
		if !strings.Contains(stderr, "32bitkid/mpeg") {
			return shardResult{inconcl: fmt.Sprintf("worker crashed outside the library on case %d: %s", cur, stderr[:min(len(stderr), 1500)])}
		}
	default:
		return shardResult{inconcl: fmt.Sprintf("worker ended unexpectedly on case %d: %v %s", cur, werr, stderr[:min(len(stderr), 1500)])}
	}
	return shardResult{viol: v}
}

func raceFactor(build int) float64 {
	if build != plainBuild {
		return 3
	}
	return 1
}

func firstLineWith(s string, subs ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, x := range subs {
			if strings.Contains(l, x) {
				return l
			}
		}
	}
	return ""
}

func raceSummary(s string) string {
	var fn []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "  ") && strings.Contains(l, "()") {
			fn = append(fn, strings.TrimSpace(l))
		}
		if len(fn) >= 2 {
			break
		}
	}
	return strings.Join(fn, " / ")
}

// phase runs n cases from the given one on.
func (s *supervisor) phase(build, from, n int) {
	if n == 0 || len(s.viol) > 0 {
		return
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil { // development only
		workers = v
	}
	if build == raceBuild && workers > 4 {
		workers = 4
	}
	if n < workers {
		workers = n
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := s.runShard(build, from+w, workers, from+n, "")
			if r.viol != nil && r.viol.Kind == "livelock" {
				// confirm alone
				saved := s.stop
				_ = saved
				r2 := s.runShard(build, r.viol.Idx, 1, r.viol.Idx+1, "")
				if r2.viol == nil {
					r = shardResult{inconcl: fmt.Sprintf("case %d exceeded its CPU budget once but not when repeated", r.viol.Idx)}
				}
			}
			s.mu.Lock()
			if r.viol != nil {
				s.viol = append(s.viol, r.viol)
			}
			if r.inconcl != "" {
				s.inconcl = append(s.inconcl, r.inconcl)
			}
			s.mu.Unlock()
			if r.viol != nil {
				s.stopOnce.Do(func() { close(s.stop) })
			}
		}(w)
	}
	wg.Wait()
}

type knownEntry struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Desc     string `json:"what_fails"`
}

func loadKnown(dir string) map[string]knownEntry {
	m := map[string]knownEntry{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=V05 id=field-motion <what fails>
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 {
			continue
		}
		e := knownEntry{Property: strings.TrimPrefix(f[1], "property="), ID: strings.TrimPrefix(f[2], "id="), Desc: strings.Join(f[3:], " ")}
		m[e.Property+"/"+e.ID] = e
	}
	return m
}

func runMain(prop string, raceExe, delayExe, narrowExe string) int {
	p := props[prop]
	if p == nil {
		fatal("unknown property %q", prop)
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	t0 := time.Now()
	s := &supervisor{p: p, seed: seed, tier: tier, exes: [4]string{exe, raceExe, delayExe, narrowExe}, stop: make(chan struct{}),
		merged: &Merged{Counters: map[string]int64{}, Sets: map[string]map[uint64]struct{}{}, Acc: map[string][]int64{}}}
	n, rn, dn, nn := p.Quick, p.RaceQuick, p.DelayQuick, p.NarrowQuick
	if tier == "thorough" {
		n, rn, dn, nn = p.Thorough, p.RaceThor, p.DelayThor, p.NarrowThor
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil { // development only
		n = v
		rn, dn, nn = min(rn, v), min(dn, v), min(nn, v)
	}
	reduced := os.Getenv("VERIF_CASES") != ""
	if v, err := strconv.Atoi(os.Getenv("VERIF_PERCENT")); err == nil { // development only
		n, rn, dn, nn = max(n*v/100, 1), rn*v/100, dn*v/100, nn*v/100
		reduced = true
	}
	known := loadKnown(dir)
	var knownHit []string
	for _, f := range p.Findings {
		r := s.runShard(plainBuild, 0, 1, 1, f.ID)
		if r.inconcl != "" {
			s.inconcl = append(s.inconcl, r.inconcl)
			continue
		}
		if r.viol != nil {
			if _, ok := known[p.ID+"/"+f.ID]; ok {
				knownHit = append(knownHit, f.ID)
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, f.ID, f.Desc)
			} else {
				s.viol = append(s.viol, r.viol)
			}
		}
	}
	s.phase(plainBuild, 0, n)
	if raceExe == "" && rn > 0 {
		s.inconcl = append(s.inconcl, "no race build given")
	} else {
		s.phase(raceBuild, 0, rn)
	}
	if delayExe != "" {
		s.phase(delayBuild, n, dn)
	}
	if narrowExe != "" {
		s.phase(narrowBuild, 0, nn)
	} else if nn > 0 && os.Getenv("VERIF_NO32") != "" {
		reduced = true
	} else if nn > 0 {
		s.inconcl = append(s.inconcl, "no 32-bit build given")
	}
	m := s.merged
	post := ""
	if len(s.viol) == 0 && len(s.inconcl) == 0 && p.Post != nil {
		if post = p.Post(m); post != "" {
			s.viol = append(s.viol, &Violation{Prop: p.ID, Seed: seed, Tier: tier, Idx: -1, Kind: "aggregate", Message: post})
		}
	}
	if len(s.viol) == 0 {
		for k, min := range p.Min {
			got := m.Counters[k]
			if set, ok := m.Sets[k]; ok {
				got = int64(len(set))
			}
			if got < min && !reduced {
				s.inconcl = append(s.inconcl, fmt.Sprintf("observed too little: %s = %d, need %d", k, got, min))
			}
		}
	}
	sort.Slice(s.viol, func(i, j int) bool { return s.viol[i].Idx < s.viol[j].Idx })
	wall := time.Since(t0).Seconds()
	// evidence
	cov := map[string]interface{}{
		"evaluations":         m.Cases,
		"distinct_nontrivial": len(m.Sets["distinct_nontrivial"]),
		"rule":                p.Rule,
		"samples":             m.Samples[:min(len(m.Samples), 6)],
	}
	obs := map[string]int64{}
	for k, v := range m.Counters {
		obs[k] = v
	}
	for k, v := range m.Sets {
		if k != "distinct_nontrivial" {
			obs["distinct_"+k] = int64(len(v))
		}
	}
	cov["observed"] = obs
	cov["known_findings_present"] = knownHit
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": len(s.viol),
		"assumptions": p.Assume,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if len(s.viol) > 0 {
		v := s.viol[0]
		rd := filepath.Join(dir, ".replay")
		os.MkdirAll(rd, 0o755)
		rf := filepath.Join(rd, fmt.Sprintf("%s-seed%d-%s-case%d.json", p.ID, seed, tier, v.Idx))
		v.Replay = "cd " + dir + " && ./check replay " + rf
		jb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rf, append(jb, '\n'), 0o644)
		fmt.Printf("%s: %s on case %d: %s\n", p.ID, v.Kind, v.Idx, v.Message)
		for _, n := range v.Notes {
			fmt.Println("  ", n)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rf)
		return 1
	}
	if len(s.inconcl) > 0 {
		fmt.Printf("%s: INCONCLUSIVE: %s\n", p.ID, strings.Join(s.inconcl, "; "))
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1f s; observed %s\n", p.ID, m.Cases, len(m.Sets["distinct_nontrivial"]), wall, obsLine(obs))
	return 0
}

func obsLine(o map[string]int64) string {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, o[k])
	}
	return b.String()
}

func replayMain(file, raceExe, delayExe, narrowExe string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	v := &Violation{}
	if err := json.Unmarshal(b, v); err != nil {
		fatal("%v", err)
	}
	exe, _ := os.Executable()
	s := &supervisor{p: props[v.Prop], seed: v.Seed, tier: v.Tier, exes: [4]string{exe, raceExe, delayExe, narrowExe}, stop: make(chan struct{}),
		merged: &Merged{Counters: map[string]int64{}, Sets: map[string]map[uint64]struct{}{}, Acc: map[string][]int64{}}}
	if v.Idx < 0 {
		fmt.Println("aggregate verdict: rerun the check itself")
		return 2
	}
	rep, build := 1, plainBuild
	for i, n := range buildNames {
		if n == v.Build {
			build = i
		}
	}
	if build != plainBuild {
		rep = 20
	}
	if s.exes[build] == "" {
		fmt.Println("inconclusive: no " + v.Build + " build")
		return 2
	}
	for i := 0; i < rep; i++ {
		r := s.runShard(build, v.Idx, 1, v.Idx+1, v.Finding)
		if r.viol != nil {
			fmt.Printf("reproduced: %s: %s\n%s\n", r.viol.Kind, r.viol.Message, r.viol.Stack)
			for _, n := range r.viol.Notes {
				fmt.Println("  ", n)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, file)
			return 1
		}
		if r.inconcl != "" {
			fmt.Println("inconclusive:", r.inconcl)
			return 2
		}
	}
	fmt.Println("not reproduced")
	return 0
}
