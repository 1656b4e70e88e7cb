package engine

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Property is a registered check.
type Property struct {
	ID          string
	Scenarios   []*Scenario
	Level       string
	Rule        string
	Assumptions []string
	Setup       func(dir string) error // parent, once; dir is exported as MC_SHARED

	Unprivileged bool // cases run as a user who owns nothing but the scratch directory
}

const nobody = 65534

// drop gives up root's rights; only the directories stay writable.
func drop(dirs ...string) {
	if os.Getuid() != 0 {
		return
	}
	for _, d := range dirs {
		os.Chown(d, nobody, nobody)
		os.Chmod(d, 0o755)
	}
	if err := syscall.Setgroups(nil); err != nil {
		panic("engine: " + err.Error())
	}
	if err := syscall.Setgid(nobody); err != nil {
		panic("engine: " + err.Error())
	}
	if err := syscall.Setuid(nobody); err != nil {
		panic("engine: " + err.Error())
	}
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

// SharedDir is the directory prepared by Setup.
func SharedDir() string { return os.Getenv("MC_SHARED") }

// A worker hangs when it makes no progress for hangSeconds in which it computed for hangCPU seconds
// (on a busy machine the clock alone says little), or for blockedSeconds whatever it did.
const (
	hangSeconds    = 45
	hangCPU        = 25
	blockedSeconds = 150
)

// cpuSeconds is the processor time the process has used.
func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if i < 0 || len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func hangs(pid int, at time.Time, cpu float64) bool {
	d := time.Since(at)
	return d > blockedSeconds*time.Second || d > hangSeconds*time.Second && cpuSeconds(pid)-cpu > hangCPU
}

type violation struct {
	Scenario string    `json:"scenario"`
	Vec      []int     `json:"vec"`
	Trace    string    `json:"trace"`
	Fails    []Failure `json:"fails"`
	Cost     int       `json:"cost"`
	Property string    `json:"property"`
	Case     string    `json:"case,omitempty"`
}

type scenStat struct {
	Name        string   `json:"name"`
	Bound       int      `json:"bound"`
	Cases       int      `json:"cases"`
	Transitions int      `json:"transitions"`
	Comparisons int      `json:"comparisons"`
	Extra       int      `json:"extra"`
	Pruned      int      `json:"pruned"`
	Complete    bool     `json:"complete"`
	Samples     []string `json:"samples"`
}

type workerResult struct {
	Stats      []*scenStat `json:"stats"`
	Violations []violation `json:"violations"`
}

// ---- worker

type status struct{ mem []byte }

func openStatus(path string) *status {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	f.Truncate(65536)
	m, err := syscall.Mmap(int(f.Fd()), 0, 65536, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	return &status{m}
}

// layout: 8 bytes counter, 4 bytes scenario index, 4 bytes vec length, then int16 each
func (s *status) set(counter uint64, scen int, vec []int) {
	binary.LittleEndian.PutUint32(s.mem[8:], uint32(scen))
	binary.LittleEndian.PutUint32(s.mem[12:], uint32(len(vec)))
	for i, v := range vec {
		binary.LittleEndian.PutUint32(s.mem[16+4*i:], uint32(v))
	}
	binary.LittleEndian.PutUint64(s.mem[0:], counter)
}

func (s *status) beat() {
	binary.LittleEndian.PutUint64(s.mem[beatAt:], binary.LittleEndian.Uint64(s.mem[beatAt:])+1)
}

func (s *status) progress() uint64 {
	return binary.LittleEndian.Uint64(s.mem) + binary.LittleEndian.Uint64(s.mem[beatAt:])
}

const beatAt = 65528

func (s *status) get() (counter uint64, scen int, vec []int) {
	counter = binary.LittleEndian.Uint64(s.mem)
	scen = int(binary.LittleEndian.Uint32(s.mem[8:]))
	n := int(binary.LittleEndian.Uint32(s.mem[12:]))
	if n > 16000 {
		n = 0
	}
	for i := 0; i < n; i++ {
		vec = append(vec, int(binary.LittleEndian.Uint32(s.mem[16+4*i:])))
	}
	return
}

func silence() {
	log.SetOutput(io.Discard)
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
}

func describe(v any) string {
	s := fmt.Sprintf("%+v", v)
	if d, ok := v.(interface{ Describe() string }); ok {
		s = d.Describe()
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// limitMemory turns runaway allocation into an ordinary failure of the process.
func limitMemory() {
	l := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

// unlisted tells whether v has a failure that is not a known finding.
func unlisted(v *violation) bool {
	verif := os.Getenv("MC_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	kf := loadKnown(filepath.Join(verif, "known_findings.txt"))
	for _, f := range v.Fails {
		hit := false
		for _, k := range kf {
			hit = hit || k.matches(v, f)
		}
		if !hit {
			return true
		}
	}
	return false
}

func worker(p *Property, tier string, shard, shards int, base string, deadline time.Time) {
	limitMemory()
	silence()
	dir := filepath.Join(base, fmt.Sprintf("w%d", shard))
	os.MkdirAll(dir, 0o755)
	os.Chdir(dir)
	os.Setenv("TMPDIR", dir)
	st := openStatus(filepath.Join(base, fmt.Sprintf("status%d", shard)))
	hf, err := os.Create(filepath.Join(base, fmt.Sprintf("hash%d", shard)))
	if err != nil {
		panic(err)
	}
	hw := bufio.NewWriter(hf)
	if p.Unprivileged {
		drop(base, dir)
	}
	beat = st.beat
	res := &workerResult{}
	var counter uint64
	for si, s := range p.Scenarios {
		bound := s.Quick
		if tier == "thorough" {
			bound = s.Thorough
		}
		if only := os.Getenv("MC_ONLY"); only != "" && only != s.Name { // development aid
			bound = -1
		}
		stat := &scenStat{Name: s.Name, Bound: bound, Complete: true}
		res.Stats = append(res.Stats, stat)
		seen := map[uint64]bool{}
		nv := 0
	scen:
		for b := 0; b <= bound; b++ {
			index := 0
			any := false
			for vec := []int{}; vec != nil; {
				c := Replay(vec)
				v := s.gen(c)
				cost := c.Cost()
				if cost == b {
					any = true
					if index%shards == shard {
						if v == nil {
							stat.Pruned++
						} else {
							counter++
							full := c.Vec()
							st.set(counter, si, full)
							trace := c.Trace()
							t := runCase(s, v, trace, dir)
							stat.Cases++
							stat.Transitions += len(full)
							stat.Comparisons += t.checks
							stat.Extra += t.extra
							if !seen[t.hash] && t.checks > 0 {
								seen[t.hash] = true
								var buf [12]byte
								binary.LittleEndian.PutUint64(buf[:], t.hash)
								binary.LittleEndian.PutUint32(buf[8:], uint32(si))
								hw.Write(buf[:])
							}
							if shard == 0 && (len(stat.Samples) < 1 || (b == bound && len(stat.Samples) < 2)) {
								stat.Samples = append(stat.Samples, trace+" :: "+describe(v))
							}
							if len(t.Fails) > 0 {
								res.Violations = append(res.Violations, violation{Scenario: s.Name, Vec: full, Trace: trace, Fails: t.Fails, Cost: cost, Property: p.ID, Case: describe(v)})
								nv++
								if nv >= 12 {
									stat.Complete = false
									break scen
								}
								// what is left adds nothing to the verdict: look for simpler cases for a while
								if d := time.Now().Add(time.Minute); tier == "quick" && d.Before(deadline) && unlisted(&res.Violations[len(res.Violations)-1]) {
									deadline = d
								}
							}
							if (counter%16 == 0 || len(t.Fails) > 0) && time.Now().After(deadline) {
								stat.Complete = false
								break scen
							}
						}
					}
					index++
				}
				vec = next(c.pts, b)
			}
			if !any && b > 0 {
				break // no path of this cost exists: the space is finished
			}
		}
	}
	hw.Flush()
	hf.Close()
	out, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(base, fmt.Sprintf("result%d", shard)), out, 0o600)
	os.Exit(0)
}

// ---- replay

func scenario(p *Property, name string) *Scenario {
	for _, s := range p.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func replayOne(p *Property, v *violation, dir string) []Failure {
	s := scenario(p, v.Scenario)
	if s == nil {
		return nil
	}
	c := Replay(v.Vec)
	val := s.gen(c)
	if val == nil {
		return nil
	}
	t := runCase(s, val, c.Trace(), dir)
	return t.Fails
}

func replayMain(file string) {
	limitMemory()
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p := registry[v.Property]
	if p == nil {
		fmt.Println("unknown property", v.Property)
		os.Exit(2)
	}
	out := os.Stdout
	if os.Getenv("MC_VERBOSE") == "" {
		silence()
	}
	dir, err := os.MkdirTemp(scratchBase(), "mcreplay")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if p.Setup != nil && os.Getenv("MC_SHARED") == "" {
		sh := filepath.Join(dir, "shared")
		os.MkdirAll(sh, 0o755)
		if err := p.Setup(sh); err != nil {
			fmt.Fprintln(out, err)
			os.Exit(2)
		}
		os.Setenv("MC_SHARED", sh)
	}
	os.Chdir(dir)
	os.Setenv("TMPDIR", dir)
	if sf := os.Getenv("MC_STATUS"); sf != "" {
		beat = openStatus(sf).beat
	}
	if p.Unprivileged {
		drop(dir)
	}
	fails := replayOne(p, &v, dir)
	for _, f := range fails {
		fmt.Fprintf(out, "FAIL %s %s: %s\n", v.Property, f.Key, f.Msg)
	}
	os.RemoveAll(dir)
	if len(fails) > 0 {
		os.Exit(1)
	}
	fmt.Fprintln(out, "held")
	os.Exit(0)
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		f, err := os.MkdirTemp(d, "mcprobe")
		if err == nil {
			os.Remove(f)
			return d
		}
	}
	return ""
}

// ---- known findings

type known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Key      string `json:"key"`
	Trace    string `json:"trace"` // every word must occur in the failing trace
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func loadKnown(path string) (r []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(line), &k) == nil && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

func (k *known) matches(v *violation, f Failure) bool {
	if k.Property != v.Property || k.Scenario != v.Scenario || k.Key != f.Key {
		return false
	}
	words := map[string]bool{}
	for _, w := range strings.Fields(v.Trace) {
		words[w] = true
	}
	for _, w := range strings.Fields(k.Trace) {
		if !words[w] {
			return false
		}
	}
	return true
}

// ---- parent

type wproc struct {
	cmd     *exec.Cmd
	done    chan error
	status  *status
	last    uint64
	lastAt  time.Time
	lastCPU float64
	exited  bool
	hung    bool
	err     error
	errFile string
}

func (w *wproc) stuck() bool {
	if time.Since(w.lastAt) < time.Second {
		return false
	}
	if w.lastCPU <= 0 {
		w.lastCPU = cpuSeconds(w.cmd.Process.Pid)
		return false
	}
	return hangs(w.cmd.Process.Pid, w.lastAt, w.lastCPU)
}

// Main is the command line entry point.
func Main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: mc run ID tier | replay FILE | list | vec ID scenario v,v,v")
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
			for _, s := range registry[id].Scenarios {
				fmt.Printf("  %s\tq=%d\tt=%d\t%s\n", s.Name, s.Quick, s.Thorough, s.What)
			}
		}
	case "count":
		p := registry[args[1]]
		for _, s := range p.Scenarios {
			for b := 0; b <= 4; b++ {
				n, pr := 0, 0
				t0 := time.Now()
				for vec := []int{}; vec != nil && time.Since(t0) < 20*time.Second; {
					c := Replay(vec)
					v := s.gen(c)
					if c.Cost() == b {
						n++
						if v == nil {
							pr++
						}
					}
					vec = next(c.pts, b)
				}
				fmt.Printf("%s bound %d: %d (pruned %d) %v\n", s.Name, b, n, pr, time.Since(t0))
				if time.Since(t0) > 8*time.Second {
					break
				}
			}
		}
	case "worker":
		p := registry[args[1]]
		shard, _ := strconv.Atoi(args[3])
		shards, _ := strconv.Atoi(args[4])
		dl, _ := strconv.ParseInt(args[6], 10, 64)
		worker(p, args[2], shard, shards, args[5], time.Unix(dl, 0))
	case "replay":
		replayMain(args[1])
	case "run":
		p := registry[args[1]]
		if p == nil {
			fmt.Println("unknown property", args[1])
			os.Exit(2)
		}
		os.Exit(run(p, args[2]))
	default:
		os.Exit(2)
	}
}

func run(p *Property, tier string) int {
	start := time.Now()
	verif := os.Getenv("MC_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	base, err := os.MkdirTemp(scratchBase(), "mc-"+p.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(base)
	if p.Setup != nil {
		sh := filepath.Join(base, "shared")
		os.MkdirAll(sh, 0o755)
		if err := p.Setup(sh); err != nil {
			fmt.Println("setup:", err)
			return 2
		}
		os.Setenv("MC_SHARED", sh)
	}
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	deadline := start.Add(limit)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	self, _ := os.Executable()
	procs := make([]*wproc, n)
	for i := range procs {
		w := &wproc{done: make(chan error, 1), lastAt: time.Now()}
		w.status = openStatus(filepath.Join(base, fmt.Sprintf("status%d", i)))
		w.cmd = exec.Command(self, "worker", p.ID, tier, strconv.Itoa(i), strconv.Itoa(n), base, strconv.FormatInt(deadline.Unix(), 10))
		w.errFile = filepath.Join(base, fmt.Sprintf("stderr%d", i))
		ef, _ := os.Create(w.errFile)
		w.cmd.Stderr = ef
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3000MiB")
		if err := w.cmd.Start(); err != nil {
			fmt.Println(err)
			return 2
		}
		go func() { w.done <- w.cmd.Wait() }()
		procs[i] = w
	}
	left := n
	died := false
	for left > 0 {
		time.Sleep(20 * time.Millisecond)
		for _, w := range procs {
			if w.exited {
				continue
			}
			select {
			case w.err = <-w.done:
				w.exited = true
				left--
				if w.err != nil && !died {
					died = true // one is enough: let the others stop soon
					for _, o := range procs {
						if !o.exited && o != w {
							oo := o
							time.AfterFunc(20*time.Second, func() { oo.cmd.Process.Kill() })
						}
					}
				}
				continue
			default:
			}
			if cnt := w.status.progress(); cnt != w.last {
				w.last, w.lastAt, w.lastCPU = cnt, time.Now(), -1
			} else if w.last > 0 && w.stuck() {
				w.hung = true
				w.cmd.Process.Kill()
			}
		}
	}
	hashes := map[[12]byte]bool{}
	var viols []violation
	merged := map[string]*scenStat{}
	var order []string
	internal := ""
	confirmed := map[string]bool{}
	for i, w := range procs {
		if b, err := os.ReadFile(filepath.Join(base, fmt.Sprintf("hash%d", i))); err == nil {
			for len(b) >= 12 {
				var k [12]byte
				copy(k[:], b)
				hashes[k] = true
				b = b[12:]
			}
		}
		if w.err != nil {
			cnt, si, vec := w.status.get()
			eb, _ := os.ReadFile(w.errFile)
			msg := string(eb)
			if len(msg) > 1500 {
				msg = msg[:1500]
			}
			killedByUs := strings.Contains(w.err.Error(), "killed") && !w.hung
			if killedByUs {
				continue
			}
			if cnt == 0 || si >= len(p.Scenarios) {
				internal = "worker failed before any case: " + w.err.Error() + "\n" + msg
				continue
			}
			key, what := "process-exit", fmt.Sprintf("the process ended (%v): %s", w.err, msg)
			if w.hung {
				key, what = "hang", fmt.Sprintf("no progress for %d s", hangSeconds)
			}
			c := Replay(vec)
			var cs string
			func() {
				defer func() { recover() }()
				cs = describe(p.Scenarios[si].gen(c))
			}()
			v := violation{Scenario: p.Scenarios[si].Name, Vec: vec, Trace: c.Trace(), Cost: c.Cost(), Property: p.ID, Case: cs,
				Fails: []Failure{{key, what}}}
			if confirmed[key] {
				continue // one confirmed case of a kind is enough
			}
			if confirmDeath(self, base, &v) {
				confirmed[key] = true
				viols = append(viols, v)
			} else {
				internal = "worker ended without a reproducible case: " + what
			}
			continue
		}
		var r workerResult
		b, err := os.ReadFile(filepath.Join(base, fmt.Sprintf("result%d", i)))
		if err != nil || json.Unmarshal(b, &r) != nil {
			internal = "worker result missing"
			continue
		}
		viols = append(viols, r.Violations...)
		for _, s := range r.Stats {
			m := merged[s.Name]
			if m == nil {
				m = &scenStat{Name: s.Name, Bound: s.Bound, Complete: true}
				merged[s.Name] = m
				order = append(order, s.Name)
			}
			m.Cases += s.Cases
			m.Transitions += s.Transitions
			m.Comparisons += s.Comparisons
			m.Extra += s.Extra
			m.Pruned += s.Pruned
			m.Complete = m.Complete && s.Complete
			m.Samples = append(m.Samples, s.Samples...)
		}
	}
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Cost != viols[j].Cost {
			return viols[i].Cost < viols[j].Cost
		}
		return len(viols[i].Trace) < len(viols[j].Trace)
	})
	kf := loadKnown(filepath.Join(verif, "known_findings.txt"))
	printed := map[string]bool{}
	var fresh []violation
	for _, v := range viols {
		var rest []Failure
		for _, f := range v.Fails {
			hit := false
			for _, k := range kf {
				if k.matches(&v, f) {
					hit = true
					if !printed[k.What] {
						printed[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
					}
				}
			}
			if !hit {
				rest = append(rest, f)
			}
		}
		if len(rest) > 0 {
			v.Fails = rest
			fresh = append(fresh, v)
		}
	}

	cases, trans, comps, extra := 0, 0, 0, 0
	exhaustive := internal == "" && !died
	samples := []any{}
	for _, name := range order {
		m := merged[name]
		cases += m.Cases
		trans += m.Transitions
		comps += m.Comparisons
		extra += m.Extra
		exhaustive = exhaustive && m.Complete
		for _, s := range m.Samples {
			samples = append(samples, name+": "+s)
		}
		m.Samples = nil
	}
	var scens []*scenStat
	for _, name := range order {
		scens = append(scens, merged[name])
	}
	cov := map[string]any{
		"exhaustive": exhaustive,
		"rule":       p.Rule,
		"samples":    samples,
		"scenarios":  scens,
	}
	what := map[string]string{}
	for _, s := range p.Scenarios {
		what[s.Name] = s.What
	}
	cov["spaces"] = what
	cov["comparisons_with_reference"] = comps
	switch p.Level {
	case "model_checking":
		cov["states"] = len(hashes)
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = cases
		cov["implementation_executions"] = cases + extra
	default:
		cov["evaluations"] = cases + extra
		cov["distinct_nontrivial"] = len(hashes)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, m := range scens {
		fmt.Printf("%s %s: bound=%d cases=%d comparisons=%d pruned=%d complete=%v\n", p.ID, m.Name, m.Bound, m.Cases, m.Comparisons, m.Pruned, m.Complete)
	}
	if len(fresh) > 0 {
		rd := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(rd, 0o755)
		shown := map[string]bool{}
		for i, v := range fresh {
			k := v.Scenario + "/" + v.Fails[0].Key
			if shown[k] || len(shown) >= 12 {
				continue
			}
			shown[k] = true
			rp := filepath.Join(rd, fmt.Sprintf("%s-%d.json", p.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(rp, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
			fmt.Printf("  scenario %s: %s\n  case: %s\n", v.Scenario, v.Trace, v.Case)
			for _, f := range v.Fails {
				fmt.Printf("  [%s] %s\n", f.Key, f.Msg)
			}
		}
		return 1
	}
	if internal != "" {
		fmt.Println("ERROR:", internal)
		return 2
	}
	fmt.Printf("%s %s: held on %d cases (%d distinct states, %d comparisons), exhaustive=%v, %.1fs\n", p.ID, tier, cases, len(hashes), comps, exhaustive, time.Since(start).Seconds())
	return 0
}

// confirmDeath re-runs the case alone: it must end the process again.
func confirmDeath(self, base string, v *violation) bool {
	f := filepath.Join(base, "confirm.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0o600)
	for try := 0; try < 3; try++ {
		cmd := exec.Command(self, "replay", f)
		sf := filepath.Join(base, fmt.Sprintf("confirm-status%d", try))
		st := openStatus(sf)
		cmd.Env = append(os.Environ(), "MC_STATUS="+sf, "GOMAXPROCS=2", "GOMEMLIMIT=3000MiB")
		out := &strings.Builder{}
		cmd.Stdout = out
		cmd.Stderr = out
		if cmd.Start() != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		last, at, cpu := uint64(0), time.Now(), cpuSeconds(cmd.Process.Pid)
	wait:
		for {
			select {
			case err := <-done:
				if err != nil && !strings.Contains(err.Error(), "killed") {
					return true
				}
				break wait
			case <-time.After(200 * time.Millisecond):
				if n := st.progress(); n != last {
					last, at, cpu = n, time.Now(), cpuSeconds(cmd.Process.Pid)
				} else if hangs(cmd.Process.Pid, at, cpu) {
					cmd.Process.Kill()
					<-done
					if v.Fails[0].Key == "hang" {
						return true
					}
					break wait
				}
			}
		}
	}
	return false
}
