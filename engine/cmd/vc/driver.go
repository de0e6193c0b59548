package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine/eng"
)

const (
	module = "github.com/indigo-web/indigo"
)

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// ---------- specification files ----------

type Harness struct {
	Pkg      string              `json:"pkg"` // relative to the module
	Fn       string              `json:"fn"`
	Quick    []map[string]string `json:"quick"`
	Thorough []map[string]string `json:"thorough"`
	Reach    []string            `json:"reach"`
	NoMerge  bool                `json:"no_merge"`
	Preempt  *int                `json:"preempt"`
	One      bool                `json:"one_schedule"`
	MaxSteps int                 `json:"max_steps"`
	NoReplay bool                `json:"no_replay"`
	Race     bool                `json:"race"`
	Sched    []string            `json:"sched"` // packages whose synchronisation is scheduled in replays
	Bound    string              `json:"bound"`
}

type Spec struct {
	ID          string    `json:"id"`
	Harnesses   []Harness `json:"harnesses"`
	Assumptions []string  `json:"assumptions"`
	Outside     []string  `json:"outside"`
	QuickS      int       `json:"quick_s"`
	ThoroughS   int       `json:"thorough_s"`
}

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // substring of the violation message
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

// expand turns {"n":"0..3","k":"a|b"} into all combinations.
func expand(ps []map[string]string) []map[string]string {
	var out []map[string]string
	for _, p := range ps {
		keys := make([]string, 0, len(p))
		for k := range p {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		cur := []map[string]string{{}}
		for _, k := range keys {
			var vals []string
			for _, part := range strings.Split(p[k], "|") {
				if lo, hi, ok := strings.Cut(part, ".."); ok {
					a, e1 := strconv.Atoi(lo)
					b, e2 := strconv.Atoi(hi)
					if e1 == nil && e2 == nil {
						for i := a; i <= b; i++ {
							vals = append(vals, strconv.Itoa(i))
						}
						continue
					}
				}
				vals = append(vals, part)
			}
			var next []map[string]string
			for _, c := range cur {
				for _, v := range vals {
					n := map[string]string{k: v}
					for a, b := range c {
						n[a] = b
					}
					next = append(next, n)
				}
			}
			cur = next
		}
		out = append(out, cur...)
	}
	if len(out) == 0 {
		out = []map[string]string{{}}
	}
	return out
}

// ---------- build environment ----------

type buildEnv struct {
	tmp     string
	modfile string
	overlay map[string]string // real path in repo -> file
}

func goEnv() []string {
	e := []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1"}
	if os.Getenv("HOME") == "" {
		e = append(e, "HOME=/root")
	}
	return e
}

func newBuildEnv() (*buildEnv, error) {
	tmp, err := os.MkdirTemp("", "vc")
	if err != nil {
		return nil, err
	}
	b := &buildEnv{tmp: tmp, overlay: map[string]string{}}
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return b, err
	}
	s := string(mod) + "\nreplace github.com/indigo-web/utils => " + verifDir + "/stubs/utils\nreplace github.com/indigo-web/chunkedbody => " + verifDir + "/stubs/chunkedbody\n"
	b.modfile = filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(b.modfile, []byte(s), 0o644); err != nil {
		return b, err
	}
	sum, _ := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644); err != nil {
		return b, err
	}
	tree := filepath.Join(verifDir, "harness", "tree")
	err = filepath.WalkDir(tree, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(tree, p)
		b.overlay[filepath.Join(repoDir, rel)] = p
		return nil
	})
	if err != nil {
		return b, err
	}
	if err := b.redirect(true, "os", "zzos", "http", "router"); err != nil {
		return b, err
	}
	if err := b.redirect(true, "github.com/json-iterator/go", "zzjson", "http"); err != nil {
		return nil, err
	}
	// the application itself: nothing of it may reach the network, the files or the clock of the system
	for _, r := range [][2]string{{"net", "zznet"}, {"os", "zzfs"}, {"log", "zzlog"}, {"crypto/tls", "zztls"}, {"crypto/rsa", "zzrsa"},
		{"crypto/x509", "zzx509"}, {"golang.org/x/crypto/acme/autocert", "zzautocert"}} {
		if err := b.redirect(false, r[0], r[1], ""); err != nil {
			return b, err
		}
	}
	return b, nil
}

func (b *buildEnv) close() { os.RemoveAll(b.tmp) }

func (b *buildEnv) contents() map[string][]byte {
	out := map[string][]byte{}
	for k, v := range b.overlay {
		if c, err := os.ReadFile(v); err == nil {
			out[k] = c
		}
	}
	return out
}

// buildReplay compiles a native runner of the given harnesses from /repo's current source.
func (b *buildEnv) buildReplay(hs []Harness, race bool) (string, error) {
	pk := map[string]bool{}
	for _, h := range hs {
		pk[h.Pkg] = true
	}
	var src strings.Builder
	src.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"" + module + "/internal/zzsym\"\n")
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	alias := map[string]string{}
	for i, p := range pkgs {
		alias[p] = fmt.Sprintf("h%d", i)
		fmt.Fprintf(&src, "\th%d \"%s/%s\"\n", i, module, p)
	}
	src.WriteString(")\n\nfunc main() {\n\tzzsym.Load(os.Args[2])\n\tswitch os.Args[1] {\n")
	seen := map[string]bool{}
	for _, h := range hs {
		k := h.Pkg + "." + h.Fn
		if seen[k] {
			continue
		}
		seen[k] = true
		fmt.Fprintf(&src, "\tcase %q:\n\t\t%s.%s()\n", k, alias[h.Pkg], h.Fn)
	}
	src.WriteString("\tdefault:\n\t\tpanic(\"unknown harness\")\n\t}\n\tprintln(\"ZZDONE\")\n}\n")
	mainFile := filepath.Join(b.tmp, "replay_main.go")
	if err := os.WriteFile(mainFile, []byte(src.String()), 0o644); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, v := range b.overlay {
		ov[k] = v
	}
	ov[filepath.Join(repoDir, "zzreplay", "main.go")] = mainFile
	done := map[string]bool{}
	for _, h := range hs {
		if len(h.Sched) == 0 {
			continue
		}
		for _, p := range append([]string{h.Pkg}, h.Sched...) {
			if done[p] {
				continue
			}
			done[p] = true
			m, err := b.schedRewrite(p)
			if err != nil {
				return "", err
			}
			for k, v := range m {
				ov[k] = v
			}
		}
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovFile := filepath.Join(b.tmp, "overlay.json")
	if err := os.WriteFile(ovFile, oj, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(b.tmp, "replay")
	args := []string{"build", "-overlay", ovFile, "-modfile", b.modfile, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), goEnv()...)
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

type nativeRes struct {
	kind string // ok, fail, assume, panic, timeout, error
	msg  string
	obs  []eng.ObsOut
}

func (b *buildEnv) runNative(bin, name string, model map[string]uint64, params map[string]string, seq int) nativeRes {
	f := filepath.Join(b.tmp, fmt.Sprintf("in%d.json", seq))
	j, _ := json.Marshal(map[string]interface{}{"model": model, "params": params})
	if err := os.WriteFile(f, j, 0o644); err != nil {
		return nativeRes{kind: "error", msg: err.Error()}
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, name, f)
	cmd.Dir = b.tmp
	// a bounded address space keeps a runaway allocation from taking the sandbox down
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=1GiB", "GOTRACEBACK=single", "HOME="+b.tmp, "XDG_CACHE_HOME="+b.tmp)
	out, err := cmd.CombinedOutput()
	res := nativeRes{kind: "ok"}
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "ZZOBS ") {
			p := strings.SplitN(l, " ", 3)
			if len(p) == 3 {
				res.obs = append(res.obs, eng.ObsOut{Label: p[1], Val: p[2]})
			}
		}
		if strings.HasPrefix(l, "ZZFAIL ") {
			res.msg = l[7:]
		}
	}
	if ctx.Err() != nil {
		res.kind = "timeout"
		res.msg = "no termination within 10 s"
		return res
	}
	if err == nil {
		return res
	}
	code := cmd.ProcessState.ExitCode()
	switch code {
	case 42:
		res.kind = "fail"
	case 43:
		res.kind = "assume"
	default:
		res.kind = "panic"
		t := string(out)
		if i := strings.Index(t, "WARNING: DATA RACE"); i >= 0 {
			res.kind = "race"
			t = t[i:]
		} else if i := strings.Index(t, "panic:"); i >= 0 {
			t = t[i:]
		} else if i := strings.Index(t, "fatal error:"); i >= 0 {
			t = t[i:]
		}
		if len(t) > 600 {
			t = t[:600]
		}
		res.msg = t
	}
	return res
}

// ---------- shards ----------

type shard struct {
	h      *Harness
	params map[string]string
	e      *eng.Engine
	wall   float64
	err    string
}

func (s *shard) name() string { return s.h.Pkg + "." + s.h.Fn }

func loadSpec(id string) (*Spec, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks", id+".json"))
	if err != nil {
		return nil, err
	}
	sp := &Spec{}
	if err := json.Unmarshal(b, sp); err != nil {
		return nil, fmt.Errorf("%s: %v", id, err)
	}
	return sp, nil
}

func patterns(hs []Harness) []string {
	m := map[string]bool{}
	for _, h := range hs {
		m["./"+h.Pkg] = true
	}
	m["./internal/zzsym"] = true
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func check(id string) int {
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	spec, err := loadSpec(id)
	if err != nil {
		fmt.Println("cannot read the specification:", err)
		return 2
	}
	ev := newEvidence(spec, tier, seed)
	defer func() { ev.write(time.Since(t0)) }()
	b, err := newBuildEnv()
	if b != nil {
		defer b.close()
	}
	if err != nil {
		ev.note("build environment: " + err.Error())
		fmt.Println("no verdict:", err)
		return 2
	}
	// native runner, in parallel with the exploration
	type br struct {
		bin string
		err error
	}
	bc := make(chan br, 1)
	go func() {
		race := false
		for _, h := range spec.Harnesses {
			race = race || h.Race
		}
		bin, err := b.buildReplay(spec.Harnesses, race)
		bc <- br{bin, err}
	}()
	prog, err := eng.LoadProgram(repoDir, b.modfile, b.contents(), patterns(spec.Harnesses), goEnv())
	if err != nil {
		<-bc
		ev.note("load: " + err.Error())
		fmt.Println("no verdict: the harness does not load:", err)
		return 2
	}
	budget := spec.QuickS
	if budget == 0 {
		budget = 240
	}
	if tier == "thorough" {
		budget = spec.ThoroughS
		if budget == 0 {
			budget = 1800
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	var shards []*shard
	for i := range spec.Harnesses {
		h := &spec.Harnesses[i]
		ps := h.Quick
		if tier == "thorough" && len(h.Thorough) > 0 {
			ps = h.Thorough
		}
		for _, p := range expand(ps) {
			shards = append(shards, &shard{h: h, params: p})
		}
	}
	known := false
	for _, k := range loadFindings() {
		known = known || k.Property == spec.ID && k.Status == "known"
	}
	if !known {
		// further paths of a shard that fails already add little; with known findings, they may
		// still lead to a different violation
		graceAfterViolation = 20 * time.Second
	}
	go watchMemory()
	var wg sync.WaitGroup
	ch := make(chan *shard)
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range ch {
				runShard(prog, s, deadline, false)
			}
		}()
	}
	for _, s := range shards {
		ch <- s
	}
	close(ch)
	wg.Wait()
	r := <-bc
	if r.err != nil {
		ev.note("native runner does not build: " + r.err.Error())
	}
	return decide(spec, ev, b, r.bin, shards)
}

var graceAfterViolation time.Duration

// watchMemory makes the engines give up before the system runs out of memory.
func watchMemory() {
	limit := uint64(24 << 30)
	if b, err := os.ReadFile("/proc/meminfo"); err == nil {
		var total, avail uint64
		for _, l := range strings.Split(string(b), "\n") {
			fmt.Sscanf(l, "MemTotal: %d kB", &total)
			fmt.Sscanf(l, "MemAvailable: %d kB", &avail)
		}
		if avail > 0 {
			limit = avail * 1024 * 7 / 10
		}
	}
	if v, err := strconv.Atoi(os.Getenv("VC_MEM_MB")); err == nil {
		limit = uint64(v) << 20
	}
	debug.SetMemoryLimit(int64(limit))
	for range time.Tick(100 * time.Millisecond) {
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		var size, rss uint64
		fmt.Sscan(string(b), &size, &rss)
		if rss*uint64(os.Getpagesize()) > limit {
			eng.Halt.Store(true)
		}
	}
}

func runShard(prog *eng.Program, s *shard, deadline time.Time, verbose bool) {
	t0 := time.Now()
	defer func() { s.wall = time.Since(t0).Seconds() }()
	fn := prog.Func(module+"/"+s.h.Pkg, s.h.Fn)
	pre := -1
	if s.h.Preempt != nil {
		pre = *s.h.Preempt
	}
	steps := s.h.MaxSteps
	if steps == 0 && len(s.h.Sched) > 0 && !s.h.One {
		steps = 60000
	}
	cfg := eng.Config{Grace: graceAfterViolation, Params: s.params, Deadline: deadline, Merge: !s.h.NoMerge, MaxSample: 12, Preempt: pre, OneSchedule: s.h.One, Verbose: verbose, MaxSteps: steps, Coverage: true}
	if v := s.params["_merge"]; v == "0" {
		cfg.Merge = false
	}
	s.e = eng.NewEngine(prog, cfg)
	if fn == nil {
		s.err = "harness function missing"
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil && !verbose {
				s.err = fmt.Sprint("engine failure: ", r)
			} else if r != nil {
				panic(r)
			}
		}()
		s.e.Run(fn)
	}()
}

func decide(spec *Spec, ev *evidence, b *buildEnv, bin string, shards []*shard) int {
	known := loadFindings()
	type job struct {
		s   *shard
		v   *eng.Violation
		smp *eng.PathSample
		res nativeRes
	}
	var jobs []*job
	for _, s := range shards {
		if s.e == nil {
			continue
		}
		for _, v := range s.e.Viol {
			jobs = append(jobs, &job{s: s, v: v})
		}
	}
	for _, s := range shards {
		if s.e == nil {
			continue
		}
		for i := range s.e.Samples {
			jobs = append(jobs, &job{s: s, smp: &s.e.Samples[i]})
		}
	}
	if bin != "" {
		start := time.Now()
		var confirmed atomic.Bool
		var wg sync.WaitGroup
		ch := make(chan int)
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					j := jobs[i]
					m := map[string]uint64{}
					if j.v != nil {
						m = j.v.Model
					} else {
						m = j.smp.Model
					}
					j.res = b.runNative(bin, j.s.name(), m, j.s.params, i)
					switch j.res.kind {
					case "fail", "panic", "timeout", "race":
						if j.v != nil {
							confirmed.Store(true)
						}
					}
				}
			}()
		}
		for i := range jobs {
			if jobs[i].smp != nil && jobs[i].s.h.NoReplay {
				continue
			}
			if d := time.Since(start); d > 150*time.Second || confirmed.Load() && d > 40*time.Second {
				// replays that hang one after another must not cost the verdict
				jobs[i].res.kind = "skipped"
				continue
			}
			ch <- i
		}
		close(ch)
		wg.Wait()
	}
	rc := 0
	nv := 0
	reported := map[string]bool{}
	report := func(s *shard, kind, msg, where string, model map[string]uint64, native string) {
		for _, k := range known {
			if k.Property == spec.ID && k.Status == "known" && (k.Harness == "" || k.Harness == s.h.Fn) && strings.Contains(msg+" "+native, k.Match) {
				key := "known|" + k.What
				if !reported[key] {
					reported[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.ID, k.What)
				}
				ev.known++
				return
			}
		}
		key := s.h.Fn + "|" + kind + "|" + msg
		if reported[key] {
			return
		}
		reported[key] = true
		nv++
		path := saveReplay(spec.ID, s, kind, msg, where, model, native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
		fmt.Printf("  harness %s %v: %s: %s\n  native: %s\n", s.name(), s.params, kind, msg, strings.ReplaceAll(native, "\n", " | "))
		rc = 1
	}
	for _, j := range jobs {
		if j.v != nil {
			confirmed := false
			switch j.res.kind {
			case "fail", "panic", "timeout", "race":
				confirmed = true
			}
			if j.s.h.NoReplay {
				confirmed = true
			}
			if confirmed {
				report(j.s, j.v.Kind, j.v.Msg, j.v.Where, j.v.Model, j.res.kind+": "+j.res.msg)
			} else {
				ev.unconfirmed++
				ev.note(fmt.Sprintf("counterexample of %s %v did not reproduce natively (%s): %s %s [%s]", j.s.name(), j.s.params, j.res.kind, j.v.Kind, j.v.Msg, modelText(j.v.Model)))
			}
			continue
		}
		if bin == "" || j.s.h.NoReplay {
			continue
		}
		switch j.res.kind {
		case "ok":
			if j.smp.Abandoned != "" {
				ev.concolic++
				continue
			}
			if !sameObs(j.smp.Obs, j.res.obs) {
				ev.mismatch++
				ev.note(fmt.Sprintf("translation mismatch in %s %v: engine %v native %v for %s", j.s.name(), j.s.params, j.smp.Obs, j.res.obs, modelText(j.smp.Model)))
			} else {
				ev.validated++
				ev.sample(j.s, j.smp)
			}
		case "assume":
			if j.smp.Abandoned == "" {
				ev.mismatch++
				ev.note(fmt.Sprintf("translation mismatch in %s %v: native run left the assumptions (%s)", j.s.name(), j.s.params, modelText(j.smp.Model)))
			}
		case "fail", "panic", "timeout", "race":
			// a witness of an explored (or abandoned) path fails on the real code
			report(j.s, "native-"+j.res.kind, j.res.msg, j.smp.Abandoned, j.smp.Model, j.res.kind+": "+j.res.msg)
		}
	}
	ev.collect(shards)
	ev.violations = nv
	ev.summary()
	return rc
}

func sameObs(a, b []eng.ObsOut) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func modelText(m map[string]uint64) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var p []string
	for _, k := range keys {
		p = append(p, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(p, " ")
}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var fs []Finding
	json.Unmarshal(b, &fs)
	return fs
}

type replayRec struct {
	Property string            `json:"property"`
	Pkg      string            `json:"pkg"`
	Fn       string            `json:"fn"`
	Params   map[string]string `json:"params"`
	Model    map[string]uint64 `json:"model"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Where    string            `json:"where"`
	Native   string            `json:"native"`
	How      string            `json:"how"`
	Sched    []string          `json:"sched,omitempty"`
}

func saveReplay(id string, s *shard, kind, msg, where string, model map[string]uint64, native string) string {
	dir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	for i := 0; ; i++ {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		f, err := os.OpenFile(p, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
		if err != nil {
			if os.IsExist(err) && i < 10000 {
				continue
			}
			return p
		}
		j, _ := json.MarshalIndent(replayRec{id, s.h.Pkg, s.h.Fn, s.params, model, kind, msg, where, native, "vc replay " + p, s.h.Sched}, "", " ")
		f.Write(j)
		f.Close()
		return p
	}
}

func replayFile(path string) int {
	var r replayRec
	b, err := os.ReadFile(path)
	if err != nil || json.Unmarshal(b, &r) != nil {
		fmt.Println("cannot read", path)
		return 2
	}
	be, err := newBuildEnv()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer be.close()
	bin, err := be.buildReplay([]Harness{{Pkg: r.Pkg, Fn: r.Fn, Sched: r.Sched}}, false)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	res := be.runNative(bin, r.Pkg+"."+r.Fn, r.Model, r.Params, 0)
	fmt.Println(res.kind, res.msg)
	if res.kind == "ok" || res.kind == "assume" {
		return 0
	}
	return 1
}

func debugRun(pkg, fn string, params map[string]string) {
	h := Harness{Pkg: pkg, Fn: fn}
	if v := params["_sched"]; v != "" {
		h.Sched = strings.Split(v, ",")
	}
	b, err := newBuildEnv()
	if err != nil {
		fmt.Println(err)
		return
	}
	defer b.close()
	t0 := time.Now()
	prog, err := eng.LoadProgram(repoDir, b.modfile, b.contents(), patterns([]Harness{h}), goEnv())
	if err != nil {
		fmt.Println(err)
		return
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	if os.Getenv("VC_DEBUG") != "" {
		eng.SetDebug(true)
	}
	h.One = params["_one"] != ""
	if v := params["_sched"]; v != "" {
		h.Sched = strings.Split(v, "|")
	}
	if v := params["_preempt"]; v != "" {
		n, _ := strconv.Atoi(v)
		h.Preempt = &n
	}
	s := &shard{h: &h, params: params}
	limit := 300
	if v := params["_limit"]; v != "" {
		limit, _ = strconv.Atoi(v)
	}
	runShard(prog, s, time.Now().Add(time.Duration(limit)*time.Second), true)
	e := s.e
	fmt.Printf("wall %.2fs stats %+v\n", s.wall, e.Stats)
	so := e.Solver()
	fmt.Printf("queries %d hits %d sat %d unsat %d unknown %d time %.2fs vars %d terms %d coverage %s incompl %q\n", so.Queries, so.Hits, so.NSat, so.NUnsat, so.NUnknown, so.Time.Seconds(), e.NumVars(), e.NumTerms(), e.Coverage, e.Incompl)
	fmt.Println("reach", e.Reach, "longest path", e.Stats.MaxSteps)
	fmt.Println("abandon", e.Abandon)
	for i, x := range e.InitErrs() {
		if i < 10 {
			fmt.Println("init:", x)
		}
	}
	for _, l := range e.TopForks(12) {
		fmt.Println(l)
	}
	var bin string
	if params["_native"] != "0" {
		bin, err = b.buildReplay([]Harness{h}, false)
		if err != nil {
			fmt.Println("replay build:", err)
		}
	}
	for _, v := range e.Viol {
		fmt.Printf("VIOL %s %s\n   %s\n   %s\n", v.Kind, v.Msg, v.Where, modelText(v.Model))
		if bin != "" {
			r := b.runNative(bin, pkg+"."+fn, v.Model, params, 0)
			fmt.Println("   native:", r.kind, r.msg)
		}
	}
	ok, bad := 0, 0
	for _, p := range e.Samples {
		if bin == "" {
			break
		}
		r := b.runNative(bin, pkg+"."+fn, p.Model, params, 0)
		if p.Abandoned != "" {
			if r.kind != "ok" {
				fmt.Println("abandoned path fails natively:", p.Abandoned, r.kind, r.msg)
			}
			continue
		}
		if r.kind != "ok" || !sameObs(p.Obs, r.obs) {
			bad++
			if bad < 4 {
				fmt.Println("MISMATCH", r.kind, r.msg, p.Obs, r.obs, modelText(p.Model))
			}
		} else {
			ok++
		}
	}
	fmt.Println("samples validated", ok, "mismatched", bad)
}
