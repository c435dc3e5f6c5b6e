//go:debug randseednop=0

// Command wv decides the listed properties of wego by generated-input search.
//
//	wv check <ID> <tier>      run every part of a property, write evidence
//	wv replay <file>          re-judge one saved case
//	wv list                   list properties and parts
//	wv shard / wv exec        internal: one generator shard / one case
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func part(p *Prop, name string) *Part {
	for i := range p.Parts {
		if p.Parts[i].Name == name {
			return &p.Parts[i]
		}
	}
	return nil
}

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func mustPart(id, name string) (*Prop, *Part) {
	p := props[id]
	if p == nil {
		die(2, "no such property %s", id)
	}
	pt := part(p, name)
	if pt == nil {
		die(2, "no part %s of %s", name, id)
	}
	return p, pt
}

func main() {
	testing.Init()
	addWide()
	addParallel()
	if len(os.Args) < 2 {
		die(2, "usage: wv check|replay|list")
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, pt := range props[id].Parts {
				fmt.Println(id, pt.Name, pt.Quick, pt.Thorough, pt.Isolated)
			}
		}
	case "exec":
		p, pt := mustPart(os.Args[2], os.Args[3])
		execMain(p, pt)
	case "shard":
		shardMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2], os.Args[3]))
	case "limited":
		limitedMain(os.Args[2:])
	case "aux":
		auxMain(os.Args[2])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}

func verifDir() string {
	if d := os.Getenv("WV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// knownKeys reads the keys of the known-findings file for one property.
func knownKeys(id string) (map[string]bool, map[string]string) {
	keys, text := map[string]bool{}, map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return keys, text
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		k, t, _ := strings.Cut(rest, " ")
		keys[k] = true
		text[k] = t
	}
	return keys, text
}

func shardMain(args []string) {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	id := fs.String("prop", "", "")
	name := fs.String("part", "", "")
	checks := fs.Int("checks", 100, "")
	seed := fs.Uint64("seed", 1, "")
	report := fs.String("report", "", "")
	cur := fs.String("cur", "", "")
	isolate := fs.Bool("isolate", false, "")
	shrink := fs.String("shrink", "20s", "")
	deadline := fs.Duration("deadline", 0, "")
	fs.Parse(args)
	flag.CommandLine.Parse([]string{
		"-rapid.checks=" + strconv.Itoa(*checks),
		"-rapid.seed=" + strconv.FormatUint(*seed, 10),
		"-rapid.nofailfile=true",
		"-rapid.shrinktime=" + *shrink,
	})
	p, pt := mustPart(*id, *name)
	known, _ := knownKeys(*id)
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("WV_KEEP_STDOUT") == "" {
		os.Stdout = null
	}
	rep := runShard(p, pt, *isolate, *cur, known, *deadline)
	b, err := json.Marshal(rep)
	if err != nil {
		die(2, "encode report: %v", err)
	}
	if err := os.WriteFile(*report, b, 0o644); err != nil {
		die(2, "write report: %v", err)
	}
	os.Exit(0)
}

const shards = 8

// A check generates no more cases once it has run for this long (slow or busy
// machine, or a thorough run reaching its bound); evidence reports what was done.
const checkBudget = 13 * time.Minute

var checkStart = time.Now()

// Multipliers of the parts' numbers of cases; the budget bounds a thorough run.
const (
	quickScale    = 5
	thoroughScale = 4
)

type job struct {
	part   *Part
	shard  int
	checks int
	seed   uint64
	share  func() time.Duration // what is left of the time for this job
}

func seedFor(base int64, id, part string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", base, id, part, shard)
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

func runJob(p *Prop, j job, dir string, isolate bool) (shardReport, error) {
	base := filepath.Join(dir, fmt.Sprintf("%s-%s-%d", p.ID, j.part.Name, j.shard))
	if isolate {
		base += "-iso"
	}
	report, cur := base+".json", base+".case"
	args := []string{"shard", "-prop", p.ID, "-part", j.part.Name,
		"-checks", strconv.Itoa(j.checks), "-seed", strconv.FormatUint(j.seed, 10),
		"-report", report, "-cur", cur}
	left := j.share()
	if left < time.Second {
		left = time.Second
	}
	if isolate {
		args = append(args, "-isolate")
		if left > 100*time.Second {
			left = 100 * time.Second
		}
	}
	args = append(args, "-deadline", left.String())
	cmd := exec.Command(selfBinary(j.part.Race), args...)
	cmd.Dir = dir
	cmd.Env = childEnv(j.part)
	se := &limitedBuffer{max: 1 << 20}
	cmd.Stderr = se
	if os.Getenv("WV_KEEP_STDOUT") != "" {
		cmd.Stdout = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		return shardReport{}, trouble("start shard: %v", err)
	}
	stalled := watch(cmd, cur, isolate || j.part.Isolated)
	werr := cmd.Wait()
	why := stalled()
	if werr == nil {
		b, err := os.ReadFile(report)
		if err != nil {
			return shardReport{}, trouble("shard report: %v", err)
		}
		var rep shardReport
		if err := json.Unmarshal(b, &rep); err != nil {
			return shardReport{}, trouble("shard report: %v", err)
		}
		return rep, nil
	}
	// The shard died: the code under test took the process down (or hung).
	caseJSON, _ := os.ReadFile(cur)
	var death error
	if why != "" {
		death = trouble("%s", why)
	} else {
		death = classifyDeath(cmd.ProcessState, se.buf.String())
	}
	if isolate || j.part.Isolated {
		return shardReport{}, trouble("shard of isolated part died: %v", death)
	}
	if _, err := os.Stat(stopFlag()); err == nil && why != "" {
		return shardReport{Part: j.part.Name}, nil // another shard has a violation
	}
	if len(caseJSON) > 0 && json.Valid(caseJSON) {
		if why != "" { // it hangs: too slow to shrink
			var v *Viol
			if e := runChild(p, j.part, caseJSON, &Obs{}); asViol(e, &v) {
				_ = os.WriteFile(stopFlag(), nil, 0o644)
				return shardReport{Part: j.part.Name, Failure: &failure{Part: j.part.Name, Msg: v.Msg, Key: v.Key, Case: caseJSON}}, nil
			}
		}
		// Re-run with every case in its own process: this finds, shrinks and
		// reports the failing case properly.
		rep, err := runJob(p, j, dir, true)
		if err == nil && rep.Failure != nil {
			return rep, nil
		}
		if _, err := os.Stat(stopFlag()); err == nil {
			return shardReport{Part: j.part.Name}, nil // another shard has a violation
		}
		o := &Obs{}
		for i := 0; i < 3; i++ {
			var v *Viol
			if e := runChild(p, j.part, caseJSON, o); asViol(e, &v) {
				return shardReport{Part: j.part.Name, Failure: &failure{Part: j.part.Name, Msg: v.Msg, Key: v.Key, Case: caseJSON}}, nil
			}
		}
		var v *Viol
		if asViol(death, &v) {
			return shardReport{Part: j.part.Name, Failure: &failure{Part: j.part.Name, Msg: v.Msg + "\n(not reproduced in 5 re-runs)", Key: v.Key, Case: caseJSON}}, nil
		}
	}
	return shardReport{}, death
}

func asViol(err error, v **Viol) bool {
	x, ok := err.(*Viol)
	if ok {
		*v = x
	}
	return ok
}

// watch kills a shard that makes no progress on its current case while either
// burning CPU for more than half of childCPU seconds or standing still for 90 s; the
// case is then judged again in a child with the deterministic limits.
func watch(cmd *exec.Cmd, cur string, isolated bool) func() string {
	if isolated {
		return func() string { return "" }
	}
	var mu sync.Mutex
	why := ""
	stop := make(chan struct{})
	go func() {
		var last string
		var since, moved time.Time // since the case began; since any CPU was used
		var from, used float64
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-stop:
				return
			case now := <-tick.C:
				key := ""
				if fi, err := os.Stat(cur); err == nil {
					key = fi.ModTime().String()
				}
				cpu := cpuSeconds(cmd.Process.Pid)
				if cpu > used+0.5 {
					moved, used = now, cpu
				}
				if _, err := os.Stat(stopFlag()); err == nil && key == last && now.Sub(since) > 40*time.Second {
					since = now.Add(-time.Hour) // no need to wait for it
				}
				if key != last {
					last, since, moved, from, used = key, now, now, cpu, cpu
				} else if last != "" && (cpu-from > childCPU/2 || now.Sub(moved) > 90*time.Second || now.Sub(since) > 400*time.Second) {
					mu.Lock()
					why = "shard made no progress"
					mu.Unlock()
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	return func() string {
		close(stop)
		mu.Lock()
		defer mu.Unlock()
		return why
	}
}

// cpuSeconds is the CPU time a process has used.
func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func checkMain(id, tier string) int {
	p := props[id]
	if p == nil {
		die(2, "no such property %s", id)
	}
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die(2, "bad VERIF_SEED %q", s)
		}
		seed = v
	}
	dir, err := os.MkdirTemp("", "wv-"+id+"-")
	if err != nil {
		die(2, "scratch: %v", err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("WV_SCRATCH", dir)
	var jobs []job
	for i := range p.Parts {
		pt := &p.Parts[i]
		n := pt.Quick * quickScale
		if tier == "thorough" {
			n = pt.Thorough * thoroughScale
		}
		if s := os.Getenv("WV_SCALE"); s != "" { // development only
			f, _ := strconv.ParseFloat(s, 64)
			n = int(float64(n) * f / quickScale)
		}
		per := (n + shards - 1) / shards
		if per == 0 {
			continue
		}
		for s := 0; s < shards; s++ {
			// The parts still to come get an equal share of the time.
			parts := time.Duration(len(p.Parts) - i)
			jobs = append(jobs, job{pt, s, per, seedFor(seed, id, pt.Name, s), func() time.Duration {
				return (checkBudget - time.Since(checkStart)) / parts
			}})
		}
	}
	reps := make([]shardReport, len(jobs))
	errs := make([]error, len(jobs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			if _, err := os.Stat(stopFlag()); err == nil {
				return // a violation has been found
			}
			reps[i], errs[i] = runJob(p, jobs[i], dir, false)
		}(i)
	}
	wg.Wait()

	// merge
	eval := 0
	hashes := map[uint64]bool{}
	classes := map[string]map[string]int{}
	perPart := map[string]int{}
	var samples []any
	nsamp := map[string]int{}
	known := map[string]int{}
	knownMsg := map[string]string{}
	var fails []*failure
	for _, r := range reps {
		eval += r.Evaluations
		perPart[r.Part] += r.Evaluations
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for k, n := range r.Classes {
			if classes[r.Part] == nil {
				classes[r.Part] = map[string]int{}
			}
			classes[r.Part][k] += n
		}
		for _, s := range r.Samples {
			if nsamp[r.Part] < 2 {
				nsamp[r.Part]++
				samples = append(samples, map[string]any{"part": r.Part, "case": s})
			}
		}
		for k, n := range r.Known {
			known[k] += n
			knownMsg[k] = r.KnownMsg[k]
		}
		if r.Trouble != "" {
			errs = append(errs, fmt.Errorf("%s: %s", r.Part, r.Trouble))
		}
		if r.Failure != nil {
			fails = append(fails, r.Failure)
		}
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
	delete(perPart, "")
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": eval, "distinct_nontrivial": len(hashes), "rule": p.Rule,
			"samples": samples, "evaluations_by_part": perPart, "classes": classes,
			"known_findings_seen": known,
		},
		"assumptions": p.Assum,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fails),
	}
	if ev["assumptions"] == nil || len(p.Assum) == 0 {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s\n", id, tier, seed, eval, len(hashes), time.Since(start).Seconds())
	_, text := knownKeys(id)
	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; seen %d times)\n", id, text[k], k, known[k])
	}
	if len(fails) > 0 {
		f := fails[0]
		os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
		rp := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s-%016x.json", id, f.Part, hashCase(f.Part, f.Case)))
		rb, _ := json.MarshalIndent(map[string]any{"property": id, "part": f.Part, "message": f.Msg, "key": f.Key, "case": f.Case}, "", " ")
		os.WriteFile(rp, append(rb, '\n'), 0o644)
		fmt.Printf("part %s: %s\n", f.Part, f.Msg)
		if len(f.Case) < 4000 {
			fmt.Printf("case: %s\n", f.Case)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	code := 0
	for _, e := range errs {
		if e != nil && code == 0 {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
			code = 2
		}
	}
	return code
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var r struct {
		Property, Part string
		Case           json.RawMessage
	}
	if err := json.Unmarshal(b, &r); err != nil {
		die(2, "%v", err)
	}
	p, pt := mustPart(r.Property, r.Part)
	dir, err := os.MkdirTemp("", "wv-replay-")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("WV_SCRATCH", dir)
	err = runChild(p, pt, r.Case, &Obs{})
	var v *Viol
	if asViol(err, &v) {
		fmt.Println(v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	fmt.Println("replay: the property held on this case")
	return 0
}
