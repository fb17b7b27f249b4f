// Command check decides one property: it runs worker processes over generated
// cases, reports violations with a replay file and writes the evidence.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/conc"
	"verif/inject"
	"verif/props"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	os.Exit(2)
}

type finding struct{ prop, id, what string }

// findings reads KNOWN_FINDINGS.txt: "finding: property=X id=Y what fails".
func findings(path string) []finding {
	f, err := os.Open(path)
	if err != nil {
		die("known findings: %v", err)
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		w := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(w) != 3 {
			die("known findings: bad line %q", l)
		}
		out = append(out, finding{strings.TrimPrefix(w[0], "property="), strings.TrimPrefix(w[1], "id="), w[2]})
	}
	return out
}

func main() {
	if f := os.Getenv("VERIF_LOGCHILD"); f != "" {
		props.LogChild(f)
	}
	if f := os.Getenv("VERIF_CONCCHILD"); f != "" {
		conc.Main(f)
	}
	if f := os.Getenv("VERIF_INJECTCHILD"); f != "" {
		inject.Main(f)
	}
	if n := os.Getenv("VERIF_LIMITCHILD"); n != "" {
		props.LimitChild(n)
	}
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	workers := flag.Int("workers", 6, "")
	checks := flag.Int("checks", 0, "")
	replay := flag.String("replay", "", "")
	cli := flag.String("cli", "", "")
	worker := flag.Int("worker", -1, "")
	out := flag.String("out", "", "")
	trace := flag.String("trace", "", "")
	dir := flag.String("dir", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		for _, id := range props.IDs() {
			fmt.Println(id)
		}
		return
	}
	info, ok := props.Lookup(*prop)
	if !ok {
		die("unknown property %q", *prop)
	}
	w := &props.Worker{Prop: *prop, Tier: *tier, Seed: *seed, Index: *worker, N: *workers, Dir: *dir, Out: *out,
		Trace: *trace, Checks: *checks, Verif: *verif, CLI: *cli}
	if *worker >= 0 {
		props.Work(w)
	}
	start := time.Now()
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	scratch, err := os.MkdirTemp(base, "verif-"+*prop+"-")
	if err != nil {
		if scratch, err = os.MkdirTemp("", "verif-"+*prop+"-"); err != nil {
			die("%v", err)
		}
	}
	code := 0
	if *replay != "" {
		code = runReplay(w, scratch, *replay)
	} else {
		code = run(w, info, scratch, start)
	}
	os.RemoveAll(scratch)
	os.Exit(code)
}

func runReplay(w *props.Worker, scratch, file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var f struct {
		Property string          `json:"property"`
		Case     json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(raw, &f); err != nil {
		die("%v", err)
	}
	w.Dir = scratch
	w.N = 1
	if err := props.Replay(w, f.Case); err != nil {
		fmt.Println("reproduced:", err)
		return 1
	}
	fmt.Println("not reproduced: the property holds on this case")
	return 0
}

type outcome struct {
	i    int
	code int
	res  props.Result
	ok   bool
	log  string
}

func spawn(w *props.Worker, scratch string, i int, trace string) *exec.Cmd {
	d := filepath.Join(scratch, fmt.Sprintf("w%d", i))
	if err := os.MkdirAll(d, 0o755); err != nil {
		die("%v", err)
	}
	args := []string{"-prop", w.Prop, "-tier", w.Tier, "-seed", fmt.Sprint(w.Seed), "-workers", fmt.Sprint(w.N),
		"-checks", fmt.Sprint(w.Checks), "-worker", fmt.Sprint(i), "-dir", d, "-out", filepath.Join(scratch, fmt.Sprintf("r%d.json", i)),
		"-verif", w.Verif, "-cli", w.CLI}
	if trace != "" {
		args = append(args, "-trace", trace)
	}
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "TMPDIR="+d)
	return c
}

func run(w *props.Worker, info props.Info, scratch string, start time.Time) int {
	known := findings(filepath.Join(w.Verif, "KNOWN_FINDINGS.txt"))
	w.Dir = scratch
	ch := make(chan outcome, w.N)
	cmds := make([]*exec.Cmd, w.N)
	for i := 0; i < w.N; i++ {
		c := spawn(w, scratch, i, "")
		var buf bytes.Buffer
		c.Stdout, c.Stderr = &buf, &buf
		if err := c.Start(); err != nil {
			die("%v", err)
		}
		cmds[i] = c
		go func(i int) {
			err := c.Wait()
			o := outcome{i: i, log: tail(buf.String(), 6000)}
			if err != nil {
				o.code = c.ProcessState.ExitCode()
			}
			if b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("r%d.json", i))); err == nil {
				o.ok = json.Unmarshal(b, &o.res) == nil
			}
			ch <- o
		}(i)
	}
	var total props.Result
	total.Classes = map[string]int{}
	hashes := map[string]bool{}
	var failure *props.Failure
	var broken *outcome
	for k := 0; k < w.N; k++ {
		o := <-ch
		if !o.ok || (o.code != 0 && o.code != 1) {
			if failure == nil && broken == nil {
				oo := o
				broken = &oo
				for _, c := range cmds {
					c.Process.Kill()
				}
			}
			continue
		}
		total.Evaluations += o.res.Evaluations
		total.Sweep += o.res.Sweep
		for _, h := range o.res.Hashes {
			hashes[h] = true
		}
		for c, n := range o.res.Classes {
			total.Classes[c] += n
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, o.res.Samples...)
		}
		if o.res.Failure != nil && failure == nil {
			failure = o.res.Failure
			for _, c := range cmds {
				c.Process.Kill()
			}
		}
	}
	if failure == nil && broken != nil {
		if broken.code == props.ExitHarness {
			die("worker %d: harness error\n%s", broken.i, broken.log)
		}
		failure = diagnose(w, scratch, broken)
	}
	violations := 0
	code := 0
	// recorded findings
	props.WithWorker(w)
	for _, p := range info.Probes {
		what := p.Run()
		if what == "" {
			continue
		}
		listed := false
		for _, k := range known {
			if k.prop == w.Prop && k.id == p.ID {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", w.Prop, k.id, k.what, what)
			}
		}
		if !listed && failure == nil {
			c, _ := json.Marshal(map[string]string{"probe": p.ID})
			failure = &props.Failure{Message: what, Case: c}
		}
	}
	if failure != nil {
		violations++
		code = 1
		dir := filepath.Join(w.Verif, "replays")
		os.MkdirAll(dir, 0o755)
		h := sha256.Sum256(failure.Case)
		file := filepath.Join(dir, fmt.Sprintf("%s-%x.json", w.Prop, h[:6]))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": w.Prop, "message": failure.Message, "case": failure.Case}, "", " ")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("%s\n", failure.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", w.Prop, file)
	}
	type kv struct {
		k string
		n int
	}
	var cl []kv
	for k, n := range total.Classes {
		cl = append(cl, kv{k, n})
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].n > cl[j].n || cl[i].n == cl[j].n && cl[i].k < cl[j].k })
	if len(cl) > 150 {
		cl = cl[:150]
	}
	classes := map[string]int{}
	for _, c := range cl {
		classes[c.k] = c.n
	}
	samples := []json.RawMessage{}
	size := 0
	for _, s := range total.Samples {
		if size += len(s); size < 24000 || len(samples) == 0 {
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 && failure != nil && len(failure.Case) < 24000 {
		samples = append(samples, failure.Case)
	}
	ev := map[string]interface{}{
		"property": w.Prop, "tier": w.Tier, "seed": w.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total.Evaluations, "distinct_nontrivial": len(hashes), "rule": info.Rule,
			"enumerated": total.Sweep, "classes": classes, "samples": samples,
		},
		"assumptions": info.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(w.Verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(w.Verif, "evidence", w.Prop+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d enumerated), %d distinct non-trivial, %.1fs\n", w.Prop, w.Tier, w.Seed,
		total.Evaluations, total.Sweep, len(hashes), time.Since(start).Seconds())
	return code
}

// diagnose re-runs a worker that died (a fatal runtime error cannot be
// recovered) with tracing on, to find the case it dies of.
func diagnose(w *props.Worker, scratch string, o *outcome) *props.Failure {
	trace := filepath.Join(scratch, "trace.json")
	os.Remove(filepath.Join(scratch, fmt.Sprintf("r%d.json", o.i)))
	c := spawn(w, scratch, o.i, trace)
	b, err := c.CombinedOutput()
	st := c.ProcessState.ExitCode()
	if err == nil || st == props.ExitHarness || st == props.ExitViolation {
		die("worker %d died and the death does not repeat (%d, then %d)\n%s\n%s", o.i, o.code, st, o.log, tail(string(b), 3000))
	}
	if !bytes.Contains(b, []byte("zbdba/db-recovery")) {
		die("worker %d died outside the code under test\n%s", o.i, tail(string(b), 6000))
	}
	cs, err := os.ReadFile(trace)
	if err != nil {
		die("%v", err)
	}
	return &props.Failure{Message: "the process dies: " + firstLine(string(b)), Case: cs}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal") || strings.Contains(l, "panic") || strings.Contains(l, "goroutine stack") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
