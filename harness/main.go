package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func vseed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		return v
	}
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:]) >> 1
}

func facetSeed(f *facet, shard int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", vseed(), f.prop, f.name, shard)))
	s := binary.LittleEndian.Uint64(h[:])
	if s == 0 {
		s = 1
	}
	return s
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func find(name string) *facet {
	for _, f := range facets {
		if f.prop+"/"+f.name == name {
			return f
		}
	}
	return nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness list | check PROP | facet PROP/NAME [shard n] | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, f := range facets {
			fmt.Printf("%s/%s quick=%d thorough=%d %s\n", f.prop, f.name, f.quick, f.thorough, f.rule)
		}
	case "facet":
		debug.SetMemoryLimit(3 << 30)
		initRapid()
		f := find(os.Args[2])
		if f == nil {
			fmt.Fprintln(os.Stderr, "no such facet")
			os.Exit(2)
		}
		shard, n := 0, f.quick
		if tier() == "thorough" {
			n = f.thorough
		}
		if len(os.Args) > 4 {
			shard, _ = strconv.Atoi(os.Args[3])
			n, _ = strconv.Atoi(os.Args[4])
		}
		if len(os.Args) > 5 {
			caseIndex, _ = strconv.Atoi(os.Args[5])
		}
		emitResult(f.run(f, n, facetSeed(f, shard), facetBudget(), os.Getenv("VERIF_TRACE")))
	case "cold": // R03: run the calls on standard input as the first of this process
		coldMain()
	case "check":
		os.Exit(checkProp(os.Args[2]))
	case "replay":
		raw, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(raw, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f := find(v.Prop + "/" + v.Facet)
		if f == nil {
			fmt.Fprintln(os.Stderr, "no such facet")
			os.Exit(2)
		}
		if v.Build != "" && os.Getenv("VERIF_REPLAY_IN") != v.Build {
			self, _ := os.Executable()
			env := append(os.Environ(), "VERIF_REPLAY_IN="+v.Build, raceEnv)
			switch v.Build {
			case "generic":
				self = os.Getenv("VERIF_GENERIC")
			case "race":
				self = os.Getenv("VERIF_RACE")
			case "386":
				self = os.Getenv("VERIF_386")
			default:
				env = append(env, "GODEBUG=cpu.adx=off")
			}
			cmd := exec.Command(self, os.Args[1:]...)
			cmd.Env, cmd.Stdout, cmd.Stderr = env, os.Stdout, os.Stderr
			if err := cmd.Run(); err != nil {
				if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1 {
					os.Exit(1)
				}
				if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == raceExit {
					fmt.Printf("VIOLATION property=%s replay=%s\ndata race\n", v.Prop, os.Args[2])
					os.Exit(1)
				}
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			return
		}
		if err := f.replay(v.Case); err != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n%v\n", v.Prop, os.Args[2], err)
			os.Exit(1)
		}
		fmt.Println("replay passes")
	default:
		os.Exit(2)
	}
}

func facetBudget() time.Duration {
	if tier() == "thorough" {
		return 90 * time.Minute
	}
	return 200 * time.Second
}

type job struct {
	f     *facet
	shard int
	n     int
	first int    // how many cases of the facet the shards before this one run
	build string // "", for BLS12-381 "generic" / "noadx" (the other field arithmetic back ends), for R03 "race"; "386" with 32-bit integers and the portable code
}

const raceExit = 66

var raceEnv = fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d", raceExit)

type outcome struct {
	job
	res *Result
	err string
	log string
}

func runChild(j job, dir string, trace bool) outcome {
	o := outcome{job: j}
	out := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", j.f.prop, j.f.name, j.shard))
	os.Remove(out)
	self, _ := os.Executable()
	env := os.Environ()
	switch j.build {
	case "generic":
		self = os.Getenv("VERIF_GENERIC")
	case "noadx":
		env = append(env, "GODEBUG=cpu.adx=off")
	case "race":
		self = os.Getenv("VERIF_RACE")
		env = append(env, raceEnv)
	case "386":
		self = os.Getenv("VERIF_386")
	}
	cmd := exec.Command(self, "facet", j.f.prop+"/"+j.f.name, strconv.Itoa(j.shard), strconv.Itoa(j.n), strconv.Itoa(j.first))
	cmd.Env = append(env, "VERIF_RESULT="+out)
	tr := out + ".trace"
	if trace {
		cmd.Env = append(cmd.Env, "VERIF_TRACE="+tr)
	}
	var sb strings.Builder
	cmd.Stderr = &sb
	cmd.Stdout = &sb
	wall := 650 * time.Second
	if tier() == "thorough" {
		wall = 4 * time.Hour
	}
	if err := cmd.Start(); err != nil {
		o.err = err.Error()
		return o
	}
	timer := time.AfterFunc(wall, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	stopped := !timer.Stop()
	o.log = sb.String()
	if b, e := os.ReadFile(out); e == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
			return o
		}
	}
	if stopped {
		o.err = "timed out"
		return o
	}
	o.err = fmt.Sprintf("child died: %v", err)
	if trace {
		if b, e := os.ReadFile(tr); e == nil {
			l := o.log
			if len(l) > 2000 {
				l = l[:2000]
			}
			o.res = &Result{Facet: j.f.prop + "/" + j.f.name, Violation: &Violation{Prop: j.f.prop, Facet: j.f.name, Case: b, Seed: facetSeed(j.f, j.shard), Error: "process died: " + l}}
		}
	}
	return o
}

func checkProp(p string) int {
	start := time.Now()
	fs := byProp(p)
	if len(fs) == 0 {
		fmt.Fprintln(os.Stderr, "no facets for", p)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif-"+p+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	cpus := runtime.NumCPU()
	if cpus > 8 {
		cpus = 8
	}
	var jobs []job
	shards := cpus / len(fs)
	if shards < 1 {
		shards = 1
	}
	for _, f := range fs {
		n := f.quick
		if tier() == "thorough" {
			n = f.thorough
		}
		if os.Getenv("VERIF_386") != "" {
			jobs = append(jobs, job{f, 200, max(1, n/6), 0, "386"})
		}
		if g := os.Getenv("VERIF_GENERIC"); g != "" && p[0] == 'B' {
			a := max(1, n/5)
			jobs = append(jobs, job{f, 0, max(1, n*3/5), 0, ""}, job{f, 1, a, 0, "generic"}, job{f, 2, a, 0, "noadx"})
			continue
		}
		if os.Getenv("VERIF_RACE") != "" && p == "R03" && f.name != "histories" && f.name != "volume" {
			for i := 0; i < 2; i++ {
				jobs = append(jobs, job{f, 100 + i, max(1, n/8), 0, "race"})
			}
		}
		s := shards
		if len(fs) < 8 && s*len(fs) < cpus {
			s++
		}
		if f.name == "volume" {
			s = cpus // long cases
		}
		if s > n {
			s = n
		}
		for i, first := 0, 0; i < s; i++ {
			k := n / s
			if i < n%s {
				k++
			}
			jobs = append(jobs, job{f, i, k, first, ""})
			first += k
		}
	}
	outs := make([]outcome, len(jobs))
	sem := make(chan bool, cpus)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			outs[i] = runChild(j, dir, false)
			if outs[i].res == nil && outs[i].err != "timed out" {
				outs[i] = runChild(j, dir, true)
			}
			if os.Getenv("VERIF_STOP") != "" && outs[i].res != nil && outs[i].res.Violation != nil { // tools/mutrun.py: the first one is enough
				fmt.Printf("VIOLATION property=%s facet=%s %s\n", p, j.f.name, outs[i].res.Violation.Error)
				syscall.Kill(0, syscall.SIGKILL)
			}
		}(i, j)
	}
	wg.Wait()

	evals, viol := 0, 0
	distinct := map[string]bool{}
	per := map[string]map[string]any{}
	var samples []any
	var rules []string
	var problems []string
	outOfTime := false
	told := map[string]bool{}
	var vlines []string
	for _, f := range fs {
		rules = append(rules, f.name+": "+f.rule)
	}
	for _, o := range outs {
		if o.res == nil {
			problems = append(problems, o.f.name+": "+o.err+"\n"+tail(o.log))
			continue
		}
		r := o.res
		evals += r.Evals
		for _, h := range r.Hashes {
			distinct[fmt.Sprintf("%s/%x", o.f.name, h)] = true
		}
		m := per[o.f.name]
		if m == nil {
			m = map[string]any{"evaluations": 0, "labels": map[string]int{}, "wall_s": 0.0}
			per[o.f.name] = m
			for _, s := range r.Samples {
				samples = append(samples, map[string]any{"facet": o.f.name, "case": s})
			}
		}
		m["evaluations"] = m["evaluations"].(int) + r.Evals
		if o.build != "" {
			b, _ := m["evaluations_by_alternate_build"].(map[string]int)
			if b == nil {
				b = map[string]int{}
				m["evaluations_by_alternate_build"] = b
			}
			b[o.build] += r.Evals
		}
		for k, v := range r.Labels {
			m["labels"].(map[string]int)[k] += v
		}
		if r.WallS > m["wall_s"].(float64) {
			m["wall_s"] = r.WallS
		}
		outOfTime = outOfTime || r.OutOfTime
		if r.Incomplete != "" && r.Violation == nil {
			problems = append(problems, o.f.name+": "+r.Incomplete)
		}
		if r.Violation != nil {
			viol++
			r.Violation.Build = o.build
			rd := filepath.Join(verifDir(), "evidence", "replay")
			os.MkdirAll(rd, 0o755)
			path := filepath.Join(rd, fmt.Sprintf("%s_%s_%d.json", p, o.f.name, o.shard))
			b, _ := json.MarshalIndent(r.Violation, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			vlines = append(vlines, fmt.Sprintf("VIOLATION property=%s replay=%s", p, path))
			c := string(r.Violation.Case)
			if len(c) > 600 {
				c = c[:600] + "..."
			}
			if !told[o.f.name] {
				fmt.Printf("%s/%s: %s\n  case: %s\n", p, o.f.name, r.Violation.Error, c)
			}
			told[o.f.name] = true
		}
	}
	for name, m := range per {
		c := 0
		for k := range distinct {
			if strings.HasPrefix(k, name+"/") {
				c++
			}
		}
		m["distinct_nontrivial"] = c
	}
	ev := map[string]any{
		"property": p, "tier": tier(), "seed": vseed(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct),
			"rule": strings.Join(rules, " | "), "samples": samples, "facets": per, "stopped_by_time_budget": outOfTime,
		},
		"assumptions": []string{
			"reference models in /verif/harness/ref (big.Int code written from the public specifications) and the Go standard library / golang.org/x/crypto oracles are correct",
			"generated inputs sample the domain; absence of a counterexample is not a proof",
		},
		"wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p+".json"), append(b, '\n'), 0o644); err != nil {
		problems = append(problems, err.Error())
	}
	for _, l := range vlines {
		fmt.Println(l)
	}
	if viol > 0 {
		return 1
	}
	if len(problems) > 0 {
		fmt.Fprintln(os.Stderr, "check could not complete:\n"+strings.Join(problems, "\n"))
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1fs\n", p, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}
