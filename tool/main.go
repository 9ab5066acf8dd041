package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Rule decides one property.
type Rule struct {
	ID        string
	Technique string
	Explain   string
	Check     func(c *Ctx)
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.ID] = r }

func repoDir() string {
	if d := os.Getenv("HIERA_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("HIERA_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, id, text string }

// knownFindings reads the committed file with genuine defects that were recorded rather than repaired.
func knownFindings() (ks []known) {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		ps := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 2)
		if len(ps) != 2 {
			continue
		}
		// known: property=C33 [rule|construct] what fails
		if i, j := strings.IndexByte(ps[1], '['), strings.Index(ps[1], "] "); i == 0 && j > 0 {
			ks = append(ks, known{ps[0], ps[1][1:j], ps[1][j+2:]})
		}
	}
	return ks
}

var shared = map[string]*Prog{}

// loadShared loads the program, once if several checks run in this process
func loadShared(dir, goos string) (*Prog, error) {
	p := shared[goos]
	if p == nil || os.Getenv("HC_SHARED") == "" {
		var err error
		if p, err = LoadProg(dir, goos); err != nil {
			return nil, err
		}
		shared[goos] = p
	}
	return p, nil
}

func runRule(r *Rule, goos string) (c *Ctx) {
	c = &Ctx{ID: r.ID, Counts: map[string]int{}, funcs: map[string]bool{}, seen: map[string]bool{},
		Thorough: os.Getenv("VERIF_TIER") == "thorough"}
	defer func() {
		if e := recover(); e != nil {
			f := &Finding{Rule: "undecided", Construct: "analyser", Where: "?", Msg: fmt.Sprintf("the analysis failed: %v", e)}
			f.Path = strings.Split(string(debug.Stack()), "\n")
			c.Findings = append(c.Findings, f)
		}
	}()
	p, err := loadShared(repoDir(), goos)
	if err == errElsewhere {
		c.Counts["builds skipped: dependencies not installed"]++
		return c
	}
	if err != nil {
		c.Findings = append(c.Findings, &Finding{Rule: "undecided", Construct: "load", Where: "?", Msg: err.Error()})
		return c
	}
	globalStores = nil
	c.P = p
	c.E = NewEngine(p)
	r.Check(c)
	return c
}

func check(id string) int {
	r := rules[id]
	if r == nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, "none")
		fmt.Println("no such rule")
		return 1
	}
	start := time.Now()
	type osRun struct {
		goos string
		c    *Ctx
	}
	runs := []osRun{{"", runRule(r, "")}}
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = append(runs, osRun{"windows", runRule(r, "windows")}, osRun{"darwin", runRule(r, "darwin")})
	}
	ks := knownFindings()
	var bad []*Finding
	used := map[string]bool{}
	counts := map[string]int{}
	obls, ok, paths, nfuncs, nall := 0, 0, 0, 0, 0
	var samples []string
	for _, ru := range runs {
		c := ru.c
		for _, f := range c.Findings {
			isKnown := false
			for _, k := range ks {
				if k.prop == id && k.id == f.ID() {
					isKnown = true
					if !used[k.id] {
						used[k.id] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
					}
				}
			}
			if !isKnown {
				if ru.goos != "" {
					f.Msg = "[GOOS=" + ru.goos + "] " + f.Msg
				}
				bad = append(bad, f)
			}
		}
		pfx := ""
		if ru.goos != "" {
			pfx = ru.goos + ": "
		}
		for n, v := range c.Counts {
			counts[pfx+n] += v
		}
		obls += c.Obls
		ok += c.OK
		paths += c.paths
		nfuncs += len(c.funcs)
		if c.P != nil {
			nall += len(c.P.Funcs)
		}
		if ru.goos == "" {
			samples = c.Samples
		}
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ns []string
	for n := range counts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        r.Explain,
			"technique":          r.Technique,
			"obligations":        obls,
			"discharged":         ok,
			"functions_loaded":   nall,
			"functions_analysed": nfuncs,
			"paths":              paths,
			"instances":          counts,
			"samples":            samples,
			"known_findings":     len(used),
		},
		"assumptions": []string{
			"The Go type checker and golang.org/x/tools/go/ssa represent the source faithfully; dependencies outside the repository behave as documented.",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(bad),
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0777)
	bs, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(bs, '\n'), 0666); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for _, n := range ns {
		fmt.Printf("%s: %d %s\n", id, counts[n], n)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d paths, %d functions\n", id, obls, ok, paths, nfuncs)
	replay := filepath.Join(dir, id+".violation.json")
	if len(bad) == 0 {
		_ = os.Remove(replay)
		return 0
	}
	bs, _ = json.MarshalIndent(bad, "", " ")
	_ = os.WriteFile(replay, append(bs, '\n'), 0666)
	for _, f := range bad {
		fmt.Printf("%s: %s: rule %s: %s: %s\n", id, f.Where, f.Rule, f.Construct, f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	return 1
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: hieracheck check ID... | list | dump FUNC [inline] | funcs")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "check":
		rc := 0
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = ruleIDs()
		}
		if len(ids) > 1 && os.Getenv("HC_SHARED") == "" {
			// each in a process of its own, two at a time
			outs, bad := make([][]byte, len(ids)), make([]bool, len(ids))
			var wg sync.WaitGroup
			slots := make(chan bool, 2)
			for i := range ids {
				wg.Add(1)
				slots <- true
				go func(i int) {
					defer wg.Done()
					o, err := exec.Command(os.Args[0], "check", ids[i]).CombinedOutput()
					outs[i], bad[i] = o, err != nil
					<-slots
				}(i)
			}
			wg.Wait()
			for i := range ids {
				_, _ = os.Stdout.Write(outs[i])
				if bad[i] {
					rc = 1
				}
			}
			os.Exit(rc)
		}
		for _, id := range ids {
			if check(id) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	case "list":
		for _, id := range ruleIDs() {
			fmt.Println(id, rules[id].Technique)
		}
	case "dump":
		if d, err := strconv.Atoi(os.Getenv("HC_DEPTH")); err == nil {
			termDepth = d
		}
		p, err := LoadProg(repoDir(), "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, fn := range p.Funcs {
			if p.FuncName(fn) == os.Args[2] {
				e := NewEngine(p)
				paths, err := e.Run(fn, &Policy{Inline: func(f *ssa.Function) bool {
					if x := os.Getenv("HC_NOT"); x != "" && f.Object() != nil && f.Parent() == nil && strings.Contains(","+x+",", ","+f.Object().Name()+",") {
						return false
					}
					return len(os.Args) > 3 && (os.Args[3] != "pkg" || pkgOf(f) == pkgOf(fn) || f.Object() != nil && strings.Contains(os.Getenv("HC_ALSO"), f.Object().Name()))
				},
					MayPanic: func(ev *Event) bool { return ev.IsFn },
					Sync:     func(ev *Event, a *Term) string { return os.Getenv("HC_SYNC") }})
				fmt.Println(len(paths), err)
				for _, pp := range paths {
					fmt.Print(pp.Dump(p))
				}
			}
		}
	case "funcs":
		p, err := LoadProg(repoDir(), "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, fn := range p.Funcs {
			fmt.Println(p.FuncName(fn))
		}
	}
}

func ruleIDs() (ids []string) {
	for id := range rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
