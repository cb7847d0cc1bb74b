package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Coverage is what a check measured on this run.
type Coverage map[string]any

// Check decides one property.
type Check struct {
	ID   string
	Rule string // the rule applied, one paragraph
	Run  func(P *Program, rep *Report, cov Coverage, tier string)
}

var registry = map[string]*Check{}

func register(id, rule string, run func(P *Program, rep *Report, cov Coverage, tier string)) {
	registry[id] = &Check{id, rule, run}
}

type known struct {
	prop, key, what string
}

// readKnown reads lines "known: property=ID key=K :: what".
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, ok := strings.Cut(l, " key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		out = append(out, known{strings.TrimSpace(id), strings.TrimSpace(key), strings.TrimSpace(what)})
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "directory for evidence and replays")
	prop := flag.String("property", "", "property id, or a comma separated list, or all")
	tier := flag.String("tier", "", "quick or thorough")
	dump := flag.String("dump", "", "debugging dump")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	start := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		for _, id := range strings.Split(*prop, ",") {
			os.Exit(giveUp(id, *verif, *tier, "the program cannot be loaded and type-checked: "+err.Error()))
		}
	}
	if *dump != "" {
		dumpCmd(P, *dump, flag.Args())
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	go watchdog(ids, *verif, *tier)
	code := 0
	for _, id := range ids {
		if c := runCheck(P, id, *verif, *tier, start); c > code {
			code = c
		}
		start = time.Now()
	}
	os.Exit(code)
}

func runCheck(P *Program, id, verif, tier string, start time.Time) int {
	ck := registry[id]
	if ck == nil {
		fmt.Println("ERROR unknown property", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rep := &Report{}
	cov := Coverage{}
	runGuarded(ck, P, rep, cov, tier)
	for _, u := range rep.undecided {
		rep.add("undecided", "the analysis cannot decide: "+u)
	}
	ks := readKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []Finding
	nKnown := 0
	for _, f := range rep.list() {
		matched := false
		for _, k := range ks {
			if k.prop == id && k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, k.what, f.Msg)
				matched = true
				nKnown++
				break
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	cov["explanation"] = ck.Rule
	cov["findings_listed_as_known"] = nKnown
	cov["functions_in_program"] = len(P.Funcs)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR writing evidence:", err)
		return 2
	}
	if len(viol) > 0 {
		_ = os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		rp := filepath.Join(verif, "replays", id+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", id, ck.Rule)
		for _, f := range viol {
			fmt.Fprintf(&sb, "%s\n    key: %s\n", f.Msg, f.Key)
		}
		_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, f := range viol {
			if i >= 25 {
				fmt.Printf("  ... and %d more, see %s\n", len(viol)-i, rp)
				break
			}
			fmt.Println("  " + f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("OK property=%s %s\n", id, summary(cov))
	return 0
}

func summary(c Coverage) string {
	var ks []string
	for k, v := range c {
		switch v := v.(type) {
		case int:
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// runGuarded turns a panic of the analysis into a finding.
func runGuarded(ck *Check, P *Program, rep *Report, cov Coverage, tier string) {
	defer func() {
		if r := recover(); r != nil {
			rep.add("panic", fmt.Sprintf("the analysis met a construct it does not know: %v at %s", r, panicSite()))
		}
	}()
	ck.Run(P, rep, cov, tier)
}

func panicSite() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if i := strings.Index(l, "/analyzer/"); i >= 0 && !strings.Contains(l, "main.go") {
			out = append(out, strings.TrimSpace(l[i+10:]))
		}
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// giveUp reports that nothing could be decided.
func giveUp(id, verif, tier, why string) int {
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	_ = os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "seed": 0, "level": "other", "coverage": map[string]any{"explanation": why}, "wall_s": 0.0, "violations": 1}, "", " ")
	_ = os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(verif, "replays", id+".txt")
	_ = os.WriteFile(rp, []byte(why+"\n"), 0o644)
	fmt.Println("  " + why)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// watchdog ends an analysis that outgrows the machine: that decides nothing.
func watchdog(ids []string, verif, tier string) {
	t0 := time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 20<<30 {
			os.Exit(giveUp(ids[0], verif, tier, "the analysis cannot decide: its state outgrew the memory"))
		}
		if time.Since(t0) > 840*time.Second {
			os.Exit(giveUp(ids[0], verif, tier, "the analysis cannot decide: it ran out of time"))
		}
	}
}
