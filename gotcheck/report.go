package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation.  Key identifies rule + construct and is
// independent of line numbers.
type Finding struct {
	Key   string `json:"key"`
	Msg   string `json:"message"`
	Where string `json:"where"`
	Path  string `json:"path,omitempty"`
}

type Result struct {
	Prop        string
	Rule        string
	Obligations int
	Discharged  int
	Counts      map[string]int
	Samples     []string
	Findings    []Finding
	Assume      []string
	seen        map[string]bool
	NotCovered  string
	Unknown     []string
}

func newResult(prop string) *Result {
	return &Result{Prop: prop, Counts: map[string]int{}, seen: map[string]bool{}}
}

func (r *Result) add(key, where, path, format string, args ...interface{}) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{Key: key, Where: where, Path: path, Msg: fmt.Sprintf(format, args...)})
}

func (r *Result) count(k string, n int) { r.Counts[k] += n }

func (r *Result) oblig(ok bool) {
	r.Obligations++
	if ok {
		r.Discharged++
	}
}

func (r *Result) sample(s string) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
}

// known findings: lines "known property=C04 key=<key> <text>"
func readKnown(path, prop string) (map[string]string, error) {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return m, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 3 || fs[1] != "property="+prop || !strings.HasPrefix(fs[2], "key=") {
			continue
		}
		m[strings.TrimPrefix(fs[2], "key=")] = strings.Join(fs[3:], " ")
	}
	return m, sc.Err()
}

func finish(r *Result, verif, tier, cmd string, t0 time.Time) int {
	known, err := readKnown(filepath.Join(verif, "known_findings.txt"), r.Prop)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	var bad, kn []Finding
	for _, f := range r.Findings {
		if _, ok := known[f.Key]; ok {
			kn = append(kn, f)
			fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", r.Prop, f.Key, known[f.Key])
			continue
		}
		bad = append(bad, f)
	}
	var seed int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ex := fmt.Sprintf("Static analysis of the current source; nothing is executed. Rule: %s Obligations examined on this run: %d, discharged: %d, violated and listed as known findings: %d, violated: %d.", r.Rule, r.Obligations, r.Discharged, len(kn), len(bad))
	if r.NotCovered != "" {
		ex += " Not covered: " + r.NotCovered
	}
	cov := map[string]interface{}{
		"explanation": ex,
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"checker_cmd": cmd,
		"counts":      r.Counts,
		"samples":     r.Samples,
	}
	if len(kn) > 0 {
		cov["known_findings"] = kn
	}
	if len(bad) > 0 {
		cov["violations"] = bad
	}
	if len(r.Unknown) > 0 {
		cov["undecided"] = r.Unknown
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)\n", r.Prop, r.Obligations, r.Discharged, len(kn), len(bad), time.Since(t0).Seconds())
	for k, v := range r.Counts {
		fmt.Printf("  %s: %d\n", k, v)
	}
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.Prop+".violations.txt")
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", f.Key, f.Where, f.Msg)
		if f.Path != "" {
			fmt.Fprintf(&sb, "  path: %s\n", f.Path)
		}
		fmt.Printf("%s: [%s] %s\n", f.Where, f.Key, f.Msg)
		if f.Path != "" {
			fmt.Printf("    path: %s\n", f.Path)
		}
	}
	fmt.Fprintf(&sb, "\nreplay: %s\n", cmd)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
