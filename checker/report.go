package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report of one property check.
type Report struct {
	C       *Checker
	ID      string
	Rule    string
	viols   []*Viol
	seen    map[string]bool
	counts  map[string]int
	samples []string
	notes   []string
	start   time.Time
}

func (R *Report) count(what string, n int) { R.counts[what] += n }

func (R *Report) sample(s string) {
	if len(R.samples) < 12 {
		R.samples = append(R.samples, s)
	}
}

// add a violation; key names the construct for the known-findings file
func (R *Report) add(key, msg string, pos token.Pos, trace []string) {
	k := key + "|" + msg
	if R.seen[k] {
		return
	}
	R.seen[k] = true
	R.viols = append(R.viols, &Viol{Key: key, Msg: msg, Pos: pos, Trace: trace})
}

// take over what an exploration found
func (R *Report) take(E *Explorer) {
	for _, k := range E.order {
		v := E.Viols[k]
		R.add(v.Key, v.Msg, v.Pos, v.Trace)
	}
	for _, l := range E.Limits {
		R.add("limit:"+l, "the analysis could not decide this code: "+l, token.NoPos, nil)
	}
}

// require that something the analysis is anchored on exists
func (R *Report) need(ok bool, what string) bool {
	if !ok {
		R.add("anchor:"+what, "not found in the analysed tree: "+what, token.NoPos, nil)
	}
	return ok
}

type known struct {
	prop, key, text string
}

func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l[len("known: "):], " ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		ks = append(ks, known{f[0][9:], f[1][4:], f[2]})
	}
	return ks, nil
}

func (R *Report) finish(verif, tier string) int {
	P := R.C.P
	ks, err := loadKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var bad []*Viol
	var found []known
	seenKnown := map[string]bool{}
	for _, v := range R.viols {
		hit := false
		for _, k := range ks {
			if k.prop == R.ID && k.key == v.Key {
				hit = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					found = append(found, k)
				}
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	for _, k := range found {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", R.ID, k.key, k.text)
	}
	pos := func(p token.Pos) string {
		if !p.IsValid() {
			return ""
		}
		q := P.SSA.Fset.Position(p)
		return strings.TrimPrefix(q.Filename, P.Dir+"/") + fmt.Sprintf(":%d", q.Line)
	}
	states, steps, merged := 0, 0, 0
	fns := map[*ssa.Function]bool{}
	for _, E := range R.C.runs {
		states += E.States
		steps += E.Steps
		merged += E.Merged
		for f := range E.Funcs {
			fns[f] = true
		}
	}
	var names []string
	for f := range fns {
		names = append(names, f.String())
	}
	sort.Strings(names)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	for _, old := range glob(filepath.Join(verif, "evidence", R.ID+".violation*.txt")) {
		os.Remove(old)
	}
	for i, v := range bad {
		if i >= 10 {
			break
		}
		rp := filepath.Join(verif, "evidence", fmt.Sprintf("%s.violation%d.txt", R.ID, i+1))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nconstruct %s\nat %s\n%s\n", R.ID, v.Key, pos(v.Pos), v.Msg)
		if len(v.Trace) > 0 {
			sb.WriteString("decisions on the path:\n")
			for _, t := range v.Trace {
				sb.WriteString("  " + t + "\n")
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Printf("%s: %s [%s] %s\n", R.ID, pos(v.Pos), v.Key, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", R.ID, rp)
	}
	counts := map[string]int{}
	for k, v := range R.counts {
		counts[k] = v
	}
	if len(names) > 0 {
		counts["functions_interpreted"] = len(names)
		counts["abstract_states"] = states
		counts["abstract_steps"] = steps
		counts["states_merged"] = merged
	}
	var cl []string
	for k := range counts {
		cl = append(cl, k)
	}
	sort.Strings(cl)
	var cs []string
	for _, k := range cl {
		cs = append(cs, fmt.Sprintf("%s=%d", k, counts[k]))
	}
	if len(names) > 60 {
		names = append(names[:60], fmt.Sprintf("... %d more", len(names)-60))
	}
	ev := buildEvidence(R, tier, counts, cs, names, len(bad), found)
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(verif, "evidence", R.ID+".json"), append(b, '\n'), 0o644)
	if len(bad) > 0 {
		return 1
	}
	fmt.Printf("%s held: %s\n", R.ID, strings.Join(cs, " "))
	return 0
}

func glob(p string) []string {
	m, _ := filepath.Glob(p)
	return m
}
