package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Checker struct {
	P           *Prog
	base        *baseState
	runs        []*Explorer
	mutG        []*ssa.Global
	gsyms       map[*ssa.Global]*V
	keepGlobals bool
	Verif       string
	Thorough    bool
	rs          *rootSet
	sess        []session
	sessAll     []session
	noErr       map[*V]bool
	caps        map[string]int64
	csw         []csWorld
	cpw         []cpWorld
	instrs      map[ssa.Instruction]int
}

type rule struct {
	run    func(C *Checker, R *Report)
	method string // the deciding rule, for the evidence
}

var rules = map[string]rule{}

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "directory with the specifications")
	prop := flag.String("property", "", "property to decide, or all")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	P, err := load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	rc := 0
	for _, id := range ids {
		r, ok := rules[id]
		if !ok {
			fmt.Println("no rule for", id)
			os.Exit(2)
		}
		C := &Checker{P: P, Verif: *verif, Thorough: tier == "thorough"}
		C.base = P.evalInit()
		checkStart = time.Now()
		R := &Report{C: C, ID: id, Rule: r.method, seen: map[string]bool{}, counts: map[string]int{}, start: time.Now()}
		for _, l := range C.base.limits {
			R.notes = append(R.notes, l)
		}
		r.run(C, R)
		if c := R.finish(*verif, tier); c > rc {
			rc = c
		}
	}
	os.Exit(rc)
}

func buildEvidence(R *Report, tier string, counts map[string]int, cs, names []string, nviol int, found []known) map[string]any {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var kf []string
	for _, k := range found {
		kf = append(kf, k.key)
	}
	cov := map[string]any{
		"explanation": "Static analysis of the current source of " + R.C.P.Dir + " (" + R.C.P.Module + "): " + R.Rule + " Analysed on this run: " + strings.Join(cs, ", ") + ".",
		"rule":        R.Rule,
		"counts":      counts,
		"samples":     R.samples,
	}
	if len(names) > 0 {
		cov["functions"] = names
	}
	if len(kf) > 0 {
		cov["known_findings_reported"] = kf
	}
	if len(R.notes) > 0 {
		cov["notes"] = R.notes
	}
	return map[string]any{
		"property": R.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov,
		"assumptions": []string{
			"the models of the standard library, gorilla/websocket and google/uuid in /verif/checker/models.go",
			"go/types and go/ssa represent the program correctly",
		},
		"wall_s":     float64(int(time.Since(R.start).Seconds()*1000)) / 1000,
		"violations": nviol,
	}
}

func (C *Checker) specFile(parts ...string) string {
	return filepath.Join(append([]string{C.Verif, "spec"}, parts...)...)
}
