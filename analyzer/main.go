package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	dump := flag.String("dump", "", "print the outcomes of a function")
	check := flag.String("check", "", "property to check, or all")
	root := flag.String("root", "/verif", "where evidence and known findings are")
	list := flag.Bool("list", false, "list the checks as JSON")
	flag.Parse()
	if *list {
		listChecks()
		return
	}
	if *check != "" {
		if *check != "all" {
			os.Exit(runCheck(*check, *repo, *root))
		}
		rc := 0
		for _, id := range checkIDs() {
			if r := runCheck(id, *repo, *root); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	p, err := Load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *dump == "all" {
		smoke(p)
		return
	}
	if *dump != "" {
		fn := p.find(*dump)
		if fn == nil {
			fmt.Println("not found")
			os.Exit(2)
		}
		e := NewEngine(p)
		if os.Getenv("WPK_ACCESS") != "" {
			e.Access = func(*Term) bool { return true }
		}
		for _, n := range strings.Split(os.Getenv("WPK_INLINE"), ",") {
			e.NoDefault[n] = true
		}
		e.OnOblige = func(o *Oblig) {
			if !o.OK {
				fmt.Printf("OBLIGATION %s %s: %s  %v\n", o.Kind, p.Pos(o.Pos), o.Desc, o.T)
			}
		}
		e.dumpFn(os.Stdout, fn)
	}
}

func checkIDs() []string {
	var ids []string
	for id := range checkDefs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func listChecks() {
	type row struct {
		ID, Method, Expl string
		Assume           []string
	}
	var rows []row
	for _, id := range checkIDs() {
		d := checkDefs[id]
		rows = append(rows, row{id, d.method, d.expl, d.assume})
	}
	b, _ := json.MarshalIndent(rows, "", " ")
	fmt.Println(string(b))
}

func smoke(p *Prog) {
	for _, fn := range p.Fns {
		if fn.Synthetic != "" || fn.Parent() != nil || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		e := NewEngine(p)
		e.MaxSteps = 400000
		bad := map[string]bool{}
		e.OnOblige = func(o *Oblig) {
			if !o.OK {
				bad[fmt.Sprintf("%s %s: %s  %v", o.Kind, p.Pos(o.Pos), o.Desc, o.T)] = true
			}
		}
		t0 := time.Now()
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("%s: CRASH %v\n", fn, r)
					if os.Getenv("TRACE") != "" {
						panic(r)
					}
				}
			}()
			outs := e.Run(fn, nil, nil)
			fmt.Printf("%s: %d outcomes %d steps %v, %d unproven, %d undecided\n", fn, len(outs), e.steps, time.Since(t0).Round(time.Millisecond), len(bad), len(e.Undecided))
		}()
		for _, u := range e.Undecided {
			fmt.Println("    UNDECIDED", u)
		}
	}
}
