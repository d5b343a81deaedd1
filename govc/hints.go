package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// Hints: what an earlier run found, to try first. They decide only the order
// of work: every obligation and every invariant is proved again on each run,
// and a run the hints do not complete goes through the full search.
type hints struct {
	Alive  map[string]bool   `json:"alive,omitempty"`
	Solver map[string]string `json:"solver,omitempty"` // solver that decided a goal, ":t" with the theory of strings
}

func hintFile(contract string) string {
	d := os.Getenv("VERIF_DIR")
	if d == "" {
		d = "/verif"
	}
	return filepath.Join(d, "hints", contract+".json")
}

func loadHints(contract string) *hints {
	b, err := os.ReadFile(hintFile(contract))
	if err != nil || os.Getenv("GOVC_NOHINTS") != "" {
		return nil
	}
	h := &hints{}
	if json.Unmarshal(b, h) != nil {
		return nil
	}
	return h
}

// candKeys names the candidates of every loop.
func (x *Exec) candKeys() map[*Cand]string {
	out := map[*Cand]string{}
	n := map[string]int{}
	for _, li := range x.allLoops {
		for _, c := range li.cands {
			k := c.Desc
			n[k]++
			out[c] = fmt.Sprintf("%s#%d", k, n[k])
		}
	}
	return out
}

func (x *Exec) oblKeys() map[*Obl]string {
	out := map[*Obl]string{}
	n := map[string]int{}
	for _, o := range x.obls {
		k := o.Kind + " " + o.Name
		n[k]++
		out[o] = fmt.Sprintf("%s#%d", k, n[k])
	}
	return out
}

func (r SolveResult) hint() string {
	if r.Status != "unsat" || r.Solver == "simplify" || r.Solver == "z3-em" && !r.Theory {
		return ""
	}
	if r.Theory {
		return r.Solver + ":t"
	}
	return r.Solver
}

// saveHints records a run that discharged everything.
func (x *Exec) saveHints(contract string, candHint map[string]string) {
	if os.Getenv("GOVC_HINTS") == "" {
		return
	}
	h := hints{Alive: map[string]bool{}, Solver: map[string]string{}}
	keys := x.candKeys()
	for _, c := range x.cands {
		if c.Alive {
			h.Alive[keys[c]] = true
		}
	}
	for k, v := range candHint {
		if v != "" {
			h.Solver[k] = v
		}
	}
	ok := x.oblKeys()
	for _, o := range x.obls {
		if s := o.Res.hint(); s != "" {
			h.Solver[ok[o]] = s
		}
	}
	if len(h.Alive) == 0 && len(h.Solver) == 0 {
		_ = os.Remove(hintFile(contract))
		return
	}
	b, _ := json.MarshalIndent(h, "", " ")
	_ = os.MkdirAll(filepath.Dir(hintFile(contract)), 0o755)
	_ = os.WriteFile(hintFile(contract), append(b, '\n'), 0o644)
}
