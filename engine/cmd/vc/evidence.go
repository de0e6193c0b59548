package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/engine/eng"
)

type evidence struct {
	spec        *Spec
	tier        string
	seed        int
	notes       []string
	validated   int
	mismatch    int
	concolic    int
	unconfirmed int
	known       int
	violations  int
	samples     []map[string]interface{}
	cov         map[string]interface{}
	incomplete  []string
	perH        map[string]int
}

func newEvidence(s *Spec, tier string, seed int) *evidence {
	return &evidence{spec: s, tier: tier, seed: seed, cov: map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}}, perH: map[string]int{}}
}

func (e *evidence) note(s string) {
	if len(s) > 1500 {
		s = s[:1500]
	}
	e.notes = append(e.notes, s)
}

func (e *evidence) sample(s *shard, p *eng.PathSample) {
	if e.perH[s.name()] >= 2 || len(e.samples) >= 24 {
		return
	}
	e.perH[s.name()]++
	obs := []string{}
	for _, o := range p.Obs {
		obs = append(obs, o.Label+"="+o.Val)
	}
	in := map[string]uint64{}
	for k, v := range p.Model {
		in[k] = v
		if len(in) > 60 {
			break
		}
	}
	e.samples = append(e.samples, map[string]interface{}{"harness": s.name(), "bounds": s.params, "path_witness": in, "observed": obs})
}

func (e *evidence) collect(shards []*shard) {
	var st eng.Stats
	q, hits, sat, unsat, unk := 0, 0, 0, 0, 0
	var solver float64
	funcs := map[string]int{}
	aband := map[string]int{}
	reach := map[string]map[string]int{}
	exhaustive := true
	covq := map[string]int{}
	var rows []map[string]interface{}
	for _, s := range shards {
		if s.e == nil {
			exhaustive = false
			continue
		}
		x := s.e.Stats
		st.Paths += x.Paths
		st.Steps += x.Steps
		st.Forks += x.Forks
		st.Merges += x.Merges
		st.Asserts += x.Asserts
		st.AssertsConst += x.AssertsConst
		st.AssertsSolver += x.AssertsSolver
		st.Abandoned += x.Abandoned
		st.Assumed += x.Assumed
		so := s.e.Solver()
		q += so.Queries
		hits += so.Hits
		sat += so.NSat
		unsat += so.NUnsat
		unk += so.NUnknown
		solver += so.Time.Seconds()
		for f, n := range s.e.Funcs {
			funcs[f] += n
		}
		for a, n := range s.e.Abandon {
			aband[a] += n
		}
		if reach[s.name()] == nil {
			reach[s.name()] = map[string]int{}
		}
		for r, n := range s.e.Reach {
			reach[s.name()][r] += n
		}
		c := s.e.Coverage
		if strings.HasPrefix(c, "skipped") {
			c = "skipped"
		}
		covq[c]++
		if c == "SAT" {
			e.note(fmt.Sprintf("coverage query of %s %v is satisfiable: some inputs were not explored", s.name(), s.params))
			exhaustive = false
		}
		row := map[string]interface{}{"harness": s.name(), "bounds": s.params, "paths": x.Paths, "wall_s": round(s.wall), "coverage_query": s.e.Coverage}
		if s.e.Incompl != "" || s.err != "" {
			exhaustive = false
			row["reduced"] = s.e.Incompl + s.err
			e.incomplete = append(e.incomplete, fmt.Sprintf("%s %v: %s %s", s.name(), s.params, s.e.Incompl, s.err))
		}
		rows = append(rows, row)
	}
	for _, h := range e.spec.Harnesses {
		k := h.Pkg + "." + h.Fn
		for _, r := range h.Reach {
			if reach[k][r] == 0 {
				e.note("VACUITY: " + k + " never reached " + r)
				exhaustive = false
			}
		}
	}
	var enc, lib []string
	for f := range funcs {
		if strings.Contains(f, "zzsym") || strings.Contains(f, "/zzh") {
			continue
		}
		if strings.Contains(f, module) {
			enc = append(enc, strings.ReplaceAll(f, module+"/", ""))
		} else {
			lib = append(lib, f)
		}
	}
	sort.Strings(enc)
	sort.Strings(lib)
	bounds := []string{}
	for _, h := range e.spec.Harnesses {
		bounds = append(bounds, h.Fn+": "+h.Bound)
	}
	e.cov = map[string]interface{}{
		"states":                        st.Paths + st.Forks + st.Merges,
		"transitions":                   st.Steps,
		"traces_validated_against_impl": e.validated,
		"samples":                       e.samples,
		"exhaustive":                    exhaustive && e.violations == 0,
		"exhaustive_within":             "the stated bounds",
		"paths":                         st.Paths,
		"paths_assumed_out":             st.Assumed,
		"forks":                         st.Forks,
		"merges":                        st.Merges,
		"shards":                        len(shards),
		"assertions_evaluated":          st.Asserts,
		"assertions_decided_by_solver":  st.AssertsSolver,
		"assertions_constant_on_path":   st.AssertsConst,
		"solver":                        eng.SolverBin,
		"solver_queries":                q,
		"solver_cache_hits":             hits,
		"solver_sat":                    sat,
		"solver_unsat":                  unsat,
		"solver_unknown":                unk,
		"solver_time_s":                 round(solver),
		"coverage_queries":              covq,
		"functions_encoded":             enc,
		"library_functions_encoded":     lib,
		"bounds":                        bounds,
		"outside_the_claim":             e.spec.Outside,
		"abandoned_paths":               aband,
		"abandoned_witnesses_run":       e.concolic,
		"translation_mismatches":        e.mismatch,
		"unconfirmed_counterexamples":   e.unconfirmed,
		"known_findings":                e.known,
		"reduced_bounds":                e.incomplete,
		"reach":                         reach,
		"shard_table":                   rows,
	}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func (e *evidence) summary() {
	fmt.Printf("%s %s: paths=%v steps=%v queries=%v (unsat %v, sat %v, unknown %v) solver=%vs validated=%d mismatches=%d unconfirmed=%d exhaustive=%v violations=%d\n", e.spec.ID, e.tier,
		e.cov["paths"], e.cov["transitions"], e.cov["solver_queries"], e.cov["solver_unsat"], e.cov["solver_sat"], e.cov["solver_unknown"], e.cov["solver_time_s"], e.validated, e.mismatch, e.unconfirmed, e.cov["exhaustive"], e.violations)
	for _, n := range e.notes {
		fmt.Println("note:", n)
	}
	for _, n := range e.incomplete {
		fmt.Println("reduced bound:", n)
	}
}

func (e *evidence) write(wall time.Duration) {
	out := map[string]interface{}{
		"property":    e.spec.ID,
		"tier":        e.tier,
		"seed":        e.seed,
		"level":       "model_checking",
		"coverage":    e.cov,
		"assumptions": append(append([]string{}, e.spec.Assumptions...), commonAssumptions...),
		"wall_s":      round(wall.Seconds()),
		"violations":  e.violations,
	}
	if len(e.notes) > 0 {
		e.cov["notes"] = e.notes
	}
	j, _ := json.MarshalIndent(out, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	tmp := filepath.Join(dir, e.spec.ID+".json.tmp")
	if os.WriteFile(tmp, j, 0o644) == nil {
		os.Rename(tmp, filepath.Join(dir, e.spec.ID+".json"))
	}
}

var commonAssumptions = []string{
	"Encoding: go/ssa of /repo's current source is executed symbolically (bit-vector semantics for machine integers); lengths, offsets and pointers are concrete per path, bytes/bools/small integers symbolic.",
	"github.com/indigo-web/utils and github.com/indigo-web/chunkedbody are not available offline; /verif/stubs holds stand-ins with the API and contract the repository relies on (the repository's whole test suite passes with them).",
	"Assembly-backed helpers (internal/bytealg) and a few reflection-based ones (errors.Is, fmt.Sprintf verbs) are replaced by Go-level models; logging has an empty body; the clock yields arbitrary fixed instants.",
}
