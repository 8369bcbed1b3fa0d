package main

import (
	"sort"
	"sync"

	"verif.local/sim/work"
)

var (
	refMu  sync.Mutex
	refMap = map[string]string{}
)

// refsForScs returns what fresh processes, one for each, said about the sources
// the given scenarios use.
func refsForScs(scs []*work.Scenario) *work.Refs {
	refMu.Lock()
	defer refMu.Unlock()
	need := map[string]bool{}
	for _, sc := range scs {
		for _, k := range work.RefKeys(sc) {
			if _, ok := refMap[k]; !ok {
				need[k] = true
			}
		}
	}
	var keys []string
	for k := range need {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	for _, k := range keys {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			po := runJob(Job{Prop: *prop, Tier: *tier, Scs: []*work.Scenario{work.RefScenario(k)}, Full: true})
			if po.died || len(po.results) != 1 || len(po.results[0].Hist) != 1 {
				return // the run itself will show why
			}
			mu.Lock()
			refMap[k] = po.results[0].Hist[0].Dig
			mu.Unlock()
		}()
	}
	wg.Wait()
	r := &work.Refs{M: map[string]string{}}
	for _, sc := range scs {
		for _, k := range work.RefKeys(sc) {
			if v, ok := refMap[k]; ok {
				r.M[k] = v
			}
		}
	}
	return r
}

// refsFor is refsForScs for the scenarios of some seeds.
func refsFor(seeds []uint64) *work.Refs {
	if *prop != "C13" {
		return nil
	}
	var scs []*work.Scenario
	for _, s := range seeds {
		scs = append(scs, work.Generate(*prop, s, *tier, len(sites)))
	}
	return refsForScs(scs)
}
