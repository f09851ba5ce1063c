package main

import (
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// deadline ends the verification: what is not decided by then stays undecided.
var deadline time.Time

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }

const lateMsg = "out of time"

func sortInts(a []int) { sort.Ints(a) }

// The order in which terms are made decides their numbers, and with them the shape of sums and conjunctions: maps are
// always walked in a fixed order.

func heapIDs(h map[int]*Object) []int {
	ids := make([]int, 0, len(h))
	for id := range h {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func envKeys(f *Frame) []ssa.Value {
	ks := make([]ssa.Value, 0, len(f.env))
	for k := range f.env {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Name() != ks[j].Name() {
			return ks[i].Name() < ks[j].Name()
		}
		return ks[i].Pos() < ks[j].Pos()
	})
	return ks
}
