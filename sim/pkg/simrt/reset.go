package simrt

import "sort"

// Package-level variables of the code under test start afresh with every
// simulated process.

type resetter struct {
	pkg, prio int
	f         func()
}

var (
	resetters []resetter
	pkgs      = map[string]int{}
	sorted    bool
)

// OnReset registers what initialises a variable. Packages are initialised in
// the order in which they register, which is Go's.
func OnReset(pkg string, prio int, f func()) {
	if _, ok := pkgs[pkg]; !ok {
		pkgs[pkg] = len(pkgs)
	}
	resetters = append(resetters, resetter{pkgs[pkg], prio, f})
	sorted = false
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Reset initialises all variables again. An initialisation that cannot be
// repeated (it registers something, say) is left alone from then on.
func Reset() {
	if !sorted {
		sort.SliceStable(resetters, func(i, j int) bool {
			a, b := resetters[i], resetters[j]
			return a.pkg < b.pkg || a.pkg == b.pkg && a.prio < b.prio
		})
		sorted = true
	}
	keep := resetters[:0]
	for _, r := range resetters {
		if func() (ok bool) {
			defer func() { ok = recover() == nil }()
			r.f()
			return
		}() {
			keep = append(keep, r)
		}
	}
	resetters = keep
}
