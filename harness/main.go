// Harness binary: closed scenarios over the rewritten packages of the current tree.
package main

import (
	"sort"

	mc "github.com/sisu-network/dheart/zzmc"
)

var registry = map[string]*mc.Property{}

// register adds scenarios to a property.
func register(id string, scs ...*mc.Scenario) {
	p := registry[id]
	if p == nil {
		p = &mc.Property{ID: id}
		registry[id] = p
	}
	p.Scenarios = append(p.Scenarios, scs...)
}

// small registers scenarios that take little time: they come first, and leave the rest of theirs to the others.
func small(id string, scs ...*mc.Scenario) {
	register(id)
	p := registry[id]
	p.Scenarios = append(append([]*mc.Scenario{}, scs...), p.Scenarios...)
}

func assume(id string, a ...string) {
	register(id)
	registry[id].Assumptions = append(registry[id].Assumptions, a...)
}

func main() {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var props []*mc.Property
	for _, id := range ids {
		props = append(props, registry[id])
	}
	mc.Main(props)
}
