package sync

import (
	"fmt"
	"sort"

	mc "github.com/sisu-network/dheart/zzmc"
)

type Mutex = mc.Mutex
type RWMutex = mc.RWMutex
type WaitGroup = mc.WaitGroup
type Once = mc.Once
type Cond = mc.Cond
type Locker = mc.Locker

func NewCond(l Locker) *Cond { return mc.NewCond(l) }

// Map is sync.Map; every operation is one atomic step.
type Map struct {
	m  map[interface{}]interface{}
	vc mc.VC
}

func (m *Map) op() {
	mc.AtomicOp(&m.vc)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *Map) Load(k interface{}) (interface{}, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{})                  { m.op(); m.m[k] = v }
func (m *Map) Delete(k interface{})                    { m.op(); delete(m.m, k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op()
	ks := make([]interface{}, 0)
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool without reuse guarantees.
type Pool struct {
	New func() interface{}
	s   []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v interface{}) { p.s = append(p.s, v) }
