package mc

import (
	"fmt"
	"unsafe"
)

// VC is a vector clock indexed by G id.
type VC []uint32

func (v VC) copy() VC { return append(VC(nil), v...) }

func (v VC) inc(i int) VC {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}

func (v VC) join(w VC) VC {
	for len(v) < len(w) {
		v = append(v, 0)
	}
	for i, x := range w {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type acc struct {
	g    int
	c    uint32
	site int
}

type cell struct {
	p     unsafe.Pointer // keeps the object alive so that its address is not reused
	w     acc
	hasW  bool
	reads []acc
}

// SiteNames is filled by the generated site table.
var SiteNames []string

// RaceIgnore lists site-name substrings that are not reported.
var RaceIgnore []string

func siteName(i int) string {
	if i >= 0 && i < len(SiteNames) {
		return SiteNames[i]
	}
	return "?"
}

func access(p unsafe.Pointer, write bool, site int) {
	e := cur
	if e == nil || e.cells == nil || e.aborting || e.cur == nil {
		return
	}
	g := e.cur
	k := uintptr(p)
	c := e.cells[k]
	if c == nil {
		c = &cell{p: p}
		e.cells[k] = c
	}
	if c.hasW && c.w.g != g.id && c.w.c > g.vc.at(c.w.g) {
		e.race(c.w, true, acc{g.id, 0, site}, write)
		return
	}
	if write {
		for _, r := range c.reads {
			if r.g != g.id && r.c > g.vc.at(r.g) {
				e.race(r, false, acc{g.id, 0, site}, true)
				return
			}
		}
		c.w = acc{g.id, g.vc.at(g.id), site}
		c.hasW = true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].g == g.id {
			c.reads[i].c = g.vc.at(g.id)
			c.reads[i].site = site
			return
		}
	}
	c.reads = append(c.reads, acc{g.id, g.vc.at(g.id), site})
}

func (e *Exec) race(a acc, aw bool, b acc, bw bool) {
	rw := map[bool]string{true: "write", false: "read"}
	n1, n2 := siteName(a.site), siteName(b.site)
	what := siteWhat(n2)
	if e.viol == nil {
		e.viol = &Violation{Key: "race:" + what,
			Detail: fmt.Sprintf("unsynchronised access to %s: %s at %s (%s) and %s at %s (%s)", what, rw[aw], n1, e.gs[a.g].name, rw[bw], n2, e.gs[b.g].name)}
	}
	e.end()
}

// site names are "what@file:line"
func siteWhat(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			return s[:i]
		}
	}
	return s
}

// R records a read of *p.
func R[T any](p *T, site int) *T {
	if cur != nil && cur.cells != nil && p != nil {
		access(unsafe.Pointer(p), false, site)
	}
	return p
}

// W records a write of *p.
func W[T any](p *T, site int) *T {
	if cur != nil && cur.cells != nil && p != nil {
		access(unsafe.Pointer(p), true, site)
	}
	return p
}

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	if cur != nil && cur.cells != nil && m != nil {
		access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site)
	}
	return m
}

// MW records a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	if cur != nil && cur.cells != nil && m != nil {
		access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site)
	}
	return m
}

// Acquire joins v into the current G's clock.
func Acquire(v VC) {
	if e := cur; e != nil && e.cells != nil && e.cur != nil {
		e.cur.vc = e.cur.vc.join(v)
	}
}

// ForeignRelease and ForeignAcquire order what happens before a call of a library that closes channels itself and what
// happens after such a channel was found closed.
func ForeignRelease() {
	if cur != nil {
		Release(&cur.foreign)
	}
}

func ForeignAcquire() {
	if cur != nil {
		Acquire(cur.foreign)
	}
}

// Release joins the current G's clock into *v and advances it.
func Release(v *VC) {
	if e := cur; e != nil && e.cells != nil && e.cur != nil {
		*v = (*v).join(e.cur.vc)
		e.cur.vc = e.cur.vc.inc(e.cur.id)
	}
}
