package mc

import (
	"fmt"
	"unsafe"
)

// Channels keep their Go type.  A buffered channel uses its real buffer (only
// one G runs at a time, so a non-blocking real operation is decisive); an
// unbuffered one rendezvouses through chanState.
type chanState struct {
	closed  bool
	foreign bool // closed by code that is not under control
	stash   []interface{} // values taken from a foreign channel while polling
	offers  []*offer      // blocked senders on an unbuffered channel
	waiters []*rwait      // blocked receivers on an unbuffered channel
	vc      VC
	keep    interface{}
}

type selState struct {
	done bool
	idx  int
	val  interface{}
	ok   bool
	g    *G
	vc   VC
}

type offer struct {
	val interface{}
	sel *selState
	idx int
	vc  VC
}

type rwait struct {
	sel *selState
	idx int
}

func chanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func state(p unsafe.Pointer, keep interface{}) *chanState {
	e := cur
	s := e.chans[p]
	if s == nil {
		s = &chanState{keep: keep}
		e.chans[p] = s
	}
	return s
}

// recvReady polls c; sel is the waiting operation itself (its own offers do not count).
func recvReady[T any](c <-chan T, s *chanState, self *selState) bool {
	if c == nil {
		return false
	}
	if len(s.stash) > 0 || s.closed || len(c) > 0 {
		return true
	}
	for _, o := range s.offers {
		if !o.sel.done && o.sel != self {
			return true
		}
	}
	select {
	case v, ok := <-c:
		if ok {
			s.stash = append(s.stash, v)
		} else {
			s.closed = true
			s.foreign = true
		}
		return true
	default:
	}
	return false
}

// takeRecv performs a ready receive.
func takeRecv[T any](c <-chan T, s *chanState, self *selState) (v T, ok bool) {
	if len(s.stash) > 0 {
		x := s.stash[0]
		s.stash = s.stash[1:]
		v, _ = x.(T)
		return v, true
	}
	Acquire(s.vc)
	if len(c) > 0 {
		v, ok = <-c
		Release(&s.vc)
		return v, ok
	}
	for i, o := range s.offers {
		if o.sel.done || o.sel == self {
			continue
		}
		s.offers = append(append([]*offer{}, s.offers[:i]...), s.offers[i+1:]...)
		o.sel.done = true
		o.sel.idx = o.idx
		Acquire(o.vc)
		Release(&o.sel.vc)
		v, _ = o.val.(T)
		return v, true
	}
	if s.closed {
		if s.foreign {
			ForeignAcquire()
		}
		return v, false
	}
	v, ok = <-c
	return v, ok
}

func sendReady[T any](c chan<- T, s *chanState, self *selState) bool {
	if c == nil {
		return false
	}
	if s.closed {
		return true // panics
	}
	if cap(c) > 0 {
		return len(c) < cap(c)
	}
	for _, w := range s.waiters {
		if !w.sel.done && w.sel != self {
			return true
		}
	}
	return false
}

func doSend[T any](c chan<- T, v T, s *chanState, self *selState) {
	if s.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	if cap(c) > 0 {
		c <- v
		Acquire(s.vc) // k-th receive happens before k+C-th send completes
		Release(&s.vc)
		return
	}
	for i, w := range s.waiters {
		if w.sel.done || w.sel == self {
			continue
		}
		s.waiters = append(append([]*rwait{}, s.waiters[:i]...), s.waiters[i+1:]...)
		w.sel.done = true
		w.sel.idx = w.idx
		w.sel.val = v
		w.sel.ok = true
		Release(&w.sel.vc)
		return
	}
	panic("mc: send not ready")
}

// Sender performs ch <- v.
type Sender[T any] struct{ c chan<- T }

// S wraps a channel for sending.
func S[T any](c chan<- T) Sender[T] { return Sender[T]{c} }

// Send is ch <- v.
func (s Sender[T]) Send(v T) {
	if !Active() {
		if cur == nil {
			select {
			case s.c <- v:
			default:
				panic("mc: blocking send outside execution")
			}
		}
		return
	}
	if s.c == nil {
		yield("send(nil chan)", func() bool { return false })
		return
	}
	sel := NewSelect(false)
	SelSend(sel, s.c).Val(v)
	sel.op = "send"
	sel.Do()
}

// Recv is <-ch.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	if !Active() {
		if cur == nil {
			select {
			case v, ok = <-c:
			default:
				panic("mc: blocking receive outside execution")
			}
		}
		return
	}
	if c == nil {
		yield("recv(nil chan)", func() bool { return false })
		return
	}
	sel := NewSelect(false)
	r := SelRecv(sel, c)
	sel.op = "recv"
	sel.Do()
	return r.v, r.ok
}

// Close is close(ch).
func Close[T any](c chan<- T) {
	if cur == nil {
		close(c)
		return
	}
	if cur.aborting {
		return
	}
	yield("close", nil)
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	s := state(p, c)
	Release(&s.vc)
	s.closed = true
	close(c)
}

type selCase struct {
	ready   func() bool
	fire    func()
	post    func()
	unpost  func()
	collect func()
}

// Select is one select statement being executed.
type Select struct {
	cases  []selCase
	hasDef bool
	st     *selState
	op     string
}

func NewSelect(hasDefault bool) *Select {
	s := &Select{hasDef: hasDefault, st: &selState{}, op: "select"}
	if cur != nil {
		s.st.g = cur.cur
	}
	return s
}

// RecvCase is a receive case; V/OK give the received value after Do.
type RecvCase[T any] struct {
	v  T
	ok bool
}

func (r *RecvCase[T]) V() T          { return r.v }
func (r *RecvCase[T]) V2() (T, bool) { return r.v, r.ok }

func SelRecv[T any](s *Select, c <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	i := len(s.cases)
	if c == nil || !Active() {
		s.cases = append(s.cases, selCase{ready: func() bool { return false }})
		return r
	}
	cs := state(chanPtr(c), c)
	s.cases = append(s.cases, selCase{
		ready: func() bool { return recvReady(c, cs, s.st) },
		fire:  func() { r.v, r.ok = takeRecv(c, cs, s.st) },
		post: func() {
			if cap(c) == 0 {
				cs.waiters = append(cs.waiters, &rwait{s.st, i})
			}
		},
		unpost: func() {
			for k, w := range cs.waiters {
				if w.sel == s.st && w.idx == i {
					cs.waiters = append(append([]*rwait{}, cs.waiters[:k]...), cs.waiters[k+1:]...)
					break
				}
			}
		},
		collect: func() { r.v, _ = s.st.val.(T); r.ok = s.st.ok; Acquire(s.st.vc) },
	})
	return r
}

type sendCase[T any] struct {
	s *Select
	c chan<- T
}

func SelSend[T any](s *Select, c chan<- T) sendCase[T] { return sendCase[T]{s, c} }

func (sc sendCase[T]) Val(v T) {
	s, c := sc.s, sc.c
	i := len(s.cases)
	if c == nil || !Active() {
		s.cases = append(s.cases, selCase{ready: func() bool { return false }})
		return
	}
	cs := state(*(*unsafe.Pointer)(unsafe.Pointer(&c)), c)
	s.cases = append(s.cases, selCase{
		ready: func() bool { return sendReady(c, cs, s.st) },
		fire:  func() { doSend(c, v, cs, s.st) },
		post: func() {
			if cap(c) == 0 {
				o := &offer{val: v, sel: s.st, idx: i}
				Release(&o.vc)
				cs.offers = append(cs.offers, o)
			}
		},
		unpost: func() {
			for k, o := range cs.offers {
				if o.sel == s.st && o.idx == i {
					cs.offers = append(append([]*offer{}, cs.offers[:k]...), cs.offers[k+1:]...)
					break
				}
			}
		},
		collect: func() { Acquire(s.st.vc) },
	})
}

// Do runs the select and returns the index of the chosen case (-1: default).
func (s *Select) Do() int {
	e := cur
	if e == nil {
		panic("mc: select outside execution")
	}
	if e.aborting {
		return -2
	}
	anyReady := func() bool {
		if s.st.done {
			return true
		}
		for i := range s.cases {
			if s.cases[i].ready() {
				return true
			}
		}
		return false
	}
	yield(s.op, nil) // visible operation
	if e.aborting {
		return -2
	}
	if !anyReady() {
		if s.hasDef {
			return -1
		}
		for i := range s.cases {
			if s.cases[i].post != nil {
				s.cases[i].post()
			}
		}
		yield(s.op, anyReady)
		for i := range s.cases {
			if s.cases[i].unpost != nil {
				s.cases[i].unpost()
			}
		}
		if e.aborting {
			return -2
		}
		if s.st.done {
			s.cases[s.st.idx].collect()
			return s.st.idx
		}
	}
	var ready []int
	for i := range s.cases {
		if s.cases[i].ready() {
			ready = append(ready, i)
		}
	}
	k := 0
	if len(ready) > 1 {
		k = chooseKind(len(ready), 1, 'c')
	}
	i := ready[k]
	s.cases[i].fire()
	return i
}
