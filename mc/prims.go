package mc

// Mutex is the controlled mutual exclusion lock.
type Mutex struct {
	ex   int
	held bool
	by   *G
	vc   VC
}

func (m *Mutex) init() {
	if cur != nil && m.ex != cur.id {
		*m = Mutex{ex: cur.id}
	}
}

func (m *Mutex) Lock() {
	m.init()
	yield("lock mutex", func() bool { return !m.held })
	if dead() {
		return
	}
	m.held = true
	if cur != nil {
		m.by = cur.cur
	}
	Acquire(m.vc)
}

func (m *Mutex) TryLock() bool {
	m.init()
	yield("trylock", nil)
	if m.held {
		return false
	}
	m.held = true
	Acquire(m.vc)
	return true
}

func (m *Mutex) Unlock() {
	m.init()
	if dead() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	Release(&m.vc)
	m.held = false
}

func dead() bool { return cur != nil && cur.aborting }

// RWMutex blocks new readers while a writer waits, as Go's does.
type RWMutex struct {
	ex      int
	w       bool // a writer holds the writer slot
	pending bool // the writer has announced itself
	writing bool
	readers int
	wvc     VC
	rvc     VC
}

func (m *RWMutex) init() {
	if cur != nil && m.ex != cur.id {
		*m = RWMutex{ex: cur.id}
	}
}

func (m *RWMutex) Lock() {
	m.init()
	yield("lock rwmutex", func() bool { return !m.w })
	if dead() {
		return
	}
	m.w = true
	m.pending = true
	if m.readers > 0 {
		yield("lock rwmutex (waiting for readers)", func() bool { return m.readers == 0 })
		if dead() {
			return
		}
	}
	m.writing = true
	Acquire(m.wvc)
	Acquire(m.rvc)
}

func (m *RWMutex) TryLock() bool {
	m.init()
	yield("trylock", nil)
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.pending, m.writing = true, true, true
	Acquire(m.wvc)
	Acquire(m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	m.init()
	if dead() {
		return
	}
	if !m.writing {
		panic("sync: Unlock of unlocked RWMutex")
	}
	Release(&m.wvc)
	m.w, m.pending, m.writing = false, false, false
}

func (m *RWMutex) RLock() {
	m.init()
	yield("rlock rwmutex", func() bool { return !m.pending })
	if dead() {
		return
	}
	m.readers++
	Acquire(m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	m.init()
	yield("tryrlock", nil)
	if m.pending {
		return false
	}
	m.readers++
	Acquire(m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	m.init()
	if dead() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	Release(&m.rvc)
	m.readers--
}

// WaitGroup is the controlled sync.WaitGroup.
type WaitGroup struct {
	ex int
	n  int
	vc VC
}

func (w *WaitGroup) init() {
	if cur != nil && w.ex != cur.id {
		*w = WaitGroup{ex: cur.id}
	}
}

func (w *WaitGroup) Add(d int) {
	w.init()
	if dead() {
		return
	}
	Release(&w.vc)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	w.init()
	yield("waitgroup", func() bool { return w.n == 0 })
	Acquire(w.vc)
}

// Once is the controlled sync.Once.
type Once struct {
	m    Mutex
	ex   int
	done bool
}

func (o *Once) Do(f func()) {
	if cur == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is the controlled sync.Cond.
type Cond struct {
	L    Locker
	wait []*bool
	vc   VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ok := false
	c.wait = append(c.wait, &ok)
	c.L.Unlock()
	yield("cond wait", func() bool { return ok })
	Acquire(c.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	yield("cond signal", nil)
	Release(&c.vc)
	if len(c.wait) > 0 {
		k := 0
		if len(c.wait) > 1 {
			k = chooseKind(len(c.wait), 1, 'c')
		}
		*c.wait[k] = true
		c.wait = append(append([]*bool{}, c.wait[:k]...), c.wait[k+1:]...)
	}
}

func (c *Cond) Broadcast() {
	yield("cond broadcast", nil)
	Release(&c.vc)
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
}

// AtomicOp is a scheduling point followed by an acquire-release on v.
func AtomicOp(v *VC) {
	if cur == nil || cur.aborting {
		return
	}
	yield("atomic", nil)
	Acquire(*v)
	Release(v)
}
