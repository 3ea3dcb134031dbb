// Package libp2p stands in for the network: hosts, connections and byte streams under the control of the model
// checker. Options, keys, identities and addresses are those of the real library.
package libp2p

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/libp2p/go-libp2p/config"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/peerstore"
	"github.com/libp2p/go-libp2p/core/protocol"
	ma "github.com/multiformats/go-multiaddr"

	mc "github.com/sisu-network/dheart/zzmc"
)

var (
	ErrReset   = errors.New("stream reset")
	ErrNoAddrs = errors.New("no addresses")
	ErrDial    = errors.New("all dials failed")
)

// World is the network of one execution.
type World struct {
	Hosts map[peer.ID]*Host // that are running
	// Fault is asked before the operation of a host: listen, discover, connect, open. true: it fails.
	Fault func(op string, from, to peer.ID) bool
	// Chunk is asked how many of avail bytes a read of at most want bytes returns (0: none yet).
	Chunk func(s *Stream, avail, want int) int
	// ReadErr is asked before a read: true: the stream breaks there.
	ReadErr func(s *Stream) bool
	// WriteErr is asked before a write: n >= 0: only n bytes get through, then the stream breaks.
	WriteErr func(s *Stream, p []byte) int
	// Spent time of a failing dial.
	DialTime time.Duration
	Started  []peer.ID // every host that was started, in order
	Streams  []*Stream // every stream opened, at the side that opened it
	Pushes   []Push    // everything that got through, in order
	seq      int
}

// W returns the world of the running execution.
func W() *World {
	return mc.Local("libp2p", func() interface{} {
		return &World{Hosts: map[peer.ID]*Host{}, DialTime: 5 * time.Second}
	}).(*World)
}

func (w *World) fault(op string, from, to peer.ID) bool {
	mc.Point("p2p " + op)
	return w.Fault != nil && w.Fault(op, from, to)
}

// ---------------------------------------------------------------- hosts

type Host struct {
	host.Host // nothing else is provided
	id        peer.ID
	addrs     []ma.Multiaddr
	handlers  map[protocol.ID]network.StreamHandler
	book      *Book
	conns     map[peer.ID]bool
	Down      bool // cannot be reached and reaches nobody
	Closed    bool
	streams   []*Stream
}

// New makes a host that listens.
func New(opts ...config.Option) (host.Host, error) {
	var cfg config.Config
	if err := cfg.Apply(opts...); err != nil {
		return nil, err
	}
	w := W()
	key := cfg.PeerKey
	if key == nil {
		// the real library makes up an identity
		key, _, _ = crypto.GenerateEd25519Key(strings.NewReader(strings.Repeat("made up identity", 8)))
	}
	id, err := peer.IDFromPublicKey(key.GetPublic())
	if err != nil {
		return nil, err
	}
	if w.fault("listen", id, id) {
		return nil, errors.New("failed to listen on any addresses")
	}
	for _, o := range w.sorted() {
		for _, a := range o.addrs {
			for _, b := range cfg.ListenAddrs {
				if a.Equal(b) {
					return nil, fmt.Errorf("failed to listen on any addresses: %v: address already in use", a)
				}
			}
		}
	}
	h := &Host{id: id, addrs: cfg.ListenAddrs, handlers: map[protocol.ID]network.StreamHandler{}, conns: map[peer.ID]bool{}}
	h.book = &Book{m: map[peer.ID]map[string]*entry{}}
	w.Hosts[id] = h
	w.Started = append(w.Started, id)
	return h, nil
}

func (w *World) sorted() (o []*Host) {
	for _, h := range w.Hosts {
		o = append(o, h)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return
}

func (h *Host) ID() peer.ID                                             { return h.id }
func (h *Host) Addrs() []ma.Multiaddr                                   { return h.addrs }
func (h *Host) Peerstore() peerstore.Peerstore                          { return h.book }
func (h *Host) SetStreamHandler(p protocol.ID, f network.StreamHandler) { h.handlers[p] = f }
func (h *Host) RemoveStreamHandler(p protocol.ID)                       { delete(h.handlers, p) }
func (h *Host) Network() network.Network                                { return nil }
func (h *Host) String() string                                          { return "host " + h.id.Pretty() }

// Close stops the host: streams break, the addresses become free.
func (h *Host) Close() error {
	if h.Closed {
		return nil
	}
	h.Closed = true
	w := W()
	if w.Hosts[h.id] == h {
		delete(w.Hosts, h.id)
	}
	h.Disconnect()
	return nil
}

// Disconnect breaks all connections of the host.
func (h *Host) Disconnect() {
	for _, s := range h.streams {
		s.Break()
	}
	h.streams = nil
	for _, o := range W().sorted() {
		if o.conns[h.id] {
			delete(o.conns, h.id)
			o.book.expire(h.id)
		}
		if h.conns[o.id] {
			h.book.expire(o.id)
		}
	}
	h.conns = map[peer.ID]bool{}
}

// dial finds the host behind an id by the known addresses.
func (h *Host) dial(id peer.ID) (*Host, error) {
	w := W()
	if h.Closed {
		return nil, errors.New("host closed")
	}
	if id == h.id {
		return nil, errors.New("dial to self attempted")
	}
	o := w.Hosts[id]
	if h.conns[id] && o != nil && !o.Down && !h.Down {
		return o, nil
	}
	addrs := h.book.Addrs(id)
	if len(addrs) == 0 {
		return nil, ErrNoAddrs
	}
	fail := o == nil || o.Down || h.Down || w.fault("connect", h.id, id)
	if !fail {
		fail = true
		for _, a := range addrs {
			for _, b := range o.addrs {
				pa, _ := a.ValueForProtocol(ma.P_TCP)
				pb, _ := b.ValueForProtocol(ma.P_TCP)
				fail = fail && pa != pb
			}
		}
	}
	if fail {
		mc.Elapse(w.DialTime)
		return nil, ErrDial
	}
	h.conns[id], o.conns[h.id] = true, true
	h.book.AddAddrs(id, o.addrs, peerstore.ConnectedAddrTTL)
	o.book.AddAddrs(h.id, h.addrs, peerstore.ConnectedAddrTTL)
	return o, nil
}

func (h *Host) Connect(ctx context.Context, pi peer.AddrInfo) error {
	h.book.AddAddrs(pi.ID, pi.Addrs, peerstore.TempAddrTTL)
	_, err := h.dial(pi.ID)
	return err
}

func (h *Host) NewStream(ctx context.Context, p peer.ID, pids ...protocol.ID) (network.Stream, error) {
	w := W()
	if w.fault("open", h.id, p) {
		mc.Elapse(w.DialTime)
		return nil, errors.New("failed to open stream")
	}
	o, err := h.dial(p)
	if err != nil {
		return nil, err
	}
	for _, proto := range pids {
		f := o.handlers[proto]
		if f == nil {
			continue
		}
		a, b := w.Pipe(proto, h.id, o.id)
		h.streams, o.streams = append(h.streams, a), append(o.streams, b)
		w.Streams = append(w.Streams, a)
		mc.GoNamed("stream handler", func() { f(b) })
		return a, nil
	}
	return nil, errors.New("protocols not supported")
}

// ---------------------------------------------------------------- addresses

type entry struct {
	a   ma.Multiaddr
	end int64 // 0: for ever
	ttl time.Duration
}

// Book is the address book of a host.
type Book struct {
	peerstore.Peerstore // nothing else is provided
	m                   map[peer.ID]map[string]*entry
}

func (b *Book) set(p peer.ID, a ma.Multiaddr, ttl time.Duration, force bool) {
	if a == nil {
		return
	}
	if _, last := ma.SplitLast(a); last != nil && last.Protocol().Code == ma.P_P2P {
		a, _ = ma.SplitLast(a)
	}
	if b.m[p] == nil {
		b.m[p] = map[string]*entry{}
	}
	e := &entry{a: a, ttl: ttl}
	if ttl < peerstore.ConnectedAddrTTL {
		e.end = mc.Now() + int64(ttl)
	}
	if old := b.m[p][a.String()]; old != nil && !force && (old.end == 0 || e.end != 0 && old.end > e.end) {
		if e.end == 0 && ttl > old.ttl {
			old.ttl = ttl
		}
		return
	}
	b.m[p][a.String()] = e
}

// expire: the peer is no longer connected.
func (b *Book) expire(p peer.ID) {
	for _, e := range b.m[p] {
		if e.ttl == peerstore.ConnectedAddrTTL {
			e.ttl = peerstore.RecentlyConnectedAddrTTL
			e.end = mc.Now() + int64(e.ttl)
		}
	}
}

func (b *Book) AddAddr(p peer.ID, a ma.Multiaddr, ttl time.Duration) { b.set(p, a, ttl, false) }
func (b *Book) AddAddrs(p peer.ID, as []ma.Multiaddr, ttl time.Duration) {
	for _, a := range as {
		b.set(p, a, ttl, false)
	}
}
func (b *Book) SetAddr(p peer.ID, a ma.Multiaddr, ttl time.Duration) { b.set(p, a, ttl, true) }
func (b *Book) SetAddrs(p peer.ID, as []ma.Multiaddr, ttl time.Duration) {
	for _, a := range as {
		b.set(p, a, ttl, true)
	}
}
func (b *Book) ClearAddrs(p peer.ID) { delete(b.m, p) }
func (b *Book) Addrs(p peer.ID) (o []ma.Multiaddr) {
	var ks []string
	for k, e := range b.m[p] {
		if e.end == 0 || e.end > mc.Now() {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		o = append(o, b.m[p][k].a)
	}
	return
}
func (b *Book) PeerInfo(p peer.ID) peer.AddrInfo { return peer.AddrInfo{ID: p, Addrs: b.Addrs(p)} }

// ---------------------------------------------------------------- streams

type pipe struct {
	buf    []byte
	closed bool // no more is written
	total  int
}

// Stream is one side of a byte stream.
type Stream struct {
	network.Stream // nothing else is provided
	Name           string
	Proto          protocol.ID
	Local, Remote  peer.ID
	in, out        *pipe
	broken         *bool
	closed         bool
	Wire           []byte // all bytes that got through from this side
	peer           *Stream
}

// Pipe makes the two sides of a stream.
func (w *World) Pipe(proto protocol.ID, a, b peer.ID) (*Stream, *Stream) {
	x, y, br := &pipe{}, &pipe{}, false
	w.seq++
	n := fmt.Sprint("stream", w.seq)
	s := &Stream{Name: n, Proto: proto, Local: a, Remote: b, in: x, out: y, broken: &br}
	t := &Stream{Name: n, Proto: proto, Local: b, Remote: a, in: y, out: x, broken: &br}
	s.peer, t.peer = t, s
	return s, t
}

func (s *Stream) Other() *Stream { return s.peer }

// Break breaks the stream for both sides; what got through can still be read.
func (s *Stream) Break()                           { *s.broken = true }
func (s *Stream) Broken() bool                     { return *s.broken }
func (s *Stream) ID() string                       { return s.Name }
func (s *Stream) Protocol() protocol.ID            { return s.Proto }
func (s *Stream) SetProtocol(id protocol.ID) error { s.Proto = id; return nil }
func (s *Stream) Stat() network.Stats              { return network.Stats{} }
func (s *Stream) Conn() network.Conn               { return conn{s: s} }
func (s *Stream) Reset() error                     { *s.broken = true; s.closed = true; return nil }
func (s *Stream) Close() error                     { s.closed = true; s.out.closed = true; return nil }
func (s *Stream) CloseRead() error                 { s.closed = true; return nil }
func (s *Stream) CloseWrite() error                { s.out.closed = true; return nil }
func (s *Stream) SetDeadline(time.Time) error      { return nil }
func (s *Stream) SetReadDeadline(time.Time) error  { return nil }
func (s *Stream) SetWriteDeadline(time.Time) error { return nil }

func (s *Stream) Read(p []byte) (int, error) {
	w := W()
	mc.Point("stream read")
	if w.ReadErr != nil && w.ReadErr(s) {
		*s.broken = true
		s.in.buf = nil
		return 0, ErrReset
	}
	if len(p) == 0 {
		return 0, nil
	}
	mc.Block("stream read", func() bool { return len(s.in.buf) > 0 || s.in.closed || *s.broken || s.closed })
	if s.closed {
		return 0, ErrReset
	}
	n := len(s.in.buf)
	if n == 0 {
		if s.in.closed {
			return 0, io.EOF
		}
		return 0, ErrReset
	}
	if n > len(p) {
		n = len(p)
	}
	if w.Chunk != nil {
		n = w.Chunk(s, len(s.in.buf), n)
	}
	copy(p, s.in.buf[:n])
	s.in.buf = s.in.buf[n:]
	return n, nil
}

func (s *Stream) Write(p []byte) (int, error) {
	w := W()
	mc.Point("stream write")
	if *s.broken || s.closed || s.out.closed {
		return 0, ErrReset
	}
	if w.WriteErr != nil {
		if n := w.WriteErr(s, p); n >= 0 {
			if n > len(p) {
				n = len(p)
			}
			s.push(p[:n])
			*s.broken = true
			return n, ErrReset
		}
	}
	if n := len(p); n > maxPart { // a long write goes out in parts
		s.push(p[:maxPart])
		m, err := s.Write(p[maxPart:])
		return m + maxPart, err
	}
	s.push(p)
	return len(p), nil
}

const maxPart = 4000

func (s *Stream) push(p []byte) {
	s.out.buf = append(s.out.buf, p...)
	s.Wire = append(s.Wire, p...)
	w := W()
	w.Pushes = append(w.Pushes, Push{s, len(s.Wire)})
}

// Push records that bytes got through: so many in total.
type Push struct {
	S     *Stream
	Total int
}

type conn struct {
	network.Conn // nothing else is provided
	s            *Stream
}

func (c conn) LocalPeer() peer.ID  { return c.s.Local }
func (c conn) RemotePeer() peer.ID { return c.s.Remote }
func (c conn) ID() string          { return c.s.Name }
func (c conn) Close() error        { return c.s.Reset() }

// Hello returns a host of the harness that is no node: it only connects and opens streams.
func (w *World) Hello(id peer.ID, addr ma.Multiaddr) *Host {
	h := &Host{id: id, addrs: []ma.Multiaddr{addr}, handlers: map[protocol.ID]network.StreamHandler{}, conns: map[peer.ID]bool{}}
	h.book = &Book{m: map[peer.ID]map[string]*entry{}}
	w.Hosts[id] = h
	return h
}
