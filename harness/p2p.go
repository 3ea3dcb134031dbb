package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/p2p"
	ptypes "github.com/sisu-network/dheart/p2p/types"
	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/libp2p"
)

// ------------------------------------------------------------ C01 frames

func payload(tag, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(tag*37 + i*11 + i>>8)
	}
	return b
}

func frame(b []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// readAll reads messages until the first error and compares them with those sent, of which at least must arrive.
// What a read returned belongs to the caller: it must stay as it was while others are read.
func readAll(s *libp2p.Stream, sent [][]byte, must int) {
	var all [][]byte
	defer func() {
		for i := range all {
			mc.Check(bytes.Equal(all[i], sent[i]), "changed-later", "message %d changed after it had been read", i)
		}
	}()
	for i := 0; ; i++ {
		got, err := p2p.ReadStreamWithBuffer(s)
		if err != nil {
			mc.Check(len(got) == 0, "data-and-error", "%d bytes together with an error", len(got))
			mc.Check(i >= must, "lost", "message %d of %d cannot be read: %v", i, must, err)
			return
		}
		mc.Check(i < len(sent), "made-up", "message %d is read, %d were sent: %d bytes", i, len(sent), len(got))
		mc.Check(bytes.Equal(got, sent[i]), "content", "message %d of length %d is read with length %d or other content", i, len(sent[i]), len(got))
		all = append(all, got)
	}
}

func chooseMsgs(max int, sizes []int) (o [][]byte) {
	n := 1 + mc.Choose(max, 0)
	for i := 0; i < n; i++ {
		o = append(o, payload(i+1, sizes[mc.Choose(len(sizes), 0)]))
	}
	return
}

func send(a *libp2p.Stream, msgs [][]byte) {
	for i, m := range msgs {
		err := p2p.WriteStreamWithBuffer(append([]byte{}, m...), a)
		mc.Check(err == nil, "write-fails", "message %d of length %d cannot be written: %v", i, len(m), err)
	}
}

// chunks: every split of the bytes into reads; cost of a split
func frameChunks(max int, sizes []int, cost int) func() {
	return func() {
		w := libp2p.W()
		a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
		msgs := chooseMsgs(max, sizes)
		send(a, msgs)
		a.Close()
		empty := 0
		w.Chunk = func(s *libp2p.Stream, avail, want int) int {
			k := mc.Choose(want+1, cost)
			if k == want && empty < 2 {
				empty++
				return 0
			}
			empty = 0
			if k == 0 || k == want {
				return want
			}
			return k
		}
		readAll(b, msgs, len(msgs))
	}
}

// a writer and a reader at the same time
func frameLive() {
	w := libp2p.W()
	a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
	msgs := [][]byte{payload(1, 3), payload(2, 0), payload(3, 9)}
	mc.GoNamed("writer", func() { send(a, msgs); a.Close() })
	w.Chunk = func(s *libp2p.Stream, avail, want int) int {
		if want > 1 && mc.Choose(2, 1) == 1 {
			return 1
		}
		return want
	}
	readAll(b, msgs, len(msgs))
}

// two streams read by turns
func frameTwoStreams() {
	w := libp2p.W()
	var ends []*libp2p.Stream
	sent := make([][][]byte, 2)
	for s := 0; s < 2; s++ {
		a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
		for i := 0; i < 2; i++ {
			sent[s] = append(sent[s], payload(4*s+i, []int{2, 6}[mc.Choose(2, 0)]))
		}
		send(a, sent[s])
		a.Close()
		ends = append(ends, b)
	}
	w.Chunk = func(s *libp2p.Stream, avail, want int) int {
		if want > 1 && mc.Choose(2, 1) == 1 {
			return 1
		}
		return want
	}
	if mc.Choose(2, 0) == 0 {
		// both readers at once
		var g []*mc.G
		for s := range ends {
			s := s
			g = append(g, mc.GoNamed("reader", func() { readAll(ends[s], sent[s], 2) }))
		}
		for _, x := range g {
			x.Join()
		}
		return
	}
	var all [2][][]byte
	for left := 4; left > 0; left-- {
		s := mc.Choose(2, 0)
		if len(all[s]) == 2 {
			s = 1 - s
		}
		got, err := p2p.ReadStreamWithBuffer(ends[s])
		mc.Check(err == nil, "lost", "a message cannot be read: %v", err)
		all[s] = append(all[s], got)
	}
	for s := range all {
		for i, b := range all[s] {
			mc.Check(bytes.Equal(b, sent[s][i]), "content", "message %d of stream %d is not what was sent after all are read", i, s)
		}
	}
}

// large messages: splits at the places that matter
func frameLarge(sizes []int) func() {
	return func() {
		w := libp2p.W()
		a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
		msgs := [][]byte{payload(1, sizes[mc.Choose(len(sizes), 0)]), payload(2, []int{0, 3, 5000}[mc.Choose(3, 0)]), payload(3, 7)}
		send(a, msgs)
		a.Close()
		w.Chunk = func(s *libp2p.Stream, avail, want int) int {
			cuts := []int{want, 1, 3, 4, 5, 4095, 4096, want - 1, want / 2}
			k := cuts[mc.Choose(len(cuts), 1)]
			if k <= 0 || k > want {
				return want
			}
			return k
		}
		readAll(b, msgs, len(msgs))
	}
}

// the stream ends or breaks at any byte
func frameTruncated() {
	w := libp2p.W()
	a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
	msgs := chooseMsgs(2, []int{0, 1, 6})
	var all []byte
	var ends []int
	for _, m := range msgs {
		all = append(all, frame(m)...)
		ends = append(ends, len(all))
	}
	cut := mc.Choose(len(all)+1, 0)
	a.Write(all[:cut])
	whole := 0
	for _, e := range ends {
		if cut >= e {
			whole++
		}
	}
	if mc.Choose(2, 0) == 0 {
		a.Close()
	} else {
		b.Break()
	}
	readAll(b, msgs[:whole], whole)
}

// a read fails at any call
func frameReadError() {
	w := libp2p.W()
	a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
	msgs := chooseMsgs(2, []int{0, 1, 6})
	send(a, msgs)
	a.Close()
	failed := false
	w.ReadErr = func(*libp2p.Stream) bool {
		failed = failed || mc.Choose(2, 1) == 1
		return failed
	}
	w.Chunk = func(s *libp2p.Stream, avail, want int) int {
		if want > 1 && mc.Choose(2, 1) == 1 {
			return want - 1
		}
		return want
	}
	for i := 0; ; i++ {
		got, err := p2p.ReadStreamWithBuffer(b)
		if err != nil {
			mc.Check(failed || i == len(msgs), "lost", "message %d cannot be read: %v", i, err)
			mc.Check(len(got) == 0, "data-and-error", "%d bytes together with an error", len(got))
			return
		}
		mc.Check(i < len(msgs) && bytes.Equal(got, msgs[i]), "content", "message %d is not what was sent", i)
	}
}

// a write fails at any call after any number of bytes
func frameWriteError(sizes []int) func() {
	return func() {
		w := libp2p.W()
		a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
		msgs := chooseMsgs(2, sizes)
		failed := false
		w.WriteErr = func(s *libp2p.Stream, p []byte) int {
			if failed {
				return 0
			}
			k := mc.Choose(8, 1) // 1..7
			if k == 0 {
				return -1
			}
			failed = true
			return []int{0, 1, 3, 4, 5, len(p) - 1, len(p)}[k-1]
		}
		ok := 0
		for i, m := range msgs {
			before := failed
			err := p2p.WriteStreamWithBuffer(m, a)
			mc.Check((err != nil) == failed, "write-error", "writing message %d: failure %v, reported: %v", i, failed && !before, err)
			if err == nil {
				ok++
			}
		}
		a.Close()
		readAll(b, msgs, ok)
	}
}

// a header may announce too much, or more than follows
func frameHeader() {
	w := libp2p.W()
	a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
	first := mc.Choose(2, 0) == 1
	var msgs [][]byte
	if first {
		msgs = [][]byte{payload(1, 3)}
		send(a, msgs)
	}
	n := []uint32{20000001, 20000002, 1 << 25, 1 << 31, 1<<32 - 1, 20000000, 1 << 24, 9}[mc.Choose(8, 0)]
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, n)
	a.Write(append(h, payload(2, 8)...))
	if n > 20000000 {
		// must be refused without waiting for the payload
		readAll(b, msgs, len(msgs))
		return
	}
	a.Close()
	readAll(b, msgs, len(msgs))
}

// the limit itself
func frameLimit() {
	w := libp2p.W()
	a, b := w.Pipe(p2p.TSSProtocolID, "a", "b")
	n := []int{20000000, 19999999, 20000001, 20000100}[mc.Choose(4, 0)]
	msgs := [][]byte{payload(1, n), payload(2, 5)}
	if n <= 20000000 {
		send(a, msgs)
		a.Close()
		readAll(b, msgs, 2)
		return
	}
	err := p2p.WriteStreamWithBuffer(msgs[0], a)
	mc.Check(err != nil, "too-long-accepted", "a message of %d bytes, which no reader accepts, is written with success", n)
}

// ------------------------------------------------------------ C02 connections

type pnode struct {
	i    int
	key  []byte
	id   peer.ID
	cm   p2p.ConnectionManager
	got  []ptypes.P2PMessage
	raw  []*ptypes.P2PMessage
	end  *mc.G
	err  error
	addr string
}

func (n *pnode) OnNetworkMessage(m *ptypes.P2PMessage) {
	mc.Point("listener")
	n.raw = append(n.raw, m)
	n.got = append(n.got, ptypes.P2PMessage{FromPeerId: m.FromPeerId, Data: append([]byte{}, m.Data...)})
}

func peerKey(i int) ([]byte, peer.ID) {
	bz := p2p.GetPrivateKeyBytes(i, "secp256k1")
	k, err := crypto.UnmarshalSecp256k1PrivateKey(bz)
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPublicKey(k.GetPublic())
	if err != nil {
		panic(err)
	}
	return bz, id
}

func peerAddr(i int) string {
	_, id := peerKey(i)
	return fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", 28300+i, id)
}

// makeNode prepares node i with the given peers.
func makeNode(i int, peers ...int) *pnode {
	n := &pnode{i: i}
	n.key, n.id = peerKey(i)
	c := ptypes.ConnectionsConfig{Host: "0.0.0.0", Port: 28300 + i, Rendezvous: "r", Protocol: p2p.TSSProtocolID}
	for _, p := range peers {
		c.Peers = append(c.Peers, &ptypes.Peer{Address: peerAddr(p)})
	}
	n.cm = p2p.NewConnectionManager(c)
	return n
}

func (n *pnode) start() {
	n.end = mc.GoNamed(fmt.Sprint("start", n.i), func() { n.err = n.cm.Start(n.key, "secp256k1") })
}

func (n *pnode) listen()            { n.cm.AddListener(p2p.TSSProtocolID, n) }
func (n *pnode) host() *libp2p.Host { return libp2p.W().Hosts[n.id] }

func startAll(ns ...*pnode) {
	for _, n := range ns {
		n.start()
	}
	for _, n := range ns {
		n.end.Join()
		mc.Check(n.err == nil, "start", "node %d does not start: %v", n.i, n.err)
	}
}

func (n *pnode) write(to *pnode, data string) error {
	return n.cm.WriteToStream(to.id, p2p.TSSProtocolID, []byte(data))
}

// times counts deliveries of a message at n from a sender.
func (n *pnode) times(from *pnode, data string) (k int) {
	for i, m := range n.raw {
		mc.Check(m.FromPeerId == n.got[i].FromPeerId && bytes.Equal(m.Data, n.got[i].Data), "changed-later", "message %d of node %d changed after it had been delivered", i, n.i)
	}
	for _, m := range n.got {
		if string(m.Data) == data && m.FromPeerId == from.id.String() {
			k++
		}
	}
	return
}

// wireOrder lists the whole frames from a to b in the order they got through.
func wireOrder(a, b *pnode) (o []string) {
	pos := map[*libp2p.Stream]int{}
	for _, p := range libp2p.W().Pushes {
		if p.S.Local != a.id || p.S.Remote != b.id {
			continue
		}
		for {
			at := pos[p.S]
			if p.Total < at+4 {
				break
			}
			l := int(binary.LittleEndian.Uint32(p.S.Wire[at:]))
			if p.Total < at+4+l {
				break
			}
			o = append(o, string(p.S.Wire[at+4:at+4+l]))
			pos[p.S] = at + 4 + l
		}
	}
	return
}

func inOrder(all []string, want ...string) bool {
	i := 0
	for _, x := range all {
		if i < len(want) && x == want[i] {
			i++
		}
	}
	return i == len(want)
}

func long(s string, n int) string { return strings.Repeat(s, n/len(s)) }

// many writers to the same peers at the same time
func p2pWriters(three bool) func() {
	return func() {
		a, b := makeNode(0, 1), makeNode(1, 0)
		ns := []*pnode{a, b}
		var c *pnode
		if three {
			a, c = makeNode(0, 1, 2), makeNode(2)
			ns = []*pnode{a, b, c}
		}
		for _, n := range ns {
			n.listen()
		}
		startAll(ns...)
		type job struct {
			from, to *pnode
			msgs     []string
		}
		jobs := []job{{a, b, []string{"first of g1", "second, longer, of g1"}}, {a, b, []string{long("g2", 5000)}}, {b, a, []string{"back"}}}
		if three {
			jobs[1].msgs = append(jobs[1].msgs, "more g2")
			jobs[2] = job{a, c, []string{"to c", "again to c"}}
		}
		var gs []*mc.G
		for i := range jobs {
			j := jobs[i]
			gs = append(gs, mc.GoNamed(fmt.Sprint("sender", i), func() {
				for _, m := range j.msgs {
					err := j.from.write(j.to, m)
					mc.Check(err == nil, "write-fails", "writing to a reachable peer: %v", err)
				}
			}))
		}
		for _, g := range gs {
			g.Join()
		}
		mc.Quiesce()
		total := map[*pnode]int{}
		for _, j := range jobs {
			for _, m := range j.msgs {
				k := j.to.times(j.from, m)
				mc.Check(k == 1, "delivery", "a message is delivered %d times", k)
				total[j.to]++
			}
			mc.Check(inOrder(wireOrder(j.from, j.to), j.msgs...), "wire-order", "messages %q of one sender are on the wire as %q", j.msgs, wireOrder(j.from, j.to))
		}
		for _, n := range ns {
			mc.Check(len(n.got) == total[n], "made-up", "node %d got %d messages, not %d", n.i, len(n.got), total[n])
		}
	}
}

// streams break in all kinds of ways between and during writes
func p2pBreaks(writes, faults int) func() {
	return func() {
		w := libp2p.W()
		a, b := makeNode(0, 1), makeNode(1, 0)
		a.listen()
		b.listen()
		startAll(a, b)
		left := faults
		w.WriteErr = func(s *libp2p.Stream, p []byte) int {
			if left == 0 || s.Local != a.id {
				return -1
			}
			k := mc.Choose(5, 1)
			if k == 0 {
				return -1
			}
			left--
			return []int{0, 2, 4, len(p) - 1}[k-1]
		}
		w.Fault = func(op string, from, to peer.ID) bool {
			if left == 0 || from != a.id || op != "open" && op != "connect" {
				return false
			}
			if mc.Choose(2, 1) == 1 {
				left--
				return true
			}
			return false
		}
		received := func() []ptypes.P2PMessage { return b.got }
		spent := 0 // faults a write may still fail for
		expect := 0
		var must []string
		for k := 0; k < writes; k++ {
			if left > 0 {
				switch mc.Choose(5, 1) {
				case 1: // the connection breaks
					left--
					spent++
					a.host().Disconnect()
				case 2: // the other node restarts
					left--
					spent++
					got := b.got
					b.host().Close()
					b = makeNode(1, 0)
					b.got = got
					b.listen()
					startAll(b)
				case 3: // the other node is away for a while
					left--
					spent++
					h := b.host()
					h.Disconnect()
					h.Down = true
					err := a.write(b, "lost")
					mc.Check(err != nil, "lost-success", "a write to an unreachable peer succeeds")
					mc.Elapse([]time.Duration{time.Second, time.Hour}[mc.Choose(2, 0)])
					h.Down = false
					spent-- // the failed write saw the break
				case 4: // only the streams break
					left--
					spent++
					for _, s := range w.Streams {
						s.Break()
					}
				}
			}
			m := fmt.Sprint("message ", k)
			before := left
			err := a.write(b, m)
			mc.Settle()
			mc.Note("write %d: %v", k, err)
			used := before - left
			if err != nil {
				mc.Check(used > 0 || spent > 0, "write-fails", "write %d to a reachable peer fails: %v", k, err)
				if used == 0 {
					spent--
				}
			} else {
				mc.Check(used == 0, "lost-success", "write %d succeeds although the stream broke", k)
				spent = 0
				must = append(must, m)
				expect++
			}
		}
		mc.Quiesce()
		for _, m := range must {
			n := 0
			for _, g := range received() {
				if string(g.Data) == m {
					n++
				}
			}
			mc.Check(n == 1, "delivery", "%q, written with success, is delivered %d times", m, n)
		}
		for _, g := range received() {
			ok := false
			for k := 0; k < writes; k++ {
				ok = ok || string(g.Data) == fmt.Sprint("message ", k)
			}
			mc.Check(ok && g.FromPeerId == a.id.String(), "made-up", "%q from %s was not sent", g.Data, g.FromPeerId)
		}
		_ = expect
	}
}

// a listener that comes late, and listeners of other protocols
func p2pLate() {
	a, b := makeNode(0, 1), makeNode(1, 0)
	startAll(a, b)
	early := mc.Choose(3, 0)
	for k := 0; k < early; k++ {
		err := a.write(b, fmt.Sprint("early ", k))
		mc.Check(err == nil, "write-fails", "%v", err)
	}
	if mc.Choose(2, 0) == 1 {
		mc.Settle()
	}
	ping := &pnode{}
	b.cm.AddListener(p2p.PingProtocolID, ping)
	b.listen()
	for k := 0; k < 3; k++ {
		if err := a.write(b, fmt.Sprint("late ", k)); err != nil {
			mc.Check(early > 0 && k == 0, "write-fails", "%v", err)
		} else {
			mc.Quiesce()
			n := b.times(a, fmt.Sprint("late ", k))
			mc.Check(n == 1, "delivery", "a message to a peer whose listener came late is delivered %d times", n)
		}
	}
	err := a.cm.WriteToStream(b.id, p2p.PingProtocolID, []byte("ping"))
	mc.Check(err == nil, "write-fails", "%v", err)
	mc.Quiesce()
	mc.Check(ping.times(a, "ping") == 1 && b.times(a, "ping") == 0 && len(ping.got) == 1, "protocol", "a message of one protocol goes to the listener of another")
}

// unknown and unreachable peers, and writes to others meanwhile
func p2pUnreachable() {
	w := libp2p.W()
	a, b, c := makeNode(0, 1, 2), makeNode(1), makeNode(2)
	_, stranger := peerKey(7)
	a.listen()
	b.listen()
	c.listen()
	dead := mc.Choose(2, 0) == 0
	if dead {
		b.start()
		a.start()
		b.end.Join()
	} else {
		startAll(b, c, a)
		h := c.host()
		h.Disconnect()
		h.Down = true
	}
	if mc.Choose(2, 0) == 1 {
		a.end.Join() // Start tries for minutes if a peer is away
	} else {
		mc.Elapse(7 * time.Second)
	}
	w.DialTime = 10 * time.Second
	var errs [3]error
	var took time.Duration
	g1 := mc.GoNamed("to-dead", func() { errs[0] = a.write(c, "x") })
	g2 := mc.GoNamed("to-stranger", func() { errs[1] = a.cm.WriteToStream(stranger, p2p.TSSProtocolID, []byte("x")) })
	g3 := mc.GoNamed("to-live", func() {
		t := mc.Now()
		errs[2] = a.write(b, "y")
		took = time.Duration(mc.Now() - t)
	})
	g1.Join()
	g2.Join()
	g3.Join()
	mc.Check(errs[0] != nil, "lost-success", "a write to an unreachable peer succeeds")
	mc.Check(errs[1] != nil, "lost-success", "a write to an unknown peer succeeds")
	mc.Check(errs[2] == nil, "write-fails", "a write to a reachable peer fails: %v", errs[2])
	mc.Check(took < time.Second, "disturbed", "a write to a reachable peer takes %v because another one is away", took)
	mc.Settle()
	mc.Check(b.times(a, "y") == 1 && len(b.got) == 1, "delivery", "a message is delivered %d times", b.times(a, "y"))
	// the other one comes back
	if dead {
		c.start()
	} else {
		for _, o := range []*pnode{c} {
			o.host().Down = false
		}
	}
	mc.Elapse(4 * time.Minute)
	err := a.write(c, "z")
	if err != nil {
		err = a.write(c, "z")
	}
	mc.Check(err == nil, "write-fails", "a peer that came back cannot be written to: %v", err)
	mc.Quiesce()
	mc.Check(c.times(a, "z") == 1, "delivery", "a message is delivered %d times", c.times(a, "z"))
}

// writing while the node starts
func p2pStarting() {
	a, b := makeNode(0, 1), makeNode(1, 0)
	a.listen()
	b.listen()
	startAll(b)
	a.start()
	ok := 0
	for k := 0; k < 3; k++ {
		if a.write(b, fmt.Sprint(k)) == nil {
			ok++
		}
		mc.Point("next")
	}
	a.end.Join()
	mc.Check(a.err == nil, "start", "%v", a.err)
	mc.Check(a.write(b, "end") == nil, "write-fails", "a started node cannot write")
	mc.Quiesce()
	mc.Check(b.times(a, "end") == 1 && len(b.got) == ok+1, "delivery", "%d messages delivered, %d written", len(b.got), ok+1)
}

// raw streams from a stranger: bad bytes on one stream do not disturb others
func p2pBadStream() {
	w := libp2p.W()
	a, b := makeNode(0, 1), makeNode(1, 0)
	a.listen()
	b.listen()
	startAll(a, b)
	bad := [][]byte{{}, {1}, {255, 255, 255, 255, 1}, {3, 0, 0, 0, 9}, frame([]byte("ok"))}[mc.Choose(5, 0)]
	_, id := peerKey(5)
	h := w.Hello(id, b.host().Addrs()[0])
	h.Peerstore().AddAddrs(b.id, b.host().Addrs(), time.Hour)
	s, err := h.NewStream(nil, b.id, protocol.ID(p2p.TSSProtocolID))
	if err != nil {
		panic(err)
	}
	s.Write(bad)
	switch mc.Choose(3, 0) {
	case 1:
		s.Close()
	case 2:
		s.Reset()
	}
	mc.Check(a.write(b, "fine") == nil, "write-fails", "a write fails next to a bad stream")
	mc.Quiesce()
	mc.Check(b.times(a, "fine") == 1, "delivery", "a message is lost next to a bad stream")
	for _, m := range b.got {
		if m.FromPeerId == id.String() {
			mc.Check(string(m.Data) == "ok" && len(bad) == 6, "made-up", "%q is delivered from bad bytes", m.Data)
		} else {
			mc.Check(m.FromPeerId == a.id.String() && string(m.Data) == "fine", "made-up", "%q is delivered", m.Data)
		}
	}
}

func init() {
	register("C01",
		&mc.Scenario{Name: "frame-all-chunks", Sched: mc.Coop, Bounds: []int{0}, Body: frameChunks(1, []int{0, 1, 2, 5}, 0)},
		&mc.Scenario{Name: "frame-all-chunks2", Deep: true, Sched: mc.Coop, Bounds: []int{0}, Body: frameChunks(2, []int{0, 1}, 0)},
		&mc.Scenario{Name: "frame-chunks", Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3, 4}, Body: frameChunks(3, []int{0, 1, 4, 7}, 1)},
		&mc.Scenario{Name: "frame-live", Sched: mc.Delay, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: frameLive},
		&mc.Scenario{Name: "frame-two-streams", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: frameTwoStreams},
		&mc.Scenario{Name: "frame-large", Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: frameLarge([]int{4091, 4092, 4093, 4096, 4097, 70000})},
		&mc.Scenario{Name: "frame-truncated", Sched: mc.Coop, Bounds: []int{0}, Body: frameTruncated},
		&mc.Scenario{Name: "frame-read-error", Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3, 4}, Body: frameReadError},
		&mc.Scenario{Name: "frame-write-error", Sched: mc.Coop, Bounds: []int{0, 1}, Body: frameWriteError([]int{0, 1, 6, 5000, 9000})},
		&mc.Scenario{Name: "frame-header", Sched: mc.Coop, Bounds: []int{0}, Body: frameHeader},
		&mc.Scenario{Name: "frame-limit", Sched: mc.Coop, Bounds: []int{0}, Body: frameLimit},
	)
	register("C02",
		&mc.Scenario{Name: "p2p-writers", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: p2pWriters(false)},
		&mc.Scenario{Name: "p2p-writers3", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: p2pWriters(true)},
		&mc.Scenario{Name: "p2p-breaks", Sched: mc.Coop, Bounds: []int{0, 1, 2}, BoundsDeep: []int{0, 1, 2, 3}, Body: p2pBreaks(4, 2)},
		&mc.Scenario{Name: "p2p-late", Sched: mc.Delay, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: p2pLate},
		&mc.Scenario{Name: "p2p-unreachable", Sched: mc.Delay, Race: true, Bounds: []int{0, 1}, BoundsDeep: []int{0, 1, 2}, Body: p2pUnreachable},
		&mc.Scenario{Name: "p2p-starting", Sched: mc.Delay, Race: true, Bounds: []int{0, 1, 2}, Body: p2pStarting},
		&mc.Scenario{Name: "p2p-bad-stream", Sched: mc.Delay, Bounds: []int{0, 1}, Body: p2pBadStream},
	)
	assume("C02", "libp2p is represented by a stand-in: byte streams that deliver in order until they break, a remote handler per stream, dialling through addresses that are forgotten as the library forgets them; the identity of the remote side is that of the key the node was started with.")
}
