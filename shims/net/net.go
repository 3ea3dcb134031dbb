// Package net stands in for listening in package server.
package net

import (
	"errors"
	rnet "net"
	"strconv"

	mc "github.com/sisu-network/dheart/zzmc"
)

// World is the network of the machine of one execution.
type World struct {
	Taken     func(addr string) bool // whether a port is in use
	Listeners []*Listener
}

func W() *World { return mc.Local("net", func() interface{} { return &World{} }).(*World) }

type Listener struct {
	Address string
	Port    int
	Host    string
	Closed  bool
}

var errInUse = errors.New("bind: address already in use")

func Listen(network, address string) (rnet.Listener, error) {
	mc.Point("listen")
	if network != "tcp" && network != "tcp4" && network != "tcp6" {
		return nil, rnet.UnknownNetworkError(network)
	}
	host, port, err := rnet.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(port)
	if err != nil || n < 0 || n > 65535 {
		return nil, &rnet.AddrError{Err: "invalid port", Addr: address}
	}
	w := W()
	if w.Taken != nil && w.Taken(address) {
		return nil, errInUse
	}
	for _, l := range w.Listeners {
		if l.Port == n && !l.Closed {
			return nil, errInUse
		}
	}
	l := &Listener{Address: address, Host: host, Port: n}
	w.Listeners = append(w.Listeners, l)
	return l, nil
}

func (l *Listener) Accept() (rnet.Conn, error) {
	mc.Block("accept", func() bool { return l.Closed })
	return nil, rnet.ErrClosed
}

func (l *Listener) Close() error {
	mc.Point("close")
	l.Closed = true
	return nil
}

func (l *Listener) Addr() rnet.Addr { return &rnet.TCPAddr{IP: rnet.ParseIP(l.Host), Port: l.Port} }
