// Package http stands in for serving in package server.
package http

import (
	rnet "net"
	rhttp "net/http"
	"time"

	mc "github.com/sisu-network/dheart/zzmc"
	"github.com/sisu-network/dheart/zzmc/shim/net"
)

// World is what is served in one execution.
type World struct{ Serving []*Serving }

type Serving struct {
	L       *net.Listener
	Handler rhttp.Handler
}

func W() *World { return mc.Local("http", func() interface{} { return &World{} }).(*World) }

// Server is the part of http.Server that decides what is served where.
type Server struct {
	Addr              string
	Handler           rhttp.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
}

func (s *Server) Serve(l rnet.Listener) error {
	x, ok := l.(*net.Listener)
	if !ok {
		return rhttp.ErrNotSupported
	}
	mc.Point("serve")
	W().Serving = append(W().Serving, &Serving{x, s.Handler})
	_, err := x.Accept()
	return err
}

func (s *Server) ListenAndServe() error {
	l, err := net.Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func Serve(l rnet.Listener, h rhttp.Handler) error { return (&Server{Handler: h}).Serve(l) }

func ListenAndServe(addr string, h rhttp.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
