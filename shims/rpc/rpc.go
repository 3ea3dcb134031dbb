// Package rpc stands in for the client side of go-ethereum's RPC library in package client.
package rpc

import (
	"context"
	"encoding/json"
	"errors"

	mc "github.com/sisu-network/dheart/zzmc"
)

// World is the server of one execution as its clients see it.
type World struct {
	// Dial is asked for the outcome of a dial, Call for that of a call.
	Dial  func(url string) error
	Call  func(c *Client, method string, args string) error
	Dials int
	Calls []Call // in the order they reached the server
}

type Call struct {
	Method, Args string
	Client       *Client
}

// W returns the world of the running execution.
func W() *World { return mc.Local("rpc", func() interface{} { return &World{} }).(*World) }

// Client is a connection to the server.
type Client struct {
	N      int
	closed bool
}

var ErrClientQuit = errors.New("client is closed")

func DialContext(ctx context.Context, url string) (*Client, error) {
	w := W()
	mc.Point("dial")
	w.Dials++
	n := w.Dials
	if w.Dial != nil {
		if err := w.Dial(url); err != nil {
			return nil, err
		}
	}
	return &Client{N: n}, nil
}

func Dial(url string) (*Client, error)     { return DialContext(context.Background(), url) }
func DialHTTP(url string) (*Client, error) { return DialContext(context.Background(), url) }

func (c *Client) Close() {
	mc.Point("close")
	c.closed = true
}

func (c *Client) Call(result interface{}, method string, args ...interface{}) error {
	return c.CallContext(context.Background(), result, method, args...)
}

func (c *Client) CallContext(ctx context.Context, result interface{}, method string, args ...interface{}) error {
	w := W()
	mc.Point("call")
	if c.closed {
		return ErrClientQuit
	}
	bz, err := json.Marshal(args)
	if err != nil {
		return err
	}
	if w.Call != nil {
		if err := w.Call(c, method, string(bz)); err != nil {
			return err
		}
	}
	w.Calls = append(w.Calls, Call{method, string(bz), c})
	return nil
}

func (c *Client) SetHeader(key, value string) {}
