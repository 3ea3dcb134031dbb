// Package dht stands in for the distributed hash table: announcing the node has no effect on the checked behaviour.
package dht

import (
	"context"
	"errors"

	real "github.com/libp2p/go-libp2p-kad-dht"
	"github.com/libp2p/go-libp2p/core/host"

	fake "github.com/sisu-network/dheart/zzmc/shim/libp2p"
)

type IpfsDHT struct{ h host.Host }

func New(ctx context.Context, h host.Host, options ...real.Option) (*IpfsDHT, error) {
	w := fake.W()
	if w.Fault != nil && w.Fault("discover", h.ID(), h.ID()) {
		return nil, errors.New("failed to make the table")
	}
	return &IpfsDHT{h}, nil
}

func (d *IpfsDHT) Bootstrap(ctx context.Context) error { return nil }
func (d *IpfsDHT) Close() error                        { return nil }
