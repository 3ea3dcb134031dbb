// Package routing stands in for discovery over the hash table.
package routing

import (
	"context"
	"time"

	"github.com/libp2p/go-libp2p/core/discovery"
)

type RoutingDiscovery struct{}

func NewRoutingDiscovery(router interface{}) *RoutingDiscovery { return &RoutingDiscovery{} }

func (d *RoutingDiscovery) Advertise(ctx context.Context, ns string, opts ...discovery.Option) (time.Duration, error) {
	return time.Hour, nil
}
