// Package net is the controlled version of the standard package: connections are virtual.
package net

import (
	std "net"
	"time"

	"verif/rt"
	"verif/v/context"
	"verif/vnet"
)

// Dial connects.
func Dial(network, address string) (std.Conn, error) { return vnet.Dial(network, address, 0) }

// DialTimeout connects within timeout.
func DialTimeout(network, address string, timeout time.Duration) (std.Conn, error) {
	return vnet.Dial(network, address, timeout)
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       std.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig std.KeepAliveConfig
	Resolver        *std.Resolver
	Cancel          <-chan struct{}
}

// Limit is the time left for dialling, 0: none.
func (d *Dialer) Limit() time.Duration {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		left := d.Deadline.Sub(rt.Now())
		if left <= 0 {
			left = -1
		}
		if t == 0 || left < t {
			t = left
		}
	}
	return t
}

// Dial connects.
func (d *Dialer) Dial(network, address string) (std.Conn, error) {
	return vnet.Dial(network, address, d.Limit())
}

// DialContext connects until ctx ends.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (std.Conn, error) {
	limit := d.Limit()
	if dl, ok := ctx.Deadline(); ok {
		left := dl.Sub(rt.Now())
		if left <= 0 {
			left = -1
		}
		if limit == 0 || left < limit {
			limit = left
		}
	}
	if ctx.Done() == nil {
		return vnet.Dial(network, address, limit)
	}
	if err := ctx.Err(); err != nil {
		return nil, &std.OpError{Op: "dial", Net: network, Err: err}
	}
	type res struct {
		c   std.Conn
		err error
	}
	ch := make(chan res, 1)
	rt.GoName("dial", func() {
		c, err := vnet.Dial(network, address, limit)
		rt.Send[res](ch)(res{c, err})
	})
	a, b := rt.CaseRecv[res](ch), rt.CaseRecv(ctx.Done())
	if rt.Select(false, a, b) == 0 {
		return a.V().c, a.V().err
	}
	rt.GoName("dial cleanup", func() {
		if r := rt.Recv[res](ch); r.c != nil {
			r.c.Close()
		}
	})
	return nil, &std.OpError{Op: "dial", Net: network, Err: ctx.Err()}
}
