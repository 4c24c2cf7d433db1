// Package tls is the controlled version of crypto/tls: the protocol is the real one, on virtual
// connections.
package tls

import (
	std "crypto/tls"
	"errors"
	stdnet "net"
	"strings"
	"time"

	"verif/rt"
	"verif/v/context"
	"verif/v/net"
)

// Dial connects and performs the handshake.
func Dial(network, addr string, config *std.Config) (*std.Conn, error) {
	return dial(context.Background(), &net.Dialer{}, network, addr, config)
}

// DialWithDialer connects with the dialer's limits covering the handshake as well.
func DialWithDialer(dialer *net.Dialer, network, addr string, config *std.Config) (*std.Conn, error) {
	return dial(context.Background(), dialer, network, addr, config)
}

// Dialer mirrors tls.Dialer.
type Dialer struct {
	NetDialer *net.Dialer
	Config    *std.Config
}

// Dial connects.
func (d *Dialer) Dial(network, addr string) (stdnet.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

// DialContext connects.
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (stdnet.Conn, error) {
	nd := d.NetDialer
	if nd == nil {
		nd = &net.Dialer{}
	}
	c, err := dial(ctx, nd, network, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func dial(ctx context.Context, d *net.Dialer, network, addr string, config *std.Config) (*std.Conn, error) {
	limit := d.Limit()
	if limit < 0 {
		return nil, context.DeadlineExceeded
	}
	start := rt.Now()
	if limit > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, limit)
		defer cancel()
	}
	raw, err := d.DialContext(ctx, network, addr)
	if err != nil {
		return nil, err
	}
	colon := strings.LastIndex(addr, ":")
	if colon == -1 {
		colon = len(addr)
	}
	host := addr[:colon]
	if config == nil {
		config = &std.Config{}
	}
	if config.ServerName == "" {
		c := config.Clone()
		c.ServerName = host
		config = c
	}
	var deadline time.Time
	if dl, ok := ctx.Deadline(); ok {
		deadline = dl
	}
	_ = start
	conn := std.Client(raw, config)
	if !deadline.IsZero() {
		raw.SetDeadline(deadline)
	}
	if err := conn.Handshake(); err != nil {
		raw.Close()
		var ne stdnet.Error
		if errors.As(err, &ne) && ne.Timeout() && !deadline.IsZero() {
			return nil, context.DeadlineExceeded
		}
		return nil, err
	}
	if !deadline.IsZero() {
		raw.SetDeadline(time.Time{})
	}
	return conn, nil
}
