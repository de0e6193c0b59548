// Package zznet stands in for package net in the application (the import is redirected, see
// engine/cmd/vc/rewrite.go): listeners come from the harness instead of the kernel.
package zznet

import "net"

type (
	Conn     = net.Conn
	Listener = net.Listener
	Addr     = net.Addr
	IP       = net.IP
	Error    = net.Error
)

var ErrClosed = net.ErrClosed

// OnListen makes the listeners.
var OnListen func(network, addr string) (net.Listener, error)

func Listen(network, addr string) (net.Listener, error) { return OnListen(network, addr) }

func ParseIP(s string) net.IP { return net.ParseIP(s) }

func SplitHostPort(s string) (host, port string, err error) { return net.SplitHostPort(s) }

func JoinHostPort(host, port string) string { return net.JoinHostPort(host, port) }
