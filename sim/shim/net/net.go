//go:build go1.25

// Package net replaces package net where names are looked up.
package net

//shim:base net

import "net"

// LookupMX finds no mail exchanger: hosts receive their mail themselves.
func LookupMX(name string) ([]*net.MX, error) {
	return nil, &net.DNSError{Err: "no such host", Name: name}
}
