//go:build go1.25

// Package http replaces package net/http: requests go to the simulated network.
package http

//shim:base net/http

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"
)

// Handler is the simulated network.
var Handler func(req *http.Request, cfg *tls.Config) (*http.Response, error)

// ErrNet is the error of a lost request or reply.
var ErrNet = errors.New("sim: connection reset")

// Transport replaces http.Transport (same fields).
type Transport struct {
	Proxy                  func(*http.Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx context.Context, proxyURL *url.URL, connectReq *http.Request, connectRes *http.Response) error
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	TLSNextProto           map[string]func(authority string, c *tls.Conn) http.RoundTripper
	ProxyConnectHeader     http.Header
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

// RoundTrip hands the request to the simulated network.
func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	if Handler == nil {
		return nil, ErrNet
	}
	return Handler(req, t.TLSClientConfig)
}

// CloseIdleConnections does nothing.
func (t *Transport) CloseIdleConnections() {}

// Clone copies t.
func (t *Transport) Clone() *Transport { c := *t; return &c }

// Reply makes a response with the given body.
func Reply(req *http.Request, code int, body string) *http.Response {
	head := "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n"
	r, err := http.ReadResponse(bufio.NewReader(strings.NewReader(head+body)), req)
	if err != nil {
		panic(err)
	}
	r.StatusCode = code
	return r
}
