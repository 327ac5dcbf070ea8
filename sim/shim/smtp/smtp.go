//go:build go1.25

// Package smtp replaces package net/smtp: mail goes to the simulated network.
package smtp

//shim:base net/smtp

import (
	"bytes"
	"crypto/tls"
	"errors"
	"io"
	"net/smtp"
)

// Server is the simulated mail server behind a connection.
type Server interface {
	StartTLS(cfg *tls.Config) error
	Extension(ext string) (bool, string)
	Mail(from string) error
	Rcpt(to string) error
	Data(mail []byte) error
	Quit() error
}

// Dialer connects to a simulated mail server.
var Dialer func(addr string) (Server, error)

// Client replaces smtp.Client.
type Client struct{ s Server }

// Dial replaces smtp.Dial.
func Dial(addr string) (*Client, error) {
	if Dialer == nil {
		return nil, errors.New("sim: no network")
	}
	s, err := Dialer(addr)
	if err != nil {
		return nil, err
	}
	return &Client{s}, nil
}

// Close closes the connection.
func (c *Client) Close() error { return nil }

// Hello sends HELO.
func (c *Client) Hello(localName string) error { return nil }

// Extension reports whether an extension is supported.
func (c *Client) Extension(ext string) (bool, string) { return c.s.Extension(ext) }

// StartTLS starts TLS.
func (c *Client) StartTLS(cfg *tls.Config) error { return c.s.StartTLS(cfg) }

// Auth authenticates.
func (c *Client) Auth(a smtp.Auth) error { return nil }

// Mail sends MAIL FROM.
func (c *Client) Mail(from string) error { return c.s.Mail(from) }

// Rcpt sends RCPT TO.
func (c *Client) Rcpt(to string) error { return c.s.Rcpt(to) }

// Reset sends RSET.
func (c *Client) Reset() error { return nil }

// Noop sends NOOP.
func (c *Client) Noop() error { return nil }

// Quit sends QUIT.
func (c *Client) Quit() error { return c.s.Quit() }

type data struct {
	c *Client
	b bytes.Buffer
}

func (d *data) Write(p []byte) (int, error) { return d.b.Write(p) }
func (d *data) Close() error                { return d.c.s.Data(d.b.Bytes()) }

// Data sends DATA.
func (c *Client) Data() (io.WriteCloser, error) { return &data{c: c}, nil }
