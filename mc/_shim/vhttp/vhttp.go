// Package vhttp is the part of net/http which serves: it hands the handler over and serves nothing.
package vhttp

import (
	"context"
	"crypto/tls"
	"log"
	"net"
	"net/http"
	"time"
)

// Handlers gets what would be served.
var Handlers = make(chan http.Handler, 16)

func serve(h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	Handlers <- h
	select {}
}

func ListenAndServe(addr string, h http.Handler) error               { return serve(h) }
func ListenAndServeTLS(addr, cert, key string, h http.Handler) error { return serve(h) }
func Serve(l net.Listener, h http.Handler) error                     { return serve(h) }
func ServeTLS(l net.Listener, h http.Handler, cert, key string) error {
	return serve(h)
}

// Server is http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*http.Server, *tls.Conn, http.Handler)
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
}

func (s *Server) ListenAndServe() error                      { return serve(s.Handler) }
func (s *Server) ListenAndServeTLS(cert, key string) error   { return serve(s.Handler) }
func (s *Server) Serve(l net.Listener) error                 { return serve(s.Handler) }
func (s *Server) ServeTLS(l net.Listener, c, k string) error { return serve(s.Handler) }
func (s *Server) Shutdown(ctx context.Context) error         { return nil }
func (s *Server) Close() error                               { return nil }
func (s *Server) SetKeepAlivesEnabled(bool)                  {}
func (s *Server) RegisterOnShutdown(f func())                {}
