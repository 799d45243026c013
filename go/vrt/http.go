package vrt

import (
	"context"
	"net"
	"net/http"
	"net/http/httptest"
)

// The monitoring HTTP server: there is no network, and its pages are asked for
// with HTTPGet.

var httpHandler http.Handler

// HTTPAddr is the address of the monitoring server, if one was started.
var HTTPAddr string

func serve(addr string, h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	lmu.Lock()
	httpHandler, HTTPAddr = h, addr
	lmu.Unlock()
	<-make(chan int)
	return nil
}

// ListenAndServe stands in for http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error { return serve(addr, h) }

// ServeHTTP stands in for http.Serve.
func ServeHTTP(l net.Listener, h http.Handler) error { return serve(l.Addr().String(), h) }

// HTTPServer stands in for http.Server.
type HTTPServer http.Server

func (s *HTTPServer) ListenAndServe() error              { return serve(s.Addr, s.Handler) }
func (s *HTTPServer) Serve(l net.Listener) error         { return serve(l.Addr().String(), s.Handler) }
func (s *HTTPServer) Close() error                       { return nil }
func (s *HTTPServer) Shutdown(ctx context.Context) error { return nil }
func (s *HTTPServer) SetKeepAlivesEnabled(v bool)        {}

// HTTPGet asks the monitoring server for a page.
func HTTPGet(path string) (int, string) {
	lmu.Lock()
	h := httpHandler
	lmu.Unlock()
	if h == nil {
		return 0, "the monitoring server was not started"
	}
	r := httptest.NewRecorder()
	h.ServeHTTP(r, httptest.NewRequest("GET", "http://localhost"+path, nil))
	return r.Code, r.Body.String()
}
