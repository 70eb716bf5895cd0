// Package fake provides the simulated nodes the explorers run the real clients against.
// All of them listen on the loopback network only.
package fake

import (
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"
)

// Hub is one loopback HTTP server per process; each execution registers its node under a
// path of its own.
type Hub struct {
	base string
	mu   sync.Mutex
	n    int
	w    map[string]*site
}

type site struct {
	h     http.Handler
	conns map[net.Conn]bool
}

type connKey struct{}

var (
	hub     *Hub
	hubOnce sync.Once
)

// TheHub returns the process's hub.
func TheHub() *Hub {
	hubOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: no loopback listener: " + err.Error())
		}
		hub = &Hub{base: "http://" + l.Addr().String(), w: map[string]*site{}}
		s := &http.Server{Handler: hub, ErrorLog: log.New(io.Discard, "", 0),
			ConnContext: func(ctx context.Context, c net.Conn) context.Context { return context.WithValue(ctx, connKey{}, c) }}
		go s.Serve(l)
	})
	return hub
}

// Register serves h under a fresh URL.
func (h *Hub) Register(x http.Handler) (url string, done func()) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.n++
	id := fmt.Sprintf("n%d", h.n)
	s := &site{h: x, conns: map[net.Conn]bool{}}
	h.w[id] = s
	return h.base + "/" + id, func() {
		h.mu.Lock()
		delete(h.w, id)
		cs := s.conns
		s.conns = map[net.Conn]bool{}
		h.mu.Unlock()
		for c := range cs {
			Reset(c)
		}
	}
}

// Reset drops a connection at once.
func Reset(c net.Conn) {
	if t, ok := c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Close()
}

func (h *Hub) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.TrimPrefix(r.URL.Path, "/")
	id, rest := p, ""
	if i := strings.Index(p, "/"); i >= 0 {
		id, rest = p[:i], p[i:]
	}
	c, _ := r.Context().Value(connKey{}).(net.Conn)
	h.mu.Lock()
	s := h.w[id]
	if s != nil && c != nil {
		s.conns[c] = true
	}
	h.mu.Unlock()
	if s == nil {
		if c != nil {
			Reset(c)
		}
		return
	}
	r.URL.Path = rest
	s.h.ServeHTTP(w, r)
}

// NoKeepAlive makes clients that use the process's default transport open a connection for
// every request: executions share the hub's address, and must not share connections.
func NoKeepAlive() {
	http.DefaultTransport.(*http.Transport).DisableKeepAlives = true
}

// Wait polls cond until it holds or d has passed.
func Wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		if i < 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}
