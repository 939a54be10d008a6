package checks

import (
	"fmt"
	"net"
	"net/http"
	"strconv"
	"sync"
)

// webServer serves pages on the loopback network and records what is requested.
type webServer struct {
	mu     sync.Mutex
	pages  map[string]page
	log    []string
	base   string
	server *http.Server
}

type page struct {
	status int
	body   string
	loc    string // redirect
	cut    bool   // the connection ends in the middle of the body
}

var theWeb *webServer
var webOnce sync.Once

func web(c *C) *webServer {
	webOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Harness("listen: %v", err)
		}
		w := &webServer{pages: map[string]page{}, base: "http://" + l.Addr().String()}
		w.server = &http.Server{Handler: w}
		go func() { _ = w.server.Serve(l) }()
		theWeb = w
	})
	return theWeb
}

func (w *webServer) reset(pages map[string]page) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.pages = pages
	w.log = nil
}

func (w *webServer) taken() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.log...)
}

func (w *webServer) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	key := r.URL.RequestURI()
	w.log = append(w.log, key)
	p, ok := w.pages[key]
	if !ok {
		http.NotFound(rw, r)
		return
	}
	if p.loc != "" {
		rw.Header().Set("Location", p.loc) // http.Redirect would clean the path
		rw.WriteHeader(p.status)
		return
	}
	if p.cut {
		rw.Header().Set("Content-Length", strconv.Itoa(len(p.body)+1+len(p.body)%7))
		rw.Header().Set("Connection", "close")
	}
	if p.status != 0 {
		rw.WriteHeader(p.status)
	}
	fmt.Fprint(rw, p.body)
}
