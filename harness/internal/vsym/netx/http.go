// Package netx drives the clients of this repository against its servers over
// a made-up network.
package netx

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/gorilla/handlers"
	"github.com/gorilla/mux"
)

// What follows stands in for net/http and mux in the engine. Native replays use
// the real thing.

type route struct {
	prefix, path string
	methods      []string
	handler      http.Handler
}

type router struct{ routes []*route }

var (
	routers = map[*mux.Router]*router{}
	routeOf = map[*mux.Route]*route{}
	varsOf  = map[*http.Request]map[string]string{}
	site    http.Handler
	sites   = map[string]http.Handler{}
)

func routerOf(m *mux.Router) *router {
	r := routers[m]
	if r == nil {
		r = &router{}
		routers[m] = r
	}
	return r
}

func add(m *mux.Router, r *route) *mux.Route {
	rs := routerOf(m)
	rs.routes = append(rs.routes, r)
	x := &mux.Route{}
	routeOf[x] = r
	return x
}

//vsym:replace github.com/gorilla/mux.NewRouter
func mNewRouter() *mux.Router { return &mux.Router{} }

//vsym:replace (*github.com/gorilla/mux.Router).StrictSlash
func mStrictSlash(m *mux.Router, v bool) *mux.Router { return m }

//vsym:replace (*github.com/gorilla/mux.Router).HandleFunc
func mHandleFunc(m *mux.Router, path string, f func(http.ResponseWriter, *http.Request)) *mux.Route {
	return add(m, &route{path: path, handler: http.HandlerFunc(f)})
}

//vsym:replace (*github.com/gorilla/mux.Router).Handle
func mHandle(m *mux.Router, path string, h http.Handler) *mux.Route {
	return add(m, &route{path: path, handler: h})
}

//vsym:replace (*github.com/gorilla/mux.Router).PathPrefix
func mPathPrefix(m *mux.Router, prefix string) *mux.Route { return add(m, &route{prefix: prefix}) }

//vsym:replace (*github.com/gorilla/mux.Route).Handler
func mHandler(r *mux.Route, h http.Handler) *mux.Route {
	routeOf[r].handler = h
	return r
}

//vsym:replace (*github.com/gorilla/mux.Route).Methods
func mMethods(r *mux.Route, methods ...string) *mux.Route {
	routeOf[r].methods = append(routeOf[r].methods, methods...)
	return r
}

//vsym:replace github.com/gorilla/mux.Vars
func mVars(r *http.Request) map[string]string { return varsOf[r] }

func matchPath(tmpl, path string) (map[string]string, bool) {
	t, p := strings.Split(tmpl, "/"), strings.Split(path, "/")
	if len(t) != len(p) {
		return nil, false
	}
	vars := map[string]string{}
	for i := range t {
		if strings.HasPrefix(t[i], "{") {
			if p[i] == "" {
				return nil, false
			}
			vars[t[i][1:len(t[i])-1]] = p[i]
		} else if t[i] != p[i] {
			return nil, false
		}
	}
	return vars, true
}

func (rt *route) takes(method string) bool {
	for _, m := range rt.methods {
		if m == method {
			return true
		}
	}
	return len(rt.methods) == 0
}

//vsym:replace (*github.com/gorilla/mux.Router).ServeHTTP
func mServeHTTP(m *mux.Router, w http.ResponseWriter, r *http.Request) {
	status := http.StatusNotFound
	for _, rt := range routerOf(m).routes {
		vars, ok := map[string]string(nil), false
		if rt.prefix != "" {
			ok = strings.HasPrefix(r.URL.Path, rt.prefix)
		} else {
			vars, ok = matchPath(rt.path, r.URL.Path)
		}
		if !ok {
			continue
		}
		if !rt.takes(r.Method) {
			status = http.StatusMethodNotAllowed
			continue
		}
		varsOf[r] = vars
		rt.handler.ServeHTTP(w, r)
		return
	}
	w.WriteHeader(status)
}

//vsym:replace github.com/gorilla/handlers.CORS
func mCORS(opts ...handlers.CORSOption) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler { return h }
}

type listener struct{ at string }

func (listener) Accept() (net.Conn, error) { return nil, errors.New("closed") }
func (listener) Close() error              { return nil }
func (listener) Addr() net.Addr            { return &net.TCPAddr{Port: 3000} }

// Where is where a listener listens.
func Where(l net.Listener) string { return l.(listener).at }

//vsym:replace net.Listen
func mListen(network, address string) (net.Listener, error) { return listener{address}, nil }

//vsym:replace golang.org/x/net/netutil.LimitListener
func mLimitListener(l net.Listener, n int) net.Listener { return l }

//vsym:replace net/http.NewRequestWithContext
func mNewRequest(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	r := &http.Request{Method: method, Header: http.Header{}, URL: &url.URL{Scheme: "http"}}
	path := strings.TrimPrefix(u, "http://")
	r.URL.Host = strings.Split(path, "/")[0]
	path = strings.TrimPrefix(path, r.URL.Host)
	parts := strings.Split(path, "?")
	r.URL.Path = parts[0]
	if len(parts) > 1 {
		r.URL.RawQuery = parts[1]
	}
	r.Body = http.NoBody
	if body != nil {
		r.Body = io.NopCloser(body)
	}
	return r.WithContext(ctx), nil
}

// answer is what a server sends: the header is fixed once the status is sent.
type answer struct {
	header, sent http.Header
	status       int
	body         string
}

func (a *answer) Header() http.Header { return a.header }

func (a *answer) WriteHeader(status int) {
	if a.status != 0 {
		return
	}
	a.status = status
	a.sent = a.header.Clone()
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(http.StatusOK)
	a.body += string(b)
	return len(b), nil
}

// network counts what goes on.
var network struct {
	// Fails lets requests be lost.
	Fails int
	Last  *answer
}

var errNet = errors.New("injected network failure")

type body struct{ io.Reader }

func (body) Close() error { return nil }

//vsym:replace (*net/http.Client).Do
func mDo(c *http.Client, r *http.Request) (*http.Response, error) {
	if network.Fails > 0 && vsym.Flip("request lost") {
		network.Fails--
		return nil, errNet
	}
	h := sites[r.URL.Host]
	if r.URL.Host == "indexer" {
		h = site
	}
	if h == nil {
		return nil, errNet
	}
	a := &answer{header: http.Header{}}
	h.ServeHTTP(a, r)
	a.WriteHeader(http.StatusOK)
	network.Last = a
	return &http.Response{StatusCode: a.status, Header: a.sent, Body: body{strings.NewReader(a.body)}}, nil
}

//vsym:replace io.NopCloser
func mNopCloser(r io.Reader) io.ReadCloser { return body{r} }

// Serve makes a handler reachable and returns its address.
func Serve(h http.Handler) string {
	if vsym.Symbolic() {
		site = h
		return "http://indexer"
	}
	return httptest.NewServer(h).URL
}

// ServeAt makes a handler reachable, or not if it is nil; for the engine only.
func ServeAt(host string, h http.Handler) { sites[host] = h }
