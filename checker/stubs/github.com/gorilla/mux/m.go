package mux

import "net/http"

type Router struct{ NotFoundHandler http.Handler }
type Route struct{}

func NewRouter() *Router                                                                 { return &Router{} }
func Vars(r *http.Request) map[string]string                                             { return nil }
func (r *Router) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) *Route { return nil }
func (r *Router) Handle(p string, h http.Handler) *Route                                 { return nil }
func (r *Router) PathPrefix(p string) *Route                                             { return nil }
func (r *Router) Methods(m ...string) *Route                                             { return nil }
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request)                     {}
func (r *Route) Methods(m ...string) *Route                                              { return r }
func (r *Route) Handler(h http.Handler) *Route                                           { return r }
func (r *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route           { return r }
func (r *Route) Queries(p ...string) *Route                                              { return r }
func (r *Route) Subrouter() *Router                                                      { return nil }
