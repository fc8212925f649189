// Package metrics is a functional stand-in for go-loggregator/metrics (absent offline).
package metrics

import (
	"log"
	"sync"
)

type Counter interface{ Add(float64) }
type Gauge interface {
	Set(float64)
	Add(float64)
}
type MetricOption func(o map[string]string)

func WithMetricTags(tags map[string]string) MetricOption {
	return func(o map[string]string) {
		for k, v := range tags {
			o[k] = v
		}
	}
}

type RegistryOption func(*Registry)
type Registry struct{}

func NewRegistry(l *log.Logger, opts ...RegistryOption) *Registry        { return &Registry{} }
func (r *Registry) NewCounter(name string, opts ...MetricOption) Counter { return &value{} }
func (r *Registry) NewGauge(name string, opts ...MetricOption) Gauge     { return &value{} }

type value struct {
	mu sync.Mutex
	v  float64
}

func (v *value) Add(d float64) { v.mu.Lock(); v.v += d; v.mu.Unlock() }
func (v *value) Set(d float64) { v.mu.Lock(); v.v = d; v.mu.Unlock() }
