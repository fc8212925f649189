package orchestrator

import "context"

type Communicator interface {
	List(ctx context.Context, worker interface{}) ([]interface{}, error)
	Add(ctx context.Context, worker interface{}, task interface{}) error
	Remove(ctx context.Context, worker interface{}, task interface{}) error
}
type OrchestratorOption func(*Orchestrator)
type TaskOption func(*int)
type WorkerState struct {
	Name  interface{}
	Tasks []interface{}
}
type Orchestrator struct{ c Communicator }

func New(c Communicator, opts ...OrchestratorOption) *Orchestrator { return &Orchestrator{c: c} }
func WithTaskInstances(n int) TaskOption                           { return func(p *int) { *p = n } }
func (o *Orchestrator) AddWorker(w interface{})                    {}
func (o *Orchestrator) AddTask(t interface{}, opts ...TaskOption)  {}
func (o *Orchestrator) NextTerm(ctx context.Context)               {}
func (o *Orchestrator) LastActual() []WorkerState                  { return nil }
