package sigar

type Mem struct{ Total, Used, Free, ActualFree, ActualUsed uint64 }

func (m *Mem) Get() error { return nil }
