package log

type Logger interface {
	Log(keyvals ...interface{}) error
}
type nop struct{}

func (nop) Log(...interface{}) error          { return nil }
func NewNopLogger() Logger                    { return nop{} }
func With(l Logger, kv ...interface{}) Logger { return l }
