package opentracing

import "context"

type Span interface {
	SetTag(k string, v interface{}) Span
	Finish()
}

func SpanFromContext(ctx context.Context) Span { return nil }
func StartSpanFromContext(ctx context.Context, op string) (Span, context.Context) {
	return nil, ctx
}
