package syslog

import (
	"io"
	"time"
)

type BestEfforter interface{ WithBestEffort() }
type Message interface {
	Valid() bool
	Priority() *uint8
	Version() uint16
	Facility() *uint8
	Severity() *uint8
	FacilityMessage() *string
	FacilityLevel() *string
	SeverityMessage() *string
	SeverityLevel() *string
	SeverityShortLevel() *string
	Timestamp() *time.Time
	Hostname() *string
	ProcID() *string
	Appname() *string
	MsgID() *string
	Message() *string
	StructuredData() *map[string]map[string]string
}
type Result struct {
	Message Message
	Error   error
}
type ParserListener func(*Result)
type ParserOption func(Parser) Parser
type Parser interface {
	Parse(r io.Reader)
	WithListener(ParserListener)
	BestEfforter
}
