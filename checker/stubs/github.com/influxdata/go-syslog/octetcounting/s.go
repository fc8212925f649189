package octetcounting

import syslog "github.com/influxdata/go-syslog"

func NewParser(opts ...syslog.ParserOption) syslog.Parser { return nil }
