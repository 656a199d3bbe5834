// Package vtime is a drop-in for the parts of time the code under test may
// use, with a virtual clock.
package vtime

import (
	"time"

	"nnverif/seam/ctl"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Now() Time              { return ctl.Now() }
func Since(t Time) Duration  { return Now().Sub(t) }
func Until(t Time) Duration  { return t.Sub(Now()) }
func Unix(s, n int64) Time   { return time.Unix(s, n) }
func UnixMilli(n int64) Time { return time.UnixMilli(n) }
func UnixMicro(n int64) Time { return time.UnixMicro(n) }
func Sleep(d Duration)       { ctl.Advance(d) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
