// Code generated by genshim. DO NOT EDIT.

package simtime

import orig "time"

const (
	ANSIC = orig.ANSIC
	April = orig.April
	August = orig.August
	DateOnly = orig.DateOnly
	DateTime = orig.DateTime
	December = orig.December
	February = orig.February
	Friday = orig.Friday
	Hour = orig.Hour
	January = orig.January
	July = orig.July
	June = orig.June
	Kitchen = orig.Kitchen
	Layout = orig.Layout
	March = orig.March
	May = orig.May
	Microsecond = orig.Microsecond
	Millisecond = orig.Millisecond
	Minute = orig.Minute
	Monday = orig.Monday
	Nanosecond = orig.Nanosecond
	November = orig.November
	October = orig.October
	RFC1123 = orig.RFC1123
	RFC1123Z = orig.RFC1123Z
	RFC3339 = orig.RFC3339
	RFC3339Nano = orig.RFC3339Nano
	RFC822 = orig.RFC822
	RFC822Z = orig.RFC822Z
	RFC850 = orig.RFC850
	RubyDate = orig.RubyDate
	Saturday = orig.Saturday
	Second = orig.Second
	September = orig.September
	Stamp = orig.Stamp
	StampMicro = orig.StampMicro
	StampMilli = orig.StampMilli
	StampNano = orig.StampNano
	Sunday = orig.Sunday
	Thursday = orig.Thursday
	TimeOnly = orig.TimeOnly
	Tuesday = orig.Tuesday
	UnixDate = orig.UnixDate
	Wednesday = orig.Wednesday
)

type (
	Duration = orig.Duration
	Location = orig.Location
	Month = orig.Month
	ParseError = orig.ParseError
	Ticker = orig.Ticker
	Time = orig.Time
	Timer = orig.Timer
	Weekday = orig.Weekday
)

var (
	After = orig.After
	AfterFunc = orig.AfterFunc
	Date = orig.Date
	FixedZone = orig.FixedZone
	LoadLocation = orig.LoadLocation
	LoadLocationFromTZData = orig.LoadLocationFromTZData
	Local = orig.Local
	NewTicker = orig.NewTicker
	NewTimer = orig.NewTimer
	Parse = orig.Parse
	ParseDuration = orig.ParseDuration
	ParseInLocation = orig.ParseInLocation
	Tick = orig.Tick
	UTC = orig.UTC
	Unix = orig.Unix
	UnixMicro = orig.UnixMicro
	UnixMilli = orig.UnixMilli
)

