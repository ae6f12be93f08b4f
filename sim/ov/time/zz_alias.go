//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package time

import realpkg "time"

const ANSIC = realpkg.ANSIC
const April = realpkg.April
const August = realpkg.August

var Date = realpkg.Date

const DateOnly = realpkg.DateOnly
const DateTime = realpkg.DateTime
const December = realpkg.December

type Duration = realpkg.Duration

const February = realpkg.February

var FixedZone = realpkg.FixedZone

const Friday = realpkg.Friday
const Hour = realpkg.Hour
const January = realpkg.January
const July = realpkg.July
const June = realpkg.June
const Kitchen = realpkg.Kitchen
const Layout = realpkg.Layout

var LoadLocation = realpkg.LoadLocation
var LoadLocationFromTZData = realpkg.LoadLocationFromTZData
var Local = realpkg.Local

type Location = realpkg.Location

const March = realpkg.March
const May = realpkg.May
const Microsecond = realpkg.Microsecond
const Millisecond = realpkg.Millisecond
const Minute = realpkg.Minute
const Monday = realpkg.Monday

type Month = realpkg.Month

const Nanosecond = realpkg.Nanosecond
const November = realpkg.November
const October = realpkg.October

var Parse = realpkg.Parse
var ParseDuration = realpkg.ParseDuration

type ParseError = realpkg.ParseError

var ParseInLocation = realpkg.ParseInLocation

const RFC1123 = realpkg.RFC1123
const RFC1123Z = realpkg.RFC1123Z
const RFC3339 = realpkg.RFC3339
const RFC3339Nano = realpkg.RFC3339Nano
const RFC822 = realpkg.RFC822
const RFC822Z = realpkg.RFC822Z
const RFC850 = realpkg.RFC850
const RubyDate = realpkg.RubyDate
const Saturday = realpkg.Saturday
const Second = realpkg.Second
const September = realpkg.September
const Stamp = realpkg.Stamp
const StampMicro = realpkg.StampMicro
const StampMilli = realpkg.StampMilli
const StampNano = realpkg.StampNano
const Sunday = realpkg.Sunday
const Thursday = realpkg.Thursday

type Time = realpkg.Time

const TimeOnly = realpkg.TimeOnly
const Tuesday = realpkg.Tuesday

var UTC = realpkg.UTC
var Unix = realpkg.Unix

const UnixDate = realpkg.UnixDate

var UnixMicro = realpkg.UnixMicro
var UnixMilli = realpkg.UnixMilli

const Wednesday = realpkg.Wednesday

type Weekday = realpkg.Weekday
