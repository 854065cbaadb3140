// Package ical is a stand-in for github.com/soh335/ical, which is not
// available offline: only the parts suriya-go uses, with the same shape.
package ical

import "time"

type VEvent struct {
	UID     string
	DTSTAMP time.Time
	DTSTART time.Time
	DTEND   time.Time
	SUMMARY string
	TZID    string
	AllDay  bool
}
