package suriya

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/soh335/ical"
)

// hxMerge and hxFind stand for the package's own merge and look-up functions.
var hxMerge func([]CalDay, CalendarEvent) []CalDay
var hxFind func([]CalDay, time.Time) (*CalDay, error)

func hxKattika(y int) time.Time {
	// 133, 134 or 163 days before the new year's first lunar day, 1 hour kept
	// as the property on New Year states it
	off := 133
	if e := hxYear(y); e.T <= 5 {
		off = 163
	} else if hxCar(y) {
		off = 134
	}
	if UseExceptions && 1995 <= y && y <= 1997 {
		off++ // the shipped exceptions move the extra day of 1994 to 1997
	}
	e := hxYear(y)
	ref := time.Date(1963, 7, 5, 0, 0, 0, 0, time.UTC)
	return ref.AddDate(0, 0, e.H-e.T-484049-off)
}

// hxNext is the traditional rule.
func hxNext(u UposathaMoon) UposathaMoon {
	y := u.Date.Year()
	am, av := hxAM(y), hxAV(y)
	n := UposathaMoon{LunarSeason: u.LunarSeason, LunarYear: u.LunarYear}
	if u.Phase == "new" {
		n.Phase, n.U_Days, n.M_Days = "full", 15, u.M_Days
		n.LunarMonth, n.S_Total, n.S_Number = u.LunarMonth, u.S_Total, u.S_Number+1
		ev := map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
		if am {
			ev = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}
		}
		n.Event = ev[n.LunarMonth]
	} else {
		n.Phase = "new"
		switch {
		case u.LunarMonth == 13:
			n.LunarMonth = 9
		case u.LunarMonth == 8 && am:
			n.LunarMonth = 13
		case u.LunarMonth == 12:
			n.LunarMonth = 1
		default:
			n.LunarMonth = u.LunarMonth + 1
		}
		n.M_Days = 29 + n.LunarMonth%2
		if n.LunarMonth == 8 && av {
			n.M_Days, n.HasAdhikavara = 30, true
		}
		n.U_Days = n.M_Days - 15
		n.S_Total = 8
		if am && (n.LunarMonth >= 5 && n.LunarMonth <= 8 || n.LunarMonth == 13) {
			n.S_Total = 10
		}
		if u.S_Number < u.S_Total {
			n.S_Number = u.S_Number + 1
		} else {
			n.S_Number = 1
			n.LunarSeason = u.LunarSeason + 1
			if u.LunarMonth == 12 {
				n.LunarSeason, n.LunarYear = 1, u.LunarYear+1
			}
		}
	}
	n.Date = u.Date.AddDate(0, 0, n.U_Days)
	return n
}

func hxStart(y int) UposathaMoon {
	d := hxKattika(y)
	return UposathaMoon{Date: d, Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: d.Year() + 543}
}

// plain puts dates in a form that compares by ==.
func hxPlain(u UposathaMoon) string {
	d := u.Date
	u.Date = time.Time{}
	type raw UposathaMoon // without its String
	return fmt.Sprintf("%s %+v", d.UTC().Format(time.RFC3339Nano), raw(u))
}

func (h *hx) nextOf(u UposathaMoon) {
	h.in("NextUposatha of %s (year kinds: leap month %v, extra day %v, UseExceptions %v)", hxPlain(u), hxAM(u.Date.Year()), hxAV(u.Date.Year()), UseExceptions)
	got, want := u.NextUposatha(), hxNext(u)
	h.eqs("next uposatha", hxPlain(got), hxPlain(want))
}

func (h *hx) nexts() {
	h.bothSettings(func() {
		for y := 661; y <= 3000; y++ {
			u := hxStart(y)
			for i := 0; i < 27; i++ {
				h.nextOf(u)
				u = hxNext(u)
			}
		}
		ys := h.hinted(660, 1000000)
		for i := 0; i < h.n(200000); i++ {
			y := 660 + h.rng.Intn(3000)
			if i%10 == 0 {
				y = 660 + h.rng.Intn(999000)
			}
			if i < 20*len(ys) {
				y = ys[i/20]
			}
			t := []int{8, 10}[h.rng.Intn(2)]
			m := 1 + h.rng.Intn(13)
			u := UposathaMoon{Date: time.Date(y, 1, 1, h.rng.Intn(24), 0, 0, 0, time.UTC).AddDate(0, 0, h.rng.Intn(365)), Phase: []string{"new", "full"}[h.rng.Intn(2)],
				LunarMonth: m, LunarSeason: 1 + h.rng.Intn(3), LunarYear: y + 543, S_Total: t, S_Number: 1 + h.rng.Intn(t), M_Days: 29 + h.rng.Intn(2), U_Days: 14 + h.rng.Intn(2),
				HasAdhikavara: h.rng.Intn(2) == 0, Event: []string{"", "magha", "asalha"}[h.rng.Intn(3)], Source: "x", Comments: "y", Status: h.rng.Intn(3), Calendar: h.rng.Intn(4)}
			h.nextOf(u)
		}
	})
}

func (h *hx) listing() {
	one := func(y int) {
		h.in("GenerateSolarYear(%d), UseExceptions %v", y, UseExceptions)
		var ups []UposathaMoon
		var halves []HalfMoon
		var majors []MajorEvent
		for _, e := range GenerateSolarYear(y) {
			if e.GetDate().Year() != y {
				h.fail("an event outside the year", y, e.GetDate())
			}
			switch x := e.(type) {
			case UposathaMoon:
				ups = append(ups, x)
			case HalfMoon:
				halves = append(halves, x)
			case MajorEvent:
				majors = append(majors, x)
			default:
				h.fail("kind of event", "uposatha, half moon or major event", reflect.TypeOf(e))
			}
		}
		var wu []string
		want := map[string]time.Time{}
		wh := map[string]int{}
		day := func(t time.Time) string { return t.UTC().Format(time.RFC3339Nano) }
		for u := hxStart(y); u.Date.Year() <= y; {
			u = hxNext(u)
			u.Status = 2
			if u.Date.Year() == y {
				wu = append(wu, hxPlain(u))
				switch u.Event {
				case "magha":
					want["Māgha Pūjā"] = u.Date
				case "vesakha":
					want["Vesākha Pūjā"] = u.Date
				case "asalha":
					want["Āsāḷha Pūjā"] = u.Date
					want["First day of Vassa"] = u.Date.AddDate(0, 0, 1)
				case "pavarana":
					want["Pavāraṇā Day"] = u.Date
					want["Last day of Vassa"] = u.Date
				}
			}
			if d := u.Date.AddDate(0, 0, 8); d.Year() == y {
				wh[day(d)+map[string]string{"new": " waxing", "full": " waning"}[u.Phase]]++
			}
		}
		if len(want) != 6 || len(wu) < 24 {
			h.fail("oracle", 6, len(want))
		}
		var gu []string
		for _, u := range ups {
			gu = append(gu, hxPlain(u))
		}
		h.eq("number of uposathas", len(gu), len(wu))
		for i := range gu {
			h.eqs(fmt.Sprintf("uposatha %d", i+1), gu[i], wu[i])
		}
		gh := map[string]int{}
		for _, m := range halves {
			gh[day(m.Date)+" "+m.Phase]++
		}
		if !reflect.DeepEqual(gh, wh) {
			h.fail("half moons", wh, gh)
		}
		n := map[string]int{}
		for _, e := range majors {
			n[e.Summary]++
			w, ok := want[e.Summary]
			if !ok {
				h.fail("major event", "one of the six", e.Summary)
			}
			h.eqt(e.Summary, e.Date, w)
		}
		for k := range want {
			h.eq("number of "+k, n[k], 1)
		}
		s := hxInit(y)
		h.eqt("Asalha Puja by the query of the year", want["Āsāḷha Pūjā"], s.AsalhaPuja())
		h.eqt("Vassa lasts", want["Last day of Vassa"], want["First day of Vassa"].AddDate(0, 0, 88))
	}
	h.shippedSettings(func() {
		for _, y := range h.hinted(1300, 2900) {
			one(y)
		}
		for y := 1300; y <= 2900; y++ {
			one(y)
		}
	})
}

// shippedSettings runs f with the exceptions off, and on with the table shipped.
func (h *hx) shippedSettings(f func()) {
	old, oldM := UseExceptions, AdhikavaraExceptions
	defer func() { UseExceptions, AdhikavaraExceptions = old, oldM }()
	AdhikavaraExceptions = map[int]bool{1994: false, 1997: true}
	for _, UseExceptions = range []bool{false, true} {
		f()
	}
}

// ---- calendar days

// hxAround is the date the current inputs lie around, hxZone their zone.
var hxAround = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
var hxZone = time.UTC

// around moves on to another part of the calendar, often to the end of a month or year.
func (h *hx) around() {
	y := 1900 + h.rng.Intn(200)
	switch h.rng.Intn(4) {
	case 0:
		hxAround = time.Date(y, 12, 28+h.rng.Intn(4), 0, 0, 0, 0, time.UTC)
	case 1:
		hxAround = time.Date(y, time.Month(1+h.rng.Intn(12)), 26, 0, 0, 0, 0, time.UTC)
	case 2:
		hxAround = time.Date(y, 1, 1+h.rng.Intn(366), 0, 0, 0, 0, time.UTC)
	default:
		hxAround = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	}
}

func (h *hx) date() time.Time {
	t := hxAround.AddDate(0, 0, h.rng.Intn(6))
	switch h.rng.Intn(16) {
	case 0:
		t = t.AddDate(0, h.rng.Intn(3)-1, 0)
	case 1:
		t = t.AddDate(h.rng.Intn(3)-1, 0, 0)
	case 2:
		t = t.AddDate(0, 0, h.rng.Intn(60)-30)
	}
	switch h.rng.Intn(4) {
	case 0:
		t = t.Add(time.Duration(h.rng.Int63n(86400000000000)))
	case 1:
		t = t.Add(86399 * time.Second)
	}
	if hxZone != time.UTC {
		t = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), hxZone)
	}
	return t
}

func (h *hx) name() string {
	if h.rng.Intn(8) == 0 {
		if hxLits == nil {
			hxLits = []string{"x"}
			for _, w := range hxWords() {
				if strings.Trim(w, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ ") == "" {
					hxLits = append(hxLits, w)
				}
			}
		}
		return hxLits[h.rng.Intn(len(hxLits))]
	}
	return []string{"", "new", "full", "waxing", "waning", "x y"}[h.rng.Intn(6)]
}

var hxLits []string

func (h *hx) uposatha() UposathaMoon {
	return UposathaMoon{Date: h.date(), Phase: h.name(), S_Number: h.rng.Intn(10), S_Total: h.rng.Intn(11), U_Days: h.rng.Intn(16), M_Days: h.rng.Intn(31), LunarMonth: h.rng.Intn(14), LunarSeason: h.rng.Intn(6) - 1, LunarYear: h.rng.Intn(3000), Status: h.rng.Intn(3), Event: h.name(), Comments: h.name()}
}

func (h *hx) major() MajorEvent {
	return MajorEvent{Date: h.date(), Calendar: h.rng.Intn(4), Summary: "m" + h.name(), Description: strconv.Itoa(h.rng.Intn(9))}
}

func (h *hx) event() Event {
	return Event{Date: h.date(), Calendar: h.rng.Intn(4), Summary: "e" + h.name(), Description: strconv.Itoa(h.rng.Intn(9))}
}

func (h *hx) anyEvent() CalendarEvent {
	switch h.rng.Intn(5) {
	case 0:
		return h.uposatha()
	case 1:
		return HalfMoon{h.date(), h.name()}
	case 2:
		return AstroMoon{h.name(), h.date()}
	case 3:
		return h.major()
	}
	return h.event()
}

func (h *hx) day() CalDay {
	d := CalDay{Date: h.date()}
	if h.rng.Intn(2) == 0 {
		d.UposathaMoon = UposathaMoonSliceSingle{h.uposatha()}
	}
	if h.rng.Intn(3) == 0 {
		d.HalfMoon = HalfMoonSliceSingle{{h.date(), h.name()}}
	}
	if h.rng.Intn(3) == 0 {
		d.AstroMoon = AstroMoonSliceSingle{{h.name(), h.date()}}
	}
	for h.rng.Intn(3) == 0 {
		d.MajorEvents = append(d.MajorEvents, h.major())
	}
	for h.rng.Intn(3) == 0 {
		d.Events = append(d.Events, h.event())
	}
	return d
}

func (h *hx) calDays(n int) []CalDay {
	var r []CalDay
	for i := 0; i < n; i++ {
		r = append(r, h.day())
	}
	return r
}

// hxCopy shares nothing and shows nil and empty lists alike.
func hxCopy(d CalDay) CalDay {
	r := CalDay{Date: d.Date}
	r.UposathaMoon = append(r.UposathaMoon, d.UposathaMoon...)
	r.HalfMoon = append(r.HalfMoon, d.HalfMoon...)
	r.AstroMoon = append(r.AstroMoon, d.AstroMoon...)
	r.MajorEvents = append(r.MajorEvents, d.MajorEvents...)
	r.Events = append(r.Events, d.Events...)
	return r
}

func hxCopies(ds []CalDay) []CalDay {
	var r []CalDay
	for _, d := range ds {
		r = append(r, hxCopy(d))
	}
	return r
}

func hxShow(ds []CalDay) string { return hxJSON(ds) }

func hxJSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func hxAdd(d CalDay, ev CalendarEvent) CalDay {
	d = hxCopy(d)
	switch x := ev.(type) {
	case UposathaMoon:
		d.Date, d.UposathaMoon = x.Date, UposathaMoonSliceSingle{x}
	case HalfMoon:
		d.Date, d.HalfMoon = x.Date, HalfMoonSliceSingle{x}
	case AstroMoon:
		d.Date, d.AstroMoon = x.Date, AstroMoonSliceSingle{x}
	case MajorEvent:
		d.Date, d.MajorEvents = x.Date, append(d.MajorEvents, x)
	case Event:
		d.Date, d.Events = x.Date, append(d.Events, x)
	}
	return d
}

func (h *hx) sameDays(what string, got, want []CalDay) {
	if g, w := hxCopies(got), hxCopies(want); !reflect.DeepEqual(g, w) {
		h.fail(what, hxShow(w), hxShow(g))
	}
}

func hxYMD(t time.Time) string { return t.Format("2006-01-02") }

func (h *hx) merging() {
	for i := 0; i < h.n(40000); i++ {
		if i%4 == 0 {
			h.around()
		}
		ds := h.calDays(h.rng.Intn(7))
		ev := h.anyEvent()
		at := -1
		for k, d := range ds {
			if hxYMD(d.Date) == hxYMD(ev.GetDate()) {
				at = k
				break
			}
		}
		if hxFind != nil {
			h.in("look-up of %v in %s", ev.GetDate(), hxShow(ds))
			p, err := hxFind(ds, ev.GetDate())
			h.eqb("found", err == nil, at >= 0)
			if at >= 0 && p != &ds[at] {
				h.fail("entry found", at, hxShow([]CalDay{*p}))
			}
		}
		want := hxCopies(ds)
		if at >= 0 {
			want[at] = hxAdd(want[at], ev)
		} else {
			want = append(want, hxAdd(CalDay{}, ev))
		}
		if hxMerge != nil {
			h.in("merging %T %s into %s", ev, hxJSON(ev), hxShow(ds))
			h.sameDays("days", hxMerge(ds, ev), want)
		}

		d := h.day()
		h.in("AddToDay of %T %s to %s", ev, hxJSON(ev), hxShow([]CalDay{d}))
		wd := hxAdd(d, ev)
		ev.AddToDay(&d)
		h.sameDays("day", []CalDay{d}, []CalDay{wd})

		d = h.day()
		h.in("accessors of %s", hxShow([]CalDay{d}))
		var wu UposathaMoon
		var wh HalfMoon
		var wa AstroMoon
		if len(d.UposathaMoon) > 0 {
			wu = d.UposathaMoon[0]
		}
		if len(d.HalfMoon) > 0 {
			wh = d.HalfMoon[0]
		}
		if len(d.AstroMoon) > 0 {
			wa = d.AstroMoon[0]
		}
		if g := d.GetUposathaMoon(); g != wu {
			h.fail("GetUposathaMoon", wu, g)
		}
		if g := d.GetHalfMoon(); g != wh {
			h.fail("GetHalfMoon", wh, g)
		}
		if g := d.GetAstroMoon(); g != wa {
			h.fail("GetAstroMoon", wa, g)
		}
		u, hm, am := h.uposatha(), HalfMoon{h.date(), h.name()}, AstroMoon{h.name(), h.date()}
		w := hxCopy(d)
		w.UposathaMoon, w.HalfMoon, w.AstroMoon = UposathaMoonSliceSingle{u}, HalfMoonSliceSingle{hm}, AstroMoonSliceSingle{am}
		d.SetUposathaMoon(u)
		d.SetHalfMoon(hm)
		d.SetAstroMoon(am)
		h.sameDays("day after the three setters", []CalDay{d}, []CalDay{w})

		ds = h.calDays(2 + h.rng.Intn(4))
		a, b := h.rng.Intn(len(ds)), h.rng.Intn(len(ds))
		h.in("order of %s, %d and %d", hxShow(ds), a, b)
		cs := CalDaySlice(hxCopies(ds))
		h.eqb("Less", cs.Less(a, b), ds[a].Date.Before(ds[b].Date))
		h.eq("Len", cs.Len(), len(ds))
		w2 := hxCopies(ds)
		w2[a], w2[b] = w2[b], w2[a]
		cs.Swap(a, b)
		h.sameDays("Swap", cs, w2)
	}
}

func (h *hx) halves() {
	for i := 0; i < h.n(40000); i++ {
		if i%4 == 0 {
			h.around()
		}
		ds := h.calDays(h.rng.Intn(6))
		want := hxCopies(ds)
		for _, d := range ds {
			if len(d.UposathaMoon) == 0 {
				continue
			}
			p := map[string]string{"full": "waning", "new": "waxing"}[d.UposathaMoon[0].Phase]
			if p == "" {
				continue
			}
			t := d.Date.AddDate(0, 0, 8)
			want = append(want, CalDay{Date: t, HalfMoon: HalfMoonSliceSingle{{t, p}}})
		}
		in := hxCopies(ds)
		if h.rng.Intn(2) == 0 {
			in = append(make([]CalDay, 0, 40), in...)
		}
		h.in("AddHalfMoonDays of %s", hxShow(ds))
		got := AddHalfMoonDays(in)
		h.sameDays("days", got, want)
		h.sameDays("the given days", in, ds)
	}
}

// ---- astronomical moons

type hxMoon struct {
	at   time.Time
	code int
}

func hxRecorded(b []byte) []hxMoon {
	var d struct {
		Success  bool `json:"success"`
		Error    *struct{ Code string }
		Response []struct {
			DateTimeISO string `json:"dateTimeISO"`
			Code        int    `json:"code"`
		} `json:"response"`
	}
	if json.Unmarshal(b, &d) != nil || !d.Success || d.Error != nil && d.Error.Code != "" {
		return nil
	}
	var r []hxMoon
	for _, m := range d.Response {
		t, err := time.Parse(time.RFC3339, m.DateTimeISO)
		if err != nil {
			return nil
		}
		r = append(r, hxMoon{t, m.Code})
	}
	return r
}

func (h *hx) embed(y int, text string) {
	var b bytes.Buffer
	e := base64.NewEncoder(base64.StdEncoding, &b)
	g := gzip.NewWriter(e)
	g.Write([]byte(text))
	g.Close()
	e.Close()
	_escData["/data/astro/astro-"+strconv.Itoa(y)+".json"] = &_escFile{size: int64(len(text)), compressed: b.String()}
}

func (h *hx) astro() {
	data := map[int][]hxMoon{}
	files, _ := filepath.Glob("data/astro/astro-*.json")
	for _, f := range files {
		b, err := os.ReadFile(f)
		y, err2 := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "astro-"), ".json"))
		if err == nil && err2 == nil {
			data[y] = hxRecorded(b)
		}
	}
	check := func(a, b time.Time) {
		h.in("GetAstroMoons from %v to %v", a, b)
		var want []string
		for y := a.Year(); y <= b.Year(); y++ {
			for _, m := range data[y] {
				if !m.at.Before(a) && !m.at.After(b) {
					want = append(want, m.at.UTC().Format(time.RFC3339Nano)+" "+[]string{"new", "waxing", "full", "waning"}[m.code])
				}
			}
		}
		var got []string
		for _, m := range GetAstroMoons(a, b) {
			if m.Date.Location() != time.UTC {
				h.fail("zone", "UTC", m.Date.Location())
			}
			got = append(got, m.Date.Format(time.RFC3339Nano)+" "+m.Phase)
		}
		if strings.Join(want, "; ") != strings.Join(got, "; ") {
			h.fail("moons", want, got)
		}
	}
	pick := func(y int) time.Time {
		if ms := data[y]; len(ms) > 0 && h.rng.Intn(2) == 0 {
			t := ms[h.rng.Intn(len(ms))].at
			return t.Add([]time.Duration{0, 0, 1, -1, time.Second, -time.Second}[h.rng.Intn(6)])
		}
		return time.Date(y, 1, 1, 0, 0, h.rng.Intn(366*86400), 0, time.UTC)
	}
	run := func(n int, lo, hi int) {
		for i := 0; i < n; i++ {
			y := lo + h.rng.Intn(hi-lo+1)
			a, b := pick(y), pick(y+h.rng.Intn(4)-h.rng.Intn(2))
			if h.rng.Intn(6) == 0 {
				z := time.FixedZone("z", 3600*(h.rng.Intn(27)-12))
				a, b = a.In(z), b.In(z)
			}
			check(a, b)
		}
	}
	run(h.n(1500), 1985, 2022)
	run(h.n(200), 1895, 2045)
	check(time.Date(1890, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC))
	// invented years
	moon := func(t string, c int) string {
		return fmt.Sprintf(`{"timestamp":%d,"dateTimeISO":"%s","code":%d,"name":"x"}`, h.rng.Intn(1000), t, c)
	}
	for round := 0; round < 6; round++ {
		for y := 1800; y < 1830; y++ {
			base := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
			if h.rng.Intn(4) == 0 {
				delete(_escData, "/data/astro/astro-"+strconv.Itoa(y)+".json")
				delete(data, y)
				continue
			}
			var ms []string
			for i := h.rng.Intn(9); i > 0; i-- {
				// in no order, now and then outside the year, in any zone
				t := base.AddDate(0, 0, h.rng.Intn(400)-10).Add(time.Duration(h.rng.Intn(86400)) * time.Second)
				if h.rng.Intn(5) == 0 {
					t = t.Add(time.Duration(h.rng.Intn(1e9)))
				}
				for ok := true; ok; ok = h.rng.Intn(6) == 0 { // one instant now and then twice
					ms = append(ms, moon(t.In(time.FixedZone("", 3600*(h.rng.Intn(27)-12))).Format(time.RFC3339Nano), h.rng.Intn(4)))
				}
			}
			list := "[" + strings.Join(ms, ",") + "]"
			var text string
			switch h.rng.Intn(6) {
			case 0:
				text = `{"success":false,"error":null,"response":` + list + `}`
			case 1:
				text = `{"success":true,"error":{"code":"warn_x","description":"d"},"response":` + list + `}`
			case 2:
				text = `{"success":true,"error":{"code":"","description":"d"},"response":` + list + `}`
			default:
				text = `{"success":true,"error":null,"response":` + list + `}`
			}
			h.embed(y, text)
			data[y] = hxRecorded([]byte(text))
		}
		run(h.n(400), 1797, 1832)
	}
}

// ---- export

func hxTitle(s string) string {
	up := true
	return strings.Map(func(r rune) rune {
		if up && r >= 'a' && r <= 'z' {
			r -= 32
		}
		up = r == ' '
		return r
	}, s)
}

func (h *hx) export() {
	season := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}
	check := func(ev CalendarEvent, text string, e ical.VEvent) {
		h.in("%T %s", ev, hxJSON(ev))
		h.eqs("String", ev.String(), text)
		h.eqs("title", e.SUMMARY, text)
		if !reflect.DeepEqual(e.DTSTART, ev.GetDate()) {
			h.fail("start", ev.GetDate(), e.DTSTART)
		}
		if w := ev.GetDate().Add(24 * time.Hour); !e.DTEND.Equal(w) {
			h.fail("end", w, e.DTEND)
		}
		h.eqb("all day", e.AllDay, true)
	}
	defer func() { hxZone = time.UTC }()
	zones := []*time.Location{time.UTC, time.FixedZone("z", 7*3600)}
	for _, n := range []string{"Europe/London", "America/New_York", "Australia/Lord_Howe", "Asia/Bangkok"} {
		if z, err := time.LoadLocation(n); err == nil {
			zones = append(zones, z)
		}
	}
	for i := 0; i < h.n(20000); i++ {
		h.around()
		hxZone = zones[h.rng.Intn(len(zones))]
		moon := func(p string) string {
			if p == "" {
				return ""
			}
			return hxTitle(p) + " Moon"
		}
		u := h.uposatha()
		t := moon(u.Phase)
		if t != "" {
			t += fmt.Sprint(" - ", u.U_Days, " day ", season[u.LunarSeason], " ") + strconv.Itoa(u.S_Number) + "/" + strconv.Itoa(u.S_Total)
		}
		check(u, t, u.IcalEvent())
		m := HalfMoon{h.date(), h.name()}
		check(m, moon(m.Phase), m.IcalEvent())
		a := AstroMoon{h.name(), h.date()}
		check(a, moon(a.Phase), a.IcalEvent())
		e := h.event()
		check(e, e.Summary, e.IcalEvent())
		me := h.major()
		if i%3 == 0 {
			me.Summary = ""
		}
		check(me, me.Summary, me.IcalEvent())
	}
}

// calendars: GetCalDays against a map from dates to days.
func (h *hx) calendars() {
	listed := map[int][]CalendarEvent{}
	list := func(y int) []CalendarEvent {
		if l, ok := listed[y]; ok {
			return l
		}
		if len(listed) > 300 {
			listed = map[int][]CalendarEvent{}
		}
		listed[y] = GenerateSolarYear(y)
		return listed[y]
	}
	check := func(a, b time.Time) {
		h.in("GetCalDays from %v to %v, UseExceptions %v", a.Format(time.RFC3339Nano), b.Format(time.RFC3339Nano), UseExceptions)
		days := map[string]CalDay{}
		var keys []string
		add := func(ev CalendarEvent) {
			k := hxYMD(ev.GetDate())
			if _, ok := days[k]; !ok {
				keys = append(keys, k)
			}
			days[k] = hxAdd(days[k], ev)
		}
		for _, m := range GetAstroMoons(a, b) {
			add(m)
		}
		for y := a.Year(); y <= b.Year(); y++ {
			for _, ev := range list(y) {
				if t := ev.GetDate(); !t.Before(a) && !t.After(b) {
					add(ev)
				}
			}
		}
		sort.Strings(keys)
		var want []CalDay
		for _, k := range keys {
			want = append(want, days[k])
		}
		h.sameDays("days", GetCalDays(a, b), want)
	}
	pick := func(y int) time.Time {
		if y < 1300 {
			y = 1300
		}
		if y > 2900 {
			y = 2900
		}
		var at []time.Time
		switch h.rng.Intn(3) {
		case 0:
			for _, ev := range list(y) {
				at = append(at, ev.GetDate())
			}
		case 1:
			for _, m := range GetAstroMoons(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y+1, 1, 1, 0, 0, 0, -1, time.UTC)) {
				at = append(at, m.Date)
			}
		}
		if len(at) > 0 {
			t := at[h.rng.Intn(len(at))].Add([]time.Duration{0, 0, 0, 1, -1, time.Second, -time.Second, 24 * time.Hour}[h.rng.Intn(8)])
			if t.Year() == y {
				return t
			}
		}
		return time.Date(y, 1, 1, 0, 0, h.rng.Intn(365*86400), 0, time.UTC)
	}
	h.shippedSettings(func() {
		listed = map[int][]CalendarEvent{}
		for i := 0; i < h.n(400); i++ {
			lo, hi := 1300, 2900
			if i%4 != 0 {
				lo, hi = 1985, 2040
			}
			y := lo + h.rng.Intn(hi-lo+1)
			a := pick(y)
			b := pick(y + h.rng.Intn(3))
			switch h.rng.Intn(6) {
			case 0:
				b = a.Add(time.Duration(h.rng.Intn(40*86400)) * time.Second)
				if b.Year() > 2900 {
					b = a
				}
			case 1:
				b = pick(y + h.rng.Intn(8) - 1)
			}
			check(a, b)
		}
		check(time.Date(1300, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1312, 12, 31, 0, 0, 0, 0, time.UTC))
		check(time.Date(2888, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2900, 12, 31, 23, 59, 59, 0, time.UTC))
	})
}

// hxWords: the short string literals of the sources, as inputs worth trying.
func hxWords() (words []string) {
	lit := regexp.MustCompile("\"([^\"\\\\\n]{1,24})\"")
	files, _ := filepath.Glob("*.go")
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil || len(b) > 200000 || strings.HasSuffix(f, "_test.go") {
			continue
		}
		for _, m := range lit.FindAllStringSubmatch(string(b), -1) {
			if !seen[m[1]] {
				seen[m[1]] = true
				words = append(words, m[1])
			}
		}
	}
	return words
}

// names: the lookups against the names, and printed forms.
func (h *hx) names() {
	UseExceptions = false
	tab := []struct {
		what string
		f    func(string) int
		n    map[string]int
	}{
		{"month", MonthToInt, map[string]int{"magasira": 1, "phussa": 2, "magha": 3, "phagguna": 4, "citta": 5, "vesakha": 6, "jettha": 7, "asalha": 8, "2nd asalha": 13, "savana": 9, "bhaddapada": 10, "assayuja": 11, "kattika": 12}},
		{"season", SeasonToInt, map[string]int{"hemanta": 1, "gimhana": 2, "vassana": 3}},
		{"calendar", CalendarToInt, map[string]int{"dhammayut": 1, "srilanka": 2, "myanmar": 3}},
		{"status", StatusToInt, map[string]int{"predicted": 1, "confirmed": 2}},
	}
	words := []string{"", "null", "mahanikaya", "draft", "ṃ", "\xff"}
	for _, t := range tab {
		for w := range t.n {
			words = append(words, w)
		}
	}
	words = append(words, hxWords()...)
	sort.Strings(words)
	for i := 0; i < h.n(40000); i++ {
		w := words[h.rng.Intn(len(words))]
		switch h.rng.Intn(9) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			w = hxTitle(w)
		case 2:
			w = " " + w
		case 3:
			w += " "
		case 4:
			if len(w) > 0 {
				k := h.rng.Intn(len(w))
				w = w[:k] + w[k+1:]
			}
		case 5:
			if len(w) > 0 {
				k := h.rng.Intn(len(w))
				w = w[:k] + string(rune('a'+h.rng.Intn(26))) + w[k+1:]
			}
		}
		for _, t := range tab {
			h.in("%s %q", t.what, w)
			h.eq("number", t.f(w), t.n[w])
		}
	}
	for i := 0; i < h.n(4000); i++ {
		su := SuriyaYear{Year: h.rng.Intn(6000) - 500, BE_Year: h.rng.Intn(9), CS_Year: h.rng.Intn(9)}
		h.in("SuriyaYear %+v", su)
		h.eqs("text", su.String(), strconv.Itoa(su.Year))
	}
	for i := 0; i < h.n(4000); i++ {
		var d CalDay
		var a, b, c string
		if h.rng.Intn(3) > 0 {
			m := h.uposatha()
			d.UposathaMoon = append(d.UposathaMoon, m)
			a = m.String()
		}
		if h.rng.Intn(3) > 0 {
			m := AstroMoon{h.name(), h.date()}
			d.AstroMoon = append(d.AstroMoon, m)
			b = m.String()
		}
		if h.rng.Intn(3) > 0 {
			m := HalfMoon{h.date(), h.name()}
			d.HalfMoon = append(d.HalfMoon, m)
			c = m.String()
		}
		if h.rng.Intn(2) == 0 {
			d.Events = append(d.Events, h.event())
		}
		if h.rng.Intn(2) == 0 {
			d.MajorEvents = append(d.MajorEvents, h.major())
		}
		h.in("day %+v", d)
		h.eqs("text", d.String(), a+", "+b+", "+c)
	}
}

func init() {
	hxProps["C23"] = (*hx).names
	hxProps["C15"] = (*hx).nexts
	hxProps["C16"] = (*hx).listing
	hxProps["C17"] = (*hx).merging
	hxProps["C18"] = (*hx).halves
	hxProps["C19"] = (*hx).astro
	hxProps["C22"] = (*hx).calendars
	hxProps["C21"] = (*hx).export
}
