package suriya

// Replay harness: runs the real functions against the properties' own wording,
// on the inputs a failed obligation names and on wide sweeps. It never decides
// that a property holds; it looks for the failing input behind an obligation
// that was not discharged, and exercises the assumptions of the verifier.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type hxFailure struct {
	Input    string `json:"input"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
	What     string `json:"what"`
}

type hxReport struct {
	Property string     `json:"property"`
	Seed     int64      `json:"seed"`
	Evals    int64      `json:"evaluations"`
	Samples  []string   `json:"samples"`
	Fail     *hxFailure `json:"failure"`
	Done     bool       `json:"done"`
}

type hx struct {
	hxReport
	tier   string
	ints   []int64   // integers from the verifier's counterexamples
	reals  []float64 // and reals
	rng    *rand.Rand
	inF    string
	inA    []interface{}
	out    string
	count  int64
	inside int32
}

type hxStop struct{}

var hxProps = map[string]func(*hx){}

// in names the input under test.
func (h *hx) in(f string, a ...interface{}) {
	h.inF, h.inA = f, a
	h.Evals++
	if h.Evals == 1 || h.Evals == 1000 || h.Evals == 100000 {
		h.Samples = append(h.Samples, fmt.Sprintf(f, a...))
	}
	atomic.AddInt64(&h.count, 1)
}

func (h *hx) fail(what string, want, got interface{}) {
	if h.Fail == nil {
		h.Fail = &hxFailure{Input: fmt.Sprintf(h.inF, h.inA...), Expected: fmt.Sprint(want), Got: fmt.Sprint(got), What: what}
	}
	panic(hxStop{})
}

func (h *hx) eq(what string, got, want int) {
	if got != want {
		h.fail(what, want, got)
	}
}

func (h *hx) eqb(what string, got, want bool) {
	if got != want {
		h.fail(what, want, got)
	}
}

func (h *hx) eqs(what string, got, want string) {
	if got != want {
		h.fail(what, strconv.Quote(want), strconv.Quote(got))
	}
}

func (h *hx) eqt(what string, got, want time.Time) {
	if !got.Equal(want) || got.Location() != time.UTC && got.Location().String() != "UTC" {
		h.fail(what, want, got)
	}
}

func (h *hx) write() {
	b, _ := json.MarshalIndent(h.hxReport, "", " ")
	os.WriteFile(h.out+".tmp", b, 0644)
	os.Rename(h.out+".tmp", h.out)
}

func (h *hx) thorough() bool { return h.tier == "thorough" }

// n scales a number of cases.
func (h *hx) n(quick int) int {
	if h.thorough() {
		return quick * 20
	}
	return quick
}

// hinted gives the integers of the counterexamples, with neighbours, in a range.
func (h *hx) hinted(lo, hi int) []int {
	seen := map[int]bool{}
	var r []int
	add := func(v int64) {
		if v >= int64(lo) && v <= int64(hi) && !seen[int(v)] {
			seen[int(v)] = true
			r = append(r, int(v))
		}
	}
	for d := int64(0); d <= 3; d++ {
		for _, v := range h.ints {
			add(v + d)
			add(v - d)
		}
	}
	return r
}

func TestGocv(t *testing.T) {
	prop := os.Getenv("GOCV_PROP")
	f := hxProps[prop]
	if f == nil {
		t.Skip("no harness for this property")
	}
	h := &hx{tier: os.Getenv("VERIF_TIER"), out: os.Getenv("GOCV_OUT")}
	h.Property = prop
	h.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h.rng = rand.New(rand.NewSource(h.Seed*7919 + 17))
	for _, s := range strings.Fields(os.Getenv("GOCV_HINTS")) {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			h.ints = append(h.ints, i)
		} else if x, err := strconv.ParseFloat(s, 64); err == nil {
			h.reals = append(h.reals, x)
		}
	}
	done := make(chan bool)
	go func() {
		last, since := int64(-1), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
			}
			if c := atomic.LoadInt64(&h.count); c != last {
				last, since = c, time.Now()
			} else if time.Since(since) > 25*time.Second {
				h.Fail = &hxFailure{Input: fmt.Sprintf(h.inF, h.inA...), Expected: "the call returns", Got: "still running after 25 s", What: "termination"}
				h.write()
				os.Exit(3)
			}
		}
	}()
	func() {
		returned := false
		defer func() {
			if r := recover(); r != nil || !returned {
				if _, ok := r.(hxStop); !ok {
					h.Fail = &hxFailure{Input: fmt.Sprintf(h.inF, h.inA...), Expected: "no panic", Got: fmt.Sprint(r), What: "panic"}
				}
			}
		}()
		f(h)
		returned = true
	}()
	close(done)
	h.Done = true
	h.write()
	if h.Fail != nil {
		t.Errorf("%s: %s: input %s: expected %s, got %s", prop, h.Fail.What, h.Fail.Input, h.Fail.Expected, h.Fail.Got)
	}
}

// ---- oracle: the reckoning as the properties state it, in integers

func hxDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func hxMod(a, b int) int { return a - b*hxDiv(a, b) }

type hxEl struct{ H, K, U, A, M, T int }

func hxYear(y int) hxEl {
	a := 292207*(y-638) + 373
	e := hxOf(hxDiv(a, 800) + 1)
	e.K = 800 - hxMod(a, 800)
	return e
}

func hxOf(H int) hxEl {
	e := hxEl{H: H}
	e.U = hxMod(H+2611, 3232)
	e.A = hxMod(11*H+650, 692)
	n := H + hxDiv(11*H+650, 692)
	e.M, e.T = hxDiv(n, 30), hxMod(n, 30)
	return e
}

// a is x cut down to four decimals
func hxCut(a, x float64) bool { return -0.000100001 <= a-x && a-x <= 1e-9 }

func hxDay(y, d int) hxEl {
	e := hxYear(y)
	el := d - e.T
	r := hxOf(e.H + el)
	r.K = e.K + 800*el
	return r
}

func hxWBT(y int) bool { t := hxYear(y).T; return t >= 24 || t <= 5 }
func hxAM(y int) bool  { return hxWBT(y) && !hxWBT(y+1) }
func hxWV(y int) bool {
	e := hxYear(y)
	if e.K <= 207 {
		return e.A <= 126
	}
	return e.A < 137
}
func hxCar(y int) bool { return hxAM(y-1) && hxWV(y-1) }
func hxAV0(y int) bool { return !hxAM(y) && (hxWV(y) || hxCar(y)) }
func hxAV(y int) bool {
	if UseExceptions {
		if v, ok := AdhikavaraExceptions[y]; ok {
			return v
		}
	}
	return hxAV0(y)
}
func hxLen(y int) int {
	switch {
	case hxAM(y):
		return 384
	case hxAV(y):
		return 355
	}
	return 354
}

func hxInit(y int) SuriyaYear {
	var s SuriyaYear
	s.Init(y)
	return s
}

// a value left behind by something else
func (h *hx) dirtyYear() SuriyaYear {
	var s SuriyaYear
	v := reflect.ValueOf(&s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Int && v.Field(i).CanSet() {
			v.Field(i).SetInt(h.dirtyInt())
		}
	}
	s.FirstDay = time.Unix(h.rng.Int63n(1<<33), 0)
	return s
}

func (h *hx) dirtyInt() int64 {
	switch h.rng.Intn(4) {
	case 0:
		return int64(h.rng.Intn(3000))
	case 1:
		return -int64(h.rng.Intn(100000))
	case 2:
		return h.rng.Int63() >> 2
	}
	return int64(h.rng.Intn(30))
}

func (h *hx) dirtyDay() SuriyaDay {
	var s SuriyaDay
	v := reflect.ValueOf(&s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if !v.Field(i).CanSet() {
			continue
		}
		switch v.Field(i).Kind() {
		case reflect.Int:
			v.Field(i).SetInt(h.dirtyInt())
		case reflect.Float64:
			v.Field(i).SetFloat(h.rng.NormFloat64() * 500)
		}
	}
	s.Date = time.Unix(h.rng.Int63n(1<<33), 0)
	return s
}

// years: hinted ones, then all (or a sample) of lo..hi in a shuffled order.
func (h *hx) years(lo, hi, every int, f func(y int)) {
	for _, y := range h.hinted(lo, hi) {
		f(y)
	}
	for _, y := range []int{lo, lo + 1, hi, hi - 1} {
		f(y)
	}
	if h.thorough() && every > 1 {
		every = (every + 19) / 20
	}
	for y := lo + h.rng.Intn(every); y <= hi; y += every {
		f(y)
	}
	for i := 0; i < 200; i++ {
		f(lo + h.rng.Intn(hi-lo+1))
	}
}

// bothSettings runs f with the exceptions off and on.
func (h *hx) bothSettings(f func()) {
	old, oldM := UseExceptions, AdhikavaraExceptions
	defer func() { UseExceptions, AdhikavaraExceptions = old, oldM }()
	UseExceptions = false
	f()
	UseExceptions = true
	f()
	m := map[int]bool{1994: true, 2001: true, 2002: false, 2016: true, 2017: false, 5000: true, 5001: true, 5002: true, 5003: false, 5004: false}
	for i := 0; i < 40; i++ {
		m[660+h.rng.Intn(3000)] = h.rng.Intn(2) == 0
	}
	// long runs of listed years
	for y, n := 700, 1; n < 24; n++ {
		for i := 0; i < n; i++ {
			m[y+i] = false
		}
		y += n + 3 + h.rng.Intn(9)
	}
	AdhikavaraExceptions = m
	f()
}

func init() {
	hxProps["C01"] = func(h *hx) {
		check := func(y int) {
			s := h.dirtyYear()
			first := s.FirstDay
			h.in("SuriyaYear.Init(%d) on %+v", y, s)
			s.Init(y)
			e := hxYear(y)
			h.eq("Year", s.Year, y)
			h.eq("BE_Year", s.BE_Year, y+543)
			h.eq("CS_Year", s.CS_Year, y-638)
			h.eq("Horakhun", s.Horakhun, e.H)
			h.eq("Kammacubala", s.Kammacubala, e.K)
			h.eq("Uccabala", s.Uccabala, e.U)
			h.eq("Avoman", s.Avoman, e.A)
			h.eq("Masaken", s.Masaken, e.M)
			h.eq("Tithi", s.Tithi, e.T)
			if !s.FirstDay.Equal(first) {
				h.fail("FirstDay untouched", first, s.FirstDay)
			}
			if y%97 == 0 {
				h.values(&s)
			}
		}
		h.years(638, 1000000, 1, check)
		for i := 0; i < 2000; i++ {
			s := h.dirtyYear()
			h.values(&s)
		}
	}
	hxProps["C02"] = func(h *hx) {
		h.days(func(y, d int, s SuriyaDay) {
			e := hxDay(y, d)
			h.eq("Year", s.Year, y)
			h.eq("BE_Year", s.BE_Year, y+543)
			h.eq("CS_Year", s.CS_Year, y-638)
			h.eq("Day", s.Day, d)
			h.eq("Horakhun", s.Horakhun, e.H)
			h.eq("Kammacubala", s.Kammacubala, e.K)
			h.eq("Uccabala", s.Uccabala, e.U)
			h.eq("Avoman", s.Avoman, e.A)
			h.eq("Masaken", s.Masaken, e.M)
			h.eq("Tithi", s.Tithi, e.T)
		})
	}
	hxProps["C03"] = func(h *hx) {
		h.days(func(y, d int, s SuriyaDay) {
			K := hxDay(y, d).K
			m := hxDiv((hxDiv(21600*K, 292207)-3)*10000, 60)
			if math.Abs(s.MeanSun*10000-float64(m)) > 1e-6 {
				h.fail("MeanSun", float64(m)/10000, s.MeanSun)
			}
			q := 134 * math.Sin(math.Abs(s.MeanSun-80)*math.Pi/180)
			diff := s.TrueSun - s.MeanSun
			if !hxCut(diff, math.Floor(q+1e-9)/60) && !hxCut(diff, math.Floor(q-1e-9)/60) {
				h.fail("TrueSun", s.MeanSun+math.Floor(q)/60, s.TrueSun)
			}
		})
	}
	hxProps["C04"] = func(h *hx) {
		off := func(a, x float64) float64 {
			d := math.Mod(a-x, 360)
			if d < 0 {
				d += 360
			}
			return math.Min(d, 360-d)
		}
		h.days(func(y, d int, s SuriyaDay) {
			e, ey := hxDay(y, d), hxYear(y)
			x := s.TrueSun + float64(e.A+hxDiv(e.A, 25))/60 + 12*float64(e.T) - 0.6666
			if !(s.MeanMoon >= 0 && s.MeanMoon <= 360) || off(s.MeanMoon, x) > 1e-7 {
				h.fail("MeanMoon", x-360*math.Floor(x/360), s.MeanMoon)
			}
			apo := float64(90*(ey.U+d-ey.T))/808 + 2.0/60
			x = s.MeanMoon - 296.0/60*math.Sin((s.MeanMoon-apo)*math.Pi/180)
			if !(s.TrueMoon >= 0 && s.TrueMoon <= 360) || !hxCut(s.TrueMoon, x) && !hxCut(s.TrueMoon, x+360) && !hxCut(s.TrueMoon, x-360) {
				h.fail("TrueMoon", x-360*math.Floor(x/360), s.TrueMoon)
			}
			r := 1 + s.TrueMoon/13.3333
			if !(math.Abs(s.Raek-r) <= 1e-7) || s.Raek < 1 || s.Raek > 28.0001 {
				h.fail("Raek", r, s.Raek)
			}
		})
	}
	hxProps["C05"] = func(h *hx) {
		deg := func(d float64) {
			if d != 0 && math.Abs(d) < 1e-9 || math.Abs(d) > 1e6 {
				return
			}
			h.in("DegreeToRal(%v)", d)
			x, y, z := DegreeToRal(d)
			if y < 0 || y > 29 {
				h.fail("angsa", "0..29", y)
			}
			if z < 0 || z > 59 {
				h.fail("lipda", "0..59", z)
			}
			v := float64(30*x+y) + float64(z)/60
			if !(v <= d+1e-9) || !(d < v+1.0/60+1e-9) {
				h.fail("the angle denoted", fmt.Sprintf("%v", d), fmt.Sprintf("%d;%d:%d = %v", x, y, z, v))
			}
			h.in("DegreeToRalString(%v)", d)
			h.eqs("printed form", DegreeToRalString(d), strconv.Itoa(x)+":"+strconv.Itoa(y)+"°"+strconv.Itoa(z)+"'")
			h.in("NormalizeDegree(%v)", d)
			n := NormalizeDegree(d)
			if !(n >= 0 && n <= 360) {
				h.fail("range", "0..360", n)
			}
			if d >= 0 && d <= 360 && n != d {
				h.fail("angle already in range", d, n)
			}
			t := (d - n) / 360
			if math.Abs(t-math.Round(t)) > 1e-9 {
				h.fail("whole number of turns", "integer", t)
			}
		}
		ral := func(x, y, z int) {
			h.in("RalToDegree(%d, %d, %d)", x, y, z)
			got := RalToDegree(x, y, z)
			want := float64(hxDiv((30*x+y)*600000+z*10000, 60)) / 10000
			if !(math.Abs(got-want) <= 1e-9) {
				h.fail("degrees to four decimals", want, got)
			}
		}
		for _, r := range h.reals {
			deg(r)
			deg(math.Nextafter(r, math.Inf(1)))
			deg(math.Nextafter(r, math.Inf(-1)))
		}
		for _, r := range h.ints {
			deg(float64(r))
		}
		for _, x := range h.hinted(-100000, 100000) {
			for _, y := range []int{0, x} {
				ral(x, y, x)
				ral(y, x, y)
				ral(0, 0, x)
			}
		}
		for i := 0; i < h.n(400000); i++ {
			d := (h.rng.Float64()*2 - 1) * math.Pow(10, h.rng.Float64()*15-9)
			switch i % 4 {
			case 1:
				d = float64(h.rng.Intn(200001)-100000) * [...]float64{1, 0.5, 30, 360, 1.0 / 60, 0.0001, 10}[h.rng.Intn(7)]
			case 2:
				d = float64(h.rng.Intn(2000001)-1000000) / 60
				if h.rng.Intn(2) == 0 {
					d = math.Nextafter(d, float64(h.rng.Intn(3)-1)*1e9)
				}
			case 3:
				d = (h.rng.Float64()*2 - 1) * 800
			}
			if i%5 == 0 {
				d = math.Nextafter(math.Round(d), math.Inf(h.rng.Intn(2)*2-1))
			}
			deg(d)
			b := int(math.Pow(10, 1+h.rng.Float64()*4))
			ral(h.rng.Intn(2*b+1)-b, h.rng.Intn(2*b+1)-b, h.rng.Intn(2*b+1)-b)
		}
		for i := -3600; i <= 3600; i++ {
			ral(0, 0, i)
			ral(0, i, 0)
			deg(float64(i))
			deg(float64(i) / 60)
			deg(float64(i) / 10)
		}
		ral(100000, 100000, 100000)
		ral(-100000, -100000, -100000)
	}
	hxProps["C06"] = func(h *hx) {
		h.years(640, 1000000, 1, func(y int) {
			s := hxInit(y)
			h.in("leap month of %d", y)
			am := hxAM(y)
			h.eqb("Is_Adhikamasa", s.Is_Adhikamasa(), am)
			if am && hxAM(y+1) {
				h.fail("adjacent leap-month years", false, true)
			}
			want := 1
			for !hxAM(y - want) {
				want++
			}
			h.eq("DeltaAdhikamasa", s.DeltaAdhikamasa(), want)
		})
	}
	hxProps["C07"] = func(h *hx) {
		h.in("the package as a program finds it")
		h.eqb("UseExceptions", UseExceptions, false)
		if w := (map[int]bool{1994: false, 1997: true}); !reflect.DeepEqual(AdhikavaraExceptions, w) {
			h.fail("AdhikavaraExceptions", w, AdhikavaraExceptions)
		}
		h.years(642, 1000000, 1, func(y int) {
			UseExceptions = false
			h.seven(y)
		})
		h.bothSettings(func() {
			for y := 642; y <= 6000; y++ {
				h.seven(y)
			}
			for y := range AdhikavaraExceptions {
				for d := -14; d <= 14; d++ {
					if y+d >= 642 {
						h.seven(y + d)
					}
				}
			}
		})
	}
	hxProps["C08"] = func(h *hx) {
		h.bothSettings(func() {
			h.years(642, 1000000, 3, func(y int) {
				s := hxInit(y)
				h.in("YearLength of %d, UseExceptions %v", y, UseExceptions)
				h.eq("YearLength", s.YearLength(), hxLen(y))
			})
			for y := 642; y < 6000; y++ {
				s := hxInit(y)
				h.in("YearLength of %d, UseExceptions %v", y, UseExceptions)
				h.eq("YearLength", s.YearLength(), hxLen(y))
			}
		})
	}
	hxProps["C09"] = func(h *hx) {
		h.bothSettings(func() {
			h.kattika(func(y int, kat time.Time) {
				h.in("CalculatePreviousKattika(%d), UseExceptions %v", y, UseExceptions)
				h.eqt("previous Kattika", CalculatePreviousKattika(y), kat)
			})
		})
	}
	hxProps["C10"] = func(h *hx) {
		h.bothSettings(func() {
			h.kattika(func(y int, kat time.Time) {
				s := hxInit(y)
				h.in("AsalhaPuja of %d, UseExceptions %v", y, UseExceptions)
				n := 236
				if hxAM(y) {
					n = 266
				} else if hxAV(y) {
					n = 237
				}
				h.eqt("Asalha Puja", s.AsalhaPuja(), kat.AddDate(0, 0, n))
				if y < 3000 && y%7 == 0 {
					h.eqt("118 days before the next Kattika", CalculatePreviousKattika(y+1), kat.AddDate(0, 0, n+118))
				}
			})
		})
	}
	hxProps["C11"] = func(h *hx) {
		check := func(y int) {
			h.in("New Year and Kattika of %d", y)
			s := hxInit(y)
			off := 133
			if e := hxYear(y); e.T <= 5 {
				off = 163
			} else if hxCar(y) {
				off = 134
			}
			d := HorakhunToDate(int64(s.Horakhun - s.Tithi)).Add(-86399 * time.Second)
			h.eqt("previous Kattika by the day reckoning", CalculatePreviousKattika(y), d.AddDate(0, 0, -off))
		}
		for _, y := range h.hinted(645, 3500) {
			check(y)
		}
		for y := 645; y <= 3500; y++ {
			check(y)
		}
	}
	hxProps["C12"] = func(h *hx) {
		ref := time.Date(1963, 7, 5, 23, 59, 59, 0, time.UTC)
		check := func(n int) {
			if n < -50000000 || n > 50000000 {
				return
			}
			h.in("HorakhunToDate(%d)", n)
			d := n - 484049
			want := time.Unix(ref.Unix()+int64(d)*86400, 0).UTC()
			h.eqt("date", HorakhunToDate(int64(n)), want)
		}
		for _, n := range h.hinted(-50000000, 50000000) {
			check(n)
		}
		for i := -490; i <= 490; i++ {
			for _, step := range []int{290 * 356, 103240, 290 * 365, 290*365 + 72, 106751, 100000, 36525, 365} {
				for d := -2; d <= 2; d++ {
					check(484049 + i*step + d)
				}
			}
		}
		for n := 300000; n < 800000; n++ {
			check(n)
		}
		for i := 0; i < h.n(300000); i++ {
			check(h.rng.Intn(100000001) - 50000000)
		}
	}
	hxProps["C13"] = func(h *hx) {
		h.years(1, 1000000, 1, func(y int) {
			for i := 0; i < 2; i++ {
				s := h.dirtyYear()
				s.Year = y
				if i == 1 && y >= 638 {
					s.Init(y)
				}
				h.in("cycle positions of %d", y)
				h.eq("57-year position", s.AdhikavaraCyclePos(), hxMod(y-1984, 57)+1)
				h.eq("19-year position", s.AdhikamasaCyclePos(), hxMod(y-1984, 19)+1)
			}
		})
	}
	hxProps["C14"] = (*hx).purity
	hxProps["C20"] = (*hx).embedded
	hxProps["C24"] = (*hx).opened
}

func (h *hx) values(s *SuriyaYear) {
	h.in("SuriyaValuesString on %+v", *s)
	b := *s
	names := []string{"CE", "BE", "CS", "Horakhun", "Kammacubala", "Uccabala", "Avoman", "Masaken", "Tithi"}
	vals := []int{s.Year, s.BE_Year, s.CS_Year, s.Horakhun, s.Kammacubala, s.Uccabala, s.Avoman, s.Masaken, s.Tithi}
	w := ""
	for i := range names {
		w += names[i] + ": " + strconv.Itoa(vals[i]) + "\n"
	}
	h.eqs("values report", s.SuriyaValuesString(), w)
	if !reflect.DeepEqual(b, *s) {
		h.fail("values report changes nothing", b, *s)
	}
}

// days runs f over days of years.
func (h *hx) days(f func(y, d int, s SuriyaDay)) {
	one := func(y, d int) {
		s := h.dirtyDay()
		h.in("SuriyaDay.Init(%d, %d)", y, d)
		date := s.Date
		s.Init(y, d)
		if !s.Date.Equal(date) {
			h.fail("Date untouched", date, s.Date)
		}
		f(y, d, s)
	}
	ys := append(h.hinted(638, 1000000), 2012, 1963)
	ds := append(h.hinted(1, 400), 103, 1, 400)
	for _, y := range ys {
		for _, d := range ds {
			one(y, d)
		}
		for d := 1; d <= 400; d++ {
			one(y, d)
		}
	}
	for y := 638; y <= 2700; y++ {
		for d := 1 + h.rng.Intn(3); d <= 400; d += 3 {
			one(y, d)
		}
	}
	for i := 0; i < h.n(1500); i++ {
		y := 638 + h.rng.Intn(1000000-637)
		for d := 1; d <= 400; d++ {
			one(y, d)
		}
	}
	for y := 638; y <= 1000000; y++ {
		if h.thorough() {
			for i := 0; i < 60; i++ {
				one(y, 1+h.rng.Intn(400))
			}
		} else if y%2 == 0 {
			one(y, 1+h.rng.Intn(400))
		}
	}
}

func (h *hx) seven(y int) {
	s := hxInit(y)
	h.in("extra day of %d, UseExceptions %v", y, UseExceptions)
	h.eqb("solar leap year", s.Is_Suriya_Leap(), hxYear(y).K <= 207)
	h.eqb("qualifies for the extra day", s.Would_Be_Adhikavara(), hxWV(y))
	h.eqb("carried extra day", s.Has_Carried_Adhikavara(), hxCar(y))
	h.eqb("extra day", s.Is_Adhikavara(), hxAV(y))
	if y >= 660 {
		want := -1
		for i := 1; i <= 13; i++ {
			if hxAV(y - i) {
				want = i
				break
			}
		}
		h.eq("years since the last extra day", s.DeltaAdhikavara(), want)
		if !UseExceptions && y <= 3500 && (want < 1 || want > 7) {
			h.fail("gap between extra-day years", "1..7", want)
		}
	}
}

// kattika chains the full moons from the epoch.
func (h *hx) kattika(f func(y int, kat time.Time)) {
	epoch := time.Date(2015, 11, 25, 0, 0, 0, 0, time.UTC).Unix()
	at := map[int]int64{2016: 0}
	days := int64(0)
	for y := 2015; y >= 645; y-- {
		days -= int64(hxLen(y))
		at[y] = days
	}
	days = 0
	top := 4000
	far := map[int]bool{1000000: true, 20011: true, 5003: true}
	for _, y := range h.hinted(4001, 1000000) {
		if len(far) < 12 {
			far[y] = true
		}
	}
	for i := 0; i < 10; i++ {
		far[4000+h.rng.Intn(60000)] = true
	}
	for y := 2016; y < 1000000; y++ {
		days += int64(hxLen(y))
		if y < top || far[y+1] {
			at[y+1] = days
		}
	}
	var list []int
	for y := range at {
		list = append(list, y)
	}
	sort.Ints(list)
	list = append(h.hinted(645, top), list...)
	h.rng.Shuffle(len(list)/2, func(i, j int) { list[i], list[j] = list[j], list[i] })
	for _, y := range list {
		if d, ok := at[y]; ok {
			f(y, time.Unix(epoch+d*86400, 0).UTC())
		}
	}
}

// purity asks many questions in random order under changing settings; the
// answer to a question may depend on nothing but the question and the settings.
func (h *hx) purity() {
	old, oldM := UseExceptions, AdhikavaraExceptions
	defer func() { UseExceptions, AdhikavaraExceptions = old, oldM }()
	maps := []map[int]bool{
		{1994: false, 1997: true},
		{1994: true, 2000: true, 2001: false, 1998: true},
		{},
	}
	settings := func() string { return fmt.Sprint(UseExceptions, AdhikavaraExceptions) }
	type q struct {
		name string
		f    func() string
	}
	var qs []q
	yearQ := func(y int) {
		on := func(n string, g func(s *SuriyaYear) string, oracle func() string) {
			qs = append(qs, q{fmt.Sprintf("%s of year %d", n, y), func() string {
				s := h.dirtyYear()
				f0 := s.FirstDay
				s.Init(y)
				e := hxYear(y)
				if s.Horakhun != e.H || s.Kammacubala != e.K || s.Avoman != e.A || s.Uccabala != e.U || s.Tithi != e.T || s.Masaken != e.M || s.Year != y || s.BE_Year != y+543 || s.CS_Year != y-638 || !s.FirstDay.Equal(f0) {
					h.fail("initialising overwrites every element", fmt.Sprintf("%+v", e), fmt.Sprintf("%+v", s))
				}
				b := s
				r := g(&s)
				if w := oracle(); r != w {
					h.fail("the answer by the rules, under the present settings", w, r)
				}
				if !reflect.DeepEqual(b, s) {
					h.fail("the year asked is unchanged", fmt.Sprintf("%+v", b), fmt.Sprintf("%+v", s))
				}
				return r
			}})
		}
		kat := func() time.Time {
			n, e := 0, time.Date(2015, 11, 25, 0, 0, 0, 0, time.UTC)
			for x := 2016; x < y; x++ {
				n += hxLen(x)
			}
			for x := 2015; x >= y; x-- {
				n -= hxLen(x)
			}
			return time.Unix(e.Unix()+int64(n)*86400, 0).UTC()
		}
		on("leap month", func(s *SuriyaYear) string { return fmt.Sprint(s.Is_Adhikamasa(), s.Would_Be_Adhikamasa()) },
			func() string { return fmt.Sprint(hxAM(y), hxWBT(y)) })
		on("extra day", func(s *SuriyaYear) string { return fmt.Sprint(s.Is_Adhikavara(), s.Would_Be_Adhikavara()) },
			func() string { return fmt.Sprint(hxAV(y), hxWV(y)) })
		on("carried day", func(s *SuriyaYear) string { return fmt.Sprint(s.Has_Carried_Adhikavara(), s.Is_Suriya_Leap()) },
			func() string { return fmt.Sprint(hxCar(y), hxYear(y).K <= 207) })
		on("length", func(s *SuriyaYear) string { return fmt.Sprint(s.YearLength()) },
			func() string { return fmt.Sprint(hxLen(y)) })
		on("cycles", func(s *SuriyaYear) string { return fmt.Sprint(s.AdhikamasaCyclePos(), s.AdhikavaraCyclePos()) },
			func() string { return fmt.Sprint(hxMod(y-1984, 19)+1, hxMod(y-1984, 57)+1) })
		on("deltas", func(s *SuriyaYear) string { return fmt.Sprint(s.DeltaAdhikamasa(), s.DeltaAdhikavara()) },
			func() string {
				a, b := 1, -1
				for !hxAM(y - a) {
					a++
				}
				for i := 13; i >= 1; i-- {
					if hxAV(y - i) {
						b = i
					}
				}
				return fmt.Sprint(a, b)
			})
		on("Asalha Puja", func(s *SuriyaYear) string { return s.AsalhaPuja().String() }, func() string {
			n := 236
			if hxAM(y) {
				n = 266
			} else if hxAV(y) {
				n = 237
			}
			return kat().AddDate(0, 0, n).String()
		})
		on("text", func(s *SuriyaYear) string { return s.String() }, func() string { return strconv.Itoa(y) })
		qs = append(qs, q{fmt.Sprintf("previous Kattika of %d", y), func() string {
			r := CalculatePreviousKattika(y).String()
			if w := kat().String(); r != w {
				h.fail("the date by the rules, under the present settings", w, r)
			}
			return r
		}})
		qs = append(qs, q{fmt.Sprintf("CalculatePreviousKattika(%d)", y), func() string { return CalculatePreviousKattika(y).String() }})
		d := 1 + h.rng.Intn(400)
		qs = append(qs, q{fmt.Sprintf("SuriyaDay.Init(%d, %d)", y, d), func() string {
			s := h.dirtyDay()
			d0 := s.Date
			s.Init(y, d)
			if !s.Date.Equal(d0) {
				h.fail("Date untouched", d0, s.Date)
			}
			s.Date = time.Time{}
			return fmt.Sprintf("%+v", s)
		}})
	}
	for _, y := range []int{1993, 1994, 1995, 1997, 1998, 2000, 2001, 2002, 2012, 2015, 2016, 700, 1500, 2500} {
		yearQ(y)
	}
	for _, y := range h.hinted(660, 20000) {
		yearQ(y)
	}
	for i := 0; i < 12; i++ {
		yearQ(660 + h.rng.Intn(2400))
	}
	for i := 0; i < 30; i++ {
		n := h.rng.Intn(2000000)
		qs = append(qs, q{fmt.Sprintf("HorakhunToDate(%d)", n), func() string { return HorakhunToDate(int64(n)).String() }})
		d := (h.rng.Float64()*2 - 1) * 800
		qs = append(qs, q{fmt.Sprintf("angle helpers of %v", d), func() string {
			x, y, z := DegreeToRal(d)
			return fmt.Sprint(x, y, z, DegreeToRalString(d), NormalizeDegree(d), RalToDegree(x, y, z))
		}})
	}
	for _, n := range []string{"null", "magasira", "asalha", "2nd asalha", "kattika", "hemanta", "gimhana", "vassana", "mahanikaya", "dhammayut", "myanmar", "draft", "confirmed", "nonsense", ""} {
		n := n
		qs = append(qs, q{fmt.Sprintf("codes of %q", n), func() string {
			return fmt.Sprint(MonthToInt(n), SeasonToInt(n), CalendarToInt(n), StatusToInt(n), SeasonName(len(n)%6))
		}})
	}
	answers := map[string]string{}
	UseExceptions, AdhikavaraExceptions = false, maps[0]
	for i := 0; i < h.n(30000); i++ {
		if h.rng.Intn(40) == 0 {
			UseExceptions = h.rng.Intn(2) == 0
			m := map[int]bool{}
			for k, v := range maps[h.rng.Intn(len(maps))] {
				m[k] = v
			}
			AdhikavaraExceptions = m
		}
		x := qs[h.rng.Intn(len(qs))]
		if h.rng.Intn(3) == 0 {
			x = qs[h.rng.Intn(20)] // some often
		}
		before := settings()
		h.in("%s with settings %s, question %d of a random sequence (seed %d)", x.name, before, i, h.Seed)
		r := x.f()
		if s := settings(); s != before {
			h.fail("the settings are unchanged", before, s)
		}
		k := x.name + " | " + before
		if w, ok := answers[k]; !ok {
			answers[k] = r
		} else if w != r {
			h.fail("the same answer as the first time", w, r)
		}
	}
}

var _ = big.NewInt
