#!/usr/bin/env python3
# Edits that keep the behaviour: every property has to verify on them. Each is
# applied to a scratch copy of /repo; run with names to pick some.
import os, re, shutil, subprocess, sys, tempfile
G = os.environ.get("GOCV", "/verif/.bin/gocv")
V = os.environ.get("VERIF", "/verif")
R = []
def r(name, props, *edits): R.append((name, props.split(), edits))

Y='suriya_year.go'; H='helpers.go'; D='suriya_day.go'; U='uposatha_moon.go'; C='cal_day.go'; A='astro_moon.go'; E='calendar_event.go'; DATA='data.go'

r('init-helper', 'C01 C02 C14 C06', (Y, '''	su.Tithi = (b + su.Horakhun) % MonthLength
''', '''	su.Tithi = tithiOf(b, su.Horakhun)
'''), (Y, 'func (su SuriyaYear) Is_Adhikamasa() bool {', '''func tithiOf(b, h int) int {
	return (b + h) % MonthLength
}

func (su SuriyaYear) Is_Adhikamasa() bool {'''))
r('init-intdiv', 'C01 C02', (Y, 'int(math.Floor(float64(a/KammacubalaDaily + 1)))', 'a/KammacubalaDaily + 1'), (Y, 'int(math.Floor(float64(a) / CycleSolar))', 'a / CycleSolar'), (Y, 'int(math.Floor(float64((b + EraMasaken + su.Horakhun) / MonthLength)))', '(b + su.Horakhun) / MonthLength'), (Y, '	"math"\n', ''))
r('init-reorder', 'C01 C14', (Y, '''	a = (su.CS_Year * EraDays) + EraHorakhun
	su.Horakhun''', '''	a = EraHorakhun + EraDays*su.CS_Year
	su.Horakhun'''), (Y, '''	su.BE_Year = su.Year + BEdiff
	su.CS_Year = su.Year - CSdiff
''', '''	su.CS_Year = ce_year - CSdiff
	su.BE_Year = ce_year + BEdiff
'''))
r('init-literal', 'C01 C14 C09', (Y, '''	su.Year = ce_year
	su.BE_Year = su.Year + BEdiff
	su.CS_Year = su.Year - CSdiff
''', '''	*su = SuriyaYear{Year: ce_year, BE_Year: ce_year + BEdiff, CS_Year: ce_year - CSdiff, FirstDay: su.FirstDay}
'''))
r('amasa-demorgan', 'C06 C14', (Y, 'return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()', 'return !(su_next.Would_Be_Adhikamasa() || !su.Would_Be_Adhikamasa())'))
r('amasa-early', 'C06 C08', (Y, '''	var su_next SuriyaYear
	su_next.Init(su.Year + 1)
	return !su_next.Would_Be_Adhikamasa() && su.Would_Be_Adhikamasa()''', '''	if !su.Would_Be_Adhikamasa() {
		return false
	}
	next := new(SuriyaYear)
	next.Init(su.Year + 1)
	if next.Would_Be_Adhikamasa() {
		return false
	}
	return true'''))
r('wba-switch', 'C06', (Y, 'return (t >= 24 && t <= 29) || (t >= 0 && t <= 5)', '''switch {
	case t < 0 || t > 29:
		return false
	case t > 5 && t < 24:
		return false
	}
	return true'''))
r('avara-restructure', 'C07 C08 C09 C14', (Y, '''	if UseExceptions {
		if _, ok := AdhikavaraExceptions[su.Year]; ok {
			return AdhikavaraExceptions[su.Year]
		}
	}

	if su.Is_Adhikamasa() {
		return false
	}
	if su.Has_Carried_Adhikavara() {
		return true
	} else {
		return su.Would_Be_Adhikavara()
	}''', '''	if UseExceptions {
		if v, ok := AdhikavaraExceptions[su.Year]; ok {
			return v
		}
	}
	return !su.Is_Adhikamasa() && (su.Would_Be_Adhikavara() || su.Has_Carried_Adhikavara())'''))
r('newyear-func', 'C06 C07 C09 C10 C14', (Y, 'func (su SuriyaYear) Is_Adhikamasa() bool {\n	// If next year also qualifies for adhikamāsa, then this year isn\'t\n	var su_next SuriyaYear\n	su_next.Init(su.Year + 1)\n', '''func newYear(y int) SuriyaYear {
	var s SuriyaYear
	s.Init(y)
	return s
}

func (su SuriyaYear) Is_Adhikamasa() bool {
	su_next := newYear(su.Year + 1)
'''), (H, '''		var su_year SuriyaYear
		var n int
		if direction == 1 {
			su_year.Init(y + 1)
		} else {
			su_year.Init(y)
		}
''', '''		yy := y
		if direction == 1 {
			yy = y + 1
		}
		su_year := newYear(yy)
		var n int
'''))
r('delta-for-bound', 'C06 C07 C14', (Y, '''	for year := su.Year - 1; true; year-- {
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikamasa() {
			return su.Year - check.Year
		}
		// Avoid looking forever.
		if su.Year-check.Year > 6 {
			break
		}
	}
	return -1''', '''	var check SuriyaYear
	for d := 1; d <= 7; d++ {
		check.Init(su.Year - d)
		if check.Is_Adhikamasa() {
			return d
		}
	}
	return -1'''), (Y, '''	for year := su.Year - 1; true; year-- {
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikavara() {
			return su.Year - check.Year
		}
		// Avoid looking forever.
		if su.Year-check.Year > 12 {
			break
		}
	}
	return -1''', '''	for year := su.Year - 1; year >= su.Year-13; year-- {
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikavara() {
			return su.Year - year
		}
	}
	return -1'''))
r('delta-found-flag', 'C06', (Y, '''	for year := su.Year - 1; true; year-- {
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikamasa() {
			return su.Year - check.Year
		}
		// Avoid looking forever.
		if su.Year-check.Year > 6 {
			break
		}
	}
	return -1''', '''	found := -1
	year := su.Year
	for found < 0 {
		year--
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikamasa() {
			found = su.Year - year
		} else if su.Year-year > 6 {
			break
		}
	}
	return found'''))
r('cyclepos', 'C13', (Y, 'return ((su.Year-1984)%57+57)%57 + 1', '''p := (su.Year - 1984) % 57
	if p < 0 {
		p += 57
	}
	return p + 1'''), (Y, 'return ((su.Year-1984)%19+19)%19 + 1', 'return cyclePos(su.Year, 19)'), (Y, '// Determine the position in the 19 year cycle.', '''func cyclePos(year, n int) int {
	return ((year-1984)%n+n)%n + 1
}
// Determine the position in the 19 year cycle.'''))
r('length-switch', 'C08 C10', (Y, '''	days := 6 * (30 + 29)
	if su.Is_Adhikamasa() {
		// In an adhikamāsa year, there is an extra 30 day month.
		days = days + 30
	} else if su.Is_Adhikavara() {
		// In an adhikavāra year, there is an extra day.
		days = days + 1
	}
	return days''', '''	switch {
	case su.Is_Adhikamasa():
		return 384
	case su.Is_Adhikavara():
		return 355
	}
	return 354'''), (Y, '''	days := 4 * (29 + 30)
	if su.Is_Adhikamasa() {
		// In an adhikamāsa year, the extra month (2nd Asalha) is a 30 day month.
		days = days + 30
	} else if su.Is_Adhikavara() {
		// In an adhikavāra year, the 8th month (Asalha) is 30 days instead of 29 days.
		days = days + 1
	}
''', '''	days := su.YearLength() - 354 + 236
'''))
r('asalha-adddate', 'C10', (Y, 'date := prev_kattika.Add(time.Duration(days) * time.Hour * 24)', 'date := prev_kattika.AddDate(0, 0, days)'))
r('kattika-uselength', 'C09 C10 C11 C14', (H, '''		n = 6*29 + 6*30
		if su_year.Is_Adhikamasa() {
			n += 30
		} else if su_year.Is_Adhikavara() {
			n += 1
		}
		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)''', '''		n = su_year.YearLength() * direction
		kattika_date = kattika_date.Add(time.Duration(n) * 24 * time.Hour)'''))
r('kattika-two-loops', 'C09 C10 C11 C14', (H, '''	// Determine the direction of stepping
	var direction int
	if kattika_date.Year() < solar_year-1 {
		direction = 1
	} else if kattika_date.Year() > solar_year-1 {
		direction = -1
	}

	// Step in direction until the Kattika in the prev. solar year
	for y := kattika_date.Year(); y != solar_year-1; y += direction {
		var su_year SuriyaYear
		var n int
		if direction == 1 {
			su_year.Init(y + 1)
		} else {
			su_year.Init(y)
		}
		n = 6*29 + 6*30
		if su_year.Is_Adhikamasa() {
			n += 30
		} else if su_year.Is_Adhikavara() {
			n += 1
		}
		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)
	}
''', '''	for y := 2016; y < solar_year; y++ {
		var su_year SuriyaYear
		su_year.Init(y)
		kattika_date = kattika_date.Add(time.Duration(su_year.YearLength()) * time.Hour * 24)
	}
	for y := 2015; y >= solar_year; y-- {
		var su_year SuriyaYear
		su_year.Init(y)
		kattika_date = kattika_date.Add(-time.Duration(su_year.YearLength()) * time.Hour * 24)
	}
'''))
r('kattika-while', 'C09 C11', (H, 'for y := kattika_date.Year(); y != solar_year-1; y += direction {', 'y := 2015\n	for y != solar_year-1 {'), (H, '''		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)
''', '''		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)
		y = y + direction
'''))
r('kattika-total-days', 'C09 C11', (H, '		kattika_date = kattika_date.Add(time.Duration(n*direction) * time.Hour * 24)\n', '		total += n * direction\n'), (H, '	// Determine the direction of stepping\n', '	total := 0\n'), (H, '	return kattika_date\n', '	return kattika_date.AddDate(0, 0, total)\n'))
r('kattika-date-ctor', 'C09 C14', (H, '''	kattika_date, _ := time.Parse(dFmt, "2015-11-25")
''', '''	kattika_date := time.Date(2015, time.November, 25, 0, 0, 0, 0, time.UTC)
'''), (H, '	dFmt := "2006-01-02"\n', ''))
r('horakhun-adddate', 'C12', (H, '''	for math.Abs(float64(delta)) > float64(stepDays) {
		date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)
		delta += direction * -1 * stepDays
	}
	// Add any remaining delta.
	date = date.Add(time.Duration(delta) * time.Hour * 24)

	return date''', '''	_, _ = direction, stepDays
	return date.AddDate(0, 0, int(delta))'''), (H, '	stepDays = 290 * 356\n', ''))
r('horakhun-two', 'C12 C14', (H, '''	for math.Abs(float64(delta)) > float64(stepDays) {
		date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)
		delta += direction * -1 * stepDays
	}''', '''	step := time.Duration(stepDays) * 24 * time.Hour
	if direction < 0 {
		for -delta > stepDays {
			date = date.Add(-step)
			delta += stepDays
		}
	} else {
		for delta > stepDays {
			date = date.Add(step)
			delta -= stepDays
		}
	}'''))
r('horakhun-divide', 'C12', (H, '''	for math.Abs(float64(delta)) > float64(stepDays) {
		date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)
		delta += direction * -1 * stepDays
	}''', '''	_ = direction
	for i := delta / stepDays; i != 0; {
		if i > 0 {
			date = date.AddDate(0, 0, int(stepDays))
			i--
		} else {
			date = date.AddDate(0, 0, -int(stepDays))
			i++
		}
	}
	delta = delta % stepDays'''))
r('ral-floor-once', 'C05 C03', (H, '''	// the remainder degrees
	y = int(math.Floor(degree)) - 30*x

	// plus the arcmins
	z = int(math.Floor((degree - math.Floor(degree)) * 60))
''', '''	whole := math.Floor(degree)
	y = int(whole) - x*30
	z = int(math.Floor(60 * (degree - whole)))
'''))
r('normalize-else', 'C05 C04', (H, '''	if deg >= 0 && deg <= 360 {
		return deg
	}
	return deg - math.Floor(deg/360)*360''', '''	if deg < 0 || deg > 360 {
		turns := math.Floor(deg / 360)
		deg = deg - turns*360
	}
	return deg'''))
r('day-helpers', 'C02 C03 C04 C14', (D, '''	ai = (suDay.Horakhun * CycleDaily) + EraAvoman
	suDay.Avoman = ai % CycleSolar
''', '''	ai = dayA(suDay.Horakhun)
	suDay.Avoman = ai % CycleSolar
'''), (D, '// Steps resolved with', '''func dayA(h int) int { return h*CycleDaily + EraAvoman }

// Steps resolved with'''), (D, '''	a = math.Abs(suDay.MeanSun - 80)

	// math.Sin takes radians
	radconv := math.Pi / 180
	b = math.Floor(134 * math.Sin(a*radconv))''', '''	radconv := math.Pi / 180
	b = math.Floor(134 * sinDeg(math.Abs(suDay.MeanSun-80)))'''), (D, 'b = (296 * math.Sin(a*radconv)) / 60', 'b = (296 * sinDeg(a)) / 60\n	_ = radconv'), (D, 'type SuriyaDay struct {', '''func sinDeg(d float64) float64 { return math.Sin(d * (math.Pi / 180)) }

type SuriyaDay struct {'''))
r('day-kammacubala', 'C02 C03', (D, 'suDay.Kammacubala = KammacubalaDaily - (suDay.CS_Year*EraDays+EraHorakhun)%EraYears + elapsedDays*KammacubalaDaily', 'suDay.Kammacubala = suYear.Kammacubala + elapsedDays*KammacubalaDaily'), (D, 'a = float64((elapsedDays * EraYears) + suYear.Kammacubala)', 'a = float64(suDay.Kammacubala)'))
r('next-switch', 'C15 C16', (U, '''		if lu.LunarMonth == 13 {
			nu.LunarMonth = 9 // Savana after 2nd Asalha
		} else if lu.LunarMonth == 8 && is_adhikamasa_year {
			nu.LunarMonth = 13 // 2nd Asalha
		} else if lu.LunarMonth == 12 {
			nu.LunarMonth = 1
		} else {
			nu.LunarMonth = lu.LunarMonth + 1
		}''', '''		switch m := lu.LunarMonth; {
		case m == 13:
			nu.LunarMonth = 9
		case m == 12:
			nu.LunarMonth = 1
		case is_adhikamasa_year && m == 8:
			nu.LunarMonth = 13
		default:
			nu.LunarMonth = m + 1
		}'''), (U, '''		if is_adhikavara_year && nu.LunarMonth == 8 {
			nu.HasAdhikavara = true
			nu.M_Days = 30
		} else {
			if nu.LunarMonth%2 == 1 {
				nu.M_Days = 30
			} else {
				nu.M_Days = 29
			}
		}
''', '''		nu.HasAdhikavara = is_adhikavara_year && nu.LunarMonth == 8
		nu.M_Days = 29 + nu.LunarMonth%2
		if nu.HasAdhikavara {
			nu.M_Days++
		}
'''))
r('next-split', 'C15 C16', (U, '''		// In Adhikamāsa Years the major moons shift with one month
		if is_adhikamasa_year {
			switch nu.LunarMonth {
			case 4:
				nu.Event = "magha"
			case 7:
				nu.Event = "vesakha"
			case 13:
				nu.Event = "asalha"
			case 11:
				nu.Event = "pavarana"
			default:
				nu.Event = ""
			}
		} else {
			// Common Year and Adhikavara Year
			switch nu.LunarMonth {
			case 3:
				nu.Event = "magha"
			case 6:
				nu.Event = "vesakha"
			case 8:
				nu.Event = "asalha"
			case 11:
				nu.Event = "pavarana"
			default:
				nu.Event = ""
			}
		}
''', '''		nu.Event = majorEvent(nu.LunarMonth, is_adhikamasa_year)
'''), (U, 'func (m UposathaMoon) AddToDay', '''var majorMonths = map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
var majorMonthsLeap = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}

func majorEvent(month int, leap bool) string {
	if leap {
		return majorMonthsLeap[month]
	}
	return majorMonths[month]
}

func (m UposathaMoon) AddToDay'''))
r('next-recv-copy', 'C15', (U, '''	nu.Date = lu.Date.Add(time.Duration(nu.U_Days) * time.Hour * 24)
''', '''	nu.Date = lu.Date.AddDate(0, 0, nu.U_Days)
'''), (U, 'is_adhikavara_year := su_year.Is_Adhikavara()', 'is_adhikavara_year := false\n	if su_year.Is_Adhikavara() {\n		is_adhikavara_year = true\n	}'))
r('listing-helper', 'C16', (C, '''			var e MajorEvent

			if uposatha.Event == "magha" {
				e = MajorEvent{
					Date:        uposatha.Date,
					Calendar:    uposatha.Calendar,
					Summary:     "Māgha Pūjā",
					Description: "Māgha Pūjā",
				}
				events = append(events, e)
			}
''', '''			var e MajorEvent

			if uposatha.Event == "magha" {
				events = append(events, major(uposatha, 0, "Māgha Pūjā"))
			}
'''), (C, 'func GenerateSolarYear', '''func major(u UposathaMoon, days int, name string) MajorEvent {
	return MajorEvent{Date: u.Date.AddDate(0, 0, days), Calendar: u.Calendar, Summary: name, Description: name}
}

func GenerateSolarYear'''))
r('listing-loop', 'C16', (C, '''	for last_uposatha.Date.Year() <= solar_year {
		var uposatha UposathaMoon
		uposatha = last_uposatha.NextUposatha()
		last_uposatha = uposatha
''', '''	for {
		if last_uposatha.Date.Year() > solar_year {
			break
		}
		last_uposatha = last_uposatha.NextUposatha()
		uposatha := last_uposatha
'''), (C, '''		var phase string
		switch uposatha.Phase {
		case "new":
			phase = "waxing"
		case "full":
			phase = "waning"
		}

		halfmoon''', '''		phase := "waning"
		if uposatha.Phase == "new" {
			phase = "waxing"
		}

		halfmoon'''))
r('listing-closure', 'C16', (C, '''	for last_uposatha.Date.Year() <= solar_year {
		var uposatha''', '''	add := func(e CalendarEvent) {
		if e.GetDate().Year() == solar_year {
			events = append(events, e)
		}
	}
	for last_uposatha.Date.Year() <= solar_year {
		var uposatha'''), (C, '''		if uposatha.Date.Year() == solar_year {
			events = append(events, uposatha)
		}
''', '''		add(uposatha)
'''), (C, '''		if halfmoon.GetDate().Year() == solar_year {
			events = append(events, halfmoon)
		}
''', '''		add(halfmoon)
'''))
r('find-index', 'C17', (C, '''	for idx, _ := range cal_days {''', '''	for idx := range cal_days {''')) if False else None
r('merge-invert', 'C17', (C, '''	if err != nil {
		// no such day in the slice, so add a new one
		event.AddToDay(day_p)
		cal_days = append(cal_days, *day_p)
	} else {
		event.AddToDay(day_p)
	}
	return cal_days''', '''	event.AddToDay(day_p)
	if err == nil {
		return cal_days
	}
	return append(cal_days, *day_p)'''))
r('getters', 'C17 C21', (C, '''	var m UposathaMoon
	if len(c.UposathaMoon) != 0 {
		m = c.UposathaMoon[0]
	} else {
		m = UposathaMoon{}
	}
	return m''', '''	if len(c.UposathaMoon) == 0 {
		return UposathaMoon{}
	}
	return c.UposathaMoon[0]'''), (C, '''	if len(c.HalfMoon) != 0 {
		c.HalfMoon[0] = m
	} else {
		c.HalfMoon = append(c.HalfMoon, m)
	}''', '''	if len(c.HalfMoon) == 0 {
		c.HalfMoon = HalfMoonSliceSingle{m}
		return
	}
	c.HalfMoon[0] = m'''))
r('halfmoon-index', 'C18', (C, '	for _, day := range cal_days {\n		// If there', '	for i := 0; i < len(cal_days); i++ {\n		day := cal_days[i]\n		// If there'), (C, '''		if len(day.UposathaMoon) != 0 {
			// Eight''', '''		if len(day.UposathaMoon) > 0 {
			// Eight'''))
r('halfmoon-map', 'C18', (C, '''			var phase string
			switch day.GetUposathaMoon().Phase {
			case "new":
				phase = "waxing"
			case "full":
				phase = "waning"
			default:
				// just skip in case of an invalid phase
				continue
			}
''', '''			phase, ok := halfPhases[day.GetUposathaMoon().Phase]
			if !ok {
				continue
			}
'''), (C, 'func AddHalfMoonDays', 'var halfPhases = map[string]string{"new": "waxing", "full": "waning"}\n\nfunc AddHalfMoonDays'))
r('halfmoon-helper', 'C18', (C, '''			// add a new half-moon
			moon := HalfMoon{
				Date:  eighth_day.Date,
				Phase: phase,
			}
			moon.AddToDay(&eighth_day)

			half_moon_days''', '''			eighth_day.HalfMoon = []HalfMoon{{Date: eighth_day.Date, Phase: phase}}

			half_moon_days'''))
r('halfmoon-prealloc', 'C18', (C, '''	var half_moon_days []CalDay

	for _, day''', '''	half_moon_days := make([]CalDay, 0, len(cal_days))

	for _, day'''))
r('astro-invert', 'C19', (A, '''			if m.Date.Before(fromDate) || m.Date.After(toDate) {
				continue
			}
			m.Phase = phaseCodes[aemoon.Code]
''', '''			in := !m.Date.Before(fromDate) && !m.Date.After(toDate)
			if !in {
				continue
			}
			m.Phase = phaseCodes[aemoon.Code]
'''))
r('astro-helper', 'C19', (A, '''		var data []byte

		if data, err = FSByte(useLocal, filepath); err != nil {
			if verbose {
				log.Printf("%v, %s\\n", err, filepath)
			}
			continue
		}
''', '''		data, err := FSByte(useLocal, filepath)
		if err != nil {
			if verbose {
				log.Printf("%v, %s\\n", err, filepath)
			}
			continue
		}
'''), (A, '	var err error\n\n	for year', '	for year'), (A, '''		if resp.Success != true {
			if verbose {
				log.Printf("%s was not successful", filepath)
			}
			continue
		}

		if len(resp.Error.Code) != 0 {''', '''		if !resp.Success {
			continue
		}

		if resp.Error.Code != "" {'''))
r('astro-inrange', 'C19', (A, '''		for _, aemoon := range resp.Response {
			var m AstroMoon
			m.Date = aemoon.DateTimeISO.UTC()
			if m.Date.Before(fromDate) || m.Date.After(toDate) {
				continue
			}
			m.Phase = phaseCodes[aemoon.Code]
''', '''		for i := range resp.Response {
			aemoon := &resp.Response[i]
			m := AstroMoon{Phase: phaseCodes[aemoon.Code], Date: aemoon.DateTimeISO.UTC()}
			if inRange(m.Date, fromDate, toDate) == false {
				continue
			}
'''), (A, 'func GetAstroMoons', '''func inRange(t, a, b time.Time) bool {
	return !t.Before(a) && !t.After(b)
}

func GetAstroMoons'''))
r('ical-fields', 'C21', (E, '''	e := ical.VEvent{
		UID:     uuid.NewV4().String(),
		DTSTAMP: time.Now(),
		DTSTART: d.GetDate(),
		DTEND:   d.GetDate().Add(24 * time.Hour),
		SUMMARY: d.String(),
		AllDay:  true,
		TZID:    d.GetDate().Location().String(), // TODO: is the timezone going to mess up the dates?
	}
	return e''', '''	var e ical.VEvent
	start := d.GetDate()
	e.UID = uuid.NewV4().String()
	e.DTSTAMP = time.Now()
	e.DTSTART = start
	e.DTEND = start.Add(time.Hour * 24)
	e.SUMMARY = d.String()
	e.AllDay = true
	e.TZID = start.Location().String()
	return e'''))
r('ical-rename', 'C21', *[(f, 'icalEvent(', 'toIcal(') for f in (E, U, 'half_moon.go', A, 'event.go', 'major_event.go')])
r('string-concat', 'C21', ('half_moon.go', 'return fmt.Sprintf("%s Moon", s.Title(m.Phase))', 'return s.Title(m.Phase) + " Moon"'), ('half_moon.go', '	"fmt"\n', ''), (U, '''	if len(m.Phase) != 0 {
		return fmt''', '''	if m.Phase == "" {
		return ""
	} else {
		return fmt'''))
r('season-switch', 'C21', (H, 'return seasonName[number]', '''switch number {
	case 1:
		return "Hemanta"
	case 2:
		return "Gimha"
	case 3:
		return "Vassāna"
	}
	return ""'''))
r('data-prepare', 'C20 C19', (DATA, '''		var gr *gzip.Reader
		b64 := base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(f.compressed))
		gr, err = gzip.NewReader(b64)
		if err != nil {
			return
		}
		f.data, err = ioutil.ReadAll(gr)''', '''		b64 := base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(f.compressed))
		gr, e := gzip.NewReader(b64)
		if e != nil {
			err = e
			return
		}
		f.data, err = ioutil.ReadAll(gr)'''))
r('data-helper', 'C20 C19', (DATA, '''		var gr *gzip.Reader
		b64 := base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(f.compressed))
		gr, err = gzip.NewReader(b64)
		if err != nil {
			return
		}
		f.data, err = ioutil.ReadAll(gr)''', '''		f.data, err = unpack(f.compressed)'''), (DATA, 'func (fs _escStaticFS) Open(', '''func unpack(text string) ([]byte, error) {
	gr, err := gzip.NewReader(base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(text)))
	if err != nil {
		return nil, err
	}
	return ioutil.ReadAll(gr)
}

func (fs _escStaticFS) Open('''))
r('data-fsbyte', 'C20', (DATA, '''	f, err := _escStatic.prepare(name)
	if err != nil {
		return nil, err
	}
	return f.data, nil''', '''	if f, err := _escStatic.prepare(name); err == nil {
		return f.data, nil
	} else {
		return nil, err
	}'''), (DATA, '''	b, err := FSByte(useLocal, name)
	return string(b), err''', '''	b, err := FSByte(useLocal, name)
	if err != nil {
		return "", err
	}
	return string(b), nil'''))

LOOPG = '''			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
				continue
			} else {
				cal_days = mergeIntoCalDays(cal_days, d)
			}
'''
r('cal-inrange', 'C22', (C, LOOPG, '''			if withinRange(d.GetDate(), fromDate, toDate) {
				cal_days = mergeIntoCalDays(cal_days, d)
			}
'''), (C, 'func GetCalDays(', '''func withinRange(t, from, to time.Time) bool {
	return !t.Before(from) && !t.After(to)
}

func GetCalDays('''))
r('cal-sortslice', 'C22', (C, 'sort.Sort(CalDaySlice(cal_days))', '''sort.Slice(cal_days, func(i, j int) bool {
		return cal_days[i].Date.Before(cal_days[j].Date)
	})'''))
r('cal-stable', 'C22', (C, 'sort.Sort(CalDaySlice(cal_days))', 'sort.Stable(CalDaySlice(cal_days))'))
r('cal-mergeall', 'C22', (C, '''	for year := fromDate.Year(); year <= toDate.Year(); year++ {
		for _, d := range GenerateSolarYear(year) {
''' + LOOPG + '''		}
	}
''', '''	lastYear := toDate.Year()
	for year := fromDate.Year(); year <= lastYear; year++ {
		cal_days = mergeYear(cal_days, year, fromDate, toDate)
	}
'''), (C, 'func GetCalDays(', '''func mergeYear(cal_days []CalDay, year int, fromDate, toDate time.Time) []CalDay {
	for _, event := range GenerateSolarYear(year) {
		date := event.GetDate()
		if date.Before(fromDate) || date.After(toDate) {
			continue
		}
		cal_days = mergeIntoCalDays(cal_days, event)
	}
	return cal_days
}

func GetCalDays('''))
r('cal-index', 'C22', (C, '''	for _, d := range GetAstroMoons(fromDate, toDate) {
		cal_days = mergeIntoCalDays(cal_days, d)
	}
''', '''	moons := GetAstroMoons(fromDate, toDate)
	for i := 0; i < len(moons); i++ {
		cal_days = mergeIntoCalDays(cal_days, moons[i])
	}
'''))
r('cal-collect', 'C22', (C, '''	for year := fromDate.Year(); year <= toDate.Year(); year++ {
		for _, d := range GenerateSolarYear(year) {
''' + LOOPG + '''		}
	}
''', '''	var events []CalendarEvent
	for year := fromDate.Year(); year <= toDate.Year(); year++ {
		for _, d := range GenerateSolarYear(year) {
			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
				continue
			}
			events = append(events, d)
		}
	}
	for _, event := range events {
		cal_days = mergeIntoCalDays(cal_days, event)
	}
'''))
r('cal-rename', 'C22 C17', (C, 'mergeIntoCalDays', 'addEventToDays'), (C, 'findCalDay', 'lookupDay'))
r('cal-less', 'C22 C17', (C, 'return s[j].Date.After(s[i].Date)', 'return s[i].Date.Before(s[j].Date)'), (C, 's[i], s[j] = s[j], s[i]', 'tmp := s[i]\n	s[i] = s[j]\n	s[j] = tmp'))
r('cal-named', 'C22', (C, 'func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {\n	var cal_days []CalDay', 'func GetCalDays(fromDate, toDate time.Time) (cal_days []CalDay) {'), (C, '	sort.Sort(CalDaySlice(cal_days))\n	return cal_days\n', '	defer func() {}()\n	sort.Sort(CalDaySlice(cal_days))\n	return\n'))
r('cal-find-helper', 'C17 C22', (C, '''		day_day := time.Date(day.Date.Year(), day.Date.Month(), day.Date.Day(), 0, 0, 0, 0, day.Date.Location())
		if day_day.Equal(date_day) {
''', '''		if midnight(day.Date).Equal(date_day) {
'''), (C, '	date_day := time.Date(date.Year(), date.Month(), date.Day(), 0, 0, 0, 0, date.Location())\n', '	date_day := midnight(date)\n'), (C, 'func findCalDay(', '''func midnight(t time.Time) time.Time {
	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
}

func findCalDay('''))
r('cal-find-index', 'C17 C22', (C, '''	for k, day := range cal_days {
		day_day :=''', '''	for k := range cal_days {
		day := &cal_days[k]
		day_day :='''), (C, 'return &cal_days[k], nil', 'return day, nil'))
r('cal-merge-early', 'C17 C22', (C, '''	if err != nil {
		// no such day in the slice, so add a new one
		event.AddToDay(day_p)
		cal_days = append(cal_days, *day_p)
	} else {
		event.AddToDay(day_p)
	}
	return cal_days''', '''	event.AddToDay(day_p)
	if err == nil {
		return cal_days
	}
	return append(cal_days, *day_p)'''))
r('cal-merge-newday', 'C17 C22', (C, '''		event.AddToDay(day_p)
		cal_days = append(cal_days, *day_p)
''', '''		var fresh CalDay
		event.AddToDay(&fresh)
		cal_days = append(cal_days, fresh)
'''))
r('cal-string', 'C17 C22', (C, '''	a := []string{c.GetUposathaMoon().String(), c.GetAstroMoon().String(), c.GetHalfMoon().String()}
	return s.Join(a, ", ")''', '''	return s.Join([]string{c.GetUposathaMoon().String(), c.GetAstroMoon().String(), c.GetHalfMoon().String()}, ", ")'''))

r('fs-toplevel-file', 'C24 C20', (DATA, '''func (f *_escFile) File() (http.File, error) {
	type httpFile struct {
		*bytes.Reader
		*_escFile
	}
	return &httpFile{
		Reader:   bytes.NewReader(f.data),
		_escFile: f,
	}, nil
}
''', '''type _escOpened struct {
	*bytes.Reader
	*_escFile
}

func (f *_escFile) File() (http.File, error) {
	o := new(_escOpened)
	o.Reader = bytes.NewReader(f.data)
	o._escFile = f
	return o, nil
}
'''))
r('fs-open-direct', 'C24', (DATA, '	return f.File()', '''	return f.open(), nil'''), (DATA, 'func (f *_escFile) File() (http.File, error) {', '''func (f *_escFile) open() http.File {
	h, _ := f.File()
	return h
}

func (f *_escFile) File() (http.File, error) {'''))
r('fs-size', 'C24 C20', (DATA, '	return f.size\n', '	return int64(len(f.data))\n'))
r('fs-dir-var', 'C24', (DATA, '''	if useLocal {
		return _escDirectory{fs: _escLocal, name: name}
	}
	return _escDirectory{fs: _escStatic, name: name}''', '''	var base http.FileSystem = _escStatic
	if useLocal {
		base = _escLocal
	}
	return _escDirectory{base, name}'''))
r('fs-dir-fs', 'C24', (DATA, '''	if useLocal {
		return _escDirectory{fs: _escLocal, name: name}
	}
	return _escDirectory{fs: _escStatic, name: name}''', '''	return _escDirectory{fs: FS(useLocal), name: name}'''))
r('fs-dir-ptr', 'C24', (DATA, 'func (dir _escDirectory) Open', 'func (dir *_escDirectory) Open'), (DATA, 'return _escDirectory{fs: _escLocal', 'return &_escDirectory{fs: _escLocal'), (DATA, 'return _escDirectory{fs: _escStatic', 'return &_escDirectory{fs: _escStatic'))
r('fs-switch', 'C24', (DATA, '''	if useLocal {
		return _escLocal
	}
	return _escStatic''', '''	switch {
	case useLocal:
		return _escLocal
	default:
		return _escStatic
	}'''))
r('fs-zero-size', 'C24 C20', (DATA, '		if f.size == 0 {\n			return\n		}\n', '		if f.size <= 0 || f.isDir {\n			return\n		}\n'))
r('fs-modtime', 'C24', (DATA, '	return time.Unix(f.modtime, 0)', '	secs := f.modtime\n	t := time.Unix(secs, 0)\n	return t'))
r('fs-named', 'C24', (DATA, 'func (fs _escStaticFS) Open(name string) (http.File, error) {\n	f, err := fs.prepare(name)\n	if err != nil {\n		return nil, err\n	}\n	return f.File()', 'func (fs _escStaticFS) Open(name string) (file http.File, err error) {\n	var f *_escFile\n	if f, err = fs.prepare(name); err == nil {\n		file, err = f.File()\n	}\n	return'))
r('fs-seek', 'C24', (DATA, 'Reader:   bytes.NewReader(f.data),', 'Reader:   f.reader(),'), (DATA, 'func (f *_escFile) Close() error {', 'func (f *_escFile) reader() *bytes.Reader {\n	return bytes.NewReader(f.data)\n}\n\nfunc (f *_escFile) Close() error {'))
LOC = '''		f, err := _escLocal.Open(name)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		return ioutil.ReadAll(f)
'''
r('local-close', 'C20 C24 C19', (DATA, LOC, '''		f, err := _escLocal.Open(name)
		if err != nil {
			return nil, err
		}
		b, err := ioutil.ReadAll(f)
		f.Close()
		return b, err
'''))
r('local-close-err', 'C20', (DATA, LOC, '''		f, err := _escLocal.Open(name)
		if err != nil {
			return nil, err
		}
		b, err := ioutil.ReadAll(f)
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		if err != nil {
			return nil, err
		}
		return b, nil
'''))
r('local-helper', 'C20 C24', (DATA, LOC, '''		return readLocal(name)
'''), (DATA, 'func FSMustByte(', '''func readLocal(name string) (b []byte, err error) {
	f, err := FS(true).Open(name)
	if err == nil {
		defer func() { f.Close() }()
		b, err = ioutil.ReadAll(f)
	}
	return
}

func FSMustByte('''))
r('local-readfile', 'C20', (DATA, LOC, '''		e, ok := _escData[path.Clean(name)]
		if !ok {
			return nil, os.ErrNotExist
		}
		return ioutil.ReadFile(e.local)
'''))
r('local-lookup', 'C20 C24 C19', (DATA, '''	f, present := _escData[path.Clean(name)]
	if !present {
		return nil, os.ErrNotExist
	}
	return os.Open(f.local)
''', '''	f, err := lookup(name)
	if err != nil {
		return nil, err
	}
	return os.Open(f.local)
'''), (DATA, '''	f, present := _escData[path.Clean(name)]
	if !present {
		return nil, os.ErrNotExist
	}
	var err error
''', '''	f, err := lookup(name)
	if err != nil {
		return nil, err
	}
'''), (DATA, 'func (fs _escStaticFS) Open(', '''func lookup(name string) (*_escFile, error) {
	if f, ok := _escData[path.Clean(name)]; ok {
		return f, nil
	}
	return nil, os.ErrNotExist
}

func (fs _escStaticFS) Open('''))
r('data-name-first', 'C20 C24', (DATA, '''	f, present := _escData[path.Clean(name)]
	if !present {
		return nil, os.ErrNotExist
	}
	var err error
''', '''	name = path.Clean(name)
	f, present := _escData[name]
	if !present {
		return nil, os.ErrNotExist
	}
	var err error
'''), (DATA, 'path.Base(path.Clean(name))', 'path.Base(name)'))
r('data-must-defer', 'C20', (DATA, '''	b, err := FSByte(useLocal, name)
	if err != nil {
		panic(err)
	}
	return b
''', '''	b, err := FSByte(useLocal, name)
	if err == nil {
		return b
	}
	panic(err)
'''))
r('names-switch', 'C23', (H, '	return seasonToInt[season]', '''	switch season {
	case "hemanta":
		return 1
	case "gimhana":
		return 2
	case "vassana":
		return 3
	}
	return 0'''))
r('names-ok', 'C23', (H, '	return monthToInt[month]', '''	if n, ok := monthToInt[month]; ok {
		return n
	}
	return 0'''))
r('names-helper', 'C23', (H, '	return monthToInt[month]', '	return lookupName(monthToInt, month)'), (H, '	return statusToInt[status]', '	return lookupName(statusToInt, status)'), (H, 'func StatusToInt', '''func lookupName(table map[string]int, name string) int {
	return table[name]
}

func StatusToInt'''))
r('names-slice', 'C23', (H, '	return seasonToInt[season]', '''	for i, n := range []string{"null", "hemanta", "gimhana", "vassana"} {
		if n == season {
			return i
		}
	}
	return 0'''))
r('names-sprintf', 'C23', (Y, '	n := strconv.Itoa(su.Year)\n	return n', '	return fmt.Sprintf("%d", su.Year)'), (Y, '	"strconv"\n', ''))
r('names-format', 'C23', (Y, 'strconv.Itoa(su.Year)', 'strconv.FormatInt(int64(su.Year), 10)'))
r('names-concat', 'C23', (C, '''	a := []string{c.GetUposathaMoon().String(), c.GetAstroMoon().String(), c.GetHalfMoon().String()}
	return s.Join(a, ", ")''', '''	text := c.GetUposathaMoon().String()
	text += ", " + c.GetAstroMoon().String()
	return text + ", " + c.GetHalfMoon().String()'''), (C, '	s "strings"\n', ''))
r('names-fmt', 'C23', (C, '''	a := []string{c.GetUposathaMoon().String(), c.GetAstroMoon().String(), c.GetHalfMoon().String()}
	return s.Join(a, ", ")''', '''	return fmt.Sprintf("%s, %s, %v", c.GetUposathaMoon(), c.GetAstroMoon(), c.GetHalfMoon())'''), (C, '	s "strings"\n', '	"fmt"\n'))
r('names-append', 'C23', (C, '''	a := []string{c.GetUposathaMoon().String(), c.GetAstroMoon().String(), c.GetHalfMoon().String()}
''', '''	var a []string
	a = append(a, c.GetUposathaMoon().String())
	a = append(a, c.GetAstroMoon().String())
	a = append(a, c.GetHalfMoon().String())
'''))
r('names-builder', 'C23', (C, '''	a := []string{c.GetUposathaMoon().String(), c.GetAstroMoon().String(), c.GetHalfMoon().String()}
	return s.Join(a, ", ")''', '''	var b s.Builder
	b.WriteString(c.GetUposathaMoon().String())
	b.WriteString(", ")
	b.WriteString(c.GetAstroMoon().String())
	b.WriteString(", ")
	b.WriteString(c.GetHalfMoon().String())
	return b.String()'''))
r('names-getters', 'C23 C17', (C, '''	var m HalfMoon
	if len(c.HalfMoon) != 0 {
		m = c.HalfMoon[0]
	} else {
		m = HalfMoon{}
	}
	return m''', '''	for _, m := range c.HalfMoon {
		return m
	}
	return HalfMoon{}'''))

VS = '''	fmtStr := `CE: %d
BE: %d
CS: %d
Horakhun: %d
Kammacubala: %d
Uccabala: %d
Avoman: %d
Masaken: %d
Tithi: %d
`

	return fmt.Sprintf(fmtStr, su.Year, su.BE_Year, su.CS_Year, su.Horakhun, su.Kammacubala, su.Uccabala, su.Avoman, su.Masaken, su.Tithi)
'''
VF = [('CE', 'Year'), ('BE', 'BE_Year'), ('CS', 'CS_Year')] + [(x, x) for x in 'Horakhun Kammacubala Uccabala Avoman Masaken Tithi'.split()]
VT = '{\n' + ''.join('		{"%s", su.%s},\n' % x for x in VF) + '	}'
r('values-builder', 'C01 C14', (Y, VS, '	var b bytes.Buffer\n' + ''.join('	fmt.Fprintf(&b, "%s: %%d\\n", su.%s)\n' % x for x in VF) + '	return b.String()\n'), (Y, 'import (\n', 'import (\n	"bytes"\n'))
r('values-table', 'C01 C14', (Y, VS, '	rows := []struct {\n		name  string\n		value int\n	}' + VT + '\n	text := ""\n	for _, r := range rows {\n		text += fmt.Sprintf("%s: %d\\n", r.name, r.value)\n	}\n	return text\n'))
r('values-table-b', 'C01 C14', (Y, VS, '	var b strings.Builder\n	for _, r := range []struct {\n		name  string\n		value int\n	}' + VT + ' {\n		b.WriteString(r.name)\n		b.WriteString(": ")\n		b.WriteString(strconv.Itoa(r.value))\n		b.WriteByte(\'\\n\')\n	}\n	return b.String()\n'), (Y, 'import (\n', 'import (\n	"strings"\n'), (Y, '	"fmt"\n', ''))
r('values-join', 'C01 C14', (Y, VS, '	lines := []string{\n' + ''.join('		"%s: " + strconv.Itoa(su.%s),\n' % x for x in VF) + '	}\n	return strings.Join(lines, "\\n") + "\\n"\n'), (Y, 'import (\n', 'import (\n	"strings"\n'), (Y, '	"fmt"\n', ''))
r('values-sprint', 'C01', (Y, VS, '	text := ""\n' + ''.join('	text += fmt.Sprintln("%s:", su.%s)\n' % x for x in VF) + '	return text\n'))
r('values-lines', 'C01 C14', (Y, VS, '	line := func(name string, n int) string { return fmt.Sprintf("%s: %v\\n", name, n) }\n	return ' + ' +\n		'.join('line("%s", su.%s)' % x for x in VF) + '\n'))

# whole functions rewritten
def fn(f, head):
    s = open('/repo/'+f).read()
    i = s.index('\nfunc '+head) + 1
    return s[i:s.index('\n}\n', i)+3]
def w(name, props, *edits): r(name, props, *[(f, fn(f, h), new) if h.endswith('(') and not h.startswith('func ') else (f, h, new) for f, h, new in edits])

w('kinds-helpers', 'C06 C07 C08 C09 C10 C14', (Y, '(su SuriyaYear) Has_Carried_Adhikavara(', '''// calcYear gives the values of a year.
func calcYear(ce_year int) *SuriyaYear {
	su := &SuriyaYear{}
	su.Init(ce_year)
	return su
}

func (su SuriyaYear) Has_Carried_Adhikavara() bool {
	last := calcYear(su.Year - 1)
	if !last.Would_Be_Adhikavara() {
		return false
	}
	return last.Is_Adhikamasa()
}
'''), (Y, '(su SuriyaYear) Is_Adhikamasa(', '''func (su SuriyaYear) Is_Adhikamasa() bool {
	return su.Would_Be_Adhikamasa() && !calcYear(su.Year+1).Would_Be_Adhikamasa()
}
'''), (Y, '(su SuriyaYear) Would_Be_Adhikamasa(', '''func (su SuriyaYear) Would_Be_Adhikamasa() bool {
	const first, last = 6, 23
	return !(su.Tithi >= first && su.Tithi <= last) && su.Tithi >= 0 && su.Tithi < MonthLength
}
'''))
w('exceptions-helper', 'C07 C08 C09 C10 C14', (Y, '(su SuriyaYear) Is_Adhikavara(', '''func exceptionFor(year int) (value, found bool) {
	if !UseExceptions {
		return
	}
	value, found = AdhikavaraExceptions[year]
	return
}

func (su SuriyaYear) Is_Adhikavara() bool {
	value, found := exceptionFor(su.Year)
	switch {
	case found:
		return value
	case su.Is_Adhikamasa():
		return false
	}
	return su.Has_Carried_Adhikavara() || su.Would_Be_Adhikavara()
}
'''))
w('limits-const', 'C07 C14', (Y, '(su SuriyaYear) Would_Be_Adhikavara(', '''func (su SuriyaYear) Would_Be_Adhikavara() bool {
	limit := 136
	if su.Is_Suriya_Leap() {
		limit = 126
	}
	return su.Avoman <= limit
}
'''), (Y, '(su SuriyaYear) Is_Suriya_Leap(', '''const leapLimit = 207

func (su SuriyaYear) Is_Suriya_Leap() bool {
	return !(su.Kammacubala > leapLimit)
}
'''))
w('delta-common', 'C06 C07 C14', (Y, '(su SuriyaYear) DeltaAdhikamasa(', '''func yearsSince(year, limit int, has func(SuriyaYear) bool) int {
	for n := 1; n <= limit; n++ {
		var check SuriyaYear
		check.Init(year - n)
		if has(check) {
			return n
		}
	}
	return -1
}

func (su SuriyaYear) DeltaAdhikamasa() int {
	return yearsSince(su.Year, 7, SuriyaYear.Is_Adhikamasa)
}
'''), (Y, '(su SuriyaYear) DeltaAdhikavara(', '''func (su SuriyaYear) DeltaAdhikavara() int {
	return yearsSince(su.Year, 13, func(y SuriyaYear) bool { return y.Is_Adhikavara() })
}
'''))
w('delta-condition', 'C06 C07', (Y, '(su SuriyaYear) DeltaAdhikamasa(', '''func (su SuriyaYear) DeltaAdhikamasa() int {
	check := SuriyaYear{}
	for check.Init(su.Year - 1); !check.Is_Adhikamasa(); check.Init(check.Year - 1) {
		if su.Year-check.Year > 6 {
			return -1
		}
	}
	return su.Year - check.Year
}
'''), (Y, '(su SuriyaYear) DeltaAdhikavara(', '''func (su SuriyaYear) DeltaAdhikavara() int {
	year := su.Year
	for {
		year--
		check := SuriyaYear{}
		check.Init(year)
		if check.Is_Adhikavara() {
			break
		}
		if su.Year-year > 12 {
			return -1
		}
	}
	return su.Year - year
}
'''))
w('cycle-helper', 'C13', (Y, '(su SuriyaYear) AdhikavaraCyclePos(', '''func cyclePos(year, length int) int {
	pos := (year - 1984) % length
	if pos < 0 {
		pos += length
	}
	return pos + 1
}

func (su SuriyaYear) AdhikavaraCyclePos() int { return cyclePos(su.Year, 57) }
'''), (Y, '(su SuriyaYear) AdhikamasaCyclePos(', '''func (su SuriyaYear) AdhikamasaCyclePos() int {
	return cyclePos(su.Year, 19)
}
'''))
w('asalha-months', 'C08 C10 C11 C14 C09', (Y, '(su SuriyaYear) AsalhaPuja(', '''func (su SuriyaYear) AsalhaPuja() time.Time {
	days := 0
	for month := 1; month <= 8; month++ {
		if month%2 == 1 {
			days += 30
		} else {
			days += 29
		}
	}
	switch {
	case su.Is_Adhikamasa():
		days += MonthLength
	case su.Is_Adhikavara():
		days++
	}
	return CalculatePreviousKattika(su.Year).AddDate(0, 0, days)
}
'''), (Y, '(su SuriyaYear) YearLength(', '''func (su SuriyaYear) YearLength() int {
	if su.Is_Adhikamasa() {
		return 384
	}
	if su.Is_Adhikavara() {
		return 355
	}
	return 354
}
'''))
w('init-locals', 'C01 C02 C06 C07 C12 C13', (Y, '(su *SuriyaYear) Init(', '''func (su *SuriyaYear) Init(ce_year int) {
	cs := ce_year - CSdiff
	elapsed := cs*EraDays + EraHorakhun
	horakhun := elapsed/KammacubalaDaily + 1
	apogee := horakhun + EraUccabala
	avoman := CycleDaily*horakhun + EraAvoman
	tithis := avoman/CycleSolar + horakhun

	su.Year, su.BE_Year, su.CS_Year = ce_year, ce_year+BEdiff, cs
	su.Horakhun = horakhun
	su.Kammacubala = KammacubalaDaily - elapsed%KammacubalaDaily
	su.Uccabala = apogee % 3232
	su.Avoman = avoman - avoman/CycleSolar*CycleSolar
	su.Masaken = (tithis + EraMasaken) / MonthLength
	su.Tithi = tithis % MonthLength
}
'''), (Y, '	"math"\n', ''))
w('init-steps', 'C01 C02 C06 C14', (Y, '(su *SuriyaYear) Init(', '''func (su *SuriyaYear) Init(ce_year int) {
	su.setYear(ce_year)
	su.setSun()
	su.setMoon()
}

func (su *SuriyaYear) setYear(y int) {
	su.Year = y
	su.BE_Year = y + BEdiff
	su.CS_Year = y - CSdiff
}

func (su *SuriyaYear) setSun() {
	a := (su.CS_Year * EraDays) + EraHorakhun
	su.Horakhun = int(math.Floor(float64(a/KammacubalaDaily + 1)))
	su.Kammacubala = KammacubalaDaily - a%KammacubalaDaily
	su.Uccabala = (su.Horakhun + EraUccabala) % 3232
}

func (su *SuriyaYear) setMoon() {
	a := (su.Horakhun * CycleDaily) + EraAvoman
	b := int(math.Floor(float64(a) / CycleSolar))
	su.Avoman = a % CycleSolar
	su.Masaken = int(math.Floor(float64((b + EraMasaken + su.Horakhun) / MonthLength)))
	su.Tithi = (b + su.Horakhun) % MonthLength
}
'''))
w('ral-modf', 'C05 C03', (H, 'DegreeToRal(', '''func DegreeToRal(degree float64) (x, y, z int) {
	whole := math.Floor(degree)
	x = int(math.Floor(degree / 30))
	y = int(whole) - x*30
	z = int(math.Floor(60 * (degree - whole)))
	return
}
'''), (H, 'DegreeToRalString(', '''func DegreeToRalString(degree float64) string {
	rasi, angsa, lipda := DegreeToRal(degree)
	return strconv.Itoa(rasi) + ":" + strconv.Itoa(angsa) + "°" + strconv.Itoa(lipda) + "'"
}
'''), (H, '	"fmt"\n	"math"\n', '	"math"\n	"strconv"\n'), (H, 'RalToDegree(', '''func RalToDegree(x, y, z int) float64 {
	const places = 10000
	degrees := float64(30*x + y)
	minutes := float64(z * places)
	return math.Floor(degrees*places+minutes/60) / places
}
'''))
w('normalize-turns', 'C05 C03 C04', (H, 'NormalizeDegree(', '''func NormalizeDegree(deg float64) float64 {
	const full = 360
	if deg < 0 || deg > full {
		turns := math.Floor(deg / full)
		deg -= turns * full
	}
	return deg
}
'''))
w('horakhun-consts', 'C12', (H, 'HorakhunToDate(', '''func HorakhunToDate(horakhun int64) time.Time {
	const step = 290 * 356
	date := time.Date(1963, time.July, 5, 23, 59, 59, 0, time.UTC)
	for left := horakhun - horakhunRef; ; {
		n := left
		if n > step {
			n = step
		} else if n < -step {
			n = -step
		}
		date = date.Add(time.Duration(n) * 24 * time.Hour)
		left -= n
		if left == 0 {
			return date
		}
	}
}
'''))
w('horakhun-recursive', 'C12', (H, 'HorakhunToDate(', '''func HorakhunToDate(horakhun int64) time.Time {
	ref, err := time.Parse("2006 Jan 2", horakhunRefStr)
	if err != nil {
		panic(err)
	}
	ref = ref.Add(24*time.Hour - time.Second)
	return addDays(ref, horakhun-horakhunRef)
}

// addDays adds days in steps a Duration can hold.
func addDays(date time.Time, days int64) time.Time {
	const most int64 = 290 * 356
	for days > most {
		date = date.Add(time.Duration(most) * time.Hour * 24)
		days -= most
	}
	for days < -most {
		date = date.Add(-time.Duration(most) * time.Hour * 24)
		days += most
	}
	return date.Add(time.Duration(days) * time.Hour * 24)
}
'''), (H, '	"math"\n', '	"math"\n'))
w('kattika-branches', 'C09 C10 C14 C16', (H, 'CalculatePreviousKattika(', '''func CalculatePreviousKattika(solar_year int) time.Time {
	const epochYear = 2015
	date := time.Date(epochYear, time.November, 25, 0, 0, 0, 0, time.UTC)
	for y := epochYear; y < solar_year-1; y++ {
		date = date.AddDate(0, 0, lunarDays(y+1))
	}
	for y := epochYear; y >= solar_year; y-- {
		date = date.AddDate(0, 0, -lunarDays(y))
	}
	return date
}

func lunarDays(year int) int {
	var su SuriyaYear
	su.Init(year)
	return su.YearLength()
}
'''))
w('string-switch', 'C23', (H, '	return monthToInt[month]', '	n, ok := monthToInt[month]\n	if !ok {\n		return 0\n	}\n	return n'), (H, 'SeasonName(', '''func SeasonName(number int) string {
	switch number {
	case 1:
		return "Hemanta"
	case 2:
		return "Gimha"
	case 3:
		return "Vassāna"
	default:
		return ""
	}
}
'''), (H, '''var seasonName = map[int]string{
	0: "",
	1: "Hemanta",
	2: "Gimha",
	3: "Vassāna",
}

''', ''))
w('day-methods', 'C02 C03 C04', (D, '(suDay *SuriyaDay) Init(', '''func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
	var suYear SuriyaYear
	suYear.Init(ce_year)
	elapsed := lunar_year_day - suYear.Tithi

	suDay.Year, suDay.BE_Year, suDay.CS_Year = suYear.Year, suYear.BE_Year, suYear.CS_Year
	suDay.Day = lunar_year_day
	suDay.Horakhun = suYear.Horakhun + elapsed
	suDay.Kammacubala = suYear.Kammacubala + elapsed*KammacubalaDaily
	suDay.Uccabala = (suDay.Horakhun + EraUccabala) % 3232

	ai := suDay.Horakhun*CycleDaily + EraAvoman
	bi := ai/CycleSolar + suDay.Horakhun
	suDay.Avoman, suDay.Masaken, suDay.Tithi = ai%CycleSolar, bi/MonthLength, bi%MonthLength

	suDay.setSun(elapsed, suYear.Kammacubala)
	suDay.setMoon(suYear.Uccabala + elapsed)
}

const radconv = math.Pi / 180

func to4(x float64) float64 { return math.Floor(x) / 10000 }

func (d *SuriyaDay) setSun(elapsed, kammacubala int) {
	x, y, z := DegreeToRal(float64(elapsed*EraYears+kammacubala) / EraDays * 360)
	d.MeanSun = RalToDegree(x, y, z-3)
	corr := math.Floor(134 * math.Sin(math.Abs(d.MeanSun-80)*radconv))
	d.TrueSun = to4(d.MeanSun*10000 + (corr*10000)/60)
}

func (d *SuriyaDay) setMoon(u int) {
	avoman := float64(d.Avoman)
	d.MeanMoon = NormalizeDegree(d.TrueSun + (avoman+math.Floor(avoman/25))/60 + 12*float64(d.Tithi) - RalToDegree(0, 0, 40))
	apogee := (float64(u)*3*30/808*60 + 2) / 60
	d.TrueMoon = to4(NormalizeDegree(d.MeanMoon-296*math.Sin((d.MeanMoon-apogee)*radconv)/60) * 10000)
	d.Raek = 1 + d.TrueMoon/RalToDegree(0, 13, 20)
}
'''))
w('getters-early', 'C17 C18 C22 C23', (C, '(c CalDay) GetUposathaMoon(', '''func (c CalDay) GetUposathaMoon() UposathaMoon {
	if len(c.UposathaMoon) == 0 {
		return UposathaMoon{}
	}
	return c.UposathaMoon[0]
}
'''), (C, '(c CalDay) GetHalfMoon(', '''func (c CalDay) GetHalfMoon() (m HalfMoon) {
	if len(c.HalfMoon) > 0 {
		m = c.HalfMoon[0]
	}
	return
}
'''), (C, '(c *CalDay) SetUposathaMoon(', '''func (c *CalDay) SetUposathaMoon(m UposathaMoon) {
	if len(c.UposathaMoon) == 0 {
		c.UposathaMoon = UposathaMoonSliceSingle{m}
		return
	}
	c.UposathaMoon[0] = m
}
'''), (C, '(c *CalDay) SetAstroMoon(', '''func (c *CalDay) SetAstroMoon(m AstroMoon) {
	if c.AstroMoon == nil || len(c.AstroMoon) < 1 {
		c.AstroMoon = append(c.AstroMoon, m)
		return
	}
	first := &c.AstroMoon[0]
	*first = m
}
'''), (C, '(c *CalDay) SetHalfMoon(', '''func (c *CalDay) SetHalfMoon(m HalfMoon) {
	if len(c.HalfMoon) == 0 {
		c.HalfMoon = append(c.HalfMoon, HalfMoon{})
	}
	c.HalfMoon[0] = m
}
'''))
GS = fn(C, 'GenerateSolarYear(')
GM = GS[GS.index('		// Major Events'):GS.index('	return events')]
w('listing-major-func', 'C16 C15', (C, GM, '''		// Major Events

		if uposatha.Date.Year() == solar_year {
			for _, e := range majorEvents(uposatha) {
				events = append(events, e)
			}
		}
	}

'''), (C, 'func GenerateSolarYear(', '''// majorEvents lists the major events of an uposatha.
func majorEvents(u UposathaMoon) (list []MajorEvent) {
	on := func(date time.Time, title string) {
		list = append(list, MajorEvent{Date: date, Calendar: u.Calendar, Summary: title, Description: title})
	}
	switch u.Event {
	case "magha":
		on(u.Date, "Māgha Pūjā")
	case "vesakha":
		on(u.Date, "Vesākha Pūjā")
	case "asalha":
		on(u.Date, "Āsāḷha Pūjā")
		on(u.Date.AddDate(0, 0, 1), "First day of Vassa")
	case "pavarana":
		on(u.Date, "Pavāraṇā Day")
		on(u.Date, "Last day of Vassa")
	}
	return list
}

func GenerateSolarYear('''))
w('listing-titles', 'C16', (C, GM, '''		// Major Events

		if uposatha.Date.Year() == solar_year {
			for i, title := range majorTitles[uposatha.Event] {
				date := uposatha.Date
				if i == 1 && uposatha.Event == "asalha" {
					date = date.AddDate(0, 0, 1)
				}
				events = append(events, MajorEvent{date, uposatha.Calendar, title, title})
			}
		}
	}

'''), (C, 'func GenerateSolarYear(', '''var majorTitles = map[string][]string{
	"magha":    {"Māgha Pūjā"},
	"vesakha":  {"Vesākha Pūjā"},
	"asalha":   {"Āsāḷha Pūjā", "First day of Vassa"},
	"pavarana": {"Pavāraṇā Day", "Last day of Vassa"},
}

func GenerateSolarYear('''))
w('listing-append-func', 'C16', (C, GM, '''		// Major Events

		if uposatha.Date.Year() == solar_year {
			events = appendMajor(events, uposatha)
		}
	}

'''), (C, 'func GenerateSolarYear(', '''func majorEvent(u UposathaMoon, title string) MajorEvent {
	return MajorEvent{Date: u.Date, Calendar: u.Calendar, Summary: title, Description: title}
}

func appendMajor(events []CalendarEvent, u UposathaMoon) []CalendarEvent {
	switch u.Event {
	case "magha":
		return append(events, majorEvent(u, "Māgha Pūjā"))
	case "vesakha":
		return append(events, majorEvent(u, "Vesākha Pūjā"))
	case "asalha":
		first := majorEvent(u, "First day of Vassa")
		first.Date = first.Date.Add(24 * time.Hour)
		return append(events, majorEvent(u, "Āsāḷha Pūjā"), first)
	case "pavarana":
		return append(events, majorEvent(u, "Pavāraṇā Day"), majorEvent(u, "Last day of Vassa"))
	}
	return events
}

func GenerateSolarYear('''))
w('listing-for-clause', 'C16', (C, '''	for last_uposatha.Date.Year() <= solar_year {
		var uposatha UposathaMoon
		uposatha = last_uposatha.NextUposatha()
		last_uposatha = uposatha
''', '''	for done := false; !done; {
		last_uposatha = last_uposatha.NextUposatha()
		uposatha := last_uposatha
		done = uposatha.Date.Year() > solar_year
'''), (C, '''		if halfmoon.GetDate().Year() == solar_year {
			events = append(events, halfmoon)
		}
''', '''		if y := halfmoon.Date.Year(); y == solar_year {
			events = append(events, halfmoon)
		}
'''))
w('listing-continue', 'C16', (C, '''		if uposatha.Date.Year() == solar_year {

			var e MajorEvent
''', '''		if uposatha.Date.Year() != solar_year {
			continue
		}
		{
			var e MajorEvent
'''), (C, '''		var phase string
		switch uposatha.Phase {
		case "new":
			phase = "waxing"
		case "full":
			phase = "waning"
		}
''', '''		phase := "waxing"
		if uposatha.Phase == "full" {
			phase = "waning"
		}
'''))
w('merge-exists', 'C18 C22', (C, 'mergeIntoCalDays(', '''func mergeIntoCalDays(cal_days []CalDay, event CalendarEvent) []CalDay {
	for i := range cal_days {
		if sameDay(cal_days[i].Date, event.GetDate()) {
			event.AddToDay(&cal_days[i])
			return cal_days
		}
	}
	var day CalDay
	event.AddToDay(&day)
	return append(cal_days, day)
}

func dayOf(t time.Time) time.Time {
	y, m, d := t.Date()
	return time.Date(y, m, d, 0, 0, 0, 0, t.Location())
}

func sameDay(a, b time.Time) bool {
	return dayOf(a).Equal(dayOf(b))
}
'''), (C, 'findCalDay(', '''func findCalDay(cal_days []CalDay, date time.Time) (*CalDay, error) {
	for i := range cal_days {
		if sameDay(cal_days[i].Date, date) {
			return &cal_days[i], nil
		}
	}
	return &CalDay{}, errors.New("CalDay not found")
}
'''))
w('cal-two-lists', 'C22', (C, 'GetCalDays(', '''func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
	var events []CalendarEvent
	for _, moon := range GetAstroMoons(fromDate, toDate) {
		events = append(events, moon)
	}
	for year := fromDate.Year(); year <= toDate.Year(); year++ {
		for _, e := range GenerateSolarYear(year) {
			date := e.GetDate()
			if !date.Before(fromDate) && !date.After(toDate) {
				events = append(events, e)
			}
		}
	}
	var days CalDaySlice
	for _, e := range events {
		days = mergeIntoCalDays(days, e)
	}
	sort.Sort(days)
	return days
}
'''))
w('astro-split', 'C19 C22', (A, '''			var m AstroMoon
			m.Date = aemoon.DateTimeISO.UTC()
			if m.Date.Before(fromDate) || m.Date.After(toDate) {
				continue
			}
			m.Phase = phaseCodes[aemoon.Code]
''', '''			date := aemoon.DateTimeISO.UTC()
			if date.Before(fromDate) || toDate.Before(date) {
				continue
			}
			m := aemoon.moon(date)
'''), (A, 'func GetAstroMoons(', '''func (a AerisMoon) moon(date time.Time) AstroMoon {
	return AstroMoon{Phase: phaseCodes[a.Code], Date: date}
}

func GetAstroMoons('''))
w('astro-path', 'C19 C22', (A, '''		filename := fmt.Sprintf("astro-%d.json", year)
		filepath := "/" + filepath.Join(AstroMoonDir, filename)
''', '''		filepath := astroFile(year)
'''), (A, '	"path/filepath"\n', '	"path"\n'), (A, 'func GetAstroMoons(', '''func astroFile(year int) string {
	return path.Join("/", AstroMoonDir, fmt.Sprintf("astro-%d.json", year))
}

func GetAstroMoons('''))
w('astro-load', 'C19', (A, '''		var data []byte

		if data, err = FSByte(useLocal, filepath); err != nil {
			if verbose {
				log.Printf("%v, %s\\n", err, filepath)
			}
			continue
		}

		var resp AerisResp
		if err := json.Unmarshal(data, &resp); err != nil {
			panic(err)
			return moons
		}

		if resp.Success != true {
			if verbose {
				log.Printf("%s was not successful", filepath)
			}
			continue
		}

		if len(resp.Error.Code) != 0 {
			if verbose {
				log.Println("%s has error: %s", filepath, resp.Error.Description)
			}
			continue
		}

		for _, aemoon := range resp.Response {''', '''		resp, err := loadAstro(filepath)
		if err != nil {
			if verbose {
				log.Println(err)
			}
			continue
		}

		for _, aemoon := range resp {'''), (A, '	var err error\n\n', ''), (A, 'func GetAstroMoons(', '''func loadAstro(file string) ([]AerisMoon, error) {
	data, err := FSByte(useLocal, file)
	if err != nil {
		return nil, fmt.Errorf("%v, %s", err, file)
	}
	var resp AerisResp
	if err := json.Unmarshal(data, &resp); err != nil {
		panic(err)
	}
	if !resp.Success {
		return nil, fmt.Errorf("%s was not successful", file)
	}
	if resp.Error.Code != "" {
		return nil, fmt.Errorf("%s has error: %s", file, resp.Error.Description)
	}
	return resp.Response, nil
}

func GetAstroMoons('''))
w('next-helpers', 'C15 C16 C21', (U, '''			if nu.LunarMonth%2 == 1 {
				nu.M_Days = 30
			} else {
				nu.M_Days = 29
			}
''', '''			nu.M_Days = 29 + nu.LunarMonth%2
'''), (U, '''		if nu.M_Days == 29 {
			nu.U_Days = 14
		} else {
			nu.U_Days = 15
		}
''', '''		nu.U_Days = nu.M_Days - 15
'''), (U, '''		if is_adhikamasa_year && ((nu.LunarMonth >= 5 && nu.LunarMonth <= 8) || nu.LunarMonth == 13) {
			nu.S_Total = 10
		} else {
			nu.S_Total = 8
		}
''', '''		nu.S_Total = seasonLength(nu.LunarMonth, is_adhikamasa_year)
'''), (U, 'func (m UposathaMoon) AddToDay(', '''func seasonLength(month int, leap bool) int {
	if !leap {
		return 8
	}
	switch month {
	case 5, 6, 7, 8, 13:
		return 10
	}
	return 8
}

func (m UposathaMoon) AddToDay('''))
w('next-copy-full', 'C15 C16 C23', (U, '''		nu.S_Number = lu.S_Number + 1
		nu.S_Total = lu.S_Total
		nu.U_Days = 15
		nu.M_Days = lu.M_Days
		nu.LunarMonth = lu.LunarMonth
		nu.LunarSeason = lu.LunarSeason
		nu.LunarYear = lu.LunarYear
		nu.HasAdhikavara = false // Adhikavara is only added to New Moons
''', '''		full := lu
		full.Phase = nu.Phase
		full.S_Number++
		full.U_Days = 15
		full.HasAdhikavara = false
		full.Status, full.Calendar = 0, 0
		full.Source, full.Comments = "", ""
		full.Date = nu.Date
		nu = full
'''), (U, '(m UposathaMoon) String(', '''func (m UposathaMoon) String() string {
	if m.Phase == "" {
		return ""
	}
	return s.Title(m.Phase) + fmt.Sprintf(" Moon - %d day ", m.U_Days) + SeasonName(m.LunarSeason) + fmt.Sprintf(" %d/%d", m.S_Number, m.S_Total)
}
'''))
w('ical-split', 'C21', (E, 'icalEvent(', '''func icalEvent(d CalendarEvent) (e ical.VEvent) {
	start := d.GetDate()
	e.UID = uuid.NewV4().String()
	e.DTSTAMP = time.Now()
	e.DTSTART, e.DTEND = start, start.Add(24*time.Hour)
	e.SUMMARY = d.String()
	e.AllDay = true
	e.TZID = start.Location().String()
	return
}
'''))
# ---- newer Go: generics, slices, min and max, range over ints, init()
w('generic-lookup', 'C23 C21', (H, 'MonthToInt(', '''// valueOf is the entry of a table, zero if there is none.
func valueOf[K comparable, V any](table map[K]V, key K) V {
	return table[key]
}

func MonthToInt(month string) int {
	return valueOf(monthToInt, month)
}
'''), (H, 'SeasonName(', '''func SeasonName(number int) string {
	return valueOf[int, string](seasonName, number)
}
'''), (H, 'StatusToInt(', '''func StatusToInt(status string) int {
	if n, ok := statusToInt[status]; ok {
		return n
	}
	return 0
}
'''))
w('generic-last', 'C17 C18 C22', (C, '(c CalDay) GetUposathaMoon(', '''func firstOf[T any](list []T) T {
	if len(list) == 0 {
		var zero T
		return zero
	}
	return list[0]
}

func (c CalDay) GetUposathaMoon() UposathaMoon { return firstOf(c.UposathaMoon) }
'''), (C, '(c CalDay) GetHalfMoon(', '''func (c CalDay) GetHalfMoon() HalfMoon { return firstOf(c.HalfMoon) }
'''), (C, '(c CalDay) GetAstroMoon(', '''func (c CalDay) GetAstroMoon() AstroMoon { return firstOf(c.AstroMoon) }
'''))
w('range-int', 'C06 C07 C14', (Y, '(su SuriyaYear) DeltaAdhikamasa(', '''func (su SuriyaYear) DeltaAdhikamasa() int {
	for i := range 7 {
		var check SuriyaYear
		check.Init(su.Year - 1 - i)
		if check.Is_Adhikamasa() {
			return i + 1
		}
	}
	return -1
}
'''), (Y, '(su SuriyaYear) DeltaAdhikavara(', '''func (su SuriyaYear) DeltaAdhikavara() int {
	var check SuriyaYear
	for range 13 {
		if check.Year == 0 {
			check.Init(su.Year - 1)
		} else {
			check.Init(check.Year - 1)
		}
		if check.Is_Adhikavara() {
			return su.Year - check.Year
		}
	}
	return -1
}
'''))
w('init-tables', 'C23 C21 C07 C14', (H, 'var statusToInt = map[string]int{\n\t"draft":     0,\n\t"predicted": 1,\n\t"confirmed": 2,\n}\n', '''var statusToInt map[string]int

func init() {
	statusToInt = make(map[string]int)
	for n, name := range []string{"draft", "predicted", "confirmed"} {
		statusToInt[name] = n
	}
}
'''), (H, 'var seasonName = map[int]string{\n\t0: "",\n\t1: "Hemanta",\n\t2: "Gimha",\n\t3: "Vassāna",\n}\n', '''var seasonName = make(map[int]string, 4)

func init() {
	seasonName[0] = ""
	seasonName[1] = "Hemanta"
	seasonName[2] = "Gimha"
	seasonName[3] = "Vassāna"
}
'''))
w('ref-vars', 'C12 C09 C11 C14', (H, 'HorakhunToDate(', '''var horakhunRefDate = time.Date(1963, time.July, 5, 23, 59, 59, 0, time.UTC)

func HorakhunToDate(horakhun int64) time.Time {
	const step = 290 * 356
	date := horakhunRefDate
	rest := horakhun - horakhunRef
	for rest > step {
		date = date.Add(step * 24 * time.Hour)
		rest -= step
	}
	for rest < -step {
		date = date.Add(-step * 24 * time.Hour)
		rest += step
	}
	return date.Add(time.Duration(rest) * 24 * time.Hour)
}
'''), (H, '''	dFmt := "2006-01-02"

	// Step from a known Kattika date as epoch date
	kattika_date, _ := time.Parse(dFmt, "2015-11-25")
''', '''	kattika_date := kattikaRef
'''), (H, 'func MonthToInt(', '''// A known Kattika full moon.
var kattikaRef = mustDate("2015-11-25")

func mustDate(s string) time.Time {
	t, err := time.Parse("2006-01-02", s)
	if err != nil {
		panic(err)
	}
	return t
}

func MonthToInt('''))
w('min-max', 'C04 C05 C12', (H, 'NormalizeDegree(', '''func NormalizeDegree(deg float64) float64 {
	if deg == min(max(deg, 0), 360) {
		return deg
	}
	return deg - 360*math.Floor(deg/360)
}
'''))
w('slices-sort', 'C17 C22', (C, '	sort.Sort(CalDaySlice(cal_days))', '	slices.SortFunc(cal_days, func(a, b CalDay) int { return a.Date.Compare(b.Date) })'), (C, '	"sort"\n', '	"slices"\n'))
w('sort-slice', 'C17 C22', (C, '	sort.Sort(CalDaySlice(cal_days))', '	sort.Slice(cal_days, func(i, j int) bool { return cal_days[i].Date.Before(cal_days[j].Date) })'))
w('sort-stable', 'C17 C22', (C, '	sort.Sort(CalDaySlice(cal_days))', '	sort.Stable(CalDaySlice(cal_days))'))
w('slices-index', 'C17 C18 C22', (C, 'findCalDay(', '''func findCalDay(cal_days []CalDay, date time.Time) (*CalDay, error) {
	want := midnight(date)
	k := slices.IndexFunc(cal_days, func(d CalDay) bool { return midnight(d.Date).Equal(want) })
	if k < 0 {
		return &CalDay{}, errors.New("CalDay not found")
	}
	return &cal_days[k], nil
}

func midnight(t time.Time) time.Time {
	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
}
'''), (C, '	"sort"\n', '	"slices"\n	"sort"\n'))
w('contains-days', 'C06 C14', (Y, '(su SuriyaYear) Would_Be_Adhikamasa(', '''func (su SuriyaYear) Would_Be_Adhikamasa() bool {
	for _, t := range [...]int{24, 25, 26, 27, 28, 29, 0, 1, 2, 3, 4, 5} {
		if t == su.Tithi {
			return true
		}
	}
	return false
}
'''))
w('iota-kinds', 'C08 C10 C09 C14', (Y, '(su SuriyaYear) YearLength(', '''type yearKind int

const (
	commonYear yearKind = iota
	extraDay
	extraMonth
)

func (su SuriyaYear) kind() yearKind {
	switch {
	case su.Is_Adhikamasa():
		return extraMonth
	case su.Is_Adhikavara():
		return extraDay
	default:
		return commonYear
	}
}

func (k yearKind) extra() int {
	return [...]int{commonYear: 0, extraDay: 1, extraMonth: 30}[k]
}

func (su SuriyaYear) YearLength() int {
	return 6*(30+29) + su.kind().extra()
}
'''), (Y, '(su SuriyaYear) AsalhaPuja(', '''func (su SuriyaYear) AsalhaPuja() time.Time {
	days := 4*(29+30) + su.kind().extra()
	return CalculatePreviousKattika(su.Year).Add(time.Duration(days) * 24 * time.Hour)
}
'''))
w('embedded-days', 'C09 C11 C14', (H, 'CalculatePreviousKattika(', '''func CalculatePreviousKattika(solar_year int) time.Time {
	kattika_date, _ := time.Parse("2006-01-02", "2015-11-25")
	days := 0
	for y := 2016; y < solar_year; y++ {
		days += lunarYearDays(y)
	}
	for y := 2015; y >= solar_year; y-- {
		days -= lunarYearDays(y)
	}
	return kattika_date.AddDate(0, 0, days)
}

func lunarYearDays(y int) int {
	var su SuriyaYear
	su.Init(y)
	return su.YearLength()
}
'''))
# ---- whole functions again
w('cycle-shift', 'C13', (Y, '(su SuriyaYear) AdhikavaraCyclePos(', '''func (su SuriyaYear) AdhikavaraCyclePos() int {
	pos := (su.Year - 1983) % 57
	if pos <= 0 {
		pos += 57
	}
	return pos
}
'''), (Y, '(su SuriyaYear) AdhikamasaCyclePos(', '''func (su SuriyaYear) AdhikamasaCyclePos() int {
	mod := func(a, n int) int {
		m := a % n
		for m < 0 {
			m += n
		}
		return m
	}
	return 1 + mod(su.Year-1984, 19)
}
'''))
w('ral-steps', 'C05 C03', (H, 'DegreeToRal(', '''func DegreeToRal(degree float64) (rasi, angsa, lipda int) {
	whole := math.Floor(degree)
	rasi = int(math.Floor(degree / 30))
	angsa = int(whole) - rasi*30
	lipda = int(math.Floor(60 * (degree - whole)))
	return
}
'''), (H, 'RalToDegree(', '''func RalToDegree(x, y, z int) float64 {
	const scale = 10000
	degrees := float64(y + 30*x)
	minutes := float64(z*scale) / 60
	return math.Floor(degrees*scale+minutes) / scale
}
'''), (H, 'DegreeToRalString(', '''func DegreeToRalString(degree float64) string {
	rasi, angsa, lipda := DegreeToRal(degree)
	format := "%d:%d°%d'"
	return fmt.Sprintf(format, rasi, angsa, lipda)
}
'''))
DI = fn(D, '(suDay *SuriyaDay) Init(')
w('day-sun-func', 'C02 C03 C04 C14', (D, DI, '''func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
	var su SuriyaYear
	su.Init(ce_year)
	*suDay = SuriyaDay{Year: su.Year, BE_Year: su.BE_Year, CS_Year: su.CS_Year, Day: lunar_year_day, Date: suDay.Date}
	elapsed := lunar_year_day - su.Tithi
	suDay.setCounts(su, elapsed)
	suDay.MeanSun = meanSun(elapsed, su.Kammacubala)
	suDay.TrueSun = trueSun(suDay.MeanSun)
	suDay.setMoon(su, elapsed)
}

const radians = math.Pi / 180

func (d *SuriyaDay) setCounts(su SuriyaYear, elapsed int) {
	d.Horakhun = su.Horakhun + elapsed
	d.Kammacubala = KammacubalaDaily*(1+elapsed) - (su.CS_Year*EraDays+EraHorakhun)%EraYears
	d.Uccabala = (d.Horakhun + EraUccabala) % 3232
	moon := d.Horakhun*CycleDaily + EraAvoman
	d.Avoman = moon % CycleSolar
	days := int(math.Floor(float64(moon)/CycleSolar)) + EraMasaken + d.Horakhun
	d.Masaken, d.Tithi = days/MonthLength, days%MonthLength
}

func meanSun(elapsed, kammacubala int) float64 {
	part := float64(elapsed*EraYears + kammacubala)
	rasi, angsa, lipda := DegreeToRal(part / EraDays * 360)
	return RalToDegree(rasi, angsa, lipda-3)
}

func trueSun(mean float64) float64 {
	correction := math.Floor(134 * math.Sin(math.Abs(mean-80)*radians))
	return math.Floor(mean*10000+correction*10000/60) / 10000
}

func (d *SuriyaDay) setMoon(su SuriyaYear, elapsed int) {
	avoman := float64(d.Avoman)
	a := (avoman + math.Floor(avoman/25)) / 60
	d.MeanMoon = NormalizeDegree(d.TrueSun + a + float64(d.Tithi)*12 - RalToDegree(0, 0, 40))
	ucca := (float64(su.Uccabala+elapsed)*3*30/808*60 + 2) / 60
	b := 296 * math.Sin((d.MeanMoon-ucca)*radians) / 60
	d.TrueMoon = math.Floor(NormalizeDegree(d.MeanMoon-b)*10000) / 10000
	d.Raek = 1 + d.TrueMoon/RalToDegree(0, 13, 20)
}
'''))
NU = fn(U, '(last_uposatha UposathaMoon) NextUposatha(')
w('next-tables', 'C15 C16', (U, NU, '''var eventsOfMonth = map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
var eventsOfLeapMonth = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}

func (lu UposathaMoon) NextUposatha() (nu UposathaMoon) {
	var su_year SuriyaYear
	su_year.Init(lu.Date.Year())
	leap := su_year.Is_Adhikamasa()
	if lu.Phase == "new" {
		nu = lu.nextFull(leap)
	} else {
		nu = lu.nextNew(leap, su_year.Is_Adhikavara())
	}
	nu.Date = lu.Date.Add(time.Duration(nu.U_Days) * 24 * time.Hour)
	return
}

func (lu UposathaMoon) nextFull(leap bool) UposathaMoon {
	events := eventsOfMonth
	if leap {
		events = eventsOfLeapMonth
	}
	return UposathaMoon{
		Phase:       "full",
		Event:       events[lu.LunarMonth],
		S_Number:    lu.S_Number + 1,
		S_Total:     lu.S_Total,
		U_Days:      15,
		M_Days:      lu.M_Days,
		LunarMonth:  lu.LunarMonth,
		LunarSeason: lu.LunarSeason,
		LunarYear:   lu.LunarYear,
	}
}

func (lu UposathaMoon) nextNew(leap, extra bool) (nu UposathaMoon) {
	nu.Phase = "new"
	nu.LunarMonth = monthAfter(lu.LunarMonth, leap)
	nu.HasAdhikavara = extra && nu.LunarMonth == 8
	nu.M_Days, nu.U_Days = 29, 14
	if nu.HasAdhikavara || nu.LunarMonth%2 != 0 {
		nu.M_Days, nu.U_Days = 30, 15
	}
	nu.S_Total = 8
	if leap {
		switch nu.LunarMonth {
		case 5, 6, 7, 8, 13:
			nu.S_Total = 10
		}
	}
	nu.S_Number, nu.LunarSeason, nu.LunarYear = lu.S_Number+1, lu.LunarSeason, lu.LunarYear
	if lu.S_Number >= lu.S_Total {
		nu.S_Number = 1
		nu.LunarSeason++
		if lu.LunarMonth == 12 {
			nu.LunarSeason = 1
			nu.LunarYear++
		}
	}
	return nu
}

func monthAfter(month int, leap bool) int {
	switch {
	case month == 13:
		return 9
	case month == 8 && leap:
		return 13
	case month == 12:
		return 1
	}
	return month + 1
}
'''))
w('halfmoon-result', 'C18 C17', (C, 'AddHalfMoonDays(', '''func AddHalfMoonDays(cal_days []CalDay) []CalDay {
	result := cal_days
	for _, day := range cal_days {
		if half, ok := halfMoonAfter(day); ok {
			result = append(result, half)
		}
	}
	return result
}

func halfMoonAfter(day CalDay) (half CalDay, ok bool) {
	if len(day.UposathaMoon) == 0 {
		return
	}
	var moon HalfMoon
	switch day.UposathaMoon[0].Phase {
	case "new":
		moon.Phase = "waxing"
	case "full":
		moon.Phase = "waning"
	default:
		return
	}
	moon.Date = day.Date.AddDate(0, 0, 8)
	moon.AddToDay(&half)
	return half, true
}
'''))
w('halfmoon-phases', 'C18', (C, 'AddHalfMoonDays(', '''var halfMoonPhase = map[string]string{"new": "waxing", "full": "waning"}

func AddHalfMoonDays(cal_days []CalDay) []CalDay {
	n := len(cal_days)
	for i := 0; i < n; i++ {
		if len(cal_days[i].UposathaMoon) < 1 {
			continue
		}
		phase := halfMoonPhase[cal_days[i].GetUposathaMoon().Phase]
		if phase == "" {
			continue
		}
		date := cal_days[i].Date.AddDate(0, 0, 8)
		cal_days = append(cal_days, CalDay{Date: date, HalfMoon: HalfMoonSliceSingle{{Date: date, Phase: phase}}})
	}
	return cal_days
}
'''))
w('length-init', 'C08 C10 C09', (Y, '(su SuriyaYear) YearLength(', '''func (su SuriyaYear) YearLength() (days int) {
	for month := 1; month <= 12; month++ {
		if month%2 == 1 {
			days += 30
		} else {
			days += 29
		}
	}
	if su.Is_Adhikamasa() {
		return days + 30
	}
	if su.Is_Adhikavara() {
		days++
	}
	return
}
'''), (Y, '(su SuriyaYear) AsalhaPuja(', '''func (su SuriyaYear) AsalhaPuja() time.Time {
	extra := 0
	if extra = su.YearLength() - 354; extra < 0 {
		extra = 0
	}
	return CalculatePreviousKattika(su.Year).AddDate(0, 0, 236+extra)
}
'''))
w('avara-cases', 'C07 C08', (Y, '(su SuriyaYear) Is_Adhikavara(', '''func (su SuriyaYear) Is_Adhikavara() bool {
	decided, known := AdhikavaraExceptions[su.Year]
	switch {
	case known && UseExceptions:
		return decided
	case su.Is_Adhikamasa():
		return false
	default:
		return su.Would_Be_Adhikavara() || su.Has_Carried_Adhikavara()
	}
}
'''), (Y, '(su SuriyaYear) Would_Be_Adhikavara(', '''func (su SuriyaYear) Would_Be_Adhikavara() bool {
	limit := 136
	if su.Is_Suriya_Leap() {
		limit = 126
	}
	return su.Avoman <= limit
}
'''), (Y, '(su SuriyaYear) Is_Suriya_Leap(', '''func (su SuriyaYear) Is_Suriya_Leap() bool { return !(su.Kammacubala > 207) }
'''))
w('set-assign', 'C17 C18 C22', (C, '(c *CalDay) SetUposathaMoon(', '''func (c *CalDay) SetUposathaMoon(m UposathaMoon) {
	c.UposathaMoon = append(c.UposathaMoon[:0], m)
}
''')) if 0 else None
w('set-new', 'C17 C18 C22 C16', (C, '(c *CalDay) SetUposathaMoon(', '''func (c *CalDay) SetUposathaMoon(m UposathaMoon) { c.UposathaMoon = []UposathaMoon{m} }
'''), (C, '(c *CalDay) SetHalfMoon(', '''func (c *CalDay) SetHalfMoon(m HalfMoon) { c.HalfMoon = HalfMoonSliceSingle{m} }
'''), (C, '(c *CalDay) SetAstroMoon(', '''func (c *CalDay) SetAstroMoon(m AstroMoon) {
	moons := make(AstroMoonSliceSingle, 1)
	moons[0] = m
	c.AstroMoon = moons
}
'''))
w('swap-temp', 'C17 C22', (C, '(s CalDaySlice) Swap(', '''func (s CalDaySlice) Swap(i, j int) {
	tmp := s[i]
	s[i] = s[j]
	s[j] = tmp
}
'''), (C, '(s CalDaySlice) Less(', '''func (s CalDaySlice) Less(i, j int) bool {
	a, b := s[i], s[j]
	return a.Date.Before(b.Date)
}
'''))
w('find-parts', 'C17 C22', (C, 'findCalDay(', '''func findCalDay(cal_days []CalDay, date time.Time) (*CalDay, error) {
	var found *CalDay
	for k := range cal_days {
		if beginning(cal_days[k].Date).Equal(beginning(date)) {
			found = &cal_days[k]
			break
		}
	}
	if found == nil {
		return new(CalDay), errNoDay
	}
	return found, nil
}

var errNoDay = errors.New("CalDay not found")

func beginning(t time.Time) time.Time {
	year, month, day := t.Date()
	return time.Date(year, month, day, 0, 0, 0, 0, t.Location())
}
'''))
w('astro-decode', 'C19 C22', (A, 'GetAstroMoons(', '''func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
	for year := fromDate.Year(); year <= toDate.Year(); year++ {
		resp, ok := astroYear(year)
		if !ok {
			continue
		}
		for i := range resp.Response {
			ae := &resp.Response[i]
			date := ae.DateTimeISO.UTC()
			if !date.Before(fromDate) && !date.After(toDate) {
				moons = append(moons, AstroMoon{Phase: phaseCodes[ae.Code], Date: date})
			}
		}
	}
	return
}

// astroYear reads the moons of a year; false if there are none.
func astroYear(year int) (resp AerisResp, ok bool) {
	name := "/" + filepath.Join(AstroMoonDir, "astro-"+strconv.Itoa(year)+".json")
	data, err := FSByte(useLocal, name)
	if err != nil {
		if verbose {
			log.Printf("%v, %s", err, name)
		}
		return resp, false
	}
	if err = json.Unmarshal(data, &resp); err != nil {
		panic(err)
	}
	if !resp.Success || resp.Error.Code != "" {
		if verbose {
			log.Printf("%s: no moons", name)
		}
		return resp, false
	}
	return resp, true
}
'''), (A, '	"path/filepath"\n', '	"path/filepath"\n	"strconv"\n'))
w('horakhun-loop', 'C12 C11 C14', (H, 'HorakhunToDate(', '''func HorakhunToDate(horakhun int64) time.Time {
	date, err := time.Parse("2006 Jan 2", horakhunRefStr)
	if err != nil {
		panic(err)
	}
	date = date.Add(24*time.Hour - time.Second)

	const most = 100000 // days a Duration can hold
	for left := horakhun - horakhunRef; left != 0; {
		step := left
		switch {
		case step > most:
			step = most
		case step < -most:
			step = -most
		}
		date = date.Add(time.Duration(step) * 24 * time.Hour)
		left -= step
	}
	return date
}
'''))
w('kattika-dir', 'C09 C11 C14', (H, 'CalculatePreviousKattika(', '''func CalculatePreviousKattika(solar_year int) time.Time {
	kattika, _ := time.Parse("2006-01-02", "2015-11-25")
	target := solar_year - 1
	y := kattika.Year()
	for y != target {
		var su SuriyaYear
		if y < target {
			y++
			su.Init(y)
			kattika = kattika.AddDate(0, 0, su.YearLength())
		} else {
			su.Init(y)
			kattika = kattika.AddDate(0, 0, -su.YearLength())
			y--
		}
	}
	return kattika
}
'''))
w('fs-lookup', 'C20 C24', (DATA, 'func (_escLocalFS) Open(', '''// entry looks up an asset.
func entry(name string) (*_escFile, error) {
	if f, ok := _escData[path.Clean(name)]; ok {
		return f, nil
	}
	return nil, os.ErrNotExist
}

func (_escLocalFS) Open('''), (DATA, '''	f, present := _escData[path.Clean(name)]
	if !present {
		return nil, os.ErrNotExist
	}
	return os.Open(f.local)''', '''	f, err := entry(name)
	if err != nil {
		return nil, err
	}
	return os.Open(f.local)'''), (DATA, '(_escStaticFS) prepare(', '''func (_escStaticFS) prepare(name string) (*_escFile, error) {
	f, err := entry(name)
	if err != nil {
		return nil, err
	}
	f.once.Do(func() {
		f.name = path.Base(path.Clean(name))
		if f.size != 0 {
			f.data, err = unpack(f.compressed)
		}
	})
	if err != nil {
		return nil, err
	}
	return f, nil
}

func unpack(compressed string) ([]byte, error) {
	b64 := base64.NewDecoder(base64.StdEncoding, bytes.NewBufferString(compressed))
	gr, err := gzip.NewReader(b64)
	if err != nil {
		return nil, err
	}
	return ioutil.ReadAll(gr)
}
'''))

w('next-switch-month', 'C14 C15 C16', (U, '''		if lu.LunarMonth == 13 {
			nu.LunarMonth = 9 // Savana after 2nd Asalha
		} else if lu.LunarMonth == 8 && is_adhikamasa_year {
			nu.LunarMonth = 13 // 2nd Asalha
		} else if lu.LunarMonth == 12 {
			nu.LunarMonth = 1
		} else {
			nu.LunarMonth = lu.LunarMonth + 1
		}
''', '''		nu.LunarMonth = followingMonth(lu.LunarMonth, is_adhikamasa_year)
'''), (U, '''func (m UposathaMoon) AddToDay(''', '''// monthOrder gives the months in which a lunar year runs.
func monthOrder(adhikamasa bool) []int {
	order := []int{1, 2, 3, 4, 5, 6, 7, 8}
	if adhikamasa {
		order = append(order, 13)
	}
	return append(order, 9, 10, 11, 12)
}

func followingMonth(month int, adhikamasa bool) int {
	order := monthOrder(adhikamasa)
	for i, m := range order {
		if m == month {
			return order[(i+1)%len(order)]
		}
	}
	if month == 13 {
		return 9
	}
	return month + 1
}

func (m UposathaMoon) AddToDay('''))
w('next-mdays-func', 'C14 C15 C16', (U, '''		if is_adhikavara_year && nu.LunarMonth == 8 {
			nu.HasAdhikavara = true
			nu.M_Days = 30
		} else {
			if nu.LunarMonth%2 == 1 {
				nu.M_Days = 30
			} else {
				nu.M_Days = 29
			}
		}

		if nu.M_Days == 29 {
			nu.U_Days = 14
		} else {
			nu.U_Days = 15
		}
''', '''		nu.HasAdhikavara = is_adhikavara_year && nu.LunarMonth == 8
		nu.M_Days = 29 + nu.LunarMonth%2
		if nu.HasAdhikavara {
			nu.M_Days = 30
		}
		nu.U_Days = nu.M_Days - 15
'''))
w('next-early-full', 'C14 C15 C16', (U, '''	if lu.Phase == "new" {
		nu.Phase = "full"
	} else {
		nu.Phase = "new"
	}
''', '''	nu.Phase = map[bool]string{true: "full", false: "new"}[lu.Phase == "new"]
'''))
w('next-season-new', 'C14 C15 C16', (U, '''		if lu.S_Number < lu.S_Total {
			nu.S_Number = lu.S_Number + 1
			nu.LunarSeason = lu.LunarSeason
			nu.LunarYear = lu.LunarYear
		} else {

			// Else, it is the first uposatha of the season

			nu.S_Number = 1
			// is it a new lunar year?
			if lu.LunarMonth == 12 {
				nu.LunarSeason = 1
				nu.LunarYear = lu.LunarYear + 1
			} else {
				nu.LunarSeason = lu.LunarSeason + 1
				nu.LunarYear = lu.LunarYear
			}
		}
''', '''		nu.S_Number, nu.LunarSeason, nu.LunarYear = lu.S_Number+1, lu.LunarSeason, lu.LunarYear
		if lu.S_Number >= lu.S_Total {
			nu.S_Number = 1
			switch lu.LunarMonth {
			case 12:
				nu.LunarSeason = 1
				nu.LunarYear++
			default:
				nu.LunarSeason++
			}
		}
'''))
w('listing-iter-type', 'C14 C15 C16', (C, '''	for last_uposatha.Date.Year() <= solar_year {
		var uposatha UposathaMoon
		uposatha = last_uposatha.NextUposatha()
		last_uposatha = uposatha
''', '''	for uposatha := (UposathaMoon{}); last_uposatha.Date.Year() <= solar_year; {
		uposatha = last_uposatha.NextUposatha()
		last_uposatha = uposatha
'''))
w('listing-break', 'C14 C15 C16', (C, '''	for last_uposatha.Date.Year() <= solar_year {
		var uposatha UposathaMoon
		uposatha = last_uposatha.NextUposatha()
		last_uposatha = uposatha
''', '''	for {
		if last_uposatha.Date.Year() > solar_year {
			break
		}
		last_uposatha = last_uposatha.NextUposatha()
		uposatha := last_uposatha
'''))
w('listing-inyear', 'C14 C15 C16', (C, '''		if uposatha.Date.Year() == solar_year {
			events = append(events, uposatha)
		}
''', '''		inYear := uposatha.Date.Year() == solar_year
		if inYear {
			events = append(events, uposatha)
		}
'''), (C, '''		if uposatha.Date.Year() == solar_year {

			var e MajorEvent
''', '''		if inYear {

			var e MajorEvent
'''))
w('listing-phase-map', 'C14 C15 C16 C18', (C, '''		var phase string
		switch uposatha.Phase {
		case "new":
			phase = "waxing"
		case "full":
			phase = "waning"
		}
''', '''		phase := halfMoonPhase[uposatha.Phase]
'''), (C, '''func GenerateSolarYear(''', '''var halfMoonPhase = map[string]string{"new": "waxing", "full": "waning"}

func GenerateSolarYear('''), (C, '''			var phase string
			switch day.GetUposathaMoon().Phase {
			case "new":
				phase = "waxing"
			case "full":
				phase = "waning"
			default:
				// just skip in case of an invalid phase
				continue
			}
''', '''			phase, ok := halfMoonPhase[day.GetUposathaMoon().Phase]
			if !ok {
				continue
			}
'''))
w('listing-major-else', 'C14 C15 C16', (C, '''			if uposatha.Event == "vesakha" {
				e = MajorEvent{''', '''			if "vesakha" == uposatha.Event {
				e = MajorEvent{'''), (C, '''			if uposatha.Event == "magha" {
				e = MajorEvent{''', '''			if isMagha := uposatha.Event == "magha"; isMagha {
				e = MajorEvent{'''))
w('cal-insert-sorted', 'C17 C22', (C, '''	sort.Sort(CalDaySlice(cal_days))
	return cal_days
''', '''	days := CalDaySlice(cal_days)
	sort.Sort(days)
	return days
'''))
w('cal-year-end', 'C17 C22', (C, '''	for year := fromDate.Year(); year <= toDate.Year(); year++ {
		for _, d := range GenerateSolarYear(year) {
			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
				continue
			} else {
				cal_days = mergeIntoCalDays(cal_days, d)
			}
		}
	}
''', '''	first, last := fromDate.Year(), toDate.Year()
	for year := first; year < last+1; year++ {
		events := GenerateSolarYear(year)
		for i := 0; i < len(events); i++ {
			date := events[i].GetDate()
			if !date.Before(fromDate) && !date.After(toDate) {
				cal_days = mergeIntoCalDays(cal_days, events[i])
			}
		}
	}
'''))
w('cal-get-generic', 'C17 C22 C23', (C, fn(C, '(c CalDay) GetAstroMoon('), '''func (c CalDay) GetAstroMoon() (m AstroMoon) {
	for _, m = range c.AstroMoon {
		break
	}
	return
}
'''))
w('cal-merge-err', 'C17 C22', (C, 'mergeIntoCalDays(', '''func mergeIntoCalDays(cal_days []CalDay, event CalendarEvent) []CalDay {
	day, err := findCalDay(cal_days, event.GetDate())
	event.AddToDay(day)
	if err == nil {
		return cal_days
	}
	return append(cal_days, *day)
}
'''))
w('avara-short', 'C08 C09', (Y, '(su SuriyaYear) Is_Adhikavara(', '''func (su SuriyaYear) Is_Adhikavara() bool {
	if UseExceptions {
		if exception, ok := AdhikavaraExceptions[su.Year]; ok {
			return exception
		}
	}
	return !su.Is_Adhikamasa() && (su.Has_Carried_Adhikavara() || su.Would_Be_Adhikavara())
}
'''))
w('leap-limit', 'C08 C09', (Y, '(su SuriyaYear) Would_Be_Adhikavara(', '''func (su SuriyaYear) Would_Be_Adhikavara() bool {
	limit := 136
	if su.Is_Suriya_Leap() {
		limit = 126
	}
	return su.Avoman <= limit
}
'''))
w('delta-range', 'C08 C10', (Y, '(su SuriyaYear) DeltaAdhikamasa(', '''func (su SuriyaYear) DeltaAdhikamasa() int {
	for delta := 1; delta <= 7; delta++ {
		year := newYear(su.Year - delta)
		if year.Is_Adhikamasa() {
			return delta
		}
	}
	return -1
}

func newYear(ce int) (su SuriyaYear) {
	su.Init(ce)
	return su
}
'''), (Y, '(su SuriyaYear) Is_Adhikamasa(', '''func (su SuriyaYear) Is_Adhikamasa() bool {
	// If next year also qualifies for adhikamāsa, then this year isn't
	if !su.Would_Be_Adhikamasa() {
		return false
	}
	return !newYear(su.Year + 1).Would_Be_Adhikamasa()
}
'''))
w('asalha-length', 'C09 C11', (Y, '(su SuriyaYear) AsalhaPuja(', '''func (su SuriyaYear) AsalhaPuja() time.Time {
	// the four months after Asalha are the same in every year
	days := su.YearLength() - 2*(29+30)
	return CalculatePreviousKattika(su.Year).AddDate(0, 0, days)
}
'''))
w('horakhun-for', 'C06 C07', (H, '''	for math.Abs(float64(delta)) > float64(stepDays) {
		date = date.Add(time.Duration(direction*stepDays) * time.Hour * 24)
		delta += direction * -1 * stepDays
	}
''', '''	step := direction * stepDays
	for ; delta > stepDays || delta < -stepDays; delta -= step {
		date = date.Add(time.Duration(step) * 24 * time.Hour)
	}
'''))
w('normalize-mod', 'C05', (H, 'NormalizeDegree(', '''func NormalizeDegree(deg float64) float64 {
	if deg < 0 || deg > 360 {
		turns := math.Floor(deg / 360)
		deg = deg - turns*360
	}
	return deg
}
'''))
w('day-const-arcmin', 'C03 C04', (D, '''	x, y, z := DegreeToRal(b)
	z -= 3
''', '''	const geographical = 3
	x, y, z := DegreeToRal(b)
	z = z - geographical
'''), (D, '''	radconv := math.Pi / 180
''', '''	const radconv = math.Pi / 180
'''))
w('day-receiver', 'C02 C03 C04', (D, '''	suDay.Year = ce_year
	suDay.BE_Year = ce_year + BEdiff
	suDay.CS_Year = ce_year - CSdiff
	suDay.Day = lunar_year_day
''', '''	suDay.setEras(ce_year)
	suDay.Day = lunar_year_day
'''), (D, '''func (suDay *SuriyaDay) Init(''', '''func (d *SuriyaDay) setEras(ce int) {
	d.Year, d.BE_Year, d.CS_Year = ce, ce+BEdiff, ce-CSdiff
}

func (suDay *SuriyaDay) Init('''))
w('astro-code', 'C19', (A, '''			var m AstroMoon
			m.Date = aemoon.DateTimeISO.UTC()
			if m.Date.Before(fromDate) || m.Date.After(toDate) {
				continue
			}
			m.Phase = phaseCodes[aemoon.Code]
''', '''			date := aemoon.DateTimeISO.UTC()
			if date.Before(fromDate) || date.After(toDate) {
				continue
			}
			m := AstroMoon{Phase: phaseCodes[aemoon.Code], Date: date}
'''))
w('ical-vars', 'C21', (E, '''	e := ical.VEvent{
		UID:     uuid.NewV4().String(),
		DTSTAMP: time.Now(),
		DTSTART: d.GetDate(),
		DTEND:   d.GetDate().Add(24 * time.Hour),
''', '''	start := d.GetDate()
	end := start.Add(24 * time.Hour)
	e := ical.VEvent{
		UID:     uuid.NewV4().String(),
		DTSTAMP: time.Now(),
		DTSTART: start,
		DTEND:   end,
'''))
w('season-slice', 'C21 C23', (H, '''var seasonName = map[int]string{
	0: "",
	1: "Hemanta",
	2: "Gimha",
	3: "Vassāna",
}

func SeasonName(number int) string {
	return seasonName[number]
}
''', '''var seasonNames = [...]string{"", "Hemanta", "Gimha", "Vassāna"}

func SeasonName(number int) string {
	if number < 0 || number >= len(seasonNames) {
		return ""
	}
	return seasonNames[number]
}
'''))

def main():
    names = sys.argv[1:]
    bad = 0
    for name, props, edits in [x for x in R if x]:
        if names and name not in names: continue
        d = tempfile.mkdtemp(prefix='refac')
        t = os.path.join(d, 'repo')
        shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        try:
            for f, old, new in edits:
                p = os.path.join(t, f)
                s = open(p).read()
                if old not in s:
                    print(name, 'DOES NOT APPLY', f, repr(old[:60])); break
                open(p, 'w').write(s.replace(old, new, 99 if 'rename' in name else 1))
            for p in props:
                q = subprocess.run([G, '-repo', t, '-verif', V, '-prop', p, '-t', '20'], capture_output=True, text=True)
                lines = [l for l in (q.stdout+q.stderr).split('\n') if re.match(r'(failed|unknown|UNSUPPORTED|MISSING|CYCLE|panic|lemma \S+ +false)', l) or 'CONTRADICTORY' in l]
                if q.returncode != 0: lines.append('exit %d %s %s' % (q.returncode, q.stdout[-300:], q.stderr[-600:]))
                print('%-22s %s %s' % (name, p, 'ok' if not lines else 'ALARM'), flush=True)
                for l in lines[:4]: print('      ', l[:260])
                bad += bool(lines)
        finally:
            shutil.rmtree(d)
    print('alarms:', bad)
main()
