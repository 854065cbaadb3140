// The text of an event.
spec SEASON(n) string = ite(n == 1, "Hemanta", ite(n == 2, "Gimha", ite(n == 3, "Vassāna", "")))
spec MOON(p) string = ite(p == "", "", title(p) + " Moon")
spec TEXT_UposathaMoon(m) string = ite(m.Phase == "", "", title(m.Phase) + " Moon - " + itoa(m.U_Days) + " day " + SEASON(m.LunarSeason) + " " + itoa(m.S_Number) + "/" + itoa(m.S_Total))
spec TEXT_HalfMoon(m) string = MOON(m.Phase)
spec TEXT_AstroMoon(m) string = MOON(m.Phase)
spec TEXT_Event(e) string = e.Summary
spec TEXT_MajorEvent(e) string = e.Summary

func SeasonName(n)
  props C21
  ensures result == SEASON(n)

func (m) UposathaMoon.String()
  props C21
  ensures result == textof(m)

func (m) HalfMoon.String()
  props C21
  ensures result == textof(m)

func (m) AstroMoon.String()
  props C21
  ensures result == textof(m)

func (e) Event.String()
  props C21
  ensures result == textof(e)

func (e) MajorEvent.String()
  props C21
  ensures result == textof(e)

func (m) UposathaMoon.GetDate()
  props C17 C21
  ensures result == m.Date

func (m) HalfMoon.GetDate()
  props C17 C21
  ensures result == m.Date

func (m) AstroMoon.GetDate()
  props C17 C21
  ensures result == m.Date

func (e) Event.GetDate()
  props C17 C21
  ensures result == e.Date

func (e) MajorEvent.GetDate()
  props C17 C21
  ensures result == e.Date

func icalEvent(d)
  props C21
  checkonly
  optional
  like (CalendarEvent) (ical.VEvent)
  ensures result.DTSTART == dateof(d)
  ensures result.DTEND == addns(dateof(d), DAY)
  ensures result.SUMMARY == textof(d)
  ensures result.AllDay

func (m) UposathaMoon.IcalEvent()
  props C21
  ensures result.DTSTART == m.Date
  ensures result.DTEND == addns(m.Date, DAY)
  ensures result.SUMMARY == textof(m)
  ensures result.AllDay

func (m) HalfMoon.IcalEvent()
  props C21
  ensures result.DTSTART == m.Date
  ensures result.DTEND == addns(m.Date, DAY)
  ensures result.SUMMARY == textof(m)
  ensures result.AllDay

func (m) AstroMoon.IcalEvent()
  props C21
  ensures result.DTSTART == m.Date
  ensures result.DTEND == addns(m.Date, DAY)
  ensures result.SUMMARY == textof(m)
  ensures result.AllDay

func (m) Event.IcalEvent()
  props C21
  ensures result.DTSTART == m.Date
  ensures result.DTEND == addns(m.Date, DAY)
  ensures result.SUMMARY == textof(m)
  ensures result.AllDay

func (m) MajorEvent.IcalEvent()
  props C21
  ensures result.DTSTART == m.Date
  ensures result.DTEND == addns(m.Date, DAY)
  ensures result.SUMMARY == textof(m)
  ensures result.AllDay
