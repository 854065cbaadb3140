// Half-moon days.
func AddHalfMoonDays(days)
  props C18
  ensures result == cat(days, gen(i, len(days), when(len(days[i].UposathaMoon) != 0 && (days[i].UposathaMoon[0].Phase == "full" || days[i].UposathaMoon[0].Phase == "new"), \
    one(CalDay{Date: adddays(days[i].Date, 8), HalfMoon: HalfMoonSliceSingle{HalfMoon{Date: adddays(days[i].Date, 8), Phase: ite(days[i].UposathaMoon[0].Phase == "full", "waning", "waxing")}}}))))

// Calendar days. Adding an event to a day dates the day as the event and puts
// the event there; the day keeps everything else.
spec ADDU(d, m) = CalDay{Date: m.Date, UposathaMoon: one(m), HalfMoon: d.HalfMoon, AstroMoon: d.AstroMoon, MajorEvents: d.MajorEvents, Events: d.Events}
spec ADDH(d, m) = CalDay{Date: m.Date, UposathaMoon: d.UposathaMoon, HalfMoon: one(m), AstroMoon: d.AstroMoon, MajorEvents: d.MajorEvents, Events: d.Events}
spec ADDA(d, m) = CalDay{Date: m.Date, UposathaMoon: d.UposathaMoon, HalfMoon: d.HalfMoon, AstroMoon: one(m), MajorEvents: d.MajorEvents, Events: d.Events}
spec ADDM(d, e) = CalDay{Date: e.Date, UposathaMoon: d.UposathaMoon, HalfMoon: d.HalfMoon, AstroMoon: d.AstroMoon, MajorEvents: cat(d.MajorEvents, one(e)), Events: d.Events}
spec ADDE(d, e) = CalDay{Date: e.Date, UposathaMoon: d.UposathaMoon, HalfMoon: d.HalfMoon, AstroMoon: d.AstroMoon, MajorEvents: d.MajorEvents, Events: cat(d.Events, one(e))}
spec SINGLE(d) bool = len(d.UposathaMoon) <= 1 && len(d.HalfMoon) <= 1 && len(d.AstroMoon) <= 1
spec SAMEDAY(a, b) bool = dayno(a) == dayno(b)

func (m) UposathaMoon.AddToDay(day)
  props C17
  checkonly
  requires SINGLE(day)
  modifies day
  ensures day == ADDU(old(*day), m)

func (m) HalfMoon.AddToDay(day)
  props C17
  checkonly
  requires SINGLE(day)
  modifies day
  ensures day == ADDH(old(*day), m)

func (m) AstroMoon.AddToDay(day)
  props C17
  checkonly
  requires SINGLE(day)
  modifies day
  ensures day == ADDA(old(*day), m)

func (e) MajorEvent.AddToDay(day)
  props C17
  checkonly
  requires SINGLE(day)
  modifies day
  ensures day == ADDM(old(*day), e)

func (e) Event.AddToDay(day)
  props C17
  checkonly
  requires SINGLE(day)
  modifies day
  ensures day == ADDE(old(*day), e)

func (c) CalDay.SetUposathaMoon(m)
  props C17
  checkonly
  requires SINGLE(c)
  modifies c.UposathaMoon
  ensures c.UposathaMoon == one(m)

func (c) CalDay.SetHalfMoon(m)
  props C17
  checkonly
  requires SINGLE(c)
  modifies c.HalfMoon
  ensures c.HalfMoon == one(m)

func (c) CalDay.SetAstroMoon(m)
  props C17
  checkonly
  requires SINGLE(c)
  modifies c.AstroMoon
  ensures c.AstroMoon == one(m)

func (c) CalDay.GetUposathaMoon()
  props C17
  ensures result == ite(len(c.UposathaMoon) == 0, UposathaMoon{}, c.UposathaMoon[0])

func (c) CalDay.GetHalfMoon()
  props C17
  ensures result == ite(len(c.HalfMoon) == 0, HalfMoon{}, c.HalfMoon[0])

func (c) CalDay.GetAstroMoon()
  props C17
  ensures result == ite(len(c.AstroMoon) == 0, AstroMoon{}, c.AstroMoon[0])

func (s) CalDaySlice.Len()
  props C17
  ensures result == len(s)

func (s) CalDaySlice.Less(i, j)
  props C17
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures result == (ns(s[i].Date) < ns(s[j].Date))

func (s) CalDaySlice.Swap(i, j)
  props C17
  checkonly
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies s
  ensures s == gen(k, len(old(s)), one(old(s)[ite(k == i, j, ite(k == j, i, k))]))

func findCalDay(days, date)
  props C17
  checkonly
  optional
  like ([]CalDay, time.Time) (*CalDay, error)
  requires elemutc(days)
  requires utc(date)
  ensures isnil(result1) == exists(k, 0, len(days), SAMEDAY(days[k].Date, date))
  ensures implies(isnil(result1), exists(k, 0, len(days), SAMEDAY(days[k].Date, date) && forall(i, 0, k, !SAMEDAY(days[i].Date, date)) && *result0 == days[k]))

spec ADDED(d, ev) = ite(is(ev, UposathaMoon), ADDU(d, as(ev, UposathaMoon)), ite(is(ev, HalfMoon), ADDH(d, as(ev, HalfMoon)), \
  ite(is(ev, AstroMoon), ADDA(d, as(ev, AstroMoon)), ite(is(ev, MajorEvent), ADDM(d, as(ev, MajorEvent)), ADDE(d, as(ev, Event))))))
spec FIRST(days, j, t) bool = SAMEDAY(days[j].Date, t) && forall(i, 0, j, !SAMEDAY(days[i].Date, t))

// every event of a day is dated on it
spec OWN(d) bool = forall(i, 0, len(d.UposathaMoon), SAMEDAY(d.UposathaMoon[i].Date, d.Date)) && forall(i, 0, len(d.HalfMoon), SAMEDAY(d.HalfMoon[i].Date, d.Date)) && \
  forall(i, 0, len(d.AstroMoon), SAMEDAY(d.AstroMoon[i].Date, d.Date)) && forall(i, 0, len(d.MajorEvents), SAMEDAY(d.MajorEvents[i].Date, d.Date)) && forall(i, 0, len(d.Events), SAMEDAY(d.Events[i].Date, d.Date))
spec ONEPERDAY(l) bool = forall(j, 0, len(l), forall(i, 0, j, !SAMEDAY(l[i].Date, l[j].Date)))

func mergeIntoCalDays(days, event)
  props C17 C22
  checkonly
  like ([]CalDay, CalendarEvent) ([]CalDay)
  requires elemutc(days)
  requires elemutc(event)
  requires forall(k, 0, len(days), SINGLE(days[k]))
  modifies days
  ensures implies(exists(k, 0, len(days), SAMEDAY(old(days)[k].Date, dateof(event))), \
    result == gen(j, len(old(days)), one(ite(FIRST(old(days), j, dateof(event)), ADDED(old(days)[j], event), old(days)[j]))))
  ensures implies(!exists(k, 0, len(days), SAMEDAY(old(days)[k].Date, dateof(event))), result == cat(old(days), one(ADDED(CalDay{}, event))))
  ensures[C22] elemutc(result)
  ensures[C22] forall(k, 0, len(result), SINGLE(result[k]))
  // a list with one entry per date stays so, its events on their own dates,
  // and the only date added is the event's
  ensures[C22] implies(ONEPERDAY(old(days)), ONEPERDAY(result))
  ensures[C22] implies(forall(k, 0, len(old(days)), OWN(old(days)[k])), forall(k, 0, len(result), OWN(result[k])))
  ensures[C22] len(result) >= len(old(days)) && forall(k, 0, len(old(days)), SAMEDAY(result[k].Date, old(days)[k].Date))
  ensures[C22] forall(k, len(old(days)), len(result), SAMEDAY(result[k].Date, dateof(event)))
  ensures[C22] exists(k, 0, len(result), SAMEDAY(result[k].Date, dateof(event)))
