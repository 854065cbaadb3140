// Name tables and printed forms.
spec MONTHNO(s) = ite(s == "magasira", 1, ite(s == "phussa", 2, ite(s == "magha", 3, ite(s == "phagguna", 4, ite(s == "citta", 5, ite(s == "vesakha", 6, \
  ite(s == "jettha", 7, ite(s == "asalha", 8, ite(s == "2nd asalha", 13, ite(s == "savana", 9, ite(s == "bhaddapada", 10, ite(s == "assayuja", 11, ite(s == "kattika", 12, 0)))))))))))))
spec SEASONNO(s) = ite(s == "hemanta", 1, ite(s == "gimhana", 2, ite(s == "vassana", 3, 0)))
spec CALENDARNO(s) = ite(s == "dhammayut", 1, ite(s == "srilanka", 2, ite(s == "myanmar", 3, 0)))
spec STATUSNO(s) = ite(s == "predicted", 1, ite(s == "confirmed", 2, 0))

func MonthToInt(s)
  props C23
  ensures result == MONTHNO(s)
  ensures deterministic

func SeasonToInt(s)
  props C23
  ensures result == SEASONNO(s)
  ensures deterministic

func CalendarToInt(s)
  props C23
  ensures result == CALENDARNO(s)
  ensures deterministic

func StatusToInt(s)
  props C23
  ensures result == STATUSNO(s)
  ensures deterministic

func (su) SuriyaYear.String()
  props C23
  ensures result == itoa(su.Year)

func (c) CalDay.String()
  props C23
  requires len(c.UposathaMoon) <= 1 && len(c.AstroMoon) <= 1 && len(c.HalfMoon) <= 1
  ensures let(u, ite(len(c.UposathaMoon) == 0, UposathaMoon{}, c.UposathaMoon[0]), let(a, ite(len(c.AstroMoon) == 0, AstroMoon{}, c.AstroMoon[0]), \
    let(h, ite(len(c.HalfMoon) == 0, HalfMoon{}, c.HalfMoon[0]), result == textof(u) + ", " + textof(a) + ", " + textof(h))))
