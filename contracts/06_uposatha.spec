// The next uposatha.
spec NMONTH(m, leap) = ite(m == 13, 9, ite(m == 8 && leap, 13, ite(m == 12, 1, m + 1)))
spec MDAYS(m, extra) = ite(fmod(m, 2) == 1, 30, ite(m == 8 && extra, 30, 29))
spec HOT(m) bool = 5 <= m && m <= 8 || m == 13
spec EVENT(m, leap) string = ite(leap, ite(m == 4, "magha", ite(m == 7, "vesakha", ite(m == 13, "asalha", ite(m == 11, "pavarana", "")))), \
  ite(m == 3, "magha", ite(m == 6, "vesakha", ite(m == 8, "asalha", ite(m == 11, "pavarana", "")))))

func (u) UposathaMoon.NextUposatha()
  props C15 C16
  requires u.Phase == "new" || u.Phase == "full"
  requires 1 <= u.LunarMonth && u.LunarMonth <= 13
  requires 1 <= u.S_Number && u.S_Number <= u.S_Total && u.S_Total <= 10
  requires 1 <= u.LunarSeason && u.LunarSeason <= 3
  requires 0 <= u.LunarYear && u.LunarYear <= 2000000
  requires utc(u.Date)
  requires 660 <= year(u.Date) && year(u.Date) <= 1000000
  ensures result.Phase == ite(u.Phase == "new", "full", "new")
  ensures result.U_Days == ite(u.Phase == "new", 15, ite(result.M_Days == 29, 14, 15))
  ensures utc(result.Date)
  ensures ns(result.Date) == ns(u.Date) + DAY*result.U_Days
  ensures result.LunarMonth == ite(u.Phase == "new", u.LunarMonth, NMONTH(u.LunarMonth, AM(year(u.Date))))
  ensures result.M_Days == ite(u.Phase == "new", u.M_Days, MDAYS(result.LunarMonth, AVX(year(u.Date))))
  ensures result.HasAdhikavara == (u.Phase == "full" && result.LunarMonth == 8 && AVX(year(u.Date)))
  ensures result.S_Total == ite(u.Phase == "new", u.S_Total, ite(AM(year(u.Date)) && HOT(result.LunarMonth), 10, 8))
  ensures result.S_Number == ite(u.Phase == "new" || u.S_Number < u.S_Total, u.S_Number + 1, 1)
  ensures result.LunarSeason == ite(u.Phase == "new" || u.S_Number < u.S_Total, u.LunarSeason, ite(u.LunarMonth == 12, 1, u.LunarSeason + 1))
  ensures result.LunarYear == ite(u.Phase == "full" && u.S_Number >= u.S_Total && u.LunarMonth == 12, u.LunarYear + 1, u.LunarYear)
  ensures result.Calendar == 0
  ensures result.Status == 0
  ensures result.Source == ""
  ensures result.Comments == ""
  ensures result.Event == ite(u.Phase == "new", EVENT(u.LunarMonth, AM(year(u.Date))), "")
