// A solar year's listing. The chain of uposathas from the previous Kattika full
// moon (k = 0): odd k are new moons, even k full moons. CD is the day counted
// from 1970.
spec opaque CD(y, k) = ite(k == 0, fdiv(KRX(y), DAY), CD(y, k-1) + CU(y, k))
spec opaque CY(y, k) = yearofday(CD(y, k))
spec opaque CM(y, k) = ite(k == 0, 12, ite(fmod(k, 2) == 1, NMONTH(CM(y, k-1), AM(CY(y, k-1))), CM(y, k-1)))
spec opaque CX(y, k) = ite(k == 0, 29, ite(fmod(k, 2) == 1, MDAYS(CM(y, k), AVX(CY(y, k-1))), CX(y, k-1)))
spec opaque CU(y, k) = ite(fmod(k, 2) == 1, ite(CX(y, k) == 29, 14, 15), 15)
spec opaque CT(y, k) = ite(k == 0, 8, ite(fmod(k, 2) == 1, ite(AM(CY(y, k-1)) && HOT(CM(y, k)), 10, 8), CT(y, k-1)))
// the first uposatha of a season
spec opaque CF(y, k) bool = fmod(k, 2) == 1 && CN(y, k-1) >= CT(y, k-1)
spec opaque CN(y, k) = ite(k == 0, 8, ite(CF(y, k), 1, CN(y, k-1) + 1))
spec opaque CS(y, k) = ite(k == 0, 3, ite(CF(y, k), ite(CM(y, k-1) == 12, 1, CS(y, k-1) + 1), CS(y, k-1)))
spec opaque CL(y, k) = ite(k == 0, CY(y, 0) + 543, ite(CF(y, k) && CM(y, k-1) == 12, CL(y, k-1) + 1, CL(y, k-1)))
spec opaque CH(y, k) bool = fmod(k, 2) == 1 && CM(y, k) == 8 && AVX(CY(y, k-1))
spec CE(y, k) string = ite(fmod(k, 2) == 1, "", EVENT(CM(y, k), AM(CY(y, k-1))))
// the first of the chain from k on that is in year z or later
spec opaque FROM(y, z, k) = ite(CY(y, k) >= z, k, FROM(y, z, k+1))
spec K0(y) = FROM(y, y, 1)
spec K1(y) = FROM(y, y+1, 1)
spec CHAIN(y, k) = UposathaMoon{Date: day(CD(y, k)), Calendar: 0, Status: 2, Phase: ite(fmod(k, 2) == 1, "new", "full"), Event: CE(y, k), \
  S_Number: CN(y, k), S_Total: CT(y, k), U_Days: CU(y, k), M_Days: CX(y, k), LunarMonth: CM(y, k), LunarSeason: CS(y, k), LunarYear: CL(y, k), HasAdhikavara: CH(y, k)}
spec ASALHA(y) = KRX(y) + DAY*ite(AM(y), 266, ite(AVX(y), 237, 236))
spec HALF(y, k) = HalfMoon{Date: day(CD(y, k) + 8), Phase: ite(fmod(k, 2) == 1, "waxing", "waning")}
// the event s is listed once, on day d
spec ONCE(l, s, d) bool = count(i, 0, len(l), l[i].Summary == s) == 1 && count(i, 0, len(l), l[i].Summary == s && l[i].Date == day(d)) == 1
// the day of the year's uposatha with a given event
spec opaque DAYOF(y, s, k) = ite(CE(y, k) == s, CD(y, k), DAYOF(y, s, k+1))

func GenerateSolarYear(y)
  props C16
  cases y 1300..2900
  requires 1300 <= y && y <= 2900
  shipped UseExceptions AdhikavaraExceptions
  requires SHIPPEDT()
  ensures forall(i, 0, len(result), year(dateof(result[i])) == y)
  ensures elemutc(result)
  ensures filter(result, UposathaMoon) == list(k, K0(y), K1(y), CHAIN(y, k))
  ensures forall(k, K0(y) + 1, K1(y), CD(y, k) - CD(y, k-1) == 14 || CD(y, k) - CD(y, k-1) == 15)
  ensures CD(y, K0(y)) - ys(y) < 15
  ensures ys(y+1) - CD(y, K1(y) - 1) <= 15
  ensures len(filter(result, HalfMoon)) == count(k, 1, K1(y), yearofday(CD(y, k) + 8) == y)
  ensures let(l, filter(result, HalfMoon), forall(k, 1, K1(y), implies(yearofday(CD(y, k) + 8) == y, let(h, HALF(y, k), exists(i, 0, len(l), l[i] == h)))))
  ensures len(filter(result, MajorEvent)) == 6
  ensures ONCE(filter(result, MajorEvent), "Māgha Pūjā", DAYOF(y, "magha", K0(y)))
  ensures ONCE(filter(result, MajorEvent), "Vesākha Pūjā", DAYOF(y, "vesakha", K0(y)))
  ensures ONCE(filter(result, MajorEvent), "Āsāḷha Pūjā", DAYOF(y, "asalha", K0(y)))
  ensures ONCE(filter(result, MajorEvent), "Āsāḷha Pūjā", fdiv(ASALHA(y), DAY))
  ensures ONCE(filter(result, MajorEvent), "First day of Vassa", fdiv(ASALHA(y), DAY) + 1)
  ensures ONCE(filter(result, MajorEvent), "Pavāraṇā Day", DAYOF(y, "pavarana", K0(y)))
  ensures ONCE(filter(result, MajorEvent), "Pavāraṇā Day", fdiv(ASALHA(y), DAY) + 89)
  ensures ONCE(filter(result, MajorEvent), "Last day of Vassa", fdiv(ASALHA(y), DAY) + 89)
  ensures len(result) == len(filter(result, UposathaMoon)) + len(filter(result, HalfMoon)) + len(filter(result, MajorEvent))
