// The calendar of a range: the recorded moons in it, then year by year the
// listed events in it, each put on the calendar by mergeIntoCalDays, in order of date.
func GetCalDays(from, to)
  props C22
  log mergeIntoCalDays
  opaque GetAstroMoons GenerateSolarYear
  sortkey d ns(d.Date)
  requires utc(from) && utc(to)
  requires 1300 <= year(from) && year(from) <= 2900 && 1300 <= year(to) && year(to) <= 2900
  requires SHIPPEDT()
  requires !useLocal
  requires forall(y, year(from), year(to)+1, implies(has(_escData, FILEOF(y)), isjson(RAW(y))))
  requires forall(y, year(from), year(to)+1, implies(USABLE(y), forall(i, 0, len(YEARDATA(y).Response), 0 <= RECORDED(y, i).Code && RECORDED(y, i).Code <= 3)))
  ensures let(m, of(GetAstroMoons, from, to), sortedlog(result) == cat(gen(i, len(m), one(m[i])), \
    gen(k, year(to) - year(from) + 1, let(l, of(GenerateSolarYear, year(from) + k), gen(i, len(l), when(ns(from) <= ns(dateof(l[i])) && ns(dateof(l[i])) <= ns(to), one(l[i])))))))
