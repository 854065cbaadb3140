#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay easy to review)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Year-start elements follow the exact integer reckoning",
  "For every Common Era year from 638 to 1,000,000, initialising a solar year gives BE = CE+543, CS = CE-638 and exactly these New Year elements, whatever the value held before: with a = 292207*CS+373, Horakhun H = floor(a/800)+1, Kammacubala = 800-(a mod 800), Uccabala = (H+2611) mod 3232, Avoman = (11H+650) mod 692, and with n = H+floor((11H+650)/692), Masaken = floor(n/30) and Tithi = n mod 30. No rounding, overflow or dependence on earlier contents may change any of them, and the values report lists exactly these nine numbers in the order CE, BE, CS, Horakhun, Kammacubala, Uccabala, Avoman, Masaken, Tithi.",
  ["inputs","histories"],"every CE year 638..1000000 and every previous content of the value being initialised",
  "The tests pin two years (1963 and 1496); the formulas mix int and float64 arithmetic (Floor of a float quotient) whose agreement with exact integer division is a claim over all years.",
  ["suriya_year.go","suriya.go"],[("SuriyaYear.Init","suriya_year.go"),("SuriyaYear.SuriyaValuesString","suriya_year.go"),("era constants","suriya.go")],
  observe=["SuriyaYear fields after Init","SuriyaValuesString"])

p("C02","Day elements follow the exact integer reckoning",
  "For every Common Era year from 638 to 1,000,000 and every lunar-year day from 1 to 400, initialising a day gives Horakhun = year's Horakhun + day - year's Tithi, Kammacubala = year's Kammacubala + 800*(day - year's Tithi), and Uccabala, Avoman, Masaken and Tithi by the same integer rules as the year-start elements applied to the day's Horakhun, together with the day number and the CE, BE (+543) and CS (-638) years. In particular the elements of the New Year day equal the year's own, consecutive days advance Horakhun by one, and nothing depends on what the value held before.",
  ["inputs","histories"],"every CE year 638..1000000, every lunar day 1..400, every previous content of the value",
  "Three (year, day) pairs are compared in full by the tests; the guarantee is about every day of every year, and about re-used values.",
  ["suriya_day.go","suriya_year.go"],[("SuriyaDay.Init (part A)","suriya_day.go")],observe=["SuriyaDay integer fields after Init"])

p("C03","Mean and true Sun of a day are the tabulated longitudes",
  "For every year from 638 to 1,000,000 and lunar day 1..400, the mean Sun is the arc 360*Kammacubala/292207 degrees (Kammacubala of that day) cut down to whole arcminutes, less 3 arcminutes, cut down to four decimals of a degree; this also holds for the days of the lunar year that precede the solar New Year. The true Sun is the mean Sun plus floor(134*sin|meanSun-80 deg|) arcminutes, cut down to four decimals (so never above the exact value, up to 1e-9, and at most one unit of the fourth decimal below it).",
  ["inputs"],"every CE year 638..1000000 and every lunar day 1..400, including days before the solar New Year (negative arcs)",
  "Tests compare the true Sun on a handful of days, all after New Year; negative arcs, arcminute boundaries and float rounding over the whole domain are not sampled.",
  ["suriya_day.go","helpers.go"],[("SuriyaDay.Init (part B)","suriya_day.go"),("DegreeToRal / RalToDegree","helpers.go")],observe=["SuriyaDay.MeanSun, TrueSun"])

p("C04","Mean and true Moon and the lunar mansion of a day",
  "For every year from 638 to 1,000,000 and lunar day 1..400, the mean Moon is trueSun + (avoman + floor(avoman/25))/60 + 12*tithi - 0.6666 degrees (day's elements) reduced to one revolution 0..360; the true Moon is the mean Moon less 296/60*sin(meanMoon - apogee) degrees, reduced to 0..360 and cut down to four decimals, where apogee = 90*(year's Uccabala + day - year's Tithi)/808 + 2/60 degrees. The mansion position (raek) is 1 + trueMoon/13.3333 and so lies between 1 and 28.0001 (to within 1e-7 degree, and at most one unit of the fourth decimal below for the cut-down true Moon; angles compared modulo 360).",
  ["inputs"],"every CE year 638..1000000 and every lunar day 1..400",
  "Tests sample a handful of days; none lies near the 0/360 wrap, before New Year or at a rounding boundary.",
  ["suriya_day.go","helpers.go"],[("SuriyaDay.Init (part C)","suriya_day.go"),("NormalizeDegree","helpers.go")],observe=["SuriyaDay.MeanMoon, TrueMoon, Raek"])

p("C05","Rasi:angsa:lipda notation denotes the angle it was made from",
  "For every angle d with d = 0 or 1e-9 <= |d| <= 1e6 degrees, converting to (rasi, angsa, lipda) gives 0 <= angsa <= 29, 0 <= lipda <= 59 and 30*rasi + angsa + lipda/60 <= d < that + 1/60 (up to 1e-9), and the printed form shows those three numbers as rasi:angsa degree-sign lipda minute-sign. Converting (x, y, z) with |x|,|y|,|z| <= 100000 back gives 30x+y+z/60 cut down to four decimals (within one ulp-sized error), and normalising an angle |d| <= 1e6 gives a value within 0..360 that differs from d by a whole number of turns and equals d when d is already there.",
  ["inputs"],"every finite angle in the stated range, positive and negative; every integer triple in range",
  "Tests only see positive angles of about a dozen days; the sign of remainders, arcminute boundaries and float rounding are a claim over a continuum.",
  ["helpers.go"],[("DegreeToRal, DegreeToRalString, RalToDegree, NormalizeDegree","helpers.go")],observe=["return values"])

p("C06","Leap-month years: the rule, their spacing and their distance query",
  "For every year from 640 to 1,000,000, a year has a leap month exactly when its New Year tithi is in 24..29 or 0..5 and the next year's is not. Hence two leap-month years are never adjacent and successive ones are always 2 or 3 years apart; the years-since-last-leap-month query returns exactly that distance (2 or 3 for a leap-month year, and always the true distance 1..3, never 'not found').",
  ["inputs"],"every year 640..1000000",
  "A table of 69 years is tested; the 2/3 spacing and the query's search bound are statements about every year.",
  ["suriya_year.go"],[("Is_Adhikamasa, Would_Be_Adhikamasa, DeltaAdhikamasa","suriya_year.go")],observe=["Is_Adhikamasa, Would_Be_Adhikamasa, DeltaAdhikamasa"])

p("C07","Extra-day years: rule, carry-over, exclusivity and distance query",
  "For every year from 642 to 1,000,000 with the exceptions switched off, a year qualifies for an extra day when its Avoman is below 137 (in a solar leap year, Kammacubala <= 207: at most 126), and it has the extra day exactly when it is not a leap-month year and either qualifies itself or the year before was a qualifying leap-month year (the day is carried over); so no year has both. With the exceptions switched on, a listed year takes the listed answer and every other year is unchanged; as shipped they are off and list exactly 1994 (no extra day) and 1997 (an extra day). The years-since-last-extra-day query (years from 660) returns the distance to the nearest earlier extra-day year (looking back at most 13 years, -1 if there is none); with the exceptions off that distance is 1..7 up to the year 3500.",
  ["inputs","configurations"],"every year in range, exceptions on and off, every content of the exceptions table",
  "24 years are tested with exceptions off; never-both, carry-over, the search bound and the exceptions switch are quantified over all years and both configurations.",
  ["suriya_year.go","suriya.go"],[("Is_Adhikavara, Would_Be_Adhikavara, Has_Carried_Adhikavara, Is_Suriya_Leap, DeltaAdhikavara","suriya_year.go"),("UseExceptions, AdhikavaraExceptions","suriya.go")],
  state=[("UseExceptions","whether the official exceptions apply","suriya.go")],observe=["the five queries"])

p("C08","Lunar year length matches the year's kind",
  "For every year from 642 to 1,000,000, in either exceptions configuration, the lunar year has 384 days when it is a leap-month year, otherwise 355 days when it is an extra-day year, otherwise 354 days. No other length occurs.",
  ["inputs","configurations"],"every year 642..1000000, exceptions on and off",
  "No test calls the year length at all.",
  ["suriya_year.go"],[("YearLength","suriya_year.go")],observe=["YearLength"])

p("C09","Kattika full moons chain by year lengths from the epoch, both ways",
  "For every year from 645 to 1,000,000 the computation of the previous Kattika full moon terminates and returns midnight UTC of 2015-11-25 plus the sum of the lunar year lengths from 2016 up to the year before (for years before 2016: minus the sum of the lengths of the years from that year to 2015). Hence consecutive years' Kattika dates differ by exactly the length of the lunar year between them, whichever side of the epoch they lie and whatever the exceptions setting.",
  ["inputs","configurations"],"every target year, forwards and backwards from the epoch; an unbounded number of iterations",
  "Tests reach it only through 62 Asalha dates between 1950 and 2025; the loop is unbounded and runs in two directions.",
  ["helpers.go","suriya_year.go"],[("CalculatePreviousKattika","helpers.go")],observe=["CalculatePreviousKattika"])

p("C10","Asalha Puja is placed by the kind of year",
  "For every year from 645 to 1,000,000, in either exceptions configuration, Asalha Puja falls 236 days after the previous Kattika full moon in a common year, 237 in an extra-day year and 266 in a leap-month year. It therefore always precedes the next Kattika full moon by exactly 118 days.",
  ["inputs","configurations"],"every year 645..1000000, exceptions on and off",
  "Tests list 62 dates of one century with exceptions off.",
  ["suriya_year.go","helpers.go"],[("AsalhaPuja","suriya_year.go")],observe=["AsalhaPuja"])

p("C11","The lunar calendar never drifts from the day reckoning",
  "With exceptions off, for every year y from 645 to 3500 the previous Kattika full moon (found by stepping whole calendar years) and the New Year elements (found by the day reckoning) agree: converted through the Horakhun-to-date mapping, Kattika lies 163 days before day (Horakhun - Tithi) of year y if its Tithi is at most 5, else 134 days before if the previous year was a leap-month year that qualified for an extra day, else 133 days before. The offset never leaves these three values, so no error accumulates over the centuries.",
  ["inputs","histories"],"every year 645..3500, i.e. every number of accumulated calendar years before or after the epoch",
  "Agreement of two independent computations over thousands of accumulated years is an inductive fact; tests compare dates of one century only.",
  ["helpers.go","suriya_year.go"],[("CalculatePreviousKattika, HorakhunToDate","helpers.go"),("SuriyaYear.Init, YearLength","suriya_year.go")],observe=["CalculatePreviousKattika, HorakhunToDate, Init"])

p("C12","Horakhun to calendar date is an exact day-for-day mapping",
  "For every Horakhun h with |h| <= 50,000,000 the conversion terminates and returns 23:59:59 UTC of the day lying (h - 484049) days after 1963-07-05. Consecutive Horakhun therefore give consecutive days, in both directions from the reference and across every internal step, without duration overflow.",
  ["inputs"],"every Horakhun in range, both signs, any number of internal steps",
  "Fourteen dates are tested; they need at most five internal steps, and overflow of the step is only visible for particular distances.",
  ["helpers.go"],[("HorakhunToDate","helpers.go")],observe=["HorakhunToDate"])

p("C13","Cycle positions count 1..57 and 1..19 without a break",
  "For every year from 1 to 1,000,000 the 57-year cycle position is in 1..57, is 1 in 1984, and the next year's position is one more, returning to 1 after 57; likewise the 19-year position is in 1..19, is 1 in 1984, and advances by one each year, returning to 1 after 19.",
  ["inputs"],"every year 1..1000000, before and after the anchor year",
  "No test calls them; continuity across the anchor and for early years is a claim about all years.",
  ["suriya_year.go"],[("AdhikavaraCyclePos, AdhikamasaCyclePos","suriya_year.go")],observe=["both queries"])

p("C14","Answers depend only on the arguments, and asking changes nothing",
  "Year queries (leap month, extra day, carried day, length, cycle positions, distances, Asalha Puja), the Kattika and Horakhun conversions and the angle helpers give the same answer however often and in whatever order anything was called before; no call changes the value it is asked on or any package setting. Initialising a year or day overwrites every computed element and leaves no trace of the previous one (the date fields, which initialisation does not compute, are left as they were).",
  ["histories","inputs"],"every previous content of a value and every sequence of earlier calls",
  "Tests use fresh values and one call each; caches, accumulating fields or hidden global state would pass them.",
  ["suriya_year.go","suriya_day.go","helpers.go","suriya.go"],[("value receivers; Init assigns every field; no package state is written","suriya_year.go, suriya_day.go, helpers.go")],
  state=[("package variables","UseExceptions, AdhikavaraExceptions, verbose and the name tables","suriya.go, helpers.go")],observe=["all exported calculation functions"])

p("C15","Each uposatha determines the next by the traditional rules",
  "From any uposatha of the calendar the next one has the opposite phase; a full moon comes 15 days after the new moon of the same month and keeps its month, season and lunar year; a new moon opens the next month (after 12 comes 1; in a leap-month year 13 follows 8 and 9 follows 13), 14 days later if the month has 29 days (even months) and 15 if it has 30 (odd months, and the 8th in an extra-day year, which alone is marked as having the extra day). Season counters run 1..8 (1..10 for the hot season of a leap-month year: months 5-8 and 13), restart when the season is complete, and the lunar year increases exactly when month 12 ends its season; the major full moons are those of months 3, 6, 8 and 11, shifted to 4, 7, 13 and 11 in a leap-month year. Whatever the one before it carried, the next one is of status 0 and calendar 0, without source or comments.",
  ["inputs","configurations"],"every reachable uposatha state, every year kind, dates in years 660..1000000",
  "The file is not compiled by the build here and has no test; the rules combine phase, month, season and year kind.",
  ["uposatha_moon.go"],[("UposathaMoon.NextUposatha","uposatha_moon.go")],observe=["NextUposatha"])

p("C16","A solar year's listing is complete, in-year and free of duplicates",
  "With exceptions off, and with exceptions on and the table of exceptions as shipped (1994 without and 1997 with an extra day), for every year from 1300 to 2900 the generated listing contains only events dated in that year: every uposatha of the chain that starts at the previous Kattika full moon and falls in the year, each once and in order (consecutive ones 14 or 15 days apart, the first within the first 15 days and the last within the last 15 days of the year, all marked confirmed), a half moon exactly eight days after each uposatha whose eighth day falls in the year (waning after full, waxing after new), and each of Magha, Vesakha, Asalha Puja, first day of Vassa, Pavarana and last day of Vassa exactly once. Asalha Puja is listed on the date computed by the year's own Asalha Puja query, Vassa begins the day after, and Pavarana and the last day of Vassa coincide 88 days after Vassa begins.",
  ["inputs"],"every year 1300..2900",
  "No test covers it (the file is not compiled by the build here); completeness is a claim about every year's 25 or so steps and their boundary at New Year.",
  ["cal_day.go","uposatha_moon.go","helpers.go"],[("GenerateSolarYear","cal_day.go"),("NextUposatha","uposatha_moon.go"),("CalculatePreviousKattika","helpers.go")],observe=["GenerateSolarYear"])

p("C17","Calendar days: one entry per date, every event on its own date",
  "Merging an event into a list of calendar days in UTC puts it on the entry of its own date if there is one (the first such entry) and otherwise appends exactly one new entry for it; every other entry is untouched and the events already on that entry are kept, except that a day holds at most one uposatha, one half moon and one astronomical moon (the newest). Looking up a day finds the first entry of that date or reports that there is none; ordering compares entries by date, and the accessors return what was set or an empty value.",
  ["inputs","histories"],"every list of days, every kind of event and every date",
  "The file is not compiled by the build here and has no test; the guarantee is about arbitrary lists and event kinds.",
  ["cal_day.go","uposatha_moon.go","half_moon.go","astro_moon.go","event.go","major_event.go"],[("mergeIntoCalDays, findCalDay, AddToDay, Set*/Get*, Less","cal_day.go")],observe=["mergeIntoCalDays, findCalDay, CalDay accessors, CalDaySlice"])

p("C18","Half-moon filling adds exactly the eighth days",
  "Filling in half-moon days keeps every given calendar day unchanged and in place and appends, in order, exactly one new day for each given day whose uposatha is a full or new moon: dated eight days later and carrying a half moon of that date, waning after a full moon and waxing after a new moon. Days without an uposatha, or with an unknown phase, add nothing.",
  ["inputs"],"every list of calendar days, of any length",
  "The file is not compiled by the build here and has no test; the claim is about lists of every length.",
  ["cal_day.go","half_moon.go"],[("AddHalfMoonDays","cal_day.go")],observe=["AddHalfMoonDays"])

p("C19","Astronomical moons: exactly the recorded ones inside the asked range",
  "For any two instants the list of astronomical moons holds, in file order and year by year from the first to the last year, exactly the recorded moons of each year's data (years without data, marked unsuccessful or carrying an error contribute none and hide no other year) whose instant lies within the two, bounds included. Each is given in UTC with phase new, waxing, full or waning for codes 0..3.",
  ["inputs"],"every pair of instants and every content of the yearly data",
  "The file is not compiled by the build here and has no test; the range filter and the skipping of years are claims about all ranges.",
  ["astro_moon.go","aeris_moon.go","data.go"],[("GetAstroMoons","astro_moon.go"),("phaseCodes","aeris_moon.go")],observe=["GetAstroMoons"])

p("C20","Embedded data access is faithful and consistent",
  "Reading an embedded file by any of the four accessors (bytes or string, plain or must) gives the same contents: for every known name exactly the file of that name under the data directory, for an unknown name an error (a panic for the must variants) and no contents, on the first and on every later call. Names are looked up after path cleaning. With useLocal the contents are instead those of the local file of that name, below the working directory, and an unknown name or a local file that cannot be read is the error (the panic); no file is left open.",
  ["inputs","histories"],"every name, known or not, first and repeated calls, with and without useLocal",
  "No test touches the embedded files; equality of the accessors, error behaviour and first-call initialisation are claims about all names and call histories.",
  ["data.go"],[("FSByte, FSMustByte, FSString, FSMustString, prepare","data.go")],observe=["FSByte, FSMustByte, FSString, FSMustString"])

p("C21","Calendar export entries carry the day, the title and a one-day span",
  "The calendar entry exported for any uposatha, half moon, astronomical moon, event or major event starts at the event's date, ends exactly 24 hours later, is an all-day entry, and is titled with the event's own text: 'Full Moon - 15 day Hemanta 4/8' style (phase, days, season, number/total) for an uposatha, '<Phase> Moon' for a half or astronomical moon, the summary for events, and empty for a moon without a phase.",
  ["inputs"],"every event value of the five kinds",
  "The files are not compiled by the build here and have no test.",
  ["calendar_event.go","uposatha_moon.go","half_moon.go","astro_moon.go","event.go","major_event.go"],[("icalEvent, IcalEvent, String, GetDate","calendar_event.go")],observe=["IcalEvent, String"])

p("C22","The calendar of a range: every event in it once, one entry per date, in order",
  "With exceptions off, and with exceptions on and the table of exceptions as shipped (1994 without and 1997 with an extra day), for any two instants in UTC in the years 1300 to 2900 the calendar of the range is made from the recorded astronomical moons within it and the events of each year's listing, first to last year, whose date lies within it, bounds included, and nothing else: each is put on the calendar in that order as merging an event into calendar days does (C17). So the calendar has exactly one entry for each date (UTC) that such an event falls on and no other entry, every event of an entry is dated on the entry's date, a single kind of moon is the newest of its date, major events are all kept, and the entries come in increasing order of date. A range that ends before it starts gives an empty calendar.",
  ["inputs"],"every pair of instants of the domain; any number of events",
  "The file is not compiled by the build here and has no test; order, completeness and one entry per date are claims about every range.",
  ["cal_day.go","astro_moon.go"],[("GetCalDays, mergeIntoCalDays, CalDaySlice","cal_day.go")],observe=["GetCalDays"])

p("C23","Names become their numbers and calendar days print in full",
  "For every string the lookup of a month, season, calendar or status name gives the number of that name and 0 for every string that is not such a name, however close: magasira, phussa, magha, phagguna, citta, vesakha, jettha, asalha are months 1 to 8, savana, bhaddapada, assayuja, kattika 9 to 12, 2nd asalha 13; hemanta, gimhana, vassana are seasons 1 to 3; dhammayut, srilanka, myanmar are calendars 1 to 3; predicted, confirmed are status 1 and 2. Each lookup gives the same answer whatever was looked up before. A solar year prints as its CE year in decimal. A calendar day prints as the texts of its Uposatha moon, its astronomical moon and its half moon, in that order, separated by a comma and a space, the text of a kind the day has no moon of being empty.",
  ["inputs","histories"],"every string; every solar year value; every calendar day with at most one moon of each kind",
  "The lookups and the printed forms have no test, and the claim is over every string and every combination of moons.",
  ["helpers.go","suriya_year.go","cal_day.go"],[("MonthToInt, SeasonToInt, CalendarToInt, StatusToInt","helpers.go"),("SuriyaYear.String","suriya_year.go"),("CalDay.String","cal_day.go")],observe=["the lookups, String"])

p("C24","The embedded files open as a file system",
  "For every name, opening it in the embedded file system (FS with useLocal false) succeeds exactly when the name, cleaned, is that of an embedded file or directory, and opening a name in Dir with useLocal false and some prefix is opening the prefix followed directly by the name. An opened file reads, from its start to its end, exactly the contents the byte and string accessors give for that name, then nothing more; every opening reads on its own, so any number of files, or one file opened several times, can be read in any order, before or after the accessors. Closing gives no error. Stat gives the file's length as its size, the recorded modification time, mode 0, says whether it is a directory, and names the file by the last element of its clean name, whichever way it was spelled when it was first or last opened. With useLocal true, opening a name (or, in Dir, the prefix followed by the name) instead opens the local file or directory of that name, below the working directory, for every name that is embedded, and nothing else.",
  ["inputs","histories"],"every name and prefix; files opened and read in any order; with and without useLocal",
  "No test opens a file; that every opening reads on its own, from the start, is a claim over histories.",
  ["data.go"],[("FS, Dir, Open, prepare, File, Stat, Close","data.go")],observe=["http.File, os.FileInfo"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
