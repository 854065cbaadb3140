// The previous Kattika full moon, chained from 2015-11-25 by year lengths:
// KAT is defined by induction in both directions from 2016.
spec opaque KAT(y)
  auto KAT(2016) == date(2015, 11, 25)
  auto KAT(y+1) == KAT(y) + DAY*LEN(y)
  auto KAT(y) == KAT(y-1) + DAY*LEN(y-1)
template[C09,C10,C14] KAT

// The same date reckoned from the New Year elements (exceptions off).
spec LEN0(y) = ite(AM(y), 384, ite(AV(y), 355, 354))
spec OFF(y) = ite(T(y) <= 5, 163, ite(CAR(y), 134, 133))
spec HDATE(h) = date(1963, 7, 5) + DAY*(h - 484049) + 86399000000000
spec opaque KDAY(y) = H(y) - T(y) - 484049 - OFF(y)
spec opaque KREC(y) = date(1963, 7, 5) + DAY*KDAY(y)
  auto KREC(2016) == date(2015, 11, 25)
template[C11] KREC
// with the shipped exceptions the extra day of 1994 comes in 1997
spec MOVED(y) = ite(1995 <= y && y <= 1997, 1, 0)
spec LENS(y) = ite(AM(y), 384, ite(y == 1997 || y != 1994 && AV(y), 355, 354))
spec opaque KDX(y) = KDAY(y) - MOVED(y)
spec opaque KRX(y) = date(1963, 7, 5) + DAY*ite(UseExceptions, KDX(y), KDAY(y))
  auto KRX(2016) == date(2015, 11, 25)
template[C16] KRX
lemma[C16] DRIFTS(y) enum 645..3500: KDX(y+1) == KDX(y) + LENS(y)
lemma[C11,C16] DRIFT(y) enum 645..3500: KDAY(y+1) == KDAY(y) + LEN0(y)

func CalculatePreviousKattika(y)
  props C09 C10 C11 C14 C16
  requires 645 <= y && y <= 1000000
  requires[C11] y <= 3500 && !UseExceptions
  requires[C16] y <= 3500 && SHIPPEDT()
  use[C11,C16] DRIFT
  use[C16] DRIFTS
  ensures[C09,C10,C14] ns(result) == KAT(y)
  ensures[C11] ns(result) == KREC(y)
  ensures[C16] ns(result) == KRX(y)
  ensures[C11] ns(result) + 86399000000000 == HDATE(H(y) - T(y)) - DAY*OFF(y)
  ensures utc(result)
  ensures[C14] deterministic

func (su) SuriyaYear.AsalhaPuja()
  props C10 C14 C16
  requires 645 <= su.Year && su.Year <= 1000000
  requires[C16] su.Year <= 3500 && SHIPPEDT()
  requires YOK(su)
  ensures[C16] ns(result) == ASALHA(su.Year)
  ensures[C10,C14] ns(result) == KAT(su.Year) + DAY*ite(AM(su.Year), 266, ite(AVX(su.Year), 237, 236))
  ensures utc(result)
  ensures[C10] ns(result) + 118*DAY == KAT(su.Year + 1)
  ensures[C14] deterministic

func HorakhunToDate(h)
  props C11 C12 C14
  requires -50000000 <= h && h <= 50000000
  ensures ns(result) == date(1963, 7, 5) + DAY*(h - 484049) + 86399000000000
  ensures utc(result)
  ensures[C14] deterministic
