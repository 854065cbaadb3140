// The rules for leap-month (adhikamasa) and extra-day (adhikavara) years.
spec WBT(y) bool = T(y) >= 24 && T(y) <= 29 || T(y) >= 0 && T(y) <= 5
spec opaque AM(y) bool = WBT(y) && !WBT(y+1)
spec LEAP(y) bool = K(y) <= 207
spec opaque WV(y) bool = ite(LEAP(y), AVO(y) <= 126, AVO(y) < 137)
spec CAR(y) bool = AM(y-1) && WV(y-1)
spec opaque AV(y) bool = !AM(y) && (WV(y) || CAR(y))
// with the exceptions setting
spec AVX(y) bool = ite(UseExceptions && has(AdhikavaraExceptions, y), AdhikavaraExceptions[y], AV(y))
// exceptions off, or on with the table as shipped
spec SHIPPEDT() bool = implies(UseExceptions, asshipped(AdhikavaraExceptions) && forall(y, 645, 3501, has(AdhikavaraExceptions, y) == (y == 1994 || y == 1997)) && AdhikavaraExceptions[1997] && !AdhikavaraExceptions[1994])
spec LEN(y) = ite(AM(y), 384, ite(AVX(y), 355, 354))

lemma[C06] AMspacing(y) enum 640..1000000: !(AM(y) && AM(y+1)) && implies(AM(y), AM(y+2) || AM(y+3)) && implies(AM(y+2), !AM(y+1)) && implies(AM(y) && AM(y+2), !AM(y+1))
lemma AMdist(y) enum 640..1000000: AM(y-1) || AM(y-2) || y >= 641 && AM(y-3)
lemma[C06] AMdist2(y) enum 641..1000000: implies(AM(y), !AM(y-1))
lemma[C07] AVexcl(y) enum 642..1000000: !(AM(y) && AV(y))
// as shipped: exceptions off, two years listed
lemma[C07] SHIPPED(y) initial: !UseExceptions && has(AdhikavaraExceptions, y) == (y == 1994 || y == 1997) && AdhikavaraExceptions[1997] && !AdhikavaraExceptions[1994]
lemma AVgap(y) enum 660..3500: AV(y-1) || AV(y-2) || AV(y-3) || AV(y-4) || AV(y-5) || AV(y-6) || AV(y-7)

func (su) SuriyaYear.Would_Be_Adhikamasa()
  props C06 C07 C08 C09 C10 C11 C14 C15 C16
  requires 638 <= su.Year && su.Year <= 1000050
  requires YOK(su)
  ensures result == WBT(su.Year)
  ensures[C14] deterministic

func (su) SuriyaYear.Is_Adhikamasa()
  props C06 C07 C08 C09 C10 C11 C14 C15 C16
  requires 638 <= su.Year && su.Year <= 1000040
  requires YOK(su)
  ensures result == AM(su.Year)
  ensures[C14] deterministic

func (su) SuriyaYear.Is_Suriya_Leap()
  props C07 C14
  requires 638 <= su.Year && su.Year <= 1000050
  requires YOK(su)
  ensures result == LEAP(su.Year)
  ensures[C14] deterministic

func (su) SuriyaYear.Would_Be_Adhikavara()
  props C07 C08 C09 C10 C11 C14 C15 C16
  requires 638 <= su.Year && su.Year <= 1000050
  requires YOK(su)
  ensures result == WV(su.Year)
  ensures[C14] deterministic

func (su) SuriyaYear.Has_Carried_Adhikavara()
  props C07 C08 C09 C10 C11 C14 C15 C16
  requires 640 <= su.Year && su.Year <= 1000040
  requires YOK(su)
  ensures result == CAR(su.Year)
  ensures[C14] deterministic

func (su) SuriyaYear.Is_Adhikavara()
  props C07 C08 C09 C10 C11 C14 C15 C16
  requires 640 <= su.Year && su.Year <= 1000030
  requires YOK(su)
  ensures result == AVX(su.Year)
  ensures[C14] deterministic

func (su) SuriyaYear.DeltaAdhikamasa()
  props C06 C14
  requires 640 <= su.Year && su.Year <= 1000000
  requires YOK(su)
  unroll 14
  use AMdist(su.Year)
  use AMdist2(su.Year)
  ensures result == ite(AM(su.Year-1), 1, ite(AM(su.Year-2), 2, 3))
  ensures[C06] implies(AM(su.Year) && su.Year >= 641, result == 2 || result == 3)
  ensures[C14] deterministic

spec DAVX(y) = ite(AVX(y-1), 1, ite(AVX(y-2), 2, ite(AVX(y-3), 3, ite(AVX(y-4), 4, ite(AVX(y-5), 5, ite(AVX(y-6), 6, ite(AVX(y-7), 7, \
  ite(AVX(y-8), 8, ite(AVX(y-9), 9, ite(AVX(y-10), 10, ite(AVX(y-11), 11, ite(AVX(y-12), 12, ite(AVX(y-13), 13, -1)))))))))))))

func (su) SuriyaYear.DeltaAdhikavara()
  props C07 C14
  requires 660 <= su.Year && su.Year <= 1000000
  requires YOK(su)
  unroll 14
  use AVgap(su.Year)
  ensures result == DAVX(su.Year)
  ensures[C07] implies(!UseExceptions && su.Year <= 3500, 1 <= result && result <= 7)
  ensures[C14] deterministic

func (su) SuriyaYear.YearLength()
  props C08 C14
  requires 642 <= su.Year && su.Year <= 1000000
  requires YOK(su)
  ensures result == LEN(su.Year)
  ensures[C14] deterministic

lemma[C13] CYC57(y) enum 1..1000000: 1 <= fmod(y-1984, 57)+1 && fmod(y-1984, 57)+1 <= 57 && fmod(y+1-1984, 57)+1 == ite(fmod(y-1984, 57)+1 == 57, 1, fmod(y-1984, 57)+2)

func (su) SuriyaYear.AdhikavaraCyclePos()
  props C13 C14
  requires 1 <= su.Year && su.Year <= 1000001
  ensures result == fmod(su.Year - 1984, 57) + 1
  ensures[C14] deterministic

func (su) SuriyaYear.AdhikamasaCyclePos()
  props C13 C14
  requires 1 <= su.Year && su.Year <= 1000001
  ensures result == fmod(su.Year - 1984, 19) + 1
  ensures[C14] deterministic
