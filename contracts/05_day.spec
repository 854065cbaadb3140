// A day of the lunar year.
spec opaque EL(y, d) = d - T(y)
spec opaque DH(y, d) = H(y) + EL(y, d)
spec DK(y, d) = K(y) + 800*EL(y, d)
// mean Sun in units of 0.0001 degree
spec MSUN(y, d) = floor(real((floor(real(21600*DK(y, d))/292207) - 3)*10000)/60)
spec APO(y, d) = real(90*(UCC(H(y)) + EL(y, d)))/808 + 2.0/60
// true Sun: floor(q) arcminutes are added; q, 134 sines, is known to 1e-9
// a is x cut down to four decimals
spec CUT(a, x) bool = -0.000100001 <= a - x && a - x <= 0.000000001
spec SUNADD(dif, q) bool = CUT(dif, real(floor(q + 0.000000001))/60) || CUT(dif, real(floor(q - 0.000000001))/60)
spec OFFA(a, x, k) bool = abs(a - x - 360*k) <= 0.0000001
spec MODEQ(a, x) bool = OFFA(a, x, 0) || OFFA(a, x, 1) || OFFA(a, x, 0-1) || OFFA(a, x, 0-2) || OFFA(a, x, 2)
spec MODCUT(a, x) bool = CUT(a, x) || CUT(a, x + 360) || CUT(a, x - 360)


func (s) SuriyaDay.Init(y, d)
  props C02 C03 C04 C14
  inline DegreeToRal RalToDegree NormalizeDegree
  requires 638 <= y && y <= 1000000
  requires 1 <= d && d <= 400
  modifies s.Year s.BE_Year s.CS_Year s.Day s.Horakhun s.Kammacubala s.Uccabala s.Avoman s.Masaken s.Tithi s.MeanSun s.TrueSun s.MeanMoon s.TrueMoon s.Raek
  ensures s.Year == y
  ensures s.BE_Year == y + 543
  ensures s.CS_Year == y - 638
  ensures s.Day == d
  ensures s.Horakhun == DH(y, d)
  ensures s.Kammacubala == DK(y, d)
  ensures s.Uccabala == UCC(DH(y, d))
  ensures s.Avoman == AVOH(DH(y, d))
  ensures s.Masaken == MASH(DH(y, d))
  ensures s.Tithi == TITH(DH(y, d))
  ensures[C03] abs(s.MeanSun*10000 - MSUN(y, d)) <= 0.000001
  ensures[C03] SUNADD(s.TrueSun - s.MeanSun, 134*sine(abs(s.MeanSun - 80)))
  ensures[C04] 0 <= s.MeanMoon && s.MeanMoon <= 360
  ensures[C04] MODEQ(s.MeanMoon, s.TrueSun + real(AVOH(DH(y, d)) + fdiv(AVOH(DH(y, d)), 25))/60 + 12*TITH(DH(y, d)) - 0.6666)
  ensures[C04] 0 <= s.TrueMoon && s.TrueMoon <= 360
  ensures[C04] MODCUT(s.TrueMoon, s.MeanMoon - 296.0/60*sine(s.MeanMoon - APO(y, d)))
  ensures[C04] abs(s.Raek - (1 + s.TrueMoon/13.3333)) <= 0.0000001
  ensures[C04] 1 <= s.Raek && s.Raek <= 28.0001
  ensures[C14] deterministic
