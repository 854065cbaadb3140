// The integer reckoning of the Suriya Siddhanta calendar, as in the properties.
spec A0(y) = 292207*(y-638) + 373
spec opaque H(y) = fdiv(A0(y), 800) + 1
spec opaque K(y) = 800 - fmod(A0(y), 800)
spec UCC(h) = fmod(h + 2611, 3232)
spec AVOH(h) = fmod(11*h + 650, 692)
spec NH(h) = h + fdiv(11*h + 650, 692)
spec MASH(h) = fdiv(NH(h), 30)
spec TITH(h) = fmod(NH(h), 30)
spec opaque AVO(y) = AVOH(H(y))
  auto 0 <= AVO(y) && AVO(y) <= 691
spec opaque T(y) = TITH(H(y))
  auto 0 <= T(y) && T(y) <= 29

// a year value that Init has produced
spec YOK(s) = s.BE_Year == s.Year + 543 && s.CS_Year == s.Year - 638 && s.Horakhun == H(s.Year) && s.Kammacubala == K(s.Year) && s.Uccabala == UCC(H(s.Year)) && s.Avoman == AVO(s.Year) && s.Masaken == MASH(H(s.Year)) && s.Tithi == T(s.Year)

func (su) SuriyaYear.Init(y)
  props C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C14 C15 C16
  requires 638 <= y && y <= 1000100
  modifies su.Year su.BE_Year su.CS_Year su.Horakhun su.Kammacubala su.Uccabala su.Avoman su.Masaken su.Tithi
  ensures su.Year == y
  ensures su.BE_Year == y + 543
  ensures su.CS_Year == y - 638
  ensures su.Horakhun == H(y)
  ensures su.Kammacubala == K(y)
  ensures su.Uccabala == UCC(H(y))
  ensures su.Avoman == AVO(y)
  ensures su.Masaken == MASH(H(y))
  ensures su.Tithi == T(y)
  ensures[C14] deterministic

func (su) SuriyaYear.SuriyaValuesString()
  props C01 C14
  ensures[C01] result == "CE: " + itoa(su.Year) + "\nBE: " + itoa(su.BE_Year) + "\nCS: " + itoa(su.CS_Year) + "\nHorakhun: " + itoa(su.Horakhun) + "\nKammacubala: " + itoa(su.Kammacubala) + "\nUccabala: " + itoa(su.Uccabala) + "\nAvoman: " + itoa(su.Avoman) + "\nMasaken: " + itoa(su.Masaken) + "\nTithi: " + itoa(su.Tithi) + "\n"
  ensures[C14] deterministic
