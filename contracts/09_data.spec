// Embedded files. A file is untouched, or its contents have been decoded.
spec KEY(name) string = clean(name)
spec FILEOK(f) bool = f.size >= 0 && implies(f.isDir, f.size == 0) && implies(f.size != 0, decodes(f.compressed) && len(decoded(f.compressed)) == f.size)
spec FILEINV(f) bool = ite(f.once, ite(f.size == 0, len(f.data) == 0, f.data == decoded(f.compressed)), len(f.data) == 0)
spec BYTES(f) = when(f.size != 0, decoded(f.compressed))

// With useLocal the contents are those of a local file instead.
spec ENTRY(name) = _escData[KEY(name)]
spec READABLE(name, useLocal) bool = has(_escData, KEY(name)) && implies(useLocal, localopens(ENTRY(name).local) && localreads(ENTRY(name).local))
spec CONTENTS(name, useLocal) = cat(when(has(_escData, KEY(name)) && !useLocal, BYTES(ENTRY(name))), \
  when(has(_escData, KEY(name)) && useLocal && localopens(ENTRY(name).local), localbytes(ENTRY(name).local)))

func FSByte(useLocal, name)
  props C19 C20
  requires[C19] !useLocal
  hidden _escData[KEY(name)].once _escData[KEY(name)].data _escData[KEY(name)].name
  invariant implies(has(_escData, KEY(name)), FILEINV(ENTRY(name)))
  invariant implies(has(_escData, KEY(name)), FILEOK(ENTRY(name)))
  ensures isnil(result1) == READABLE(name, useLocal)
  ensures[C19] result0 == CONTENTS(name, useLocal)
  ensures[C20] implies(isnil(result1) || !has(_escData, KEY(name)), result0 == CONTENTS(name, useLocal))

func FSMustByte(useLocal, name)
  props C20
  panics !READABLE(name, useLocal)
  ensures READABLE(name, useLocal)
  ensures result == CONTENTS(name, useLocal)

func FSString(useLocal, name)
  props C20
  ensures isnil(result1) == READABLE(name, useLocal)
  ensures implies(isnil(result1) || !has(_escData, KEY(name)), result0 == text(CONTENTS(name, useLocal)))

func FSMustString(useLocal, name)
  props C20
  panics !READABLE(name, useLocal)
  ensures READABLE(name, useLocal)
  ensures result == text(CONTENTS(name, useLocal))

// What is embedded: evaluated from the literal, entry by entry.
lemma[C19,C20,C22,C24] EMBEDDED(x) files _escData data: true

// The recorded moons of a year, and those of them inside the range.
spec FILEOF(y) string = "/data/astro/astro-" + itoa(y) + ".json"
spec RAW(y) = when(has(_escData, FILEOF(y)), BYTES(_escData[FILEOF(y)]))
spec YEARDATA(y) = unjson(AerisResp, RAW(y))
spec USABLE(y) bool = has(_escData, FILEOF(y)) && YEARDATA(y).Success && len(YEARDATA(y).Error.Code) == 0
spec INRANGE(t, a, b) bool = ns(a) <= ns(t) && ns(t) <= ns(b)
spec PHASE(c) string = ite(c == 0, "new", ite(c == 1, "waxing", ite(c == 2, "full", "waning")))
spec RECORDED(y, i) = YEARDATA(y).Response[i]

func GetAstroMoons(fromDate, toDate)
  props C19
  requires !useLocal
  requires forall(y, year(fromDate), year(toDate)+1, implies(has(_escData, FILEOF(y)), isjson(RAW(y))))
  requires forall(y, year(fromDate), year(toDate)+1, implies(USABLE(y), forall(i, 0, len(YEARDATA(y).Response), 0 <= RECORDED(y, i).Code && RECORDED(y, i).Code <= 3)))
  ensures elemutc(result)
  ensures result == gen(k, year(toDate)-year(fromDate)+1, when(USABLE(year(fromDate)+k), gen(i, len(YEARDATA(year(fromDate)+k).Response), when(INRANGE(RECORDED(year(fromDate)+k, i).DateTimeISO, fromDate, toDate), one(AstroMoon{Phase: PHASE(RECORDED(year(fromDate)+k, i).Code), Date: toutc(RECORDED(year(fromDate)+k, i).DateTimeISO)})))))
