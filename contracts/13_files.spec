// The embedded files as a file system, as client code sees it (13_files.client).
// A name that has been read or opened is the last element of the clean name,
// however it was spelled.
spec NAMED(name) bool = implies(has(_escData, KEY(name)) && ENTRY(name).once, ENTRY(name).name == base(KEY(name)))

func gocvRead(name)
  props C24
  hidden _escData[KEY(name)].once _escData[KEY(name)].data _escData[KEY(name)].name
  invariant implies(has(_escData, KEY(name)), FILEINV(ENTRY(name)))
  invariant implies(has(_escData, KEY(name)), FILEOK(ENTRY(name)))
  invariant NAMED(name)
  ensures isnil(result1) == has(_escData, KEY(name))
  ensures result0 == when(has(_escData, KEY(name)), BYTES(ENTRY(name)))

func gocvReadBelow(prefix, name)
  props C24
  hidden _escData[KEY(prefix+name)].once _escData[KEY(prefix+name)].data _escData[KEY(prefix+name)].name
  invariant implies(has(_escData, KEY(prefix+name)), FILEINV(ENTRY(prefix+name)))
  invariant implies(has(_escData, KEY(prefix+name)), FILEOK(ENTRY(prefix+name)))
  invariant NAMED(prefix+name)
  ensures isnil(result1) == has(_escData, KEY(prefix+name))
  ensures result0 == when(has(_escData, KEY(prefix+name)), BYTES(ENTRY(prefix+name)))

func gocvReadTwo(name, other)
  props C24
  checkonly
  requires KEY(name) != KEY(other)
  hidden _escData[KEY(name)].once _escData[KEY(name)].data _escData[KEY(name)].name
  hidden _escData[KEY(other)].once _escData[KEY(other)].data _escData[KEY(other)].name
  invariant implies(has(_escData, KEY(name)), FILEINV(ENTRY(name)))
  invariant implies(has(_escData, KEY(name)), FILEOK(ENTRY(name)))
  invariant NAMED(name)
  invariant implies(has(_escData, KEY(other)), FILEINV(ENTRY(other)))
  invariant implies(has(_escData, KEY(other)), FILEOK(ENTRY(other)))
  invariant NAMED(other)
  ensures isnil(result3) == (has(_escData, KEY(name)) && has(_escData, KEY(other)))
  ensures implies(isnil(result3), result0 == BYTES(ENTRY(name)) && result1 == BYTES(ENTRY(other)) && len(result2) == 0)

func gocvReadAgain(name)
  props C24
  hidden _escData[KEY(name)].once _escData[KEY(name)].data _escData[KEY(name)].name
  invariant implies(has(_escData, KEY(name)), FILEINV(ENTRY(name)))
  invariant implies(has(_escData, KEY(name)), FILEOK(ENTRY(name)))
  invariant NAMED(name)
  ensures isnil(result3) == has(_escData, KEY(name))
  ensures implies(isnil(result3), result0 == BYTES(ENTRY(name)) && result1 == BYTES(ENTRY(name)) && len(result2) == 0)

// Reading with an accessor first leaves what opening finds.
func gocvAccess(name)
  props C24
  hidden _escData[KEY(name)].once _escData[KEY(name)].data _escData[KEY(name)].name
  invariant implies(has(_escData, KEY(name)), FILEINV(ENTRY(name)))
  invariant implies(has(_escData, KEY(name)), FILEOK(ENTRY(name)))
  invariant NAMED(name)

func gocvStat(path)
  props C24
  hidden _escData[KEY(path)].once _escData[KEY(path)].data _escData[KEY(path)].name
  invariant implies(has(_escData, KEY(path)), FILEINV(ENTRY(path)))
  invariant implies(has(_escData, KEY(path)), FILEOK(ENTRY(path)))
  invariant NAMED(path)
  ensures isnil(result5) == has(_escData, KEY(path))
  ensures implies(has(_escData, KEY(path)), result0 == ENTRY(path).size && result1 == ENTRY(path).modtime && result2 == ENTRY(path).isDir && result3 && result4 == base(KEY(path)))

func gocvStatBelow(prefix, path)
  props C24
  hidden _escData[KEY(prefix+path)].once _escData[KEY(prefix+path)].data _escData[KEY(prefix+path)].name
  invariant implies(has(_escData, KEY(prefix+path)), FILEINV(ENTRY(prefix+path)))
  invariant implies(has(_escData, KEY(prefix+path)), FILEOK(ENTRY(prefix+path)))
  invariant NAMED(prefix+path)
  ensures isnil(result5) == has(_escData, KEY(prefix+path))
  ensures implies(has(_escData, KEY(prefix+path)), result0 == ENTRY(prefix+path).size && result1 == ENTRY(prefix+path).modtime && result2 == ENTRY(prefix+path).isDir && result3 && result4 == base(KEY(prefix+path)))

// The same with the local files.
func gocvReadLocal(name)
  props C24
  ensures isnil(result1) == READABLE(name, true)
  ensures implies(isnil(result1), result0 == localbytes(ENTRY(name).local))

func gocvReadLocalBelow(prefix, name)
  props C24
  ensures isnil(result1) == READABLE(prefix+name, true)
  ensures implies(isnil(result1), result0 == localbytes(ENTRY(prefix+name).local))
