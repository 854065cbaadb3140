package suriya

import (
	"bytes"
	"io/ioutil"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
)

// local runs f in a scratch directory with a data directory of its own, with
// some of the embedded files, and counts the files f leaves open.
func (h *hx) local(f func()) {
	old, err := os.Getwd()
	if err != nil {
		return
	}
	dir, err := os.MkdirTemp("", "suriya-local")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	if os.Chdir(dir) != nil {
		return
	}
	defer os.Chdir(old)
	os.MkdirAll("data/astro", 0755)
	for y := 1899; y < 1960; y += 1 + y%3 {
		b := bytes.Repeat([]byte(strconv.Itoa(y)), y%7*40)
		edge := []string{"", "\xef\xbb\xbf", "\n", "\r\n", " ", "\x00", "{", "\xff", "\t"}
		b = append(append([]byte(edge[h.rng.Intn(len(edge))]), b...), edge[h.rng.Intn(len(edge))]...)
		os.WriteFile("data/astro/astro-"+strconv.Itoa(y)+".json", b, 0644)
	}
	fds := func() int {
		d, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			return 0
		}
		return len(d)
	}
	gc := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(gc)
	n := fds()
	f()
	if m := fds(); m > n {
		h.in("the readings with useLocal")
		h.fail("files left open", 0, m-n)
	}
}

// localFile gives some spelling of a name, the local file it stands for, and
// that file's contents, if it exists and the name is an embedded one.
func (h *hx) localFile() (name, loc string, b []byte, ok bool) {
	y := 1890 + h.rng.Intn(80)
	loc = "data/astro/astro-" + strconv.Itoa(y) + ".json"
	if h.rng.Intn(12) == 0 {
		loc = "data/astro/other.json"
	}
	name = "/" + loc
	switch h.rng.Intn(6) {
	case 0:
		name = "//" + loc
	case 1:
		name = "/x/../" + loc
	case 2:
		name = "/" + loc + "/."
	case 3:
		if h.rng.Intn(3) == 0 {
			return loc, loc, nil, false
		}
	}
	if _, known := _escData["/"+loc]; !known {
		return name, loc, nil, false
	}
	b, err := os.ReadFile(loc)
	return name, loc, b, err == nil
}

func (h *hx) embedded() {
	disk, _ := filepath.Glob("data/astro/*.json")
	if len(disk) < 100 {
		disk = nil
		for y := 1900; y <= 2100; y++ {
			disk = append(disk, "data/astro/astro-"+strconv.Itoa(y)+".json")
		}
	}
	want := map[string][]byte{}
	var names []string
	for _, d := range disk {
		b, err := os.ReadFile(d)
		if err != nil {
			continue
		}
		n := "/" + d
		names = append(names, n)
		want[n] = b
	}
	variant := func(n string) string {
		switch h.rng.Intn(5) {
		case 0:
			return "//" + n[1:]
		case 1:
			return "/data/./astro/" + filepath.Base(n)
		case 2:
			return "/data/astro/../astro/" + filepath.Base(n)
		case 3:
			return "/x/.." + n
		}
		return n
	}
	bad := []string{"", "/", ".", "astro-1990.json", "data/astro/astro-1990.json", "/data/astro/astro-1990.json.gz", "/data/astro/astro-990.json", "/DATA/astro/astro-1990.json", "/data/astro/astro-1990.json/x", "/data/astro/ASTRO-1990.json", "/data/astro/astro-99999.json", "/../../etc/passwd"}
	must := func(f func() []byte) (b []byte, panicked bool) {
		defer func() {
			if r := recover(); r != nil {
				b, panicked = nil, true
			}
		}()
		return f(), false
	}
	one := func(name string, w []byte, known bool, acc int) {
		h.in("accessor %d (FSByte, FSMustByte, FSString, FSMustString) of %q", acc, name)
		var b []byte
		var failed bool
		switch acc {
		case 0:
			x, err := FSByte(false, name)
			b, failed = x, err != nil
		case 1:
			b, failed = must(func() []byte { return FSMustByte(false, name) })
		case 2:
			x, err := FSString(false, name)
			b, failed = []byte(x), err != nil
		case 3:
			b, failed = must(func() []byte { return []byte(FSMustString(false, name)) })
		}
		if failed == known {
			h.fail("error or panic", !known, failed)
		}
		if !known && len(b) != 0 {
			h.fail("contents of an unknown name", "none", len(b))
		}
		if known && !bytes.Equal(b, w) {
			h.fail("contents", strconv.Itoa(len(w))+" bytes as in the data directory", strconv.Itoa(len(b))+" bytes")
		}
	}
	h.local(func() {
		for i := 0; i < h.n(1200); i++ {
			n, loc, b, ok := h.localFile()
			acc := h.rng.Intn(4)
			h.in("accessor %d (FSByte, FSMustByte, FSString, FSMustString) of %q with useLocal, the local file %q %s", acc, n, loc, map[bool]string{true: "holds " + strconv.Itoa(len(b)) + " bytes", false: "does not exist"}[ok])
			var g []byte
			var failed bool
			switch acc {
			case 0:
				x, err := FSByte(true, n)
				g, failed = x, err != nil
			case 1:
				g, failed = must(func() []byte { return FSMustByte(true, n) })
			case 2:
				x, err := FSString(true, n)
				g, failed = []byte(x), err != nil
			case 3:
				g, failed = must(func() []byte { return []byte(FSMustString(true, n)) })
			}
			if failed == ok {
				h.fail("error or panic", !ok, failed)
			}
			if !bytes.Equal(g, b) {
				h.fail("contents", "the local file's", strconv.Itoa(len(g))+" other bytes")
			}
		}
	})
	for _, n := range names {
		f := h.rng.Intn(4)
		for i := 0; i < 6; i++ {
			one(variant(n), want[n], true, (f+i)%4)
		}
	}
	for i := 0; i < h.n(4000); i++ {
		if n := bad[h.rng.Intn(len(bad))]; h.rng.Intn(6) == 0 {
			if n == "/" || n == "." || n == "" {
				continue
			}
			one(n, nil, false, h.rng.Intn(4))
			continue
		}
		n := names[h.rng.Intn(len(names))]
		one(variant(n), want[n], true, h.rng.Intn(4))
	}
}

// opened: the embedded files through the file systems FS and Dir.
func (h *hx) opened() {
	type ent struct {
		name string
		data []byte
		dir  bool
	}
	var all []ent
	disk, _ := filepath.Glob("data/astro/*.json")
	for _, d := range disk {
		if b, err := os.ReadFile(d); err == nil {
			all = append(all, ent{"/" + d, b, false})
		}
	}
	nf := len(all)
	mod := map[string]int{}
	src, _ := os.ReadFile("data.go")
	for _, m := range regexp.MustCompile(`"(/[^"]*)": \{[^{}]*?modtime:\s*(\d+)`).FindAllStringSubmatch(string(src), -1) {
		mod[m[1]], _ = strconv.Atoi(m[2])
	}
	for _, d := range []string{"/data", "/data/astro"} {
		all = append(all, ent{d, nil, true})
	}
	if nf == 0 {
		return
	}
	bad := []string{"", ".", "astro-1990.json", "data/astro/astro-1990.json", "/data/astro/astro-1990.json.gz", "/DATA/astro/astro-1990.json", "/data/astro/astro-1990.json/x", "/data/astro/astro-99999.json", "/../../etc/passwd"}
	spell := func(n string) string {
		switch h.rng.Intn(8) {
		case 0:
			return "//" + n[1:]
		case 1:
			return "/data/./.." + n
		case 2:
			return "/x/.." + n
		case 3:
			return n + "/"
		case 4:
			return n + "/."
		case 5:
			return n + "/x/.."
		}
		return n
	}
	h.local(func() {
		for i := 0; i < h.n(1200); i++ {
			n, loc, b, ok := h.localFile()
			fs, k := FS(true), h.rng.Intn(len(n)+2)
			h.in("open %q in FS with useLocal, the local file is %q", n, loc)
			if k <= len(n) {
				h.in("open %q in Dir %q with useLocal, the local file is %q", n[k:], n[:k], loc)
				fs, n = Dir(true, n[:k]), n[k:]
			}
			f, err := fs.Open(n)
			h.eqb("opened", err == nil, ok)
			if err != nil {
				continue
			}
			g, _ := ioutil.ReadAll(f)
			if !bytes.Equal(g, b) {
				h.fail("contents", "the local file's", strconv.Itoa(len(g))+" other bytes")
			}
			f.Close()
		}
		for _, d := range []string{"/", "/data", "/data/astro"} {
			h.in("open %q in FS with useLocal", d)
			f, err := FS(true).Open(d)
			if err != nil {
				h.fail("directory", "opened", err)
			}
			fi, err := f.Stat()
			w, _ := os.Stat("." + d)
			f.Close()
			if err != nil || !os.SameFile(fi, w) {
				h.fail("directory", "that below the working directory", "another")
			}
		}
	})
	open := func(n string) http.File {
		var f http.File
		var err error
		h.in("open %q", n)
		if k := h.rng.Intn(len(n) + 2); k <= len(n) {
			h.in("open %q in Dir %q", n[k:], n[:k])
			f, err = Dir(false, n[:k]).Open(n[k:])
		} else {
			f, err = FS(false).Open(n)
		}
		if err != nil {
			return nil
		}
		return f
	}
	type handle struct {
		f   http.File
		e   ent
		off int
	}
	var hs []handle
	for i := 0; i < h.n(12000); i++ {
		switch k := h.rng.Intn(10); {
		case k == 0:
			if open(bad[h.rng.Intn(len(bad))]) != nil {
				h.fail("file", "an error", "a file")
			}
		case k < 4 || len(hs) == 0:
			e := all[h.rng.Intn(len(all))]
			if h.rng.Intn(2) == 0 && len(hs) > 0 {
				e = hs[h.rng.Intn(len(hs))].e
			}
			if i < len(all) {
				e = all[i]
			}
			f := open(spell(e.name))
			if f == nil {
				h.fail("file", "a file", "an error")
			}
			fi, err := f.Stat()
			if err != nil {
				h.fail("Stat", nil, err)
			}
			h.eqb("directory", fi.IsDir(), e.dir)
			if w := path.Base(e.name); fi.Name() != w {
				h.fail("name", w, fi.Name())
			}
			h.eq("size", int(fi.Size()), len(e.data))
			if m, ok := mod[e.name]; ok {
				h.eq("modification time", int(fi.ModTime().Unix()), m)
			}
			if fi.Mode() != 0 {
				h.fail("mode", 0, fi.Mode())
			}
			hs = append(hs, handle{f, e, 0})
		default:
			k := h.rng.Intn(len(hs))
			x := &hs[k]
			h.in("reading %q, %d other files open", x.e.name, len(hs)-1)
			var b []byte
			if h.rng.Intn(2) == 0 {
				b = make([]byte, h.rng.Intn(3000))
				n, _ := x.f.Read(b)
				b = b[:n]
			} else {
				b, _ = ioutil.ReadAll(x.f)
				if len(b) != len(x.e.data)-x.off {
					h.fail("bytes read", len(x.e.data)-x.off, len(b))
				}
			}
			if x.off+len(b) > len(x.e.data) || !bytes.Equal(b, x.e.data[x.off:x.off+len(b)]) {
				h.fail("contents", "the file's", "other bytes")
			}
			x.off += len(b)
			if x.off >= len(x.e.data) || h.rng.Intn(8) == 0 {
				if err := x.f.Close(); err != nil {
					h.fail("Close", nil, err)
				}
				hs = append(hs[:k], hs[k+1:]...)
			}
		}
	}
}
