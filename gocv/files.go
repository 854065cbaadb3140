package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"
)

// checkFiles evaluates, entry by entry, the literal of a package map of
// embedded files: every file of the directory has an entry whose text decodes
// to the file's contents, an entry of anything else is an empty directory, the
// names are clean, nothing but the recorded fields is set, and the JSON data
// is what its reader relies on. It returns the number of entries and what
// fails.
func (v *Verifier) checkFiles(l *Lemma) (int64, string) {
	gv, ok := v.p.pkg.Scope().Lookup(l.files).(*types.Var)
	if !ok {
		return 0, "no variable " + l.files
	}
	lit, ok := v.p.ginit[gv].(*ast.CompositeLit)
	if !ok || v.p.gwrit[gv] || v.p.iwrit[gv] {
		return 0, l.files + " is not a literal that is never assigned"
	}
	val := func(e ast.Expr) constant.Value { return v.p.info.Types[e].Value }
	seen := map[string]bool{}
	n := int64(0)
	for _, e := range lit.Elts {
		kv := e.(*ast.KeyValueExpr)
		kc := val(kv.Key)
		if kc == nil || kc.Kind() != constant.String {
			return n, "a name that is not constant"
		}
		key := constant.StringVal(kc)
		x := ast.Unparen(kv.Value)
		if un, ok := x.(*ast.UnaryExpr); ok && un.Op == token.AND {
			x = un.X
		}
		cl, ok := x.(*ast.CompositeLit)
		if !ok {
			return n, key + ": not a literal"
		}
		var text, local string
		var size int64
		dir := false
		for _, f := range cl.Elts {
			fkv, ok := f.(*ast.KeyValueExpr)
			if !ok {
				return n, key + ": fields without names"
			}
			c := val(fkv.Value)
			if c == nil {
				return n, key + ": a field that is not constant"
			}
			switch name := fkv.Key.(*ast.Ident).Name; name {
			case "compressed":
				text = constant.StringVal(c)
			case "size":
				size, _ = constant.Int64Val(c)
			case "isDir":
				dir = constant.BoolVal(c)
			case "local":
				local = constant.StringVal(c)
			case "modtime":
			default:
				return n, key + ": the field " + name + " is set from the start"
			}
		}
		if path.Clean(key) != key {
			return n, key + ": not a clean name, so never found"
		}
		if want := path.Join(".", key); local != want && (v.prop == "C24" || v.prop == "C20" && !dir) {
			return n, fmt.Sprintf("%s: the local file is %q, not %q", key, local, want)
		}
		seen[key] = true
		n++
		file := filepath.Join(v.p.dir, filepath.FromSlash(key))
		fi, err := os.Stat(file)
		if err != nil {
			return n, key + ": no such file or directory"
		}
		if fi.IsDir() != dir {
			return n, key + ": a directory or not?"
		}
		if dir {
			if size != 0 || text != "" {
				return n, key + ": a directory with contents"
			}
			continue
		}
		want, err := os.ReadFile(file)
		if err != nil {
			return n, err.Error()
		}
		if size != int64(len(want)) {
			return n, key + ": its recorded size is not that of the file"
		}
		if size == 0 {
			continue
		}
		gr, err := gzip.NewReader(base64.NewDecoder(base64.StdEncoding, strings.NewReader(text)))
		if err != nil {
			return n, key + ": " + err.Error()
		}
		got, err := io.ReadAll(gr)
		if err != nil {
			return n, key + ": " + err.Error()
		}
		if !bytes.Equal(got, want) {
			return n, key + ": the embedded contents differ from the file"
		}
		if strings.HasSuffix(key, ".json") {
			var d struct {
				Success  bool
				Error    struct{ Code, Description string }
				Response []struct {
					Timestamp   int
					DateTimeISO time.Time
					Code        int
					Name        string
				}
			}
			if err := json.Unmarshal(got, &d); err != nil {
				return n, key + ": " + err.Error()
			}
			for _, r := range d.Response {
				if r.Code < 0 || r.Code > 3 {
					return n, fmt.Sprintf("%s: code %d", key, r.Code)
				}
			}
		}
	}
	miss := ""
	filepath.Walk(filepath.Join(v.p.dir, l.dir), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !strings.HasPrefix(fi.Name(), ".") {
			rel, _ := filepath.Rel(v.p.dir, p)
			if k := "/" + filepath.ToSlash(rel); !seen[k] {
				miss = k + ": not embedded"
			}
		}
		return nil
	})
	return n, miss
}
