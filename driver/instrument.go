package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// rules: per repository package, which imports are redirected to a simulated
// counterpart. Only the import path of a file changes; the counterpart exports
// everything the original package does.
type rule struct {
	dirs    []string          // package directories, "..." suffix allowed
	imports map[string]string // original import -> shim package
}

var shimBase = modPath + "/zzverif/"

var rules = []rule{
	{[]string{"serviceguard/client", "serviceguard/client/walletstore", "serviceguard/common/keypool"}, map[string]string{"sync": "shim/sync"}},
	{[]string{"..."}, map[string]string{"database/sql": "shim/sql", "os": "shim/os", "os/exec": "shim/exec", "io/ioutil": "shim/ioutil", "time": "shim/time", "github.com/cihub/seelog": "shim/seelog"}},
	{[]string{"cryptengine/...", "ctrlengine/...", "protoengine/..."}, map[string]string{"fmt": "shim/fmt"}},
	{[]string{"mix/smtpclient"}, map[string]string{"net/smtp": "shim/smtp", "net": "shim/net"}},
	{[]string{"util/jsonclient", "mix/client"}, map[string]string{"net/http": "shim/http"}},
}

// literals that are replaced: the public key of the configuration server is a
// constant of the program; the simulated server has the key made from 32 bytes
// 0x5a.
var literals = map[string]map[string]string{
	"def": {"13cff7a4f0f2ec57097bb3b99bddf458cc33458e7937787444820e72a62aee1f": hex.EncodeToString(
		ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x5a}, 32)).Public().(ed25519.PublicKey))},
}

func match(dir, pat string) bool {
	if pat == "..." {
		return true
	}
	if strings.HasSuffix(pat, "/...") {
		p := strings.TrimSuffix(pat, "/...")
		return dir == p || strings.HasPrefix(dir, p+"/")
	}
	return dir == pat
}

func instrument(overlay map[string]string) {
	out := filepath.Join(scratch, "instr")
	os.MkdirAll(out, 0755)
	n := 0
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		dir := filepath.Dir(rel)
		repl := map[string]string{}
		for _, r := range rules {
			for _, d := range r.dirs {
				if match(dir, d) {
					for k, v := range r.imports {
						repl[k] = v
					}
				}
			}
		}
		if len(repl) == 0 {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil {
			die("%v", err)
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			shim, ok := repl[path]
			if !ok {
				continue
			}
			text := strconv.Quote(shimBase + shim)
			if im.Name == nil {
				text = filepath.Base(path) + " " + text
			}
			edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, text})
		}
		lit := false
		for from := range literals[dir] {
			lit = lit || bytes.Contains(src, []byte(from))
		}
		if len(edits) == 0 && !lit {
			return nil
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		for _, e := range edits {
			src = []byte(string(src[:e.from]) + e.text + string(src[e.to:]))
		}
		for from, to := range literals[dir] {
			src = bytes.Replace(src, []byte(from), []byte(to), -1)
		}
		n++
		dst := filepath.Join(out, strconv.Itoa(n)+"_"+filepath.Base(p))
		os.WriteFile(dst, src, 0644)
		overlay[p] = dst
		return nil
	})
}
