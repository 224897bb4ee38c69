package mv

import (
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/scanner"
	"go/token"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"
)

// The numbers and strings that the library's own source mentions. Workloads use them more often than chance
// would, so that behaviour which hangs on one special value is met. They only steer the workloads: every
// verdict is the oracles', whatever the dictionary holds, and it may hold nothing.

// words are the literals of some source.
type words struct {
	ints    []uint64
	floats  []float64
	strings []string
	novel   *words // those that were not there when the harness was made
}

// dictBase is what the dictionary held then: the words of each source, in text form.
//
//go:embed dict_base.json
var dictBase []byte

var (
	dictCore  words             // the root package, util and cmd
	dictTypes map[string]*words // per message type, "dialect.Type" in lower case: those of its source file
)

func init() {
	dictTypes = map[string]*words{}
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	for _, d := range []string{"", "util", "cmd"} {
		files, _ := filepath.Glob(filepath.Join(dir, d, "*.go"))
		for _, f := range files {
			if !strings.HasSuffix(f, "_test.go") {
				w, _ := literals(f, nil)
				dictCore.add(w)
			}
		}
	}
	dictCore.tidy()
	base := map[string][]string{}
	json.Unmarshal(dictBase, &base)
	dictCore.since(base[""])
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(dir, e.Name(), "*.go"))
		named := map[string]uint64{}
		for _, f := range files {
			if filepath.Base(f) == "enums.go" {
				literals(f, named)
			}
		}
		for _, f := range files {
			if b := filepath.Base(f); b == "enums.go" || b == "dialect.go" || strings.HasSuffix(b, "_test.go") {
				continue
			}
			w, types := literals(f, named)
			w.tidy()
			for _, t := range types {
				name := strings.ToLower(e.Name() + "." + t)
				dictTypes[name] = w
				if w.novel == nil {
					w.since(base[name])
				}
			}
		}
	}
	if f := os.Getenv("VERIF_DICT_OUT"); f != "" { // tools/gen_dict.sh
		base = map[string][]string{"": dictCore.text()}
		for t, w := range dictTypes {
			base[t] = w.text()
		}
		b, _ := json.MarshalIndent(base, "", " ")
		if err := os.WriteFile(f, b, 0o644); err != nil {
			panic(err)
		}
	}
}

// text gives the words as text.
func (w *words) text() (l []string) {
	for _, x := range w.ints {
		l = append(l, fmt.Sprint(x))
	}
	for _, x := range w.floats {
		l = append(l, fmt.Sprintf("%gf", x))
	}
	for _, x := range w.strings {
		l = append(l, fmt.Sprintf("%q", x))
	}
	slices.Sort(l)
	return
}

// since sets apart the words that are not in the list.
func (w *words) since(l []string) {
	w.novel = &words{}
	old := map[string]bool{}
	for _, x := range l {
		old[x] = true
	}
	for _, x := range w.ints {
		if !old[fmt.Sprint(x)] {
			w.novel.ints = append(w.novel.ints, x)
		}
	}
	for _, x := range w.floats {
		if !old[fmt.Sprintf("%gf", x)] {
			w.novel.floats = append(w.novel.floats, x)
		}
	}
	for _, x := range w.strings {
		if !old[fmt.Sprintf("%q", x)] {
			w.novel.strings = append(w.novel.strings, x)
		}
	}
}

// more says how much more often than usual the words are worth trying: some of them are new.
func (w *words) more() int {
	if w.novel != nil && len(w.novel.ints)+len(w.novel.floats)+len(w.novel.strings) > 0 {
		return 3
	}
	return 1
}

// from is the words, or only the new ones.
func (w *words) from(r *rand.Rand) *words {
	if w.more() > 1 && r.IntN(4) > 0 {
		return w.novel
	}
	return w
}

func (w *words) add(o *words) {
	w.ints = append(w.ints, o.ints...)
	w.floats = append(w.floats, o.floats...)
	w.strings = append(w.strings, o.strings...)
}

// tidy drops what is there twice.
func (w *words) tidy() {
	si, ss, sf := map[uint64]bool{}, map[string]bool{}, map[float64]bool{}
	i, s, f := w.ints, w.strings, w.floats
	w.ints, w.strings, w.floats = nil, nil, nil
	for _, x := range i {
		if !si[x] {
			si[x] = true
			w.ints = append(w.ints, x)
		}
	}
	for _, x := range s {
		if !ss[x] {
			ss[x] = true
			w.strings = append(w.strings, x)
		}
	}
	for _, x := range f {
		if !sf[x] {
			sf[x] = true
			w.floats = append(w.floats, x)
		}
	}
}

// literals scans a file for literals and the types it declares. With a map of named constants, names found there
// count as their values; of a file of constants, the map is filled in.
func literals(file string, named map[string]uint64) (*words, []string) {
	w := &words{}
	var types []string
	src, err := os.ReadFile(file)
	if err != nil {
		return w, nil
	}
	fill := filepath.Base(file) == "enums.go"
	fset := token.NewFileSet()
	var s scanner.Scanner
	s.Init(fset.AddFile(file, fset.Base(), len(src)), src, func(token.Position, string) {}, 0)
	var prev, name string
	var neg, shl bool
	for {
		_, tok, lit := s.Scan()
		switch tok {
		case token.EOF:
			return w, types
		case token.IDENT:
			if prev == "type" {
				types = append(types, lit)
			}
			if fill {
				if prev != "IDENT" {
					name = lit
				}
			} else if v, ok := named[lit]; ok {
				w.ints = append(w.ints, v)
			}
			prev = "IDENT"
			continue
		case token.INT, token.CHAR, token.FLOAT:
			c := constant.MakeFromLiteral(lit, tok, 0)
			if u, ok := constant.Uint64Val(constant.ToInt(c)); ok {
				if fill {
					named[name] = u
				}
				if shl && len(w.ints) > 0 && u < 64 {
					w.ints = append(w.ints, w.ints[len(w.ints)-1]<<u)
				}
				w.ints = append(w.ints, u)
				if neg {
					w.ints = append(w.ints, -u)
				}
			}
			if tok == token.FLOAT {
				x, _ := constant.Float64Val(c)
				w.floats = append(w.floats, x)
				if neg {
					w.floats = append(w.floats, -x)
				}
			}
		case token.STRING:
			if c := constant.MakeFromLiteral(lit, tok, 0); c.Kind() == constant.String {
				if t := constant.StringVal(c); len(t) < 200 {
					w.strings = append(w.strings, t)
				}
			}
		}
		neg, shl = tok == token.SUB, tok == token.SHL
		prev = tok.String()
	}
}

// int gives one of the numbers no greater than most, or a neighbour of it.
func (w *words) int(r *rand.Rand, most uint64) (uint64, bool) {
	for range 4 {
		w := w.from(r)
		if len(w.ints) == 0 {
			continue
		}
		u := w.ints[r.IntN(len(w.ints))]
		switch r.IntN(8) {
		case 0:
			u++
		case 1:
			u--
		}
		if u <= most {
			return u, true
		}
	}
	return 0, false
}

// sprinkle writes some of the words into the bytes.
func (w *words) sprinkle(r *rand.Rand, b []byte) {
	for k := 1 + r.IntN(3); k > 0; k-- {
		var x []byte
		w := w.from(r)
		if len(w.strings) > 0 && r.IntN(4) == 0 {
			x = []byte(w.strings[r.IntN(len(w.strings))])
		} else if u, ok := w.int(r, math.MaxUint64); ok {
			x = binary.LittleEndian.AppendUint64(nil, u)[:1<<r.IntN(4)]
			if r.IntN(4) == 0 {
				for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
					x[i], x[j] = x[j], x[i]
				}
			}
		}
		if len(b) > 0 {
			at := 0
			if r.IntN(4) > 0 {
				at = r.IntN(len(b))
			}
			copy(b[at:], x)
		}
	}
}

// fields writes some of the words into the fields of a full payload.
func (w *words) fields(r *rand.Rand, m pmsg, b []byte) {
	most := 1 + r.IntN(2)
	if r.IntN(4) == 0 {
		most = 1 << 20 // all the fields
	}
	n := 0
	for _, f := range m.Fields {
		n += f.N()
	}
	if n == 0 {
		return
	}
	pick := map[int]bool{}
	for range min(most, n) {
		pick[r.IntN(n)] = true
	}
	at, i := 0, 0
	for _, f := range m.Fields {
		e := f.Elem()
		for range f.N() {
			if pick[i] || most > n {
				w.elem(r, f.Type, b[at:at+e])
			}
			at += e
			i++
		}
	}
}

func (w *words) elem(r *rand.Rand, typ string, x []byte) {
	u, ok := w.int(r, math.MaxUint64)
	v := float64(u)
	if int64(u) < 0 {
		v = float64(int64(u))
	}
	w = w.from(r)
	if len(w.floats) > 0 && r.IntN(2) == 0 {
		v, ok = w.floats[r.IntN(len(w.floats))], true
	}
	switch {
	case !ok:
	case typ == "float32":
		if r.IntN(3) == 0 {
			v = -v
		}
		binary.LittleEndian.PutUint32(x, math.Float32bits(float32(v)))
	case typ == "float64":
		if r.IntN(3) == 0 {
			v = -v
		}
		binary.LittleEndian.PutUint64(x, math.Float64bits(v))
	default:
		copy(x, binary.LittleEndian.AppendUint64(nil, u))
	}
}

// dictOf gives the words of a message type's source file.
func dictOf(m pmsg) *words {
	if w := dictTypes[strings.ToLower(m.pkg+"."+m.Type)]; w != nil {
		return w
	}
	return &words{}
}

// sprinkle writes values from the message's dictionary into the fields of a payload, however short.
func (m pmsg) sprinkle(r *rand.Rand, b []byte) {
	w := make([]byte, max(m.Max, len(b)))
	copy(w, b)
	dictOf(m).fields(r, m, w)
	copy(b, w)
}
