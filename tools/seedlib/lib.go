package main

import (
	"fmt"
	"os"
	"path/filepath"

	"vibe-lsm/pkg/col"

	"github.com/weaviate/sroar"
)

// B is the rows of one block.
type B struct {
	ids  []uint64
	vals []int64
}

var dir string

func file(n string) string { return filepath.Join(dir, n) }

func bad(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }

func must(err error) {
	if err != nil {
		bad("unexpected error: %v", err)
	}
}

func put(name string, enc, target uint32, blocks ...B) string {
	o := []col.WriterOption{col.WithEncoding(enc)}
	if target != 0 {
		o = append(o, col.WithBlockSize(target))
	}
	w, err := col.NewWriter(file(name), o...)
	must(err)
	for _, b := range blocks {
		must(w.WriteBlock(b.ids, b.vals))
	}
	must(w.FinalizeAndClose())
	return file(name)
}

func open(p string) *col.Reader {
	r, err := col.NewReader(p)
	must(err)
	return r
}

func rows(r *col.Reader) (out []B) {
	for i := uint64(0); i < r.BlockCount(); i++ {
		ids, vals, err := r.GetPairs(i)
		must(err)
		out = append(out, B{ids, vals})
	}
	return out
}

func same(got, want []B) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		bad("rows read %v, written %v", got, want)
	}
}

func set(ids ...uint64) *sroar.Bitmap {
	b := sroar.NewBitmap()
	for _, x := range ids {
		b.Set(x)
	}
	return b
}

func eq(got, want any, what string) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		bad("%s: got %v, want %v", what, got, want)
	}
}

func main() {
	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	dir = d
	code := 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println("FAIL:", e)
				code = 1
			}
		}()
		demo()
	}()
	os.RemoveAll(d)
	os.Exit(code)
}
