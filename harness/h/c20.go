package h

import (
	"fmt"
	"strings"

	"vibe-lsm/zzverif/clirun"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// number judges the text of one list item: must tells that it has to be accepted, may that it can be;
// val is its value then (of a value list: as two's complement).
func number(s string, signed bool) (val uint64, must, may bool) {
	a, b := 0, len(s)
	blank := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r' }
	for a < b && blank(s[a]) {
		a++
	}
	for a < b && blank(s[b-1]) {
		b--
	}
	must = a == 0 && b == len(s)
	neg := false
	if a < b && (s[a] == '+' || s[a] == '-') {
		neg = s[a] == '-'
		must = must && neg && signed
		if neg && !signed {
			// only -0 could be meant as an unsigned number
			must = false
		}
		a++
	}
	if a == b {
		return 0, false, false
	}
	for i := a; i < b; i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, false
		}
		d := uint64(s[i] - '0')
		if val > (1<<64-1-d)/10 {
			return 0, false, false
		}
		val = val*10 + d
	}
	if signed {
		if neg && val > 1<<63 || !neg && val > 1<<63-1 {
			return 0, false, false
		}
	} else if neg && val != 0 {
		return 0, false, false
	}
	if neg {
		val = -val
	}
	return val, must, true
}

// items splits a list.
func items(s string) []string {
	var r []string
	a := 0
	for i := 0; i < len(s); i++ {
		if s[i] == ',' {
			r = append(r, s[a:i])
			a = i + 1
		}
	}
	return append(r, s[a:])
}

// runWrite runs the write command and asserts what must come of it.
func runWrite(ids, vals string) {
	fn := path("w")
	_, said, code := clirun.Run("write", "-o", fn, "-ids", ids, "-values", vals)
	vrt.Observe("exit", uint64(code))
	is, vs := items(ids), items(vals)
	must, may := len(is) == len(vs), len(is) == len(vs)
	var x []uint64
	var y []int64
	for _, s := range is {
		v, a, b := number(s, false)
		x = append(x, v)
		must, may = must && a, may && b
	}
	for _, s := range vs {
		v, a, b := number(s, true)
		y = append(y, int64(v))
		must, may = must && a, may && b
	}
	if code != 0 {
		vrt.Assert(!must, "the tool fails to write a well-formed list")
		vrt.Assert(said, "the tool fails without a message")
		vrt.Cover("rejected")
		return
	}
	vrt.Assert(may, "the tool accepts a malformed list")
	if !may {
		return
	}
	gotI, gotV, ok := readRows(fn)
	if ok {
		vrt.Assert(sameU(gotI, x) && sameI(gotV, y), "the tool stores other pairs than listed")
	}
	vrt.Cover("written")
}

// symText is text of n symbolic ASCII characters.
func symText(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vrt.U8(name, i)
		vrt.Assume(b[i] < 0x80 && b[i] != 0)
	}
	return string(b)
}

// C20_Text: arbitrary short lists.
// Bound: one of the lists is any text of 1 to 3 ASCII characters (thorough: 4), the other a well-formed list of
// one or two numbers.
func C20_Text() {
	n := 1 + vrt.Choose("len", 3+vrt.B2I(vrt.Thorough()))
	t := symText("c", n)
	other := []string{"7", "7,12"}[vrt.Choose("other", 2)]
	if vrt.Choose("which", 2) == 0 {
		runWrite(t, other)
	} else {
		runWrite(other, t)
	}
}

// C20_Limits: numbers at the limits of 64 bits.
// Bound: a list of two numbers, one of which is a prefix of the largest or smallest number of its type with
// 1 to 3 symbolic digits in place of its last (thorough: one more digit than that as well).
func C20_Limits() {
	pre := []string{"18446744073709551615", "9223372036854775807", "-9223372036854775808", "-0", "00000000000000000000000"}
	p := pre[vrt.Choose("limit", len(pre))]
	k := 1 + vrt.Choose("digits", 3)
	p = p[:len(p)-min(k, len(p))]
	d := make([]byte, k+vrt.Choose("more", 1+vrt.B2I(vrt.Thorough())))
	for i := range d {
		d[i] = vrt.U8("d", i)
		vrt.Assume(d[i] >= '0' && d[i] <= '9')
	}
	p += string(d)
	switch vrt.Choose("which", 4) {
	case 0:
		runWrite(p+",3", "1,2")
	case 1:
		runWrite("3,"+p, "-1,2")
	case 2:
		runWrite("0,3", p+",2")
	case 3:
		runWrite("9,3", "-2,"+p)
	}
}

// C20_Lists: well-formed and mismatched lists.
// Bound: lists of 1 to 4 numbers each of one symbolic digit, the values negative or not, of equal or different lengths.
func C20_Lists() {
	list := func(name string, n int, neg bool) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ","
			}
			if neg && i%2 == 0 {
				s += "-"
			}
			d := vrt.U8(name, i)
			vrt.Assume(d >= '0' && d <= '9')
			s += string([]byte{d})
		}
		return s
	}
	n, m := 1+vrt.Choose("ids", 4), 1+vrt.Choose("vals", 4)
	if n == 4 && m == 4 {
		m = 3
	}
	runWrite(list("i", n, false), list("v", m, vrt.Choose("neg", 2) == 1))
}

// C20_Many: lists of more pairs than fit one block.
// Bound: 900, 1100 and 2500 concrete pairs.
func C20_Many() {
	n := []int{900, 1100, 2500}[vrt.Choose("n", 3)]
	var ids, vals strings.Builder
	b := filler(n, 0, 7)
	for i := range b.ids {
		if i > 0 {
			ids.WriteByte(',')
			vals.WriteByte(',')
		}
		fmt.Fprintf(&ids, "%d", b.ids[i])
		fmt.Fprintf(&vals, "%d", b.vals[i])
	}
	fn := path("w")
	_, said, code := clirun.Run("write", "-o", fn, "-ids", ids.String(), "-values", vals.String())
	vrt.Assert(said, "the tool is silent")
	if code != 0 {
		vrt.Assert(n > 1000, "the tool fails to write a well-formed list")
		vrt.Cover("rejected")
		return
	}
	gotI, gotV, ok := readRows(fn)
	if ok {
		vrt.Assert(sameU(gotI, b.ids) && sameI(gotV, b.vals), "the tool stores other pairs than listed")
	}
	vrt.Cover("written")
}

// C20_Usage: wrong and right command lines.
// Bound: 11 fixed command lines that must fail and 5 that must not.
func C20_Usage() {
	fn := path("w")
	bad := [][]string{
		{}, {"erase"}, {"write"}, {"write", "-o", fn}, {"write", "-o", fn, "-ids", "1"}, {"write", "-o", fn, "-values", "1"},
		{"write", "-o", fn, "-ids", "", "-values", "1"}, {"write", "-o", fn, "-ids", "1", "-values", ""},
		{"read", "-f", fn}, {"read", "-f", fn, "-dump"}, {"read", "--agg", "--f=" + path("none")},
	}
	good := [][]string{
		{"write", "-o", fn, "-ids", "1", "-values", "-1"}, {"write", "-values=-1", "-ids=1", "-o=" + fn}, {"write", "--values", "-1", "--o", fn, "--ids", "1"},
	}
	k := vrt.Choose("line", len(bad)+len(good))
	if k < len(bad) {
		_, said, code := clirun.Run(bad[k]...)
		vrt.Assert(code != 0 && said, "a wrong command line succeeds or fails without a message")
		vrt.Cover("rejected")
		return
	}
	_, _, code := clirun.Run(good[k-len(bad)]...)
	vrt.Assert(code == 0, "a right command line fails")
	openCheck(fn, []blk{{[]uint64{1}, []int64{-1}}})
	out, _, code := clirun.Run("read", "-f", fn)
	vrt.Assert(code == 0 && out != "", "reading without an operation fails")
	vrt.Cover("accepted")
}

// hasPairs tells whether the pair lines of the output are those of the blocks, in order.
func hasPairs(out string, bl []blk) bool {
	want := ""
	for _, b := range bl {
		for i := range b.ids {
			want += fmt.Sprintf("%d\t%d\n", b.ids[i], b.vals[i])
		}
	}
	return pairLines(out) == want
}

// pairLines are the lines of the output with a tab, without the heading.
func pairLines(out string) string {
	r := ""
	for _, l := range vrt.Lines(out) {
		if vrt.HasByte(l, '\t') && l != "ID\tValue" && l != "--\t-----" {
			r += l + "\n"
		}
	}
	return r
}

// readsAs asserts that the read command prints the given blocks.
func readsAs(fn string, bl []blk, dump, agg bool) {
	args := []string{"read", "-f", fn}
	if dump {
		args = append(args, "-dump")
	}
	if agg {
		args = append(args, "--agg")
	}
	out, said, code := clirun.Run(args...)
	if code != 0 {
		vrt.Assert(vos.Faulted, "the tool fails to read a finalized file")
		vrt.Assert(said, "the tool fails without a message")
		vrt.Cover("fails")
		return
	}
	if dump {
		vrt.Assert(hasPairs(out, bl), "the tool prints other pairs than stored")
	} else {
		vrt.Assert(pairLines(out) == "", "the tool prints pairs unasked")
	}
	if agg {
		r := refAll(bl)
		ok := vrt.And(hasLine(out, fmt.Sprintf("Count: %d", r.n)), hasLine(out, fmt.Sprintf("Sum: %d", r.sum)))
		if len(bl) > 0 {
			ok = vrt.And(ok, hasLine(out, fmt.Sprintf("Min: %d", r.min)))
			ok = vrt.And(ok, hasLine(out, fmt.Sprintf("Max: %d", r.max)))
			ok = vrt.And(ok, hasLine(out, fmt.Sprintf("Average: %.2f", float64(r.sum)/float64(r.n))))
		}
		vrt.Assert(ok, "the tool prints other aggregates than the file has")
	}
	vrt.Cover("printed")
}

// C20_Read: dumping and aggregating any file.
// Bound: 0 to 3 blocks of up to 3 symbolic rows, encodings 0, 3 and 7 (thorough: all), dump, aggregates or both.
func C20_Read() {
	encs := []uint32{0, 3, 7}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
	}
	enc := encs[vrt.Choose("as", len(encs))]
	sh := [][]int{{}, {1}, {3}, {1, 2}, {2, 1, 1}}[vrt.Choose("shape", 5)]
	bl := symBlocks(enc, sh, "")
	fn := path("r")
	write(fn, enc, 0, bl)
	op := vrt.Choose("op", 3)
	readsAs(fn, bl, op != 1, op != 0)
}

// C20V_Fault: the tool reports failures of the file system.
// Bound: writing one to three fixed pairs and reading them back; one failing operation, of any kind, while writing or
// reading.
func C20V_Fault() {
	n := 1 + vrt.Choose("n", 3)
	b := blk{[]uint64{9, 3, 70}[:n], []int64{-5, 6, 1 << 40}[:n]}
	ids, vals := "9,3,70", "-5,6,1099511627776"
	ids, vals = ids[:[]int{1, 3, 6}[n-1]], vals[:[]int{2, 4, 18}[n-1]]
	writing := vrt.Choose("op", 2) == 0
	if writing {
		armed(300)
	} else {
		vos.Reset()
	}
	_, said, code := clirun.Run("write", "-o", "/w", "-ids", ids, "-values", vals)
	if code != 0 {
		vrt.Assert(vos.Faulted && said, "the tool fails without a fault or without a message")
		vrt.Cover("writing fails")
		return
	}
	vrt.Assert(!vos.Faulted, "the tool reports success though a file operation it issued failed")
	vos.WFault, vos.Journing = -1, false
	if writing {
		openCheck("/w", []blk{b})
		return
	}
	readArmed20(120)
	readsAs("/w", []blk{b}, true, vrt.Choose("agg", 2) == 1)
}

func readArmed20(max int) {
	vos.ROps, vos.Faulted = 0, false
	vos.ShortRead = vrt.Choose("short", 2) == 1
	vos.RFault = vrt.Range("rfault", 0, max)
}

// C20_ReadMany: dumping files of many rows and of many blocks.
// Bound: 74 (thorough: also 260 and 1200) blocks of one or two rows, or 3 blocks of 900, 7 and 300 filler rows, or 2 of 2 and 5000; one
// symbolic value; encodings 0 and 7.
func C20_ReadMany() {
	var bl []blk
	enc := []uint32{0, 7}[vrt.Choose("as", 2)]
	kind := vrt.Choose("rows", 3)
	if kind == 2 {
		if enc != 0 {
			return
		}
		bl = []blk{filler(2, 1, 1), filler(5000, 0, 5)}
		bl[1].vals[4321] = vrt.I64("val")
	} else if kind == 0 {
		bl = []blk{filler(900, 0, 5), filler(7, 1, 1), filler(300, 2, 2)}
		v := &bl[vrt.Choose("where", 3)].vals
		(*v)[len(*v)-1] = vrt.I64("val")
		if enc == 7 {
			narrow((*v)[len(*v)-1:])
		}
	} else {
		bl = manyBlocks(false)
		if enc == 7 || !vrt.Thorough() && len(bl) > 100 {
			vrt.Assume(false)
		}
	}
	fn := path("r")
	write(fn, enc, 1<<20, bl)
	readsAs(fn, bl, true, vrt.Choose("agg", 2) == 1)
}
