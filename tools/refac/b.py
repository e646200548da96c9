# A second set of behaviour-preserving rewrites of a scratch copy (argument: its path):
# the same behaviour through other library routes than the code or a.py uses.
import sys
root=sys.argv[1]
def sub(p,*prs):
    f=root+'/'+p;s=open(f).read()
    for a,b in prs:
        assert s.count(a)>=1,(p,a)
        s=s.replace(a,b)
    open(f,'w').write(s)
def between(p,a,b,new):
    f=root+'/'+p;s=open(f).read()
    i=s.index(a); j=s.index(b,i) if b else len(s)
    open(f,'w').write(s[:i]+new+s[j:])

# --- writer: one buffered image per block, fixed-layout structs through binary.Write/Append
between('pkg/col/writer_header.go','// writeHeader writes',None,'''// diskHeader is the packed form of the file header.
type diskHeader struct {
	FileHeader
	_ [headerSize - 60]byte
}

// writeHeader writes the file header to the file
func (w *Writer) writeHeader() error {
	img := diskHeader{FileHeader: NewFileHeader(0, w.blockSizeTarget, w.encodingType)}
	if n := binary.Size(img); n != headerSize {
		return fmt.Errorf("header size mismatch: expected=%d, actual=%d", headerSize, n)
	}
	if err := binary.Write(w.file, binary.LittleEndian, &img); err != nil {
		return fmt.Errorf("failed to write header: %w", err)
	}
	return nil
}
''')
sub('pkg/col/writer_header.go',('	"fmt"\n	"io"\n','	"fmt"\n'))

f=root+'/pkg/col/writer_block_io.go'; s=open(f).read()
i=s.index('	headerWritten := int64(0)'); j=s.index('	// Sync to disk to ensure data')
s=s[:i]+'''	switch {
	case idSectionSize == 0:
		return fmt.Errorf("ID section size is 0, which is invalid. useVarIntForIDs=%v, count=%d",
			useVarIntForIDs, count)
	case valueSectionSize == 0:
		return fmt.Errorf("Value section size is 0, which is invalid. useVarIntForValues=%v, count=%d",
			useVarIntForValues, count)
	}

	img := bytes.NewBuffer(make([]byte, 0, PageSize))
	out := &tally{dst: bufio.NewWriterSize(img, 512)}
	head := BlockHeader{
		MinID: minID, MaxID: maxID,
		MinValue: minValueU64, MaxValue: maxValueU64, Sum: sumU64,
		Count:        count,
		EncodingType: w.encodingType,
	}
	var packed bytes.Buffer // the last field of the packed header is cut short by the layout
	if err := binary.Write(&packed, binary.LittleEndian, &head); err != nil {
		return fmt.Errorf("failed to encode block header: %w", err)
	}
	out.raw(packed.Next(blockHeaderSize))
	out.put(BlockLayout{
		IDSectionSize:      idSectionSize,
		ValueSectionOffset: idSectionSize,
		ValueSectionSize:   valueSectionSize,
	})
	mark := out.n
	if useVarIntForIDs {
		out.raw(bytes.Join(encodedIdBytes, nil))
	} else {
		out.put(encodedIDs)
	}
	if out.n-mark != int64(idSectionSize) {
		return fmt.Errorf("ID section size mismatch: expected=%d, actual=%d", idSectionSize, out.n-mark)
	}
	mark = out.n
	if useVarIntForValues {
		out.raw(bytes.Join(encodedValueBytes, nil))
	} else {
		out.put(encodedValues)
	}
	if out.n-mark != int64(valueSectionSize) {
		return fmt.Errorf("value section size mismatch: expected=%d, actual=%d", valueSectionSize, out.n-mark)
	}
	out.fill(out.n + calculatePadding(blockStart+out.n, PageSize))
	if err := errors.Join(out.err, out.dst.Flush()); err != nil {
		return fmt.Errorf("failed to build block: %w", err)
	}
	blockSize := uint64(img.Len())
	if _, err := img.WriteTo(w.file); err != nil {
		return fmt.Errorf("failed to write block: %w", err)
	}

'''+s[j:]
s=s.replace('''	for _, id := range ids {
		w.globalIDs.Set(id)
	}
''','''	w.globalIDs.SetMany(ids)
''') if False else s
# the longest prefix that fits, by a labelled scan
i=s.index('		// Start with a single item'); j=s.index('		// Write the partial block')
s=s[:i]+'''		optimal := 1
	scan:
		for i := 1; i < len(ids); i++ {
			switch size, err := w.EstimateBlockSize(ids[:i:i], values[:i:i]); {
			case err != nil:
				return fmt.Errorf("failed to estimate block size: %w", err)
			case size > uint64(w.blockSizeTarget):
				break scan
			default:
				optimal = i
			}
		}

'''+s[j:]
s=s.replace('''import (
''','''import (
	"bufio"
	"bytes"
''').replace('''	"encoding/binary"
	"fmt"
''','''	"encoding/binary"
	"errors"
	"fmt"
''')
s+='''
// tally counts what goes through it and keeps the first error.
type tally struct {
	dst *bufio.Writer
	n   int64
	err error
}

func (t *tally) Write(p []byte) (int, error) {
	if t.err != nil {
		return 0, t.err
	}
	n, err := t.dst.Write(p)
	t.n += int64(n)
	t.err = err
	return n, err
}

func (t *tally) put(v any) {
	if err := binary.Write(t, binary.LittleEndian, v); err != nil && t.err == nil {
		t.err = err
	}
}

func (t *tally) raw(p []byte) { t.Write(p) }

// fill writes zeros up to the given offset.
func (t *tally) fill(upto int64) {
	for t.err == nil && t.n < upto {
		t.err = t.dst.WriteByte(0)
		t.n++
	}
}
'''
open(f,'w').write(s)

# --- finalize: footer as one appended image
f=root+'/pkg/col/writer_finalize.go'; s=open(f).read()
i=s.index('	// Write header fields\n'); j=s.index('	// Skip the rest of the header')
s=s[:i]+'''	if err := binary.Write(w.file, binary.LittleEndian, header); err != nil {
		return fmt.Errorf("failed to write header: %w", err)
	}
'''+s[j:]
i=s.index('	// Write block index count\n'); j=s.index('	// Final sync to ensure')
s=s[:i]+'''	if n := int(w.blockCount); len(w.blockPositions) != n || len(w.blockSizes) != n || len(w.blockStats) != n {
		return fmt.Errorf("block position tracking error: expected %d positions, got %d",
			w.blockCount, len(w.blockPositions))
	}
	le := binary.LittleEndian
	foot := le.AppendUint32(make([]byte, 0, 4+56*len(w.blockStats)+24), uint32(w.blockCount))
	for k, st := range w.blockStats {
		e := NewFooterEntry(w.blockPositions[k], w.blockSizes[k], st.MinID, st.MaxID,
			st.MinValue, st.MaxValue, st.Sum, st.Count)
		body := bytes.NewBuffer(foot)
		if err := binary.Write(body, le, &e); err != nil {
			return fmt.Errorf("failed to encode footer entry: %w", err)
		}
		foot = body.Bytes()
	}
	foot = le.AppendUint64(le.AppendUint64(foot, uint64(len(foot))), 0)
	if m, err := w.file.WriteAt(foot, footerStart); err != nil || m != len(foot) {
		return fmt.Errorf("failed to write footer: %w", errors.Join(err, io.ErrShortWrite))
	}
	if _, err := w.file.Seek(0, io.SeekEnd); err != nil {
		return fmt.Errorf("failed to seek past footer: %w", err)
	}
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync footer: %w", err)
	}
	if _, err := w.file.Write(le.AppendUint64(nil, MagicNumber)); err != nil {
		return fmt.Errorf("failed to write magic number: %w", err)
	}

'''+s[j:]
s=s.replace('''	"encoding/binary"
''','''	"bytes"
	"encoding/binary"
	"errors"
''')
open(f,'w').write(s)
between('pkg/col/writer_block.go','// writeBlockHeader writes','// encodeIDs encodes','')
sub('pkg/col/writer_block.go',('''import (
	"encoding/binary"
	"fmt"
	"io"
)

''',''))

# --- encodings
f=root+'/pkg/col/encoding.go'; s=open(f).read()
i=s.index('// deltaEncode calculates'); j=s.index('// int64ToUint64 converts')
s=s[:i]+'''type word interface{ ~uint64 | ~int64 }

func deltas[T word](values []T) []T {
	out := append(make([]T, 0, len(values)), values...)
	for i := len(out) - 1; i > 0; i-- {
		out[i] -= out[i-1]
	}
	return out
}

func sums[T word](ds []T) []T {
	out := slices.Clone(ds)
	if out == nil {
		out = []T{}
	}
	var acc T
	for i := range out {
		acc += out[i]
		out[i] = acc
	}
	return out
}

func deltaEncode(values []uint64) []uint64     { return deltas(values) }
func deltaDecode(ds []uint64) []uint64         { return sums(ds) }
func deltaEncodeInt64(values []int64) []int64  { return deltas(values) }
func deltaDecodeInt64(ds []int64) []int64      { return sums(ds) }

'''+s[j:]
i=s.index('	// Special case for 0'); j=s.index('// decodeVarInt decodes')
s=s[:i]+'''	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], value)
	return bytes.Clone(scratch[:n])
}

'''+s[j:]
i=s.index('	var result uint64\n'); j=s.index('// encodeSignedVarInt encodes')
s=s[:i]+'''	var result uint64
	i := 0
next:
	if i >= len(data) || i >= 10 {
		goto cut
	}
	result |= uint64(data[i]&0x7F) << (7 * uint(i))
	i++
	if data[i-1] < 0x80 {
		return result, i
	}
	goto next
cut:
	return 0, 0
}

'''+s[j:]
s=s.replace('package col\n','''package col

import (
	"bytes"
	"encoding/binary"
	"math"
	"slices"
)
''',1)
i=s.index('	if value >= 0 {\n		return uint64(value)'); j=s.index('// uint64ToInt64 converts')
s=s[:i]+'''	const sign = uint64(1) << 63
	switch {
	case value == math.MinInt64:
		return sign
	case value < 0:
		return sign | uint64(-value)
	}
	return uint64(value)
}

'''+s[j:]
i=s.index('	if value&(1<<63) == 0 {'); j=s.index('// encodeVarInt encodes')
s=s[:i]+'''	mag := int64(value << 1 >> 1)
	if value>>63 == 0 {
		return mag
	}
	if mag != 0 {
		return -mag
	}
	return math.MinInt64
}

'''+s[j:]
open(f,'w').write(s)

# --- reader: section readers and packed structs
f=root+'/pkg/col/reader_io.go'; s=open(f).read()
i=s.index('	buf := make([]byte, size)'); j=s.index('// readUint64At reads')
s=s[:i]+'''	buf := make([]byte, size)
	switch n, err := io.ReadFull(io.NewSectionReader(r.file, offset, int64(size)), buf); {
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
	case err != nil:
		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
	}
	return buf, nil
}

'''+s[j:]
s=s.replace('''	"encoding/binary"
''','''	"encoding/binary"
	"errors"
''')
open(f,'w').write(s)
f=root+'/pkg/col/reader_header.go'; s=open(f).read()
i=s.index('	// Extract fields from the buffer\n	offset := 0'); j=s.index('	// Validate header\n')
s=s[:i]+'''	if err := binary.Read(bytes.NewReader(headerBuf), binary.LittleEndian, &r.header); err != nil {
		return fmt.Errorf("failed to decode header: %w", err)
	}

'''+s[j:]
i=s.index('	// Extract fields from the buffer\n	r.footerMeta'); j=s.index('	// Validate footer metadata')
s=s[:i]+'''	if err := binary.Read(bytes.NewReader(footerMetaBuf), binary.LittleEndian, &r.footerMeta); err != nil {
		return fmt.Errorf("failed to decode footer metadata: %w", err)
	}

'''+s[j:]
i=s.index('	// Parse the block index entries')
s=s[:i]+'''	entries := make([]FooterEntry, blockIndexCount)
	rd := bufio.NewReader(bytes.NewReader(blockIndexBuf))
	for i := range entries {
		e := &entries[i]
		var raw [56]byte
		if _, err := io.ReadFull(rd, raw[:]); err != nil {
			return fmt.Errorf("failed to parse block index: %w", err)
		}
		e.BlockOffset = binary.LittleEndian.Uint64(raw[:])
		e.BlockSize = binary.LittleEndian.Uint32(raw[8:])
		for k, p := range []*uint64{&e.MinID, &e.MaxID, &e.MinValue, &e.MaxValue, &e.Sum} {
			*p = binary.LittleEndian.Uint64(raw[12+8*k:])
		}
		e.Count = binary.LittleEndian.Uint32(raw[52:])
	}
	r.blockIndex = entries

	return nil
}
'''
s=s.replace('''import (
	"encoding/binary"
	"fmt"
''','''import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
''')
open(f,'w').write(s)

# --- fixed-width sections through binary.Decode into whole slices
sub('pkg/col/reader_decode.go',('''		for i := 0; i < count; i++ {
			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
		}
''','''		if err := binary.Read(bytes.NewReader(idBytes), binary.LittleEndian, ids); err != nil {
			return nil, nil, fmt.Errorf("failed to decode IDs: %w", err)
		}
'''),('''		for i := 0; i < count; i++ {
			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
		}
''','''		if err := binary.Read(bytes.NewReader(valueBytes), binary.LittleEndian, values); err != nil {
			return nil, nil, fmt.Errorf("failed to decode values: %w", err)
		}
'''))
sub('pkg/col/reader_decode.go',('import (\n','import (\n\t"bytes"\n'),('bytesPerValue := 8','const bytesPerValue = 8'))
between('pkg/col/reader_decode.go','	// Apply delta decoding','	return ids, values, nil','''	switch encodingType {
	case EncodingVarIntBoth:
		fallthrough
	case EncodingDeltaBoth:
		ids, values = sums(ids), sums(values)
	case EncodingDeltaID, EncodingVarIntID:
		ids = sums(ids)
	case EncodingDeltaValue, EncodingVarIntValue:
		values = sums(values)
	}

''')

# --- simple writer: sort.Stable over a view, errors.As, a loop for the retry
between('pkg/col/simple_writer.go','// isSorted checks',None,'''// byID sorts two slices together.
type byID struct {
	ids    []uint64
	values []int64
}

func (b byID) Len() int           { return len(b.ids) }
func (b byID) Less(i, j int) bool { return b.ids[i] < b.ids[j] }
func (b byID) Swap(i, j int) {
	b.ids[i], b.ids[j] = b.ids[j], b.ids[i]
	b.values[i], b.values[j] = b.values[j], b.values[i]
}

func isSorted(ids []uint64) bool {
	return sort.SliceIsSorted(ids, func(i, j int) bool { return ids[i] < ids[j] })
}

func sortByID(ids []uint64, values []int64) { sort.Stable(byID{ids, values}) }
''')
between('pkg/col/simple_writer.go','	// If we don\'t have any data, there','// byID sorts','''	for n := len(sw.pendingIDs); n > 0 && (force || n >= 1000); n = len(sw.pendingIDs) {
		var full *BlockFullError
		switch err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues); {
		case err == nil:
			sw.totalItems += uint64(n)
			sw.pendingIDs, sw.pendingValues = nil, nil
		case errors.As(err, &full):
			sw.totalItems += uint64(full.ItemsWritten)
			sw.pendingIDs = sw.pendingIDs[full.ItemsWritten:]
			sw.pendingValues = sw.pendingValues[full.ItemsWritten:]
		default:
			return fmt.Errorf("failed to write block: %w", err)
		}
	}
	return nil
}

''')
sub('pkg/col/simple_writer.go',('''import (
''','''import (
	"errors"
'''))

# --- aggregation: a job channel, atomics, once, a mutex-guarded fold
f=root+'/pkg/col/reader_aggregate.go'; s=open(f).read()
i=s.index('// aggregateParallelWithFooter performs')
s=s[:i]+'''// fold collects partial results from several goroutines.
type fold struct {
	sync.Mutex
	sync.WaitGroup
	some atomic.Bool
	sum  atomic.Int64
	n    atomic.Int64
	low  int64
	high int64
	once sync.Once
}

func (f *fold) add(values []int64) {
	if len(values) == 0 {
		return
	}
	var s int64
	lo, hi := values[0], values[0]
	for _, v := range values {
		s += v
		lo, hi = minOf(lo, v), maxOf(hi, v)
	}
	f.part(len(values), lo, hi, s)
}

func (f *fold) part(n int, lo, hi, s int64) {
	f.n.Add(int64(n))
	f.sum.Add(s)
	f.Lock()
	defer f.Unlock()
	f.once.Do(func() { f.low, f.high = lo, hi; f.some.Store(true) })
	f.low, f.high = minOf(f.low, lo), maxOf(f.high, hi)
}

func minOf(a, b int64) int64 {
	if b < a {
		return b
	}
	return a
}

func maxOf(a, b int64) int64 {
	if b > a {
		return b
	}
	return a
}

func (f *fold) result() (res AggregateResult) {
	res.Min, res.Max = math.MaxInt64, math.MinInt64
	if f.some.Load() {
		res.Min, res.Max = f.low, f.high
	}
	res.Count, res.Sum = int(f.n.Load()), f.sum.Load()
	if res.Count > 0 {
		res.Avg = float64(res.Sum) / float64(res.Count)
	}
	return
}

// each hands the blocks to the workers one at a time.
func (f *fold) each(blocks []uint64, workers int, do func(block uint64)) AggregateResult {
	jobs := make(chan uint64)
	for range workers {
		f.Add(1)
		go func() {
			defer f.Done()
			for {
				b, ok := <-jobs
				if !ok {
					return
				}
				do(b)
			}
		}()
	}
	for _, b := range blocks {
		jobs <- b
	}
	close(jobs)
	f.Wait()
	return f.result()
}

func (r *Reader) aggregateParallelWithFooter(blockIndices []uint64, numWorkers int) AggregateResult {
	var f fold
	return f.each(blockIndices, numWorkers, func(b uint64) {
		e := &r.blockIndex[b]
		f.part(int(e.Count), uint64ToInt64(e.MinValue), uint64ToInt64(e.MaxValue), uint64ToInt64(e.Sum))
	})
}

func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	f := new(fold)
	return f.each(blockIndices, numWorkers, func(b uint64) {
		if _, values, err := r.readBlockFiltered(int(b), opts.Filter, opts.DenyFilter); err == nil {
			f.add(values)
		}
	})
}
'''
s=s.replace('''import (
	"runtime"
	"sync"
''','''import (
	"math"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
''')
i=s.index('	// Filter IDs and values\n'); j=s.index('// aggregateWithFilter performs')
s=s[:i]+'''	drop := func(id uint64) bool {
		return filter != nil && !filter.Contains(id) || denyFilter != nil && denyFilter.Contains(id)
	}
	keptValues := allValues[:0]
	for i, v := range allValues {
		if !drop(allIDs[i]) {
			keptValues = append(keptValues, v)
		}
	}
	return slices.DeleteFunc(allIDs, drop), keptValues, nil
}

'''+s[j:]
open(f,'w').write(s)

# --- the cached bitmap under a read lock first
sub('pkg/col/reader.go',('globalIDsMu    sync.Mutex ','globalIDsMu    sync.RWMutex '))
sub('pkg/col/reader.go',('''	r.globalIDsMu.Lock()
	defer r.globalIDsMu.Unlock()

	// If we've already loaded the bitmap and caching is enabled, return it
	if r.globalIDs''','''	r.globalIDsMu.RLock()
	hit := r.globalIDs
	if !r.cacheGlobalIDs {
		hit = nil
	}
	r.globalIDsMu.RUnlock()
	if hit != nil {
		return hit, nil
	}

	r.globalIDsMu.Lock()
	defer r.globalIDsMu.Unlock()
	if r.globalIDs'''))

# --- opening files with explicit flags
sub('pkg/col/reader.go',('os.Open(filename)','os.OpenFile(filename, os.O_RDONLY, 0)'))
sub('pkg/col/writer.go',('os.Create(filename)','os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)'))

# --- multicol: iterate a reversed copy, merge by folding
f=root+'/pkg/multicol/aggregate.go'; s=open(f).read()
i=s.index('	// Initialize the result with zero values'); j=s.index('// mergeAggregateResults merges')
s=s[:i]+'''	newestFirst := slices.Clone(mr.readers)
	slices.Reverse(newestFirst)

	var result col.AggregateResult
	seen := sroar.NewBitmap()
	for i, reader := range newestFirst {
		part := reader.AggregateWithOptions(col.AggregateOptions{
			SkipPreCalculated: opts.SkipPreCalculated,
			Filter:            opts.Filter,
			DenyFilter:        seen,
		})
		own, err := reader.GetGlobalIDBitmap()
		if err != nil {
			return col.AggregateResult{}, fmt.Errorf("failed to get global ID bitmap from reader %d: %w",
				len(newestFirst)-1-i, err)
		}
		seen = sroar.Or(seen, own)
		result = mergeAggregateResults(result, part)
	}

	return result, nil
}

'''+s[j:]
s=s.replace('''	"fmt"

''','''	"errors"
	"fmt"
	"slices"

''',1)
i=s.index('	var lastErr error'); j=s.index('// AggregateOptions contains')
s=s[:i]+'''	var errs []error
	for _, reader := range mr.readers {
		errs = append(errs, reader.Close())
	}
	return errors.Join(errs...)
}

'''+s[j:]
open(f,'w').write(s)

# --- CLI: buffered output, a scanner over the lists
f=root+'/cmd/vibecol/main.go'; s=open(f).read()
i=s.index('	// Parse IDs and values\n'); j=s.index('	// Create writer')
s=s[:i]+'''	fail := func(format string, args ...any) {
		fmt.Fprintf(os.Stdout, format, args...)
		os.Exit(1)
	}
	if a, b := 1+strings.Count(idsStr, ","), 1+strings.Count(valuesStr, ","); a != b {
		fail("Error: number of IDs (%d) doesn't match number of values (%d)\\n", a, b)
	}
	var ids []uint64
	for rest, more := idsStr, true; more; {
		var one string
		one, rest, more = strings.Cut(rest, ",")
		id, err := strconv.ParseUint(strings.TrimSpace(one), 10, 64)
		if err != nil {
			fail("Error parsing ID %q: %v\\n", one, err)
		}
		ids = append(ids, id)
	}
	var values []int64
	for rest, more := valuesStr, true; more; {
		var one string
		one, rest, more = strings.Cut(rest, ",")
		value, err := strconv.ParseInt(strings.TrimSpace(one), 10, 64)
		if err != nil {
			fail("Error parsing value %q: %v\\n", one, err)
		}
		values = append(values, value)
	}

'''+s[j:]
s=s.replace('''			for j := 0; j < len(ids); j++ {
				fmt.Printf("%d\\t%d\\n", ids[j], values[j])
			}
''','''			out := bufio.NewWriter(os.Stdout)
			for j, id := range ids {
				out.WriteString(strconv.FormatUint(id, 10))
				out.WriteByte('\\t')
				out.WriteString(strconv.FormatInt(values[j], 10))
				out.WriteByte('\\n')
			}
			out.Flush()
''')
s=s.replace('import (\n','import (\n	"bufio"\n')
open(f,'w').write(s)
