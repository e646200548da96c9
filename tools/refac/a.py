# Behaviour-preserving rewrites of a scratch copy of the code (argument: its path).
import sys,re
root=sys.argv[1]
def sub(p,*prs):
    f=root+'/'+p;s=open(f).read()
    for a,b in prs:
        assert s.count(a)>=1,(p,a)
        s=s.replace(a,b)
    open(f,'w').write(s)
def between(p,a,b,new):
    f=root+'/'+p;s=open(f).read()
    i=s.index(a); j=s.index(b,i) if b else len(s)
    open(f,'w').write(s[:i]+new+s[j:])

# --- aggregation: one accumulator
open(root+'/pkg/col/accumulate.go','w').write('''package col

import (
	"math"
	"sync"
)

type accumulator struct {
	count    int
	min, max int64
	sum      int64
}

func newAccumulator() *accumulator {
	return &accumulator{min: math.MaxInt64, max: math.MinInt64}
}

func (a *accumulator) addValues(values []int64) {
	a.count += len(values)
	for _, v := range values {
		if a.min > v {
			a.min = v
		}
		a.max = max(a.max, v)
		a.sum += v
	}
}

func (a *accumulator) addEntry(e *FooterEntry) {
	a.count += int(e.Count)
	if lo := uint64ToInt64(e.MinValue); lo < a.min {
		a.min = lo
	}
	if hi := uint64ToInt64(e.MaxValue); hi > a.max {
		a.max = hi
	}
	a.sum += uint64ToInt64(e.Sum)
}

func (a *accumulator) result() AggregateResult {
	r := AggregateResult{Count: a.count, Min: a.min, Max: a.max, Sum: a.sum}
	if r.Count > 0 {
		r.Avg = float64(r.Sum) / float64(r.Count)
	}
	return r
}

// inParallel divides n blocks among workers and merges what each accumulates.
func inParallel(blocks []uint64, workers int, each func(a *accumulator, block uint64)) AggregateResult {
	per := (len(blocks) + workers - 1) / workers
	var (
		mu     sync.Mutex
		wg     sync.WaitGroup
		merged AggregateResult
	)
	for len(blocks) > 0 {
		mine := blocks
		if len(mine) > per {
			mine = mine[:per]
		}
		blocks = blocks[len(mine):]
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := newAccumulator()
			for _, b := range mine {
				each(a, b)
			}
			mu.Lock()
			defer mu.Unlock()
			if merged.Count == 0 || a.min < merged.Min {
				merged.Min = a.min
			}
			if merged.Count == 0 || a.max > merged.Max {
				merged.Max = a.max
			}
			merged.Count += a.count
			merged.Sum += a.sum
		}()
	}
	wg.Wait()
	if merged.Count > 0 {
		merged.Avg = float64(merged.Sum) / float64(merged.Count)
	}
	return merged
}
''')
between('pkg/col/reader_aggregate.go','	// If we have a footer with block statistics and we\'re not skipping pre-calculated values, use it for','// FilteredBlockIterator returns','''	acc := newAccumulator()
	if len(r.blockIndex) > 0 && !opts.SkipPreCalculated {
		for i := range r.blockIndex {
			acc.addEntry(&r.blockIndex[i])
		}
		return acc.result()
	}
	for i := range r.header.BlockCount {
		if _, values, err := r.GetPairs(i); err == nil {
			acc.addValues(values)
		}
	}
	return acc.result()
}

''')
between('pkg/col/reader_aggregate.go','	// Read and aggregate all matching blocks','// aggregateParallel performs aggregation in parallel','''	acc := newAccumulator()
	for _, blockIdx := range matchingBlocks {
		_, values, err := r.readBlockFiltered(int(blockIdx), opts.Filter, opts.DenyFilter)
		if err != nil {
			continue // unreadable
		}
		acc.addValues(values)
	}
	return acc.result()
}

''')
between('pkg/col/reader_aggregate.go','// aggregateParallelWithFooter performs',None,'''func (r *Reader) aggregateParallelWithFooter(blockIndices []uint64, numWorkers int) AggregateResult {
	return inParallel(blockIndices, numWorkers, func(a *accumulator, b uint64) {
		a.addEntry(&r.blockIndex[b])
	})
}

func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	read := func(b uint64) ([]int64, error) {
		_, values, err := r.readBlockFiltered(int(b), opts.Filter, opts.DenyFilter)
		return values, err
	}
	return inParallel(blockIndices, numWorkers, func(a *accumulator, b uint64) {
		if values, err := read(b); err == nil {
			a.addValues(values)
		}
	})
}
''')
sub('pkg/col/reader_aggregate.go',('	"runtime"\n	"sync"\n','	"runtime"\n'))
between('pkg/col/reader_aggregate.go','	// If no filters are provided, return all blocks\n','// readBlockFiltered reads a block','''	var blocks []uint64
	all := filter == nil
	var lo, hi uint64
	if !all {
		lo, hi = filter.Minimum(), filter.Maximum()
	}
	if all {
		blocks = make([]uint64, 0, r.BlockCount())
		for i := uint64(0); i < r.BlockCount(); i++ {
			blocks = append(blocks, i)
		}
		return blocks
	}
	for i := range r.blockIndex {
		e := &r.blockIndex[i]
		if lo <= e.MaxID && e.MinID <= hi {
			blocks = append(blocks, uint64(i))
		}
	}
	return blocks
}

''')
# --- simple writer
between('pkg/col/simple_writer.go','	if shouldWrite {','// isSorted checks','''	if !shouldWrite {
		return nil
	}
	for len(sw.pendingIDs) > 0 && (force || len(sw.pendingIDs) >= 1000) {
		var full *BlockFullError
		n := len(sw.pendingIDs)
		err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
		switch {
		case err == nil:
		case errors.As(err, &full):
			n = full.ItemsWritten
		default:
			return fmt.Errorf("failed to write block: %w", err)
		}
		sw.totalItems += uint64(n)
		sw.pendingIDs, sw.pendingValues = sw.pendingIDs[n:], sw.pendingValues[n:]
	}
	if len(sw.pendingIDs) == 0 {
		sw.pendingIDs, sw.pendingValues = nil, nil
	}
	return nil
}

''')
between('pkg/col/simple_writer.go','// isSorted checks',None,'''func isSorted(ids []uint64) bool { return slices.IsSorted(ids) }

type row struct {
	id    uint64
	value int64
}

func sortByID(ids []uint64, values []int64) {
	rows := make([]row, 0, len(ids))
	for i, id := range ids {
		rows = append(rows, row{id, values[i]})
	}
	slices.SortStableFunc(rows, func(a, b row) int { return cmp.Compare(a.id, b.id) })
	for i, r := range rows {
		ids[i], values[i] = r.id, r.value
	}
}
''')
sub('pkg/col/simple_writer.go',('	"fmt"\n	"sort"\n','	"cmp"\n	"errors"\n	"fmt"\n	"slices"\n'))
# --- reading
between('pkg/col/reader_io.go','	buf := make([]byte, size)\n','// readUint64At','''	buf := make([]byte, size)
	if n, err := io.ReadFull(io.NewSectionReader(r.file, offset, int64(size)), buf); err != nil {
		return nil, fmt.Errorf("incomplete read at offset %d: got %d of %d bytes: %w", offset, n, size, err)
	}
	return buf, nil
}

''')
between('pkg/col/reader_decode.go','	// Apply delta decoding if needed',"// Helper function to decode exactly 'count'",'''	switch encodingType {
	case EncodingDeltaBoth, EncodingVarIntBoth, EncodingDeltaID, EncodingVarIntID:
		undelta(ids)
	}
	switch encodingType {
	case EncodingDeltaBoth, EncodingVarIntBoth, EncodingDeltaValue, EncodingVarIntValue:
		undelta(values)
	}
	return ids, values, nil
}

func undelta[T int64 | uint64](a []T) {
	var sum T
	for i := range a {
		sum += a[i]
		a[i] = sum
	}
}

''')
sub('pkg/col/reader_header.go',('''	for i := uint32(0); i < blockIndexCount; i++ {
		entryOffset := i * 56

		r.blockIndex[i] = FooterEntry{
			BlockOffset: readBufferedUint64(blockIndexBuf, int(entryOffset)),
			BlockSize:   readBufferedUint32(blockIndexBuf, int(entryOffset+8)),
			MinID:       readBufferedUint64(blockIndexBuf, int(entryOffset+12)),
			MaxID:       readBufferedUint64(blockIndexBuf, int(entryOffset+20)),
			MinValue:    readBufferedUint64(blockIndexBuf, int(entryOffset+28)),
			MaxValue:    readBufferedUint64(blockIndexBuf, int(entryOffset+36)),
			Sum:         readBufferedUint64(blockIndexBuf, int(entryOffset+44)),
			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
		}
	}
''','''	rest := blockIndexBuf
	next64 := func() uint64 {
		v := binary.LittleEndian.Uint64(rest)
		rest = rest[8:]
		return v
	}
	next32 := func() uint32 {
		v := binary.LittleEndian.Uint32(rest)
		rest = rest[4:]
		return v
	}
	for i := range r.blockIndex {
		e := &r.blockIndex[i]
		e.BlockOffset, e.BlockSize = next64(), next32()
		e.MinID, e.MaxID = next64(), next64()
		e.MinValue, e.MaxValue, e.Sum = next64(), next64(), next64()
		e.Count = next32()
	}
'''))
# --- writing
between('pkg/col/writer_block.go','	// Write block header fields\n','	// This is not the complete block header yet','''	var b []byte
	for _, v := range [...]uint64{minID, maxID, minValueU64, maxValueU64, sumU64} {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	for _, v := range [...]uint32{count, w.encodingType, CompressionNone} {
		b = binary.LittleEndian.AppendUint32(b, v)
	}
	if _, err := w.file.Write(b); err != nil {
		return 0, fmt.Errorf("failed to write block header: %w", err)
	}
''')
between('pkg/col/writer_block.go','	if err := binary.Write(w.file, binary.LittleEndian, entry.BlockOffset)','	// Verify footer entry size','''	for _, f := range []any{entry.BlockOffset, entry.BlockSize, entry.MinID, entry.MaxID,
		entry.MinValue, entry.MaxValue, entry.Sum, entry.Count} {
		if err := binary.Write(w.file, binary.LittleEndian, f); err != nil {
			return fmt.Errorf("failed to write footer entry: %w", err)
		}
	}

''')
sub('pkg/col/writer_block_io.go',('''		for _, id := range encodedIDs {
			if err := binary.Write(w.file, binary.LittleEndian, id); err != nil {
				return fmt.Errorf("failed to write ID: %w", err)
			}
			actualIdSectionSize += 8
		}
''','''		bw := bufio.NewWriter(w.file)
		for _, id := range encodedIDs {
			if err := binary.Write(bw, binary.LittleEndian, id); err != nil {
				return fmt.Errorf("failed to write ID: %w", err)
			}
			actualIdSectionSize += 8
		}
		if err := bw.Flush(); err != nil {
			return fmt.Errorf("failed to write IDs: %w", err)
		}
'''),('''		for _, val := range encodedValues {
			if err := binary.Write(w.file, binary.LittleEndian, val); err != nil {
				return fmt.Errorf("failed to write value: %w", err)
			}
			actualValueSectionSize += 8
		}
''','''		var buf bytes.Buffer
		buf.Grow(8 * len(encodedValues))
		for _, val := range encodedValues {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(val))
			buf.Write(b[:])
		}
		n, err := buf.WriteTo(w.file)
		if err != nil {
			return fmt.Errorf("failed to write values: %w", err)
		}
		actualValueSectionSize = n
'''),('''		for i := 1; i < len(ids); i++ {
			size, err := w.EstimateBlockSize(ids[:i], values[:i])
			if err != nil {
				return fmt.Errorf("failed to estimate block size: %w", err)
			}

			if size <= uint64(w.blockSizeTarget) {
				optimal = i
			} else {
				// We've exceeded the target size, stop here
				break
			}
		}
''','''		for next := 1; next < len(ids); next++ {
			if size, err := w.EstimateBlockSize(ids[:next], values[:next]); err != nil {
				return fmt.Errorf("failed to estimate block size: %w", err)
			} else if size > uint64(w.blockSizeTarget) {
				break
			}
			optimal = next
		}
'''),('import (\n','import (\n	"bufio"\n	"bytes"\n'))
between('pkg/col/writer_encoding.go','	// Then apply varint encoding if needed','// idSectionEncoding returns','''	if encodingType < EncodingVarInt {
		return encodedData, nil, uint32(len(encodedData) * 8), nil
	}
	encodedDataBytes = make([][]byte, 0, len(encodedData))
	for i := range encodedData {
		b := encodeVarIntFunc(encodedData[i])
		if len(b) == 0 {
			return nil, nil, 0, fmt.Errorf("encoded size of data at index %d is 0", i)
		}
		encodedDataBytes = append(encodedDataBytes, b)
		sectionSize += uint32(len(b))
	}
	return encodedData, encodedDataBytes, sectionSize, nil
}

''')
sub('pkg/col/encoding.go',('''	// Break the number into 7-bit chunks
''','''	for ; value >= 0x80; value >>= 7 {
		result = append(result, byte(value)|0x80)
	}
	return append(result, byte(value))
}

func oldEncodeVarInt(value uint64) []byte {
	var result []byte
	// Break the number into 7-bit chunks
'''))
# --- multicol
sub('pkg/multicol/aggregate.go',('''		denyBitmap = denyBitmap.Or(globalIDs)
''','''		denyBitmap.Or(globalIDs)
'''),('''		// Merge the results
		if result.Count == 0 {
			// First result, just copy it
			result = readerResult
		} else {
			// Merge with existing result
			result = mergeAggregateResults(result, readerResult)
		}
''','''		result = mergeAggregateResults(result, readerResult)
'''),('''		Min:   minInt64(a.Min, b.Min),
		Max:   maxInt64(a.Max, b.Max),
''','''		Min:   min(a.Min, b.Min),
		Max:   max(a.Max, b.Max),
'''))
# --- cli
sub('cmd/vibecol/main.go',('''			for j := 0; j < len(ids); j++ {
				fmt.Printf("%d\\t%d\\n", ids[j], values[j])
			}
''','''			var sb strings.Builder
			for j, id := range ids {
				sb.WriteString(strconv.FormatUint(id, 10))
				sb.WriteByte('\\t')
				sb.WriteString(strconv.FormatInt(values[j], 10))
				sb.WriteString("\\n")
			}
			fmt.Print(sb.String())
'''),('''		fmt.Printf("Count: %d\\n", result.Count)
''','''		fmt.Fprintf(os.Stdout, "Count: %v\\n", result.Count)
'''),('''	values := make([]int64, len(valuesStrArr))
	
	for i, idStr := range idsStrArr {
		id, err := strconv.ParseUint(strings.TrimSpace(idStr), 10, 64)
		if err != nil {
			fmt.Printf("Error parsing ID %q: %v\\n", idStr, err)
			os.Exit(1)
		}
		ids[i] = id
	}
''','''	values := make([]int64, len(valuesStrArr))
	parseID := func(s string) uint64 {
		id, err := strconv.ParseUint(strings.TrimSpace(s), 10, 64)
		if err != nil {
			fail("Error parsing ID %q: %v\\n", s, err)
		}
		return id
	}
	for i := range idsStrArr {
		ids[i] = parseID(idsStrArr[i])
	}
'''),('func runWrite(','''func fail(format string, args ...any) {
	fmt.Printf(format, args...)
	os.Exit(1)
}

func runWrite('''))
