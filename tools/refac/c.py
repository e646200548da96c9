# A third set of behaviour-preserving rewrites of a scratch copy (argument: its path):
# helpers extracted, tables instead of switches, loops turned round, statements reordered.
import sys
root=sys.argv[1]
def sub(p,*prs):
    f=root+'/'+p;s=open(f).read()
    for a,b in prs:
        assert s.count(a)>=1,(p,a)
        s=s.replace(a,b)
    open(f,'w').write(s)
def between(p,a,b,new):
    f=root+'/'+p;s=open(f).read()
    i=s.index(a); j=s.index(b,i) if b else len(s)
    open(f,'w').write(s[:i]+new+s[j:])

# --- a table of what each encoding does
open(root+'/pkg/col/modes.go','w').write('''package col

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/bits"
)

type section struct{ delta, varint bool }

func (s section) kind() uint32 {
	k := uint32(EncodingRaw)
	switch {
	case s.delta && s.varint:
		k = EncodingVarIntBoth
	case s.varint:
		k = EncodingVarInt
	case s.delta:
		k = EncodingDeltaBoth
	}
	return k
}

type mode struct{ ids, values section }

var modes map[uint32]mode

func init() {
	on := section{delta: true}
	wide := section{varint: true}
	both := section{delta: true, varint: true}
	modes = map[uint32]mode{
		EncodingRaw:         {},
		EncodingDeltaID:     {ids: on},
		EncodingDeltaValue:  {values: on},
		EncodingDeltaBoth:   {on, on},
		EncodingVarInt:      {wide, wide},
		EncodingVarIntID:    {ids: both},
		EncodingVarIntValue: {values: both},
		EncodingVarIntBoth:  {both, both},
	}
}

// stats folds values.
type stats struct {
	n        int
	lo, hi   int64
	sum      int64
	children []*stats
}

func lower[T int | int64](a, b T) T {
	if b < a {
		a = b
	}
	return a
}

func newStats() *stats { return &stats{lo: math.MaxInt64, hi: math.MinInt64} }

func (s *stats) add(vs ...int64) *stats {
	for len(vs) > 0 {
		v := vs[len(vs)-1]
		vs = vs[:len(vs)-1]
		s.lo, s.hi = lower(s.lo, v), max(v, s.hi)
		s.sum += v
		s.n++
	}
	return s
}

func (s *stats) entry(e FooterEntry) {
	s.sum += uint64ToInt64(e.Sum)
	s.hi = max(s.hi, uint64ToInt64(e.MaxValue))
	s.lo = lower(s.lo, uint64ToInt64(e.MinValue))
	s.n += int(e.Count)
}

func (s *stats) result() (r AggregateResult) {
	defer func() {
		if r.Count != 0 {
			r.Avg = float64(r.Sum) / float64(r.Count)
		}
	}()
	return AggregateResult{s.n, s.lo, s.hi, s.sum, 0}
}

// cursor walks over little-endian fields.
type cursor struct {
	rest []byte
}

func (c *cursor) take(n int) (head []byte) {
	head, c.rest = c.rest[:n:n], c.rest[n:]
	return head
}
func (c *cursor) u32() uint32 { return binary.LittleEndian.Uint32(c.take(4)) }
func (c *cursor) u64() uint64 { return binary.LittleEndian.Uint64(c.take(8)) }

func uvarintLen(v uint64) int { return (bits.Len64(v|1) + 6) / 7 }

// ReadByte makes a cursor an io.ByteReader.
func (c *cursor) ReadByte() (byte, error) {
	if len(c.rest) == 0 {
		return 0, io.EOF
	}
	return c.take(1)[0], nil
}

func (c *cursor) uvarints(n int) ([]uint64, error) {
	if n > len(c.rest) {
		return nil, fmt.Errorf("section too small: %d bytes for %d uvarints", len(c.rest), n)
	}
	out := make([]uint64, n)
	var err error
	for i := 0; i < n && err == nil; i++ {
		if out[i], err = binary.ReadUvarint(c); err != nil {
			err = fmt.Errorf("failed to decode uvarint at index %d: %w", i, err)
		}
	}
	if err != nil {
		out = nil
	}
	return out, err
}
''')
between('pkg/col/writer_encoding.go','// idSectionEncoding returns',None,'''// sectionEncoding returns the encoding of one section of the file.
func sectionEncoding(encodingType uint32, pick func(mode) section) uint32 {
	if m, ok := modes[encodingType]; ok {
		return pick(m).kind()
	}
	return encodingType
}

func idSectionEncoding(encodingType uint32) uint32 {
	return sectionEncoding(encodingType, func(m mode) section { return m.ids })
}

func valueSectionEncoding(encodingType uint32) uint32 {
	return sectionEncoding(encodingType, func(m mode) section { return m.values })
}
''')
between('pkg/col/reader.go','	return r.header.EncodingType == EncodingDeltaID','}','	m := modes[r.header.EncodingType]\n	return m.ids.delta || m.values.delta\n')
between('pkg/col/reader.go','	return r.header.EncodingType == EncodingVarInt ','}','	m, known := modes[r.header.EncodingType]\n	return known && (m.values.varint || m.ids.varint)\n')

# --- decoding
between('pkg/col/reader_decode.go','// Helper function to decode exactly',None,'''// Helper function to decode exactly 'count' UVarInts from buf
func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
	return (&cursor{buf}).uvarints(count)
}
''')
between('pkg/col/reader_decode.go','	// Apply delta decoding','	return ids, values, nil','''	m := modes[encodingType]
	for _, fix := range []func(){
		func() { runningSum(ids, m.ids.delta) },
		func() { runningSum(values, m.values.delta) },
	} {
		fix()
	}

''')
f=root+'/pkg/col/reader_decode.go'; s=open(f).read()
s+='''
// runningSum replaces differences by what they add up to.
func runningSum[T uint64 | int64](xs []T, wanted bool) {
	if !wanted || len(xs) == 0 {
		return
	}
	prev := xs[0]
	for rest := xs[1:]; len(rest) > 0; rest = rest[1:] {
		rest[0] += prev
		prev = rest[0]
	}
}
'''
s=s.replace('''		for i := 0; i < count; i++ {
			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
		}
''','''		for i := range ids {
			ids[i] = binary.LittleEndian.Uint64(idBytes)
			idBytes = idBytes[bytesPerID:]
		}
''').replace('''		for i := 0; i < count; i++ {
			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
		}
''','''		for i := count; i > 0; {
			i--
			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i<<3:]))
		}
''')
open(f,'w').write(s)

# --- header and footer through the cursor
f=root+'/pkg/col/reader_header.go'; s=open(f).read()
i=s.index('	// Extract fields from the buffer\n	offset := 0'); j=s.index('	// Validate header\n')
s=s[:i]+'''	c := &cursor{headerBuf}
	h := &r.header
	h.Magic, h.Version, h.ColumnType = c.u64(), c.u32(), c.u32()
	h.BlockCount = c.u64()
	for _, p := range []*uint32{&h.BlockSizeTarget, &h.CompressionType, &h.EncodingType} {
		*p = c.u32()
	}
	for _, p := range [...]*uint64{&h.CreationTime, &h.BitmapOffset, &h.BitmapSize} {
		*p = c.u64()
	}

'''+s[j:]
i=s.index('	// Parse the block index entries')
s=s[:i]+'''	c := cursor{blockIndexBuf}
	r.blockIndex = make([]FooterEntry, 0, blockIndexCount)
	for len(c.rest) >= 56 {
		r.blockIndex = append(r.blockIndex, parseEntry(cursor{c.take(56)}))
	}

	return nil
}

func parseEntry(c cursor) (e FooterEntry) {
	e.BlockOffset = c.u64()
	e.BlockSize = c.u32()
	e.MinID, e.MaxID = c.u64(), c.u64()
	e.MinValue, e.MaxValue, e.Sum = c.u64(), c.u64(), c.u64()
	e.Count = c.u32()
	return
}
'''
s=s.replace('''	if uint64(blockIndexCount) != r.header.BlockCount {
		// Use the higher value to ensure we don't miss data
		if uint64(blockIndexCount) > r.header.BlockCount {
			r.header.BlockCount = uint64(blockIndexCount)
		}
	}
''','''	r.header.BlockCount = max(r.header.BlockCount, uint64(blockIndexCount))
''')
open(f,'w').write(s)

# --- the size of a block without encoding the rows
between('pkg/col/writer_block_io.go','	// Encode IDs and values to get exact sizes','	// Calculate total block size','''	mode, known := modes[w.encodingType]
	if !known {
		return 0, fmt.Errorf("unsupported encoding type: %d", w.encodingType)
	}
	var idSectionSize, valueSectionSize uint32
	prevID, prevValue := uint64(0), int64(0)
	for i, id := range ids {
		idSize, valueSize := 8, 8
		if mode.ids.varint {
			d := id
			if mode.ids.delta {
				d -= prevID
			}
			idSize = uvarintLen(d)
		}
		if mode.values.varint {
			d := values[i]
			if mode.values.delta {
				d -= prevValue
			}
			valueSize = uvarintLen(uint64(d)<<1 ^ uint64(d>>63))
		}
		prevID, prevValue = id, values[i]
		valueSectionSize += uint32(valueSize)
		idSectionSize += uint32(idSize)
	}

''')
# --- sections written from readers
f=root+'/pkg/col/writer_block_io.go'; s=open(f).read()
i=s.index('	if useVarIntForIDs {\n		// Use variable'); j=s.index('	// Verify ID section size')
s=s[:i]+'''	put := func(what string, varint bool, parts [][]byte, n int, at func(int) uint64) (int64, error) {
		var chunk bytes.Buffer
		if varint {
			for _, p := range parts {
				chunk.Write(p)
			}
		} else {
			for i := 0; i < n; i++ {
				chunk.Write(binary.LittleEndian.AppendUint64(nil, at(i)))
			}
		}
		written, err := io.Copy(w.file, &chunk)
		if err != nil {
			return written, fmt.Errorf("failed to write %s: %w", what, err)
		}
		return written, nil
	}
	actualIdSectionSize, err = put("ID", useVarIntForIDs, encodedIdBytes, len(encodedIDs), func(i int) uint64 { return encodedIDs[i] })
	if err != nil {
		return err
	}

'''+s[j:]
i=s.index('	if useVarIntForValues {\n		// Use variable'); j=s.index('	// Verify value section size')
s=s[:i]+'''	actualValueSectionSize, err = put("value", useVarIntForValues, encodedValueBytes, len(encodedValues), func(i int) uint64 { return uint64(encodedValues[i]) })
	if err != nil {
		return err
	}

'''+s[j:]
# reordered records of a complete block, ids last to first
i=s.index('	w.blockPositions = append('); j=s.index('	// Store block statistics')
s=s[:i]+'''	defer func() { w.blockCount++ }()
	for k := len(ids) - 1; k >= 0; k-- {
		w.globalIDs.Set(ids[k])
	}
	w.blockSizes = append(w.blockSizes, uint32(blockSize))
	w.blockPositions = append(w.blockPositions, uint64(blockStart))

'''+s[j:]
s=s.replace('''	// Increment block count
	w.blockCount++

''','')
s=s.replace('import (\n','import (\n\t"bytes"\n')
open(f,'w').write(s)
between('pkg/col/utils.go','// calculateMinMaxUint64',None,'''// calculateMinMaxUint64 calculates the minimum and maximum values in a uint64 slice
func calculateMinMaxUint64(values []uint64) (min, max uint64) { return extent(values) }

// calculateMinMaxInt64 calculates the minimum and maximum values in an int64 slice
func calculateMinMaxInt64(values []int64) (min, max int64) { return extent(values) }

func extent[T cmp.Ordered](values []T) (lo, hi T) {
	if len(values) > 0 {
		lo, hi = slices.Min(values), slices.Max(values)
	}
	return
}

// calculateSumInt64 calculates the sum of an int64 slice, halves first
func calculateSumInt64(values []int64) int64 {
	switch n := len(values); n {
	case 0:
		return 0
	case 1:
		return values[0]
	default:
		return calculateSumInt64(values[:n/2]) + calculateSumInt64(values[n/2:])
	}
}
''')
sub('pkg/col/utils.go',('package col\n','package col\n\nimport (\n\t"cmp"\n\t"slices"\n)\n'))
# varint by appending
between('pkg/col/encoding.go','	// Special case for 0','// decodeVarInt decodes','''	out := make([]byte, uvarintLen(value))
	last := len(out) - 1
	for i := 0; i < last; i++ {
		out[i] = 0x80 | byte(value)
		value >>= 7
	}
	out[last] = byte(value) & 0x7F
	return out
}

''')

# --- aggregation
f=root+'/pkg/col/reader_aggregate.go'; s=open(f).read()
i=s.index('		for _, entry := range r.blockIndex {\n			// Convert'); j=s.index('	// Fallback: read and aggregate all blocks')
k=s.rindex('		var count int\n',0,i)
s=s[:k]+'''		s := newStats()
		for i := range r.blockIndex {
			s.entry(r.blockIndex[i])
		}
		return s.result()
	}

'''+s[j:]
i=s.index('	// Fallback: read and aggregate all blocks'); j=s.index('// FilteredBlockIterator returns')
s=s[:i]+'''	// Otherwise read all blocks
	return r.fold(r.FilteredBlockIterator(nil, nil), func(i uint64) ([]uint64, []int64, error) { return r.GetPairs(i) }).result()
}

// fold reads the blocks and folds the values of those that can be read.
func (r *Reader) fold(blocks []uint64, read func(uint64) ([]uint64, []int64, error)) *stats {
	s := newStats()
	for _, b := range blocks {
		if _, values, err := read(b); err == nil {
			s.add(values...)
		}
	}
	return s
}

'''+s[j:]
i=s.index('	// Read and aggregate all matching blocks\n'); j=s.index('// aggregateParallel performs aggregation in parallel')
s=s[:i]+'''	return r.fold(matchingBlocks, r.filtered(opts)).result()
}

// filtered returns a reader of blocks under the options' filters.
func (r *Reader) filtered(opts AggregateOptions) func(uint64) ([]uint64, []int64, error) {
	return func(b uint64) ([]uint64, []int64, error) {
		return r.readBlockFiltered(int(b), opts.Filter, opts.DenyFilter)
	}
}

'''+s[j:]
i=s.index('	// Create a channel for workers to send their results')
s=s[:i]+'''	return gather(blockIndices, numWorkers, func(part []uint64) *stats {
		s := newStats()
		for _, b := range part {
			s.entry(r.blockIndex[b])
		}
		return s
	})
}

// gather hands contiguous parts of the blocks to workers and merges what they find in order of arrival.
func gather(blocks []uint64, workers int, work func([]uint64) *stats) AggregateResult {
	per := (len(blocks) + workers - 1) / workers
	found := make(chan *stats)
	var wg sync.WaitGroup
	for rest := blocks; len(rest) > 0; {
		n := lower(per, len(rest))
		part := rest[:n]
		rest = rest[n:]
		wg.Add(1)
		go func() {
			defer wg.Done()
			found <- work(part)
		}()
	}
	go func() {
		defer close(found)
		wg.Wait()
	}()

	total := newStats()
	for s := range found {
		total.children = append(total.children, s)
	}
	if len(total.children) == 0 {
		return AggregateResult{}
	}
	// no extremes of parts without rows come before those of one with rows, as in order of arrival
	var final AggregateResult
	for _, s := range total.children {
		part := s.result()
		if final.Count == 0 {
			final.Min, final.Max = part.Min, part.Max
		} else {
			final.Min, final.Max = lower(final.Min, part.Min), max(final.Max, part.Max)
		}
		final.Count += part.Count
		final.Sum += part.Sum
	}
	if n := final.Count; n > 0 {
		final.Avg = float64(final.Sum) / float64(n)
	}
	return final
}

// aggregateParallelWithReading performs parallel aggregation by reading blocks
func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	read := r.GetPairs
	if opts.Filter != nil || opts.DenyFilter != nil {
		read = r.filtered(opts)
	}
	return gather(blockIndices, numWorkers, func(part []uint64) *stats { return r.fold(part, read) })
}
'''
i=s.index('	// Filter IDs and values\n'); j=s.index('// aggregateWithFilter performs')
s=s[:i]+'''	keep := func(id uint64) bool {
		if denyFilter != nil && denyFilter.Contains(id) {
			return false
		}
		return filter == nil || filter.Contains(id)
	}
	n := 0
	for i := range allIDs {
		if !keep(allIDs[i]) {
			continue
		}
		allIDs[n], allValues[n] = allIDs[i], allValues[i]
		n++
	}
	return allIDs[:n], allValues[:n], nil
}

'''+s[j:]
i=s.index('		// Get filter range\n'); j=s.index('	return matchingBlocks\n')
s=s[:i]+'''		lo, hi := filter.Minimum(), filter.Maximum()
		apart := func(e FooterEntry) bool { return hi < e.MinID || lo > e.MaxID }
		for i := 0; i < len(r.blockIndex); i++ {
			if !apart(r.blockIndex[i]) {
				matchingBlocks = append(matchingBlocks, uint64(i))
			}
		}
	}

'''+s[j:]
open(f,'w').write(s)

# --- the bitmap cache: the load is a helper
f=root+'/pkg/col/reader.go'; s=open(f).read()
i=s.index('	// If we\'ve already loaded the bitmap and caching'); 
s=s[:i]+'''	if !r.cacheGlobalIDs {
		return r.loadGlobalIDs()
	}
	if r.globalIDs == nil {
		bm, err := r.loadGlobalIDs()
		if err != nil {
			return nil, err
		}
		r.globalIDs = bm
	}
	return r.globalIDs, nil
}

// loadGlobalIDs reads the bitmap from the file.
func (r *Reader) loadGlobalIDs() (*sroar.Bitmap, error) {
	at, size := r.header.BitmapOffset, r.header.BitmapSize
	if at == 0 || size == 0 {
		return sroar.NewBitmap(), nil
	}
	var err error
	read := func(off int64, n int) []byte {
		if err != nil {
			return nil
		}
		var b []byte
		b, err = r.readBytesAt(off, n)
		return b
	}
	var body []byte
	if head := read(int64(at), 4); err == nil {
		body = read(int64(at)+4, int(binary.LittleEndian.Uint32(head)))
	}
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap: %w", err)
	}
	return sroar.FromBuffer(body), nil
}
'''
open(f,'w').write(s)

# --- simple writer: rows as pairs
f=root+'/pkg/col/simple_writer.go'; s=open(f).read()
i=s.index('// isSorted checks')
s=s[:i]+'''// isSorted checks if the IDs are sorted in ascending order
func isSorted(ids []uint64) bool { return slices.IsSorted(ids) }

type pair struct {
	id    uint64
	value int64
}

// sortByID sorts the values by their corresponding IDs
func sortByID(ids []uint64, values []int64) {
	rows := make([]pair, 0, len(ids))
	for i, id := range ids {
		rows = append(rows, pair{id: id, value: values[i]})
	}
	slices.SortStableFunc(rows, func(a, b pair) int { return cmp.Compare(a.id, b.id) })
	for i, p := range rows {
		ids[i], values[i] = p.id, p.value
	}
}
'''
s=s.replace('	"sort"\n','	"slices"\n').replace('import (\n','import (\n\t"cmp"\n')
i=s.index('	// If we don\'t have any data, there'); j=s.index('// isSorted checks')
s=s[:i]+'''	const enough = 1000
	n := len(sw.pendingIDs)
	if n == 0 || !force && n < enough {
		return nil
	}
	var full *BlockFullError
	err := sw.writer.WriteBlock(sw.pendingIDs, sw.pendingValues)
	if err != nil && !errors.As(err, &full) {
		return fmt.Errorf("failed to write block: %w", err)
	}
	if full == nil {
		sw.drop(n)
		return nil
	}
	sw.drop(full.ItemsWritten)
	return sw.flushIfNeeded(force)
}

// drop forgets the first pending rows, which have been written.
func (sw *SimpleWriter) drop(n int) {
	sw.totalItems += uint64(n)
	sw.pendingIDs, sw.pendingValues = sw.pendingIDs[n:], sw.pendingValues[n:]
	if len(sw.pendingIDs) == 0 {
		sw.pendingIDs, sw.pendingValues = nil, nil
	}
}

'''+s[j:]
s=s.replace('import (\n','import (\n\t"errors"\n')
s=s.replace('''	newIDs := make([]uint64, len(ids))
	newValues := make([]int64, len(values))
	copy(newIDs, ids)
	copy(newValues, values)
''','''	newIDs := append([]uint64{}, ids...)
	newValues := append([]int64{}, values...)
''')
open(f,'w').write(s)

# --- multicol
f=root+'/pkg/multicol/aggregate.go'; s=open(f).read()
i=s.index('	// Initialize the result with zero values'); j=s.index('// mergeAggregateResults merges')
s=s[:i]+'''	var result col.AggregateResult
	seen := sroar.NewBitmap()
	for left := len(mr.readers); left > 0; left-- {
		part, ids, err := one(mr.readers[left-1], opts, seen)
		if err != nil {
			return col.AggregateResult{}, fmt.Errorf("failed to get global ID bitmap from reader %d: %w", left-1, err)
		}
		seen = seen.Or(ids)
		result = mergeAggregateResults(result, part)
	}
	return result, nil
}

// one aggregates a reader but for the ids seen already, and returns its ids.
func one(reader *col.Reader, opts AggregateOptions, seen *sroar.Bitmap) (part col.AggregateResult, ids *sroar.Bitmap, err error) {
	part = reader.AggregateWithOptions(col.AggregateOptions{
		DenyFilter:        seen,
		Filter:            opts.Filter,
		SkipPreCalculated: opts.SkipPreCalculated,
	})
	ids, err = reader.GetGlobalIDBitmap()
	return
}

'''+s[j:]
s=s.replace('''	var lastErr error
	for _, reader := range mr.readers {
		if err := reader.Close(); err != nil {
			lastErr = err
		}
	}
	return lastErr
''','''	var errs []error
	for i := range mr.readers {
		errs = append(errs, mr.readers[i].Close())
	}
	return errors.Join(errs...)
''').replace('import (\n','import (\n\t"errors"\n')
open(f,'w').write(s)

# --- CLI
f=root+'/cmd/vibecol/main.go'; s=open(f).read()
i=s.index('	// Convert strings to appropriate types'); j=s.index('	// Create writer')
s=s[:i]+'''	ids := parseAll("ID", idsStrArr, strconv.ParseUint)
	values := parseAll("value", valuesStrArr, strconv.ParseInt)

'''+s[j:]
s+='''
// parseAll parses a list or exits.
func parseAll[T any](what string, list []string, parse func(string, int, int) (T, error)) (out []T) {
	for _, text := range list {
		x, err := parse(strings.TrimSpace(text), 10, 64)
		if err != nil {
			fmt.Printf("Error parsing %s %q: %v\\n", what, text, err)
			os.Exit(1)
		}
		out = append(out, x)
	}
	return out
}
'''
open(f,'w').write(s)

# --- load test
f=root+'/cmd/loadtest/main.go'; s=open(f).read()
i=s.index('		for i := 0; i < currentBatchSize; i++ {\n			// Generate random IDs'); j=s.index('		// Write the batch to the SimpleWriter')
body=s[i:j]
s=s[:i]+'''		fill(rng, ids, values, maxValue, maxID)

'''+s[j:]+'''
// fill makes up the rows of a batch.
func fill(rng *rand.Rand, ids []uint64, values []int64, maxValue int64, maxID uint64) {
'''+body.replace('i < currentBatchSize','i < len(ids)').replace('\n\t','\n').rstrip()[1:]+'''
}
'''
i=s.index('		// Determine batch size for this iteration'); j=s.index('		// Generate IDs and values\n')
s=s[:i]+'''		currentBatchSize := min(batchSize, numValues-valuesWritten)

'''+s[j:]
open(f,'w').write(s)
