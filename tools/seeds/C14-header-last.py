prop = 'C14'
needs = 'A crash after the footer reached the disk and before the header was rewritten.'
what = 'The header is rewritten after the footer, so a crash between them leaves a file that opens and has no id bitmap.'
edits = [('pkg/col/writer_finalize.go', '''	// Update file header with final block count and bitmap information
	if _, err := w.file.Seek(0, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to start: %w", err)
	}

	// Create updated header
	header := NewFileHeader(w.blockCount, w.blockSizeTarget, w.encodingType)
	header.BitmapOffset = bitmapOffset
	header.BitmapSize = bitmapSize

	// Write header fields
	headerFields := []interface{}{
		header.Magic,
		header.Version,
		header.ColumnType,
		header.BlockCount,
		header.BlockSizeTarget,
		header.CompressionType,
		header.EncodingType,
		header.CreationTime,
		header.BitmapOffset,
		header.BitmapSize,
	}

	// Write the fields we need to update
	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip the rest of the header - unchanged fields

	// Seek to the end to write the footer
''', '''	// Seek to the end to write the footer
'''), ('pkg/col/writer_finalize.go', '''	// Final sync to ensure everything is written to disk
''', '''	// Update file header with final block count and bitmap information
	if _, err := w.file.Seek(0, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to start: %w", err)
	}

	// Create updated header
	header := NewFileHeader(w.blockCount, w.blockSizeTarget, w.encodingType)
	header.BitmapOffset = bitmapOffset
	header.BitmapSize = bitmapSize

	// Write header fields
	headerFields := []interface{}{
		header.Magic,
		header.Version,
		header.ColumnType,
		header.BlockCount,
		header.BlockSizeTarget,
		header.CompressionType,
		header.EncodingType,
		header.CreationTime,
		header.BitmapOffset,
		header.BitmapSize,
	}

	// Write the fields we need to update
	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip the rest of the header - unchanged fields

	// Final sync to ensure everything is written to disk
''')]
kind = 'fos'
demo = '''
import (
	"errors"
	"fmt"
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzfos"
)

func demo() {
	for k := 0; k < 80; k++ {
		zzfos.Hook = nil
		w, err := col.NewWriter(file("a"))
		must(err)
		must(w.WriteBlock([]uint64{7}, []int64{1}))
		n := 0
		zzfos.Hook = func(op string, off int64, l int) error {
			if op == "write" {
				if n++; n > k {
					return errors.New("crashed")
				}
			}
			return nil
		}
		w.Finalize()
		zzfos.Hook = nil
		w.Close()
		r, err := col.NewReader(file("a"))
		if err != nil {
			continue
		}
		g, err := r.GetGlobalIDBitmap()
		must(err)
		if fmt.Sprint(g.ToArray()) != "[7]" {
			bad("after a crash at write %d the file opens with ids %v", k, g.ToArray())
		}
		r.Close()
	}
}
'''
