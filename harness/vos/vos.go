// Package vos is an in-memory stand-in for os with fault injection, a write
// journal (for crash images) and I/O accounting.
package vos

import (
	"io"
	"io/fs"
	"syscall"
	"time"

	"vibe-lsm/zzverif/verrors"
	"vibe-lsm/zzverif/vrt"
)

type inode struct {
	name string
	data []byte
	// gap zero bytes, not kept in data, lie at offset hole
	hole, gap int64
}

func (i *inode) size() int64 { return int64(len(i.data)) + i.gap }

// Stretch makes a file n bytes longer; nothing that is written there later is kept.
func Stretch(name string, n int64) {
	i := files[name]
	i.hole, i.gap = int64(len(i.data)), n
}

// cut is the next part of n bytes at off that lies on one side of the gap: its length and its place in data, or -1.
func (i *inode) cut(off, n int64) (k, at int64) {
	switch {
	case i.gap == 0:
		return n, off
	case off < i.hole:
		return min(n, i.hole-off), off
	case off < i.hole+i.gap:
		return min(n, i.hole+i.gap-off), -1
	}
	return n, off - i.gap
}

// FileMode etc. mirror os.
type FileMode = fs.FileMode
type FileInfo = fs.FileInfo
type PathError = fs.PathError
type Signal = syscall.Signal

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

type File struct {
	ino    *inode
	name   string
	pos    int64
	flag   int
	closed bool
	std    int
	out    string
}

// JOp is one journalled effect on a file.
type JOp struct {
	Name string
	Kind int // 0 write, 1 sync, 2 truncate, 3 create, 4 close
	Off  int64
	Data []byte
}

// ROp is one read of a file.
type ROp struct {
	Name string
	Off  int64
	N    int
}

var (
	files    = map[string]*inode{}
	Args     = []string{"vibecol"}
	Stdin    = &File{std: 3, name: "/dev/stdin"}
	Stdout   = &File{std: 1, name: "/dev/stdout"}
	Stderr   = &File{std: 2, name: "/dev/stderr"}
	Journal  []JOp
	Journing bool
	Reads    []ROp
	Counting bool

	// fault injection: the FaultAt-th write-side (or read-side) operation fails
	WOps    int
	ROps    int
	WFault  = -1
	RFault  = -1
	Partial int // bytes written/read before the fault
	// PickPartial, if set, decides at the fault how many of n bytes go through
	PickPartial func(n int) int
	// Times is how many operations in a row fail (from WFault or RFault on).
	Times   = 1
	Strikes int // operations that failed
	Faulted bool
	FaultOp string
	// FaultName, FaultOff: file and offset of the read that failed
	FaultName string
	FaultOff  int64
	// ShortRead: the faulting read returns fewer bytes with no error (io.EOF at most)
	ShortRead bool

	// OnRead, if set, is called before a file is opened for reading, asked for
	// its size or read.
	OnRead func()

	// Tracking counts the handles that are open in Live; CloseFails, counting
	// down, makes a close report an error.
	Tracking   bool
	Live       int
	CloseFails = -1

	ErrNotExist   = verrors.New("file does not exist")
	ErrExist      = verrors.New("file already exists")
	ErrClosed     = verrors.New("file already closed")
	ErrInvalid    = verrors.New("invalid argument")
	ErrPermission = verrors.New("permission denied")
	ErrIO         = verrors.New("input/output error (injected)")
	ErrNoSpace    = verrors.New("no space left on device")
)

// Reset forgets every file and counter.
func Reset() {
	files = map[string]*inode{}
	Journal, Reads = nil, nil
	Journing, Counting = false, false
	WOps, ROps, WFault, RFault, Partial, Times = 0, 0, -1, -1, 0, 1
	Faulted, ShortRead, FaultOp, Strikes = false, false, "", 0
	FaultName, FaultOff = "", -1
	Stdout.out, Stderr.out = "", ""
	PickPartial, OnRead = nil, nil
	Tracking, Live, CloseFails = false, 0, -1
}

// partial is the part of an n-byte transfer that goes through before a fault.
func partial(n int) int {
	p := Partial
	if PickPartial != nil {
		p = PickPartial(n)
	}
	if p > n {
		p = n
	}
	return p
}

// wfault counts a write-side operation and reports whether it must fail.
func wfault(op string) bool {
	vrt.LockIO()
	defer vrt.UnlockIO()
	n := WOps
	WOps++
	if n == WFault || Times > 1 && WFault >= 0 && n > WFault && n < WFault+Times {
		Faulted, FaultOp = true, op
		Strikes++
		return true
	}
	return false
}

func rfault(op string) bool {
	if RFault < 0 && !Counting {
		return false // also: no lock, which would order concurrent reads
	}
	vrt.LockIO()
	defer vrt.UnlockIO()
	n := ROps
	ROps++
	if n == RFault || Times > 1 && n > RFault && n < RFault+Times {
		Faulted, FaultOp = true, op
		Strikes++
		return true
	}
	return false
}

func jot(name string, kind int, off int64, data []byte) {
	if !Journing {
		return
	}
	c := make([]byte, len(data))
	copy(c, data)
	Journal = append(Journal, JOp{name, kind, off, c})
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	ino := files[name]
	if ino == nil {
		if flag&O_CREATE == 0 {
			if rfault("open") {
				return nil, ErrIO
			}
			return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
		}
		if wfault("create") {
			return nil, ErrIO
		}
		ino = &inode{name: name}
		files[name] = ino
		jot(name, 3, 0, nil)
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, &PathError{Op: "open", Path: name, Err: ErrExist}
		}
		if flag&(O_CREATE|O_TRUNC|O_WRONLY|O_RDWR) != 0 {
			if wfault("create") {
				return nil, ErrIO
			}
		} else if rfault("open") {
			return nil, ErrIO
		}
		if flag&O_TRUNC != 0 {
			ino.data, ino.gap = nil, 0
			jot(name, 2, 0, nil)
		}
	}
	if Tracking {
		Live++
	}
	return &File{ino: ino, name: name, flag: flag}, nil
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func Open(name string) (*File, error) {
	onRead()
	return OpenFile(name, O_RDONLY, 0)
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

func (f *File) writeAt(b []byte, off int64) {
	vrt.Touch(b, false)
	jot(f.name, 0, off, b)
	for len(b) > 0 {
		k, at := f.ino.cut(off, int64(len(b)))
		if at >= 0 {
			f.put(b[:k], at)
		}
		b, off = b[k:], off+k
	}
}

// put writes to the bytes that are kept.
func (f *File) put(b []byte, off int64) {
	end := off + int64(len(b))
	if int64(len(f.ino.data)) < end {
		if int64(cap(f.ino.data)) < end {
			n := make([]byte, end, 2*end+4096)
			copy(n, f.ino.data)
			f.ino.data = n
		} else {
			f.ino.data = f.ino.data[:end]
		}
	}
	copy(f.ino.data[off:end], b)
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.std > 0 {
		if f.std == 1 && StdoutTo != nil {
			StdoutTo(b) // keep the order among what is printed by other means
		} else {
			f.out += string(b)
		}
		return len(b), nil
	}
	vrt.Yield()
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_RDONLY {
		return 0, ErrPermission
	}
	if f.flag&O_APPEND != 0 {
		f.pos = f.ino.size()
	}
	if wfault("write") {
		n := partial(len(b))
		if n > 0 {
			f.writeAt(b[:n], f.pos)
			f.pos += int64(n)
		}
		return n, ErrNoSpace
	}
	f.writeAt(b, f.pos)
	f.pos += int64(len(b))
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) {
	return f.Write([]byte(s))
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_RDONLY {
		return 0, ErrPermission
	}
	if off < 0 {
		return 0, ErrInvalid
	}
	if wfault("writeat") {
		n := partial(len(b))
		if n > 0 {
			f.writeAt(b[:n], off)
		}
		return n, ErrNoSpace
	}
	f.writeAt(b, off)
	return len(b), nil
}

func noteRead(name string, off int64, n int) {
	if !Counting {
		return
	}
	vrt.LockIO()
	Reads = append(Reads, ROp{name, off, n})
	vrt.UnlockIO()
}

// Put replaces the content of a file that may be open.
func Put(name string, data []byte) { files[name].data = append([]byte(nil), data...) }

func onRead() {
	if OnRead != nil {
		OnRead()
	}
}

func (f *File) readAt(b []byte, off int64, op string) (int, error) {
	onRead()
	n := 0
	for off < f.ino.size() && n < len(b) {
		k, at := f.ino.cut(off+int64(n), int64(len(b)-n))
		if at >= 0 {
			if at >= int64(len(f.ino.data)) {
				break
			}
			n += copy(b[n:n+int(k)], f.ino.data[at:])
		} else {
			clear(b[n : n+int(k)])
			n += int(k)
		}
		if f.ino.gap == 0 {
			break
		}
	}
	vrt.Touch(b, true)
	noteRead(f.name, off, n)
	if rfault(op) {
		n = partial(n)
		for i := n; i < len(b); i++ {
			b[i] = 0
		}
		FaultName, FaultOff = f.name, off
		if ShortRead {
			// what os.File gives when the file ends here
			if op == "readat" || n == 0 {
				return n, io.EOF
			}
			return n, nil
		}
		return n, ErrIO
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &PathError{Op: "readat", Path: f.name, Err: verrors.New("negative offset")}
	}
	n, err := f.readAt(b, off, "readat")
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.std > 0 {
		return 0, io.EOF
	}
	vrt.Yield()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n, err := f.readAt(b, f.pos, "read")
	f.pos += int64(n)
	if err == nil && n == 0 && len(b) > 0 {
		err = io.EOF
	}
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	vrt.Yield()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_RDONLY {
		if rfault("seek") {
			return 0, ErrIO
		}
	} else if wfault("seek") {
		return 0, ErrIO
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += f.ino.size()
	}
	if off < 0 {
		return 0, &PathError{Op: "seek", Path: f.name, Err: ErrInvalid}
	}
	f.pos = off
	return off, nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if wfault("sync") {
		return ErrIO
	}
	jot(f.name, 1, 0, nil)
	return nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if n < 0 {
		return ErrInvalid
	}
	if wfault("truncate") {
		return ErrIO
	}
	if i := f.ino; i.gap > 0 && n < i.size() {
		switch {
		case n >= i.hole+i.gap:
			i.data = i.data[: n-i.gap : n-i.gap]
		case n > i.hole:
			i.data, i.gap = i.data[:i.hole:i.hole], n-i.hole
		default:
			i.data, i.gap = i.data[:n:n], 0
		}
	} else if i.gap > 0 {
		f.writeAt(make([]byte, n-i.size()), i.size())
	} else if n <= int64(len(f.ino.data)) {
		f.ino.data = f.ino.data[:n:n]
	} else {
		f.writeAt(make([]byte, n-int64(len(f.ino.data))), int64(len(f.ino.data)))
	}
	jot(f.name, 2, n, nil)
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	f.closed = true
	if Tracking && f.std == 0 {
		Live--
		CloseFails--
		if CloseFails == -1 {
			return ErrIO
		}
	}
	if f.std == 0 && f.flag&3 != O_RDONLY {
		if wfault("close") {
			return ErrIO
		}
		jot(f.name, 4, 0, nil)
	}
	return nil
}

func (f *File) Name() string                  { return f.name }
func (f *File) Chmod(m FileMode) error        { return nil }
func (f *File) SetDeadline(t time.Time) error { return nil }

type fileInfo struct {
	name string
	size int64
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() FileMode     { return 0644 }
func (i *fileInfo) ModTime() time.Time { return time.Time{} }
func (i *fileInfo) IsDir() bool        { return false }
func (i *fileInfo) Sys() any           { return nil }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	onRead()
	if rfault("stat") {
		return nil, ErrIO
	}
	return &fileInfo{f.name, f.ino.size()}, nil
}

func Stat(name string) (FileInfo, error) {
	onRead()
	i := files[name]
	if i == nil {
		return nil, &PathError{Op: "stat", Path: name, Err: ErrNotExist}
	}
	return &fileInfo{name, i.size()}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	if files[name] == nil {
		return &PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	delete(files, name)
	return nil
}
func RemoveAll(name string) error { delete(files, name); return nil }

func Rename(a, b string) error {
	i := files[a]
	if i == nil {
		return &PathError{Op: "rename", Path: a, Err: ErrNotExist}
	}
	if wfault("rename") {
		return ErrIO
	}
	delete(files, a)
	files[b] = i
	return nil
}

func Truncate(name string, n int64) error {
	i := files[name]
	if i == nil {
		return &PathError{Op: "truncate", Path: name, Err: ErrNotExist}
	}
	f := &File{ino: i, name: name, flag: O_RDWR}
	return f.Truncate(n)
}

func ReadFile(name string) ([]byte, error) {
	onRead()
	i := files[name]
	if i == nil {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	b := make([]byte, len(i.data))
	copy(b, i.data)
	return b, nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	b := make([]byte, len(data))
	copy(b, data)
	files[name] = &inode{name: name, data: b}
	return nil
}

func MkdirAll(name string, perm FileMode) error { return nil }
func Mkdir(name string, perm FileMode) error    { return nil }
func MkdirTemp(dir, pat string) (string, error) { return "/tmpdir", nil }
func TempDir() string                           { return "/tmp" }
func CreateTemp(dir, pat string) (*File, error) { return Create(dir + "/" + pat + "tmp") }
func Getenv(k string) string                    { return "" }
func LookupEnv(k string) (string, bool)         { return "", false }
func Getpid() int                               { return 1 }
func IsNotExist(err error) bool                 { return verrors.Is(err, ErrNotExist) }
func IsExist(err error) bool                    { return verrors.Is(err, ErrExist) }
func Exit(code int)                             { vrt.Exit(code) }

// StdoutTo takes what is written to Stdout, if set.
var StdoutTo func(b []byte)

// TakeStdout returns and clears what was printed.
func TakeStdout() string {
	s := Stdout.out
	Stdout.out = ""
	return s
}
func TakeStderr() string {
	s := Stderr.out
	Stderr.out = ""
	return s
}
