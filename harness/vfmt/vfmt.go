// Package vfmt stands in for fmt under the symbolic engine: numbers stay
// symbolic inside the produced strings.
package vfmt

import (
	"io"

	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

type Stringer interface{ String() string }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func prep(a []any) []any {
	out := make([]any, len(a))
	for i, x := range a {
		switch y := x.(type) {
		case error:
			out[i] = y.Error()
		case interface{ String() string }:
			out[i] = y.String()
		default:
			out[i] = x
		}
	}
	return out
}

func Sprintf(format string, a ...any) string { return vrt.Sprintf(format, prep(a)) }

func Errorf(format string, a ...any) error {
	e := &wrapError{}
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range a {
				if er, ok := x.(error); ok {
					e.err = er
				}
			}
		}
	}
	e.msg = Sprintf(format, a...)
	return e
}

func lnFormat(n int) string {
	f := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			f += " "
		}
		f += "%v"
	}
	return f + "\n"
}

func isStr(x any) bool { _, ok := x.(string); return ok }

func plainFormat(a []any) string {
	f := ""
	for i := range a {
		if i > 0 && !isStr(a[i]) && !isStr(a[i-1]) {
			f += " "
		}
		f += "%v"
	}
	return f
}

func Sprintln(a ...any) string { return Sprintf(lnFormat(len(a)), a...) }
func Sprint(a ...any) string   { return Sprintf(plainFormat(a), a...) }

func out(w io.Writer, s string) (int, error) {
	if f, ok := w.(interface{ WriteString(string) (int, error) }); ok {
		return f.WriteString(s)
	}
	return w.Write([]byte(s))
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) { return out(w, Sprintf(format, a...)) }
func Fprintln(w io.Writer, a ...any) (int, error)               { return out(w, Sprintln(a...)) }
func Fprint(w io.Writer, a ...any) (int, error)                 { return out(w, Sprint(a...)) }
func Printf(format string, a ...any) (int, error) {
	return vos.Stdout.WriteString(Sprintf(format, a...))
}
func Println(a ...any) (int, error) { return vos.Stdout.WriteString(Sprintln(a...)) }
func Print(a ...any) (int, error)   { return vos.Stdout.WriteString(Sprint(a...)) }
func Appendf(b []byte, format string, a ...any) []byte {
	return append(b, Sprintf(format, a...)...)
}
