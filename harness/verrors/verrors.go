// Package verrors stands in for errors under the symbolic engine.
package verrors

import "vibe-lsm/zzverif/vrt"

type errorString struct{ s string }

func (e *errorString) Error() string { return e.s }

func New(text string) error { return &errorString{text} }

func Unwrap(err error) error {
	u, ok := err.(interface{ Unwrap() error })
	if !ok {
		return nil
	}
	return u.Unwrap()
}

func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == nil && target == nil
	}
	for {
		if vrt.SameErr(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func As(err error, target any) bool {
	for err != nil {
		if vrt.AsOne(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && As(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type joinError struct{ errs []error }

func (e *joinError) Error() string {
	s := ""
	for i, x := range e.errs {
		if i > 0 {
			s += "\n"
		}
		s += x.Error()
	}
	return s
}
func (e *joinError) Unwrap() []error { return e.errs }

func Join(errs ...error) error {
	e := &joinError{}
	for _, x := range errs {
		if x != nil {
			e.errs = append(e.errs, x)
		}
	}
	if len(e.errs) == 0 {
		return nil
	}
	return e
}
