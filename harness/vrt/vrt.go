// Package vrt is the harness interface. Under the symbolic engine every
// function here is intercepted; the bodies in vrt_native.go serve the native
// replay of a counterexample or of a sampled path.
package vrt

// RuntimeError stands for runtime.Error values raised by the engine.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }
func (e RuntimeError) RuntimeError() {}
