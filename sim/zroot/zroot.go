// Package zroot is the outermost frame of every task. Unlike the simulator it
// is built with race instrumentation: the race detector drops the outermost
// frame of every stack it reports, and this one is expendable.
package zroot

var X int

//go:noinline
func Call(fn func()) {
	fn()
}
