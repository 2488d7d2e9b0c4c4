package zsim

import "reflect"

// Deny replaces a function that would leave the simulation: calling it ends
// the run without a verdict.
func Deny[T any](name string, real T) T {
	t := reflect.TypeOf(real)
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		Unsupported("%s is not simulated", name)
		out := make([]reflect.Value, t.NumOut())
		for i := range out {
			out[i] = reflect.Zero(t.Out(i))
		}
		return out
	}).Interface().(T)
}
