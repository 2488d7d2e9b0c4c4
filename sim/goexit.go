package zsim

import "runtime"

func goexit() { runtime.Goexit() }

func stack() string {
	b := make([]byte, 16384)
	return string(b[:runtime.Stack(b, false)])
}
