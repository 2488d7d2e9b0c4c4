//go:build race

package zsim

// Y is called before every statement of the instrumented code.
//
//go:noinline
func Y() {
	countdown--
	if countdown < 0 {
		ySlow()
	}
}

// YV is called between the load and the store of a split statement.
//
//go:noinline
func YV() {
	countdown--
	if countdown < 0 {
		ySlow()
	}
}
