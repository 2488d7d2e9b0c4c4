//go:build !race

package zsim

// Y is called before every statement of the instrumented code.
func Y() {
	countdown--
	if countdown < 0 {
		ySlow()
	}
}

// YV is called between the load and the store of a split statement.
func YV() {
	countdown--
	if countdown < 0 {
		ySlow()
	}
}
