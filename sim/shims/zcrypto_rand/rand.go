package rand

import "github.com/vivint/rothko/internal/zsim"

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(zsim.Rand63())
	}
	return len(b), nil
}

var Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
