package runtime

import "github.com/vivint/rothko/internal/zsim"

// MaxProcs is what the simulated machine reports.
var MaxProcs = 4

func GOMAXPROCS(n int) int { return MaxProcs }
func NumCPU() int          { return MaxProcs }
func Gosched()             { zsim.Yield() }
func LockOSThread()        {}
func UnlockOSThread()      {}
func GC()                  {}
