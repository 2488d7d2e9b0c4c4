package signal

import (
	realctx "context"
	realos "os"
	"syscall"
	"unsafe"

	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/zcontext"
)

func Notify(c chan<- realos.Signal, sig ...realos.Signal) {
	var l []int
	for _, s := range sig {
		if x, ok := s.(syscall.Signal); ok {
			l = append(l, int(x))
		}
	}
	zsim.SigNotify(*(*uintptr)(unsafe.Pointer(&c)), l, func(sig int) {
		zsim.TrySendNow(c, realos.Signal(syscall.Signal(sig)))
	})
}

func Stop(c chan<- realos.Signal) { zsim.SigStop(*(*uintptr)(unsafe.Pointer(&c))) }

func Ignore(sig ...realos.Signal)    { zsim.Unsupported("signal.Ignore") }
func Ignored(sig realos.Signal) bool { return false }
func Reset(sig ...realos.Signal)     { zsim.Unsupported("signal.Reset") }

func NotifyContext(parent realctx.Context, sig ...realos.Signal) (realctx.Context, realctx.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan realos.Signal, 1)
	Notify(ch, sig...)
	if ctx.Err() == nil {
		zsim.Go(func() {
			done := ctx.Done()
			if zsim.Select(false, zsim.RecvCase((<-chan realos.Signal)(ch)), zsim.RecvCase(done)) == 0 {
				cancel()
			}
		})
	}
	return ctx, func() {
		cancel()
		Stop(ch)
	}
}
