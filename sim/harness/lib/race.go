package lib

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/vivint/rothko/internal/zsim"
)

// The race detector writes its reports to a file that is read after every
// run.
var (
	raceLog string
	raceOff int64
	// RaceNoise counts reports about the simulator or the harness themselves.
	RaceNoise int64
	raceDump  = os.Getenv("ZSIM_RACEDUMP") != ""
)

func raceSetup() {
	if !zsim.RaceEnabled {
		return
	}
	if raceLog = os.Getenv("ZSIM_RACELOG"); raceLog == "" {
		f, err := os.CreateTemp("", "zrace")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(5)
		}
		f.Close()
		os.Remove(f.Name())
		env := append(os.Environ(), "ZSIM_RACELOG="+f.Name(),
			"GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 log_path="+f.Name())
		err = syscall.Exec("/proc/self/exe", os.Args, env)
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	raceLog = fmt.Sprintf("%s.%d", raceLog, os.Getpid())
}

func raceCleanup() {
	if raceLog != "" {
		os.Remove(raceLog)
	}
}

// raceReports returns the first race between two accesses of the code under
// test that was reported since the last call.
func raceReports() string {
	if raceLog == "" {
		return ""
	}
	f, err := os.Open(raceLog)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= raceOff {
		return ""
	}
	b := make([]byte, st.Size()-raceOff)
	n, _ := f.ReadAt(b, raceOff)
	raceOff = st.Size()
	found := ""
	for _, blk := range strings.Split(string(b[:n]), "==================\n") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		if d := raceBlock(blk); d == "" {
			RaceNoise++
			if raceDump {
				fmt.Println("NOISE", blk)
			}
		} else if found == "" {
			found = d
		}
	}
	return found
}

type raceStack struct {
	what   string
	frames []string // function, file:line pairs joined by a space
}

func raceBlock(blk string) string {
	var st []*raceStack
	var cur *raceStack
	lines := strings.Split(blk, "\n")
	for i, l := range lines {
		switch {
		case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
			cur = &raceStack{what: strings.TrimSpace(l[:strings.Index(l, " at 0x")])}
			st = append(st, cur)
		case strings.HasPrefix(l, "Goroutine"):
			cur = nil
		case cur != nil && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      "):
			f := strings.TrimSuffix(strings.TrimSpace(l), "()")
			if i+1 < len(lines) {
				loc := strings.Fields(lines[i+1])
				if len(loc) > 0 {
					f += " " + loc[0]
				}
			}
			cur.frames = append(cur.frames, f)
		}
	}
	if len(st) < 2 {
		return ""
	}
	var out []string
	for _, s := range st[:2] {
		for _, f := range s.frames {
			if strings.HasPrefix(f, "runtime.Goexit") {
				return "" // deferred calls of a process that was killed
			}
		}
		if !ownAccess(s.frames) {
			return ""
		}
		w := strings.ToLower(s.what)
		var fs []string
		for _, f := range s.frames {
			if strings.Contains(f, "/internal/zsim/") && strings.Contains(f, "harness") || len(fs) == 6 {
				break
			}
			p := strings.SplitN(f, " ", 2)
			if len(p) == 2 {
				p[1] = p[1][strings.LastIndex(p[1], "/")+1:]
			}
			fs = append(fs, strings.Join(p, " "))
		}
		out = append(out, w+" in "+strings.Join(fs, " < "))
	}
	return "unsynchronised accesses to the same memory:\n" + strings.Join(out, "\n")
}

// ownAccess reports whether the innermost frame that is not the standard
// library's belongs to the code under test (the repository or an
// instrumented dependency).
func ownAccess(frames []string) bool {
	for _, f := range frames {
		fn, loc := f, ""
		if i := strings.Index(f, " "); i > 0 {
			fn, loc = f[:i], f[i+1:]
		}
		if strings.HasPrefix(loc, "/opt/veriftools/") || strings.Contains(loc, "/src/runtime/") || strings.HasPrefix(fn, "runtime.") {
			continue
		}
		if !strings.Contains(strings.SplitN(fn, "/", 2)[0], ".") && !strings.HasPrefix(fn, "main.") {
			continue // standard library
		}
		if strings.Contains(fn, "/internal/zsim.MapEnts") || strings.Contains(fn, "/internal/zsim.Ent[") {
			continue // an access made for the code under test
		}
		if strings.HasPrefix(fn, "main.") || strings.Contains(fn, "/internal/zsim") || strings.Contains(fn, "/internal/zroot") {
			return false
		}
		return true
	}
	return false
}
