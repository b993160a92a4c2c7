//go:build verifmc && verifhooks

package main

import (
	"fmt"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

// realNow reads the clock behind the hook.
func realNow() time.Time {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 0, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Unix(ts.Sec, ts.Nsec)
}

// setClock fixes the wall clock of the code under test; every reading advances it by step.
func setClock(t time.Time, step time.Duration) {
	cur := t
	time.VerifNow = func() (int64, int64) {
		s, n := cur.Unix(), int64(cur.Nanosecond())
		cur = cur.Add(step)
		return s, n
	}
}

func clearClock() { time.VerifNow = nil }

func setMapSeed(s uint64) { runtime.VerifSetMapSeed(s) }

var mapHook func(size uint64) uint64

func setMapHook(f func(size uint64) uint64) {
	mapHook = f
	runtime.VerifSetMapHook(f)
}

// quietMaps runs f without exploring its map iterations.
func quietMaps(f func()) {
	runtime.VerifSetMapHook(nil)
	f()
	runtime.VerifSetMapHook(mapHook)
}

// mapChoices is the number of distinct walks over a map of n entries that are explored: every start
// in both directions.
func mapChoices(n uint64) int {
	switch {
	case n <= 2:
		return int(n)
	case n <= 8:
		return int(2 * n)
	}
	return 8
}

func mapWalk(n uint64, c int) uint64 {
	switch {
	case n <= 2:
		return uint64(c)
	case n <= 8:
		if uint64(c) >= n {
			return 8 | (uint64(c) - n)
		}
		return uint64(c)
	}
	return uint64(c) * 5
}

// mapOrders runs f under map iteration orders: all combinations of walks as long as there are no more
// than limit, else every walk for all iterations at once and every single and (while the limit allows) every pair
// of deviations from the first walk.  It gives the number of runs and whether all combinations were tried.
func mapOrders(limit int, f func(order string)) (runs int, full bool) {
	var sizes []uint64
	run := func(pick func(i int, n uint64) int, name string) {
		sizes = sizes[:0]
		setMapHook(func(n uint64) uint64 {
			i := len(sizes)
			sizes = append(sizes, n)
			return mapWalk(n, pick(i, n))
		})
		defer setMapHook(nil)
		runs++
		f(name)
	}
	run(func(i int, n uint64) int { return 0 }, "first")
	total := 1
	for _, n := range sizes {
		if total *= mapChoices(n); total > limit {
			break
		}
	}
	if total <= limit {
		// depth-first over the choices actually met
		var path []int
		for {
			var width []int
			run(func(i int, n uint64) int {
				width = append(width, mapChoices(n))
				if i < len(path) {
					return path[i]
				}
				path = append(path, 0)
				return 0
			}, fmt.Sprint("walks ", path))
			path = path[:len(width)]
			k := len(path) - 1
			for k >= 0 && path[k]+1 >= width[k] {
				k--
			}
			if k < 0 {
				return runs, true
			}
			path = append(path[:k:k], path[k]+1)
			if runs > 4*limit {
				return runs, false
			}
		}
	}
	for c := 1; c < 16; c++ {
		run(func(i int, n uint64) int { return c % mapChoices(n) }, fmt.Sprint("walk ", c, " everywhere"))
	}
	run(func(i int, n uint64) int { return 0 }, "first")
	base := append([]uint64(nil), sizes...)
	type dev struct{ i, c int }
	var devs []dev
	for i, n := range base {
		for c := 1; c < mapChoices(n); c++ {
			devs = append(devs, dev{i, c})
		}
	}
	for _, d := range devs {
		if runs >= limit {
			return runs, false
		}
		run(func(i int, n uint64) int {
			if i == d.i {
				return d.c
			}
			return 0
		}, fmt.Sprint("walk ", d.c, " at iteration ", d.i))
	}
	for a := range devs {
		for b := a + 1; b < len(devs); b++ {
			if devs[a].i == devs[b].i {
				continue
			}
			if runs >= limit {
				return runs, false
			}
			run(func(i int, n uint64) int {
				if i == devs[a].i {
					return devs[a].c
				}
				if i == devs[b].i {
					return devs[b].c
				}
				return 0
			}, fmt.Sprint("walks ", devs[a], " and ", devs[b]))
		}
	}
	return runs, false
}

// rawIO reads or writes without the hooks.
func rawIO(trap uintptr, fd int, b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	n, _, e := syscall.RawSyscall(trap, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
	if e != 0 {
		return -1, e
	}
	return int(n), nil
}

func rawRename(from, to string) error {
	a, err := syscall.BytePtrFromString(from)
	if err != nil {
		return err
	}
	b, err := syscall.BytePtrFromString(to)
	if err != nil {
		return err
	}
	if _, _, e := syscall.Syscall(syscall.SYS_RENAME, uintptr(unsafe.Pointer(a)), uintptr(unsafe.Pointer(b)), 0); e != 0 {
		return e
	}
	return nil
}
