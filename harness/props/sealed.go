package props

import (
	"os"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/unidoc/unitype/verifmon/mon"
)

// sealed gives `fn` a copy of `data` in memory that cannot be written, and fails the case when it is written to all the
// same: a value changed and put back is seen by whoever reads it in between. What `fn` is given ends at a page that cannot
// be touched at all.
func sealed[T any](c *mon.C, data []T, what func() string, fn func(data []T)) (ok bool) {
	if len(data) == 0 {
		fn(nil)
		return true
	}
	page := os.Getpagesize()
	size := len(data) * int(unsafe.Sizeof(data[0]))
	n := (size + page - 1) / page * page
	mem, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	defer syscall.Munmap(mem)
	in := unsafe.Slice((*T)(unsafe.Pointer(&mem[n-size])), len(data))
	copy(in, data)
	if err := syscall.Mprotect(mem[:n], syscall.PROT_READ); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(mem[n:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		fault, isFault := r.(interface{ Addr() uintptr })
		if !isFault {
			panic(r)
		}
		at := int(fault.Addr()) - int(uintptr(unsafe.Pointer(&in[0])))
		if at < -page || at >= size+page {
			panic(r)
		}
		ok = false
		if at >= size {
			c.Fail("memory touched beyond its argument", "%s: the argument has %d bytes, touched at byte %d", what(), size, at)
			return
		}
		c.Fail("memory written that is only to be read", "%s: the argument has %d bytes, written at byte %d", what(), size, at)
	}()
	c.Count("arguments in memory that cannot be written", 1)
	fn(in)
	return true
}
