#!/usr/bin/env python3
"""Write an instrumented copy of the parts of Go's package os that do file I/O, and an overlay file for
'go build -overlay'.  The copy calls os.VHook before, and os.VAfter after, each operation on a file.

usage: mkoverlay.py OUTDIR      (writes OUTDIR/overlay.json)"""
import json, os, subprocess, sys

out = sys.argv[1]
src = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src/os"
os.makedirs(out, exist_ok=True)

def patch(name, *subs):
    s = open(f"{src}/{name}").read()
    for old, new in subs:
        if s.count(old) != 1:
            sys.exit(f"mkoverlay: {name} does not contain exactly one {old!r}")
        s = s.replace(old, new)
    open(f"{out}/{name}", "w").write(s)
    return f"{src}/{name}", f"{out}/{name}"

replace = dict([
    patch("file_posix.go",
          ("func (f *File) Close() error {", "func (f *File) vClose() error {"),
          ("func (f *File) pread(b []byte, off int64) (n int, err error) {",
           "func (f *File) vpread(b []byte, off int64) (n int, err error) {"),
          ("func (f *File) read(b []byte) (n int, err error) {", "func (f *File) vread(b []byte) (n int, err error) {"),
          ("func (f *File) write(b []byte) (n int, err error) {", "func (f *File) vwrite(b []byte) (n int, err error) {"),
          ("func (f *File) pwrite(b []byte, off int64) (n int, err error) {",
           "func (f *File) vpwrite(b []byte, off int64) (n int, err error) {"),
          ("func (f *File) Truncate(size int64) error {", "func (f *File) vTruncate(size int64) error {"),
          ("func (f *File) Sync() error {", "func (f *File) vSync() error {")),
    patch("file_unix.go",
          ("func (f *File) seek(offset int64, whence int) (ret int64, err error) {",
           "func (f *File) vseek(offset int64, whence int) (ret int64, err error) {"),
          ("func openFileNolog(name string, flag int, perm FileMode) (*File, error) {",
           "func vopenFileNolog(name string, flag int, perm FileMode) (*File, error) {")),
    patch("stat_unix.go",
          ("func (f *File) Stat() (FileInfo, error) {", "func (f *File) vStat() (FileInfo, error) {")),
    patch("zero_copy_linux.go",
          ("func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {",
           "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n"
           "\tif vwatch(f) {\n\t\treturn 0, false, nil\n\t}")),
])
open(f"{out}/vhook.go", "w").write('''package os

import "io"

// VOp is an operation on a file that is about to happen or has happened.
type VOp struct {
	Name   string
	Kind   string // open write sync truncate seek close read pread stat
	Off    int64  // offset of a write or read, size of a truncate, target of a seek
	At     bool   // a write at a given offset: package os goes on after a short one
	Whence int
	Flag   int
	Data   []byte
}

// VHook is called before an operation; if it returns an error, only the first limit bytes of a
// write are carried out, nothing of other operations, and the error is returned.  io.EOF stands
// for a short write without error.
var VHook func(op *VOp) (limit int, err error)

// VAfter is called after an operation.
var VAfter func(op *VOp, n int64, err error)

func vwatch(f *File) bool { return VHook != nil && f != nil }

func vrun(op *VOp, do func(limit int) (int64, error)) (int64, error) {
	limit, err := VHook(op)
	var n int64
	if err != nil {
		if limit > 0 {
			n, _ = do(limit)
		}
		if err == io.EOF {
			err = nil
		}
	} else {
		n, err = do(-1)
	}
	if VAfter != nil {
		VAfter(op, n, err)
	}
	return n, err
}

func vcut(b []byte, limit int) []byte {
	if limit >= 0 && limit < len(b) {
		return b[:limit]
	}
	return b
}

func (f *File) Close() error {
	if !vwatch(f) {
		return f.vClose()
	}
	done := false
	var real error
	_, err := vrun(&VOp{Name: f.name, Kind: "close"}, func(int) (int64, error) {
		done = true
		real = f.vClose()
		return 0, real
	})
	if !done { // like close(2), a failing close still gives up the descriptor
		f.vClose()
	}
	return err
}

func (f *File) read(b []byte) (int, error) {
	if !vwatch(f) {
		return f.vread(b)
	}
	off, e := f.vseek(0, 1)
	if e != nil { // not a file
		return f.vread(b)
	}
	n, err := vrun(&VOp{Name: f.name, Kind: "read", Off: off, Data: b}, func(l int) (int64, error) {
		n, err := f.vread(vcut(b, l))
		return int64(n), err
	})
	return int(n), err
}

func (f *File) Stat() (FileInfo, error) {
	if !vwatch(f) {
		return f.vStat()
	}
	var fi FileInfo
	_, err := vrun(&VOp{Name: f.name, Kind: "stat"}, func(int) (int64, error) {
		var e error
		fi, e = f.vStat()
		return 0, e
	})
	if err != nil {
		return nil, err
	}
	return fi, nil
}

func (f *File) pread(b []byte, off int64) (int, error) {
	if !vwatch(f) {
		return f.vpread(b, off)
	}
	n, err := vrun(&VOp{Name: f.name, Kind: "pread", Off: off, Data: b}, func(l int) (int64, error) {
		n, err := f.vpread(vcut(b, l), off)
		return int64(n), err
	})
	return int(n), err
}

func (f *File) write(b []byte) (int, error) {
	if !vwatch(f) || f.stdoutOrErr {
		return f.vwrite(b)
	}
	w := 1
	if f.appendMode {
		w = 2
	}
	off, e := f.vseek(0, w)
	if e != nil { // not a file
		return f.vwrite(b)
	}
	n, err := vrun(&VOp{Name: f.name, Kind: "write", Off: off, At: true, Data: b}, func(l int) (int64, error) {
		n, err := f.vwrite(vcut(b, l))
		return int64(n), err
	})
	return int(n), err
}

func (f *File) pwrite(b []byte, off int64) (int, error) {
	if !vwatch(f) {
		return f.vpwrite(b, off)
	}
	n, err := vrun(&VOp{Name: f.name, Kind: "write", Off: off, At: true, Data: b}, func(l int) (int64, error) {
		n, err := f.vpwrite(vcut(b, l), off)
		return int64(n), err
	})
	return int(n), err
}

func (f *File) seek(offset int64, whence int) (int64, error) {
	if !vwatch(f) {
		return f.vseek(offset, whence)
	}
	return vrun(&VOp{Name: f.name, Kind: "seek", Off: offset, Whence: whence}, func(int) (int64, error) {
		return f.vseek(offset, whence)
	})
}

func (f *File) Truncate(size int64) error {
	if !vwatch(f) {
		return f.vTruncate(size)
	}
	_, err := vrun(&VOp{Name: f.name, Kind: "truncate", Off: size}, func(int) (int64, error) {
		return 0, f.vTruncate(size)
	})
	return err
}

func (f *File) Sync() error {
	if !vwatch(f) {
		return f.vSync()
	}
	_, err := vrun(&VOp{Name: f.name, Kind: "sync"}, func(int) (int64, error) { return 0, f.vSync() })
	return err
}

func openFileNolog(name string, flag int, perm FileMode) (*File, error) {
	if VHook == nil {
		return vopenFileNolog(name, flag, perm)
	}
	var f *File
	_, err := vrun(&VOp{Name: name, Kind: "open", Flag: flag}, func(int) (int64, error) {
		var e error
		f, e = vopenFileNolog(name, flag, perm)
		return 0, e
	})
	if err != nil {
		return nil, err
	}
	return f, nil
}
''')
# In the commands under test: VIBE_FAULT=k:mode makes the k-th operation on files whose name ends with
# VIBE_FAULT_NAME fail, and VIBE_FAULT_REPORT is a file that gets the kind of that operation.
open(f"{out}/vfault.go", "w").write('''package os

import (
	"sync"
	"syscall"
)

func init() {
	s := Getenv("VIBE_FAULT")
	if s == "" {
		return
	}
	k, i := 0, 0
	for ; i < len(s) && s[i] != ':'; i++ {
		k = 10*k + int(s[i]-'0')
	}
	mode, name, report := s[i+1:], Getenv("VIBE_FAULT_NAME"), Getenv("VIBE_FAULT_REPORT")
	var mu sync.Mutex
	count := 0
	VHook = func(op *VOp) (int, error) {
		if len(op.Name) < len(name) || op.Name[len(op.Name)-len(name):] != name || (op.Kind == "pread") != (mode == "read") || op.Kind == "open" || op.Kind == "read" || op.Kind == "stat" {
			return 0, nil
		}
		mu.Lock()
		defer mu.Unlock()
		count++
		if count < k || count > k && mode != "read" { // reads keep failing
			return 0, nil
		}
		if fd, err := syscall.Open(report, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0644); err == nil {
			syscall.Write(fd, []byte(op.Kind))
			syscall.Close(fd)
		}
		limit := 0
		switch {
		case mode == "part":
			limit = len(op.Data) / 2
		case mode == "late" && op.Kind == "write":
			limit = len(op.Data)
		case mode == "late":
			limit = 1
		}
		errnos := []syscall.Errno{syscall.EIO, syscall.EINVAL, syscall.ENOSPC, syscall.ENOTSUP, syscall.EDQUOT, syscall.EROFS, syscall.EFBIG}
		return limit, &PathError{Op: op.Kind, Path: op.Name, Err: errnos[k%len(errnos)]}
	}
}
''')
replace[f"{src}/vfault.go"] = f"{out}/vfault.go"
replace[f"{src}/vhook.go"] = f"{out}/vhook.go"
json.dump({"Replace": replace}, open(f"{out}/overlay.json", "w"), indent=1)
