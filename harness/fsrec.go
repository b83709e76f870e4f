//go:build fsrec

package main

/*
#cgo LDFLAGS: -ldl
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/types.h>

// The recorder of file operations below one directory. The definitions of open, write, ... in this program take the place of
// those of libc for the calls made by librocksdb.so; the Go side reports through the patched package syscall.

enum { K_OPEN = 1, K_CLOSE, K_WRITE, K_SYNC, K_TRUNC, K_UNLINK, K_RENAME, K_MKDIR, K_MARK, K_TRUNCPATH };

typedef struct { int kind; int fd; int64_t off; int64_t len; char *data; char *path; char *path2; } fsop;

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static volatile int recording;
static char prefix[4096];
static size_t plen;
static fsop *ops;
static int64_t nops, cops;
static unsigned char tracked[1 << 16];

static int inside(const char *p) { return plen && strncmp(p, prefix, plen) == 0; }

static int64_t add(int kind, int fd, int64_t off, const char *data, int64_t len, const char *path, const char *path2) {
	if (nops == cops) {
		cops = cops ? cops * 2 : 4096;
		ops = realloc(ops, cops * sizeof(fsop));
	}
	fsop *o = &ops[nops++];
	memset(o, 0, sizeof *o);
	o->kind = kind; o->fd = fd; o->off = off; o->len = len;
	if (data && len > 0) { o->data = malloc(len); memcpy(o->data, data, len); }
	if (path) o->path = strdup(path);
	if (path2) o->path2 = strdup(path2);
	return nops - 1;
}

void fs_start(const char *p) {
	pthread_mutex_lock(&mu);
	strncpy(prefix, p, sizeof prefix - 1);
	plen = strlen(prefix);
	memset(tracked, 0, sizeof tracked);
	recording = 1;
	pthread_mutex_unlock(&mu);
}
void fs_stop(void) { recording = 0; }
void fs_clear(void) {
	pthread_mutex_lock(&mu);
	recording = 0;
	for (int64_t i = 0; i < nops; i++) { free(ops[i].data); free(ops[i].path); free(ops[i].path2); }
	nops = 0;
	plen = 0;
	pthread_mutex_unlock(&mu);
}
int64_t fs_n(void) { return nops; }
fsop *fs_op(int64_t i) { return &ops[i]; }
int fs_tracked(int fd) { return recording && fd >= 0 && fd < (1 << 16) && tracked[fd]; }
int fs_recording(void) { return recording; }
int64_t fs_mark(int64_t v) {
	pthread_mutex_lock(&mu);
	int64_t r = add(K_MARK, 0, v, 0, 0, 0, 0);
	pthread_mutex_unlock(&mu);
	return r;
}
void fs_opened(int fd, const char *path, int flags) {
	if (!recording || fd < 0 || fd >= (1 << 16) || !inside(path)) return;
	pthread_mutex_lock(&mu);
	tracked[fd] = 1;
	add(K_OPEN, fd, flags, 0, 0, path, 0);
	pthread_mutex_unlock(&mu);
}
void fs_closing(int fd) {
	if (!fs_tracked(fd)) return;
	pthread_mutex_lock(&mu);
	tracked[fd] = 0;
	add(K_CLOSE, fd, 0, 0, 0, 0, 0);
	pthread_mutex_unlock(&mu);
}
void fs_wrote(int fd, const void *p, int64_t n, int64_t off) {
	if (n <= 0 || !fs_tracked(fd)) return;
	if (off < 0) off = lseek(fd, 0, SEEK_CUR) - n;
	pthread_mutex_lock(&mu);
	add(K_WRITE, fd, off, p, n, 0, 0);
	pthread_mutex_unlock(&mu);
}
void fs_synced(int fd, int64_t tok) {
	if (!fs_tracked(fd)) return;
	pthread_mutex_lock(&mu);
	add(K_SYNC, fd, tok, 0, 0, 0, 0);
	pthread_mutex_unlock(&mu);
}
void fs_truncated(int fd, int64_t n) {
	if (!fs_tracked(fd)) return;
	pthread_mutex_lock(&mu);
	add(K_TRUNC, fd, n, 0, 0, 0, 0);
	pthread_mutex_unlock(&mu);
}
void fs_path(int kind, const char *a, const char *b, int64_t n) {
	if (!recording || !inside(a)) return;
	pthread_mutex_lock(&mu);
	add(kind, 0, n, 0, 0, a, b);
	pthread_mutex_unlock(&mu);
}
int64_t fs_tok(void) {
	pthread_mutex_lock(&mu);
	int64_t r = nops;
	pthread_mutex_unlock(&mu);
	return r;
}

#define EXPORT __attribute__((visibility("default")))

EXPORT int open(const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, mode_t);
		va_end(ap);
	}
	int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	if (fd >= 0) fs_opened(fd, path, flags);
	return fd;
}
EXPORT int open64(const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, mode_t);
		va_end(ap);
	}
	int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	if (fd >= 0) fs_opened(fd, path, flags);
	return fd;
}
EXPORT int close(int fd) { fs_closing(fd); return syscall(SYS_close, fd); }
EXPORT ssize_t write(int fd, const void *p, size_t n) {
	ssize_t r = syscall(SYS_write, fd, p, n);
	int e = errno;
	fs_wrote(fd, p, r, -1);
	errno = e;
	return r;
}
EXPORT ssize_t pwrite(int fd, const void *p, size_t n, off_t off) {
	ssize_t r = syscall(SYS_pwrite64, fd, p, n, off);
	int e = errno;
	fs_wrote(fd, p, r, off);
	errno = e;
	return r;
}
EXPORT ssize_t pwrite64(int fd, const void *p, size_t n, off_t off) { return pwrite(fd, p, n, off); }
EXPORT int fsync(int fd) {
	int64_t t = fs_tok();
	int r = syscall(SYS_fsync, fd);
	if (r == 0) fs_synced(fd, t);
	return r;
}
EXPORT int fdatasync(int fd) {
	int64_t t = fs_tok();
	int r = syscall(SYS_fdatasync, fd);
	if (r == 0) fs_synced(fd, t);
	return r;
}
EXPORT int ftruncate(int fd, off_t n) {
	int r = syscall(SYS_ftruncate, fd, n);
	if (r == 0) fs_truncated(fd, n);
	return r;
}
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int rename(const char *a, const char *b) {
	int r = syscall(SYS_rename, a, b);
	if (r == 0) fs_path(K_RENAME, a, b, 0);
	return r;
}
EXPORT int unlink(const char *a) {
	int r = syscall(SYS_unlink, a);
	if (r == 0) fs_path(K_UNLINK, a, 0, 0);
	return r;
}
EXPORT int mkdir(const char *a, mode_t m) {
	int r = syscall(SYS_mkdir, a, m);
	if (r == 0) fs_path(K_MKDIR, a, 0, 0);
	return r;
}
*/
import "C"

import (
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

var fsDelay struct {
	sync.Mutex
	r   *rand.Rand
	pct int
}

func init() {
	cs := func(s string) *C.char { return C.CString(s) }
	syscall.VerifPre = func(kind, fd int) int64 {
		if C.fs_recording() == 0 || C.fs_tracked(C.int(fd)) == 0 {
			return 0
		}
		// a slow disk: perturbs the order of flushing and committing
		fsDelay.Lock()
		d := 0
		if fsDelay.r != nil && fsDelay.r.Intn(100) < fsDelay.pct {
			d = fsDelay.r.Intn(4000)
		}
		fsDelay.Unlock()
		if d > 0 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
		if kind == 1 {
			return int64(C.fs_tok())
		}
		return 0
	}
	syscall.VerifWrite = func(fd int, p []byte, off int64) {
		if C.fs_recording() != 0 && C.fs_tracked(C.int(fd)) != 0 {
			C.fs_wrote(C.int(fd), unsafe.Pointer(&p[0]), C.int64_t(len(p)), C.int64_t(off))
		}
	}
	syscall.VerifOpen = func(fd int, path string, flags int) {
		if C.fs_recording() != 0 {
			p := cs(path)
			C.fs_opened(C.int(fd), p, C.int(flags))
			C.free(unsafe.Pointer(p))
		}
	}
	syscall.VerifClose = func(fd int) {
		if C.fs_recording() != 0 {
			C.fs_closing(C.int(fd))
		}
	}
	syscall.VerifSync = func(fd int, tok int64) {
		if C.fs_recording() != 0 {
			C.fs_synced(C.int(fd), C.int64_t(tok))
		}
	}
	syscall.VerifTrunc = func(fd int, size int64) {
		if C.fs_recording() != 0 {
			C.fs_truncated(C.int(fd), C.int64_t(size))
		}
	}
	syscall.VerifPath = func(kind int, a, b string, size int64) {
		if C.fs_recording() != 0 {
			pa, pb := cs(a), cs(b)
			k := []C.int{C.K_UNLINK, C.K_TRUNCPATH, C.K_RENAME, C.K_MKDIR}[kind]
			C.fs_path(k, pa, pb, C.int64_t(size))
			C.free(unsafe.Pointer(pa))
			C.free(unsafe.Pointer(pb))
		}
	}
}

func fsStart(dir string, delaySeed int64, pct int) {
	C.fs_clear()
	fsDelay.Lock()
	fsDelay.r, fsDelay.pct = rand.New(rand.NewSource(delaySeed)), pct
	fsDelay.Unlock()
	p := C.CString(dir)
	C.fs_start(p)
	C.free(unsafe.Pointer(p))
}

func fsMark(v int64) int { return int(C.fs_mark(C.int64_t(v))) }

type fsOp struct {
	kind, fd int
	off      int64
	data     []byte
	a, b     string
}

const (
	kOpen = 1 + iota
	kClose
	kWrite
	kSync
	kTrunc
	kUnlink
	kRename
	kMkdir
	kMark
	kTruncPath
)

func fsTake() []fsOp {
	C.fs_stop()
	n := int(C.fs_n())
	res := make([]fsOp, n)
	for i := range res {
		o := C.fs_op(C.int64_t(i))
		res[i] = fsOp{kind: int(o.kind), fd: int(o.fd), off: int64(o.off)}
		if o.data != nil {
			res[i].data = C.GoBytes(unsafe.Pointer(o.data), C.int(o.len))
		}
		if o.path != nil {
			res[i].a = C.GoString(o.path)
		}
		if o.path2 != nil {
			res[i].b = C.GoString(o.path2)
		}
	}
	C.fs_clear()
	return res
}

// The simulated disk.
type fsNode struct {
	data    []byte
	durable int    // bytes from the start that a sync has covered
	lens    []fsAt // length after each write since the last sync
}

type fsAt struct{ op, n int }

type fsDisk struct {
	root  string
	files map[string]*fsNode
	dirs  map[string]bool
	fds   map[int]*fsNode
	n     int // operations applied
}

func newDisk(root string) *fsDisk {
	return &fsDisk{root: root, files: map[string]*fsNode{}, dirs: map[string]bool{}, fds: map[int]*fsNode{}}
}

// load takes the present content of the directory as durable.
func (d *fsDisk) load() {
	_ = filepath.Walk(d.root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			infraf("%v", err)
		}
		if fi.IsDir() {
			d.dirs[p] = true
		} else {
			b, err := os.ReadFile(p)
			if err != nil {
				infraf("%v", err)
			}
			d.files[p] = &fsNode{data: b, durable: len(b)}
		}
		return nil
	})
}

func (d *fsDisk) apply(o fsOp) {
	i := d.n
	d.n++
	switch o.kind {
	case kOpen:
		f := d.files[o.a]
		if f == nil {
			if int(o.off)&syscall.O_CREAT == 0 {
				return // a directory
			}
			f = &fsNode{}
			d.files[o.a] = f
		}
		if int(o.off)&syscall.O_TRUNC != 0 {
			f.data, f.durable, f.lens = nil, 0, nil
		}
		d.fds[o.fd] = f
	case kClose:
		delete(d.fds, o.fd)
	case kWrite:
		f := d.fds[o.fd]
		if f == nil {
			return
		}
		end := int(o.off) + len(o.data)
		for len(f.data) < end {
			f.data = append(f.data, make([]byte, end-len(f.data))...)
		}
		copy(f.data[o.off:], o.data)
		f.lens = append(f.lens, fsAt{i, len(f.data)})
	case kSync:
		f := d.fds[o.fd]
		if f == nil {
			return
		}
		var rest []fsAt
		for _, l := range f.lens {
			if l.op < int(o.off) { // written before the sync began
				if l.n > f.durable {
					f.durable = l.n
				}
			} else {
				rest = append(rest, l)
			}
		}
		f.lens = rest
	case kTrunc, kTruncPath:
		f := d.fds[o.fd]
		if o.kind == kTruncPath {
			f = d.files[o.a]
		}
		if f == nil {
			return
		}
		n := int(o.off)
		for len(f.data) < n {
			f.data = append(f.data, make([]byte, n-len(f.data))...)
		}
		f.data = f.data[:n]
		if f.durable > n {
			f.durable = n
		}
		for j := range f.lens {
			if f.lens[j].n > n {
				f.lens[j].n = n
			}
		}
	case kUnlink:
		delete(d.files, o.a)
		delete(d.dirs, o.a)
	case kRename:
		if f := d.files[o.a]; f != nil {
			delete(d.files, o.a)
			d.files[o.b] = f
		}
	case kMkdir:
		d.dirs[o.a] = true
	}
}

// loss modes
const (
	lossNone = iota
	lossAll
	lossRandom
	lossZero // lost data in the entry and twig files reads as zeros
)

// write puts the disk as it is found after a crash into dir.
func (d *fsDisk) write(dir string, loss int, r *Rand) (lost int) {
	if err := os.MkdirAll(dir, 0700); err != nil {
		infraf("%v", err)
	}
	to := func(p string) string { return dir + p[len(d.root):] }
	var ds []string
	for p := range d.dirs {
		ds = append(ds, p)
	}
	sort.Strings(ds)
	for _, p := range ds {
		if err := os.MkdirAll(to(p), 0700); err != nil {
			infraf("%v", err)
		}
	}
	var fs []string
	for p := range d.files {
		fs = append(fs, p)
	}
	sort.Strings(fs)
	for _, p := range fs {
		f := d.files[p]
		data := f.data
		n := len(data)
		if f.durable < n {
			switch loss {
			case lossAll:
				n = f.durable
			case lossRandom:
				n = r.Range(f.durable, n)
			case lossZero:
				n = r.Range(f.durable, n)
				if filepath.Ext(filepath.Dir(p)) != ".db" {
					data = append(append([]byte{}, data[:n]...), make([]byte, len(data)-n)...)
					n = len(data)
				}
			}
			lost += len(f.data) - n
		}
		if err := os.WriteFile(to(p), data[:n], 0700); err != nil {
			infraf("%v", err)
		}
	}
	return
}
