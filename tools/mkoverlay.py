#!/usr/bin/env python3
"""mkoverlay.py OUTDIR: a Go overlay whose package syscall reports file operations to the recorder of check C06.
Only the harness of C06 is built with it. The code under test is not touched."""
import json, os, subprocess, sys
out = sys.argv[1]
root = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip()
src = root + '/src/syscall/'

def patch(name, edits):
    s = open(src + name).read()
    for old, new in edits:
        if s.count(old) != 1:
            sys.exit('mkoverlay: %s: %r occurs %d times' % (name, old, s.count(old)))
        s = s.replace(old, new)
    dst = os.path.join(out, name)
    open(dst, 'w').write(s)
    return {src + name: dst}

rep = {}
rep.update(patch('syscall_unix.go', [
    ('\t\tn, err = write(fd, p)\n',
     '\t\tif VerifPre != nil {\n\t\t\tVerifPre(0, fd)\n\t\t}\n\t\tn, err = write(fd, p)\n'
     '\t\tif VerifWrite != nil && n > 0 {\n\t\t\tVerifWrite(fd, p[:n], -1)\n\t\t}\n'),
    ('\tn, err = pwrite(fd, p, offset)\n',
     '\tif VerifPre != nil {\n\t\tVerifPre(0, fd)\n\t}\n\tn, err = pwrite(fd, p, offset)\n'
     '\tif VerifWrite != nil && n > 0 {\n\t\tVerifWrite(fd, p[:n], offset)\n\t}\n'),
    ('func Write(fd int, p []byte) (n int, err error) {',
     '// set before any recording starts\nvar (\n\tVerifPre   func(kind, fd int) int64\n\tVerifWrite func(fd int, p []byte, off int64)\n'
     '\tVerifOpen  func(fd int, path string, flags int)\n\tVerifClose func(fd int)\n\tVerifSync  func(fd int, tok int64)\n'
     '\tVerifTrunc func(fd int, size int64)\n\tVerifPath  func(kind int, path, path2 string, size int64)\n)\n\n'
     'func Write(fd int, p []byte) (n int, err error) {'),
]))
def fn(head, body):
    return head, body
rep.update(patch('zsyscall_linux_amd64.go', [
    ('func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n',
     'func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n'
     '\tif VerifOpen != nil {\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifOpen(fd, path, flags)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func unlinkat(dirfd int, path string, flags int) (err error) {\n',
     'func unlinkat(dirfd int, path string, flags int) (err error) {\n'
     '\tif VerifPath != nil {\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifPath(0, path, "", int64(flags))\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Fsync(fd int) (err error) {\n',
     'func Fsync(fd int) (err error) {\n'
     '\tif VerifSync != nil {\n\t\ttok := VerifPre(1, fd)\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifSync(fd, tok)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Fdatasync(fd int) (err error) {\n',
     'func Fdatasync(fd int) (err error) {\n'
     '\tif VerifSync != nil {\n\t\ttok := VerifPre(1, fd)\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifSync(fd, tok)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Ftruncate(fd int, length int64) (err error) {\n',
     'func Ftruncate(fd int, length int64) (err error) {\n'
     '\tif VerifTrunc != nil {\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifTrunc(fd, length)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Truncate(path string, length int64) (err error) {\n',
     'func Truncate(path string, length int64) (err error) {\n'
     '\tif VerifPath != nil {\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifPath(1, path, "", length)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n',
     'func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n'
     '\tif VerifPath != nil {\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifPath(2, oldpath, newpath, 0)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n',
     'func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n'
     '\tif VerifPath != nil {\n\t\tdefer func() {\n\t\t\tif err == nil {\n\t\t\t\tVerifPath(3, path, "", 0)\n\t\t\t}\n\t\t}()\n\t}\n'),
    ('func Close(fd int) (err error) {\n',
     'func Close(fd int) (err error) {\n\tif VerifClose != nil {\n\t\tVerifClose(fd)\n\t}\n'),
]))
json.dump({'Replace': rep}, open(os.path.join(out, 'overlay.json'), 'w'))
