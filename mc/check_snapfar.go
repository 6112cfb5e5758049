package main

// Snapshots of files of tens of gigabytes (sparse): writes at places where an offset or a
// number of a copy-on-write region needs more than 16, 24, 31 or 32 bits.

import (
	"bytes"
	"fmt"
	"io"

	"github.com/thesues/cannyls-go/nvm"
)

const farTotal = 68<<30 + 512

// places written (one sector each)
var farPlaces = []int{region - 512, 2<<30 - 512, 2 << 30, 4<<30 - 512, 4<<30 + 512, 17 << 30, 64<<30 - 512, 64 << 30, farTotal - 512}

type farDev struct {
	w          *W
	path       string
	dev        *nvm.SnapNVM
	live, snap map[int][]byte
	hist       []string
	seq        int
}

func (d *farDev) fail(f string, a ...interface{}) {
	d.w.Failf("%s\n  file of %d bytes; after %v", fmt.Sprintf(f, a...), farTotal, d.hist)
}

func (d *farDev) open() {
	f, _, err := nvm.Open(d.path)
	if err != nil {
		d.fail("open: %v", err)
	}
	if d.dev, err = nvm.NewSnapshotNVM(f); err != nil {
		d.fail("NewSnapshotNVM: %v", err)
	}
}

// windows of three sectors around each place
func (d *farDev) check() {
	at := func(m map[int][]byte, off int) []byte {
		if b := m[off]; b != nil {
			return b
		}
		return make([]byte, 512)
	}
	r := io.ReadSeeker(nil)
	if d.snap != nil {
		x, err := d.dev.GetSnapshotReader()
		if err != nil {
			d.fail("GetSnapshotReader: %v", err)
		}
		if n, err := x.Seek(0, io.SeekEnd); err != nil || n != farTotal {
			d.fail("the snapshot ends at %d %v", n, err)
		}
		r = x
	}
	for _, p := range farPlaces {
		for off := p - 512; off <= p+512; off += 512 {
			if off+512 > farTotal {
				continue
			}
			b := alignedBuf(512)
			rawReadAt(d.path, b, int64(off))
			if !bytes.Equal(b, at(d.live, off)) {
				d.fail("the live file is wrong at %d", off)
			}
			if r == nil {
				continue
			}
			if n, err := r.Seek(int64(off), io.SeekStart); err != nil || n != int64(off) {
				d.fail("reader.Seek(%d): %d %v", off, n, err)
			}
			if _, err := io.ReadFull(r, b); err != nil {
				d.fail("reading the snapshot at %d: %v", off, err)
			}
			if !bytes.Equal(b, at(d.snap, off)) {
				d.fail("the snapshot is wrong at %d", off)
			}
		}
	}
}

// runSnapFar: the letters are a place to be written, or reopen
func runSnapFar(w *W, word []int) {
	c := &Cfg{Ring: 8, Data: farTotal/sector - 10}
	d := &farDev{w: w, path: w.Dir + "/f.lusf", live: map[int][]byte{}}
	cleanSnaps(w.Dir)
	rawRemove(d.path)
	defer rawRemove(d.path)
	img := template(w, c)
	rawWriteFile(d.path, img)
	put := func(off int) []byte {
		d.seq++
		b := alignedBuf(512)
		fill(b, d.seq, uint64(off))
		d.live[off] = b
		return b
	}
	for _, p := range farPlaces {
		for off := p - 512; off <= p+512; off += 512 {
			if off+512 <= farTotal {
				rawWriteAt(d.path, put(off), int64(off))
			}
		}
	}
	d.open()
	defer func() { d.dev.Close() }()
	if err := d.dev.CreateSnapshotIfNeeded(); err != nil {
		d.fail("CreateSnapshotIfNeeded: %v", err)
	}
	d.snap = map[int][]byte{}
	for k, v := range d.live {
		d.snap[k] = v
	}
	for _, k := range word {
		d.w.C.Trans++
		if k == len(farPlaces) {
			d.hist = append(d.hist, "Reopen")
			d.dev.Close()
			d.open()
			continue
		}
		p := farPlaces[k]
		d.hist = append(d.hist, fmt.Sprintf("WriteAt(%d,+512)", p))
		if n, err := d.dev.WriteAt(put(p), int64(p)); err != nil || n != 512 {
			d.fail("WriteAt(%d): %d %v", p, n, err)
		}
	}
	d.check()
	d.hist = append(d.hist, "Reopen")
	d.dev.Close()
	d.open()
	d.check()
	d.hist = append(d.hist, "DeleteSnapshot")
	if err := d.dev.DeleteSnapshot(); err != nil {
		d.fail("DeleteSnapshot: %v", err)
	}
	d.snap = nil
	d.check()
	w.C.Execs++
	w.C.Traces++
	w.C.States++
}

func famSnapFar(th bool) []*Family {
	n, l := len(farPlaces)+1, 3
	if th {
		l = 4
	}
	wd := func(i int) []int {
		var r []int
		for k := 0; k < l; k++ {
			r = append(r, i%n)
			i /= n
		}
		return r
	}
	return []*Family{{Name: "far", N: pow(n, l), Run: func(w *W, i int) { runSnapFar(w, wd(i)) }, Desc: func(i int) string {
		s := ""
		for _, k := range wd(i) {
			if k == len(farPlaces) {
				s += "; reopen"
			} else {
				s += fmt.Sprintf("; write at %d", farPlaces[k])
			}
		}
		return "68 GiB file" + s
	}}}
}
