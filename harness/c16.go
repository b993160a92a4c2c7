//go:build verifmc && verifhooks

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/mescanne/goledger/cmd/utils"
)

func init() {
	register(&Prop{ID: "C16", Level: "fault_enumeration",
		Rule:        "every history of saves of the table (new file, replacement by longer, shorter and larger data, plain, gzip, through a symbolic link, over the leftovers of a crashed save) x every file-system call of the save as the last one before a crash x every outcome of the data and directory changes that were not yet forced to disk (each subset of pending directory changes; each prefix of pending writes, each page lost) and x every injected failure (each call, each error kind, short writes, pairs of failures, everything failing from a call on), again with every crash point; then load. Loading must give the old or the new state, exactly, and the new one if success was reported. Also all JSON values of the grammar saved and loaded, all truncations of saved files and all failures while loading. States: distinct disk images; transitions: file-system calls executed",
		Assumptions: []string{"directories the state file lives in exist already and are durable", "rename replaces a name atomically; data and names not forced to disk with fsync may or may not survive a crash; data forced to disk survives", "after a failed fsync the data it covered is not durable, whatever later calls report"},
		Run:         runC16})
}

// ---- model of a disk: what the kernel shows, and what may be left after a crash

type diskOp struct { // pending change of a file
	off   int
	data  []byte
	trunc bool
}

type inode struct {
	cur, durable []byte
	pend         []diskOp
	link         string
}

func (n *inode) apply(b []byte, o diskOp, cut int) []byte {
	if o.trunc {
		if o.off <= len(b) {
			return append([]byte(nil), b[:o.off]...)
		}
		return append(append([]byte(nil), b...), make([]byte, o.off-len(b))...)
	}
	d := o.data[:cut]
	r := append([]byte(nil), b...)
	for len(r) < o.off+len(d) {
		r = append(r, 0)
	}
	copy(r[o.off:], d)
	return r
}

type nameOp struct {
	kind     string // create, rename, unlink
	from, to string
	ino      *inode
}

type disk struct {
	cur, durable map[string]*inode
	pend         []nameOp
	bad          map[*inode]bool // a failed fsync
}

func newDisk() *disk {
	return &disk{map[string]*inode{}, map[string]*inode{}, nil, map[*inode]bool{}}
}

// image is the contents of a disk: path -> contents ("L" + target for links, "F" + data for files).
type image map[string]string

func (im image) key() string {
	var ks []string
	for k := range im {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q;", k, im[k])
	}
	return sb.String()
}

func diskOf(im image) *disk {
	d := newDisk()
	for p, c := range im {
		n := &inode{}
		if c[0] == 'L' {
			n.link = c[1:]
		} else {
			n.cur = []byte(c[1:])
			n.durable = n.cur
		}
		d.cur[p], d.durable[p] = n, n
	}
	return d
}

// resolve follows a symbolic link in the last component.
func (d *disk) resolve(p string) string {
	for i := 0; i < 8; i++ {
		n := d.cur[p]
		if n == nil || n.link == "" {
			return p
		}
		if filepath.IsAbs(n.link) {
			p = n.link
		} else {
			p = filepath.Join(filepath.Dir(p), n.link)
		}
	}
	return p
}

// survivors gives the possible contents of a file after a crash.
func (n *inode) survivors(deep bool) [][]byte {
	if n.link != "" || len(n.pend) == 0 {
		return [][]byte{n.durable}
	}
	var out [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, append([]byte(nil), b...))
		}
	}
	b := n.durable
	add(b)
	for _, o := range n.pend {
		if !o.trunc {
			for _, c := range cuts(len(o.data), deep) {
				add(n.apply(b, o, c))
			}
		}
		b = n.apply(b, o, len(o.data))
		add(b)
	}
	// the file has its length but pages did not reach the disk
	const page = 4096
	np := (len(b) + page - 1) / page
	if np > 4 {
		np = 4
	}
	for m := 1; m < 1<<uint(np); m++ {
		c := append([]byte(nil), b...)
		for p := 0; p < np; p++ {
			if m>>uint(p)&1 == 0 {
				continue
			}
			lo, hi := p*page, (p+1)*page
			if p == np-1 || hi > len(c) {
				hi = len(c)
			}
			for i := lo; i < hi; i++ {
				c[i] = 0
			}
		}
		add(c)
	}
	return out
}

// cuts gives the lengths a write of n bytes may be cut to.
func cuts(n int, deep bool) []int {
	var out []int
	if n <= 160 && deep || n <= 24 {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	step := 6
	if deep {
		step = 40
	}
	last := -1
	for i := 0; i <= step; i++ {
		if c := (n - 1) * i / step; c != last {
			out = append(out, c)
			last = c
		}
	}
	return out
}

// images calls f for every disk image that may be found after a crash.
func (d *disk) images(deep bool, f func(im image)) {
	np := len(d.pend)
	if np > 10 {
		panic("harness: too many pending changes of names")
	}
	seenNames := map[string]bool{}
	for m := 0; m < 1<<uint(np); m++ {
		names := map[string]*inode{}
		for p, n := range d.durable {
			names[p] = n
		}
		for i, o := range d.pend {
			if m>>uint(i)&1 == 0 {
				continue
			}
			switch o.kind {
			case "create":
				names[o.to] = o.ino
			case "rename":
				if names[o.from] == o.ino {
					delete(names, o.from)
				}
				names[o.to] = o.ino
			case "unlink":
				if names[o.from] == o.ino {
					delete(names, o.from)
				}
			}
		}
		var ps []string
		id := ""
		for p := range names {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			id += fmt.Sprintf("%s=%p;", p, names[p])
		}
		if seenNames[id] {
			continue
		}
		seenNames[id] = true
		im := image{}
		var rec func(i int)
		rec = func(i int) {
			if i == len(ps) {
				f(im)
				return
			}
			n := names[ps[i]]
			if n.link != "" {
				im[ps[i]] = "L" + n.link
				rec(i + 1)
				return
			}
			// the same file may be found under two names
			for j := 0; j < i; j++ {
				if names[ps[j]] == n {
					im[ps[i]] = im[ps[j]]
					rec(i + 1)
					return
				}
			}
			for _, c := range n.survivors(deep) {
				im[ps[i]] = "F" + string(c)
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// ---- recording and failing the file-system calls of the code under test

type fsEvent struct {
	op          string
	fd          int
	path, path2 string
	data        []byte
	flags       int
	n           int
	err         error
	effect      bool
}

func (e fsEvent) String() string {
	s := e.op
	if e.path != "" {
		s += " " + filepath.Base(e.path)
	}
	if e.path2 != "" {
		s += " " + filepath.Base(e.path2)
	}
	if e.data != nil {
		s += fmt.Sprintf(" %d bytes", len(e.data))
	}
	if e.err != nil {
		s += " = " + e.err.Error()
	}
	return s
}

// fault is an injected failure of the call with the given number.
type fault struct {
	at   int
	kind string
}

type fsRun struct {
	mu     sync.Mutex
	root   string
	events []fsEvent
	fds    map[int]string
	faults []fault
	calls  int
	dead   error
	failWr bool
	chunk  int // largest read, 0: as asked
}

func errOf(kind string) error {
	switch {
	case strings.HasPrefix(kind, "ENOSPC"):
		return syscall.ENOSPC
	case strings.HasPrefix(kind, "EINTR"):
		return syscall.EINTR
	case strings.HasPrefix(kind, "EACCES"):
		return syscall.EACCES
	case strings.HasPrefix(kind, "EMFILE"):
		return syscall.EMFILE
	}
	return syscall.EIO
}

func (r *fsRun) pre(op string, fd int, path, path2 string, data []byte, flags int) (bool, int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch op {
	case "open", "unlink", "rename", "mkdir":
		if !strings.HasPrefix(path, r.root) {
			return false, 0, nil
		}
	default:
		if _, ok := r.fds[fd]; !ok {
			return false, 0, nil
		}
	}
	if op == "close" && r.fds[fd] == "" {
		// opened for reading; it may be closed at any time when it was forgotten
		delete(r.fds, fd)
		syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(fd), 0, 0)
		return true, 0, nil
	}
	i := r.calls
	r.calls++
	ev := fsEvent{op: op, fd: fd, path: path, path2: path2, flags: flags}
	if op == "write" || op == "pwrite" {
		ev.data = append([]byte{}, data...)
	}
	fail := func(err error) (bool, int, error) {
		ev.n, ev.err = -1, err
		if op == "close" { // the descriptor is gone all the same
			syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(fd), 0, 0)
			delete(r.fds, fd)
			ev.effect = true
		}
		r.events = append(r.events, ev)
		return true, -1, err
	}
	short := func(n int) (bool, int, error) {
		m, err := rawIO(syscall.SYS_WRITE, fd, data[:n])
		if err != nil || m != n {
			panic("harness: cannot write")
		}
		ev.n, ev.effect, ev.data = n, true, ev.data[:n]
		r.events = append(r.events, ev)
		return true, n, nil
	}
	if r.dead != nil {
		return fail(r.dead)
	}
	if r.failWr && op == "write" {
		return fail(syscall.ENOSPC)
	}
	for _, f := range r.faults {
		if f.at != i {
			continue
		}
		if strings.HasPrefix(f.kind, "#") {
			ks := faultKinds(op)
			k := int(f.kind[1] - '0')
			if k >= len(ks) {
				continue
			}
			f.kind = ks[k]
		}
		switch {
		case strings.HasPrefix(f.kind, "dead"):
			r.dead = syscall.EIO
			return fail(r.dead)
		case f.kind == "short1" && len(data) > 1:
			return short(1)
		case f.kind == "short" && len(data) > 1:
			return short(len(data) / 2)
		case f.kind == "full" && op == "write":
			r.failWr = true
			if len(data) > 1 {
				return short(len(data) / 2)
			}
			return fail(syscall.ENOSPC)
		case f.kind == "EIO after the effect" && op == "rename":
			if err := rawRename(path, path2); err != nil {
				return fail(err)
			}
			ev.effect = true
			return fail(syscall.EIO)
		default:
			return fail(errOf(f.kind))
		}
	}
	if op == "read" && r.chunk > 0 && len(data) > r.chunk {
		m, err := rawIO(syscall.SYS_READ, fd, data[:r.chunk])
		if err != nil {
			return true, -1, err
		}
		ev.n = m
		r.events = append(r.events, ev)
		return true, m, nil
	}
	if op == "close" {
		// done here, as another thread may be given the descriptor as soon as it is closed
		delete(r.fds, fd)
		ev.effect = true
		r.events = append(r.events, ev)
		syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(fd), 0, 0)
		return true, 0, nil
	}
	return false, 0, nil
}

func (r *fsRun) post(op string, fd int, path, path2 string, data []byte, flags, n int, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch op {
	case "open", "unlink", "rename", "mkdir":
		if !strings.HasPrefix(path, r.root) {
			return
		}
	case "close":
		return // by another thread, of another file
	default:
		if _, ok := r.fds[fd]; !ok {
			return
		}
	}
	ev := fsEvent{op: op, fd: fd, path: path, path2: path2, flags: flags, n: n, err: err, effect: err == nil}
	switch op {
	case "open":
		if err == nil {
			if flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
				path = ""
			}
			r.fds[n] = path
		}
	case "write", "pwrite":
		if err == nil {
			ev.data = append([]byte{}, data[:n]...)
		}
	}
	r.events = append(r.events, ev)
}

// watch runs f with the file-system calls below root recorded and failing as planned.
func (r *fsRun) watch(f func() error) (err error) {
	r.fds = map[int]string{}
	syscall.VerifFS, syscall.VerifPost = r.pre, r.post
	defer func() { syscall.VerifFS, syscall.VerifPost = nil, nil }()
	return f()
}

// replayOn applies the first k events to the model.
func replayOn(d *disk, events []fsEvent) {
	type file struct {
		n   *inode
		dir string
		pos int
		app bool
	}
	fds := map[int]*file{}
	parent := func(p string) string { return filepath.Dir(p) }
	for _, e := range events {
		if !e.effect {
			if e.op == "fsync" && e.err != syscall.EINTR {
				if f := fds[e.fd]; f != nil && f.n != nil {
					d.bad[f.n] = true
				}
			}
			continue
		}
		switch e.op {
		case "open":
			p := d.resolve(e.path)
			n := d.cur[p]
			if n == nil {
				if e.flags&syscall.O_CREAT == 0 {
					fds[e.n] = &file{dir: e.path} // a directory
					continue
				}
				n = &inode{}
				d.cur[p] = n
				d.pend = append(d.pend, nameOp{"create", "", p, n})
			}
			if e.flags&syscall.O_TRUNC != 0 && len(n.cur) > 0 {
				o := diskOp{0, nil, true}
				n.pend = append(n.pend, o)
				n.cur = n.apply(n.cur, o, 0)
			}
			fds[e.n] = &file{n: n, app: e.flags&syscall.O_APPEND != 0}
		case "write", "pwrite":
			f := fds[e.fd]
			if f == nil || f.n == nil {
				panic("harness: write to an unknown file")
			}
			off := f.pos
			if e.op == "pwrite" {
				off = e.flags
			} else if f.app {
				off = len(f.n.cur)
			}
			o := diskOp{off, e.data, false}
			f.n.pend = append(f.n.pend, o)
			f.n.cur = f.n.apply(f.n.cur, o, len(e.data))
			if e.op == "write" {
				f.pos = off + len(e.data)
			}
		case "ftruncate":
			if f := fds[e.fd]; f != nil && f.n != nil {
				o := diskOp{e.flags, nil, true}
				f.n.pend = append(f.n.pend, o)
				f.n.cur = f.n.apply(f.n.cur, o, 0)
			}
		case "fsync":
			f := fds[e.fd]
			if f == nil {
				continue
			}
			if f.n == nil {
				var rest []nameOp
				for _, o := range d.pend {
					switch o.kind {
					case "create":
						if parent(o.to) != filepath.Clean(f.dir) {
							rest = append(rest, o)
							continue
						}
						d.durable[o.to] = o.ino
					case "rename":
						if parent(o.to) != filepath.Clean(f.dir) {
							rest = append(rest, o)
							continue
						}
						if d.durable[o.from] == o.ino {
							delete(d.durable, o.from)
						}
						d.durable[o.to] = o.ino
					case "unlink":
						if parent(o.from) != filepath.Clean(f.dir) {
							rest = append(rest, o)
							continue
						}
						if d.durable[o.from] == o.ino {
							delete(d.durable, o.from)
						}
					}
				}
				d.pend = rest
			} else if !d.bad[f.n] {
				f.n.durable, f.n.pend = f.n.cur, nil
			}
		case "close":
			delete(fds, e.fd)
		case "rename":
			n := d.cur[e.path]
			if n == nil {
				panic("harness: rename of an unknown file")
			}
			delete(d.cur, e.path)
			d.cur[e.path2] = n
			d.pend = append(d.pend, nameOp{"rename", e.path, e.path2, n})
		case "unlink":
			if n := d.cur[e.path]; n != nil {
				delete(d.cur, e.path)
				d.pend = append(d.pend, nameOp{"unlink", e.path, "", n})
			}
		}
	}
}

// ---- the check

type c16 struct {
	w     *W
	root  string
	on    image // what is on the real disk below root
	loads map[string]string
	deep  bool
}

const noState = "no state"

// put makes the real directory show the image.
func (c *c16) put(im image) {
	if c.on != nil && c.on.key() == im.key() {
		return
	}
	filepath.Walk(c.root, func(p string, st os.FileInfo, err error) error {
		if err == nil && !st.IsDir() {
			os.Remove(p)
		}
		return nil
	})
	for p, s := range im {
		var err error
		if s[0] == 'L' {
			err = os.Symlink(s[1:], p)
		} else {
			err = os.WriteFile(p, []byte(s[1:]), 0644)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	c.on = im
}

// get reads the real directory.
func (c *c16) get() image {
	im := image{}
	filepath.Walk(c.root, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() {
			return nil
		}
		if st.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			im[p] = "L" + l
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			panic("harness: " + err.Error())
		}
		im[p] = "F" + string(b)
		return nil
	})
	return im
}

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// load gives the state found on an image: the data, noState, or an error.
func (c *c16) load(im image, file string) string {
	k := file + "|" + im.key()
	if r, ok := c.loads[k]; ok {
		return r
	}
	c.put(im)
	var v interface{}
	err := utils.LoadFromFile(file, &v)
	r := ""
	switch {
	case err != nil:
		r = "error: " + err.Error()
	case v == nil:
		r = noState
	default:
		r = canon(v)
	}
	c.loads[k] = r
	return r
}

// saved is a run of SaveToFile from an image.
type saved struct {
	events []fsEvent
	calls  int
	err    error
	after  image
}

func (c *c16) save(im image, file string, v interface{}, faults []fault) saved {
	c.put(im)
	r := &fsRun{root: c.root, faults: faults}
	c.on = nil
	err := r.watch(func() error { return utils.SaveToFile(file, v) })
	s := saved{events: r.events, calls: r.calls, err: err, after: c.get()}
	c.on = s.after
	return s
}

func evs(es []fsEvent) string {
	var out []string
	for _, e := range es {
		out = append(out, e.String())
	}
	return strings.Join(out, "; ")
}

// judge checks a save and everything a crash during it may leave; it gives the images by key.
func (c *c16) judge(t *T, start image, file string, want string, s saved, what string) map[string]image {
	old := c.load(start, file)
	if strings.HasPrefix(old, "error") {
		t.Failf("%s: the state before does not load: %s", what, old)
	}
	// no crash
	d := diskOf(start)
	replayOn(d, s.events)
	live := image{}
	for p, n := range d.cur {
		if n.link != "" {
			live[p] = "L" + n.link
		} else {
			live[p] = "F" + string(n.cur)
		}
	}
	if live.key() != s.after.key() {
		panic(fmt.Sprintf("harness: the disk model differs from the disk after %s: %s; model %s; disk %s", what, evs(s.events), clip(live.key(), 500), clip(s.after.key(), 500)))
	}
	got := c.load(s.after, file)
	if got != want && (s.err == nil || got != old) {
		t.Failf("%s: save gave error %v; loading afterwards gives %s; before: %s; saved: %s (%s)", what, s.err, clip(got, 300), clip(old, 300), clip(want, 300), evs(s.events))
	}
	t.Trans(int64(len(s.events)))
	t.Trace()
	// crashes
	out := map[string]image{}
	for k := 0; k <= len(s.events); k++ {
		if k > 0 && k < len(s.events) && s.events[k-1].op == "read" {
			continue
		}
		d := diskOf(start)
		replayOn(d, s.events[:k])
		d.images(c.deep, func(im image) {
			key := im.key()
			t.State(key)
			if _, ok := out[key]; !ok {
				cp := image{}
				for p, x := range im {
					cp[p] = x
				}
				out[key] = cp
			}
			got := c.load(out[key], file)
			if got == want || got == old && (k < len(s.events) || s.err != nil) {
				return
			}
			t.Failf("%s: crash behind call %d of %d (%s), disk left as %s; loading gives %s; before: %s; saved: %s (reported %v)", what, k, len(s.events), evs(s.events[:k]), clip(key, 600), clip(got, 300), clip(old, 300), clip(want, 300), s.err)
		})
	}
	return out
}

// kinds gives the failures of a call.
func faultKinds(op string) []string {
	switch op {
	case "open":
		return []string{"EACCES", "ENOSPC", "EMFILE", "EINTR", "dead"}
	case "write", "pwrite":
		return []string{"ENOSPC", "EIO", "short1", "short", "full", "EINTR", "dead"}
	case "fsync":
		return []string{"EIO", "ENOSPC", "EINTR", "dead"}
	case "close":
		return []string{"EIO", "dead"}
	case "rename":
		return []string{"EIO", "EACCES", "EIO after the effect", "EINTR", "dead"}
	case "unlink", "mkdir", "ftruncate":
		return []string{"EIO", "dead"}
	case "read":
		return []string{"EIO", "EINTR", "dead"}
	}
	return nil
}

func bigState(n int, tag string) interface{} {
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("%s%03d", tag, (i*37)%1000)] = map[string]interface{}{"id": float64(i) * 7.25, "s": strings.Repeat(string(rune('a'+i%26)), i%17)}
	}
	return m
}

type c16case struct {
	name, file string
	start      image
	vals       []interface{}
}

func runC16(w *W) {
	root := filepath.Join(w.Scratch, "c16")
	os.RemoveAll(root)
	for _, d := range []string{"d", "l"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0755); err != nil {
			panic("harness: " + err.Error())
		}
	}
	root, _ = filepath.EvalSymlinks(root)
	c := &c16{w: w, root: root, loads: map[string]string{}, deep: w.Thorough}
	defer os.RemoveAll(root)

	a := map[string]interface{}{"a": 1.0}
	b := map[string]interface{}{"b": []interface{}{"x", nil}, "a": "é<\n"}
	e := map[string]interface{}{}
	big, big2 := bigState(60, "k"), bigState(170, "q")
	P := func(n string) string { return filepath.Join(root, n) }

	// What a save leaves when nothing goes wrong, as a starting point
	saveOn := func(im image, file string, v interface{}) image {
		return c.save(im, file, v, nil).after
	}

	w.Section("values")
	atoms := []interface{}{nil, true, false, 0.0, -1.5, 1e300, 123456789012345.0, 0.1, "", "a", "  ", " a  b\t", "é\u2028<&>\"\\\n\x00\x7f", []interface{}{}, map[string]interface{}{}}
	keys := []string{"a", "", "é<\n"}
	var vals []interface{}
	for _, x := range atoms {
		vals = append(vals, map[string]interface{}{"a": x}, []interface{}{x})
		for _, y := range atoms {
			vals = append(vals, []interface{}{x, y})
			for _, k := range keys {
				vals = append(vals, map[string]interface{}{k: x, "z": map[string]interface{}{k: y}})
			}
		}
	}
	vals = append(vals, big, big2, e)
	small := len(vals)
	// sizes around those of buffers, of text that compresses well and of text that does not
	sizes := []int{511, 512, 4090, 4096, 32767, 32768, 65530, 65536, 1 << 20, 3<<20 + 1}
	if w.Thorough {
		sizes = append(sizes, 1023, 1024, 1025, 4089, 4091, 4092, 8192, 16384, 131072, 262144, 524288, 1<<20-6, 2<<20, 8<<20, 24<<20)
	}
	for _, n := range sizes {
		noise := make([]byte, n)
		x := uint32(n)
		for i := range noise {
			x = x*1664525 + 1013904223
			noise[i] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-"[x>>26]
		}
		vals = append(vals, []interface{}{strings.Repeat("x", n)}, map[string]interface{}{"a": string(noise), "b": 1.0})
	}
	for k, name := range []string{"d/s.json", "d/s.json.gz", "d/new/s.json", "d/s.tgz", "d/s", "d/s.gz", "d/gz", "d/s.GZ", "d/.gz", "d/s.gz.json", "d/s.gzip", "d/s.z", "d/s.json.bak"} {
		for i, v := range vals {
			if w.Done() {
				return
			}
			if k >= 3 && i%17 != k && (i < small-3 || i >= small+2) {
				continue
			}
			name, v := name, v
			prev := vals[(i+7)%len(vals)]
			w.Case(func() string {
				return fmt.Sprintf("save %s over %s in %s", clip(canon(v), 200), clip(canon(prev), 200), name)
			}, func(t *T) {
				c.put(image{})
				os.RemoveAll(P("d/new"))
				c.on = nil
				for _, x := range []interface{}{prev, v, v} {
					if err := utils.SaveToFile(P(name), x); err != nil {
						t.Failf("%v", err)
					}
					var got interface{}
					if err := utils.LoadFromFile(P(name), &got); err != nil {
						t.Failf("%v", err)
					}
					if !reflect.DeepEqual(got, x) {
						t.Failf("saved %s, loaded %s", clip(canon(x), 300), clip(canon(got), 300))
					}
					t.Trans(2)
				}
				t.Nontrivial(canon(v) + canon(prev))
				t.State(c.get().key())
				// what cannot be saved leaves the file
				if err := utils.SaveToFile(P(name), map[string]interface{}{"a": func() {}}); err == nil {
					t.Failf("saving a function gives no error")
				}
				var got interface{}
				if err := utils.LoadFromFile(P(name), &got); err != nil || !reflect.DeepEqual(got, v) {
					t.Failf("after a save that failed: error %v, %s", err, clip(canon(got), 300))
				}
				c.put(image{})
				os.RemoveAll(P("d/new"))
				c.on = nil
			})
		}
	}

	w.Section("crashes and failures of one save")
	type scene struct {
		name, file string
		start      func() image
		v          interface{}
	}
	var scenes []scene
	for _, f := range []string{"d/s.json", "d/s.json.gz"} {
		file := P(f)
		none := func() image { return image{} }
		over := func(v interface{}) func() image {
			return func() image { return saveOn(image{}, file, v) }
		}
		scenes = append(scenes,
			scene{f + ": first save", file, none, a},
			scene{f + ": longer", file, over(a), b},
			scene{f + ": shorter", file, over(b), a},
			scene{f + ": the same", file, over(a), a},
			scene{f + ": empty", file, over(b), e},
			scene{f + ": several pages", file, over(b), big},
			scene{f + ": several pages by less", file, over(big2), big},
			scene{f + ": from several pages", file, over(big), a},
		)
	}
	scenes = append(scenes,
		scene{"link to another directory", P("l/s.json"), func() image {
			im := saveOn(image{}, P("d/t.json"), a)
			im[P("l/s.json")] = "L../d/t.json"
			return im
		}, b},
		scene{"link in the directory", P("d/s.json.gz"), func() image {
			im := saveOn(image{}, P("d/t.gz"), a)
			im[P("d/s.json.gz")] = "Lt.gz"
			return im
		}, b},
		scene{"link to nothing", P("d/s.json"), func() image { return image{P("d/s.json"): "Lt.json"} }, b},
	)
	run := func(t *T, start image, file string, v interface{}, faults []fault, what string) map[string]image {
		s := c.save(start, file, v, faults)
		if s.err != nil {
			t.Outcome("error reported")
		} else {
			t.Outcome("success reported")
		}
		return c.judge(t, start, file, canon(v), s, what)
	}
	for _, sc := range scenes {
		if w.Done() {
			return
		}
		sc := sc
		w.Case(func() string { return "crash during: " + sc.name }, func(t *T) {
			st := sc.start()
			s := c.save(st, sc.file, sc.v, nil)
			if s.err != nil {
				t.Failf("save fails: %v", s.err)
			}
			t.Nontrivial(sc.name)
			c.judge(t, st, sc.file, canon(sc.v), s, "save")
		})
		// the number of calls without failures, and a margin for the calls of the clean-up
		for at := 0; at < 24; at++ {
			at := at
			for ki := 0; ki < 7; ki++ {
				ki := ki
				w.Case(func() string { return fmt.Sprintf("%s: call %d fails (kind %d)", sc.name, at, ki) }, func(t *T) {
					st := sc.start()
					s := c.save(st, sc.file, sc.v, nil)
					if at >= len(s.events) {
						return
					}
					ks := faultKinds(s.events[at].op)
					if ki >= len(ks) {
						return
					}
					f1 := fault{at, ks[ki]}
					t.Nontrivial(fmt.Sprint(sc.name, f1))
					run(t, st, sc.file, sc.v, []fault{f1}, fmt.Sprintf("%v at %s", f1, s.events[at]))
					// pairs
					s1 := c.save(st, sc.file, sc.v, []fault{f1})
					for at2 := at + 1; at2 < len(s1.events); at2++ {
						for _, k2 := range faultKinds(s1.events[at2].op) {
							if !w.Thorough && (k2 == "EINTR" || k2 == "dead" || k2 == "EACCES" || k2 == "short1") {
								continue
							}
							f2 := fault{at2, k2}
							run(t, st, sc.file, sc.v, []fault{f1, f2}, fmt.Sprintf("%v at %s and %v at %s", f1, s.events[at], f2, s1.events[at2]))
						}
					}
				})
			}
		}
	}

	w.Section("saves after a crashed save")
	for _, f := range []string{"d/s.json", "d/s.json.gz"} {
		file := P(f)
		for hi, h := range [][3]interface{}{{a, b, e}, {b, a, b}, {big, b, a}, {a, big, b}} {
			h := h
			for part := 0; part < 8; part++ {
				part := part
				w.Case(func() string {
					return fmt.Sprintf("%s history %d: save, crash in the second save, third save with crashes and failures; part %d", f, hi, part)
				}, func(t *T) {
					st := saveOn(image{}, file, h[0])
					left := run(t, st, file, h[1], nil, "second save")
					var keys []string
					for k := range left {
						keys = append(keys, k)
					}
					sort.Strings(keys)
					t.Nontrivial(fmt.Sprint(f, hi, part))
					for i, k := range keys {
						if i%8 != part {
							continue
						}
						im := left[k]
						run(t, im, file, h[2], nil, "third save on "+clip(k, 200))
						s := c.save(im, file, h[2], nil)
						if s.err != nil {
							t.Failf("the save after a crash fails: %v; disk %s", s.err, clip(k, 300))
						}
						for at, ev := range s.events {
							for _, kind := range faultKinds(ev.op) {
								if !w.Thorough && kind != "ENOSPC" && kind != "EIO" && kind != "full" {
									continue
								}
								run(t, im, file, h[2], []fault{{at, kind}}, fmt.Sprintf("third save on %s with %s at %s", clip(k, 200), kind, ev))
							}
						}
					}
				})
			}
		}
	}

	w.Section("loading")
	for _, f := range []string{"d/s.json", "d/s.json.gz"} {
		file := P(f)
		for vi, v := range []interface{}{a, b, big, e} {
			v := v
			w.Case(func() string { return fmt.Sprintf("%s value %d: every truncation", f, vi) }, func(t *T) {
				im := saveOn(image{}, file, v)
				full := im[file][1:]
				for n := 0; n < len(full); n++ {
					if n > 300 && n < len(full)-300 && n%41 != 0 {
						continue
					}
					got := c.load(image{file: "F" + full[:n]}, file)
					t.Trans(1)
					if !strings.HasPrefix(got, "error") && got != canon(v) {
						t.Failf("%d of %d bytes load as %s", n, len(full), got)
					}
				}
				t.Nontrivial(fmt.Sprint(f, vi))
			})
			w.Case(func() string { return fmt.Sprintf("%s value %d: failures", f, vi) }, func(t *T) {
				im := saveOn(image{}, file, v)
				load := func(chunk int, faults ...fault) (*fsRun, string) {
					c.put(im)
					r := &fsRun{root: root, faults: faults, chunk: chunk}
					var got interface{}
					err := r.watch(func() error { return utils.LoadFromFile(file, &got) })
					t.Trans(int64(len(r.events)))
					if after := c.get(); after.key() != im.key() {
						t.Failf("loading changes the files: %s", clip(after.key(), 400))
					}
					if err != nil {
						return r, "error: " + err.Error()
					}
					if got == nil {
						return r, noState
					}
					return r, canon(got)
				}
				for _, chunk := range []int{0, 1, 7, 512} {
					r, got := load(chunk)
					if got != canon(v) {
						t.Failf("reads of at most %d bytes: %s", chunk, clip(got, 300))
					}
					step := 1
					if len(r.events) > 200 {
						step = len(r.events) / 100
					}
					for at := 0; at < len(r.events); at += step {
						for _, kind := range faultKinds(r.events[at].op) {
							f1 := fault{at, kind}
							_, got := load(chunk, f1)
							if got == canon(v) || strings.HasPrefix(got, "error") {
								continue
							}
							t.Failf("%v at %s (%s): loading gives %s", f1, r.events[at], evs(r.events), clip(got, 300))
						}
					}
				}
				t.Nontrivial(fmt.Sprint(f, vi))
			})
		}
		w.Case(func() string { return f + " missing" }, func(t *T) {
			c.put(image{})
			v := map[string]interface{}{"keep": 1.0}
			if err := utils.LoadFromFile(file, &v); err != nil {
				t.Failf("%v", err)
			}
			if canon(v) != `{"keep":1}` {
				t.Failf("loading a missing file gives %s", canon(v))
			}
			t.Nontrivial("missing")
		})
		w.Case(func() string { return f + " is a directory" }, func(t *T) {
			c.put(image{})
			os.Mkdir(file, 0755)
			defer os.Remove(file)
			var v interface{}
			if err := utils.LoadFromFile(file, &v); err == nil {
				t.Failf("loading a directory gives no error")
			}
			if err := utils.SaveToFile(file, a); err == nil {
				t.Failf("saving over a directory gives no error")
			}
			t.Nontrivial("directory")
		})
	}
}
