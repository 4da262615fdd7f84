// Package cstub stands in for the possum C library: it keeps its values in memory, makes every call
// take several scheduling steps, takes effect at one of them, fails when told to, and checks that what
// it is given is valid.
package cstub

/*
#include <stdint.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>

typedef struct { const char *ptr; size_t size; } SBuf;
typedef struct { int64_t secs; uint32_t nanos; } STimestamp;
typedef struct { STimestamp last_used; uint64_t size; } SStat;
typedef struct { SBuf key; SStat stat; } SItem;
typedef struct { uint64_t max_value_length_sum; bool disable_hole_punching; } SLimits;
*/
import "C"

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"possumsim/sched"
)

const (
	NoError = iota
	NoSuchKey
	SqliteError
	IoError
	AnyhowError
)

// Call is one call of the library, as the checks see it.
type Call struct {
	Fn     string
	Handle int // of the library, -1: none
	Key    string
	To     string
	Data   string
	Code   int
	Pos    uint64
	Found  bool
	List   []Entry
	Begin  int
	End    int
	Limits [2]uint64
}

type Entry struct {
	Key   string
	Size  int64
	Secs  int64
	Nanos int64
}

// Script is what the operation of a goroutine makes of the library's calls.
type Script struct {
	Fail  map[int]int // call of this operation -> error code
	Stall map[int]int // call of this operation -> steps
	N     int
	Calls []*Call
}

// Scripter is kept in sched.G.Op.
type Scripter interface{ CallScript() *Script }

type val struct {
	data string
	used int64
}

type store struct{ m map[string]val }

func (s *store) keys(prefix string) (r []string) {
	for k := range s.m {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

func (s *store) copy() map[string]val {
	m := map[string]val{}
	for k, v := range s.m {
		m[k] = v
	}
	return m
}

type Handle struct {
	ID      int
	Dir     string
	Dropped int
	Active  int
	Writers int
	st      *store
}

type writer struct {
	h      *Handle
	over   bool
	staged []struct{ key, data string }
	ren    []struct{ from, to string }
}

type vwriter struct {
	w    *writer
	fd   int
	over bool
}

type reader struct {
	h     *Handle
	snap  map[string]val
	begun bool
	over  bool
}

type value struct {
	r   *reader
	key string
	v   val
}

// World is the library's state in one run.
type World struct {
	Handles  []*Handle
	dirs     map[string]*store
	objs     map[uintptr]any
	ptrs     []unsafe.Pointer
	now      int64
	FailOpen map[int]bool // n-th open fails
	Opens    int
	Calls    int
	Faults   map[string]int
	fds      map[int]bool
}

var W *World

func NewWorld() *World {
	return &World{dirs: map[string]*store{}, objs: map[uintptr]any{}, now: 1000, Faults: map[string]int{}, fds: map[int]bool{}}
}

func (w *World) Free() {
	for _, p := range w.ptrs {
		C.free(p)
	}
	for fd, open := range w.fds {
		if open {
			syscall.Close(fd)
		}
	}
}

func (w *World) add(o any) unsafe.Pointer {
	p := C.malloc(16)
	w.ptrs = append(w.ptrs, p)
	w.objs[uintptr(p)] = o
	return p
}

func script() *Script {
	if g := sched.S.Cur; g != nil {
		if o, ok := g.Op.(Scripter); ok {
			return o.CallScript()
		}
	}
	return &Script{}
}

func get[T any](p unsafe.Pointer, fn string) (t T, ok bool) {
	o, found := W.objs[uintptr(p)]
	if !found {
		sched.S.Fail("bad-pointer", "%s is given a pointer that is not an object of the library", fn)
		return
	}
	t, ok = o.(T)
	if !ok {
		sched.S.Fail("bad-pointer", "%s is given a %T", fn, o)
	}
	return
}

// Gone stops a goroutine that would have used freed memory.
type Gone struct{}

// begin notes a call and lets others run; it returns nil if the handle is not valid.
func begin(fn string, h *Handle, c *Call) (code int) {
	s := sched.S
	W.Calls++
	sc := script()
	c.Fn, c.Handle = fn, -1
	c.Begin = s.Tick()
	n := sc.N
	sc.N++
	sc.Calls = append(sc.Calls, c)
	if h != nil {
		c.Handle = h.ID
		h.Active++
		check(fn, h)
	}
	s.Log("%s %d %q", fn, c.Handle, c.Key)
	sched.Point()
	if st := sc.Stall[n]; st > 0 {
		W.Faults["stalled call"]++
		sched.Stall(st)
	}
	if h != nil {
		check(fn, h)
	}
	c.Pos = uint64(s.Tick())
	if e := sc.Fail[n]; e != 0 {
		W.Faults[fmt.Sprintf("error %d", e)]++
		return e
	}
	return 0
}

func check(fn string, h *Handle) {
	if h.Dropped > 0 {
		sched.S.Fail("use-after-free", "%s uses handle %d after it was dropped", fn, h.ID)
	}
}

func end(h *Handle, c *Call, code int) C.int {
	sched.Point()
	if h != nil {
		check(c.Fn, h)
		h.Active--
	}
	c.Code = code
	c.End = sched.S.Tick()
	sched.S.Log("%s -> %d", c.Fn, code)
	return C.int(code)
}

func str(b C.SBuf) string {
	return C.GoStringN(b.ptr, C.int(b.size))
}

func handle(p unsafe.Pointer, fn string) *Handle {
	h, ok := get[*Handle](p, fn)
	if !ok {
		panic(sched.Fatal("library called with an invalid handle"))
	}
	return h
}

func stat(out *C.SStat, size int, used int64) {
	if out != nil {
		out.size = C.uint64_t(size)
		out.last_used.secs = C.int64_t(used / 1000)
		out.last_used.nanos = C.uint32_t(used % 1000 * 1000000)
	}
}

func entry(k string, v val) Entry {
	return Entry{k, int64(len(v.data)), v.used / 1000, v.used % 1000 * 1000000}
}

func items(m *store, prefix string, out **C.SItem, n *C.size_t) (r []Entry) {
	keys := m.keys(prefix)
	*n = C.size_t(len(keys))
	*out = (*C.SItem)(C.malloc(C.size_t(len(keys)+1) * C.sizeof_SItem))
	l := unsafe.Slice(*out, len(keys)+1)
	for i, k := range keys {
		short := k[len(prefix):]
		b := C.CBytes([]byte(short))
		if b == nil {
			b = C.malloc(1)
		}
		l[i].key.ptr = (*C.char)(b)
		l[i].key.size = C.size_t(len(short))
		stat(&l[i].stat, len(m.m[k].data), m.m[k].used)
		r = append(r, entry(short, m.m[k]))
	}
	return
}

//export possum_new
func possum_new(path *C.char) unsafe.Pointer {
	dir := C.GoString(path)
	c := &Call{Key: dir}
	n := W.Opens
	W.Opens++
	code := begin("possum_new", nil, c)
	_ = n
	if code != 0 {
		end(nil, c, code)
		return nil
	}
	st := W.dirs[dir]
	if st == nil {
		st = &store{map[string]val{}}
		W.dirs[dir] = st
	}
	h := &Handle{ID: len(W.Handles), Dir: dir, st: st}
	W.Handles = append(W.Handles, h)
	end(nil, c, 0)
	c.Handle = h.ID
	return W.add(h)
}

//export possum_drop
func possum_drop(p unsafe.Pointer) {
	h := handle(p, "possum_drop")
	c := &Call{}
	s := sched.S
	sc := script()
	c.Fn, c.Handle, c.Begin = "possum_drop", h.ID, s.Tick()
	sc.Calls = append(sc.Calls, c)
	sc.N++
	W.Calls++
	if h.Dropped > 0 {
		s.Fail("double-drop", "handle %d is dropped again", h.ID)
	}
	if h.Active > 0 {
		s.Fail("use-after-free", "handle %d is dropped while %d calls use it", h.ID, h.Active)
	}
	h.Dropped++
	s.Log("possum_drop %d", h.ID)
	sched.Point()
	sched.Stall(sc.Stall[sc.N-1])
	c.End = s.Tick()
}

//export possum_single_write_buf
func possum_single_write_buf(p unsafe.Pointer, key, value C.SBuf) C.size_t {
	h := handle(p, "possum_single_write_buf")
	c := &Call{Key: str(key)}
	code := begin("possum_single_write_buf", h, c)
	if code == 0 {
		c.Data = str(value)
		h.st.m[str(key)] = val{c.Data, W.used()}
	}
	end(h, c, code)
	if code != 0 {
		return ^C.size_t(0)
	}
	return value.size
}

func (w *World) used() int64 { w.now += 7; return w.now }

//export possum_single_stat
func possum_single_stat(p unsafe.Pointer, key C.SBuf, out *C.SStat) C.bool {
	h := handle(p, "possum_single_stat")
	c := &Call{Key: str(key)}
	begin("possum_single_stat", h, c)
	v, ok := h.st.m[str(key)]
	if ok {
		stat(out, len(v.data), v.used)
		c.List = []Entry{entry(str(key), v)}
	}
	c.Found = ok
	end(h, c, 0)
	return C.bool(ok)
}

//export possum_list_items
func possum_list_items(p unsafe.Pointer, prefix C.SBuf, out **C.SItem, n *C.size_t) C.int {
	h := handle(p, "possum_list_items")
	c := &Call{Key: str(prefix)}
	code := begin("possum_list_items", h, c)
	if code == 0 {
		c.List = items(h.st, str(prefix), out, n)
	}
	return end(h, c, code)
}

func readAt(data string, buf *C.SBuf, off uint64) string {
	n := uint64(buf.size)
	if off > uint64(len(data)) {
		off = uint64(len(data))
	}
	if n > uint64(len(data))-off {
		n = uint64(len(data)) - off
	}
	d := data[off : off+n]
	if n > 0 {
		b := []byte(d)
		C.memcpy(unsafe.Pointer(buf.ptr), unsafe.Pointer(&b[0]), C.size_t(n))
	}
	buf.size = C.size_t(n)
	return d
}

//export possum_single_read_at
func possum_single_read_at(p unsafe.Pointer, key C.SBuf, buf *C.SBuf, off C.uint64_t) C.int {
	h := handle(p, "possum_single_read_at")
	c := &Call{Key: str(key)}
	code := begin("possum_single_read_at", h, c)
	if code == 0 {
		v, ok := h.st.m[str(key)]
		if ok {
			c.Data = readAt(v.data, buf, uint64(off))
			v.used = W.used()
			h.st.m[str(key)] = v
		} else {
			code = NoSuchKey
		}
	}
	return end(h, c, code)
}

//export possum_single_delete
func possum_single_delete(p unsafe.Pointer, key C.SBuf, out *C.SStat) C.int {
	h := handle(p, "possum_single_delete")
	c := &Call{Key: str(key)}
	code := begin("possum_single_delete", h, c)
	if code == 0 {
		v, ok := h.st.m[str(key)]
		if ok {
			stat(out, len(v.data), v.used)
			c.List = []Entry{entry(str(key), v)}
			delete(h.st.m, str(key))
		} else {
			code = NoSuchKey
		}
		c.Found = ok
	}
	return end(h, c, code)
}

//export possum_handle_move_prefix
func possum_handle_move_prefix(p unsafe.Pointer, from, to C.SBuf) C.int {
	h := handle(p, "possum_handle_move_prefix")
	c := &Call{Key: str(from), To: str(to)}
	code := begin("possum_handle_move_prefix", h, c)
	if code == 0 {
		old := h.st.copy()
		for _, k := range h.st.keys(str(from)) {
			delete(h.st.m, k)
		}
		for k, v := range old {
			if strings.HasPrefix(k, str(from)) {
				h.st.m[str(to)+k[len(str(from)):]] = v
			}
		}
	}
	return end(h, c, code)
}

//export possum_handle_delete_prefix
func possum_handle_delete_prefix(p unsafe.Pointer, prefix C.SBuf) C.int {
	h := handle(p, "possum_handle_delete_prefix")
	c := &Call{Key: str(prefix)}
	code := begin("possum_handle_delete_prefix", h, c)
	if code == 0 {
		for _, k := range h.st.keys(str(prefix)) {
			delete(h.st.m, k)
		}
	}
	return end(h, c, code)
}

//export possum_set_instance_limits
func possum_set_instance_limits(p unsafe.Pointer, l *C.SLimits) C.int {
	h := handle(p, "possum_set_instance_limits")
	c := &Call{Limits: [2]uint64{uint64(l.max_value_length_sum), 0}}
	if l.disable_hole_punching {
		c.Limits[1] = 1
	}
	return end(h, c, begin("possum_set_instance_limits", h, c))
}

//export possum_cleanup_snapshots
func possum_cleanup_snapshots(p unsafe.Pointer) C.int {
	h := handle(p, "possum_cleanup_snapshots")
	c := &Call{}
	return end(h, c, begin("possum_cleanup_snapshots", h, c))
}

//export possum_reader_new
func possum_reader_new(p unsafe.Pointer, out *unsafe.Pointer) C.int {
	h := handle(p, "possum_reader_new")
	c := &Call{}
	code := begin("possum_reader_new", h, c)
	if code == 0 {
		*out = W.add(&reader{h: h, snap: h.st.copy()})
	}
	return end(h, c, code)
}

func theReader(p unsafe.Pointer, fn string) *reader {
	r, ok := get[*reader](p, fn)
	if !ok {
		panic(sched.Fatal("library called with an invalid reader"))
	}
	if r.over {
		sched.S.Fail("use-after-free", "%s uses a reader that has ended", fn)
	}
	return r
}

//export possum_reader_add
func possum_reader_add(p unsafe.Pointer, key C.SBuf, out *unsafe.Pointer) C.int {
	r := theReader(p, "possum_reader_add")
	c := &Call{Key: str(key)}
	code := begin("possum_reader_add", nil, c)
	if code == 0 {
		v, ok := r.snap[str(key)]
		if ok {
			*out = W.add(&value{r: r, key: str(key), v: v})
		} else {
			code = NoSuchKey
		}
		c.Found = ok
	}
	return end(nil, c, code)
}

//export possum_reader_begin
func possum_reader_begin(p unsafe.Pointer) C.int {
	r := theReader(p, "possum_reader_begin")
	c := &Call{}
	code := begin("possum_reader_begin", nil, c)
	r.begun = code == 0
	return end(nil, c, code)
}

//export possum_reader_end
func possum_reader_end(p unsafe.Pointer) {
	r := theReader(p, "possum_reader_end")
	c := &Call{}
	begin("possum_reader_end", nil, c)
	r.over = true
	end(nil, c, 0)
}

//export possum_reader_list_items
func possum_reader_list_items(p unsafe.Pointer, prefix C.SBuf, out **C.SItem, n *C.size_t) C.int {
	r := theReader(p, "possum_reader_list_items")
	c := &Call{Key: str(prefix)}
	code := begin("possum_reader_list_items", nil, c)
	if code == 0 {
		c.List = items(&store{r.snap}, str(prefix), out, n)
	}
	return end(nil, c, code)
}

func theValue(p unsafe.Pointer, fn string) *value {
	v, ok := get[*value](p, fn)
	if !ok {
		panic(sched.Fatal("library called with an invalid value"))
	}
	if v.r.over {
		sched.S.Fail("use-after-free", "%s uses a value of a reader that has ended", fn)
	}
	return v
}

//export possum_value_read_at
func possum_value_read_at(p unsafe.Pointer, buf *C.SBuf, off C.uint64_t) C.int {
	v := theValue(p, "possum_value_read_at")
	c := &Call{Key: v.key}
	code := begin("possum_value_read_at", nil, c)
	if code == 0 {
		c.Data = readAt(v.v.data, buf, uint64(off))
	}
	return end(nil, c, code)
}

//export possum_value_stat
func possum_value_stat(p unsafe.Pointer, out *C.SStat) {
	v := theValue(p, "possum_value_stat")
	c := &Call{Key: v.key}
	begin("possum_value_stat", nil, c)
	stat(out, len(v.v.data), v.v.used)
	c.List = []Entry{entry(v.key, v.v)}
	end(nil, c, 0)
}

//export possum_new_writer
func possum_new_writer(p unsafe.Pointer) unsafe.Pointer {
	h := handle(p, "possum_new_writer")
	c := &Call{}
	begin("possum_new_writer", h, c)
	w := &writer{h: h}
	h.Writers++
	end(h, c, 0)
	return W.add(w)
}

func theWriter(p unsafe.Pointer, fn string) *writer {
	w, ok := get[*writer](p, fn)
	if !ok {
		panic(sched.Fatal("library called with an invalid writer"))
	}
	if w.over {
		sched.S.Fail("use-after-free", "%s uses a writer that was committed", fn)
	}
	return w
}

func theVwriter(p unsafe.Pointer, fn string) *vwriter {
	v, ok := get[*vwriter](p, fn)
	if !ok {
		panic(sched.Fatal("library called with an invalid value writer"))
	}
	if v.over {
		sched.S.Fail("use-after-free", "%s uses a value writer that was staged", fn)
	}
	return v
}

//export possum_start_new_value
func possum_start_new_value(p unsafe.Pointer, out *unsafe.Pointer) C.int {
	w := theWriter(p, "possum_start_new_value")
	c := &Call{}
	code := begin("possum_start_new_value", nil, c)
	if code == 0 {
		name := append([]byte("value"), 0)
		fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
		if e != 0 {
			panic("memfd_create: " + e.Error())
		}
		W.fds[int(fd)] = true
		*out = W.add(&vwriter{w: w, fd: int(fd)})
	}
	return end(nil, c, code)
}

//export possum_value_writer_fd
func possum_value_writer_fd(p unsafe.Pointer) C.intptr_t {
	return C.intptr_t(theVwriter(p, "possum_value_writer_fd").fd)
}

//export possum_writer_stage
func possum_writer_stage(p unsafe.Pointer, key C.SBuf, vp unsafe.Pointer) C.int {
	w := theWriter(p, "possum_writer_stage")
	v := theVwriter(vp, "possum_writer_stage")
	c := &Call{Key: str(key)}
	code := begin("possum_writer_stage", nil, c)
	v.over = true
	size, _ := syscall.Seek(v.fd, 0, 2)
	b := make([]byte, size)
	if size > 0 {
		if n, err := syscall.Pread(v.fd, b, 0); err != nil || int64(n) != size {
			panic("reading back")
		}
	}
	syscall.Close(v.fd)
	W.fds[v.fd] = false
	if code == 0 {
		c.Data = string(b)
		w.staged = append(w.staged, struct{ key, data string }{str(key), string(b)})
	}
	return end(nil, c, code)
}

//export possum_writer_rename
func possum_writer_rename(p, vp unsafe.Pointer, key C.SBuf) C.int {
	w := theWriter(p, "possum_writer_rename")
	v := theValue(vp, "possum_writer_rename")
	c := &Call{Key: v.key, To: str(key)}
	code := begin("possum_writer_rename", nil, c)
	if code == 0 {
		w.ren = append(w.ren, struct{ from, to string }{v.key, str(key)})
	}
	return end(nil, c, code)
}

//export possum_writer_commit
func possum_writer_commit(p unsafe.Pointer) C.int {
	w := theWriter(p, "possum_writer_commit")
	c := &Call{}
	code := begin("possum_writer_commit", nil, c)
	w.over = true
	w.h.Writers--
	if code == 0 {
		m := w.h.st.m
		for _, s := range w.staged {
			m[s.key] = val{s.data, W.used()}
		}
		for _, r := range w.ren {
			if v, ok := m[r.from]; ok && r.from != r.to {
				delete(m, r.from)
				m[r.to] = v
			}
		}
	}
	return end(nil, c, code)
}
