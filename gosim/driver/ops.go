package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strings"

	"github.com/anacrolix/generics"
	possum "github.com/anacrolix/possum/go"
	possumResource "github.com/anacrolix/possum/go/resource"
	"possumsim/cstub"
	"possumsim/sched"
)

// Op is one operation of a client.
type Op struct {
	Kind  string         `json:"kind"`
	H     int            `json:"h"`
	Key   string         `json:"key,omitempty"`
	To    string         `json:"to,omitempty"`
	Keys  []string       `json:"keys,omitempty"`
	N     int            `json:"n,omitempty"`
	Off   int64          `json:"off,omitempty"`
	Fail  map[string]int `json:"fail,omitempty"`  // call of the library -> error code
	Stall map[string]int `json:"stall,omitempty"` // call of the library -> scheduling steps
}

func (o *Op) String() string {
	s := fmt.Sprintf("%s h%d %q", o.Kind, o.H, o.Key)
	if o.To != "" {
		s += fmt.Sprintf(" to %q", o.To)
	}
	if len(o.Keys) > 0 {
		s += fmt.Sprintf(" keys %q", o.Keys)
	}
	if o.N != 0 || o.Off != 0 {
		s += fmt.Sprintf(" n=%d off=%d", o.N, o.Off)
	}
	if len(o.Fail) > 0 {
		s += fmt.Sprintf(" fail %v", o.Fail)
	}
	if len(o.Stall) > 0 {
		s += fmt.Sprintf(" stall %v", o.Stall)
	}
	return s
}

type span struct{ inv, ret int }

// handle is a Go handle and what is known of it.
type handle struct {
	p      *possum.Handle
	c      *cstub.Handle
	closes []*span
	late   bool
	opened int
}

// ctx is an operation in progress.
type ctx struct {
	op     *Op
	name   string
	script cstub.Script
	inv    int
	h      *handle
	run    *run
	id     int
}

func (c *ctx) CallScript() *cstub.Script { return &c.script }

func (c *ctx) bad(class, f string, a ...any) {
	sched.S.Fail(class, "%s %s: %s", c.name, c.op, fmt.Sprintf(f, a...))
}

// calls made of a function
func (c *ctx) calls(fn string) (r []*cstub.Call) {
	for _, x := range c.script.Calls {
		if x.Fn == fn {
			r = append(r, x)
		}
	}
	return
}

func (c *ctx) last(fn string) *cstub.Call {
	l := c.calls(fn)
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

// The rules about closing, for a call of a method of the handle that began at inv and has just returned.
// It tells whether the call was turned away.
func (c *ctx) closed(h *handle, inv int, away bool) bool {
	now := sched.S.Tick()
	before, meanwhile := false, false
	for _, s := range h.closes {
		if s.ret != 0 && s.ret < inv {
			before = true
		}
		if s.inv < now {
			meanwhile = true
		}
	}
	if before && !away {
		c.bad("closed", "the handle was closed before, but the call was not turned away")
	}
	if away && !meanwhile {
		c.bad("closed", "turned away from a handle that nobody has closed")
	}
	if away {
		c.run.away++
		for _, x := range c.script.Calls {
			if x.Handle >= 0 && x.Begin > inv && x.Fn != "possum_drop" {
				c.bad("closed", "turned away, but %s was called", x.Fn)
			}
		}
	} else if !before {
		n := 0
		for _, x := range c.script.Calls {
			if x.Handle >= 0 && x.Begin > inv && x.Fn != "possum_drop" {
				n++
				if x.Handle != h.c.ID {
					c.bad("result", "%s was called on handle %d, not %d", x.Fn, x.Handle, h.c.ID)
				}
			}
		}
		if n == 0 {
			c.bad("result", "no call of the library was made")
		}
	}
	return away
}

var errBroken = errors.New("broken source")

type broken struct{}

func (broken) Read([]byte) (int, error) { sched.Point(); return 0, errBroken }

func isClosed(err error) bool { return errors.Is(err, possum.ErrHandleClosed) }

// The error that a code of the library has to become.
func (c *ctx) code(what string, err error, code int) {
	switch {
	case code == cstub.NoError && err != nil:
		c.bad("result", "%s: succeeded, but gave %v", what, err)
	case code != cstub.NoError && err == nil:
		c.bad("result", "%s: failed with code %d, but gave no error", what, code)
	case code == cstub.NoSuchKey && !errors.Is(err, fs.ErrNotExist):
		c.bad("result", "%s: no such key, but gave %v", what, err)
	case code > cstub.NoSuchKey && errors.Is(err, fs.ErrNotExist):
		c.bad("result", "%s: failed with code %d, but gave %v", what, code, err)
	}
}

func (c *ctx) info(fi fs.FileInfo, key string, e cstub.Entry) {
	if fi.Name() != key || fi.Size() != e.Size || fi.ModTime().Unix() != e.Secs || int64(fi.ModTime().Nanosecond()) != e.Nanos || fi.IsDir() {
		c.bad("result", "says name %q size %d time %v, not %q %v", fi.Name(), fi.Size(), fi.ModTime(), key, e)
	}
}

func (c *ctx) data(n int) []byte {
	c.run.vals++
	return content(c.run.vals, n)
}

func content(id, n int) []byte {
	b := bytes.Repeat([]byte(fmt.Sprintf("<%d>", id)), n/3+1)
	return b[:n]
}

// A read of at most len(p) bytes gave n and err; the library's call was x.
func (c *ctx) read(p []byte, n int, err error, x *cstub.Call) {
	if x == nil {
		c.bad("result", "nothing was read")
		return
	}
	if x.Code != 0 {
		c.code(x.Fn, err, x.Code)
		if n != 0 {
			c.bad("result", "%s failed, but %d bytes were said to be read", x.Fn, n)
		}
		return
	}
	if n != len(x.Data) || string(p[:n]) != x.Data {
		c.bad("result", "%d bytes %q, not %q", n, trunc(p[:min(n, len(p))]), trunc([]byte(x.Data)))
	}
	if n == 0 && len(p) != 0 {
		if err != io.EOF {
			c.bad("result", "nothing left to read, but gave %v", err)
		}
	} else if err != nil && !(err == io.EOF && n < len(p)) {
		c.bad("result", "read %d bytes, but gave %v", n, err)
	}
}

func trunc(b []byte) string {
	if len(b) > 24 {
		return string(b[:24]) + "..."
	}
	return string(b)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func names(l []cstub.Entry) (r []string) {
	for _, e := range l {
		r = append(r, e.Key)
	}
	return
}

func same(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

func (c *ctx) exec() (out string) {
	o, h := c.op, c.h
	tick := func() int { return sched.S.Tick() }
	plain := func(fn string, err error) string {
		if !c.closed(h, c.inv, isClosed(err)) {
			if x := c.last(fn); x != nil {
				c.code(fn, err, x.Code)
			}
		}
		return fmt.Sprint(err)
	}
	switch o.Kind {
	case "put":
		b := c.data(o.N)
		err := h.p.PutBuf(o.Key, b)
		if !c.closed(h, c.inv, isClosed(err)) {
			if x := c.last("possum_single_write_buf"); x != nil {
				c.code(x.Fn, err, x.Code)
				if x.Code == 0 && (x.Key != o.Key || x.Data != string(b)) {
					c.bad("result", "wrote %q=%q", x.Key, trunc([]byte(x.Data)))
				}
			}
		}
		return fmt.Sprint(err)
	case "readat":
		p := make([]byte, o.N)
		if o.N == 0 && o.Off%2 == 0 {
			p = nil
		}
		n, err := h.p.SingleReadAt(o.Key, o.Off, p)
		if c.closed(h, c.inv, isClosed(err)) {
			if n != 0 {
				c.bad("result", "turned away with %d bytes", n)
			}
		} else if x := c.last("possum_single_read_at"); x != nil {
			if x.Key != o.Key {
				c.bad("result", "read %q", x.Key)
			}
			c.read(p, n, err, x)
		}
		return fmt.Sprint(n, err)
	case "stat":
		fi, ok := h.p.SingleStat(o.Key)
		x := c.last("possum_single_stat")
		if !c.closed(h, c.inv, x == nil && !ok) && x != nil {
			if ok != x.Found {
				c.bad("result", "found %v, not %v", ok, x.Found)
			} else if ok {
				c.info(fi, o.Key, x.List[0])
			}
		}
		return fmt.Sprint(ok)
	case "list":
		keys, err := h.p.ListKeys(o.Key)
		if !c.closed(h, c.inv, isClosed(err)) {
			if x := c.last("possum_list_items"); x != nil {
				c.code(x.Fn, err, x.Code)
				if x.Code == 0 && !same(keys, names(x.List)) {
					c.bad("result", "listed %q, not %q", keys, names(x.List))
				}
			}
		}
		return fmt.Sprintf("%q %v", keys, err)
	case "delete":
		fi, err := h.p.SingleDelete(o.Key)
		if !c.closed(h, c.inv, isClosed(err)) {
			if x := c.last("possum_single_delete"); x != nil {
				if x.Code == cstub.NoSuchKey {
					if err != nil || fi.Ok {
						c.bad("result", "no such key, but gave %v %v", fi.Ok, err)
					}
				} else {
					c.code(x.Fn, err, x.Code)
					if fi.Ok != x.Found {
						c.bad("result", "deleted %v, not %v", fi.Ok, x.Found)
					} else if fi.Ok {
						c.info(fi.Value, o.Key, x.List[0])
					}
				}
			}
		}
		return fmt.Sprint(fi.Ok, err)
	case "move":
		err := h.p.MovePrefix([]byte(o.Key), []byte(o.To))
		if x := c.last("possum_handle_move_prefix"); x != nil && (x.Key != o.Key || x.To != o.To) {
			c.bad("result", "moved %q to %q", x.Key, x.To)
		}
		return plain("possum_handle_move_prefix", err)
	case "delprefix":
		err := h.p.DeletePrefix([]byte(o.Key))
		if x := c.last("possum_handle_delete_prefix"); x != nil && x.Key != o.Key {
			c.bad("result", "deleted %q", x.Key)
		}
		return plain("possum_handle_delete_prefix", err)
	case "limits":
		l := possum.Limits{DisableHolePunching: o.Off == 1}
		want := [2]uint64{^uint64(0), uint64(o.Off)}
		if o.N > 0 {
			l.MaxValueLengthSum = generics.Some(uint64(o.N))
			want[0] = uint64(o.N)
		}
		err := h.p.SetInstanceLimits(l)
		if x := c.last("possum_set_instance_limits"); x != nil && x.Limits != want {
			c.bad("result", "limits %v, not %v", x.Limits, want)
		}
		return plain("possum_set_instance_limits", err)
	case "cleanup":
		return plain("possum_cleanup_snapshots", h.p.CleanupSnapshots())
	case "reader":
		r, err := h.p.NewReader()
		if c.closed(h, c.inv, isClosed(err)) {
			return "closed"
		}
		c.code("NewReader", err, c.last("possum_reader_new").Code)
		if err != nil {
			return fmt.Sprint(err)
		}
		var vals []possum.Value
		var vkeys []string
		for _, k := range o.Keys {
			v, err := r.Add(k)
			x := c.last("possum_reader_add")
			c.code("Add", err, x.Code)
			if err == nil {
				vals = append(vals, v)
				vkeys = append(vkeys, k)
			}
		}
		if o.Off%3 == 0 {
			l, err := r.ListItems(o.Key)
			x := c.last("possum_reader_list_items")
			c.code("ListItems", err, x.Code)
			if err == nil {
				if len(l) != len(x.List) {
					c.bad("result", "listed %d items, not %d", len(l), len(x.List))
				} else {
					for i, e := range x.List {
						if l[i].Key != e.Key || l[i].Size() != e.Size || l[i].LastUsed().Unix() != e.Secs {
							c.bad("result", "listed %v, not %v", l[i], e)
						}
					}
				}
			}
		}
		err = r.Begin()
		c.code("Begin", err, c.last("possum_reader_begin").Code)
		if err == nil {
			for i, v := range vals {
				p := make([]byte, o.N)
				if o.N == 0 && o.Off%2 == 0 {
					p = nil
				}
				n, err := v.ReadAt(p, o.Off)
				c.read(p, n, err, c.last("possum_value_read_at"))
				fi := v.Stat()
				x := c.last("possum_value_stat")
				if x == nil || x.Key != vkeys[i] || fi.Size() != x.List[0].Size || fi.ModTime().Unix() != x.List[0].Secs {
					c.bad("result", "value's size %d and time %v are not %v", fi.Size(), fi.ModTime(), x)
				}
			}
		}
		if err := r.Close(); err != nil {
			c.bad("result", "closing the reader: %v", err)
		}
		if n := len(c.calls("possum_reader_end")); n != 1 {
			c.bad("result", "the reader was ended %d times", n)
		}
		return fmt.Sprint(len(vals), err)
	case "writer":
		w, err := h.p.NewWriter()
		if c.closed(h, c.inv, isClosed(err)) {
			if w != nil {
				c.bad("result", "a writer and an error")
			}
			return "closed"
		}
		if err != nil {
			c.bad("result", "NewWriter: %v", err)
			return fmt.Sprint(err)
		}
		for i, k := range o.Keys {
			vw, err := w.StartNewValue()
			c.code("StartNewValue", err, c.last("possum_start_new_value").Code)
			if err != nil {
				continue
			}
			b := c.data(o.N + i)
			f, err := vw.NewFile(k)
			if err != nil {
				c.bad("result", "NewFile: %v", err)
				continue
			}
			half := len(b) / 2
			f.Write(b[:half])
			sched.Point()
			f.Write(b[half:])
			err = w.Stage([]byte(k), vw)
			x := c.last("possum_writer_stage")
			c.code("Stage", err, x.Code)
			if x.Code == 0 && (x.Key != k || x.Data != string(b)) {
				c.bad("result", "staged %q=%q, not %q=%q", x.Key, trunc([]byte(x.Data)), k, trunc(b))
			}
			if _, err := f.Write([]byte("x")); err == nil {
				c.bad("result", "the value's file is still open after it was staged")
			}
		}
		if o.To != "" {
			i0 := tick()
			r, err := h.p.NewReader()
			if !c.closed(h, i0, isClosed(err)) && err == nil {
				v, err := r.Add(o.Key)
				if err == nil {
					w.Rename(v, []byte(o.To))
					if x := c.last("possum_writer_rename"); x == nil || x.Key != o.Key || x.To != o.To {
						c.bad("result", "renamed %v", x)
					}
				}
				r.End()
			}
		}
		err = w.Commit()
		if x := c.last("possum_writer_commit"); x == nil {
			c.bad("result", "nothing was committed")
		} else {
			c.code("Commit", err, x.Code)
		}
		return fmt.Sprint(err)
	case "rput":
		i, err := possumResource.Provider{Handle: h.p}.NewInstance(o.Key)
		if err != nil {
			c.bad("result", "NewInstance: %v", err)
			return
		}
		b := c.data(o.N)
		var src io.Reader = bytes.NewReader(b)
		if o.Off == 1 {
			src = io.MultiReader(bytes.NewReader(b[:o.N/2]), broken{})
		}
		err = i.Put(src)
		if !c.closed(h, c.inv, isClosed(err)) {
			failed := o.Off == 1
			if failed && c.last("possum_writer_stage") != nil {
				c.bad("result", "stored what could not be read")
			}
			for _, x := range c.script.Calls {
				failed = failed || x.Code != 0
			}
			if failed != (err != nil) {
				c.bad("result", "failed %v, but gave %v", failed, err)
			}
			x := c.last("possum_writer_stage")
			if err == nil && (x == nil || x.Key != o.Key || x.Data != string(b)) {
				c.bad("result", "stored something else: %v", x)
			}
			if c.last("possum_writer_commit") == nil {
				c.bad("result", "the writer was left open")
			}
		}
		return fmt.Sprint(err)
	case "rget":
		i, _ := possumResource.Provider{Handle: h.p}.NewInstance(o.Key)
		rc, err := i.Get()
		if c.closed(h, c.inv, isClosed(err)) {
			return "closed"
		}
		if err == nil {
			b, rerr := io.ReadAll(rc)
			want := ""
			code := 0
			for _, x := range c.calls("possum_value_read_at") {
				want += x.Data
				code = x.Code
			}
			if string(b) != want {
				c.bad("result", "got %d bytes %q, not %q", len(b), trunc(b), trunc([]byte(want)))
			}
			if code != 0 && rerr == nil || code == 0 && rerr != nil {
				c.bad("result", "reading ended with %v, the library gave %d", rerr, code)
			}
			if code == 0 {
				if x := c.last("possum_value_stat"); x != nil && int(x.List[0].Size) != len(b) {
					c.bad("result", "got %d bytes of %d", len(b), x.List[0].Size)
				}
			}
			rc.Close()
		} else {
			code := 0
			for _, x := range c.script.Calls {
				if x.Code != 0 {
					code = x.Code
				}
			}
			c.code("Get", err, code)
		}
		if c.last("possum_reader_new").Code == 0 && len(c.calls("possum_reader_end")) != 1 {
			c.bad("result", "the reader was ended %d times", len(c.calls("possum_reader_end")))
		}
		return fmt.Sprint(err)
	case "rstat":
		i, _ := possumResource.Provider{Handle: h.p}.NewInstance(o.Key)
		fi, err := i.Stat()
		x := c.last("possum_single_stat")
		if !c.closed(h, c.inv, x == nil && err != nil) && x != nil {
			if x.Found != (err == nil) || err != nil && !errors.Is(err, fs.ErrNotExist) {
				c.bad("result", "found %v, but gave %v", x.Found, err)
			} else if err == nil {
				c.info(fi, o.Key, x.List[0])
			}
		}
		return fmt.Sprint(err)
	case "rdelete":
		i, _ := possumResource.Provider{Handle: h.p}.NewInstance(o.Key)
		err := i.Delete()
		if !c.closed(h, c.inv, isClosed(err)) {
			if x := c.last("possum_single_delete"); x != nil {
				c.code(x.Fn, err, x.Code)
			}
		}
		return fmt.Sprint(err)
	case "rnames":
		i, _ := possumResource.Provider{Handle: h.p}.NewInstance(o.Key)
		d, ok := i.(interface{ Readdirnames() ([]string, error) })
		if !ok {
			c.bad("result", "not a DirInstance")
			return
		}
		l, err := d.Readdirnames()
		if !c.closed(h, c.inv, isClosed(err)) {
			if x := c.last("possum_list_items"); x != nil {
				c.code(x.Fn, err, x.Code)
				if x.Code == 0 && !same(l, names(x.List)) {
					c.bad("result", "listed %q, not %q", l, names(x.List))
				}
				if !strings.HasPrefix(x.Key, o.Key) {
					c.bad("result", "listed below %q", x.Key)
				}
			}
		}
		return fmt.Sprintf("%q %v", l, err)
	case "close":
		s := &span{inv: c.inv}
		h.closes = append(h.closes, s)
		err := h.p.Close()
		s.ret = tick()
		if err != nil {
			c.bad("closed", "Close gave %v", err)
		}
		return fmt.Sprint(err)
	case "open":
		p, err := possum.Open(o.Key)
		x := c.last("possum_new")
		if x == nil || (x.Code != 0) != (err != nil) || (p == nil) != (err != nil) || x.Key != o.Key {
			c.bad("result", "Open gave %v %v for %v", p != nil, err, x)
			return
		}
		if err != nil {
			return fmt.Sprint(err)
		}
		n := &handle{p: p, c: cstub.W.Handles[x.Handle], late: true}
		c.run.all = append(c.run.all, n)
		if perr := p.PutBuf("opened", []byte("x")); perr != nil && len(o.Fail) == 0 {
			c.bad("result", "PutBuf: %v", perr)
		}
		s := &span{inv: tick()}
		n.closes = append(n.closes, s)
		if cerr := p.Close(); cerr != nil {
			c.bad("closed", "Close gave %v", cerr)
		}
		s.ret = tick()
		return "ok"
	}
	panic("unknown operation " + o.Kind)
}
