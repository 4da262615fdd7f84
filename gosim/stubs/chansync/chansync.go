// Package chansync is a stand-in for github.com/anacrolix/chansync, which is not available here.
package chansync

// Point is a scheduling point, set by the simulator.
var Point = func() {}

// SetOnce is a flag that is set at most once. Its channel is not simulated.
type SetOnce struct {
	set bool
	ch  chan struct{}
}

func (me *SetOnce) Set() (first bool) {
	Point()
	if me.set {
		return false
	}
	me.set = true
	if me.ch != nil {
		close(me.ch)
	}
	return true
}

func (me *SetOnce) IsSet() bool { Point(); return me.set }

func (me *SetOnce) Done() <-chan struct{} {
	Point()
	if me.ch == nil {
		me.ch = make(chan struct{})
		if me.set {
			close(me.ch)
		}
	}
	return me.ch
}
