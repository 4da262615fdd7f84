// Package generics is a stand-in for github.com/anacrolix/generics, which is not available here.
package generics

func InitNew[T any](p **T) { *p = new(T) }

func SetZero[T any](p *T) {
	var z T
	*p = z
}

func ZeroValue[T any]() (z T) { return }

func PtrTo[T any](t T) *T { return &t }

type Option[V any] struct {
	Value V
	Ok    bool
}

func (me *Option[V]) Set(v V) { me.Value, me.Ok = v, true }

func (me *Option[V]) SetNone() { *me = Option[V]{} }

func (me Option[V]) Unwrap() V {
	if !me.Ok {
		panic("called Unwrap on None")
	}
	return me.Value
}

func (me Option[V]) UnwrapOr(or V) V {
	if me.Ok {
		return me.Value
	}
	return or
}

func (me Option[V]) UnwrapOrZeroValue() V { return me.Value }

func (me Option[V]) AsTuple() (V, bool) { return me.Value, me.Ok }

func Some[V any](v V) Option[V] { return Option[V]{v, true} }

func None[V any]() Option[V] { return Option[V]{} }

func OptionFromTuple[T any](t T, ok bool) Option[T] { return Option[T]{t, ok} }

func Unwrap[T any](t T, err error) T {
	if err != nil {
		panic(err)
	}
	return t
}
