package mc

// GN wraps a function of N parameters; Go(args) evaluates the arguments now and
// runs the call in a new G, as a go statement does.
type F0 struct{ f func() }

func G0(f func()) F0   { return F0{f} }
func (x F0) Go()       { Go(x.f) }
func (x F0) Defer() func() { return x.f }

type F1[A any] struct{ f func(A) }

func G1[A any](f func(A)) F1[A] { return F1[A]{f} }
func (x F1[A]) Go(a A)          { Go(func() { x.f(a) }) }

type F2[A, B any] struct{ f func(A, B) }

func G2[A, B any](f func(A, B)) F2[A, B] { return F2[A, B]{f} }
func (x F2[A, B]) Go(a A, b B)           { Go(func() { x.f(a, b) }) }

type F3[A, B, C any] struct{ f func(A, B, C) }

func G3[A, B, C any](f func(A, B, C)) F3[A, B, C] { return F3[A, B, C]{f} }
func (x F3[A, B, C]) Go(a A, b B, c C)            { Go(func() { x.f(a, b, c) }) }

type F4[A, B, C, D any] struct{ f func(A, B, C, D) }

func G4[A, B, C, D any](f func(A, B, C, D)) F4[A, B, C, D] { return F4[A, B, C, D]{f} }
func (x F4[A, B, C, D]) Go(a A, b B, c C, d D)             { Go(func() { x.f(a, b, c, d) }) }

type F5[A, B, C, D, E any] struct{ f func(A, B, C, D, E) }

func G5[A, B, C, D, E any](f func(A, B, C, D, E)) F5[A, B, C, D, E] { return F5[A, B, C, D, E]{f} }
func (x F5[A, B, C, D, E]) Go(a A, b B, c C, d D, e E) {
	Go(func() { x.f(a, b, c, d, e) })
}

func R1_0[R any](f func() R) F0                      { return F0{func() { f() }} }
func R1_1[A, R any](f func(A) R) F1[A]               { return F1[A]{func(a A) { f(a) }} }
func R1_2[A, B, R any](f func(A, B) R) F2[A, B]      { return F2[A, B]{func(a A, b B) { f(a, b) }} }
func R1_3[A, B, C, R any](f func(A, B, C) R) F3[A, B, C] {
	return F3[A, B, C]{func(a A, b B, c C) { f(a, b, c) }}
}
func R1_4[A, B, C, D, R any](f func(A, B, C, D) R) F4[A, B, C, D] {
	return F4[A, B, C, D]{func(a A, b B, c C, d D) { f(a, b, c, d) }}
}
func R2_0[R, Q any](f func() (R, Q)) F0                 { return F0{func() { f() }} }
func R2_1[A, R, Q any](f func(A) (R, Q)) F1[A]          { return F1[A]{func(a A) { f(a) }} }
func R2_2[A, B, R, Q any](f func(A, B) (R, Q)) F2[A, B] { return F2[A, B]{func(a A, b B) { f(a, b) }} }
func R2_3[A, B, C, R, Q any](f func(A, B, C) (R, Q)) F3[A, B, C] {
	return F3[A, B, C]{func(a A, b B, c C) { f(a, b, c) }}
}
