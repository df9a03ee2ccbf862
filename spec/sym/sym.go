// Package sym is the vocabulary of the obligations. Its functions are interpreted by the checker
// (checker/intrinsics.go); nothing here is ever compiled into a program or run.
package sym

// Nat is an arbitrary integer >= 0, Pos >= 1
func Nat(name string) int { return 0 }
func Pos(name string) int { return 0 }

// Of is an arbitrary value; two values with the same name have the same content but share no memory
func Of[T any](name string) T { var t T; return t }

// Slice is a slice of n arbitrary elements, Slice2 n rows of m
func Slice[S ~[]E, E any](name string, n int) S              { return nil }
func Slice2[S ~[]R, R ~[]E, E any](name string, n, m int) S  { return nil }

// Assume restricts the inputs for what follows
func Assume(b bool) {}

// Equal requires two values to have the same content
func Equal(label string, x, y any) {}

// Holds requires b
func Holds(label string, b bool) {}

// Implies is a → b
func Implies(a, b bool) bool { return !a || b }

// ForAll tells whether f(i) for all 0 <= i < n
func ForAll(n int, f func(i int) bool) bool { return true }

// Sum is f(0)+…+f(n-1)
func Sum[T any](n int, f func(i int) T) T { var t T; return t }

// Asserted is the conjunction of the constraints added by f
func Asserted(f func()) bool { return true }

// Init runs the initialisation of a package of the repository
func Init(pkg string) {}

// Require adds a constraint
func Require(b bool) {}

// Panics is the condition under which f panics
func Panics(f func()) bool { return false }

// Fresh requires that no memory is shared between x and any of the others
func Fresh(label string, x any, others ...any) {}

// NoSpareWrites requires f not to write in the spare capacity of the caller's slices
func Quiet(label string, f func()) {}

// Eq compares field elements or any two values
func Eq(x, y any) bool { return true }

// Pow2 is 2^n
func Pow2(n int) int { return 1 << uint(n) }

// Bit is the i-th bit of k, as 0 or 1, i=0 being the least significant
func Bit(k, i int) int { return k >> uint(i) & 1 }

// ChanFor is a new channel of capacity n for the fourth argument of f
func ChanFor[A, B, C, T, S any](f func(A, B, C, chan T, S), n int) chan T { return nil }

// Deliver sends on ch the structure made of the given fields
func Deliver(ch any, fields ...any) {}

// Receives tells that this goroutine receives all that is sent to a channel
func Receives(ch any) {}

// Perm is the image of i by an arbitrary permutation of 0..n-1
func Perm(name string, n, i int) int { return i }
