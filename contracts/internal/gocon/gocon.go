// Package gocon holds the specification builtins of the contract files.
// They are interpreted by the verifier (/verif/gocon); the bodies here only
// make the contract files type-check.
package gocon

// Requires states a precondition.
func Requires(c bool) {}

// Ensures states a postcondition; the label may start with the property.
func Ensures(label string, c bool) {}

// Assert is a lemma: proved here, assumed afterwards.
func Assert(label string, c bool) {}

// Inv proposes a loop invariant; the parameters of the function literal are
// bound to the loop's variables by name ("it" is the iteration number).
// Candidates that are not inductive are dropped.
func Inv(f interface{}) {}

// Variant is a termination measure.
func Variant(f interface{}) {}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Same is identity of two values (for structs, of all fields).
func Same(a, b interface{}) bool { return false }

// Forall is true if f holds for all lo <= k < hi.
func Forall(lo, hi int, f func(k int) bool) bool { return false }
func Exists(lo, hi int, f func(k int) bool) bool { return false }
func ForallStr(f func(s string) bool) bool       { return false }

// Concat is f(0) + ... + f(n-1).
func Concat(n int, f func(k int) string) string { return "" }

// Pack is an injective encoding of a list.
func Pack(l ...interface{}) string { return "" }

// contents of channels: all values ever sent, and how many were received
// and sent
func ChanAt(c interface{}, k int) interface{} { return nil }
func ChanHead(c interface{}) int              { return 0 }
func ChanTail(c interface{}) int              { return 0 }
func ChanCap(c interface{}) int               { return 0 }
func ChanClosed(c interface{}) bool           { return false }

func MapHas(m, k interface{}) bool { return false }

// Fresh: allocated by the call. Old: allocated before it.
func Fresh(p interface{}) bool { return false }
func Old(p interface{}) bool   { return false }

// ModifiesOnly: nothing but the given (and new) objects was modified.
func ModifiesOnly(label string, l ...interface{}) {}

// UF is an uninterpreted function.
func UF(name string, l ...interface{}) string { return "" }

// ExtFail: a write to a destination outside the module failed.
func ExtFail() bool { return false }

// Written is everything written to a writer.
func Written(w interface{}) string { return "" }

// Content is what is left to read of a reader.
func Content(r interface{}) string { return "" }

// Rows is the number of rows of the answer to a query.
func Rows(q string) int { return 0 }

// Log appends to a list of events that only contracts know of; the engine logs
// the text of every source read through the interface as "source".
func Log(name string, v interface{})           {}
func LogLen(name string) int                   { return 0 }
func LogAt(name string, i int) (v interface{}) { return nil }

// Quote is the text of a string formatted with %q, Sha256 the hash of a text
// formatted with %x.
func Quote(s string) string  { return "" }
func Sha256(s string) string { return "" }

// SetHas: membership in a mapset.Set of strings.
func SetHas(set interface{}, x string) bool { return false }

// SetLen and SetAt: the members of a set of strings in ascending order; the
// set is a ("" or a==b), a minus b ("-") or the intersection ("&").
func SetLen(op string, a, b interface{}) int          { return 0 }
func SetAt(op string, a, b interface{}, k int) string { return "" }

// Atom is b, which the simplifier keeps in one piece.
func Atom(b bool) bool { return b }

// SetLess is true; it recalls that the members ascend.
func SetLess(op string, a, b interface{}) bool { return true }

// SameList: both are nil or neither is, and they have the same elements.
func SameList(a, b []string) bool { return false }

// SliceIs ensures that the new slice l has n elements, which f gives.
func SliceIs(label string, l []string, n int, f func(k int) string) {}

// SetOf is the set with the key of each k, 0 <= k < n, for which f says so.
func SetOf(n int, f func(k int) (bool, string)) interface{} { return nil }

// SetIs is the postcondition that a set has the same members as another.
func SetIs(label string, a, b interface{}) {}

// Count is the number of k, 0 <= k < n, with f(k); Nth(j, f) is the j-th
// such k, from 0.
func Count(n int, f func(k int) bool) int { return 0 }
func Nth(j int, f func(k int) bool) int   { return 0 }

// SetSame: two sets of strings have the same members.
func SetSame(a, b interface{}) bool { return false }
