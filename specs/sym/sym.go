// Package sym is the vocabulary of the specifications in this directory. It
// exists for the type checker only: the analyser gives these functions their
// meaning, and nothing here is ever executed.
package sym

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

const na = "specifications are analysed, not run"

// Arbitrary values. Values of one name are one value.
func Int(name string) *big.Int                { panic(na) } // any integer
func Nat(name string, bits int) *big.Int      { panic(na) } // 0 ≤ x < 2^bits
func Scalar(name string, n *big.Int) *big.Int { panic(na) } // 0 ≤ x < n
func Bits(name string, n int) *big.Int        { panic(na) } // 0 ≤ x < 2^n, given by its bits
func Uint8(name string) uint8                 { panic(na) }
func Uint16(name string) uint16               { panic(na) }
func Range(name string, lo, hi int) int       { panic(na) } // lo ≤ x ≤ hi
func Bool(name string) bool                   { panic(na) }
func Str(name string) string                  { panic(na) }
func Bytes(name string) []byte                { panic(na) }
func BytesN(name string, n int) []byte        { panic(na) }

// Group is any curve-like group of prime order. GroupN also fixes the orders
// (hexadecimal); uninit makes Element return an element of no known value.
func Group(name string) group.Group                             { panic(na) }
func GroupN(name, order, field string, uninit bool) group.Group { panic(na) }
func Elem(g group.Group, name string) group.Element             { panic(na) }
func ModP(p, g string)                                          { panic(na) } // integers modulo p stand for group elements
func ModPElem(p, name string) *big.Int                          { panic(na) }
func NZ(g group.Group, name string) group.Element               { panic(na) } // any element but the identity
func ListLen(field string, n int)                               { panic(na) } // length of a list in an arbitrary JSON document
func Stub(fn string, f any)                                     { panic(na) } // replaces a function by its contract
func Unstub(fn string)                                          { panic(na) }

// Assume restricts what follows; Check is an obligation.
func Assume(c bool)              { panic(na) }
func Check(label string, c bool) { panic(na) }
func Reach(label string)         { panic(na) } // this point can be reached

// Debug prints an abstract value.
func Debug(x any) { panic(na) }

// Eq is deep equality of abstract values.
func Eq(a, b any) bool { panic(na) }

// Panics tells whether f panics. What f changed before it did is not known.
func Panics(f func()) bool { panic(na) }

// Freeze starts watching all values that exist; Intact tells whether they
// still have the value they had.
func Freeze()      { panic(na) }
func Intact() bool { panic(na) }

// Unwritten tells whether nothing that existed at the last Freeze has been
// written, not even with the value it had, unless under a lock that is also
// held when it is read, or in a sync.Once.
func Unwritten() bool { panic(na) }

// Mutate changes everything reachable from x to something else.
func Mutate(x any) { panic(na) }

// Shared tells whether anything mutable is reachable from both a and b.
func Shared(a, b any) bool { panic(na) }

// Randomness: Uniform tells whether x is one draw of the cryptographic source
// below n, shifted by a constant at most; Draws is the number of draws so far;
// SameDraw tells whether two values depend on a common draw.
func Uniform(x, n *big.Int) bool   { panic(na) }
func SameDraw(a, b any) bool       { panic(na) }
func Draws() int                   { panic(na) }
func Draw(i int) *big.Int          { panic(na) }
func Masked(x any, mask any) bool  { panic(na) }
func DependsOn(x any, on any) bool { panic(na) }
func Printed(x any) bool           { panic(na) }

// Faults makes the source of randomness fail at any draws from now on; Failed
// tells whether it did.
func Faults()      { panic(na) }
func Failed() bool { panic(na) }

// Coef is the coefficient of base in E, a linear combination.
func Coef(E, base group.Element) *big.Int { panic(na) }

// Hashed tells whether the digest x is computed from a hash whose input
// contains v in recoverable form.
func Hashed(x any, v any) bool { panic(na) }
