package core

import (
	"sort"
	"strings"
)

// Mixed decodes i into digits of the given radices (least significant first).
func Mixed(i int, radix ...int) []int {
	d := make([]int, len(radix))
	for k, r := range radix {
		d[k] = i % r
		i /= r
	}
	return d
}

func Prod(radix ...int) int {
	n := 1
	for _, r := range radix {
		n *= r
	}
	return n
}

// Binom is C(n,k).
func Binom(n, k int) int {
	if k < 0 || k > n {
		return 0
	}
	r := 1
	for i := 0; i < k; i++ {
		r = r * (n - i) / (i + 1)
	}
	return r
}

// SubsetsUpTo counts the subsets of size <=k of n elements.
func SubsetsUpTo(n, k int) int {
	t := 0
	for j := 0; j <= k; j++ {
		t += Binom(n, j)
	}
	return t
}

// Subset decodes i in [0,SubsetsUpTo(n,k)) into a sorted index subset, small ones first.
func Subset(n, k, i int) []int {
	for j := 0; j <= k; j++ {
		c := Binom(n, j)
		if i < c {
			return comb(n, j, i)
		}
		i -= c
	}
	panic("subset index")
}

func comb(n, k, i int) []int {
	r := make([]int, 0, k)
	x := 0
	for k > 0 {
		c := Binom(n-x-1, k-1)
		if i < c {
			r = append(r, x)
			k--
		} else {
			i -= c
		}
		x++
	}
	return r
}

// SeqsUpTo counts sequences of length <=k over n symbols.
func SeqsUpTo(n, k int) int {
	t, p := 0, 1
	for j := 0; j <= k; j++ {
		t += p
		p *= n
	}
	return t
}

// Seq decodes i in [0,SeqsUpTo(n,k)), short sequences first.
func Seq(n, k, i int) []int {
	p := 1
	for j := 0; j <= k; j++ {
		if i < p {
			s := make([]int, j)
			for x := j - 1; x >= 0; x-- {
				s[x] = i % n
				i /= n
			}
			return s
		}
		i -= p
		p *= n
	}
	panic("seq index")
}

// Perm decodes i in [0,n!) into a permutation.
func Perm(n, i int) []int {
	avail := make([]int, n)
	for k := range avail {
		avail[k] = k
	}
	r := make([]int, 0, n)
	for k := n; k > 0; k-- {
		f := Fact(k - 1)
		j := i / f
		i %= f
		r = append(r, avail[j])
		avail = append(avail[:j], avail[j+1:]...)
	}
	return r
}

func Fact(n int) int {
	f := 1
	for k := 2; k <= n; k++ {
		f *= k
	}
	return f
}

// Keys returns the sorted keys of a set.
func Keys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// OddIDs are ids that a careless comparison confuses: by case, by surrounding blanks, as a prefix,
// as a pattern, as the text of something that is not a text, or by the length.
var OddIDs = []string{"a", "A", "a ", " a", "aa", "ab", "a/b", "a/", "*", "a*", "a?", ":a", ":b", "a:b", "a_b", "a-b", "a.b", "a,b", "a b", "a%", "%61", "á", "a\x00", "a\t", "a\n",
	"0", "1", "01", "true", "false", "nil", "<nil>", "null", "[]", strings.Repeat("a", 64), strings.Repeat("a", 65), strings.Repeat("ab", 200), "\xff", "\xfe", "é", "É", "ß", "SS"}

// OddPairs lists the ordered pairs of different OddIDs.
var OddPairs = func() (l [][2]string) {
	for _, x := range OddIDs {
		for _, y := range OddIDs {
			if x != y {
				l = append(l, [2]string{x, y})
			}
		}
	}
	return l
}()

// Sizes are sizes at and around which buffers and limits tend to lie; At gives positions in one.
func Sizes(max int) (l []int) {
	for _, n := range []int{17, 33, 51, 65, 101, 129, 257, 513, 1025} {
		if n <= max {
			l = append(l, n)
		}
	}
	return l
}

// Big enumerates the sizes with four positions in each: first, middle, last, none (= the size).
func Big(max int) (l [][2]int) {
	for _, n := range Sizes(max) {
		for _, at := range []int{0, n / 2, n - 1, n} {
			l = append(l, [2]int{n, at})
		}
	}
	return l
}

// Seps are the separators that composite keys tend to be made with.
var Seps = []string{"", ":", "|", "/", "-", "_", ".", ",", ";", " ", "#", "@", "\x00", "::", "->", "=", "&", "+", "~", "\n", "\t", "\x1f", "||", "*"}

// Joined gives two ids for each of two positions such that the first ids and the second ids, joined
// with the separator, are the same text.
func Joined(sep string) (x, y [2]string) {
	return [2]string{"a", "a" + sep + "b"}, [2]string{"b" + sep + "c", "c"}
}

// Ordered decodes i in [0,n(n-1)) into an ordered pair of different numbers below n.
func Ordered(n, i int) (int, int) {
	a, b := i/(n-1), i%(n-1)
	if b >= a {
		b++
	}
	return a, b
}
