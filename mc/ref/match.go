// Package ref holds reference definitions used by several checks.
package ref

// Match is the denotation of a permission pattern: a token list in which ordinary characters stand
// for themselves, a parameter (':' up to the next '/', ' ' or the end) for one or more characters
// other than '/' and ' ', and '*' for any text. Decided by an NFA simulation over token positions.
func Match(value, pattern string) bool {
	type tok struct {
		kind byte // 0 literal, 1 param, 2 star
		c    byte
	}
	var toks []tok
	for i := 0; i < len(pattern); i++ {
		switch pattern[i] {
		case ':':
			for i+1 < len(pattern) && pattern[i+1] != '/' && pattern[i+1] != ' ' {
				i++
			}
			toks = append(toks, tok{kind: 1})
		case '*':
			toks = append(toks, tok{kind: 2})
		default:
			toks = append(toks, tok{0, pattern[i]})
		}
	}
	n := len(toks)
	// can[j]: value[i:] can be matched by toks[j:]
	next := make([]bool, n+1)
	cur := make([]bool, n+1)
	for i := len(value); i >= 0; i-- {
		for j := n; j >= 0; j-- {
			ok := false
			if j == n {
				ok = i == len(value)
			} else {
				switch t := toks[j]; t.kind {
				case 2:
					ok = cur[j+1] || i < len(value) && next[j]
				case 0:
					ok = i < len(value) && value[i] == t.c && next[j+1]
				case 1:
					if i < len(value) && value[i] != '/' && value[i] != ' ' {
						ok = next[j+1] || next[j]
					}
				}
			}
			cur[j] = ok
		}
		cur, next = next, cur
	}
	return next[0]
}
