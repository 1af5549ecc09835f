package ref

// Patterns are permissions and requested activities ("resource action"); the requests contain
// the wildcard characters too, where they stand for themselves.
func Patterns() (perms, values []string) {
	words := func(toks []string) []string {
		l := append([]string{}, toks...)
		for _, a := range toks {
			for _, b := range toks {
				l = append(l, a+b)
			}
		}
		return l
	}
	for _, r := range words([]string{"/a", "/:id", "/*", "*"}) {
		for _, a := range []string{"GET", "*"} {
			perms = append(perms, r+" "+a)
		}
	}
	for _, r := range words([]string{"/a", "/7", "/*", "/:id", "*", "/"}) {
		for _, a := range []string{"GET", "*", "PUT"} {
			values = append(values, r+" "+a)
		}
	}
	return perms, values
}
