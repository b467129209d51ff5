package hz

// C30 and C31: the checks of other properties, in a harness built for another
// platform or by another version of Go. This file comes last, as the other
// properties must be there.

// shared makes the checks of other properties ones of this property, with
// fewer cases: these is "ID" for all checks of a property, "ID name" for one.
func shared(share int, these ...string) (subs []Sub) {
	for _, w := range these {
		n := len(subs)
		for _, s := range props[w[:3]].Subs {
			if len(w) == 3 || w[4:] == s.Name {
				s.Name = w[:3] + " " + s.Name
				s.Quick, s.Deep = max(s.Quick/share, 3), max(s.Deep/share, 3)
				subs = append(subs, s)
			}
		}
		if n == len(subs) {
			panic(w)
		}
	}
	return subs
}

func init() {
	addProp(&Prop{ID: "C30", Variants: []string{"386"}, Rule: "cases are those of the checks of other properties, among them inputs with lengths, numbers and values beyond 32 bits, run against the same reference models in a build for a 32-bit platform (GOARCH=386); non-trivial: as in the other property", Subs: shared(20,
		"C01", "C02", "C03", "C04", "C05 bytes", "C05 deep", "C06", "C07", "C08", "C09", "C10", "C11 encode", "C11 decode", "C12 encode", "C12 decode", "C13",
		"C15", "C16", "C17", "C20", "C21 values", "C21 order", "C23", "C24 history", "C25", "C27", "C29")})
	addProp(&Prop{ID: "C31", Variants: []string{"go1.23", "go1.24", "go1.25", "go1.26"}, Env: []string{"GODEBUG=clobberfree=1"}, Rule: "cases are those of the checks of other properties, run against the same reference models in builds by older versions of Go, one of which has another implementation of maps; non-trivial: as in the other property", Subs: shared(10,
		"C01", "C04 legal", "C05 bytes", "C05 deep", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C20", "C21 values", "C21 order", "C23", "C24 history", "C25", "C27")})
}
