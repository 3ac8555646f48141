package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Syntax trees for the rules that look at more than one level. The notation is
//
//	(Factory arg ...)  a node created by a factory method; arguments that are left out are unknown
//	$Kind              an unknown node of a kind
//	[x ...]            a list
//	"text" 12 true nil _  constants and the unknown value
//
// A scenario is "Container Container |- tree". Containers are given from the root. A container of the form Kind! is known to be
// the first container of its kind.

type sexp struct {
	atom string
	str  bool
	list []sexp
	open byte
}

func parseSexp(s string) (sexp, string) {
	s = strings.TrimLeft(s, " ")
	if s == "" {
		fatalf("bad scenario")
	}
	switch s[0] {
	case '(', '[':
		x := sexp{open: s[0]}
		cl := byte(')')
		if s[0] == '[' {
			cl = ']'
		}
		s = strings.TrimLeft(s[1:], " ")
		for s != "" && s[0] != cl {
			var e sexp
			e, s = parseSexp(s)
			x.list = append(x.list, e)
			s = strings.TrimLeft(s, " ")
		}
		if s == "" {
			fatalf("unbalanced scenario")
		}
		return x, s[1:]
	case '"':
		i := strings.IndexByte(s[1:], '"')
		return sexp{atom: s[1 : i+1], str: true}, s[i+2:]
	}
	i := strings.IndexAny(s, " ()[]")
	if i < 0 {
		i = len(s)
	}
	return sexp{atom: s[:i]}, s[i:]
}

func readLines(name string) []string {
	b, err := specFS.ReadFile(name)
	if err != nil {
		fatalf("%s is missing", name)
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" && !strings.HasPrefix(l, "#") {
			out = append(out, l)
		}
	}
	return out
}

// sourceStrings returns all string constants of the repository that could be compared with a name
func (p *Program) sourceStrings() []string {
	m := map[string]bool{}
	for _, f := range p.SrcFuncs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						s := constant.StringVal(c.Value)
						if len(s) > 0 && len(s) <= 24 && !strings.ContainsAny(s, "\"%{}\\") {
							m[s] = true
						}
					}
				}
			}
		}
	}
	return sortedKeys(m)
}

// mask replaces each letter or digit with a representative
func mask(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return 'q'
		case r >= 'A' && r <= 'Z':
			return 'Q'
		case r >= '0' && r <= '9':
			return '7'
		}
		return r
	}, s)
}
