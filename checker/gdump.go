package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

func dumpGrammar(p *Program, name string, bound, limit int, opts, first []string, facet string) {
	g := newGrammar(p)
	r := newRun(g, bound)
	if n := strings.SplitN(name, " ", 2); len(n) == 2 {
		name = n[0]
		r.about(n[1])
	}
	t0 := time.Now()
	ls, over := r.extract(name, opts, first, limit)
	t1 := time.Now()
	for i := range ls {
		if i < 3 {
			fmt.Printf("%+v\n", ls[i])
		}
	}
	b := &trieBuilder{domains: r.domains(), tokens: g.kinds, facet: func(l *gleaf) string { return leafText(l, facet) }}
	var pl []*gleaf
	for i := range ls {
		pl = append(pl, &ls[i])
	}
	t := b.build(pl)
	rows := t.rows(b.domains)
	var out []string
	for _, x := range rows {
		out = append(out, x.path+" => "+x.outcome)
	}
	sort.Strings(out)
	fmt.Println(strings.Join(out, "\n"))
	fmt.Println(len(ls), "paths", len(rows), "rows over", over, t1.Sub(t0), time.Since(t1), g.missing)
}

func leafText(l *gleaf, facet string) string {
	switch facet {
	case "all":
		var s []string
		for _, k := range []string{"tree", "defs", "error", "errorpos", "extents"} {
			if v := l.facets[k]; v != "" {
				s = append(s, v)
			}
		}
		return strings.Join(s, " ## ")
	case "tree":
		s := l.facets["tree"]
		if d := l.facets["defs"]; d != "" {
			s += " defines " + d
		}
		return s
	}
	return l.facets[facet]
}
