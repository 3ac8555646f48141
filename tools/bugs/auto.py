# auto(id, prop, edits, inputs, needs, breaks): a bug whose demonstration compares the result of parsing the inputs with that of the unchanged tree.
import json, subprocess, tempfile, os, shutil
TPL = '''
package parser

import (
	"fmt"
	"testing"
	"time"

	"github.com/lyraproj/issue/issue"
)

func demoResult(src string, epp bool, opts ...Option) (s string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- "panic"
			}
		}()
		e, err := CreateParser(opts...).Parse("", src, epp)
		if r, ok := err.(issue.Reported); ok {
			done <- fmt.Sprintf("error %%s line %%d pos %%d", r.Code(), r.Location().Line(), r.Location().Pos())
			return
		}
		done <- e.ToPN().String()%(extra)s
	}()
	select {
	case s = <-done:
		return
	case <-time.After(5 * time.Second):
		return "endless"
	}
}

func TestDemo(t *testing.T) {
	for _, c := range []struct {
		src, want string
		epp       bool
		opts      []Option
	}{
%(cases)s
	} {
		if s := demoResult(c.src, c.epp, c.opts...); s != c.want {
			t.Errorf("%%q: %%s", c.src, s)
		}
	}
}
'''
EXTENTS = ''' + demoExtents(e)
	}()
	select {
	case s = <-done:
		return
	case <-time.After(5 * time.Second):
		return "endless"
	}
}

func demoExtents(root Expression) (s string) {
	root.AllContents(nil, func(path []Expression, e Expression) {
		s += fmt.Sprintf(" %T@%d+%d", e, e.ByteOffset(), e.ByteLength())
	})
	return s
}

func unused() (s string) {
	done := make(chan string, 1)
	go func() {'''
def q(s): return json.dumps(s).replace("\\u0000", "\\x00")
def auto(id, prop, edits, inputs, needs, breaks, extents=False):
    if ONLY and id not in ONLY: return
    inputs = [(i, False, "") if isinstance(i, str) else i + ("",) if len(i) == 2 else i for i in inputs]
    def make(wants):
        return TPL % {"extra": EXTENTS if extents else "", "cases": "\n".join("\t\t{%s, %s, %s, []Option{%s}}," % (q(s), q(w), "true" if e else "false", o) for (s, e, o), w in zip(inputs, wants))}
    t = tempfile.mkdtemp(prefix="auto", dir="/tmp")
    try:
        open(t + "/d_test.go", "w").write(make(["?"] * len(inputs)))
        json.dump({"Replace": {"/repo/parser/zz_demo_test.go": t + "/d_test.go"}}, open(t + "/o.json", "w"))
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; timeout 120 go test -vet=off -overlay %s/o.json -count=1 -run '^TestDemo$' ./parser" % t], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [l for l in o.stdout.splitlines() if "d_test.go" in l or "zz_demo" in l]
        if len(lines) != len(inputs): print(id, "no result", o.stdout); return
        wants = [l.split(": ", 1)[1][len(json.dumps("")) - 2:] for l in lines]
        ws = []
        for l, (s, e, op) in zip(lines, inputs):
            w = l.split(": ", 1)[1]
            # skip the quoted source
            i = 1
            while w[i] != '"':
                i += 2 if w[i] == "\\" else 1
            ws.append(w[i + 3:])
            print("   ", repr(s)[:100], "=>", ws[-1][:300])
    finally:
        shutil.rmtree(t)
    bug(id, prop, "parser", edits, make(ws), needs, breaks)
