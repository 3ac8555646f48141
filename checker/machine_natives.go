package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The functions of the standard library that the analysed packages use are not analysed: what they do is taken
// from their documentation.

type nativeFn = func(m *Machine, args []mval) mval

var natives map[string]nativeFn

func (m *Machine) bool(v mval) bool { return m.force(v).(bool) }

func (m *Machine) goError(msg string) miface {
	t := m.p.errorString()
	c := new(mval)
	*c = mstruct{msg}
	return miface{types.NewPointer(t), c}
}

var errorStringType types.Type

// errorString is the type errors.errorString
func (p *Program) errorString() types.Type {
	if errorStringType == nil {
		pkg := p.Prog.ImportedPackage("errors")
		if pkg == nil {
			fatalf("package errors not found")
		}
		errorStringType = pkg.Type("errorString").Type()
	}
	return errorStringType
}

func predicate(f func(r rune) bool) nativeFn {
	return func(m *Machine, a []mval) mval { return f(rune(m.num(a[0]))) }
}

func str1(f func(s string) mval) nativeFn {
	return func(m *Machine, a []mval) mval { return f(m.str(a[0])) }
}

func str2(f func(s, t string) mval) nativeFn {
	return func(m *Machine, a []mval) mval { return f(m.str(a[0]), m.str(a[1])) }
}

func (m *Machine) strs(v mval) []string {
	x := v.([]mval)
	r := make([]string, len(x))
	for i, e := range x {
		r[i] = m.str(e)
	}
	return r
}

func strVals(ss []string) []mval {
	r := make([]mval, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

// buffer is the content of a bytes.Buffer or a strings.Builder
func (m *Machine) buffer(v mval) *mval {
	p, _ := v.(*mval)
	if p == nil {
		m.rtPanic(nil, "nil pointer dereference")
	}
	s := (*p).(mstruct)
	switch s[0].(type) {
	case string, mtext:
	default:
		s[0] = ""
	}
	return &s[0]
}

func textLen(v mval) int {
	if t, ok := v.(mtext); ok {
		return t.len()
	}
	return len(v.(string))
}

func bufWrite(f func(m *Machine, v mval) (mval, mval)) nativeFn {
	return func(m *Machine, a []mval) mval {
		b := m.buffer(a[0])
		s, r := f(m, a[1])
		*b = m.appendText(*b, s)
		return r
	}
}

func init() {
	natives = map[string]nativeFn{
		"unicode.IsLetter":  predicate(unicode.IsLetter),
		"unicode.IsDigit":   predicate(unicode.IsDigit),
		"unicode.IsNumber":  predicate(unicode.IsNumber),
		"unicode.IsSpace":   predicate(unicode.IsSpace),
		"unicode.IsUpper":   predicate(unicode.IsUpper),
		"unicode.IsLower":   predicate(unicode.IsLower),
		"unicode.IsPrint":   predicate(unicode.IsPrint),
		"unicode.IsControl": predicate(unicode.IsControl),
		"unicode.ToLower":   func(m *Machine, a []mval) mval { return int64(unicode.ToLower(rune(m.num(a[0])))) },
		"unicode.ToUpper":   func(m *Machine, a []mval) mval { return int64(unicode.ToUpper(rune(m.num(a[0])))) },
		"unicode/utf8.DecodeRuneInString": func(m *Machine, a []mval) mval {
			switch x := m.force(a[0]).(type) {
			case srcRange:
				if !x.s.has(m, x.from) {
					return mtuple{int64(utf8.RuneError), int64(0)}
				}
				it := x.s.find(x.from)
				n := x.s.size(m, it)
				if it.pos != x.from {
					return mtuple{int64(utf8.RuneError), int64(1)}
				}
				if c, ok := charVal(it.v).(int64); ok && c < 0 {
					return mtuple{int64(utf8.RuneError), int64(1)}
				}
				return mtuple{charVal(it.v), int64(n)}
			case mtext:
				if len(x.ch) == 0 {
					return mtuple{int64(utf8.RuneError), int64(0)}
				}
				if n, ok := x.ch[0].v.(int64); ok && n < 0 {
					return mtuple{int64(utf8.RuneError), int64(1)}
				}
				return mtuple{x.ch[0].v, int64(x.ch[0].size)}
			}
			r, n := utf8.DecodeRuneInString(m.str(a[0]))
			return mtuple{int64(r), int64(n)}
		},
		"unicode/utf8.DecodeLastRuneInString": func(m *Machine, a []mval) mval {
			r, n := utf8.DecodeLastRuneInString(m.str(a[0]))
			return mtuple{int64(r), int64(n)}
		},
		"unicode/utf8.RuneCountInString": func(m *Machine, a []mval) mval {
			if t, ok := m.force(a[0]).(mtext); ok {
				return int64(len(t.ch))
			}
			return int64(utf8.RuneCountInString(m.str(a[0])))
		},
		"unicode/utf8.ValidString": str1(func(s string) mval { return utf8.ValidString(s) }),
		"unicode/utf8.ValidRune":   predicate(utf8.ValidRune),
		"unicode/utf8.RuneLen":     func(m *Machine, a []mval) mval { return int64(utf8.RuneLen(rune(m.num(a[0])))) },
		"strings.ToLower":          str1(func(s string) mval { return strings.ToLower(s) }),
		"strings.ToUpper":          str1(func(s string) mval { return strings.ToUpper(s) }),
		"strings.TrimSpace":        str1(func(s string) mval { return strings.TrimSpace(s) }),
		"strings.TrimPrefix":       str2(func(s, t string) mval { return strings.TrimPrefix(s, t) }),
		"strings.TrimSuffix":       str2(func(s, t string) mval { return strings.TrimSuffix(s, t) }),
		"strings.TrimLeft":         str2(func(s, t string) mval { return strings.TrimLeft(s, t) }),
		"strings.TrimRight":        str2(func(s, t string) mval { return strings.TrimRight(s, t) }),
		"strings.Trim":             str2(func(s, t string) mval { return strings.Trim(s, t) }),
		"strings.HasPrefix": func(m *Machine, a []mval) mval {
			if sr, ok := a[0].(srcRange); ok {
				p := m.str(a[1])
				for i := range p {
					if !sr.s.has(m, sr.from+i) || !m.equal(sr.s.byteAt(m, sr.from+i), int64(p[i]), nil) {
						return false
					}
				}
				return true
			}
			if t, ok := a[0].(mtext); ok {
				if p, ok := m.textOf(a[1]); ok {
					h, ok := t.cut(0, p.len())
					return ok && m.equal(h, a[1], nil)
				}
			}
			return strings.HasPrefix(m.str(a[0]), m.str(a[1]))
		},
		"strings.HasSuffix":   str2(func(s, t string) mval { return strings.HasSuffix(s, t) }),
		"strings.Contains":    func(m *Machine, a []mval) mval { return m.num(m.findText(a[0], a[1])) >= 0 },
		"strings.ContainsAny": str2(func(s, t string) mval { return strings.ContainsAny(s, t) }),
		"strings.Index":       func(m *Machine, a []mval) mval { return m.findText(a[0], a[1]) },
		"strings.LastIndex": func(m *Machine, a []mval) mval {
			if t, ok := m.force(a[0]).(mtext); ok {
				if what, ok := m.force(a[1]).(string); ok && len(what) == 1 {
					return m.lastIndexChar(t, int64(what[0]))
				}
			}
			return int64(strings.LastIndex(m.str(a[0]), m.str(a[1])))
		},
		"strings.IndexAny":  str2(func(s, t string) mval { return int64(strings.IndexAny(s, t)) }),
		"strings.EqualFold": str2(func(s, t string) mval { return strings.EqualFold(s, t) }),
		"strings.Count": func(m *Machine, a []mval) mval {
			if t, ok := m.force(a[0]).(mtext); ok {
				if what, ok := m.force(a[1]).(string); ok && utf8.RuneCountInString(what) == 1 {
					n := int64(0)
					c, _ := utf8.DecodeRuneInString(what)
					for _, x := range t.ch {
						if m.bool(m.charEqual(x.v, int64(c))) {
							n++
						}
					}
					return n
				}
			}
			return int64(strings.Count(m.str(a[0]), m.str(a[1])))
		},
		"strings.Split":        str2(func(s, t string) mval { return strVals(strings.Split(s, t)) }),
		"strings.Fields":       str1(func(s string) mval { return strVals(strings.Fields(s)) }),
		"strings.ContainsRune": func(m *Machine, a []mval) mval { return m.num(m.indexChar(a[0], a[1])) >= 0 },
		"strings.IndexByte":    func(m *Machine, a []mval) mval { return m.indexChar(a[0], a[1]) },
		"strings.IndexRune":    func(m *Machine, a []mval) mval { return m.indexChar(a[0], a[1]) },
		"strings.LastIndexByte": func(m *Machine, a []mval) mval {
			if t, ok := m.force(a[0]).(mtext); ok {
				return m.lastIndexChar(t, a[1])
			}
			return int64(strings.LastIndexByte(m.str(a[0]), byte(m.num(a[1]))))
		},
		"strings.Repeat": func(m *Machine, a []mval) mval {
			n := m.num(a[1])
			if n < 0 {
				m.rtPanic(nil, "negative repeat count")
			}
			return strings.Repeat(m.str(a[0]), int(n))
		},
		"strings.Join": func(m *Machine, a []mval) mval { return strings.Join(m.strs(a[0]), m.str(a[1])) },
		"strings.Replace": func(m *Machine, a []mval) mval {
			return strings.Replace(m.str(a[0]), m.str(a[1]), m.str(a[2]), int(m.num(a[3])))
		},
		"strings.ReplaceAll": func(m *Machine, a []mval) mval {
			return strings.ReplaceAll(m.str(a[0]), m.str(a[1]), m.str(a[2]))
		},
		"strings.SplitN": func(m *Machine, a []mval) mval {
			return strVals(strings.SplitN(m.str(a[0]), m.str(a[1]), int(m.num(a[2]))))
		},
		"strconv.Itoa":      func(m *Machine, a []mval) mval { return strconv.Itoa(int(m.num(a[0]))) },
		"strconv.Quote":     str1(func(s string) mval { return strconv.Quote(s) }),
		"strconv.FormatInt": func(m *Machine, a []mval) mval { return strconv.FormatInt(m.num(a[0]), int(m.num(a[1]))) },
		"strconv.FormatBool": func(m *Machine, a []mval) mval {
			return strconv.FormatBool(m.bool(a[0]))
		},
		"strconv.FormatFloat": func(m *Machine, a []mval) mval {
			return strconv.FormatFloat(m.force(a[0]).(float64), byte(m.num(a[1])), int(m.num(a[2])), int(m.num(a[3])))
		},
		"strconv.ParseInt": func(m *Machine, a []mval) mval {
			if t, ok := a[0].(mtext); ok {
				base := m.num(a[1])
				return m.parsed(fmt.Sprintf("integer base %d size %d ", base, m.num(a[2])), base, m.num(a[2]), t, func(c byte) bool { return digitOf(c) < int(base) })
			}
			v, err := strconv.ParseInt(m.str(a[0]), int(m.num(a[1])), int(m.num(a[2])))
			return mtuple{v, m.optError(err)}
		},
		"strconv.ParseUint": func(m *Machine, a []mval) mval {
			if t, ok := a[0].(mtext); ok {
				base := m.num(a[1])
				return m.parsed(fmt.Sprintf("integer base %d size %d ", base, m.num(a[2])), base, m.num(a[2]), t, func(c byte) bool { return digitOf(c) < int(base) })
			}
			v, err := strconv.ParseUint(m.str(a[0]), int(m.num(a[1])), int(m.num(a[2])))
			return mtuple{int64(v), m.optError(err)}
		},
		"strconv.Atoi": func(m *Machine, a []mval) mval {
			if t, ok := a[0].(mtext); ok {
				return m.parsed("integer base 10 size 0 ", 10, 0, t, func(c byte) bool { return digitOf(c) < 10 })
			}
			v, err := strconv.Atoi(m.str(a[0]))
			return mtuple{int64(v), m.optError(err)}
		},
		"strconv.ParseFloat": func(m *Machine, a []mval) mval {
			if t, ok := a[0].(mtext); ok {
				return m.parsed("float ", 0, 0, t, func(c byte) bool { return digitOf(c) < 10 || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+' })
			}
			v, err := strconv.ParseFloat(m.str(a[0]), int(m.num(a[1])))
			return mtuple{v, m.optError(err)}
		},
		"bytes.IndexByte": func(m *Machine, a []mval) mval {
			var t mtext
			for _, e := range a[0].([]mval) {
				t.ch = append(t.ch, tchar{e, 1})
			}
			return m.indexChar(t, a[1])
		},
		"bytes.NewBufferString": func(m *Machine, a []mval) mval {
			c := new(mval)
			*c = mstruct{m.str(a[0]), nil, nil}
			return c
		},
		"bytes.NewBuffer": func(m *Machine, a []mval) mval {
			c := new(mval)
			*c = mstruct{string(bytesOf(a[0].([]mval))), nil, nil}
			return c
		},
		"errors.New": func(m *Machine, a []mval) mval { return m.goError(m.str(a[0])) },
		"fmt.Errorf": func(m *Machine, a []mval) mval { return m.goError(m.str(m.sprintf(m.str(a[0]), a[1].([]mval)))) },
		"fmt.Sprintf": func(m *Machine, a []mval) mval {
			return m.sprintf(m.str(a[0]), a[1].([]mval))
		},
		"fmt.Sprint": func(m *Machine, a []mval) mval {
			return fmt.Sprint(m.goArgs(a[0].([]mval))...)
		},
		"fmt.Fprintf":  func(m *Machine, a []mval) mval { return m.fprint(a[0], m.str(m.sprintf(m.str(a[1]), a[2].([]mval)))) },
		"fmt.Fprint":   func(m *Machine, a []mval) mval { return m.fprint(a[0], fmt.Sprint(m.goArgs(a[1].([]mval))...)) },
		"fmt.Fprintln": func(m *Machine, a []mval) mval { return m.fprint(a[0], fmt.Sprintln(m.goArgs(a[1].([]mval))...)) },
		"sort.Strings": func(m *Machine, a []mval) mval {
			x := a[0].([]mval)
			sort.SliceStable(x, func(i, j int) bool { return m.str(x[i]) < m.str(x[j]) })
			return nil
		},
		"sort.Ints": func(m *Machine, a []mval) mval {
			x := a[0].([]mval)
			sort.SliceStable(x, func(i, j int) bool { return m.num(x[i]) < m.num(x[j]) })
			return nil
		},
		"sort.SearchInts": func(m *Machine, a []mval) mval {
			x := a[0].([]mval)
			return int64(sort.Search(len(x), func(i int) bool { return m.num(x[i]) >= m.num(a[1]) }))
		},
		"sort.Search": func(m *Machine, a []mval) mval {
			return int64(sort.Search(int(m.num(a[0])), func(i int) bool { return m.bool(m.callValue(a[1], []mval{int64(i)}, nil)) }))
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"(*sync.Once).Do": func(m *Machine, a []mval) mval {
			s := (*a[0].(*mval)).(mstruct)
			if s[0] != "done" {
				s[0] = "done"
				m.callValue(a[1], nil, nil)
			}
			return nil
		},
		"(*sync.Mutex).Lock":      func(m *Machine, a []mval) mval { return nil },
		"(*sync.Mutex).Unlock":    func(m *Machine, a []mval) mval { return nil },
		"(*sync.RWMutex).Lock":    func(m *Machine, a []mval) mval { return nil },
		"(*sync.RWMutex).Unlock":  func(m *Machine, a []mval) mval { return nil },
		"(*sync.RWMutex).RLock":   func(m *Machine, a []mval) mval { return nil },
		"(*sync.RWMutex).RUnlock": func(m *Machine, a []mval) mval { return nil },
		"regexp.MustCompile": func(m *Machine, a []mval) mval {
			re, err := regexp.Compile(m.str(a[0]))
			if err != nil {
				m.rtPanic(nil, "%v", err)
			}
			c := new(mval)
			*c = mnative{re}
			return c
		},
		"(*regexp.Regexp).String": func(m *Machine, a []mval) mval {
			return (*a[0].(*mval)).(mnative).v.(*regexp.Regexp).String()
		},
		"(*regexp.Regexp).MatchString": func(m *Machine, a []mval) mval {
			return (*a[0].(*mval)).(mnative).v.(*regexp.Regexp).MatchString(m.str(a[1]))
		},
		"math.Float64bits": func(m *Machine, a []mval) mval { return int64(math.Float64bits(m.force(a[0]).(float64))) },
		"math.IsNaN":       func(m *Machine, a []mval) mval { return math.IsNaN(m.force(a[0]).(float64)) },
		"math.IsInf": func(m *Machine, a []mval) mval {
			return math.IsInf(m.force(a[0]).(float64), int(m.num(a[1])))
		},
		"math.Floor": func(m *Machine, a []mval) mval { return math.Floor(m.force(a[0]).(float64)) },
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		natives[t+"WriteString"] = bufWrite(func(m *Machine, v mval) (mval, mval) {
			if d, ok := v.(*dep); ok {
				v = m.force(d)
			}
			return v, mtuple{int64(textLen(v)), miface{}}
		})
		natives[t+"WriteByte"] = bufWrite(func(m *Machine, v mval) (mval, mval) { return m.byteText(v), miface{} })
		natives[t+"WriteRune"] = bufWrite(func(m *Machine, v mval) (mval, mval) {
			s := m.runeText(v)
			return s, mtuple{int64(textLen(s)), miface{}}
		})
		natives[t+"Write"] = bufWrite(func(m *Machine, v mval) (mval, mval) {
			b := bytesOf(v.([]mval))
			return string(b), mtuple{int64(len(b)), miface{}}
		})
		natives[t+"String"] = func(m *Machine, a []mval) mval { return *m.buffer(a[0]) }
		natives[t+"Len"] = func(m *Machine, a []mval) mval { return int64(textLen(*m.buffer(a[0]))) }
		natives[t+"Bytes"] = func(m *Machine, a []mval) mval {
			return m.convert(*m.buffer(a[0]), types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
		}
		natives[t+"Grow"] = func(m *Machine, a []mval) mval { return nil }
		natives[t+"Reset"] = func(m *Machine, a []mval) mval { *m.buffer(a[0]) = ""; return nil }
		natives[t+"Truncate"] = func(m *Machine, a []mval) mval {
			b := m.buffer(a[0])
			t, _ := m.textOf(*b)
			n := m.num(a[1])
			if n < 0 || n > int64(t.len()) {
				m.rtPanic(nil, "bytes.Buffer: truncation out of range")
			}
			r, ok := t.cut(0, int(n))
			if !ok {
				panic(munsupported{"a character is cut"})
			}
			*b = r
			return nil
		}
	}
}

// indexChar finds a character that may be open in a text that may be open
func (m *Machine) indexChar(text, c mval) mval {
	if r, ok := m.force(text).(srcRange); ok {
		for p := r.from; r.s.has(m, p); {
			it := r.s.find(p)
			if m.bool(m.charEqual(charVal(it.v), c)) {
				return int64(p - r.from)
			}
			p = it.pos + r.s.size(m, it)
		}
		return int64(-1)
	}
	t, ok := m.textOf(m.force(text))
	if !ok {
		panic(munsupported{"text to look in"})
	}
	find := func(c mval, eq func(x mval) bool) mval {
		n := 0
		for _, x := range t.ch {
			if eq(x.v) {
				return int64(n)
			}
			n += x.size
		}
		return int64(-1)
	}
	if d, ok := charVal(c).(*dep); ok && findDep(mtextVals(t)) == nil {
		return m.mapDep(d, func(c mval) mval { return find(c, func(x mval) bool { return charVal(x) == c }) })
	}
	return find(c, func(x mval) bool { return m.bool(m.charEqual(x, c)) })
}

func (m *Machine) lastIndexChar(t mtext, c mval) mval {
	n := t.len()
	for i := len(t.ch) - 1; i >= 0; i-- {
		n -= t.ch[i].size
		if m.bool(m.charEqual(t.ch[i].v, c)) {
			return int64(n)
		}
	}
	return int64(-1)
}

func mtextVals(t mtext) (r []mval) {
	for _, c := range t.ch {
		r = append(r, c.v)
	}
	return
}

// findText finds a text in a text that may be open
func (m *Machine) findText(text, what mval) mval {
	text, what = m.force(text), m.force(what)
	s, ok := what.(string)
	if t, is := text.(mtext); is {
		text = normText(t)
	}
	if _, is := text.(string); is || !ok || s == "" {
		return int64(strings.Index(m.str(text), m.str(what)))
	}
	if utf8.RuneCountInString(s) != 1 {
		panic(munsupported{"a text in an open text"})
	}
	r, _ := utf8.DecodeRuneInString(s)
	return m.indexChar(text, int64(r))
}

func digitOf(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'z':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'Z':
		return int(c-'A') + 10
	}
	return 99
}

func sortSlice(m *Machine, a []mval) mval {
	x := a[0].(miface).v.([]mval)
	// insertion sort: the function looks at the elements where they are
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && m.bool(m.callValue(a[1], []mval{int64(j), int64(j - 1)}, nil)); j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
	return nil
}

func (m *Machine) optError(err error) miface {
	if err == nil {
		return miface{}
	}
	return m.goError(err.Error())
}

// fprint writes to an io.Writer
func (m *Machine) fprint(w mval, s string) mval {
	r, ok := w.(miface)
	if !ok || r.t == nil {
		m.rtPanic(nil, "nil pointer dereference")
	}
	f := m.p.Prog.LookupMethod(r.t, nil, "Write")
	if f == nil {
		panic(munsupported{"writer"})
	}
	return m.call(f, nil, []mval{r.v, bytesVal([]byte(s))})
}

func (m *Machine) goArgs(a []mval) []interface{} {
	r := make([]interface{}, len(a))
	for i, v := range a {
		r[i] = m.goArg(v, 0)
	}
	return r
}

type goText string

func (s goText) String() string { return string(s) }

// goArg is an argument of a formatting function
func (m *Machine) goArg(v mval, depth int) interface{} {
	x, ok := m.resolve(v).(miface)
	if !ok {
		return m.force(v)
	}
	if x.t == nil {
		return nil
	}
	if depth < 3 {
		for _, n := range []string{"Error", "String"} {
			if sel := m.p.Prog.MethodSets.MethodSet(x.t).Lookup(nil, n); sel != nil {
				if f := m.p.Prog.MethodValue(sel); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
					return goText(m.str(m.call(f, nil, []mval{x.v})))
				}
			}
		}
	}
	switch u := x.t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Int32 || u.Kind() == types.UntypedRune {
			return int32(m.num(x.v))
		}
		if u.Kind() == types.Uint8 {
			return byte(m.num(x.v))
		}
		return m.force(x.v)
	case *types.Slice:
		var r []interface{}
		for _, e := range x.v.([]mval) {
			if _, ok := e.(miface); ok {
				r = append(r, m.goArg(e, depth+1))
			} else {
				r = append(r, m.goArg(miface{u.Elem(), e}, depth+1))
			}
		}
		return r
	}
	return goText(x.t.String())
}

func (m *Machine) sprintf(format string, args []mval) mval {
	if strings.Contains(format, "%T") {
		a := make([]interface{}, len(args))
		for i, v := range args {
			if x, ok := m.resolve(v).(miface); ok && x.t != nil {
				a[i] = goText(types.TypeString(x.t, func(p *types.Package) string { return p.Name() }))
			}
		}
		return fmt.Sprintf(strings.ReplaceAll(format, "%T", "%s"), a...)
	}
	return fmt.Sprintf(format, m.goArgs(args)...)
}
