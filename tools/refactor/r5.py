E_ = "parser/expression.go"
ref("loc-search", (E_, '	"unicode/utf8"\n', ""), (E_, """	return sort.SearchInts(e.getLineIndex(), offset+1)
}
""", """	li := e.getLineIndex()
	return sort.Search(len(li), func(i int) bool { return li[i] > offset })
}
"""), (E_, """	if offset == lineStart {
		return 0
	}
	if offset > len(e.string) {
		offset = len(e.string)
	}
	return utf8.RuneCountInString(e.string[lineStart:offset])
""", """	if max := len(e.string); offset > max {
		offset = max
	}
	n := 0
	for range e.string[lineStart:offset] {
		n++
	}
	return n
"""))
ref("loc-count", (E_, '	"sort"\n', ""), (E_, """	return sort.SearchInts(e.getLineIndex(), offset+1)
}
""", """	if offset > len(e.string) {
		offset = len(e.string)
	}
	return strings.Count(e.string[:offset], "\\n") + 1
}
"""), (E_, """	li := e.getLineIndex()
	line := sort.SearchInts(li, offset+1)
	lineStart := li[line-1]
	if offset == lineStart {
		return 0
	}
	if offset > len(e.string) {
		offset = len(e.string)
	}
	return utf8.RuneCountInString(e.string[lineStart:offset])
""", """	if offset > len(e.string) {
		offset = len(e.string)
	}
	head := e.string[:offset]
	lineStart := strings.LastIndexByte(head, '\\n') + 1
	return utf8.RuneCountInString(head[lineStart:])
"""))
ref("loc-index", (E_, """		li := append(make([]int, 0, 32), 0)
		for i := 0; i < len(e.string); i++ {
			if e.string[i] == '\\n' {
				li = append(li, i+1)
			}
		}
		e.lineIndex = li
""", """		li := make([]int, 1, strings.Count(e.string, "\\n")+1)
		rest, at := e.string, 0
		for {
			i := strings.IndexByte(rest, '\\n')
			if i < 0 {
				break
			}
			at += i + 1
			rest = rest[i+1:]
			li = append(li, at)
		}
		e.lineIndex = li
"""))
ref("loc-walk", (E_, '	"unicode/utf8"\n', ""), (E_, """	li := e.getLineIndex()
	line := sort.SearchInts(li, offset+1)
	lineStart := li[line-1]
	if offset == lineStart {
		return 0
	}
	if offset > len(e.string) {
		offset = len(e.string)
	}
	return utf8.RuneCountInString(e.string[lineStart:offset])
""", """	n := 0
	for i, c := range e.string {
		switch {
		case i >= offset:
			return n
		case c == '\\n':
			n = 0
		default:
			n++
		}
	}
	return n
"""))
