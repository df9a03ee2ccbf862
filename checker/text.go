package main

import "strings"

// ---------------------------------------------------------------------------
// Strings: sequences of constants and of texts of values

func textConst(s string) *Node { return App("const:"+s, SRef) }

func constText(n *Node) (string, bool) {
	if n.kind == KApp && strings.HasPrefix(n.name, "const:") {
		return n.name[len("const:"):], true
	}
	return "", false
}

func textParts(n *Node) []*Node {
	if n.kind == KApp && n.name == "strcat" {
		return n.args
	}
	return []*Node{n}
}

// Text is the concatenation of its parts
func Text(parts ...*Node) *Node {
	var l []*Node
	for _, p := range parts {
		for _, x := range textParts(p) {
			c, ok := constText(x)
			if ok && c == "" {
				continue
			}
			if ok && len(l) > 0 {
				if d, ok := constText(l[len(l)-1]); ok {
					l[len(l)-1] = textConst(d + c)
					continue
				}
			}
			l = append(l, x)
		}
	}
	switch len(l) {
	case 0:
		return textConst("")
	case 1:
		return l[0]
	}
	return App("strcat", SRef, l...)
}

// isText tells whether the shape of a string is known at least in part
func isText(n *Node) bool {
	if n.kind != KApp {
		return false
	}
	_, ok := constText(n)
	return ok || n.name == "strcat" || n.name == "fr.String" || n.name == "text:%v"
}

// textEq compares two strings; nil if it is not known when they are equal
func textEq(a, b *Node) *Node {
	x, y := append([]*Node{}, textParts(a)...), append([]*Node{}, textParts(b)...)
	trim := func(first bool) *Node {
		for len(x) > 0 && len(y) > 0 {
			i, j := 0, 0
			if !first {
				i, j = len(x)-1, len(y)-1
			}
			if x[i] == y[j] {
				x, y = append(x[:i:i], x[i+1:]...), append(y[:j:j], y[j+1:]...)
				continue
			}
			c, ok1 := constText(x[i])
			d, ok2 := constText(y[j])
			if !ok1 || !ok2 {
				return nil
			}
			n := 0
			for n < len(c) && n < len(d) && (first && c[n] == d[n] || !first && c[len(c)-1-n] == d[len(d)-1-n]) {
				n++
			}
			if n < len(c) && n < len(d) {
				return NFalse
			}
			cut := func(s string) string {
				if first {
					return s[n:]
				}
				return s[:len(s)-n]
			}
			x[i], y[j] = textConst(cut(c)), textConst(cut(d))
			if cut(c) == "" {
				x = append(x[:i:i], x[i+1:]...)
			}
			if cut(d) == "" {
				y = append(y[:j:j], y[j+1:]...)
			}
		}
		return nil
	}
	if trim(true) == NFalse || trim(false) == NFalse {
		return NFalse
	}
	if len(x) == 0 && len(y) == 0 {
		return NTrue
	}
	if len(x) == 0 {
		x, y = y, x
	}
	if len(y) == 0 {
		// one is the beginning or the end of the other
		for _, p := range x {
			if p.kind == KApp && p.name == "fr.String" {
				return NFalse // never empty
			}
			if c, ok := constText(p); ok && c != "" {
				return NFalse
			}
		}
		return nil
	}
	if len(x) == 1 && len(y) == 1 {
		p, q := x[0], y[0]
		if _, ok := constText(p); ok {
			p, q = q, p
		}
		// the digits of an array of numbers
		if p.kind == KApp && q.kind == KApp && p.name == "text:%v" && p.name == q.name && p.args[0].kind == KApp && q.args[0].kind == KApp &&
			p.args[0].name == q.args[0].name && strings.HasSuffix(p.args[0].name, "/fr.Element") && len(p.args[0].args) == 1 && len(q.args[0].args) == 1 {
			return mkEq(p.args[0].args[0], q.args[0].args[0])
		}
		if p.kind != KApp || p.name != "fr.String" || len(p.args) != 1 {
			return nil
		}
		if c, ok := constText(q); ok && strings.Trim(c, "0123456789") != "" {
			return NFalse // the text of a number is made of digits
		}
		if q.kind == KApp && q.name == "fr.String" && len(q.args) == 1 {
			return mkEq(p.args[0], q.args[0])
		}
	}
	return nil
}

// format is the text of values under a constant format
func format(f *Node, vals []*Node) *Node {
	s, ok := constText(f)
	if !ok {
		return nil
	}
	var parts []*Node
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			parts = append(parts, textConst(s))
			break
		}
		parts = append(parts, textConst(s[:i]))
		if i+1 >= len(s) {
			return nil
		}
		verb := s[i : i+2]
		s = s[i+2:]
		if verb == "%%" {
			parts = append(parts, textConst("%"))
			continue
		}
		if (verb != "%v" && verb != "%s" && verb != "%d") || len(vals) == 0 {
			return nil
		}
		v := vals[0]
		vals = vals[1:]
		if v.kind == KApp && v.name == "iface:string" && len(v.args) == 1 && verb != "%d" {
			parts = append(parts, v.args[0])
		} else {
			parts = append(parts, App("text:"+verb, SRef, v))
		}
	}
	if len(vals) > 0 {
		return nil
	}
	return Text(parts...)
}
