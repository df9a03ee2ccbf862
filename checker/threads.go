package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Parallel sections
//
// The interpreter runs the body of a goroutine where it is started. This is one of the schedules of the program if
// the goroutine never waits for something done later, and it stands for all of them if
//   - no two goroutines that are not ordered by a join access the same memory, one of them writing (P11);
//   - nobody is kept waiting forever: what is awaited has been done in this schedule, every permit of a semaphore is
//     given back before anything else is awaited, counters of groups come back to 0 (P12).
// The accesses and the operations of synchronisation were recorded, once per loop and as functions of the iteration.

type access struct {
	e      *Event
	name   string
	args   []*Node
	prefix bool // the whole object at this address
	write  bool
}

// join orders what a goroutine did before `release` before what its parent does after `seq`
type join struct {
	release *Event
	seq     int
	loops   []*Node
	end     bool // at the end of the loops that loops does not contain
}

const never = 1 << 60

type thread struct {
	g        *GoRoutine
	parent   *GoRoutine
	from, to int // of the events go and goend
	cond     *Node
	joins    []join
	acc      []access
}

func (e *Event) thread() *GoRoutine {
	if len(e.gos) == 0 {
		return nil
	}
	return e.gos[len(e.gos)-1]
}

func sharedLoops(a, b []*Node) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// rangeFacts are the bounds of loop variables
func rangeFacts(ks []*Node) []*Node {
	var l []*Node
	for _, k := range ks {
		if k.info != nil && k.info.hi != nil {
			l = append(l, Lt(k, k.info.hi), mkGe0(k))
		}
	}
	return l
}

// instance renames the loop variables of an event beyond the first n
func instance(loops []*Node, n int) ([]*Node, map[*Node]*Node) {
	r := append([]*Node{}, loops[:n]...)
	m := map[*Node]*Node{}
	for _, k := range loops[n:] {
		info := &SymInfo{nat: true, loop: true}
		if k.info != nil {
			*info = *k.info
			if info.hi != nil {
				info.hi = Subst(info.hi, m)
			}
			if info.lo != nil {
				info.lo = Subst(info.lo, m)
			}
		}
		x := newSym(k.name, k.sort, info)
		m[k] = x
		r = append(r, x)
	}
	return r, m
}

type protocol struct {
	in       *Interp
	threads  []*thread
	of       map[*GoRoutine]*thread
	accesses map[string][]access // by object
	proofs   int
	pairs    int
	failed   map[string]bool
	nFailed  int
	end      int
}

func (in *Interp) checkThreads(st *State) {
	if os.Getenv("DBGEV") != "" {
		for i, e := range in.events {
			fmt.Printf("%d %s g%d %s obj=%s node=%s arg=%s cond=%s loops=%d %s\n", i, e.kind, len(e.gos), e.fn, e.obj, clip(show(e.node), 200), clip(show(e.arg), 100), clip(show(e.cond), 100), len(e.loops), in.prog.pos(e.pos))
		}
	}
	c := &protocol{in: in, of: map[*GoRoutine]*thread{}, accesses: map[string][]access{}, failed: map[string]bool{}, end: len(in.events)}
	for i := range in.events {
		in.events[i].seq = i
	}
	c.findThreads()
	c.findJoins(st)
	c.findAccesses()
	c.races()
	c.messages()
	c.groups()
	c.channels(st)
	in.seen["goroutines"] += len(c.threads)
	in.seen["pairs of accesses"] += c.pairs
	for _, l := range []string{"race", "group", "channel", "message"} {
		if !c.failed[l] {
			in.result(l, true, "")
		}
	}
}

func (c *protocol) violation(label string, e *Event, format string, a ...interface{}) {
	msg := c.in.prog.pos(e.pos) + " (" + e.fn + "): " + fmt.Sprintf(format, a...)
	if c.failed[label+msg] {
		return
	}
	c.failed[label], c.failed[label+msg] = true, true
	if c.nFailed++; c.nFailed > 8 {
		return
	}
	c.in.findings = append(c.in.findings, Finding{label, c.in.prog.pos(e.pos), false, msg})
}

func (c *protocol) findThreads() {
	var open []*thread
	for i := range c.in.events {
		e := &c.in.events[i]
		switch e.kind {
		case "go":
			t := &thread{g: e.gor, parent: e.thread(), from: i, to: -1, cond: e.cond}
			c.of[t.g] = t
			c.threads = append(c.threads, t)
			open = append(open, t)
		case "goend":
			open[len(open)-1].to = i
			open = open[:len(open)-1]
		}
	}
}

// holdsAt tells whether b holds whenever e happens
func (c *protocol) holdsAt(e *Event, b *Node) bool {
	c.proofs++
	ok := false
	withFacts(append(rangeFacts(e.loops), e.cond), func() { ok = provable(Rebuild(b), 6) })
	return ok
}

func (c *protocol) findJoins(st *State) {
	for _, t := range c.threads {
		done := map[*Node]*Event{}
		for i := t.from; i < t.to; i++ {
			e := &c.in.events[i]
			if e.thread() != t.g || (e.kind != "WaitGroup.Done" && e.kind != "send") {
				continue
			}
			if len(e.loops) != len(t.g.loops) || !c.certain(t, e) {
				continue
			}
			done[e.node] = e
		}
		for ch, d := range done {
			// waited for by the parent
			var w *Event
			for i := t.to; i < len(c.in.events); i++ {
				e := &c.in.events[i]
				if e.thread() != t.parent || e.node == nil {
					continue
				}
				if d.kind == "WaitGroup.Done" && e.kind == "WaitGroup.Wait" && e.node == ch {
					w = e
					break
				}
				if d.kind == "send" && e.kind == "recv" && e.node == ch {
					w = e
				}
			}
			if w == nil {
				continue
			}
			n := sharedLoops(w.loops, t.g.loops)
			j := join{release: d, seq: w.seq, loops: w.loops[:n]}
			if d.kind == "send" {
				// everything sent was received once the loops are over
				if !c.drained(st, ch) {
					continue
				}
				if len(w.loops) > n {
					for i := w.seq; i < len(c.in.events) && sharedLoops(c.in.events[i].loops, w.loops) > n; i++ {
						j.seq = i
					}
				}
			} else if len(w.loops) > n {
				continue
			}
			t.joins = append(t.joins, j)
		}
		sort.Slice(t.joins, func(i, j int) bool { return t.joins[i].seq < t.joins[j].seq })
	}
}

// certain tells whether e happens in every goroutine of t
func (c *protocol) certain(t *thread, e *Event) bool {
	ok := false
	c.proofs++
	withFacts(append(rangeFacts(e.loops), t.cond), func() { ok = provable(e.cond, 5) })
	return ok
}

// drained tells whether everything sent to a channel is received in the end
func (c *protocol) drained(st *State, ch *Node) bool {
	if ch.kind != KAddr || len(ch.args) > 0 {
		return false
	}
	id, _ := splitAddr(ch)
	s, r := st.cells[id+"|#sent"], st.cells[id+"|#recv"]
	if s == nil || r == nil {
		return false
	}
	return provable(mkEq(s, r), 6)
}

// joined is when what e did is over for the parent of its goroutine
func (t *thread) joined(e *Event) join {
	for _, j := range t.joins {
		if e.seq <= j.release.seq {
			return j
		}
	}
	return join{seq: never}
}

func (c *protocol) findAccesses() {
	seen := map[string]bool{}
	for i := range c.in.events {
		e := &c.in.events[i]
		if e.kind != "read" && e.kind != "write" {
			continue
		}
		if e.cond == NFalse {
			continue
		}
		if e.obj == "?" {
			if e.thread() != nil || c.duringThreads(e) {
				c.violation("race", e, "access at an unknown address %s", clip(show(e.node), 200))
			}
			continue
		}
		args := e.node.args
		if o := c.in.objs[objOfCell(e.obj)]; o != nil && o.shared > 0 && o.shared <= len(args) {
			args = append(append([]*Node{}, args[:o.shared-1]...), args[o.shared:]...)
		}
		c.addAccess(seen, access{e: e, name: e.obj, args: args, write: e.kind == "write"})
	}
}

func (c *protocol) duringThreads(e *Event) bool {
	for _, t := range c.threads {
		if t.parent != e.thread() {
			continue
		}
		if e.seq > t.from {
			return true
		}
	}
	return false
}

func (c *protocol) addAccess(seen map[string]bool, a access) {
	id := objOfCell(a.name)
	if isFollowed(id) {
		l, ok := c.behind(a.e, id, a.args)
		if !ok {
			c.violation("race", a.e, "access at an unknown address %s", clip(show(Addr(a.name, a.args...)), 200))
		}
		for _, b := range l {
			c.addAccess(seen, access{e: a.e, name: b.name, args: b.args, prefix: true, write: a.write})
		}
		return
	}
	g := 0
	if a.e.thread() != nil {
		g = a.e.thread().id + 1
	}
	key := fmt.Sprint(a.name, a.args, a.prefix, a.write, g, a.e.loops, a.e.cond)
	t := c.of[a.e.thread()]
	if t != nil {
		key += fmt.Sprint(t.joined(a.e).seq)
	} else {
		// what matters of the time of an access is between which threads it is
		n := 0
		for _, t := range c.threads {
			if t.from < a.e.seq {
				n++
			}
			for _, j := range t.joins {
				if j.seq < a.e.seq {
					n++
				}
			}
		}
		key += fmt.Sprint(n)
	}
	if seen[key] {
		return
	}
	seen[key] = true
	c.accesses[id] = append(c.accesses[id], a)
}

func (c *protocol) races() {
	var ids []string
	for id := range c.accesses {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		l := c.accesses[id]
		w := false
		for _, a := range l {
			w = w || a.write
		}
		if !w {
			continue
		}
		for i, a := range l {
			for _, b := range l[i:] {
				if (a.write || b.write) && (a.e.thread() != nil || b.e.thread() != nil) {
					c.race(a, b)
				}
			}
		}
	}
}

func mayOverlap(a, b access) bool {
	if !a.prefix && !b.prefix {
		return a.name == b.name && len(a.args) == len(b.args)
	}
	return strings.HasPrefix(a.name, b.name) || strings.HasPrefix(b.name, a.name)
}

func (c *protocol) race(a, b access) {
	if !mayOverlap(a, b) {
		return
	}
	ta, tb := c.of[a.e.thread()], c.of[b.e.thread()]
	if ta == nil {
		a, b, ta, tb = b, a, tb, ta
	}
	c.pairs++
	if tb == ta {
		// two goroutines started by the same statement
		n := c.together(ta, a.e, b.e)
		lb, m := instance(b.e.loops, n)
		for j := n; j < len(ta.g.loops); j++ {
			for _, up := range []bool{true, false} {
				var fs []*Node
				for i := n; i < j; i++ {
					fs = append(fs, mkEq(ta.g.loops[i], m[ta.g.loops[i]]))
				}
				if up {
					fs = append(fs, Lt(ta.g.loops[j], m[ta.g.loops[j]]))
				} else {
					fs = append(fs, Lt(m[ta.g.loops[j]], ta.g.loops[j]))
				}
				if c.conflict(a, b, lb, m, fs) {
					c.violation("race", a.e, "%s of %s, concurrent with the %s at %s in another goroutine started at %s",
						kindOf(a), describe(a), kindOf(b), c.in.prog.pos(b.e.pos), c.in.prog.pos(ta.g.pos))
					return
				}
			}
		}
		return
	}
	if tb != nil && tb.parent == ta.g {
		a, b, ta, tb = b, a, tb, ta
	}
	if b.e.thread() == ta.parent {
		// a goroutine and the one that started it
		j := ta.joined(a.e)
		if b.e.seq > j.seq && len(j.loops) >= sharedLoops(b.e.loops, ta.g.loops) {
			return
		}
		n := len(j.loops)
		if j.seq == never {
			n = 0
		}
		if s := sharedLoops(b.e.loops, ta.g.loops); s < n {
			n = s
		}
		private := sharedLoops(b.e.loops, ta.g.loops)
		lb, m := instance(b.e.loops, n)
		var fs []*Node
		if private > n {
			// same loop: not before the iteration that starts the goroutine
			k := ta.g.loops[n]
			if private == n+1 && b.e.seq < ta.from {
				fs = append(fs, Lt(k, m[k]))
			} else {
				fs = append(fs, Le(k, m[k]))
			}
		} else if b.e.seq < ta.from {
			return
		}
		if c.conflict(a, b, lb, m, fs) {
			c.violation("race", a.e, "%s of %s in a goroutine, concurrent with the %s at %s", kindOf(a), describe(a), kindOf(b), c.in.prog.pos(b.e.pos))
		}
		return
	}
	if tb == nil {
		// the ancestor of the parent: as if the parent did it
		c.violation("race", a.e, "nested goroutines share %s", describe(a))
		return
	}
	// two goroutines started by different statements
	if ta.from > tb.from {
		a, b, ta, tb = b, a, tb, ta
	}
	j := ta.joined(a.e)
	n := sharedLoops(ta.g.loops, tb.g.loops)
	if tb.from > j.seq && len(j.loops) >= n && ta.parent == tb.parent {
		return
	}
	if j.seq == never || len(j.loops) < n {
		n = len(j.loops)
	}
	lb, m := instance(b.e.loops, n)
	if c.conflict(a, b, lb, m, nil) {
		c.violation("race", a.e, "%s of %s in a goroutine, concurrent with the %s at %s in another", kindOf(a), describe(a), kindOf(b), c.in.prog.pos(b.e.pos))
	}
}

// together is the number of loops around t in each iteration of which the goroutines are joined
func (c *protocol) together(t *thread, es ...*Event) int {
	n := len(t.g.loops)
	for _, e := range es {
		j := t.joined(e)
		if len(j.loops) < n {
			n = len(j.loops)
		}
	}
	return n
}

func kindOf(a access) string {
	if a.write {
		return "write"
	}
	return "read"
}

func describe(a access) string { return clip(show(Addr(a.name, a.args...)), 160) }

// conflict tells whether the two accesses may be at the same address, b being renamed by m
func (c *protocol) conflict(a, b access, lb []*Node, m map[*Node]*Node, extra []*Node) bool {
	fs := append(rangeFacts(a.e.loops), rangeFacts(lb)...)
	fs = append(fs, extra...)
	fs = append(fs, a.e.cond, Subst(b.e.cond, m))
	var eqs []*Node
	for i := range a.args {
		if i < len(b.args) {
			eqs = append(eqs, mkEq(a.args[i], Subst(b.args[i], m)))
		}
	}
	c.proofs++
	ok := false
	withFacts(fs, func() {
		if facts.absurd {
			ok = true
			return
		}
		same := Rebuild(And(eqs...))
		ok = same == NFalse || provable(Not(same), 6)
	})
	return !ok
}

// messages: what a goroutine sends to another belongs to the receiver
func (c *protocol) messages() {
	for i := range c.in.events {
		s := &c.in.events[i]
		if s.kind != "send" || s.thread() == nil {
			continue
		}
		t := c.of[s.thread()]
		for _, ref := range s.extra {
			var bases []*Node
			mapRefSafe(ref, func(b *Node) {
				if b.kind != KAddr {
					if !noMemory(b) {
						c.violation("message", s, "unknown address %s in a message", clip(show(b), 200))
					}
					return
				}
				if !isFollowed(objOfCell(b.name)) {
					bases = append(bases, b)
					return
				}
				l, ok := c.behind(s, objOfCell(b.name), b.args)
				if !ok {
					c.violation("message", s, "unknown address %s in a message", clip(show(b), 200))
				}
				bases = append(bases, l...)
			})
			for _, b := range bases {
				o := access{e: s, name: b.name, args: b.args, prefix: true, write: true}
				for _, a := range c.accesses[objOfCell(b.name)] {
					if a.e.thread() == nil || !mayOverlap(o, a) {
						continue
					}
					c.pairs++
					if a.e.thread() != t.g {
						if a.write {
							c.messageConflict(o, a, nil, 0)
						}
						continue
					}
					// by the sender, later
					n := sharedLoops(s.loops, a.e.loops)
					if n < len(t.g.loops) {
						n = len(t.g.loops)
					}
					if a.e.seq > s.seq {
						c.messageConflict(o, a, func(m map[*Node]*Node) []*Node { return nil }, n)
					}
					for j := len(t.g.loops); j < n; j++ {
						k := s.loops[j]
						c.messageConflict(o, a, func(m map[*Node]*Node) []*Node { return []*Node{Lt(k, m[k])} }, j)
					}
				}
			}
		}
	}
}

func (c *protocol) messageConflict(o, a access, extra func(m map[*Node]*Node) []*Node, n int) {
	// a structure of the caller that everyone only reads may be sent
	if !a.write && c.onlyRead(o) {
		return
	}
	lb, m := instance(a.e.loops, n)
	var fs []*Node
	if extra != nil {
		fs = extra(m)
	}
	if c.conflict(o, a, lb, m, fs) {
		c.violation("message", o.e, "%s is sent, and accessed at %s afterwards", describe(o), c.in.prog.pos(a.e.pos))
	}
}

// onlyRead tells whether nobody writes in the object during the parallel section
func (c *protocol) onlyRead(o access) bool {
	for _, a := range c.accesses[objOfCell(o.name)] {
		if a.write && mayOverlap(o, a) && a.e.seq > c.of[o.e.thread()].from {
			return false
		}
	}
	return true
}

// groups: a group is waited for when all that was added to it is done
func (c *protocol) groups() {
	for i := range c.in.events {
		e := &c.in.events[i]
		switch e.kind {
		case "WaitGroup.Wait":
			if !c.holdsAt(e, mkEq(e.arg, IntC(0))) {
				c.violation("group", e, "the counter may be %s when waiting", clip(show(e.arg), 200))
			}
			c.permits(e, "waiting for a group")
		case "goend":
			c.permits(e, "a goroutine ends")
		case "WaitGroup.Add":
			for j := range c.in.events {
				w := &c.in.events[j]
				if w.kind == "WaitGroup.Wait" && w.node == e.node && w.thread() != e.thread() {
					c.violation("group", e, "what is waited for is added by a goroutine")
				}
			}
		}
	}
}

// permits: no permit of a semaphore is held by someone who waits
func (c *protocol) permits(e *Event, what string) {
	for _, s := range e.tokens {
		if !c.holdsAt(e, mkEq(s.count, s.size)) {
			c.violation("channel", e, "%s while a permit of the semaphore of %s is held: %s of %s are available", what, s.name, clip(show(s.count), 100), clip(show(s.size), 100))
		}
	}
}

func isToken(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (c *protocol) channels(st *State) {
	caps := map[string]*Event{}
	for i := range c.in.events {
		e := &c.in.events[i]
		if e.kind == "makechan" {
			caps[objOfCell(e.node.name)] = e
		}
	}
	closed := map[string]*Event{}
	for i := range c.in.events {
		e := &c.in.events[i]
		if e.kind != "send" && e.kind != "recv" && e.kind != "close" {
			continue
		}
		if e.node.kind != KAddr {
			c.violation("channel", e, "unknown channel %s", clip(show(e.node), 100))
			continue
		}
		id := objOfCell(e.node.name)
		mk := caps[id]
		if mk == nil {
			c.violation("channel", e, "channel of an unknown capacity")
			continue
		}
		o := c.in.objs[id]
		size := mk.arg
		m := map[*Node]*Node{}
		for j, x := range mk.node.args {
			if j < len(e.node.args) && x != e.node.args[j] && x.kind == KSym {
				m[x] = e.node.args[j]
			}
		}
		size = Subst(size, m)
		if d := closed[id]; d != nil && e.kind != "recv" {
			if c.conflictEvents(d, e) {
				c.violation("channel", e, "%s of a channel closed at %s", e.kind, c.in.prog.pos(d.pos))
			}
		}
		switch e.kind {
		case "recv":
			if !c.holdsAt(e, Le(IntC(1), e.arg)) {
				c.violation("channel", e, "receives when %s messages are there", clip(show(e.arg), 100))
			}
			if !isToken(o.elem) {
				c.permits(e, "receiving")
			}
		case "send":
			// the sender itself would have to receive
			if isToken(o.elem) || e.thread() == nil && !c.received(id) {
				if !c.holdsAt(e, Lt(e.arg, size)) {
					c.violation("channel", e, "sends when %s messages are there, of at most %s", clip(show(e.arg), 100), clip(show(size), 100))
				}
			}
		case "close":
			if closed[id] == nil {
				closed[id] = e
			}
			// by one goroutine only
			if t := c.of[e.thread()]; t != nil {
				for j := range c.in.events {
					s := &c.in.events[j]
					if (s.kind != "send" && s.kind != "close") || s.thread() != t.g || s.node.kind != KAddr || objOfCell(s.node.name) != id {
						continue
					}
					a, b := access{e: e, name: id, args: e.node.args}, access{e: s, name: id, args: s.node.args}
					for i := range t.g.loops {
						lb, m := instance(s.loops, i)
						if c.conflict(a, b, lb, m, []*Node{Not(mkEq(t.g.loops[i], m[t.g.loops[i]]))}) {
							c.violation("channel", e, "closes a channel to which another goroutine may %s at %s", s.kind, c.in.prog.pos(s.pos))
							break
						}
					}
				}
			}
			// whoever sends must be over
			for j := range c.in.events {
				s := &c.in.events[j]
				if s.kind != "send" || s.node.kind != KAddr || objOfCell(s.node.name) != id || s.thread() == nil || s.thread() == e.thread() {
					continue
				}
				t := c.of[s.thread()]
				if e.thread() != t.parent || t.joined(s).seq >= e.seq {
					c.violation("channel", e, "closes a channel to which the goroutine started at %s may still send at %s", c.in.prog.pos(t.g.pos), c.in.prog.pos(s.pos))
				}
			}
		}
	}
	// nothing is left that could not be sent
	var ids []string
	for id := range caps {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		e := caps[id]
		if len(e.node.args) > 0 {
			// a channel per iteration: every send was checked
			continue
		}
		s, r := st.cells[id+"|#sent"], st.cells[id+"|#recv"]
		if s == nil || r == nil {
			continue
		}
		if !provable(Le(Sub(s, r), e.arg), 6) {
			c.violation("channel", e, "%s messages are left, of at most %s", clip(show(Sub(s, r)), 100), clip(show(e.arg), 100))
		}
	}
}

// received tells whether other goroutines receive what is sent to a channel, and wait for no other message
func (c *protocol) received(id string) bool {
	about := func(e *Event) string {
		if e.node.kind != KAddr {
			return "?"
		}
		return objOfCell(e.node.name)
	}
	by := map[*GoRoutine]bool{}
	for i := range c.in.events {
		e := &c.in.events[i]
		if (e.kind == "recv" || e.kind == "receives") && about(e) == id {
			if e.thread() == nil {
				return false
			}
			by[e.thread()] = true
		}
	}
	for i := range c.in.events {
		e := &c.in.events[i]
		if (e.kind == "recv" || e.kind == "receives") && by[e.thread()] && about(e) != id {
			if o := c.in.objs[about(e)]; o == nil || !isToken(o.elem) {
				return false
			}
		}
	}
	return len(by) > 0
}

// conflictEvents tells whether a and the later b may be about the same channel
func (c *protocol) conflictEvents(a, b *Event) bool {
	n := sharedLoops(a.loops, b.loops)
	lb, m := instance(b.loops, n)
	if !c.conflict(access{e: a, args: a.node.args}, access{e: b, args: b.node.args}, lb, m, nil) {
		return false
	}
	return true
}

// isFollowed tells that an object is a name given to the content of a variable, see loopCtx
func isFollowed(id string) bool {
	return strings.HasPrefix(id, "phi:") || strings.HasPrefix(id, "final:")
}

// behind are the objects that stand behind one that is followed by content, as the beginning of their addresses
func (c *protocol) behind(e *Event, id string, args []*Node) (bases []*Node, ok bool) {
	known := map[*Node]bool{}
	for _, k := range e.loops {
		known[k] = true
	}
	stable := func(n *Node) bool {
		r := true
		walkNodes(n, func(x *Node) bool {
			if x.kind == KSym && x.info != nil && (x.info.loop || x.name == "any") && !known[x] {
				r = false
			}
			return r
		})
		return r
	}
	seen := map[string]bool{}
	got := map[*Node]bool{}
	ok = true
	var visit func(id string, args []*Node)
	visit = func(id string, args []*Node) {
		if !isFollowed(id) {
			return
		}
		if seen[id] {
			return
		}
		seen[id] = true
		l, o := c.in.aliases[id], c.in.objs[id]
		if len(l) == 0 || o == nil {
			ok = false
			return
		}
		u := len(o.args) - o.lifted
		for _, n := range l {
			var idx []*Node
			for i := 0; i < n.sig.Dims && n.sort == SArr; i++ {
				if u+i < len(args) {
					idx = append(idx, args[u+i])
				} else {
					idx = append(idx, newSym("any", SInt, &SymInfo{nat: true}))
				}
			}
			mapRefSafe(ApplyAll(n, idx...), func(b *Node) {
				if b.kind != KAddr {
					if !noMemory(b) {
						ok = false
					}
					return
				}
				if x := objOfCell(b.name); isFollowed(x) {
					visit(x, b.args)
					return
				}
				i := 0
				for i < len(b.args) && stable(b.args[i]) {
					i++
				}
				x := Addr(b.name, b.args[:i]...)
				if !got[x] {
					got[x] = true
					bases = append(bases, x)
				}
			})
		}
	}
	visit(id, args)
	return bases, ok
}
