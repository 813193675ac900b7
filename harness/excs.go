package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/timtadh/data-structures/exc"
	"verif.local/sim/simrt"
)

// exception types of the simulated application
type excA struct{ exc.Exception }
type excB struct{ excA }
type excC struct{ exc.Exception }
type excD struct{ excB }
type excF struct{ excD }
type excG struct {
	excF
	note string
}
type excV struct { // not derived from anything, thrown by value, cannot be compared
	id   int
	more []int
}

func (v excV) Exc() *exc.Exception              { return exc.Errorf("x%d", v.id).Exception() }
func (v excV) Error() string                    { return fmt.Sprintf("x%d", v.id) }
func (v excV) Chain(e *exc.Error) exc.Throwable { return v }

// excW is based on an empty type
type excU struct{}
type excW struct {
	excU
	id int
}

func (v *excW) Exc() *exc.Exception              { return exc.Errorf("x%d", v.id).Exception() }
func (v *excW) Error() string                    { return fmt.Sprintf("x%d", v.id) }
func (v *excW) Chain(e *exc.Error) exc.Throwable { return v }

// excE keeps its type when chained
type excE struct{ exc.Exception }

func (e *excE) Chain(err *exc.Error) exc.Throwable {
	e.Exception.Chain(err)
	return e
}

// two types with the same name
func localL() (func(e exc.Exception) exc.Throwable, func(t exc.Throwable) bool) {
	type local struct{ exc.Exception }
	return func(e exc.Exception) exc.Throwable { return &local{e} }, func(t exc.Throwable) bool {
		_, ok := t.(*local)
		return ok
	}
}

func localM() (func(e exc.Exception) exc.Throwable, func(t exc.Throwable) bool) {
	type local struct{ excB }
	return func(e exc.Exception) exc.Throwable { return &local{excB{excA{e}}} }, func(t exc.Throwable) bool {
		_, ok := t.(*local)
		return ok
	}
}

var (
	mkL, isL = localL()
	mkM, isM = localM()
)

const (
	tExc = iota
	tA
	tB
	tC
	tD
	tV
	tE
	tF
	tG
	tW
	tL
	tM
	nTypes
)

var parentType = map[int]int{tExc: -1, tA: tExc, tB: tA, tC: tExc, tD: tB, tV: -1, tE: tExc, tF: tD, tG: tF, tW: -1, tL: tExc, tM: tB}

func protoOf(t int) exc.Throwable {
	switch t {
	case tExc:
		return &exc.Exception{}
	case tA:
		return &excA{}
	case tB:
		return &excB{}
	case tC:
		return &excC{}
	case tD:
		return &excD{}
	case tV:
		return excV{}
	case tF:
		return &excF{}
	case tG:
		return &excG{}
	case tW:
		return &excW{}
	case tL:
		return mkL(exc.Exception{})
	case tM:
		return mkM(exc.Exception{})
	}
	return &excE{}
}

func samePanic(a, b any) bool {
	x, ok := a.([]int)
	y, ok2 := b.([]int)
	if ok || ok2 {
		return ok && ok2 && &x[0] == &y[0]
	}
	return a == b
}

func mkExc(t, id int) exc.Throwable {
	e := *exc.Errorf("x%d", id).Exception()
	switch t {
	case tExc:
		return &e
	case tA:
		return &excA{e}
	case tB:
		return &excB{excA{e}}
	case tC:
		return &excC{e}
	case tD:
		return &excD{excB{excA{e}}}
	case tV:
		return excV{id: id}
	case tW:
		return &excW{id: id}
	case tL:
		return mkL(e)
	case tM:
		return mkM(e)
	case tF:
		return &excF{excD{excB{excA{e}}}}
	case tG:
		return &excG{excF{excD{excB{excA{e}}}}, "g"}
	}
	return &excE{e}
}

func typeOf(t exc.Throwable) int {
	switch t.(type) {
	case *exc.Exception:
		return tExc
	case *excA:
		return tA
	case *excB:
		return tB
	case *excC:
		return tC
	case *excD:
		return tD
	case excV:
		return tV
	case *excW:
		return tW
	case *excE:
		return tE
	case *excF:
		return tF
	case *excG:
		return tG
	}
	if isL(t) {
		return tL
	}
	if isM(t) {
		return tM
	}
	return -99
}

// mexc is the model of an exception: its dynamic type and chain of error ids.
type mexc struct {
	t     int
	chain []int
}

func (e *mexc) String() string {
	if e == nil {
		return "none"
	}
	return fmt.Sprintf("%d%v", e.t, e.chain)
}

// what the run threw, by id: exceptions and the plain errors inside arrive as
// the objects they are
var (
	keptExc = map[[2]int]exc.Throwable{}
	keptErr = map[[2]int]error{}
)

// ids are unique in a task
func ofTask(id int) [2]int { return [2]int{simrt.S.Cur().ID, id} }

func keep(id int, t exc.Throwable) exc.Throwable {
	keptExc[ofTask(id)] = t
	return t
}

func keepErr(id int) error {
	err := fmt.Errorf("x%d", id)
	keptErr[ofTask(id)] = err
	return err
}

func absExc(t exc.Throwable) *mexc {
	if t == nil {
		return nil
	}
	m := &mexc{t: typeOf(t)}
	switch v := t.(type) {
	case excV:
		m.chain = []int{v.id}
		return m
	case *excW:
		m.chain = []int{v.id}
		return m
	}
	for _, e := range t.Exc().Errors {
		id := -1
		fmt.Sscanf(e.Err.Error(), "x%d", &id)
		m.chain = append(m.chain, id)
		if k, ok := keptErr[ofTask(id)]; ok && e.Err != k {
			m.chain = append(m.chain, -3)
		}
	}
	if len(m.chain) == 1 {
		if k, ok := keptExc[ofTask(m.chain[0])]; ok && t != k {
			m.chain = append(m.chain, -4)
		}
	}
	// the text names every error, in order
	text := t.Error()
	for _, id := range m.chain {
		x := fmt.Sprintf("x%d\n", id)
		i := strings.Index(text, x)
		if i < 0 {
			m.chain = append(m.chain, -2)
			break
		}
		text = text[i+len(x):]
	}
	return m
}

// ---- programs

type xstmt struct {
	kind  int // 0 log, 1 throw, 2 regular panic, 3 nested block, 4 shared block, 5 yields, 6 rethrow (handlers only)
	id    int
	typ   int
	how   int // which API throws
	joins [3]int
	every int // throw only when (per task) execution count % every == 0
	blk   *xblock
	n     int
}

type xhandler struct {
	finally bool
	typ     int
	body    []*xstmt
	id      int
}

type xblock struct {
	id       int
	closer   bool
	openFail int // 0 no, n: opening throws when count%n==0
	openNil  bool
	closeErr int // close returns an error when count%n==0
	body     []*xstmt
	hs       []*xhandler
	late     int // handlers registered only after the first execution
	mode     int // 0 Error, 1 Unwind, 2 Exception
}

type xgen struct {
	h      *H
	next   int
	budget int
	shared int
	cleanW int
	rtpan  bool
}

func (g *xgen) id() int { g.next++; return g.next }

func (g *xgen) stmts(depth int, handler bool, max int) []*xstmt {
	h := g.h
	n := h.N(max + 1)
	var out []*xstmt
	for i := 0; i < n; i++ {
		g.budget--
		k := h.N(12)
		s := &xstmt{id: g.id()}
		switch {
		case k < 2:
			s.kind = 0
		case k < 5:
			s.kind = 1
			s.typ = h.N(nTypes)
			s.how = h.N(5)
			if s.how == 4 {
				s.joins = [3]int{h.N(nTypes), h.N(nTypes), h.N(nTypes)}
			}
			s.every = Pick(h, 1, 1, 2, 3)
		case k < 6:
			if g.rtpan && h.OneIn(3) {
				s.kind = 2
				s.how = h.N(4)
				s.every = Pick(h, 1, 2, 3)
			} else {
				s.kind = 5
				s.n = 1 + h.N(3)
			}
		case k < 9:
			if depth > 0 && g.budget > 0 {
				s.kind = 3
				s.blk = g.block(depth - 1)
			}
		case k < 10:
			if g.shared > 0 && depth > 0 {
				s.kind = 4
				s.n = h.N(g.shared)
			}
		default:
			if handler {
				s.kind = 6
				s.every = Pick(h, 1, 2)
			} else {
				s.kind = 5
				s.n = 1
			}
		}
		out = append(out, s)
	}
	return out
}

func (g *xgen) block(depth int) *xblock {
	h := g.h
	b := &xblock{id: g.id(), mode: h.N(3)}
	b.closer = h.OneIn(3)
	if b.closer {
		b.openFail = Pick(h, 0, 0, 1, 2, 3)
		b.openNil = h.OneIn(8)
		b.closeErr = Pick(h, 0, 0, 1, 2)
	}
	b.body = g.stmts(depth, false, 3)
	n := h.N(4)
	if h.OneIn(60) {
		n = h.Range(4, 12)
	}
	for i := 0; i < n; i++ {
		x := &xhandler{id: g.id(), finally: h.N(5) < g.cleanW, typ: h.N(nTypes)}
		x.body = g.stmts(depth, !x.finally, 2)
		b.hs = append(b.hs, x)
	}
	return b
}

// ---- execution against the real package

type xrun struct {
	h      *H
	shared []*exc.Block
	spec   []*xblock
	tasks  map[int]*xtask
}

type xtask struct {
	pan    any // the last ordinary panic
	log    []string
	count  map[int]int
	closed map[int]int
	nres   int
}

func (r *xrun) me() *xtask {
	id := r.h.S.Cur().ID
	t := r.tasks[id]
	if t == nil {
		t = &xtask{count: map[int]int{}, closed: map[int]int{}}
		r.tasks[id] = t
	}
	return t
}

func (r *xrun) ev(f string, a ...any) {
	t := r.me()
	m := fmt.Sprintf(f, a...)
	t.log = append(t.log, m)
	r.h.Logf("%s", m)
	simrt.Yield()
}

type xres struct {
	r  *xrun
	b  *xblock
	id int
}

func (x *xres) Close() error {
	x.r.ev("close %d of %d", x.id, x.b.id)
	t := x.r.me()
	c := t.count[-x.b.id]
	t.count[-x.b.id]++
	if x.b.closeErr > 0 && c%x.b.closeErr == 0 {
		x.r.h.Inject("close-error")
		return keepErr(closeErrID(x.b.id, c))
	}
	return nil
}

func closeErrID(b, c int) int { return 100_000_000 + b*100_000 + c }
func openErrID(b, c int) int  { return 500_000_000 + b*100_000 + c }
func thrownID(s, c int) int   { return 1_000_000_000_000 + s*1_000_000 + c*5 }

var errSentinel = errors.New("plain error")

func (r *xrun) exec(ss []*xstmt, cur exc.Throwable) {
	t := r.me()
	for _, s := range ss {
		c := t.count[s.id]
		t.count[s.id]++
		switch s.kind {
		case 0:
			exc.ThrowOnError(nil)
			r.ev("log %d", s.id)
		case 1:
			if c%s.every != 0 {
				r.ev("log %d", s.id)
				continue
			}
			id := thrownID(s.id, c)
			r.ev("throw %d", id)
			r.h.Inject("throw")
			switch {
			case s.typ != tExc || s.how == 3:
				exc.Throw(keep(id, mkExc(s.typ, id)))
			case s.how == 0:
				exc.Throwf("x%d", id)
			case s.how == 1:
				exc.ThrowErr(exc.Errorf("x%d", id))
			case s.how == 2:
				exc.ThrowOnError(keepErr(id))
			default: // two exceptions in one
				a, b := mkExc(s.joins[0], id).Exc(), mkExc(s.joins[1], id+1).Exc()
				if s.joins[2] > 0 {
					b = b.Join(mkExc(s.joins[2], id+2).Exc())
				}
				j := a.Join(b)
				r.ev("joined %v %v", absExc(a), absExc(b))
				exc.Throw(j)
			}
			r.ev("nothing thrown")
		case 2:
			if c%s.every != 0 {
				continue
			}
			r.ev("panic %d", s.id)
			r.h.Inject("regular-panic")
			t.pan = nil
			switch s.how {
			case 0:
				t.pan = fmt.Sprintf("p%d", s.id)
			case 1:
				t.pan = s.id
				if s.id%2 == 0 {
					t.pan = []int{s.id}
				}
			case 2:
				t.pan = fmt.Errorf("p%d", s.id)
			default:
				var m []int
				_ = m[s.id]
			}
			panic(t.pan)
		case 3:
			b := r.build(s.blk)
			r.run(b, s.blk)
		case 4:
			if r.shared[s.n] != nil {
				r.run(r.shared[s.n], r.spec[s.n])
			}
		case 5:
			for i := 0; i < s.n; i++ {
				simrt.Yield()
			}
		case 6:
			if cur != nil && c%s.every == 0 {
				id := thrownID(s.id, c)
				r.ev("rethrow %d", id)
				r.h.Inject("rethrow")
				exc.Rethrow(cur, exc.Errorf("x%d", id))
			}
		}
	}
}

func (r *xrun) build(b *xblock) *exc.Block {
	var blk *exc.Block
	if b.closer {
		blk = exc.Close(func() io.Closer {
			t := r.me()
			c := t.count[b.id]
			t.count[b.id]++
			if b.openFail > 0 && c%b.openFail == 0 {
				r.ev("open of %d fails", b.id)
				r.h.Inject("open-error")
				exc.ThrowOnError(keepErr(openErrID(b.id, c)))
			}
			if b.openNil {
				r.ev("open of %d gives nil", b.id)
				return nil
			}
			t.nres++
			r.ev("open %d of %d", t.nres, b.id)
			return &xres{r, b, t.nres}
		}, func(c io.Closer) {
			if c != nil {
				r.ev("use %d", c.(*xres).id)
			} else {
				r.ev("use nil")
			}
			r.exec(b.body, nil)
		})
	} else {
		blk = exc.Try(func() {
			r.ev("try %d", b.id)
			r.exec(b.body, nil)
		})
	}
	r.register(blk, b.hs[:len(b.hs)-b.late])
	return blk
}

func (r *xrun) register(blk *exc.Block, hs []*xhandler) {
	for _, x := range hs {
		x := x
		if x.finally {
			blk.Finally(func() {
				r.ev("finally %d", x.id)
				r.exec(x.body, nil)
			})
		} else {
			blk.Catch(protoOf(x.typ), func(t exc.Throwable) {
				r.ev("catch %d: %v", x.id, absExc(t))
				r.exec(x.body, t)
			})
		}
	}
}

func (r *xrun) run(blk *exc.Block, b *xblock) {
	switch b.mode {
	case 0:
		err := blk.Error()
		if err == nil {
			r.ev("error %d: none", b.id)
		} else {
			t, ok := err.(exc.Throwable)
			if !ok {
				r.ev("error %d: not a throwable", b.id)
			} else {
				r.ev("error %d: %v", b.id, absExc(t))
			}
		}
	case 1:
		blk.Unwind()
		r.ev("unwound %d", b.id)
	default:
		r.ev("exception %d: %v", b.id, absExc(blk.Exception()))
	}
}

// ---- the model

type xmodel struct {
	spec  []*xblock
	log   []string
	count map[int]int
	nres  int
	late  int // handlers of the next block that are not registered yet
}

// outcome of executing statements: exception, or regular panic
type xout struct {
	e     *mexc
	panik bool
}

func (m *xmodel) ev(f string, a ...any) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

func (m *xmodel) exec(ss []*xstmt, cur *mexc) xout {
	for _, s := range ss {
		c := m.count[s.id]
		m.count[s.id]++
		switch s.kind {
		case 0:
			m.ev("log %d", s.id)
		case 1:
			if c%s.every != 0 {
				m.ev("log %d", s.id)
				continue
			}
			id := thrownID(s.id, c)
			m.ev("throw %d", id)
			ids := []int{id}
			if s.typ == tExc && s.how == 4 {
				ids = append(ids, id+1)
				if s.joins[2] > 0 {
					ids = append(ids, id+2)
				}
				m.ev("joined %v %v", &mexc{tExc, ids[:1]}, &mexc{tExc, ids[1:]})
			}
			return xout{e: &mexc{s.typ, ids}}
		case 2:
			if c%s.every != 0 {
				continue
			}
			m.ev("panic %d", s.id)
			return xout{panik: true}
		case 3:
			if o := m.run(s.blk); o.e != nil || o.panik {
				return o
			}
		case 4:
			if m.spec[s.n] != nil {
				if o := m.run(m.spec[s.n]); o.e != nil || o.panik {
					return o
				}
			}
		case 6:
			if cur != nil && c%s.every == 0 {
				id := thrownID(s.id, c)
				m.ev("rethrow %d", id)
				if cur.t == tV || cur.t == tW {
					return xout{e: cur}
				}
				t := tExc
				if cur.t == tE {
					t = tE
				}
				// chaining appends to the exception itself
				cur.chain = append(cur.chain, id)
				return xout{e: &mexc{t, append([]int(nil), cur.chain...)}}
			}
		}
	}
	return xout{}
}

func (m *xmodel) run(b *xblock) xout {
	var o xout
	hs := b.hs[:len(b.hs)-m.late]
	m.late = 0
	if b.closer {
		c := m.count[b.id]
		m.count[b.id]++
		if b.openFail > 0 && c%b.openFail == 0 {
			m.ev("open of %d fails", b.id)
			o = xout{e: &mexc{tExc, []int{openErrID(b.id, c)}}}
		} else {
			res := 0
			if b.openNil {
				m.ev("open of %d gives nil", b.id)
				m.ev("use nil")
			} else {
				m.nres++
				res = m.nres
				m.ev("open %d of %d", res, b.id)
				m.ev("use %d", res)
			}
			o = m.exec(b.body, nil)
			if o.panik {
				return o
			}
			if res > 0 {
				m.ev("close %d of %d", res, b.id)
				cc := m.count[-b.id]
				m.count[-b.id]++
				if b.closeErr > 0 && cc%b.closeErr == 0 {
					o = xout{e: &mexc{tExc, []int{closeErrID(b.id, cc)}}}
				}
			}
		}
	} else {
		m.ev("try %d", b.id)
		o = m.exec(b.body, nil)
	}
	if o.panik {
		return o
	}
	if o.e != nil {
	find:
		for _, x := range hs {
			if x.finally {
				continue
			}
			for t := o.e.t; t >= 0; t = parentType[t] {
				if t == x.typ {
					m.ev("catch %d: %v", x.id, o.e)
					o = m.exec(x.body, o.e)
					break find
				}
			}
		}
		if o.panik {
			return o
		}
	}
	for _, x := range hs {
		if !x.finally {
			continue
		}
		m.ev("finally %d", x.id)
		f := m.exec(x.body, nil)
		if f.panik {
			return f
		}
		if f.e != nil {
			o = f
		}
	}
	switch b.mode {
	case 0:
		m.ev("error %d: %v", b.id, o.e)
		return xout{}
	case 1:
		if o.e != nil {
			return o
		}
		m.ev("unwound %d", b.id)
		return xout{}
	}
	m.ev("exception %d: %v", b.id, o.e)
	return xout{}
}

func excRun(h *H, cleanW int) {
	clear(keptExc)
	clear(keptErr)
	g := &xgen{h: h, budget: 40, cleanW: cleanW, rtpan: h.OneIn(3)}
	ns := h.N(3)
	r := &xrun{h: h, tasks: map[int]*xtask{}}
	for i := 0; i < ns; i++ {
		g.shared = i // a shared block may use earlier ones: no recursion
		r.spec = append(r.spec, g.block(2))
	}
	g.shared = ns
	nc := Pick(h, 1, 2, 3)
	progs := make([]*xblock, nc)
	for c := range progs {
		g.budget = 25
		progs[c] = g.block(Pick(h, 3, 3, 3, 6))
		progs[c].mode = h.N(3)
		if h.OneIn(4) {
			progs[c].late = h.N(len(progs[c].hs) + 1)
		}
	}
	reps := 1 + h.N(3)
	if h.OneIn(40) {
		reps = h.Range(4, 20)
	}
	for _, s := range r.spec {
		r.shared = append(r.shared, nil)
		r.shared[len(r.shared)-1] = r.build(s)
	}
	var cs []*simrt.Task
	ids := make([]int, nc)
	for c := range progs {
		b := progs[c]
		cs = append(cs, h.S.Spawn("client", func() {
			id := h.S.Cur().ID
			ids[c] = id
			blk := r.build(b)
			for i := 0; i < reps; i++ {
				func() {
					defer func() {
						if e := recover(); e != nil {
							if t, ok := e.(exc.Throwable); ok {
								r.ev("escaped: %v", absExc(t))
							} else {
								if _, ok := e.(runtime.Error); !samePanic(e, r.me().pan) && (r.me().pan != nil || !ok) {
									h.Fail("panic-changed", "a panic with %v came out as %v (%T)", r.me().pan, e, e)
								}
								r.ev("panicked: %v", strings.SplitN(fmt.Sprint(e), ":", 2)[0])
							}
						}
					}()
					// alternate between the private block and the shared ones
					if ns > 0 && i%2 == 1 {
						r.run(r.shared[i%ns], r.spec[i%ns])
					} else {
						r.run(blk, b)
					}
				}()
				if i == 0 {
					r.register(blk, b.hs[len(b.hs)-b.late:])
				}
			}
		}))
	}
	h.S.Join(cs...)
	for c := range progs {
		m := &xmodel{spec: r.spec, count: map[int]int{}}
		for i := 0; i < reps; i++ {
			b := progs[c]
			if ns > 0 && i%2 == 1 {
				b = r.spec[i%ns]
			}
			m.late = 0
			if i == 0 {
				m.late = b.late
			}
			o := m.run(b)
			if o.e != nil {
				m.ev("escaped: %v", o.e)
			}
			if o.panik {
				// the value of the panic is the statement's
				m.log = append(m.log, "PANIC")
			}
		}
		got := r.tasks[ids[c]]
		if got == nil {
			got = &xtask{}
		}
		compareLogs(h, c, m.log, got.log)
	}
}

func compareLogs(h *H, c int, want, got []string) {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(end)", "(end)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w == g {
			continue
		}
		if w == "PANIC" && i > 0 && strings.HasPrefix(g, "panicked: ") {
			// unchanged value: "panic N" was the last event
			var n int
			fmt.Sscanf(want[i-1], "panic %d", &n)
			v := strings.TrimPrefix(g, "panicked: ")
			if v == fmt.Sprintf("p%d", n) || v == fmt.Sprint(n) || v == fmt.Sprint([]int{n}) || v == "runtime error" {
				continue
			}
		}
		h.Fail("exc-mismatch", "client %d, event %d: expected %q, got %q", c, i, w, g)
	}
}

func init() {
	for _, p := range []struct {
		prop string
		w    int
	}{{"C09", 3}, {"C10", 1}} {
		p := p
		register(&Scenario{Prop: p.prop, Name: "programs", Weight: 3, Race: true, Stalls: true, Steps: 1_000_000, Run: func(h *H) { excRun(h, p.w) }})
	}
}
