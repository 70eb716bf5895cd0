// P26: error codes through wrapping.
package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/icon-project/btp/common/errors"
	pkg "github.com/pkg/errors"

	"verif/mc"
)

func main() {
	mc.Main("P26", mc.Options{Exhaustive: true, QuickBudget: 300 * time.Second, FullBudget: 1800 * time.Second,
		Assumptions: []string{
			"bounds: every chain of at most 4 (quick) / 5 (thorough) wrappers over all exported wrapping constructors of the package, pkg/errors' and fmt's own wrappers, over every base error (the package's seven, coded, plain, foreign, typed) with codes 0, 1, 4, 1000, 9999, -1",
			"oracle: a list model of the chain",
		}}, body)
}

type layer struct {
	coded bool
	code  errors.Code
	msg   string // what this layer adds to the message
	err   error
}

type myErr struct{ n int }

func (e *myErr) Error() string { return fmt.Sprintf("mine%d", e.n) }

type valErr int

func (e valErr) Error() string { return fmt.Sprintf("val%d", int(e)) }

type coder struct{ c errors.Code }

func (e coder) Error() string          { return "foreign coder" }
func (e coder) ErrorCode() errors.Code { return e.c }

type base struct {
	name string
	mk   func() (error, layer)
}

func bases() []base {
	var bs []base
	for i, b := range []error{errors.ErrUnknown, errors.ErrIllegalArgument, errors.ErrInvalidState, errors.ErrUnsupported, errors.ErrNotFound, errors.ErrInvalidNetwork, errors.ErrTimeout} {
		b := b
		code := []errors.Code{errors.UnknownError, errors.IllegalArgumentError, errors.InvalidStateError, errors.UnsupportedError, errors.NotFoundError, errors.InvalidNetworkError, errors.TimeoutError}[i]
		msg := []string{"UnknownError", "IllegalArgument", "InvalidState", "Unsupported", "NotFound", "InvalidNetwork", "Timeout"}[i]
		bs = append(bs, base{msg, func() (error, layer) { return b, layer{true, code, msg, b} }})
	}
	for _, c := range []errors.Code{0, 1, 4, 1000, 9999, -1} {
		c := c
		bs = append(bs, base{fmt.Sprintf("NewBase%d", c), func() (error, layer) { e := errors.NewBase(c, "nb%s"); return e, layer{true, c, "nb%s", e} }})
		bs = append(bs, base{fmt.Sprintf("Errorc%d", c), func() (error, layer) { e := errors.Errorc(c, "ec%s"); return e, layer{true, c, "ec%s", e} }})
		bs = append(bs, base{fmt.Sprintf("Errorcf%d", c), func() (error, layer) {
			e := errors.Errorcf(c, "ecf%d", 7)
			return e, layer{true, c, "ecf7", e}
		}})
		bs = append(bs, base{fmt.Sprintf("Code.New%d", c), func() (error, layer) { e := c.New("cn"); return e, layer{true, c, "cn", e} }})
		bs = append(bs, base{fmt.Sprintf("Code.Errorf%d", c), func() (error, layer) { e := c.Errorf("cf%s", "x"); return e, layer{true, c, "cfx", e} }})
		bs = append(bs, base{fmt.Sprintf("foreign%d", c), func() (error, layer) { e := coder{c}; return e, layer{true, c, "foreign coder", e} }})
	}
	bs = append(bs, base{"New", func() (error, layer) { e := errors.New("nw%d"); return e, layer{msg: "nw%d", err: e} }})
	bs = append(bs, base{"Errorf", func() (error, layer) { e := errors.Errorf("ef%d", 3); return e, layer{msg: "ef3", err: e} }})
	bs = append(bs, base{"EOF", func() (error, layer) { return io.EOF, layer{msg: "EOF", err: io.EOF} }})
	bs = append(bs, base{"typed", func() (error, layer) { e := &myErr{5}; return e, layer{msg: "mine5", err: e} }})
	bs = append(bs, base{"value", func() (error, layer) { return valErr(6), layer{msg: "val6", err: valErr(6)} }})
	return bs
}

type wrapper struct {
	name string
	f    func(e error, top []layer) (error, layer, bool) // hides: the layer's message replaces the inner one in Error()
}

func wrappers() []wrapper {
	ws := []wrapper{
		{"Wrap", func(e error, _ []layer) (error, layer, bool) {
			x := errors.Wrap(e, "w%d")
			return x, layer{msg: "w%d", err: x}, true
		}},
		{"Wrapf", func(e error, _ []layer) (error, layer, bool) {
			x := errors.Wrapf(e, "wf%d", 1)
			return x, layer{msg: "wf1", err: x}, true
		}},
		{"WithStack", func(e error, _ []layer) (error, layer, bool) {
			x := errors.WithStack(e)
			return x, layer{err: x}, false
		}},
		{"pkg.Wrap", func(e error, _ []layer) (error, layer, bool) {
			x := pkg.WithMessage(e, "pw")
			return x, layer{msg: "pw", err: x}, false
		}},
		{"fmt", func(e error, _ []layer) (error, layer, bool) {
			x := fmt.Errorf("fw: %w", e)
			return x, layer{msg: "fw", err: x}, false
		}},
	}
	for _, c := range []errors.Code{0, 4, 1000} {
		c := c
		ws = append(ws,
			wrapper{fmt.Sprintf("Wrapc%d", c), func(e error, _ []layer) (error, layer, bool) {
				x := errors.Wrapc(e, c, "wc%s")
				return x, layer{true, c, "wc%s", x}, true
			}},
			wrapper{fmt.Sprintf("WithCode%d", c), func(e error, _ []layer) (error, layer, bool) {
				x := errors.WithCode(e, c)
				return x, layer{coded: true, code: c, err: x}, false
			}})
	}
	c := errors.Code(1001)
	ws = append(ws,
		wrapper{"Wrapcf", func(e error, _ []layer) (error, layer, bool) {
			x := errors.Wrapcf(e, c, "wcf%d", 2)
			return x, layer{true, c, "wcf2", x}, true
		}},
		wrapper{"Code.Wrap", func(e error, _ []layer) (error, layer, bool) {
			x := c.Wrap(e, "cw")
			return x, layer{true, c, "cw", x}, true
		}},
		wrapper{"Code.Wrapf", func(e error, _ []layer) (error, layer, bool) {
			x := c.Wrapf(e, "cwf%d", 2)
			return x, layer{true, c, "cwf2", x}, true
		}})
	return ws
}

func body(r *mc.R) {
	depth := 4
	if r.Thorough() {
		depth = 5
	}
	ws := wrappers()
	for _, b := range bases() {
		b := b
		r.Case(b.name, func(c *mc.C) {
			var rec func(e error, ls []layer, names string, d int, plusOK bool)
			rec = func(e error, ls []layer, names string, d int, plusOK bool) {
				check(c, e, ls, names, plusOK)
				if d == 0 {
					return
				}
				for _, w := range ws {
					x, l, _ := w.f(e, ls)
					// fmt.Errorf flattens what it wraps to its short message: %+v of it shows no more
					ok := plusOK && w.name != "fmt"
					rec(x, append(append([]layer{}, ls...), l), names+" "+w.name, d-1, ok)
				}
			}
			e, l := b.mk()
			rec(e, []layer{l}, b.name, depth, true)
		})
	}
	r.Case("nil", func(c *mc.C) {
		if errors.CodeOf(nil) != errors.UnknownError {
			c.Report("nil-code", "CodeOf(nil) = %d", errors.CodeOf(nil))
		}
		if _, ok := errors.CoderOf(nil); ok {
			c.Report("nil-coder", "CoderOf(nil) finds a coder")
		}
		if errors.Is(nil, io.EOF) || errors.Is(io.EOF, nil) {
			c.Report("nil-is", "nil matches an error")
		}
		if errors.NotFoundError.Equals(nil) || errors.UnknownError.Equals(nil) || errors.ErrUnknown.Equals(nil) {
			c.Report("nil-equals", "nil has a code")
		}
		var v *myErr
		if errors.AsValue(&v, nil) || errors.AsValue(3, io.EOF) {
			c.Report("nil-as", "AsValue finds something")
		}
		for _, w := range ws {
			var x error
			if site, p := mc.Try(func() {
				if w.name == "fmt" {
					return
				}
				if strings.HasPrefix(w.name, "WithCode") {
					return // the code of no error
				}
				x, _, _ = w.f(nil, nil)
				errors.CodeOf(x)
				errors.CoderOf(x)
				errors.Is(x, io.EOF)
				errors.AsValue(&v, x)
				_ = fmt.Sprintf("%v %+v %s", x, x, x)
			}); p != nil {
				c.Report("nil-panic:"+site, "%s(nil): %v", w.name, p)
			}
		}
	})
}

func check(c *mc.C, e error, ls []layer, names string, plusOK bool) {
	r := c.R
	want, has := errors.UnknownError, false
	var wantCoder error
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i].coded {
			want, has, wantCoder = ls[i].code, true, ls[i].err
			break
		}
	}
	if got := errors.CodeOf(e); got != want {
		c.Fail("code", "%s: code %d, expected %d", names, got, want)
	}
	cd, ok := errors.CoderOf(e)
	if ok != has || has && (cd.ErrorCode() != want || !reflect.DeepEqual(error(cd), wantCoder)) {
		c.Fail("coder", "%s: coder %v %v", names, cd, ok)
	}
	for _, x := range []errors.Code{0, 1, 4, 1000, 1001, 9999, -1} {
		if x.Equals(e) != (x == want) {
			c.Fail("equals", "%s: code %d equals: %v", names, x, x.Equals(e))
		}
		if errors.NewBase(x, "z").Equals(e) != (x == want) {
			c.Fail("base-equals", "%s: base error %d equals: %v", names, x, !(x == want))
		}
	}
	for i, l := range ls {
		if !errors.Is(e, l.err) {
			c.Fail("is", "%s: layer %d not found by identity", names, i)
		}
	}
	for _, o := range []error{io.ErrUnexpectedEOF, &myErr{5}, errors.New("nw%d"), valErr(7), coder{77}} {
		if errors.Is(e, o) {
			c.Fail("is-other", "%s: found unrelated %v", names, o)
		}
	}
	var me *myErr
	_, isMe := ls[0].err.(*myErr)
	if errors.AsValue(&me, e) != isMe || isMe && error(me) != ls[0].err {
		c.Fail("as", "%s: AsValue *myErr", names)
	}
	var ve valErr
	_, isVe := ls[0].err.(valErr)
	if errors.AsValue(&ve, e) != isVe || isVe && ve != 6 {
		c.Fail("as", "%s: AsValue valErr", names)
	}
	var fc coder
	wc, isFc := ls[0].err.(coder)
	if errors.AsValue(&fc, e) != isFc || fc != wc {
		c.Fail("as", "%s: AsValue coder", names)
	}
	// messages: the outermost named layer is in every form, all of them in %+v
	top := ""
	for i := len(ls) - 1; i >= 0 && top == ""; i-- {
		top = ls[i].msg
	}
	for _, f := range []string{e.Error(), fmt.Sprintf("%v", e), fmt.Sprintf("%s", e)} {
		if !strings.Contains(f, top) {
			c.Fail("message", "%s: %q does not contain %q", names, f, top)
		}
	}
	if has && len(ls) > 0 && ls[len(ls)-1].coded {
		if _, foreign := ls[len(ls)-1].err.(coder); !foreign {
			f := fmt.Sprintf("%v", e)
			if !strings.HasPrefix(f, fmt.Sprintf("E%04d:", want)) {
				c.Fail("format-code", "%s: %q does not show code %d", names, f, want)
			}
		}
	}
	if plusOK {
		f := fmt.Sprintf("%+v", e)
		for i, l := range ls {
			if !strings.Contains(f, l.msg) {
				c.Fail("plus", "%s: the detailed form loses the message %q of layer %d: %q", names, l.msg, i, f)
			}
		}
	}
	r.Trans(1)
	r.Exec(1)
	r.Validated(1)
	r.State(names)
}
