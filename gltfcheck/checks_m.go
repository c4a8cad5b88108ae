package main

import (
	"fmt"
	"go/types"
	"math"
)

func init() {
	register("M01", checkDef{run: checkM01,
		explain: "Every exported conversion function of math.go is interpreted with symbolic channels. On each path the value of each output channel is read as an expression of real numbers of the inputs, together with the interval of the input that the branches taken imply. Rules: channel (an output channel depends on the input channel of the same index only), scale (the factor is the largest value of the integer type, on the alpha channel too, and alpha isn't gamma-corrected), lower (a signed result is never below -1), round (integers are rounded to the nearest), transfer (a color channel is, on each side of the threshold, what the sRGB transfer function is there).",
		assume:  []string{"expressions are compared as real numbers, with a relative tolerance of 1e-6 for constants and 2% for the threshold between the parts of the transfer function", "colors are rounded or truncated to integers (tests pin truncation)", "functions of package math do what their documentation says"}})
}

const (
	decodeThreshold = 0.04045
	encodeThreshold = 0.0031308
)

// scalarFn is a function that converts a number, and colorFn one for colors.
type (
	scalarFn struct {
		name string
		max  float64
		sign bool
	}
	colorFn struct {
		name string
		max  float64
		n    int
	}
)

var scalarFns = []scalarFn{{"Byte", 127, true}, {"Ubyte", 255, false}, {"Short", 32767, true}, {"Ushort", 65535, false}}
var colorFns = []colorFn{{"RGB", 255, 3}, {"RGBA", 255, 4}, {"RGB64", 65535, 3}, {"RGBA64", 65535, 4}}

func checkM01(r *Report) {
	for _, f := range scalarFns {
		f := f
		r.converts("Normalize"+f.name, 0, func(p *convPath) { p.encode(p.out[0], p.in[0], f.max, false, f.sign, "scale") })
		r.converts("Denormalize"+f.name, 0, func(p *convPath) { p.decode(p.out[0], p.in[0], f.max, f.sign) })
	}
	for _, f := range colorFns {
		f := f
		r.converts("Normalize"+f.name, f.n, func(p *convPath) {
			for k := range p.out {
				p.at = channelName(k)
				if p.foreign(k) {
					continue
				}
				if k == 3 {
					p.encode(p.out[k], p.in[k], f.max, true, false, "scale")
				} else {
					p.encodeColor(p.out[k], p.in[k], f.max)
				}
			}
		})
		r.converts("Denormalize"+f.name, f.n, func(p *convPath) {
			for k := range p.out {
				p.at = channelName(k)
				if p.foreign(k) {
					continue
				}
				if k == 3 {
					p.decode(p.out[k], p.in[k], f.max, false)
				} else {
					p.decodeColor(p.out[k], p.in[k], f.max)
				}
			}
		})
	}
}

func channelName(k int) string {
	return [...]string{"red", "green", "blue", "alpha"}[k]
}

// convPath is a path of a conversion function.
type convPath struct {
	r         *Report
	x         *X
	name, pos string
	at        string
	in, out   []Value
	inKey     []*Term
}

// converts interprets a conversion function of n channels, or of a number,
// and judges each path.
func (r *Report) converts(name string, n int, judge func(p *convPath)) {
	r.guard("gltf."+name, func() {
		fn := r.fn("", name)
		if fn == nil {
			return
		}
		r.unit("gltf." + name)
		if len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			r.Undec("gltf." + name + " has another signature")
			return
		}
		typ := fn.Params[0].Type()
		elem := typ
		arr, isArr := typ.Underlying().(*types.Array)
		if isArr {
			elem = arr.Elem()
		}
		if n > 0 && (!isArr || int(arr.Len()) != n) || n == 0 && isArr {
			r.Undec("gltf." + name + " has another signature")
			return
		}
		e := r.engine()
		e.InitBase()
		var in []Value
		var keys []*Term
		for k := 0; k < max(n, 1); k++ {
			v := symIn(elem, fmt.Sprintf("v%d", k))
			in = append(in, v)
			keys = append(keys, inputTerm(v))
		}
		arg := in[0]
		if n > 0 {
			arg = ArrayV{T: typ, E: in}
		}
		outs := e.fn(e.Base.clone(), fn, []Value{arg}, nil)
		r.absorb(e)
		for _, o := range outs {
			r.on(e, o.st, fn, func(x *X) {
				p := &convPath{r: r, x: x, name: "gltf." + name, pos: r.P.Pos(fn.Pos()), in: in, inKey: keys, at: "result"}
				if o.panic {
					r.Fail("panic", p.name+": panic", p.pos, "a conversion panics", statePath(x.st))
					return
				}
				p.out = []Value{o.ret[0]}
				if n > 0 {
					a, ok := o.ret[0].(ArrayV)
					if !ok || len(a.E) != n {
						x.undecided("unknown result")
						return
					}
					p.out = a.E
				}
				judge(p)
			})
		}
	})
}

// inputTerm is the symbol of an input.
func inputTerm(v Value) *Term {
	switch w := v.(type) {
	case FloatV:
		return w.T
	case IntV:
		if vs := w.P.ms; len(vs) == 1 && len(vs[0].vs) == 1 {
			return vs[0].vs[0]
		}
	}
	return nil
}

func (p *convPath) what() string { return p.name + ": " + p.at }

func (p *convPath) fail(rule, msg string) {
	p.r.Fail(rule, p.what(), p.pos, msg, statePath(p.x.st))
}

func (p *convPath) ok(rule string) { p.r.OK(rule, p.what()) }

func (p *convPath) undec(msg string) { p.r.Undec(p.what() + ": " + msg) }

// foreign tells whether channel k depends on another input.
func (p *convPath) foreign(k int) bool {
	a := argOf(p.out[k])
	for j, t := range p.inKey {
		if j != k && t != nil && contains(a, t) {
			p.fail("channel", fmt.Sprintf("depends on the %s channel of the input", channelName(j)))
			return true
		}
	}
	p.ok("channel")
	return false
}

// expr is the value as an expression of real numbers.
func (p *convPath) expr(v Value) (f realF, ok bool) {
	switch w := v.(type) {
	case FloatV:
		return normFloat(p.x, w.T), true
	case IntV:
		return normPoly(p.x, w.P), true
	}
	return f, false
}

// atom returns f as b + a*t for an atom t.
func (f realF) atom() (t Arg, a, b float64, ok bool) {
	if len(f.m) != 1 {
		return nil, 0, 0, false
	}
	for k, a := range f.m {
		return f.t[k], a, f.c, true
	}
	return
}

// linear returns f as b + a*in.
func (f realF) linear(in *Term) (a, b float64, ok bool) {
	t, a, b, ok := f.atom()
	u, isTerm := t.(*Term)
	return a, b, ok && isTerm && u.argKey() == in.argKey()
}

// interval bounds the input by the float comparisons made on the path.
func (p *convPath) interval(in *Term) (lo, hi float64) {
	lo, hi, _ = p.intervalOf(in)
	return
}

// intervalOf also says whether the path says nothing else about the input.
func (p *convPath) intervalOf(in *Term) (lo, hi float64, all bool) {
	lo, hi, all = math.Inf(-1), math.Inf(1), true
	for t, b := range p.x.st.F.atoms {
		if !contains(t, in) {
			continue
		}
		if t.Op != "f<" && t.Op != "f<=" || len(t.Args) != 2 {
			all = false
			continue
		}
		l, ok1 := t.Args[0].(*Term)
		g, ok2 := t.Args[1].(*Term)
		if !ok1 || !ok2 {
			all = false
			continue
		}
		// a*in + c < 0
		d := normFloat(p.x, l).add(normFloat(p.x, g), -1)
		a, c, ok := d.linear(in)
		if !ok || a == 0 {
			all = false
			continue
		}
		if (a > 0) == b {
			hi = math.Min(hi, -c/a)
		} else {
			lo = math.Max(lo, -c/a)
		}
	}
	return lo, hi, all
}

// atMost and atLeast tell whether the path implies the bound for the input,
// with some tolerance, given in units of the input.
func (p *convPath) atMost(in Value, t float64) bool {
	if v, ok := in.(IntV); ok && p.x.st.F.Entails(PInt(int64(math.Floor(t))).Sub(v.P)) {
		return true
	}
	_, hi := p.interval(inputTerm(in))
	if _, ok := in.(IntV); ok {
		return math.Floor(hi) <= math.Floor(t) || hi <= t*1.02
	}
	return hi <= t+math.Abs(t)*0.02
}

func (p *convPath) atLeast(in Value, t float64) bool {
	if v, ok := in.(IntV); ok && p.x.st.F.Entails(v.P.Sub(PInt(int64(math.Ceil(t))))) {
		return true
	}
	lo, _ := p.interval(inputTerm(in))
	if _, ok := in.(IntV); ok {
		return math.Ceil(lo) >= math.Floor(t) || lo >= t*0.98
	}
	return lo >= t-math.Abs(t)*0.02
}

// bounded tells whether the path says something about the input.
func (p *convPath) bounded(in Value) bool {
	lo, hi := p.interval(inputTerm(in))
	if !math.IsInf(lo, 0) || !math.IsInf(hi, 0) {
		return true
	}
	if v, ok := in.(IntV); ok {
		l, h := p.x.st.F.varBounds(inputTerm(in))
		b, ok := v.T.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		lo, hi := intRange(b)
		return l != nil && l.Cmp(lo) > 0 || h != nil && h.Cmp(hi) < 0
	}
	return false
}

// call returns the arguments of a call of a function of math.
func call(t Arg, name string) ([]*Term, bool) {
	u, ok := t.(*Term)
	if !ok || u.Op != "call:math."+name {
		return nil, false
	}
	var l []*Term
	for _, a := range u.Args {
		w, ok := a.(*Term)
		if !ok {
			return nil, false
		}
		l = append(l, w)
	}
	return l, true
}

// clamped returns a and the constant for a call of Max(a, c) or Min(a, c).
func (p *convPath) clamped(t Arg, name string) (f realF, c float64, ok bool) {
	l, ok := call(t, name)
	if !ok || len(l) != 2 {
		return f, 0, false
	}
	a, b := normFloat(p.x, l[0]), normFloat(p.x, l[1])
	if len(a.m) == 0 {
		a, b = b, a
	}
	return a, b.c, len(b.m) == 0
}

// decode judges the conversion of an integer to a float.
func (p *convPath) decode(out, in Value, max float64, sign bool) {
	f, ok := p.expr(out)
	if !ok {
		p.undec("unknown value")
		return
	}
	k := inputTerm(in)
	lower := !sign
	for i := 0; i < 4; i++ {
		t, a, b, ok := f.atom()
		if !ok || a <= 0 {
			break
		}
		if g, c, ok := p.clamped(t, "Max"); ok {
			switch c = a*c + b; {
			case nearly(c, -1):
				lower = true
			case c > 0 || sign && c > -1:
				p.fail("lower", fmt.Sprintf("is never below %v", c))
				return
			}
			f = g.scale(a).add(realF{c: b}, 1)
		} else if g, c, ok := p.clamped(t, "Min"); ok && a*c+b >= 1-1e-6 {
			f = g.scale(a).add(realF{c: b}, 1)
		} else {
			break
		}
	}
	if len(f.m) == 0 {
		switch {
		case nearly(f.c, -1) && sign && p.atMost(in, -max), f.c == 0 && p.atMost(in, 0) && p.atLeast(in, 0), nearly(f.c, 1) && p.atLeast(in, max):
			p.ok("scale")
		case !p.bounded(in):
			p.fail("scale", fmt.Sprintf("is %v for every input", f.c))
		default:
			p.undec("a constant")
		}
		return
	}
	a, b, ok := f.linear(k)
	if !ok {
		if t, _, _, ok := f.atom(); ok {
			if _, ok := call(t, "Pow"); ok {
				p.fail("scale", "a power of the input, not the input divided by the largest value")
				return
			}
		}
		p.undec("unknown expression " + f.key())
		return
	}
	if !nearly(a*max, 1) || math.Abs(b) > 1e-7 {
		p.fail("scale", fmt.Sprintf("is %s, not the input divided by %v", lineString(a, b), max))
		return
	}
	p.ok("scale")
	if sign {
		v, isInt := in.(IntV)
		if !lower && !p.atLeast(in, -max) && !(isInt && p.x.st.F.Entails(v.P.Add(PInt(int64(max))))) {
			p.fail("lower", "is below -1 for the lowest integer")
			return
		}
		p.ok("lower")
	}
}

func lineString(a, b float64) string {
	s := short(a) + " times the input"
	if b != 0 {
		s += " plus " + short(b)
	}
	return s
}

// rounded takes the rounding of a conversion to an integer apart: it returns
// the real number that is rounded.
func (p *convPath) rounded(out, in Value, trunc, sign bool) (f realF, ok bool) {
	f, ok = p.expr(out)
	if !ok {
		p.undec("unknown value")
		return f, false
	}
	t, a, b, ok := f.atom()
	u, isTerm := t.(*Term)
	if !ok || !isTerm || u.Op != "f2i" || a != 1 || b != 0 {
		if len(f.m) == 0 {
			return f, true
		}
		p.undec("unknown expression " + f.key())
		return f, false
	}
	w, ok := u.Args[0].(*Term)
	if !ok {
		p.undec("unknown expression " + f.key())
		return f, false
	}
	f = normFloat(p.x, w)
	half, zero := 0.0, false // zero: rounds towards 0
	if t, a, b, ok := f.atom(); ok && a == 1 && b == 0 {
		for _, name := range []string{"Round", "RoundToEven", "Floor", "Trunc", "Ceil"} {
			l, ok := call(t, name)
			if !ok || len(l) != 1 {
				continue
			}
			f = normFloat(p.x, l[0])
			switch name {
			case "Ceil":
				half = -0.5
			case "Floor", "Trunc":
				half, zero = 0.5, name == "Trunc"
			}
			if half == 0 {
				return f, true
			}
			break
		}
	}
	if half == 0 {
		half, zero = 0.5, true // Conversions truncate.
	}
	if zero && sign {
		if p.atMost(in, 0) {
			half = -0.5
		} else if !p.atLeast(in, 0) {
			if _, _, all := p.intervalOf(inputTerm(in)); !all {
				p.undec("unknown sign")
				return f, false
			}
			p.fail("round", "positive and negative numbers aren't both rounded to the nearest integer")
			return f, false
		}
	}
	// A shift by a half makes it rounding to the nearest.
	g := f.add(realF{c: half}, -1)
	if math.Abs(f.c-half) < 1e-6 {
		return g, true
	}
	if half > 0 && trunc && math.Abs(f.c) < 1e-6 {
		return f, true
	}
	if half > 0 && trunc { // It's perhaps a color: what is rounded tells.
		return f, true
	}
	p.fail("round", "isn't rounded to the nearest integer")
	return f, false
}

// limits strips limits on a real number that don't matter from lo to hi.
func (p *convPath) limits(f realF, lo, hi float64) realF {
	for i := 0; i < 4; i++ {
		t, a, b, ok := f.atom()
		if !ok || a <= 0 {
			return f
		}
		if g, c, ok := p.clamped(t, "Max"); ok && a*c+b <= lo*(1-1e-6)+1e-9 {
			f = g.scale(a).add(realF{c: b}, 1)
		} else if g, c, ok := p.clamped(t, "Min"); ok && a*c+b >= hi*(1-1e-6) {
			f = g.scale(a).add(realF{c: b}, 1)
		} else {
			return f
		}
	}
	return f
}

// encode judges the conversion of a float to an integer.
func (p *convPath) encode(out, in Value, max float64, trunc, sign bool, rule string) {
	f, ok := p.rounded(out, in, trunc, sign)
	if !ok {
		return
	}
	lo := 0.0
	if sign {
		lo = -max
	}
	f = p.limits(f, lo, max)
	k := inputTerm(in)
	if len(f.m) == 0 {
		p.constant(f.c, in, max, sign)
		return
	}
	a, b, ok := f.linear(k)
	if !ok {
		if t, _, _, ok := f.atom(); ok {
			if g, c, ok := p.clamped(t, "Max"); ok {
				if _, _, ok := g.linear(k); ok {
					p.fail(rule, fmt.Sprintf("is limited from below by %v, which changes numbers from -1 to 1", c))
					return
				}
			}
			if g, c, ok := p.clamped(t, "Min"); ok {
				if _, _, ok := g.linear(k); ok {
					p.fail(rule, fmt.Sprintf("is limited from above by %v, which changes numbers from -1 to 1", c))
					return
				}
			}
			if _, ok := call(t, "Pow"); ok {
				p.fail(rule, "is gamma-corrected")
				return
			}
		}
		p.undec("unknown expression " + f.key())
		return
	}
	if !nearly(a, max) || math.Abs(b) > 1e-6 {
		p.fail(rule, fmt.Sprintf("is %s, not %v times the input", lineString(a, b), max))
		return
	}
	p.ok(rule)
	p.ok("round")
}

// constant judges an integer that doesn't depend on the input but for the
// branches taken.
func (p *convPath) constant(c float64, in Value, max float64, sign bool) {
	lo, hi, all := p.intervalOf(inputTerm(in))
	least := 0.0
	if sign {
		least = -1
	}
	from, to := math.Max(lo, least), math.Min(hi, 1)
	switch {
	case c == max && lo >= 1-1e-6, c == -max && sign && hi <= -1+1e-6, c == -max-1 && sign && hi <= -1+1e-6, c == 0 && !sign && hi <= 1e-6:
		p.ok("scale")
	case all && (to-from)*max > 1.1:
		p.fail("scale", fmt.Sprintf("is %v for every input from %v to %v", c, from, to))
	default:
		p.undec("a constant")
	}
}

// power returns the base and the exponent of a power.
func (p *convPath) power(t Arg) (base realF, exp float64, ok bool) {
	l, ok := call(t, "Pow")
	if !ok || len(l) != 2 {
		return base, 0, false
	}
	base = normFloat(p.x, l[0])
	e := normFloat(p.x, l[1])
	return base, e.c, len(e.m) == 0
}

// decodeColor judges the conversion of an integer of a color channel.
func (p *convPath) decodeColor(out, in Value, max float64) {
	f, ok := p.expr(out)
	if !ok {
		p.undec("unknown value")
		return
	}
	f = p.limits(f, 0, 1)
	k := inputTerm(in)
	if len(f.m) == 0 {
		switch {
		case f.c == 0 && p.atMost(in, 0), nearly(f.c, 1) && p.atLeast(in, max):
			p.ok("transfer")
		case !p.bounded(in):
			p.fail("transfer", fmt.Sprintf("is %v for every input", f.c))
		default:
			p.undec("a constant")
		}
		return
	}
	if a, b, ok := f.linear(k); ok {
		if !nearly(a*max*12.92, 1) || math.Abs(b) > 1e-7 {
			p.fail("transfer", fmt.Sprintf("is %s, not the input divided by %v and by 12.92", lineString(a, b), max))
			return
		}
		p.side(in, decodeThreshold*max, false)
		return
	}
	t, a, b, ok := f.atom()
	if !ok {
		p.undec("unknown expression " + f.key())
		return
	}
	base, exp, ok := p.power(t)
	if !ok {
		p.undec("unknown expression " + f.key())
		return
	}
	g, h, ok := base.linear(k)
	if !ok {
		p.undec("unknown expression " + f.key())
		return
	}
	// A factor outside of the power is one inside.
	if a > 0 && a != 1 {
		s := math.Pow(a, 1/exp)
		g, h = g*s, h*s
	}
	if !nearly(exp, 2.4) || !nearly(g*max*1.055, 1) || !nearly(h, 0.055/1.055) || math.Abs(b) > 1e-7 {
		p.fail("transfer", fmt.Sprintf("is (%s)^%v, not ((v/%v+0.055)/1.055)^2.4", lineString(g, h), short(exp), max))
		return
	}
	p.side(in, decodeThreshold*max, true)
}

// encodeColor judges the conversion of a float to a color channel.
func (p *convPath) encodeColor(out, in Value, max float64) {
	f, ok := p.rounded(out, in, true, false)
	if !ok {
		return
	}
	f = p.limits(f, 0, max)
	k := inputTerm(in)
	if len(f.m) == 0 {
		p.constant(f.c, in, max, false)
		return
	}
	if a, b, ok := f.linear(k); ok {
		if !nearly(a, max*12.92) || math.Abs(b) > 1e-6 {
			p.fail("transfer", fmt.Sprintf("is %s, not the input times 12.92 and %v", lineString(a, b), max))
			return
		}
		p.side(in, encodeThreshold, false)
		return
	}
	t, a, b, ok := f.atom()
	if !ok {
		p.undec("unknown expression " + f.key())
		return
	}
	base, exp, ok := p.power(t)
	if !ok {
		p.undec("unknown expression " + f.key())
		return
	}
	base = p.limits(base, 0, 1)
	g, h, ok := base.linear(k)
	if !ok {
		p.undec("unknown expression " + f.key())
		return
	}
	if g > 0 && g != 1 {
		a *= math.Pow(g, exp)
		h /= g
	}
	if !nearly(exp, 1/2.4) || !nearly(a, 1.055*max) || !nearly(b, -0.055*max) && !nearly(b, -0.055*max+0.5) || math.Abs(h) > 1e-7 {
		p.fail("transfer", fmt.Sprintf("is %v*v^%v%+v, not %v*v^(1/2.4)%+v", short(a), short(exp), b, short(1.055*max), -0.055*max))
		return
	}
	p.side(in, encodeThreshold, true)
}

// side judges whether the input is on the right side of the threshold of the
// transfer function.
func (p *convPath) side(in Value, t float64, above bool) {
	switch {
	case above && p.atLeast(in, t), !above && p.atMost(in, t):
		p.ok("transfer")
	case p.bounded(in) || len(p.x.st.F.atoms) == 0:
		lo, hi := p.interval(inputTerm(in))
		part := "linear"
		if above {
			part = "exponential"
		}
		p.fail("transfer", fmt.Sprintf("the %s part of the transfer function is used for inputs from %v to %v; the threshold is %v", part, lo, hi, t))
	default:
		p.undec("unknown threshold")
	}
}
