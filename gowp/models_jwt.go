package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The JWT library, as its parser.go, token.go and rsa.go define it:
//
// ParseWithClaims decodes the token into the given claims object, asks the key
// function for the key, validates the claims unless told not to, and verifies
// the signature with the token's own method and that key; it succeeds exactly
// when all of that does.  An RSA method accepts only an *rsa.PublicKey.
const jwtPkg = "github.com/dgrijalva/jwt-go"

func init() {
	models[jwtPkg+".ParseWithClaims"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		return x.jwtParse(st, False, args[0].(*T), args[1], args[2], fn, ins, fr)
	}
	models["(*"+jwtPkg+".Parser).ParseWithClaims"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		skip := True
		if s, ok := x.loadPtr(st, args[0].(*PtrV)).(*StructV); ok {
			u := s.typ.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "SkipClaimsValidation" {
					skip = s.f[i].(*T)
				}
			}
		}
		return x.jwtParse(st, skip, args[1].(*T), args[2], args[3], fn, ins, fr)
	}
	models[jwtPkg+".NewWithClaims"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		p := x.newToken(st, fn.Signature.Results().At(0).Type())
		x.setField(st, p, "Method", args[0])
		x.setField(st, p, "Claims", args[1])
		return x.ret(st, p)
	}
	models["(*"+jwtPkg+".Token).SignedString"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		p := args[0].(*PtrV)
		m, _ := x.getField(st, p, "Method").(*IfaceV)
		c, _ := x.getField(st, p, "Claims").(*IfaceV)
		key := args[1].(*IfaceV)
		s2 := st.clone()
		e := Fresh("signerr", SErr)
		s2.assume(Not(Eq(e, NoErr)))
		r := Fresh("jwt", SStr)
		st.assume(Not(Eq(r, StrLit(""))))
		if c != nil && c.dyn != nil && c.val != nil {
			st.assume(Eq(UF("jwtclaims_"+typeName1(deref(c.dyn)), sortOf(deref(c.dyn)), r), x.claimsTerm(st, c)))
		}
		if m != nil && m.dyn != nil && strings.HasSuffix(typeName(deref(m.dyn)), "SigningMethodRSA") && key.dyn != nil && typeName(deref(key.dyn)) == "rsa.PrivateKey" {
			st.assume(UF("jwtsigned", SBool, r, x.abs(st, key.val, key.dyn)))
		}
		return append(x.ret(st, r, NoErr), x.ret(s2, StrLit(""), e)...)
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) claimsTerm(st *State, c *IfaceV) *T {
	if p, ok := c.val.(*PtrV); ok {
		return x.abs(st, x.loadPtr(st, p), p.elem)
	}
	return x.abs(st, c.val, c.dyn)
}

func (x *Exec) newToken(st *State, t types.Type) *PtrV {
	et := deref(t)
	o := st.alloc(et, x.freshVal(st, "jwttoken", et), "jwttoken")
	return &PtrV{nilc: False, obj: o.id, elem: et}
}

func (x *Exec) fieldStep(p *PtrV, name string) (int, types.Type) {
	u := p.elem.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i, u.Field(i).Type()
		}
	}
	panic(unsupported("field " + name))
}

func (x *Exec) setField(st *State, p *PtrV, name string, v Value) {
	i, t := x.fieldStep(p, name)
	q := *p
	q.path = append(append([]step{}, p.path...), step{field: i})
	q.elem = t
	x.storePtr(st, &q, v)
}

func (x *Exec) getField(st *State, p *PtrV, name string) Value {
	i, t := x.fieldStep(p, name)
	q := *p
	q.path = append(append([]step{}, p.path...), step{field: i})
	q.elem = t
	return x.loadPtr(st, &q)
}

func (x *Exec) jwtParse(st *State, skip *T, raw *T, claims, keyfn Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
	tt := fn.Signature.Results().At(0).Type()
	fail := func(s *State, p Value) []Outcome {
		e := Fresh("jwterr", SErr)
		s.assume(Not(Eq(e, NoErr)))
		s.assume(UF("iserrtype.jwt.ValidationError", SBool, e))
		return x.ret(s, p, e)
	}
	var outs []Outcome
	// the token cannot be taken apart: no token at all, or one that is not valid
	s0 := st.clone()
	outs = append(outs, fail(s0, nilPtr(deref(tt)))...)
	civ, _ := claims.(*IfaceV)
	if civ == nil || civ.dyn == nil {
		panic(unsupported("claims object of unknown type"))
	}
	cp, ok := civ.val.(*PtrV)
	if !ok {
		panic(unsupported("claims object that is not a pointer"))
	}
	ct := Fresh("jwtdecoded", sortOf(cp.elem))
	x.storePtr(st, cp, x.conc(st, ct, cp.elem))
	p := x.newToken(st, tt)
	x.setField(st, p, "Raw", raw)
	x.setField(st, p, "Claims", &IfaceV{nilc: civ.nilc, dyn: civ.dyn, val: civ.val, static: civ.static})
	x.setField(st, p, "Valid", False)
	s1 := st.clone()
	outs = append(outs, fail(s1, p)...)
	// taken apart: the signing method is a known one
	_, mt := x.fieldStep(p, "Method")
	mterm := Fresh("jwtmethod", SAny)
	x.setField(st, p, "Method", &IfaceV{nilc: False, opaque: mterm, static: mt})
	f, ok := keyfn.(*FuncV)
	if !ok || f.fn == nil {
		panic(unsupported("key function"))
	}
	for _, o := range x.callFn(st, fr, f.fn, []Value{p}, f.binds, ins) {
		if o.kind != RET {
			outs = append(outs, o)
			continue
		}
		s := o.st
		kerr := o.res[1].(*T)
		if kerr != NoErr {
			s2 := s.clone()
			s2.assume(Not(Eq(kerr, NoErr)))
			outs = append(outs, fail(s2, p)...)
		}
		s.assume(Eq(kerr, NoErr))
		// verification or claims validation fails
		s3 := s.clone()
		outs = append(outs, fail(s3, p)...)
		// success
		key := o.res[0].(*IfaceV)
		rsaT := types.NewPointer(x.w.pkgs[jwtPkg].Type("SigningMethodRSA").Type())
		isRSA := UF("is."+sanitize(typeName(rsaT)), SBool, mterm)
		if key.nilc == False && key.dyn != nil && typeName(deref(key.dyn)) == "rsa.PublicKey" {
			s.assume(Imp(isRSA, UF("jwtverified", SBool, raw, x.abs(s, key.val, key.dyn))))
		} else if key.nilc == False && key.dyn != nil {
			s.assume(Not(isRSA))
		}
		s.assume(Eq(UF("jwtclaims_"+typeName1(cp.elem), sortOf(cp.elem), raw), ct))
		if std := stdClaims(ct); std != nil {
			now := UF("unix", SInt, Const("ghost.NOW", USort("U_time.Time")))
			exp, nbf := fieldOf(std, "ExpiresAt"), fieldOf(std, "NotBefore")
			s.assume(Or(skip, And(Or(Eq(exp, Int(0)), Le(now, exp)), Or(Eq(nbf, Int(0)), Le(nbf, now)))))
		}
		x.setField(s, p, "Valid", True)
		outs = append(outs, x.ret(s, p, NoErr)...)
	}
	return outs
}

// stdClaims finds the embedded standard claims of a claims object.
func stdClaims(c *T) *T {
	if c.sort.Kind != KStruct {
		return nil
	}
	if c.sort.Name == "jwt.StandardClaims" {
		return c
	}
	for i, f := range c.sort.FSorts {
		if f.Name == "jwt.StandardClaims" {
			return Sel(i, c)
		}
	}
	return nil
}

func typeName1(t types.Type) string { return strings.ReplaceAll(sanitize(typeName(t)), ".", "_") }

// keyField: the public half of an RSA private key is a function of the key,
// which nothing changes once it is made.
func (x *Exec) keyField(st *State, c *T, p *PtrV, k int) (Value, bool) {
	if c.sort.Name != sortOf(p.elem).Name && k == 0 && typeName(st.heap[p.obj].typ) == "rsa.PrivateKey" && typeName(p.elem) == "rsa.PublicKey" {
		return UF("rsapublic", sortOf(p.elem), c), true
	}
	return nil, false
}

func init() {
	// The standard library's key encodings: what parses back is what was
	// encoded (rsapub(d), rsapriv(d): the keys that d encodes).
	models["crypto/x509.ParsePKIXPublicKey"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		d := x.abs(st, args[0], fn.Signature.Params().At(0).Type())
		e := Fresh("parseerr", SErr)
		s2 := st.clone()
		s2.assume(Not(Eq(e, NoErr)))
		k := UF("pkix", SAny, d)
		rt := fn.Signature.Results().At(0).Type()
		key := fn.Pkg.Prog.ImportedPackage("crypto/rsa").Type("PublicKey").Type()
		ks := Opt(sortOf(key))
		u := UF("unbox."+sanitize(typeName(types.NewPointer(key))), ks, k)
		st.assume(And(Eq(u, UF("rsapub", ks, d)), Not(IsNone(u))))
		return append(x.ret(st, &IfaceV{nilc: False, opaque: k, static: rt}, NoErr), x.ret(s2, x.zero(s2, rt), e)...)
	}
	models["crypto/x509.MarshalPKIXPublicKey"] = func(x *Exec, st *State, args []Value, fn *ssa.Function, ins ssa.Instruction, fr *Frame) []Outcome {
		key, ok := args[0].(*IfaceV)
		bt := fn.Signature.Results().At(0).Type()
		if !ok || key.dyn == nil || key.val == nil || typeName(deref(key.dyn)) != "rsa.PublicKey" {
			panic(unsupported(fn.String() + " of a key that is not *rsa.PublicKey"))
		}
		d := Fresh("pkixder", sortOf(bt))
		e := Fresh("marshalerr", SErr)
		kt := x.abs(st, key.val, key.dyn)
		st.assume(Or(Not(Eq(e, NoErr)), Eq(UF("rsapub", kt.sort, d), kt)))
		return x.ret(st, x.conc(st, d, bt), e)
	}
}
