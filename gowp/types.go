package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modPath = "github.com/netauth/netauth/"
const protoPath = "github.com/netauth/protocol"

func isRepoPkg(p *types.Package) bool {
	if p == nil {
		return false
	}
	return strings.HasPrefix(p.Path(), "github.com/netauth/")
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		if strings.HasPrefix(o.Pkg().Path(), protoPath) {
			return o.Name()
		}
		return o.Pkg().Name() + "." + o.Name()
	}
	return sanitize(t.String())
}

// keepField tells whether a struct field is part of the modelled value.
func keepField(f *types.Var) bool {
	return !strings.HasPrefix(f.Name(), "XXX_")
}

var sortCache = map[string]*Sort{}

// goSorts maps spec-visible names to sorts.
func sortOf(t types.Type) *Sort {
	key := types.TypeString(t, nil)
	if s, ok := sortCache[key]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[key] = s
	return s
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/the-maldridge/bsfilter" {
		return n.Obj().Name() != "Symbol"
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/golang-jwt/jwt/v4" || strings.Contains(key0(n), "dgrijalva/jwt-go") {
		return !(n.Obj().Name() == "StandardClaims" || n.Obj().Name() == "Token" || n.Obj().Name() == "Parser")
	}
	if k := key0(n); strings.HasSuffix(k, "blevesearch/bleve") && n.Obj().Name() == "SearchResult" || strings.HasSuffix(k, "blevesearch/bleve/search") && n.Obj().Name() == "DocumentMatch" {
		return false
	}
	if key0(n) == "encoding/pem" {
		return false
	}
	return !isRepoPkg(n.Obj().Pkg())
}

func key0(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

func sortOf1(t types.Type) *Sort {
	if isError(t) {
		return SErr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SAny
	case *types.Pointer:
		return Opt(sortOf(u.Elem()))
	case *types.Slice:
		if isByteSlice(t) {
			return SBytes
		}
		return Seq(sortOf(u.Elem()))
	case *types.Array:
		return Seq(sortOf(u.Elem()))
	case *types.Chan:
		// a channel to receive from: the elements it delivers until it is closed
		if u.Dir() == types.RecvOnly || u.Dir() == types.SendRecv {
			return Seq(sortOf(u.Elem()))
		}
	case *types.Map:
		return MapS(sortOf(u.Key()), sortOf(u.Elem()))
	case *types.Struct:
		if isOpaqueStruct(t) {
			return USort("U_" + sanitize(typeName(t)))
		}
		name := typeName(t)
		if _, ok := t.(*types.Named); !ok {
			if u.NumFields() == 0 {
				name = "Empty"
			} else {
				name = "anon_" + sanitize(t.String())
			}
		}
		name = sanitize(name)
		if o, ok := sortTab[name]; ok && o.Kind == KStruct {
			return o
		}
		s := &Sort{Kind: KStruct, Name: name}
		sortCache[types.TypeString(t, nil)] = s
		sortTab[name] = s
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !keepField(f) {
				continue
			}
			s.Fields = append(s.Fields, f.Name())
			s.FSorts = append(s.FSorts, sortOf(f.Type()))
		}
		return s
	}
	return SAny
}

// default ("zero") value of a sort for nil-safe access in specifications.
func zeroTerm(s *Sort) *T {
	switch s.Kind {
	case KBool:
		return False
	case KInt:
		return Int(0)
	case KOpt:
		return None(s.Elem)
	case KSeq:
		return EmptySeq(s.Elem)
	case KMap:
		return EmptyMap(s.Key, s.Val)
	case KStruct:
		var fs []*T
		for _, f := range s.FSorts {
			fs = append(fs, zeroTerm(f))
		}
		return MkStruct(s, fs...)
	}
	switch s {
	case SStr:
		return StrLit("")
	case SErr:
		return NoErr
	}
	return Const("zero."+s.Name, s)
}

// shortFn gives "rpc2.Server.EntityCreate" style names with full package path.
func shortPath(p string) string {
	return strings.TrimPrefix(p, modPath)
}

func fmtT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var _ = fmt.Sprint
