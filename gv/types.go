package main

import (
	"fmt"
	"go/types"
	"strings"
)

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}
func isRat(t types.Type) bool    { return isNamed(t, "math/big", "Rat") }
func isBigInt(t types.Type) bool { return isNamed(t, "math/big", "Int") }
func isBuf(t types.Type) bool {
	return isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder")
}

const repoPrefix = "github.com/mescanne/goledger"

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if isRat(t) {
		return "Rat"
	}
	if isBigInt(t) {
		return "BigInt"
	}
	if isBuf(t) {
		return "Buf"
	}
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() == nil {
			return u.Obj().Name()
		}
		// named basic types share the representation of their basic type
		switch u.Underlying().(type) {
		case *types.Struct:
			n := u.Obj().Pkg().Name() + "." + u.Obj().Name()
			if u.Obj().Parent() != u.Obj().Pkg().Scope() { // local type
				n += fmt.Sprintf("_%d", int(u.Obj().Pos()))
			}
			return n
		}
		return typeKey(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsFloat != 0:
			return "float64"
		}
		return u.Name()
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i).Name()+":"+typeKey(u.Field(i).Type()))
		}
		return "struct{" + strings.Join(fs, ",") + "}"
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.TypeParam:
		return "tparam"
	}
	return "opq"
}

func repoStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		_, isS := t.Underlying().(*types.Struct)
		return isS
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix)
}

var sliceDT = regDT(SSlice, []DField{{Acc: "sref", Sort: SInt}, {Acc: "soff", Sort: SInt}, {Acc: "slen", Sort: SInt}, {Acc: "scap", Sort: SInt}})

func sortOf(t types.Type) Sort {
	if isRat(t) {
		return SReal
	}
	if isBigInt(t) {
		return SInt
	}
	if isBuf(t) {
		return SStr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsFloat != 0:
			return SReal
		}
		return SOpq
	case *types.Pointer, *types.Map:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Struct:
		if !repoStruct(t) {
			return SOpq
		}
		return structDT(t).Name
	case *types.Array:
		return arrayDT(u).Name
	case *types.Interface:
		return SIface
	}
	return SOpq
}

func structDT(t types.Type) *DType {
	k := "S_" + sanit(typeKey(t))
	if d, ok := dtypes[k]; ok {
		return d
	}
	st := t.Underlying().(*types.Struct)
	var fs []DField
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, DField{Acc: k + "." + st.Field(i).Name(), Sort: sortOf(st.Field(i).Type())})
	}
	if len(fs) == 0 {
		fs = []DField{{Acc: k + ".dummy", Sort: SInt}}
	}
	return regDT(k, fs)
}
func arrayDT(a *types.Array) *DType {
	k := fmt.Sprintf("A%d_%s", a.Len(), sanit(typeKey(a.Elem())))
	if d, ok := dtypes[k]; ok {
		return d
	}
	var fs []DField
	s := sortOf(a.Elem())
	for i := 0; i < int(a.Len()); i++ {
		fs = append(fs, DField{Acc: fmt.Sprintf("%s.%d", k, i), Sort: s})
	}
	if len(fs) == 0 {
		fs = []DField{{Acc: k + ".dummy", Sort: SInt}}
	}
	return regDT(k, fs)
}

func zeroTerm(t types.Type) *Term {
	if isRat(t) {
		return mk("%0", SReal)
	}
	if isBigInt(t) {
		return intT(0)
	}
	if isBuf(t) {
		return strLit("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SInt:
			return intT(0)
		case SStr:
			return strLit("")
		case SBool:
			return tFalse
		case SReal:
			return mk("%0", SReal)
		}
		return namedConst("opq_nil", SOpq)
	case *types.Pointer, *types.Map:
		return intT(0)
	case *types.Slice:
		return Ctor(sliceDT, intT(0), intT(0), intT(0), intT(0))
	case *types.Struct:
		if !repoStruct(t) {
			return namedConst("opq_zero", SOpq)
		}
		d := structDT(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		if u.NumFields() == 0 {
			as = []*Term{intT(0)}
		}
		return Ctor(d, as...)
	case *types.Array:
		d := arrayDT(u)
		var as []*Term
		for range d.Fields {
			as = append(as, zeroTerm(u.Elem()))
		}
		return Ctor(d, as...)
	case *types.Interface:
		return nilIface()
	}
	return namedConst("opq_nil", SOpq)
}
func nilIface() *Term { return namedConst("iface_nil", SIface) }

// heap component names
func memComp(t types.Type) string {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "mem:" + typeKey(t) // not the array of its elements
	}
	return typeKey(t)
}
func arrComp(elem types.Type) string {
	return "[]" + typeKey(elem)
}
func mapDComp(m *types.Map) string { return "dom:" + typeKey(m) }
func mapVComp(m *types.Map) string { return "map:" + typeKey(m) }

var compSort = map[string]Sort{}

func memC(t types.Type) string {
	c := memComp(t)
	compSort[c] = arrSort(SInt, sortOf(t))
	return c
}
func arrC(elem types.Type) string {
	c := arrComp(elem)
	compSort[c] = arrSort(SInt, arrSort(SInt, sortOf(elem)))
	return c
}
func mapC(m *types.Map) (string, string) {
	d, v := mapDComp(m), mapVComp(m)
	k := sortOf(m.Key())
	compSort[d] = arrSort(SInt, arrSort(k, SBool))
	compSort[v] = arrSort(SInt, arrSort(k, sortOf(m.Elem())))
	return d, v
}
