package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Leaf is a scalar component of a type
type Leaf struct {
	Path string // e.g. ".data.0" or ".Items.1.Canonical"
	Sort Sort
	Type types.Type // the go type of the scalar (nil for components of slices)
	Kind leafKind
	Refs bool // a map to references
}

type leafKind int

const (
	kInt    leafKind = iota
	kBool            // booleans
	kStr             // strings
	kRef             // pointers, maps, channels, functions
	kIface           // interfaces
	kArr             // backing array of a slice
	kOff             // offset of a slice
	kLen             // length of a slice
	kCap             // capacity of a slice
	kOpaque          // anything else, as an uninterpreted sort
)

// Typer knows how go types are represented
type Typer struct {
	concreteID bool // identifiers are arrays of bytes (only when verifying the package that implements them)
	absBytes   bool // []byte is an immutable value (a string)
	cache      map[types.Type][]Leaf
	tpSorts    map[*types.TypeParam]Sort
	useSort    func(Sort)
	strTheory  bool
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		n := p.Path()
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n
	})
}

func fullName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// isNamed reports if t is the named type path.name
func namedPath(t types.Type) string {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		o := n.Origin().Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

const modPath = "github.com/FAU-CDI/hangover"

func isID(t types.Type) bool {
	return namedPath(t) == modPath+"/internal/triplestore/impl.ID"
}

// opaque types of other packages: they are a single value
func opaqueLeaf(t types.Type) (Leaf, bool) {
	switch namedPath(t) {
	case "sync/atomic.Bool":
		return Leaf{Path: ".$v", Sort: SBool, Kind: kBool, Type: types.Typ[types.Bool]}, true
	case "sync/atomic.Int64", "sync/atomic.Int32", "sync/atomic.Uint64", "math/big.Int":
		return Leaf{Path: ".$v", Sort: SInt, Kind: kInt, Type: types.Typ[types.Int]}, true
	case "sync.Once":
		return Leaf{Path: ".$done", Sort: SBool, Kind: kBool, Type: types.Typ[types.Bool]}, true
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
		return Leaf{Path: ".$lock", Sort: SInt, Kind: kInt, Type: types.Typ[types.Int]}, true
	case "strings.Builder", "bytes.Buffer":
		return Leaf{Path: ".$content", Sort: SStr, Kind: kStr, Type: types.Typ[types.String]}, true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return Leaf{}, false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return Leaf{}, false
	}
	pkg := n.Obj().Pkg()
	if namedPath(n) == "net/http.Request" {
		return Leaf{}, false
	}
	if pkg != nil && !strings.HasPrefix(pkg.Path(), modPath) && !transparentPkg(pkg.Path()) {
		return Leaf{Path: ".$opaque", Sort: "Opq", Kind: kOpaque, Type: t}, true
	}
	return Leaf{}, false
}

// transparentPkg reports packages outside of the repository whose structs are not opaque
func transparentPkg(path string) bool {
	switch path {
	case "github.com/FAU-CDI/drincw/pathbuilder", "github.com/anglo-korean/rdf", "golang.org/x/net/html", "net/url", "github.com/cayleygraph/quad":
		return true
	}
	return false
}

func (ty *Typer) strSort() Sort {
	if ty.strTheory {
		return "String"
	}
	return SStr
}

// Leaves returns the scalar components of a type
func (ty *Typer) Leaves(t types.Type) []Leaf {
	if l, ok := ty.cache[t]; ok {
		return l
	}
	l := ty.leaves(t)
	ty.cache[t] = l
	return l
}

func prefix(ls []Leaf, p string) []Leaf {
	out := make([]Leaf, len(ls))
	for i, l := range ls {
		l.Path = p + l.Path
		out[i] = l
	}
	return out
}

func (ty *Typer) leaves(t types.Type) []Leaf {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		s, ok := ty.tpSorts[tp]
		if !ok {
			s = "TP_" + sanitize(tp.Obj().Name())
			ty.tpSorts[tp] = s
		}
		ty.useSort(s)
		return []Leaf{{Sort: s, Kind: kOpaque, Type: t}}
	}
	if !ty.concreteID && isID(t) {
		return []Leaf{{Sort: SInt, Kind: kInt, Type: t}}
	}
	if l, ok := opaqueLeaf(t); ok {
		if l.Kind == kStr {
			l.Sort = ty.strSort()
		}
		return []Leaf{l}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{Sort: SInt, Kind: kInt, Type: t}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{Sort: SBool, Kind: kBool, Type: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{Sort: ty.strSort(), Kind: kStr, Type: t}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Leaf{{Sort: SInt, Kind: kRef, Type: t}}
		}
		return []Leaf{{Sort: "Opq", Kind: kOpaque, Type: t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{Sort: SInt, Kind: kRef, Type: t}}
	case *types.Interface:
		return []Leaf{{Sort: SInt, Kind: kIface, Type: t}}
	case *types.Slice:
		if ty.absBytes && isByteSlice(t) {
			return []Leaf{{Sort: ty.strSort(), Kind: kStr, Type: t}}
		}
		return []Leaf{
			{Path: ".$arr", Sort: SInt, Kind: kArr},
			{Path: ".$off", Sort: SInt, Kind: kOff},
			{Path: ".$len", Sort: SInt, Kind: kLen},
			{Path: ".$cap", Sort: SInt, Kind: kCap},
		}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, prefix(ty.Leaves(u.Field(i).Type()), "."+u.Field(i).Name())...)
		}
		return out
	case *types.Array:
		if u.Len() > 16 {
			panic(unsupported{fmt.Sprintf("array of length %d", u.Len())})
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, prefix(ty.Leaves(u.Elem()), fmt.Sprintf(".%d", i))...)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, prefix(ty.Leaves(u.At(i).Type()), fmt.Sprintf(".%d", i))...)
		}
		return out
	}
	panic(unsupported{"type " + t.String()})
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// unsupported is panicked with when the code leaves the verified subset.
type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }

// isAggregate reports if values of this type are made from several components
func (ty *Typer) structFields(t types.Type) (names []string, tps []types.Type, ok bool) {
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		return nil, nil, false
	}
	if !ty.concreteID && isID(t) {
		return nil, nil, false
	}
	if _, o := opaqueLeaf(t); o {
		return nil, nil, false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			tps = append(tps, u.Field(i).Type())
		}
		return names, tps, true
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			names = append(names, fmt.Sprint(i))
			tps = append(tps, u.Elem())
		}
		return names, tps, true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			names = append(names, fmt.Sprint(i))
			tps = append(tps, u.At(i).Type())
		}
		return names, tps, true
	}
	return nil, nil, false
}

// intRange returns the bounds of an integer type (nil if the type is treated as mathematical integer without bounds)
func intRange(t types.Type) (lo, hi string) {
	if t == nil {
		return "", ""
	}
	if isID(t) {
		return "0", "4294967295"
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", ""
	}
	switch b.Kind() {
	case types.Uint8:
		return "0", "255"
	case types.Int8:
		return "(- 128)", "127"
	case types.Uint16:
		return "0", "65535"
	case types.Int16:
		return "(- 32768)", "32767"
	case types.Uint32:
		return "0", "4294967295"
	case types.Int32:
		return "(- 2147483648)", "2147483647"
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615"
	case types.Int, types.Int64:
		return "(- 9223372036854775808)", "9223372036854775807"
	}
	return "", ""
}

// wraps returns the modulus of narrow unsigned types, where arithmetic is computed modulo 2^n.
func wraps(t types.Type) (mod int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 256, true
	case types.Uint16:
		return 65536, true
	case types.Uint32:
		return 4294967296, true
	}
	return 0, false
}
