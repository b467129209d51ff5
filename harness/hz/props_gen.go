package hz

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/RomiChan/protobuf/proto"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/encoding/protowire"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"
)

// The plugin, as a binary.

func pluginPath() string {
	exe, err := os.Executable()
	must(err)
	return filepath.Join(filepath.Dir(exe), "protoc-gen-golite")
}

var errPlugin = errors.New("plugin failed")

// runPlugin gives the files of the response, in order.
func runPlugin(req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, []byte, error) {
	return runPluginIn(req, "", nil)
}

// elsewhere is an environment which has nothing in common with the usual one.
var elsewhere = []string{"HOME=/nonexistent", "USER=nobody", "PWD=/", "TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "GOMAXPROCS=1", "GOPATH=/nonexistent", "GOGC=10"}

func runPluginIn(req *pluginpb.CodeGeneratorRequest, dir string, env []string) (*pluginpb.CodeGeneratorResponse, []byte, error) {
	in, err := pb.MarshalOptions{Deterministic: true}.Marshal(req)
	must(err)
	cmd := exec.Command(pluginPath())
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir, cmd.Env = dir, env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	waiting.Store(true)
	err = cmd.Run()
	waiting.Store(false)
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		must(err)
	}
	if err != nil {
		if ee.Sys().(syscall.WaitStatus).Signaled() && ee.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL {
			must(err)
		}
		return nil, nil, fmt.Errorf("%w: %v: %.1500s", errPlugin, err, errb.String())
	}
	r := &pluginpb.CodeGeneratorResponse{}
	if err := pb.Unmarshal(out.Bytes(), r); err != nil {
		return nil, nil, fmt.Errorf("%w: response: %v", errPlugin, err)
	}
	if r.Error != nil {
		return r, out.Bytes(), fmt.Errorf("%w: %s", errPlugin, r.GetError())
	}
	return r, out.Bytes(), nil
}

// genSet is a set of files with what protogen (the plugin framework of
// google.golang.org/protobuf) says about names.
type genSet struct {
	ps   *ProtoSet
	gen  *protogen.Plugin
	file map[string]*protogen.File
	msgs map[protoreflect.FullName]*protogen.Message
	enum map[protoreflect.FullName]*protogen.Enum
	all  []*protogen.Message
}

func newGenSet(ps *ProtoSet) (*genSet, error) {
	if _, err := ps.registry(); err != nil {
		return nil, err
	}
	// the framework takes parameters of its own only
	gen, err := (protogen.Options{}).New(ps.request(ps.paths()))
	if err != nil {
		return nil, err
	}
	g := &genSet{ps: ps, gen: gen, file: map[string]*protogen.File{}, msgs: map[protoreflect.FullName]*protogen.Message{}, enum: map[protoreflect.FullName]*protogen.Enum{}}
	var walk func(ms []*protogen.Message)
	enums := func(es []*protogen.Enum) {
		for _, e := range es {
			g.enum[e.Desc.FullName()] = e
		}
	}
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			g.msgs[m.Desc.FullName()] = m
			g.all = append(g.all, m)
			enums(m.Enums)
			walk(m.Messages)
		}
	}
	for _, f := range gen.Files {
		g.file[f.Desc.Path()] = f
		enums(f.Enums)
		walk(f.Messages)
	}
	return g, nil
}

func realOneof(o *protogen.Oneof) bool { return o != nil && !o.Desc.IsSynthetic() }

// idents gives the exported Go names which a file declares.
func (g *genSet) idents(f *protogen.File) (types, consts []string) {
	enums := func(es []*protogen.Enum) {
		for _, e := range es {
			types = append(types, e.GoIdent.GoName)
			for _, v := range e.Values {
				consts = append(consts, v.GoIdent.GoName)
			}
		}
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			types = append(types, m.GoIdent.GoName)
			for _, x := range m.Fields {
				if realOneof(x.Oneof) {
					types = append(types, x.GoIdent.GoName)
				}
			}
			enums(m.Enums)
			walk(m.Messages)
		}
	}
	enums(f.Enums)
	walk(f.Messages)
	return
}

// clash says whether two declarations have the same Go name, which .proto
// files allow and Go does not.
func (g *genSet) clash() bool {
	seen := map[string]bool{}
	add := func(path protogen.GoImportPath, n string) bool {
		k := string(path) + "." + n
		if seen[k] {
			return true
		}
		seen[k] = true
		return false
	}
	// protogen does not keep the getter of a oneof from having the name of a
	// field
	for _, m := range g.all {
		in := map[string]bool{}
		for _, f := range m.Fields {
			var ns []string
			if realOneof(f.Oneof) {
				ns = append(ns, "Get"+f.GoName)
				if f.Oneof.Fields[0] == f {
					ns = append(ns, f.Oneof.GoName, "Get"+f.Oneof.GoName)
				}
			} else {
				ns = append(ns, f.GoName)
			}
			for _, n := range ns {
				if in[n] {
					return true
				}
				in[n] = true
			}
		}
	}
	for _, f := range g.gen.Files {
		ts, cs := g.idents(f)
		fs, fc := g.forwards(f)
		for _, l := range [][]string{ts, cs, fs, fc} {
			for _, n := range l {
				if add(f.GoImportPath, n) {
					return true
				}
			}
		}
	}
	return false
}

// forwards gives the names which a file forwards for its public imports.
func (g *genSet) forwards(f *protogen.File) (types, consts []string) {
	for i := 0; i < f.Desc.Imports().Len(); i++ {
		imp := f.Desc.Imports().Get(i)
		if !imp.IsPublic {
			continue
		}
		d := g.file[imp.Path()]
		if d.GoImportPath == f.GoImportPath {
			continue
		}
		ts, cs := g.idents(d)
		types, consts = append(types, ts...), append(consts, cs...)
	}
	return
}

// goKind is the Go type of a scalar.
func goKind(k Kind) string { return plainTypes[k].String() }

func qual(id protogen.GoIdent) string { return string(id.GoImportPath) + "." + id.GoName }

const optionPath = "github.com/RomiChan/protobuf/proto.Option"

// wantType is the Go type of a field, or of a member of a oneof.
func wantType(f *protogen.Field, member bool) string {
	elem := func(f *protogen.Field) string {
		switch k := kindOfDesc[f.Desc.Kind()]; k {
		case KMessage:
			return "*" + qual(f.Message.GoIdent)
		default:
			return goKind(k)
		}
	}
	switch {
	case f.Desc.IsMap():
		return "map[" + elem(f.Message.Fields[0]) + "]" + elem(f.Message.Fields[1])
	case f.Desc.IsList():
		return "[]" + elem(f)
	}
	k := kindOfDesc[f.Desc.Kind()]
	if !member && f.Desc.HasPresence() && k != KMessage && k != KBytes {
		return optionPath + "[" + elem(f) + "]"
	}
	return elem(f)
}

// typeStr writes a type without aliases.
func typeStr(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + typeStr(t.Elem())
	case *types.Slice:
		return "[]" + typeStr(t.Elem())
	case *types.Map:
		return "map[" + typeStr(t.Key()) + "]" + typeStr(t.Elem())
	case *types.Basic:
		return types.Typ[t.Kind()].Name()
	case *types.Named:
		s := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			s = p.Path() + "." + s
		}
		if a := t.TypeArgs(); a.Len() > 0 {
			var as []string
			for i := 0; i < a.Len(); i++ {
				as = append(as, typeStr(a.At(i)))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	default:
		return types.TypeString(t, nil)
	}
}

// tagErr checks the parts of a tag which have a meaning.
func tagErr(tag string, k Kind, num int, label string) string {
	parts := strings.Split(tag, ",")
	want := []string{k.tagName(), fmt.Sprint(num), label}
	for i, w := range want {
		if i >= len(parts) || parts[i] != w {
			return fmt.Sprintf("tag is %q, want %q", tag, strings.Join(want, ","))
		}
	}
	return ""
}

func label(f *protogen.Field) string {
	switch f.Desc.Cardinality() {
	case protoreflect.Required:
		return "req"
	case protoreflect.Repeated:
		return "rep"
	}
	return "opt"
}

func fieldTagErr(f *protogen.Field, tag reflect.StructTag) string {
	t, ok := tag.Lookup("protobuf")
	if !ok {
		return "no protobuf tag"
	}
	num := int(f.Desc.Number())
	if f.Desc.IsMap() {
		if e := tagErr(t, KBytes, num, "rep"); e != "" {
			return e
		}
		kt, _ := tag.Lookup("protobuf_key")
		vt, _ := tag.Lookup("protobuf_val")
		if e := tagErr(kt, kindOfDesc[f.Message.Fields[0].Desc.Kind()], 1, "opt"); e != "" {
			return "key: " + e
		}
		if e := tagErr(vt, kindOfDesc[f.Message.Fields[1].Desc.Kind()], 2, "opt"); e != "" {
			return "value: " + e
		}
		return ""
	}
	return tagErr(t, kindOfDesc[f.Desc.Kind()], num, label(f))
}

// Type checking of generated code, with the proto package of the repository.

var exportsOnce sync.Once
var exports map[string]string

func exportFile(path string) (io.ReadCloser, error) {
	exportsOnce.Do(func() {
		exports = map[string]string{}
		cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}", "./proto")
		cmd.Dir = repoPath()
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		var errb bytes.Buffer
		cmd.Stderr = &errb
		waiting.Store(true)
		out, err := cmd.Output()
		waiting.Store(false)
		if err != nil {
			must(fmt.Errorf("go list: %v %s", err, errb.String()))
		}
		for _, l := range strings.Split(string(out), "\n") {
			if a, b, ok := strings.Cut(l, "="); ok {
				exports[a] = b
			}
		}
	})
	f, ok := exports[path]
	if !ok {
		return nil, fmt.Errorf("no export data of %s", path)
	}
	return os.Open(f)
}

func repoPath() string {
	if r := os.Getenv("HZ_REPO"); r != "" {
		return r
	}
	return "/repo"
}

var sharedFset = token.NewFileSet()
var gcImporter = importer.ForCompiler(sharedFset, "gc", exportFile)

// checker type checks the packages of a set on demand.
type checker struct {
	g     *genSet
	files map[string]string // content by path of the .proto file
	done  map[string]*types.Package
	err   error
}

func (c *checker) Import(path string) (*types.Package, error) {
	if p, ok := c.done[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return p, nil
	}
	var fs []*ast.File
	fset := token.NewFileSet()
	for _, f := range c.g.gen.Files {
		if string(f.GoImportPath) != path {
			continue
		}
		src, ok := c.files[f.Desc.Path()]
		if !ok {
			continue
		}
		a, err := parser.ParseFile(fset, f.Desc.Path(), src, parser.SkipObjectResolution)
		if err != nil {
			return nil, fmt.Errorf("generated code for %s: %v", f.Desc.Path(), err)
		}
		if a.Name.Name != string(f.GoPackageName) {
			return nil, fmt.Errorf("package of %s is %s, want %s", f.Desc.Path(), a.Name.Name, f.GoPackageName)
		}
		fs = append(fs, a)
	}
	if fs == nil {
		return gcImporter.Import(path)
	}
	c.done[path] = nil
	conf := types.Config{Importer: c}
	p, err := conf.Check(path, fset, fs, nil)
	if err != nil {
		return nil, fmt.Errorf("generated code does not compile: %v", err)
	}
	c.done[path] = p
	return p, nil
}

// sources names the files of a response by their .proto files, checking that
// there is one for each file requested.
func (g *genSet) sources(r *pluginpb.CodeGeneratorResponse, requested []string) (map[string]string, error) {
	byName := map[string]string{}
	for _, f := range r.File {
		if _, dup := byName[f.GetName()]; dup {
			return nil, fmt.Errorf("the response has two files %s", f.GetName())
		}
		byName[f.GetName()] = f.GetContent()
	}
	module, annotate := "", false
	for _, p := range strings.Split(g.ps.Param, ",") {
		if m, ok := strings.CutPrefix(p, "module="); ok {
			module = m + "/"
		}
		if p == "annotate_code" || p == "annotate_code=true" {
			annotate = true
		}
	}
	out := map[string]string{}
	for _, p := range requested {
		name := strings.TrimPrefix(g.file[p].GeneratedFilenamePrefix+".pb.go", module)
		src, ok := byName[name]
		if !ok {
			var have []string
			for n := range byName {
				have = append(have, n)
			}
			sort.Strings(have)
			return nil, fmt.Errorf("no file %s for %s in the response, which has %v", name, p, have)
		}
		out[p] = src
		delete(byName, name)
		if meta, ok := byName[name+".meta"]; annotate && !ok {
			return nil, fmt.Errorf("no annotations for %s in the response", name)
		} else if annotate {
			if err := g.annotated(g.file[p], src, meta); err != nil {
				return nil, fmt.Errorf("annotations of %s: %v", name, err)
			}
			delete(byName, name+".meta")
		}
	}
	for n := range byName {
		return nil, fmt.Errorf("file %s was not asked for", n)
	}
	return out, nil
}

// annotated checks the annotations of a file: each points from a Go name to
// the declaration it stands for, and each declaration has one.
func (g *genSet) annotated(f *protogen.File, src, meta string) error {
	info := &descriptorpb.GeneratedCodeInfo{}
	if err := prototext.Unmarshal([]byte(meta), info); err != nil {
		return err
	}
	type decl struct {
		names []string // Go names which may stand for it
		must  string
		found bool
	}
	all := map[string]*decl{}
	add := func(l protogen.Location, must string, names ...string) {
		all[fmt.Sprint([]int32(l.Path))] = &decl{names: names, must: must}
	}
	enums := func(es []*protogen.Enum) {
		for _, e := range es {
			add(e.Location, e.GoIdent.GoName)
			for _, v := range e.Values {
				add(v.Location, v.GoIdent.GoName)
			}
		}
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			add(m.Location, m.GoIdent.GoName)
			for _, o := range m.Oneofs {
				if realOneof(o) {
					add(o.Location, o.GoName, "Get"+o.GoName, "is"+o.GoIdent.GoName)
				}
			}
			for _, x := range m.Fields {
				if realOneof(x.Oneof) {
					add(x.Location, x.GoName, x.GoIdent.GoName, "Get"+x.GoName)
				} else {
					add(x.Location, x.GoName)
				}
			}
			enums(m.Enums)
			walk(m.Messages)
		}
	}
	enums(f.Enums)
	walk(f.Messages)
	for _, a := range info.Annotation {
		k := fmt.Sprint(a.Path)
		d, ok := all[k]
		if !ok {
			return fmt.Errorf("one for path %s, which declares nothing", k)
		}
		if a.GetSourceFile() != f.Desc.Path() {
			return fmt.Errorf("path %s: source file is %s", k, a.GetSourceFile())
		}
		if a.GetBegin() < 0 || a.GetBegin() > a.GetEnd() || int(a.GetEnd()) > len(src) {
			return fmt.Errorf("path %s: range %d-%d", k, a.GetBegin(), a.GetEnd())
		}
		name := src[a.GetBegin():a.GetEnd()]
		if name == d.must {
			d.found = true
			continue
		}
		for _, n := range d.names {
			ok = ok && n != name
		}
		if ok {
			return fmt.Errorf("%.40q stands for path %s, which is %s", name, k, d.must)
		}
	}
	for k, d := range all {
		if !d.found {
			return fmt.Errorf("none for %s (path %s)", d.must, k)
		}
	}
	return nil
}

func (g *genSet) generate(requested []string) (map[string]string, []byte, error) {
	r, raw, err := runPlugin(g.ps.request(requested))
	if err != nil {
		return nil, nil, err
	}
	src, err := g.sources(r, requested)
	return src, raw, err
}

// checkAll type checks all packages.
func (g *genSet) checkAll(src map[string]string) (map[string]*types.Package, error) {
	c := &checker{g: g, files: src, done: map[string]*types.Package{}}
	for _, f := range g.gen.Files {
		if _, ok := src[f.Desc.Path()]; !ok {
			continue
		}
		if _, err := c.Import(string(f.GoImportPath)); err != nil {
			return nil, err
		}
	}
	return c.done, nil
}

func (g *genSet) structOf(ps map[string]*types.Package, id protogen.GoIdent) (*types.TypeName, *types.Struct, error) {
	o := ps[string(id.GoImportPath)].Scope().Lookup(id.GoName)
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil, nil, fmt.Errorf("%s is not declared", qual(id))
	}
	st, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("%s is %s, want a struct", qual(id), tn.Type().Underlying())
	}
	if tn.IsAlias() {
		return nil, nil, fmt.Errorf("%s is an alias", qual(id))
	}
	return tn, st, nil
}

// declared compares the structs and enums with the descriptors.
// tracked reports whether the message asks for field tracking.
func tracked(m *protogen.Message) (on bool) {
	b := []byte(m.Desc.Options().ProtoReflect().GetUnknown())
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return
		}
		b = b[n:]
		if num == 37383685 && typ == protowire.VarintType {
			v, _ := protowire.ConsumeVarint(b)
			on = v != 0
		}
		if n = protowire.ConsumeFieldValue(num, typ, b); n < 0 {
			return
		}
		b = b[n:]
	}
	return
}

// sealed reports whether only types of one package implement the interface.
func sealed(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return true
		}
	}
	return false
}

func (g *genSet) declared(ps map[string]*types.Package) error {
	for _, m := range g.all {
		_, st, err := g.structOf(ps, m.GoIdent)
		if err != nil {
			return err
		}
		byName := map[string]int{}
		extra := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			byName[st.Field(i).Name()] = i
			if _, ok := reflect.StructTag(st.Tag(i)).Lookup("protobuf"); ok {
				extra[st.Field(i).Name()] = true
			}
		}
		for _, f := range m.Fields {
			at := func(e string, a ...any) error {
				return fmt.Errorf("%s (%s): %s", f.Desc.FullName(), fieldDecl(f), fmt.Sprintf(e, a...))
			}
			if realOneof(f.Oneof) {
				_, w, err := g.structOf(ps, f.GoIdent)
				if err != nil {
					return at("wrapper: %v", err)
				}
				if w.NumFields() < 1 || w.Field(0).Name() != f.GoName {
					return at("wrapper has no field %s", f.GoName)
				}
				if got, want := typeStr(w.Field(0).Type()), wantType(f, true); got != want {
					return at("wrapper holds %s, want %s", got, want)
				}
				if e := fieldTagErr(f, reflect.StructTag(w.Tag(0))); e != "" {
					return at("wrapper: %s", e)
				}
				if got := reflect.StructTag(w.Tag(0)).Get("go") == "track"; got != tracked(m) {
					return at("wrapper: field tracking is %v, want %v", got, !got)
				}
				if i, ok := byName[f.Oneof.GoName]; !ok {
					return at("no field %s for the oneof", f.Oneof.GoName)
				} else if got := reflect.StructTag(st.Tag(i)).Get("protobuf_oneof"); got != string(f.Oneof.Desc.Name()) {
					return at("oneof tag is %q", got)
				} else if got := reflect.StructTag(st.Tag(i)).Get("go") == "track"; got != tracked(m) {
					return at("oneof: field tracking is %v, want %v", got, !got)
				} else if it, ok := st.Field(i).Type().Underlying().(*types.Interface); !ok {
					return at("the oneof has type %s, not an interface", typeStr(st.Field(i).Type()))
				} else if !sealed(it) {
					return at("types of other packages can implement %s", typeStr(st.Field(i).Type()))
				}
				continue
			}
			i, ok := byName[f.GoName]
			if !ok {
				return at("no field %s in %s", f.GoName, m.GoIdent.GoName)
			}
			delete(extra, f.GoName)
			if got, want := typeStr(st.Field(i).Type()), wantType(f, false); got != want {
				return at("Go type is %s, want %s", got, want)
			}
			if e := fieldTagErr(f, reflect.StructTag(st.Tag(i))); e != "" {
				return at("%s", e)
			}
			if got := reflect.StructTag(st.Tag(i)).Get("go") == "track"; got != tracked(m) {
				return at("field tracking is %v, want %v", got, !got)
			}
		}
		for n := range extra {
			return fmt.Errorf("%s has a field %s which is not declared", m.Desc.FullName(), n)
		}
	}
	for _, e := range g.enum {
		scope := ps[string(e.GoIdent.GoImportPath)].Scope()
		if t, ok := scope.Lookup(e.GoIdent.GoName).(*types.TypeName); !ok || typeStr(t.Type().Underlying()) != "int32" {
			return fmt.Errorf("enum %s is not declared as int32", e.Desc.FullName())
		}
		for _, v := range e.Values {
			c, ok := scope.Lookup(v.GoIdent.GoName).(*types.Const)
			if !ok {
				return fmt.Errorf("enum value %s is not declared", v.Desc.FullName())
			}
			if n, ok := constant.Int64Val(c.Val()); !ok || n != int64(v.Desc.Number()) {
				return fmt.Errorf("enum value %s is %s, want %d", v.Desc.FullName(), c.Val(), v.Desc.Number())
			}
			if typeStr(c.Type().Underlying()) != "int32" {
				return fmt.Errorf("enum value %s has type %s", v.Desc.FullName(), c.Type())
			}
		}
	}
	return nil
}

func fieldDecl(f *protogen.Field) string {
	s := f.Desc.Kind().String()
	if f.Desc.IsMap() {
		s = fmt.Sprintf("map<%s,%s>", f.Desc.MapKey().Kind(), f.Desc.MapValue().Kind())
	}
	if f.Desc.IsList() {
		s = "repeated " + s
	}
	if f.Desc.HasPresence() {
		s += ", presence"
	}
	return s
}

// Schemas of generated types.

type genSchema1 struct {
	*Schema
	full     []protoreflect.FullName
	implicit [][]bool // bytes without presence
	index    map[protoreflect.FullName]int
}

// schema describes the message types reachable from a message.
func (g *genSet) schema(root protoreflect.FullName) *genSchema1 {
	s := &genSchema1{Schema: &Schema{}, index: map[protoreflect.FullName]int{}}
	c := &canonFile{}
	var add func(m *protogen.Message) int
	add = func(m *protogen.Message) int {
		if i, ok := s.index[m.Desc.FullName()]; ok {
			return i
		}
		i := len(s.Msgs)
		s.index[m.Desc.FullName()] = i
		s.full = append(s.full, m.Desc.FullName())
		s.Msgs = append(s.Msgs, Msg{})
		s.implicit = append(s.implicit, nil)
		c.msgs = append(c.msgs, m.Desc)
		c.fds = append(c.fds, nil)
		var fs []Field
		var fds []protoreflect.FieldDescriptor
		var imp []bool
		for _, f := range m.Fields {
			if realOneof(f.Oneof) {
				continue
			}
			x := Field{Num: int(f.Desc.Number()), Name: f.GoName}
			d := f
			switch {
			case f.Desc.IsMap():
				x.Card = CMap
				x.Key = kindOfDesc[f.Desc.MapKey().Kind()]
				d = f.Message.Fields[1]
			case f.Desc.IsList():
				x.Card = CRep
			case f.Desc.Cardinality() == protoreflect.Required:
				x.Card = CReq
			case f.Desc.HasPresence() && kindOfDesc[f.Desc.Kind()] != KMessage && kindOfDesc[f.Desc.Kind()] != KBytes:
				x.Card = COpt
			default:
				x.Card = CImp
			}
			x.Kind = kindOfDesc[d.Desc.Kind()]
			if x.Kind == KMessage {
				x.Msg = add(d.Message)
			}
			fs = append(fs, x)
			fds = append(fds, f.Desc)
			imp = append(imp, x.Kind == KBytes && x.Card == CImp && !f.Desc.HasPresence())
		}
		s.Msgs[i].Fields = fs
		c.fds[i] = fds
		s.implicit[i] = imp
		return i
	}
	add(g.msgs[root])
	s.canon = c
	s.types = make([]reflect.Type, len(s.Msgs))
	return s
}

// dropImplicit makes empty bytes without presence absent.
func (s *genSchema1) dropImplicit(mi int, m *MV) *MV {
	for i, v := range m.F {
		if v == nil {
			continue
		}
		if s.implicit[mi][i] && len(v.bytes()) == 0 {
			m.F[i] = nil
			continue
		}
		f := &s.Msgs[mi].Fields[i]
		if f.Kind == KMessage {
			if v.M != nil {
				s.dropImplicit(f.Msg, v.M)
			}
			for _, e := range v.L {
				if e.M != nil {
					s.dropImplicit(f.Msg, e.M)
				}
			}
		}
	}
	return m
}

func (s *genSchema1) comparable(m *MV) *MV {
	return s.dropImplicit(0, s.quiet(0, s.norm(0, m)))
}

// fits checks that the Go types have the fields of the schema.
func (s *genSchema1) fits() error {
	for i, t := range s.types {
		for j := range s.Msgs[i].Fields {
			f := &s.Msgs[i].Fields[j]
			sf, ok := t.FieldByName(f.Name)
			if !ok {
				return fmt.Errorf("%s has no field %s", s.full[i], f.Name)
			}
			if want := s.fieldType(f); sf.Type != want {
				return fmt.Errorf("%s.%s is a %s, want %s", s.full[i], f.Name, sf.Type, want)
			}
		}
	}
	return nil
}

// GenVal is values and encodings of one message type.
type GenVal struct {
	Msg string  `json:"msg"`
	V   []*MV   `json:"v,omitempty"`
	W   [][]Rec `json:"w,omitempty"`
}

// GenCase is a set of .proto files with values.
type GenCase struct {
	P    *ProtoSet `json:"p"`
	Vals []GenVal  `json:"vals,omitempty"`
}

const genRoot = "verif/harness/gen"

func genGenCase(root string, maxFiles int) func(t *rapid.T) GenCase {
	return func(t *rapid.T) GenCase {
		c := GenCase{P: genProtoSet(t, root, maxFiles)}
		g, err := newGenSet(c.P)
		if err != nil {
			panic(harnessError{fmt.Errorf("bad set of files: %v\n%s", err, jsonStr(c.P))})
		}
		o := &genOpts{utf8: true, noNilMap: true, budget: 60}
		for k := intn(t, 1, 5); k > 0; k-- {
			m := pick(t, g.all)
			v := GenVal{Msg: string(m.Desc.FullName())}
			s := g.schema(m.Desc.FullName())
			for n := intn(t, 0, 2); n >= 0; n-- {
				if chance(t, 60) {
					v.V = append(v.V, genMV(t, s.Schema, 0, o))
				} else {
					v.W = append(v.W, genWire(t, s.Schema, &wireOpts{genOpts: o, packed: true, pad: chance(t, 20)}))
				}
			}
			c.Vals = append(c.Vals, v)
		}
		return c
	}
}

// check runs the values against google.golang.org/protobuf.
func (s *genSchema1) check(v *GenVal, x *Ctx) error {
	lib := func(f string, a ...any) error {
		return fmt.Errorf("%s: %s (%s)", v.Msg, fmt.Sprintf(f, a...), s)
	}
	for _, m := range v.V {
		want := s.comparable(m)
		b, err := marshal(s.build(0, s.norm(0, m)))
		if err != nil {
			return lib("Marshal: %v", err)
		}
		got, unknown, err := s.canonDecode(b)
		if err != nil {
			return lib("google.golang.org/protobuf rejects the encoding %s: %v", hexs(b), err)
		}
		if unknown {
			return lib("google.golang.org/protobuf finds unknown fields in %s", hexs(b))
		}
		if d := s.diff(0, want, s.comparable(got)); d != "" {
			return lib("google.golang.org/protobuf decodes %s: %s", hexs(b), d)
		}
		if b, err = s.canonEncode(want); err != nil {
			panic(harnessError{err})
		}
		got, err = s.decodeNew(b)
		if err != nil {
			return lib("encoding %s by google.golang.org/protobuf: %v", hexs(b), err)
		}
		if d := s.diff(0, want, s.comparable(got)); d != "" {
			return lib("encoding %s by google.golang.org/protobuf: %s", hexs(b), d)
		}
		x.class("values")
	}
	for _, w := range v.W {
		b := encRecs(nil, w)
		want, _, err := s.canonDecode(b)
		if err != nil {
			panic(harnessError{fmt.Errorf("google.golang.org/protobuf rejects a legal encoding: %v (%s, %s)", err, s, hexs(b))})
		}
		got, err := s.decodeNew(b)
		if err != nil {
			return lib("legal encoding %s: %v", hexs(b), err)
		}
		if d := s.diff(0, s.comparable(want), s.comparable(got)); d != "" {
			return lib("legal encoding %s: %s", hexs(b), d)
		}
		x.class("encodings")
	}
	return nil
}

// reflectType makes a Go type like the generated one, if it is not recursive.
func (g *genSet) reflectType(ps map[string]*types.Package, m *protogen.Message, path map[protoreflect.FullName]bool, made map[protoreflect.FullName]reflect.Type) (reflect.Type, bool) {
	if t, ok := made[m.Desc.FullName()]; ok {
		return t, t != nil
	}
	if path[m.Desc.FullName()] {
		return nil, false
	}
	path[m.Desc.FullName()] = true
	defer delete(path, m.Desc.FullName())
	_, st, err := g.structOf(ps, m.GoIdent)
	must(err)
	byIdent := map[string]*protogen.Message{}
	for _, f := range m.Fields {
		if f.Message == nil {
			continue
		}
		d := f.Message
		if f.Desc.IsMap() {
			d = f.Message.Fields[1].Message
		}
		if d != nil {
			byIdent[qual(d.GoIdent)] = d
		}
	}
	var fs []reflect.StructField
	ok := true
	var conv func(t types.Type) reflect.Type
	conv = func(t types.Type) reflect.Type {
		switch t := types.Unalias(t).(type) {
		case *types.Basic:
			for _, r := range plainTypes {
				if r.String() == t.Name() {
					return r
				}
			}
			if t.Name() == "uint8" || t.Name() == "byte" {
				return reflect.TypeFor[byte]()
			}
		case *types.Slice:
			return reflect.SliceOf(conv(t.Elem()))
		case *types.Map:
			return reflect.MapOf(conv(t.Key()), conv(t.Elem()))
		case *types.Pointer:
			if d := byIdent[typeStr(t.Elem())]; d != nil {
				r, k := g.reflectType(ps, d, path, made)
				if !k {
					ok = false
					return reflect.TypeFor[*struct{}]()
				}
				return reflect.PointerTo(r)
			}
		case *types.Named:
			if a := t.TypeArgs(); a.Len() == 1 && strings.HasPrefix(typeStr(t), optionPath+"[") {
				return optionTypes[conv(a.At(0)).Kind()]
			}
		case *types.Array:
			return reflect.TypeFor[[0]func()]()
		}
		return reflect.TypeFor[any]()
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		sf := reflect.StructField{Name: v.Name(), Tag: reflect.StructTag(st.Tag(i)), Type: conv(v.Type())}
		if !v.Exported() {
			sf.PkgPath = v.Pkg().Path()
		}
		fs = append(fs, sf)
	}
	if !ok {
		return nil, false
	}
	t := reflect.StructOf(fs)
	made[m.Desc.FullName()] = t
	return t, true
}

func (x *Ctx) protoSet(g *genSet) {
	if !x.counting {
		return
	}
	n := 0
	for _, m := range g.all {
		for _, f := range m.Fields {
			n++
			x.classes["fields"]++
			x.classIf(realOneof(f.Oneof), "oneof members")
			x.classIf(f.Desc.IsMap(), "map fields")
			x.classIf(f.Desc.IsList(), "repeated fields")
			x.classIf(f.Desc.Cardinality() == protoreflect.Required, "required fields")
			x.classIf(f.Desc.HasPresence() && !realOneof(f.Oneof) && f.Message == nil, "presence fields")
			x.classIf(f.Enum != nil, "enum fields")
			x.classIf(f.Message != nil && f.Message.GoIdent.GoImportPath != m.GoIdent.GoImportPath, "cross-package fields")
		}
	}
	x.nontrivial = n >= 2
	x.classes["messages"] += len(g.all)
	x.classIf(len(g.ps.Files) > 1, "several files")
	x.classIf(g.ps.Param != "", "parameters")
	for _, f := range g.gen.Files {
		ts, _ := g.forwards(f)
		x.classIf(len(ts) > 0, "files with forwards")
	}
}

// C18: structure, and values on types made at run time.
// pragmas looks for the methods of messages with field tracking, which must not
// count for interfaces.
func (g *genSet) pragmas(src map[string]string) error {
	for path, s := range src {
		has := strings.Contains(s, "\n//go:nointerface\n")
		any, must := false, false
		for _, m := range g.all {
			if m.Desc.ParentFile().Path() != path || !tracked(m) {
				continue
			}
			any = true
			for _, o := range m.Oneofs {
				must = must || realOneof(o)
			}
		}
		if has && !any {
			return fmt.Errorf("%s has methods marked as no part of interfaces, but no message with field tracking", path)
		}
		if must && !has {
			return fmt.Errorf("%s has messages with field tracking, whose methods are not marked as no part of interfaces", path)
		}
	}
	return nil
}

func runDeclared(c GenCase, x *Ctx) error {
	g, err := newGenSet(c.P)
	must(err)
	if g.clash() {
		x.class("Go names clash")
		return nil
	}
	x.protoSet(g)
	src, _, err := g.generate(c.P.paths())
	if err != nil {
		return err
	}
	ps, err := g.checkAll(src)
	if err != nil {
		return err
	}
	if err := g.declared(ps); err != nil {
		return err
	}
	if err := g.pragmas(src); err != nil {
		return err
	}
	made := map[protoreflect.FullName]reflect.Type{}
	for i := range c.Vals {
		v := &c.Vals[i]
		s := g.schema(protoreflect.FullName(v.Msg))
		ok := true
		for j, n := range s.full {
			t, k := g.reflectType(ps, g.msgs[n], map[protoreflect.FullName]bool{}, made)
			s.types[j] = t
			ok = ok && k
		}
		if !ok {
			x.class("recursive")
			continue
		}
		if err := s.fits(); err != nil {
			return err
		}
		if err := s.check(v, x); err != nil {
			return err
		}
	}
	return nil
}

// C18, compiled.

// buildSet compiles the generated packages, with a program which has one
// variable for each message and wrapper.
func (g *genSet) build(src map[string]string, dir string, link bool) (string, error) {
	mod := filepath.Join(os.Getenv("HZ_VERIF"), "harness")
	over := map[string]string{}
	n := 0
	put := func(path, content string) {
		n++
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", n))
		must(os.WriteFile(p, []byte(content), 0o644))
		over[filepath.Join(mod, path)] = p
	}
	pkgs := map[string]string{}
	for _, f := range g.gen.Files {
		rel := strings.TrimPrefix(string(f.GoImportPath), "verif/harness/")
		if _, ok := src[f.Desc.Path()]; !ok {
			continue
		}
		put(fmt.Sprintf("%s/g%d.pb.go", rel, n), src[f.Desc.Path()])
		if pkgs[string(f.GoImportPath)] == "" {
			pkgs[string(f.GoImportPath)] = fmt.Sprintf("q%d", len(pkgs))
		}
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"verif/harness/hz\"\n")
	used := map[string]bool{}
	for _, m := range g.all {
		used[string(m.GoIdent.GoImportPath)] = true
	}
	for p, q := range pkgs {
		if used[p] {
			fmt.Fprintf(&b, "\t%s %q\n", q, p)
		} else {
			fmt.Fprintf(&b, "\t_ %q\n", p)
		}
	}
	b.WriteString(")\n\nfunc main() {\n\tos.Exit(hz.GenMain(map[string]any{\n")
	for _, m := range g.all {
		fmt.Fprintf(&b, "\t\t%q: (*%s.%s)(nil),\n", m.Desc.FullName(), pkgs[string(m.GoIdent.GoImportPath)], m.GoIdent.GoName)
		for _, f := range m.Fields {
			if realOneof(f.Oneof) {
				fmt.Fprintf(&b, "\t\t%q: (*%s.%s)(nil),\n", f.Desc.FullName(), pkgs[string(f.GoIdent.GoImportPath)], f.GoIdent.GoName)
			}
		}
	}
	b.WriteString("\t}))\n}\n")
	put("gen/main/main.go", b.String())
	oj, _ := json.Marshal(map[string]any{"Replace": over})
	overlay := filepath.Join(dir, "overlay.json")
	must(os.WriteFile(overlay, oj, 0o644))
	exe, err := os.Executable()
	must(err)
	bin := filepath.Join(dir, "main")
	args := []string{"build", "-modfile=" + filepath.Join(filepath.Dir(exe), "mod", "go.mod"), "-overlay", overlay}
	if link {
		args = append(args, "-ldflags=-s -w", "-o", bin, "verif/harness/gen/main")
	} else {
		for p := range pkgs {
			args = append(args, p)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = mod
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	waiting.Store(true)
	out, err := cmd.CombinedOutput()
	waiting.Store(false)
	if err != nil {
		text := string(out)
		if strings.Contains(text, ".pb.go:") {
			return "", fmt.Errorf("generated code does not compile:\n%.2000s", text)
		}
		must(fmt.Errorf("go build: %v\n%.3000s", err, text))
	}
	return bin, nil
}

func workDir() string {
	w := os.Getenv("HZ_WORK")
	d, err := os.MkdirTemp(w, "gen")
	must(err)
	return d
}

func runCompiled(c GenCase, x *Ctx) error {
	g, err := newGenSet(c.P)
	must(err)
	if g.clash() {
		x.class("Go names clash")
		return nil
	}
	x.protoSet(g)
	src, _, err := g.generate(c.P.paths())
	if err != nil {
		return err
	}
	dir := workDir()
	defer os.RemoveAll(dir)
	bin, err := g.build(src, dir, true)
	if err != nil {
		return err
	}
	in, err := json.Marshal(c)
	must(err)
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	waiting.Store(true)
	err = cmd.Run()
	waiting.Store(false)
	if err == nil {
		if x.counting {
			var n map[string]int
			if json.Unmarshal(out.Bytes(), &n) == nil {
				for k, v := range n {
					x.classes[k] += v
				}
			}
		}
		return nil
	}
	return childError(err, out.String(), errb.String())
}

// childError explains the end of a child process.
func childError(err error, out, text string) error {
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		must(err)
	}
	ws := ee.Sys().(syscall.WaitStatus)
	switch {
	case ws.Exited() && ws.ExitStatus() == ExitFail:
		return errors.New(strings.TrimSpace(out))
	case ws.Exited() && ws.ExitStatus() == ExitHarness:
		must(errors.New(text))
	case ws.Exited() && ws.ExitStatus() == ExitHang:
		return errors.New("does not end")
	case ws.Exited() && ws.ExitStatus() == ExitMemory:
		return errors.New("uses up memory")
	case strings.Contains(text, "cannot allocate memory"), strings.Contains(text, "resource temporarily unavailable"),
		ws.Signaled() && ws.Signal() == syscall.SIGKILL:
		must(fmt.Errorf("child: %v %s", err, text))
	}
	if len(text) > 6000 {
		text = text[:6000]
	}
	return fmt.Errorf("process crashed (%v):\n%s", err, text)
}

// GenMain is the main function of a program with generated types: it runs the
// values of the case on standard input.
func GenMain(vars map[string]any) int {
	var c GenCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ExitHarness
	}
	x := &Ctx{classes: map[string]int{}, counting: true}
	s := sub("", 0, 0, func(t *rapid.T) GenCase { return GenCase{} }, func(c GenCase, x *Ctx) error { return runVars(c, vars, x) })
	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(harnessError); ok {
					fmt.Fprintln(os.Stderr, h.err)
					code = ExitHarness
					return
				}
				panic(r)
			}
		}()
		go watchdog()
		caseNo.Add(1)
		inCase.Store(true)
		if err := runCase(&s, c, x); err != nil {
			fmt.Println(err)
			code = ExitFail
		}
	}()
	if code == 0 {
		fmt.Println(jsonStr(x.classes))
	}
	return code
}

func runVars(c GenCase, vars map[string]any, x *Ctx) error {
	g, err := newGenSet(c.P)
	must(err)
	typ := func(n protoreflect.FullName) reflect.Type { return reflect.TypeOf(vars[string(n)]).Elem() }
	for _, m := range g.all {
		s := g.schema(m.Desc.FullName())
		for j, n := range s.full {
			s.types[j] = typ(n)
		}
		if err := s.fits(); err != nil {
			return err
		}
		if err := getters(m, typ, x); err != nil {
			return err
		}
		if typ(m.Desc.FullName()).Comparable() {
			return fmt.Errorf("%s is comparable", m.Desc.FullName())
		}
	}
	for i := range c.Vals {
		v := &c.Vals[i]
		s := g.schema(protoreflect.FullName(v.Msg))
		for j, n := range s.full {
			s.types[j] = typ(n)
		}
		x.classIf(s.endless(0), "recursive")
		if err := s.check(v, x); err != nil {
			return err
		}
	}
	return nil
}

// getters checks the getters of oneofs.
func getters(m *protogen.Message, typ func(n protoreflect.FullName) reflect.Type, x *Ctx) error {
	t := typ(m.Desc.FullName())
	call := func(v reflect.Value, name string) (reflect.Value, error) {
		f := v.MethodByName(name)
		if !f.IsValid() || f.Type().NumIn() != 0 || f.Type().NumOut() != 1 {
			return reflect.Value{}, fmt.Errorf("%s has no getter %s", m.Desc.FullName(), name)
		}
		return f.Call(nil)[0], nil
	}
	def := func(f *protogen.Field) any {
		if f.Enum != nil {
			return int64(f.Enum.Values[0].Desc.Number())
		}
		return nil
	}
	isDefault := func(f *protogen.Field, v reflect.Value) bool {
		if d := def(f); d != nil {
			return v.Int() == d.(int64)
		}
		return v.IsZero()
	}
	for _, o := range m.Oneofs {
		if o.Desc.IsSynthetic() {
			continue
		}
		for k, f := range o.Fields {
			var w reflect.Value
			for _, set := range []int{-2, -1, 0, 1} { // nil message, nothing, this member, another one
				v := reflect.New(t)
				switch set {
				case -2:
					v = reflect.Zero(v.Type())
				case 0:
					w = reflect.New(typ(f.Desc.FullName()))
					fill(w.Elem().FieldByName(f.GoName))
					v.Elem().FieldByName(o.GoName).Set(w)
				case 1:
					if len(o.Fields) == 1 {
						continue
					}
					w = reflect.New(typ(o.Fields[(k+1)%len(o.Fields)].Desc.FullName()))
					v.Elem().FieldByName(o.GoName).Set(w)
				}
				got, err := call(v, "Get"+o.GoName)
				if err != nil {
					return err
				}
				if set < 0 && !got.IsNil() || set >= 0 && (got.IsNil() || got.Elem().Pointer() != w.Pointer()) {
					return fmt.Errorf("%s: Get%s gives %v", o.Desc.FullName(), o.GoName, got)
				}
				got, err = call(v, "Get"+f.GoName)
				if err != nil {
					return err
				}
				if set != 0 && !f.Desc.HasDefault() && !isDefault(f, got) {
					return fmt.Errorf("%s: Get%s gives %v of a message without it", f.Desc.FullName(), f.GoName, got)
				}
				if set == 0 && !reflect.DeepEqual(got.Interface(), w.Elem().FieldByName(f.GoName).Interface()) {
					return fmt.Errorf("%s: Get%s gives %v, want %v", f.Desc.FullName(), f.GoName, got, w.Elem().FieldByName(f.GoName))
				}
				x.class("getter calls")
			}
		}
	}
	return nil
}

// fill sets a value which is not zero.
func fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int32, reflect.Int64:
		v.SetInt(-77777)
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(77777)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(0.5)
	case reflect.String:
		v.SetString("text")
	case reflect.Slice:
		v.SetBytes([]byte("bytes"))
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
	}
}

// C19

// OutCase is a set of .proto files with subsets of files to request.
type OutCase struct {
	P    *ProtoSet `json:"p"`
	Subs [][]int   `json:"subs"`
}

func genOutCase(root string) func(t *rapid.T) OutCase {
	return func(t *rapid.T) OutCase {
		c := OutCase{P: genProtoSet(t, root, 5)}
		for k := intn(t, 0, 2); k > 0; k-- {
			var s []int
			for i := range c.P.Files {
				if chance(t, 50) {
					s = append(s, i)
				}
			}
			if len(s) > 0 {
				c.Subs = append(c.Subs, s)
			}
		}
		return c
	}
}

func runOutput(c OutCase, x *Ctx) error {
	g, err := newGenSet(c.P)
	if err != nil {
		panic(harnessError{fmt.Errorf("bad set of files: %v", err)})
	}
	if g.clash() {
		x.class("Go names clash")
		return nil
	}
	x.protoSet(g)
	src, raw, err := g.generate(c.P.paths())
	if err != nil {
		return err
	}
	ps, err := g.checkAll(src)
	if err != nil {
		return err
	}
	if err := g.complete(ps, src); err != nil {
		return err
	}
	_, again, err := runPluginIn(g.ps.request(c.P.paths()), "/", elsewhere)
	if err != nil {
		return err
	}
	if !bytes.Equal(raw, again) {
		return errors.New("two responses to the same request differ")
	}
	for _, sub := range c.Subs {
		var want []string
		for _, i := range sub {
			want = append(want, c.P.Files[i].Path)
		}
		some, _, err := g.generate(want)
		if err != nil {
			return fmt.Errorf("request of %v: %w", want, err)
		}
		for _, p := range want {
			if some[p] != src[p] {
				return fmt.Errorf("the output for %s is different when %v is requested: %s", p, want, firstDiff(src[p], some[p]))
			}
		}
		x.class("subsets requested")
	}
	return nil
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			other := "end of file"
			if i < len(y) {
				other = y[i]
			}
			return fmt.Sprintf("line %d: %q, %q", i+1, x[i], other)
		}
	}
	return "more lines"
}

// complete checks that everything is declared.
func (g *genSet) complete(ps map[string]*types.Package, src map[string]string) error {
	for _, f := range g.gen.Files {
		scope := ps[string(f.GoImportPath)].Scope()
		where := func(n string) error { return fmt.Errorf("%s: %s is not declared", f.Desc.Path(), n) }
		isType := func(n string) bool { _, ok := scope.Lookup(n).(*types.TypeName); return ok }
		isConst := func(n string) bool { _, ok := scope.Lookup(n).(*types.Const); return ok }
		ts, cs := g.idents(f)
		for _, n := range ts {
			if !isType(n) {
				return where("type " + n)
			}
		}
		for _, n := range cs {
			if !isConst(n) {
				return where("constant " + n)
			}
		}
		// forwards are the same types and constants
		for i := 0; i < f.Desc.Imports().Len(); i++ {
			imp := f.Desc.Imports().Get(i)
			d := g.file[imp.Path()]
			if !imp.IsPublic || d.GoImportPath == f.GoImportPath {
				continue
			}
			from := ps[string(d.GoImportPath)].Scope()
			ts, cs := g.idents(d)
			for _, n := range ts {
				if !isType(n) {
					return where("type " + n + ", a forward of " + imp.Path())
				}
				if !types.Identical(scope.Lookup(n).Type(), from.Lookup(n).Type()) {
					return fmt.Errorf("%s: %s is not the type of %s", f.Desc.Path(), n, imp.Path())
				}
			}
			for _, n := range cs {
				if !isConst(n) {
					return where("constant " + n + ", a forward of " + imp.Path())
				}
				if a, b := scope.Lookup(n).(*types.Const), from.Lookup(n).(*types.Const); !constant.Compare(a.Val(), token.EQL, b.Val()) {
					return fmt.Errorf("%s: %s is not the constant of %s", f.Desc.Path(), n, imp.Path())
				}
			}
		}
		// all dependencies are linked in
		a, err := parser.ParseFile(token.NewFileSet(), "", src[f.Desc.Path()], parser.ImportsOnly)
		if err != nil {
			return err
		}
		imports := map[string]bool{}
		for _, i := range a.Imports {
			imports[strings.Trim(i.Path.Value, `"`)] = true
		}
		for i := 0; i < f.Desc.Imports().Len(); i++ {
			d := g.file[f.Desc.Imports().Get(i).Path()]
			if d.GoImportPath != f.GoImportPath && !imports[string(d.GoImportPath)] {
				return fmt.Errorf("%s does not import %s", f.Desc.Path(), d.GoImportPath)
			}
		}
	}
	for _, m := range g.all {
		tn, st, err := g.structOf(ps, m.GoIdent)
		if err != nil {
			return err
		}
		if types.Comparable(tn.Type()) {
			return fmt.Errorf("%s is comparable", m.Desc.FullName())
		}
		pkg := tn.Pkg()
		method := func(n string) (*types.Signature, error) {
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pkg, n)
			f, ok := o.(*types.Func)
			if !ok {
				return nil, fmt.Errorf("%s has no method %s", m.Desc.FullName(), n)
			}
			s := f.Type().(*types.Signature)
			if s.Params().Len() != 0 || s.Results().Len() != 1 {
				return nil, fmt.Errorf("%s.%s is %s", m.Desc.FullName(), n, s)
			}
			return s, nil
		}
		fields := map[string]types.Type{}
		for i := 0; i < st.NumFields(); i++ {
			fields[st.Field(i).Name()] = st.Field(i).Type()
		}
		for _, f := range m.Fields {
			if !realOneof(f.Oneof) {
				if fields[f.GoName] == nil {
					return fmt.Errorf("%s has no field %s", m.Desc.FullName(), f.GoName)
				}
				continue
			}
			o := f.Oneof
			ft := fields[o.GoName]
			if ft == nil {
				return fmt.Errorf("%s has no field %s", m.Desc.FullName(), o.GoName)
			}
			iface, ok := ft.Underlying().(*types.Interface)
			if !ok || iface.NumMethods() == 0 {
				return fmt.Errorf("%s.%s is %s, want an interface with methods", m.Desc.FullName(), o.GoName, ft)
			}
			s, err := method("Get" + o.GoName)
			if err != nil {
				return err
			}
			if !types.Identical(s.Results().At(0).Type(), ft) {
				return fmt.Errorf("%s.Get%s gives %s, want %s", m.Desc.FullName(), o.GoName, s.Results().At(0).Type(), ft)
			}
			if s, err = method("Get" + f.GoName); err != nil {
				return err
			}
			if got, want := typeStr(s.Results().At(0).Type()), wantType(f, true); got != want {
				return fmt.Errorf("%s.Get%s gives %s, want %s", m.Desc.FullName(), f.GoName, got, want)
			}
			w, _, err := g.structOf(ps, f.GoIdent)
			if err != nil {
				return err
			}
			if !types.Implements(types.NewPointer(w.Type()), iface) {
				return fmt.Errorf("*%s cannot be assigned to %s.%s", f.GoIdent.GoName, m.Desc.FullName(), o.GoName)
			}
			// and no wrapper of another oneof
			for _, other := range g.all {
				for _, of := range other.Fields {
					if realOneof(of.Oneof) && of.Oneof != o && of.GoIdent.GoImportPath == m.GoIdent.GoImportPath {
						ow, _, err := g.structOf(ps, of.GoIdent)
						if err != nil {
							return err
						}
						if types.Implements(types.NewPointer(ow.Type()), iface) {
							return fmt.Errorf("*%s can be assigned to %s.%s", of.GoIdent.GoName, m.Desc.FullName(), o.GoName)
						}
					}
				}
			}
		}
	}
	return nil
}

func runBuild(c OutCase, x *Ctx) error {
	g, err := newGenSet(c.P)
	must(err)
	if g.clash() {
		x.class("Go names clash")
		return nil
	}
	x.protoSet(g)
	src, _, err := g.generate(c.P.paths())
	if err != nil {
		return err
	}
	dir := workDir()
	defer os.RemoveAll(dir)
	_, err = g.build(src, dir, false)
	return err
}

var _ = proto.Marshal

func init() {
	addProp(&Prop{ID: "C18", Rule: "cases are sets of one to five .proto files (proto2 and proto3; all scalar kinds, enums, nested, recursive and imported messages, all labels, proto3 optional, maps, oneofs, packed options, extensions, odd names and comments), run through the plugin binary, with values and encodings of their messages; the declarations of the output are compared with the descriptors, and the messages exchanged with google.golang.org/protobuf working from the same descriptors, on types built at run time from the generated declarations, and on the compiled generated code; non-trivial: at least two fields", Subs: []Sub{
		sub("declared", 1200, 36000, genGenCase("", 5), runDeclared),
		sub("compiled", 40, 1200, genGenCase(genRoot, 4), runCompiled),
	}, Assume: []string{"the naming rules of google.golang.org/protobuf/compiler/protogen v1.27.1", "members of oneofs and groups are not exchanged: recorded findings"}})
	addProp(&Prop{ID: "C19", Rule: "cases are sets of one to five .proto files with imports (public ones too) between Go packages with all kinds of names, plugin parameters, and subsets of the files to request; the output is type checked against the proto package of the repository and compared with the list of what must be declared, the request repeated, and subsets requested; some sets are compiled with the Go compiler; non-trivial: at least two fields", Subs: []Sub{
		sub("output", 1000, 30000, genOutCase(""), runOutput),
		sub("build", 25, 750, genOutCase(genRoot), runBuild),
	}, Assume: []string{"declarations of one Go package whose Go names are equal (A.B and A_B) are outside: the .proto language has names which Go has not"}})
}
