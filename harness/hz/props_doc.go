package hz

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strings"
	"unicode"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/types/descriptorpb"
	"pgregory.net/rapid"
)

// C28: comments and deprecation.

// plain reduces a comment to what the printer of Go code never changes.
func plain(parts ...string) string {
	var b strings.Builder
	for _, p := range parts {
		for _, r := range p {
			if unicode.IsLetter(r) || unicode.IsDigit(r) {
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

func docText(cs ...*ast.CommentGroup) string {
	var b strings.Builder
	for _, c := range cs {
		if c == nil {
			continue
		}
		for _, l := range c.List {
			b.WriteString(strings.TrimPrefix(l.Text, "//") + "\n")
		}
	}
	return b.String()
}

// goDoc is what the source of one file documents.
type goDoc struct {
	doc   map[string]string // by Type, Const, Type.Field, or Type.Method
	trail map[string]string
	head  string
	count map[string]int // comments with text, wherever they stand
}

func parseDoc(src string) (*goDoc, error) {
	a, err := parser.ParseFile(token.NewFileSet(), "", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	d := &goDoc{doc: map[string]string{}, trail: map[string]string{}, count: map[string]int{}}
	for _, c := range a.Comments {
		if c.Pos() < a.Package {
			d.head += docText(c)
		}
	}
	for _, decl := range a.Decls {
		switch decl := decl.(type) {
		case *ast.FuncDecl:
			if decl.Recv != nil && len(decl.Recv.List) == 1 {
				if s, ok := decl.Recv.List[0].Type.(*ast.StarExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						d.doc[id.Name+"."+decl.Name.Name] = docText(decl.Doc)
					}
				}
			}
		case *ast.GenDecl:
			for _, spec := range decl.Specs {
				switch spec := spec.(type) {
				case *ast.TypeSpec:
					n := spec.Name.Name
					if decl.Lparen.IsValid() {
						d.doc[n] = docText(spec.Doc)
					} else {
						d.doc[n] = docText(decl.Doc, spec.Doc)
					}
					d.trail[n] = docText(spec.Comment)
					st, ok := spec.Type.(*ast.StructType)
					if !ok {
						continue
					}
					for _, f := range st.Fields.List {
						for _, id := range f.Names {
							d.doc[n+"."+id.Name] = docText(f.Doc)
							d.trail[n+"."+id.Name] = docText(f.Comment)
						}
					}
				case *ast.ValueSpec:
					for _, id := range spec.Names {
						d.doc[id.Name] = docText(spec.Doc)
						if !decl.Lparen.IsValid() {
							d.doc[id.Name] = docText(decl.Doc, spec.Doc)
						}
						d.trail[id.Name] = docText(spec.Comment)
					}
				}
			}
		}
	}
	return d, nil
}

const depText = "Deprecated: Do not use."

// hasDep reports whether a line says that something is deprecated.
func hasDep(doc string) bool {
	for _, l := range strings.Split(doc, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "Deprecated:") {
			return true
		}
	}
	return false
}

func (g *genSet) documented(f *protogen.File, src string, x *Ctx) error {
	d, err := parseDoc(src)
	if err != nil {
		return fmt.Errorf("%s: %v", f.Desc.Path(), err)
	}
	want := func(name string, c protogen.Comments, dep bool, more string) error {
		got, ok := d.doc[name]
		if !ok {
			return fmt.Errorf("%s: %s is not declared", f.Desc.Path(), name)
		}
		w := []string{string(c)}
		if dep {
			w = append(w, depText)
			x.class("deprecated declarations")
		}
		w = append(w, more)
		x.classIf(plain(string(c)) != "", "comments")
		byHand := dep && hasDep(string(c)) && plain(got) == plain(string(c), more)
		if plain(got) != plain(w...) && !byHand {
			return fmt.Errorf("%s: %s is documented as %q, want %q", f.Desc.Path(), name, got, strings.Join(w, "\n"))
		}
		if dep {
			// a paragraph of its own, for tools
			if !hasDep(got) {
				return fmt.Errorf("%s: %s has no line which says that it is deprecated: %q", f.Desc.Path(), name, got)
			}
		}
		return nil
	}
	trail := func(name string, c protogen.Comments) error {
		got := plain(d.trail[name])
		if strings.Contains(strings.TrimSuffix(string(c), "\n"), "\n") {
			if got == "" {
				return nil // not carried
			}
		} else {
			x.classIf(plain(string(c)) != "", "trailing comments")
		}
		if got != plain(string(c)) {
			return fmt.Errorf("%s: the comment behind %s is %q, want %q", f.Desc.Path(), name, d.trail[name], c)
		}
		return nil
	}
	dep := func(o interface{ GetDeprecated() bool }) bool { return o.GetDeprecated() }

	head := "source: " + f.Desc.Path()
	if f.Proto.GetOptions().GetDeprecated() {
		head = f.Desc.Path() + " is a deprecated file."
		x.class("deprecated files")
	}
	if !strings.Contains(d.head, head) {
		return fmt.Errorf("%s: the header says %q, want %q", f.Desc.Path(), d.head, head)
	}
	if !strings.Contains(d.head, "DO NOT EDIT.") {
		return fmt.Errorf("%s: the header does not say that the file is generated: %q", f.Desc.Path(), d.head)
	}
	enums := func(es []*protogen.Enum) error {
		for _, e := range es {
			if err := want(e.GoIdent.GoName, e.Comments.Leading, dep(e.Desc.Options().(*descriptorpb.EnumOptions)), ""); err != nil {
				return err
			}
			for _, v := range e.Values {
				if err := want(v.GoIdent.GoName, v.Comments.Leading, dep(v.Desc.Options().(*descriptorpb.EnumValueOptions)), ""); err != nil {
					return err
				}
				if err := trail(v.GoIdent.GoName, v.Comments.Trailing); err != nil {
					return err
				}
			}
		}
		return nil
	}
	var msgs func(ms []*protogen.Message) error
	msgs = func(ms []*protogen.Message) error {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			n := m.GoIdent.GoName
			if err := want(n, m.Comments.Leading, dep(m.Desc.Options().(*descriptorpb.MessageOptions)), ""); err != nil {
				return err
			}
			for _, fd := range m.Fields {
				in := n
				fdep := dep(fd.Desc.Options().(*descriptorpb.FieldOptions))
				if o := fd.Oneof; realOneof(o) {
					if o.Fields[0] == fd {
						more := " Types that are assignable to " + o.GoName + ":"
						for _, of := range o.Fields {
							more += "\n *" + of.GoIdent.GoName
						}
						if err := want(n+"."+o.GoName, o.Comments.Leading, false, more); err != nil {
							return err
						}
					}
					in = fd.GoIdent.GoName
					if err := want(n+".Get"+fd.GoName, "", fdep, ""); err != nil {
						if tracked(m) && !fdep && plain(d.doc[n+".Get"+fd.GoName]) == "gonointerface" {
							err = nil
						}
						if err != nil {
							return err
						}
					}
				}
				if err := want(in+"."+fd.GoName, fd.Comments.Leading, fdep, ""); err != nil {
					return err
				}
				if err := trail(in+"."+fd.GoName, fd.Comments.Trailing); err != nil {
					return err
				}
			}
			if err := enums(m.Enums); err != nil {
				return err
			}
			if err := msgs(m.Messages); err != nil {
				return err
			}
		}
		return nil
	}
	if err := enums(f.Enums); err != nil {
		return err
	}
	return msgs(f.Messages)
}

func genDocCase(t *rapid.T) OutCase {
	c := genOutCase("")(t)
	// more comments than usual
	var all func(ms []PMsg)
	all = func(ms []PMsg) {
		for i := range ms {
			m := &ms[i]
			if chance(t, 50) {
				m.Comment = pick(t, comments)
			}
			for j := range m.Fields {
				f := &m.Fields[j]
				switch weighted(t, 40, 20, 20, 20) {
				case 1:
					f.Comment = pick(t, comments)
				case 2:
					f.Trail = pick(t, comments)
				case 3:
					f.Comment, f.Trail, f.Dep = pick(t, comments), pick(t, comments), chance(t, 50)
				}
			}
			all(m.Msgs)
		}
	}
	for i := range c.P.Files {
		all(c.P.Files[i].Msgs)
	}
	return c
}

func runDoc(c OutCase, x *Ctx) error {
	g, err := newGenSet(c.P)
	if err != nil {
		panic(harnessError{fmt.Errorf("bad set of files: %v", err)})
	}
	if g.clash() {
		x.class("Go names clash")
		return nil
	}
	x.protoSet(g)
	src, _, err := g.generate(c.P.paths())
	if err != nil {
		return err
	}
	for _, f := range g.gen.Files {
		if err := g.documented(f, src[f.Desc.Path()], x); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	addProp(&Prop{ID: "C28", Rule: "cases are sets of one to five .proto files with comments of all shapes before, behind and between all kinds of declarations, deprecated files, messages, fields, enums and values; every declaration of the output is looked up and its comments compared; non-trivial: at least two fields", Subs: []Sub{
		sub("comments", 1500, 45000, genDocCase, runDoc),
	}, Assume: []string{"only letters and digits of comments are compared: the printer of Go code may change white space and punctuation"}})
}
