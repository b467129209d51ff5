package hz

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"os/exec"
	"path"
	"slices"
	"sort"
	"strings"
	"syscall"

	"google.golang.org/protobuf/compiler/protogen"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"
)

// C34: the plugin as protoc sees it.

// CLICase is a run of the plugin.
type CLICase struct {
	P    *ProtoSet `json:"p,omitempty"`
	Edit []CLIEdit `json:"edit,omitempty"` // of the request
	Mut  []CLIMut  `json:"mut,omitempty"`  // of its bytes
	Raw  []byte    `json:"raw,omitempty"`  // the input, if there are no files
	Args []string  `json:"args,omitempty"`
}

// CLIEdit changes a request: what, where and how.
type CLIEdit struct {
	What string `json:"what"`
	I    int    `json:"i,omitempty"`
	S    string `json:"s,omitempty"`
}

// CLIMut changes a byte (N is 0), cuts N bytes, or repeats N bytes.
type CLIMut struct {
	At  int  `json:"at"`
	X   byte `json:"x,omitempty"`
	N   int  `json:"n,omitempty"`
	Rep bool `json:"rep,omitempty"`
}

// pools of what the edits which have one use
var cliPools = map[string][]string{
	"param": {"plugins=grpc", "foo", "foo=bar", "Paths=import", "annotate", "lite=true", "help", "h", "v=1", "version", "paths=absolute", "paths=", "paths",
		"annotate_code=yes", "annotate_code=TRUE", "module=nowhere.test/x", "module=example.com,paths=source_relative", "import_path=x", "lang=go", "test.v", "--help"},
	"extra": {"", ",", ",,", "paths=import", "annotate_code", "annotate_code=false", "Munknown.proto=example.com/zz", "Munknown.proto=", "M", "module=", "=x", "="},
	"go":    {"", "x", "nodots", ".", "a/b;", ";x", "example.com/a b", "example.com/π", "a/b;c;d", "example.com/1", "example.com/-", "/", "a//b", "../x"},
	"name":  {"", "1x", "a.b", "a b", "π", ".", "M", "_", "__", "a-b", "\x00", "X\n", "\xff", "func", "M\"", "M`"},
	"type":  {"", ".", "..", ".nowhere.M", "M", ".p.M", "\xff"},
	"value": {"", "x", "1", "-1", "0x10", "1e400", "true", "\"", "\\", "nan", "\xff"},
	"file":  {"", "nowhere.proto", "/abs.proto", "../up.proto", "a b.proto", "f0", "x/", "\xff"},
}

// cliEdits are the edits and how much of a mess they make.
var cliEdits = []string{"param", "param", "param", "extra", "extra", "extra", "go", "go", "inconsistent", "inconsistent", "request", "twice", "again", "drop", "none", "reorder", "unknown", "version",
	"name", "number", "type", "label", "kind", "value", "syntax", "enum0", "msg0", "dep", "public", "oneof", "opts", "weak", "loop", "file", "comment"}

func genCLI(t *rapid.T) CLICase {
	c := CLICase{}
	switch weighted(t, 88, 6, 6) {
	case 1:
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		return c
	case 2:
		c.Args = []string{pick(t, []string{"--help", "--help", "-h", "-help", "--version", "x.proto", "", "--help=1", "--HELP", "-"})}
		if chance(t, 30) {
			c.Args = append(c.Args, pick(t, []string{"--help", "x"}))
		}
	}
	c.P = genProtoSet(t, "", 5)
	for k := weighted(t, 40, 40, 20); k > 0; k-- {
		e := CLIEdit{What: pick(t, cliEdits), I: intn(t, 0, 1<<20)}
		if pool := cliPools[e.What]; pool != nil {
			e.S = pick(t, pool)
		}
		if e.What == "param" && chance(t, 20) {
			e.S = rapid.StringMatching(`[a-z][a-z_]{3,12}(=[a-z0-9]{0,4})?`).Draw(t, "param")
		}
		c.Edit = append(c.Edit, e)
	}
	if chance(t, 15) {
		for k := intn(t, 1, 4); k > 0; k-- {
			m := CLIMut{At: intn(t, 0, 1<<16), X: byte(intn(t, 1, 255))}
			if chance(t, 30) {
				m.N, m.Rep = intn(t, 1, 40), chance(t, 50)
			}
			c.Mut = append(c.Mut, m)
		}
	}
	return c
}

// apply makes the request of a case.
func (c *CLICase) request() []byte {
	req := c.P.request(c.P.paths())
	at := func(n, i int) int {
		if n == 0 {
			return 0
		}
		return i % n
	}
	for _, e := range c.Edit {
		if len(req.ProtoFile) == 0 {
			break
		}
		i := at(len(req.ProtoFile), e.I)
		f := req.ProtoFile[i]
		m := &descriptorpb.DescriptorProto{}
		if len(f.MessageType) > 0 {
			m = f.MessageType[at(len(f.MessageType), e.I/7)]
		}
		fd := &descriptorpb.FieldDescriptorProto{}
		if len(m.Field) > 0 {
			fd = m.Field[at(len(m.Field), e.I/49)]
		}
		if f.Options == nil {
			f.Options = &descriptorpb.FileOptions{}
		}
		switch e.What {
		case "param":
			req.Parameter = pb.String(strings.TrimPrefix(req.GetParameter()+","+e.S, ","))
		case "extra":
			if e.I%2 == 0 {
				req.Parameter = pb.String(e.S + "," + req.GetParameter())
			} else {
				req.Parameter = pb.String(req.GetParameter() + "," + e.S)
			}
		case "go":
			f.Options.GoPackage = pb.String(e.S)
			if e.S == "" && e.I%2 == 0 {
				f.Options = nil
			}
		case "inconsistent":
			g := req.ProtoFile[at(len(req.ProtoFile), i+1)]
			if g.Options == nil {
				g.Options = &descriptorpb.FileOptions{}
			}
			g.Options.GoPackage = pb.String(strings.Split(f.Options.GetGoPackage(), ";")[0] + ";other")
		case "request":
			req.FileToGenerate = append(req.FileToGenerate, "missing.proto")
		case "twice":
			if len(req.FileToGenerate) > 0 {
				req.FileToGenerate = append(req.FileToGenerate, req.FileToGenerate[at(len(req.FileToGenerate), e.I)])
			}
		case "again":
			req.ProtoFile = append(req.ProtoFile, f)
		case "drop":
			req.ProtoFile = slices.Delete(slices.Clone(req.ProtoFile), i, i+1)
		case "none":
			req.FileToGenerate = nil
		case "reorder":
			slices.Reverse(req.FileToGenerate)
			if e.I%3 == 0 {
				slices.Reverse(req.ProtoFile)
			}
		case "unknown":
			req.ProtoReflect().SetUnknown(uvarint(uvarint(nil, tagOf(1000, WVarint)), uint64(e.I)))
		case "version":
			req.CompilerVersion = &pluginpb.Version{Major: pb.Int32(int32(e.I)), Suffix: pb.String("x")}
		case "name":
			m.Name = pb.String(e.S)
			if e.I%2 == 0 {
				fd.Name = pb.String(e.S)
			}
		case "number":
			fd.Number = pb.Int32(int32([]int{0, -1, 1, 1 << 29, 19000, 1<<31 - 1}[e.I%6]))
		case "type":
			fd.TypeName = pb.String(e.S)
		case "label":
			fd.Label = descriptorpb.FieldDescriptorProto_Label(e.I % 5).Enum()
		case "kind":
			fd.Type = descriptorpb.FieldDescriptorProto_Type(e.I % 20).Enum()
		case "value":
			fd.DefaultValue = pb.String(e.S)
		case "syntax":
			f.Syntax = pb.String([]string{"", "proto2", "proto3", "proto4", "editions"}[e.I%5])
		case "enum0":
			f.EnumType = append(f.EnumType, &descriptorpb.EnumDescriptorProto{Name: pb.String("EmptyEnum")})
		case "msg0":
			f.MessageType = append(f.MessageType, &descriptorpb.DescriptorProto{})
		case "dep":
			f.Dependency = append(f.Dependency, "nowhere.proto")
		case "public":
			f.PublicDependency = append(f.PublicDependency, int32(e.I%7)-1)
		case "oneof":
			fd.OneofIndex = pb.Int32(int32(e.I%4) - 1)
		case "opts":
			m.Options = &descriptorpb.MessageOptions{MessageSetWireFormat: pb.Bool(e.I%2 == 0), MapEntry: pb.Bool(e.I%3 == 0)}
		case "weak":
			f.WeakDependency = append(f.WeakDependency, 0)
		case "loop":
			f.Dependency = append(f.Dependency, f.GetName())
		case "file":
			f.Name = pb.String(e.S)
		case "comment":
			f.SourceCodeInfo = &descriptorpb.SourceCodeInfo{Location: []*descriptorpb.SourceCodeInfo_Location{
				{Path: []int32{4, int32(e.I % 3), 2, int32(e.I % 5)}, Span: []int32{1, 2, 3}, LeadingComments: pb.String("x\n")},
				{Path: []int32{int32(e.I % 50), -1}, Span: []int32{0, 0, 0}, LeadingComments: pb.String("y\n")},
				{Path: []int32{4, 1 << 30}, Span: []int32{1, 2, 3, 4}}}}
		}
	}
	b, err := pb.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(req)
	if err != nil {
		return nil // text which is not UTF-8: no request
	}
	for _, m := range c.Mut {
		i := at(len(b), m.At)
		n := min(m.N, len(b)-i)
		switch {
		case len(b) == 0:
		case n == 0:
			b[i] ^= m.X
		case m.Rep:
			b = slices.Insert(b, i, slices.Clone(b[i:i+n])...)
		default:
			b = slices.Delete(b, i, i+n)
		}
	}
	return b
}

const pluginCPU = 4 // seconds

// runCLIBinary runs the plugin: its exit status and outputs.
func runCLIBinary(in []byte, args []string) (code int, out, errs []byte, err error) {
	cmd := exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -t %d; exec "$0" "$@"`, pluginCPU), pluginPath()}, args...)...)
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	waiting.Store(true)
	err = cmd.Run()
	waiting.Store(false)
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) && !errors.Is(err, syscall.EPIPE) {
		must(err)
	}
	st := cmd.ProcessState.Sys().(syscall.WaitStatus)
	switch u := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime(); {
	case st.Signaled() && (st.Signal() == syscall.SIGXCPU || u.Seconds() > pluginCPU-1):
		return 0, nil, nil, fmt.Errorf("the plugin does not end within %d s of CPU time", pluginCPU)
	case st.Signaled() && st.Signal() == syscall.SIGKILL:
		must(errors.New("plugin killed"))
	case st.Signaled():
		return 0, nil, nil, fmt.Errorf("the plugin ends by %s: %.300s", st.Signal(), e.String())
	}
	return st.ExitStatus(), o.Bytes(), e.Bytes(), nil
}

// framework is what the plugin framework says about a request, with a plugin
// which has no parameters of its own.
func framework(req *pluginpb.CodeGeneratorRequest) (gen *protogen.Plugin, err error, panicked any) {
	defer func() { panicked = recover() }()
	var flags flag.FlagSet
	gen, err = protogen.Options{ParamFunc: flags.Set}.New(req)
	return
}

func runCLI(c CLICase, x *Ctx) error {
	in := c.Raw
	if c.P != nil {
		in = c.request()
	}
	x.nontrivial = len(in) > 0
	code, out, errs, err := runCLIBinary(in, c.Args)
	if err != nil {
		return err
	}
	if code != 0 && code != 1 || bytes.Contains(errs, []byte("goroutine ")) {
		return fmt.Errorf("the plugin ends with status %d: %.600s", code, errs)
	}
	if code == 1 && (len(out) > 0 || len(bytes.TrimSpace(errs)) == 0) {
		return fmt.Errorf("the plugin fails with %d bytes of output and the message %q", len(out), errs)
	}
	if code == 0 && len(errs) > 0 {
		return fmt.Errorf("the plugin succeeds, but says %.200q", errs)
	}
	if len(c.Args) == 1 && c.Args[0] == "--help" {
		x.class("help")
		if code != 0 || len(out) == 0 {
			return fmt.Errorf("--help: status %d, %.300q", code, errs)
		}
		return nil
	}
	refuse := func(why string) error {
		x.class("refused: " + why)
		if code == 0 {
			return fmt.Errorf("not refused: %s", why)
		}
		return nil
	}
	if len(c.Args) > 0 {
		return refuse("arguments")
	}
	req := &pluginpb.CodeGeneratorRequest{}
	if pb.Unmarshal(in, req) != nil {
		return refuse("no request")
	}
	gen, bad, panicked := framework(req)
	if panicked != nil {
		x.class("the framework panics")
		return nil
	}
	if bad != nil {
		if err := refuse("bad request"); err != nil {
			return fmt.Errorf("%w: %v", err, bad)
		}
		if strings.HasPrefix(bad.Error(), "no such flag -") {
			x.class("unknown parameter")
			if p := strings.TrimPrefix(bad.Error(), "no such flag -"); !bytes.Contains(errs, []byte(p)) {
				return fmt.Errorf("the message does not name the unknown parameter %q: %q", p, errs)
			}
		}
		return nil
	}
	if code != 0 {
		return fmt.Errorf("refused: %.600s", errs)
	}
	r := &pluginpb.CodeGeneratorResponse{}
	if err := pb.Unmarshal(out, r); err != nil {
		return fmt.Errorf("response: %v", err)
	}
	if r.Error != nil {
		x.class("answered with an error")
		if len(r.File) > 0 || r.GetError() == "" {
			return fmt.Errorf("error %q and %d files", r.GetError(), len(r.File))
		}
		for _, e := range c.Edit {
			if !slices.Contains([]string{"extra", "reorder", "twice", "none", "unknown", "version"}, e.What) {
				return nil
			}
		}
		if len(c.Mut) == 0 && c.P != nil {
			return fmt.Errorf("answered with an error: %s", r.GetError())
		}
		return nil
	}
	x.class("answered")
	x.classIf(len(c.Edit) > 0 || len(c.Mut) > 0, "answered with an edit")
	if r.GetSupportedFeatures()&uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL) == 0 {
		return errors.New("the response does not announce proto3 optional fields: protoc refuses to use the plugin for these")
	}
	module := ""
	for _, p := range strings.Split(req.GetParameter(), ",") {
		if m, ok := strings.CutPrefix(p, "module="); ok {
			module = m
		}
	}
	var want, have []string
	for _, f := range gen.Files {
		if f.Generate {
			n := f.GeneratedFilenamePrefix + ".pb.go"
			if module != "" {
				n = strings.TrimPrefix(n, strings.TrimSuffix(module, "/")+"/")
			}
			want = append(want, n)
		}
	}
	for _, f := range r.File {
		n := f.GetName()
		if m, ok := strings.CutSuffix(n, ".pb.go.meta"); ok && slices.Contains(want, m+".pb.go") {
			continue
		}
		have = append(have, n)
		if path.Ext(n) == ".go" {
			if _, err := parser.ParseFile(token.NewFileSet(), n, f.GetContent(), 0); err != nil {
				return fmt.Errorf("%s is no Go file: %v", n, err)
			}
		}
	}
	sort.Strings(want)
	sort.Strings(have)
	if !slices.Equal(want, have) {
		return fmt.Errorf("the response has the files %q, want %q", have, want)
	}
	return nil
}

// PublicCase is files which import each other publicly: file i imports some of
// the Back files before it.
type PublicCase struct {
	N    int   `json:"n"`
	Back int   `json:"back"`
	Same bool  `json:"same,omitempty"` // all in one Go package
	Skip []int `json:"skip,omitempty"` // imports left out
}

func genPublic(t *rapid.T) PublicCase {
	c := PublicCase{N: intn(t, 2, 60), Back: intn(t, 1, 6), Same: chance(t, 20)}
	for k := intn(t, 0, 6); k > 0; k-- {
		c.Skip = append(c.Skip, intn(t, 0, c.N*c.Back))
	}
	for c.ways() > 300000 {
		c.N--
	}
	return c
}

// ways is the number of ways from all files to those before them. The framework
// walks each once, which takes it much less than a microsecond.
func (c PublicCase) ways() (all int) {
	ways := make([]int, c.N)
	for i := range ways {
		for k := 1; k <= c.Back && k <= i; k++ {
			if !slices.Contains(c.Skip, i*c.Back+k) {
				ways[i] += 1 + ways[i-k]
			}
		}
		if all += ways[i]; all > 1<<20 {
			break
		}
	}
	return
}

func runPublic(c PublicCase, x *Ctx) error {
	x.nontrivial = c.N > 10 && c.Back > 1
	x.classIf(x.nontrivial, "many ways between files")
	x.classIf(c.ways() > 50000, "more than 50000 ways between files")
	if c.ways() > 300000 {
		return nil
	}
	req := &pluginpb.CodeGeneratorRequest{}
	for i := 0; i < c.N; i++ {
		p := fmt.Sprintf("example.com/p%d", i)
		if c.Same {
			p = "example.com/p"
		}
		f := &descriptorpb.FileDescriptorProto{Name: pb.String(fmt.Sprintf("f%d.proto", i)), Package: pb.String(fmt.Sprintf("p%d", i)), Syntax: pb.String("proto3"),
			Options:     &descriptorpb.FileOptions{GoPackage: pb.String(p)},
			MessageType: []*descriptorpb.DescriptorProto{{Name: pb.String(fmt.Sprintf("M%d", i))}}}
		for k := 1; k <= c.Back && k <= i; k++ {
			if !slices.Contains(c.Skip, i*c.Back+k) {
				f.PublicDependency = append(f.PublicDependency, int32(len(f.Dependency)))
				f.Dependency = append(f.Dependency, fmt.Sprintf("f%d.proto", i-k))
			}
		}
		req.ProtoFile = append(req.ProtoFile, f)
		req.FileToGenerate = append(req.FileToGenerate, f.GetName())
	}
	in, err := pb.Marshal(req)
	must(err)
	code, out, errs, err := runCLIBinary(in, nil)
	if err != nil {
		return err
	}
	r := &pluginpb.CodeGeneratorResponse{}
	if err := pb.Unmarshal(out, r); code != 0 || err != nil || r.Error != nil || len(r.File) != c.N {
		return fmt.Errorf("status %d, %v, error %q, %d files: %.300s", code, err, r.GetError(), len(r.File), errs)
	}
	for i, f := range r.File {
		for k := 1; k <= c.Back && k <= i; k++ {
			fwd := fmt.Sprintf("type M%d = ", i-k)
			if got, want := strings.Contains(f.GetContent(), fwd), !c.Same && !slices.Contains(c.Skip, i*c.Back+k); got != want {
				return fmt.Errorf("%s: %q is there: %v, want %v", f.GetName(), fwd, got, want)
			}
		}
	}
	return nil
}

func init() {
	addProp(&Prop{ID: "C34", Rule: "cases are runs of the plugin binary: on requests with one to five .proto files and parameters, as they are, with an edit (of parameters, names of packages, the list of files, the descriptors), or with changed bytes; on arbitrary bytes; with arguments; and on long chains of files which import each other publicly; exit status, outputs and response are compared with what the plugin framework of google.golang.org/protobuf says about the same request; non-trivial: the input is not empty, in chains: more than ten files with more than one public import each", Subs: []Sub{
		sub("run", 700, 20000, genCLI, runCLI),
		sub("public", 25, 700, genPublic, runPublic),
	}, Assume: []string{"compiler/protogen v1.27.1 decides which requests can be served; requests at which itself panics are outside"}})
}
