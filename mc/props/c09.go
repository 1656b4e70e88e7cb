package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"

	. "modelconvmc/engine"
)

// a document of one kind and how to write it; every call builds it anew
type c09Doc struct {
	kind  string
	write func(w io.Writer) error
	save  func(path string) error
	ext   []string
}

func (d *c09Doc) Describe() string {
	var b bytes.Buffer
	d.write(&b)
	return fmt.Sprintf("%s, %d bytes", d.kind, b.Len())
}

func mqoDoc(kind string, build func() *mqo.Document) *c09Doc {
	return &c09Doc{kind, func(w io.Writer) error { return mqo.NewWriter("").WriteMQO(build(), w) }, func(p string) error { return mqo.Save(build(), p) }, []string{".mqo", ".mqoz"}}
}

func c09Gen(c *Chooser) any {
	switch c.Free("kind", 12) {
	case 0:
		return mqoDoc("MQO materials", frozen(c, func(c *Chooser) *mqo.Document { return c01Materials(c).(*c01Case).doc }))
	case 1:
		return mqoDoc("MQO objects", frozen(c, func(c *Chooser) *mqo.Document { return c01Objects(c).(*c01Case).doc }))
	case 2:
		return mqoDoc("MQO geometry", frozen(c, func(c *Chooser) *mqo.Document { return c01Geometry(c).(*c01Case).doc }))
	case 3, 4:
		g := c02Bones
		kind := "MQX bones"
		if c.Free("other", 2) == 1 {
			g, kind = c02Other, "MQX other"
		}
		b := frozen(c, g)
		d := mqoDoc(kind, b)
		d.write = func(w io.Writer) error { return mqo.WriteMQX(b(), w, "x.mqo") }
		return d
	case 5, 6, 7, 8, 9:
		m, ok := c03Gen(c.Free("part", 5))(c).(*mmdCase)
		if !ok {
			return nil
		}
		return &c09Doc{"PMX", func(w io.Writer) error { return mmd.WritePMX(clonePMX(m.doc), w) }, func(p string) error { return mmd.Save(clonePMX(m.doc), p) }, []string{".pmx"}}
	case 10:
		s := genScene(c)
		build := func() *fbx.Document {
			root := &fbx.Node{Name: "_FBX_ROOT"}
			for _, n := range s.nodes() {
				root.AddChild(n.build())
			}
			doc, _ := fbx.BuildDocument(root)
			return doc
		}
		return &c09Doc{"FBX", func(w io.Writer) error { return fbx.Write(w, build()) }, func(p string) error { return fbx.Save(build(), p) }, []string{".fbx"}}
	}
	name := Pick(c, "name", "n", "日本語")
	nb := Pick(c, "bytes", 8, 0, 5000)
	build := func() *gltf.Document {
		doc := gltf.NewDocument()
		doc.Nodes = []*gltf.Node{{Name: name}}
		doc.Scenes[0].Nodes = []uint32{0}
		if nb > 0 {
			doc.Buffers = []*gltf.Buffer{{ByteLength: uint32(nb), Data: make([]byte, nb)}}
		}
		return doc
	}
	return &c09Doc{"VRM", func(w io.Writer) error { return vrm.Write((*vrm.Document)(build()), w, "") }, nil, nil}
}

// flakyWriter fails once, at the n-th call, and accepts everything else.
type flakyWriter struct{ n, calls int }

func (w *flakyWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls-1 == w.n {
		return 0, errInjected
	}
	return len(p), nil
}

func c09Check(t *T, v any) {
	d := v.(*c09Doc)
	var full bytes.Buffer
	t.Must(d.write(&full) == nil, "write", "cannot write to memory")
	t.State(d.kind, full.Bytes())
	n := 0
	for k := 0; k <= full.Len(); k++ {
		w := &budgetWriter{budget: k}
		err := d.write(w)
		n++
		if k < full.Len() {
			t.Must(err != nil, "unreported", "%s: the destination failed after %d of %d bytes, and success is reported", d.kind, k, full.Len())
		} else {
			t.Must(err == nil && w.n == k, "refused", "%s: everything was accepted, but %v is reported", d.kind, err)
		}
	}
	count := &flakyWriter{n: -1}
	d.write(count)
	for k := 0; k < count.calls; k++ {
		err := d.write(&flakyWriter{n: k})
		t.Must(err != nil, "unreported-once", "%s: write call %d of %d failed, and success is reported", d.kind, k, count.calls)
		n++
	}
	t.Extra(n)
}

// ---- saving to files

func withFileLimit(limit uint64, f func()) {
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: limit, Max: old.Max})
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

type c09File struct {
	doc *c09Doc
	ext string
}

func (c *c09File) Describe() string { return c.doc.kind + " as " + c.ext }

func c09Files(c *Chooser) any {
	d, ok := c09Gen(c).(*c09Doc)
	if !ok || d.save == nil {
		return nil
	}
	return &c09File{d, d.ext[c.Free("ext", len(d.ext))]}
}

func dirSizes(dir string) (max int64, total int64) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			total += i.Size()
			if i.Size() > max {
				max = i.Size()
			}
		}
	}
	return
}

func c09CheckFiles(t *T, v any) {
	cs := v.(*c09File)
	d := cs.doc
	dir := t.Dir()
	path := filepath.Join(dir, "x"+cs.ext)
	t.Must(d.save(path) == nil, "save", "cannot save")
	max, total := dirSizes(dir)
	t.State(d.kind, cs.ext, total, readFile(path))
	n := 0
	for k := int64(0); k <= max; k++ {
		var err error
		withFileLimit(uint64(k), func() { err = d.save(path) })
		n++
		if k < max {
			t.Must(err != nil, "unreported", "%s: files are limited to %d bytes, %d are needed, and Save reports success", cs.Describe(), k, max)
		} else {
			_, now := dirSizes(dir)
			t.Must(err == nil && now == total, "refused", "%s: %d bytes are enough, Save reports %v and wrote %d of %d bytes", cs.Describe(), k, err, now, total)
		}
	}
	// places that cannot be written
	full := filepath.Join(dir, "full"+cs.ext)
	os.Symlink("/dev/full", full)
	t.Must(d.save(full) != nil, "device-full", "%s: the device is full, and Save reports success", cs.Describe())
	t.Must(d.save(filepath.Join(dir, "no", "x"+cs.ext)) != nil, "no-directory", "%s: the directory does not exist, and Save reports success", cs.Describe())
	sub := filepath.Join(dir, "dir"+cs.ext)
	os.Mkdir(sub, 0o755)
	t.Must(d.save(sub) != nil, "directory", "%s: the path is a directory, and Save reports success", cs.Describe())
	if _, err := os.Stat(filepath.Join(dir, "x.mqx")); err == nil { // companion file cannot be written
		os.Symlink("/dev/full", filepath.Join(dir, "y.mqx"))
		t.Must(d.save(filepath.Join(dir, "y.mqo")) != nil, "companion-full", "%s: the companion file cannot be written, and Save reports success", cs.Describe())
		os.Mkdir(filepath.Join(dir, "z.mqx"), 0o755)
		t.Must(d.save(filepath.Join(dir, "z.mqo")) != nil, "companion-create", "%s: the companion file cannot be created, and Save reports success", cs.Describe())
	}
	t.Extra(n + 5)
}

// the companion stream: creating, each byte, closing
type failCloser struct {
	io.Writer
	err error
}

func (f failCloser) Close() error { return f.err }

func c09Companion(c *Chooser) any {
	b := frozen(c, []func(*Chooser) *mqo.Document{c02Bones, c02Other}[c.Free("kind", 2)])
	return mqoDoc("MQO with companion", b).with(b)
}

type c09Comp struct {
	*c09Doc
	build func() *mqo.Document
}

func (d *c09Doc) with(b func() *mqo.Document) *c09Comp { return &c09Comp{d, b} }

func c09CheckCompanion(t *T, v any) {
	cs := v.(*c09Comp)
	run := func(create error, budget int, closeErr error, main io.Writer) (error, int) {
		w := mqo.NewWriter("x.mqo")
		bw := &budgetWriter{budget: budget}
		w.Create = func(string) (io.WriteCloser, error) {
			if create != nil {
				return nil, create
			}
			return failCloser{bw, closeErr}, nil
		}
		err := w.WriteMQO(cs.build(), main)
		return err, bw.n
	}
	big := 1 << 30
	err, size := run(nil, big, nil, io.Discard)
	t.Must(err == nil, "write", "cannot write: %v", err)
	t.State(cs.kind, size, mqoBytes(cs.build()), mqxBytes(cs.build()))
	if size == 0 {
		return
	}
	bad := errors.New("bad")
	err, _ = run(bad, big, nil, io.Discard)
	t.Must(err != nil, "create", "the companion file cannot be created, and success is reported")
	err, _ = run(nil, big, bad, io.Discard)
	t.Must(err != nil, "close", "closing the companion file failed, and success is reported")
	for k := 0; k < size; k++ {
		err, _ = run(nil, k, nil, io.Discard)
		t.Must(err != nil, "companion", "the companion stream failed after %d of %d bytes, and success is reported", k, size)
	}
	n := len(mqoBytes(cs.build()))
	for k := 0; k < n; k += 7 {
		err, _ = run(nil, big, nil, &budgetWriter{budget: k})
		t.Must(err != nil, "main", "the main stream failed after %d bytes, and success is reported", k)
	}
	t.Extra(size + n/7 + 3)
}

func init() {
	Register(&Property{ID: "C09", Level: "fault_enumeration",
		Rule: "documents of every kind within B deviations x every byte budget of the destination x every single failing write call; saves to files x every file size limit, full device, missing directory; companion stream: create, every byte, close",
		Scenarios: []*Scenario{
			{Name: "streams", Gen: c09Gen, Check: c09Check, Quick: 1, Thorough: 2, What: "documents x every byte at which the destination fails, every write call failing once"},
			{Name: "files", Gen: c09Files, Check: c09CheckFiles, Quick: 0, Thorough: 1, What: "saves x every file size limit, /dev/full, missing directory, directory in place of the file"},
			{Name: "companion", Gen: c09Companion, Check: c09CheckCompanion, Quick: 1, Thorough: 2, What: "companion stream: creation, every byte, close"},
		}})
}
