package props

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/unity"

	. "modelconvmc/engine"
)

// C20: Unity packages. The cases run as a user without rights outside the scratch directory, and
// the names that try to escape only reach the box around the temporary directory.

type ent20 struct {
	name string
	typ  byte
	body []byte
	link string
}

type asset20 struct {
	guid, path string
	pathname   string // file contents
	asset      []byte // nil: a folder
	meta       bool
}

type case20 struct {
	ents   []ent20
	assets []asset20
	evil   bool
	cut    int  // bytes kept of the archive, -1: all
	tarCut int  // bytes kept of the tar stream, -1: all
	noise  int  // 1: not an archive, 2: missing file, 3: flipped byte
	dir    bool // an extracted package
	what   string
}

func (c *case20) Describe() string {
	var s []string
	for _, e := range c.ents {
		s = append(s, fmt.Sprintf("%c %q %d", e.typ, e.name, len(e.body)))
	}
	return fmt.Sprintf("%s dir=%v cut=%d tar cut=%d noise=%d: %s", c.what, c.dir, c.cut, c.tarCut, c.noise, strings.Join(s, ", "))
}

func (c *case20) tar() []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, e := range c.ents {
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Mode: 0o644, Size: int64(len(e.body)), Linkname: e.link, Format: tar.FormatPAX}
		if e.typ == tar.TypeDir {
			h.Mode = 0o755
		}
		if err := w.WriteHeader(h); err != nil {
			panic("engine: " + err.Error())
		}
		w.Write(e.body)
	}
	w.Close()
	return b.Bytes()
}

func (c *case20) bytes() []byte {
	tb := c.tar()
	if c.tarCut >= 0 && c.tarCut < len(tb) {
		tb = tb[:c.tarCut]
	}
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Write(tb)
	z.Close()
	r := b.Bytes()
	if c.cut >= 0 && c.cut < len(r) {
		r = r[:c.cut]
	}
	switch c.noise {
	case 1:
		r = []byte("this is not an archive")
	case 3:
		r[len(r)/2] ^= 0x55
	}
	return r
}

var guids20 = []string{"333eda6e386914e2ea4a34f28bf16579", "56d01d7bb336e4eef97fc7bf5d42d6f2", "9fc0d4010bbf28b4594072e72b8655ab"}
var paths20 = []string{"Assets/Scenes/A.unity", "Assets/素材 1/b.png", "Assets/c"}

func body20(k int) []byte {
	switch k {
	case 1:
		return []byte{}
	case 2:
		return bytes.Repeat([]byte{0, 1, 2, 250, '\n'}, 15000)
	}
	return []byte("content of a file\n")
}

func mk20(c *Chooser, n int) *case20 {
	k := &case20{cut: -1, tarCut: -1}
	dirs := c.Choose("directory entries", 4) // 0 first, 1 none, 2 last, 3 just for the first asset
	prefix := Pick(c, "name prefix", "", "./")
	var de, fe []ent20
	for i := 0; i < n; i++ {
		a := asset20{guid: guids20[i], path: paths20[i], asset: body20(c.Choose(fmt.Sprint("body ", i), 3)), meta: true}
		a.pathname = a.path
		switch c.Choose(fmt.Sprint("pathname ", i), 3) {
		case 1:
			a.pathname = a.path + "\n00"
		case 2:
			a.pathname = a.path + "\n"
		}
		p := prefix + a.guid + "/"
		de = append(de, ent20{name: p, typ: tar.TypeDir})
		files := []ent20{
			{name: p + "asset.meta", typ: tar.TypeReg, body: []byte("fileFormatVersion: 2\nguid: " + a.guid + "\nModelImporter:\n  fileIDToRecycleName:\n    4300000: Mesh" + fmt.Sprint(i) + "\n")},
			{name: p + "asset", typ: tar.TypeReg, body: a.asset},
			{name: p + "pathname", typ: tar.TypeReg, body: []byte(a.pathname)},
		}
		switch c.Choose(fmt.Sprint("members ", i), 4) {
		case 1: // folder
			a.asset = nil
			files = []ent20{files[0], files[2]}
		case 2:
			a.meta = false
			files = files[1:]
		case 3: // not an asset
			files = files[:2]
			a.path = ""
		}
		if c.Flag(fmt.Sprint("preview ", i)) {
			files = append(files, ent20{name: p + "preview.png", typ: tar.TypeReg, body: []byte("png")})
		}
		switch c.Choose(fmt.Sprint("order ", i), 3) {
		case 1:
			for a, b := 0, len(files)-1; a < b; a, b = a+1, b-1 {
				files[a], files[b] = files[b], files[a]
			}
		case 2:
			files = append(files[1:], files[0])
		}
		fe = append(fe, files...)
		if a.path != "" {
			k.assets = append(k.assets, a)
		}
	}
	if c.Flag("interleaved") {
		sort.SliceStable(fe, func(i, j int) bool { return filepath.Base(fe[i].name) < filepath.Base(fe[j].name) })
	}
	switch dirs {
	case 0:
		k.ents = append(append(k.ents, de...), fe...)
		if prefix != "" {
			k.ents = append([]ent20{{name: "./", typ: tar.TypeDir}}, k.ents...)
		}
	case 1:
		k.ents = fe
	case 2:
		k.ents = append(append(k.ents, fe...), de...)
	case 3:
		k.ents = append(append(k.ents, de[0]), fe...)
	}
	if c.Flag("icon") {
		k.ents = append(k.ents, ent20{name: prefix + ".icon.png", typ: tar.TypeReg, body: []byte("icon")})
	}
	return k
}

func gen20(c *Chooser) any {
	k := mk20(c, c.Free("assets", 3)+1)
	k.what = "archive"
	k.dir = c.FreeFlag("extracted")
	return k
}

// gen20Sizes makes one part of the package n large.
func gen20Sizes(c *Chooser) any {
	k := &case20{cut: -1, tarCut: -1, dir: c.FreeFlag("extracted")}
	kind := c.Free("section", 6)
	max := []int{300, 66000, 1030, 100, 4097, 300}[kind]
	var ns []int
	for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
		if n <= max {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	k.what = fmt.Sprint([]string{"assets", "content", "path", "depth", "metadata", "other entries"}[kind], " ", n)
	add := func(i int, path string, body []byte, recycle string) {
		a := asset20{guid: fmt.Sprintf("%032x", i*7919+1), path: path, pathname: path, asset: body, meta: true}
		p := a.guid + "/"
		k.ents = append(k.ents, ent20{name: p, typ: tar.TypeDir},
			ent20{name: p + "asset", typ: tar.TypeReg, body: a.asset},
			ent20{name: p + "asset.meta", typ: tar.TypeReg, body: []byte("fileFormatVersion: 2\nguid: " + a.guid + "\nModelImporter:\n  fileIDToRecycleName:\n    4300000: Mesh\n" + recycle)},
			ent20{name: p + "pathname", typ: tar.TypeReg, body: []byte(path)})
		k.assets = append(k.assets, a)
	}
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			add(i, fmt.Sprintf("Assets/%d/f%d", i%5, i), []byte(fmt.Sprint("data ", i)), "")
		}
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * i >> 3)
		}
		add(0, "Assets/a", b, "")
		add(1, "Assets/b", b[:n/2], "")
	case 2:
		add(0, "Assets/"+strings.Repeat("p", n), []byte("1"), "")
		add(1, "Assets/"+strings.Repeat("p", n)+"q", []byte("2"), "")
	case 3:
		add(0, "Assets"+strings.Repeat("/d", n)+"/f", []byte("1"), "")
		add(1, "Assets"+strings.Repeat("/d", n-1)+"/f", []byte("2"), "")
	case 4:
		var s strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&s, "    %d: m%d\n", 4300002+2*i, i)
		}
		add(0, "Assets/a.fbx", []byte("1"), s.String())
		add(1, "Assets/b.fbx", []byte("2"), "")
	case 5:
		add(0, "Assets/a", []byte("1"), "")
		for i := 0; i < n; i++ {
			k.ents = append(k.ents, ent20{name: fmt.Sprintf("%s/extra%d", k.assets[0].guid, i), typ: tar.TypeReg, body: []byte("x")})
		}
		add(1, "Assets/b", []byte("2"), "")
	}
	return k
}

// names that leave the extraction directory, or would if they were not handled with care
var evil20 = []ent20{
	{name: "../victim", typ: tar.TypeReg},
	{name: "../../victim", typ: tar.TypeReg},
	{name: guids20[0] + "/../../victim", typ: tar.TypeReg},
	{name: guids20[0] + "/../../../victim", typ: tar.TypeReg},
	{name: "./../../new/", typ: tar.TypeDir},
	{name: "../new/sub/", typ: tar.TypeDir},
	{name: "../../new/file", typ: tar.TypeReg},
	{name: "..", typ: tar.TypeReg},
	{name: "../..", typ: tar.TypeDir},
	{name: "a/../../../victim", typ: tar.TypeReg},
	{name: guids20[0] + "/../../tmp/../victim", typ: tar.TypeReg},
	{name: guids20[1], typ: tar.TypeSymlink, link: "../.."},
	{name: guids20[1], typ: tar.TypeSymlink, link: "../../victim"},
	{name: guids20[0] + "/asset", typ: tar.TypeSymlink, link: "../../../victim"},
	{name: guids20[0] + "/pathname", typ: tar.TypeLink, link: "../../../victim"},
	{name: "../victimdir/inner", typ: tar.TypeReg},
	{name: "../../victimdir", typ: tar.TypeSymlink, link: "/nonexistent"},
}

func gen20Evil(c *Chooser) any {
	k := mk20(c, c.Free("assets", 2)+1)
	k.what, k.evil = "hostile archive", true
	for i := 0; i < 2; i++ {
		n := c.Free(fmt.Sprint("hostile entry ", i), len(evil20)+1)
		if n == 0 {
			if i == 0 {
				return nil
			}
			break
		}
		e := evil20[n-1]
		if e.typ == tar.TypeReg {
			e.body = []byte("overwritten")
		}
		at := []int{0, len(k.ents), len(k.ents) / 2}[c.Choose(fmt.Sprint("place ", i), 3)]
		l := append([]ent20{}, k.ents[:at]...)
		l = append(l, e)
		if e.typ == tar.TypeSymlink && c.FreeFlag(fmt.Sprint("write through ", i)) {
			l = append(l, ent20{name: e.name + "/victim", typ: tar.TypeReg, body: []byte("overwritten")}, ent20{name: e.name, typ: tar.TypeReg, body: []byte("overwritten")})
		}
		k.ents = append(l, k.ents[at:]...)
	}
	return k
}

func gen20Damage(c *Chooser) any {
	kind := c.Free("damage", 4)
	n := c.Free("assets", 2) + 1
	k := mk20(c, n)
	k.what = "damaged archive"
	switch kind {
	case 0:
		full := len(k.bytes())
		if full > 3000 {
			return nil
		}
		k.cut = c.Free("bytes", full)
	case 1:
		full := len(k.tar())
		if full > 20000 {
			return nil
		}
		k.tarCut = c.Free("tar bytes", full/64) * 64
	case 2:
		k.noise = 1 + c.Free("kind", 2)
	case 3:
		k.noise = 3
	}
	return k
}

// tree20 lists everything below a directory.
func tree20(root string) map[string]string {
	r := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			r[p] = err.Error()
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case fi.IsDir():
			r[rel] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			r[rel] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			r[rel] = "file " + string(b)
		}
		return nil
	})
	return r
}

func diffTrees(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return fmt.Sprintf("%q was removed", k)
		} else if v != w {
			return fmt.Sprintf("%q was changed from %.40q to %.40q", k, v, w)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q was created (%.40q)", k, v)
		}
	}
	return ""
}

// box20 makes the box: box/tmp is the directory for temporary files.
func box20(t *T) (box, tmp string) {
	box = filepath.Join(t.Dir(), "outer", "box")
	tmp = filepath.Join(box, "tmp")
	for _, d := range []string{box, tmp, filepath.Join(box, "victimdir"), filepath.Join(tmp, "victimdir")} {
		os.MkdirAll(d, 0o755)
		writeFile(filepath.Join(d, "victim"), []byte("untouched"))
	}
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	t.Cleanups = append(t.Cleanups, func() { os.Setenv("TMPDIR", old) })
	return
}

func readAsset(a unity.Assets, path string) ([]byte, error) {
	f, err := a.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// sameAssets compares an open package with what it has to contain.
func sameAssets(t *T, a unity.Assets, want []asset20) {
	var guids []string
	for _, x := range a.GetAllAssets() {
		guids = append(guids, x.GUID)
	}
	sort.Strings(guids)
	var wg []string
	for _, w := range want {
		wg = append(wg, w.guid)
	}
	sort.Strings(wg)
	t.Expect(fmt.Sprint(guids) == fmt.Sprint(wg), "assets", "assets %v, not %v", guids, wg)
	for _, w := range want {
		x := a.GetAsset(w.guid)
		if !t.Expect(x != nil && x.GUID == w.guid && x.Path == w.path, "by id", "asset %s is %+v, not %q", w.guid, x, w.path) {
			continue
		}
		y := a.GetAssetByPath(w.path)
		t.Expect(y != nil && y.GUID == w.guid, "by path", "asset at %q is %+v, not %s", w.path, y, w.guid)
		b, err := readAsset(a, w.path)
		if w.asset == nil {
			t.Expect(err != nil, "folder", "folder %q can be read", w.path)
		} else {
			t.Expect(err == nil && bytes.Equal(b, w.asset), "contents", "%q has %d bytes, not %d (%v)", w.path, len(b), len(w.asset), err)
		}
		m, err := a.GetMetaFile(x)
		if w.meta {
			t.Expect(err == nil && m != nil && m.GUID == w.guid && m.FileFormatVersion == 2 && strings.HasPrefix(m.GetRecycleNameByFileID(4300000), "Mesh") && m.GetRecycleNameByFileID(1) == "", "metadata", "metadata of %q is %+v, %v", w.path, m, err)
		} else {
			t.Expect(err != nil, "metadata", "metadata of %q which has none", w.path)
		}
	}
	t.Expect(a.GetAsset("nothing") == nil && a.GetAssetByPath("Assets/nothing") == nil, "nothing", "finds what does not exist")
	_, err := readAsset(a, "Assets/nothing")
	t.Expect(err != nil, "nothing", "opens what does not exist")
}

func c20Check(t *T, v any) {
	c := v.(*case20)
	box, tmp := box20(t)
	pkg := filepath.Join(box, "p.unitypackage")
	if c.dir {
		for _, e := range c.ents {
			p := filepath.Join(pkg, e.name)
			if e.typ == tar.TypeDir {
				os.MkdirAll(p, 0o755)
				continue
			}
			os.MkdirAll(filepath.Dir(p), 0o755)
			writeFile(p, e.body)
		}
	} else if c.noise != 2 {
		writeFile(pkg, c.bytes())
	}
	before := tree20(filepath.Dir(box))
	a, err := unity.OpenPackage(pkg)
	if err != nil {
		t.Expect(c.evil || c.cut >= 0 || c.tarCut >= 0 || c.noise > 0, "open", "can not be opened: %v", err)
		d := diffTrees(before, tree20(filepath.Dir(box)))
		t.Expect(d == "", "left behind", "after failing to open (%v): %s", err, d)
		t.State("error", c.what)
		return
	}
	t.Expect(c.noise == 0 || c.noise == 3, "open", "opening succeeded")
	// while open only one new directory in the temporary directory
	mid := tree20(filepath.Dir(box))
	opened := ""
	for k := range mid {
		if _, ok := before[k]; !ok {
			rel, _ := filepath.Rel("box/tmp", k)
			top := strings.SplitN(filepath.ToSlash(rel), "/", 2)[0]
			if top == ".." || c.dir {
				t.Fail("outside", "%q was created (%.40q)", k, mid[k])
			} else if opened == "" || opened == top {
				opened = top
			} else {
				t.Fail("outside", "more than one temporary directory: %q and %q", opened, top)
			}
			delete(mid, k)
		}
	}
	if d := diffTrees(before, mid); d != "" {
		t.Fail("outside", "%s", d)
	}
	t.Expect(a.GetSourcePath() == pkg, "source", "source path is %q, not %q", a.GetSourcePath(), pkg)
	if c.tarCut >= 0 {
		// without an end mark a shorter archive looks complete: what is there is right
		for _, x := range a.GetAllAssets() {
			for _, w := range c.assets {
				if b, err := readAsset(a, x.Path); x.GUID == w.guid && err == nil {
					t.Expect(x.Path == w.path && bytes.Equal(b, w.asset), "partial", "asset %+v has %d bytes, not %d", x, len(b), len(w.asset))
				}
			}
		}
	} else if !c.evil && c.noise == 0 {
		// a damaged archive that opens contains everything that was in it before the damage
		sameAssets(t, a, c.assets)
	}
	err = a.Close()
	t.Expect(err == nil, "close", "closing failed: %v", err)
	if d := diffTrees(before, tree20(filepath.Dir(box))); d != "" {
		t.Fail("left behind", "after closing: %s", d)
	}
	_ = tmp
	t.State("open", c.what, c.dir, len(c.ents))
}

// histories of several open packages

type case20h struct{ ops []int }

func (c *case20h) Describe() string {
	s := ""
	for _, o := range c.ops {
		s += []string{" open A", " open B", " close 1st", " close 2nd", " close 3rd", " open broken"}[o]
	}
	return s
}

func gen20H(depth int) func(c *Chooser) any {
	return func(c *Chooser) any {
		k := &case20h{}
		open := 0
		for i := 0; i < depth; i++ {
			n := c.Free(fmt.Sprint("step ", i), 7)
			if n == 0 {
				break
			}
			n--
			if n < 2 {
				open++
				if open > 3 {
					return nil
				}
			} else if n < 5 && n-2 >= open {
				return nil
			}
			k.ops = append(k.ops, n)
		}
		return k
	}
}

func c20History(t *T, v any) {
	c := v.(*case20h)
	box, _ := box20(t)
	pk := []*case20{}
	for i := 0; i < 2; i++ {
		k := mk20(Fixed(func(l string, n int) int {
			if l == fmt.Sprint("body ", i) && n > i {
				return 1 + i
			}
			return 0
		}), 2+i)
		k.cut, k.tarCut = -1, -1
		pk = append(pk, k)
		writeFile(filepath.Join(box, fmt.Sprint(i)), k.bytes())
	}
	b := pk[0].bytes()
	writeFile(filepath.Join(box, "broken"), b[:len(b)-30])
	before := tree20(filepath.Dir(box))
	type opened struct {
		a      unity.Assets
		k      *case20
		closed bool
	}
	var list []*opened
	for _, o := range c.ops {
		switch o {
		case 0, 1:
			a, err := unity.OpenPackage(filepath.Join(box, fmt.Sprint(o)))
			t.Must(err == nil, "open", "can not be opened: %v", err)
			list = append(list, &opened{a: a, k: pk[o]})
		case 5:
			_, err := unity.OpenPackage(filepath.Join(box, "broken"))
			t.Expect(err != nil, "broken", "broken package was opened")
		default:
			x := list[o-2]
			err := x.a.Close()
			t.Expect(err == nil, "close", "closing failed (closed before: %v): %v", x.closed, err)
			x.closed = true
		}
		alive := 0
		for _, x := range list {
			if x.closed {
				_, err := readAsset(x.a, x.k.assets[0].path)
				t.Expect(err != nil, "closed", "a closed package can still be read")
				continue
			}
			alive++
			sameAssets(t, x.a, x.k.assets)
		}
		tops := map[string]bool{}
		for k := range tree20(filepath.Join(box, "tmp")) {
			top := strings.SplitN(filepath.ToSlash(k), "/", 2)[0]
			if _, ok := before["box/tmp/"+top]; !ok && top != "." {
				tops[top] = true
			}
		}
		t.Expect(len(tops) == alive, "temporary directories", "%d temporary directories for %d open packages", len(tops), alive)
	}
	for _, x := range list {
		if !x.closed {
			x.a.Close()
		}
	}
	d := diffTrees(before, tree20(filepath.Dir(box)))
	t.Expect(d == "", "left behind", "%s", d)
	t.State(len(c.ops), len(list))
}

// project directories

type case20p struct {
	files map[string]string // path below the project
	want  []asset20
	how   int
}

func (c *case20p) Describe() string { return fmt.Sprint(c.how, " ", sortedKeys(c.files)) }

func gen20P(c *Chooser) any {
	k := &case20p{files: map[string]string{"Assets/nometa.txt": "x", "ProjectSettings/p.asset.meta": "guid: 0123"}, how: c.Free("opened as", 3)}
	for i, p := range []string{"Assets/a.unity", "Assets/素材 1/b.png", "Assets/素材 1/c.meta.txt"} {
		kind := c.Choose(fmt.Sprint("file ", i), 6)
		if i == 0 && kind == 1 {
			kind = 0
		} else if i > 0 && kind == 0 {
			kind = 1
		} else if i > 0 && kind == 1 {
			kind = 0
		}
		a := asset20{guid: guids20[i], path: p, asset: []byte("data " + p), meta: true}
		meta := "fileFormatVersion: 2\nguid: " + a.guid + "\nModelImporter:\n  fileIDToRecycleName:\n    4300000: Mesh\n"
		switch kind {
		case 0:
			k.files[p] = "data " + p
			k.files[p+".meta"] = meta
		case 1:
			continue
		case 2: // broken metadata
			k.files[p] = "data " + p
			k.files[p+".meta"] = "guid: [\n"
			continue
		case 3: // Windows line ends
			k.files[p] = "data " + p
			k.files[p+".meta"] = strings.ReplaceAll(meta, "\n", "\r\n")
		case 4: // a directory
			k.files[p+".meta"] = meta
			k.files[p+"/x"] = "x"
			a.asset = nil
		case 5: // further settings in the metadata
			k.files[p] = "data " + p
			k.files[p+".meta"] = meta + "TextureImporter:\n  mipmaps:\n    mipMapMode: 0\nother: [1, 2]\n"
		}
		k.want = append(k.want, a)
	}
	return k
}

func gen20PSizes(c *Chooser) any {
	k := &case20p{files: map[string]string{}, how: c.Free("opened as", 3)}
	kind := c.Free("section", 4)
	max := []int{600, 100, 245, 4097}[kind]
	var ns []int
	for _, n := range append(append([]int{}, sizesAll...), sizesBig...) {
		if n <= max {
			ns = append(ns, n)
		}
	}
	n := ns[c.Free("size", len(ns))]
	add := func(i int, p, extra string) {
		a := asset20{guid: fmt.Sprintf("%032x", i*7919+1), path: p, asset: []byte("data " + p), meta: true}
		k.files[p] = "data " + p
		k.files[p+".meta"] = "fileFormatVersion: 2\nguid: " + a.guid + "\nModelImporter:\n  fileIDToRecycleName:\n    4300000: Mesh\n" + extra
		k.want = append(k.want, a)
	}
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			add(i, fmt.Sprintf("Assets/%d/f%d", i%3, i), "")
		}
	case 1:
		add(0, "Assets"+strings.Repeat("/d", n)+"/f", "")
		add(1, "Assets"+strings.Repeat("/d", n-1)+"/f", "")
	case 2:
		add(0, "Assets/"+strings.Repeat("n", n), "")
		add(1, "Assets/"+strings.Repeat("n", n)+"2", "")
	case 3:
		var s strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&s, "    %d: m%d\n", 4300002+2*i, i)
		}
		add(0, "Assets/a.fbx", s.String())
		add(1, "Assets/b.fbx", "")
	}
	return k
}

func c20Project(t *T, v any) {
	c := v.(*case20p)
	root := filepath.Join(t.Dir(), "my project")
	for p, b := range c.files {
		f := filepath.Join(root, p)
		os.MkdirAll(filepath.Dir(f), 0o755)
		writeFile(f, []byte(b))
	}
	before := tree20(root)
	var a unity.Assets
	var err error
	src := filepath.Join(root, "Assets")
	switch c.how {
	case 0:
		a, err = unity.OpenProject(root)
	case 1:
		a, err = unity.OpenAssets(src)
	case 2:
		old, _ := os.Getwd()
		os.Chdir(root)
		t.Cleanups = append(t.Cleanups, func() { os.Chdir(old) })
		src = "Assets"
		a, err = unity.OpenAssets(src)
	}
	t.Must(err == nil, "open", "can not be opened: %v", err)
	t.Expect(a.GetSourcePath() == src, "source", "source path is %q, not %q", a.GetSourcePath(), src)
	sameAssets(t, a, c.want)
	t.Expect(a.Close() == nil, "close", "closing failed")
	d := diffTrees(before, tree20(root))
	t.Expect(d == "", "changed", "%s", d)
	t.State(c.how, len(c.want), sortedKeys(c.files), len(c.files["Assets/a.fbx.meta"]))
}

func init() {
	Register(&Property{ID: "C20", Level: "model_checking", Unprivileged: true, Scenarios: []*Scenario{
		{Name: "archives", Quick: 2, Thorough: 4, Gen: gen20, Check: c20Check, What: "packages: members, entry orders, directory entries, contents"},
		{Name: "sizes", Gen: gen20Sizes, Check: c20Check, What: "number and size of assets, paths and metadata, n around every power of two up to 66000"},
		{Name: "hostile", Quick: 1, Thorough: 2, Gen: gen20Evil, Check: c20Check, What: "one or two hostile entries at every place of a package"},
		{Name: "damaged", Quick: 0, Thorough: 1, Gen: gen20Damage, Check: c20Check, What: "packages cut at every byte, cut tar streams, other files"},
		{Name: "histories", Quick: 0, Thorough: 0, Gen: gen20H(5), Check: c20History, What: "every order of opening and closing several packages"},
		{Name: "projects", Quick: 3, Thorough: 3, Gen: gen20P, Check: c20Project, What: "project directories"},
		{Name: "project-sizes", Gen: gen20PSizes, Check: c20Project, What: "number of files, depth, length of names and of metadata"},
	}})
}
