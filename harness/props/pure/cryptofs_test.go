package pure

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"axverif/kit"

	"github.com/axgrid/axutils/crypto_fs"
)

// node is a file or folder of the reference tree.
type node struct {
	name string
	dir  bool
	data []byte
	kids []*node
	mode os.FileMode // 0644 if 0
	link bool        // a symbolic link to a file elsewhere
}

var nameParts = []string{"a", "b", "data", "Ünïcode", "with space", ".hidden", "x.tar.gz", "日本", "config.json", "-dash", "semi;colon", "UPPER", "upper", "0", "..data"}

// names that some tool or other treats in a way of its own
var knownNames = []string{".git", ".gitignore", ".DS_Store", "Thumbs.db", "desktop.ini", "node_modules", "vendor", ".env", ".svn", "CVS", "__pycache__",
	"lost+found", "file~", "#file#", ".file.swp", "a.tmp", "a.bak", "a.part", "a.enc", "a.aes", "a.bin", "a.gob", "a.zip", "core", "nul", "CON", "~", "$HOME", "%41", "a:b", "*", "?", "[x]",
	"back\\slash", "tab\tname", "new\nline", "quote\"'", " ", " lead", "trail ", "...", "a..b", "index.html", "go.mod", "README", "Makefile", "a.go", "testdata", "_x", "e\u0301", "\u00e9"}

func anyName(r *rand.Rand, used map[string]bool) string {
	for {
		n := pick(r, nameParts...)
		if r.IntN(3) == 0 {
			n = pick(r, knownNames...)
		} else if r.IntN(2) == 0 {
			n += fmt.Sprint(r.IntN(40))
		}
		if r.IntN(60) == 0 {
			n = strings.Repeat("long", 50) + fmt.Sprint(r.IntN(10))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

type shape struct {
	files, depth, big int
}

func anyTree(r *rand.Rand, name string, s *shape, depth int) *node {
	n := &node{name: name, dir: true}
	used := map[string]bool{}
	for range r.IntN(6) {
		if s.files <= 0 {
			break
		}
		s.files--
		if depth < s.depth && r.IntN(2) == 0 {
			n.kids = append(n.kids, anyTree(r, anyName(r, used), s, depth+1))
		} else {
			n.kids = append(n.kids, anyFile(r, anyName(r, used), s))
		}
	}
	return n
}

func anyFile(r *rand.Rand, name string, s *shape) *node {
	l := 0
	switch r.IntN(6) {
	case 0:
	case 1, 2, 3:
		l = r.IntN(200)
	case 4:
		l = size(r, 20000)
	case 5:
		l = size(r, 1+s.big)
	}
	return &node{name: name, data: content(r, l), mode: pick(r, 0, 0, 0, os.FileMode(0o600), 0o444, 0o400, 0o755, 0o200, 0o111, os.ModeSticky|0o001), link: r.IntN(25) == 0}
}

// scratchRoot is the scratch directory that at lies in.
func scratchRoot(c *kit.Case, at string) string {
	at, err := filepath.Abs(at)
	must(c, err)
	for !strings.HasPrefix(filepath.Base(at), "cfs") {
		if at == "/" {
			c.Fatal("not in a scratch directory")
		}
		at = filepath.Dir(at)
	}
	return at
}

func (n *node) write(c *kit.Case, at string) {
	var err error
	if n.dir {
		err = os.Mkdir(at, 0o755)
	} else {
		if n.mode == 0 {
			n.mode = 0o644
		}
		if n.link {
			elsewhere, lerr := os.MkdirTemp(scratchRoot(c, at), "linked")
			must(c, lerr)
			must(c, os.WriteFile(elsewhere+"/it", n.data, n.mode))
			err = os.Symlink(elsewhere+"/it", at)
		} else {
			err = os.WriteFile(at, n.data, n.mode)
		}
	}
	if err != nil {
		c.Fatal("%v", err)
	}
	for _, k := range n.kids {
		k.write(c, at+"/"+k.name)
	}
}

// all lists the tree below path at, by path.
func (n *node) all(at string, into map[string]*node) {
	into[at] = n
	for _, k := range n.kids {
		p := at + "/" + k.name
		if at == "." {
			p = k.name
		}
		k.all(p, into)
	}
}

func (n *node) count() (files, dirs, bytes, depth int) {
	if !n.dir {
		return 1, 0, len(n.data), 0
	}
	for _, k := range n.kids {
		f, d, b, h := k.count()
		files, dirs, bytes, depth = files+f, dirs+d, bytes+b, max(depth, h)
	}
	return files, dirs + 1, bytes, depth + 1
}

// archive is a case: what was archived, by path, and where it was saved.
type archive struct {
	dir   string // scratch
	want  map[string]*node
	roots []string // folders archived as a whole
	saved string
	key   []byte
	fsys  crypto_fs.CryptoFS
	names []string
}

func scratch(c *kit.Case) string {
	dir, err := os.MkdirTemp("", "cfs")
	if err != nil {
		c.Fatal("%v", err)
	}
	return dir
}

func cleanup(dir string) {
	if strings.Contains(filepath.Base(dir), "cfs") {
		os.RemoveAll(dir)
	}
}

func must(c *kit.Case, err error) {
	if err != nil {
		c.Fatal("%v", err)
	}
}

// closed: no file below dir, nor the one named, is left open.
func closed(c *kit.Case, dir, after string) {
	all, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return
	}
	for _, e := range all {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(to, dir+"/") || to == "/dev/full") {
			c.Violate("%s leaves %s open", after, strings.Replace(to, dir, "", 1))
		}
	}
	c.Events("looks at the open files", 1)
}

// makeArchive writes random files, archives some of them and saves.
func makeArchive(c *kit.Case, r *rand.Rand, s shape, encrypted bool) *archive {
	a := &archive{dir: scratch(c), want: map[string]*node{}}
	if encrypted {
		a.key = anyKey(r)
	}
	src := a.dir + "/src"
	must(c, os.Mkdir(src, 0o755))
	b := crypto_fs.NewCryptoFSBuilder()
	a.saved = a.dir + "/archive.bin"
	if r.IntN(4) == 0 { // an earlier, longer file is at the place
		must(c, os.WriteFile(a.saved, fill(r, 200000), 0o644))
	}
	configure := func() {
		b = b.WithSavePath(a.saved)
		if encrypted {
			b = b.WithAES(a.key)
		}
	}
	early := r.IntN(2) == 0
	if early {
		configure()
	}
	used := map[string]bool{}
	// decoy makes a directory below which the path names another file
	decoy := func(at string) string {
		root, err := os.MkdirTemp(a.dir, "root")
		must(c, err)
		at = filepath.Join(root, at)
		if !strings.HasPrefix(at, root+"/") {
			return root
		}
		must(c, os.MkdirAll(filepath.Dir(at), 0o755))
		must(c, os.WriteFile(at, []byte("another file"), 0o644))
		return root
	}
	s0 := s
	for range 1 + r.IntN(3) {
		s = s0
		switch r.IntN(5) {
		case 0, 1: // single files
			for range 1 + r.IntN(3) {
				f := anyFile(r, anyName(r, used), &s)
				f.write(c, src+"/"+f.name)
				at := src + "/" + f.name
				if r.IntN(6) == 0 { // it goes by the path it was added with
					at = src + pick(r, "//", "/./", "/../src/", "/.//") + f.name
				}
				if r.IntN(4) == 0 { // a root directory is for folders only
					b = b.WithRootDir(decoy(at)).AddFile(at).WithRootDir("")
				} else {
					b = b.AddFile(at)
				}
				f.all(at, a.want)
			}
		case 2, 3: // a folder, its path in full or below a root
			t := anyTree(r, anyName(r, used), &s, 0)
			t.write(c, src+"/"+t.name)
			if r.IntN(2) == 0 {
				b = b.WithRootDir(src + pick(r, "", "", "/", "//", "/.", "/../src")).AddFolder(pick(r, "", "", "./", "/") + t.name + pick(r, "", "", "/", "//", "/.")).WithRootDir("")
			} else {
				b = b.AddFolder(src + pick(r, "/", "/", "//", "/./", "/../src/") + t.name + pick(r, "", "", "/", "//", "/."))
			}
			t.all(src+"/"+t.name, a.want)
			a.roots = append(a.roots, src+"/"+t.name)
		case 4: // a folder below the working directory, by its relative path
			n := anyName(r, used)
			wd := src + "/wd" + fmt.Sprint(len(used))
			must(c, os.Mkdir(wd, 0o755))
			old, err := os.Getwd()
			must(c, err)
			must(c, os.Chdir(wd))
			t := anyTree(r, n, &s, 0)
			t.write(c, n)
			at := n
			if r.IntN(3) == 0 && !used["."] {
				used["."] = true
				at = "."
				whole := &node{name: ".", dir: true, kids: []*node{t}}
				b = b.AddFolder(".")
				whole.all(".", a.want)
			} else {
				b = b.AddFolder(n)
				t.all(n, a.want)
			}
			a.roots = append(a.roots, at)
			if len(t.kids) > 0 && !t.kids[0].dir {
				// and a file by its relative path once more
				if at := n + "/" + t.kids[0].name; r.IntN(2) == 0 {
					b = b.WithRootDir(decoy(at)).AddFile(at).WithRootDir("")
				} else {
					b = b.AddFile(at)
				}
			}
			if at != "." && r.IntN(2) == 0 { // and one only by its relative path
				f := anyFile(r, anyName(r, used), &s)
				f.write(c, f.name)
				b = b.WithRootDir(decoy(f.name)).AddFile(f.name).WithRootDir("")
				f.all(f.name, a.want)
			}
			must(c, os.Chdir(old))
		}
	}
	if r.IntN(3) == 0 { // a file changed between two additions has its later content
		for _, p := range a.paths() {
			n := a.want[p]
			if !n.dir && strings.HasPrefix(p, "/") && !strings.Contains(p[len(src)+1:], "/") {
				n.data = content(r, r.IntN(300))
				must(c, os.WriteFile(p, n.data, 0o644))
				b = b.AddFile(p)
				break
			}
		}
	}
	for _, root := range a.roots { // and so has one in a folder added again
		if !strings.HasPrefix(root, "/") || r.IntN(3) > 0 {
			continue
		}
		changed := false
		for _, p := range a.paths() {
			if n := a.want[p]; !n.dir && !n.link && strings.HasPrefix(p, root+"/") && len(n.data) > 0 && r.IntN(2) == 0 {
				n.data = bytes.Clone(n.data)
				n.data[r.IntN(len(n.data))] ^= 1 << r.IntN(8) // of the same size
				must(c, os.WriteFile(p, n.data, 0o644))
				changed = true
			}
		}
		if changed {
			b = b.AddFolder(root)
			c.Events("folders added again after changes", 1)
		}
	}
	// something on disk that is not archived
	must(c, os.WriteFile(src+"/not archived", []byte("x"), 0o644))
	if !early {
		configure()
	}
	if r.IntN(4) == 0 { // what is added is read when it is added
		must(c, os.RemoveAll(src))
	}
	closed(c, a.dir, "adding files and folders")
	if err := b.Save(); err != nil {
		c.Violate("Save (key of %d bytes): %v", len(a.key), err)
	}
	closed(c, a.dir, "Save")
	if r.IntN(3) == 0 {
		must(c, os.RemoveAll(src))
		must(c, os.Mkdir(src, 0o755))
		for p, n := range a.want {
			if strings.HasPrefix(p, src) && !n.dir {
				os.WriteFile(p, []byte("changed on disk"), 0o644)
			}
		}
	}
	for _, n := range a.want {
		a.names = append(a.names, n.name)
	}
	sort.Strings(a.names)
	return a
}

func (a *archive) load(c *kit.Case) {
	key := a.key
	var err error
	before, rerr := os.ReadFile(a.saved)
	must(c, rerr)
	a.fsys, err = crypto_fs.CryptoFSFromFile(a.saved, key)
	if err != nil {
		c.Violate("loading an intact archive of %d entries (key of %d bytes): %v", len(a.want), len(a.key), err)
	}
	if a.fsys == nil {
		c.Violate("loading an intact archive gives no file system")
	}
	closed(c, a.dir, "loading an archive")
	after, rerr := os.ReadFile(a.saved)
	must(c, rerr)
	if !bytes.Equal(before, after) {
		c.Violate("loading an archive changed it")
	}
}

func (a *archive) paths() []string {
	var ps []string
	for p := range a.want {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// readAll reads a file with buffers of the given sizes to its end.
func readAll(c *kit.Case, what string, f io.Reader, limit int, next func() int) []byte {
	var got []byte
	for idle := 0; ; {
		buf := make([]byte, next())
		n, err := f.Read(buf)
		if n < 0 || n > len(buf) {
			c.Violate("%s: Read into %d bytes returns %d", what, len(buf), n)
		}
		got = append(got, buf[:n]...)
		if len(got) > limit {
			c.Violate("%s: reading gives more than its %d bytes", what, limit)
		}
		if err == io.EOF {
			return got
		}
		if err != nil {
			c.Violate("%s: Read: %v", what, err)
		}
		if n == 0 && len(buf) > 0 {
			if idle++; idle > 100 {
				c.Violate("%s: Read returns no bytes and no error for ever", what)
			}
		} else {
			idle = 0
		}
	}
}

func checkInfo(c *kit.Case, what string, i fs.FileInfo, n *node, named bool) {
	if i == nil {
		c.Violate("%s: no FileInfo", what)
	}
	if named && i.Name() != n.name {
		c.Violate("%s: named %q, not %q", what, i.Name(), n.name)
	}
	if i.IsDir() != n.dir || i.Mode().IsDir() != n.dir || i.Mode().IsRegular() == n.dir {
		c.Violate("%s: IsDir %v, mode %v; it is a folder: %v", what, i.IsDir(), i.Mode(), n.dir)
	}
	if !n.dir && i.Size() != int64(len(n.data)) {
		c.Violate("%s: size %d, not %d", what, i.Size(), len(n.data))
	}
}

func (a *archive) short(p string) string { return strings.Replace(p, a.dir, "", 1) }

// checkPath judges everything the file system says about one path.
func (a *archive) checkPath(c *kit.Case, p string, r *rand.Rand, sorted bool) {
	n := a.want[p]
	what := a.short(p)
	f, err := a.fsys.Open(p)
	if err != nil {
		c.Violate("%s was archived but Open: %v", what, err)
	}
	if f == nil {
		c.Violate("%s: Open gives no file", what)
	}
	st, err := f.Stat()
	if err != nil {
		c.Violate("%s: Stat: %v", what, err)
	}
	checkInfo(c, what, st, n, p != ".")
	for k := range 2 {
		// the archive does not change, so neither does what is known of it
		again := st
		if k == 0 {
			again, err = f.Stat()
		} else {
			again, err = fs.Stat(a.fsys, p)
		}
		if err != nil {
			c.Violate("%s: Stat again: %v", what, err)
		}
		if !again.ModTime().Equal(st.ModTime()) || again.Mode() != st.Mode() || again.Size() != st.Size() || again.Name() != st.Name() {
			c.Violate("%s: Stat gives %v, %v, %d, %q and then %v, %v, %d, %q", what, st.ModTime(), st.Mode(), st.Size(), st.Name(), again.ModTime(), again.Mode(), again.Size(), again.Name())
		}
	}
	if !n.dir {
		got := readAll(c, what, f, len(n.data), func() int {
			if r.IntN(10) == 0 {
				return r.IntN(4)
			}
			return 512 << r.IntN(8)
		})
		if !bytes.Equal(got, n.data) {
			c.Violate("%s: %d bytes %s archived, %d bytes %s read", what, len(n.data), show(n.data), len(got), show(got))
		}
		if k, err := f.Read(make([]byte, 10)); k != 0 || err != io.EOF {
			c.Violate("%s: Read at the end returns %d, %v", what, k, err)
		}
	}
	if err := f.Close(); err != nil {
		c.Violate("%s: Close: %v", what, err)
	}
	es, err := a.fsys.ReadDir(p)
	if !n.dir {
		if err == nil {
			c.Violate("%s: ReadDir of a file returns %d entries and no error", what, len(es))
		}
		return
	}
	if err != nil {
		c.Violate("%s: ReadDir: %v", what, err)
	}
	kids := map[string]*node{}
	for _, k := range n.kids {
		kids[k.name] = k
	}
	if len(es) != len(kids) {
		c.Violate("%s: ReadDir lists %d of %d entries", what, len(es), len(kids))
	}
	last := ""
	for i, e := range es {
		k := kids[e.Name()]
		if k == nil {
			c.Violate("%s: ReadDir lists %q, which was not there or twice", what, e.Name())
		}
		delete(kids, e.Name())
		if e.IsDir() != k.dir || e.Type().IsDir() != k.dir || e.Type().IsRegular() == k.dir {
			c.Violate("%s: entry %q IsDir %v, type %v; it is a folder: %v", what, e.Name(), e.IsDir(), e.Type(), k.dir)
		}
		info, err := e.Info()
		if err != nil {
			c.Violate("%s: entry %q: Info: %v", what, e.Name(), err)
		}
		checkInfo(c, what+", entry "+e.Name(), info, k, true)
		if sorted && i > 0 && e.Name() < last {
			c.Violate("%s: ReadDir lists %q after %q", what, e.Name(), last)
		}
		last = e.Name()
	}
	c.Events("folder entries", len(n.kids))
}

func (a *archive) absent(c *kit.Case, r *rand.Rand) {
	ps := a.paths()
	cand := []string{"", "nowhere", a.dir, a.dir + "/src", a.dir + "/src/not archived", a.saved, "/", "/etc/passwd"}
	for range 6 {
		if len(ps) > 0 {
			p := ps[r.IntN(len(ps))]
			cand = append(cand, p+"x", p+"/nothing", filepath.Dir(p), filepath.Base(p), strings.TrimPrefix(p, "/"), strings.ToUpper(p), p[:len(p)-1])
		}
	}
	for _, p := range cand {
		if a.want[p] != nil {
			continue
		}
		_, err := a.fsys.Open(p)
		if err == nil {
			c.Violate("Open(%q) succeeds but nothing was archived under it", p)
		}
		if !errors.Is(err, fs.ErrNotExist) {
			c.Violate("Open(%q) of nothing fails with %v, not fs.ErrNotExist", p, err)
		}
		if es, err := a.fsys.ReadDir(p); err == nil {
			c.Violate("ReadDir(%q) lists %d entries but nothing was archived under it", p, len(es))
		}
		c.Events("absent names", 1)
	}
}

func (a *archive) describe() string {
	var b strings.Builder
	for _, p := range a.paths() {
		n := a.want[p]
		if n.dir {
			fmt.Fprintf(&b, "%s/ ", a.short(p))
		} else {
			fmt.Fprintf(&b, "%s(%d) ", a.short(p), len(n.data))
		}
	}
	return b.String()
}

// walk visits everything below every archived folder.
func (a *archive) walk(c *kit.Case) {
	for _, root := range a.roots {
		want := map[string]*node{}
		a.want[root].all(root, want)
		err := fs.WalkDir(a.fsys, root, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				c.Violate("walking %s: %s: %v", a.short(root), a.short(p), err)
			}
			n := want[p]
			if n == nil {
				c.Violate("walking %s visits %s, which is not below it or a second time", a.short(root), a.short(p))
			}
			if d.IsDir() != n.dir {
				c.Violate("walking %s: %s is a folder: %v, said %v", a.short(root), a.short(p), n.dir, d.IsDir())
			}
			delete(want, p)
			c.Events("paths walked", 1)
			return nil
		})
		if err != nil {
			c.Violate("walking %s: %v", a.short(root), err)
		}
		for p := range want {
			c.Violate("walking %s does not visit %s", a.short(root), a.short(p))
		}
	}
	// the same by hand, for single files
	for p, n := range a.want {
		if !n.dir {
			k := 0
			if err := fs.WalkDir(a.fsys, p, func(q string, d fs.DirEntry, err error) error {
				if err != nil || q != p {
					c.Violate("walking the file %s visits %s, %v", a.short(p), a.short(q), err)
				}
				k++
				return nil
			}); err != nil || k != 1 {
				c.Violate("walking the file %s visits %d paths, %v", a.short(p), k, err)
			}
			return
		}
	}
}

func (a *archive) note(c *kit.Case) {
	files, bytesN := 0, 0
	h := ""
	for _, p := range a.paths() {
		n := a.want[p]
		if !n.dir {
			files++
			bytesN += len(n.data)
		}
		h += fmt.Sprint(filepath.Base(p), len(n.data), "/")
	}
	c.Events("files", files)
	c.Events("folders", len(a.want)-files)
	c.Max("files in an archive", files)
	c.Max("bytes in an archive", bytesN)
	c.Max("largest path depth", depth(a))
	if len(a.want) > 0 {
		c.Distinct(h, len(a.key))
	}
}

func depth(a *archive) int {
	d := 0
	for p := range a.want {
		d = max(d, strings.Count(a.short(p), "/"))
	}
	return d
}

// leaks finds names and contents of the archived files in the saved bytes.
func (a *archive) leaks(c *kit.Case, saved []byte, what string) {
	for p, n := range a.want {
		if len(n.name) >= 7 && bytes.Contains(saved, []byte(n.name)) {
			c.Violate("%s contains the name %q in the clear", what, n.name)
		}
		if len(p) >= 8 && bytes.Contains(saved, []byte(p)) {
			c.Violate("%s contains the path %q in the clear", what, p)
		}
		d := n.data
		for i := 0; i+12 <= len(d); i += 12 + len(d)/16 {
			if bytes.Contains(saved, d[i:i+12]) {
				c.Violate("%s contains bytes %d to %d of %s in the clear", what, i, i+12, a.short(p))
			}
		}
	}
	c.Events("archives searched for clear text", 1)
}

var small = shape{files: 12, depth: 4, big: 3000}

func init() {
	kit.Register(&kit.Prop{
		ID:   "C33",
		Rule: "distinct archived trees (paths, sizes, key length) compared entry by entry with what was on disk",
		Parts: []kit.Part{
			{Name: "trees", N: 800, Fn: func(c *kit.Case) {
				a := makeArchive(c, c.R, small, c.Idx%2 == 0)
				defer cleanup(a.dir)
				a.load(c)
				for _, p := range a.paths() {
					a.checkPath(c, p, c.R, false)
				}
				a.absent(c, c.R)
				a.walk(c)
				a.note(c)
				c.Sample(a.describe)
			}},
			{Name: "many and large", N: 24, Fn: func(c *kit.Case) {
				s := shape{files: 500, depth: 7, big: 1 << 20}
				a := makeArchive(c, c.R, s, c.Idx%2 == 0)
				defer cleanup(a.dir)
				a.load(c)
				for _, p := range a.paths() {
					a.checkPath(c, p, c.R, false)
				}
				a.absent(c, c.R)
				a.note(c)
			}},
			{Name: "shapes", N: 48, Fn: func(c *kit.Case) {
				// very deep, very wide, one huge file, nothing
				a := &archive{dir: scratch(c), want: map[string]*node{}}
				defer cleanup(a.dir)
				a.saved = a.dir + "/out"
				if c.Idx%2 == 0 {
					a.key = anyKey(c.R)
				}
				b := crypto_fs.NewCryptoFSBuilder().WithSavePath(a.saved)
				if a.key != nil {
					b.WithAES(a.key)
				}
				var t *node
				switch c.Idx / 2 % 6 {
				case 0:
					t = &node{name: "leaf", data: content(c.R, 50)}
					for i := range 40 {
						t = &node{name: fmt.Sprint("d", i), dir: true, kids: []*node{t}}
					}
				case 1:
					t = &node{name: "wide", dir: true}
					for i := range 1500 {
						t.kids = append(t.kids, &node{name: fmt.Sprintf("f%04d", i), data: content(c.R, c.R.IntN(30))})
					}
				case 2:
					t = &node{name: "huge", data: content(c.R, 5<<20+c.R.IntN(5))}
					if c.R.IntN(2) == 0 {
						t = &node{name: "holds huge", dir: true, kids: []*node{{name: "a", data: content(c.R, 20)}, t, {name: "z", data: content(c.R, 1<<20+c.R.IntN(5))}}}
					}
				case 3:
					t = &node{name: "empty", dir: true}
				case 4:
					t = &node{name: "empty.txt"}
				case 5: // nothing at all, and files that do not exist
					b.AddFile(a.dir + "/missing").AddFolder(a.dir + "/missing folder")
				}
				if t != nil {
					t.write(c, a.dir+"/"+t.name)
					if t.dir {
						b.AddFolder(a.dir + "/" + t.name)
						a.roots = append(a.roots, a.dir+"/"+t.name)
					} else {
						b.AddFile(a.dir + "/" + t.name)
					}
					t.all(a.dir+"/"+t.name, a.want)
				}
				if err := b.Save(); err != nil {
					c.Violate("Save: %v", err)
				}
				a.load(c)
				for _, p := range a.paths() {
					a.checkPath(c, p, c.R, false)
				}
				a.walk(c)
				if t == nil {
					for _, p := range []string{a.dir + "/missing", a.dir + "/missing folder", a.dir, ""} {
						if _, err := a.fsys.Open(p); err == nil {
							c.Violate("%q opens in an archive of nothing", p)
						}
					}
				}
				a.note(c)
			}},
			{Name: "several saves", N: 120, Fn: func(c *kit.Case) {
				// a builder saved, extended and saved again, with other keys and places
				a := &archive{dir: scratch(c), want: map[string]*node{}}
				defer cleanup(a.dir)
				b := crypto_fs.NewCryptoFSBuilder()
				s := small
				var old []*archive
				used := map[string]bool{}
				for i := range 3 {
					f := anyFile(c.R, anyName(c.R, used), &s)
					f.write(c, a.dir+"/"+f.name)
					b.AddFile(a.dir + "/" + f.name)
					f.all(a.dir+"/"+f.name, a.want)
					v := &archive{dir: a.dir, saved: fmt.Sprint(a.dir, "/save", i), want: map[string]*node{}}
					for p, n := range a.want {
						v.want[p] = n
					}
					if c.R.IntN(3) > 0 {
						v.key = anyKey(c.R)
					}
					if err := b.WithSavePath(v.saved).WithAES(v.key).Save(); err != nil {
						c.Violate("Save %d: %v", i, err)
					}
					old = append(old, v)
				}
				for _, v := range old {
					v.load(c)
					for _, p := range v.paths() {
						v.checkPath(c, p, c.R, false)
					}
					for p := range a.want {
						if v.want[p] == nil {
							if _, err := v.fsys.Open(p); err == nil {
								c.Violate("an archive has a file added after it was saved")
							}
						}
					}
				}
				a.note(c)
			}},
			{Name: "side by side", N: 60, Stress: true, Fn: func(c *kit.Case) {
				// builders that add, save and load at the same time, in one folder
				dir := scratch(c)
				defer cleanup(dir)
				must(c, os.Mkdir(dir+"/src", 0o755))
				must(c, os.Mkdir(dir+"/out", 0o755))
				shared := content(c.R, c.R.IntN(5000))
				must(c, os.WriteFile(dir+"/src/shared", shared, 0o644))
				n, rounds := 2+c.R.IntN(6), 1+c.R.IntN(3)
				fs := make([]crypto_fs.CryptoFS, n)
				c.Go(n, func(g int, r *rand.Rand) {
					for i := range rounds {
						own := fmt.Sprint(dir, "/src/own ", g)
						data := content(r, r.IntN(50000))
						must(c, os.WriteFile(own, data, 0o644))
						var key []byte
						if r.IntN(2) == 0 {
							key = anyKey(r)
						}
						to := fmt.Sprint(dir, "/out/", g)
						if err := crypto_fs.NewCryptoFSBuilder().AddFile(own).AddFile(dir + "/src/shared").WithAES(key).WithSavePath(to).Save(); err != nil {
							c.Violate("of %d builders saving at once number %d fails, time %d: %v", n, g, i, err)
						}
						f, err := crypto_fs.CryptoFSFromFile(to, key)
						if err != nil {
							c.Violate("of %d archives saved at once number %d cannot be loaded: %v", n, g, err)
						}
						fs[g] = f
						for p, want := range map[string][]byte{own: data, dir + "/src/shared": shared} {
							x, err := f.Open(p)
							if err != nil {
								c.Violate("of %d archives saved at once number %d has no %s: %v", n, g, strings.Replace(p, dir, "", 1), err)
							}
							got, err := io.ReadAll(x)
							if err != nil || !bytes.Equal(got, want) {
								c.Violate("of %d archives saved at once number %d has %s for %s, %v", n, g, show(got), show(want), err)
							}
						}
						for o := range n {
							if _, err := f.Open(fmt.Sprint(dir, "/src/own ", o)); o != g && err == nil {
								c.Violate("of %d archives saved at once number %d has the file of number %d", n, g, o)
							}
						}
					}
				})
				for p, want := range map[string]int{"/out": n, "/src": n + 1} {
					if es, err := os.ReadDir(dir + p); err != nil || len(es) != want {
						c.Violate("%d builders saved, there are %d entries in %s instead of %d: %v", n, len(es), p, want, es)
					}
				}
				closed(c, dir, "saving and loading side by side")
				c.Events("archives saved at the same time", n*rounds)
				c.Distinct("side by side", n, rounds, len(shared))
			}},
			{Name: "failing disk", N: 24, Fn: func(c *kit.Case) {
				// Save reports success only when the archive is there
				dir := scratch(c)
				defer cleanup(dir)
				must(c, os.WriteFile(dir+"/f", content(c.R, 1+c.R.IntN(3000)), 0o644))
				var key []byte
				if c.Idx%2 == 0 {
					key = anyKey(c.R)
				}
				places := []string{dir + "/no such folder/out", dir, dir + "/f/out", ""}
				if st, err := os.Stat("/dev/full"); err == nil && st.Mode()&fs.ModeCharDevice != 0 {
					places = append(places, "/dev/full")
				}
				for _, p := range places {
					b := crypto_fs.NewCryptoFSBuilder().AddFile(dir + "/f").WithSavePath(p)
					if key != nil {
						b.WithAES(key)
					}
					if err := b.Save(); err == nil {
						c.Violate("Save to %q, where nothing can be written, reports success", strings.Replace(p, dir, "", 1))
					}
					closed(c, dir, "a failing Save")
					c.Events("failed saves", 1)
				}
				for _, p := range places[:4] {
					if f, err := crypto_fs.CryptoFSFromFile(p, key); err == nil {
						c.Violate("loading %q succeeds: %v", strings.Replace(p, dir, "", 1), f)
					}
					closed(c, dir, "failing to load")
				}
			}},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C34",
		Rule: "distinct (damage or key, archive size) whose load was seen to fail, and archives searched for clear text",
		Parts: []kit.Part{
			{Name: "keys", N: 600, Fn: func(c *kit.Case) {
				r := c.R
				a := makeArchive(c, r, small, true)
				defer cleanup(a.dir)
				saved, err := os.ReadFile(a.saved)
				must(c, err)
				a.leaks(c, saved, "an encrypted archive")
				keys := map[string][]byte{
					"no key": nil, "empty key": {}, "other key": fill(r, len(a.key)),
					"longer key": append(append([]byte(nil), a.key...), 0), "shorter key": a.key[:len(a.key)-1],
					"key of 8 more bytes": append(append([]byte(nil), a.key...), a.key[:8]...),
					"key of 8 less bytes": a.key[:len(a.key)-8],
					"odd key":             fill(r, r.IntN(70)),
				}
				k := append([]byte(nil), a.key...)
				k[r.IntN(len(k))] ^= 1 << r.IntN(8)
				keys["key with a flipped bit"] = k
				for what, k := range keys {
					if k != nil && bytes.Equal(k, a.key) {
						continue
					}
					kw := watch(r, k)
					in := kw.get()
					if k == nil {
						in = nil
					}
					f, err := crypto_fs.CryptoFSFromFile(a.saved, in)
					if err == nil {
						c.Violate("an encrypted archive loads with %s", what)
					}
					if f != nil {
						c.Violate("loading with %s fails but returns a file system", what)
					}
					kw.check(c, "CryptoFSFromFile")
					c.Events("loads refused", 1)
					c.Distinct(what, len(saved))
				}
				a.load(c)
				for i, p := range a.paths() {
					if i < 5 {
						a.checkPath(c, p, r, false)
					}
				}
			}},
			{Name: "damage", N: 400, Fn: func(c *kit.Case) {
				r := c.R
				a := makeArchive(c, r, shape{files: 3, depth: 2, big: 100}, true)
				defer cleanup(a.dir)
				saved, err := os.ReadFile(a.saved)
				must(c, err)
				try := func(m []byte, what string) {
					if bytes.Equal(m, saved) {
						return
					}
					must(c, os.WriteFile(a.dir+"/damaged", m, 0o644))
					f, err := crypto_fs.CryptoFSFromFile(a.dir+"/damaged", a.key)
					if err == nil {
						c.Violate("an archive of %d bytes loads after %s", len(saved), what)
					}
					if f != nil {
						c.Violate("loading an archive after %s fails but returns a file system", what)
					}
					c.Events("loads refused", 1)
					c.Distinct(what, len(saved))
				}
				flip := func(i int) {
					m := append([]byte(nil), saved...)
					m[i/8] ^= 1 << (i % 8)
					try(m, fmt.Sprintf("flipping bit %d of byte %d", i%8, i/8))
				}
				for i := range 12 { // the nonce
					flip(i*8 + r.IntN(8))
				}
				for i := range 16 { // the tag
					flip((len(saved)-1-i)*8 + r.IntN(8))
				}
				for range 40 {
					flip(r.IntN(len(saved) * 8))
					n := r.IntN(len(saved))
					try(saved[:n], fmt.Sprintf("truncation to %d bytes", n))
				}
				for n := range 30 {
					try(saved[:min(n, len(saved)-1)], fmt.Sprintf("truncation to %d bytes", n))
					try(saved[:len(saved)-1-min(n, len(saved)-1)], fmt.Sprintf("truncation by %d bytes", n+1))
				}
				try(append(append([]byte(nil), saved...), fill(r, 1+r.IntN(50))...), "extension")
				try(append(append([]byte(nil), saved...), 0), "extension with zero")
				try(append(append([]byte(nil), saved...), saved...), "doubling")
				try(saved[1:], "loss of the first byte")
				try(append([]byte{0}, saved...), "a byte before it")
				try(fill(r, len(saved)), "replacement")
				for range 10 {
					m := append([]byte(nil), saved...)
					for range 1 + r.IntN(6) {
						m[r.IntN(len(m))] = byte(r.Uint32())
					}
					try(m, "changes")
					m = append([]byte(nil), saved...)
					i, j := r.IntN(len(m)), r.IntN(len(m))
					m[i], m[j] = m[j], m[i]
					try(m, "swapped bytes")
				}
				a.load(c)
			}},
			{Name: "plain archive with a key", N: 60, Fn: func(c *kit.Case) {
				// an archive nobody encrypted is not accepted in place of an encrypted one
				a := makeArchive(c, c.R, small, false)
				defer cleanup(a.dir)
				f, err := crypto_fs.CryptoFSFromFile(a.saved, anyKey(c.R))
				if err == nil || f != nil {
					c.Violate("an archive without encryption loads with a key: %v", err)
				}
				c.Events("loads refused", 1)
			}},
			{Name: "saving with an invalid key", N: 160, Fn: func(c *kit.Case) {
				r := c.R
				n := c.Idx % 80
				if n == 16 || n == 24 || n == 32 {
					return
				}
				a := &archive{dir: scratch(c), want: map[string]*node{}}
				defer cleanup(a.dir)
				var err error
				t := &node{name: "folder-" + fmt.Sprint(r.Uint64()), dir: true, kids: []*node{{name: "secret-" + fmt.Sprint(r.Uint64()), data: fill(r, 20+r.IntN(2000))}}}
				t.write(c, a.dir+"/"+t.name)
				t.all(a.dir+"/"+t.name, a.want)
				a.saved = a.dir + "/out"
				var earlier []byte
				b := crypto_fs.NewCryptoFSBuilder()
				if r.IntN(2) == 0 { // an archive that is there stays
					must(c, os.WriteFile(a.dir+"/other", fill(r, r.IntN(3000)), 0o644))
					o := b
					if r.IntN(2) == 0 {
						o = crypto_fs.NewCryptoFSBuilder()
					}
					must(c, o.AddFile(a.dir+"/other").WithAES(anyKey(r)).WithSavePath(a.saved).Save())
					must(c, os.Remove(a.dir+"/other"))
					earlier, err = os.ReadFile(a.saved)
					must(c, err)
				}
				err = b.AddFolder(a.dir + "/" + t.name).WithAES(fill(r, n)).WithSavePath(a.saved).Save()
				if err == nil {
					c.Violate("Save with a key of %d bytes reports success", n)
				}
				saved, err := os.ReadFile(a.saved)
				if earlier != nil {
					if err != nil || !bytes.Equal(saved, earlier) {
						c.Violate("Save with a key of %d bytes fails, and the earlier archive of %d bytes at the place is now %s, %v", n, len(earlier), show(saved), err)
					}
					c.Events("earlier archives kept", 1)
				} else if err == nil {
					a.leaks(c, saved, fmt.Sprintf("what Save with a key of %d bytes left behind", n))
					for _, k := range [][]byte{nil, make([]byte, 16), make([]byte, 32)} {
						if _, err := crypto_fs.CryptoFSFromFile(a.saved, k); err == nil && len(saved) > 0 {
							c.Violate("what Save with a key of %d bytes left behind can be loaded", n)
						}
					}
				}
				// and nothing is left next to it
				es, err := os.ReadDir(a.dir)
				must(c, err)
				for _, e := range es {
					if e.Name() != "out" && e.Name() != t.name {
						data, _ := os.ReadFile(a.dir + "/" + e.Name())
						a.leaks(c, data, "a file Save left behind")
					}
				}
				c.Events("saves refused", 1)
				c.Distinct("key length", n)
			}},
			{Name: "same archive twice", N: 60, Fn: func(c *kit.Case) {
				// two saves of one content share no ciphertext
				dir := scratch(c)
				defer cleanup(dir)
				must(c, os.WriteFile(dir+"/f", content(c.R, 100+c.R.IntN(2000)), 0o644))
				key := anyKey(c.R)
				var out [2][]byte
				for i := range 2 {
					p := fmt.Sprint(dir, "/out", i)
					if err := crypto_fs.NewCryptoFSBuilder().AddFile(dir + "/f").WithAES(key).WithSavePath(p).Save(); err != nil {
						c.Violate("Save: %v", err)
					}
					out[i], _ = os.ReadFile(p)
				}
				for i := 0; i+16 <= min(len(out[0]), len(out[1])); i += 16 {
					if bytes.Equal(out[0][i:i+16], out[1][i:i+16]) {
						c.Violate("two encrypted archives of one file agree in bytes %d to %d", i, i+16)
					}
				}
				c.Events("archives compared", 2)
			}},
		},
	})
	kit.Register(&kit.Prop{
		ID:   "C35",
		Rule: "distinct archived trees whose files were read in pieces, listed and walked",
		Parts: []kit.Part{
			{Name: "contract", N: 600, Fn: func(c *kit.Case) {
				r := c.R
				a := makeArchive(c, r, small, c.Idx%2 == 0)
				defer cleanup(a.dir)
				a.load(c)
				for range 2 { // looking changes nothing
					for _, p := range a.paths() {
						a.checkPath(c, p, r, true)
					}
					a.walk(c)
				}
				a.absent(c, r)
				a.note(c)
				c.Sample(a.describe)
			}},
			{Name: "buffer sizes", N: 200, Fn: func(c *kit.Case) {
				r := c.R
				a := &archive{dir: scratch(c), want: map[string]*node{}, saved: ""}
				defer cleanup(a.dir)
				a.saved = a.dir + "/out"
				n := &node{name: "f", data: content(r, size(r, 5000))}
				n.write(c, a.dir+"/f")
				a.want[a.dir+"/f"] = n
				must(c, crypto_fs.NewCryptoFSBuilder().AddFile(a.dir+"/f").WithSavePath(a.saved).Save())
				a.load(c)
				l := len(n.data)
				for _, bs := range []int{1, 2, 3, 7, 16, 511, 512, 513, l - 1, l, l + 1, 2*l + 1, 1 + r.IntN(l+2)} {
					if bs <= 0 || l/bs > 2000 {
						continue
					}
					f, err := a.fsys.Open(a.dir + "/f")
					if err != nil {
						c.Violate("Open: %v", err)
					}
					got := readAll(c, fmt.Sprintf("a file of %d bytes read %d at a time", l, bs), f, l, func() int { return bs })
					if !bytes.Equal(got, n.data) {
						c.Violate("a file of %d bytes read %d at a time gives %d others", l, bs, len(got))
					}
					c.Events("files read", 1)
					c.Distinct("buffer", l, bs)
				}
				// through the standard helpers
				got, err := fs.ReadFile(a.fsys, a.dir+"/f")
				if err != nil || !bytes.Equal(got, n.data) {
					c.Violate("fs.ReadFile of %d bytes gives %d, %v", l, len(got), err)
				}
				for i := range got {
					got[i] ^= 0xff
				}
				if got, _ = fs.ReadFile(a.fsys, a.dir+"/f"); !bytes.Equal(got, n.data) {
					c.Violate("changing what was read changed the file")
				}
				f, _ := a.fsys.Open(a.dir + "/f")
				var sink bytes.Buffer
				if k, err := io.Copy(&sink, f); err != nil || k != int64(l) || !bytes.Equal(sink.Bytes(), n.data) {
					c.Violate("io.Copy of %d bytes copies %d, %v", l, k, err)
				}
				st, err := fs.Stat(a.fsys, a.dir+"/f")
				if err != nil {
					c.Violate("fs.Stat: %v", err)
				}
				checkInfo(c, "fs.Stat", st, n, true)
			}},
			{Name: "openings", N: 300, Fn: func(c *kit.Case) {
				// interleaved reads of several openings of few files
				r := c.R
				a := &archive{dir: scratch(c), want: map[string]*node{}}
				defer cleanup(a.dir)
				a.saved = a.dir + "/out"
				b := crypto_fs.NewCryptoFSBuilder().WithSavePath(a.saved)
				for i := range 1 + r.IntN(3) {
					n := &node{name: fmt.Sprint("f", i), data: content(r, r.IntN(300))}
					n.write(c, a.dir+"/"+n.name)
					b.AddFile(a.dir + "/" + n.name)
					a.want[a.dir+"/"+n.name] = n
				}
				must(c, b.Save())
				a.load(c)
				type opening struct {
					f   fs.File
					n   *node
					at  int
					end bool
				}
				var open []*opening
				ps := a.paths()
				for range 200 {
					if len(open) < 2 || (len(open) < 8 && r.IntN(10) == 0) {
						p := ps[r.IntN(len(ps))]
						f, err := a.fsys.Open(p)
						if err != nil {
							c.Violate("Open: %v", err)
						}
						open = append(open, &opening{f: f, n: a.want[p]})
					}
					i := r.IntN(len(open))
					o := open[i]
					if r.IntN(15) == 0 {
						o.f.Close()
						open = append(open[:i], open[i+1:]...)
						continue
					}
					if r.IntN(6) == 0 {
						st, err := o.f.Stat()
						if err != nil {
							c.Violate("Stat: %v", err)
						}
						checkInfo(c, "an opening's Stat", st, o.n, true)
					}
					buf := make([]byte, 1+r.IntN(60))
					k, err := o.f.Read(buf)
					if k > 0 && (o.at+k > len(o.n.data) || !bytes.Equal(buf[:k], o.n.data[o.at:o.at+k])) {
						c.Violate("with %d openings one of a file of %d bytes gives %d bytes at %d that are not its own", len(open), len(o.n.data), k, o.at)
					}
					o.at += k
					if err == io.EOF && o.at != len(o.n.data) {
						c.Violate("with %d openings one of a file of %d bytes ends after %d", len(open), len(o.n.data), o.at)
					}
					if err != nil && err != io.EOF {
						c.Violate("Read: %v", err)
					}
					if k == 0 && err == nil {
						c.Violate("Read into %d bytes at %d of %d returns nothing", len(buf), o.at, len(o.n.data))
					}
					c.Events("interleaved reads", 1)
				}
				c.Distinct("openings", len(ps), c.Seed)
			}},
			{Name: "concurrent", N: 160, Stress: true, Fn: func(c *kit.Case) {
				a := makeArchive(c, c.R, shape{files: 8, depth: 3, big: 500}, c.Idx%2 == 0)
				defer cleanup(a.dir)
				a.load(c)
				ps := a.paths()
				c.Go(2+c.R.IntN(5), func(g int, r *rand.Rand) {
					for range 12 {
						if len(ps) > 0 {
							a.checkPath(c, ps[r.IntN(len(ps))], r, true)
						}
						if r.IntN(4) == 0 {
							a.walk(c)
						}
						if r.IntN(4) == 0 {
							a.absent(c, r)
						}
						if len(a.roots) > 0 {
							// a listing is the caller's
							if es, err := a.fsys.ReadDir(a.roots[0]); err == nil {
								for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
									es[i], es[j] = es[j], es[i]
								}
							}
						}
					}
				})
				for _, p := range ps {
					a.checkPath(c, p, c.R, true)
				}
				c.Events("concurrent looks", 12)
			}},
			{Name: "concurrent openings", N: 160, Stress: true, Fn: func(c *kit.Case) {
				// one opening per goroutine, all of one file
				a := &archive{dir: scratch(c), want: map[string]*node{}}
				defer cleanup(a.dir)
				a.saved = a.dir + "/out"
				n := &node{name: "f", data: content(c.R, 200+c.R.IntN(2000))}
				n.write(c, a.dir+"/f")
				must(c, crypto_fs.NewCryptoFSBuilder().AddFile(a.dir+"/f").WithSavePath(a.saved).Save())
				a.load(c)
				c.Go(2+c.R.IntN(6), func(g int, r *rand.Rand) {
					for range 4 {
						f, err := a.fsys.Open(a.dir + "/f")
						if err != nil {
							c.Violate("Open: %v", err)
						}
						got := readAll(c, "one of many openings", f, len(n.data), func() int { return 1 + r.IntN(200) })
						if !bytes.Equal(got, n.data) {
							c.Violate("one of several concurrent openings of %d bytes gives %d others", len(n.data), len(got))
						}
						f.Close()
					}
				})
				c.Events("concurrent openings", 4)
			}},
		},
	})
}
