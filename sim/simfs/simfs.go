// Package simfs is the simulated disk: an in-memory POSIX-like file system that
// separates what running processes see (the page cache) from what would survive
// a power loss (the durable image), and that speaks the Linux system-call ABI.
//
// It is deterministic: it draws no randomness and reads no clock. Faults are
// decided by the caller and passed in with each call.
package simfs

import (
	"sort"
	"strings"
	"syscall"
)

const (
	TypeMask = syscall.S_IFMT
	IFReg    = syscall.S_IFREG
	IFDir    = syscall.S_IFDIR
	IFLnk    = syscall.S_IFLNK
)

// Inode is one file, directory or symbolic link.
type Inode struct {
	Ino    int
	Mode   uint32 // type and permission bits
	UID    uint32
	Data   []byte
	Dir    map[string]int
	Target string
	Nlink  int
	MTime  int64
}

func (n *Inode) isDir() bool { return n.Mode&TypeMask == IFDir }
func (n *Inode) isReg() bool { return n.Mode&TypeMask == IFReg }
func (n *Inode) isLnk() bool { return n.Mode&TypeMask == IFLnk }

func (n *Inode) clone() *Inode {
	c := *n
	c.Data = append([]byte(nil), n.Data...)
	if n.Dir != nil {
		c.Dir = make(map[string]int, len(n.Dir))
		for k, v := range n.Dir {
			c.Dir[k] = v
		}
	}
	return &c
}

// OpenFile is an open file description.
type OpenFile struct {
	FD     int
	Owner  int // task that opened it
	Ino    int
	Off    int64
	Flags  int
	DirPos int
	Path   string
}

// opKind is the kind of one entry of the durability log.
type opKind uint8

const (
	opMeta  opKind = iota // entry added/removed/renamed, mode changed, size changed
	opWrite               // data written
	opSync                // fsync of an inode
)

type logOp struct {
	kind opKind
	ino  int
	off  int64
	data []byte
	lost bool // an fsync that failed: this data can no longer be forced out
	redo func(fs *FS)
}

// FS is the whole file system.
type FS struct {
	nodes  map[int]*Inode
	next   int
	fds    map[int]*OpenFile
	nextFD int
	Cwd    string
	Umask  uint32
	EUID   uint32
	Quota  int64 // bytes of file data that fit; <0: unlimited
	Now    int64

	base *FS     // durable image at the last checkpoint
	log  []logOp // what happened since

	// OnChange, if set, runs after every change of what a reader could see.
	OnChange func()

	Unsupported []string // system calls the simulation does not model
}

const FirstFD = 1 << 20

// New returns an empty file system with a root directory.
func New() *FS {
	fs := &FS{nodes: map[int]*Inode{}, next: 2, fds: map[int]*OpenFile{}, nextFD: FirstFD, Cwd: "/", Umask: 0o022, Quota: -1}
	fs.nodes[1] = &Inode{Ino: 1, Mode: IFDir | 0o755, Dir: map[string]int{}, Nlink: 2}
	return fs
}

func (fs *FS) cloneTree() *FS {
	c := New()
	c.next, c.Cwd, c.Umask, c.EUID, c.Quota, c.Now = fs.next, fs.Cwd, fs.Umask, fs.EUID, fs.Quota, fs.Now
	c.nodes = make(map[int]*Inode, len(fs.nodes))
	for k, v := range fs.nodes {
		c.nodes[k] = v.clone()
	}
	return c
}

// Checkpoint makes everything durable (used after the initial tree is laid out).
func (fs *FS) Checkpoint() {
	fs.base = fs.cloneTree()
	fs.log = nil
}

// CrashProcess forgets what a dying process loses: its descriptors.
func (fs *FS) CrashProcess() {
	fs.fds = map[int]*OpenFile{}
	fs.gc()
}

// Choose is asked by PowerLoss how much of something survives: it returns a
// number in [0,n).
type Choose func(n int) int

// LogLen is the number of operations since the last checkpoint.
func (fs *FS) LogLen() int { return len(fs.log) }

// PowerLoss replaces the visible state by what the disk holds: metadata
// operations survive as a prefix of the journal; data that was not forced out
// by a successful fsync survives whole, in part (by sector), or not at all.
func (fs *FS) PowerLoss(choose Choose) {
	fs.fds = map[int]*OpenFile{}
	cut := choose(len(fs.log) + 1)
	n := fs.base.cloneTree()
	// highest successful sync per inode
	synced := map[int]int{}
	for i, op := range fs.log {
		if op.kind == opSync && !op.lost {
			synced[op.ino] = i
		}
	}
	for i, op := range fs.log {
		switch op.kind {
		case opMeta:
			if i < cut {
				op.redo(n)
			}
		case opWrite:
			s, ok := synced[op.ino]
			if ok && s > i && !op.lost {
				n.rawWrite(op.ino, op.off, op.data)
				continue
			}
			switch choose(4) {
			case 0: // lost
			case 1: // whole
				n.rawWrite(op.ino, op.off, op.data)
			case 2: // a prefix
				n.rawWrite(op.ino, op.off, op.data[:choose(len(op.data)+1)])
			case 3: // size reached the disk, some sectors did not
				const sector = 64
				for o := 0; o < len(op.data); o += sector {
					e := min(o+sector, len(op.data))
					if choose(2) == 0 {
						n.rawWrite(op.ino, op.off+int64(o), op.data[o:e])
					} else {
						n.rawWrite(op.ino, op.off+int64(o), make([]byte, e-o))
					}
				}
			}
		}
	}
	fs.nodes, fs.next = n.nodes, max(n.next, fs.next)
	fs.gc()
	fs.Checkpoint()
	fs.changed()
}

// AtBest is what the disk will hold at path when everything it was able to take
// has reached it.
func (fs *FS) AtBest(path string) (string, bool) {
	n := fs.base.cloneTree()
	for _, op := range fs.log {
		switch {
		case op.kind == opMeta:
			op.redo(n)
		case op.kind == opWrite && !op.lost:
			n.rawWrite(op.ino, op.off, op.data)
		}
	}
	return n.Read(path)
}

func (fs *FS) rawWrite(ino int, off int64, p []byte) {
	nd := fs.nodes[ino]
	if nd == nil || len(p) == 0 {
		return
	}
	end := off + int64(len(p))
	if int64(len(nd.Data)) < end {
		nd.Data = append(nd.Data, make([]byte, end-int64(len(nd.Data)))...)
	}
	copy(nd.Data[off:end], p)
	nd.MTime = fs.Now
}

func (fs *FS) meta(redo func(fs *FS)) {
	redo(fs)
	fs.log = append(fs.log, logOp{kind: opMeta, redo: redo})
	fs.changed()
}

func (fs *FS) changed() {
	if fs.OnChange != nil {
		fs.OnChange()
	}
}

func (fs *FS) gc() {
	live := map[int]bool{}
	var walk func(int)
	walk = func(i int) {
		nd := fs.nodes[i]
		if nd == nil || live[i] {
			return
		}
		live[i] = true
		for _, c := range nd.Dir {
			walk(c)
		}
	}
	walk(1)
	for _, f := range fs.fds {
		live[f.Ino] = true
	}
	for i := range fs.nodes {
		if !live[i] {
			delete(fs.nodes, i)
		}
	}
}

func (fs *FS) used() int64 {
	var n int64
	for _, nd := range fs.nodes {
		n += int64(len(nd.Data))
	}
	return n
}

// ---- path resolution ----

func (fs *FS) abs(dirfd int, path string) (string, syscall.Errno) {
	if path == "" {
		return "", syscall.ENOENT
	}
	if path[0] == '/' {
		return path, 0
	}
	if dirfd == -100 { // AT_FDCWD
		return fs.Cwd + "/" + path, 0
	}
	f := fs.fds[dirfd]
	if f == nil {
		return "", syscall.EBADF
	}
	return f.Path + "/" + path, 0
}

func (fs *FS) may(nd *Inode, want uint32) bool {
	if fs.EUID == 0 {
		return true
	}
	m := nd.Mode & 7
	if nd.UID == fs.EUID {
		m = nd.Mode >> 6 & 7
	}
	return m&want == want
}

// walk resolves path to (parent, last name, inode). The inode may be nil if the
// last element does not exist.
func (fs *FS) walk(path string, follow bool) (parent *Inode, name string, nd *Inode, e syscall.Errno) {
	depth := 0
	return fs.walk2(path, follow, &depth)
}

func (fs *FS) walk2(path string, follow bool, depth *int) (parent *Inode, name string, nd *Inode, e syscall.Errno) {
	if len(path) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := fs.nodes[1]
	var stack []*Inode
	trailing := strings.HasSuffix(path, "/")
	parts := strings.Split(path, "/")
	var el []string
	for _, p := range parts {
		if p != "" && p != "." {
			el = append(el, p)
		}
	}
	if len(el) == 0 {
		return cur, "", cur, 0
	}
	dirPath := ""
	for i, p := range el {
		last := i == len(el)-1
		if !cur.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if !fs.may(cur, 1) {
			return nil, "", nil, syscall.EACCES
		}
		if len(p) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if p == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if j := strings.LastIndexByte(dirPath, '/'); j >= 0 {
					dirPath = dirPath[:j]
				}
			}
			if last {
				return cur, "", cur, 0
			}
			continue
		}
		ci, ok := cur.Dir[p]
		if !ok {
			if last {
				if trailing {
					return cur, p, nil, syscall.ENOENT
				}
				return cur, p, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		c := fs.nodes[ci]
		if c.isLnk() && (!last || follow || trailing) {
			*depth++
			if *depth > 10 {
				return nil, "", nil, syscall.ELOOP
			}
			t := c.Target
			if t == "" || t[0] != '/' {
				t = dirPath + "/" + t
			}
			if !last {
				t += "/" + strings.Join(el[i+1:], "/")
			}
			return fs.walk2(t, follow, depth)
		}
		if last {
			if trailing && !c.isDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, p, c, 0
		}
		stack = append(stack, cur)
		dirPath += "/" + p
		cur = c
	}
	return nil, "", nil, syscall.ENOENT
}

// ---- set-up and inspection by the harness (never faulted, never logged) ----

// Put writes a file, creating directories; for use before Checkpoint.
func (fs *FS) Put(path string, data string, mode uint32) {
	dir := fs.nodes[1]
	el := strings.Split(strings.Trim(path, "/"), "/")
	for _, p := range el[:len(el)-1] {
		ci, ok := dir.Dir[p]
		if !ok {
			ci = fs.newNode(IFDir | 0o755).Ino
			dir.Dir[p] = ci
		}
		dir = fs.nodes[ci]
	}
	name := el[len(el)-1]
	nd := fs.newNode(mode)
	if mode&TypeMask == 0 {
		nd.Mode |= IFReg
	}
	switch {
	case nd.isDir():
		if ci, ok := dir.Dir[name]; ok { // only change the mode
			fs.nodes[ci].Mode = nd.Mode
			delete(fs.nodes, nd.Ino)
			return
		}
	case nd.isLnk():
		nd.Target = data
	default:
		nd.Data = []byte(data)
	}
	dir.Dir[name] = nd.Ino
}

func (fs *FS) newNode(mode uint32) *Inode {
	nd := &Inode{Ino: fs.next, Mode: mode, UID: fs.EUID, Nlink: 1, MTime: fs.Now}
	if nd.isDir() {
		nd.Dir = map[string]int{}
		nd.Nlink = 2
	}
	fs.next++
	fs.nodes[nd.Ino] = nd
	return nd
}

// Read returns what a reader of path sees now, following symbolic links.
func (fs *FS) Read(path string) (string, bool) {
	u := fs.EUID
	fs.EUID = 0
	_, _, nd, e := fs.walk(path, true)
	fs.EUID = u
	if e != 0 || nd == nil || !nd.isReg() {
		return "", false
	}
	return string(nd.Data), true
}

// External is another program's doing: it removes path (data nil), or puts a
// file with the given content there, as a new file or, with inPlace, by changing
// the one that exists. It is one indivisible step and reports whether it could
// be done.
func (fs *FS) External(path string, data *string, inPlace bool) bool {
	u := fs.EUID
	fs.EUID = 0
	dir, name, nd, e := fs.walk(path, false)
	fs.EUID = u
	if e != 0 || dir == nil || name == "" || nd != nil && !nd.isReg() {
		return false
	}
	di := dir.Ino
	if data == nil {
		if nd == nil {
			return false
		}
		fs.meta(func(fs *FS) {
			if d := fs.nodes[di]; d != nil {
				delete(d.Dir, name)
			}
		})
		fs.gc()
		return true
	}
	if nd != nil && inPlace {
		ino, b, now := nd.Ino, *data, fs.Now
		fs.meta(func(fs *FS) {
			if n := fs.nodes[ino]; n != nil {
				n.Data, n.MTime = []byte(b), now
			}
		})
		return true
	}
	mode := uint32(IFReg | 0o644)
	if nd != nil {
		mode = nd.Mode
	}
	ino := fs.next
	fs.next++
	fresh := Inode{Ino: ino, Mode: mode, UID: fs.EUID, Nlink: 1, MTime: fs.Now, Data: []byte(*data)}
	fs.meta(func(fs *FS) {
		if d := fs.nodes[di]; d != nil {
			fs.nodes[ino] = fresh.clone()
			fs.next = max(fs.next, ino+1)
			d.Dir[name] = ino
		}
	})
	fs.gc()
	return true
}

// Entry describes one path of the tree.
type Entry struct {
	Path   string
	Mode   uint32
	Data   string
	Target string
}

// Tree lists the whole tree in path order.
func (fs *FS) Tree() []Entry {
	var out []Entry
	var walk func(p string, nd *Inode)
	walk = func(p string, nd *Inode) {
		var names []string
		for n := range nd.Dir {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c := fs.nodes[nd.Dir[n]]
			out = append(out, Entry{Path: p + "/" + n, Mode: c.Mode, Data: string(c.Data), Target: c.Target})
			if c.isDir() {
				walk(p+"/"+n, c)
			}
		}
	}
	walk("", fs.nodes[1])
	return out
}

// nameOf is the path of directory nd, without links ("": it has none).
func (fs *FS) nameOf(nd *Inode) string {
	var find func(p string, d *Inode) string
	find = func(p string, d *Inode) string {
		if d == nd {
			return p
		}
		for n, i := range d.Dir {
			if c := fs.nodes[i]; c.isDir() {
				if r := find(p+"/"+n, c); r != "" {
					return r
				}
			}
		}
		return ""
	}
	if nd == fs.nodes[1] {
		return "/"
	}
	return find("", fs.nodes[1])
}

// TmpDir is a file system of its own.
const TmpDir = "/tmp"

// device is the number of the file system a directory is on.
func (fs *FS) device(dir *Inode) uint64 {
	if n := fs.nameOf(dir); n == TmpDir || strings.HasPrefix(n, TmpDir+"/") {
		return 78
	}
	return 77
}

// deviceOf is the number of the file system something is on.
func (fs *FS) deviceOf(nd *Inode) uint64 {
	if nd.isDir() {
		return fs.device(nd)
	}
	tmp := fs.nodes[fs.nodes[1].Dir[TmpDir[1:]]]
	if tmp == nil {
		return 77
	}
	var in func(d *Inode) bool
	in = func(d *Inode) bool {
		for _, i := range d.Dir {
			if i == nd.Ino || fs.nodes[i].isDir() && in(fs.nodes[i]) {
				return true
			}
		}
		return false
	}
	if in(tmp) {
		return 78
	}
	return 77
}

// Relink lets a symbolic link refer to something else, in one step.
func (fs *FS) Relink(path, target string) bool {
	u := fs.EUID
	fs.EUID = 0
	dir, name, nd, e := fs.walk(path, false)
	fs.EUID = u
	if e != 0 || dir == nil || nd == nil || !nd.isLnk() {
		return false
	}
	di, ino := dir.Ino, fs.next
	fs.next++
	fresh := Inode{Ino: ino, Mode: nd.Mode, UID: nd.UID, Nlink: 1, MTime: fs.Now, Target: target}
	fs.meta(func(fs *FS) {
		if d := fs.nodes[di]; d != nil {
			fs.nodes[ino] = fresh.clone()
			fs.next = max(fs.next, ino+1)
			d.Dir[name] = ino
		}
	})
	fs.gc()
	return true
}

// RemoveAll removes a directory with all that is in it, in one step.
func (fs *FS) RemoveAll(path string) bool {
	u := fs.EUID
	fs.EUID = 0
	dir, name, nd, e := fs.walk(path, false)
	fs.EUID = u
	if e != 0 || dir == nil || nd == nil || !nd.isDir() || name == "" {
		return false
	}
	di := dir.Ino
	fs.meta(func(fs *FS) {
		if d := fs.nodes[di]; d != nil {
			delete(d.Dir, name)
		}
	})
	fs.gc()
	return true
}

// OpenFDs lists the open descriptors in number order.
func (fs *FS) OpenFDs() []*OpenFile {
	var out []*OpenFile
	for _, f := range fs.fds {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].FD < out[j].FD })
	return out
}

// Mode returns the mode of path, not following a final symbolic link.
func (fs *FS) Mode(path string) (uint32, bool) {
	u := fs.EUID
	fs.EUID = 0
	_, _, nd, e := fs.walk(path, false)
	fs.EUID = u
	if e != 0 || nd == nil {
		return 0, false
	}
	return nd.Mode, true
}
