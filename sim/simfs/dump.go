package simfs

// Image is a serialisable durable image.
type Image struct {
	Nodes map[int]*Inode
	Next  int
	NextF int
	Cwd   string
	Umask uint32
	EUID  uint32
	Quota int64
	Now   int64
}

// Image returns the visible state (call it when no process is running).
func (fs *FS) Image() *Image {
	c := fs.cloneTree()
	return &Image{c.nodes, c.next, fs.nextFD, c.Cwd, c.Umask, c.EUID, c.Quota, c.Now}
}

// Load restores an image.
func Load(im *Image) *FS {
	fs := New()
	fs.nodes, fs.next, fs.nextFD, fs.Cwd, fs.Umask, fs.EUID, fs.Quota, fs.Now = im.Nodes, im.Next, im.NextF, im.Cwd, im.Umask, im.EUID, im.Quota, im.Now
	for _, n := range fs.nodes {
		if n.isDir() && n.Dir == nil {
			n.Dir = map[string]int{}
		}
	}
	fs.Checkpoint()
	return fs
}

// Clone copies the visible state.
func (fs *FS) Clone() *FS {
	c := fs.cloneTree()
	c.Checkpoint()
	return c
}

// Free leaves n bytes of room on the disk.
func (fs *FS) Free(n int64) { fs.Quota = fs.used() + n }

// OpenBy counts the descriptors task opened and did not close.
func (fs *FS) OpenBy(task int) int {
	n := 0
	for _, f := range fs.fds {
		if f.Owner == task {
			n++
		}
	}
	return n
}

// OpenCount counts all open descriptors.
func (fs *FS) OpenCount() int { return len(fs.fds) }

// Chown gives everything to uid, except files whose path is under /sys-owned.
func (fs *FS) Chown(uid uint32) {
	for _, n := range fs.nodes {
		n.UID = uid
	}
}
