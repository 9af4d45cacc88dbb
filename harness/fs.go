package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Ent is what a snapshot keeps of a file.
type Ent struct {
	Mode  fs.FileMode
	Size  int64
	Sum   string
	MTime int64 // ns
	Link  string
	UID   uint32
	GID   uint32
	Ino   uint64
}

func (e Ent) String() string {
	if e.Link != "" {
		return fmt.Sprintf("%v -> %s", e.Mode, e.Link)
	}
	return fmt.Sprintf("%v size %d sum %s mtime %d owner %d:%d", e.Mode, e.Size, e.Sum, e.MTime, e.UID, e.GID)
}

// Snap is a picture of a tree.
type Snap map[string]Ent

func lstatEnt(path string) (Ent, error) {
	st, err := os.Lstat(path)
	if err != nil {
		return Ent{}, err
	}
	e := Ent{Mode: st.Mode(), MTime: st.ModTime().UnixNano()}
	if sys, ok := st.Sys().(*syscall.Stat_t); ok {
		e.UID, e.GID, e.Ino = sys.Uid, sys.Gid, sys.Ino
	}
	switch {
	case st.Mode().IsRegular():
		e.Size = st.Size()
		b, err := os.ReadFile(path)
		if err != nil {
			e.Sum = "unreadable"
		} else {
			s := sha256.Sum256(b)
			e.Sum = fmt.Sprintf("%x", s[:8])
		}
	case st.Mode()&fs.ModeSymlink != 0:
		e.Link, _ = os.Readlink(path)
	}
	return e, nil
}

// snapshot pictures the tree under dir, dir itself excluded.
func snapshot(dir string) Snap {
	s := Snap{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		e, err := lstatEnt(p)
		if err == nil {
			s[rel] = e
		}
		return nil
	})
	return s
}

// diffSnap tells what changed. dirTimes: directories' times count too.
func diffSnap(before, after Snap, dirTimes bool) string {
	var out []string
	for p, b := range before {
		a, ok := after[p]
		if !ok {
			out = append(out, fmt.Sprintf("%q is gone", p))
			continue
		}
		if !dirTimes && b.Mode.IsDir() {
			a.MTime, b.MTime = 0, 0
		}
		if a != b {
			out = append(out, fmt.Sprintf("%q was %v, is %v", p, b, a))
		}
	}
	for p, a := range after {
		if _, ok := before[p]; !ok {
			out = append(out, fmt.Sprintf("%q is new: %v", p, a))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, "; ")
}

// node is a file of a generated tree.
type node struct {
	path  string // relative, no trailing slash
	kind  byte   // f, d, l
	data  []byte
	perm  fs.FileMode
	mtime int64
	link  string
}

type treeOpt struct {
	max     int  // entries
	links   bool // symbolic links
	maxName int
	maxPath int
	maxBody int
	dirs    bool
}

// genTree makes a tree, parents before children.
func genTree(r *rand.Rand, o treeOpt) []node {
	n := 1 + r.Intn(o.max)
	var nodes []node
	dirs := []string{""}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		parent := dirs[r.Intn(len(dirs))]
		p := parent + fileName(r, o.maxName)
		if used[p] || len(p) > o.maxPath {
			continue
		}
		used[p] = true
		nd := node{path: p, kind: 'f', perm: fs.FileMode(0400 | r.Intn(0400)), mtime: randTime(r)}
		switch k := r.Intn(8); {
		case k < 2 && o.dirs && strings.Count(p, "/") < 4:
			nd.kind = 'd'
			nd.perm |= 0700
			dirs = append(dirs, p+"/")
		case k == 2 && o.links:
			nd.kind = 'l'
			nd.perm = 0777
			switch r.Intn(4) {
			case 0:
				nd.link = "../" + fileName(r, 20)
			case 1:
				nd.link = "/nonexistent/" + fileName(r, 30)
			case 2:
				nd.link = fileName(r, 60)
			default:
				nd.link = "./a/../" + fileName(r, 10)
			}
			nd.link = barred(r, nd.link)
			if len(p)+1+len(nd.link) > o.maxPath {
				nd.link = "x"
			}
		default:
			if q := parent + barred(r, p[len(parent):]); !used[q] {
				nd.path, used[q] = q, true
			}
			nd.data, _ = randBody(r, o.maxBody)
		}
		nodes = append(nodes, nd)
	}
	return nodes
}

// makeTree puts a tree on disk below dir.
func makeTree(dir string, nodes []node) {
	for _, n := range nodes {
		p := filepath.Join(dir, n.path)
		switch n.kind {
		case 'd':
			must(os.Mkdir(p, 0755))
		case 'l':
			must(os.Symlink(n.link, p))
		default:
			must(os.WriteFile(p, n.data, 0600))
		}
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		p := filepath.Join(dir, n.path)
		if n.kind == 'l' {
			continue
		}
		must(os.Chmod(p, n.perm))
		tm := time.Unix(n.mtime, 0)
		must(os.Chtimes(p, tm, tm))
	}
}

func readDirNames(dir string) []string {
	es, err := os.ReadDir(dir)
	must(err)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out
}
