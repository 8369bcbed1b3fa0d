From e2dbb5db01e0e4ce7aab8ca14375968fe7dc2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 01/15] fix: report errors of closing a saved file

---
 helper/helper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..bdd3739 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -95,12 +95,16 @@ func SaveFile(file string, data []byte, autoImport ...bool) error {
 	if err != nil {
 		return fmt.Errorf("create file %s, err: %w", file, err)
 	}
-	defer f.Close()
 
 	if _, err := f.Write(formatted); err != nil {
+		f.Close()
 		return fmt.Errorf("write file %s, err: %w", file, err)
 	}
 
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("close file %s, err: %w", file, err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 78006643951b95fe86afcd28ec3e9f428faa3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 02/15] fix: replace saved files atomically

SaveFile truncated the target and then wrote to it, so that a crash, a full
disk or a concurrent reader saw an empty or partial file. Write a temporary
file next to it, sync it and rename it over the target.
---
 helper/helper.go | 86 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 8 deletions(-)

diff --git a/helper/helper.go b/helper/helper.go
index bdd3739..322fc6d 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -6,6 +6,7 @@ import (
 	"go/format"
 	"io"
 	"log/slog"
+	"math/rand/v2"
 	"os"
 	"path/filepath"
 	"runtime/debug"
@@ -91,21 +92,90 @@ func SaveFile(file string, data []byte, autoImport ...bool) error {
 		return fmt.Errorf("mkdir %s, err: %w", dir, err)
 	}
 
-	f, err := os.Create(file)
-	if err != nil {
-		return fmt.Errorf("create file %s, err: %w", file, err)
+	if err := replaceFile(file, formatted); err != nil {
+		return fmt.Errorf("write file %s, err: %w", file, err)
 	}
 
-	if _, err := f.Write(formatted); err != nil {
+	return nil
+}
+
+// replaceFile makes data the content of the file in one step: whoever looks at the file,
+// also after a crash or a failed write, finds either the old or the new content in full.
+func replaceFile(file string, data []byte) (err error) {
+	// a symbolic link stays, the file it refers to gets replaced
+	info, err := os.Lstat(file)
+	for i := 0; err == nil && info.Mode()&os.ModeSymlink != 0; i++ {
+		if i == 40 {
+			return errors.New("too many levels of symbolic links")
+		}
+
+		target, linkErr := os.Readlink(file)
+		if linkErr != nil {
+			return linkErr
+		}
+
+		if !filepath.IsAbs(target) {
+			target = filepath.Dir(file) + string(filepath.Separator) + target
+		}
+		file = target
+		info, err = os.Lstat(file)
+	}
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	exist := err == nil
+
+	// an existing file must be writable
+	if exist {
+		f, err := os.OpenFile(file, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
 		f.Close()
-		return fmt.Errorf("write file %s, err: %w", file, err)
 	}
 
-	if err := f.Close(); err != nil {
-		return fmt.Errorf("close file %s, err: %w", file, err)
+	tmp, err := createTemp(filepath.Dir(file))
+	if err != nil {
+		return err
+	}
+
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if exist {
+		if err := tmp.Chmod(info.Mode().Perm()); err != nil {
+			return err
+		}
 	}
 
-	return nil
+	if _, err := tmp.Write(data); err != nil {
+		return err
+	}
+
+	if err := tmp.Sync(); err != nil {
+		return err
+	}
+
+	if err := tmp.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), file)
+}
+
+// createTemp creates a new file in the directory, with the permissions of any other new file.
+func createTemp(dir string) (*os.File, error) {
+	for i := 0; ; i++ {
+		name := filepath.Join(dir, fmt.Sprintf(".goast-%08x.tmp", rand.Uint32()))
+		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if err == nil || !errors.Is(err, os.ErrExist) || i == 1000 {
+			return f, err
+		}
+	}
 }
 
 func HasPrefix(s []byte, prefix string) bool {
-- 
2.43.0


From b9b33df58293fa2f3223c2f0efadea869ab26e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 03/15] fix: keep the scopes of derived ASTs apart

---
 ast.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 586f659..b046929 100755
--- a/ast.go
+++ b/ast.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/yanun0323/goast/helper"
@@ -138,7 +139,7 @@ func NewAst(scope ...Scope) (Ast, error) {
 	}
 
 	return &ast{
-		scope: scope,
+		scope: slices.Clip(scope),
 	}, nil
 }
 
@@ -183,7 +184,8 @@ func (f *ast) Scope() []Scope {
 		return nil
 	}
 
-	return f.scope
+	// clipped: appending to the returned slice must not write behind f.scope
+	return slices.Clip(f.scope)
 }
 
 func (f *ast) IterScope(fn func(Scope) bool) {
@@ -200,7 +202,7 @@ func (f *ast) SetScope(scope []Scope) Ast {
 		dir:   f.dir,
 		name:  f.name,
 		ext:   f.ext,
-		scope: scope,
+		scope: slices.Clip(scope), // AppendScope must not write behind the caller's slice
 	}
 }
 
-- 
2.43.0


From efd9211136c7a72596e70344d4d1e6db3f8d02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 04/15] fix: make the debug switch safe for concurrent use

---
 helper/helper.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/helper/helper.go b/helper/helper.go
index 322fc6d..2bed719 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -11,20 +11,21 @@ import (
 	"path/filepath"
 	"runtime/debug"
 	"strings"
+	"sync/atomic"
 
 	"golang.org/x/tools/imports"
 )
 
 var (
-	_debug bool
+	_debug atomic.Bool
 )
 
 func SetDebug(debug bool) {
-	_debug = debug
+	_debug.Store(debug)
 }
 
 func DebugPrint(args ...any) {
-	if _debug {
+	if _debug.Load() {
 		ss := strings.Split(string(debug.Stack()), "\n")
 		s := ""
 		if len(ss) >= 7 {
-- 
2.43.0


From 41e28a4f7c78819974b958e5095b68b26c821e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 05/15] fix: keep trie values on shared prefixes

---
 trie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie.go b/trie.go
index 50be38f..32458f1 100755
--- a/trie.go
+++ b/trie.go
@@ -24,7 +24,11 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 	var zero T
 	n := t
 	for i := range s {
-		n = n.Insert(s[i], zero)
+		next, ok := n.Next(s[i])
+		if !ok {
+			next = n.Insert(s[i], zero)
+		}
+		n = next
 	}
 	n.value = value
 	return n
-- 
2.43.0


From 61a097c37cc18a797ea9aae80de160a9722c7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 06/15] fix: keep trie keys that share a first byte apart

---
 trie.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie.go b/trie.go
index 32458f1..85121aa 100755
--- a/trie.go
+++ b/trie.go
@@ -23,7 +23,7 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 
 	var zero T
 	n := t
-	for i := range s {
+	for i := range len(s) {
 		next, ok := n.Next(s[i])
 		if !ok {
 			next = n.Insert(s[i], zero)
@@ -59,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := range len(s) {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From b5b24620e1689a8ad2eb7065b1ac8e4489415744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 07/15] fix: saving does not fail when the file is removed by
 another program meanwhile

---
 helper/helper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/helper/helper.go b/helper/helper.go
index 2bed719..c57abbc 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -129,10 +129,14 @@ func replaceFile(file string, data []byte) (err error) {
 	// an existing file must be writable
 	if exist {
 		f, err := os.OpenFile(file, os.O_WRONLY, 0)
-		if err != nil {
+		switch {
+		case err == nil:
+			f.Close()
+		case errors.Is(err, os.ErrNotExist): // removed meanwhile
+			exist = false
+		default:
 			return err
 		}
-		f.Close()
 	}
 
 	tmp, err := createTemp(filepath.Dir(file))
-- 
2.43.0


From 785e894268430cb28e0356fc50a56044b7d1b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 08/15] fix: keep comments between the parts of a combined type

Combining the nodes of a parameter or return type joined nodes that are not
neighbors and dropped what lies between them, or joined nodes twice: a
comment in 'func f() []/*c*/int' was lost, and the array length of
'type _ [f(a{}) - g(b{})]byte' was written twice.
---
 kind_resetter_all.go  | 37 +++++++++++++++++++++++++++++++------
 kind_resetter_func.go |  7 +------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..1f22a08 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,36 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// combineAdjacent combines the nodes into one node, or into one for each group
+// of neighbors if other nodes (e.g. comments) lie between them.
+func combineAdjacent(k kind.Kind, nodes []*Node) {
+	remaining := make(map[*Node]struct{}, len(nodes))
+	for _, n := range nodes {
+		remaining[n] = struct{}{}
+	}
+
+	for _, n := range nodes {
+		if _, ok := remaining[n]; !ok {
+			continue // already combined
+		}
+		delete(remaining, n)
+
+		var neighbors []*Node
+		next := n.Next()
+		for next != nil {
+			if _, ok := remaining[next]; !ok {
+				break
+			}
+			delete(remaining, next)
+			neighbors = append(neighbors, next)
+			next = next.Next()
+		}
+
+		n.CombineNext(k, neighbors...)
+		n.ReplaceNext(next)
+	}
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -129,12 +159,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	returnKindSet := charset.New(r.returnKinds...)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineAdjacent(r.resetKind, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..3ae0e91 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -249,12 +249,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineAdjacent(kind.ParamType, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
-- 
2.43.0


From ba71d443e3478a5e47ea65e95103a8b7fd2e800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 09/15] fix: load files with a comment before the package
 clause

A file starting with '/* ... */ package foo' was refused with ErrNoPackage.
---
 ast.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ast.go b/ast.go
index b046929..b00ec83 100755
--- a/ast.go
+++ b/ast.go
@@ -104,6 +104,16 @@ func findPackageName(scs []Scope) (string, error) {
 		}
 	}
 
+	if packageScope == nil {
+		// a comment before the package clause on the same line takes the clause into its scope
+		for _, sc := range scs {
+			if sc.Kind() == scope.InnerComment && sc.Node().findNext([]kind.Kind{kind.Package}, findNodeOption{}) != nil {
+				packageScope = sc
+				break
+			}
+		}
+	}
+
 	if packageScope == nil {
 		return "", ErrNoPackage
 	}
-- 
2.43.0


From 9097d0859afa3aca07c6b7f0d4c5398dd4f7528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 10/15] fix: refuse files of build constraints only

format.Source turns the text '//go:build linux' into 'linux\n\npackage p', so that
a file without package clause was loaded as package p.
---
 helper/helper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/helper/helper.go b/helper/helper.go
index c57abbc..391dfd8 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -4,6 +4,8 @@ import (
 	"errors"
 	"fmt"
 	"go/format"
+	"go/parser"
+	"go/token"
 	"io"
 	"log/slog"
 	"math/rand/v2"
@@ -57,6 +59,11 @@ func ReadFile(file string) ([]byte, error) {
 		return nil, err
 	}
 
+	// format.Source takes fragments, too, and may turn build constraints into a package clause
+	if _, err := parser.ParseFile(token.NewFileSet(), file, buf, parser.PackageClauseOnly); err != nil {
+		return buf, nil
+	}
+
 	return formatted, nil
 }
 
-- 
2.43.0


From 35ee0fe71b7432cef7c3829ff6fc5cabbe4465db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 11/15] fix: follow relative links that are in linked
 directories

---
 helper/helper.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/helper/helper.go b/helper/helper.go
index 391dfd8..1c61adf 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -123,7 +123,9 @@ func replaceFile(file string, data []byte) (err error) {
 		}
 
 		if !filepath.IsAbs(target) {
-			target = filepath.Dir(file) + string(filepath.Separator) + target
+			// not cleaned: the directory may be a link, too
+			dir, _ := filepath.Split(file)
+			target = dir + target
 		}
 		file = target
 		info, err = os.Lstat(file)
@@ -146,7 +148,8 @@ func replaceFile(file string, data []byte) (err error) {
 		}
 	}
 
-	tmp, err := createTemp(filepath.Dir(file))
+	dir, _ := filepath.Split(file)
+	tmp, err := createTemp(dir)
 	if err != nil {
 		return err
 	}
@@ -179,10 +182,11 @@ func replaceFile(file string, data []byte) (err error) {
 	return os.Rename(tmp.Name(), file)
 }
 
-// createTemp creates a new file in the directory, with the permissions of any other new file.
+// createTemp creates a new file in the directory (empty, or with a separator at the end),
+// with the permissions of any other new file.
 func createTemp(dir string) (*os.File, error) {
 	for i := 0; ; i++ {
-		name := filepath.Join(dir, fmt.Sprintf(".goast-%08x.tmp", rand.Uint32()))
+		name := dir + fmt.Sprintf(".goast-%08x.tmp", rand.Uint32())
 		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 		if err == nil || !errors.Is(err, os.ErrExist) || i == 1000 {
 			return f, err
-- 
2.43.0


From 2ce6eb5c3f3859d666ab3b8b369be7c6b59ffd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 12/15] fix: create missing directories where the path leads to

---
 helper/helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/helper/helper.go b/helper/helper.go
index 1c61adf..f7dc65f 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -95,9 +95,11 @@ func SaveFile(file string, data []byte, autoImport ...bool) error {
 		}
 	}
 
-	dir := filepath.Dir(file)
-	if err := os.MkdirAll(dir, 0777); err != nil {
-		return fmt.Errorf("mkdir %s, err: %w", dir, err)
+	// not cleaned: ".." may follow a link
+	if dir, _ := filepath.Split(file); dir != "" {
+		if err := os.MkdirAll(dir, 0777); err != nil {
+			return fmt.Errorf("mkdir %s, err: %w", dir, err)
+		}
 	}
 
 	if err := replaceFile(file, formatted); err != nil {
-- 
2.43.0


From 269f820893c3f7f21f7686c36106481d9949537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:13 +0000
Subject: [PATCH 13/15] fix: find the package clause that shares its line with
 a comment before anything that only looks like one

---
 ast.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ast.go b/ast.go
index b00ec83..670369a 100755
--- a/ast.go
+++ b/ast.go
@@ -98,22 +98,14 @@ func ParseAst(file string) (Ast, error) {
 func findPackageName(scs []Scope) (string, error) {
 	var packageScope Scope
 	for _, sc := range scs {
-		if sc.Kind() == scope.Package {
+		// a comment before the package clause on the same line takes the clause into its scope
+		if sc.Kind() == scope.Package ||
+			sc.Kind() == scope.InnerComment && sc.Node().findNext([]kind.Kind{kind.Package}, findNodeOption{}) != nil {
 			packageScope = sc
 			break
 		}
 	}
 
-	if packageScope == nil {
-		// a comment before the package clause on the same line takes the clause into its scope
-		for _, sc := range scs {
-			if sc.Kind() == scope.InnerComment && sc.Node().findNext([]kind.Kind{kind.Package}, findNodeOption{}) != nil {
-				packageScope = sc
-				break
-			}
-		}
-	}
-
 	if packageScope == nil {
 		return "", ErrNoPackage
 	}
-- 
2.43.0


From 0ff1c1a8671dbff8205dfe172b6534bc342ed7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:15 +0000
Subject: [PATCH 14/15] fix: report the name of packages called like basic
 types

---
 ast.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 670369a..321162d 100755
--- a/ast.go
+++ b/ast.go
@@ -112,7 +112,8 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		// a package may be called like a basic type
+		if packageKeywordAppeared && (n.Kind() == kind.Raw || n.Kind() == kind.Basic) {
 			return false
 		}
 
-- 
2.43.0


From a934422a5c48b78e31697aece6792518512b550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:17 +0000
Subject: [PATCH 15/15] fix: do not take names that begin with a keyword for
 the start of a declaration

---
 scope.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scope.go b/scope.go
index 4e10c51..6d42898 100755
--- a/scope.go
+++ b/scope.go
@@ -180,6 +180,13 @@ func isScopeKind(s string, k scope.Kind) bool {
 		return false
 	}
 
+	if k != scope.Comment && k != scope.InnerComment && len(s) > len(ks) {
+		// a longer word that begins with a keyword is a name
+		if c := s[len(ks)]; c == '_' || c >= 0x80 || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
+			return false
+		}
+	}
+
 	return s[:len(ks)] == ks
 }
 
-- 
2.43.0

