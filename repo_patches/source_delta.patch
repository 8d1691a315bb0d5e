From ace501babeca6265e122166417edfd0475dc141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:35 +0000
Subject: [PATCH 01/11] fix: keep all values when subtracting an empty interval
 set

complement() has no way to return the full 64-bit range for an empty
list, so subtracting an empty set removed every value.
---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index a467908..3d217ad 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -117,6 +117,9 @@ func (s Set) Contains(x uint64) bool {
 
 // Subtract subtracts other from s.
 func (s *Set) Subtract(other *Set) {
+	if len(other.intervals) == 0 {
+		return
+	}
 	s.intervals = thresholds(2, s.intervals, complement(other.intervals))
 }
 
-- 
2.43.0


From 8d7a5ec2f1144b920bf925fbd0448fa14d6ae096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:35 +0000
Subject: [PATCH 02/11] fix: sample interval sets covering all 64-bit values

The number of values wraps to zero, so rejection sampling never
accepted a draw and the call did not return.
---
 internal/intervals/intervals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 3d217ad..8e6332f 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -213,6 +213,9 @@ func (s Set) RandomWithGenerator(rnd random.Interface) uint64 {
 			delta: i.hi - cuml + 1,
 		})
 	}
+	if cuml == 0 {
+		return randuint64(rnd) // all 64-bit values, the size wraps to zero
+	}
 	r := randuint64n(rnd, cuml)
 	for _, step := range steps {
 		if r < step.upper {
-- 
2.43.0


From ab35f05f68921a3be78be8eb3316e0d7605df8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:35 +0000
Subject: [PATCH 03/11] fix: give every crossed test vector its own data

Appending to the left vector's data could write into spare capacity
shared by several results, so a later vector overwrote an earlier one.
---
 tv/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index ea0fb7d..fea26da 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -31,7 +31,7 @@ func cross(a, b []Vector) ([]Vector, error) {
 				return nil, err
 			}
 			v := Vector{
-				Data:        append(u.Data, w.Data...),
+				Data:        append(append([]byte{}, u.Data...), w.Data...),
 				Constraints: m,
 			}
 			p = append(p, v)
-- 
2.43.0


From 15553f80852e16c3e9f3804a9ab363a8fc175c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:35 +0000
Subject: [PATCH 04/11] fix: do not share constraints between the vectors of an
 ignored tail

Both vectors held the same constraints map, so fixing a length while
extending one of them also fixed it for the other.
---
 tv/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index fea26da..4bea37d 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -166,7 +166,7 @@ func (g *generator) member(m ast.Member) ([]Vector, error) {
 	case *ast.Ignore:
 		return []Vector{
 			g.empty(),
-			g.vector(g.randbytes(1, 7)),
+			{Data: g.randbytes(1, 7), Constraints: g.constraints.Clone()},
 		}, nil
 	case *ast.Fail:
 		return []Vector{}, nil
-- 
2.43.0


From a9d2530ed40518546e03b8d40e63baf7cfa2b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:15 +0000
Subject: [PATCH 05/11] fix: drop vectors whose length or tag field cannot hold
 its value

A length or tag chosen for the bytes after it was written to its field
even if the field is too narrow or its constraint excludes the value.
Such vectors are invalid for the struct.
---
 tv/generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tv/generator.go b/tv/generator.go
index 4bea37d..fcfb816 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -214,6 +214,18 @@ func (g *generator) intType(name string, t *ast.IntType) ([]Vector, error) {
 
 	switch x, ok := g.constraints.LookupLocal(name); {
 	case ok:
+		if t.Size < 64 && uint64(x)>>t.Size != 0 {
+			return []Vector{}, nil
+		}
+		if t.Constraint != nil {
+			s, err := g.resolver.Intervals(t.Constraint)
+			if err != nil {
+				return nil, err
+			}
+			if !s.Contains(uint64(x)) { // XXX cast
+				return []Vector{}, nil
+			}
+		}
 		b = intbytes(x, t.Size)
 
 	case t.Constraint != nil:
-- 
2.43.0


From f8b16cef6302c28b5acf164fd4b3cc9a6cf83d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:15 +0000
Subject: [PATCH 06/11] fix: report integer ranges with exchanged ends as an
 error

A range such as 5..3 made vector generation panic.
---
 inspect/inspect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 4ab5937..4751d0d 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -222,6 +222,9 @@ func (r *Resolver) Intervals(l *ast.IntegerList) (*intervals.Set, error) {
 		if err != nil {
 			return nil, err
 		}
+		if uint64(hi) < uint64(lo) {
+			return nil, errors.New("bad range")
+		}
 		is[i] = intervals.Range(uint64(lo), uint64(hi)) // XXX cast
 	}
 	if intervals.Overlaps(is) {
-- 
2.43.0


From 1718678bde99bb9f8c80c5db57f86fe96e05421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:15 +0000
Subject: [PATCH 07/11] fix: return an error for undefined structs and
 constants

Generating marshallers panicked when a schema referred to a struct or
constant that is not defined.
---
 gen/decl.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gen/decl.go b/gen/decl.go
index 77ec15e..688ae3a 100644
--- a/gen/decl.go
+++ b/gen/decl.go
@@ -1,6 +1,7 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -25,6 +26,8 @@ type generator struct {
 
 	receiver string // method receiver variable
 	data     string // data variable
+
+	err error // unresolved reference
 }
 
 func (g *generator) files(pkg string, fs []*ast.File) error {
@@ -40,7 +43,7 @@ func (g *generator) files(pkg string, fs []*ast.File) error {
 		}
 	}
 
-	return nil
+	return g.err
 }
 
 func (g *generator) init(fs []*ast.File) (err error) {
@@ -185,7 +188,8 @@ func (g *generator) parseType(lhs string, t ast.Type) {
 		g.printf("%s = new(%s)\n", lhs, name(t.Name))
 		s, ok := g.resolver.Struct(t.Name)
 		if !ok {
-			panic("struct not found") // XXX return err
+			g.err = errors.New("struct not found")
+			return
 		}
 		g.printf("%s, err = %s.Parse(%s%s)\n", g.data, lhs, g.data, contextArgs(s.Contexts))
 		g.printf("if err != nil { return nil, err }\n")
@@ -318,7 +322,8 @@ func (g *generator) assertEnd() {
 func (g *generator) integer(i ast.Integer) string {
 	x, err := g.resolver.Integer(i)
 	if err != nil {
-		panic(err) // XXX panic
+		g.err = err
+		return "0"
 	}
 	return strconv.FormatInt(x, 10)
 }
-- 
2.43.0


From 0a4d009bdc0ca0c3deae07b141d62cb34e2ae45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:38 +0000
Subject: [PATCH 08/11] fix: skip union defaults that no tag value can select

Vector generation panicked on a union with a default case whose other
cases already list every value of the tag.
---
 internal/intervals/intervals.go | 5 +++++
 tv/generator.go                 | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/internal/intervals/intervals.go b/internal/intervals/intervals.go
index 8e6332f..469cf37 100644
--- a/internal/intervals/intervals.go
+++ b/internal/intervals/intervals.go
@@ -105,6 +105,11 @@ func (s Set) String() string {
 	return strings.Join(is, ",")
 }
 
+// Empty returns whether the set has no elements.
+func (s Set) Empty() bool {
+	return len(s.intervals) == 0
+}
+
 // Contains returns whether x is contained in the set.
 func (s Set) Contains(x uint64) bool {
 	for _, i := range s.intervals {
diff --git a/tv/generator.go b/tv/generator.go
index fcfb816..41c44f8 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -304,6 +304,9 @@ func (g *generator) union(u *ast.UnionMember) ([]Vector, error) {
 	results := []Vector{}
 
 	for _, b := range options {
+		if b.Set.Empty() {
+			continue
+		}
 		g.constraints = base.Clone()
 		g.constraints.LookupOrCreateRef(u.Tag, int64(b.Set.RandomWithGenerator(g.rnd))) // XXX cast
 		vs, err := g.members([]Vector{g.empty()}, b.Case.Members)
-- 
2.43.0


From 464f03661679208dc167f5e37ee4fc274df3bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:38 +0000
Subject: [PATCH 09/11] fix: report vectors of recursive structs as not
 implemented

Vector generation recursed without end on a struct that contains
itself.
---
 tv/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tv/generator.go b/tv/generator.go
index 41c44f8..34db933 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -44,6 +44,7 @@ type generator struct {
 	resolver    *inspect.Resolver
 	constraints Constraints
 	strct       *ast.Struct
+	active      map[*ast.Struct]bool // structs being generated
 
 	selector Selector
 	rnd      random.Interface
@@ -57,6 +58,7 @@ func Generate(f *ast.File, opts ...Option) (*Corpus, error) {
 // GenerateFiles generates test vectors for the types in the given files.
 func GenerateFiles(fs []*ast.File, opts ...Option) (*Corpus, error) {
 	g := &generator{
+		active:   map[*ast.Struct]bool{},
 		selector: Exhaustive,
 		rnd:      random.New(),
 	}
@@ -116,6 +118,12 @@ func (g *generator) files(fs []*ast.File) (*Corpus, error) {
 }
 
 func (g *generator) structure(s *ast.Struct) ([]Vector, error) {
+	if g.active[s] {
+		return nil, fault.ErrNotImplemented // recursive type
+	}
+	g.active[s] = true
+	defer delete(g.active, s)
+
 	restore := g.strct
 	g.strct = s
 	vs := []Vector{
-- 
2.43.0


From b52edac73c42c6942f6a3d26849ecb21f4e4b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:12 +0000
Subject: [PATCH 10/11] fix: give overlapping union cases to the first case
 only

A value listed by several cases of a union is parsed by the first of them.
The branches computed for test vectors kept such values in every case, so
vectors for a later case could carry a tag the parser sends elsewhere.
---
 inspect/branches.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inspect/branches.go b/inspect/branches.go
index 280f48f..781a4e4 100644
--- a/inspect/branches.go
+++ b/inspect/branches.go
@@ -39,6 +39,11 @@ func NewBranches(r *Resolver, s *ast.Struct, u *ast.UnionMember) (*Branches, err
 			return nil, err
 		}
 
+		// the first matching case takes a value
+		for _, prev := range b.branches {
+			s.Subtract(prev.Set)
+		}
+
 		b.branches = append(b.branches, Branch{
 			Set:  s,
 			Case: c,
-- 
2.43.0


From 1667d69179656241853374143c4d395e57e25a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:02 +0000
Subject: [PATCH 11/11] fix: skip incompatible vectors when combining array
 elements

Elements of an array can depend on the same context value. Combining two
elements that need different values reported an error and failed the whole
build; such combinations simply have no vector.
---
 tv/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tv/generator.go b/tv/generator.go
index 34db933..692bbc0 100644
--- a/tv/generator.go
+++ b/tv/generator.go
@@ -28,7 +28,7 @@ func cross(a, b []Vector) ([]Vector, error) {
 		for _, w := range b {
 			m, err := u.Constraints.Merge(w.Constraints)
 			if err != nil {
-				return nil, err
+				continue // incompatible
 			}
 			v := Vector{
 				Data:        append(append([]byte{}, u.Data...), w.Data...),
-- 
2.43.0

