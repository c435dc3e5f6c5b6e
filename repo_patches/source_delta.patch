From 4ed6d0654aa85cdf2a58ba1b68b9cb2174254905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 01/29] fix: trim search results at the first unused slot

Search trimmed the neighbours at the last unused slot, so that asking for
more neighbours than there are returned blank entries.
---
 pkg/search/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..0dd49dc 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -129,6 +129,7 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	for i := 0; i < len(neighbors); i++ {
 		if neighbors[i].Word == "" {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From 0dbe15620c5053c6c411aa97956eb091b58492eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 02/29] fix: return no neighbours for k <= 0 and bound k by the
 number of items

Search panicked for k <= 0 and for empty searchers, and allocated k slots
whatever the number of items.
---
 pkg/search/search.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 0dd49dc..c108187 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,13 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	// There can't be more neighbors than items.
+	if k > len(s.Items) {
+		k = len(s.Items)
+	}
+	if k <= 0 {
+		return Neighbors{}, nil
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
-- 
2.43.0


From cf71894ea9e4d8106081472bb1e4e824d83e201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 03/29] fix: report write errors when saving word vectors

Save ignored the errors of writing and flushing, and so reported success for
files that were not completely written.
---
 pkg/model/modelutil/vector/vector.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..327c34e 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -60,7 +59,12 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 			}
 		})
 	}
-	writer.WriteString(fmt.Sprintf("%v", buf.String()))
+	if _, err := writer.WriteString(fmt.Sprintf("%v", buf.String())); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-- 
2.43.0


From 639f246a559fdd068f69b56c6a0ffbe08501ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 04/29] fix: load word vectors with lines longer than 64KB

Save writes lines of any length, but loading them back failed with
'token too long' for large dimensions or words.
---
 pkg/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..52a1452 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,8 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	// lines of high-dimensional vectors exceed the default limit of the scanner
+	s.Buffer(make([]byte, 0, bufio.MaxScanTokenSize), math.MaxInt32)
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From b7182c7d19247b27bc22dfc2ace333f9619da0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 05/29] fix: return the full path for depth 0 in GetPath

max-depth=0 is documented to track the full path from root to word, but an
empty path was returned, so that hierarchical softmax trained nothing.
---
 pkg/corpus/dictionary/node/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..783ca16 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -36,7 +36,8 @@ func (n *Node) GetPath(depth int) []*Node {
 		}
 		re(n.cache)
 	}
-	if depth > len(n.cache) {
+	// depth=0 means the full path.
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
 	return n.cache[:depth]
-- 
2.43.0


From 14e354a775ae868c2ec19e83770ace70e9d38e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 06/29] fix: build the cached path of a node only once

GetPath filled its cache in place while other goroutines could already see
and use it, so that concurrent training saw partial or unordered paths.
---
 pkg/corpus/dictionary/node/node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 783ca16..6b5b754 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -14,7 +14,12 @@
 
 package node
 
+import (
+	"sync"
+)
+
 type Node struct {
+	once   sync.Once
 	cache  []*Node
 	Parent *Node
 	Val    int
@@ -24,7 +29,8 @@ type Node struct {
 }
 
 func (n *Node) GetPath(depth int) []*Node {
-	if n.cache == nil {
+	// paths are looked up from many goroutines at once on training.
+	n.once.Do(func() {
 		re := func(nodes []*Node) {
 			for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
 				nodes[i], nodes[j] = nodes[j], nodes[i]
@@ -35,7 +41,7 @@ func (n *Node) GetPath(depth int) []*Node {
 			n.cache = append(n.cache, p)
 		}
 		re(n.cache)
-	}
+	})
 	// depth=0 means the full path.
 	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
-- 
2.43.0


From 64501e84bdd7ea6b2cc09c445352f721ab2699fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 07/29] fix: lower-case words when counting co-occurrences of
 re-read documents

The words of the second pass were not lower-cased, so upper-case words were
not found in the dictionary and counted as the word with id 0.
---
 pkg/corpus/fs/fs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..48fca89 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,10 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
+
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From 72378a3925d6d89d026df19d9c05fb8f0eaf44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 08/29] fix: read the forward context of every word up to the
 end of the document

With a window over 2 the pairs of the last words were dropped, documents
shorter than the window yielded pairs with empty words (counted as the word
with id 0), and a window of 0 panicked.
---
 pkg/corpus/cpsutil/cpsutil.go | 51 ++++++++++++-----------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..e533935 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -43,51 +43,34 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 	return nil
 }
 
+// ReadWordWithForwardContext calls fn with each word and each of the n words following it.
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
-	r.Seek(0, 0)
-	scanner := scanner(r)
-	var (
-		axis string
-		ws   []string = make([]string, n)
-	)
+	// the axis word followed by its context.
+	var ws []string
 	postFn := func() error {
-		for _, w := range ws {
-			if err := fn(axis, w); err != nil {
+		for _, w := range ws[1:] {
+			if err := fn(ws[0], w); err != nil {
 				return err
 			}
 		}
+		ws = ws[1:]
 		return nil
 	}
-	for {
-		if axis == "" {
-			if !scanner.Scan() {
-				break
-			}
-			axis = scanner.Text()
-			for i := 0; i < n; i++ {
-				if !scanner.Scan() {
-					break
-				}
-				ws[i] = scanner.Text()
-			}
-		} else {
-			axis = ws[0]
-			ws = ws[1:]
-			if !scanner.Scan() {
-				break
-			}
-			ws = append(ws, scanner.Text())
-		}
-		if err := postFn(); err != nil {
-			return err
+	if err := ReadWord(r, func(word string) error {
+		ws = append(ws, word)
+		if len(ws) <= n {
+			return nil
 		}
-	}
-	if err := postFn(); err != nil {
+		return postFn()
+	}); err != nil {
 		return err
 	}
 
-	if err := scanner.Err(); err != nil && err != io.EOF {
-		return err
+	// words with less than n words following.
+	for len(ws) > 0 {
+		if err := postFn(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From b2ce0c596984d1450c24d7087b3a9c819ea47a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 09/29] fix: report seek errors when reading words

A document that could not be rewound was silently read from wherever it
stood, usually as an empty document.
---
 pkg/corpus/cpsutil/cpsutil.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index e533935..6559e00 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -28,7 +28,9 @@ func scanner(r io.Reader) *bufio.Scanner {
 }
 
 func ReadWord(r io.ReadSeeker, fn func(string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	for scanner.Scan() {
 		if err := fn(scanner.Text()); err != nil {
-- 
2.43.0


From 7e33a729a3143ec25dc7b0f8ce00d8acb45b84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 10/29] fix: count proximity by the distance of positions, not
 of word ids

Proximity counting divided by the difference of the two word ids, and failed
with 'Divide by zero' whenever a word followed itself within the window.
---
 pkg/corpus/cooccurrence/cooccurrence.go | 11 ++++++++---
 pkg/corpus/cpsutil/cpsutil.go           | 12 ++++++++++--
 pkg/corpus/fs/fs.go                     |  4 ++--
 pkg/corpus/memory/memory.go             |  2 +-
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/corpus/cooccurrence/cooccurrence.go b/pkg/corpus/cooccurrence/cooccurrence.go
index 6cd2449..bccc072 100644
--- a/pkg/corpus/cooccurrence/cooccurrence.go
+++ b/pkg/corpus/cooccurrence/cooccurrence.go
@@ -55,18 +55,23 @@ func (c *Cooccurrence) EncodedMatrix() map[uint64]float64 {
 	return c.ma
 }
 
+// Add counts the pair of adjacent words.
 func (c *Cooccurrence) Add(left, right int) error {
+	return c.AddWithDistance(left, right, 1)
+}
+
+// AddWithDistance counts the pair of words, whose positions in the document differ by distance.
+func (c *Cooccurrence) AddWithDistance(left, right, distance int) error {
 	enc := encode.EncodeBigram(uint64(left), uint64(right))
 	var val float64
 	switch c.typ {
 	case Increment:
 		val = 1
 	case Proximity:
-		div := left - right
-		if div == 0 {
+		if distance == 0 {
 			return errors.Errorf("Divide by zero on counting co-occurrence")
 		}
-		val = 1. / math.Abs(float64(div))
+		val = 1. / math.Abs(float64(distance))
 	default:
 		return invalidCountTypeError(c.typ)
 	}
diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 6559e00..9588c45 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -47,11 +47,19 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 
 // ReadWordWithForwardContext calls fn with each word and each of the n words following it.
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
+	return ReadWordWithForwardDistance(r, n, func(w1, w2 string, _ int) error {
+		return fn(w1, w2)
+	})
+}
+
+// ReadWordWithForwardDistance calls fn with each word, each of the n words following it, and
+// the distance between their positions.
+func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
 	// the axis word followed by its context.
 	var ws []string
 	postFn := func() error {
-		for _, w := range ws[1:] {
-			if err := fn(ws[0], w); err != nil {
+		for i, w := range ws[1:] {
+			if err := fn(ws[0], w, i+1); err != nil {
 				return err
 			}
 		}
diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 48fca89..e291bc4 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -130,14 +130,14 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			return err
 		}
 
-		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+		if err = cpsutil.ReadWordWithForwardDistance(c.doc, with.Window, func(w1, w2 string, distance int) error {
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
 
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
-			if err := c.cooc.Add(id1, id2); err != nil {
+			if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {
 				return err
 			}
 			cursor++
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 41c5f2e..5ff5845 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -118,7 +118,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
-				if err = c.cooc.Add(c.idoc[i], c.idoc[j]); err != nil {
+				if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
 				cursor++
-- 
2.43.0


From d72a753fb1f2edf28e836f75bfd496b650841e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/29] fix: end training with an error when the document can't
 be re-read

BatchWords left the channel open when reading failed, and its error was
dropped, so that Train waited forever for further batches.
---
 pkg/corpus/fs/fs.go            | 2 +-
 pkg/model/lexvec/lexvec.go     | 8 +++++++-
 pkg/model/word2vec/word2vec.go | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index e291bc4..07cc25e 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,7 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	defer close(ch)
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +81,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..0af3d7d 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -158,7 +158,10 @@ func (l *lexvec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, l.opts.Goroutines)
-		go l.corpus.BatchWords(in, l.opts.BatchSize)
+		errCh := make(chan error, 1)
+		go func() {
+			errCh <- l.corpus.BatchWords(in, l.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
@@ -166,6 +169,9 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-errCh; err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..d685241 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -167,7 +167,10 @@ func (w *word2vec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, w.opts.Goroutines)
-		go w.corpus.BatchWords(in, w.opts.BatchSize)
+		errCh := make(chan error, 1)
+		go func() {
+			errCh <- w.corpus.BatchWords(in, w.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
@@ -175,6 +178,9 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-errCh; err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From d48a4f4bb440416f666464126bb288cdb642e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 12/29] fix: return own vectors for single and own + context
 vectors for agg in glove and lexvec

---
 pkg/model/glove/glove.go   | 4 ++--
 pkg/model/lexvec/lexvec.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..9d5d222 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -185,7 +185,7 @@ func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
-					vec[i] = g.param.Slice(row)[i]
+					vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]
 				}
 			},
 		)
@@ -193,7 +193,7 @@ func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
-					vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]
+					vec[i] = g.param.Slice(row)[i]
 				}
 			},
 		)
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 0af3d7d..01ab92d 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -270,7 +270,7 @@ func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-					vec[i] = l.param.Slice(row)[i]
+					vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]
 				}
 			},
 		)
@@ -279,7 +279,7 @@ func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-					vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]
+					vec[i] = l.param.Slice(row)[i]
 				}
 			},
 		)
-- 
2.43.0


From 438072f8328aaf44ce43e7e360629c738e3d77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 13/29] fix: refuse to save vectors of unknown types

---
 pkg/model/glove/glove.go       | 3 +++
 pkg/model/lexvec/lexvec.go     | 3 +++
 pkg/model/word2vec/word2vec.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 9d5d222..d121bab 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -175,6 +175,9 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 01ab92d..f4153b5 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -260,6 +260,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index d685241..0894c3d 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -233,6 +233,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0


From 9e5a3b808d6d8aab477887e7f43b0cc5a95fd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 14/29] fix: leave words outside the frequency limits out of
 glove training

---
 pkg/model/glove/item.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/model/glove/item.go b/pkg/model/glove/item.go
index 9f1950f..f547ba9 100644
--- a/pkg/model/glove/item.go
+++ b/pkg/model/glove/item.go
@@ -20,6 +20,7 @@ import (
 
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
+	"github.com/ynqa/wego/pkg/corpus/cpsutil"
 	"github.com/ynqa/wego/pkg/util/clock"
 )
 
@@ -31,20 +32,28 @@ type item struct {
 
 func (g *glove) makeItems(cooc *co.Cooccurrence) []item {
 	em := cooc.EncodedMatrix()
-	res, idx, clk := make([]item, len(em)), 0, clock.New()
+	dic := g.corpus.Dictionary()
+	filters := cpsutil.Filters{
+		cpsutil.MaxCount(g.opts.MaxCount),
+		cpsutil.MinCount(g.opts.MinCount),
+	}
+	res, idx, clk := make([]item, 0, len(em)), 0, clock.New()
 	for enc, f := range em {
 		u1, u2 := encode.DecodeBigram(enc)
 		l1, l2 := int(u1), int(u2)
+		if filters.Any(l1, dic) || filters.Any(l2, dic) {
+			continue
+		}
 		coef := 1.
 		if f < float64(g.opts.Xmax) {
 			coef = math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)
 		}
-		res[idx] = item{
+		res = append(res, item{
 			l1:   l1,
 			l2:   l2,
 			f:    math.Log(f),
 			coef: coef,
-		}
+		})
 		idx++
 		g.verbose.Do(func() {
 			if idx%g.opts.LogBatch == 0 {
-- 
2.43.0


From 2687841a7c5044625e39d9b5fae8d2c728ef90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 15/29] fix: keep the index into the sigmoid table in range

---
 pkg/model/word2vec/sigmoid_table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..a68f1f8 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -41,5 +41,10 @@ func newSigmoidTable() *sigmoidTable {
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
 // If you set x to over |max_exp|, it raises index out of range error.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	if i >= s.expTableSize {
+		// the sum above rounds up to the end of the table for x next to max_exp.
+		i = s.expTableSize - 1
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From a80f12cf754325f1e0f4b5c4ca23dbe8484b89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 16/29] fix: draw the window of a CBOW step once

---
 pkg/model/word2vec/model.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..88462ce 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,21 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	// the words to be updated must be the ones aggregated.
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
 	pos int,
+	del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From 5c51f4a4da5a6496c6e3af0d425d8ad7bab3dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 17/29] fix: never let the learning rate drop below its minimum

---
 pkg/model/lexvec/lexvec.go     | 8 ++++----
 pkg/model/word2vec/word2vec.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index f4153b5..127fee7 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -242,11 +242,11 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
-			if l.currentlr < l.opts.MinLR {
-				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			if lr < l.opts.MinLR {
+				lr = l.opts.MinLR
 			}
+			l.currentlr = lr
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 0894c3d..39a4304 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -215,11 +215,11 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
-			if w.currentlr < w.opts.MinLR {
-				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			lr := w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			if lr < w.opts.MinLR {
+				lr = w.opts.MinLR
 			}
+			w.currentlr = lr
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From a6027fde0a5d4cdd405bc834334c47d2cf450788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 18/29] fix: end the console session at the end of the input

---
 pkg/search/console/console.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..8da7235 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -19,6 +19,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -65,8 +66,10 @@ func (c *Console) Run() error {
 	defer c.Close()
 	for {
 		l, err := c.Prompt(">> ")
-		if err != nil {
-			fmt.Println("error: ", err)
+		if err == io.EOF {
+			return nil
+		} else if err != nil {
+			return err
 		}
 		switch l {
 		case "exit":
-- 
2.43.0


From c5897e14cfc5d58e9452293497e28ed718343d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 19/29] fix: report errors in the right operand of console
 expressions

---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 8da7235..45b749e 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -139,7 +139,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From 073d46f810e05b8ec41498d58d79589fadaea9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 20/29] fix: evaluate console expressions of more than two
 words

---
 pkg/search/console/console.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 45b749e..6f93191 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -34,7 +34,7 @@ type searchparams struct {
 }
 
 type searchcursor struct {
-	w1, w2 string
+	words  []string
 	vector []float64
 }
 
@@ -86,8 +86,7 @@ func (c *Console) Run() error {
 
 func (c *Console) eval(l string) error {
 	defer func() {
-		c.cursor.w1 = ""
-		c.cursor.w2 = ""
+		c.cursor.words = nil
 		c.cursor.vector = make([]float64, c.params.dim)
 	}()
 
@@ -110,7 +109,7 @@ func (c *Console) eval(l string) error {
 		neighbors, err = c.searcher.Search(embedding.Embedding{
 			Vector: c.cursor.vector,
 			Norm:   embutil.Norm(c.cursor.vector),
-		}, c.params.k, c.cursor.w1, c.cursor.w2)
+		}, c.params.k, c.cursor.words...)
 		if err != nil {
 			fmt.Printf("failed to search with vector=%v\n", c.cursor.vector)
 		}
@@ -141,8 +140,6 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	if err != nil {
 		return err
 	}
-	c.cursor.w1 = xi.Word
-	c.cursor.w2 = yi.Word
 	c.cursor.vector, err = arithmetic(xi.Vector, expr.Op, yi.Vector)
 	return err
 }
@@ -151,6 +148,9 @@ func (c *Console) evalAsEmbedding(expr ast.Expr) (embedding.Embedding, error) {
 	if err := c.evalExpr(expr); err != nil {
 		return embedding.Embedding{}, err
 	}
+	if _, ok := expr.(*ast.BinaryExpr); ok {
+		return embedding.Embedding{Vector: c.cursor.vector}, nil
+	}
 	v, ok := expr.(*ast.Ident)
 	if !ok {
 		return embedding.Embedding{}, errors.Errorf("failed to parse %v", expr)
@@ -161,6 +161,7 @@ func (c *Console) evalAsEmbedding(expr ast.Expr) (embedding.Embedding, error) {
 	} else if err := vi.Validate(); err != nil {
 		return embedding.Embedding{}, err
 	}
+	c.cursor.words = append(c.cursor.words, vi.Word)
 	return vi, nil
 }
 
-- 
2.43.0


From 58717170d5a2f77b39383dbdf9b4029e15e61541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 21/29] fix: train the rest of the path beyond a saturated node
 of hierarchical softmax

---
 pkg/model/word2vec/optimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/optimizer.go b/pkg/model/word2vec/optimizer.go
index 3454cf3..d0e46f7 100644
--- a/pkg/model/word2vec/optimizer.go
+++ b/pkg/model/word2vec/optimizer.go
@@ -118,7 +118,7 @@ func (opt *hierarchicalSoftmax) optim(
 			inner += ctx[j] * p.Vector[j]
 		}
 		if inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {
-			return
+			continue
 		}
 		g := (1.0 - float64(childCode) - opt.sigtable.sigmoid(inner)) * lr
 		for j := 0; j < len(p.Vector); j++ {
-- 
2.43.0


From d8cfddfa24a5faa285eccf0ad556dc6fef31e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 22/29] fix: start every training of a model at the initial
 learning rate

---
 pkg/model/lexvec/lexvec.go     | 3 +++
 pkg/model/word2vec/word2vec.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 127fee7..099fc63 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -101,6 +101,9 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 
 	l.subsampler = subsample.New(dic, l.opts.SubsampleThreshold)
 
+	// an earlier training of the model may have lowered it.
+	l.currentlr = l.opts.Initlr
+
 	if l.opts.DocInMemory {
 		if err := l.train(); err != nil {
 			return err
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 39a4304..3e0a076 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -96,6 +96,9 @@ func (w *word2vec) Train(r io.ReadSeeker) error {
 
 	w.subsampler = subsample.New(dic, w.opts.SubsampleThreshold)
 
+	// an earlier training of the model may have lowered it.
+	w.currentlr = w.opts.Initlr
+
 	switch w.opts.ModelType {
 	case SkipGram:
 		w.mod = newSkipGram(w.opts)
-- 
2.43.0


From 8efecfcf10a01a3ab63f995727c2d4b53ee4f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 23/29] fix: log the reading of lexvec documents at every log
 batch

---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 099fc63..26a3392 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -82,7 +82,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 			CountType: co.Increment,
 			Window:    l.opts.Window,
 		},
-		l.verbose, l.opts.BatchSize,
+		l.verbose, l.opts.LogBatch,
 	); err != nil {
 		return err
 	}
-- 
2.43.0


From 79cce6adbe28899c8430a052c41fbacd865ef770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 24/29] fix: refuse to save the vectors of a training that was
 not completed

---
 pkg/model/glove/glove.go       | 11 ++++++++++-
 pkg/model/lexvec/lexvec.go     |  7 +++++++
 pkg/model/word2vec/word2vec.go |  6 ++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index d121bab..46bc9df 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -43,6 +43,7 @@ type glove struct {
 	param  *matrix.Matrix
 	solver solver
 
+	trained bool
 	verbose *verbose.Verbose
 }
 
@@ -66,6 +67,7 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (g *glove) Train(r io.ReadSeeker) error {
+	g.trained = false
 	if g.opts.DocInMemory {
 		g.corpus = memory.New(r, g.opts.ToLower, g.opts.MaxCount, g.opts.MinCount)
 	} else {
@@ -104,7 +106,11 @@ func (g *glove) Train(r io.ReadSeeker) error {
 		return errors.Errorf("invalid solver: %s not in %s|%s", g.opts.SolverType, Stochastic, AdaGrad)
 	}
 
-	return g.train()
+	if err := g.train(); err != nil {
+		return err
+	}
+	g.trained = true
+	return nil
 }
 
 func (g *glove) train() error {
@@ -178,6 +184,9 @@ func (g *glove) Save(f io.Writer, typ vector.Type) error {
 	if typ != vector.Single && typ != vector.Agg {
 		return vector.InvalidTypeError(typ)
 	}
+	if !g.trained {
+		return errors.New("glove is not trained")
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 26a3392..92a1947 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -21,6 +21,7 @@ import (
 	"math/rand"
 	"sync"
 
+	"github.com/pkg/errors"
 	"golang.org/x/sync/semaphore"
 
 	"github.com/ynqa/wego/pkg/corpus"
@@ -46,6 +47,7 @@ type lexvec struct {
 	subsampler *subsample.Subsampler
 	currentlr  float64
 
+	trained bool
 	verbose *verbose.Verbose
 }
 
@@ -71,6 +73,7 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (l *lexvec) Train(r io.ReadSeeker) error {
+	l.trained = false
 	if l.opts.DocInMemory {
 		l.corpus = memory.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
 	} else {
@@ -113,6 +116,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 			return err
 		}
 	}
+	l.trained = true
 	return nil
 }
 
@@ -266,6 +270,9 @@ func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
 	if typ != vector.Single && typ != vector.Agg {
 		return vector.InvalidTypeError(typ)
 	}
+	if !l.trained {
+		return errors.New("lexvec is not trained")
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 3e0a076..1154ff8 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -47,6 +47,7 @@ type word2vec struct {
 	mod        mod
 	optimizer  optimizer
 
+	trained bool
 	verbose *verbose.Verbose
 }
 
@@ -72,6 +73,7 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (w *word2vec) Train(r io.ReadSeeker) error {
+	w.trained = false
 	if w.opts.DocInMemory {
 		w.corpus = memory.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
 	} else {
@@ -132,6 +134,7 @@ func (w *word2vec) Train(r io.ReadSeeker) error {
 			return err
 		}
 	}
+	w.trained = true
 	return nil
 }
 
@@ -239,6 +242,9 @@ func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
 	if typ != vector.Single && typ != vector.Agg {
 		return vector.InvalidTypeError(typ)
 	}
+	if !w.trained {
+		return errors.New("word2vec is not trained")
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0


From 2b9fd72eeab27facfb34986df73c0ecae045f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 25/29] fix: keep training word2vec when inner products are not
 numbers

---
 pkg/model/word2vec/sigmoid_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index a68f1f8..2bc5e1e 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -45,6 +45,9 @@ func (s *sigmoidTable) sigmoid(x float64) float64 {
 	if i >= s.expTableSize {
 		// the sum above rounds up to the end of the table for x next to max_exp.
 		i = s.expTableSize - 1
+	} else if i < 0 {
+		// x is not a number after a training that diverged.
+		i = 0
 	}
 	return s.expTable[i]
 }
-- 
2.43.0


From cd3b47ba482e57e924bc632bbdf20d824f22840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 26/29] fix: refuse options nothing can be trained with

---
 pkg/model/glove/glove.go       |  4 +++-
 pkg/model/glove/options.go     | 19 +++++++++++++++++++
 pkg/model/lexvec/lexvec.go     |  4 +++-
 pkg/model/lexvec/options.go    | 31 +++++++++++++++++++++++++++++++
 pkg/model/word2vec/options.go  | 31 +++++++++++++++++++++++++++++++
 pkg/model/word2vec/word2vec.go |  4 +++-
 6 files changed, 90 insertions(+), 3 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 46bc9df..648c51f 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -57,7 +57,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &glove{
 		opts: opts,
diff --git a/pkg/model/glove/options.go b/pkg/model/glove/options.go
index a39aa90..77c32c7 100644
--- a/pkg/model/glove/options.go
+++ b/pkg/model/glove/options.go
@@ -15,8 +15,10 @@ package glove
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 )
@@ -90,6 +92,23 @@ func DefaultOptions() Options {
 	}
 }
 
+// validate refuses the settings nothing can be trained with.
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("invalid dim: %d must be positive", opts.Dim)
+	}
+	if opts.Goroutines < 1 {
+		return errors.Errorf("invalid goroutines: %d must be positive", opts.Goroutines)
+	}
+	if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("invalid log-batch: %d must be positive", opts.LogBatch)
+	}
+	if math.IsNaN(opts.Initlr) || math.IsInf(opts.Initlr, 0) {
+		return errors.Errorf("invalid initlr: %v must be finite", opts.Initlr)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().Float64Var(&opts.Alpha, "alpha", defaultAlpha, "exponent of weighting function")
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 92a1947..1710459 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -61,7 +61,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &lexvec{
 		opts: opts,
diff --git a/pkg/model/lexvec/options.go b/pkg/model/lexvec/options.go
index 3e0cf7d..03d55c3 100644
--- a/pkg/model/lexvec/options.go
+++ b/pkg/model/lexvec/options.go
@@ -16,8 +16,10 @@ package lexvec
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -94,6 +96,35 @@ func DefaultOptions() Options {
 		Window:             defaultWindow,
 	}
 }
+// validate refuses the settings nothing can be trained with.
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("invalid dim: %d must be positive", opts.Dim)
+	}
+	if opts.Goroutines < 1 {
+		return errors.Errorf("invalid goroutines: %d must be positive", opts.Goroutines)
+	}
+	if !opts.DocInMemory && opts.BatchSize < 1 {
+		return errors.Errorf("invalid batch: %d must be positive", opts.BatchSize)
+	}
+	if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("invalid log-batch: %d must be positive", opts.LogBatch)
+	}
+	if opts.Window < 1 {
+		return errors.Errorf("invalid window: %d must be positive", opts.Window)
+	}
+	if opts.UpdateLRBatch < 1 {
+		return errors.Errorf("invalid update-lr-batch: %d must be positive", opts.UpdateLRBatch)
+	}
+	if math.IsNaN(opts.Initlr) || math.IsInf(opts.Initlr, 0) {
+		return errors.Errorf("invalid initlr: %v must be finite", opts.Initlr)
+	}
+	if math.IsNaN(opts.MinLR) || math.IsInf(opts.MinLR, 0) {
+		return errors.Errorf("invalid min-lr: %v must be finite", opts.MinLR)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/options.go b/pkg/model/word2vec/options.go
index 34e1583..142cba0 100644
--- a/pkg/model/word2vec/options.go
+++ b/pkg/model/word2vec/options.go
@@ -16,8 +16,10 @@ package word2vec
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -103,6 +105,35 @@ func DefaultOptions() Options {
 	}
 }
 
+// validate refuses the settings nothing can be trained with.
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("invalid dim: %d must be positive", opts.Dim)
+	}
+	if opts.Goroutines < 1 {
+		return errors.Errorf("invalid goroutines: %d must be positive", opts.Goroutines)
+	}
+	if !opts.DocInMemory && opts.BatchSize < 1 {
+		return errors.Errorf("invalid batch: %d must be positive", opts.BatchSize)
+	}
+	if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("invalid log-batch: %d must be positive", opts.LogBatch)
+	}
+	if opts.Window < 1 {
+		return errors.Errorf("invalid window: %d must be positive", opts.Window)
+	}
+	if opts.UpdateLRBatch < 1 {
+		return errors.Errorf("invalid update-lr-batch: %d must be positive", opts.UpdateLRBatch)
+	}
+	if math.IsNaN(opts.Initlr) || math.IsInf(opts.Initlr, 0) {
+		return errors.Errorf("invalid initlr: %v must be finite", opts.Initlr)
+	}
+	if math.IsNaN(opts.MinLR) || math.IsInf(opts.MinLR, 0) {
+		return errors.Errorf("invalid min-lr: %v must be finite", opts.MinLR)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 1154ff8..5185e52 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -61,7 +61,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &word2vec{
 		opts: opts,
-- 
2.43.0


From 98d0c161b98d939df10ab2ce4d7ea91e642d492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 27/29] fix: make no batch larger than the document

---
 pkg/corpus/fs/fs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 07cc25e..5886d92 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -57,6 +57,10 @@ func (c *Corpus) IndexedDoc() []int {
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 	defer close(ch)
+	if batchSize > c.maxLen {
+		// no batch has more words than there are.
+		batchSize = c.maxLen + 1
+	}
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
-- 
2.43.0


From 96b8b89fa6d20bcb69e4116d3002a80d35d78fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 28/29] fix: a word cut short by a read error was trained as
 the first word, or crashed without one

---
 pkg/corpus/fs/fs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 5886d92..7a880e0 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -67,8 +67,9 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 			word = strings.ToLower(word)
 		}
 
-		id, _ := c.dic.ID(word)
-		if c.filters.Any(id, c.dic) {
+		id, ok := c.dic.ID(word)
+		if !ok || c.filters.Any(id, c.dic) {
+			// a word cut short by a read error is not known.
 			return nil
 		}
 
-- 
2.43.0


From eaaadc364fced03ebe7327301377d91cc8044e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:56 +0000
Subject: [PATCH 29/29] fix: batches piled up in memory, each in a goroutine,
 when reading was faster than training

---
 pkg/model/lexvec/lexvec.go     | 11 +++++++----
 pkg/model/word2vec/word2vec.go | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 1710459..9a6441b 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -142,6 +142,9 @@ func (l *lexvec) train() error {
 		wg := &sync.WaitGroup{}
 
 		for i := 0; i < l.opts.Goroutines; i++ {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			s, e := indexPerThread[i], indexPerThread[i+1]
 			go l.trainPerThread(doc[s:e], items, trained, sem, wg)
@@ -172,6 +175,10 @@ func (l *lexvec) batchTrain() error {
 			errCh <- l.corpus.BatchWords(in, l.opts.BatchSize)
 		}()
 		for doc := range in {
+			// read no more batches than can be trained.
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
 		}
@@ -197,10 +204,6 @@ func (l *lexvec) trainPerThread(
 		sem.Release(1)
 	}()
 
-	if err := sem.Acquire(context.Background(), 1); err != nil {
-		return err
-	}
-
 	for pos, id := range doc {
 		if l.subsampler.Trial(id) {
 			l.trainOne(doc, pos, items)
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 5185e52..de5b367 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -155,6 +155,9 @@ func (w *word2vec) train() error {
 		wg := &sync.WaitGroup{}
 
 		for i := 0; i < w.opts.Goroutines; i++ {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			s, e := indexPerThread[i], indexPerThread[i+1]
 			go w.trainPerThread(doc[s:e], trained, sem, wg)
@@ -180,6 +183,10 @@ func (w *word2vec) batchTrain() error {
 			errCh <- w.corpus.BatchWords(in, w.opts.BatchSize)
 		}()
 		for doc := range in {
+			// read no more batches than can be trained.
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
 		}
@@ -204,10 +211,6 @@ func (w *word2vec) trainPerThread(
 		sem.Release(1)
 	}()
 
-	if err := sem.Acquire(context.Background(), 1); err != nil {
-		return err
-	}
-
 	for pos, id := range doc {
 		if w.subsampler.Trial(id) {
 			w.mod.trainOne(doc, pos, w.currentlr, w.param, w.optimizer)
-- 
2.43.0

