From 08b208a94101b25920819060fc48293768e7e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 01/29] fix: stop handling api requests once the not-ready
 response was sent

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..86ce67f 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From aa3bbb3b9a624ca98b45098b4d3ba09d11a880e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 02/29] fix: report parents of children of top-level bundles
 from disk storage

---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..7c4013d 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex >= 0 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From a20a457e9f0386a9a3acaf2289032467f3807394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 03/29] fix: serialize empty literals as literals

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From ed01baf2fdead04ab26dae14db68eb1ca9f97708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 04/29] fix: report errors while extracting bundles

---
 internal/glass/glass.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..848c066 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,11 +116,10 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	if err := st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
-	})
-	if err != nil {
+	}); err != nil {
 		return drincw, err
 	}
 
-- 
2.43.0


From 96b19dec78eee77e0cdef62ec56b7c3def2384fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 05/29] fix: report errors while writing json

---
 cmd/n2j/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
-- 
2.43.0


From 474e6f5dac0a199a3c93635aaccdbdf89c4f2f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 06/29] fix: make n2j -mysql flag select mysql

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..97266d9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From 5b57447ffc4cac785e1383a1c18836a48f0061b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:33 +0000
Subject: [PATCH 07/29] fix: report errors while indexing tokens

---
 internal/sparkl/index.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..2db2df3 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -192,7 +192,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -236,7 +238,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -269,9 +273,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
-- 
2.43.0


From cf2978fd146b5d4ca736f2c16d79a162b013f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 08/29] fix: report storage errors while adding and looking up
 triples

---
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 12 ++++++++----
 internal/triplestore/imap/imap.go          |  8 ++++++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..a2de248 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -252,10 +252,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -272,7 +274,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -288,7 +290,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..74ef932 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,12 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err = mp.forward.Set(label, ids); err != nil {
+		return
+	}
+	if err = mp.reverse.Set(ids.Literal, label); err != nil {
+		return
+	}
 
 	// return the id
 	return
-- 
2.43.0


From 3e53a26a4db2148a6d8c874021f9d98b170c451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 09/29] fix: respect identities, inverses and uri values when
 masking predicates

---
 internal/sparkl/index.go             | 15 +++++++++------
 internal/triplestore/igraph/index.go | 11 ++++++++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 2db2df3..1328a1e 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// this has to take identities and inverses of predicates into account.
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
@@ -144,7 +145,9 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	addPathArrayToMasks(pmask, bundle.PathArray)
 	for _, field := range bundle.Fields() {
 		addPathArrayToMasks(pmask, field.PathArray)
+		// the value of a field may be a literal or a uri
 		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
+		pmask[impl.Label(field.DatatypeProperty)] = struct{}{}
 	}
 	for _, child := range bundle.ChildBundles {
 		addBundleToMasks(pmask, dmask, child)
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index a2de248..2ea77fd 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -214,7 +214,16 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	if _, ok = mask[ids.Canonical]; ok {
+		return ids, true, nil
+	}
+
+	// the inverse of the predicate may also be contained in the map
+	inverse, ok, err := index.inverses.Get(ids.Canonical)
+	if err != nil || !ok {
+		return ids, false, err
+	}
+	_, ok = mask[inverse]
 	return ids, ok, nil
 }
 
-- 
2.43.0


From bf0aea8d070e2d50df3e3f694ba3372d7044fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 10/29] fix: report errors while storing entities and fields

---
 internal/sparkl/context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
@@ -187,7 +189,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From e2108925064b7a9458e5cb68f3f2eac99aa742c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 11/29] fix: finish and close bundle storages reliably

---
 internal/sparkl/context.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..08f3b98 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -76,7 +76,8 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closers      []io.Closer    // what to close when done
+	closersLock  sync.Mutex     // protects closers
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
 	childAddWait sync.WaitGroup // loading child entities wait
 	errOnce      sync.Once      // to set the error
@@ -89,7 +90,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -105,17 +105,17 @@ func (context *Context) Wait() error {
 
 // Close closes this context
 func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
+	context.closersLock.Lock()
+	defer context.closersLock.Unlock()
+
+	for _, closer := range context.closers {
+		cErr := closer.Close()
+		if err == nil {
+			err = cErr
 		}
 	}
+	context.closers = nil
+	return err
 }
 
 // reportError stores an error in this context
@@ -146,6 +146,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersLock.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersLock.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -212,10 +217,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			context.reportError(err)
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(len(cstorages) + 1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -239,10 +245,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From c846a21078537075dd896245e4672c3dc85942bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 12/29] fix: link to all pages of a bundle

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..22691d1 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -306,13 +306,13 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 
 	// add the previous link if there are previous pages
 	prev := skip - limit
-	if prev > 0 {
+	if skip > 0 {
 		context.PrevLink = pageLink(prev)
 		context.FirstLink = pageLink(0)
 	}
 	// add the next link if there are more
 	next := skip + limit
-	last := total - (total % limit) - 1
+	last := ((total - 1) / limit) * limit
 	if next < total {
 		context.NextLink = pageLink(next)
 		context.LastLink = pageLink(last)
-- 
2.43.0


From d49aee83a65808e73225e092d7bfaf44e586afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:54 +0000
Subject: [PATCH 13/29] fix: escape uris when redirecting to entities

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 22691d1..9b34e04 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -403,7 +403,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -427,7 +427,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From a1e5ace0a3acf135045910c92bda070795a48af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:17 +0000
Subject: [PATCH 14/29] fix: allow render flags to be exported

---
 internal/stats/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..316915a 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -56,6 +56,18 @@ func NewStats(w io.Writer) *Stats {
 	}
 }
 
+// GobEncode implements [gob.GobEncoder].
+// Stats only describe the currently running process, so nothing is encoded.
+func (st *Stats) GobEncode() ([]byte, error) {
+	return []byte{}, nil
+}
+
+// GobDecode implements [gob.GobDecoder].
+// It does not modify st.
+func (st *Stats) GobDecode([]byte) error {
+	return nil
+}
+
 // Rewritable returns the rewritable associated with this status.
 // It is automatically closed at the end of each stage
 func (st *Stats) Rewritable() *progress.Rewritable {
-- 
2.43.0


From d77cdbd4faef6133be1c7b88c3c7a14ec29c1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 15/29] fix: finish writing exports and report errors while
 doing so

---
 internal/glass/glass.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 848c066..d5d3e71 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -162,14 +162,22 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if cErr := f.Close(); err == nil {
+			err = cErr
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
+	defer func() {
+		if cErr := writer.Close(); err == nil {
+			err = cErr
+		}
+	}()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
-- 
2.43.0


From 3a6267a56ac9508d1419ed0f0d62467117fc1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 16/29] fix: replace existing field tables when exporting to
 sql

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From eb746d4c02fd214a4eba6ce19bce149143f75c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 17/29] fix: close all storages of an index

---
 internal/triplestore/igraph/index.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 2ea77fd..4092d14 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -586,7 +586,7 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -609,6 +609,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.language != nil {
+		errors[5] = index.language.Close()
+		index.language = nil
+	}
+
+	if index.triples != nil {
+		errors[6] = index.triples.Close()
+		index.triples = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
-- 
2.43.0


From d9b0c6a76c2fa26350e193de9f604ec360ab8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 18/29] fix: report errors while finishing to write triples

The encoder buffers its output, so an error may only appear once it is closed.
WriteAllTriples dropped that error.
---
 internal/wisski/entity.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..2cb2112 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -21,9 +21,14 @@ type Entity struct {
 }
 
 // WriteTo writes triples representing this entity into w.
-func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
+func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) (err error) {
 	writer := rdf.NewTripleEncoder(w, f)
-	defer writer.Close()
+	defer func() {
+		// closing writes out everything that is still buffered
+		if cerr := writer.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	for _, triple := range entity.AllTriples() {
 		triple, err := triple.Triple(canonical)
-- 
2.43.0


From 2859c0e61e47c1b3065b067ed7d0fef97e6e4f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 19/29] fix: write turtle without abbreviating iris

The encoder does not escape the local names of abbreviated iris,
so that an iri like <http://example.com/?id=1> was not valid turtle.
---
 internal/wisski/entity.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 2cb2112..25dd008 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -23,6 +23,7 @@ type Entity struct {
 // WriteTo writes triples representing this entity into w.
 func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) (err error) {
 	writer := rdf.NewTripleEncoder(w, f)
+	writer.GenerateNamespaces = false // the encoder does not escape local names
 	defer func() {
 		// closing writes out everything that is still buffered
 		if cerr := writer.Close(); err == nil {
-- 
2.43.0


From ec1ba2b55c90cd1d37a319e927179df4b2defa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 20/29] fix: count the bytes that were really written

A progress writer counted bytes before writing them, even when writing failed.
---
 pkg/progress/progress.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index f60aa85..a753876 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -33,9 +33,10 @@ type Writer struct {
 }
 
 func (cw *Writer) Write(bytes []byte) (int, error) {
-	cw.Bytes += int64(len(bytes))
+	count, err := cw.Writer.Write(bytes)
+	cw.Bytes += int64(count)
 	cw.Rewritable.Write(fmt.Sprintf("Wrote %s", humanize.Bytes(uint64(cw.Bytes))))
-	return cw.Writer.Write(bytes)
+	return count, err
 }
 
 // DefaultFlushInterval is a reasonable default flush interval
-- 
2.43.0


From e1e39b14e8d46b6171589c88b432cf939644985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:13 +0000
Subject: [PATCH 21/29] fix: export and import without statistics

Exporting and importing with absent statistics, or statistics without an output,
dereferenced a nil pointer.
---
 internal/glass/glass.go  | 12 ++++++------
 pkg/progress/progress.go |  7 ++++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index d5d3e71..f56d828 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -180,9 +180,9 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	}()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
-		counter := &progress.Writer{
-			Writer:     writer,
-			Rewritable: *st.Rewritable(),
+		counter := &progress.Writer{Writer: writer}
+		if rw := st.Rewritable(); rw != nil {
+			counter.Rewritable = *rw
 		}
 
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
@@ -215,9 +215,9 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 	}
 
 	err = st.DoStage(stats.StageImportIndex, func() error {
-		counter := &progress.Reader{
-			Reader:     reader,
-			Rewritable: *st.Rewritable(),
+		counter := &progress.Reader{Reader: reader}
+		if rw := st.Rewritable(); rw != nil {
+			counter.Rewritable = *rw
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
 		counter.Flush(true)
diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index a753876..75b578e 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -56,6 +56,9 @@ func (rw *Rewritable) Write(value string) {
 }
 
 func (rw *Rewritable) Flush(force bool) {
+	if rw.Writer == nil { // nowhere to write to
+		return
+	}
 	if !(force || time.Since(rw.lastFlush) > rw.FlushInterval) {
 		return
 	}
@@ -78,7 +81,9 @@ func (rw *Rewritable) Flush(force bool) {
 func (rw *Rewritable) Close() {
 	rw.content = ""
 	rw.Flush(true)
-	rw.Writer.Write([]byte("\r"))
+	if rw.Writer != nil {
+		rw.Writer.Write([]byte("\r"))
+	}
 
 	rw.longestContent = 0
 }
-- 
2.43.0


From 36900cef35a666671ba563c0c523ac95fdbefdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 22/29] fix: find sources in directories with special
 characters

The name of the directory was used as a part of a glob pattern, so that
the sources in a directory like 'data[1]' were not found, or those of another
directory were used.
---
 load.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/load.go b/load.go
index 190ecfe..880d64e 100644
--- a/load.go
+++ b/load.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 // cspell:words nqauds
@@ -40,7 +41,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 
 		base := argv[0]
 
-		xmls, err := filepath.Glob(filepath.Join(base, "*.xml"))
+		xmls, err := filesWithSuffix(base, ".xml")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -49,7 +50,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 		}
 		xml = xmls[0]
 
-		nqs, err := filepath.Glob(filepath.Join(base, "*.nq"))
+		nqs, err := filesWithSuffix(base, ".nq")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -73,6 +74,21 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 	return nq, xml, "", nil
 }
 
+// filesWithSuffix returns the paths of all entries in dir whose name ends in suffix.
+// Unlike [filepath.Glob] the name of the directory itself has no special meaning.
+func filesWithSuffix(dir string, suffix string) (paths []string, err error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), suffix) {
+			paths = append(paths, filepath.Join(dir, entry.Name()))
+		}
+	}
+	return paths, nil
+}
+
 func isDirectory(path string) (ok bool, err error) {
 	stats, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From 7ac666288ba40eff6d78a049ca0bd1d58c5115e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 23/29] fix: ignore empty public urls, which permitted every
 url in the strict content security policy

---
 internal/viewer/viewer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..1c7b6fc 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -65,7 +65,12 @@ type RenderFlags struct {
 func (rf RenderFlags) PublicURIS() (public []string) {
 	// add all the public urls
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
-		url, err := url.Parse(strings.TrimSpace(raw))
+		raw = strings.TrimSpace(raw)
+		if raw == "" {
+			continue
+		}
+
+		url, err := url.Parse(raw)
 		if err != nil {
 			rf.Stats.LogError("parse url", err)
 			continue
-- 
2.43.0


From 6d38d834aca8e434b1440cc06bb00d1316073fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 24/29] fix: make links with user information into the original
 system local

---
 internal/viewer/html.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 9b34e04..db6ad8b 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -123,6 +123,7 @@ func (cg contextGlobal) ReplaceURL(u string) string {
 				continue
 			}
 			url.Scheme = ""
+			url.User = nil
 			url.Host = ""
 			url.OmitHost = true
 			return url.String()
-- 
2.43.0


From 30699cd8c898bbf2569645a53e4c3553266b6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 25/29] fix: close the exporter when extracting entities fails

---
 internal/sparkl/pathbuilder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/sparkl/pathbuilder.go b/internal/sparkl/pathbuilder.go
index 27e8e80..7bd44eb 100644
--- a/internal/sparkl/pathbuilder.go
+++ b/internal/sparkl/pathbuilder.go
@@ -23,6 +23,7 @@ func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.Bu
 		defer closer()
 	}
 	if err != nil {
+		exporter.Close() // there is nothing to export
 		return err
 	}
 
-- 
2.43.0


From 1a4b2c4cfbffe7aa448a17edf6ae15f745342c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 26/29] fix: keep literals at the end of a path when masking

---
 internal/sparkl/index.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 1328a1e..b709ef7 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -142,9 +142,9 @@ func setMask(index *igraph.Index, pb *pathbuilder.Pathbuilder) error {
 }
 
 func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct{}, bundle *pathbuilder.Bundle) {
-	addPathArrayToMasks(pmask, bundle.PathArray)
+	addPathArrayToMasks(pmask, dmask, bundle.PathArray)
 	for _, field := range bundle.Fields() {
-		addPathArrayToMasks(pmask, field.PathArray)
+		addPathArrayToMasks(pmask, dmask, field.PathArray)
 		// the value of a field may be a literal or a uri
 		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
 		pmask[impl.Label(field.DatatypeProperty)] = struct{}{}
@@ -154,12 +154,16 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	}
 }
 
-func addPathArrayToMasks(pmask map[impl.Label]struct{}, ary []string) {
+func addPathArrayToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct{}, ary []string) {
 	for i, pth := range ary {
 		if i%2 == 1 {
 			pmask[impl.Label(pth)] = struct{}{}
 		}
 	}
+	// the last predicate of a path may also lead to a literal
+	if len(ary) > 0 && len(ary)%2 == 0 {
+		dmask[impl.Label(ary[len(ary)-1])] = struct{}{}
+	}
 }
 
 // indexSameAs inserts SameAs pairs into the index
-- 
2.43.0


From 95ee3ed2828c0cd21248bee0e5c879679a1ea7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 27/29] fix: keep the lexical value of literals with a datatype

---
 internal/sparkl/index_source.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..069a137 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -96,12 +96,13 @@ func (qs *QuadSource) Next() Token {
 			var language impl.Language
 			var datum impl.Datum
 
-			// if this is a language string
-			ldatum, ok := value.Object.(quad.LangString)
-			if ok {
-				language = impl.Language(ldatum.Lang)
-				datum = impl.Datum(ldatum.Native().(string))
-			} else {
+			switch object := value.Object.(type) {
+			case quad.LangString: // this is a language string
+				language = impl.Language(object.Lang)
+				datum = impl.Datum(object.Native().(string))
+			case quad.TypedString: // keep the lexical value, don't interpret it
+				datum = impl.Datum(object.Value)
+			default:
 				datum = impl.Datum(fmt.Sprint(value.Object.Native()))
 			}
 
-- 
2.43.0


From 424a99e2b564c87cc1d59585c020cda87a3b9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 28/29] fix: verify the checksum when importing an export

---
 internal/glass/glass.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index f56d828..d66ee31 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
 	"runtime/debug"
 
@@ -220,6 +221,10 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			counter.Rewritable = *rw
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
+		if err == nil {
+			// read until the end of the file, so that the checksum is verified
+			_, err = io.Copy(io.Discard, counter)
+		}
 		counter.Flush(true)
 		if err != nil {
 			st.LogError("decode export", err)
-- 
2.43.0


From 22ffa9e5b037ca49f2fb9d75553ee18878302c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 29/29] fix: don't trust the size of collections before
 decoding them

---
 pkg/sgob/sgob.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/sgob/sgob.go b/pkg/sgob/sgob.go
index 83ca38f..3dcc169 100644
--- a/pkg/sgob/sgob.go
+++ b/pkg/sgob/sgob.go
@@ -85,9 +85,9 @@ func decodeMap(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	mp := reflect.MakeMapWithSize(tp, int(count))
+	mp := reflect.MakeMapWithSize(tp, sizeHint(count))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		key := reflect.New(tp.Key())
 		value := reflect.New(tp.Elem())
 
@@ -130,16 +130,25 @@ func decodeSlice(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	slice := reflect.MakeSlice(tp, int(count), int(count))
+	slice := reflect.MakeSlice(tp, 0, sizeHint(count))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		value := reflect.New(tp.Elem())
 		if err := DecodeValue(decoder, value); err != nil {
 			return err
 		}
-		slice.Index(i).Set(value.Elem())
+		slice = reflect.Append(slice, value.Elem())
 	}
 
 	obj.Elem().Set(slice)
 	return nil
 }
+
+// maxSizeHint is the maximal number of elements allocated before they are decoded
+const maxSizeHint = 1 << 16
+
+// sizeHint returns the number of elements to allocate for a count read from a stream.
+// The count is not trustworthy until the elements have been decoded.
+func sizeHint(count uint64) int {
+	return int(min(count, maxSizeHint))
+}
-- 
2.43.0

