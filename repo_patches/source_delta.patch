From ce2a4ab64d03936cfb84a29dbd53a486eb37affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 01/34] fix: refuse to build an hash tree without blocks
 instead of panicking

A commit without pending content built an hash tree on an empty list, which
panicked with an index out of range.
---
 libs/cryptography/domain/hashtrees/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..c776469 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -70,6 +70,10 @@ func (app *builder) Now() (HashTree, error) {
 		return createHashTree(*app.pHead, app.parent), nil
 	}
 
+	if app.blocks != nil && len(app.blocks) <= 0 {
+		app.blocks = nil
+	}
+
 	if app.blocks == nil {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
-- 
2.43.0


From 998d5a875fa1dccf01529f506a81ecff1b0774de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 02/34] fix: do not append the padding block to the caller's
 slice

The padding of a single block was appended to the given slice, overwriting
the next element of the caller's backing array.
---
 libs/cryptography/domain/hashtrees/builder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index c776469..fb1d183 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -78,12 +78,13 @@ func (app *builder) Now() (HashTree, error) {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	if len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+	blocks := app.blocks
+	if len(blocks) <= 1 {
+		blocks = [][]byte{blocks[0], []byte("")}
 	}
 
 	hashes := []hash.Hash{}
-	for _, oneData := range app.blocks {
+	for _, oneData := range blocks {
 		oneHash, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 111d7effca25c973a97678edc90a38b54a0c1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 03/34] fix: clear the pending content once it is committed

A second commit on the same context committed the content of the previous
commits again.
---
 libs/databases/infrastructure/files/application.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..6ae0ce9 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -406,6 +406,9 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+
+		// the pending content is now committed:
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From 2fe42ec55c69e9690da6518f4813219751dace70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 04/34] fix: never give an opened context the identifier of
 another open context

The identifier was the amount of open contexts: after closing any context but
the last opened one, the next opened context replaced a live one.
---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 6ae0ce9..b166fde 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -34,6 +34,7 @@ type application struct {
 	bckExtension                string
 	readChunkSize               uint
 	contexts                    map[uint]*context
+	nextContext                 uint
 }
 
 func createApplication(
@@ -152,7 +153,7 @@ func (app *application) Open(name string) (*uint, error) {
 
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  app.nextContext,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
@@ -162,6 +163,7 @@ func (app *application) Open(name string) (*uint, error) {
 	}
 
 	app.contexts[pContext.identifier] = pContext
+	app.nextContext++
 	return &pContext.identifier, nil
 }
 
-- 
2.43.0


From 8e355bf9b5981d5dfc022ea6f8b6f99515ff77fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 05/34] fix: report a read failure instead of opening the
 database as empty

Any failure while reading the reference length opened the context as if the
database was empty, and the next commit then discarded its content.
---
 libs/databases/infrastructure/files/application.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index b166fde..fcb3ab7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -187,7 +187,11 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err != nil && !errors.Is(err, io.EOF) {
+		return nil, 0, err
+	}
+
+	if refAmount <= 0 {
 		return nil, 0, nil
 	}
 
-- 
2.43.0


From c0700c44695c5dcd4fe5c5054725d2b06958dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 06/34] fix: copy the written data so that the caller can reuse
 its slice

The pending content kept the caller's slice: changing it after the write
changed what was committed.
---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fcb3ab7..0aaa988 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -367,7 +367,9 @@ func (app *application) ReadAllByHashes(context uint, hashes []hash.Hash) ([][]b
 // Write writes data to a context
 func (app *application) Write(context uint, hash hash.Hash, data []byte, kind uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(data).WithKind(kind).Now()
+		// copy the data, the caller might reuse its slice before the commit:
+		copied := append([]byte{}, data...)
+		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(copied).WithKind(kind).Now()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From cdde3f166dc33f82b8ee8bbde55213ce1fdf12b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 07/34] fix: copy the whole data area on commit and report its
 failures

The copy of the existing data stopped at the last partial chunk, losing every
byte after the last multiple of the chunk size, and the failures of the copy
and of the writes were ignored: the commit then reported success.
---
 .../infrastructure/files/application.go         | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 0aaa988..dfc995a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -621,16 +621,19 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
-		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
+		pInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
 
-		for {
+		sourceSize := pInfo.Size()
+		for readOffset < sourceSize {
 			// read the file at offset:
+			chunkSize := app.makeChunkSize(uint(sourceSize - readOffset))
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -641,7 +644,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
@@ -655,7 +658,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From e70405a8b177c2602044a911822ccfb4f488b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 08/34] fix: replace the database atomically on commit

The source was removed before the destination was renamed: a crash in between
left no database at all, and a failure left the context with a closed connection
that could be neither read, closed nor opened again. The destination now
replaces the source in one rename, the context keeps its connection until then,
and what follows the rename cannot make an effective commit report a failure.
---
 .../infrastructure/files/application.go       | 44 +++++++++----------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index dfc995a..834caaa 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -551,38 +551,24 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// open the connection on the destination database:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
-	err = os.Rename(destinationPath, sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the backup file:
-	err = os.Remove(backupPath)
+	pNewConn, err := os.Open(destinationPath)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// re-open the source connection:
-	pNewConn, err := os.Open(sourcePath)
+	// rename the destination database to source, which replaces it atomically:
+	err = os.Rename(destinationPath, sourcePath)
 	if err != nil {
+		pNewConn.Close()
 		return nil, nil, err
 	}
 
+	// the commit is effective, so a remaining backup file or connection is harmless:
+	os.Remove(backupPath)
+	context.pConn.Close()
 	return pNewConn, pDataOffset, nil
 }
 
@@ -598,7 +584,12 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	}
 
 	// close the destination:
-	defer destination.Close()
+	isClosed := false
+	defer func() {
+		if !isClosed {
+			destination.Close()
+		}
+	}()
 
 	// convert the updated reference to data:
 	refData, err := app.referenceToContent(updatedReference)
@@ -665,6 +656,13 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		writeOffset += int64(len(contentBytes))
 	}
 
+	// close the destination:
+	isClosed = true
+	err = destination.Close()
+	if err != nil {
+		return nil, err
+	}
+
 	dataOffset := uint(writtenAmount)
 	return &dataOffset, nil
 }
-- 
2.43.0


From de64da9964089737f69c0b521a390bfa840ee452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 09/34] fix: refuse a commit based on an outdated version of
 the database

When two applications had the same database open, the second commit silently
replaced the commit of the first one by its own outdated history.
---
 .../infrastructure/files/application.go       | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 834caaa..855645b 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -512,8 +512,14 @@ func (app *application) updateReference(context uint) (references.Reference, err
 }
 
 func (app *application) updateDatabaseOnFile(context *context, updatedReference references.Reference) (*os.File, *uint, error) {
+	// refuse early, locking would create a missing database file:
+	err := app.verifyIsCurrent(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// create a lock on the file:
-	err := context.pLock.TryLock()
+	err = context.pLock.TryLock()
 	if err != nil {
 		return nil, nil, err
 	}
@@ -521,6 +527,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// the database might have been replaced before the lock was acquired:
+	err = app.verifyIsCurrent(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// write data on the destination file:
 	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
 	if err != nil {
@@ -572,6 +584,25 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	return pNewConn, pDataOffset, nil
 }
 
+func (app *application) verifyIsCurrent(context *context) error {
+	pCurrent, err := os.Stat(filepath.Join(app.dirPath, context.name))
+	if err != nil {
+		return err
+	}
+
+	pOpened, err := context.pConn.Stat()
+	if err != nil {
+		return err
+	}
+
+	if !os.SameFile(pCurrent, pOpened) {
+		str := fmt.Sprintf("the database (name: %s) was modified since the context (%d) read it and therefore cannot be comitted", context.name, context.identifier)
+		return errors.New(str)
+	}
+
+	return nil
+}
+
 func (app *application) writeDataAndReferenceOnDestinationFile(context *context, updatedReference references.Reference) (*uint, error) {
 	// destination path:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
-- 
2.43.0


From b3d73d625a1b71356c364a3030534409ef67d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 10/34] fix: read the reference on the connection the context
 keeps

The reference and the content were read from two successive opens of the path:
when another application committed in between, the context combined the
reference of one version with the data of the next one.
---
 .../infrastructure/files/application.go       | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 855645b..02e2510 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -136,15 +136,17 @@ func (app *application) Open(name string) (*uint, error) {
 		}
 	}
 
-	reference, offset, err := app.retrieveReference(name)
+	// open the connection:
+	path := filepath.Join(app.dirPath, name)
+	pConn, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
 
-	// open the connection:
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
+	// read the reference on that same connection:
+	reference, offset, err := app.retrieveReference(pConn)
 	if err != nil {
+		pConn.Close()
 		return nil, err
 	}
 
@@ -175,15 +177,7 @@ func (app *application) makeChunkSize(length uint) uint {
 	return app.readChunkSize
 }
 
-func (app *application) retrieveReference(name string) (references.Reference, uint, error) {
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	defer pConn.Close()
-
+func (app *application) retrieveReference(pConn *os.File) (references.Reference, uint, error) {
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-- 
2.43.0


From 03d5980ac937964dd859cf7df57f7e45f3424f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 11/34] fix: refuse to create a database named like the
 temporary files of another one

A commit on a database (name) overwrote, then removed, the databases named after
it plus the destination or backup extension.
---
 libs/databases/infrastructure/files/application.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 02e2510..e4cf103 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/juju/fslock"
@@ -89,6 +90,14 @@ func (app *application) Exists(name string) (bool, error) {
 
 // New creates a new database
 func (app *application) New(name string) error {
+	for _, oneExtension := range []string{app.dstExtension, app.bckExtension} {
+		suffix := fmt.Sprintf("%s%s", fileNameExtensionDelimiter, oneExtension)
+		if strings.HasSuffix(name, suffix) {
+			str := fmt.Sprintf("the database (name: %s) cannot be created because the suffix (%s) is reserved for the temporary files of a commit", name, suffix)
+			return errors.New(str)
+		}
+	}
+
 	if _, err := os.Stat(app.dirPath); errors.Is(err, os.ErrNotExist) {
 		err := os.MkdirAll(app.dirPath, filePermission)
 		if err != nil {
-- 
2.43.0


From 020870af0a429abd7cbf8fa2ec225769717da370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 12/34] fix: order each given block exactly once

Ordering matched a given block with every leaf of its hash: lists holding an
empty block could not be ordered (the padding matched it again), and repeated
leaves could return one given block several times in place of another one.
---
 libs/cryptography/domain/hashtrees/adapter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/adapter.go b/libs/cryptography/domain/hashtrees/adapter.go
index fdd8ca4..cd5fb62 100644
--- a/libs/cryptography/domain/hashtrees/adapter.go
+++ b/libs/cryptography/domain/hashtrees/adapter.go
@@ -96,7 +96,7 @@ func (app *adapter) ToCompact(ins HashTree) (Compact, error) {
 
 // ToOrder takes an hashtree and mixed data and re-order the data according to the hashTree
 func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range mixed {
 		hsh, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -104,7 +104,7 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
@@ -116,8 +116,9 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 	list := leaves.Leaves()
 	for _, oneLeaf := range list {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if blocks := hashed[leafHashAsString]; len(blocks) > 0 {
+			out = append(out, blocks[0])
+			hashed[leafHashAsString] = blocks[1:]
 			continue
 		}
 
-- 
2.43.0


From aaf1c548cf87af1acc48242d801445e26b3fe5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 13/34] fix: refuse leaves that cannot form a hash tree instead
 of panicking, and check the lengths while decoding leaves

---
 .../cryptography/domain/hashtrees/leaf_adapter.go |  5 +++++
 .../domain/hashtrees/leaves_adapter.go            | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..ceabc4d 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -155,6 +155,11 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 	}
 
 	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	if leftLength < 0 || leftLength > contentLength-8 {
+		str := fmt.Sprintf("the left Leaf was expected to contain %d bytes in order to convert to a ParentLeaf instance, %d available", leftLength, contentLength-8)
+		return nil, errors.New(str)
+	}
+
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..5718f3b 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,8 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
+		if lengthEndsOn > contentLength {
+			str := fmt.Sprintf("the content was expected to contain the length of the Leaf (index: %d) in order to convert to a Leaves instance", i)
+			return nil, errors.New(str)
+		}
+
 		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
 
+		if leafLength < 0 || leafLength > contentLength-lengthEndsOn {
+			str := fmt.Sprintf("the Leaf (index: %d) was expected to contain %d bytes in order to convert to a Leaves instance, %d available", i, leafLength, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
+
 		endsOn := lengthEndsOn + leafLength
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
@@ -92,6 +102,11 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 func (app *leavesAdapter) ToHashTree(ins Leaves) (HashTree, error) {
 	list := ins.Leaves()
 	length := len(list)
+	if length < 2 || length&(length-1) != 0 {
+		str := fmt.Sprintf("the amount of Leaf instances was expected to be a power of 2 in order to convert to an HashTree instance, %d provided", length)
+		return nil, errors.New(str)
+	}
+
 	if length == 2 {
 		left := list[0]
 		right := list[1]
-- 
2.43.0


From 113fd46a97ecf11f16cbca082272af0070b6c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 14/34] fix: refuse a negative proof, its sign is lost in the
 hash and the encoding of a commit

---
 libs/databases/domain/references/commit_builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/databases/domain/references/commit_builder.go b/libs/databases/domain/references/commit_builder.go
index bacb3a0..5843a8e 100644
--- a/libs/databases/domain/references/commit_builder.go
+++ b/libs/databases/domain/references/commit_builder.go
@@ -77,6 +77,10 @@ func (app *commitBuilder) Now() (Commit, error) {
 		return nil, errors.New("the creation time is mandatory in order to build a Commit instance")
 	}
 
+	if app.pProof != nil && app.pProof.Sign() < 0 {
+		return nil, errors.New("the proof cannot be negative in order to build a Commit instance")
+	}
+
 	data := [][]byte{
 		app.values.Head().Bytes(),
 		[]byte(fmt.Sprintf("%d", app.pCreatedOn.UnixNano())),
-- 
2.43.0


From f1931c093b2aec123a29b61907ab0cc9ecb4d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 15/34] fix: check the lengths while decoding a reference

---
 libs/databases/domain/references/adapter.go   | 17 +++++++++++------
 .../domain/references/commit_adapter.go       | 19 +++++++++++++++++++
 .../domain/references/commits_adapter.go      | 10 ++++++++++
 .../domain/references/contentkeys_adapter.go  |  6 ++++++
 4 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..7f81f8d 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,25 +61,30 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if uint64(contentLength)-contentKeysBytesLengthDelimiter < contentKeysBytesLength {
+		str := fmt.Sprintf("the ContentKeys were expected to contain %d bytes in order to convert to a Reference instance, the whole content contains %d", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if uint64(contentLength) < commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if uint64(contentLength)-commitBytesLengthDelimiter < commitBytesLength {
+		str := fmt.Sprintf("the Commits were expected to contain %d bytes in order to convert to a Reference instance, the whole content contains %d", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..d1ed8de 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -84,6 +84,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
 
+	if uint64(contentLength-valuesBytesAmountDelimiter) < valueBytesAmount {
+		str := fmt.Sprintf("the values were expected to contain %d bytes in order to convert to a Commit instance, %d available", valueBytesAmount, contentLength-valuesBytesAmountDelimiter)
+		return nil, errors.New(str)
+	}
+
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
 	if err != nil {
@@ -96,7 +101,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain the length of the proof in order to convert to a Commit instance, %d bytes remaining", len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if uint64(len(remaining)-proofBytesLengthDelimiter) < proofBytesLength {
+				str := fmt.Sprintf("the proof was expected to contain %d bytes in order to convert to a Commit instance, %d remaining", proofBytesLength, len(remaining)-proofBytesLengthDelimiter)
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
@@ -108,6 +122,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	}
 
 	if len(remaining) > 0 {
+		if len(remaining) != hash.Size+1 || remaining[0] != 1 {
+			str := fmt.Sprintf("the content was expected to end with a parent hash (%d bytes) in order to convert to a Commit instance, %d bytes remaining", hash.Size+1, len(remaining))
+			return nil, errors.New(str)
+		}
+
 		pParentHash, err := app.hashAdapter.FromBytes(remaining[1:])
 		if err != nil {
 			return nil, err
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..f0486fa 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -59,8 +59,18 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 			break
 		}
 
+		if amount < 8 {
+			str := fmt.Sprintf("the content was expected to contain the length of the Commit (index: %d), %d bytes remaining", len(list), amount)
+			return nil, errors.New(str)
+		}
+
 		lengthDelimiter := index + 8
 		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
+		if length < 0 || length > amount-8 {
+			str := fmt.Sprintf("the Commit (index: %d) was expected to contain %d bytes, %d remaining", len(list), length, amount-8)
+			return nil, errors.New(str)
+		}
+
 		contentDelimiter := lengthDelimiter + length
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..f955e82 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -54,6 +54,12 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 
 	list := []ContentKey{}
 	length := int(binary.LittleEndian.Uint64(content[:8]))
+	available := (len(content) - 8) / contentKeySize
+	if length < 0 || length > available {
+		str := fmt.Sprintf("the content was expected to contain %d ContentKey instances, %d available", length, available)
+		return nil, errors.New(str)
+	}
+
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From 3cd233d8e6942d7e82ae0d27188eabfc26969a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 16/34] fix: check the sizes while decoding contents

---
 libs/databases/domain/contents/adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..46a9127 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,7 +59,16 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the content was expected to contain the size of the Content (index: %d), %d bytes remaining", len(list), len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
+		if uint64(len(remaining)-sizeDelimiter) < size {
+			str := fmt.Sprintf("the Content (index: %d) was expected to contain %d bytes, %d remaining", len(list), size, len(remaining)-sizeDelimiter)
+			return nil, errors.New(str)
+		}
 
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
-- 
2.43.0


From b696a028c5226f5a587578c807a202a3bf7a56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 17/34] fix: a read chunk size of zero reads at once instead of
 dividing by zero or copying forever

---
 libs/databases/infrastructure/files/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index e4cf103..cdb8cd0 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -179,7 +179,7 @@ func (app *application) Open(name string) (*uint, error) {
 }
 
 func (app *application) makeChunkSize(length uint) uint {
-	if app.readChunkSize > length {
+	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
 	}
 
-- 
2.43.0


From 2c24cd22bbbbd82eca16efa1252aa019ee442632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 18/34] fix: check that the reference and the pointers lie
 within the database file before reading

---
 .../infrastructure/files/application.go       | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index cdb8cd0..1ea0d10 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -206,6 +206,18 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 	// convert the reference length to uint64:
 	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
 
+	// the reference must be complete:
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	available := pInfo.Size() - expectedReferenceBytesLength
+	if refLength <= 0 || int64(refLength) > available {
+		str := fmt.Sprintf("the reference was expected to contain %d bytes, %d available in the database", refLength, available)
+		return nil, 0, errors.New(str)
+	}
+
 	// read the reference data:
 	refAllBytes := []byte{}
 	offset := int64(expectedReferenceBytesLength)
@@ -300,6 +312,17 @@ func (app *application) Read(context uint, pointer references.Pointer) ([]byte,
 	if pContext, ok := app.contexts[context]; ok {
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		size := uint(pInfo.Size())
+		if offset < pContext.dataOffset || offset > size || length > size-offset {
+			str := fmt.Sprintf("the pointer (from: %d, length: %d) exceeds the content of the database", pointer.From(), length)
+			return nil, errors.New(str)
+		}
+
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From d6721b3cf59ca265247cb75d4e0415656f8a925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 19/34] fix: let a token recurse more than once

---
 libs/asts/applications/application.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..c988765 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -511,16 +511,29 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
-		stackMap[tokenName] = &stack{
-			token: token,
-			lines: map[int][]byte{},
+	enclosing, isNested := stackMap[tokenName]
+	current := &stack{
+		token: token,
+		lines: map[int][]byte{},
+	}
+
+	// the lines being tried by the enclosing token are skipped on the same data:
+	if isNested {
+		for idx, data := range enclosing.lines {
+			current.lines[idx] = data
 		}
 	}
 
+	stackMap[tokenName] = current
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
+
+	// put the enclosing token back, it can be used again:
 	delete(stackMap, tokenName)
+	if isNested {
+		stackMap[tokenName] = enclosing
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 4c6fa770b72a5ddca73c52229a7c68dd16b3e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 20/34] fix: find the elements of a line by position, names may
 be used more than once

---
 libs/asts/domain/trees/line.go | 37 ++++++++++++++++------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/libs/asts/domain/trees/line.go b/libs/asts/domain/trees/line.go
index 7af697c..a31bb2b 100644
--- a/libs/asts/domain/trees/line.go
+++ b/libs/asts/domain/trees/line.go
@@ -87,45 +87,42 @@ func (obj *line) IsSuccessful() bool {
 		return true
 	}
 
+	// the elements follow the order of their containers, names may be used more than once:
+	next := 0
 	for _, oneContainer := range requested {
+		isPresent := next < len(elements) && elements[next].HasGrammar() && elements[next].Grammar() == oneContainer
 		if oneContainer.IsElement() {
-			requestedElement := oneContainer.Element()
-			requestedMin := requestedElement.Cardinality().Min()
-			if requestedMin <= 0 {
+			requestedMin := oneContainer.Element().Cardinality().Min()
+			if !isPresent {
+				if requestedMin > 0 {
+					return false
+				}
+
 				continue
 			}
 
-			requestedName := requestedElement.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
+			if requestedMin > elements[next].Amount() {
 				return false
 			}
+		}
 
-			amount := element.Amount()
-			if requestedMin > amount {
+		if oneContainer.IsCompose() {
+			if !isPresent {
 				return false
 			}
-		}
 
-		if oneContainer.IsCompose() {
 			requestedOccurences := uint(0)
-			compose := oneContainer.Compose()
-			requestedComposeElements := compose.List()
+			requestedComposeElements := oneContainer.Compose().List()
 			for _, oneElement := range requestedComposeElements {
 				requestedOccurences += oneElement.Occurences()
 			}
 
-			requestedName := compose.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
-				return false
-			}
-
-			amount := element.Amount()
-			if amount != requestedOccurences {
+			if elements[next].Amount() != requestedOccurences {
 				return false
 			}
 		}
+
+		next++
 	}
 
 	return true
-- 
2.43.0


From dcc5a58b2c35c0c32eb683bce1d8168d0b0bd393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 21/34] fix: parse composed values, one by one

---
 libs/asts/applications/application.go | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index c988765..823d328 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -756,30 +756,28 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					if value == nil {
+						str := fmt.Sprintf("the compose (name: %s) expected the value (name: %s, occurence: %d) but it was not found", compose.Name(), grValue.Name(), i)
+						return nil, nil, nil, errors.New(str)
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From 270567627f6d6ce16d14256fac5e9721ebd21b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 22/34] fix: keep what an external grammar leaves unread

---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 823d328..b294049 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -591,7 +591,16 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		treeBuilder.WithSuffix(treeIns.Suffix())
+	}
+
+	if treeIns.HasRemaining() {
+		treeBuilder.WithRemaining(treeIns.Remaining())
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From 8a37e58f982cba26108e0bee8cd9febdbd2f658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 23/34] fix: stop an everything-but element where its whole
 exception token matches

---
 libs/asts/applications/application.go | 209 ++++++++++++++------------
 1 file changed, 114 insertions(+), 95 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index b294049..5cdad12 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -604,6 +604,10 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	if isReverse {
+		return app.blockInReverse(token, stackMap, block, escape, channels, prevData, currentData)
+	}
+
 	tokenName := token.Name()
 	list := []trees.Line{}
 	lines := block.Lines()
@@ -630,101 +634,7 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 		currentStack[tokenName].lines[idx] = remaining
 
-		// if the line is in reverse:
-		if isReverse {
-			previousData := prevData
-			contentsList := []trees.Content{}
-
-			for {
-				if len(remaining) <= 0 {
-					break
-				}
-
-				if escape != nil {
-					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
-					if err == nil {
-						if escapeTree.Block().HasSuccessful() {
-							if escapeTree.HasRemaining() {
-								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, remaining, escapeRemaining)
-								if err == nil && treeLine.IsSuccessful() {
-									amount := len(escapeRemaining) - len(rem)
-									values := escapeRemaining[:amount]
-									for _, oneValue := range values {
-										value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentsList = append(contentsList, contentIns)
-									}
-
-									previousData = escapeRemaining
-									remaining = escapeRemaining[amount:]
-								}
-							}
-						}
-					}
-				}
-
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
-				if err == nil {
-					break
-				}
-
-				value, err := app.treeValueBuilder.Create().WithContent(remaining[0]).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentsList = append(contentsList, contentIns)
-				previousData = remaining
-				remaining = remaining[1:]
-			}
-
-			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
-				elementIns,
-			}).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			lineIns, err := app.treeLineBuilder.Create().
-				WithIndex(uint(idx)).
-				WithGrammar(oneLine).
-				WithElements(elements).
-				IsReverse().
-				Now()
-
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			list = append(list, lineIns)
-			break
-		}
-
-		// the line is NOT in reverse:
+		// parse the line:
 		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
 		if err != nil {
 			continue
@@ -752,6 +662,115 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	return blockIns, remaining, currentStack, nil
 }
 
+func (app *application) blockInReverse(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	contentsList := []trees.Content{}
+	previousData := prevData
+	remaining := currentData
+	for len(remaining) > 0 {
+		if escape != nil {
+			escapeRemaining, isEscape := app.match(escape, stackMap, channels, previousData, remaining)
+			if isEscape && len(escapeRemaining) > 0 {
+				exceptionRemaining, isException := app.match(token, stackMap, channels, remaining, escapeRemaining)
+				if isException {
+					amount := len(escapeRemaining) - len(exceptionRemaining)
+					contents, err := app.valueContents(escapeRemaining[:amount])
+					if err != nil {
+						return nil, nil, nil, err
+					}
+
+					contentsList = append(contentsList, contents...)
+					previousData = escapeRemaining
+					remaining = exceptionRemaining
+					continue
+				}
+			}
+		}
+
+		_, isException := app.match(token, stackMap, channels, previousData, remaining)
+		if isException {
+			break
+		}
+
+		contents, err := app.valueContents(remaining[:1])
+		if err != nil {
+			return nil, nil, nil, err
+		}
+
+		contentsList = append(contentsList, contents...)
+		previousData = remaining
+		remaining = remaining[1:]
+	}
+
+	contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
+		elementIns,
+	}).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	lineIns, err := app.treeLineBuilder.Create().
+		WithIndex(0).
+		WithGrammar(block.Lines()[0]).
+		WithElements(elements).
+		IsReverse().
+		Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	blockIns, err := app.treeBlockBuilder.Create().WithLines([]trees.Line{
+		lineIns,
+	}).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	return blockIns, remaining, stackMap, nil
+}
+
+func (app *application) match(token grammars.Token, stackMap map[string]*stack, channels grammars.Channels, prevData []byte, currentData []byte) ([]byte, bool) {
+	tree, _, err := app.token(token, stackMap, nil, channels, false, prevData, currentData)
+	if err != nil {
+		return nil, false
+	}
+
+	if !tree.Block().HasSuccessful() {
+		return nil, false
+	}
+
+	return tree.Remaining(), true
+}
+
+func (app *application) valueContents(values []byte) ([]trees.Content, error) {
+	list := []trees.Content{}
+	for _, oneValue := range values {
+		value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
+		if err != nil {
+			return nil, err
+		}
+
+		contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+		if err != nil {
+			return nil, err
+		}
+
+		list = append(list, contentIns)
+	}
+
+	return list, nil
+}
+
 func (app *application) line(tokenName string, stackMap map[string]*stack, line grammars.Line, index uint, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Line, []byte, map[string]*stack, error) {
 	list := []trees.Element{}
 	grContainers := line.Containers()
-- 
2.43.0


From 67a4e40cf829f488a2aa12a7ab2278681adc9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 24/34] fix: skip what a channel consumed, escapes included

---
 libs/asts/applications/application.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 5cdad12..02428bf 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1058,8 +1058,7 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			rem := tree.Remaining()
 			if len(rem) == len(remaining) {
 				continue
 			}
-- 
2.43.0


From f8b933acd0c5023d90f9f56b38c87bd1a4d07313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 25/34] fix: accept a channel's condition only when its token
 matches

---
 libs/asts/applications/application.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 02428bf..fd5ae2e 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1117,7 +1117,7 @@ func (app *application) channelCondition(condition grammars.ChannelCondition, pr
 			return false, err
 		}
 
-		isPrevMatch = tree != nil
+		isPrevMatch = tree.Block().HasSuccessful()
 	}
 
 	isNextMatch := true
@@ -1128,7 +1128,7 @@ func (app *application) channelCondition(condition grammars.ChannelCondition, pr
 			return false, err
 		}
 
-		isNextMatch = tree != nil
+		isNextMatch = tree.Block().HasSuccessful()
 	}
 	return isPrevMatch && isNextMatch, nil
 }
-- 
2.43.0


From 0e794fd1ad02a8e0d8cb05bd0275499236be255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 26/34] fix: evaluate the previous condition of a channel after
 a token against that token

---
 libs/asts/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index fd5ae2e..7bd6150 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -546,7 +546,7 @@ func (app *application) token(token grammars.Token, stackMap map[string]*stack,
 
 	builder := app.treeBuilder.Create().WithGrammar(token).WithBlock(block)
 	if channels != nil {
-		suffix, rem, err := app.channels(channels, prevData, remaining)
+		suffix, rem, err := app.channels(channels, currentData, remaining)
 		if err == nil {
 			builder.WithSuffix(suffix)
 			remaining = rem
-- 
2.43.0


From 099d805d0af42a5b0af12c2025117709b79d9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 27/34] fix: report a grammar without suites as uncovered
 instead of panicking

---
 libs/asts/applications/application.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 7bd6150..1012eb9 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -432,6 +432,10 @@ func (app *application) findElementsFromToken(token grammars.Token, pElements *m
 }
 
 func (app *application) findCoveraredElements(coverages coverages.Coverages, pCovered *map[string]map[uint]map[uint]string) error {
+	if coverages == nil {
+		return nil
+	}
+
 	list := coverages.List()
 	for _, oneCoverage := range list {
 		tokenName := oneCoverage.Token().Name()
-- 
2.43.0


From 4ef152609661f1f49bbb8ab3a09b10aed79189c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 28/34] fix: number the covered elements like the containers of
 their line

---
 libs/asts/applications/application.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 1012eb9..96d01b0 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -465,11 +465,23 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 	line := block.Successful()
 	index := line.Index()
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	containersList := line.Grammar().Containers()
+	containerIdx := -1
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
+		// the elements follow the order of their containers, some of them may be absent:
+		containerIdx++
+		for containerIdx < len(containersList)-1 && containersList[containerIdx] != oneElement.Grammar() {
+			containerIdx++
+		}
+
+		if oneElement.Grammar().IsCompose() {
+			continue
+		}
+
 		elementName := oneElement.Grammar().Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
@@ -480,7 +492,7 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index] = map[uint]string{}
 		}
 
-		castedElIdx := uint(elIdx)
+		castedElIdx := uint(containerIdx)
 		if _, ok := covered[tokenName][index][castedElIdx]; !ok {
 			covered[tokenName][index][castedElIdx] = elementName
 		}
-- 
2.43.0


From 39f0e9a4677183b75e3d784ada08283696fa3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 29/34] fix: record the covered elements of an external grammar
 under its root token's name

---
 libs/asts/applications/application.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 96d01b0..f3464df 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -497,11 +497,17 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index][castedElIdx] = elementName
 		}
 
+		subTokenName := elementName
+		elementContent := oneElement.Grammar().Element().Content()
+		if elementContent.IsExternal() {
+			subTokenName = elementContent.External().Grammar().Root().Name()
+		}
+
 		contents := oneElement.Contents().List()
 		for _, oneContent := range contents {
 			if oneContent.IsTree() {
 				subBlock := oneContent.Tree().Block()
-				err := app.findCoveraredElementsFromBlock(elementName, subBlock, &covered)
+				err := app.findCoveraredElementsFromBlock(subTokenName, subBlock, &covered)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 2453e2b662d1230de34f84b6752345573f0b38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 30/34] fix: a query passes over the elements without grammar
 that come before its index

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..cbd5974 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From 4c2baa004474b4fe312a787899a4c474baed5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 31/34] fix: a content func for a single content without any
 content is an error instead of a panic

---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index cbd5974..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -145,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From 47f2cb3b7b74560d0f440d43813c24e6c49a1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 32/34] fix: the bytes of a value's content include its prefix
 when the channels are included

---
 libs/asts/domain/trees/content.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..8944562 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,9 +32,13 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
-		return []byte{
-			obj.Value().Content(),
+		output := []byte{}
+		value := obj.Value()
+		if includeChannels && value.HasPrefix() {
+			output = append(output, value.Prefix().Bytes(includeChannels)...)
 		}
+
+		return append(output, value.Content())
 	}
 
 	return obj.Tree().Bytes(includeChannels)
-- 
2.43.0


From df77a109c0608f19e58ac72a1d1df02bcedfa7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 33/34] fix: a value assignment of a grammar script ends with
 its instruction instead of swallowing the rest of the script

---
 instances/grammars/grammars/grammar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instances/grammars/grammars/grammar.go b/instances/grammars/grammars/grammar.go
index fa3751a..a90ae23 100644
--- a/instances/grammars/grammars/grammar.go
+++ b/instances/grammars/grammars/grammar.go
@@ -360,7 +360,8 @@ func (app *grammar) valueAssignmentToken() grammars.Token {
 			app.component.Line().FromElements([]grammars.Element{
 				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
 				app.component.Element().FromValue([]byte(assignmentSign)[0]),
-				app.component.Element().FromToken(app.token.AnyByte(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromValue([]byte(instructionSuffix)[0]),
 			}),
 		}),
 		app.component.Suite().Suites(map[string]bool{
-- 
2.43.0


From ea48ab4858cd9a7e0c4f9afadf9fe80687c2d32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 34/34] fix: tokens made from text match all the bytes of its
 characters instead of one byte of each

---
 instances/grammars/components/tokens/token.go | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index 903c412..ae72863 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -1,6 +1,8 @@
 package tokens
 
 import (
+	"unicode/utf8"
+
 	components_blocks "github.com/steve-care-software/rodkina/instances/grammars/components/blocks"
 	components_elements "github.com/steve-care-software/rodkina/instances/grammars/components/elements"
 	components_lines "github.com/steve-care-software/rodkina/instances/grammars/components/lines"
@@ -37,8 +39,8 @@ func createToken(
 // AllCharacters returns the all character token
 func (app *token) AllCharacters(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
+	for _, oneValue := range []byte(values) {
+		element := app.element.FromValue(oneValue)
 		elementsList = append(elementsList, element)
 	}
 
@@ -50,16 +52,22 @@ func (app *token) AllCharacters(tokenName string, values string) grammars.Token
 // AnyCharacter returns the any character token
 func (app *token) AnyCharacter(tokenName string, values string) grammars.Token {
 	suitesData := map[string]bool{}
-	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
-		elementsList = append(elementsList, element)
-		suitesData[string(oneValue)] = true
+	linesList := []grammars.Line{}
+	for len(values) > 0 {
+		_, length := utf8.DecodeRuneInString(values)
+		elementsList := []grammars.Element{}
+		for _, oneValue := range []byte(values[:length]) {
+			elementsList = append(elementsList, app.element.FromValue(oneValue))
+		}
+
+		linesList = append(linesList, app.line.FromElements(elementsList))
+		suitesData[values[:length]] = true
+		values = values[length:]
 	}
 
-	return app.AnyElement(
+	return app.FromBlock(
 		tokenName,
-		elementsList,
+		app.block.FromLines(linesList),
 		app.suite.Suites(suitesData),
 	)
 }
@@ -103,8 +111,8 @@ func (app *token) FromBlock(name string, block grammars.Block, suites grammars.S
 
 func (app *token) allCharacterToken(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
+	for _, oneValue := range []byte(values) {
+		element := app.element.FromValue(oneValue)
 		elementsList = append(elementsList, element)
 	}
 
-- 
2.43.0

