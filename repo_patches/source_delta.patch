From d9f1626284d069531ace0994fa17fc9a831f1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/77] fix: roll back the whole batch when an in-memory save
 fails part way

Saves that failed on a later event of the batch (different aggregate type or
ID, cancelled context) kept the earlier events, and the rollback used the
conventional stream name instead of the stream that was written.
---
 provider/inmemorystore/inmemory_store.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..6442c4c 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -237,11 +237,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +253,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +271,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -341,8 +344,10 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, streamName, aggregateType string) {
+	if len(globalSequenceNumbers) == 0 {
+		return
+	}
 
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
@@ -352,7 +357,10 @@ func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggre
 
 	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
 }
 
-- 
2.43.0


From c4362a8ccb2087d5928f2aa04d5a95b6f56553c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 02/77] fix: discard the LevelDB transaction whenever a save or
 delete fails

A rejected delete left its transaction open, and so did a failed commit; the
next write then waited for it forever.
---
 provider/leveldbstore/leveldb_store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..44f5702 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -145,6 +145,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -215,6 +216,7 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	if err != nil {
 		return 0, err
 	}
+	defer transaction.Discard()
 
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
-- 
2.43.0


From 79d31ada5d590e8d239363fb685e14a588b8b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 03/77] fix: keep LevelDB streams and aggregate types with
 overlapping names apart

A stream or aggregate type whose name is another one's name followed by $!
shares its key prefix, so its records showed up in the other's reads, counts
and deletes.
---
 provider/leveldbstore/leveldb_store.go | 29 +++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 44f5702..6c41df3 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -32,6 +32,7 @@ const (
 	streamPrefix            = "$s$"
 	aggregateTypePrefix     = "$at$"
 	globalSequenceNumberKey = "$gsn$"
+	sequenceNumberSize      = 8
 )
 
 type levelDbStore struct {
@@ -153,6 +154,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isKeyWithNumber(iter.Key(), getStreamKeyPrefix(streamName)) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -379,6 +384,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -427,6 +436,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -480,6 +493,12 @@ func getKeyWithNumber(inputKey string, number uint64) []byte {
 	return append([]byte(inputKey), uint64ToBytes(number)...)
 }
 
+// isKeyWithNumber returns true if key is prefix followed by a number, as opposed to
+// a key of another stream or aggregate type whose name starts with the same bytes.
+func isKeyWithNumber(key []byte, prefix string) bool {
+	return len(key) == len(prefix)+sequenceNumberSize
+}
+
 func uint64ToBytes(number uint64) []byte {
 	var buf bytes.Buffer
 	_ = binary.Write(&buf, binary.BigEndian, number)
@@ -512,12 +531,12 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
-	iter.Last()
+	defer iter.Release()
 
-	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	for ok := iter.Last(); ok; ok = iter.Prev() {
+		if isKeyWithNumber(iter.Key(), key) {
+			return bytesToUint64(iter.Key()[len(key):])
+		}
 	}
 
 	return 0
-- 
2.43.0


From 571500662cd49cb47eeb6bdcba9da79ae35657cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 04/77] fix: report storage read errors in the LevelDB store

A failed read ended a read early as if it were complete, and was taken for an
empty stream or store when assigning sequence numbers, which then overwrote
existing events.
---
 provider/leveldbstore/leveldb_store.go | 50 +++++++++++++++++---------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 6c41df3..18b04fa 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -172,6 +172,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	if err := iter.Error(); err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -183,8 +187,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -289,7 +291,10 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
+	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
@@ -298,7 +303,11 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction) + 1
+	globalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
+	if err != nil {
+		return nil, 0, err
+	}
+	globalSequenceNumber++
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -367,7 +376,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	default:
 	}
 
-	return s.getStreamSequenceNumber(s.db, streamName), nil
+	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
@@ -405,12 +414,15 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+			return
+		}
+
 		if cnt == 0 {
 			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
 			return
 		}
-
-		_ = iter.Error()
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -456,6 +468,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				return
 			}
 		}
+
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -515,29 +531,31 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) uint64 {
-	var globalSequenceNumber uint64
+func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
 	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
-	if err == nil {
-		globalSequenceNumber = bytesToUint64(globalSequenceNumberBytes)
+	if err == leveldb.ErrNotFound {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
 	}
 
-	return globalSequenceNumber
+	return bytesToUint64(globalSequenceNumberBytes), nil
 }
 
-func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) uint64 {
+func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) (uint64, error) {
 	return s.getSequenceNumber(iterable, getStreamKeyPrefix(stream))
 }
 
-func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
+func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (uint64, error) {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
 	defer iter.Release()
 
 	for ok := iter.Last(); ok; ok = iter.Prev() {
 		if isKeyWithNumber(iter.Key(), key) {
-			return bytesToUint64(iter.Key()[len(key):])
+			return bytesToUint64(iter.Key()[len(key):]), nil
 		}
 	}
 
-	return 0
+	return 0, iter.Error()
 }
-- 
2.43.0


From 6aa1d8468d52c62ac28a8fb42dc0a9d3cf7bf4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 05/77] fix: read from a point-in-time view instead of holding
 the store lock

Readers held the read lock until their iterator was drained. A writer waiting
in between blocked every later reader, so a multi-type read, a second iterator
opened before draining the first, or a subscriber calling back into the store
could deadlock it. Reads of several aggregate types also saw different moments
for each type.
---
 provider/inmemorystore/inmemory_store.go | 28 ++++++-----
 provider/leveldbstore/leveldb_store.go   | 60 +++++++++++++++++++-----
 2 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 6442c4c..ee1505e 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -92,6 +92,7 @@ func (s *inMemoryStore) Bind(events ...rangedb.Event) {
 
 func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
 	s.mux.RLock()
+	defer s.mux.RUnlock()
 
 	return s.recordsByIDs(ctx, s.records, func(record *rangedb.Record) bool {
 		return record.GlobalSequenceNumber >= globalSequenceNumber
@@ -99,14 +100,15 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
 		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
 	}
 
 	var recordIterators []rangedb.RecordIterator
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
 		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
 	}
 
@@ -121,9 +123,9 @@ func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *ran
 
 func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, streamName string) rangedb.RecordIterator {
 	s.mux.RLock()
+	defer s.mux.RUnlock()
 
 	if _, ok := s.streams[streamName]; !ok || len(s.streams[streamName]) == 0 {
-		s.mux.RUnlock()
 		return rangedb.NewRecordIteratorWithError(rangedb.ErrStreamNotFound)
 	}
 
@@ -132,20 +134,24 @@ func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber
 	})
 }
 
+// recordsByIDs returns the records as they are now. The mutex must be locked while calling
+// this, but not while reading from the iterator.
 func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare func(record *rangedb.Record) bool) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 
+	allRecordData := make([][]byte, 0, len(ids))
+	for _, id := range ids {
+		recordData, exists := s.recordData[id]
+		if !exists {
+			return rangedb.NewRecordIteratorWithError(fmt.Errorf("record missing"))
+		}
+		allRecordData = append(allRecordData, recordData)
+	}
+
 	go func() {
-		defer s.mux.RUnlock()
 		defer close(resultRecords)
 
-		for _, id := range ids {
-			recordData, exists := s.recordData[id]
-			if !exists {
-				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
-				return
-			}
-
+		for _, recordData := range allRecordData {
 			record, err := s.serializer.Deserialize(recordData)
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 18b04fa..29e81a3 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -41,9 +41,10 @@ type levelDbStore struct {
 	serializer    rangedb.RecordSerializer
 	broadcaster   broadcast.Broadcaster
 
-	logger *log.Logger
-	mux    sync.RWMutex
-	db     *leveldb.DB
+	logger  *log.Logger
+	mux     sync.RWMutex
+	readers sync.WaitGroup
+	db      *leveldb.DB
 }
 
 // Option defines functional option parameters for levelDbStore.
@@ -103,6 +104,7 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 func (s *levelDbStore) Stop() error {
 	s.mux.Lock()
 	defer s.mux.Unlock()
+	s.readers.Wait()
 	return s.db.Close()
 }
 
@@ -111,10 +113,16 @@ func (s *levelDbStore) Bind(events ...rangedb.Event) {
 }
 
 func (s *levelDbStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	return s.getEventsByLookup(ctx, allEventsPrefix, globalSequenceNumber)
 }
 
 func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	if len(aggregateTypes) == 1 {
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
@@ -128,6 +136,9 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 }
 
 func (s *levelDbStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, stream string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	return s.getEventsByPrefix(ctx, getStreamKeyPrefix(stream), streamSequenceNumber)
 }
 
@@ -379,15 +390,36 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
+// getSnapshot returns a point-in-time view to read from without holding the mutex, which
+// must be locked while calling this. The view must be released with releaseSnapshot.
+func (s *levelDbStore) getSnapshot() (*leveldb.Snapshot, error) {
+	snapshot, err := s.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
+
+	s.readers.Add(1)
+	return snapshot, nil
+}
+
+func (s *levelDbStore) releaseSnapshot(snapshot *leveldb.Snapshot) {
+	snapshot.Release()
+	s.readers.Done()
+}
+
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
+	snapshot, err := s.getSnapshot()
+	if err != nil {
+		return rangedb.NewRecordIteratorWithError(err)
+	}
+
 	resultRecords := make(chan rangedb.ResultRecord)
-	s.mux.RLock()
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer s.releaseSnapshot(snapshot)
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(prefix)), nil)
+		iter := snapshot.NewIterator(util.BytesPrefix([]byte(prefix)), nil)
 		defer iter.Release()
 
 		cnt := 0
@@ -429,14 +461,18 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 }
 
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
+	snapshot, err := s.getSnapshot()
+	if err != nil {
+		return rangedb.NewRecordIteratorWithError(err)
+	}
+
 	resultRecords := make(chan rangedb.ResultRecord)
-	s.mux.RLock()
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer s.releaseSnapshot(snapshot)
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
+		iter := snapshot.NewIterator(util.BytesPrefix([]byte(key)), nil)
 		defer iter.Release()
 
 		if globalSequenceNumber > 0 {
@@ -454,7 +490,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			targetKey := iter.Value()
 
-			record, err := s.getRecordByLookup(targetKey, iter)
+			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
 				resultRecords <- rangedb.ResultRecord{Err: err}
 				return
@@ -477,8 +513,8 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
-func (s *levelDbStore) getRecordByLookup(targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
-	data, err := s.db.Get(targetKey, nil)
+func (s *levelDbStore) getRecordByLookup(snapshot *leveldb.Snapshot, targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
+	data, err := snapshot.Get(targetKey, nil)
 	if err != nil {
 		s.logger.Printf("unable to find lookup record %s for %s: %v", targetKey, iter.Key(), err)
 		return nil, err
-- 
2.43.0


From b1ab75ebfd2cb83b7be7000bcf3bee89b8e7e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:39 +0000
Subject: [PATCH 06/77] fix: report the error of an input when merging record
 iterators

A failing input was dropped like a finished one, and the records of the other
inputs were presented as the complete result.
---
 merge_record_iterators.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..ff7f623 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -34,6 +34,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if err := pipe.currentResultRecord.Err; err != nil {
+				resultRecords <- ResultRecord{Err: err}
+				drainRecordIterators(recordIterators)
+				return
 			}
 		}
 
@@ -47,6 +51,11 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if err := pipes[i].currentResultRecord.Err; err != nil {
+					resultRecords <- ResultRecord{Err: err}
+					drainRecordIterators(recordIterators)
+					return
+				}
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +66,11 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if err := pipes[i].currentResultRecord.Err; err != nil {
+						resultRecords <- ResultRecord{Err: err}
+						drainRecordIterators(recordIterators)
+						return
+					}
 					pipes = remove(pipes, i)
 					break
 				}
@@ -67,6 +81,14 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	return NewRecordIterator(resultRecords)
 }
 
+// drainRecordIterators lets the producers of abandoned iterators finish.
+func drainRecordIterators(recordIterators []RecordIterator) {
+	for _, recordIterator := range recordIterators {
+		for recordIterator.Next() {
+		}
+	}
+}
+
 func remove(s []*pipe, i int) []*pipe {
 	s[i] = s[len(s)-1]
 	return s[:len(s)-1]
-- 
2.43.0


From 920b668f25f8b3eef99881736708e03030a2a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 07/77] fix: report an error when a cancelled read is cut short

The cancellation error was dropped when the reader did not ask for the next
record within a second, so that the shortened result looked complete; and a
producer with an error to report never finished once its reader had gone.
---
 provider/inmemorystore/inmemory_store.go |  4 ++--
 provider/leveldbstore/leveldb_store.go   | 14 +++++++-------
 provider/remotestore/remote_store.go     | 10 +++++-----
 publish_record.go                        |  8 ++++++++
 record_iterator.go                       | 21 +++++++++++++++++++--
 5 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index ee1505e..a967e55 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -156,7 +156,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
 				s.logger.Printf(deserializeErr.Error())
-				resultRecords <- rangedb.ResultRecord{Err: deserializeErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, deserializeErr)
 				return
 			}
 
@@ -168,7 +168,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func (s *inMemoryStore) OptimisticDeleteStream(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string) error {
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 29e81a3..b8009dc 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -433,7 +433,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -447,17 +447,17 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		}
 
 		if err := iter.Error(); err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 			return
 		}
 
 		if cnt == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
 			return
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
@@ -492,7 +492,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -506,11 +506,11 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		if err := iter.Error(); err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func (s *levelDbStore) getRecordByLookup(snapshot *leveldb.Snapshot, targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 4292b69..1b16b90 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -316,24 +316,24 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 				}
 
 				if strings.Contains(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{Err: context.Canceled}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled)
 					return
 				}
 
 				if strings.Contains(err.Error(), rpcErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
 					return
 				}
 
 				log.Printf("failed to get record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
 			record, err := rangedbpb.ToRecord(pbRecord, s.serializer)
 			if err != nil {
 				log.Printf("failed converting to record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -343,7 +343,7 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func (s *remoteStore) listenForEvents() error {
diff --git a/publish_record.go b/publish_record.go
index 140811d..36d9451 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -5,6 +5,14 @@ import (
 	"time"
 )
 
+// PublishErrorOrCancel publishes an error to a ResultRecord channel, or gives up when ctx is done.
+func PublishErrorOrCancel(ctx context.Context, resultRecords chan ResultRecord, err error) {
+	select {
+	case <-ctx.Done():
+	case resultRecords <- ResultRecord{Err: err}:
+	}
+}
+
 // PublishRecordOrCancel publishes a Record to a ResultRecord channel, or times out.
 func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord, record *Record, timeout time.Duration) bool {
 	select {
diff --git a/record_iterator.go b/record_iterator.go
index 318e108..93ec9e5 100644
--- a/record_iterator.go
+++ b/record_iterator.go
@@ -5,6 +5,7 @@ import (
 )
 
 type recordIterator struct {
+	ctx           context.Context
 	resultRecords <-chan ResultRecord
 	current       ResultRecord
 }
@@ -14,12 +15,19 @@ func NewRecordIterator(recordResult <-chan ResultRecord) *recordIterator {
 	return &recordIterator{resultRecords: recordResult}
 }
 
+// NewRecordIteratorWithContext constructs a new rangedb.Record iterator for a producer that stops
+// when ctx is done. An end of the records after that may be early, and is reported as an error.
+func NewRecordIteratorWithContext(ctx context.Context, recordResult <-chan ResultRecord) *recordIterator {
+	return &recordIterator{ctx: ctx, resultRecords: recordResult}
+}
+
 func (i *recordIterator) Next() bool {
 	if i.current.Err != nil {
 		return false
 	}
 
-	i.current = <-i.resultRecords
+	resultRecord, ok := <-i.resultRecords
+	i.setCurrent(resultRecord, ok)
 
 	return i.current.Record != nil
 }
@@ -30,7 +38,8 @@ func (i *recordIterator) NextContext(ctx context.Context) bool {
 	}
 
 	select {
-	case i.current = <-i.resultRecords:
+	case resultRecord, ok := <-i.resultRecords:
+		i.setCurrent(resultRecord, ok)
 	case <-ctx.Done():
 		i.current = ResultRecord{
 			Record: nil,
@@ -41,6 +50,14 @@ func (i *recordIterator) NextContext(ctx context.Context) bool {
 	return i.current.Record != nil
 }
 
+func (i *recordIterator) setCurrent(resultRecord ResultRecord, ok bool) {
+	if !ok && i.ctx != nil {
+		resultRecord.Err = i.ctx.Err()
+	}
+
+	i.current = resultRecord
+}
+
 func (i *recordIterator) Record() *Record {
 	return i.current.Record
 }
-- 
2.43.0


From 1192c992f286478f19ea3f22a2998144249d219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 08/77] fix: drop a slow subscriber from all of its aggregate
 types at once

It kept receiving records of its other types after the one it missed.
---
 pkg/broadcast/broadcaster.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..8af79b6 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -140,7 +140,9 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	for subscriber := range b.aggregateTypeSubscribers[record.AggregateType] {
 		select {
 		case <-time.After(b.timeout):
-			delete(b.aggregateTypeSubscribers[record.AggregateType], subscriber)
+			for _, subscribers := range b.aggregateTypeSubscribers {
+				delete(subscribers, subscriber)
+			}
 			subscriber.Stop()
 
 		case subscriber.Receiver() <- record:
-- 
2.43.0


From 779cabc72d5769d64a8489014fe42c472a76c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 09/77] fix: do not block forever on a closed broadcaster

Unsubscribing is what its stopped subscribers do next, so their goroutines
never finished.
---
 pkg/broadcast/broadcaster.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 8af79b6..2dffdf9 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -66,35 +66,54 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+		select {
+		case b.subscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+		select {
+		case b.unsubscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+		}
 	}
 }
 
-- 
2.43.0


From ede6ed58afbb58ffc2451df8e3c70b41633985d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 10/77] fix: do not send records from before a live
 subscription to it

Records saved before the subscription started but still in the broadcast
buffer were delivered to it.
---
 pkg/broadcast/broadcaster.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 2dffdf9..670cd5d 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -35,6 +35,7 @@ type Broadcaster interface {
 }
 
 type broadcaster struct {
+	flushRecords              chan struct{}
 	subscribeAllEvents        chan RecordSubscriber
 	unsubscribeAllEvents      chan RecordSubscriber
 	subscribeAggregateTypes   chan AggregateTypeSubscription
@@ -49,6 +50,7 @@ type broadcaster struct {
 // New constructs a broadcaster.
 func New(bufferSize int, timeout time.Duration) *broadcaster {
 	broadcaster := &broadcaster{
+		flushRecords:              make(chan struct{}),
 		subscribeAllEvents:        make(chan RecordSubscriber),
 		unsubscribeAllEvents:      make(chan RecordSubscriber),
 		subscribeAggregateTypes:   make(chan AggregateTypeSubscription),
@@ -72,7 +74,17 @@ func (b *broadcaster) Accept(record *rangedb.Record) {
 	}
 }
 
+// flush sends the records accepted so far to the current subscribers before anything else,
+// so that a subscriber added next does not receive records from before it subscribed.
+func (b *broadcaster) flush() {
+	select {
+	case b.flushRecords <- struct{}{}:
+	case <-b.stopChan:
+	}
+}
+
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
+	b.flush()
 	for _, subscriber := range subscribers {
 		select {
 		case b.subscribeAllEvents <- subscriber:
@@ -91,6 +103,7 @@ func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
+	b.flush()
 	for _, aggregateType := range aggregateTypes {
 		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
@@ -120,6 +133,11 @@ func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, agg
 func (b *broadcaster) start() {
 	for {
 		select {
+		case <-b.flushRecords:
+			for i := len(b.bufferedRecords); i > 0; i-- {
+				b.broadcastRecord(<-b.bufferedRecords)
+			}
+
 		case subscriber := <-b.subscribeAllEvents:
 			b.allEventsSubscribers[subscriber] = struct{}{}
 
-- 
2.43.0


From 89d58e889aa8ad53ad3e67c1ac2931391dd3d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 11/77] fix: deliver the first record of a subscription that
 starts at the next number

StartFrom(n) with no record n yet treated n as already sent, so the record
with that number was lost once it was saved.
---
 pkg/recordsubscriber/record_subscriber.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..b5e895f 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,10 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
+
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
-- 
2.43.0


From 7f7826d1c89aef76d421bf966a23bff93333f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 12/77] fix: fail StartFrom when reading the stored records
 fails or is stopped

A read error ended the stored records early and the subscription went on with
a gap; a stopped subscription still delivered everything. A subscription whose
consumer failed never reported being done.
---
 pkg/recordsubscriber/record_subscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index b5e895f..ca0a667 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -111,6 +111,7 @@ func (s *recordSubscriber) work() {
 			err := s.writeRecord(record)
 			if err != nil {
 				s.unsubscribe(s)
+				close(s.finishChan)
 				return
 			}
 		}
@@ -132,13 +133,17 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 			return iter.Err()
 		}
 
+		if s.ctx.Err() != nil {
+			return context.Canceled
+		}
+
 		err := s.writeRecord(iter.Record())
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
-- 
2.43.0


From 9ee933bcb9535026fe42bc5d6b3c15b7c6fa4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 13/77] fix: broadcast records of the in-memory store in the
 order they were saved

Concurrent saves broadcast after releasing the lock, so a later record could
overtake an earlier one, which subscribers then dropped as already sent.
---
 provider/inmemorystore/inmemory_store.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index a967e55..d6ddf1d 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -241,16 +241,16 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
+	defer s.mux.Unlock()
+
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -260,7 +260,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 		select {
 		case <-ctx.Done():
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, context.Canceled
 
 		default:
@@ -278,7 +277,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 		)
 		if err != nil {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, err
 		}
 
@@ -292,7 +290,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
 
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
-- 
2.43.0


From a972fdf86f3721529400a9bddd39a83752f578c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:55 +0000
Subject: [PATCH 14/77] fix: do not leave the reader of a stopped subscription
 blocked

---
 pkg/recordsubscriber/record_subscriber.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index ca0a667..ab3dc37 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -128,6 +128,12 @@ func (s *recordSubscriber) Stop() {
 
 func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 	iter := s.getRecords(globalSequenceNumber)
+	// Read to the end when stopping early, so that the producer of the records is not left blocked.
+	defer func() {
+		for iter.Next() {
+		}
+	}()
+
 	for iter.Next() {
 		if iter.Err() != nil {
 			return iter.Err()
-- 
2.43.0


From 0242d00e938b0e597dadde825b82a0dfdef1dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 15/77] fix: write each LevelDB save and delete as one batch

A transaction of more than the write buffer flushes tables before it is committed. When
the save then failed, the tables were discarded but goleveldb kept serving them for the
next transaction, which reuses their number, so that events saved later could not be read.
A commit that failed left a lock behind that blocked every later save and Stop.
---
 provider/leveldbstore/leveldb_store.go | 85 +++++++++++---------------
 1 file changed, 36 insertions(+), 49 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index b8009dc..c07b6ca 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -41,10 +41,11 @@ type levelDbStore struct {
 	serializer    rangedb.RecordSerializer
 	broadcaster   broadcast.Broadcaster
 
-	logger  *log.Logger
-	mux     sync.RWMutex
-	readers sync.WaitGroup
-	db      *leveldb.DB
+	logger   *log.Logger
+	mux      sync.RWMutex
+	readers  sync.WaitGroup
+	db       *leveldb.DB
+	writeErr error
 }
 
 // Option defines functional option parameters for levelDbStore.
@@ -80,7 +81,7 @@ func WithUUIDGenerator(uuidGenerator shortuuid.Generator) Option {
 
 // New constructs a levelDbStore.
 func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
-	db, err := leveldb.OpenFile(dbFilePath, nil)
+	db, err := leveldb.OpenFile(dbFilePath, &opt.Options{DisableLargeBatchTransaction: true})
 	if err != nil {
 		return nil, fmt.Errorf("failed opening db: %v", err)
 	}
@@ -153,12 +154,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	s.mux.Lock()
 	defer s.mux.Unlock()
 
-	transaction, err := s.db.OpenTransaction()
-	if err != nil {
-		return err
-	}
-	defer transaction.Discard()
-
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
 
@@ -198,17 +193,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	err = transaction.Write(batch, nil)
-	if err != nil {
-		return err
-	}
-
-	err = transaction.Commit()
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return s.write(batch)
 }
 
 func (s *levelDbStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
@@ -230,20 +215,25 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 
 	s.mux.Lock()
 	defer s.mux.Unlock()
-	transaction, err := s.db.OpenTransaction()
+
+	streamSequenceNumber, err := s.getStreamSequenceNumber(s.db, streamName)
 	if err != nil {
 		return 0, err
 	}
-	defer transaction.Discard()
 
-	for _, eventRecord := range eventRecords {
+	globalSequenceNumber, err := s.getGlobalSequenceNumber()
+	if err != nil {
+		return 0, err
+	}
+
+	batch := new(leveldb.Batch)
+
+	for i, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -254,18 +244,19 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 		var err error
 		data, lastStreamSequenceNumber, err = s.saveEvent(
 			ctx,
-			transaction,
+			batch,
 			streamName,
 			aggregateType,
 			aggregateID,
 			eventRecord.Event.EventType(),
 			s.uuidGenerator.New(),
+			streamSequenceNumber+uint64(i),
+			globalSequenceNumber+uint64(i),
 			expectedStreamSequenceNumber,
 			eventRecord.Event,
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			transaction.Discard()
 			return 0, err
 		}
 
@@ -275,7 +266,7 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 			*expectedStreamSequenceNumber++
 		}
 	}
-	err = transaction.Commit()
+	err = s.write(batch)
 	if err != nil {
 		return 0, err
 	}
@@ -292,8 +283,19 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	return lastStreamSequenceNumber, nil
 }
 
-// saveEvent persists a single event without locking the mutex, or notifying subscribers.
-func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Transaction, streamName, aggregateType, aggregateID, eventType, eventID string, expectedStreamSequenceNumber *uint64, event, metadata interface{}) ([]byte, uint64, error) {
+// write persists a batch atomically. It is unknown how much of a failed write reached the
+// storage, so nothing is written on top of one until the store is opened again.
+func (s *levelDbStore) write(batch *leveldb.Batch) error {
+	if s.writeErr != nil {
+		return fmt.Errorf("an earlier write failed: %w", s.writeErr)
+	}
+
+	s.writeErr = s.db.Write(batch, &opt.WriteOptions{Sync: true})
+	return s.writeErr
+}
+
+// saveEvent adds a single event to batch without locking the mutex, or notifying subscribers.
+func (s *levelDbStore) saveEvent(ctx context.Context, batch *leveldb.Batch, streamName, aggregateType, aggregateID, eventType, eventID string, streamSequenceNumber, globalSequenceNumber uint64, expectedStreamSequenceNumber *uint64, event, metadata interface{}) ([]byte, uint64, error) {
 
 	select {
 	case <-ctx.Done():
@@ -302,11 +304,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
-	if err != nil {
-		return nil, 0, err
-	}
-
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
 			Expected:             *expectedStreamSequenceNumber,
@@ -314,10 +311,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
-	if err != nil {
-		return nil, 0, err
-	}
 	globalSequenceNumber++
 
 	record := &rangedb.Record{
@@ -338,7 +331,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		return nil, 0, err
 	}
 
-	batch := new(leveldb.Batch)
 	batch.Put([]byte(globalSequenceNumberKey), uint64ToBytes(globalSequenceNumber))
 
 	streamKey := getKeyWithNumber(getStreamKeyPrefix(streamName), record.StreamSequenceNumber)
@@ -350,11 +342,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	allEventsKey := getKeyWithNumber(allEventsPrefix, record.GlobalSequenceNumber)
 	batch.Put(allEventsKey, streamKey)
 
-	err = transaction.Write(batch, nil)
-	if err != nil {
-		return nil, 0, err
-	}
-
 	return data, record.StreamSequenceNumber, nil
 }
 
@@ -567,8 +554,8 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
-	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
+func (s *levelDbStore) getGlobalSequenceNumber() (uint64, error) {
+	globalSequenceNumberBytes, err := s.db.Get([]byte(globalSequenceNumberKey), nil)
 	if err == leveldb.ErrNotFound {
 		return 0, nil
 	}
-- 
2.43.0


From 1997c2b75435868eebe3c12259902bb060580212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 16/77] fix: sync the LevelDB manifest when opening a store

---
 provider/leveldbstore/leveldb_store.go | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index c07b6ca..445d2a8 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -86,6 +86,12 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 		return nil, fmt.Errorf("failed opening db: %v", err)
 	}
 
+	err = syncManifest(db)
+	if err != nil {
+		_ = db.Close()
+		return nil, fmt.Errorf("failed opening db: %v", err)
+	}
+
 	s := &levelDbStore{
 		clock:         systemclock.New(),
 		uuidGenerator: shortuuid.NewUUIDGenerator(),
@@ -102,6 +108,30 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 	return s, nil
 }
 
+// syncManifest commits a transaction, because goleveldb does not sync the manifest it creates
+// when opening a db until then, and nothing can be read after a crash that loses it.
+func syncManifest(db *leveldb.DB) error {
+	transaction, err := db.OpenTransaction()
+	if err != nil {
+		return err
+	}
+	defer transaction.Discard()
+
+	globalSequenceNumber, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
+	if err == leveldb.ErrNotFound {
+		globalSequenceNumber = uint64ToBytes(0)
+	} else if err != nil {
+		return err
+	}
+
+	err = transaction.Put([]byte(globalSequenceNumberKey), globalSequenceNumber, nil)
+	if err != nil {
+		return err
+	}
+
+	return transaction.Commit()
+}
+
 func (s *levelDbStore) Stop() error {
 	s.mux.Lock()
 	defer s.mux.Unlock()
-- 
2.43.0


From 07f0ee0e8615156d80d52ddd398269fbbd3a0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 17/77] fix: reject mixed batches whose first aggregate type or
 ID is empty

---
 provider/eventstore/eventstore.go        | 6 +++---
 provider/inmemorystore/inmemory_store.go | 6 +++---
 provider/leveldbstore/leveldb_store.go   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 8796f09..c513d8d 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -631,12 +631,12 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 
 	var proposedEvents []esdb.EventData
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index d6ddf1d..ab57ce3 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -243,13 +243,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	defer s.mux.Unlock()
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 445d2a8..df9e6b0 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -259,11 +259,11 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	batch := new(leveldb.Batch)
 
 	for i, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
-- 
2.43.0


From 59981860df43f22fbc0af1b2eebb22f53f6b6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:00 +0000
Subject: [PATCH 18/77] fix: return an error for malformed cipher texts instead
 of panicking

---
 pkg/crypto/aes/cbc_pkcs5_padding.go             | 17 +++++++++++++----
 .../xchacha20poly1305/xchacha20poly1305.go      |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..377f40a 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,11 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	// The initialization vector is followed by at least one block, which holds the padding.
+	if len(cipherText) < 2*aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +100,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted)
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +109,11 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding < 1 || padding > aes.BlockSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
+	return value[:len(value)-padding], nil
 }
diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..97fa134 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -74,6 +74,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 		return nil, err
 	}
 
+	if len(sealedCipherText) < aead.NonceSize() {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonceSize := aead.NonceSize()
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
-- 
2.43.0


From 43513953e7e989c38211537cf9eaabb14d5dc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 19/77] fix: use the stored key when another caller encrypts a
 subject first

---
 pkg/crypto/eventencryptor/event_encryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/eventencryptor/event_encryptor.go b/pkg/crypto/eventencryptor/event_encryptor.go
index 5ab1705..1ea4c12 100644
--- a/pkg/crypto/eventencryptor/event_encryptor.go
+++ b/pkg/crypto/eventencryptor/event_encryptor.go
@@ -62,6 +62,10 @@ func (e *engine) Encrypt(subjectID, data string) (string, error) {
 		}
 
 		err = e.keyStore.Set(subjectID, base64Key)
+		if err == crypto.ErrKeyExistsForSubjectID {
+			// A concurrent caller stored the first key for this subject.
+			base64Key, err = e.keyStore.Get(subjectID)
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From f5fa8abae318969be4a75e8089020ce792827eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:33 +0000
Subject: [PATCH 20/77] fix: serialize cache fills with stores and deletions in
 the caching key store

---
 .../provider/cachekeystore/cache_keystore.go  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/crypto/provider/cachekeystore/cache_keystore.go b/pkg/crypto/provider/cachekeystore/cache_keystore.go
index d850f67..e26618c 100644
--- a/pkg/crypto/provider/cachekeystore/cache_keystore.go
+++ b/pkg/crypto/provider/cachekeystore/cache_keystore.go
@@ -1,12 +1,17 @@
 package cachekeystore
 
 import (
+	"sync"
+
 	"github.com/inklabs/rangedb/pkg/crypto"
 )
 
 type cacheKeyStore struct {
 	first  crypto.KeyStore
 	second crypto.KeyStore
+
+	// mux serializes copying a key to first with storing and deleting keys.
+	mux sync.Mutex
 }
 
 func New(first crypto.KeyStore, second crypto.KeyStore) *cacheKeyStore {
@@ -18,6 +23,14 @@ func New(first crypto.KeyStore, second crypto.KeyStore) *cacheKeyStore {
 
 func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 	key, err := c.first.Get(subjectID)
+	if err == nil {
+		return key, nil
+	}
+
+	c.mux.Lock()
+	defer c.mux.Unlock()
+
+	key, err = c.first.Get(subjectID)
 	if err != nil {
 		secondKey, secondErr := c.second.Get(subjectID)
 		if secondErr != nil {
@@ -31,6 +44,9 @@ func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 }
 
 func (c *cacheKeyStore) Set(subjectID, key string) error {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+
 	err := c.second.Set(subjectID, key)
 	if err != nil {
 		return err
@@ -40,6 +56,9 @@ func (c *cacheKeyStore) Set(subjectID, key string) error {
 }
 
 func (c *cacheKeyStore) Delete(subjectID string) error {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+
 	err := c.second.Delete(subjectID)
 	if err != nil {
 		return err
-- 
2.43.0


From f1044939c43c9bf86218b603bcdd02cf03c0763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 21/77] fix: read encryption keys consistently from DynamoDB

---
 pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
index 11fd14d..17a6f70 100644
--- a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
+++ b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
@@ -40,7 +40,8 @@ func (d *dynamoDBKeyStore) Get(subjectID string) (string, error) {
 				S: aws.String(subjectID),
 			},
 		},
-		TableName: aws.String(d.config.TableName),
+		TableName:      aws.String(d.config.TableName),
+		ConsistentRead: aws.Bool(true),
 		AttributesToGet: []*string{
 			aws.String("EncryptionKey"),
 			aws.String("DeletedAtTimestamp"),
-- 
2.43.0


From 02928ce039a2211d062993b89249fe9d295880bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 22/77] fix: never replace a deleted or concurrently stored key
 in Vault

---
 .../vaultkeystore/hashicorp_vault_keystore.go | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 8fb9bb6..da4e35d 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -74,14 +74,15 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		return crypto.ErrInvalidKey
 	}
 
-	_, err := h.Get(subjectID)
-	if err == nil {
+	if h.hasOrHadKey(subjectID) {
 		return crypto.ErrKeyExistsForSubjectID
 	}
 
-	payload := dataPayload{Data: map[string]string{
-		"key": key,
-	}}
+	// Check-and-set with version 0 only stores the very first version.
+	payload := dataPayload{
+		Data:    map[string]string{"key": key},
+		Options: map[string]int{"cas": 0},
+	}
 	jsonString, err := json.Marshal(payload)
 	if err != nil {
 		return err
@@ -102,12 +103,21 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		body, _ := ioutil.ReadAll(response.Body)
 		log.Printf("%d: %s", response.StatusCode, body)
 
+		if response.StatusCode == http.StatusBadRequest && h.hasOrHadKey(subjectID) {
+			return crypto.ErrKeyExistsForSubjectID
+		}
+
 		return fmt.Errorf("unable to save")
 	}
 
 	return nil
 }
 
+func (h *hashicorpVaultKeyStore) hasOrHadKey(subjectID string) bool {
+	_, err := h.Get(subjectID)
+	return err == nil || err == crypto.ErrKeyWasDeleted
+}
+
 func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 	request, err := http.NewRequest(http.MethodPost, h.getDestroyPath(subjectID), strings.NewReader(deleteAllHashiVersionsJSON))
 	if err != nil {
@@ -131,7 +141,8 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 }
 
 type dataPayload struct {
-	Data map[string]string `json:"data"`
+	Data    map[string]string `json:"data"`
+	Options map[string]int    `json:"options"`
 }
 
 type secretResponse struct {
-- 
2.43.0


From 6d8ff3f9faa8d0af5575417128d310b4f23c7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:28 +0000
Subject: [PATCH 23/77] fix: refuse Vault subject IDs that address another
 subject's secret

---
 .../vaultkeystore/hashicorp_vault_keystore.go | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index da4e35d..c3ed443 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -4,9 +4,11 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
+	"path"
 	"strings"
 	"time"
 
@@ -35,7 +37,7 @@ func New(config Config) (*hashicorpVaultKeyStore, error) {
 }
 
 func (h *hashicorpVaultKeyStore) Get(subjectID string) (string, error) {
-	request, err := http.NewRequest(http.MethodGet, h.getPath(subjectID), nil)
+	request, err := newRequest(http.MethodGet, h.getPath(subjectID), subjectID, nil)
 	if err != nil {
 		return "", err
 	}
@@ -88,7 +90,7 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	request, err := http.NewRequest(http.MethodPost, h.getPath(subjectID), bytes.NewReader(jsonString))
+	request, err := newRequest(http.MethodPost, h.getPath(subjectID), subjectID, bytes.NewReader(jsonString))
 	if err != nil {
 		return err
 	}
@@ -119,7 +121,7 @@ func (h *hashicorpVaultKeyStore) hasOrHadKey(subjectID string) bool {
 }
 
 func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
-	request, err := http.NewRequest(http.MethodPost, h.getDestroyPath(subjectID), strings.NewReader(deleteAllHashiVersionsJSON))
+	request, err := newRequest(http.MethodPost, h.getDestroyPath(subjectID), subjectID, strings.NewReader(deleteAllHashiVersionsJSON))
 	if err != nil {
 		return err
 	}
@@ -166,6 +168,20 @@ type secretResponse struct {
 	Auth     interface{} `json:"auth"`
 }
 
+// newRequest constructs a request, refusing a subjectID whose URL addresses the secret of another subjectID.
+func newRequest(method, url, subjectID string, body io.Reader) (*http.Request, error) {
+	request, err := http.NewRequest(method, url, body)
+	if err != nil {
+		return nil, err
+	}
+
+	if !strings.HasSuffix(request.URL.Path, "/"+subjectID) || path.Clean("/"+subjectID) != "/"+subjectID || subjectID == "" {
+		return nil, fmt.Errorf("invalid subjectID %q", subjectID)
+	}
+
+	return request, nil
+}
+
 func (h *hashicorpVaultKeyStore) getPath(subjectID string) string {
 	return fmt.Sprintf("%s/v1/secret/data/%s", h.config.Address, subjectID)
 }
-- 
2.43.0


From 42e99e1522bf36f59c4be249b45a4c4b939533da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:06 +0000
Subject: [PATCH 24/77] fix: encrypt copies of the events given to the
 encrypting store

---
 provider/encryptedstore/encrypted_store.go | 62 ++++++++++++++++++----
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..a5d6f58 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -2,6 +2,7 @@ package encryptedstore
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/crypto"
@@ -41,25 +42,66 @@ func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStr
 }
 
 func (e *encryptedStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedEventRecords, err := e.encryptedCopies(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, encryptedEventRecords...)
 }
 
 func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
+	encryptedEventRecords, err := e.encryptedCopies(eventRecords)
+	if err != nil {
+		return 0, err
+	}
+
+	return e.parent.Save(ctx, streamName, encryptedEventRecords...)
+}
+
+// encryptedCopies encrypts copies of the events; the caller keeps the plain text and can save it again.
+func (e *encryptedStore) encryptedCopies(eventRecords []*rangedb.EventRecord) ([]*rangedb.EventRecord, error) {
+	encryptedEventRecords := make([]*rangedb.EventRecord, len(eventRecords))
+
+	for i, eventRecord := range eventRecords {
+		event := copyEvent(eventRecord.Event)
+
+		err := e.eventEncryptor.Encrypt(event)
 		if err != nil {
-			return 0, err
+			return nil, err
 		}
+
+		encryptedEventRecords[i] = &rangedb.EventRecord{Event: event, Metadata: eventRecord.Metadata}
+	}
+
+	return encryptedEventRecords, nil
+}
+
+// copyEvent copies an event that can change itself. An event passed by value is copied
+// if a pointer to it is a crypto.SelfEncryptor, as it could not be encrypted otherwise.
+func copyEvent(event rangedb.Event) rangedb.Event {
+	value := reflect.ValueOf(event)
+	isPointer := value.Kind() == reflect.Ptr
+	if isPointer {
+		if value.IsNil() {
+			return event
+		}
+		value = value.Elem()
+	}
+
+	pointer := reflect.New(value.Type())
+	pointer.Elem().Set(value)
+
+	eventCopy, ok := pointer.Interface().(rangedb.Event)
+	if !ok {
+		return event
+	}
+
+	if _, ok := eventCopy.(crypto.SelfEncryptor); ok || isPointer {
+		return eventCopy
 	}
 
-	return e.parent.Save(ctx, streamName, eventRecords...)
+	return event
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-- 
2.43.0


From 7b2c69a2fd2a6d1ee9eb3b8c9e478309c94422c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 25/77] fix: decrypt a record once however often it is looked
 at

---
 .../encryptedstore/decrypting_record_iterator.go  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..a7e7855 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -11,6 +11,9 @@ type decryptingRecordIterator struct {
 	parent         rangedb.RecordIterator
 	eventEncryptor crypto.EventEncryptor
 	currentErr     error
+
+	// currentRecord is the decrypted record at the current position.
+	currentRecord *rangedb.Record
 }
 
 // NewDecryptingRecordIterator constructs a new rangedb.Record iterator that decrypts events
@@ -26,6 +29,8 @@ func (i *decryptingRecordIterator) Next() bool {
 		return false
 	}
 
+	i.currentRecord = nil
+
 	return i.parent.Next()
 }
 
@@ -34,13 +39,19 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
+	i.currentRecord = nil
+
 	return i.parent.NextContext(ctx)
 }
 
 func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	if i.currentRecord != nil {
+		return i.currentRecord
+	}
+
 	record := i.parent.Record()
 
-	if record == nil {
+	if record == nil || i.currentErr != nil {
 		return nil
 	}
 
@@ -52,6 +63,8 @@ func (i *decryptingRecordIterator) Record() *rangedb.Record {
 		}
 	}
 
+	i.currentRecord = record
+
 	return record
 }
 
-- 
2.43.0


From 56ada1948e4dc7c61808e144049ab9ca17a90d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 26/77] fix: decrypt a copy of each record for each subscriber

---
 provider/encryptedstore/encrypted_store.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index a5d6f58..9e0829a 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -105,11 +105,25 @@ func copyEvent(event rangedb.Event) rangedb.Event {
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-	return e.parent.AllEventsSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+	return e.parent.AllEventsSubscription(ctx, bufferSize, e.decryptingCopySubscriber(subscriber))
 }
 
 func (e *encryptedStore) AggregateTypesSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber, aggregateTypes ...string) rangedb.RecordSubscription {
-	return e.parent.AggregateTypesSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor), aggregateTypes...)
+	return e.parent.AggregateTypesSubscription(ctx, bufferSize, e.decryptingCopySubscriber(subscriber), aggregateTypes...)
+}
+
+// decryptingCopySubscriber decrypts a copy of each record; the parent store shares its records between subscribers.
+func (e *encryptedStore) decryptingCopySubscriber(subscriber rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	decryptingSubscriber := NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor)
+
+	return rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		recordCopy := *record
+		if event, ok := record.Data.(rangedb.Event); ok {
+			recordCopy.Data = copyEvent(event)
+		}
+
+		decryptingSubscriber.Accept(&recordCopy)
+	})
 }
 
 func (e *encryptedStore) TotalEventsInStream(ctx context.Context, streamName string) (uint64, error) {
-- 
2.43.0


From 5720d073661e20e1f540df00a6ee08566447ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:43 +0000
Subject: [PATCH 27/77] fix: keep reading after an event whose encryption key
 was deleted

---
 provider/encryptedstore/decrypting_record_iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index a7e7855..0f28de6 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -57,7 +57,7 @@ func (i *decryptingRecordIterator) Record() *rangedb.Record {
 
 	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
 		err := i.eventEncryptor.Decrypt(rangedbEvent)
-		if err != nil {
+		if err != nil && err != crypto.ErrKeyWasDeleted {
 			i.currentErr = err
 			return nil
 		}
-- 
2.43.0


From cb4770aae775182851566ba545b355d70e519b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:01 +0000
Subject: [PATCH 28/77] fix: encode JSON numbers as numbers in msgpack

---
 .../msgpack_record_serializer.go              | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 353cde1..cacafbd 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -2,15 +2,22 @@ package msgpackrecordserializer
 
 import (
 	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"reflect"
+	"strconv"
 
 	"github.com/vmihailenco/msgpack/v4"
 
 	"github.com/inklabs/rangedb"
 )
 
+func init() {
+	// Generic values decoded from JSON hold numbers as json.Number, which would be encoded as strings.
+	msgpack.Register(json.Number(""), encodeJSONNumber, decodeJSONNumber)
+}
+
 type msgpackSerializer struct {
 	eventIdentifier rangedb.EventTypeIdentifier
 }
@@ -110,3 +117,36 @@ func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.Event
 
 // ErrorEOF defines an end of file error.
 var ErrorEOF = errors.New("EOF")
+
+func encodeJSONNumber(encoder *msgpack.Encoder, value reflect.Value) error {
+	number := value.String()
+
+	if n, err := strconv.ParseInt(number, 10, 64); err == nil {
+		return encoder.EncodeInt(n)
+	}
+
+	if n, err := strconv.ParseUint(number, 10, 64); err == nil {
+		return encoder.EncodeUint(n)
+	}
+
+	if n, err := strconv.ParseFloat(number, 64); err == nil {
+		return encoder.EncodeFloat64(n)
+	}
+
+	return encoder.EncodeString(number)
+}
+
+func decodeJSONNumber(decoder *msgpack.Decoder, value reflect.Value) error {
+	number, err := decoder.DecodeInterface()
+	if err != nil {
+		return err
+	}
+
+	if number == nil {
+		number = ""
+	}
+
+	value.SetString(fmt.Sprint(number))
+
+	return nil
+}
-- 
2.43.0


From f97e7c20260425d8a4ec550d385c28b8d6de1b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 29/77] fix: read back records whose data is null

---
 provider/jsonrecordserializer/json_record_serializer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index 15c3b28..b6a653a 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -58,6 +58,10 @@ func UnmarshalRecord(decoder *json.Decoder, eventTypeIdentifier rangedb.EventTyp
 		return nil, fmt.Errorf("failed unmarshalling record: %v", err)
 	}
 
+	if record.Data == nil {
+		return &record, nil
+	}
+
 	data, err := DecodeJsonData(record.EventType, bytes.NewReader(rawEvent), eventTypeIdentifier)
 	if err != nil {
 		return nil, fmt.Errorf("failed unmarshalling event within record: %v", err)
-- 
2.43.0


From 4feca503ce54974fffbdb8a2300c2a11696ae8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:34 +0000
Subject: [PATCH 30/77] fix: return an error for cut or malformed MessagePack
 records

---
 .../msgpack_record_serializer.go              | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index cacafbd..363a76a 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 	"strconv"
 
@@ -78,19 +79,24 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 //
 // The record, excluding data, is decoded first. Then, event data is decoded.
 // Event data will be parsed into a struct if supplied by getEventType.
-func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
+func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (result *rangedb.Record, resultErr error) {
+	// The decoder panics on some malformed input.
+	defer func() {
+		if r := recover(); r != nil {
+			result, resultErr = nil, fmt.Errorf("failed decoding record: %v", r)
+		}
+	}()
+
 	record := rangedb.Record{}
 
-	decodeErr := decoder.Decode(&record)
-	if decodeErr != nil {
-		var err error
-		if decodeErr.Error() == "EOF" {
-			err = ErrorEOF
-		} else {
-			err = fmt.Errorf("failed decoding record: %v", decodeErr)
-		}
+	_, peekErr := decoder.PeekCode()
+	if peekErr == io.EOF {
+		return nil, ErrorEOF
+	}
 
-		return nil, err
+	err := decoder.Decode(&record)
+	if err != nil {
+		return nil, fmt.Errorf("failed decoding record: %v", err)
 	}
 
 	eventType, ok := eventTypeIdentifier.EventTypeLookup(record.EventType)
-- 
2.43.0


From 2cb9c5c1f76024e1457e77e13a17e628f1f3811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:55 +0000
Subject: [PATCH 31/77] fix: report JSON and NDJSON record streams that are cut
 short or damaged

---
 .../json_record_io_stream.go                  | 44 ++++++++++++++++++-
 .../json_record_serializer.go                 |  2 +-
 .../ndjson_record_io_stream.go                |  7 ++-
 3 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..b22e2ee 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -65,7 +65,7 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 		decoder := json.NewDecoder(reader)
 		decoder.UseNumber()
 
-		_, err := decoder.Token()
+		err := readDelimiter(decoder, '[')
 		if err != nil {
 			if err == io.EOF {
 				return
@@ -93,6 +93,14 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		err = readEnd(decoder)
+		if err != nil {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    err,
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -105,3 +113,37 @@ func (s *jsonRecordIoStream) Bind(events ...rangedb.Event) {
 func (s *jsonRecordIoStream) EventTypeLookup(eventTypeName string) (r reflect.Type, b bool) {
 	return s.eventIdentifier.EventTypeLookup(eventTypeName)
 }
+
+// readEnd reads the end of the array, which must be the end of the input.
+func readEnd(decoder *json.Decoder) error {
+	err := readDelimiter(decoder, ']')
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		return err
+	}
+
+	token, err := decoder.Token()
+	if err == io.EOF {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+
+	return fmt.Errorf("unexpected %v after the last record", token)
+}
+
+func readDelimiter(decoder *json.Decoder, delimiter json.Delim) error {
+	token, err := decoder.Token()
+	if err != nil {
+		return err
+	}
+
+	if token != delimiter {
+		return fmt.Errorf("unexpected %v looking for %v", token, delimiter)
+	}
+
+	return nil
+}
diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index b6a653a..ab219b5 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -55,7 +55,7 @@ func UnmarshalRecord(decoder *json.Decoder, eventTypeIdentifier rangedb.EventTyp
 	}
 	err := decoder.Decode(&record)
 	if err != nil {
-		return nil, fmt.Errorf("failed unmarshalling record: %v", err)
+		return nil, fmt.Errorf("failed unmarshalling record: %w", err)
 	}
 
 	if record.Data == nil {
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..c614bb4 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -2,6 +2,7 @@ package ndjsonrecordiostream
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -62,9 +63,13 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 		decoder := json.NewDecoder(reader)
 		decoder.UseNumber()
 
-		for decoder.More() {
+		for {
 			record, err := jsonrecordserializer.UnmarshalRecord(decoder, s)
 			if err != nil {
+				if errors.Is(err, io.EOF) {
+					return
+				}
+
 				resultRecords <- rangedb.ResultRecord{
 					Record: nil,
 					Err:    err,
-- 
2.43.0


From 4811c77d2befc15c16cd2616e98b6958d6a1cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 32/77] fix: report failed reads and writes while writing
 record streams

---
 .../json_record_io_stream.go                  | 29 ++++++++++++++++---
 .../msgpack_record_io_stream.go               | 10 ++++++-
 .../ndjson_record_io_stream.go                | 16 ++++++++--
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index b22e2ee..6f9479f 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -27,7 +27,11 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 	go func() {
 		defer close(errors)
 
-		_, _ = fmt.Fprint(writer, "[")
+		_, err := fmt.Fprint(writer, "[")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing: %v", err)
+			return
+		}
 
 		totalSaved := 0
 		for recordIterator.Next() {
@@ -43,14 +47,31 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			}
 
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, ",")
+				_, err = fmt.Fprint(writer, ",")
+				if err != nil {
+					errors <- fmt.Errorf("failed writing: %v", err)
+					return
+				}
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			_, err = fmt.Fprintf(writer, "%s", data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
-		_, _ = fmt.Fprint(writer, "]")
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+			return
+		}
+
+		_, err = fmt.Fprint(writer, "]")
+		if err != nil {
+			errors <- fmt.Errorf("failed writing: %v", err)
+		}
 	}()
 
 	return errors
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..9849b13 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -43,7 +43,15 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 				return
 			}
 
-			_, _ = writer.Write(serializedRecord)
+			_, err = writer.Write(serializedRecord)
+			if err != nil {
+				errors <- err
+				return
+			}
+		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
 		}
 	}()
 
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index c614bb4..6aa0d96 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -36,7 +36,11 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 			}
 
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, "\n")
+				_, err := fmt.Fprint(writer, "\n")
+				if err != nil {
+					errors <- fmt.Errorf("failed writing: %v", err)
+					return
+				}
 			}
 
 			data, err := json.Marshal(recordIterator.Record())
@@ -45,10 +49,18 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			_, err = fmt.Fprintf(writer, "%s", data)
+			if err != nil {
+				errors <- fmt.Errorf("failed writing: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
-- 
2.43.0


From cd22120167ab1152c5583a0e9ed7a34e98770522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 33/77] fix: report failed reads to gRPC clients

---
 pkg/grpc/rangedbserver/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..2b799d8 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -97,7 +97,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -144,7 +144,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
-- 
2.43.0


From 497ee4afb399b828ee89b9f87191eb7c34a209cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:30 +0000
Subject: [PATCH 34/77] fix: keep the precision of numbers in events and
 metadata sent over gRPC

---
 pkg/grpc/rangedbpb/translate.go  |  4 +++-
 pkg/grpc/rangedbserver/server.go | 27 +++++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..9afb6f9 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -48,7 +48,9 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		decoder := json.NewDecoder(strings.NewReader(pbRecord.Metadata))
+		decoder.UseNumber()
+		err = decoder.Decode(&metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 2b799d8..9f5f3f6 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -1,6 +1,7 @@
 package rangedbserver
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -162,8 +163,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		data, err := decodeJSON(event.Data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -175,7 +175,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			metadata, err = decodeJSON(event.Metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -217,8 +217,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		data, err := decodeJSON(event.Data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +229,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			metadata, err = decodeJSON(event.Metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -356,6 +355,22 @@ func (s *rangeDBServer) broadcastRecord(stream streamSender, record *rangedb.Rec
 	return nil
 }
 
+// decodeJSON decodes generic JSON without losing the precision of numbers.
+func decodeJSON(text string) (interface{}, error) {
+	var raw json.RawMessage
+	err := json.Unmarshal([]byte(text), &raw)
+	if err != nil {
+		return nil, err
+	}
+
+	decoder := json.NewDecoder(bytes.NewReader(raw))
+	decoder.UseNumber()
+
+	var data interface{}
+	err = decoder.Decode(&data)
+	return data, err
+}
+
 // PbRecordSender defines the interface for sending a protobuf record.
 type PbRecordSender interface {
 	Send(*rangedbpb.Record) error
-- 
2.43.0


From 4a99cab8697f792e17548e67461d454213fb4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 35/77] fix: register all aggregate types of a subscription at
 once

---
 pkg/broadcast/broadcaster.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 670cd5d..f660cea 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -38,7 +38,7 @@ type broadcaster struct {
 	flushRecords              chan struct{}
 	subscribeAllEvents        chan RecordSubscriber
 	unsubscribeAllEvents      chan RecordSubscriber
-	subscribeAggregateTypes   chan AggregateTypeSubscription
+	subscribeAggregateTypes   chan []AggregateTypeSubscription
 	unsubscribeAggregateTypes chan AggregateTypeSubscription
 	bufferedRecords           chan *rangedb.Record
 	stopChan                  chan struct{}
@@ -53,7 +53,7 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 		flushRecords:              make(chan struct{}),
 		subscribeAllEvents:        make(chan RecordSubscriber),
 		unsubscribeAllEvents:      make(chan RecordSubscriber),
-		subscribeAggregateTypes:   make(chan AggregateTypeSubscription),
+		subscribeAggregateTypes:   make(chan []AggregateTypeSubscription),
 		unsubscribeAggregateTypes: make(chan AggregateTypeSubscription),
 		bufferedRecords:           make(chan *rangedb.Record, bufferSize),
 		stopChan:                  make(chan struct{}),
@@ -104,16 +104,21 @@ func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	b.flush()
+
+	// All types go in one message: a record sent between two of them would wait for
+	// a subscriber that is still waiting to subscribe.
+	var subscriptions []AggregateTypeSubscription
 	for _, aggregateType := range aggregateTypes {
-		subscription := AggregateTypeSubscription{
+		subscriptions = append(subscriptions, AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
-		}
-		select {
-		case b.subscribeAggregateTypes <- subscription:
-		case <-b.stopChan:
-			subscriber.Stop()
-		}
+		})
+	}
+
+	select {
+	case b.subscribeAggregateTypes <- subscriptions:
+	case <-b.stopChan:
+		subscriber.Stop()
 	}
 }
 
@@ -144,11 +149,13 @@ func (b *broadcaster) start() {
 		case subscriber := <-b.unsubscribeAllEvents:
 			delete(b.allEventsSubscribers, subscriber)
 
-		case subscription := <-b.subscribeAggregateTypes:
-			if _, ok := b.aggregateTypeSubscribers[subscription.AggregateType]; !ok {
-				b.aggregateTypeSubscribers[subscription.AggregateType] = make(map[RecordSubscriber]struct{})
+		case subscriptions := <-b.subscribeAggregateTypes:
+			for _, subscription := range subscriptions {
+				if _, ok := b.aggregateTypeSubscribers[subscription.AggregateType]; !ok {
+					b.aggregateTypeSubscribers[subscription.AggregateType] = make(map[RecordSubscriber]struct{})
+				}
+				b.aggregateTypeSubscribers[subscription.AggregateType][subscription.Subscriber] = struct{}{}
 			}
-			b.aggregateTypeSubscribers[subscription.AggregateType][subscription.Subscriber] = struct{}{}
 
 		case subscription := <-b.unsubscribeAggregateTypes:
 			delete(b.aggregateTypeSubscribers[subscription.AggregateType], subscription.Subscriber)
-- 
2.43.0


From a31f41a245a672322891811584e9a650c850b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 36/77] fix: encode the data of raw events in msgpack

---
 store.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store.go b/store.go
index 8dbeacb..15f6044 100644
--- a/store.go
+++ b/store.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+
+	"github.com/vmihailenco/msgpack/v4"
 )
 
 // Version for RangeDB.
@@ -194,4 +196,8 @@ func (e rawEvent) MarshalJSON() ([]byte, error) {
 	return json.Marshal(e.data)
 }
 
+func (e rawEvent) EncodeMsgpack(encoder *msgpack.Encoder) error {
+	return encoder.Encode(e.data)
+}
+
 var ErrStreamNotFound = fmt.Errorf("stream not found")
-- 
2.43.0


From ac43a33df2cde75a45a66289a1cbac1173badc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 37/77] fix: refuse to serialize records whose data is null,
 which could not be read back

---
 .../json_record_serializer.go                 | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index ab219b5..ea05d2d 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -26,7 +26,20 @@ func (s *jsonSerializer) Bind(events ...rangedb.Event) {
 }
 
 func (s *jsonSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
-	data, err := json.Marshal(record)
+	eventData, err := json.Marshal(record.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed marshalling record: %v", err)
+	}
+
+	// A record without event data could not be deserialized again.
+	if string(eventData) == "null" {
+		return nil, fmt.Errorf("failed marshalling record: event data is null")
+	}
+
+	newRecord := *record
+	newRecord.Data = json.RawMessage(eventData)
+
+	data, err := json.Marshal(newRecord)
 	if err != nil {
 		return nil, fmt.Errorf("failed marshalling record: %v", err)
 	}
@@ -58,10 +71,6 @@ func UnmarshalRecord(decoder *json.Decoder, eventTypeIdentifier rangedb.EventTyp
 		return nil, fmt.Errorf("failed unmarshalling record: %w", err)
 	}
 
-	if record.Data == nil {
-		return &record, nil
-	}
-
 	data, err := DecodeJsonData(record.EventType, bytes.NewReader(rawEvent), eventTypeIdentifier)
 	if err != nil {
 		return nil, fmt.Errorf("failed unmarshalling event within record: %v", err)
-- 
2.43.0


From 19a1ffb2acae313c353df185a0f463a5d5fbac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 38/77] fix: pass Go numbers on from gRPC, and encode JSON
 numbers in msgpack as before

---
 pkg/grpc/rangedbserver/server.go              | 29 +++++++++++++-
 .../msgpack_record_serializer.go              | 40 -------------------
 2 files changed, 28 insertions(+), 41 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 9f5f3f6..edf4332 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"strconv"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -368,7 +369,33 @@ func decodeJSON(text string) (interface{}, error) {
 
 	var data interface{}
 	err = decoder.Decode(&data)
-	return data, err
+	return nativeNumbers(data), err
+}
+
+// nativeNumbers replaces every json.Number, which not every serializer knows, by a Go number.
+func nativeNumbers(data interface{}) interface{} {
+	switch value := data.(type) {
+	case json.Number:
+		if n, err := strconv.ParseInt(value.String(), 10, 64); err == nil {
+			return n
+		}
+		if n, err := strconv.ParseUint(value.String(), 10, 64); err == nil {
+			return n
+		}
+		if n, err := value.Float64(); err == nil {
+			return n
+		}
+	case []interface{}:
+		for i := range value {
+			value[i] = nativeNumbers(value[i])
+		}
+	case map[string]interface{}:
+		for key := range value {
+			value[key] = nativeNumbers(value[key])
+		}
+	}
+
+	return data
 }
 
 // PbRecordSender defines the interface for sending a protobuf record.
diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 363a76a..7bc5935 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -2,23 +2,16 @@ package msgpackrecordserializer
 
 import (
 	"bytes"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
 	"reflect"
-	"strconv"
 
 	"github.com/vmihailenco/msgpack/v4"
 
 	"github.com/inklabs/rangedb"
 )
 
-func init() {
-	// Generic values decoded from JSON hold numbers as json.Number, which would be encoded as strings.
-	msgpack.Register(json.Number(""), encodeJSONNumber, decodeJSONNumber)
-}
-
 type msgpackSerializer struct {
 	eventIdentifier rangedb.EventTypeIdentifier
 }
@@ -123,36 +116,3 @@ func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.Event
 
 // ErrorEOF defines an end of file error.
 var ErrorEOF = errors.New("EOF")
-
-func encodeJSONNumber(encoder *msgpack.Encoder, value reflect.Value) error {
-	number := value.String()
-
-	if n, err := strconv.ParseInt(number, 10, 64); err == nil {
-		return encoder.EncodeInt(n)
-	}
-
-	if n, err := strconv.ParseUint(number, 10, 64); err == nil {
-		return encoder.EncodeUint(n)
-	}
-
-	if n, err := strconv.ParseFloat(number, 64); err == nil {
-		return encoder.EncodeFloat64(n)
-	}
-
-	return encoder.EncodeString(number)
-}
-
-func decodeJSONNumber(decoder *msgpack.Decoder, value reflect.Value) error {
-	number, err := decoder.DecodeInterface()
-	if err != nil {
-		return err
-	}
-
-	if number == nil {
-		number = ""
-	}
-
-	value.SetString(fmt.Sprint(number))
-
-	return nil
-}
-- 
2.43.0


From ecda2a4037385f7380c6b3c2e46ab9ce33f4b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:12 +0000
Subject: [PATCH 39/77] fix: end a gRPC subscription that the server has
 stopped serving

---
 pkg/grpc/rangedbserver/server.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index edf4332..a24773a 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -282,9 +282,7 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForEnd(stream.Context(), subscriber.Done())
 }
 
 func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsRequest, stream rangedbpb.RangeDB_SubscribeToEventsServer) error {
@@ -303,9 +301,7 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForEnd(stream.Context(), subscriber.Done())
 }
 
 func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.SubscribeToEventsByAggregateTypeRequest, stream rangedbpb.RangeDB_SubscribeToEventsByAggregateTypeServer) error {
@@ -325,9 +321,19 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	return waitForEnd(stream.Context(), subscriber.Done())
+}
 
-	return nil
+// waitForEnd waits until a subscription has ended. Unless its client has gone, the client
+// is told, as it would otherwise wait for records that are never sent.
+func waitForEnd(ctx context.Context, done <-chan struct{}) error {
+	<-done
+
+	if ctx.Err() != nil {
+		return nil
+	}
+
+	return status.Error(codes.Unavailable, "subscription ended by server")
 }
 
 func (s *rangeDBServer) TotalEventsInStream(ctx context.Context, request *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
-- 
2.43.0


From 869562af7890f2044d899d879e968d0ef9c2d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 40/77] fix: keep serving all clients of a network server after
 some of them stalled

---
 pkg/broadcast/queue.go           | 50 ++++++++++++++++++++++++++++++++
 pkg/grpc/rangedbserver/server.go |  2 +-
 pkg/rangedbws/websocket_api.go   |  2 +-
 3 files changed, 52 insertions(+), 2 deletions(-)
 create mode 100644 pkg/broadcast/queue.go

diff --git a/pkg/broadcast/queue.go b/pkg/broadcast/queue.go
new file mode 100644
index 0000000..e6366af
--- /dev/null
+++ b/pkg/broadcast/queue.go
@@ -0,0 +1,50 @@
+package broadcast
+
+import (
+	"sync"
+
+	"github.com/inklabs/rangedb"
+)
+
+type queue struct {
+	broadcaster Broadcaster
+	mutex       sync.Mutex
+	records     []*rangedb.Record
+	draining    bool
+}
+
+// NewQueue constructs a rangedb.RecordSubscriber that passes records on to a broadcaster.
+//
+// Its Accept does not block, so it is never too slow for the subscription it is used with,
+// however long the broadcaster waits for slow subscribers of its own.
+func NewQueue(broadcaster Broadcaster) *queue {
+	return &queue{broadcaster: broadcaster}
+}
+
+func (q *queue) Accept(record *rangedb.Record) {
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
+
+	q.records = append(q.records, record)
+
+	if !q.draining {
+		q.draining = true
+		go q.drain()
+	}
+}
+
+func (q *queue) drain() {
+	for {
+		q.mutex.Lock()
+		if len(q.records) == 0 {
+			q.draining = false
+			q.mutex.Unlock()
+			return
+		}
+		record := q.records[0]
+		q.records = q.records[1:]
+		q.mutex.Unlock()
+
+		q.broadcaster.Accept(record)
+	}
+}
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index a24773a..7aaf028 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -70,7 +70,7 @@ func (s *rangeDBServer) initBroadcaster() error {
 	ctx := context.Background()
 	subscription := s.store.AllEventsSubscription(ctx,
 		subscriberRecordBuffSize,
-		s.broadcaster,
+		broadcast.NewQueue(s.broadcaster),
 	)
 	return subscription.Start()
 }
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 64bca09..b1a59d4 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -90,7 +90,7 @@ func (a *websocketAPI) initBroadcaster() error {
 	ctx := context.Background()
 	subscription := a.store.AllEventsSubscription(ctx,
 		subscriberRecordBuffSize,
-		a.broadcaster,
+		broadcast.NewQueue(a.broadcaster),
 	)
 	return subscription.Start()
 }
-- 
2.43.0


From 251f79efcecb2dc0e5fdfbfb30df588540d4df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:30 +0000
Subject: [PATCH 41/77] fix: read each event once when an aggregate type is
 given twice

---
 provider/inmemorystore/inmemory_store.go | 16 ++++++++++++++++
 provider/leveldbstore/leveldb_store.go   | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index ab57ce3..d4e890e 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -103,6 +103,8 @@ func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 	s.mux.RLock()
 	defer s.mux.RUnlock()
 
+	aggregateTypes = unique(aggregateTypes)
+
 	if len(aggregateTypes) == 1 {
 		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
 	}
@@ -115,6 +117,20 @@ func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
 }
 
+func unique(values []string) []string {
+	var result []string
+	seen := make(map[string]struct{}, len(values))
+
+	for _, value := range values {
+		if _, ok := seen[value]; !ok {
+			seen[value] = struct{}{}
+			result = append(result, value)
+		}
+	}
+
+	return result
+}
+
 func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *rangedb.Record) bool {
 	return func(record *rangedb.Record) bool {
 		return record.GlobalSequenceNumber >= globalSequenceNumber
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index df9e6b0..8972e30 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -154,6 +154,8 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 	s.mux.RLock()
 	defer s.mux.RUnlock()
 
+	aggregateTypes = unique(aggregateTypes)
+
 	if len(aggregateTypes) == 1 {
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
@@ -166,6 +168,20 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
 }
 
+func unique(values []string) []string {
+	var result []string
+	seen := make(map[string]struct{}, len(values))
+
+	for _, value := range values {
+		if _, ok := seen[value]; !ok {
+			seen[value] = struct{}{}
+			result = append(result, value)
+		}
+	}
+
+	return result
+}
+
 func (s *levelDbStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, stream string) rangedb.RecordIterator {
 	s.mux.RLock()
 	defer s.mux.RUnlock()
-- 
2.43.0


From 57dcdfaeae5feb5c4f6d97b645a9bc73d03bb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 42/77] fix: answer failed reads with an error over HTTP

---
 pkg/rangedbapi/api.go | 61 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index d23b6e4..4b9a4f6 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"log"
@@ -316,25 +317,71 @@ func (a *api) listAggregateTypes(w http.ResponseWriter, _ *http.Request) {
 }
 
 func (a *api) writeEvents(w http.ResponseWriter, recordIterator rangedb.RecordIterator, extension string) {
+	events := &peekedIterator{RecordIterator: recordIterator, peeked: true, hasNext: recordIterator.Next()}
+
+	if readErr := recordIterator.Err(); readErr != nil {
+		w.Header().Set("Content-Type", "application/json")
+
+		if errors.Is(readErr, rangedb.ErrStreamNotFound) {
+			writeFailedResponse(w, rangedb.ErrStreamNotFound.Error(), http.StatusNotFound)
+			return
+		}
+
+		a.logger.Printf("unable to read events: %v", readErr)
+		writeFailedResponse(w, "internal server error", http.StatusInternalServerError)
+		return
+	}
+
+	var err error
+
 	switch extension {
 	case "json":
 		w.Header().Set(`Content-Type`, `application/json`)
-		errors := a.jsonRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-a.jsonRecordIoStream.Write(w, events)
 
 	case "ndjson":
 		w.Header().Set(`Content-Type`, `application/json; boundary=LF`)
-		errors := a.ndJSONRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-a.ndJSONRecordIoStream.Write(w, events)
 
 	case "msgpack":
 		w.Header().Set(`Content-Type`, `application/msgpack`)
 		base64Writer := base64.NewEncoder(base64.RawStdEncoding, w)
-		errors := a.msgpackRecordIoStream.Write(base64Writer, recordIterator)
-		<-errors
-		_ = base64Writer.Close()
+		err = <-a.msgpackRecordIoStream.Write(base64Writer, events)
+		closeErr := base64Writer.Close()
+		if err == nil {
+			err = closeErr
+		}
+	}
 
+	if err != nil {
+		a.logger.Printf("unable to write events: %v", err)
+		// A status has been sent already. Without a proper end, the client can tell that events are missing.
+		panic(http.ErrAbortHandler)
+	}
+}
+
+// peekedIterator is a rangedb.RecordIterator whose first Next has been called already.
+type peekedIterator struct {
+	rangedb.RecordIterator
+	peeked  bool
+	hasNext bool
+}
+
+func (i *peekedIterator) Next() bool {
+	if i.peeked {
+		i.peeked = false
+		return i.hasNext
 	}
+
+	return i.RecordIterator.Next()
+}
+
+func (i *peekedIterator) NextContext(ctx context.Context) bool {
+	if i.peeked {
+		return i.Next()
+	}
+
+	return i.RecordIterator.NextContext(ctx)
 }
 
 type invalidInput struct {
-- 
2.43.0


From dbd3b9399efd148521e7ac0008202fd8d6ccc7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:44 +0000
Subject: [PATCH 43/77] fix: refuse request bodies with trailing data, and keep
 the precision of numbers, over HTTP

---
 pkg/grpc/rangedbserver/server.go | 54 +++---------------------
 pkg/jsontools/decode.go          | 71 ++++++++++++++++++++++++++++++++
 pkg/rangedbapi/api.go            | 40 ++++++++++++++----
 3 files changed, 108 insertions(+), 57 deletions(-)
 create mode 100644 pkg/jsontools/decode.go

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 7aaf028..f87ea62 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -1,12 +1,9 @@
 package rangedbserver
 
 import (
-	"bytes"
 	"context"
-	"encoding/json"
 	"fmt"
 	"log"
-	"strconv"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -14,6 +11,7 @@ import (
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/broadcast"
 	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/recordsubscriber"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
 )
@@ -164,7 +162,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		data, err := decodeJSON(event.Data)
+		data, err := jsontools.DecodeString(event.Data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -176,7 +174,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			metadata, err = decodeJSON(event.Metadata)
+			metadata, err = jsontools.DecodeString(event.Metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -218,7 +216,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		data, err := decodeJSON(event.Data)
+		data, err := jsontools.DecodeString(event.Data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +228,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			metadata, err = decodeJSON(event.Metadata)
+			metadata, err = jsontools.DecodeString(event.Metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -362,48 +360,6 @@ func (s *rangeDBServer) broadcastRecord(stream streamSender, record *rangedb.Rec
 	return nil
 }
 
-// decodeJSON decodes generic JSON without losing the precision of numbers.
-func decodeJSON(text string) (interface{}, error) {
-	var raw json.RawMessage
-	err := json.Unmarshal([]byte(text), &raw)
-	if err != nil {
-		return nil, err
-	}
-
-	decoder := json.NewDecoder(bytes.NewReader(raw))
-	decoder.UseNumber()
-
-	var data interface{}
-	err = decoder.Decode(&data)
-	return nativeNumbers(data), err
-}
-
-// nativeNumbers replaces every json.Number, which not every serializer knows, by a Go number.
-func nativeNumbers(data interface{}) interface{} {
-	switch value := data.(type) {
-	case json.Number:
-		if n, err := strconv.ParseInt(value.String(), 10, 64); err == nil {
-			return n
-		}
-		if n, err := strconv.ParseUint(value.String(), 10, 64); err == nil {
-			return n
-		}
-		if n, err := value.Float64(); err == nil {
-			return n
-		}
-	case []interface{}:
-		for i := range value {
-			value[i] = nativeNumbers(value[i])
-		}
-	case map[string]interface{}:
-		for key := range value {
-			value[key] = nativeNumbers(value[key])
-		}
-	}
-
-	return data
-}
-
 // PbRecordSender defines the interface for sending a protobuf record.
 type PbRecordSender interface {
 	Send(*rangedbpb.Record) error
diff --git a/pkg/jsontools/decode.go b/pkg/jsontools/decode.go
new file mode 100644
index 0000000..375a8cc
--- /dev/null
+++ b/pkg/jsontools/decode.go
@@ -0,0 +1,71 @@
+package jsontools
+
+import (
+	"bytes"
+	"encoding/json"
+	"fmt"
+	"strconv"
+)
+
+// Decode decodes a single JSON value. Integers of up to 64 bits keep their precision.
+func Decode(input []byte) (interface{}, error) {
+	var raw json.RawMessage
+	err := json.Unmarshal(input, &raw)
+	if err != nil {
+		return nil, err
+	}
+
+	decoder := json.NewDecoder(bytes.NewReader(raw))
+	decoder.UseNumber()
+
+	var data interface{}
+	err = decoder.Decode(&data)
+	if err != nil {
+		return nil, err
+	}
+
+	return nativeNumbers(data)
+}
+
+// DecodeString decodes a single JSON value. Integers of up to 64 bits keep their precision.
+func DecodeString(input string) (interface{}, error) {
+	return Decode([]byte(input))
+}
+
+// nativeNumbers replaces every json.Number, which not every serializer knows, by a Go number.
+func nativeNumbers(data interface{}) (interface{}, error) {
+	var err error
+
+	switch value := data.(type) {
+	case json.Number:
+		if n, err := strconv.ParseInt(value.String(), 10, 64); err == nil {
+			return n, nil
+		}
+		if n, err := strconv.ParseUint(value.String(), 10, 64); err == nil {
+			return n, nil
+		}
+		n, err := value.Float64()
+		if err != nil {
+			return nil, fmt.Errorf("number out of range: %s", value)
+		}
+		return n, nil
+
+	case []interface{}:
+		for i := range value {
+			value[i], err = nativeNumbers(value[i])
+			if err != nil {
+				return nil, err
+			}
+		}
+
+	case map[string]interface{}:
+		for key := range value {
+			value[key], err = nativeNumbers(value[key])
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+
+	return data, nil
+}
diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 4b9a4f6..821fee5 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -16,6 +16,7 @@ import (
 	"github.com/gorilla/mux"
 
 	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/projection"
 	"github.com/inklabs/rangedb/pkg/rangedberror"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
@@ -260,28 +261,51 @@ func writeFailedResponse(w http.ResponseWriter, message string, statusCode int)
 
 func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 	var events []struct {
-		AggregateType string      `json:"aggregateType"`
-		AggregateID   string      `json:"aggregateID"`
-		EventType     string      `json:"eventType"`
-		Data          interface{} `json:"data"`
-		Metadata      interface{} `json:"metadata"`
+		AggregateType string          `json:"aggregateType"`
+		AggregateID   string          `json:"aggregateID"`
+		EventType     string          `json:"eventType"`
+		Data          json.RawMessage `json:"data"`
+		Metadata      json.RawMessage `json:"metadata"`
 	}
-	err := json.NewDecoder(r.Body).Decode(&events)
+	body, err := ioutil.ReadAll(r.Body)
+	if err != nil {
+		return nil, fmt.Errorf("unable to read request body: %v", err)
+	}
+
+	err = json.Unmarshal(body, &events)
 	if err != nil {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
 
 	var eventRecords []*rangedb.EventRecord
 	for _, event := range events {
+		data, err := decodeOptional(event.Data)
+		if err != nil {
+			return nil, fmt.Errorf("invalid event data: %v", err)
+		}
+
+		metadata, err := decodeOptional(event.Metadata)
+		if err != nil {
+			return nil, fmt.Errorf("invalid event metadata: %v", err)
+		}
+
 		eventRecords = append(eventRecords, &rangedb.EventRecord{
-			Event:    rangedb.NewRawEvent(event.AggregateType, event.AggregateID, event.EventType, event.Data),
-			Metadata: event.Metadata,
+			Event:    rangedb.NewRawEvent(event.AggregateType, event.AggregateID, event.EventType, data),
+			Metadata: metadata,
 		})
 	}
 
 	return eventRecords, nil
 }
 
+func decodeOptional(input json.RawMessage) (interface{}, error) {
+	if input == nil {
+		return nil, nil
+	}
+
+	return jsontools.Decode(input)
+}
+
 func (a *api) AggregateTypeStatsProjection() *projection.AggregateTypeStats {
 	return a.projections.aggregateTypeStats
 }
-- 
2.43.0


From 9f6189f12097a414d7afc621ec9b719d8681e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 44/77] fix: recognise wrapped sequence number conflicts and
 missing streams over HTTP

---
 pkg/rangedbapi/api.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 821fee5..34d7fd9 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -190,13 +190,14 @@ func (a *api) deleteStream(w http.ResponseWriter, r *http.Request) {
 	eventsDeleted := expectedStreamSequenceNumber
 
 	if deleteErr != nil {
-		if unexpectedErr, ok := deleteErr.(*rangedberror.UnexpectedSequenceNumber); ok {
+		var unexpectedErr *rangedberror.UnexpectedSequenceNumber
+		if errors.As(deleteErr, &unexpectedErr) {
 			writeFailedResponse(w, unexpectedErr.Error(), http.StatusConflict)
 			return
 		}
 
-		if deleteErr == rangedb.ErrStreamNotFound {
-			writeFailedResponse(w, deleteErr.Error(), http.StatusNotFound)
+		if errors.Is(deleteErr, rangedb.ErrStreamNotFound) {
+			writeFailedResponse(w, rangedb.ErrStreamNotFound.Error(), http.StatusNotFound)
 			return
 		}
 
@@ -240,7 +241,8 @@ func (a *api) saveEvents(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if saveErr != nil {
-		if unexpectedErr, ok := saveErr.(*rangedberror.UnexpectedSequenceNumber); ok {
+		var unexpectedErr *rangedberror.UnexpectedSequenceNumber
+		if errors.As(saveErr, &unexpectedErr) {
 			writeFailedResponse(w, unexpectedErr.Error(), http.StatusConflict)
 			return
 		}
-- 
2.43.0


From 6e4aa45a3400efa77ccd5308bf4d65ceb0fd27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 45/77] fix: serve aggregate types of any name over HTTP and
 websocket

---
 pkg/rangedbapi/api.go          | 2 +-
 pkg/rangedbui/ui.go            | 2 +-
 pkg/rangedbws/websocket_api.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 34d7fd9..e05e5ca 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -103,7 +103,7 @@ func (a *api) initRoutes() {
 	router.HandleFunc("/save-events/"+streamName, a.saveEvents)
 	router.HandleFunc("/all-events"+extension, a.allEvents)
 	router.HandleFunc("/events-by-stream/"+streamName+extension, a.eventsByStream)
-	router.HandleFunc("/events-by-aggregate-type/{aggregateType:[a-zA-Z-,]+}"+extension, a.eventsByAggregateType)
+	router.HandleFunc("/events-by-aggregate-type/{aggregateType}"+extension, a.eventsByAggregateType)
 	router.HandleFunc("/list-aggregate-types", a.listAggregateTypes)
 	a.handler = handlers.CompressHandler(router)
 }
diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 071a175..0912b17 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -89,7 +89,7 @@ func New(
 
 func (a *webUI) initRoutes() {
 	const streamName = "{streamName}"
-	const aggregateType = "{aggregateType:[a-zA-Z-]+}"
+	const aggregateType = "{aggregateType}"
 	router := mux.NewRouter().StrictSlash(true)
 
 	main := router.PathPrefix("/").Subrouter()
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index b1a59d4..c0578cf 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -82,7 +82,7 @@ func New(options ...Option) (*websocketAPI, error) {
 func (a *websocketAPI) initRoutes() {
 	router := mux.NewRouter().StrictSlash(true)
 	router.HandleFunc("/events", a.SubscribeToAllEvents)
-	router.HandleFunc("/events/{aggregateType:[a-zA-Z-,]+}", a.SubscribeToEventsByAggregateTypes)
+	router.HandleFunc("/events/{aggregateType}", a.SubscribeToEventsByAggregateTypes)
 	a.handler = router
 }
 
-- 
2.43.0


From f75169dfe439b7b46e593d802886b32b4c87e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 46/77] fix: find a sequence number conflict after similar text

---
 pkg/rangedberror/errors.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pkg/rangedberror/errors.go b/pkg/rangedberror/errors.go
index 4d39cf9..b1662c7 100644
--- a/pkg/rangedberror/errors.go
+++ b/pkg/rangedberror/errors.go
@@ -14,20 +14,21 @@ type UnexpectedSequenceNumber struct {
 // NewUnexpectedSequenceNumberFromString constructs an UnexpectedSequenceNumber error.
 func NewUnexpectedSequenceNumberFromString(input string) *UnexpectedSequenceNumber {
 	pieces := strings.Split(input, "unexpected sequence number:")
-	if len(pieces) < 2 {
-		return &UnexpectedSequenceNumber{}
-	}
 
-	var expected, actual uint64
-	_, err := fmt.Sscanf(pieces[1], "%d, actual: %d", &expected, &actual)
-	if err != nil {
-		return &UnexpectedSequenceNumber{}
-	}
+	for _, piece := range pieces[1:] {
+		var expected, actual uint64
+		_, err := fmt.Sscanf(piece, "%d, actual: %d", &expected, &actual)
+		if err != nil {
+			continue
+		}
 
-	return &UnexpectedSequenceNumber{
-		Expected:             expected,
-		ActualSequenceNumber: actual,
+		return &UnexpectedSequenceNumber{
+			Expected:             expected,
+			ActualSequenceNumber: actual,
+		}
 	}
+
+	return &UnexpectedSequenceNumber{}
 }
 
 func (e UnexpectedSequenceNumber) Error() string {
-- 
2.43.0


From 49acca60e9a1cce4de63e71191c71f37a8ccef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 47/77] fix: report only actual sequence number conflicts as
 such from the remote store

---
 provider/remotestore/remote_store.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 1b16b90..ff828ce 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -20,10 +20,9 @@ import (
 )
 
 const (
-	broadcastRecordBuffSize        = 100
-	rpcErrContextCanceled          = "Canceled desc = context canceled"
-	rpcErrUnexpectedSequenceNumber = "unexpected sequence number"
-	rpcErrStreamNotFound           = "Unknown desc = stream not found"
+	broadcastRecordBuffSize = 100
+	rpcErrContextCanceled   = "Canceled desc = context canceled"
+	rpcErrStreamNotFound    = "Unknown desc = stream not found"
 )
 
 // JsonSerializer defines the interface to bind events and identify event types.
@@ -133,8 +132,9 @@ func (s *remoteStore) OptimisticDeleteStream(ctx context.Context, expectedStream
 			return rangedb.ErrStreamNotFound
 		}
 
-		if strings.Contains(err.Error(), rpcErrUnexpectedSequenceNumber) {
-			return rangedberror.NewUnexpectedSequenceNumberFromString(err.Error())
+		unexpectedErr := rangedberror.NewUnexpectedSequenceNumberFromString(err.Error())
+		if strings.Contains(err.Error(), unexpectedErr.Error()) {
+			return unexpectedErr
 		}
 
 		return err
@@ -196,8 +196,9 @@ func (s *remoteStore) OptimisticSave(ctx context.Context, expectedStreamSequence
 			return 0, context.Canceled
 		}
 
-		if strings.Contains(err.Error(), rpcErrUnexpectedSequenceNumber) {
-			return 0, rangedberror.NewUnexpectedSequenceNumberFromString(err.Error())
+		unexpectedErr := rangedberror.NewUnexpectedSequenceNumberFromString(err.Error())
+		if strings.Contains(err.Error(), unexpectedErr.Error()) {
+			return 0, unexpectedErr
 		}
 
 		return 0, err
-- 
2.43.0


From cf082141dc2c6cc0d96af4a2760bb5901f6ab5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:51 +0000
Subject: [PATCH 48/77] fix: leave the caller's previous indices alone when
 building links

---
 pkg/paging/paging.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/paging/paging.go b/pkg/paging/paging.go
index 85611f1..8cd2efd 100644
--- a/pkg/paging/paging.go
+++ b/pkg/paging/paging.go
@@ -108,7 +108,8 @@ func (p Pagination) Links(baseURI string, nextIndex uint64) Links {
 		q := url.Values{}
 		q.Add("itemsPerPage", strconv.FormatUint(p.ItemsPerPage, 10))
 
-		previousIndices := append(p.PreviousIndices, p.CurrentIndex)
+		// (the full slice expression keeps append from writing to the caller's slice)
+		previousIndices := append(p.PreviousIndices[:len(p.PreviousIndices):len(p.PreviousIndices)], p.CurrentIndex)
 		previousCSV := strings.Trim(strings.Join(strings.Fields(fmt.Sprint(previousIndices)), ","), "[]")
 		q.Add("previous", previousCSV)
 
-- 
2.43.0


From d9d72ffa10e30ce944b801494df2f68e7e8dda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:27 +0000
Subject: [PATCH 49/77] fix: end merged reads when their context is done

---
 merge_record_iterators.go                | 37 ++++++++++++++++++------
 provider/inmemorystore/inmemory_store.go |  2 +-
 provider/leveldbstore/leveldb_store.go   |  2 +-
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index ff7f623..d6488ee 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -1,5 +1,7 @@
 package rangedb
 
+import "context"
+
 type pipe struct {
 	recordIterator      RecordIterator
 	currentResultRecord ResultRecord
@@ -24,9 +26,25 @@ func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
 
 // MergeRecordIteratorsInOrder combines record channels ordered by record.GlobalSequenceNumber.
 func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterator {
+	return MergeRecordIteratorsInOrderWithContext(context.Background(), recordIterators)
+}
+
+// MergeRecordIteratorsInOrderWithContext combines record channels ordered by record.GlobalSequenceNumber,
+// until ctx is done.
+func MergeRecordIteratorsInOrderWithContext(ctx context.Context, recordIterators []RecordIterator) RecordIterator {
 	resultRecords := make(chan ResultRecord)
 
+	publish := func(resultRecord ResultRecord) bool {
+		select {
+		case resultRecords <- resultRecord:
+			return true
+		case <-ctx.Done():
+			return false
+		}
+	}
+
 	go func() {
+		defer drainRecordIterators(recordIterators)
 		defer close(resultRecords)
 
 		var pipes []*pipe
@@ -35,8 +53,7 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
 			} else if err := pipe.currentResultRecord.Err; err != nil {
-				resultRecords <- ResultRecord{Err: err}
-				drainRecordIterators(recordIterators)
+				publish(ResultRecord{Err: err})
 				return
 			}
 		}
@@ -46,14 +63,15 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 		for len(pipes) > 0 {
 			i := getIndexWithSmallestGlobalSequenceNumber(pipes)
 
-			resultRecords <- pipes[i].currentResultRecord
+			if !publish(pipes[i].currentResultRecord) {
+				return
+			}
 
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
 				if err := pipes[i].currentResultRecord.Err; err != nil {
-					resultRecords <- ResultRecord{Err: err}
-					drainRecordIterators(recordIterators)
+					publish(ResultRecord{Err: err})
 					return
 				}
 				pipes = remove(pipes, i)
@@ -61,14 +79,15 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			}
 
 			for pipes[i].IsNextGlobalSequenceNumber(currentPosition) {
-				resultRecords <- pipes[i].currentResultRecord
+				if !publish(pipes[i].currentResultRecord) {
+					return
+				}
 
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
 					if err := pipes[i].currentResultRecord.Err; err != nil {
-						resultRecords <- ResultRecord{Err: err}
-						drainRecordIterators(recordIterators)
+						publish(ResultRecord{Err: err})
 						return
 					}
 					pipes = remove(pipes, i)
@@ -78,7 +97,7 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 		}
 	}()
 
-	return NewRecordIterator(resultRecords)
+	return NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 // drainRecordIterators lets the producers of abandoned iterators finish.
diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index d4e890e..dafc603 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -114,7 +114,7 @@ func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
 	}
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	return rangedb.MergeRecordIteratorsInOrderWithContext(ctx, recordIterators)
 }
 
 func unique(values []string) []string {
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 8972e30..fbce151 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -165,7 +165,7 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
 	}
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	return rangedb.MergeRecordIteratorsInOrderWithContext(ctx, recordIterators)
 }
 
 func unique(values []string) []string {
-- 
2.43.0


From fef1c03de4e8f53e4444d636b616f3230b80755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 50/77] fix: serve streams and aggregate types whose names
 contain slashes

---
 pkg/rangedbapi/api.go          | 17 ++++++++++++-----
 pkg/rangedbui/ui.go            | 17 ++++++++++++-----
 pkg/rangedbws/websocket_api.go | 11 +++++++++--
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index e05e5ca..fe7494f 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -9,6 +9,7 @@ import (
 	"io/ioutil"
 	"log"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 
@@ -97,7 +98,7 @@ func New(options ...Option) (*api, error) {
 func (a *api) initRoutes() {
 	const streamName = "{streamName}"
 	const extension = ".{extension:json|ndjson|msgpack}"
-	router := mux.NewRouter().StrictSlash(true)
+	router := mux.NewRouter().StrictSlash(true).UseEncodedPath()
 	router.HandleFunc("/health-check", a.healthCheck)
 	router.HandleFunc("/delete-stream/"+streamName, a.deleteStream)
 	router.HandleFunc("/save-events/"+streamName, a.saveEvents)
@@ -145,6 +146,12 @@ func (a *api) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	a.handler.ServeHTTP(w, r)
 }
 
+// pathVariable returns a variable of the request's path, which may contain escaped characters such as slashes.
+func pathVariable(r *http.Request, name string) string {
+	value, _ := url.PathUnescape(mux.Vars(r)[name])
+	return value
+}
+
 func (a *api) healthCheck(w http.ResponseWriter, _ *http.Request) {
 	w.Header().Set(`Content-Type`, `application/json`)
 	_, _ = fmt.Fprintf(w, `{"status":"OK"}`)
@@ -158,7 +165,7 @@ func (a *api) allEvents(w http.ResponseWriter, r *http.Request) {
 }
 
 func (a *api) eventsByStream(w http.ResponseWriter, r *http.Request) {
-	streamName := mux.Vars(r)["streamName"]
+	streamName := pathVariable(r, "streamName")
 	extension := mux.Vars(r)["extension"]
 
 	events := a.store.EventsByStream(r.Context(), 0, streamName)
@@ -166,7 +173,7 @@ func (a *api) eventsByStream(w http.ResponseWriter, r *http.Request) {
 }
 
 func (a *api) eventsByAggregateType(w http.ResponseWriter, r *http.Request) {
-	aggregateTypeInput := mux.Vars(r)["aggregateType"]
+	aggregateTypeInput := pathVariable(r, "aggregateType")
 	aggregateTypes := strings.Split(aggregateTypeInput, ",")
 	extension := mux.Vars(r)["extension"]
 
@@ -178,7 +185,7 @@ func (a *api) eventsByAggregateType(w http.ResponseWriter, r *http.Request) {
 func (a *api) deleteStream(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 
-	streamName := mux.Vars(r)["streamName"]
+	streamName := pathVariable(r, "streamName")
 
 	expectedStreamSequenceNumber, err := expectedStreamSequenceNumberFromRequest(r)
 	if err != nil {
@@ -224,7 +231,7 @@ func (a *api) saveEvents(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	streamName := mux.Vars(r)["streamName"]
+	streamName := pathVariable(r, "streamName")
 
 	var lastStreamSequenceNumber uint64
 	var saveErr error
diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 0912b17..27a75be 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/gorilla/handlers"
@@ -90,7 +91,7 @@ func New(
 func (a *webUI) initRoutes() {
 	const streamName = "{streamName}"
 	const aggregateType = "{aggregateType}"
-	router := mux.NewRouter().StrictSlash(true)
+	router := mux.NewRouter().StrictSlash(true).UseEncodedPath()
 
 	main := router.PathPrefix("/").Subrouter()
 	main.HandleFunc("/", a.index)
@@ -113,6 +114,12 @@ func (a *webUI) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	a.handler.ServeHTTP(w, r)
 }
 
+// pathVariable returns a variable of the request's path, which may contain escaped characters such as slashes.
+func pathVariable(r *http.Request, name string) string {
+	value, _ := url.PathUnescape(mux.Vars(r)[name])
+	return value
+}
+
 func (a *webUI) index(w http.ResponseWriter, r *http.Request) {
 	http.Redirect(w, r, "/aggregate-types", http.StatusFound)
 }
@@ -169,7 +176,7 @@ type aggregateTypeTemplateVars struct {
 }
 
 func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
-	aggregateTypeName := mux.Vars(r)["aggregateType"]
+	aggregateTypeName := pathVariable(r, "aggregateType")
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	globalSequenceNumber := pagination.CurrentIndex
@@ -209,7 +216,7 @@ type streamTemplateVars struct {
 }
 
 func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
-	streamName := mux.Vars(r)["streamName"]
+	streamName := pathVariable(r, "streamName")
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	streamSequenceNumber := pagination.CurrentIndex
@@ -252,7 +259,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 }
 
 func (a *webUI) aggregateTypeLive(w http.ResponseWriter, r *http.Request) {
-	aggregateTypeName := mux.Vars(r)["aggregateType"]
+	aggregateTypeName := pathVariable(r, "aggregateType")
 
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 
@@ -291,7 +298,7 @@ type RecordEnvelope struct {
 }
 
 func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Request) {
-	aggregateTypeName := mux.Vars(r)["aggregateType"]
+	aggregateTypeName := pathVariable(r, "aggregateType")
 
 	conn, err := a.upgrader.Upgrade(w, r, nil)
 	if err != nil {
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index c0578cf..e40c9e8 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"log"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 
@@ -80,7 +81,7 @@ func New(options ...Option) (*websocketAPI, error) {
 }
 
 func (a *websocketAPI) initRoutes() {
-	router := mux.NewRouter().StrictSlash(true)
+	router := mux.NewRouter().StrictSlash(true).UseEncodedPath()
 	router.HandleFunc("/events", a.SubscribeToAllEvents)
 	router.HandleFunc("/events/{aggregateType}", a.SubscribeToEventsByAggregateTypes)
 	a.handler = router
@@ -139,6 +140,12 @@ func (a *websocketAPI) SubscribeToAllEvents(w http.ResponseWriter, r *http.Reque
 	_, _, _ = conn.ReadMessage()
 }
 
+// pathVariable returns a variable of the request's path, which may contain escaped characters such as slashes.
+func pathVariable(r *http.Request, name string) string {
+	value, _ := url.PathUnescape(mux.Vars(r)[name])
+	return value
+}
+
 func globalSequenceNumberFromRequest(r *http.Request) (uint64, error) {
 	globalSequenceNumberInput := r.URL.Query().Get("global-sequence-number")
 	if globalSequenceNumberInput == "" {
@@ -160,7 +167,7 @@ func (a *websocketAPI) SubscribeToEventsByAggregateTypes(w http.ResponseWriter,
 		return
 	}
 
-	aggregateTypeInput := mux.Vars(r)["aggregateType"]
+	aggregateTypeInput := pathVariable(r, "aggregateType")
 	aggregateTypes := strings.Split(aggregateTypeInput, ",")
 
 	conn, err := a.upgrader.Upgrade(w, r, nil)
-- 
2.43.0


From 9f9c33a86d4f6c7f39863825541f8f9256b5d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:45 +0000
Subject: [PATCH 51/77] fix: escape names in the links of the web UI

---
 pkg/rangedbui/functions.go                          | 2 ++
 pkg/rangedbui/templates/aggregate-type-live.gohtml  | 8 ++++----
 pkg/rangedbui/templates/aggregate-type.gohtml       | 2 +-
 pkg/rangedbui/templates/aggregate-types-live.gohtml | 2 +-
 pkg/rangedbui/templates/aggregate-types.gohtml      | 2 +-
 pkg/rangedbui/templates/layout/records.gohtml       | 4 ++--
 pkg/rangedbui/ui.go                                 | 4 ++--
 7 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/rangedbui/functions.go b/pkg/rangedbui/functions.go
index 8ff1359..85d669c 100644
--- a/pkg/rangedbui/functions.go
+++ b/pkg/rangedbui/functions.go
@@ -3,6 +3,7 @@ package rangedbui
 import (
 	"encoding/json"
 	"html/template"
+	"net/url"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -15,6 +16,7 @@ var FuncMap = template.FuncMap{
 	"formatDate":   formatDate,
 	"formatJson":   formatJson,
 	"formatUint64": formatUint64,
+	"pathEscape":   url.PathEscape,
 	"rangeDBVersion": func() string {
 		return rangedb.Version
 	},
diff --git a/pkg/rangedbui/templates/aggregate-type-live.gohtml b/pkg/rangedbui/templates/aggregate-type-live.gohtml
index 5acdef8..d587073 100644
--- a/pkg/rangedbui/templates/aggregate-type-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type-live.gohtml
@@ -13,7 +13,7 @@
             <nav aria-label="You are here:" role="navigation">
                 <ul class="breadcrumbs">
                     <li><a href="/aggregate-types/live">Aggregate</a></li>
-                    <li><a href="/a/{{.AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
+                    <li><a href="/a/{{pathEscape .AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
                     <li>
                         Realtime (${ Number(totalEvents).toLocaleString() })
                     </li>
@@ -37,8 +37,8 @@
                     <td>${record.globalSequenceNumber}</td>
                     <td>${record.streamSequenceNumber}</td>
                     <td>${record.eventType}</td>
-                    <td><a :href="'/a/' + record.aggregateType + '/live'">${record.aggregateType}</a></td>
-                    <td><a :href="'/s/' + record.streamName">${record.streamName}</a></td>
+                    <td><a :href="'/a/' + encodeURIComponent(record.aggregateType) + '/live'">${record.aggregateType}</a></td>
+                    <td><a :href="'/s/' + encodeURIComponent(record.streamName)">${record.streamName}</a></td>
                     <td class="date">${formatDate(record.insertTimestamp)}</td>
                     <td class="event-data">${record.data}</td>
                 </tr>
@@ -69,7 +69,7 @@
                 return new Intl.DateTimeFormat('default', {dateStyle: 'medium', timeStyle: 'long'}).format(date);
             },
             connect() {
-                let ws = new WebSocket('ws://{{.UIHost}}/live/a/{{.AggregateTypeInfo.Name}}');
+                let ws = new WebSocket('ws://{{.UIHost}}/live/a/{{pathEscape .AggregateTypeInfo.Name}}');
                 ws.onmessage = (event) => {
                     if (this.wasDisconnected) {
                         this.records = [];
diff --git a/pkg/rangedbui/templates/aggregate-type.gohtml b/pkg/rangedbui/templates/aggregate-type.gohtml
index 1f350ba..bcb964d 100644
--- a/pkg/rangedbui/templates/aggregate-type.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type.gohtml
@@ -14,7 +14,7 @@
                             {{.AggregateTypeInfo.Name}} ({{.AggregateTypeInfo.TotalEvents | formatUint64}})
                         </li>
                         <li>
-                            <a href="/a/{{.AggregateTypeInfo.Name}}/live">Realtime</a>
+                            <a href="/a/{{pathEscape .AggregateTypeInfo.Name}}/live">Realtime</a>
                         </li>
                     </ul>
                 </nav>
diff --git a/pkg/rangedbui/templates/aggregate-types-live.gohtml b/pkg/rangedbui/templates/aggregate-types-live.gohtml
index e383d91..12bb34c 100644
--- a/pkg/rangedbui/templates/aggregate-types-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types-live.gohtml
@@ -29,7 +29,7 @@
                     </thead>
                     <tbody>
                     <tr v-for="aggregateType in aggregateTypes" :key="aggregateType.Name">
-                        <td><a :href="'/a/' + aggregateType.Name + '/live'">${aggregateType.Name}</a></td>
+                        <td><a :href="'/a/' + encodeURIComponent(aggregateType.Name) + '/live'">${aggregateType.Name}</a></td>
                         <td>${ Number(aggregateType.TotalEvents).toLocaleString() }</td>
                     </tr>
                     </tbody>
diff --git a/pkg/rangedbui/templates/aggregate-types.gohtml b/pkg/rangedbui/templates/aggregate-types.gohtml
index 613975b..978d0aa 100644
--- a/pkg/rangedbui/templates/aggregate-types.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types.gohtml
@@ -27,7 +27,7 @@
                     <tbody>
                     {{range .AggregateTypes}}
                     <tr>
-                        <td><a href="/a/{{.Name}}">{{.Name}}</a></td>
+                        <td><a href="/a/{{pathEscape .Name}}">{{.Name}}</a></td>
                         <td>{{.TotalEvents | formatUint64}}</td>
                     </tr>
                     {{end}}
diff --git a/pkg/rangedbui/templates/layout/records.gohtml b/pkg/rangedbui/templates/layout/records.gohtml
index cd4ac2c..049bb23 100644
--- a/pkg/rangedbui/templates/layout/records.gohtml
+++ b/pkg/rangedbui/templates/layout/records.gohtml
@@ -19,8 +19,8 @@
             <td>{{.GlobalSequenceNumber}}</td>
             <td>{{.StreamSequenceNumber}}</td>
             <td>{{.EventType}}</td>
-            <td><a href="/a/{{.AggregateType}}">{{.AggregateType}}</a></td>
-            <td><a href="/s/{{.StreamName}}">{{.StreamName}}</a></td>
+            <td><a href="/a/{{pathEscape .AggregateType}}">{{.AggregateType}}</a></td>
+            <td><a href="/s/{{pathEscape .StreamName}}">{{.StreamName}}</a></td>
             <td class="date">{{formatDate .InsertTimestamp "Jan 02, 2006 15:04:05 UTC"}}</td>
             <td class="event-data">{{formatJson .Data}}</td>
         </tr>
diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 27a75be..4ecea9a 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -196,7 +196,7 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/a/%s", aggregateTypeName)
+	baseURI := fmt.Sprintf("/a/%s", url.PathEscape(aggregateTypeName))
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 
 	a.renderWithValues(w, "aggregate-type.gohtml", aggregateTypeTemplateVars{
@@ -236,7 +236,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/s/%s", streamName)
+	baseURI := fmt.Sprintf("/s/%s", url.PathEscape(streamName))
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
 		if errors.Is(err, context.Canceled) {
-- 
2.43.0


From 85b559e3b16c64e7ac88037117d0faea6c01066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:55 +0000
Subject: [PATCH 52/77] fix: do not interpret aggregate type names as
 expressions in the live page

---
 pkg/rangedbui/templates/aggregate-type-live.gohtml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rangedbui/templates/aggregate-type-live.gohtml b/pkg/rangedbui/templates/aggregate-type-live.gohtml
index d587073..990a292 100644
--- a/pkg/rangedbui/templates/aggregate-type-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type-live.gohtml
@@ -13,7 +13,7 @@
             <nav aria-label="You are here:" role="navigation">
                 <ul class="breadcrumbs">
                     <li><a href="/aggregate-types/live">Aggregate</a></li>
-                    <li><a href="/a/{{pathEscape .AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
+                    <li v-pre><a href="/a/{{pathEscape .AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
                     <li>
                         Realtime (${ Number(totalEvents).toLocaleString() })
                     </li>
-- 
2.43.0


From 933681b3174b3ee04f5edd6415ae774100109e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 53/77] fix: answer failed reads with an error in the web UI

---
 pkg/rangedbui/ui.go | 47 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 4ecea9a..3d0a7d1 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -180,13 +180,17 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	globalSequenceNumber := pagination.CurrentIndex
-	records := rangedb.ReadNRecords(
+	records, err := readNRecords(
 		pagination.ItemsPerPage+1,
 		func() (rangedb.RecordIterator, context.CancelFunc) {
 			ctx, done := context.WithCancel(r.Context())
 			return a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName), done
 		},
 	)
+	if err != nil {
+		writeReadError(w, err)
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -220,13 +224,17 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	streamSequenceNumber := pagination.CurrentIndex
-	records := rangedb.ReadNRecords(
+	records, err := readNRecords(
 		pagination.ItemsPerPage+1,
 		func() (rangedb.RecordIterator, context.CancelFunc) {
 			ctx, done := context.WithCancel(r.Context())
 			return a.store.EventsByStream(ctx, streamSequenceNumber, streamName), done
 		},
 	)
+	if err != nil {
+		writeReadError(w, err)
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -239,12 +247,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	baseURI := fmt.Sprintf("/s/%s", url.PathEscape(streamName))
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
-		if errors.Is(err, context.Canceled) {
-			http.Error(w, "Request Timeout", http.StatusRequestTimeout)
-			return
-		}
-
-		http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+		writeReadError(w, err)
 		return
 	}
 
@@ -258,6 +261,34 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	})
 }
 
+// readNRecords reads up to N records, or returns the error that ended the read before that.
+func readNRecords(totalEvents uint64, f func() (rangedb.RecordIterator, context.CancelFunc)) ([]*rangedb.Record, error) {
+	var readErr error
+
+	records := rangedb.ReadNRecords(totalEvents, func() (rangedb.RecordIterator, context.CancelFunc) {
+		recordIterator, done := f()
+		return recordIterator, func() {
+			readErr = recordIterator.Err()
+			done()
+		}
+	})
+
+	if uint64(len(records)) < totalEvents && readErr != nil && !errors.Is(readErr, rangedb.ErrStreamNotFound) {
+		return nil, readErr
+	}
+
+	return records, nil
+}
+
+func writeReadError(w http.ResponseWriter, err error) {
+	if errors.Is(err, context.Canceled) {
+		http.Error(w, "Request Timeout", http.StatusRequestTimeout)
+		return
+	}
+
+	http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+}
+
 func (a *webUI) aggregateTypeLive(w http.ResponseWriter, r *http.Request) {
 	aggregateTypeName := pathVariable(r, "aggregateType")
 
-- 
2.43.0


From 9c6811d0f007b77502797a472a49a06a69cff247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 54/77] fix: refuse snapshots without counts

---
 pkg/projection/aggregate_type_stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..d57be00 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -2,6 +2,7 @@ package projection
 
 import (
 	"encoding/json"
+	"errors"
 	"io"
 	"sort"
 	"sync"
@@ -91,6 +92,10 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		return errors.New("invalid snapshot: missing totalEventsByAggregateType")
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From 5670e34c34970ce7888878aa25aedc864a4e5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 55/77] fix: quote aggregate types in generated code

---
 pkg/commandgenerator/write_command.go | 2 +-
 pkg/eventparser/event_writer.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/commandgenerator/write_command.go b/pkg/commandgenerator/write_command.go
index 3cca7d2..e8f7710 100644
--- a/pkg/commandgenerator/write_command.go
+++ b/pkg/commandgenerator/write_command.go
@@ -39,7 +39,7 @@ package {{ $.Package }}
 {{- range .Commands }}
 
 func (c {{ . }}) AggregateID() string   { return c.{{ $.ID }} }
-func (c {{ . }}) AggregateType() string { return "{{ $.AggregateType }}" }
+func (c {{ . }}) AggregateType() string { return {{ printf "%q" $.AggregateType }} }
 func (c {{ . }}) CommandType() string   { return "{{ . }}" }
 {{- end }}
 `))
diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index c551511..e59849a 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -76,7 +76,7 @@ import (
 {{- range .Events }}
 
 func (e {{ .Name }}) AggregateID() string   { return e.{{ $.ID }} }
-func (e {{ .Name }}) AggregateType() string { return "{{ $.AggregateType }}" }
+func (e {{ .Name }}) AggregateType() string { return {{ printf "%q" $.AggregateType }} }
 func (e {{ .Name }}) EventType() string     { return "{{ .Name }}" }
 
 {{- if .PersonalData }}
-- 
2.43.0


From c997cda0b4a324dc6cb3dcf76106cbf3771785af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:02 +0000
Subject: [PATCH 56/77] fix: read struct tags that are interpreted strings

---
 pkg/eventparser/event_parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 6a254ea..c840a35 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -6,7 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
-	"strings"
+	"strconv"
 
 	"github.com/fatih/structtag"
 )
@@ -57,7 +57,10 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 				}
 
 				fieldName := field.Names[0].String()
-				tagString := strings.Replace(field.Tag.Value, "`", "", 2)
+				tagString, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					continue
+				}
 				tags, err := structtag.Parse(tagString)
 				if err != nil {
 					continue
-- 
2.43.0


From 51286b27a4603cb0da46e6ea42cf793bb405e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 57/77] fix: encrypt every field of a declaration

---
 pkg/eventparser/event_parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index c840a35..8d64e45 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -56,7 +56,6 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 					continue
 				}
 
-				fieldName := field.Names[0].String()
 				tagString, err := strconv.Unquote(field.Tag.Value)
 				if err != nil {
 					continue
@@ -73,17 +72,19 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 
 				switch encryptTag.Value() {
 				case "subject-id":
-					subjectID = fieldName
+					subjectID = field.Names[0].String()
 
 				case "personal-data":
 					serializedTag, err := tags.Get("serialized")
 					if err != nil {
-						personalDataFields = append(personalDataFields, fieldName)
+						for _, name := range field.Names {
+							personalDataFields = append(personalDataFields, name.String())
+						}
 					} else {
 						if serializedFields == nil {
 							serializedFields = make(map[string]string)
 						}
-						serializedFields[serializedTag.Name] = fieldName
+						serializedFields[serializedTag.Name] = field.Names[0].String()
 					}
 				}
 			}
-- 
2.43.0


From bcd8977f33cf70a0b31dc29fb4f46a56a5263bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:48 +0000
Subject: [PATCH 58/77] fix: keep names intact whose first letter is not ASCII

---
 pkg/aggregategenerator/write_aggregate.go | 4 ++--
 pkg/eventparser/event_writer.go           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/aggregategenerator/write_aggregate.go b/pkg/aggregategenerator/write_aggregate.go
index bee0cfc..e13fd23 100644
--- a/pkg/aggregategenerator/write_aggregate.go
+++ b/pkg/aggregategenerator/write_aggregate.go
@@ -34,8 +34,8 @@ type templateData struct {
 }
 
 func lcFirst(str string) string {
-	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+	for _, v := range str {
+		return string(unicode.ToLower(v)) + str[len(string(v)):]
 	}
 	return ""
 }
diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index e59849a..fbe389c 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -48,8 +48,8 @@ type templateData struct {
 }
 
 func lcFirst(str string) string {
-	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+	for _, v := range str {
+		return string(unicode.ToLower(v)) + str[len(string(v)):]
 	}
 	return ""
 }
-- 
2.43.0


From eebc56c43966d76db05b3f416f7da93d907198f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 59/77] fix: name local variables in generated methods apart

---
 pkg/eventparser/event_writer.go | 59 +++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index fbe389c..34b4885 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -2,7 +2,9 @@ package eventparser
 
 import (
 	"fmt"
+	"go/token"
 	"io"
+	"sort"
 	"text/template"
 	"time"
 	"unicode"
@@ -54,8 +56,42 @@ func lcFirst(str string) string {
 	return ""
 }
 
+// localNames returns the names of the variables that hold fields, and the texts of serialized fields, in generated methods.
+// They differ from each other and from everything else these methods refer to.
+func localNames(data *PersonalData) map[string]string {
+	used := map[string]bool{"e": true, "encryptor": true, "err": true, "nil": true, "crypto": true, "strconv": true}
+	names := make(map[string]string)
+	add := func(key, name string) {
+		for used[name] || token.IsKeyword(name) {
+			name += "_"
+		}
+		used[name] = true
+		names[key] = name
+	}
+
+	for _, field := range data.Fields {
+		add(field, lcFirst(field))
+	}
+
+	var targets []string
+	for target := range data.SerializedFields {
+		targets = append(targets, target)
+	}
+	sort.Strings(targets)
+
+	for _, target := range targets {
+		field := data.SerializedFields[target]
+		add(target, lcFirst(target))
+		add(field, lcFirst(field))
+		add("string "+field, "string"+field)
+		add("decrypted "+field, "decrypted"+field)
+	}
+
+	return names
+}
+
 var funcMap = template.FuncMap{
-	"LcFirst": lcFirst,
+	"LocalNames": localNames,
 }
 
 var fileTemplate = template.Must(template.New("").Funcs(funcMap).Parse(`// Code generated by go generate; DO NOT EDIT.
@@ -81,9 +117,10 @@ func (e {{ .Name }}) EventType() string     { return "{{ .Name }}" }
 
 {{- if .PersonalData }}
 {{- $event := . }}
+{{- $local := LocalNames .PersonalData }}
 func (e *{{ .Name }}) Encrypt(encryptor crypto.Encryptor) error {
 {{- range $event.PersonalData.Fields }}
-	{{ . | LcFirst }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
+	{{ index $local . }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
@@ -92,8 +129,8 @@ func (e *{{ .Name }}) Encrypt(encryptor crypto.Encryptor) error {
 	}
 {{ end }}
 {{- range $key, $value := $event.PersonalData.SerializedFields }}
-	string{{ $value }} := strconv.Itoa(e.{{ $value }})
-	{{ $key | LcFirst }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, string{{ $value }})
+	{{ index $local (print "string " $value) }} := strconv.Itoa(e.{{ $value }})
+	{{ index $local $key }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, {{ index $local (print "string " $value) }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
@@ -102,19 +139,19 @@ func (e *{{ .Name }}) Encrypt(encryptor crypto.Encryptor) error {
 	}
 {{ end }}
 	{{- range $event.PersonalData.Fields }}
-	e.{{ . }} = {{ . | LcFirst }}
+	e.{{ . }} = {{ index $local . }}
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
 	e.{{ $v }} = 0
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
-	e.{{ $k }} = {{ $k | LcFirst }}
+	e.{{ $k }} = {{ index $local $k }}
 	{{- end }}
 	return nil
 }
 func (e *{{ .Name }}) Decrypt(encryptor crypto.Encryptor) error {
 {{- range $event.PersonalData.Fields }}
-	{{ . | LcFirst }}, err := encryptor.Decrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
+	{{ index $local . }}, err := encryptor.Decrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
@@ -123,23 +160,23 @@ func (e *{{ .Name }}) Decrypt(encryptor crypto.Encryptor) error {
 	}
 {{ end }}
 {{- range $key, $value := $event.PersonalData.SerializedFields }}
-	decrypted{{ $value }}, err := encryptor.Decrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ $key }})
+	{{ index $local (print "decrypted " $value) }}, err := encryptor.Decrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ $key }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
 		}
 		return err
 	}
-	{{ $value | LcFirst }}, err := strconv.Atoi(decrypted{{ $value }})
+	{{ index $local $value }}, err := strconv.Atoi({{ index $local (print "decrypted " $value) }})
 	if err != nil {
 		return err
 	}
 {{ end }}
 	{{- range $event.PersonalData.Fields }}
-	e.{{ . }} = {{ . | LcFirst }}
+	e.{{ . }} = {{ index $local . }}
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
-	e.{{ $v }} = {{ $v | LcFirst }}
+	e.{{ $v }} = {{ index $local $v }}
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
 	e.{{ $k }} = ""
-- 
2.43.0


From 1eaeff2a4c7b255f695f25d34692e83ff5a6f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:26 +0000
Subject: [PATCH 60/77] fix: ignore types that are local to functions

---
 pkg/eventparser/event_parser.go  | 3 +++
 pkg/structparser/struct_names.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 8d64e45..5dcd5bb 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -45,6 +45,9 @@ type structVisitor struct {
 
 func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 	switch n := node.(type) {
+	case *ast.FuncDecl, *ast.FuncLit:
+		return nil
+
 	case *ast.TypeSpec:
 		if value, ok := n.Type.(*ast.StructType); ok {
 			var subjectID string
diff --git a/pkg/structparser/struct_names.go b/pkg/structparser/struct_names.go
index ca49c21..eb620e2 100644
--- a/pkg/structparser/struct_names.go
+++ b/pkg/structparser/struct_names.go
@@ -27,6 +27,9 @@ type structVisitor struct {
 
 func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 	switch n := node.(type) {
+	case *ast.FuncDecl, *ast.FuncLit:
+		return nil
+
 	case *ast.TypeSpec:
 		if _, ok := n.Type.(*ast.StructType); ok {
 			v.Names = append(v.Names, n.Name.String())
-- 
2.43.0


From 80a7886310be7e68b56b03e20b5ae8a6b693ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:15 +0000
Subject: [PATCH 61/77] fix: read events that have metadata from PostgreSQL

---
 provider/postgresstore/postgres_store.go | 42 ++++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d3139f9..840a1b0 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -402,12 +402,9 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			return fmt.Errorf("unable to decode data: %v", err)
 		}
 
-		var metadata interface{}
-		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), metadata)
-			if err != nil {
-				return fmt.Errorf("unable to unmarshal metadata: %v", err)
-			}
+		metadata, err := decodeMetadata(batchRecord.Metadata)
+		if err != nil {
+			return fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
 
 		record.Data = deSerializedData
@@ -642,14 +639,11 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			return 0, decodeErr
 		}
 
-		var metadata interface{}
-		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), metadata)
-			if err != nil {
-				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
-				return 0, unmarshalErr
-			}
+		metadata, err := decodeMetadata(serializedMetadata)
+		if err != nil {
+			unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
+			resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+			return 0, unmarshalErr
 		}
 
 		record := &rangedb.Record{
@@ -750,13 +744,10 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 				return
 			}
 
-			var metadata interface{}
-			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), metadata)
-				if err != nil {
-					log.Printf("unable to unmarshal metadata: %v", err)
-					return
-				}
+			metadata, err := decodeMetadata(jsonRecord.Metadata)
+			if err != nil {
+				log.Printf("unable to unmarshal metadata: %v", err)
+				return
 			}
 
 			record := &rangedb.Record{
@@ -785,6 +776,15 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	}
 }
 
+func decodeMetadata(serializedMetadata string) (interface{}, error) {
+	decoder := json.NewDecoder(strings.NewReader(serializedMetadata))
+	decoder.UseNumber()
+
+	var metadata interface{}
+	err := decoder.Decode(&metadata)
+	return metadata, err
+}
+
 type dbQueryable interface {
 	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
 }
-- 
2.43.0


From 6cfc5274510798b88c880d277438c37a8399a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:30 +0000
Subject: [PATCH 62/77] fix: report cancelled reads of the PostgreSQL store

---
 provider/postgresstore/postgres_store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 840a1b0..fb48b9e 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -147,7 +147,7 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 		_, _ = s.readResultRecords(ctx, rows, resultRecords)
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func ignoreClose(closer io.Closer) {
@@ -183,7 +183,7 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 		_, _ = s.readResultRecords(ctx, rows, resultRecords)
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, streamName string) rangedb.RecordIterator {
@@ -219,7 +219,7 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorWithContext(ctx, resultRecords)
 }
 
 func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string) error {
-- 
2.43.0


From 8cca14c4cb12794155b816920b20318a17340720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:52 +0000
Subject: [PATCH 63/77] fix: lock the stream while it is deleted from
 PostgreSQL

---
 provider/postgresstore/postgres_store.go | 27 ++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index fb48b9e..ef67fbb 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -228,6 +228,21 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 		return err
 	}
 
+	err = s.deleteStream(ctx, transaction, expectedStreamSequenceNumber, streamName)
+	if err != nil {
+		_ = transaction.Rollback()
+		return err
+	}
+
+	return transaction.Commit()
+}
+
+func (s *postgresStore) deleteStream(ctx context.Context, transaction *sql.Tx, expectedStreamSequenceNumber uint64, streamName string) error {
+	err := s.lockStream(ctx, transaction, streamName)
+	if err != nil {
+		return err
+	}
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
@@ -245,17 +260,7 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 	}
 
 	_, err = transaction.ExecContext(ctx, `DELETE FROM record WHERE StreamName = $1`, streamName)
-	if err != nil {
-		_ = transaction.Rollback()
-		return err
-	}
-
-	err = transaction.Commit()
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 func (s *postgresStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-- 
2.43.0


From c3bba47c53ce494f331c13977b141493463fb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 64/77] fix: make events of the PostgreSQL store visible in the
 order of their numbers

---
 provider/postgresstore/postgres_store.go | 26 ++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index ef67fbb..f6f8ffa 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lib/pq"
@@ -26,6 +27,9 @@ import (
 const (
 	broadcastRecordBuffSize   = 100
 	streamAdvisoryLockTimeout = 2 * time.Second
+
+	// insertAdvisoryLockKey differs from the keys of streams, which are not negative.
+	insertAdvisoryLockKey = -1
 )
 
 type batchSQLRecord struct {
@@ -54,6 +58,8 @@ type postgresStore struct {
 	serializer        JsonSerializer
 	broadcaster       broadcast.Broadcaster
 	pgNotifyIsEnabled bool
+
+	publishMux sync.Mutex
 }
 
 // Option defines functional option parameters for postgresStore.
@@ -289,6 +295,9 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 		return 0, err
 	}
 
+	s.publishMux.Lock()
+	defer s.publishMux.Unlock()
+
 	err = transaction.Commit()
 	if err != nil {
 		return 0, err
@@ -330,6 +339,12 @@ func (s *postgresStore) saveEvents(
 		return nil, err
 	}
 
+	// Global sequence numbers must become visible in order.
+	err = s.lock(ctx, transaction, insertAdvisoryLockKey)
+	if err != nil {
+		return nil, err
+	}
+
 	globalSequenceNumbers, lastStreamSequenceNumber, err := s.batchInsert(ctx, transaction, batchRecords)
 	if err != nil {
 		return nil, err
@@ -519,12 +534,15 @@ func (s *postgresStore) batchInsert(ctx context.Context, transaction dbQueryable
 }
 
 func (s *postgresStore) lockStream(ctx context.Context, transaction dbExecAble, streamName string) error {
-	lockCtx, cancel := context.WithTimeout(ctx, streamAdvisoryLockTimeout)
-	defer cancel()
-
 	h := fnv.New32a()
 	_, _ = h.Write([]byte(streamName))
-	lockKey := h.Sum32()
+
+	return s.lock(ctx, transaction, int64(h.Sum32()))
+}
+
+func (s *postgresStore) lock(ctx context.Context, transaction dbExecAble, lockKey int64) error {
+	lockCtx, cancel := context.WithTimeout(ctx, streamAdvisoryLockTimeout)
+	defer cancel()
 
 	_, err := transaction.ExecContext(lockCtx, `SELECT pg_advisory_xact_lock($1)`, lockKey)
 	if err != nil {
-- 
2.43.0


From 47cb5f807b54d9b18f0c6c882c4be68aeeb310a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:39 +0000
Subject: [PATCH 65/77] fix: give the PostgreSQL store a default UUID generator

---
 provider/postgresstore/postgres_store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index f6f8ffa..bc48ac5 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -89,10 +89,11 @@ func WithPgNotify() Option {
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
 	s := &postgresStore{
-		config:      config,
-		clock:       systemclock.New(),
-		serializer:  jsonrecordserializer.New(),
-		broadcaster: broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		config:        config,
+		clock:         systemclock.New(),
+		uuidGenerator: shortuuid.NewUUIDGenerator(),
+		serializer:    jsonrecordserializer.New(),
+		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 	}
 
 	for _, option := range options {
-- 
2.43.0


From 20cb38f0e95b5f7b58c25e747176d23185cbc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:41 +0000
Subject: [PATCH 66/77] fix: keep listening after a PostgreSQL notification
 that cannot be decoded

---
 provider/postgresstore/postgres_store.go | 71 +++++++++++++-----------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index bc48ac5..6018da5 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -751,40 +751,10 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	for {
 		select {
 		case n := <-listener.Notify:
-			var jsonRecord PostgresJsonRecord
-			err := json.Unmarshal([]byte(n.Extra), &jsonRecord)
+			record, err := s.decodeNotification(n.Extra)
 			if err != nil {
-				log.Printf("invalid json request body: %v", err)
-				return
-			}
-
-			data, err := jsonrecordserializer.DecodeJsonData(
-				jsonRecord.EventType,
-				strings.NewReader(jsonRecord.Data),
-				s.serializer,
-			)
-			if err != nil {
-				log.Printf("unable to decode data: %v", err)
-				return
-			}
-
-			metadata, err := decodeMetadata(jsonRecord.Metadata)
-			if err != nil {
-				log.Printf("unable to unmarshal metadata: %v", err)
-				return
-			}
-
-			record := &rangedb.Record{
-				StreamName:           jsonRecord.StreamName,
-				AggregateType:        jsonRecord.AggregateType,
-				AggregateID:          jsonRecord.AggregateID,
-				GlobalSequenceNumber: jsonRecord.GlobalSequenceNumber,
-				StreamSequenceNumber: jsonRecord.StreamSequenceNumber,
-				InsertTimestamp:      jsonRecord.InsertTimestamp,
-				EventID:              jsonRecord.EventID,
-				EventType:            jsonRecord.EventType,
-				Data:                 data,
-				Metadata:             metadata,
+				log.Print(err)
+				continue
 			}
 
 			s.broadcaster.Accept(record)
@@ -800,6 +770,41 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	}
 }
 
+func (s *postgresStore) decodeNotification(payload string) (*rangedb.Record, error) {
+	var jsonRecord PostgresJsonRecord
+	err := json.Unmarshal([]byte(payload), &jsonRecord)
+	if err != nil {
+		return nil, fmt.Errorf("invalid json request body: %v", err)
+	}
+
+	data, err := jsonrecordserializer.DecodeJsonData(
+		jsonRecord.EventType,
+		strings.NewReader(jsonRecord.Data),
+		s.serializer,
+	)
+	if err != nil {
+		return nil, fmt.Errorf("unable to decode data: %v", err)
+	}
+
+	metadata, err := decodeMetadata(jsonRecord.Metadata)
+	if err != nil {
+		return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
+	}
+
+	return &rangedb.Record{
+		StreamName:           jsonRecord.StreamName,
+		AggregateType:        jsonRecord.AggregateType,
+		AggregateID:          jsonRecord.AggregateID,
+		GlobalSequenceNumber: jsonRecord.GlobalSequenceNumber,
+		StreamSequenceNumber: jsonRecord.StreamSequenceNumber,
+		InsertTimestamp:      jsonRecord.InsertTimestamp,
+		EventID:              jsonRecord.EventID,
+		EventType:            jsonRecord.EventType,
+		Data:                 data,
+		Metadata:             metadata,
+	}, nil
+}
+
 func decodeMetadata(serializedMetadata string) (interface{}, error) {
 	decoder := json.NewDecoder(strings.NewReader(serializedMetadata))
 	decoder.UseNumber()
-- 
2.43.0


From 79f1cd72a90d7ac66b6a072364a6cc0adf7dec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:49 +0000
Subject: [PATCH 67/77] fix: publish the events missed while the connection for
 notifications was down

---
 provider/postgresstore/postgres_store.go | 46 ++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 6018da5..54a9bc3 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -728,11 +728,28 @@ func (s *postgresStore) startPQListener() error {
 		return err
 	}
 
-	go s.listen(listener)
+	lastGlobalSequenceNumber, err := s.lastGlobalSequenceNumber()
+	if err != nil {
+		return err
+	}
+
+	go s.listen(listener, lastGlobalSequenceNumber)
 
 	return nil
 }
 
+func (s *postgresStore) lastGlobalSequenceNumber() (uint64, error) {
+	var lastGlobalSequenceNumber uint64
+
+	query := `SELECT COALESCE(MAX(GlobalSequenceNumber), 0) FROM record`
+	err := s.db.QueryRow(query).Scan(&lastGlobalSequenceNumber)
+	if pqErr, ok := err.(*pq.Error); ok && pqErr.Code.Name() == "undefined_table" {
+		return 0, nil
+	}
+
+	return lastGlobalSequenceNumber, err
+}
+
 // PostgresJsonRecord holds a JSON record sent via pg_notify.
 type PostgresJsonRecord struct {
 	StreamName           string `json:"streamname"`
@@ -747,16 +764,27 @@ type PostgresJsonRecord struct {
 	Metadata             string `json:"metadata"`
 }
 
-func (s *postgresStore) listen(listener *pq.Listener) {
+func (s *postgresStore) listen(listener *pq.Listener, lastGlobalSequenceNumber uint64) {
 	for {
 		select {
 		case n := <-listener.Notify:
+			if n == nil {
+				// Notifications may have been lost while the connection was down.
+				lastGlobalSequenceNumber = s.publishRecordsAfter(lastGlobalSequenceNumber)
+				continue
+			}
+
 			record, err := s.decodeNotification(n.Extra)
 			if err != nil {
 				log.Print(err)
 				continue
 			}
 
+			if record.GlobalSequenceNumber <= lastGlobalSequenceNumber {
+				continue
+			}
+
+			lastGlobalSequenceNumber = record.GlobalSequenceNumber
 			s.broadcaster.Accept(record)
 
 		case <-time.After(90 * time.Second):
@@ -770,6 +798,20 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	}
 }
 
+func (s *postgresStore) publishRecordsAfter(lastGlobalSequenceNumber uint64) uint64 {
+	iter := s.Events(context.Background(), lastGlobalSequenceNumber+1)
+	for iter.Next() {
+		lastGlobalSequenceNumber = iter.Record().GlobalSequenceNumber
+		s.broadcaster.Accept(iter.Record())
+	}
+
+	if iter.Err() != nil {
+		log.Printf("unable to read missed records: %v", iter.Err())
+	}
+
+	return lastGlobalSequenceNumber
+}
+
 func (s *postgresStore) decodeNotification(payload string) (*rangedb.Record, error) {
 	var jsonRecord PostgresJsonRecord
 	err := json.Unmarshal([]byte(payload), &jsonRecord)
-- 
2.43.0


From 3c5d8550d0acd57f7678bcc959809dc72eab1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 68/77] fix: close the notification connection together with
 the PostgreSQL store

---
 provider/postgresstore/postgres_store.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 54a9bc3..8a0c1a7 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -60,6 +60,7 @@ type postgresStore struct {
 	pgNotifyIsEnabled bool
 
 	publishMux sync.Mutex
+	listener   *pq.Listener
 }
 
 // Option defines functional option parameters for postgresStore.
@@ -117,6 +118,10 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 
 // CloseDB closes the postgres DB connection.
 func (s *postgresStore) CloseDB() error {
+	if s.listener != nil {
+		_ = s.listener.Close()
+	}
+
 	return s.db.Close()
 }
 
@@ -733,6 +738,7 @@ func (s *postgresStore) startPQListener() error {
 		return err
 	}
 
+	s.listener = listener
 	go s.listen(listener, lastGlobalSequenceNumber)
 
 	return nil
@@ -767,7 +773,11 @@ type PostgresJsonRecord struct {
 func (s *postgresStore) listen(listener *pq.Listener, lastGlobalSequenceNumber uint64) {
 	for {
 		select {
-		case n := <-listener.Notify:
+		case n, ok := <-listener.Notify:
+			if !ok {
+				return
+			}
+
 			if n == nil {
 				// Notifications may have been lost while the connection was down.
 				lastGlobalSequenceNumber = s.publishRecordsAfter(lastGlobalSequenceNumber)
-- 
2.43.0


From c8f5ba4e69cc066aa7a14195a275e593fd3a62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:29 +0000
Subject: [PATCH 69/77] fix: decode saved events before they are committed to
 PostgreSQL

---
 provider/postgresstore/postgres_store.go | 32 ++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 8a0c1a7..2b884a2 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -301,6 +301,15 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 		return 0, err
 	}
 
+	var records []*rangedb.Record
+	if !s.pgNotifyIsEnabled {
+		records, err = s.recordsFromSaveResults(saveResult)
+		if err != nil {
+			_ = transaction.Rollback()
+			return 0, err
+		}
+	}
+
 	s.publishMux.Lock()
 	defer s.publishMux.Unlock()
 
@@ -309,11 +318,8 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 		return 0, err
 	}
 
-	if !s.pgNotifyIsEnabled {
-		err = s.batchNotifySubscribers(saveResult)
-		if err != nil {
-			return 0, err
-		}
+	for _, record := range records {
+		s.broadcaster.Accept(record)
 	}
 
 	return saveResult.LastStreamSequenceNumber, nil
@@ -404,7 +410,9 @@ func (s *postgresStore) validateStreamSequenceNumber(ctx context.Context, querya
 	return streamSequenceNumber, nil
 }
 
-func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
+func (s *postgresStore) recordsFromSaveResults(saveResult *saveResults) ([]*rangedb.Record, error) {
+	var records []*rangedb.Record
+
 	for i, batchRecord := range saveResult.BatchRecords {
 		record := &rangedb.Record{
 			StreamName:           batchRecord.StreamName,
@@ -425,20 +433,20 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			s.serializer,
 		)
 		if err != nil {
-			return fmt.Errorf("unable to decode data: %v", err)
+			return nil, fmt.Errorf("unable to decode data: %v", err)
 		}
 
 		metadata, err := decodeMetadata(batchRecord.Metadata)
 		if err != nil {
-			return fmt.Errorf("unable to unmarshal metadata: %v", err)
+			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
 
 		record.Data = deSerializedData
 		record.Metadata = metadata
-		s.broadcaster.Accept(record)
+		records = append(records, record)
 	}
 
-	return nil
+	return records, nil
 }
 
 func (s *postgresStore) eventRecordsToBatchRecords(eventRecords []*rangedb.EventRecord, streamName string, streamSequenceNumber uint64) ([]*batchSQLRecord, error) {
@@ -534,6 +542,10 @@ func (s *postgresStore) batchInsert(ctx context.Context, transaction dbQueryable
 
 			globalSequenceNumbers = append(globalSequenceNumbers, globalSequenceNumber)
 		}
+
+		if rows.Err() != nil {
+			return nil, 0, fmt.Errorf("unable to get global sequence number: %v", rows.Err())
+		}
 	}
 
 	return globalSequenceNumbers, lastStreamSequenceNumber, nil
-- 
2.43.0


From d5b7478788761d3de0fc663aeae3a05f4f7f53df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:58 +0000
Subject: [PATCH 70/77] fix: delete the keys of more than one subject from
 PostgreSQL

---
 pkg/crypto/provider/postgreskeystore/postgres_keystore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index 41b5521..7b4b9dd 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -87,8 +87,10 @@ func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
 }
 
 func (p *postgresKeyStore) Delete(subjectID string) error {
-	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = '' WHERE SubjectID = $2",
+	// EncryptionKey is unique, also among deleted subjects.
+	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = $2 WHERE SubjectID = $3",
 		time.Now().Unix(),
+		"deleted:"+subjectID,
 		subjectID)
 	if err != nil {
 		return err
-- 
2.43.0


From db6fa5c5c7897efffe842016f8595159e5be4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:51 +0000
Subject: [PATCH 71/77] fix: remember the deletion of keys that PostgreSQL does
 not have

---
 pkg/crypto/provider/postgreskeystore/postgres_keystore.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index 7b4b9dd..6b6e0de 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -88,10 +88,12 @@ func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
 
 func (p *postgresKeyStore) Delete(subjectID string) error {
 	// EncryptionKey is unique, also among deleted subjects.
-	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = $2 WHERE SubjectID = $3",
-		time.Now().Unix(),
+	_, err := p.db.Exec(`INSERT INTO vault (SubjectID, EncryptionKey, DeletedAtTimestamp) VALUES ($1, $2, $3)
+		ON CONFLICT (SubjectID) DO UPDATE
+		SET EncryptionKey = EXCLUDED.EncryptionKey, DeletedAtTimestamp = EXCLUDED.DeletedAtTimestamp`,
+		subjectID,
 		"deleted:"+subjectID,
-		subjectID)
+		time.Now().Unix())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 477d148c7b29940d2645b388cf1c178ab5b8e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 72/77] fix: failed serialization leaves a gap in the in-memory
 store's global sequence

---
 provider/inmemorystore/inmemory_store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index dafc603..c8265b0 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -334,8 +334,7 @@ func (s *inMemoryStore) saveEvent(
 		}
 	}
 
-	s.globalSequenceNumber++
-	globalSequenceNumber := s.globalSequenceNumber
+	globalSequenceNumber := s.globalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -355,6 +354,7 @@ func (s *inMemoryStore) saveEvent(
 		return nil, nil, err
 	}
 
+	s.globalSequenceNumber = globalSequenceNumber
 	s.records = append(s.records, globalSequenceNumber)
 	s.recordData[globalSequenceNumber] = data
 	s.streams[streamName] = append(s.streams[streamName], globalSequenceNumber)
-- 
2.43.0


From e9f6555d889dfd7554f5213ef8a32c1352ae1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:52 +0000
Subject: [PATCH 73/77] fix: start live pages from a consistent total

---
 pkg/rangedbui/ui.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 3d0a7d1..6df82f1 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -340,8 +340,7 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 
 	// keepAlive(conn, 1*time.Minute)
 
-	latestGlobalSequenceNumber := a.aggregateTypeStats.LatestGlobalSequenceNumber()
-	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
+	latestGlobalSequenceNumber, totalRecords := a.latestTotalEvents(aggregateTypeName)
 	ctx, cancel := context.WithCancel(r.Context())
 
 	recordSubscriber := rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
@@ -376,6 +375,18 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 	_, _, _ = conn.ReadMessage()
 }
 
+// latestTotalEvents returns the latest global sequence number, and the total number of events up to it.
+func (a *webUI) latestTotalEvents(aggregateTypeName string) (uint64, uint64) {
+	for {
+		latestGlobalSequenceNumber := a.aggregateTypeStats.LatestGlobalSequenceNumber()
+		totalEvents := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
+
+		if a.aggregateTypeStats.LatestGlobalSequenceNumber() == latestGlobalSequenceNumber {
+			return latestGlobalSequenceNumber, totalEvents
+		}
+	}
+}
+
 func (a *webUI) realtimeAggregateTypes(w http.ResponseWriter, r *http.Request) {
 	conn, err := a.upgrader.Upgrade(w, r, nil)
 	if err != nil {
-- 
2.43.0


From d37cdd071b10c27435709ecd7e31fcbbf9fbff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:07 +0000
Subject: [PATCH 74/77] fix: resume after the last event in the gRPC event
 subscriber

---
 cmd/grpc-event-subscriber/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grpc-event-subscriber/main.go b/cmd/grpc-event-subscriber/main.go
index fb6da0c..0c73277 100644
--- a/cmd/grpc-event-subscriber/main.go
+++ b/cmd/grpc-event-subscriber/main.go
@@ -104,7 +104,7 @@ func (s *grpcEventSubscriber) connectAndListen(ctx context.Context) {
 			log.Printf("error received: %v", err)
 			return
 		}
-		s.globalSequenceNumber = record.GlobalSequenceNumber
+		s.globalSequenceNumber = record.GlobalSequenceNumber + 1
 		fmt.Println(record)
 	}
 }
-- 
2.43.0


From f63104e4f19a5162d2c348177e4a60bbfff18148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:07 +0000
Subject: [PATCH 75/77] fix: escape aggregate types in the API's links

---
 pkg/rangedbapi/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index fe7494f..198f53f 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -326,7 +326,7 @@ func (a *api) listAggregateTypes(w http.ResponseWriter, _ *http.Request) {
 			"name":        aggregateType,
 			"totalEvents": a.projections.aggregateTypeStats.TotalEventsByAggregateType(aggregateType),
 			"links": map[string]interface{}{
-				"self": fmt.Sprintf("%s/events-by-aggregate-type/%s.json", a.baseUri, aggregateType),
+				"self": fmt.Sprintf("%s/events-by-aggregate-type/%s.json", a.baseUri, url.PathEscape(aggregateType)),
 			},
 		})
 	}
-- 
2.43.0


From 4aaad99e4d32e324d937037c43fcc992cf2c2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:33 +0000
Subject: [PATCH 76/77] fix: route escaped paths unchanged in the server
 program

---
 cmd/rangedb/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 43d2a07..90078b5 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"time"
 
+	"github.com/gorilla/mux"
 	"google.golang.org/grpc"
 
 	"github.com/inklabs/rangedb"
@@ -111,15 +112,15 @@ func main() {
 		rangedbUIOptions...,
 	)
 
-	muxServer := http.NewServeMux()
-	muxServer.Handle("/", ui)
-	muxServer.Handle("/api/", http.StripPrefix("/api", api))
-	muxServer.Handle("/ws/", http.StripPrefix("/ws", websocketAPI))
+	router := mux.NewRouter().SkipClean(true).UseEncodedPath()
+	router.PathPrefix("/api/").Handler(http.StripPrefix("/api", api))
+	router.PathPrefix("/ws/").Handler(http.StripPrefix("/ws", websocketAPI))
+	router.PathPrefix("/").Handler(ui)
 
 	httpServer := &http.Server{
 		ReadTimeout:  httpTimeout + time.Second,
 		WriteTimeout: httpTimeout + time.Second,
-		Handler:      muxServer,
+		Handler:      router,
 	}
 
 	gRPCServer := grpc.NewServer()
-- 
2.43.0


From 84e233f5e1f437cb178bad48ebdd00befc9276f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:48 +0000
Subject: [PATCH 77/77] fix: close the store before the server program ends

---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 90078b5..72a428e 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -207,7 +207,7 @@ func nilFunc() error {
 func serveHTTP(srv *http.Server, listener net.Listener) {
 	fmt.Printf("Listening: http://%s\n", listener.Addr().String())
 	err := srv.Serve(listener)
-	if err != nil {
+	if err != nil && err != http.ErrServerClosed {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0

