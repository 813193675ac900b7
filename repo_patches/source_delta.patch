From 89482af65f7c28028afa6905ced986d9573b8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:16 +0000
Subject: [PATCH 01/26] fix: make Pool.Stop wait for workers that have not
 started yet

Each worker registered itself with the wait group from inside its own
goroutine. Stop could run before that happened and return while accepted
functions were still queued. Register the worker before starting it.
---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From 3a4be80159bc559fe1c9b0f9bc0f126bf7feed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:55 +0000
Subject: [PATCH 02/26] fix: make ImmutableAvlTree handles safe for concurrent
 use

The README promises that the immutable tree is thread safe. Concurrent
Put and Remove calls on one handle read and wrote the root field without
synchronisation, so updates were lost. Guard the field and retry an
update when another one was installed first.
---
 tree/avl/imm_avltree.go | 60 +++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 9616bc4..955923b 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -1,5 +1,9 @@
 package avl
 
+import (
+	"sync"
+)
+
 import (
 	"github.com/timtadh/data-structures/errors"
 	"github.com/timtadh/data-structures/tree"
@@ -7,6 +11,7 @@ import (
 )
 
 type ImmutableAvlTree struct {
+	mu   sync.RWMutex // guards root
 	root *ImmutableAvlNode
 }
 
@@ -14,38 +19,65 @@ func NewImmutableAvlTree() *ImmutableAvlTree {
 	return &ImmutableAvlTree{}
 }
 
+// current returns the current version of the tree.
+func (self *ImmutableAvlTree) current() *ImmutableAvlNode {
+	self.mu.RLock()
+	defer self.mu.RUnlock()
+	return self.root
+}
+
+// replace installs new_root if old_root is still the current version.
+func (self *ImmutableAvlTree) replace(old_root, new_root *ImmutableAvlNode) bool {
+	self.mu.Lock()
+	defer self.mu.Unlock()
+	if self.root != old_root {
+		return false
+	}
+	self.root = new_root
+	return true
+}
+
 func (self *ImmutableAvlTree) Root() types.TreeNode {
-	return self.root.Copy()
+	return self.current().Copy()
 }
 
 func (self *ImmutableAvlTree) Size() int {
-	return self.root.Size()
+	return self.current().Size()
 }
 
 func (self *ImmutableAvlTree) Has(key types.Hashable) bool {
-	return self.root.Has(key)
+	return self.current().Has(key)
 }
 
 func (self *ImmutableAvlTree) Put(key types.Hashable, value interface{}) (err error) {
-	self.root, _ = self.root.Put(key, value)
-	return nil
+	for {
+		root := self.current()
+		new_root, _ := root.Put(key, value)
+		if self.replace(root, new_root) {
+			return nil
+		}
+	}
 }
 
 func (self *ImmutableAvlTree) Get(key types.Hashable) (value interface{}, err error) {
-	return self.root.Get(key)
+	return self.current().Get(key)
 }
 
 func (self *ImmutableAvlTree) Remove(key types.Hashable) (value interface{}, err error) {
-	new_root, value, err := self.root.Remove(key)
-	if err != nil {
-		return nil, err
+	for {
+		root := self.current()
+		new_root, value, err := root.Remove(key)
+		if err != nil {
+			return nil, err
+		}
+		if self.replace(root, new_root) {
+			return value, nil
+		}
 	}
-	self.root = new_root
-	return value, nil
 }
 
 func (self *ImmutableAvlTree) Iterate() types.KVIterator {
-	return self.root.Iterate()
+	return self.current().Iterate()
 }
 
 func (self *ImmutableAvlTree) Items() (vi types.KIterator) {
@@ -53,11 +85,11 @@ func (self *ImmutableAvlTree) Items() (vi types.KIterator) {
 }
 
 func (self *ImmutableAvlTree) Values() types.Iterator {
-	return self.root.Values()
+	return self.current().Values()
 }
 
 func (self *ImmutableAvlTree) Keys() types.KIterator {
-	return self.root.Keys()
+	return self.current().Keys()
 }
 
 type ImmutableAvlNode struct {
-- 
2.43.0


From 8a95e81ba5e41994bae6dfa1b7b87acf6c3e903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:51 +0000
Subject: [PATCH 03/26] fix: run all finally functions and return what they
 throw

An exception thrown by a finally function skipped the remaining finally
functions of the block and panicked out of Error and Exception instead of
being returned.
---
 exc/block.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index 6543f4f..dfc078a 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -144,7 +144,9 @@ func (b *Block) run() Throwable {
 		}
 	}
 	for _, finally := range b.finallies {
-		finally()
+		if e := Try(finally).exec(); e != nil {
+			err = e
+		}
 	}
 	return err
 }
-- 
2.43.0


From c82f433074ee95b7ee680db0e2d92679306f160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:51 +0000
Subject: [PATCH 04/26] fix: give every execution of a Close block its own
 resource

The resource was shared by all executions of the block. If opening failed
on a later execution the resource of the previous one was closed again,
and concurrent executions closed each other's resources.
---
 exc/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index dfc078a..33ea462 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -46,8 +46,8 @@ func Try(try func()) *Block {
 // returned. There are also ways to deal with that situation using an outer
 // Try/Finally.
 func Close(makeCloser func() io.Closer, try func(io.Closer)) *Block {
-	var c io.Closer = nil
 	return Try(func() {
+		var c io.Closer = nil
 		Try(func() {
 			c = makeCloser()
 			try(c)
-- 
2.43.0


From 47884104124d7ead001f84e823d1f41971936275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 05/26] fix: allocate the byte written by Int8 and UInt8
 MarshalBinary

Both methods wrote to index 0 of an empty slice and always panicked.
---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From 71709b066e4c8e82977c77bcfa21c855dced9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 06/26] fix: marshal Int and UInt without losing bits

Only the low 32 bits were written. Negative and large values came back as
different numbers. Write 8 bytes and still accept the old 4 byte form.
---
 types/int.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..127363d 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,20 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	switch len(data) {
+	case 8:
+		*self = Int(binary.BigEndian.Uint64(data))
+	case 4: // written by earlier versions
+		*self = Int(binary.BigEndian.Uint32(data))
+	default:
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
 	return nil
 }
 
@@ -326,16 +330,20 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	switch len(data) {
+	case 8:
+		*self = UInt(binary.BigEndian.Uint64(data))
+	case 4: // written by earlier versions
+		*self = UInt(binary.BigEndian.Uint32(data))
+	default:
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
 	return nil
 }
 
-- 
2.43.0


From b20464d9fc2e30d94a0820f2503230aeda202fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:14 +0000
Subject: [PATCH 07/26] fix: copy the data when unmarshalling a ByteSlice

The decoded item kept a reference to the input buffer and changed when the
caller reused that buffer.
---
 types/string.go | 2 +-
 types/util.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..7fe31ec 100644
--- a/types/string.go
+++ b/types/string.go
@@ -44,7 +44,7 @@ func (self *ByteSlice) MarshalBinary() ([]byte, error) {
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..823ff6a 100644
--- a/types/util.go
+++ b/types/util.go
@@ -318,7 +318,7 @@ func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 		return []byte(item.(ByteSlice)), nil
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		return append(ByteSlice{}, bytes...), nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From b55916fdc87844e1ce89b8c85dc4e3e57671fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:15 +0000
Subject: [PATCH 08/26] fix: return an error when unmarshalling a truncated
 list

Decoding indexed past the end of the data and panicked, trusted the
stored capacity and ignored items that did not fit.
---
 list/array_list.go | 16 +++++++++++++++-
 list/sorted.go     |  3 +++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..1633787 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -56,22 +56,36 @@ func (m *MList) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MList) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 9 {
+		return errors.Errorf("data too short")
+	}
 	m.List.fixed = bytes[0] == 1
 	_cap := int(binary.LittleEndian.Uint32(bytes[1:5]))
 	size := int(binary.LittleEndian.Uint32(bytes[5:9]))
 	off := 9
+	if max := (len(bytes) - off) / 4; !m.List.fixed && _cap > max {
+		_cap = max // an item takes at least 4 bytes
+	}
 	m.list = make([]types.Hashable, 0, _cap)
 	for i := 0; i < size; i++ {
 		s := off
 		e := off + 4
+		if e > len(bytes) {
+			return errors.Errorf("data too short")
+		}
 		size := int(binary.LittleEndian.Uint32(bytes[s:e]))
 		s = e
 		e = s + size
+		if e < s || e > len(bytes) {
+			return errors.Errorf("data too short")
+		}
 		item, err := m.UnmarshalItem(bytes[s:e])
 		if err != nil {
 			return err
 		}
-		m.Append(item)
+		if err := m.Append(item); err != nil {
+			return err
+		}
 		off = e
 	}
 	return nil
diff --git a/list/sorted.go b/list/sorted.go
index 5e7c862..cce77e2 100644
--- a/list/sorted.go
+++ b/list/sorted.go
@@ -41,6 +41,9 @@ func (m *MSorted) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MSorted) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 1 {
+		return errors.Errorf("data too short")
+	}
 	allowDups := bytes[0]
 	if allowDups == 0 {
 		m.AllowDups = false
-- 
2.43.0


From 27927c679c194b6dfed2ce3bcab54ed45006d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:54 +0000
Subject: [PATCH 09/26] fix: keep the AVL tree whole when a removal fails

Removing an absent key may rebalance nodes in place. The tree kept its
old root in that case, which no longer leads to all nodes.
---
 tree/avl/avltree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..279c9c0 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -50,11 +50,10 @@ func (self *AvlTree) Get(key types.Hashable) (value interface{}, err error) {
 }
 
 func (self *AvlTree) Remove(key types.Hashable) (value interface{}, err error) {
-	new_root, value, err := self.root.Remove(key)
+	self.root, value, err = self.root.Remove(key)
 	if err != nil {
 		return nil, err
 	}
-	self.root = new_root
 	return value, nil
 }
 
-- 
2.43.0


From 55138adf4923dbade52e610aba0a1d876cf53f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:54 +0000
Subject: [PATCH 10/26] fix: hash table bucket of a key with the smallest int
 as hash

The absolute value of the smallest int is negative, so such a key made
every operation panic. Take the remainder first.
---
 hashtable/hashtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..46d6a20 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -65,7 +65,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return abs(key.Hash() % len(self.table))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From 97be59b920b5b9ceaba87e1b89e37c7533544e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:54 +0000
Subject: [PATCH 11/26] fix: hash table with initial size zero

It divided by zero on the first operation.
---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 46d6a20..8bb6826 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size == 0 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From a21bd89c78456c495c4d0db322ae9a2cd3288013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:54 +0000
Subject: [PATCH 12/26] fix: pre- and post-order traversal of an empty tree

They dereferenced the nil root instead of ending at once.
---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From 2229155c70dc0681339290837da49e4a8877dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:23 +0000
Subject: [PATCH 13/26] fix: keep B+ tree ranges within their bounds

A range starting above the greatest key yielded that key, so Find and
Replace of an absent key could hit another one. A descending range from
an absent key yielded the next greater key, and one over an empty tree
panicked.
---
 tree/bptree/bptree_node.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..c77d33a 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -645,9 +645,13 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
-	end := false
+	// get_start gives the last key when from is greater than all of them
+	end := len(l.keys) == 0 || l.keys[j].Less(from)
 	j--
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
+		if end {
+			return -1, nil, nil
+		}
 		j, l, end = next_location(j, l)
 		if end || to.Less(l.keys[j]) {
 			return -1, nil, nil
@@ -658,8 +662,16 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 }
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
-	j, l := self.get_end(from)
-	end := false
+	var j int
+	var l *BpNode
+	end := len(self.keys) == 0
+	if !end {
+		j, l = self.get_end(from)
+		// get_end gives the next greater key when there is no key equal to from
+		if from.Less(l.keys[j]) {
+			j, l, end = prev_location(j, l)
+		}
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From a4ab7816ba3dd93a5b3e6363e79ec38b597a7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:23 +0000
Subject: [PATCH 14/26] fix: Get and Remove on an empty B+ tree map

They panicked instead of reporting that the key was not found.
---
 tree/bptree/bpmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..5fca5ea 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -39,6 +39,9 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 }
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
+	if len(self.root.keys) == 0 {
+		return nil, errors.NotFound(key)
+	}
 	j, l := self.root.get_start(key)
 	if l.keys[j].Equals(key) {
 		return l.values[j], nil
-- 
2.43.0


From 8bec368c3a457d7a9d7f0fa8a20cb0bfb08cf3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:38 +0000
Subject: [PATCH 15/26] fix: RemoveWhere of the B+ tree with duplicate keys

It skipped pairs while removing, lost the leaves after one it emptied in
a run of equal keys, panicked on an empty tree and always counted one
removed pair, even for an absent key. Leaves of a run could also be left
partly filled, so that a later Add put other keys among them.
---
 tree/bptree/bptree.go      | 11 +++++-
 tree/bptree/bptree_node.go | 75 +++++++++++++++++++-------------------
 2 files changed, 46 insertions(+), 40 deletions(-)

diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..b88fbc7 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,14 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	removed := 0
+	new_root, err := self.root.remove(key, func(value interface{}) bool {
+		matches := where(value)
+		if matches {
+			removed++
+		}
+		return matches
+	})
 	if err != nil {
 		return err
 	}
@@ -102,7 +109,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index c77d33a..e5ccae4 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -463,13 +463,13 @@ func (self *BpNode) put_pointer_at(i int, pointer *BpNode) error {
 
 func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if self.Internal() {
-		return self.internal_remove(key, nil, where)
+		return self.internal_remove(key, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, where)
 	}
 }
 
-func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) internal_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if !self.Internal() {
 		panic(errors.BpTreeError("Expected a internal node"))
 	}
@@ -479,21 +479,7 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 		// so we have to subtract one from the index.
 		i--
 	}
-	if i+1 < len(self.keys) {
-		sibling = self.pointers[i+1]
-	} else if sibling != nil {
-		sibling = sibling.left_most_leaf()
-	}
-	child := self.pointers[i]
-	if child.Internal() {
-		child, err = child.internal_remove(key, sibling, where)
-	} else {
-		if sibling == nil {
-			child, err = child.leaf_remove(key, nil, where)
-		} else {
-			child, err = child.leaf_remove(key, sibling.keys[0], where)
-		}
-	}
+	child, err := self.pointers[i].remove(key, where)
 	if err != nil {
 		return nil, err
 	}
@@ -514,34 +500,47 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 	return self, nil
 }
 
-func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+/* removes the matching pairs from this leaf and from the run of pure leaves
+ * following it. The remaining pairs are moved to the front of the run, as only
+ * a full leaf may be followed by others with the same key.
+ */
+func (self *BpNode) leaf_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if self.Internal() {
 		return nil, errors.BpTreeError("Expected a leaf node")
 	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
-			if err := l.remove_key_at(j); err != nil {
-				return nil, err
-			}
-			if err := l.remove_value_at(j); err != nil {
-				return nil, err
+	var keys []types.Hashable
+	var values []interface{}
+	run := []*BpNode{self}
+	if self.Pure() && self.has(key) {
+		end := self.find_end_of_pure_run()
+		for l := self; l != end; l = l.next {
+			run = append(run, l.next)
+		}
+	}
+	for _, l := range run {
+		for i, k := range l.keys {
+			if !k.Equals(key) || !where(l.values[i]) {
+				keys = append(keys, k)
+				values = append(values, l.values[i])
 			}
 		}
-		if len(l.keys) == 0 {
+	}
+	for _, l := range run {
+		n := len(keys)
+		if n > cap(l.keys) {
+			n = cap(l.keys)
+		}
+		l.keys = append(l.keys[:0], keys[:n]...)
+		l.values = append(l.values[:0], values[:n]...)
+		keys, values = keys[n:], values[n:]
+		if n == 0 {
 			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
-			}
 		}
 	}
-	return a, nil
+	if len(self.keys) == 0 {
+		return nil, nil
+	}
+	return self, nil
 }
 
 func (self *BpNode) remove_key_at(i int) error {
-- 
2.43.0


From bec3aa2691e4ee2db79a52b37b9f557edc25b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:38 +0000
Subject: [PATCH 16/26] fix: iterate the B+ tree backwards from its very last
 leaf

When the greatest key had more duplicates than fit one leaf, Backward
skipped those in the leaves that only the leaf list leads to.
---
 tree/bptree/bptree_node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index e5ccae4..b8f47dc 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -627,6 +627,10 @@ func (self *BpNode) all() (li loc_iterator) {
 
 func (self *BpNode) all_backward() (li loc_iterator) {
 	l := self.right_most_leaf()
+	for l.next != nil {
+		// the last leaf may be followed by others with the same key
+		l = l.next
+	}
 	j := len(l.keys)
 	end := false
 	j, l, end = prev_location(j, l)
-- 
2.43.0


From bf5b4c622bad7448560a1d13440826dc53f6b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:29 +0000
Subject: [PATCH 17/26] fix: PrefixFind with a prefix longer than the only
 candidate key

It sliced the key beyond its end, which panicked or compared the end
marker and spare memory with the prefix.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..87756fc 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -170,7 +170,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && len(prefix) < len(next.n.key) && next.n.key[:len(prefix)].Equals(prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From 9a05da6813fb67d8592872c1d097f9d0609e1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:29 +0000
Subject: [PATCH 18/26] fix: drop the head of a trie branch when its last key
 is removed

The empty internal node left behind made every later Put of a key with
the same first byte fail.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 87756fc..7b312fc 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -136,7 +136,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b1d215771e608c61f8effe27480b8d7cd6c7ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:29 +0000
Subject: [PATCH 19/26] fix: do not write to or keep the memory of keys passed
 to the trie

Appending the end marker wrote beyond the end of the key into the
caller's array when it had room, and Put then stored that array.
---
 trie/tst.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index 7b312fc..31abc58 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -34,11 +34,19 @@ func (self *TST) ValidateKey(key []byte) error {
 	return nil
 }
 
+// make_symbol copies the key, which belongs to the caller, and terminates it
+func make_symbol(key []byte) ByteSlice {
+	symbol := make(ByteSlice, len(key)+1)
+	copy(symbol, key)
+	symbol[len(key)] = END
+	return symbol
+}
+
 func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := make_symbol(key)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +70,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := make_symbol(key)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +98,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := make_symbol(key)
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e3e959aafee67d3e409724da1a9813372bd96f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:29 +0000
Subject: [PATCH 20/26] fix: do not hand out the trie's end markers with the
 keys

Appending to a key got from an iterator overwrote the end marker of the
stored key, which made it unfindable.
---
 trie/tst.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index 31abc58..85d5499 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -201,7 +201,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
@@ -229,7 +229,7 @@ func (self *TST) Iterate() KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
-- 
2.43.0


From 22ab12066a3fce71f7c4179ea2dbd3b9d2ff4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:16 +0000
Subject: [PATCH 21/26] fix: put back a removed trie key that is a prefix of
 others

The node for its end marker stays when longer keys hang off it, but its
leaf is gone, so Put dereferenced nil.
---
 trie/tst_node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..315be11 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -168,7 +168,9 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			}
 			n.l = l
 		} else if ch == n.ch {
-			if d+1 == len(key) && ch == END {
+			if d+1 == len(key) && ch == END && n.m == nil {
+				n.m = NewAcceptingTSTNode(ch, key, val)
+			} else if d+1 == len(key) && ch == END {
 				n.m = n.m.Copy()
 				n.m.value = val
 			} else {
-- 
2.43.0


From 02b2e657ec311215b60f860b18287b850416b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:30 +0000
Subject: [PATCH 22/26] fix: equal hash codes for empty sequences of different
 kinds

An empty array list hashed to zero, an empty linked list did not, though
the two are Equal.
---
 list/array_list.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/list/array_list.go b/list/array_list.go
index 1633787..b263b86 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -263,7 +263,11 @@ func (l *List) Hash() int {
 func Hash(a types.ListIterable) int {
 	h := fnv.New32a()
 	bs := make([]byte, 4)
-	for item, next := a.Items()(); next != nil; item, next = next() {
+	item, next := a.Items()()
+	if next == nil {
+		return 0
+	}
+	for ; next != nil; item, next = next() {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
 		h.Write(bs)
 	}
-- 
2.43.0


From 26803ae98d72d07dec0092606459a1bb7800f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:30 +0000
Subject: [PATCH 23/26] fix: Pop of an empty unique priority queue

It panicked; the plain queues return nil.
---
 heap/unique.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..dd776b9 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,7 +48,10 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
-	item := u.pq.Pop().(types.Hashable)
+	item, ok := u.pq.Pop().(types.Hashable)
+	if !ok {
+		return nil
+	}
 	u.set.Delete(item)
 	return item
 }
-- 
2.43.0


From 76a150da66de99cc09ee2be1e44b99390b81ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:50 +0000
Subject: [PATCH 24/26] fix: let MapSet.Put replace the value of a present key

Like the other maps. It left the old value, because adding to the
underlying set ignores items that are present.
---
 set/mapset.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..2fe67e6 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,6 +84,11 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
+	if m.Has(key) {
+		if err := m.Delete(key); err != nil {
+			return err
+		}
+	}
 	return m.Add(&types.MapEntry{key, value})
 }
 
-- 
2.43.0


From 50f4c08122af5ff09e35bd69e57782e894a105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:21 +0000
Subject: [PATCH 25/26] fix: in-order traversal of trees whose absent children
 are nil pointers

---
 tree/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 56c6eff..365e04d 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -34,11 +34,11 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 		if len(stack) > 0 || cur != nil {
 			for cur != nil {
 				stack = append(stack, cur)
-				cur = cur.(types.BinaryTreeNode).Left()
+				cur = tn_expose_nil(cur.(types.BinaryTreeNode).Left())
 			}
 			stack, cur = pop(stack)
 			tn = cur
-			cur = cur.(types.BinaryTreeNode).Right()
+			cur = tn_expose_nil(cur.(types.BinaryTreeNode).Right())
 			return tn, tn_iterator
 		} else {
 			return nil, nil
-- 
2.43.0


From bd39eff4a0fd502fec713092da7916b41949ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:21 +0000
Subject: [PATCH 26/26] fix: nil check of tree nodes that are not pointers

---
 types/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types/util.go b/types/util.go
index 823ff6a..345986c 100644
--- a/types/util.go
+++ b/types/util.go
@@ -5,7 +5,14 @@ import (
 )
 
 func IsNil(object interface{}) bool {
-	return object == nil || reflect.ValueOf(object).IsNil()
+	if object == nil {
+		return true
+	}
+	switch v := reflect.ValueOf(object); v.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+		return v.IsNil()
+	}
+	return false
 }
 
 func MakeKVIteratorFromTreeNodeIterator(tni TreeNodeIterator) KVIterator {
-- 
2.43.0

