From 398950124da2f80d708000f1856bc2decb7c985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:31 +0000
Subject: [PATCH 01/61] fix: mbt: Add after 7 leaves built a tree different
 from NewMerkleBinaryTree

---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


From 67404b85a79f2400b9b6bd5eaa5b50cb77fb1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:52 +0000
Subject: [PATCH 02/61] fix: mta: witness and node requests outside the covered
 range returned data of another item

---
 common/mta/accumulator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..9ea5133 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -371,6 +371,9 @@ func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
 }
 
 func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness, err error) {
+	if idx >= accLength || accLength > a.length {
+		return nil, errors.ErrNotFound
+	}
 	if w, err = a.WitnessFor(idx); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 13838db54f9903f18d9b920ca937eb768fb70b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:58 +0000
Subject: [PATCH 03/61] fix: mta: newer witness checked at a length with a zero
 bit used the wrong root

---
 common/mta/accumulator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 9ea5133..a55a0f4 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -431,6 +431,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		// acc: old, wit: new
 		depth := 0
 		for i := len(a.roots) - 1; i > 0; i-- {
+			if a.roots[i] == nil {
+				continue
+			}
 			bitFlag := int64(1) << uint(i)
 			if height < bitFlag {
 				depth = i
-- 
2.43.0


From 30eaa5e971063292a3aa16230ada12d4f21a5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 04/61] fix: mta: malformed witness crashed
 VerifyWithAccLength; negative GetNode index

---
 common/mta/accumulator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index a55a0f4..7a270b6 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -423,6 +423,9 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too long")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
@@ -441,12 +444,15 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 			}
 			height -= bitFlag
 		}
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too short")
+		}
 		return a.Verify(ws[:depth], h)
 	}
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From 09c3c2a2dab20388900c211a4fa9616a322846ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 05/61] fix: db: badger Has missed keys with empty values; Get
 dereferenced nil on errors

---
 common/db/badger_db.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..256d6e6 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,6 +74,7 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
 		}
 		value, err = item.ValueCopy(nil)
 		return err
@@ -82,11 +83,12 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 }
 
 func (bucket *badgerBucket) Has(key []byte) bool {
-	value, err := bucket.Get(key)
-	if !(value != nil && err == nil) {
-		return false
-	}
-	return true
+	ikey := internalKey(bucket.id, key)
+	err := bucket.db.View(func(txn *badger.Txn) error {
+		_, err := txn.Get(ikey)
+		return err
+	})
+	return err == nil
 }
 
 func (bucket *badgerBucket) Set(key []byte, value []byte) error {
-- 
2.43.0


From db01507b047ab7bf4efe0da88e077ea3ecb44871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 06/61] fix: db: layer bucket handed out its own buffer, so
 callers could change pending writes

---
 common/db/layer_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/db/layer_db.go b/common/db/layer_db.go
index da137a5..843f160 100644
--- a/common/db/layer_db.go
+++ b/common/db/layer_db.go
@@ -18,7 +18,10 @@ func (bk *layerBucket) Get(key []byte) ([]byte, error) {
 
 	if bk.data != nil {
 		if value, ok := bk.data[string(key)]; ok {
-			return value, nil
+			if value == nil {
+				return nil, nil
+			}
+			return append([]byte{}, value...), nil
 		}
 	}
 	return bk.real.Get(key)
-- 
2.43.0


From ab2ce71dd8a55736f0e178620aa072b5cee64cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:42 +0000
Subject: [PATCH 07/61] fix: codec: RLP sizes beyond the input crashed or
 exhausted memory, truncated lists were accepted

A size of up to 8 bytes was converted to int unchecked and allocated before reading, so
malformed input panicked; a list shorter than its size was taken as complete.
---
 common/codec/rlp.go | 96 ++++++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 36 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..f890d2c 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -18,14 +18,26 @@ type rlpCodec struct {
 
 type rlpReader struct {
 	reader io.Reader
+	limit  *io.LimitedReader
 }
 
+const (
+	// maxSize is the largest item size which can be represented by int
+	maxSize = uint64(^uint(0) >> 1)
+	// maxPrealloc is the largest buffer allocated before having the data for it
+	maxPrealloc = 64 * 1024
+)
+
 func sizeToBytes(s int) []byte {
 	return intconv.SizeToBytes(uint64(s))
 }
 
-func bytesToSize(bs []byte) int {
-	return int(intconv.BytesToSize(bs))
+func bytesToSize(bs []byte) (int, error) {
+	size := intconv.BytesToSize(bs)
+	if size > maxSize {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%d)", size)
+	}
+	return int(size), nil
 }
 
 func (r *rlpReader) skipN(sz int) error {
@@ -42,7 +54,7 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	return bytesToSize(buffer)
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -55,6 +67,36 @@ func (r *rlpReader) readAll(buffer []byte) error {
 	return nil
 }
 
+// readN reads size bytes and returns them after the prefix.
+// The buffer grows with the data, so a wrong size doesn't exhaust the memory.
+func (r *rlpReader) readN(prefix []byte, size int) ([]byte, error) {
+	if size <= maxPrealloc {
+		buffer := make([]byte, len(prefix)+size)
+		copy(buffer, prefix)
+		if err := r.readAll(buffer[len(prefix):]); err != nil {
+			return nil, err
+		}
+		return buffer, nil
+	}
+	buffer := bytes.NewBuffer(nil)
+	buffer.Write(prefix)
+	if _, err := io.CopyN(buffer, r.reader, int64(size)); err != nil {
+		if err == io.EOF {
+			return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", size, err)
+		}
+		return nil, cerrors.WithStack(err)
+	}
+	return buffer.Bytes(), nil
+}
+
+func (r *rlpReader) newListReader(size int) *rlpReader {
+	limit := &io.LimitedReader{R: r.reader, N: int64(size)}
+	return &rlpReader{
+		reader: limit,
+		limit:  limit,
+	}
+}
+
 func (r *rlpReader) skipOne() error {
 	var header [9]byte
 	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
@@ -107,9 +149,7 @@ func (r *rlpReader) readList() (Reader, error) {
 		return nil, cerrors.Wrap(ErrInvalidFormat, "InvalidFormat(RLPBytes)")
 	case tag <= 0xF7:
 		size := tag - 0xC0
-		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(size)),
-		}, nil
+		return r.newListReader(size), nil
 	default:
 		sz := tag - 0xF7
 		sz2, err := r.readSize(header[1 : 1+sz])
@@ -119,9 +159,7 @@ func (r *rlpReader) readList() (Reader, error) {
 		if sz == 1 && sz2 == 0 {
 			return nil, ErrNilValue
 		}
-		return &rlpReader{
-			reader: io.LimitReader(r.reader, int64(sz2)),
-		}, nil
+		return r.newListReader(sz2), nil
 	}
 }
 
@@ -143,24 +181,14 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 	case tag < 0x80:
 		return []byte{header[0]}, nil
 	case tag <= 0xB7:
-		buffer := make([]byte, int(header[0])-0x80)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readN(nil, tag-0x80)
 	case tag < 0xC0:
 		sz := int(header[0]) - 0xB7
 		sz2, err := r.readSize(header[1 : 1+sz])
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readN(nil, sz2)
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -210,23 +238,19 @@ func (r *rlpReader) ReadValue(v reflect.Value) error {
 }
 
 func (r *rlpReader) Close() error {
-	_, err := io.Copy(ioutil.Discard, r.reader)
-	return err
+	if _, err := io.Copy(ioutil.Discard, r.reader); err != nil {
+		return err
+	}
+	if r.limit != nil && r.limit.N > 0 {
+		return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(missing=%d)", r.limit.N)
+	}
+	return nil
 }
 
 func (r *rlpReader) ReadBytes() ([]byte, error) {
 	return r.readBytes()
 }
 
-func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
-	buffer := make([]byte, len(org)+size)
-	copy(buffer, org)
-	if err := r.readAll(buffer[len(org):]); err != nil {
-		return nil, err
-	}
-	return buffer, nil
-}
-
 func (r *rlpReader) ReadRaw() ([]byte, error) {
 	var header [9]byte
 	if _, err := io.ReadFull(r.reader, header[0:1]); err != nil {
@@ -238,24 +262,24 @@ func (r *rlpReader) ReadRaw() ([]byte, error) {
 		return header[0:1], nil
 	case tag <= 0xB7:
 		size := tag - 0x80
-		return r.readMore(header[0:1], size)
+		return r.readN(header[0:1], size)
 	case tag < 0xC0:
 		sz := tag - 0xB7
 		sz2, err := r.readSize(header[1 : 1+sz])
 		if err != nil {
 			return nil, err
 		}
-		return r.readMore(header[0:1+sz], sz2)
+		return r.readN(header[0:1+sz], sz2)
 	case tag <= 0xF7:
 		sz := tag - 0xC0
-		return r.readMore(header[0:1], sz)
+		return r.readN(header[0:1], sz)
 	default:
 		sz := tag - 0xF7
 		sz2, err := r.readSize(header[1 : 1+sz])
 		if err != nil {
 			return nil, err
 		}
-		return r.readMore(header[0:1+sz], sz2)
+		return r.readN(header[0:1+sz], sz2)
 	}
 }
 
-- 
2.43.0


From a20c7c2d7dfb47391f055ff653f9b6e48784c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:04 +0000
Subject: [PATCH 08/61] fix: codec: RLP integers outside the target type were
 truncated or wrapped

---
 common/codec/rlp.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index f890d2c..49fdb6e 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -217,13 +217,23 @@ func (r *rlpReader) ReadValue(v reflect.Value) error {
 		if err != nil {
 			return err
 		}
-		v.SetUint(intconv.BytesToUint64(bs))
+		if len(bs) > 0 && (bs[0]&0x80) != 0 || len(bs) > 9 || (len(bs) == 9 && bs[0] != 0) {
+			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(value=%#x,type=%s)", bs, v.Type())
+		}
+		value := intconv.BytesToUint64(bs)
+		if v.OverflowUint(value) {
+			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(value=%#x,type=%s)", bs, v.Type())
+		}
+		v.SetUint(value)
 		return nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		bs, err := r.readBytes()
 		if err != nil {
 			return err
 		}
+		if len(bs) > 8 || v.OverflowInt(intconv.BytesToInt64(bs)) {
+			return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(value=%#x,type=%s)", bs, v.Type())
+		}
 		v.SetInt(intconv.BytesToInt64(bs))
 		return nil
 	case reflect.String:
-- 
2.43.0


From 70de005067bc574d9da6db04db5ec6bbe2462c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 09/61] fix: address: empty bytes crashed SetBytes; short and
 long forms were mixed with old bytes or truncated

---
 common/address.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..1176354 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) != AddressBytes {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
@@ -93,15 +93,14 @@ func (a *Address) SetBytes(b []byte) error {
 }
 
 func (a *Address) SetTypeAndID(ic bool, id []byte) error {
-	if id == nil {
+	if id == nil || len(id) > AddressIDBytes {
 		return errors.ErrIllegalArgument
 	}
-	switch {
-	case len(id) < AddressIDBytes:
-		copy(a[AddressIDBytes-len(id)+1:], id)
-	default:
-		copy(a[1:], id)
+	pad := AddressBytes - len(id)
+	for i := 1; i < pad; i++ {
+		a[i] = 0
 	}
+	copy(a[pad:], id)
 	if ic {
 		a[0] = 1
 	} else {
-- 
2.43.0


From 874c5d402c5b23aa4f72bd35b3d499187da93db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 10/61] fix: mpt: proof ending in an inner node crashed, nodes
 after a leaf were accepted unlinked

---
 common/mpt/mpt.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/common/mpt/mpt.go b/common/mpt/mpt.go
index 635d91f..8c657c8 100644
--- a/common/mpt/mpt.go
+++ b/common/mpt/mpt.go
@@ -39,6 +39,9 @@ func (n *MptNode) RLPDecodeSelf(d codec.Decoder) error {
 	}
 	switch len(bl) {
 	case 2:
+		if len(bl[0]) == 0 {
+			return fmt.Errorf("invalid header length %d", len(bl[0]))
+		}
 		n.Header = &MptHeader{bl[0][0], bl[0][1:]}
 		if n.Header.IsLeaf() {
 			n.Data = bl[1]
@@ -68,6 +71,9 @@ func (mp *MptProof) Leaf() *MptNode {
 }
 
 func NewMptProof(bl [][]byte) (*MptProof, error) {
+	if len(bl) == 0 {
+		return nil, fmt.Errorf("empty proof")
+	}
 	mp := &MptProof{
 		Nodes:  make([]MptNode, len(bl)),
 		Hashes: make([][]byte, len(bl)),
@@ -82,8 +88,16 @@ func NewMptProof(bl [][]byte) (*MptProof, error) {
 Loop:
 	for i := 0; i < len(bl); i++ {
 		mn := mp.Nodes[i]
+		if i == len(bl)-1 {
+			if (mn.Header != nil && !mn.Header.IsLeaf()) || (mn.Header == nil && len(mn.Data) == 0) {
+				return nil, fmt.Errorf("invalid node[%d], proof ends without value", i)
+			}
+			break
+		}
 		if mn.Header != nil {
-			if !mn.Header.IsLeaf() {
+			if mn.Header.IsLeaf() {
+				return nil, fmt.Errorf("invalid node[%d], node after leaf", i+1)
+			} else {
 				ml := mn.Link[0]
 				if !bytes.Equal(ml.Hash, mp.Hashes[i+1]) {
 					return nil, fmt.Errorf("invalid link[%d] hash[%d]", i, i+1)
-- 
2.43.0


From c423b5b91604e66a2db4b46543cb1fa49b6e26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 11/61] fix: crypto: ParseSignatureVRS crashed on every
 signature

---
 common/crypto/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
-- 
2.43.0


From 55fed7c79eb24ef547782d788d8658f821375d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 12/61] fix: icon client: malformed HexBytes and Address texts
 crashed Value

---
 chain/icon/client/type.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..f9f660a 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -294,6 +294,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if len(hs) < 2 || hs[:2] != "0x" {
+		return nil, fmt.Errorf("invalid prefix %s", string(hs))
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
@@ -327,6 +330,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
-- 
2.43.0


From 28f411701752773d2a38d84c649836c4fb7b7331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:47 +0000
Subject: [PATCH 13/61] fix: crypto: invalid keys were accepted and crashed
 later, recovery ignored high bits of V

---
 common/crypto/key.go       | 12 +++++++++++-
 common/crypto/signature.go |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 3a447f3..e0a603d 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -73,9 +73,16 @@ func ParsePublicKey(pubKey []byte) (*PublicKey, error) {
 	case 0:
 		return nil, errors.New("public key bytes are empty")
 	case PublicKeyLenCompressed:
+		if secp256k1.VerifyPubkey(pubKey) != 1 {
+			return nil, errors.New("invalid public key")
+		}
 		return &PublicKey{pubKey}, nil
 	case PublicKeyLenUncompressed:
-		return &PublicKey{uncompToCompPublicKey(pubKey)}, nil
+		comp := uncompToCompPublicKey(pubKey)
+		if secp256k1.VerifyPubkey(comp) != 1 || !bytes.Equal(secp256k1.UncompressPubkey(comp), pubKey) {
+			return nil, errors.New("invalid public key")
+		}
+		return &PublicKey{comp}, nil
 	default:
 		return nil, errors.New("wrong format")
 	}
@@ -133,6 +140,9 @@ func ParsePrivateKey(b []byte) (*PrivateKey, error) {
 	if len(b) != PrivateKeyLen {
 		return nil, errors.New("InvalidKeyLength")
 	}
+	if secp256k1.VerifySeckey(b) != 1 {
+		return nil, errors.New("InvalidKey")
+	}
 	b2 := make([]byte, len(b))
 	copy(b2, b)
 	return &PrivateKey{b2}, nil
diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 67ac376..78edc58 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -133,6 +133,9 @@ func (sig *Signature) RecoverPublicKey(hash []byte) (*PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	if s[SignatureLenRaw] >= 4 {
+		return nil, errors.New("signature has invalid V value")
+	}
 	return ParsePublicKey(secp256k1.RecoverPubkey(hash[:], s))
 }
 
-- 
2.43.0


From 937135e0d0b1043ef055f2863cb66038605fea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 14/61] fix: errors: CodeOf, CoderOf and AsValue crashed on nil
 or on an error wrapping nil

---
 common/errors/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/errors/errors.go b/common/errors/errors.go
index a0a8369..9c77319 100644
--- a/common/errors/errors.go
+++ b/common/errors/errors.go
@@ -314,7 +314,7 @@ func AsValue(ptr interface{}, err error) bool {
 	}
 	valueType := value.Type()
 
-	for {
+	for err != nil {
 		errValue := reflect.ValueOf(err)
 		if errValue.Type().AssignableTo(valueType) {
 			value.Set(errValue)
@@ -328,4 +328,5 @@ func AsValue(ptr interface{}, err error) bool {
 			return false
 		}
 	}
+	return false
 }
-- 
2.43.0


From 5e878da4a37df89cd40895464b5e9b1c16212cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 15/61] fix: wallet: malformed key stores crashed, EVM key
 store with another IV gave a wrong key

EvmWallet.ECDH reported success with an empty secret, so envelopes were encrypted with a
key that everyone can derive; Encrypt crashed unless the buffer was prepared.
---
 common/wallet/encrypted.go    |  1 +
 common/wallet/keystore.go     |  7 +++++++
 common/wallet/keystore_evm.go | 22 +++++++++++++++++++++-
 common/wallet/wallet_evm.go   |  2 +-
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/common/wallet/encrypted.go b/common/wallet/encrypted.go
index 1a87ed4..0cbcf82 100644
--- a/common/wallet/encrypted.go
+++ b/common/wallet/encrypted.go
@@ -58,6 +58,7 @@ func (e *Encrypted) Encrypt(w Wallet, b []byte) error {
 	if err != nil {
 		return err
 	}
+	e.CipherText = make([]byte, len(b))
 	s.XORKeyStream(e.CipherText, b)
 	return nil
 }
diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..35b0610 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -194,6 +194,13 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if kdfParams.DKLen < 32 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d)", kdfParams.DKLen)
+	}
+	if len(cipherParams.IV) != aes.BlockSize {
+		return nil, errors.Errorf("InvalidCipherParams(iv=%s)", cipherParams.IV)
+	}
+
 	key, err := kdfParams.Key(pw)
 	if err != nil {
 		return nil, err
diff --git a/common/wallet/keystore_evm.go b/common/wallet/keystore_evm.go
index d34fa88..3af0025 100644
--- a/common/wallet/keystore_evm.go
+++ b/common/wallet/keystore_evm.go
@@ -2,14 +2,34 @@ package wallet
 
 import (
 	"crypto/ecdsa"
+	"encoding/json"
 
 	"github.com/ethereum/go-ethereum/accounts/keystore"
+	ethcommon "github.com/ethereum/go-ethereum/common"
+
+	"github.com/icon-project/btp/common/errors"
 )
 
-func DecryptEvmKeyStore(ksData, pw []byte) (*ecdsa.PrivateKey, error) {
+func DecryptEvmKeyStore(ksData, pw []byte) (sk *ecdsa.PrivateKey, err error) {
+	defer func() {
+		// keystore.DecryptKey panics on malformed parameters
+		if r := recover(); r != nil {
+			sk, err = nil, errors.Errorf("InvalidKeyStore(%v)", r)
+		}
+	}()
 	key, err := keystore.DecryptKey(ksData, string(pw))
 	if err != nil {
 		return nil, err
 	}
+	var ks struct {
+		Address string `json:"address"`
+	}
+	if err := json.Unmarshal(ksData, &ks); err != nil {
+		return nil, err
+	}
+	if ks.Address != "" && ethcommon.HexToAddress(ks.Address) != key.Address {
+		return nil, errors.Errorf("recovered address is mismatched, %s, expected:%s",
+			key.Address, ks.Address)
+	}
 	return key.PrivateKey, nil
 }
diff --git a/common/wallet/wallet_evm.go b/common/wallet/wallet_evm.go
index 6f7a8ed..b5022c8 100644
--- a/common/wallet/wallet_evm.go
+++ b/common/wallet/wallet_evm.go
@@ -29,7 +29,7 @@ func (w *EvmWallet) PublicKey() []byte {
 
 func (w *EvmWallet) ECDH(pubKey []byte) ([]byte, error) {
 	//TODO: Not implemented yet
-	return nil, nil
+	return nil, errors.New("Not implemented yet")
 }
 
 func NewEvmWalletFromPrivateKey(sk *ecdsa.PrivateKey) (*EvmWallet, error) {
-- 
2.43.0


From 37efd96a34272cb01186ad9edf4200336c26599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:51 +0000
Subject: [PATCH 16/61] fix: crypto: ParsePublicKey crashed on an unknown
 format or a coordinate outside the field

---
 common/crypto/key.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index e0a603d..b908561 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"errors"
+	"math/big"
 
 	"github.com/haltingstate/secp256k1-go"
 )
@@ -58,6 +59,9 @@ const (
 	publicKeyUncompressed byte = 0x4 // x coord + y coord
 )
 
+// fieldPrime is the size of the field of the curve
+var fieldPrime, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
+
 // PublicKey is a type representing a public key, which can be serialized to
 // or deserialized from compressed or uncompressed formats.
 type PublicKey struct {
@@ -73,13 +77,13 @@ func ParsePublicKey(pubKey []byte) (*PublicKey, error) {
 	case 0:
 		return nil, errors.New("public key bytes are empty")
 	case PublicKeyLenCompressed:
-		if secp256k1.VerifyPubkey(pubKey) != 1 {
+		if !isValidPublicKey(pubKey) {
 			return nil, errors.New("invalid public key")
 		}
 		return &PublicKey{pubKey}, nil
 	case PublicKeyLenUncompressed:
 		comp := uncompToCompPublicKey(pubKey)
-		if secp256k1.VerifyPubkey(comp) != 1 || !bytes.Equal(secp256k1.UncompressPubkey(comp), pubKey) {
+		if !isValidPublicKey(comp) || !bytes.Equal(secp256k1.UncompressPubkey(comp), pubKey) {
 			return nil, errors.New("invalid public key")
 		}
 		return &PublicKey{comp}, nil
@@ -88,6 +92,17 @@ func ParsePublicKey(pubKey []byte) (*PublicKey, error) {
 	}
 }
 
+// isValidPublicKey returns whether the compressed formatted public key is a
+// point of the curve. The library doesn't return for an unknown format or
+// a coordinate out of the field.
+func isValidPublicKey(comp []byte) bool {
+	if comp[0]&^0x1 != publicKeyCompressed ||
+		new(big.Int).SetBytes(comp[1:]).Cmp(fieldPrime) >= 0 {
+		return false
+	}
+	return secp256k1.VerifyPubkey(comp) == 1
+}
+
 // uncompToCompPublicKey changes the uncompressed formatted public key to
 // the compressed formatted. It assumes the uncompressed key is valid.
 func uncompToCompPublicKey(uncomp []byte) (comp []byte) {
-- 
2.43.0


From 5404bb2ae829a8868ff8f09475ccf289ed704a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:29 +0000
Subject: [PATCH 17/61] fix: cli: inline key stores of a configuration file
 were refused when built with Go 1.27

---
 common/cli/helper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/cli/helper.go b/common/cli/helper.go
index dfc0b21..13cd622 100644
--- a/common/cli/helper.go
+++ b/common/cli/helper.go
@@ -266,11 +266,14 @@ func StringToStringConv(val string) (map[string]interface{}, error) {
 	return out, nil
 }
 
+// the name of the type isn't "RawMessage" where it is an alias of another type
+var rawMessageType = reflect.TypeOf(json.RawMessage(nil))
+
 func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 	c.TagName = "json"
 	c.DecodeHook = mapstructure.ComposeDecodeHookFunc(
 		func(inputValType reflect.Type, outValType reflect.Type, input interface{}) (interface{}, error) {
-			if outValType.Name() == "RawMessage" {
+			if outValType == rawMessageType {
 				if inputValType.Kind() == reflect.Map && inputValType.Key().Kind() == reflect.String {
 					return json.Marshal(input)
 				} else if inputValType.Kind() == reflect.String {
@@ -282,7 +285,7 @@ func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 				}
 			} else if inputValType.Kind() == reflect.String && outValType.Kind() == reflect.Map {
 				m, err := StringToStringConv(input.(string))
-				if outValType.Key().Kind() == reflect.String && outValType.Elem().Name() == "RawMessage" {
+				if outValType.Key().Kind() == reflect.String && outValType.Elem() == rawMessageType {
 					m2 := make(map[string]json.RawMessage)
 					for k, v := range m {
 						if s, ok := v.(string); ok {
-- 
2.43.0


From a1d2da65282592acf24a09f62fd499db46e456b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:29 +0000
Subject: [PATCH 18/61] fix: relay: unreadable source secret file was ignored
 and the key store got an empty password

---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..b4eddee 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From dfd28fb089cd830c5c5ea65b56df0aa036bfacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:29 +0000
Subject: [PATCH 19/61] fix: relay: save moved base_dir and log file when the
 configuration was loaded from another directory

---
 cmd/relay/main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index b4eddee..30bd818 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -230,11 +230,18 @@ func main() {
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
 			saveFilePath := args[0]
-			cfg.FilePath, _ = filepath.Abs(saveFilePath)
-			cfg.BaseDir = cfg.ResolveRelative(cfg.BaseDir)
-
+			// paths are relative to the configuration file that was loaded
+			baseDir := cfg.AbsBaseDir()
+			logFile := ""
 			if cfg.LogWriter != nil {
-				cfg.LogWriter.Filename = cfg.ResolveRelative(cfg.LogWriter.Filename)
+				logFile = cfg.ResolveAbsolute(cfg.LogWriter.Filename)
+			}
+			cfg.FilePath, _ = filepath.Abs(saveFilePath)
+			if cfg.BaseDir != "" {
+				cfg.BaseDir = cfg.ResolveRelative(baseDir)
+			}
+			if cfg.LogWriter != nil && cfg.LogWriter.Filename != "" {
+				cfg.LogWriter.Filename = cfg.ResolveRelative(logFile)
 			}
 
 			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {
-- 
2.43.0


From d85278a5d31c1b81130ec391731d297118062ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:56 +0000
Subject: [PATCH 20/61] fix: wallet: key store with zero scrypt parameters
 crashed

---
 common/wallet/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 35b0610..a95a16f 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -51,6 +51,9 @@ func (p *ScryptParams) Init() error {
 }
 
 func (p *ScryptParams) Key(pw []byte) ([]byte, error) {
+	if p.R < 1 || p.P < 1 {
+		return nil, errors.Errorf("InvalidKDFParams(r=%d,p=%d)", p.R, p.P)
+	}
 	return scrypt.Key(pw, p.Salt.Bytes(), p.N, p.R, p.P, p.DKLen)
 }
 
-- 
2.43.0


From 257c2ee2e5a96bbecd6a3425cd04fcc495849224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:59 +0000
Subject: [PATCH 21/61] fix: link: a relay result locked the relay for good,
 receiver and sender loops shared state unguarded

---
 common/link/link.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..38e2941 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -66,7 +66,6 @@ type Link struct {
 	r         Receiver
 	s         types.Sender
 	l         log.Logger
-	mtx       sync.RWMutex
 	src       types.BtpAddress
 	dst       types.BtpAddress
 	rmsMtx    sync.RWMutex
@@ -98,6 +97,7 @@ func NewLink(cfg *chain.Config, r Receiver, l log.Logger) types.Link {
 
 func (l *Link) Start(sender types.Sender) error {
 	l.s = sender
+	l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 	errCh := make(chan error)
 	l.senderChannel(errCh)
 
@@ -131,11 +131,13 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 		for {
 			select {
 			case rs := <-rsc:
+				l.rmsMtx.Lock()
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
 				l.rss = append(l.rss, rs)
 				l.BuildRelayMessage(bls)
+				l.rmsMtx.Unlock()
 			}
 		}
 
@@ -148,7 +150,6 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
 
 		for {
@@ -159,8 +160,10 @@ func (l *Link) senderChannel(errCh chan error) {
 					err := l.result(t)
 					errCh <- err
 				case *types.BMCLinkStatus:
+					l.rmsMtx.Lock()
 					l.clearRelayMessage(t)
 					l.clearReceiveStatus(t)
+					l.rmsMtx.Unlock()
 				default:
 					//TODO exception
 				}
@@ -398,9 +401,6 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 }
 
 func (l *Link) removeRelayMessage(id int) {
-	l.mtx.Lock()
-	defer l.mtx.Unlock()
-
 	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
@@ -454,7 +454,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From ec99beb223f976c2254b7af136d7542208bfece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:47 +0000
Subject: [PATCH 22/61] fix: link: relay loop crashed on a second block update,
 spun without new blocks, skipped messages of blocks received ahead and sent
 empty messages

---
 common/link/link.go | 47 ++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 38e2941..b0e3a48 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -197,18 +197,21 @@ func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
 }
 
 func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
-	if len(l.rmi.rmis) == 0 {
-		l.createRelayMessageItem()
-	}
-
-	//Get Block
-	bus, err := l.getHeader(bls)
-	if err != nil {
-		return err
-	}
+	for {
+		//Get Block
+		bus, err := l.getHeader(bls)
+		if err != nil {
+			return err
+		}
+		if len(bus) == 0 {
+			return nil
+		}
 
-	if len(bus) != 0 {
 		for _, bu := range bus {
+			//the receiver may be ahead, wait for the receive status of the block
+			if l.searchReceiveStatusForHeight(bu.TargetHeight()) == nil {
+				return nil
+			}
 			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
 			l.rmi.size += bu.Len()
 			err := bu.UpdateBMCLinkStatus(bls)
@@ -225,12 +228,6 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 			}
 		}
 	}
-
-	if l.isOverLimit(l.rmi.size) {
-		l.sendRelayMessage(bls)
-	}
-
-	return nil
 }
 
 func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
@@ -247,15 +244,7 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 }
 
 func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
-	for {
-		bus, err := l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
-		if err != nil {
-			return nil, err
-		}
-		if len(bus) != 0 {
-			return bus, nil
-		}
-	}
+	return l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
 }
 
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
@@ -380,10 +369,16 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
 		}
+		if len(m) == 0 {
+			continue
+		}
 
 		rm := &relayMessage{
 			id:       rand.Int(),
@@ -395,7 +390,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		rms = append(rms, rm)
 	}
 	l.rmi.rmis = l.rmi.rmis[:0]
-	l.rmi.size = 0
+	l.createRelayMessageItem()
 
 	return rms, nil
 }
-- 
2.43.0


From 17c2654a7a03abcd8c958f9e6ad41a876ce1dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 23/61] fix: link: unconfirmed messages shared one status, were
 lost or crashed the relay on results, and were not sent again when not
 verifiable

---
 common/link/link.go | 50 ++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index b0e3a48..6c7de85 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -179,20 +179,22 @@ func (l *Link) senderChannel(errCh chan error) {
 }
 
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
-	for i, rm := range l.rms {
-		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
-			l.rms = l.rms[i+1:]
+	for len(l.rms) > 0 {
+		rm := l.rms[0]
+		if rm.bls.Verifier.Height > bls.Verifier.Height || rm.bls.RxSeq > bls.RxSeq {
 			break
 		}
+		l.rms = l.rms[1:]
 	}
 }
 
 func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
-	for i, rs := range l.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			l.rss = l.rss[i+1:]
+	for len(l.rss) > 0 {
+		rs := l.rss[0]
+		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
 			break
 		}
+		l.rss = l.rss[1:]
 	}
 }
 
@@ -380,9 +382,10 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 			continue
 		}
 
+		nbls := *bls
 		rm := &relayMessage{
 			id:       rand.Int(),
-			bls:      bls,
+			bls:      &nbls,
 			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
 			message:  m,
 			rmis:     rmi,
@@ -396,24 +399,26 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 }
 
 func (l *Link) removeRelayMessage(id int) {
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = l.rms[i+1:]
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
-	l.buildProof(rm.bls, nil)
-	l.sendRelayMessage(rm.bls)
-	return nil
+	if rm == nil {
+		return nil
+	}
+	bls := *rm.bls
+	if err := l.buildProof(&bls, nil); err != nil {
+		return err
+	}
+	return l.sendRelayMessage(&bls)
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
@@ -459,11 +464,18 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
-		l.BuildRelayMessage(bls)
+		l.clearRelayMessage(bls)
+		l.clearReceiveStatus(bls)
+		//blocks of these messages are already dropped by the receiver, so send them again as they are
+		for _, rm := range l.rms {
+			if _, err := l.s.Relay(rm); err != nil {
+				return err
+			}
+		}
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
 	case BMVRevertInvalidBlockWitnessOld:
-		l.updateBlockProof(rr.Id)
+		return l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
-- 
2.43.0


From ec519a0d0316dbb5bff80ce419670f9febaecea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:50 +0000
Subject: [PATCH 24/61] fix: link: messages over the size limit crashed or
 stalled the relay, the rest of a partly delivered block was never sent

---
 common/link/link.go | 84 +++++++++------------------------------------
 1 file changed, 16 insertions(+), 68 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 6c7de85..b0ffd8d 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -132,10 +132,10 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 			select {
 			case rs := <-rsc:
 				l.rmsMtx.Lock()
+				l.rss = append(l.rss, rs)
 				once.Do(func() {
 					err = l.checkStatus(bls)
 				})
-				l.rss = append(l.rss, rs)
 				l.BuildRelayMessage(bls)
 				l.rmsMtx.Unlock()
 			}
@@ -250,40 +250,11 @@ func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
 }
 
 func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-	lastSeq := bls.RxSeq
-	for {
-		h := l.r.GetHeightForSeq(lastSeq)
-		if h == 0 {
-			break
-		}
-		if h == bls.Verifier.Height {
-			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
-			if err != nil {
-				return err
-			}
-
-			if mp == nil {
-				break
-			}
-
-			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-				l.rmi.size += mp.Len()
-			}
-			break
-		} else if h < bls.Verifier.Height {
-			err := l.buildProof(bls, nil)
-			if err != nil {
-				return err
-			}
-		} else {
-			break
-		}
-	}
-	if l.rmi.size > 0 {
-		l.sendRelayMessage(bls)
+	//messages which remain in the last verified block
+	if err := l.buildProof(bls, nil); err != nil {
+		return err
 	}
-	return nil
+	return l.sendRelayMessage(bls)
 }
 
 func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
@@ -291,35 +262,20 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 	if rs == nil {
 		return nil
 	}
-	var mh int64
-	for {
-		//TODO refactoring
-		if rs.Seq() <= bls.RxSeq {
-			break
+	for rs.Seq() > bls.RxSeq {
+		seq := bls.RxSeq
+		if err := l.buildMessageProof(bls); err != nil {
+			return err
 		}
-		if l.isOverLimit(l.rmi.size) {
-			l.sendRelayMessage(bls)
-			if bu != nil || bu.ProofHeight() != 0 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if err := l.buildBlockProof(bls, mh); err != nil {
-					return err
-				}
-			}
-			if err := l.buildMessageProof(bls); err != nil {
+		if bls.RxSeq <= seq {
+			return fmt.Errorf("fail to build message proof h:%d seq:%d", bls.Verifier.Height, seq)
+		}
+		if rs.Seq() > bls.RxSeq {
+			//the rest of messages in the block goes to the next relay message
+			if err := l.sendRelayMessage(bls); err != nil {
 				return err
 			}
-		} else {
-			if bu == nil || bu.ProofHeight() == -1 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if mh != h {
-					if err := l.buildBlockProof(bls, mh); err != nil {
-						return err
-					}
-				}
-			}
-			if err := l.buildMessageProof(bls); err != nil {
+			if err := l.buildBlockProof(bls, rs.Height()); err != nil {
 				return err
 			}
 		}
@@ -439,14 +395,6 @@ func (l *Link) searchRelayMessage(id int) *relayMessage {
 	return nil
 }
 
-func (l *Link) isOverLimit(size int64) bool {
-	if int64(l.s.TxSizeLimit()) < size {
-		l.createRelayMessageItem()
-		return true
-	}
-	return false
-}
-
 func (l *Link) createRelayMessageItem() {
 	l.rmi.rmis = append(l.rmi.rmis, make([]RelayMessageItem, 0))
 	l.rmi.size = 0
-- 
2.43.0


From 262ad2af8ab33216d31476a66d8b210679eaa962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:51 +0000
Subject: [PATCH 25/61] fix: link: errors of receiver and sender were ignored,
 so the relay stalled or lost messages instead of stopping

---
 common/link/link.go | 54 ++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index b0ffd8d..705ffbe 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -127,23 +127,27 @@ func (l *Link) Stop() {
 func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
-		rsc, err := l.r.Start(bls)
-		for {
-			select {
-			case rs := <-rsc:
-				l.rmsMtx.Lock()
-				l.rss = append(l.rss, rs)
-				once.Do(func() {
-					err = l.checkStatus(bls)
-				})
-				l.BuildRelayMessage(bls)
-				l.rmsMtx.Unlock()
-			}
+		//receiver keeps its own copy, because bls advances with relay messages
+		sbls := *bls
+		rsc, err := l.r.Start(&sbls)
+		if err != nil {
+			errCh <- err
+			return
 		}
-
-		select {
-		case errCh <- err:
-		default:
+		for rs := range rsc {
+			l.rmsMtx.Lock()
+			l.rss = append(l.rss, rs)
+			once.Do(func() {
+				err = l.checkStatus(bls)
+			})
+			if err == nil {
+				err = l.BuildRelayMessage(bls)
+			}
+			l.rmsMtx.Unlock()
+			if err != nil {
+				errCh <- err
+				return
+			}
 		}
 	}()
 }
@@ -151,10 +155,17 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
 		scc, err := l.s.Start()
+		if err != nil {
+			errCh <- err
+			return
+		}
 
 		for {
 			select {
-			case sc := <-scc:
+			case sc, ok := <-scc:
+				if !ok {
+					return
+				}
 				switch t := sc.(type) {
 				case *types.RelayResult:
 					err := l.result(t)
@@ -169,11 +180,6 @@ func (l *Link) senderChannel(errCh chan error) {
 				}
 			}
 		}
-
-		select {
-		case errCh <- err:
-		default:
-		}
 	}()
 
 }
@@ -240,7 +246,9 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 
 	for _, rm := range rms {
 		l.rms = append(l.rms, rm)
-		l.s.Relay(rm)
+		if _, err := l.s.Relay(rm); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 5dab7c55a704af6058d58fbc125baa2796f11451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:21 +0000
Subject: [PATCH 26/61] fix: link: an old block witness made the relay send
 later messages twice or stop, instead of renewing the block proof

---
 common/link/link.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 705ffbe..f5f8ecd 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -378,11 +378,28 @@ func (l *Link) updateBlockProof(id int) error {
 	if rm == nil {
 		return nil
 	}
-	bls := *rm.bls
-	if err := l.buildProof(&bls, nil); err != nil {
+	updated := false
+	rmis := append([]RelayMessageItem{}, rm.rmis...)
+	for i, rmi := range rmis {
+		if bp, ok := rmi.(BlockProof); ok && rmi.Type() == TypeBlockProof {
+			nbp, err := l.r.BuildBlockProof(rm.bls, bp.ProofHeight())
+			if err != nil {
+				return err
+			}
+			rmis[i] = nbp
+			updated = true
+		}
+	}
+	if !updated {
+		return nil
+	}
+	m, err := l.r.BuildRelayMessage(rmis)
+	if err != nil {
 		return err
 	}
-	return l.sendRelayMessage(&bls)
+	rm.rmis, rm.message = rmis, m
+	_, err = l.s.Relay(rm)
+	return err
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
-- 
2.43.0


From 47261321847a9233683a424aa6d5368c049cd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:51 +0000
Subject: [PATCH 27/61] fix: icon client: monitors ignored callback errors and
 so skipped blocks, event monitors began with an error, connections were
 listed unguarded

---
 chain/icon/client/client.go | 49 ++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..f253b77 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -315,11 +315,12 @@ func (c *Client) GetStatus(fromAddress string, src types.BtpAddress, dst types.B
 
 func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
 	resp := &BTPNotification{}
-	return c.Monitor("/btp", p, resp, func(conn *websocket.Conn, v interface{}) {
+	return c.Monitor("/btp", p, resp, func(conn *websocket.Conn, v interface{}) error {
 		switch t := v.(type) {
 		case *BTPNotification:
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorBTP callback return err:%+v", err)
+				return err
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), t)
@@ -334,16 +335,18 @@ func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPN
 		default:
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
+		return nil
 	})
 }
 
 func (c *Client) MonitorBlock(p *BlockRequest, cb func(conn *websocket.Conn, v *BlockNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
 	resp := &BlockNotification{}
-	return c.Monitor("/block", p, resp, func(conn *websocket.Conn, v interface{}) {
+	return c.Monitor("/block", p, resp, func(conn *websocket.Conn, v interface{}) error {
 		switch t := v.(type) {
 		case *BlockNotification:
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorBlock callback return err:%+v", err)
+				return err
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBlock WSEvent %s %+v", conn.LocalAddr().String(), t)
@@ -358,22 +361,27 @@ func (c *Client) MonitorBlock(p *BlockRequest, cb func(conn *websocket.Conn, v *
 		default:
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
+		return nil
 	})
 }
 
 func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *EventNotification) error, errCb func(*websocket.Conn, error)) error {
 	resp := &EventNotification{}
-	return c.Monitor("/event", p, resp, func(conn *websocket.Conn, v interface{}) {
+	return c.Monitor("/event", p, resp, func(conn *websocket.Conn, v interface{}) error {
 		switch t := v.(type) {
 		case *EventNotification:
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorEvent callback return err:%+v", err)
+				return err
 			}
+		case WSEvent:
+			c.l.Debugf("MonitorEvent WSEvent %s %+v", conn.LocalAddr().String(), t)
 		case error:
 			errCb(conn, t)
 		default:
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
+		return nil
 	})
 }
 
@@ -392,7 +400,9 @@ func (c *Client) Monitor(reqUrl string, reqPtr, respPtr interface{}, cb wsReadCa
 	if err = c.wsRequest(conn, reqPtr); err != nil {
 		return err
 	}
-	cb(conn, WSEventInit)
+	if err = cb(conn, WSEventInit); err != nil {
+		return err
+	}
 	return c.wsReadJSONLoop(conn, respPtr, cb)
 }
 
@@ -402,13 +412,13 @@ func (c *Client) CloseMonitor(conn *websocket.Conn) {
 }
 
 func (c *Client) CloseAllMonitor() {
-	for _, conn := range c.conns {
+	for _, conn := range c._wsConns() {
 		c.l.Debugf("CloseAllMonitor %s", conn.LocalAddr().String())
 		c.wsClose(conn)
 	}
 }
 
-type wsReadCallback func(*websocket.Conn, interface{})
+type wsReadCallback func(*websocket.Conn, interface{}) error
 
 func (c *Client) _addWsConn(conn *websocket.Conn) {
 	c.mtx.Lock()
@@ -429,6 +439,25 @@ func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	}
 }
 
+func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	_, ok := c.conns[conn.LocalAddr().String()]
+	return ok
+}
+
+func (c *Client) _wsConns() []*websocket.Conn {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	conns := make([]*websocket.Conn, 0, len(c.conns))
+	for _, conn := range c.conns {
+		conns = append(conns, conn)
+	}
+	return conns
+}
+
 type wsConnectError struct {
 	error
 	httpResp *http.Response
@@ -499,18 +528,20 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	for {
 		v := reflect.New(elem.Type())
 		ptr := v.Interface()
-		if _, ok := c.conns[conn.LocalAddr().String()]; !ok {
+		if !c._hasWsConn(conn) {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
 			return nil
 		}
 		if err := c.wsRead(conn, ptr); err != nil {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] ReadJSON err:%+v", conn.LocalAddr().String(), err)
 			if cErr, ok := err.(*websocket.CloseError); !ok || cErr.Code != websocket.CloseNormalClosure {
-				cb(conn, err)
+				_ = cb(conn, err)
 			}
 			return err
 		}
-		cb(conn, ptr)
+		if err := cb(conn, ptr); err != nil {
+			return err
+		}
 	}
 }
 
-- 
2.43.0


From da5bf0a8704cebb29c662c073faa11569eee499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:51 +0000
Subject: [PATCH 28/61] fix: eth client: closing a monitor crashed and left the
 block poll running

---
 chain/ethbr/client/client.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..e43cc20 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"math/big"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum"
@@ -56,13 +57,13 @@ type Wallet interface {
 }
 
 type Client struct {
-	uri          string
-	log          log.Logger
-	subscription *rpc.ClientSubscription
-	ethClient    *ethclient.Client
-	rpcClient    *rpc.Client
-	chainID      *big.Int
-	stop         <-chan bool
+	uri       string
+	log       log.Logger
+	ethClient *ethclient.Client
+	rpcClient *rpc.Client
+	chainID   *big.Int
+	stop      chan bool
+	stopOnce  sync.Once
 }
 
 func toBlockNumArg(number *big.Int) string {
@@ -301,6 +302,9 @@ func (c *Client) Monitor(cb func(bh *types.Header) error) error {
 	}
 	for {
 		select {
+		case <-c.stop:
+			s.Unsubscribe()
+			return nil
 		case err = <-s.Err():
 			return err
 		case bh := <-ch:
@@ -314,8 +318,10 @@ func (c *Client) Monitor(cb func(bh *types.Header) error) error {
 }
 
 func (c *Client) CloseMonitor() {
-	c.log.Debugf("CloseMonitor %s", c.rpcClient)
-	c.subscription.Unsubscribe()
+	c.log.Debugf("CloseMonitor %s", c.uri)
+	c.stopOnce.Do(func() {
+		close(c.stop)
+	})
 	c.ethClient.Close()
 	c.rpcClient.Close()
 }
@@ -365,6 +371,7 @@ func NewClient(uri string, l log.Logger) *Client {
 		rpcClient: rpcClient,
 		ethClient: ethclient.NewClient(rpcClient),
 		log:       l,
+		stop:      make(chan bool),
 	}
 	c.chainID, _ = c.GetChainID()
 	l.Tracef("Client Connected Chain ID: ", c.chainID)
-- 
2.43.0


From e60d7427b72c19d51ce0d84a620d1d82e84addd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:51 +0000
Subject: [PATCH 29/61] fix: receivers: failed monitoring was ignored so the
 relay stalled for good, Stop crashed the monitoring goroutine

---
 chain/ethbr/receiver.go     | 42 +++++++++++++++++++++++++--------
 chain/icon/bridge/bridge.go | 47 ++++++++++++++++++++++++++++---------
 chain/icon/btp2/btp2.go     | 45 +++++++++++++++++++++++++++--------
 common/link/link.go         | 10 +++++++-
 common/link/type.go         |  5 +++-
 5 files changed, 116 insertions(+), 33 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..5db67bc 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
+	"sync"
 	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
@@ -59,7 +60,9 @@ type ethbr struct {
 	dst         btpTypes.BtpAddress
 	c           *client.Client
 	nid         int64
-	rsc         chan link.ReceiveStatus
+	rsc         chan link.ReceiverMessage
+	stop        chan struct{}
+	stopOnce    sync.Once
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -67,26 +70,45 @@ type ethbr struct {
 
 func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *ethbr {
 	c := &ethbr{
-		src: src,
-		dst: dst,
-		l:   l,
-		rsc: make(chan link.ReceiveStatus),
-		rss: make([]*receiveStatus, 0),
+		src:  src,
+		dst:  dst,
+		l:    l,
+		rsc:  make(chan link.ReceiverMessage),
+		stop: make(chan struct{}),
+		rss:  make([]*receiveStatus, 0),
 	}
 	c.c = client.NewClient(endpoint, l)
 	return c
 }
 
-func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
+func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiverMessage, error) {
 	go func() {
-		e.Monitoring(bs)
+		err := e.Monitoring(bs)
+		if err == nil {
+			err = fmt.Errorf("monitoring finished")
+		}
+		e.l.Debugf("monitoring finished err:%+v", err)
+		_ = e.notify(err)
+		close(e.rsc)
 	}()
 
 	return e.rsc, nil
 }
 
 func (e *ethbr) Stop() {
-	close(e.rsc)
+	e.stopOnce.Do(func() {
+		close(e.stop)
+	})
+	e.c.CloseAllMonitor()
+}
+
+func (e *ethbr) notify(m link.ReceiverMessage) error {
+	select {
+	case e.rsc <- m:
+		return nil
+	case <-e.stop:
+		return fmt.Errorf("receiver stopped")
+	}
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
@@ -255,7 +277,7 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
-					e.rsc <- rs
+					return e.notify(rs)
 				}
 			}
 
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..c1a6215 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,6 +3,7 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 	"unsafe"
 
 	"github.com/gorilla/websocket"
@@ -39,7 +40,9 @@ type bridge struct {
 	dst         types.BtpAddress
 	c           *client.Client
 	nid         int64
-	rsc         chan link.ReceiveStatus
+	rsc         chan link.ReceiverMessage
+	stop        chan struct{}
+	stopOnce    sync.Once
 	rss         []*receiveStatus
 	startHeight int64
 }
@@ -73,11 +76,12 @@ func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.B
 
 func NewBridge(src, dst types.BtpAddress, endpoint string, l log.Logger) *bridge {
 	c := &bridge{
-		src: src,
-		dst: dst,
-		l:   l,
-		rsc: make(chan link.ReceiveStatus),
-		rss: make([]*receiveStatus, 0),
+		src:  src,
+		dst:  dst,
+		l:    l,
+		rsc:  make(chan link.ReceiverMessage),
+		stop: make(chan struct{}),
+		rss:  make([]*receiveStatus, 0),
 	}
 	c.c = client.NewClient(endpoint, l)
 	return c
@@ -95,7 +99,7 @@ func (b *bridge) getNetworkId() error {
 	return nil
 }
 
-func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
+func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiverMessage, error) {
 	if err := b.getNetworkId(); err != nil {
 		return nil, err
 	}
@@ -105,14 +109,32 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		err := b.Monitoring(bs)
+		if err == nil {
+			err = fmt.Errorf("monitoring finished")
+		}
+		b.l.Debugf("monitoring finished err:%+v", err)
+		_ = b.notify(err)
+		close(b.rsc)
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *bridge) Stop() {
-	close(b.rsc)
+	b.stopOnce.Do(func() {
+		close(b.stop)
+	})
+	b.c.CloseAllMonitor()
+}
+
+func (b *bridge) notify(m link.ReceiverMessage) error {
+	select {
+	case b.rsc <- m:
+		return nil
+	case <-b.stop:
+		return fmt.Errorf("receiver stopped")
+	}
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
@@ -185,7 +207,7 @@ func (b *bridge) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 	return nil, nil
 }
 
-//TODO Refactoring reduplication func
+// TODO Refactoring reduplication func
 func (b *bridge) getBtpMessage(height int64) ([]string, error) {
 	pr := &client.BTPBlockParam{Height: client.HexInt(intconv.FormatInt(height)), NetworkId: client.HexInt(intconv.FormatInt(b.nid))}
 	mgs, err := b.c.GetBTPMessage(pr)
@@ -255,7 +277,7 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			b.rss = append(b.rss, rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
-			b.rsc <- rs
+			return b.notify(rs)
 		}
 		return nil
 	}, scb, errCb)
@@ -286,6 +308,9 @@ func (b *bridge) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..ec3ef6b 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -3,6 +3,7 @@ package btp2
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -62,7 +63,9 @@ type btp2 struct {
 	dst         types.BtpAddress
 	c           *client.Client
 	nid         int64
-	rsc         chan link.ReceiveStatus
+	rsc         chan link.ReceiverMessage
+	stop        chan struct{}
+	stopOnce    sync.Once
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -70,11 +73,12 @@ type btp2 struct {
 
 func NewBTP2(src, dst types.BtpAddress, endpoint string, l log.Logger) *btp2 {
 	c := &btp2{
-		src: src,
-		dst: dst,
-		l:   l,
-		rsc: make(chan link.ReceiveStatus),
-		rss: make([]*receiveStatus, 0),
+		src:  src,
+		dst:  dst,
+		l:    l,
+		rsc:  make(chan link.ReceiverMessage),
+		stop: make(chan struct{}),
+		rss:  make([]*receiveStatus, 0),
 	}
 	c.c = client.NewClient(endpoint, l)
 	return c
@@ -125,7 +129,7 @@ func (b *btp2) getBtpHeader(height int64) ([]byte, []byte, error) {
 	return h, p, nil
 }
 
-func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
+func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiverMessage, error) {
 	if err := b.getNetworkId(); err != nil {
 		return nil, err
 	}
@@ -135,14 +139,32 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		err := b.Monitoring(bs)
+		if err == nil {
+			err = fmt.Errorf("monitoring finished")
+		}
+		b.l.Debugf("monitoring finished err:%+v", err)
+		_ = b.notify(err)
+		close(b.rsc)
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *btp2) Stop() {
-	close(b.rsc)
+	b.stopOnce.Do(func() {
+		close(b.stop)
+	})
+	b.c.CloseAllMonitor()
+}
+
+func (b *btp2) notify(m link.ReceiverMessage) error {
+	select {
+	case b.rsc <- m:
+		return nil
+	case <-b.stop:
+		return fmt.Errorf("receiver stopped")
+	}
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
@@ -307,7 +329,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 
 			b.rss = append(b.rss, rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
-			b.rsc <- rs
+			return b.notify(rs)
 		}
 		return nil
 	}, scb, errCb)
@@ -338,6 +360,9 @@ func (b *btp2) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/common/link/link.go b/common/link/link.go
index f5f8ecd..1a9a5fa 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -134,7 +134,15 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 			errCh <- err
 			return
 		}
-		for rs := range rsc {
+		for rm := range rsc {
+			rs, ok := rm.(ReceiveStatus)
+			if !ok {
+				if err, ok = rm.(error); !ok {
+					err = fmt.Errorf("not supported receiver message %T", rm)
+				}
+				errCh <- err
+				return
+			}
 			l.rmsMtx.Lock()
 			l.rss = append(l.rss, rs)
 			once.Do(func() {
diff --git a/common/link/type.go b/common/link/type.go
index a939b20..38a2a33 100644
--- a/common/link/type.go
+++ b/common/link/type.go
@@ -56,8 +56,11 @@ type MessageProof interface {
 	LastSeqNum() int64
 }
 
+// ReceiveStatus, error
+type ReceiverMessage interface{}
+
 type Receiver interface {
-	Start(bls *types.BMCLinkStatus) (<-chan ReceiveStatus, error)
+	Start(bls *types.BMCLinkStatus) (<-chan ReceiverMessage, error)
 	Stop()
 	GetStatus() (ReceiveStatus, error)
 	BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]BlockUpdate, error)
-- 
2.43.0


From 1b30e82aefa41dc8a9277cc73c3797124b45fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:37 +0000
Subject: [PATCH 30/61] fix: btp2: wrong sequences after a partial proof or
 restart inside a block lost or repeated messages, received blocks were shared
 unguarded, kept after delivery and built again

---
 chain/icon/btp2/btp2.go | 62 ++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index ec3ef6b..7d2c7cb 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -67,6 +67,7 @@ type btp2 struct {
 	stop        chan struct{}
 	stopOnce    sync.Once
 	rss         []*receiveStatus
+	rssMtx      sync.RWMutex
 	seq         int64
 	startHeight int64
 }
@@ -168,13 +169,18 @@ func (b *btp2) notify(m link.ReceiverMessage) error {
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+	if len(b.rss) == 0 {
+		return nil, fmt.Errorf("no received block")
+	}
 	return b.rss[len(b.rss)-1], nil
 }
 
 func (b *btp2) GetHeightForSeq(seq int64) int64 {
 	rs := b.GetReceiveHeightForSequence(seq)
 	if rs != nil {
-		return b.GetReceiveHeightForSequence(seq).height
+		return rs.height
 	} else {
 		return 0
 	}
@@ -183,7 +189,10 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
@@ -195,7 +204,7 @@ func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.B
 		}
 		bbu := &client.BTPBlockUpdate{BTPBlockHeader: h, BTPBlockProof: p}
 
-		if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) {
+		if limit < int64(len(codec.RLP.MustMarshalToBytes(bbu))) && len(bus) > 0 {
 			return bus, nil
 		}
 
@@ -218,7 +227,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	}
 	messageCnt := int64(rs.MerkleBinaryTree().Len())
 	offset := bls.RxSeq - (rs.Seq() - messageCnt)
-	if (bls.RxSeq - rs.seq) == 0 {
+	if offset < 0 || offset >= messageCnt {
 		return nil, nil
 	}
 	if messageCnt > 0 {
@@ -229,7 +238,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 			}
 
 			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
+				mp := NewMessageProof(bls, rs.Seq()-messageCnt+i, *p)
 				return mp, nil
 			}
 		}
@@ -239,7 +248,7 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 	if err != nil {
 		return nil, err
 	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
+	mp := NewMessageProof(bls, rs.Seq(), *p)
 	return mp, nil
 }
 
@@ -265,21 +274,38 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 }
 
 func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
+func (b *btp2) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+	return b.rss
+}
+
 func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 	if bs.Verifier.Height < 1 {
 		return fmt.Errorf("cannot catchup from zero height")
 	}
 
+	height := bs.Verifier.Height + 1
+	b.seq = bs.RxSeq
+	vs := &client.VerifierStatus{}
+	if _, err := codec.RLP.UnmarshalFromBytes(bs.Verifier.Extra, vs); err == nil {
+		//messages may remain in the last verified block
+		first := vs.SequenceOffset + vs.FirstMessageSn
+		if first <= bs.RxSeq && bs.RxSeq < first+vs.MessageCount {
+			height = bs.Verifier.Height
+			b.seq = first
+		}
+	}
+
 	req := &client.BTPRequest{
-		Height:    client.NewHexInt(bs.Verifier.Height + 1),
+		Height:    client.NewHexInt(height),
 		NetworkID: client.NewHexInt(b.nid),
 		ProofFlag: client.NewHexInt(0),
 	}
@@ -301,10 +327,6 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 }
 
 func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
-	if bs.RxSeq != 0 {
-		b.seq = bs.RxSeq
-	}
-
 	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
 		h, err := base64.StdEncoding.DecodeString(v.Header)
 		if err != nil {
@@ -327,7 +349,9 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
+			b.rssMtx.Lock()
 			b.rss = append(b.rss, rs)
+			b.rssMtx.Unlock()
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			return b.notify(rs)
 		}
@@ -336,8 +360,8 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 }
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+	for _, rs := range b.receiveStatuses() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(rs.MerkleBinaryTree().Len()) {
 			return rs
 		}
 	}
@@ -345,7 +369,7 @@ func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
-- 
2.43.0


From e80acbd66b4121774a8306a9bcca0a54d3d75a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:37 +0000
Subject: [PATCH 31/61] fix: receivers: block update of a batch rolled the
 receive sequence back

---
 chain/ethbr/message.go       | 6 ++++++
 chain/icon/bridge/message.go | 6 ++++++
 chain/icon/btp2/message.go   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..c35c4ad 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -48,6 +48,12 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+//UpdateBMCLinkStatus moves the height only, sequences may have advanced since the block update was built
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/bridge/message.go b/chain/icon/bridge/message.go
index b277918..7a3d99c 100644
--- a/chain/icon/bridge/message.go
+++ b/chain/icon/bridge/message.go
@@ -67,6 +67,12 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+//UpdateBMCLinkStatus moves the height only, sequences may have advanced since the block update was built
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/btp2/message.go b/chain/icon/btp2/message.go
index fbda82f..242f8a0 100644
--- a/chain/icon/btp2/message.go
+++ b/chain/icon/btp2/message.go
@@ -60,6 +60,12 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+//UpdateBMCLinkStatus moves the height only, sequences may have advanced since the block update was built
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func NewBlockUpdate(bs *types.BMCLinkStatus, targetHeight int64, v interface{}) *blockUpdate {
 	nextBls := &types.BMCLinkStatus{}
 	nextBls.Verifier.Height = targetHeight
-- 
2.43.0


From d37cdbf433754528f780c91baac7744836a9fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:35 +0000
Subject: [PATCH 32/61] fix: bridge: blocks with several messages were relayed
 partly or with wrong sequences, a small limit made empty messages, event
 sizes counted a pointer, received blocks were shared unguarded

---
 chain/icon/bridge/bridge.go | 47 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index c1a6215..9ffa0c2 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -4,7 +4,6 @@ import (
 	"encoding/base64"
 	"fmt"
 	"sync"
-	"unsafe"
 
 	"github.com/gorilla/websocket"
 
@@ -44,12 +43,14 @@ type bridge struct {
 	stop        chan struct{}
 	stopOnce    sync.Once
 	rss         []*receiveStatus
+	rssMtx      sync.RWMutex
 	startHeight int64
 }
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
+	//seq is the sequence of the last message
+	seq := sn + int64(len(msgs)) - 1
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -138,13 +139,18 @@ func (b *bridge) notify(m link.ReceiverMessage) error {
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+	if len(b.rss) == 0 {
+		return nil, fmt.Errorf("no received block")
+	}
 	return b.rss[len(b.rss)-1], nil
 }
 
 func (b *bridge) GetHeightForSeq(seq int64) int64 {
 	rs := b.GetReceiveHeightForSequence(seq)
 	if rs != nil {
-		return b.GetReceiveHeightForSequence(seq).height
+		return rs.height
 	} else {
 		return 0
 	}
@@ -153,7 +159,10 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -170,7 +179,6 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 	if rs == nil {
 		return nil, nil
 	}
-	//offset := int64(rs.seq - bls.RxSeq)
 	messageCnt := len(rs.ReceiptProof().Events)
 	offset := bls.RxSeq - (rs.Seq() - int64(messageCnt))
 	trp := &ReceiptProof{
@@ -181,15 +189,15 @@ func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.
 
 	for i := offset; i < int64(messageCnt); i++ {
 		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+		if limit < int64(rmSize+size) && len(trp.Events) > 0 {
+			return NewMessageProof(bls, rs.Seq()-int64(messageCnt)+i, trp)
 		}
 		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
 		rmSize += size
 	}
 
 	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
+	return NewMessageProof(bls, rs.Seq(), trp)
 
 }
 
@@ -274,7 +282,9 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			if err != nil {
 				return err
 			}
+			b.rssMtx.Lock()
 			b.rss = append(b.rss, rs)
+			b.rssMtx.Unlock()
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
 			return b.notify(rs)
@@ -284,17 +294,22 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 }
 
 func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
-		}
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+	for len(b.rss) > 0 && b.rss[0].Height() <= bs.Verifier.Height && b.rss[0].Seq() <= bs.RxSeq {
+		b.rss = b.rss[1:]
 	}
 }
 
+func (b *bridge) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+	return b.rss
+}
+
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+	for _, rs := range b.receiveStatuses() {
+		if seq <= rs.Seq() && seq > rs.Seq()-int64(len(rs.ReceiptProof().Events)) {
 			return rs
 		}
 	}
@@ -316,7 +331,7 @@ func (b *bridge) setStartHeight() error {
 }
 
 func sizeOfEvent(rp *Event) int {
-	return int(unsafe.Sizeof(rp))
+	return len(codec.RLP.MustMarshalToBytes(rp))
 }
 
 func messageToEvent(next types.BtpAddress, msg string, seq int64) (*Event, error) {
-- 
2.43.0


From 7281c8e54aa497d66b32ee28121bae613222bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:46 +0000
Subject: [PATCH 33/61] fix: ethbr: events of blocks with several receipts or
 events were lost or repeated, malformed logs and early calls crashed, event
 sizes counted a pointer, received blocks were shared unguarded

---
 chain/ethbr/message.go  |  3 +-
 chain/ethbr/receiver.go | 76 +++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index c35c4ad..9fc47ec 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -139,7 +139,8 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 	}
 
 	return &MessageProof{
-		lastSeq: ls,
+		startSeq: bs.RxSeq,
+		lastSeq:  ls,
 		relayMessageItem: relayMessageItem{
 			it:      link.TypeMessageProof,
 			payload: b,
diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 5db67bc..655fde5 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -8,7 +8,6 @@ import (
 	"math/big"
 	"sort"
 	"sync"
-	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -64,6 +63,7 @@ type ethbr struct {
 	stop        chan struct{}
 	stopOnce    sync.Once
 	rss         []*receiveStatus
+	rssMtx      sync.RWMutex
 	seq         int64
 	startHeight int64
 }
@@ -112,13 +112,21 @@ func (e *ethbr) notify(m link.ReceiverMessage) error {
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
+	e.rssMtx.RLock()
+	defer e.rssMtx.RUnlock()
+	if len(e.rss) == 0 {
+		return nil, fmt.Errorf("no received block")
+	}
 	return e.rss[len(e.rss)-1], nil
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -131,18 +139,17 @@ func (e *ethbr) BuildBlockProof(bls *btpTypes.BMCLinkStatus, height int64) (link
 
 func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
 	var rmSize int
-	var seq int
+	seq := bls.RxSeq
 	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
 	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
 	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
+		for i := int64(0); i < rpsCnt; i++ {
 			trp := &client.ReceiptProof{
 				Index:  rs.rps[i].Index,
 				Events: make([]*client.Event, 0),
@@ -150,29 +157,30 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 			}
 			rps = append(rps, trp)
 
-			for _, e := range rs.rps[i].Events {
-				size := sizeOfEvent(e)
+			for _, evt := range rs.rps[i].Events {
+				if evt.Sequence.Int64() <= bls.RxSeq {
+					continue
+				}
+				size, err := sizeOfEvent(evt)
+				if err != nil {
+					return nil, err
+				}
 
 				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
+					return NewMessageProof(bls, seq, rps)
 				}
-				trp.Events = append(trp.Events, e)
-				seq += 1
+				trp.Events = append(trp.Events, evt)
+				seq = evt.Sequence.Int64()
 				rmSize += size
 			}
 
-			//last event
-			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
-			}
-
 			//remove last receipt if empty
 			if len(trp.Events) == 0 {
 				rps = rps[:len(rps)-1]
 			}
 		}
 
-		return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
+		return NewMessageProof(bls, seq, rps)
 	}
 	return nil, nil
 }
@@ -180,7 +188,7 @@ func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (lin
 func (e *ethbr) GetHeightForSeq(seq int64) int64 {
 	rs := e.GetReceiveHeightForSequence(seq)
 	if rs != nil {
-		return e.GetReceiveHeightForSequence(seq).height
+		return rs.height
 	} else {
 		return 0
 	}
@@ -201,14 +209,19 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 }
 
 func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			e.rss = e.rss[i+1:]
-			return
-		}
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+	for len(e.rss) > 0 && e.rss[0].Height() <= bls.Verifier.Height && e.rss[0].Seq() <= bls.RxSeq {
+		e.rss = e.rss[1:]
 	}
 }
 
+func (e *ethbr) receiveStatuses() []*receiveStatus {
+	e.rssMtx.RLock()
+	defer e.rssMtx.RUnlock()
+	return e.rss
+}
+
 func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 	//var err error
 	fq := &ethereum.FilterQuery{
@@ -236,11 +249,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
@@ -273,7 +286,9 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 						return err
 					}
 
+					e.rssMtx.Lock()
 					e.rss = append(e.rss, rs)
+					e.rssMtx.Unlock()
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
@@ -322,8 +337,8 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 }
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+	for _, rs := range e.receiveStatuses() {
+		if seq <= rs.Seq() && seq >= rs.rps[0].Events[0].Sequence.Int64() {
 			return rs
 		}
 	}
@@ -331,7 +346,7 @@ func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (e *ethbr) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
@@ -376,6 +391,7 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 	}, nil
 }
 
-func sizeOfEvent(rp *client.Event) int {
-	return int(unsafe.Sizeof(rp))
+func sizeOfEvent(rp *client.Event) (int, error) {
+	b, err := rlp.EncodeToBytes(rp)
+	return len(b), err
 }
-- 
2.43.0


From 2f3fa552c2db1e88b93f9c79d49915c6416700e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 34/61] fix: ethbr: event sequences from 128 on were encoded so
 that the verifier reads a negative number

---
 chain/ethbr/message.go  | 27 ++++++++++++++++++++-------
 chain/ethbr/receiver.go |  2 +-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index 9fc47ec..f01596b 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -1,8 +1,6 @@
 package ethbr
 
 import (
-	"github.com/ethereum/go-ethereum/rlp"
-
 	"github.com/icon-project/btp/chain/ethbr/client"
 	"github.com/icon-project/btp/common/codec"
 	"github.com/icon-project/btp/common/link"
@@ -95,6 +93,25 @@ func (m *MessageProof) LastSeqNum() int64 {
 	return m.lastSeq
 }
 
+//event is encoded with signed integer as the BMV decodes it
+type event struct {
+	Next     string
+	Sequence int64
+	Message  []byte
+}
+
+func newEvents(evts []*client.Event) []*event {
+	r := make([]*event, 0, len(evts))
+	for _, evt := range evts {
+		r = append(r, &event{
+			Next:     evt.Next.String(),
+			Sequence: evt.Sequence.Int64(),
+			Message:  evt.Message,
+		})
+	}
+	return r
+}
+
 func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptProof) (*MessageProof, error) {
 	//update bls
 	nextBls := &types.BMCLinkStatus{}
@@ -116,11 +133,7 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 			continue
 		}
 		numOfEvents += len(rp.Events)
-		//if b, err = codec.RLP.MarshalToBytes(rp.Events); err != nil {
-		//	return nil, err
-		//}
-		//TODO refactoring
-		if b, err = rlp.EncodeToBytes(rp.Events); err != nil {
+		if b, err = codec.RLP.MarshalToBytes(newEvents(rp.Events)); err != nil {
 			return nil, err
 		}
 		r := &client.Receipt{
diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 655fde5..9e757f9 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -392,6 +392,6 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 }
 
 func sizeOfEvent(rp *client.Event) (int, error) {
-	b, err := rlp.EncodeToBytes(rp)
+	b, err := codec.RLP.MarshalToBytes(newEvents([]*client.Event{rp}))
 	return len(b), err
 }
-- 
2.43.0


From 3986aef14ed106bf4309d70567c94f2f602ef550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:43 +0000
Subject: [PATCH 35/61] fix: eth client: block monitor skipped blocks when a
 head was missed, delivered blocks below the requested height and repeated
 announced ones

---
 chain/ethbr/client/client.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index e43cc20..e066fa7 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -265,21 +265,23 @@ func (c *Client) MonitorBlock(br *BlockRequest, cb func(b *BlockNotification) er
 		return cb(bn)
 	}
 	var (
-		h   *big.Int
+		h   = new(big.Int).Set(br.Height)
 		one = big.NewInt(1)
 	)
 	return c.Monitor(func(bh *types.Header) error {
-		if h == nil {
-			h = new(big.Int).Set(br.Height)
-			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
-				if tbh, err := c.GetHeaderByHeight(h); err != nil {
-					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
-					return err
-				} else if err = onBlockHeader(tbh); err != nil {
-					return err
-				}
+		for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
+			if tbh, err := c.GetHeaderByHeight(h); err != nil {
+				c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
+				return err
+			} else if err = onBlockHeader(tbh); err != nil {
+				return err
 			}
 		}
+		if h.Cmp(bh.Number) > 0 {
+			//already delivered or lower than requested height
+			return nil
+		}
+		h = h.Add(h, one)
 		return onBlockHeader(bh)
 	})
 }
-- 
2.43.0


From 46701a66f26c04ea6a7b6699bcc1675248318fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:54 +0000
Subject: [PATCH 36/61] fix: icon client: closing a monitor while it ended
 crashed on concurrent writes

---
 chain/icon/client/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index f253b77..f43a04c 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -504,8 +504,9 @@ func (c *Client) wsRequest(conn *websocket.Conn, reqPtr interface{}) error {
 
 func (c *Client) wsClose(conn *websocket.Conn) {
 	c._removeWsConn(conn)
-	if err := conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "")); err != nil {
-		c.l.Debugf("fail to WriteMessage CloseNormalClosure err:%+v", err)
+	//WriteControl can be called concurrently, the reader may close the connection as well
+	if err := conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second)); err != nil {
+		c.l.Debugf("fail to WriteControl CloseNormalClosure err:%+v", err)
 	}
 	if err := conn.Close(); err != nil {
 		c.l.Debugf("fail to Close err:%+v", err)
-- 
2.43.0


From d6a7648420e76d08931d6cad1384612e46d0d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:06 +0000
Subject: [PATCH 37/61] fix: receivers: Stop before the monitor was connected
 left it running

---
 chain/icon/bridge/bridge.go | 6 ++++++
 chain/icon/btp2/btp2.go     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 9ffa0c2..7528076 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -244,6 +244,12 @@ func (b *bridge) Monitoring(bs *types.BMCLinkStatus) error {
 	onConn := func(conn *websocket.Conn) {
 		b.l.Debugf("ReceiveLoop monitorBTP2Block height:%d seq:%d networkId:%d connected %s",
 			bs.Verifier.Height, bs.TxSeq, b.nid, conn.LocalAddr().String())
+		select {
+		case <-b.stop:
+			//stopped before it was connected
+			b.c.CloseMonitor(conn)
+		default:
+		}
 	}
 
 	err := b.monitorBTP2Block(req, bs, onConn, onErr)
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 7d2c7cb..d933813 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -317,6 +317,12 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 	onConn := func(conn *websocket.Conn) {
 		b.l.Debugf("ReceiveLoop monitorBTP2Block height:%d seq:%d networkId:%d connected %s",
 			bs.Verifier.Height, bs.TxSeq, b.nid, conn.LocalAddr().String())
+		select {
+		case <-b.stop:
+			//stopped before it was connected
+			b.c.CloseMonitor(conn)
+		default:
+		}
 	}
 
 	err := b.monitorBTP2Block(req, bs, onConn, onErr)
-- 
2.43.0


From cd5a21dbc60cb5609268e79c5f917f71f088070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:31 +0000
Subject: [PATCH 38/61] fix: jsonrpc: null answers crashed, failures without an
 error object gave an empty error, large numbers of results were rounded

---
 common/jsonrpc/client.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..4a8f4ff 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("empty response body, jsonrpcResp:%+v", resp)
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
@@ -127,6 +131,9 @@ func (c *Client) Raw(reqB []byte) (resp *http.Response, err error) {
 
 func decodeResponseBody(resp *http.Response) (jrResp *Response, err error) {
 	defer resp.Body.Close()
-	err = json.NewDecoder(resp.Body).Decode(&jrResp)
+	d := json.NewDecoder(resp.Body)
+	//result is marshaled again, so numbers should be kept as they are
+	d.UseNumber()
+	err = d.Decode(&jrResp)
 	return
 }
-- 
2.43.0


From 4a38368ccd807be84874a5facc74eb25d2d874c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:08 +0000
Subject: [PATCH 39/61] fix: icon client: short messages of system errors
 crashed, result of a duplicate transaction was asked with no hash

---
 chain/icon/client/client.go | 14 +++++++++++---
 chain/icon/sender.go        |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index f43a04c..b01173e 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,12 +146,12 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, err := SubErrorCode(re); err == nil {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
 								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
@@ -546,6 +546,14 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SubErrorCode returns the code of the system error, of which message is in the form of 'E<code>:<message>'
+func SubErrorCode(je *jsonrpc.Error) (int64, error) {
+	if len(je.Message) < 5 {
+		return 0, fmt.Errorf("invalid message of system error %s", je.Message)
+	}
+	return strconv.ParseInt(je.Message[1:5], 0, 32)
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -555,7 +563,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, err := SubErrorCode(re); err == nil {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..db5cd18 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -232,10 +231,11 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, err := client.SubErrorCode(je); err == nil {
 							switch subEc {
 							case client.DuplicateTransactionError:
 								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 484b2f086367779557f3e0d9340052c48c3e4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:08 +0000
Subject: [PATCH 40/61] fix: icon sender: message of exactly the size limit or
 a multiple of it was sent with an empty last fragment

---
 chain/icon/sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index db5cd18..ca137ae 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -100,7 +100,7 @@ func (s *sender) GetMarginForLimit() int64 {
 
 func (s *sender) _relay(rm types.RelayMessage) (*client.TransactionHashParam, error) {
 	msg := rm.Bytes()
-	idx := len(msg) / txSizeLimit
+	idx := (len(msg) - 1) / txSizeLimit
 	if idx == 0 {
 		rmp := &client.BMCRelayMethodParams{
 			Prev:     s.src.String(),
-- 
2.43.0


From 8fb1ee028d653b3496b79a55215c664bab227026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:08 +0000
Subject: [PATCH 41/61] fix: senders: failed status queries were reported as
 nil status which crashed the relay, failed result without details crashed

---
 chain/ethbr/sender.go | 6 +++++-
 chain/icon/sender.go  | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..f34ded6 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Warnf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index ca137ae..c8c1e6f 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -144,7 +144,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Warnf("fail to GetStatus err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
@@ -269,6 +273,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure without code, status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From 7988976bf25941a3c83fd4c35f05d61308dc09c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:22 +0000
Subject: [PATCH 42/61] fix: senders: Stop while a result was awaited crashed
 the relay

---
 chain/ethbr/sender.go | 43 ++++++++++++++++++++++++++++++++++---------
 chain/icon/sender.go  | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 68 insertions(+), 18 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index f34ded6..f6c1845 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -21,6 +21,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/core/types"
@@ -55,15 +56,19 @@ type sender struct {
 	bmc                *binding.BMC
 	sc                 chan btpTypes.SenderMessage
 	isFoundOffsetBySeq bool
+	stop               chan struct{}
+	stopOnce           sync.Once
+	scMtx              sync.RWMutex
 }
 
 func NewSender(src, dst btpTypes.BtpAddress, w client.Wallet, endpoint string, opt map[string]interface{}, l log.Logger) btpTypes.Sender {
 	s := &sender{
-		src: src,
-		dst: dst,
-		w:   w,
-		l:   l,
-		sc:  make(chan btpTypes.SenderMessage),
+		src:  src,
+		dst:  dst,
+		w:    w,
+		l:    l,
+		sc:   make(chan btpTypes.SenderMessage),
+		stop: make(chan struct{}),
 	}
 
 	b, err := json.Marshal(opt)
@@ -86,7 +91,27 @@ func (s *sender) Start() (<-chan btpTypes.SenderMessage, error) {
 }
 
 func (s *sender) Stop() {
-	close(s.sc)
+	s.stopOnce.Do(func() {
+		close(s.stop)
+		s.scMtx.Lock()
+		defer s.scMtx.Unlock()
+		close(s.sc)
+	})
+}
+
+// report sends the message unless the sender is stopped
+func (s *sender) report(m btpTypes.SenderMessage) {
+	s.scMtx.RLock()
+	defer s.scMtx.RUnlock()
+	select {
+	case <-s.stop:
+		return
+	default:
+	}
+	select {
+	case s.sc <- m:
+	case <-s.stop:
+	}
 }
 func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 	var status binding.TypesLinkStats
@@ -111,7 +136,7 @@ func (s *sender) SendStatus() {
 		s.l.Warnf("fail to GetStatus err:%+v", err)
 		return
 	}
-	s.sc <- bs
+	s.report(bs)
 }
 
 func (s *sender) GetMarginForLimit() int64 {
@@ -133,10 +158,10 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 		s.l.Debugf("result fail rm id : %d ", id)
 
 		if ec, ok := errors.CoderOf(err); ok {
-			s.sc <- &btpTypes.RelayResult{
+			s.report(&btpTypes.RelayResult{
 				Id:  id,
 				Err: ec.ErrorCode(),
-			}
+			})
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index c8c1e6f..08b752f 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -53,15 +54,19 @@ type sender struct {
 	}
 	sc                 chan types.SenderMessage
 	isFoundOffsetBySeq bool
+	stop               chan struct{}
+	stopOnce           sync.Once
+	scMtx              sync.RWMutex
 }
 
 func NewSender(src, dst types.BtpAddress, w client.Wallet, endpoint string, opt map[string]interface{}, l log.Logger) types.Sender {
 	s := &sender{
-		src: src,
-		dst: dst,
-		w:   w,
-		l:   l,
-		sc:  make(chan types.SenderMessage),
+		src:  src,
+		dst:  dst,
+		w:    w,
+		l:    l,
+		sc:   make(chan types.SenderMessage),
+		stop: make(chan struct{}),
 	}
 	b, err := json.Marshal(opt)
 	if err != nil {
@@ -82,7 +87,27 @@ func (s *sender) Start() (<-chan types.SenderMessage, error) {
 }
 
 func (s *sender) Stop() {
-	close(s.sc)
+	s.stopOnce.Do(func() {
+		close(s.stop)
+		s.scMtx.Lock()
+		defer s.scMtx.Unlock()
+		close(s.sc)
+	})
+}
+
+// report sends the message unless the sender is stopped
+func (s *sender) report(m types.SenderMessage) {
+	s.scMtx.RLock()
+	defer s.scMtx.RUnlock()
+	select {
+	case <-s.stop:
+		return
+	default:
+	}
+	select {
+	case s.sc <- m:
+	case <-s.stop:
+	}
 }
 
 func (s *sender) Relay(rm types.RelayMessage) (int, error) {
@@ -132,10 +157,10 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 		s.l.Debugf("result fail rm id : %d ", id)
 
 		if ec, ok := errors.CoderOf(err); ok {
-			s.sc <- &types.RelayResult{
+			s.report(&types.RelayResult{
 				Id:  id,
 				Err: ec.ErrorCode(),
-			}
+			})
 		}
 	} else {
 		s.l.Debugf("result success rm id : %d ", id)
@@ -149,7 +174,7 @@ func (s *sender) SendStatus() {
 		s.l.Warnf("fail to GetStatus err:%+v", err)
 		return
 	}
-	s.sc <- bs
+	s.report(bs)
 }
 
 func (s *sender) TxSizeLimit() int {
-- 
2.43.0


From 2ee7d8b2d5543786d167134af91fd20f6e8c33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:22 +0000
Subject: [PATCH 43/61] fix: eth client: revert message of a transaction
 crashed when it does not fail anymore or was made of a connection error,
 failed sending was reported as success

---
 chain/ethbr/client/client.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index e066fa7..a57eecc 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -120,7 +120,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
@@ -343,7 +343,7 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		return "", err
 	}
 
-	from, err := types.Sender(types.NewEIP155Signer(tx.ChainId()), tx)
+	from, err := types.Sender(types.LatestSignerForChainID(tx.ChainId()), tx)
 	if err != nil {
 		return "", err
 	}
@@ -358,6 +358,13 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 	}
 
 	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if err == nil {
+		//the state is changed, so that the transaction would not be reverted anymore
+		return "", nil
+	}
+	if _, ok := err.(rpc.Error); !ok {
+		return "", err
+	}
 	return err.Error(), nil
 
 }
-- 
2.43.0


From 63b057bfc39e08e8553da31984afea8291d3ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 44/61] fix: ethbr: link status values over 63 bits were
 truncated

---
 chain/ethbr/sender.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index f6c1845..93fa30c 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -19,6 +19,7 @@ package ethbr
 import (
 	"encoding/json"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 	"sync"
@@ -121,6 +122,12 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 		return nil, err
 	}
 
+	for _, v := range []*big.Int{status.TxSeq, status.RxSeq, status.Verifier.Height} {
+		if !v.IsInt64() {
+			return nil, errors.Errorf("out of range value in status %s", v)
+		}
+	}
+
 	ls := &btpTypes.BMCLinkStatus{}
 	ls.TxSeq = status.TxSeq.Int64()
 	ls.RxSeq = status.RxSeq.Int64()
-- 
2.43.0


From dd13b327254adac63285233f8488eaccfb66bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:27 +0000
Subject: [PATCH 45/61] fix: icon sender: null or incomplete status was taken
 as a link status of zero

---
 chain/icon/client/client.go | 3 +++
 chain/icon/sender.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index b01173e..b06c546 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -297,6 +297,9 @@ func (c *Client) GetStatus(fromAddress string, src types.BtpAddress, dst types.B
 	if err != nil {
 		return nil, err
 	}
+	if len(bs.TxSeq) == 0 || len(bs.RxSeq) == 0 || len(bs.Verifier.Height) == 0 {
+		return nil, fmt.Errorf("incomplete status %+v", bs)
+	}
 	ls := &types.BMCLinkStatus{}
 	if ls.TxSeq, err = bs.TxSeq.Value(); err != nil {
 		return nil, err
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 08b752f..e91ad2b 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -198,6 +198,9 @@ func (s *sender) GetStatus() (*types.BMCLinkStatus, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(bs.TxSeq) == 0 || len(bs.RxSeq) == 0 || len(bs.Verifier.Height) == 0 {
+		return nil, fmt.Errorf("incomplete status %+v", bs)
+	}
 	ls := &types.BMCLinkStatus{}
 	if ls.TxSeq, err = bs.TxSeq.Value(); err != nil {
 		return nil, err
-- 
2.43.0


From e8fc39760d7908ec9de3c88dda45ebd842ac20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:22 +0000
Subject: [PATCH 46/61] fix: eth sender: requests without time limit waited
 forever for an answer that was lost

---
 chain/ethbr/client/client.go | 11 ++++++++---
 chain/ethbr/sender.go        | 10 +++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a57eecc..f27cd69 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -97,7 +97,9 @@ func (c *Client) NewTransactOpts(k *ecdsa.PrivateKey) (*bind.TransactOpts, error
 	if err != nil {
 		return nil, err
 	}
-	txo.GasPrice, _ = c.ethClient.SuggestGasPrice(context.Background())
+	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)
+	defer cancel()
+	txo.GasPrice, _ = c.ethClient.SuggestGasPrice(ctx)
 	txo.GasLimit = uint64(DefaultGasLimit)
 	return txo, nil
 }
@@ -338,7 +340,10 @@ func (c *Client) GetBackend() bind.ContractBackend {
 }
 
 func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
-	tx, _, err := c.ethClient.TransactionByHash(context.Background(), hash)
+	ctx, cancel := context.WithTimeout(context.Background(), DefaultTimeout)
+	defer cancel()
+
+	tx, _, err := c.ethClient.TransactionByHash(ctx, hash)
 	if err != nil {
 		return "", err
 	}
@@ -357,7 +362,7 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		Data:     tx.Data(),
 	}
 
-	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	_, err = c.ethClient.CallContract(ctx, msg, nil)
 	if err == nil {
 		//the state is changed, so that the transaction would not be reverted anymore
 		return "", nil
diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 93fa30c..2228f97 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -17,6 +17,7 @@
 package ethbr
 
 import (
+	"context"
 	"encoding/json"
 	"math"
 	"math/big"
@@ -25,6 +26,7 @@ import (
 	"sync"
 	"time"
 
+	"github.com/ethereum/go-ethereum/accounts/abi/bind"
 	"github.com/ethereum/go-ethereum/core/types"
 
 	btpTypes "github.com/icon-project/btp/common/types"
@@ -116,7 +118,9 @@ func (s *sender) report(m btpTypes.SenderMessage) {
 }
 func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 	var status binding.TypesLinkStats
-	status, err := s.bmc.GetStatus(nil, s.src.String())
+	ctx, cancel := context.WithTimeout(context.Background(), client.DefaultTimeout)
+	defer cancel()
+	status, err := s.bmc.GetStatus(&bind.CallOpts{Context: ctx}, s.src.String())
 	if err != nil {
 		s.l.Errorf("Error retrieving relay status from BMC")
 		return nil, err
@@ -224,6 +228,10 @@ func (s *sender) _relay(rm btpTypes.RelayMessage) (*client.TransactionHashParam,
 		return nil, err
 	}
 
+	ctx, cancel := context.WithTimeout(context.Background(), client.DefaultTimeout)
+	defer cancel()
+	t.Context = ctx
+
 	var tx *types.Transaction
 
 	tx, err = s.bmc.HandleRelayMessage(t, s.src.String(), rm.Bytes()[:])
-- 
2.43.0


From 0c870bb546515049778d7a6d997eb2fa39f97efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:44 +0000
Subject: [PATCH 47/61] fix: relay: error of a link that ended while the other
 direction was being set up was dropped, the relay stayed alive

---
 cmd/relay/linkfatory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..37e7bb0 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -17,7 +17,7 @@ import (
 
 func NewLink(cfg *Config, srcWallet wallet.Wallet, dstWallet wallet.Wallet, modLevels map[string]string) error {
 	var err error
-	linkErrCh := make(chan error)
+	linkErrCh := make(chan error, 2)
 
 	switch cfg.Direction {
 	case FrontDirection:
-- 
2.43.0


From df6a2f527c37678a71331cf80e47b827f7919441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 48/61] fix: bmc: report any revert of a service as BSH_REVERT

A service reverting with code 6 or 11 was reported to the sender as a missing service or route.
---
 .../main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f97ceac..60ad632 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -796,12 +796,12 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             return new ResponseMessage(ResponseMessage.CODE_SUCCESS, "");
         }
         long code = ResponseMessage.CODE_UNKNOWN;
-        if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
+        if (BTPException.Type.BSH.equals(exception.getType())) {
+            code = ResponseMessage.CODE_BSH_REVERT;
+        } else if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_ROUTE;
         } else if (BMCException.Code.NotExistsBSH.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_BSH;
-        } else if (BTPException.Type.BSH.equals(exception.getType())) {
-            code = ResponseMessage.CODE_BSH_REVERT;
         }
         return new ResponseMessage(code, exception.getMessage());
     }
-- 
2.43.0


From dd3daf539128426940eb6afe7ee2c539b5c2bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 49/61] fix: bmc: collect the remaining fee of a message once

The fees of a one-way message or answer whose service failed were credited twice.
---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 60ad632..6a1a9b1 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -401,6 +401,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 for (BigInteger v : feeList) {
                     sum = sum.add(v);
                 }
+                feeInfo.setValues(new BigInteger[0]);
                 collectRemainFee(feeInfo.getNetwork(), sum);
             }
         }
-- 
2.43.0


From 0fc4f239bad1b14a542d5f68eb5e81b076d005dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 50/61] fix: bmc: collect the remaining fee of a dropped
 one-way message

dropMessage lost it; the Solidity message center collects it.
---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 6a1a9b1..12fb807 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -1004,6 +1004,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
         if (snCompare > 0) {
             sendError(prev, assumeMsg, e);
         } else {
+            collectRemainFee(assumeMsg.getFeeInfo());
             emitMessageDropped(prev, _seq, assumeMsg, e);
         }
     }
-- 
2.43.0


From 710e5027ef317a65514fa262a84bbd81bd83b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 51/61] fix: bmc: credit a claim only when its response was
 sent

addReward ignores negative amounts, so the credit stayed and the sender was refunded as well.
---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 12fb807..23fa9a4 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -646,13 +646,8 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 ClaimMessage claimMsg = ClaimMessage.fromBytes(payload);
                 BigInteger reward = claimMsg.getAmount();
                 Address receiver = toAddress(claimMsg.getReceiver());
+                sendInternalResponse(src, nsn);
                 addReward(receiver, btpAddr.net(), reward);
-                try {
-                    sendInternalResponse(src, nsn);
-                } catch (Exception e) {
-                    addReward(receiver, btpAddr.net(), reward.negate());
-                    throw e;
-                }
                 break;
             case Response:
                 ResponseMessage responseMsg = ResponseMessage.fromBytes(payload);
-- 
2.43.0


From 4582ded3a3e073cbca8e322cc07cda16759aa49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 52/61] fix: bmc: removeLink removes all relays of the link

The loop stopped half way, so relays of a removed link could deliver once it was added again.
---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 23fa9a4..4ea9880 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -251,7 +251,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             throw BMCException.unknown("could not remove, referred by route");
         }
         ArrayDB<Address> arrayDB = relays.at(_link);
-        for(int i = 0; i < arrayDB.size(); i++ ) {
+        while (arrayDB.size() > 0) {
             arrayDB.removeLast();
         }
         BigInteger networkId = btpLinkNetworkIds.get(_link);
-- 
2.43.0


From a8bf1207e6dec0c5fc5b7a4925e2222b8d90c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 53/61] fix: bmv/btpblock: hash the whole path to the network
 sections root

Every step hashed the leaf again, so blocks with more than two network sections were refused.
---
 .../java/foundation/icon/btp/bmv/btpblock/BlockHeader.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
index 9870a9d..eda81c1 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
@@ -159,9 +159,9 @@ public class BlockHeader {
         byte[] h = leaf;
         for (NetworkSectionToRoot nsRoot : networkSectionToRoot) {
             if (nsRoot.dir == NetworkSectionToRoot.LEFT) {
-                h = concatAndHash(nsRoot.value, leaf);
+                h = concatAndHash(nsRoot.value, h);
             } else if (nsRoot.dir == NetworkSectionToRoot.RIGHT) {
-                h = concatAndHash(leaf, nsRoot.value);
+                h = concatAndHash(h, nsRoot.value);
             }
         }
         return h;
-- 
2.43.0


From f019a2cb954e42c91a229bc6f644ce261ab4b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 54/61] fix: bmv/btpblock: message numbers of blocks have no
 sequence offset

With an offset every block update was refused.
---
 .../foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
index a54d5f4..e54b2ba 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
@@ -137,8 +137,7 @@ public class BTPMessageVerifier implements BMV {
         var prev = blockHeader.getPrev();
         var firstMessageSn = bmvProperties.getLastFirstMessageSN();
         var messageCount = bmvProperties.getLastMessageCount();
-        var seqOffset = bmvProperties.getSequenceOffset();
-        var messageSn = firstMessageSn.add(messageCount).subtract(seqOffset);
+        var messageSn = firstMessageSn.add(messageCount);
         if (messageSn.compareTo(blockHeader.getFirstMessageSn()) > 0) {
             throw BMVException.alreadyVerified("already verified");
         } else if (messageSn.compareTo(blockHeader.getFirstMessageSn()) < 0) {
-- 
2.43.0


From 9624ef741ea85d518d2005aa3fd4c833e6ac1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:48 +0000
Subject: [PATCH 55/61] fix: bmv/bridge: return every verified message

All but the last message of a relay message were returned as null, in the first place only the last.
---
 .../java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
index 5f1f99d..de7da21 100644
--- a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
+++ b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
@@ -78,7 +78,7 @@ public class BTPMessageVerifier implements BMV {
         byte[][] ret = new byte[msgs.size()][];
         int i = 0;
         for (byte[] msg : msgs) {
-            ret[i] = msg;
+            ret[i++] = msg;
         }
         return ret;
     }
-- 
2.43.0


From 5ad32956126febe407a21f1a1d5a0d3118a614ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:31 +0000
Subject: [PATCH 56/61] fix: bmv/icon: return every verified message

---
 .../java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
index 42fd666..8d0eba0 100644
--- a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
+++ b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
@@ -133,7 +133,7 @@ public class BTPMessageVerifier implements BMV {
                 ret = new byte[msgs.size()][];
                 int i = 0;
                 for (byte[] msg : msgs) {
-                    ret[i] = msg;
+                    ret[i++] = msg;
                 }
             }
         }
-- 
2.43.0


From fbef9b3e6e1ae0b28756aacc0c9e96e2edc4328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:31 +0000
Subject: [PATCH 57/61] fix: nativecoin: transfer every amount of the native
 coin in a batch

---
 .../java/foundation/icon/btp/nativecoin/NativeCoinService.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
index c39b659..bef465f 100644
--- a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
+++ b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
@@ -471,7 +471,8 @@ public class NativeCoinService implements NCS, IRC31Receiver, BSH, OwnerManager
                 coinNames.add(coinName);
                 amounts.add(amount);
             } else if (name.equals(coinName)) {
-                nativeCoinTransferAmount = amount;
+                nativeCoinTransferAmount = nativeCoinTransferAmount == null ?
+                        amount : nativeCoinTransferAmount.add(amount);
             } else {
                 throw NCSException.unknown("Invalid Token");
             }
-- 
2.43.0


From f1086878eea95825295f55a36729ae8ba1ebc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:08 +0000
Subject: [PATCH 58/61] fix: fee-aggregation: refuse a negative duration

---
 .../src/main/java/foundation/icon/btp/FeeAggregationSCORE.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 7e10a14..2ce9961 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -174,7 +174,7 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         if (!Context.getCaller().equals(Context.getOwner())) {
             Context.revert(ErrorCode.PERMISSION_DENIED, "permission denied");
         }
-        if (_duration.equals(BigInteger.ZERO)) {
+        if (_duration.compareTo(BigInteger.ZERO) <= 0) {
             Context.revert(ErrorCode.INVALID_VALUE, "_duration is invalid, must > 0");
         }
 
-- 
2.43.0


From 3840e1f57b24d449801c4c438f7e47827012e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:02 +0000
Subject: [PATCH 59/61] fix: fee-aggregation: a deposit of zero listed the
 depositor again

---
 .../src/main/java/foundation/icon/btp/Syndication.java          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
index c5616d8..85b7463 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
@@ -80,7 +80,7 @@ public class Syndication {
 
     public void deposit(Address depositor, BigInteger amount) {
         BigInteger totalUserDeposit = FeeAggregationSCORE.syndicationDepositorAmount.at(this.id).getOrDefault(depositor, BigInteger.ZERO);
-        if (totalUserDeposit.compareTo(BigInteger.ZERO) == 0) {
+        if (totalUserDeposit.compareTo(BigInteger.ZERO) == 0 && amount.compareTo(BigInteger.ZERO) > 0) {
             FeeAggregationSCORE.syndicationDepositorList.at(this.id).add(depositor);
         }
         totalUserDeposit = totalUserDeposit.add(amount);
-- 
2.43.0


From d76b6263d908a1b121aebe5e9585b1f6455ec242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:02 +0000
Subject: [PATCH 60/61] fix: fee-aggregation: keep the coins that are to be
 refunded

---
 .../foundation/icon/btp/FeeAggregationSCORE.java | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 2ce9961..3d32656 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -444,18 +444,19 @@ public class FeeAggregationSCORE extends IRC31Receiver {
             Context.revert(ErrorCode.INVALID_TOKEN_BALANCE, "not enough token");
         }
 
-        // Send ICX to CPS
-        if (!_syndication.totalDeposited().equals(BigInteger.ZERO)) {
-            Context.call(_syndication.totalDeposited(), this.addressCPS.get(), "add_fund");
-        }
+        BigInteger totalRefundable = this.distributeTokenShare(_token, _syndication);
 
-        this.distributeTokenShare(_token, _syndication);
+        // Send ICX to CPS, except what is to be refunded
+        BigInteger fund = _syndication.totalDeposited().subtract(totalRefundable);
+        if (!fund.equals(BigInteger.ZERO)) {
+            Context.call(fund, this.addressCPS.get(), "add_fund");
+        }
 
         // Event log
         SyndicationEnded(_syndication.id(), _token.name(), _syndication.tokenAmount(), Context.getBlockTimestamp());
     }
 
-    public void distributeTokenShare(Token _token, Syndication _syndication) {
+    public BigInteger distributeTokenShare(Token _token, Syndication _syndication) {
         BigInteger syndicationId = _syndication.id();
         BigInteger tokenAmount = _syndication.tokenAmount();
         BigInteger tokenUnit = _token.getUnit();
@@ -465,6 +466,7 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         int numberDepositor = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).size();
         BigInteger totalDeposited = _syndication.totalDeposited();
         BigInteger totalDistributedToken = BigInteger.ZERO;
+        BigInteger totalRefundable = BigInteger.ZERO;
         for (int i = 0; i < numberDepositor; i++) {
             Address currentDepositorAddress = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).get(i);
             BigInteger currentDepositorAmount = FeeAggregationSCORE.syndicationDepositorAmount.at(syndicationId).get(currentDepositorAddress);
@@ -481,9 +483,11 @@ public class FeeAggregationSCORE extends IRC31Receiver {
 
             if (icxRemain.compareTo(BigInteger.ZERO) > 0) {
                 this.refundableBalances.set(currentDepositorAddress, getSafeRefundableBalance(currentDepositorAddress).add(icxRemain));
+                totalRefundable = totalRefundable.add(icxRemain);
             }
         }
         this.lockedBalances.set(_token.name(), getSafeLockBalance(_token.name()).add(totalDistributedToken));
+        return totalRefundable;
     }
 
     boolean isSyndicationExpired(String _tokenName) {
-- 
2.43.0


From 1824d731a649aa77ff025d3fdc56a26ab2fb51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:51 +0000
Subject: [PATCH 61/61] fix: relay: save's key store options were never defined

The save command looks at save_src_key_store and save_dst_key_store, but
defined an option save_key_store only, which had no effect.
---
 cmd/relay/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 30bd818..486a416 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -263,7 +263,8 @@ func main() {
 		},
 	}
 	rootCmd.AddCommand(saveCmd)
-	saveCmd.Flags().String("save_key_store", "", "KeyStore File path to save")
+	saveCmd.Flags().String("save_src_key_store", "", "Source KeyStore File path to save")
+	saveCmd.Flags().String("save_dst_key_store", "", "Destination KeyStore File path to save")
 
 	startCmd := &cobra.Command{
 		Use:   "start",
-- 
2.43.0

