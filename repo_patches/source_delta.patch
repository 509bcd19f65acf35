From 7a4603a2a6ebe781c4e74c24f43de1a5bb7c8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 01/23] fix: stop a KV scanner after the announced number of
 entries

A NOTIFY frame carries a list of messages. The scanner of a message ignored
its entry count and decoded the following messages as further arguments of
the first one, so their handlers never ran.
---
 pkg/encoding/kvscanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..7705480 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -184,7 +184,9 @@ func (k *KVEntry) Reset() {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if len(k.buf) == 0 {
+	// A scanner over a counted list stops after its last entry, the remaining
+	// bytes belong to whatever follows the list.
+	if k.left == 0 || len(k.buf) == 0 {
 		return false
 	}
 
-- 
2.43.0


From 135e916b6b06edb3f4fbf92d5ca3b4376b8e5efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 02/23] fix: report truncated KV lists and messages as errors

Lengths beyond the buffer made the scanners panic, a list with fewer entries
than announced was accepted, and an error was forgotten again as soon as a
later integer entry decoded.
---
 pkg/encoding/kvscanner.go      | 34 ++++++++++++++++++++++++++++++----
 pkg/encoding/messagescanner.go |  6 ++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 7705480..d5770f5 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -183,10 +183,23 @@ func (k *KVEntry) Reset() {
 	k.intVal = 0
 }
 
+// truncated stops the scanner because an entry exceeds the buffer.
+func (k *KVScanner) truncated() bool {
+	k.lastErr = ErrUnterminatedSequence
+	return false
+}
+
 func (k *KVScanner) Next(e *KVEntry) bool {
+	if k.lastErr != nil {
+		return false
+	}
+
 	// A scanner over a counted list stops after its last entry, the remaining
 	// bytes belong to whatever follows the list.
 	if k.left == 0 || len(k.buf) == 0 {
+		if k.left > 0 {
+			return k.truncated()
+		}
 		return false
 	}
 
@@ -203,6 +216,11 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
+	// The name is followed by at least the byte holding the data type.
+	if nameLen >= uint64(len(k.buf)) {
+		return k.truncated()
+	}
+
 	e.name = k.buf[:nameLen]
 	k.buf = k.buf[nameLen:]
 
@@ -227,10 +245,16 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
+		if len(k.buf) < net.IPv4len {
+			return k.truncated()
+		}
 		e.byteVal = k.buf[:net.IPv4len]
 		k.buf = k.buf[net.IPv4len:]
 
 	case DataTypeIPV6:
+		if len(k.buf) < net.IPv6len {
+			return k.truncated()
+		}
 		e.byteVal = k.buf[:net.IPv6len]
 		k.buf = k.buf[net.IPv6len:]
 
@@ -242,6 +266,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if nameLen > uint64(len(k.buf)) {
+			return k.truncated()
+		}
 		e.byteVal = k.buf[:nameLen]
 		k.buf = k.buf[nameLen:]
 
@@ -253,6 +280,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
+		if valLen > uint64(len(k.buf)) {
+			return k.truncated()
+		}
 		e.byteVal = k.buf[:valLen]
 		k.buf = k.buf[valLen:]
 
@@ -265,10 +295,6 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return nil
-	}
-
 	e := AcquireKVEntry()
 	defer ReleaseKVEntry(e)
 	for k.Next(e) {
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..02eb25d 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -85,6 +85,12 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	// The name is followed by at least the byte holding the entry count.
+	if nameLen >= uint64(len(s.buf)) {
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
+
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From 5e27dfae0ef45ec464f9f2ef0c9825c480db6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 03/23] fix: make KVWriter setters all-or-nothing

A setter that ran out of space after the key had been written left a key
without a value behind, and a key filling the buffer exactly panicked.
---
 pkg/encoding/kvwriter.go | 81 ++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..9939d1d 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -45,23 +45,36 @@ func (aw *KVWriter) Bytes() []byte {
 	return aw.data[:aw.off]
 }
 
-func (aw *KVWriter) writeKey(name []byte) error {
+// writeKey writes the name of an entry and the byte holding its data type.
+func (aw *KVWriter) writeKey(name []byte, t byte) error {
 	n, err := PutBytes(aw.data[aw.off:], name)
 	if err != nil {
 		return err
 	}
 
-	aw.off += n
+	if n >= len(aw.data)-aw.off {
+		return ErrInsufficientSpace
+	}
+
+	aw.data[aw.off+n] = t
+	aw.off += n + 1
 	return nil
 }
 
-func (aw *KVWriter) SetString(name string, v string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
+// rollback drops a partially written entry, a key without its value would
+// corrupt the whole list.
+func (aw *KVWriter) rollback(off int, err *error) {
+	if *err != nil {
+		aw.off = off
 	}
+}
 
-	aw.data[aw.off] = byte(DataTypeString)
-	aw.off++
+func (aw *KVWriter) SetString(name string, v string) (err error) {
+	defer aw.rollback(aw.off, &err)
+
+	if err := aw.writeKey([]byte(name), byte(DataTypeString)); err != nil {
+		return err
+	}
 
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
@@ -72,14 +85,13 @@ func (aw *KVWriter) SetString(name string, v string) error {
 	return nil
 }
 
-func (aw *KVWriter) SetBinary(name string, v []byte) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+func (aw *KVWriter) SetBinary(name string, v []byte) (err error) {
+	defer aw.rollback(aw.off, &err)
+
+	if err := aw.writeKey([]byte(name), byte(DataTypeBinary)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeBinary)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
 		return err
@@ -90,27 +102,15 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 }
 
 func (aw *KVWriter) SetNull(name string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeNull)
-	aw.off++
-
-	return nil
+	return aw.writeKey([]byte(name), byte(DataTypeNull))
 }
 func (aw *KVWriter) SetBool(name string, v bool) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeBool)
+	t := byte(DataTypeBool)
 	if v {
-		aw.data[aw.off] |= dataFlagTrue
+		t |= dataFlagTrue
 	}
-	aw.off++
 
-	return nil
+	return aw.writeKey([]byte(name), t)
 }
 
 func (aw *KVWriter) SetUInt32(name string, v uint32) error {
@@ -121,14 +121,13 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 	return aw.setInt(name, DataTypeInt32, int64(v))
 }
 
-func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+func (aw *KVWriter) setInt(name string, d DataType, v int64) (err error) {
+	defer aw.rollback(aw.off, &err)
+
+	if err := aw.writeKey([]byte(name), byte(d)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(d)
-	aw.off++
-
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
 		return err
@@ -145,20 +144,22 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 	return aw.setInt(name, DataTypeUInt64, int64(v))
 }
 
-func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
+func (aw *KVWriter) SetAddr(name string, v netip.Addr) (err error) {
+	defer aw.rollback(aw.off, &err)
 
+	var t DataType
 	switch {
 	case v.Is6():
-		aw.data[aw.off] = byte(DataTypeIPV6)
+		t = DataTypeIPV6
 	case v.Is4():
-		aw.data[aw.off] = byte(DataTypeIPV4)
+		t = DataTypeIPV4
 	default:
 		return fmt.Errorf("invalid address")
 	}
-	aw.off++
+
+	if err := aw.writeKey([]byte(name), byte(t)); err != nil {
+		return err
+	}
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
-- 
2.43.0


From 445c20008dd5c074aacc6e01d9f598ab435f5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 04/23] fix: reject an invalid address before writing the
 action header

SetAddr with the zero address left an action without a value in the list,
which corrupts the whole ACK.
---
 pkg/encoding/actionwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..052be93 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,12 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	// Check before the header is written, an action without a value would
+	// corrupt the whole list.
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
-- 
2.43.0


From 3c410318df16b9c448f3cba4aa85971fe7d1f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 05/23] fix: report truncated stick-table messages as errors

Decoding panicked or padded with zeros when a definition or an entry was
shorter than announced, and an unknown key type panicked.
---
 peers/sticktable/constants.go   |  2 +-
 peers/sticktable/sticktables.go | 10 ++++++++++
 peers/sticktable/values.go      | 23 +++++++++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..71f2da9 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -33,7 +33,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..1c1f00e 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,6 +38,10 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if nameLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+
 	name := make([]byte, nameLength)
 	offset += copy(name, b[offset:])
 	s.Name = string(name)
@@ -224,11 +228,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..a67eecc 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -17,6 +17,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +36,10 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +55,10 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +78,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, encoding.ErrUnterminatedSequence
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +92,10 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = b[:keySize]
 	return int(keySize), nil
 }
@@ -225,6 +244,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if valueLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+
 	value := make([]byte, valueLength)
 	offset += copy(value, b[offset:])
 	f.Value = value
-- 
2.43.0


From 360e2b25a6eeef51b3643a7713020791069efaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 06/23] fix: encode dictionary data and keys so that they can
 be decoded again

The length of a dictionary entry covers its ID and value, binary keys have
a fixed size, and keys or values which do not fit are errors instead of
being cut off or panicking.
---
 peers/sticktable/sticktables.go |  6 +++
 peers/sticktable/values.go      | 85 +++++++++++++++++++++++++--------
 2 files changed, 72 insertions(+), 19 deletions(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 1c1f00e..3f25428 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -197,11 +197,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index a67eecc..344d1a0 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -223,18 +223,24 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
-	id, n, err := encoding.Varint(b[offset:])
+	if length > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	end := offset + int(length)
+
+	id, n, err := encoding.Varint(b[offset:end])
 	offset += n
 	if err != nil {
 		return offset, err
 	}
 	f.ID = id
 
-	if length == 1 {
+	// Cached entry, there is only an ID.
+	if offset == end {
 		return offset, nil
 	}
 
-	valueLength, n, err := encoding.Varint(b[offset:])
+	valueLength, n, err := encoding.Varint(b[offset:end])
 	offset += n
 	if err != nil {
 		return offset, err
@@ -244,7 +250,7 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
-	if valueLength > uint64(len(b)-offset) {
+	if valueLength > uint64(end-offset) {
 		return offset, encoding.ErrUnterminatedSequence
 	}
 
@@ -256,6 +262,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -264,6 +274,13 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
+	if addr := (*netip.Addr)(v); !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("invalid ipv4 key: %s", addr)
+	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	a := (*netip.Addr)(v).As4()
 	copy(b, a[:])
 	return 4, nil
@@ -273,22 +290,34 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if addr := (*netip.Addr)(v); !addr.IsValid() {
+		return 0, fmt.Errorf("invalid ipv6 key: %s", addr)
+	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	a := (*netip.Addr)(v).As16()
 	copy(b, a[:])
 	return 16, nil
 }
 
 func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
-	n, err := encoding.PutVarint(b, uint64(len(*v)))
-	if err != nil {
-		return n, err
-	}
-
-	return n + copy(b[n:], *v), nil
+	return encoding.PutBytes(b, []byte(*v))
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
+	// Binary keys are transmitted with a fixed size, shorter ones are padded.
+	n := copy(b[:keySize], *v)
+	for i := n; i < int(keySize); i++ {
+		b[i] = 0
+	}
+
+	return int(keySize), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
@@ -330,27 +359,45 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 func (f *DictData) Marshal(b []byte) (int, error) {
 	var offset int
 
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-	offset += n
+	// No entry
+	if f.ID == 0 && len(f.Value) == 0 {
+		return encoding.PutVarint(b, 0)
+	}
+
+	// The entry is preceded by its length: the ID and, unless the remote side
+	// is expected to have it cached already, the value with its own length.
+	var id, valueLen [10]byte
+	idLen, err := encoding.PutVarint(id[:], f.ID)
 	if err != nil {
-		return offset, err
+		return 0, err
 	}
 
-	n, err = encoding.PutVarint(b[offset:], uint64(f.ID))
+	length := idLen
+	if len(f.Value) > 0 {
+		n, err := encoding.PutVarint(valueLen[:], uint64(len(f.Value)))
+		if err != nil {
+			return 0, err
+		}
+		length += n + len(f.Value)
+	}
+
+	n, err := encoding.PutVarint(b[offset:], uint64(length))
 	offset += n
 	if err != nil {
 		return offset, err
 	}
 
+	if length > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
+	}
+
+	offset += copy(b[offset:], id[:idLen])
 	if len(f.Value) > 0 {
-		n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
+		n, err := encoding.PutBytes(b[offset:], f.Value)
 		offset += n
 		if err != nil {
 			return offset, err
 		}
-
-		copy(b[offset:], f.Value)
-		offset += len(f.Value)
 	}
 
 	return offset, nil
-- 
2.43.0


From d3c0f8448a03d418bbcf58cddd5d06e74b5c4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 07/23] fix: decode the parameters of the glitch_rate data type

---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 71f2da9..cc5ff3b 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -110,7 +110,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From 16521e7597c7b1f2bb6aa3a757cab758e6ad728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 08/23] fix: write frames of one connection one after another

A frame takes several writes, ACK frames of concurrent workers could
interleave and desynchronise the connection.
---
 spop/frame.go    | 14 ++++++++++++++
 spop/protocol.go |  8 +++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..8ec7a96 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -80,11 +80,25 @@ func (f *frame) WriteTo(w io.Writer) (int64, error) {
 	return f.writeTo(w, nil)
 }
 
+// lockedWriter is the write side of a connection. Frames take several writes
+// and are sent by the reader and every worker, they hold the lock to not
+// interleave with each other.
+type lockedWriter struct {
+	io.Writer
+	sync.Mutex
+}
+
 func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
 	frameLen := uint64(f.buf.Len()) + uint64(len(payload))
 	if frameLen > uint64(^uint32(0)) {
 		return 0, fmt.Errorf("frame length %d exceeds protocol limit", frameLen)
 	}
+
+	if l, ok := w.(sync.Locker); ok {
+		l.Lock()
+		defer l.Unlock()
+	}
+
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
 	n, err := w.Write(f.length)
diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..67884c6 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -13,6 +13,7 @@ import (
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler, handler Handler) *protocolClient {
 	var c protocolClient
 	c.rw = rw
+	c.w = &lockedWriter{Writer: rw}
 	c.handler = handler
 	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)
 	c.as = as
@@ -21,6 +22,7 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler
 
 type protocolClient struct {
 	rw      io.ReadWriter
+	w       *lockedWriter
 	handler Handler
 	ctx     context.Context
 
@@ -42,7 +44,7 @@ func (c *protocolClient) Close() error {
 	// best effort anyway.
 	_, _ = (&AgentDisconnectFrame{
 		ErrCode: ErrorUnknown,
-	}).WriteTo(c.rw)
+	}).WriteTo(c.w)
 
 	c.ctxCancel(fmt.Errorf("closing client"))
 
@@ -160,7 +162,7 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		Version:      version,
 		MaxFrameSize: c.maxFrameSize,
 		Capabilities: []string{},
-	}).WriteTo(c.rw)
+	}).WriteTo(c.w)
 	return err
 }
 
@@ -193,7 +195,7 @@ func (c *protocolClient) onNotify(f *frame) error {
 		FrameID:              f.meta.FrameID,
 		StreamID:             f.meta.StreamID,
 		ActionWriterCallback: fn,
-	}).writeTo(c.rw, c.maxFrameSize)
+	}).writeTo(c.w, c.maxFrameSize)
 	return err
 }
 
-- 
2.43.0


From ab35a43b2269a9e50a26d5948222f1cddd181989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/23] fix: answer HAPROXY-DISCONNECT and close the connection

HAProxy waits for an AGENT-DISCONNECT frame and for the agent to close the
socket, neither of which happened.
---
 spop/protocol.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spop/protocol.go b/spop/protocol.go
index 67884c6..590e23a 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -200,6 +200,20 @@ func (c *protocolClient) onNotify(f *frame) error {
 }
 
 func (c *protocolClient) onHAProxyDisconnect(f *frame) error {
+	// HAProxy waits for an AGENT-DISCONNECT frame in reply and for the agent
+	// to close the connection.
+	defer func() {
+		c.ctxCancel(nil)
+
+		_, _ = (&AgentDisconnectFrame{
+			ErrCode: ErrorNone,
+		}).WriteTo(c.w)
+
+		if closer, ok := c.rw.(io.Closer); ok {
+			_ = closer.Close()
+		}
+	}()
+
 	if f.buf.Len() == 0 {
 		return fmt.Errorf("disconnect frame without content")
 	}
-- 
2.43.0


From 185c11ccc93490b322b252c849924a351337c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 10/23] fix: cancel handlers before writing the disconnect
 frame

The write blocks when the peer stopped reading, and handlers of the dead
connection were never notified.
---
 spop/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 590e23a..1e570b6 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -40,14 +40,16 @@ func (c *protocolClient) Close() error {
 		return c.ctx.Err()
 	}
 
+	// Handlers have to be notified even when the peer does not read anymore
+	// and the disconnect frame can't be written.
+	c.ctxCancel(fmt.Errorf("closing client"))
+
 	// We ignore any error since the disconnect frame is delivered on
 	// best effort anyway.
 	_, _ = (&AgentDisconnectFrame{
 		ErrCode: ErrorUnknown,
 	}).WriteTo(c.w)
 
-	c.ctxCancel(fmt.Errorf("closing client"))
-
 	return nil
 }
 
-- 
2.43.0


From 2985042cf56fdcfdeab63cf0cdef4f7424485c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 11/23] fix: keep the connection of a HELLO with healthcheck
 set to false

---
 spop/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 1e570b6..37b4478 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -149,7 +149,9 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			if k.ValueBool() {
+				defer c.ctxCancel(nil)
+			}
 		}
 	}
 
-- 
2.43.0


From 2de09fdce3a2232afe9ce7407d7f6590c0d0e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 12/23] fix: reject max-frame-size offers exceeding 32 bit

The offer was truncated before its limits were checked.
---
 spop/protocol.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index 37b4478..a9c87c7 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -132,13 +132,16 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			// Check the limits before the conversion, which would cut off
+			// the upper half of a 64 bit offer.
+			offer := k.ValueInt()
+			if offer < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", offer)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if offer > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", offer)
 			}
+			c.maxFrameSize = uint32(offer)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From e600b652db8c8b2e0b07011e2d12b14e2e1445d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 13/23] fix: send the handshake status before anything else

A handler using the Writer in HandleHandshake put messages in front of the
status line.
---
 peers/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..351b7f5 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -67,12 +67,14 @@ func (c *protocolClient) peerHandshake() error {
 		return err
 	}
 
-	c.handler.HandleHandshake(c.ctx, &h)
-
 	if _, err := c.lockedWrite([]byte(fmt.Sprintf("%d\n", HandshakeStatusHandshakeSucceeded))); err != nil {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	// The handler is allowed to use the Writer, nothing may be sent before the
+	// handshake status.
+	c.handler.HandleHandshake(c.ctx, &h)
+
 	return nil
 }
 
-- 
2.43.0


From 08e9b0697a6e8dd2f7872bfeb44bd5bded17823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 14/23] fix: read nothing beyond the handshake

The scanner buffered messages following the hello, which were lost.
---
 peers/messages.go | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..bce096b 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
 )
 
 // Handshake is composed by these fields:
@@ -41,26 +42,45 @@ func NewHandshake(remotePeer string) *Handshake {
 	}
 }
 
-func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+// readLine reads a single line without consuming anything after it.
+func readLine(r io.Reader) (line string, n int64, err error) {
+	var buf []byte
+	var b [1]byte
+	for len(buf) < bufio.MaxScanTokenSize {
+		if _, err := io.ReadFull(r, b[:]); err != nil {
+			return "", n, err
+		}
+		n++
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
-	if err != nil {
-		return -1, err
+		if b[0] == '\n' {
+			return strings.TrimSuffix(string(buf), "\r"), n, nil
+		}
+		buf = append(buf, b[0])
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	return "", n, bufio.ErrTooLong
+}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
+	var lines [3]string
+	for i := range lines {
+		line, nl, err := readLine(r)
+		n += nl
+		if err != nil {
+			return n, err
+		}
+		lines[i] = line
+	}
+
+	_, err = fmt.Sscanf(lines[0], "%s %s", &h.ProtocolIdentifier, &h.Version)
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+	h.RemotePeer = lines[1]
+
+	_, err = fmt.Sscanf(lines[2], "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	return n, err
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From be98bc64133c553f2424b4c5e78ad3fcf8ec2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 15/23] fix: contain malformed messages to their connection

A claimed message length was allocated up front, which ended the process
when it was large enough, as did every panic of a connection.
---
 peers/peers.go    |  8 ++++++++
 peers/protocol.go | 22 ++++++++++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index 2a4d056..c4a2823 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"net"
+	"runtime/debug"
 	"sync"
 )
 
@@ -68,6 +69,13 @@ func (a *Peer) Serve(l net.Listener) error {
 			defer nc.Close()
 			defer p.Close()
 
+			// don't let a panic caused by one connection kill all of them
+			defer func() {
+				if e := recover(); e != nil {
+					log.Printf("peers: panic: %v\n%s", e, debug.Stack())
+				}
+			}()
+
 			if err := p.Serve(); err != nil && err != p.ctx.Err() {
 				log.Println(err)
 			}
diff --git a/peers/protocol.go b/peers/protocol.go
index 351b7f5..03c8722 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -2,11 +2,13 @@ package peers
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"sync"
 	"time"
@@ -189,7 +191,7 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 	m.MessageClass = MessageClass(header[0])
 	m.MessageType = header[1]
 
-	var readData int
+	var readData int64
 	// All messages with type >= 128 have a payload
 	if m.MessageType >= 128 {
 		dataLength, err := encoding.ReadVarint(r)
@@ -197,17 +199,21 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
-		m.Data = make([]byte, dataLength)
-		readData, err = io.ReadFull(r, m.Data)
-		if err != nil {
-			return int64(n + readData), fmt.Errorf("failed reading message data: %v", err)
+		// The length is claimed by the remote peer, memory is only used for
+		// data that is really there.
+		if dataLength > math.MaxInt64 {
+			return int64(n), fmt.Errorf("invalid data length: %d", dataLength)
 		}
-		if uint64(readData) != dataLength {
-			return int64(n + readData), fmt.Errorf("invalid amount read: %d != %d", dataLength, readData)
+
+		var buf bytes.Buffer
+		readData, err = io.CopyN(&buf, r, int64(dataLength))
+		if err != nil {
+			return int64(n) + readData, fmt.Errorf("failed reading message data: %v", err)
 		}
+		m.Data = buf.Bytes()
 	}
 
-	return int64(n + readData), nil
+	return int64(n) + readData, nil
 }
 
 func (t ErrorMessageType) OnMessage(m *rawMessage, c *protocolClient) error {
-- 
2.43.0


From fdb032960ca2956d1a41de2a68b1076c88a6ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 16/23] fix: close dead connections and the handler exactly
 once

A peer which was silent for 5s was considered dead but never closed, updates
could be delivered to a closed handler, and the handler was not closed at
all when the base context was cancelled.
---
 peers/protocol.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 03c8722..b49f722 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -44,15 +44,20 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	return &c
 }
 
+// Close is called once, after everything else is done with the handler.
 func (c *protocolClient) Close() error {
-	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
-
+	c.ctxCancel()
 	return c.handler.Close()
 }
 
+// shutdown makes Serve return, independent of what it is waiting for.
+func (c *protocolClient) shutdown() {
+	c.ctxCancel()
+	if closer, ok := c.rw.(io.Closer); ok {
+		_ = closer.Close()
+	}
+}
+
 func (c *protocolClient) lockedWrite(data []byte) (int, error) {
 	c.wmu.Lock()
 	defer c.wmu.Unlock()
@@ -108,19 +113,32 @@ func (c *protocolClient) resetLastMessage() {
 }
 
 func (c *protocolClient) heartbeat() {
-	for range c.nextHeartbeat.C {
+	defer c.nextHeartbeat.Stop()
+
+	for {
+		select {
+		case <-c.ctx.Done():
+			return
+		case <-c.nextHeartbeat.C:
+		}
+
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.shutdown()
 			return
 		}
 	}
 }
 
 func (c *protocolClient) lastMessage() {
-	<-c.lastMessageTimer.C
-	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
+	defer c.lastMessageTimer.Stop()
+
+	select {
+	case <-c.ctx.Done():
+	case <-c.lastMessageTimer.C:
+		log.Println("last message timer expired: closing connection")
+	}
+	c.shutdown()
 }
 
 func (c *protocolClient) Serve() error {
@@ -148,6 +166,10 @@ func (c *protocolClient) Serve() error {
 			return fmt.Errorf("reading message: %v", err)
 		}
 
+		if c.ctx.Err() != nil {
+			return c.ctx.Err()
+		}
+
 		c.resetLastMessage()
 		if err := c.messageHandler(&m); err != nil {
 			return fmt.Errorf("message handler: %v", err)
-- 
2.43.0


From 339d0a53384b6ed3175e10b1dcd4ef658948bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 17/23] fix: follow stick-table switch messages

Updates after a switch were delivered as updates of the wrong table.
---
 peers/protocol.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index b49f722..a3db36c 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -27,6 +27,7 @@ type protocolClient struct {
 
 	nextHeartbeat       *time.Ticker
 	lastMessageTimer    *time.Timer
+	tableDefinitions    map[uint64]*sticktable.Definition
 	lastTableDefinition *sticktable.Definition
 	lastEntryUpdate     *sticktable.EntryUpdate
 
@@ -276,9 +277,25 @@ func (t StickTableUpdateMessageType) OnMessage(m *rawMessage, c *protocolClient)
 		}
 		c.lastTableDefinition = &std
 
+		if c.tableDefinitions == nil {
+			c.tableDefinitions = make(map[uint64]*sticktable.Definition)
+		}
+		c.tableDefinitions[std.StickTableID] = &std
+
 		return nil
 	case StickTableUpdateMessageTypeStickTableSwitch:
-		log.Printf("not implemented: %s", t)
+		// The following updates belong to a table defined earlier.
+		tableID, _, err := encoding.Varint(m.Data)
+		if err != nil {
+			return err
+		}
+
+		std, ok := c.tableDefinitions[tableID]
+		if !ok {
+			return fmt.Errorf("cannot switch to unknown table: %d", tableID)
+		}
+		c.lastTableDefinition = std
+
 		return nil
 	case StickTableUpdateMessageTypeUpdateAcknowledge:
 		// HAProxy sends ack messages after receiving our pushed updates.
-- 
2.43.0


From 64c939781d15a85f06e1256034a3e93b606b91c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 18/23] fix: release the writer lock when marshaling an entry
 panics

---
 peers/writer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/peers/writer.go b/peers/writer.go
index 2a378e3..e4dcf7b 100644
--- a/peers/writer.go
+++ b/peers/writer.go
@@ -170,6 +170,8 @@ func marshalEntry(buf []byte, entry *sticktable.EntryUpdate, updateID uint32) (i
 // Note: for bulk operations, prefer SendEntries which batches writes and flushes once.
 func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	updateID := w.nextUpdateID
 	w.nextUpdateID++
 
@@ -180,7 +182,6 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 
 	offset, err := marshalEntry(w.buf, entry, updateID)
 	if err != nil {
-		w.mu.Unlock()
 		return fmt.Errorf("marshaling entry update: %w", err)
 	}
 
@@ -189,13 +190,10 @@ func (w *Writer) SendEntry(entry *sticktable.EntryUpdate) error {
 		byte(msgType),
 		w.buf[:offset],
 	); err != nil {
-		w.mu.Unlock()
 		return err
 	}
 
-	err = w.bw.Flush()
-	w.mu.Unlock()
-	return err
+	return w.bw.Flush()
 }
 
 // SendEntries sends multiple stick table entry updates in a single
-- 
2.43.0


From 12a4813e9dcf8a83fba6c70062c11471898302b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 19/23] fix: survive a panic while closing a handler

---
 peers/peers.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index c4a2823..381daf0 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -66,16 +66,17 @@ func (a *Peer) Serve(l net.Listener) error {
 		ctx = context.WithValue(ctx, writerKey, w)
 		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
 		go func() {
-			defer nc.Close()
-			defer p.Close()
-
-			// don't let a panic caused by one connection kill all of them
+			// don't let a panic caused by one connection kill all of them,
+			// this includes closing the handler
 			defer func() {
 				if e := recover(); e != nil {
 					log.Printf("peers: panic: %v\n%s", e, debug.Stack())
 				}
 			}()
 
+			defer nc.Close()
+			defer p.Close()
+
 			if err := p.Serve(); err != nil && err != p.ctx.Err() {
 				log.Println(err)
 			}
-- 
2.43.0


From 2c16d0d6a80b8ae86b76fd57bf0f6df760b16632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 20/23] fix: send heartbeats while the handshake is handled

---
 peers/protocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index a3db36c..953b1d6 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -79,6 +79,11 @@ func (c *protocolClient) peerHandshake() error {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	// The session is established, the remote peer expects heartbeats no matter
+	// how long the handler takes.
+	c.resetHeartbeat()
+	go c.heartbeat()
+
 	// The handler is allowed to use the Writer, nothing may be sent before the
 	// handshake status.
 	c.handler.HandleHandshake(c.ctx, &h)
@@ -147,9 +152,7 @@ func (c *protocolClient) Serve() error {
 		return fmt.Errorf("handshake: %v", err)
 	}
 
-	c.resetHeartbeat()
 	c.resetLastMessage()
-	go c.heartbeat()
 	go c.lastMessage()
 
 	for {
-- 
2.43.0


From 603527591943b9c4ccdff5ce459813d435f3383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 21/23] fix: close connections without a handshake when the
 context is cancelled

---
 peers/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peers/protocol.go b/peers/protocol.go
index 953b1d6..51ca14b 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -148,6 +148,10 @@ func (c *protocolClient) lastMessage() {
 }
 
 func (c *protocolClient) Serve() error {
+	// Also end connections which did not complete the handshake yet.
+	stop := context.AfterFunc(c.ctx, c.shutdown)
+	defer stop()
+
 	if err := c.peerHandshake(); err != nil {
 		return fmt.Errorf("handshake: %v", err)
 	}
-- 
2.43.0


From 68d25d4d0ec04c76ff0ec23df5fbcaf23d887059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 22/23] fix: keep serving when a connection cannot be set up

A TCP connection that is gone before its buffer sizes are set (a setsockopt
on it fails on some systems) made Serve return, and with it every other
connection lost its agent.
---
 spop/agent.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spop/agent.go b/spop/agent.go
index 545944b..da401ce 100644
--- a/spop/agent.go
+++ b/spop/agent.go
@@ -51,12 +51,15 @@ func (a *Agent) Serve(l net.Listener) error {
 
 		if tcp, ok := nc.(*net.TCPConn); ok {
 			err = tcp.SetWriteBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
-			if err != nil {
-				return err
+			if err == nil {
+				err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			}
-			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
 			if err != nil {
-				return err
+				// The connection may be gone already, which is no reason
+				// to stop serving the others.
+				log.Println(err)
+				nc.Close()
+				continue
 			}
 		}
 
-- 
2.43.0


From 0fd30226ed0776ce466d7684584e99431a073b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:45 +0000
Subject: [PATCH 23/23] fix: let Serve of a Peer with a Handler be called again

---
 peers/peers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/peers.go b/peers/peers.go
index 381daf0..c9f46b2 100644
--- a/peers/peers.go
+++ b/peers/peers.go
@@ -46,8 +46,10 @@ func (a *Peer) Serve(l net.Listener) error {
 		return fmt.Errorf("cannot set Handler and HandlerSource at the same time")
 	}
 
+	// a.HandlerSource stays as it is, so that Serve can be called again.
+	handlerSource := a.HandlerSource
 	if a.Handler != nil {
-		a.HandlerSource = func() Handler {
+		handlerSource = func() Handler {
 			return a.Handler
 		}
 	}
@@ -64,7 +66,7 @@ func (a *Peer) Serve(l net.Listener) error {
 		wmu := &sync.Mutex{}
 		w := newWriter(nc, wmu)
 		ctx = context.WithValue(ctx, writerKey, w)
-		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
+		p := newProtocolClient(ctx, nc, handlerSource(), wmu, w.bufferedWriter())
 		go func() {
 			// don't let a panic caused by one connection kill all of them,
 			// this includes closing the handler
-- 
2.43.0

