From 19157e7596d1fba24f271e1a892424f5691c1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 01/30] fix: Set must not write behind the caller's value

---
 client/server.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..699a148 100644
--- a/client/server.go
+++ b/client/server.go
@@ -473,9 +473,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
-		return err
-	}
+	s.conn.Write(item.Value)
+	s.conn.Write(crlf)
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
@@ -876,9 +875,8 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
-		return err
-	}
+	s.conn.Write(item.Value)
+	s.conn.Write(crlf)
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-- 
2.43.0


From 554e96815754922593cb3bae5ca2527209514a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 02/30] fix: meta get must accept flags and CAS tokens with the
 highest bit set

---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 699a148..cfb789f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -827,7 +827,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -835,11 +835,11 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
-- 
2.43.0


From 73d18086edae4c4c010f7dfa4711c8e6149e7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 03/30] fix: text and binary GetMulti must report the CAS token

---
 client/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/server.go b/client/server.go
index cfb789f..b747cde 100644
--- a/client/server.go
+++ b/client/server.go
@@ -312,10 +312,14 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
 		var size int
+		var cas uint64
 		if len(s) == 4 {
 			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
 		} else {
 			size, err = strconv.Atoi(string(s[3]))
+			if err == nil {
+				cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
+			}
 		}
 		if err != nil {
 			return nil, err
@@ -325,6 +329,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
+			Cas:   cas,
 		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
@@ -1322,6 +1327,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
 
-- 
2.43.0


From c338aba011bb15f6eaf6695413ac8893e0c2b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 04/30] fix: binary increment must not send the CAS token of an
 earlier request

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index b747cde..19dec98 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1572,6 +1572,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From 25a738c023a1ff6942c72e91975d05ce84cc91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 05/30] fix: binary protocol must consume the body of every
 reply and report a failed flush

---
 client/server.go | 58 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/client/server.go b/client/server.go
index 19dec98..6890ecb 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1302,6 +1302,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	var resErr error
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
@@ -1311,18 +1312,21 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			break
 		}
 
-		if resHeader.Status != 0 {
-			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
-			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
-		}
-
 		buf := make([]byte, resHeader.TotalBodyLength)
 		if _, err := io.ReadFull(s.conn, buf); err != nil {
 			return nil, err
 		}
 
+		if resHeader.Status != 0 {
+			// The replies to the remaining keys still follow.
+			if v, ok := binaryStatus[resHeader.Status]; ok {
+				resErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+			}
+			continue
+		}
+
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
@@ -1331,6 +1335,9 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		})
 	}
 
+	if resErr != nil {
+		return nil, resErr
+	}
 	return items, nil
 }
 
@@ -1370,6 +1377,11 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2: // key exists
@@ -1422,6 +1434,11 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2:
@@ -1657,6 +1674,11 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
@@ -1698,6 +1720,18 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
@@ -1727,6 +1761,11 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return "", err
+	}
+
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return "", fmt.Errorf("memcached: error %s", v)
@@ -1734,11 +1773,6 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 	}
 
-	buf := make([]byte, resHeader.TotalBodyLength)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return "", err
-	}
-
 	return string(buf), nil
 }
 
-- 
2.43.0


From 55d7953620c0c75d7033e378a810fbe91828dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 06/30] fix: meta GetMulti must not stop at the first missing
 key

---
 client/server.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6890ecb..9ed8b6a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -40,6 +40,9 @@ var (
 	msgMetaProtoDeleted   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
+
+	errMetaNoop               = errors.New("memcached: noop")
+	errMetaInvalidGetResponse = errors.New("memcached: invalid get response")
 )
 
 var (
@@ -746,12 +749,19 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	var resErr error
 MultiRead:
 	for {
 		item, err := s.parseGetResponse(s.conn)
 		if err != nil {
 			switch err {
 			case merrors.ItemNotFound:
+				continue
+			case errMetaInvalidGetResponse:
+				// The replies to the remaining keys still follow.
+				resErr = err
+				continue
+			case errMetaNoop:
 				break MultiRead
 			default:
 				return nil, err
@@ -760,6 +770,9 @@ MultiRead:
 		items = append(items, item)
 	}
 
+	if resErr != nil {
+		return nil, resErr
+	}
 	return items, nil
 }
 
@@ -768,14 +781,14 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgMetaProtoEnd) {
+	if bytes.Equal(b, msgMetaProtoEnd) || bytes.HasPrefix(b, []byte("EN ")) {
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-		return nil, merrors.ItemNotFound
+		return nil, errMetaNoop
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
-		return nil, errors.New("memcached: invalid get response")
+	if !bytes.HasPrefix(b, []byte("VA ")) {
+		return nil, errMetaInvalidGetResponse
 	}
 
 	item := &Item{}
-- 
2.43.0


From cb7ed866fe641f8a19ec47f5bee52ab4bcce277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 07/30] fix: error answers are neither success nor item-exists
 nor item-not-found

---
 client/server.go | 65 +++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/client/server.go b/client/server.go
index 9ed8b6a..75a7330 100644
--- a/client/server.go
+++ b/client/server.go
@@ -19,14 +19,15 @@ import (
 )
 
 var (
-	crlf                 = []byte("\r\n")
-	msgTextProtoStored   = []byte("STORED\r\n")
-	msgTextProtoDeleted  = []byte("DELETED\r\n")
-	msgTextProtoNotFound = []byte("NOT_FOUND\r\n")
-	msgTextProtoTouched  = []byte("TOUCHED\r\n")
-	msgTextProtoExists   = []byte("EXISTS\r\n")
-	msgTextProtoOk       = []byte("OK\r\n")
-	msgTextProtoEnd      = []byte("END\r\n")
+	crlf                  = []byte("\r\n")
+	msgTextProtoStored    = []byte("STORED\r\n")
+	msgTextProtoNotStored = []byte("NOT_STORED\r\n")
+	msgTextProtoDeleted   = []byte("DELETED\r\n")
+	msgTextProtoNotFound  = []byte("NOT_FOUND\r\n")
+	msgTextProtoTouched   = []byte("TOUCHED\r\n")
+	msgTextProtoExists    = []byte("EXISTS\r\n")
+	msgTextProtoOk        = []byte("OK\r\n")
+	msgTextProtoEnd       = []byte("END\r\n")
 
 	valueFormatWithCas = "VALUE %s %d %d %d"
 	valueFormat        = "VALUE %s %d %d"
@@ -374,7 +375,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	}
-	return nil
+	return fmt.Errorf("memcached: failed delete: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -452,7 +453,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return merrors.ItemNotFound
 	}
 
-	return nil
+	return fmt.Errorf("memcached: failed touch: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
@@ -531,11 +532,14 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
@@ -568,11 +572,14 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithTextProtocol) Flush() error {
@@ -632,10 +639,10 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-	return "", err
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 type ServerWithMetaProtocol struct {
@@ -944,11 +951,14 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
@@ -978,11 +988,14 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
@@ -1138,11 +1151,11 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, []byte("VERSION ")) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
 
-	return "", nil
+	return "", fmt.Errorf("memcached: failed version: %s", string(b))
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-- 
2.43.0


From 022fe063c80af95663fbd8ea935917ed18675cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 08/30] fix: the lifetime reported by a meta get must be one
 that can be stored again

---
 client/server.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 75a7330..5ee6232 100644
--- a/client/server.go
+++ b/client/server.go
@@ -46,6 +46,9 @@ var (
 	errMetaInvalidGetResponse = errors.New("memcached: invalid get response")
 )
 
+// memcached takes an expiration beyond 30 days for an absolute time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -866,11 +869,18 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		}
 		item.Cas = in
 	case 't':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseInt(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Expiration = int(in)
+		switch {
+		case in < 0: // never expires
+			item.Expiration = 0
+		case in > maxRelativeExpiration:
+			item.Expiration = int(time.Now().Unix() + in)
+		default:
+			item.Expiration = int(in)
+		}
 	case 'k':
 		item.Key = string(v)
 	}
-- 
2.43.0


From 4228f02e2221a7cd2078f520a920fb760a2d4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 09/30] fix: flags that are not four bytes long must not crash
 meta and binary writes

---
 client/server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client/server.go b/client/server.go
index 5ee6232..79b8949 100644
--- a/client/server.go
+++ b/client/server.go
@@ -903,7 +903,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1394,8 +1394,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1451,8 +1451,8 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
@@ -1508,8 +1508,8 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
-		copy(extra[:4], item.Flags[:4])
+	if len(item.Flags) == 4 {
+		copy(extra[:4], item.Flags)
 	}
 	s.conn.Write(extra)
 	s.conn.Write([]byte(item.Key))
-- 
2.43.0


From 0b54bc5bad3c5ee208cd32c43f90b15e4ccd8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 10/30] fix: text Get must return keys with non-ASCII bytes
 unchanged

---
 client/server.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/client/server.go b/client/server.go
index 79b8949..a1fff90 100644
--- a/client/server.go
+++ b/client/server.go
@@ -29,8 +29,8 @@ var (
 	msgTextProtoOk        = []byte("OK\r\n")
 	msgTextProtoEnd       = []byte("END\r\n")
 
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
+	valueFormatWithCas = "%d %d %d"
+	valueFormat        = "%d %d"
 )
 
 var (
@@ -235,12 +235,18 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	size := 0
 	p := valueFormatWithCas
 	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
+	scan := []interface{}{&flags, &size, &item.Cas}
 	if bytes.Count(b, []byte(" ")) == 3 {
 		p = valueFormat
-		scan = scan[:3]
+		scan = scan[:2]
 	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
+	// The key is cut out by hand, Sscanf would take some of its bytes for spaces.
+	fields := bytes.SplitN(b, []byte(" "), 3)
+	if len(fields) != 3 {
+		return nil, errors.New("memcached: invalid response")
+	}
+	item.Key = string(fields[1])
+	if _, err := fmt.Fscanf(bytes.NewReader(fields[2]), p, scan...); err != nil {
 		return nil, err
 	}
 	f := make([]byte, 4)
-- 
2.43.0


From 5fe6ffbdaff5863088f924c23019006f075527fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 11/30] fix: keys the protocol cannot carry must be refused
 instead of sent

---
 client/server.go | 121 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 121 insertions(+)

diff --git a/client/server.go b/client/server.go
index a1fff90..1faf329 100644
--- a/client/server.go
+++ b/client/server.go
@@ -84,6 +84,25 @@ var binaryStatus = map[uint16]string{
 	130: "out of memory",
 }
 
+const maxKeyLength = 250
+
+func checkKeyLength(key string) error {
+	if len(key) == 0 || len(key) > maxKeyLength {
+		return errors.New("memcached: invalid key length")
+	}
+	return nil
+}
+
+// checkTextKey rejects keys that the text protocol would read as something else.
+func checkTextKey(key string) error {
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' || key[i] == 0x7f {
+			return errors.New("memcached: invalid character in key")
+		}
+	}
+	return checkKeyLength(key)
+}
+
 type ServerOperationType string
 
 const (
@@ -203,6 +222,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if err := checkTextKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -271,6 +294,12 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkTextKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -355,6 +384,10 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -396,6 +429,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkTextKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -432,6 +469,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -466,6 +507,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -512,6 +557,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -552,6 +601,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -722,6 +775,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if err := checkTextKey(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -746,6 +803,12 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkTextKey(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -895,6 +958,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -941,6 +1008,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -978,6 +1049,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if err := checkTextKey(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1015,6 +1090,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1059,6 +1138,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkTextKey(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1091,6 +1174,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if err := checkTextKey(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1255,6 +1342,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if err := checkKeyLength(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1311,6 +1402,12 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	for _, key := range keys {
+		if err := checkKeyLength(key); err != nil {
+			return nil, err
+		}
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1384,6 +1481,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if err := checkKeyLength(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1441,6 +1542,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if err := checkKeyLength(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1498,6 +1603,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if err := checkKeyLength(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1555,6 +1664,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if err := checkKeyLength(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1617,6 +1730,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if err := checkKeyLength(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1682,6 +1799,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if err := checkKeyLength(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From 4d768b8cb173e2442470814670ce3a9ea5d23849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 12/30] fix: a connection must not be used any further after a
 failed read or write

---
 client/server.go | 51 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/client/server.go b/client/server.go
index 1faf329..0edf311 100644
--- a/client/server.go
+++ b/client/server.go
@@ -142,6 +142,39 @@ func EnableAutoReconnect(opt *ServerOption) {
 	opt.EnableAutoReconnect = true
 }
 
+// link is the connection to a backend. After a failed read or write nobody
+// knows what is still on its way, so the link is closed: a late reply must not
+// be taken for the reply to another request.
+type link struct {
+	net.Conn
+
+	closeOnce sync.Once
+}
+
+func (l *link) Read(b []byte) (int, error) {
+	n, err := l.Conn.Read(b)
+	if err != nil {
+		l.Close()
+	}
+	return n, err
+}
+
+func (l *link) Write(b []byte) (int, error) {
+	n, err := l.Conn.Write(b)
+	if err != nil {
+		l.Close()
+	}
+	return n, err
+}
+
+func (l *link) Close() error {
+	var err error
+	l.closeOnce.Do(func() {
+		err = l.Conn.Close()
+	})
+	return err
+}
+
 type ServerWithTextProtocol struct {
 	name    string
 	Network string
@@ -159,10 +192,11 @@ var _ Server = &ServerWithTextProtocol{}
 
 func NewServerWithTextProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithTextProtocol, error) {
 	d := &net.Dialer{}
-	conn, err := d.DialContext(ctx, network, addr)
+	c, err := d.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
+	conn := &link{Conn: c}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -212,10 +246,11 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	}
 
 	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	c, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
+	conn := &link{Conn: c}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -724,10 +759,11 @@ var _ Server = &ServerWithMetaProtocol{}
 
 func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithMetaProtocol, error) {
 	d := &net.Dialer{}
-	conn, err := d.DialContext(ctx, network, addr)
+	c, err := d.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
+	conn := &link{Conn: c}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -765,10 +801,11 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	}
 
 	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	c, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
+	conn := &link{Conn: c}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1285,10 +1322,11 @@ var _ Server = &ServerWithBinaryProtocol{}
 
 func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string, opts ...ServerOpt) (*ServerWithBinaryProtocol, error) {
 	d := &net.Dialer{}
-	conn, err := d.DialContext(ctx, network, addr)
+	c, err := d.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
+	conn := &link{Conn: c}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -1332,10 +1370,11 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	}
 
 	d := &net.Dialer{}
-	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
+	c, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
+	conn := &link{Conn: c}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
-- 
2.43.0


From fe0a99f05ba16f8b47148d401df6cc4279e83562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 13/30] fix: Close must be final, and must not race with calls
 and Reconnect

---
 client/server.go | 77 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 72 insertions(+), 5 deletions(-)

diff --git a/client/server.go b/client/server.go
index 0edf311..f0e1e8b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -184,6 +184,8 @@ type ServerWithTextProtocol struct {
 
 	conn    *bufio.ReadWriter
 	closeCh chan struct{}
+	closeMu sync.Mutex // guards closed and the replacement of raw
+	closed  bool
 	raw     net.Conn
 	mu      sync.Mutex
 }
@@ -224,21 +226,29 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
-	if s.closeCh == nil {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
 		return errors.New("memcached: already closed")
 	}
 
-	err := s.raw.Close()
-	s.raw = nil
+	s.closed = true
 	close(s.closeCh)
-	s.closeCh = nil
-	return err
+	return s.raw.Close()
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.closeMu.Lock()
+	closed := s.closed
+	s.closeMu.Unlock()
+	if closed {
+		return errors.New("memcached: closed")
+	}
+
 	if s.raw != nil {
 		if err := s.raw.Close(); err != nil {
 			return err
@@ -251,6 +261,13 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 		return err
 	}
 	conn := &link{Conn: c}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closed {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -750,6 +767,8 @@ type ServerWithMetaProtocol struct {
 	Timeout time.Duration
 
 	closeCh chan struct{}
+	closeMu sync.Mutex // guards closed and the replacement of raw
+	closed  bool
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 	mu      sync.Mutex
@@ -794,6 +813,13 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.closeMu.Lock()
+	closed := s.closed
+	s.closeMu.Unlock()
+	if closed {
+		return errors.New("memcached: closed")
+	}
+
 	if s.raw != nil {
 		if err := s.raw.Close(); err != nil {
 			return err
@@ -806,6 +832,13 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 		return err
 	}
 	conn := &link{Conn: c}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closed {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1299,6 +1332,15 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
+		return errors.New("memcached: already closed")
+	}
+
+	s.closed = true
+	close(s.closeCh)
 	return s.raw.Close()
 }
 
@@ -1310,6 +1352,8 @@ type ServerWithBinaryProtocol struct {
 	Timeout time.Duration
 
 	closeCh chan struct{}
+	closeMu sync.Mutex // guards closed and the replacement of raw
+	closed  bool
 	mu      sync.Mutex
 	conn    *bufio.ReadWriter
 	raw     net.Conn
@@ -1363,6 +1407,13 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.closeMu.Lock()
+	closed := s.closed
+	s.closeMu.Unlock()
+	if closed {
+		return errors.New("memcached: closed")
+	}
+
 	if s.raw != nil {
 		if err := s.raw.Close(); err != nil {
 			return err
@@ -1375,6 +1426,13 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 		return err
 	}
 	conn := &link{Conn: c}
+
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+	if s.closed {
+		conn.Close()
+		return errors.New("memcached: closed")
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
@@ -1979,6 +2037,15 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
+		return errors.New("memcached: already closed")
+	}
+
+	s.closed = true
+	close(s.closeCh)
 	return s.raw.Close()
 }
 
-- 
2.43.0


From 30de09c52015f5b3e224fb517b72d73c4183d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 14/30] fix: heartbeats must go on after the first one and
 after a failed reconnect

---
 client/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index f0e1e8b..5154306 100644
--- a/client/server.go
+++ b/client/server.go
@@ -2141,7 +2141,8 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 }
 
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -2150,11 +2151,11 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
-					if err := s.Reconnect(); err != nil {
-						return
-					}
+					// The next heartbeat tries again if this fails.
+					s.Reconnect()
 				} else {
 					s.Close()
+					return
 				}
 			}
 		}
-- 
2.43.0


From bb5625932a122cac1f8733197d26f2a1fb0ef580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 15/30] fix: servers with a common ring point must not depend
 on the order they are listed in

---
 client/ring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..fb26726 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,6 +35,9 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].hash == nodes[j].hash {
+			return nodes[i].Server.Name() < nodes[j].Server.Name()
+		}
 		return nodes[i].hash < nodes[j].hash
 	})
 
-- 
2.43.0


From b933da49bdc9d6df699d039430cd0ef9a09a3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 16/30] fix: a key that hits a ring point exactly must belong
 to that point

---
 client/ring.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/client/ring.go b/client/ring.go
index fb26726..2ccd298 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -57,17 +57,14 @@ func (r *Ring) Pick(key string) Server {
 
 	lower := 0
 	upper := len(r.nodes) - 1
-Search:
 	for lower <= upper {
 		idx := (lower + upper) / 2
 
 		t := r.nodes[idx].hash
 		switch {
-		case t == h:
-			break Search
 		case h < t:
 			upper = idx - 1
-		case t < h:
+		case t <= h:
 			lower = idx + 1
 		}
 	}
-- 
2.43.0


From 42a077ece4063852174ec0f494181498fa160355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 17/30] fix: closing a pool must close every server even if one
 fails

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From f2eeaaddb64feaabdf2f3e035807fd78bdd404ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 18/30] fix: the secondary must not be written under the
 primary's CAS token

---
 cluster/cluster.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..6cd542e 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -58,7 +58,15 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
+}
+
+// setSecondary stores the item on the secondary unconditionally: a CAS token
+// of the primary means nothing there.
+func (p *ReplicaPool) setSecondary(item *client.Item) error {
+	replica := *item
+	replica.Cas = 0
+	return p.secondary.Pick(item.Key).Set(&replica)
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +74,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +82,7 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
 }
 
 func (p *ReplicaPool) Delete(key string) error {
-- 
2.43.0


From fee4962d89e7569bd8cf13470cd382c7bc5d3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 19/30] fix: text requests with impossible lengths or empty
 tokens must not crash the server

---
 server/server.go | 78 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 8 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..1114c78 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -56,6 +57,9 @@ var (
 	metaProtoDeleted = []byte("HD")
 )
 
+// maxLineLength is the maximum length of a command line of the text protocol.
+const maxLineLength = 8 << 20
+
 var crlf = []byte("\r\n")
 
 type Protocol string
@@ -113,12 +117,69 @@ func (c *conn) readRequest() (*Request, error) {
 	return nil, nil
 }
 
+// readLine reads a command line. A line of more than maxLineLength is an error.
+func (c *conn) readLine() (string, error) {
+	var line []byte
+	for {
+		b, err := c.connBuf.ReadSlice('\n')
+		line = append(line, b...)
+		if err == nil {
+			return string(line), nil
+		}
+		if err != bufio.ErrBufferFull {
+			return "", err
+		}
+		if len(line) > maxLineLength {
+			return "", errors.New("server: too long line")
+		}
+	}
+}
+
+// splitTokens splits a command line into its tokens. There are no empty tokens.
+func splitTokens(line string) []string {
+	return strings.FieldsFunc(line, func(r rune) bool { return r == ' ' })
+}
+
+// readData reads n bytes. The memory for it is allocated as the data arrives:
+// n is only what the client claims to send.
+func (c *conn) readData(n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("server: invalid length")
+	}
+	if n <= 1<<20 {
+		buf := make([]byte, n)
+		_, err := io.ReadFull(c.connBuf, buf)
+		return buf, err
+	}
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, c.connBuf, n); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
+// readDataBlock reads a data block of n bytes and the line break behind it.
+func (c *conn) readDataBlock(n int64) ([]byte, error) {
+	buf, err := c.readData(n)
+	if err != nil {
+		return nil, err
+	}
+	end := make([]byte, len(crlf))
+	if _, err := io.ReadFull(c.connBuf, end); err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(end, crlf) {
+		return nil, errors.New("server: bad data chunk")
+	}
+	return buf, nil
+}
+
 func (c *conn) readAsciiRequest() (*Request, error) {
-	line, err := c.connBuf.ReadBytes('\n')
+	line, err := c.readLine()
 	if err != nil {
 		return nil, err
 	}
-	s := strings.Split(strings.TrimSuffix(string(line), "\r\n"), " ")
+	s := splitTokens(strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r"))
 	if len(s) == 0 {
 		return nil, errors.New("server: invalid request")
 	}
@@ -130,6 +191,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
+		if len(s) < 2 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
@@ -150,11 +214,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf := make([]byte, bufLen+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(bufLen)
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:bufLen]
 
 		opcode := OpcodeSet
 		switch s[0] {
@@ -276,11 +339,10 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
-		buf := make([]byte, opt.Size+2)
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		buf, err := c.readDataBlock(int64(opt.Size))
+		if err != nil {
 			return nil, err
 		}
-		buf = buf[:opt.Size]
 
 		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
-- 
2.43.0


From 816ed340f8796b34a3be27d564aa2143e9108eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 20/30] fix: binary requests with inconsistent lengths must not
 crash the server or shift the stream

---
 server/server.go | 105 ++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 61 deletions(-)

diff --git a/server/server.go b/server/server.go
index 1114c78..06ad6a9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -363,91 +363,54 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
+	// The body is read as a whole, so that whatever the lengths in the header
+	// say the next request begins where this one ends.
+	extraLength := int(header[4])
+	keyLength := int(binary.BigEndian.Uint16(header[2:4]))
+	totalBodyLength := int64(binary.BigEndian.Uint32(header[8:12]))
+	valueLength := totalBodyLength - int64(extraLength+keyLength)
+	if !validBinaryRequest(Opcode(header[1]), extraLength, keyLength, valueLength) {
+		return nil, errors.New("server: invalid request")
+	}
+	body, err := c.readData(totalBodyLength)
+	if err != nil {
+		return nil, err
+	}
+	extra := body[:extraLength]
+	key := body[extraLength : extraLength+keyLength]
+	value := body[extraLength+keyLength:]
+
 	switch Opcode(header[1]) {
 	case OpcodeGet:
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
-		return &Request{Opcode: OpcodeGet, Key: string(keyBuf)}, nil
+		return &Request{Opcode: OpcodeGet, Key: string(key)}, nil
 	case OpcodeGetKQ:
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
-		return &Request{Opcode: OpcodeGet, Key: string(keyBuf), GetOpt: &GetOpt{NoReply: true, Key: true}}, nil
+		return &Request{Opcode: OpcodeGet, Key: string(key), GetOpt: &GetOpt{NoReply: true, Key: true}}, nil
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
-		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
-			return nil, err
-		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
 
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
-		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
-		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
-			return nil, err
-		}
-
 		return &Request{
 			Opcode: Opcode(header[1]),
-			Key:    string(keyBuf),
-			Value:  buf,
+			Key:    string(key),
+			Value:  value,
 			SetOpt: &SetOpt{Expiration: int(expiration)},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
-		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
+		return &Request{Opcode: OpcodeDelete, Key: string(key)}, nil
 	case OpcodeIncrement, OpcodeDecrement:
-		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
-			return nil, err
-		}
 		delta := binary.BigEndian.Uint64(extra[:8])
 		expiration := binary.BigEndian.Uint32(extra[16:20])
 
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
 		return &Request{
 			Opcode: Opcode(header[1]),
-			Key:    string(keyBuf),
+			Key:    string(key),
 			Delta:  int64(delta),
 			SetOpt: &SetOpt{Expiration: int(expiration)},
 		}, nil
 	case OpcodeTouch:
-		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
-			return nil, err
-		}
 		expiration := binary.BigEndian.Uint32(extra[:4])
 
-		KeyLength := binary.BigEndian.Uint16(header[2:4])
-		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
-			return nil, err
-		}
-
-		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		return &Request{Opcode: OpcodeTouch, Key: string(key), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
 	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
@@ -455,6 +418,26 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// validBinaryRequest reports whether a request of op may consist of extras, key
+// and value of these lengths.
+func validBinaryRequest(op Opcode, extra, key int, value int64) bool {
+	switch op {
+	case OpcodeGet, OpcodeGetKQ, OpcodeDelete:
+		return extra == 0 && key > 0 && value == 0
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		return extra == 8 && key > 0 && value >= 0
+	case OpcodeIncrement, OpcodeDecrement:
+		return extra == 20 && key > 0 && value == 0
+	case OpcodeTouch:
+		return extra == 4 && key > 0 && value == 0
+	case OpcodeFlush:
+		return (extra == 0 || extra == 4) && key == 0 && value == 0
+	case OpcodeNoop, OpcodeVersion:
+		return extra == 0 && key == 0 && value == 0
+	}
+	return false
+}
+
 type Opcode byte
 
 type Handler interface {
-- 
2.43.0


From 8354fa62ac7caa468d3798c7d1b9f9aaac34bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 21/30] fix: the server must accept every key list, flags,
 expiration and delta of the text protocol

---
 server/server.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/server/server.go b/server/server.go
index 06ad6a9..9443e01 100644
--- a/server/server.go
+++ b/server/server.go
@@ -186,9 +186,12 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 	switch s[0] {
 	case "get":
-		if len(s) != 2 {
+		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
+		if len(s) > 2 {
+			return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
 		if len(s) < 2 {
@@ -199,13 +202,13 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
 		flags := make([]byte, 4)
 		binary.BigEndian.PutUint32(flags, uint32(f))
-		expiration, err := strconv.ParseInt(s[3], 10, 32)
+		expiration, err := strconv.ParseInt(s[3], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -241,18 +244,22 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		if s[0] == "touch" {
+			d, err := strconv.ParseInt(s[2], 10, 64)
+			if err != nil {
+				return nil, err
+			}
+			return &Request{Opcode: OpcodeTouch, Key: s[1], Delta: d}, nil
+		}
+		d, err := strconv.ParseUint(s[2], 10, 64)
 		if err != nil {
 			return nil, err
 		}
 		opcode := OpcodeIncrement
-		switch s[0] {
-		case "decr":
+		if s[0] == "decr" {
 			opcode = OpcodeDecrement
-		case "touch":
-			opcode = OpcodeTouch
 		}
-		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
+		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
@@ -306,7 +313,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
@@ -330,7 +337,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.Size = int(v)
 				case 'T':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseInt(f[1:], 10, 64)
 					if err != nil {
 						return nil, err
 					}
-- 
2.43.0


From 8666746d53e7be8cf6b3b0b1ffb527ba0d8f0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 22/30] fix: meta flags in tokens of their own and the mode of
 a meta set must not get lost

---
 server/server.go | 63 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/server/server.go b/server/server.go
index 9443e01..23fc107 100644
--- a/server/server.go
+++ b/server/server.go
@@ -261,12 +261,23 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
 	case "mg":
-		if len(s) < 3 {
+		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+		opt := &GetOpt{Meta: true}
+		for _, token := range s[2:] {
+			if token[0] == 'O' {
+				v, err := strconv.Atoi(token[1:])
+				if err != nil {
+					return nil, err
+				}
+				opt.WithOpaque = true
+				opt.Opaque = v
+				opt.RequestFlag += "O"
+				continue
+			}
+			opt.RequestFlag += token
+			for _, f := range token {
 				switch f {
 				case 'c':
 					opt.Cas = true
@@ -297,6 +308,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, errors.New("server: invalid request")
 		}
 		tokens := s[3:]
+		opcode := OpcodeSet
 		v, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
@@ -320,6 +332,17 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.Flag = int32(v)
 				case 'I':
 					opt.Invalidate = true
+				case 'M':
+					switch f[1:] {
+					case "S", "s":
+						opcode = OpcodeSet
+					case "E", "e":
+						opcode = OpcodeAdd
+					case "R", "r":
+						opcode = OpcodeReplace
+					default:
+						return nil, errors.New("server: invalid request")
+					}
 				case 'k':
 					opt.Key = true
 				case 'O':
@@ -351,7 +374,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 
-		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
+		return &Request{Opcode: opcode, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
@@ -699,27 +722,27 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
-	if err != nil {
+	head := "HD"
+	if req.GetOpt.Value {
+		head = fmt.Sprintf("VA %d", len(r.Value))
+	}
+	if _, err := conn.connBuf.WriteString(head); err != nil {
 		return err
 	}
 	for _, v := range req.GetOpt.RequestFlag {
 		switch v {
 		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
+			conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
 		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
+			conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
 		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
+			conn.connBuf.WriteString(" k" + req.Key)
 		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
+			conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
+		case 'O':
+			conn.connBuf.WriteString(" O" + strconv.Itoa(req.GetOpt.Opaque))
 		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+			conn.connBuf.WriteString(" t" + strconv.FormatInt(r.TTL, 10))
 		}
 	}
 	conn.connBuf.Write(crlf)
@@ -727,9 +750,9 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 52e987e0ffab2f842853d7a5a3d16d6693ac1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 23/30] fix: the CAS token of binary requests and the delay of
 a flush must reach the handler

---
 server/server.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index 23fc107..c3b184e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -376,7 +376,15 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 		return &Request{Opcode: opcode, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
-		return &Request{Opcode: OpcodeFlush}, nil
+		req := &Request{Opcode: OpcodeFlush}
+		if len(s) > 1 {
+			delay, err := strconv.ParseInt(s[1], 10, 64)
+			if err != nil {
+				return nil, err
+			}
+			req.SetOpt = &SetOpt{Expiration: int(delay)}
+		}
+		return req, nil
 	case "version":
 		return &Request{Opcode: OpcodeVersion}, nil
 	}
@@ -409,6 +417,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	extra := body[:extraLength]
 	key := body[extraLength : extraLength+keyLength]
 	value := body[extraLength+keyLength:]
+	cas := binary.BigEndian.Uint64(header[16:24])
 
 	switch Opcode(header[1]) {
 	case OpcodeGet:
@@ -422,7 +431,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(key),
 			Value:  value,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), Cas: cas != 0, CasValue: cas},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
@@ -435,13 +444,19 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(key),
 			Delta:  int64(delta),
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(expiration), Cas: cas != 0, CasValue: cas},
 		}, nil
 	case OpcodeTouch:
 		expiration := binary.BigEndian.Uint32(extra[:4])
 
 		return &Request{Opcode: OpcodeTouch, Key: string(key), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
-	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+	case OpcodeFlush:
+		req := &Request{Opcode: OpcodeFlush}
+		if len(extra) > 0 {
+			req.SetOpt = &SetOpt{Expiration: int(binary.BigEndian.Uint32(extra))}
+		}
+		return req, nil
+	case OpcodeNoop, OpcodeVersion:
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
 
-- 
2.43.0


From cf5301e865275338071b38c991d03ccfee9dddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 24/30] fix: the server must reply to failed and empty
 outcomes, and must not present them as hits

---
 server/server.go | 126 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 123 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index c3b184e..0490898 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -23,6 +25,8 @@ var (
 	magicResponse byte = 0x81
 )
 
+const binaryStatusInternalError uint16 = 0x84
+
 const (
 	OpcodeGet Opcode = iota
 	OpcodeSet
@@ -49,12 +53,20 @@ var (
 	textProtoStored  = []byte("STORED\r\n")
 	textProtoDeleted = []byte("DELETED\r\n")
 	textProtoTouched = []byte("TOUCHED\r\n")
+
+	textProtoNotFound  = []byte("NOT_FOUND\r\n")
+	textProtoExists    = []byte("EXISTS\r\n")
+	textProtoNotStored = []byte("NOT_STORED\r\n")
 )
 
 var (
 	metaProtoEnd     = []byte("EN\r\n")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
+
+	metaProtoNotFound  = []byte("NF\r\n")
+	metaProtoExists    = []byte("EX\r\n")
+	metaProtoNotStored = []byte("NS\r\n")
 )
 
 // maxLineLength is the maximum length of a command line of the text protocol.
@@ -615,9 +627,86 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 	return nil
 }
 
+// withoutMisses returns the responses of res that are hits, or the error of the
+// first one that is neither a hit nor a miss.
+func withoutMisses(res []*Response) ([]*Response, error) {
+	hits := make([]*Response, 0, len(res))
+	for _, r := range res {
+		switch {
+		case r.Error == nil:
+			hits = append(hits, r)
+		case !isStatus(r.Error, merrors.ItemNotFound):
+			return nil, r.Error
+		}
+	}
+	return hits, nil
+}
+
+func isStatus(err error, status *merrors.MemcachedError) bool {
+	var e *merrors.MemcachedError
+	return errors.As(err, &e) && e.Status == status.Status
+}
+
+// writeServerError replies to a request with err.
+func (c *conn) writeServerError(err error) error {
+	message := strings.Map(func(r rune) rune {
+		if r < ' ' {
+			return ' '
+		}
+		return r
+	}, err.Error())
+	c.connBuf.WriteString("SERVER_ERROR " + message)
+	c.connBuf.Write(crlf)
+	return c.connBuf.Flush()
+}
+
+// writeAsciiError replies to a request other than a get that it failed with err.
+func (s *Server) writeAsciiError(conn *conn, req *Request, err error) error {
+	meta := (req.SetOpt != nil && req.SetOpt.Meta) || (req.DelOpt != nil && req.DelOpt.Meta)
+	notFound, exists := textProtoNotFound, textProtoExists
+	switch {
+	case meta:
+		notFound, exists = metaProtoNotFound, metaProtoExists
+		if req.Opcode == OpcodeAdd {
+			exists = metaProtoNotStored
+		}
+		if req.Opcode == OpcodeReplace {
+			notFound = metaProtoNotStored
+		}
+	case req.Opcode == OpcodeAdd:
+		exists = textProtoNotStored
+	case req.Opcode == OpcodeReplace:
+		notFound = textProtoNotStored
+	}
+
+	switch {
+	case isStatus(err, merrors.ItemNotFound):
+		conn.connBuf.Write(notFound)
+	case isStatus(err, merrors.ItemExists):
+		conn.connBuf.Write(exists)
+	default:
+		return conn.writeServerError(err)
+	}
+	return conn.connBuf.Flush()
+}
+
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
+	if req.Opcode != OpcodeGet {
+		if len(res) == 0 {
+			return conn.writeServerError(errors.New("no response"))
+		}
+		if res[0].Error != nil {
+			return s.writeAsciiError(conn, req, res[0].Error)
+		}
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
+		hits, err := withoutMisses(res)
+		if err != nil {
+			return conn.writeServerError(err)
+		}
+		res = hits
 		if req.GetOpt == nil {
 			for _, r := range res {
 				if err := s.writeAsciiResponseGet(conn, r); err != nil {
@@ -634,7 +723,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if len(res) == 0 && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -776,6 +865,14 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
+		hits, err := withoutMisses(res)
+		if err != nil {
+			return (&Response{Error: err}).writeAsBinaryProtocol(conn, req)
+		}
+		res = hits
+		if len(res) == 0 && !(req.GetOpt != nil && req.GetOpt.NoReply) {
+			return (&Response{Error: merrors.ItemNotFound}).writeAsBinaryProtocol(conn, req)
+		}
 		for _, v := range res {
 			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
 				return err
@@ -789,9 +886,10 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeIncrement, OpcodeDecrement,
 		OpcodeVersion, OpcodeFlush, OpcodeTouch, OpcodeNoop:
-		if res[0].Error == nil {
-			return res[0].writeAsBinaryProtocol(conn, req)
+		if len(res) == 0 {
+			return (&Response{Error: errors.New("no response")}).writeAsBinaryProtocol(conn, req)
 		}
+		return res[0].writeAsBinaryProtocol(conn, req)
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
@@ -800,6 +898,9 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 }
 
 func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
+	if r.Error != nil {
+		return r.writeBinaryError(conn, req)
+	}
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
@@ -823,3 +924,22 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 
 	return nil
 }
+
+// writeBinaryError replies to req that it failed with r.Error.
+func (r *Response) writeBinaryError(conn *conn, req *Request) error {
+	status := binaryStatusInternalError
+	var e *merrors.MemcachedError
+	if errors.As(r.Error, &e) && e.Status != 0 {
+		status = e.Status
+	}
+	message := r.Error.Error()
+	header := make([]byte, 24)
+	header[0] = magicResponse
+	header[1] = byte(req.Opcode)
+	binary.BigEndian.PutUint16(header[6:8], status)
+	binary.BigEndian.PutUint32(header[8:12], uint32(len(message)))
+
+	conn.connBuf.Write(header)
+	conn.connBuf.WriteString(message)
+	return conn.connBuf.Flush()
+}
-- 
2.43.0


From e963e50cfdb0848c43f790a3135c4a64b7f56a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 25/30] fix: binary replies must carry the request's opcode and
 opaque, the CAS token and a hit's flags

---
 server/server.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/server/server.go b/server/server.go
index 0490898..cc22e79 100644
--- a/server/server.go
+++ b/server/server.go
@@ -409,6 +409,16 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
 		return nil, err
 	}
+	req, err := c.readBinaryBody(header)
+	if err != nil {
+		return nil, err
+	}
+	req.opcode = Opcode(header[1])
+	req.opaque = binary.BigEndian.Uint32(header[12:16])
+	return req, nil
+}
+
+func (c *conn) readBinaryBody(header []byte) (*Request, error) {
 	if header[0] != magicRequest {
 		return nil, errors.New("server: invalid request")
 	}
@@ -511,6 +521,10 @@ type Request struct {
 	GetOpt *GetOpt
 	SetOpt *SetOpt
 	DelOpt *DelOpt
+
+	// opcode and opaque are those of the binary request.
+	opcode Opcode
+	opaque uint32
 }
 
 type Response struct {
@@ -880,7 +894,7 @@ func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response)
 		}
 		if len(res) > 1 {
 			r := &Response{}
-			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop}); err != nil {
+			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop, opcode: OpcodeNoop}); err != nil {
 				return err
 			}
 		}
@@ -903,14 +917,20 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	}
 	header := make([]byte, 24)
 	header[0] = magicResponse
-	header[1] = byte(req.Opcode)
+	header[1] = byte(req.opcode)
+	flags := r.Flags
+	if req.Opcode == OpcodeGet && len(flags) == 0 {
+		flags = make([]byte, 4)
+	}
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
-	header[4] = uint8(len(r.Flags))
-	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	header[4] = uint8(len(flags))
+	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(flags)+len(r.Value)))
+	binary.BigEndian.PutUint32(header[12:16], req.opaque)
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
 
 	conn.connBuf.Write(header)
-	if len(r.Flags) > 0 {
-		conn.connBuf.Write(r.Flags)
+	if len(flags) > 0 {
+		conn.connBuf.Write(flags)
 	}
 	if len(r.Key) > 0 {
 		conn.connBuf.Write([]byte(r.Key))
@@ -935,9 +955,10 @@ func (r *Response) writeBinaryError(conn *conn, req *Request) error {
 	message := r.Error.Error()
 	header := make([]byte, 24)
 	header[0] = magicResponse
-	header[1] = byte(req.Opcode)
+	header[1] = byte(req.opcode)
 	binary.BigEndian.PutUint16(header[6:8], status)
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(message)))
+	binary.BigEndian.PutUint32(header[12:16], req.opaque)
 
 	conn.connBuf.Write(header)
 	conn.connBuf.WriteString(message)
-- 
2.43.0


From 9076c05f50c5c0d8ee45faf0a1a915b474785e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 26/30] fix: replies must carry what gets, version and the
 flags of a meta set ask for

---
 server/server.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/server/server.go b/server/server.go
index cc22e79..646eabc 100644
--- a/server/server.go
+++ b/server/server.go
@@ -53,6 +53,7 @@ var (
 	textProtoStored  = []byte("STORED\r\n")
 	textProtoDeleted = []byte("DELETED\r\n")
 	textProtoTouched = []byte("TOUCHED\r\n")
+	textProtoVersion = []byte("VERSION ")
 
 	textProtoNotFound  = []byte("NOT_FOUND\r\n")
 	textProtoExists    = []byte("EXISTS\r\n")
@@ -209,7 +210,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
-		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		return &Request{Opcode: OpcodeGet, Keys: s[1:], withCas: true}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
@@ -363,6 +364,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, err
 					}
 					opt.Opaque = v
+					opt.withOpaque = true
 				case 'q':
 					opt.NoReply = true
 				case 'S':
@@ -525,6 +527,8 @@ type Request struct {
 	// opcode and opaque are those of the binary request.
 	opcode Opcode
 	opaque uint32
+	// withCas is set if the text request asks for CAS tokens.
+	withCas bool
 }
 
 type Response struct {
@@ -563,6 +567,8 @@ type SetOpt struct {
 	NoReply    bool
 	Size       int
 	Expiration int
+
+	withOpaque bool
 }
 
 type DelOpt struct {
@@ -723,7 +729,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 		res = hits
 		if req.GetOpt == nil {
 			for _, r := range res {
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -748,6 +754,12 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 		if res[0].Error == nil {
 			if req.SetOpt.Meta {
 				conn.connBuf.Write(metaProtoStored)
+				if req.SetOpt.Key {
+					conn.connBuf.WriteString(" k" + req.Key)
+				}
+				if req.SetOpt.withOpaque {
+					conn.connBuf.WriteString(" O" + strconv.FormatInt(req.SetOpt.Opaque, 10))
+				}
 				conn.connBuf.Write(crlf)
 				if err := conn.connBuf.Flush(); err != nil {
 					return err
@@ -784,6 +796,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 		}
 	case OpcodeVersion:
 		if res[0].Error == nil {
+			if !bytes.HasPrefix(res[0].Value, textProtoVersion) {
+				conn.connBuf.Write(textProtoVersion)
+			}
 			conn.connBuf.Write(res[0].Value)
 			conn.connBuf.Write(crlf)
 			if err := conn.connBuf.Flush(); err != nil {
@@ -811,16 +826,21 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
+	cas := ""
+	if req.withCas {
+		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
+	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d%s\r\n",
 			r.Key,
 			flag,
 			len(r.Value),
+			cas,
 		),
 	)
 	if err != nil {
-- 
2.43.0


From 5f4c6998ee64a10002cbdb415cc725e510727a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 27/30] fix: a temporary failure to accept must not end the
 server

---
 server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/server.go b/server/server.go
index 646eabc..65ab59b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 
 	merrors "go.f110.dev/go-memcached/errors"
 )
@@ -25,6 +26,9 @@ var (
 	magicResponse byte = 0x81
 )
 
+// acceptRetryInterval is how long to wait after a temporary failure to accept.
+const acceptRetryInterval = 5 * time.Millisecond
+
 const binaryStatusInternalError uint16 = 0x84
 
 const (
@@ -600,6 +604,11 @@ func (s *Server) Serve(l net.Listener) error {
 	for {
 		conn, err := l.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// Out of file descriptors, or the client has already gone.
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			return err
 		}
 
-- 
2.43.0


From 625576bc1641caf917e816ba770453ed07c42702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 28/30] fix: the router must pass on flags, CAS tokens and
 lifetimes and serve every key of a get

---
 proxy/replica_pool.go | 53 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..b4cab9e 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,7 +1,9 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
+	"time"
 
 	"go.f110.dev/go-memcached/client"
 	"go.f110.dev/go-memcached/cluster"
@@ -20,19 +22,39 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
-		res, err := p.pool.Get(req.Key)
-		if err != nil {
-			if _, ok := err.(*merrors.MemcachedError); ok {
-				return []*server.Response{{Error: err}}, nil
+		keys := req.Keys
+		if len(keys) == 0 {
+			keys = []string{req.Key}
+		}
+		responses := make([]*server.Response, 0, len(keys))
+		for _, key := range keys {
+			res, err := p.pool.Get(key)
+			if err != nil {
+				if _, ok := err.(*merrors.MemcachedError); ok {
+					responses = append(responses, &server.Response{Error: err})
+					continue
+				}
+				return nil, err
 			}
-			return nil, err
+			responses = append(responses, &server.Response{
+				Key:   res.Key,
+				Value: res.Value,
+				Flags: res.Flags,
+				Cas:   int64(res.Cas),
+				TTL:   ttl(res.Expiration),
+			})
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return responses, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if req.SetOpt.Meta {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
@@ -47,3 +69,20 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		return nil, errors.New("proxy: unknown opcode")
 	}
 }
+
+// maxRelativeExpiration is the largest expiration that is a lifetime in seconds;
+// a larger one is a point in time.
+const maxRelativeExpiration = 60 * 60 * 24 * 30
+
+// ttl returns the remaining lifetime that an expiration stands for, -1 if there
+// is no limit.
+func ttl(expiration int) int64 {
+	switch {
+	case expiration == 0:
+		return -1
+	case expiration > maxRelativeExpiration:
+		return int64(expiration) - time.Now().Unix()
+	default:
+		return int64(expiration)
+	}
+}
-- 
2.43.0


From 50ca9c94a3aa7f65665937b4a89860757143823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 29/30] fix: items read over the meta and binary protocols must
 name their server

---
 client/server.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/client/server.go b/client/server.go
index 5154306..afa583e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -869,6 +869,7 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 		return nil, err
 	}
 	item.Key = key
+	item.Server = s.Name()
 	return item, nil
 }
 
@@ -916,6 +917,7 @@ MultiRead:
 				return nil, err
 			}
 		}
+		item.Server = s.Name()
 		items = append(items, item)
 	}
 
@@ -1491,10 +1493,11 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	}
 
 	return &Item{
-		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
-		Flags: buf[:resHeader.ExtraLength],
-		Cas:   resHeader.CAS,
+		Key:    key,
+		Value:  buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Flags:  buf[:resHeader.ExtraLength],
+		Cas:    resHeader.CAS,
+		Server: s.Name(),
 	}, nil
 }
 
@@ -1564,10 +1567,11 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
-			Flags: buf[:resHeader.ExtraLength],
-			Cas:   resHeader.CAS,
+			Key:    string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
+			Value:  buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Flags:  buf[:resHeader.ExtraLength],
+			Cas:    resHeader.CAS,
+			Server: s.Name(),
 		})
 	}
 
-- 
2.43.0


From 2c21f0a50db7ab999ee7e1be6e86a0c5544397df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:12 +0000
Subject: [PATCH 30/30] fix: a binary add must not be turned into a conditional
 set by the item's token

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index afa583e..3323acf 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1660,6 +1660,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	header.Opcode = binaryOpcodeAdd
 	extra := item.marshalBinaryRequestHeader(header)
+	header.CAS = 0 // with a token it would replace the item of that token
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-- 
2.43.0

