From 7485a359e807bdc60968cf13adcb38570ebd17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 01/54] fix: ts: payload reader stops when skip-until never
 matches, and filters the first packet

---
 ts/payload_reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..b9d8fc5 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -96,13 +96,15 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 2793be1ff933e0e0d1358c782da5fc23d5169817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 02/54] fix: ts: payload reader excludes the packet that ends
 the take-while range

---
 ts/payload_reader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index b9d8fc5..4c9d7da 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -72,18 +72,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		cont := r.takeWhile(r.currentPacket)
+		if cont == false {
+			r.closed = true
+			return n, io.EOF
+		}
+
 		if r.where(r.currentPacket) {
 			copied := copy(p, r.currentPacket.Payload)
 			n = n + copied
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
-- 
2.43.0


From c9f124a99ecb8f84fc891ea2279f60b13e41fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 03/54] fix: ts: payload reader delivers its last bytes before
 the error

---
 ts/payload_reader.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 4c9d7da..3f5fc7c 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -24,6 +24,7 @@ type payloadReader struct {
 	takeWhile     PacketTester
 	remainder     bytes.Buffer
 	closed        bool
+	deferred      error
 }
 
 func (r *payloadReader) SkipUntil(skipUntil PacketTester) {
@@ -36,6 +37,11 @@ func (r *payloadReader) TakeWhile(takeWhile PacketTester) {
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
 
+	if r.deferred != nil {
+		err, r.deferred = r.deferred, nil
+		return 0, err
+	}
+
 	if r.closed == true {
 		return 0, io.EOF
 	}
@@ -69,13 +75,13 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	for len(p) > 0 {
 		err = r.next()
 		if err != nil {
-			return
+			return r.fail(n, err)
 		}
 
 		cont := r.takeWhile(r.currentPacket)
 		if cont == false {
 			r.closed = true
-			return n, io.EOF
+			return r.fail(n, io.EOF)
 		}
 
 		if r.where(r.currentPacket) {
@@ -90,6 +96,16 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	return
 }
 
+// fail reports err, but hands out the n bytes that were read before it first:
+// consumers like the bit reader discard bytes that arrive along with an error.
+func (r *payloadReader) fail(n int, err error) (int, error) {
+	if n > 0 {
+		r.deferred = err
+		return n, nil
+	}
+	return 0, err
+}
+
 func (r *payloadReader) next() error {
 	return r.currentPacket.Next(r.br)
 }
-- 
2.43.0


From c8d986c27b5b47f0f12fa7c0dd9036ca84812e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 04/54] fix: ts: payload unit reader delivers the last unit and
 whole units before end of packet

---
 ts/payload_unit_reader.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..b181547 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,10 +36,19 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
 	if stream.state == drained {
+		if stream.err != nil {
+			err, stream.err = stream.err, nil
+			return 0, err
+		}
 		_, ferr := stream.fill()
 		if ferr != nil {
 			return 0, ferr
@@ -47,20 +56,19 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 		stream.state = ready
 	}
 
-	for len(p) > 0 {
-		rn, rerr := stream.buffer.Read(p)
-		n += rn
-		p = p[rn:]
-
-		if rerr == io.EOF {
-			stream.state = drained
-			return n, EOP
-		} else if rerr != nil {
-			return n, rerr
+	n, err = stream.buffer.Read(p)
+	if err == io.EOF {
+		// All of the unit has been delivered: signal its end. A unit that was
+		// cut short by an error ends with that error instead.
+		stream.state = drained
+		if stream.err != nil && stream.err != io.EOF {
+			err, stream.err = stream.err, nil
+			return 0, err
 		}
+		return 0, EOP
 	}
 
-	return
+	return n, err
 }
 
 func (stream *payloadUnitBuffer) fill() (n int, err error) {
@@ -77,6 +85,7 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 			err = stream.next()
 			if err != nil {
+				stream.currentPacket = nil
 				return
 			}
 		}
@@ -92,8 +101,10 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 		}
 
-		err = stream.next()
-		if err != nil {
+		// An error ends the unit, it is reported once the unit is delivered.
+		stream.err = stream.next()
+		if stream.err != nil {
+			stream.currentPacket = nil
 			break
 		}
 
-- 
2.43.0


From c810d49effd8c377e23ccd34b32a3c3c6a00ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 05/54] fix: ts: demuxer delivers a packet of its own for each
 packet of the stream

---
 ts/demuxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..c477ce0 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -57,7 +57,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -69,6 +68,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
+			// Receivers keep the packets, so each one needs its own.
+			var p = &Packet{}
 			err := p.Next(tsd.reader)
 
 			if err != nil {
-- 
2.43.0


From 4fb647e8e58b6bb7628079b14768d990beb42a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 06/54] fix: ts: payload unit channel delivers the payload
 units

---
 ts/packet_channel.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..34a1f36 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -1,8 +1,5 @@
 package ts
 
-import "bytes"
-import "io/ioutil"
-
 // PacketChannel is a delivery channel of TS Packets
 type PacketChannel <-chan *Packet
 
@@ -18,25 +15,28 @@ func (input PacketChannel) PayloadOnly() <-chan []byte {
 	return output
 }
 
+// PayloadUnit transforms a PacketChannel into a delivery channel of payload units:
+// the payloads from a packet that starts a unit up to the next packet that does.
 func (input PacketChannel) PayloadUnit() <-chan []byte {
-	var buf bytes.Buffer
 	output := make(chan []byte)
-	started := false
 	go func() {
 		defer close(output)
+		var unit []byte
+		started := false
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
-					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
-						output <- data
-					}
-				} else {
-					started = true
+					output <- unit
 				}
+				unit = nil
+				started = true
 			}
+			if started {
+				unit = append(unit, packet.Payload...)
+			}
+		}
+		if started {
+			output <- unit
 		}
 	}()
 	return output
-- 
2.43.0


From 7d07f1e45ed4b4b93ff2a3121a0f11a7817f88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 07/54] fix: ts: reading into a reused packet drops its
 previous payload and adaptation field

---
 ts/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..a8f1977 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -114,6 +114,10 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 
 	var payloadSize uint32 = MaxPayloadSize
 
+	// The packet may be reused: forget the parts of the previous one.
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	if packet.AdaptationFieldControl == FieldOnly || packet.AdaptationFieldControl == FieldThenPayload {
 		var length uint32
 		packet.AdaptationField, length, err = newAdaptationField(br)
-- 
2.43.0


From 098341e1e07c9cceb95ced9e5c52d0afadd03696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 08/54] fix: ts: consume all of a packet that has no payload

---
 ts/packet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index a8f1977..18c29c0 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -137,6 +137,11 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		} else if err != nil {
 			return
 		}
+	} else if payloadSize > 0 {
+		// Nothing is defined for the rest of the packet, but it is a part of it.
+		if err = br.Skip(uint(payloadSize) * 8); err != nil {
+			return
+		}
 	}
 
 	return nil
-- 
2.43.0


From cdc035782e77ca8c6ce51a84a39d5ff0b754f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 09/54] fix: ts: skip the reserved bytes of an adaptation field
 extension

---
 ts/adaptation_field.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..e6a96df 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -117,6 +117,12 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		remainLength -= 5
+	}
+
+	// skip the reserved bytes
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From a5ea4047247c4937a3e5b42714af014d63a67db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 10/54] fix: ts: report adaptation fields that exceed their
 packet instead of panicking

---
 ts/adaptation_field.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index e6a96df..1bfe813 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
@@ -18,6 +19,10 @@ const (
 	FieldThenPayload                        // 0b11
 )
 
+// ErrInvalidAdaptationField is the error returned if the lengths in an adaptation
+// field exceed the packet or the adaptation field.
+var ErrInvalidAdaptationField = errors.New("invalid adaptation field")
+
 type TransportPrivateData struct {
 	// length of the transport private data section excludes the length byte
 	length uint32
@@ -158,6 +163,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 	if err != nil {
 		return nil, 0, err
 	}
+	if remainLength >= MaxPayloadSize {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 
 	// parse the adaptation field flags
 	if remainLength >= 1 {
@@ -229,6 +237,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrInvalidAdaptationField
+		}
 		remainLength -= length + 1
 	}
 
@@ -237,6 +248,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrInvalidAdaptationField
+		}
 		remainLength -= length + 1
 	}
 
-- 
2.43.0


From 6a46d7b6e29e9217e174cc24c9f1117e430a3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 11/54] fix: pes: reading into a reused packet drops its
 previous header and payload

---
 pes/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..d9f5f95 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -64,6 +64,10 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		return ErrStartCodePrefixNotFound
 	}
 
+	// The packet may be reused: forget the parts of the previous one.
+	packet.Header = nil
+	packet.Payload = nil
+
 	reader.Skip(24)
 
 	packet.StreamID, err = reader.Read32(8)
-- 
2.43.0


From 9862e200c38ffc59c2bf336f36ca6b8add593870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 12/54] fix: pes: read the data bytes of packets whose stream
 id has no header

---
 pes/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index d9f5f95..019283a 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -110,6 +110,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		payloadLen := int(packet.PacketLength)
+		packet.Payload = make([]byte, payloadLen)
+		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 6b546da6b93f4c2a451ff6f257cf05c4dc512985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 13/54] fix: pes: report header and packet lengths that
 contradict each other

---
 pes/header.go | 4 ++++
 pes/packet.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..a6c3808 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -166,6 +166,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if bytesRead-minimumHeaderSize > header.HeaderDataLength {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 019283a..ed045c8 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("invalid length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -88,6 +89,10 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 			return err
 		}
 
+		if packet.PacketLength > 0 && packet.PacketLength < headerLen {
+			return ErrInvalidLength
+		}
+
 		if packet.PacketLength > 0 {
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
-- 
2.43.0


From 4102347736af0af16df5d09a6dc6e3756b91f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 14/54] fix: pes: skip the optional header fields that are not
 used instead of panicking

---
 pes/extension.go | 26 +++++++++++++++++++++++---
 pes/header.go    | 36 ++++++++++++++++++------------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..baaeba7 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -58,11 +58,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err = r.Skip(16); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -83,7 +93,17 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		if v, err := r.Read32(1); v != 1 || err != nil {
+			return nil, 0, ErrMarkerNotFound
+		}
+		length, err := r.Read32(7)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
diff --git a/pes/header.go b/pes/header.go
index a6c3808..40f2cc2 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -135,24 +135,24 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
-	if header.EscrFlag {
-		panic("escr")
-	}
-
-	if header.EsRateFlag {
-		panic("es rate")
-	}
-
-	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
-	}
-
-	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
-	}
-
-	if header.CrcFlag {
-		panic("crc flag")
+	// The values of these fields are not used, but they are a part of the header.
+	for _, field := range []struct {
+		present bool
+		len     uint32
+	}{
+		{header.EscrFlag, 6},
+		{header.EsRateFlag, 3},
+		{header.DsmTrickModeFlag, 1},
+		{header.AdditionalCopyInfoFlag, 1},
+		{header.CrcFlag, 2},
+	} {
+		if !field.present {
+			continue
+		}
+		if err = reader.Skip(uint(field.len) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += field.len
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From c955bf634f0235daaf6117547ae0b33eda3d54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 15/54] fix: pes: report a stream that ends inside a packet as
 an unexpected end

---
 pes/packet.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index ed045c8..5e352fc 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -50,6 +50,20 @@ func NewPacket(br bitreader.BitReader) (packet *Packet, err error) {
 // Next reads the next packet from the bitstream
 func (packet *Packet) Next(reader bitreader.BitReader) error {
 
+	// The end of the bitstream is only expected between packets.
+	if _, err := reader.Peek32(8); err != nil {
+		return err
+	}
+
+	err := packet.read(reader)
+	if err == io.EOF || err == ts.EOP {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
+func (packet *Packet) read(reader bitreader.BitReader) error {
+
 	var (
 		val uint32
 		err error
-- 
2.43.0


From ddf4725f8392f74228c73df4c4b7016ba09f0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 16/54] fix: pes: payload reader continues over the end of a
 payload unit

---
 pes/payload_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..d24edc6 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -3,6 +3,7 @@ package pes
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/ts"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
@@ -37,7 +38,10 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	// Fill from packet stream
 	for len(p) > 0 {
 		err := r.currentPacket.Next(r.br)
-		if err != nil {
+		if err == ts.EOP {
+			// End of a payload unit: the next packet is in the next one.
+			continue
+		} else if err != nil {
 			return n, err
 		}
 
-- 
2.43.0


From 267f524734660faf70496aed88464966401fda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 17/54] fix: pes: payload reader delivers its last bytes before
 the error

---
 pes/payload_reader.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index d24edc6..492cfbd 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -17,9 +17,15 @@ type payloadReader struct {
 	br            bitreader.BitReader
 	currentPacket *Packet
 	remainder     bytes.Buffer
+	deferred      error
 }
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
+	if r.deferred != nil {
+		err, r.deferred = r.deferred, nil
+		return 0, err
+	}
+
 	// Drain remainder
 	for len(p) > 0 {
 		cn, err := r.remainder.Read(p)
@@ -42,6 +48,12 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			// End of a payload unit: the next packet is in the next one.
 			continue
 		} else if err != nil {
+			// Hand out what was read first: consumers like the bit reader
+			// discard bytes that arrive along with an error.
+			if n > 0 {
+				r.deferred = err
+				return n, nil
+			}
 			return n, err
 		}
 
-- 
2.43.0


From 84dfb28b4fe5a0f993ae7595bf197e3a851bf6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 18/54] fix: ps: the system header's video bound no longer
 overwrites its audio bound

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From 3e3ed66d8b6bdb07793d9b534a43191973e5f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 19/54] fix: ps: pack reader accepts packs without packets

---
 ps/pack_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..d2030fd 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -55,6 +55,8 @@ PACK:
 		return 0, err
 	}
 
+	goto STEP
+
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-- 
2.43.0


From 2c8b699e7d3721a2cd1913d76be9840369a25669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 20/54] fix: ps: pack reader reports errors and the end of the
 program, and loses no bytes before them

---
 ps/pack_reader.go | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index d2030fd..46e5662 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -13,6 +13,8 @@ import (
 type packreader struct {
 	br        bitreader.BitReader
 	remainder *bytes.Buffer
+	deferred  error
+	ended     bool
 }
 
 func NewPackReader(r io.Reader) io.Reader {
@@ -22,9 +24,25 @@ func NewPackReader(r io.Reader) io.Reader {
 	}
 }
 
-func (pr packreader) Read(d []byte) (int, error) {
+// fail reports err, but hands out the n bytes that were read before it first:
+// consumers like the bit reader discard bytes that arrive along with an error.
+func (pr *packreader) fail(n int, err error) (int, error) {
+	if n > 0 {
+		pr.deferred = err
+		return n, nil
+	}
+	return 0, err
+}
+
+func (pr *packreader) Read(d []byte) (int, error) {
 	n := 0
 
+	if pr.deferred != nil {
+		err := pr.deferred
+		pr.deferred = nil
+		return 0, err
+	}
+
 	// DRAIN buffer
 	{
 		read, err := pr.remainder.Read(d)
@@ -39,9 +57,17 @@ func (pr packreader) Read(d []byte) (int, error) {
 		}
 	}
 
+	if pr.ended {
+		return pr.fail(n, io.EOF)
+	}
+
 STEP:
 	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+		// The end of the bitstream is only expected between packets.
+		if _, partial := pr.br.Peek32(8); err == io.EOF && partial == nil {
+			err = io.ErrUnexpectedEOF
+		}
+		return pr.fail(n, err)
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -52,7 +78,10 @@ STEP:
 
 PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return pr.fail(n, err)
 	}
 
 	goto STEP
@@ -60,7 +89,7 @@ PACK:
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return pr.fail(n, err)
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
@@ -79,5 +108,6 @@ MORE_PACKETS:
 PROGRAM_END:
 
 	pr.br.Skip(32)
-	return n, io.EOF
+	pr.ended = true
+	return pr.fail(n, io.EOF)
 }
-- 
2.43.0


From 16cbe7168a637de2e9ac3552e4bb8f2742a975c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 21/54] fix: ps: decoder reports packets that cannot be read

---
 ps/decoder.go | 5 +++++
 ps/pack.go    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/ps/decoder.go b/ps/decoder.go
index 1f7aeb5..80664bd 100644
--- a/ps/decoder.go
+++ b/ps/decoder.go
@@ -33,6 +33,11 @@ func (d *decoder) Go() <-chan bool {
 
 			<-packComplete
 
+			if pack.err != nil {
+				d.err = pack.err
+				return
+			}
+
 			if nextbits, err := d.r.Peek32(32); err != nil {
 				d.err = err
 				return
diff --git a/ps/pack.go b/ps/pack.go
index a5c9945..beafc65 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -6,6 +6,7 @@ import "github.com/32bitkid/mpeg/pes"
 type Pack struct {
 	*PackHeader
 	packs chan *pes.Packet
+	err   error
 }
 
 func (p *Pack) Packets() pes.PacketChannel {
@@ -47,6 +48,7 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 			}
 
 			if packet, err := pes.NewPacket(r); err != nil {
+				pack.err = err
 				return
 			} else {
 				pack.packs <- packet
-- 
2.43.0


From 77a9f72ca3b891d1cf171885f01063704c517fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 22/54] fix: video: half-sample and bidirectional predictions
 are rounded

---
 video/motion_compensation.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..2232a3c 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,20 +136,23 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			if samples == 2 {
+				pel = (pel + 1) >> 1
+			}
+			b[v*8+u] += pel
 		}
 	}
 }
-- 
2.43.0


From 44b94d1a8eb9c09084b6a317e69a4e6af72a6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 23/54] fix: video: chrominance vectors are scaled towards zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 2232a3c..1a871ec 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From e302060ebc12ca5a8ad90f4c6723e44534be6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 24/54] fix: video: the prediction of a macroblock with field
 DCT is arranged like its residual

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 21 ++++++++++++++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..b0b3872 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -38,7 +38,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..172d3c1 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -160,7 +160,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore)
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 1a871ec..6d2d4b6 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -5,11 +5,12 @@ type motionCompensationState struct {
 	i       int
 	channel []uint8
 	stride  int
+	step    int // distance between the lines of the block
 	h_half  bool
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -53,9 +54,16 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
 			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			bState.step = bState.stride
+			if interlaced {
+				// the lines of the block alternate with those of another one (see updateFrameSlice)
+				bState.i = (((mb_row * 16) + (i&2)>>1) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+				bState.step *= 2
+			}
 		case 4, 5:
 			bState.stride = image.CStride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
+			bState.step = bState.stride
 		}
 
 		bState.i += vertical * bState.stride
@@ -94,9 +102,16 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
 			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			fState.step = fState.stride
+			if interlaced {
+				// the lines of the block alternate with those of another one (see updateFrameSlice)
+				fState.i = (((mb_row * 16) + (i&2)>>1) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+				fState.step *= 2
+			}
 		case 4, 5:
 			fState.stride = image.CStride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
+			fState.step = fState.stride
 		}
 
 		fState.i += vertical * fState.stride
@@ -108,7 +123,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			var samples uint = 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * fState.step) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -128,7 +143,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * bState.step) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From 1fcc05d64a5a2435f55fb9d7778112783fbd57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 25/54] fix: video: downloaded quantiser matrices are
 transmitted in zigzag order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 11 +++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..49ea3d0 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,8 +34,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.inverse_scan()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.inverse_scan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -51,8 +51,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.inverse_scan()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.inverse_scan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -68,7 +68,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.inverse_scan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -84,7 +84,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.inverse_scan()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..73931a5 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,17 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverse_scan returns the matrix for a matrix that is in the (zigzag) order in which it is transmitted.
+func (m quantisationMatrix) inverse_scan() (w quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			w[v][u] = m[n/8][n%8]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..711f0f6 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverse_scan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverse_scan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverse_scan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverse_scan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From fab7d9914843355486bb86b1f605ba1c4fb9b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 26/54] fix: video: reference pictures are selected by picture
 type

---
 video/frame_provider.go |  2 +-
 video/frame_store.go    | 18 ++++++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..a0144b0 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -73,7 +73,7 @@ MORE_FRAMES:
 		return nil, err
 	}
 
-	self.frameStore.set(self.PictureHeader.temporal_reference)
+	self.frameStore.set(self.PictureHeader.picture_coding_type)
 
 	if frame, err := self.picture_data(); err != nil {
 		return nil, err
diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..8d17abc 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -19,16 +19,14 @@ func (fs *frameStore) gop() {
 	fs.frames[1].previous_gop = true
 }
 
-func (fs *frameStore) set(current_temporal_reference uint32) {
-	for _, ref := range fs.frames {
-		if ref.frame != nil {
-			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
-				fs.past = ref.frame
-			} else {
-				fs.future = ref.frame
-			}
-		}
+// set selects the references for a picture: a P picture refers to the reference decoded last,
+// a B picture to the two decoded last.
+func (fs *frameStore) set(pct PictureCodingType) {
+	switch pct {
+	case PFrame:
+		fs.past, fs.future = fs.frames[1].frame, nil
+	case BFrame:
+		fs.past, fs.future = fs.frames[0].frame, fs.frames[1].frame
 	}
 }
 
-- 
2.43.0


From a9afefeb9c4361436955eb65c8f8c209b8a68e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 27/54] fix: video: the frame counter wraps around with the
 temporal reference

---
 video/video_sequence.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..7cfe49d 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -83,7 +83,7 @@ func (vs *VideoSequence) Size() (width int, height int) {
 func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
-		vs.frameCounter++
+		vs.frameCounter = (vs.frameCounter + 1) & 0x3FF // temporal references are 10 bits
 		return img, nil
 	}
 
@@ -92,7 +92,7 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 		if img, err := vs.step(); err != nil {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
-			vs.frameCounter++
+			vs.frameCounter = (vs.frameCounter + 1) & 0x3FF // temporal references are 10 bits
 			return img, nil
 		}
 	}
-- 
2.43.0


From e94fa74608907030f0e1fb2c9d7fb4f0cc86f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 28/54] fix: video: slices of pictures higher than 2800 lines
 are placed by their position extension

---
 video/slice.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..b16aa52 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -37,7 +37,14 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 	s := Slice{}
 	s.slice_start_code = StartCode(code)
 
-	mb_row := int((code & 0xFF) - 1)
+	if _, vertical_size := br.Size(); vertical_size > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+	}
+
+	mb_row := int(s.slice_vertical_position_extension<<7) + int((code&0xFF)-1)
 
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
@@ -48,13 +55,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From 6fc348d9cfe495d7f90fbfcd3be5e3a64b6352d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 29/54] fix: video: pictures of interlaced sequences are a
 whole number of macroblock pairs high

---
 video/picture_data.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..bf58972 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -2,10 +2,14 @@ package video
 
 import "image"
 
-func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
+func createFrameBuffer(w, h int, progressive bool, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
 	verticalMacroblocks := (h + 15) >> 4
+	if !progressive {
+		// both fields are made of whole macroblocks
+		verticalMacroblocks = ((h + 31) >> 5) << 1
+	}
 
 	r := image.Rect(0, 0, horizontalMacroblocks<<4, verticalMacroblocks<<4)
 
@@ -25,7 +29,7 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
 	w, h := self.Size()
-	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
+	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence == 1, self.SequenceExtension.chroma_format)
 
 	for {
 		if err := self.slice(frame); err != nil {
-- 
2.43.0


From 23430bac8ceb54390a2b4fc8a028b650969036d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 30/54] fix: video: unsupported features are reported as errors

---
 video/extension_and_user_data.go     |  6 +-----
 video/frame_provider.go              |  5 +++++
 video/motion_vectors.go              |  2 +-
 video/picture_data.go                | 14 ++++++++++++++
 video/sequence_scalable_extension.go |  4 +---
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..3384407 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -67,7 +67,7 @@ func (br *VideoSequence) extension_data(i int) error {
 			case PictureDisplayExtensionID:
 				picture_display_extension()
 			case PictureSpatialScalableExtensionID:
-				picture_spatial_scalable_extension()
+				return ErrUnsupportedScalability
 			default:
 				if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
@@ -86,7 +86,3 @@ func copyright_extension() {
 func picture_display_extension() {
 	panic("unsupported: picture_display_extension")
 }
-
-func picture_spatial_scalable_extension() {
-	panic("unsupported: picture_spatial_scalable_extension")
-}
diff --git a/video/frame_provider.go b/video/frame_provider.go
index a0144b0..80b22c8 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -5,6 +5,11 @@ import "image"
 
 var EOS = errors.New("end of sequence")
 var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video stream ISO/IEC 11172-2")
+var ErrUnsupportedChromaFormat = errors.New("unsupported chroma format")
+var ErrUnsupportedPictureStructure = errors.New("unsupported picture structure")
+var ErrUnsupportedPictureCodingType = errors.New("unsupported picture coding type")
+var ErrUnsupportedScalability = errors.New("unsupported scalability")
+var ErrUnsupportedDualPrime = errors.New("unsupported dual-prime prediction")
 
 // step() will return the next frame of video decoded from the video stream.
 //
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..8861eac 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -141,7 +141,7 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 			}
 		}
 		if mvd.info.dmv == 1 {
-			panic("unsupported: dmv[]")
+			return ErrUnsupportedDualPrime
 		}
 
 		mvd.update_actual(r, s, t, f_code, mvd.info.motion_vector_format, fp.PictureCodingExtension.picture_structure)
diff --git a/video/picture_data.go b/video/picture_data.go
index bf58972..176c70e 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -28,6 +28,20 @@ func createFrameBuffer(w, h int, progressive bool, cf ChromaFormat) *image.YCbCr
 
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
+	if self.SequenceExtension.chroma_format != ChromaFormat420 {
+		return nil, ErrUnsupportedChromaFormat
+	}
+
+	if self.PictureCodingExtension.picture_structure != PictureStructure_FramePicture {
+		return nil, ErrUnsupportedPictureStructure
+	}
+
+	switch self.PictureHeader.picture_coding_type {
+	case IFrame, PFrame, BFrame:
+	default:
+		return nil, ErrUnsupportedPictureCodingType
+	}
+
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence == 1, self.SequenceExtension.chroma_format)
 
diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..924e7ea 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -49,7 +49,7 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
+	return nil, ErrUnsupportedScalability
 
 	/*
 		scalable_mode 2 uimsbf
@@ -71,6 +71,4 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
-	panic("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From b8adc987c56753a40fb13b8b22742f78b016aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 31/54] fix: video: copyright and picture display extensions
 are skipped

---
 video/extension_and_user_data.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 3384407..2348f7c 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -63,9 +63,13 @@ func (br *VideoSequence) extension_data(i int) error {
 					return err
 				}
 			case CopyrightExtensionID:
-				copyright_extension()
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureDisplayExtensionID:
-				picture_display_extension()
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureSpatialScalableExtensionID:
 				return ErrUnsupportedScalability
 			default:
@@ -79,10 +83,15 @@ func (br *VideoSequence) extension_data(i int) error {
 	return nil
 }
 
-func copyright_extension() {
-	panic("unsupported: copyright_extension")
-}
-
-func picture_display_extension() {
-	panic("unsupported: picture_display_extension")
+// skip_extension passes over an extension that does not matter for decoding.
+func (br *VideoSequence) skip_extension() error {
+	for {
+		if prefix, err := br.Peek32(24); err != nil {
+			return err
+		} else if prefix == StartCodePrefix {
+			return nil
+		} else if err := br.Skip(8); err != nil {
+			return err
+		}
+	}
 }
-- 
2.43.0


From 178a10cca9a1b1a825ba9e9798cce7cc2ae90b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 32/54] fix: video: an extension after a group header is an
 error

---
 video/extension_and_user_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 2348f7c..bfe913c 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -14,6 +14,9 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			if _, err := br.user_data(); err != nil {
 				return err
 			}
+		} else {
+			// extension_data() never follows a group_of_pictures_header()
+			return ErrUnexpectedStartCode
 		}
 	}
 
-- 
2.43.0


From 5fc205884068893bb3e4a24be69022857afd7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 33/54] fix: video: extension id 11 is reserved

---
 video/extension_id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/extension_id.go b/video/extension_id.go
index 83b2f52..11f47c3 100644
--- a/video/extension_id.go
+++ b/video/extension_id.go
@@ -32,7 +32,7 @@ var ErrUnexpectedExtensionID = errors.New("unexpected sequence extension id")
 func (id ExtensionID) IsReserved() bool {
 	return id == ExtensionID(0) ||
 		id == ExtensionID(6) ||
-		id > ExtensionID(11)
+		id >= ExtensionID(11)
 }
 
 // Check() returns true if the following bits in the bitstream match the expected extension id.
-- 
2.43.0


From fbe1b0cf730bcc3b5056bfae5cf4ebd8aa62ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 34/54] fix: video: hours of a time code have two digits

---
 video/group_of_pictures_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/group_of_pictures_header.go b/video/group_of_pictures_header.go
index a1cb029..69bf3a6 100644
--- a/video/group_of_pictures_header.go
+++ b/video/group_of_pictures_header.go
@@ -74,5 +74,5 @@ func (tc TimeCode) String() string {
 	if tc.DropFrame {
 		secondsFramesSep = ";"
 	}
-	return fmt.Sprintf("%d:%02d:%02d%s%02d", tc.Hours, tc.Minutes, tc.Seconds, secondsFramesSep, tc.Pictures)
+	return fmt.Sprintf("%02d:%02d:%02d%s%02d", tc.Hours, tc.Minutes, tc.Seconds, secondsFramesSep, tc.Pictures)
 }
-- 
2.43.0


From 6831143c4c325c5b4a0fe506f446dc54f5111c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 35/54] fix: video: an invalid coded block pattern is an error

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 172d3c1..7150334 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From 7ae0ce00707c38f9c736c24a40b94dcbf418e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 36/54] fix: video: too many coefficients in a block are an
 error

---
 video/block.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..3a5021c 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,10 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+var ErrTooManyCoefficients = errors.New("too many coefficients in a block")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -94,6 +97,9 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				n = n + 1
 			}
 		} else {
+			if n+run >= blockSize {
+				return ErrTooManyCoefficients
+			}
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
 				n = n + 1
-- 
2.43.0


From 0cc7fa786801e15ba9d8d8e70c693985afa38417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 37/54] fix: video: macroblocks outside of the picture are an
 error

---
 video/macroblock.go | 4 ++++
 video/slice.go      | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/video/macroblock.go b/video/macroblock.go
index 7150334..011648d 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -43,6 +43,10 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if 16*(mb_address+mb.macroblock_address_increment) >= frameSlice.Rect.Dx() {
+		return 0, ErrOutsidePicture
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
diff --git a/video/slice.go b/video/slice.go
index b16aa52..2c62630 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -4,6 +4,7 @@ import "errors"
 import "image"
 
 var ErrInvalidReservedBits = errors.New("invalid reserved bits")
+var ErrOutsidePicture = errors.New("macroblock or prediction outside of the picture")
 
 type Slice struct {
 	slice_start_code                  StartCode // 32 bslbf
@@ -46,6 +47,10 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int(s.slice_vertical_position_extension<<7) + int((code&0xFF)-1)
 
+	if 16*mb_row >= frame.Rect.Dy() {
+		return ErrOutsidePicture
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
-- 
2.43.0


From f635d465b855dac334dd93effb70f6b5df3e756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 38/54] fix: video: concealment motion vectors are frame
 vectors, invalid motion types are errors

---
 video/motion_vector_info.go | 27 ++++++++++++++++++---------
 video/motion_vectors.go     |  6 +++++-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..ce6769b 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -1,5 +1,7 @@
 package video
 
+import "errors"
+
 type motionVectorFormat int
 
 const (
@@ -14,28 +16,35 @@ type motionVectorInfo struct {
 	dmv                  int
 }
 
-func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
+var ErrInvalidMotionType = errors.New("invalid motion type")
+
+func mv_info(fp *VideoSequence, mb *Macroblock) (motionVectorInfo, error) {
 	if fp.PictureCodingExtension.frame_pred_frame_dct == 1 {
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
+	}
+
+	// the type of concealment motion vectors is not coded
+	if mb.macroblock_type.macroblock_intra {
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	}
 
 	switch mb.frame_motion_type {
 	case 1:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
 	switch mb.field_motion_type {
 	case 1:
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
-	panic("invalid motion vector state")
+	return motionVectorInfo{}, ErrInvalidMotionType
 }
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 8861eac..b385ec2 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -123,7 +123,11 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 
 	f_code := fp.PictureCodingExtension.f_code
 
-	mvd.info = mv_info(fp, mb)
+	info, err := mv_info(fp, mb)
+	if err != nil {
+		return err
+	}
+	mvd.info = info
 
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
-- 
2.43.0


From 1b50cc18c7334e4fbf98131d455695603acc9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 39/54] fix: video: vectors with an invalid f_code are an error

---
 video/motion_vectors.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index b385ec2..1eff654 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -1,8 +1,11 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/huffman"
 import "github.com/32bitkid/bitreader"
 
+var ErrInvalidFCode = errors.New("invalid f_code")
+
 type motionVectors [2][2][2]int
 type motionVectorPredictions motionVectors
 
@@ -129,6 +132,12 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 	}
 	mvd.info = info
 
+	for t := 0; t < 2; t++ {
+		if f_code[s][t] < 1 || f_code[s][t] > 9 {
+			return ErrInvalidFCode
+		}
+	}
+
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
 			return err
-- 
2.43.0


From 50572f21f3035f98fe2f9188905ce7531cfbb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 40/54] fix: video: predictions from outside of the reference
 picture are an error

---
 video/copy_macroblocks.go    |  7 ++++++-
 video/macroblock.go          | 10 ++++++++--
 video/motion_compensation.go | 17 +++++++++++++++++
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index b0b3872..ee4f93e 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -31,11 +31,14 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 	}
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
+		if !mvd.inside(mb_row, mb_addr, fs) {
+			return ErrOutsidePicture
+		}
 		for i := 0; i < 6; i++ {
 			b.zero()
 			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
@@ -43,4 +46,6 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 011648d..a630828 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -56,12 +56,14 @@ func (br *VideoSequence) macroblock(
 				mb.macroblock_address_increment-1,
 				frameSlice, br.frameStore.past)
 		case BFrame:
-			bframe_copy_macroblocks(
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -148,6 +150,10 @@ func (br *VideoSequence) macroblock(
 	mb_address += mb.macroblock_address_increment
 	pattern_code := mb.cbp.decode(mb.macroblock_type.macroblock_intra, mb.macroblock_type.macroblock_pattern, br.SequenceExtension.chroma_format)
 
+	if !mvd.inside(mb_row, mb_address, br.frameStore) {
+		return 0, ErrOutsidePicture
+	}
+
 	var b block
 	var cb clampedblock
 
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 6d2d4b6..7092134 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,7 @@
 package video
 
+import "image"
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -10,6 +12,21 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
+// inside returns whether the predictions of a macroblock lie inside of the reference pictures.
+func (mvd *motionVectorData) inside(mb_row, mb_addr int, fs frameStore) bool {
+	for s, ref := range []*image.YCbCr{fs.past, fs.future} {
+		if mvd.previous&(motionVectorsFormed_FrameForward<<uint(s)) == 0 || ref == nil {
+			continue
+		}
+		x := mb_addr*32 + mvd.actual[0][s][0]
+		y := mb_row*32 + mvd.actual[0][s][1]
+		if x < 0 || x > 2*(ref.Rect.Dx()-16) || y < 0 || y > 2*(ref.Rect.Dy()-16) {
+			return false
+		}
+	}
+	return true
+}
+
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
-- 
2.43.0


From dd07d70b377d5f41630f4f28abb36d323670d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 41/54] fix: video: missing reference pictures and ones of
 another size do not crash the decoder

---
 video/copy_macroblocks.go | 5 +++++
 video/frame_provider.go   | 1 +
 video/picture_data.go     | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index ee4f93e..b618b38 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -3,6 +3,11 @@ package video
 import "image"
 
 func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
+	if src == nil {
+		// there is no reference picture
+		return
+	}
+
 	// Copy Y
 	{
 		y := row * 16
diff --git a/video/frame_provider.go b/video/frame_provider.go
index 80b22c8..a4c8cd7 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -9,6 +9,7 @@ var ErrUnsupportedChromaFormat = errors.New("unsupported chroma format")
 var ErrUnsupportedPictureStructure = errors.New("unsupported picture structure")
 var ErrUnsupportedPictureCodingType = errors.New("unsupported picture coding type")
 var ErrUnsupportedScalability = errors.New("unsupported scalability")
+var ErrReferenceSize = errors.New("reference picture of another size")
 var ErrUnsupportedDualPrime = errors.New("unsupported dual-prime prediction")
 
 // step() will return the next frame of video decoded from the video stream.
diff --git a/video/picture_data.go b/video/picture_data.go
index 176c70e..e62d9c0 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -45,6 +45,14 @@ func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence == 1, self.SequenceExtension.chroma_format)
 
+	if self.PictureHeader.picture_coding_type != IFrame {
+		for _, ref := range []*image.YCbCr{self.frameStore.past, self.frameStore.future} {
+			if ref != nil && ref.Rect != frame.Rect {
+				return nil, ErrReferenceSize
+			}
+		}
+	}
+
 	for {
 		if err := self.slice(frame); err != nil {
 			return nil, err
-- 
2.43.0


From 48c186131670c4db0687742ba98e077ac77802c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 42/54] fix: video: a sequence header without extension does
 not make the decoder crash when asked again

---
 video/frame_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a4c8cd7..559bf38 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -18,7 +18,7 @@ var ErrUnsupportedDualPrime = errors.New("unsupported dual-prime prediction")
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil {
+	if self.SequenceHeader != nil && self.SequenceExtension != nil {
 		goto RESUME
 	}
 
-- 
2.43.0


From b32cf5506703be80ac388637fbec2013775accea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 43/54] fix: video: field-based prediction in frame pictures

---
 video/copy_macroblocks.go          |  4 ++
 video/field_motion_compensation.go | 64 ++++++++++++++++++++++++++++++
 video/motion_compensation.go       | 15 +++++--
 video/motion_vectors.go            |  6 ++-
 4 files changed, 84 insertions(+), 5 deletions(-)
 create mode 100644 video/field_motion_compensation.go

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index b618b38..99d34bd 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -37,6 +37,10 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 }
 
 func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
+	// skipped macroblocks have frame-based prediction with the predicted vectors
+	mvd.info = motionVectorInfo{1, motionVectorFormat_Frame, 0}
+	mvd.actual = motionVectors(mvd.predictions)
+
 	var b block
 	var cb clampedblock
 
diff --git a/video/field_motion_compensation.go b/video/field_motion_compensation.go
new file mode 100644
index 0000000..77a5ad8
--- /dev/null
+++ b/video/field_motion_compensation.go
@@ -0,0 +1,64 @@
+package video
+
+import "image"
+
+// field_motion_compensation adds the field-based prediction of a frame picture to the block: the lines
+// of each field are predicted with their own vector from a field of the reference picture.
+func (b *block) field_motion_compensation(mvd *motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
+	for v := 0; v < 8; v++ {
+		// line of the macroblock
+		line := v
+		if i < 4 && interlaced {
+			line = 2*v + (i&2)>>1
+		} else if i < 4 {
+			line = v + (i&2)<<2
+		}
+
+		var pel [8]int32
+		samples := 0
+
+		for s, ref := range []*image.YCbCr{fs.past, fs.future} {
+			if mvd.previous&(motionVectorsFormed_FrameForward<<uint(s)) == 0 || ref == nil {
+				continue
+			}
+			samples++
+
+			field := line & 1
+			horizontal, vertical := mvd.actual[field][s][0], mvd.actual[field][s][1]
+
+			var channel []uint8
+			var stride, x, y int
+			switch i {
+			case 4, 5:
+				horizontal, vertical = horizontal/2, vertical/2
+				channel, stride = ref.Cb, ref.CStride
+				if i == 5 {
+					channel = ref.Cr
+				}
+				x, y = mb_addr*8, mb_row*4+line>>1
+			default:
+				channel, stride = ref.Y, ref.YStride
+				x, y = mb_addr*16+(i&1)<<3, mb_row*8+line>>1
+			}
+
+			x += horizontal >> 1
+			y = 2*(y+vertical>>1) + int(mvd.vertical_field_select[field][s])
+
+			// offsets of the samples next to and below (in the same field)
+			right, below := horizontal&1, (vertical&1)*2*stride
+
+			for u := 0; u < 8; u++ {
+				n := y*stride + x + u
+				pel[u] += (int32(channel[n]) + int32(channel[n+right]) +
+					int32(channel[n+below]) + int32(channel[n+below+right]) + 2) / 4
+			}
+		}
+
+		for u := 0; u < 8; u++ {
+			if samples == 2 {
+				pel[u] = (pel[u] + 1) >> 1
+			}
+			b[v*8+u] += pel[u]
+		}
+	}
+}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 7092134..9a992c4 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -18,10 +18,12 @@ func (mvd *motionVectorData) inside(mb_row, mb_addr int, fs frameStore) bool {
 		if mvd.previous&(motionVectorsFormed_FrameForward<<uint(s)) == 0 || ref == nil {
 			continue
 		}
-		x := mb_addr*32 + mvd.actual[0][s][0]
-		y := mb_row*32 + mvd.actual[0][s][1]
-		if x < 0 || x > 2*(ref.Rect.Dx()-16) || y < 0 || y > 2*(ref.Rect.Dy()-16) {
-			return false
+		for r := 0; r < mvd.info.motion_vector_count; r++ {
+			x := mb_addr*32 + mvd.actual[r][s][0]
+			y := mb_row*32 + mvd.actual[r][s][1]*mvd.info.motion_vector_count
+			if x < 0 || x > 2*(ref.Rect.Dx()-16) || y < 0 || y > 2*(ref.Rect.Dy()-16) {
+				return false
+			}
 		}
 	}
 	return true
@@ -29,6 +31,11 @@ func (mvd *motionVectorData) inside(mb_row, mb_addr int, fs frameStore) bool {
 
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
+	if motionVectors.info.motion_vector_format == motionVectorFormat_Field {
+		b.field_motion_compensation(&motionVectors, i, mb_row, mb_addr, interlaced, fs)
+		return
+	}
+
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
 			fs.future != nil,
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 1eff654..b890c42 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -100,6 +100,7 @@ func (motionVector *motionVectorData) update_actual(r, s, t int, f_code fCode, m
 }
 
 func (mvd *motionVectorData) reset() {
+	mvd.info = motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	mvd.predictions[0][0][0] = 0
 	mvd.predictions[0][0][1] = 0
 	mvd.predictions[0][1][0] = 0
@@ -180,7 +181,10 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.vertical_field_select[0][s] = val
 			}
 		}
-		return motion_vector(0, s)
+		if err := motion_vector(0, s); err != nil {
+			return err
+		}
+		mvd.predictions[1][s] = mvd.predictions[0][s]
 	} else {
 		if val, err := fp.Read32(1); err != nil {
 			return err
-- 
2.43.0


From 8a94fe81fbb20dbe995053fb8c2a304d6449e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 44/54] fix: video: the inverse transform does not overflow on
 strong residuals

---
 video/idct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/idct.go b/video/idct.go
index 7d70e37..5437d14 100644
--- a/video/idct.go
+++ b/video/idct.go
@@ -118,8 +118,8 @@ func (src *block) idct() {
 		x8 -= x3
 		x3 = x0 + x2
 		x0 -= x2
-		x2 = (r2*(x4+x5) + 128) >> 8
-		x4 = (r2*(x4-x5) + 128) >> 8
+		x2 = int32((r2*int64(x4+x5) + 128) >> 8)
+		x4 = int32((r2*int64(x4-x5) + 128) >> 8)
 
 		// Stage 4.
 		src[y8+0] = (x7 + x1) >> 8
@@ -172,8 +172,8 @@ func (src *block) idct() {
 		y8 -= y3
 		y3 = y0 + y2
 		y0 -= y2
-		y2 = (r2*(y4+y5) + 128) >> 8
-		y4 = (r2*(y4-y5) + 128) >> 8
+		y2 = int32((r2*int64(y4+y5) + 128) >> 8)
+		y4 = int32((r2*int64(y4-y5) + 128) >> 8)
 
 		// Stage 4.
 		src[8*0+x] = (y7 + y1) >> 14
-- 
2.43.0


From 3dcd68b6c022815b3088e429878d9abb80c2790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 45/54] fix: video: stuffing between sequences is skipped

---
 video/frame_provider.go | 8 +++++++-
 video/video_sequence.go | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 559bf38..74a21dc 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -18,7 +18,7 @@ var ErrUnsupportedDualPrime = errors.New("unsupported dual-prime prediction")
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil && self.SequenceExtension != nil {
+	if self.SequenceHeader != nil && self.SequenceExtension != nil && !self.ended {
 		goto RESUME
 	}
 
@@ -44,6 +44,8 @@ func (self *VideoSequence) step() (*image.YCbCr, error) {
 		return nil, err
 	}
 
+	self.ended = false
+
 CONTINUE:
 
 	if err := self.extension_and_user_data(0); err != nil {
@@ -122,5 +124,9 @@ RESUME:
 	goto CONTINUE
 
 END_OF_STREAM:
+
+	// another sequence may follow
+	self.ended = true
+
 	return nil, EOS
 }
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 7cfe49d..ed7aa54 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -24,6 +24,7 @@ type VideoSequence struct {
 	quantisationMatricies [4]quantisationMatrix
 	frameStore
 	frameCounter uint32
+	ended        bool // a sequence_end_code was read
 }
 
 func NewVideoSequence(r io.Reader) *VideoSequence {
-- 
2.43.0


From 267ee67cd0fa9e2c42e5cb03ec571c748546c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 46/54] fix: video: a sequence does not refer to the pictures
 of the one before

---
 video/frame_provider.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 74a21dc..49a0bf5 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -125,8 +125,10 @@ RESUME:
 
 END_OF_STREAM:
 
-	// another sequence may follow
+	// another sequence may follow, it does not refer to the pictures of this one
 	self.ended = true
+	self.frameStore = frameStore{}
+	self.frameCounter = 0
 
 	return nil, EOS
 }
-- 
2.43.0


From ff1d988a3aed9dc80932a631880bad5ff351a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 47/54] fix: pes: a failure of the source is not reported as a
 missing marker

---
 pes/extension.go |  8 ++++++--
 pes/header.go    | 20 +++++++++++++++-----
 pes/packet.go    |  4 +++-
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index baaeba7..2e217f1 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -76,7 +76,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
@@ -93,7 +95,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		if v, err := r.Read32(1); v != 1 || err != nil {
+		if v, err := r.Read32(1); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 		length, err := r.Read32(7)
diff --git a/pes/header.go b/pes/header.go
index 40f2cc2..96ed4f7 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,7 +31,9 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
-	if val != 2 || err != nil {
+	if err != nil {
+		return nil, 0, err
+	} else if val != 2 {
 		return nil, 0, ErrMarkerNotFound
 	}
 
@@ -202,7 +204,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
-	if val != marker || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != marker {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -214,7 +218,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -226,7 +232,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -238,7 +246,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
diff --git a/pes/packet.go b/pes/packet.go
index 5e352fc..61d7255 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -83,7 +83,9 @@ func (packet *Packet) read(reader bitreader.BitReader) error {
 	packet.Header = nil
 	packet.Payload = nil
 
-	reader.Skip(24)
+	if err = reader.Skip(24); err != nil {
+		return err
+	}
 
 	packet.StreamID, err = reader.Read32(8)
 	if err != nil {
-- 
2.43.0


From 13f5e7787fc65767b663faa608846c648e5a00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 48/54] fix: ps: a failure of the source in the pack stuffing
 is reported

---
 ps/pack_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ps/pack_header.go b/ps/pack_header.go
index d34cc29..424e2b6 100644
--- a/ps/pack_header.go
+++ b/ps/pack_header.go
@@ -97,7 +97,9 @@ func NewPackHeader(r bitreader.BitReader) (*PackHeader, error) {
 		return nil, err
 	} else {
 		for pack_stuffing_length > 0 {
-			r.Skip(8) // stuffing_byte
+			if err := r.Skip(8); err != nil { // stuffing_byte
+				return nil, err
+			}
 			pack_stuffing_length--
 		}
 	}
-- 
2.43.0


From 6ae9ccad5f34c0fb5d261abb493f6d68493427e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 49/54] fix: ts: a failure of the source in the reserved bits
 of an adaptation extension is reported

---
 ts/adaptation_field.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 1bfe813..cb735d0 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -81,7 +81,9 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 		if ae.SeamlessSpliceFlag, err = br.Read1(); err != nil {
 			return nil, 0, err
 		}
-		br.Skip(5)
+		if err = br.Skip(5); err != nil {
+			return nil, 0, err
+		}
 		remainLength--
 	}
 
@@ -96,7 +98,9 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 	}
 
 	if remainLength >= 3 && ae.PiecewiseRateFlag {
-		br.Skip(2)
+		if err = br.Skip(2); err != nil {
+			return nil, 0, err
+		}
 		if ae.PiecewiseRate, err = br.Read32(22); err != nil {
 			return nil, 0, err
 		}
@@ -112,12 +116,16 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 			return nil, 0, err
 		}
 		ae.DTSNextAU = v << 30
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v << 15
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From a5e5e7f859a52757e40d888b8d496436655c5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 50/54] fix: ps: a failure of the source between packets is
 reported

---
 ps/pack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ps/pack.go b/ps/pack.go
index beafc65..227072a 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -36,12 +36,14 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 		for true {
 
 			if nextbits, err := r.Peek32(24); err != nil {
+				pack.err = err
 				return
 			} else if nextbits != StartCodePrefix {
 				break
 			}
 
 			if nextbits, err := r.Peek32(32); err != nil {
+				pack.err = err
 				return
 			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {
 				return
-- 
2.43.0


From fc27e94dbe2b4a683038861d98d5f60c021e019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 51/54] fix: report a failure to read colour_description

---
 video/sequence_display_extension.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/video/sequence_display_extension.go b/video/sequence_display_extension.go
index 83f2ae7..5b17a2f 100644
--- a/video/sequence_display_extension.go
+++ b/video/sequence_display_extension.go
@@ -26,6 +26,10 @@ func sequence_display_extension(br bitreader.BitReader) (*SequenceDisplayExtensi
 	}
 
 	sde.colour_description, err = br.Read1()
+	if err != nil {
+		return nil, err
+	}
+
 	if sde.colour_description {
 		sde.colour_primaries, err = br.Read32(8)
 		if err != nil {
-- 
2.43.0


From 0b9559b8012eb5f112fa92863dd46215fdac72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 52/54] fix: video: a reference picture of another size only
 matters to pictures that use it

---
 video/copy_macroblocks.go    |  4 ++--
 video/frame_store.go         |  1 +
 video/macroblock.go          |  4 ++--
 video/motion_compensation.go | 12 ++++++++----
 video/picture_data.go        | 11 ++++++-----
 5 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 99d34bd..a80ca2e 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -45,8 +45,8 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
-		if !mvd.inside(mb_row, mb_addr, fs) {
-			return ErrOutsidePicture
+		if err := mvd.check(mb_row, mb_addr, fs); err != nil {
+			return err
 		}
 		for i := 0; i < 6; i++ {
 			b.zero()
diff --git a/video/frame_store.go b/video/frame_store.go
index 8d17abc..fbe4be0 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -12,6 +12,7 @@ type frameStore struct {
 	frames [2]referenceFrame
 	past   *image.YCbCr
 	future *image.YCbCr
+	rect   image.Rectangle // of the picture being decoded
 }
 
 func (fs *frameStore) gop() {
diff --git a/video/macroblock.go b/video/macroblock.go
index a630828..fca1b7f 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -150,8 +150,8 @@ func (br *VideoSequence) macroblock(
 	mb_address += mb.macroblock_address_increment
 	pattern_code := mb.cbp.decode(mb.macroblock_type.macroblock_intra, mb.macroblock_type.macroblock_pattern, br.SequenceExtension.chroma_format)
 
-	if !mvd.inside(mb_row, mb_address, br.frameStore) {
-		return 0, ErrOutsidePicture
+	if err := mvd.check(mb_row, mb_address, br.frameStore); err != nil {
+		return 0, err
 	}
 
 	var b block
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 9a992c4..c7fedd0 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -12,21 +12,25 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
-// inside returns whether the predictions of a macroblock lie inside of the reference pictures.
-func (mvd *motionVectorData) inside(mb_row, mb_addr int, fs frameStore) bool {
+// check returns an error unless the predictions of a macroblock lie inside of the reference
+// pictures, and these are of the size of the picture.
+func (mvd *motionVectorData) check(mb_row, mb_addr int, fs frameStore) error {
 	for s, ref := range []*image.YCbCr{fs.past, fs.future} {
 		if mvd.previous&(motionVectorsFormed_FrameForward<<uint(s)) == 0 || ref == nil {
 			continue
 		}
+		if ref.Rect != fs.rect {
+			return ErrReferenceSize
+		}
 		for r := 0; r < mvd.info.motion_vector_count; r++ {
 			x := mb_addr*32 + mvd.actual[r][s][0]
 			y := mb_row*32 + mvd.actual[r][s][1]*mvd.info.motion_vector_count
 			if x < 0 || x > 2*(ref.Rect.Dx()-16) || y < 0 || y > 2*(ref.Rect.Dy()-16) {
-				return false
+				return ErrOutsidePicture
 			}
 		}
 	}
-	return true
+	return nil
 }
 
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
diff --git a/video/picture_data.go b/video/picture_data.go
index e62d9c0..061ad42 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -45,11 +45,12 @@ func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence == 1, self.SequenceExtension.chroma_format)
 
-	if self.PictureHeader.picture_coding_type != IFrame {
-		for _, ref := range []*image.YCbCr{self.frameStore.past, self.frameStore.future} {
-			if ref != nil && ref.Rect != frame.Rect {
-				return nil, ErrReferenceSize
-			}
+	self.frameStore.rect = frame.Rect
+
+	// B pictures may do without one of their reference pictures
+	if self.PictureHeader.picture_coding_type == PFrame {
+		if ref := self.frameStore.past; ref != nil && ref.Rect != frame.Rect {
+			return nil, ErrReferenceSize
 		}
 	}
 
-- 
2.43.0


From a35691ef996fc553f814977464ca79e479dd04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 53/54] fix: payload reader: an error while skipping does not
 end skipping

---
 ts/payload_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 3f5fc7c..3e5acae 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -51,6 +51,8 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				// Not found yet: the next read goes on looking for it.
+				r.currentPacket = nil
 				return
 			}
 
-- 
2.43.0


From 5c47f03f7ca1710b9f72e65ecd5f56d095e16028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:15 +0000
Subject: [PATCH 54/54] fix: forget the group header of a sequence that has
 ended

---
 video/frame_provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 49a0bf5..f0764cf 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -45,6 +45,7 @@ func (self *VideoSequence) step() (*image.YCbCr, error) {
 	}
 
 	self.ended = false
+	self.GroupOfPicturesHeader = nil // that of another sequence
 
 CONTINUE:
 
-- 
2.43.0

