From c6e060fcad093ad1d7da151a2bb0cda91f180d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 01/52] fix: ts: don't report the previous packet's payload or
 adaptation field

A reused Packet kept the payload and adaptation field of the packet before
when the next packet carried none.
---
 ts/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..9c657e0 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -60,6 +60,10 @@ func NewPacket(br bitreader.BitReader) (packet *Packet, err error) {
 //  Read the next packet from the bit stream into an existing Packet.
 func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 
+	// Not every packet carries these, so don't keep those of the last one.
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	aligned, err := isAligned(br)
 	if err != nil {
 		return
-- 
2.43.0


From b98f2b4bba99b5a1a91e6a468a2940b67cf152e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 02/52] fix: ts: reject adaptation fields that are too long

The lengths of the adaptation field, its private data and its extension were
trusted, so that a corrupt one wrapped around: the packet reader panicked or
tried to allocate 4 GB.
---
 ts/adaptation_field.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..3a1406a 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,11 +1,20 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
 )
 
+// ErrInvalidAdaptationField is the error returned if an adaptation field, or a
+// part of it, is longer than the space it is contained in.
+var ErrInvalidAdaptationField = errors.New("invalid adaptation field")
+
+// maxAdaptationFieldLength is the number of bytes that can follow the
+// length of an adaptation field.
+const maxAdaptationFieldLength = MaxPayloadSize - 1
+
 // AdaptationFieldControl is the two bit code that appears in a transport
 // stream packet header that determines whether an Adapation Field appears
 // in the bit stream.
@@ -152,6 +161,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 	if err != nil {
 		return nil, 0, err
 	}
+	if remainLength > maxAdaptationFieldLength {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 
 	// parse the adaptation field flags
 	if remainLength >= 1 {
@@ -223,6 +235,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrInvalidAdaptationField
+		}
 		remainLength -= length + 1
 	}
 
@@ -231,6 +246,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrInvalidAdaptationField
+		}
 		remainLength -= length + 1
 	}
 
-- 
2.43.0


From 7380a5a8ed530b707554e1a6301436bb51a4ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 03/52] fix: ts: consume the whole adaptation field extension

The reserved bytes at its end, and the last marker bit of the seamless splice
fields, were left in the bitstream although they were counted, so that the
payload started too early. Errors while skipping bits were ignored.
---
 ts/adaptation_field.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 3a1406a..4ca5283 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -85,7 +85,9 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 		if ae.SeamlessSpliceFlag, err = br.Read1(); err != nil {
 			return nil, 0, err
 		}
-		br.Skip(5)
+		if err = br.Skip(5); err != nil {
+			return nil, 0, err
+		}
 		remainLength--
 	}
 
@@ -100,7 +102,9 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 	}
 
 	if remainLength >= 3 && ae.PiecewiseRateFlag {
-		br.Skip(2)
+		if err = br.Skip(2); err != nil {
+			return nil, 0, err
+		}
 		if ae.PiecewiseRate, err = br.Read32(22); err != nil {
 			return nil, 0, err
 		}
@@ -116,16 +120,29 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 			return nil, 0, err
 		}
 		ae.DTSNextAU = v << 30
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v << 15
-		br.Skip(1)
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
 		if v, err = br.Read64(15); err != nil {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		if err = br.Skip(1); err != nil {
+			return nil, 0, err
+		}
+		remainLength -= 5
+	}
+
+	// skip the reserved bytes
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From 9829e4564e58a2087ffd7e2f552c4409ebead690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 04/52] fix: ts: skip the body of packets with a reserved
 adaptation field control

Only their header was consumed, and the following read then searched for a
sync byte inside of the body.
---
 ts/packet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 9c657e0..e66208b 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -118,6 +118,11 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 
 	var payloadSize uint32 = MaxPayloadSize
 
+	// reserved: neither field nor payload is defined, discard the packet body
+	if packet.AdaptationFieldControl == 0 {
+		return br.Skip(MaxPayloadSize * 8)
+	}
+
 	if packet.AdaptationFieldControl == FieldOnly || packet.AdaptationFieldControl == FieldThenPayload {
 		var length uint32
 		packet.AdaptationField, length, err = newAdaptationField(br)
-- 
2.43.0


From d164d140df0b0d81ef47fae26d9937b3943f076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 05/52] fix: ts: give every demultiplexed packet its own
 storage

The demultiplexer parsed all packets into one Packet, and so changed packets
that their receivers were still reading.
---
 ts/demuxer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..650f8a4 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -57,7 +57,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -69,7 +68,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
-			err := p.Next(tsd.reader)
+			// The packet is handed over to its receivers, so it can't be reused.
+			p, err := NewPacket(tsd.reader)
 
 			if err != nil {
 				tsd.lastErr = err
-- 
2.43.0


From c431b99f20bc97712c2e8cd2efc65f601d4c1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 06/52] fix: ts: stop skipping packets when the source fails

The payload reader ignored the error while it looked for the first packet of
its SkipUntil window, and so never returned at the end of the stream.
---
 ts/payload_reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..99e8dac 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -45,6 +45,7 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				r.currentPacket = nil
 				return
 			}
 
@@ -96,7 +97,7 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 7855b597e8283eab6c9ad07645439c43a7f552e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 07/52] fix: ts: don't deliver the packet that ends skipping
 unless it matches

The payload reader delivered the payload of the packet that was accepted by
SkipUntil even if its packet tester refuses that packet.
---
 ts/payload_reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 99e8dac..b0b31dc 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -103,7 +103,9 @@ func (r *payloadReader) realign() (err error) {
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From c5796935b6da60b5616e43d45ceac8fae13d19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 08/52] fix: ts: don't deliver payload of the packet that
 TakeWhile refuses

How much of it was delivered depended on the size of the read.
---
 ts/payload_reader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index b0b31dc..be68a87 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -73,18 +73,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		cont := r.takeWhile(r.currentPacket)
+		if cont == false {
+			r.closed = true
+			return n, io.EOF
+		}
+
 		if r.where(r.currentPacket) {
 			copied := copy(p, r.currentPacket.Payload)
 			n = n + copied
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
-- 
2.43.0


From 5b7033775e70ec011cab377ef8ed3556404d20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 09/52] fix: ts: don't lose the end of the payload in front of
 an error

The payload reader returned the last bytes together with the error. The
bitreader drops bytes that come with an error, so a parser that reads from a
payload reader never saw them.
---
 ts/payload_reader.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index be68a87..dfb5399 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -24,6 +24,7 @@ type payloadReader struct {
 	takeWhile     PacketTester
 	remainder     bytes.Buffer
 	closed        bool
+	err           error
 }
 
 func (r *payloadReader) SkipUntil(skipUntil PacketTester) {
@@ -36,10 +37,22 @@ func (r *payloadReader) TakeWhile(takeWhile PacketTester) {
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
 
+	if r.err != nil {
+		err, r.err = r.err, nil
+		return 0, err
+	}
+
 	if r.closed == true {
 		return 0, io.EOF
 	}
 
+	// Report an error on its own: bitreader drops bytes that come with one.
+	defer func() {
+		if n > 0 && err != nil {
+			r.err, err = err, nil
+		}
+	}()
+
 	if r.currentPacket == nil {
 		r.currentPacket = new(Packet)
 		if r.skipUntil != nil {
-- 
2.43.0


From 90a33c4893930f11233ed590c52496d986e2f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 10/52] fix: ts: deliver the last payload unit

The end of the stream was reported instead of the last unit.
---
 ts/payload_unit_reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..70cb9aa 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,10 +36,14 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 	if stream.state == drained {
+		if stream.err != nil {
+			return 0, stream.err
+		}
 		_, ferr := stream.fill()
 		if ferr != nil {
 			return 0, ferr
@@ -77,6 +81,7 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 			err = stream.next()
 			if err != nil {
+				stream.currentPacket = nil
 				return
 			}
 		}
@@ -94,7 +99,9 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 
 		err = stream.next()
 		if err != nil {
-			break
+			// This ends the last unit, report it after that was read.
+			stream.err = err
+			return n, nil
 		}
 
 		if stream.startIndicator(stream.currentPacket) {
-- 
2.43.0


From 9f01654e25ab62306b51c5541684ac6f9741f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 11/52] fix: ts: don't lose the end of a payload unit in front
 of EOP

The payload unit reader returned the last bytes together with EOP. The
bitreader drops bytes that come with an error.
---
 ts/payload_unit_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 70cb9aa..2fb7393 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -57,6 +57,10 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 		p = p[rn:]
 
 		if rerr == io.EOF {
+			if n > 0 {
+				// Report EOP on its own: bitreader drops bytes that come with an error.
+				return n, nil
+			}
 			stream.state = drained
 			return n, EOP
 		} else if rerr != nil {
-- 
2.43.0


From f3efe5576944cb1eca31bfe5efc8bdbd04355076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 12/52] fix: ts: make PacketChannel.PayloadUnit deliver payload
 units

It delivered a unit only if reading from a buffer failed, which never
happens, would have put the start of a unit into the one before, and dropped
the last unit.
---
 ts/packet_channel.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..ede4a94 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -1,8 +1,5 @@
 package ts
 
-import "bytes"
-import "io/ioutil"
-
 // PacketChannel is a delivery channel of TS Packets
 type PacketChannel <-chan *Packet
 
@@ -18,25 +15,28 @@ func (input PacketChannel) PayloadOnly() <-chan []byte {
 	return output
 }
 
+// PayloadUnit transforms a PacketChannel into a delivery channel of payload units. Payload
+// that precedes the first start of a unit is dropped.
 func (input PacketChannel) PayloadUnit() <-chan []byte {
-	var buf bytes.Buffer
+	var unit []byte
 	output := make(chan []byte)
 	started := false
 	go func() {
 		defer close(output)
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
-					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
-						output <- data
-					}
-				} else {
-					started = true
+					output <- unit
 				}
+				started = true
+				unit = nil
 			}
+			if started {
+				unit = append(unit, packet.Payload...)
+			}
+		}
+		if started {
+			output <- unit
 		}
 	}()
 	return output
-- 
2.43.0


From a5c408d2df2314adf250e771628b44df976bf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 13/52] fix: pes: don't report the previous packet's header or
 payload

A padding packet kept the payload of the packet before, and so the payload
reader delivered that once more.
---
 pes/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..1ba984c 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -54,6 +54,10 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		err error
 	)
 
+	// Not every packet carries these, so don't keep those of the last one.
+	packet.Header = nil
+	packet.Payload = nil
+
 	val, err = reader.Peek32(24)
 
 	if err != nil {
-- 
2.43.0


From 6d92362d96fae9cee994a1db67e95d26813242b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 14/52] fix: pes: read the payload of packets without header

The payload of program stream maps, private streams 2, ECM streams etc. was
left in the bitstream, where the next packet was expected.
---
 pes/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 1ba984c..a1c44df 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -110,6 +110,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		payloadLen := int(packet.PacketLength)
+		packet.Payload = make([]byte, payloadLen)
+		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From aba6547b30ecb0ba7a832e64e4fba5a82a6eda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 15/52] fix: pes: skip optional header fields instead of
 panicking

ESCR, ES rate, trick mode, copy info and CRC are legal in any packet.
---
 pes/header.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..85f1475 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -136,23 +136,38 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 	}
 
 	if header.EscrFlag {
-		panic("escr")
+		if err = reader.Skip(6 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 6
 	}
 
 	if header.EsRateFlag {
-		panic("es rate")
+		if err = reader.Skip(3 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 3
 	}
 
 	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.CrcFlag {
-		panic("crc flag")
+		if err = reader.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From b3c22c4a02fe9b03c1040527c81d32a8c5e583af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 16/52] fix: pes: skip optional extension fields instead of
 panicking

The pack header, sequence counter and second extension are legal in any
packet.
---
 pes/extension.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..84fb086 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -58,11 +58,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err = r.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -83,7 +93,17 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		if v, err := r.Read32(1); v != 1 || err != nil {
+			return nil, 0, ErrMarkerNotFound
+		}
+		length, err := r.Read32(7)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
-- 
2.43.0


From 77310ae2620c325ded3e10849c52bb0cf78d2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 17/52] fix: pes: reject packets that are shorter than their
 header

The lengths wrapped around, and the reader skipped or allocated up to 4 GB.
---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 85f1475..6e5f473 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -181,6 +181,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if header.HeaderDataLength < bytesRead-minimumHeaderSize {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index a1c44df..6a2775d 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("invalid length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -89,6 +90,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if packet.PacketLength < headerLen {
+				return ErrInvalidLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 9d16f1fb3b284befa1eb98e28892beb468e4e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 18/52] fix: pes: go on with the next payload unit after a
 bounded packet

A payload unit reader signals the end of each unit with ts.EOP. That was taken
as the end of the stream unless the packet was unbounded.
---
 pes/packet.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 6a2775d..96d7afe 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -61,6 +61,11 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	val, err = reader.Peek32(24)
 
+	// The end of the payload unit that held the last packet
+	for err == ts.EOP {
+		val, err = reader.Peek32(24)
+	}
+
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1984e7b7b48b165030431120418ddcb0a1bc9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 19/52] fix: pes: report an unexpected end in front of the
 payload as such

A stream that ended directly behind a packet header ended with io.EOF, like a
complete one.
---
 pes/extension.go |  4 +++-
 pes/packet.go    | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 84fb086..3b744f9 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -52,7 +52,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 		extension.PrivateData = make([]byte, 16)
 		_, err := io.ReadAtLeast(r, extension.PrivateData, 16)
 		bytesRead += 16
-		if err != nil {
+		if err == io.EOF {
+			return nil, 0, io.ErrUnexpectedEOF
+		} else if err != nil {
 			return nil, 0, err
 		}
 	}
diff --git a/pes/packet.go b/pes/packet.go
index 96d7afe..dc4d51f 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -101,7 +101,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-			if err != nil {
+			if err == io.EOF {
+				return io.ErrUnexpectedEOF
+			} else if err != nil {
 				return err
 			}
 		} else {
@@ -116,14 +118,18 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		payloadLen := int(packet.PacketLength)
 		junk := make([]byte, payloadLen)
 		_, err = io.ReadAtLeast(reader, junk, payloadLen)
-		if err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if err != nil {
 			return err
 		}
 	default:
 		payloadLen := int(packet.PacketLength)
 		packet.Payload = make([]byte, payloadLen)
 		_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-		if err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		} else if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From a572b23b30f189da6a6a7ea90246577a6a8fd157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 20/52] fix: pes: don't lose the end of the payload in front of
 an error

The payload reader returned the last bytes together with the error. The
bitreader drops bytes that come with an error, so the video decoder never saw
them.
---
 pes/payload_reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..e93b2e5 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -16,9 +16,15 @@ type payloadReader struct {
 	br            bitreader.BitReader
 	currentPacket *Packet
 	remainder     bytes.Buffer
+	err           error
 }
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
+	if r.err != nil {
+		err, r.err = r.err, nil
+		return 0, err
+	}
+
 	// Drain remainder
 	for len(p) > 0 {
 		cn, err := r.remainder.Read(p)
@@ -38,6 +44,11 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	for len(p) > 0 {
 		err := r.currentPacket.Next(r.br)
 		if err != nil {
+			if n > 0 {
+				// Report the error on its own: bitreader drops bytes that come with one.
+				r.err = err
+				return n, nil
+			}
 			return n, err
 		}
 
-- 
2.43.0


From 689fffffd26882e69e10b3e69c59719c06cc88be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 21/52] fix: ps: report the video bound of a system header

It overwrote the audio bound, and was itself never set.
---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From cd745b72fbe6b2ef14e732a543ad508ede40296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 22/52] fix: ps: don't ignore errors while skipping stuffing
 bytes

---
 ps/pack_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ps/pack_header.go b/ps/pack_header.go
index d34cc29..424e2b6 100644
--- a/ps/pack_header.go
+++ b/ps/pack_header.go
@@ -97,7 +97,9 @@ func NewPackHeader(r bitreader.BitReader) (*PackHeader, error) {
 		return nil, err
 	} else {
 		for pack_stuffing_length > 0 {
-			r.Skip(8) // stuffing_byte
+			if err := r.Skip(8); err != nil { // stuffing_byte
+				return nil, err
+			}
 			pack_stuffing_length--
 		}
 	}
-- 
2.43.0


From 458abf9b8c30bcdcfeae57d41cb6c96d9cb91d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 23/52] fix: ps: report errors from the pack reader

It returned neither data nor an error at the end of a stream without program
end code and for broken packets, so that reading never ended, and dropped what
it had copied. The error is reported after the data, because the bitreader
drops bytes that come with an error.
---
 ps/pack_reader.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..b62c2f4 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -13,6 +13,7 @@ import (
 type packreader struct {
 	br        bitreader.BitReader
 	remainder *bytes.Buffer
+	err       error
 }
 
 func NewPackReader(r io.Reader) io.Reader {
@@ -22,9 +23,13 @@ func NewPackReader(r io.Reader) io.Reader {
 	}
 }
 
-func (pr packreader) Read(d []byte) (int, error) {
+func (pr *packreader) Read(d []byte) (int, error) {
 	n := 0
 
+	if pr.err != nil {
+		return n, pr.err
+	}
+
 	// DRAIN buffer
 	{
 		read, err := pr.remainder.Read(d)
@@ -41,7 +46,7 @@ func (pr packreader) Read(d []byte) (int, error) {
 
 STEP:
 	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+		return pr.fail(n, err)
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -52,13 +57,13 @@ STEP:
 
 PACK:
 	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+		return pr.fail(n, err)
 	}
 
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return pr.fail(n, err)
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
@@ -77,5 +82,15 @@ MORE_PACKETS:
 PROGRAM_END:
 
 	pr.br.Skip(32)
-	return n, io.EOF
+	return pr.fail(n, io.EOF)
+}
+
+// fail ends the reader. The error is not reported together with data, because
+// bitreader drops bytes that come with one.
+func (pr *packreader) fail(n int, err error) (int, error) {
+	pr.err = err
+	if n > 0 {
+		return n, nil
+	}
+	return n, err
 }
-- 
2.43.0


From e761dc0cc5eb8944ab4a32fea9c7119d1ba5ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 24/52] fix: ps: read packs without packets

The pack reader expected a packet behind every pack header.
---
 ps/pack_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index b62c2f4..4b25688 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -60,6 +60,9 @@ PACK:
 		return pr.fail(n, err)
 	}
 
+	// A pack may hold no packets at all
+	goto STEP
+
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-- 
2.43.0


From 62604f61403fe93a7aaae0479ba70609264232f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 25/52] fix: ps: report errors of packets from the decoder

A packet that can't be parsed ended its pack, but the decoder went on behind
it, and reported success if it found a program end code there.
---
 ps/decoder.go | 5 +++++
 ps/pack.go    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/ps/decoder.go b/ps/decoder.go
index 1f7aeb5..80664bd 100644
--- a/ps/decoder.go
+++ b/ps/decoder.go
@@ -33,6 +33,11 @@ func (d *decoder) Go() <-chan bool {
 
 			<-packComplete
 
+			if pack.err != nil {
+				d.err = pack.err
+				return
+			}
+
 			if nextbits, err := d.r.Peek32(32); err != nil {
 				d.err = err
 				return
diff --git a/ps/pack.go b/ps/pack.go
index a5c9945..227072a 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -6,6 +6,7 @@ import "github.com/32bitkid/mpeg/pes"
 type Pack struct {
 	*PackHeader
 	packs chan *pes.Packet
+	err   error
 }
 
 func (p *Pack) Packets() pes.PacketChannel {
@@ -35,18 +36,21 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 		for true {
 
 			if nextbits, err := r.Peek32(24); err != nil {
+				pack.err = err
 				return
 			} else if nextbits != StartCodePrefix {
 				break
 			}
 
 			if nextbits, err := r.Peek32(32); err != nil {
+				pack.err = err
 				return
 			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {
 				return
 			}
 
 			if packet, err := pes.NewPacket(r); err != nil {
+				pack.err = err
 				return
 			} else {
 				pack.packs <- packet
-- 
2.43.0


From 906906401226177a53b2b817fd1d4bd4237264c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 26/52] fix: video: round half-sample and bidirectional
 predictions

---
 video/motion_compensation.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..5f3be24 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,20 +136,23 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			if samples == 2 {
+				pel = (pel + 1) / 2
+			}
+			b[v*8+u] += pel
 		}
 	}
 }
-- 
2.43.0


From 15569933eb6a20f5d184ccb533df8e50bc1cbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 27/52] fix: video: scale chrominance vectors towards zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 5f3be24..40e01be 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From 477e9c4eb603757c53d158b15c4e08bda11ffd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 28/52] fix: video: allocate whole macroblock pairs for
 interlaced sequences

---
 video/picture_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..ec22099 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -25,6 +25,10 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
 	w, h := self.Size()
+	if self.SequenceExtension.progressive_sequence == 0 {
+		// both fields of a frame are made of whole macroblocks (6.3.3)
+		h = (h + 31) &^ 31
+	}
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
 	for {
-- 
2.43.0


From cf6c50e7fed22cfcb0ccea13e185d97f48480f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 29/52] fix: video: read concealment vectors of interlaced
 frames

---
 video/motion_vector_info.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..0e3e67a 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -19,6 +19,12 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	}
 
+	// The concealment vectors of intra macroblocks are frame vectors (table 6-17)
+	if mb.macroblock_type.macroblock_intra &&
+		fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+	}
+
 	switch mb.frame_motion_type {
 	case 1:
 		return motionVectorInfo{2, motionVectorFormat_Field, 0}
-- 
2.43.0


From c2349291cbc46a4903b0a624cf67debc5684c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 30/52] fix: video: predict field organised blocks from the
 lines they cover

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 25 ++++++++++++++++++++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..b0b3872 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -38,7 +38,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..172d3c1 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -160,7 +160,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore)
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 40e01be..8fec2c5 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -5,11 +5,12 @@ type motionCompensationState struct {
 	i       int
 	channel []uint8
 	stride  int
+	line    int // distance of the lines of the block
 	h_half  bool
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -52,9 +53,16 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
-			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			bState.line = bState.stride
+			if interlaced {
+				bState.line *= 2
+				bState.i = (((mb_row * 16) + (i&2)>>1) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			} else {
+				bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			}
 		case 4, 5:
 			bState.stride = image.CStride
+			bState.line = bState.stride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
 		}
 
@@ -93,9 +101,16 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
-			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			fState.line = fState.stride
+			if interlaced {
+				fState.line *= 2
+				fState.i = (((mb_row * 16) + (i&2)>>1) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			} else {
+				fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			}
 		case 4, 5:
 			fState.stride = image.CStride
+			fState.line = fState.stride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
 		}
 
@@ -108,7 +123,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			var samples uint = 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * fState.line) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -128,7 +143,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * bState.line) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From 119e7dddaba22dfcf6436cccfa348a490ee69c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 31/52] fix: video: apply quantisation matrices in zigzag order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 12 ++++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..a4dac4c 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,8 +34,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.unscanned()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.unscanned()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -51,8 +51,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.unscanned()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.unscanned()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -68,7 +68,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.unscanned()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -84,7 +84,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.unscanned()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..27ba35f 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,18 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// unscanned returns the matrix of the coefficients that were coded, row by row, in zigzag scanning
+// order (7.3.1). Matrices are always coded in that order, whatever the value of alternate_scan.
+func (m quantisationMatrix) unscanned() (w quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			w[v][u] = m[n/8][n%8]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..7240f9b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.unscanned()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.unscanned()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.unscanned()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.unscanned()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From 5df46872400f05e8d9986d1b79e5e9ca2e5cffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 32/52] fix: video: apply the slice vertical position extension

---
 video/slice.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..bbb5a7c 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -39,6 +39,14 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
+	if _, vertical_size := br.Size(); vertical_size > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+		mb_row += int(s.slice_vertical_position_extension) << 7
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
@@ -48,13 +56,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From c2e7b0184d93a0e92b8e431ed2ee8aee83f4d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 33/52] fix: video: reject slices and macroblocks outside of
 the picture

---
 video/macroblock.go | 8 +++++++-
 video/slice.go      | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 172d3c1..9d5cb3d 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -30,7 +30,9 @@ func (br *VideoSequence) macroblock(
 		if nextbits, err := br.Peek32(11); err != nil {
 			return 0, err
 		} else if nextbits == 0x08 { // 0000 0001 000
-			br.Skip(11)
+			if err := br.Skip(11); err != nil {
+				return 0, err
+			}
 			mb.macroblock_address_increment += 33
 		} else {
 			break
@@ -43,6 +45,10 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if (mb_address+mb.macroblock_address_increment)*16 >= frameSlice.Rect.Max.X {
+		return 0, ErrInvalidSlicePosition
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
diff --git a/video/slice.go b/video/slice.go
index bbb5a7c..1724f92 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -5,6 +5,9 @@ import "image"
 
 var ErrInvalidReservedBits = errors.New("invalid reserved bits")
 
+// ErrInvalidSlicePosition indicates that a slice or macroblock lies outside of its picture.
+var ErrInvalidSlicePosition = errors.New("invalid slice position")
+
 type Slice struct {
 	slice_start_code                  StartCode // 32 bslbf
 	slice_vertical_position_extension uint32    // 3 uimsbf
@@ -47,6 +50,10 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		mb_row += int(s.slice_vertical_position_extension) << 7
 	}
 
+	if mb_row*16 >= frame.Rect.Max.Y {
+		return ErrInvalidSlicePosition
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
-- 
2.43.0


From 6f7863d158affa605a16c554d1d17fd6e8ca9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 34/52] fix: video: reject blocks with too many coefficients

---
 video/block.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..0d7fc0e 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+// ErrTooManyCoefficients indicates that a block has coefficients beyond its end.
+var ErrTooManyCoefficients = errors.New("too many coefficients")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -94,6 +98,9 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				n = n + 1
 			}
 		} else {
+			if n+run >= blockSize {
+				return ErrTooManyCoefficients
+			}
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
 				n = n + 1
-- 
2.43.0


From 11d1882e7350dd1f74c2b008e7389cd384f6e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 35/52] fix: video: report invalid coded block patterns

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 9d5cb3d..7c64c2b 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -131,7 +131,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From ba6ad6c61ff77ecb73536b1860fd717d3837d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 36/52] fix: video: don't hang on an extension after a group of
 pictures header

---
 video/extension_and_user_data.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..70caeb4 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -6,7 +6,11 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			return err
 		} else if StartCode(nextbits) != ExtensionStartCode && StartCode(nextbits) != UserDataStartCode {
 			break
-		} else if (i != 1) && (StartCode(nextbits) == ExtensionStartCode) {
+		} else if StartCode(nextbits) == ExtensionStartCode {
+			if i == 1 {
+				// extension_data() never follows a group_of_pictures_header()
+				return ErrUnexpectedStartCode
+			}
 			if err := br.extension_data(i); err != nil {
 				return err
 			}
-- 
2.43.0


From 96ec247e7118e173aaa116fa867c7156f523901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 37/52] fix: video: skip copyright and picture display
 extensions

---
 video/extension_and_user_data.go | 61 ++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 70caeb4..92cbf14 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -1,5 +1,11 @@
 package video
 
+import "errors"
+import "github.com/32bitkid/bitreader"
+
+// ErrUnsupportedScalability indicates that the video uses scalable coding.
+var ErrUnsupportedScalability = errors.New("unsupported scalable coding")
+
 func (br *VideoSequence) extension_and_user_data(i int) error {
 	for {
 		if nextbits, err := br.Peek32(32); err != nil {
@@ -32,7 +38,9 @@ func (br *VideoSequence) extension_data(i int) error {
 			break
 		}
 
-		br.Skip(32)
+		if err := br.Skip(32); err != nil {
+			return err
+		}
 
 		switch i {
 		case 0: /* follows sequence_extension() */
@@ -67,11 +75,17 @@ func (br *VideoSequence) extension_data(i int) error {
 					return err
 				}
 			case CopyrightExtensionID:
-				copyright_extension()
+				if err := copyright_extension(br); err != nil {
+					return err
+				}
 			case PictureDisplayExtensionID:
-				picture_display_extension()
+				if err := picture_display_extension(br); err != nil {
+					return err
+				}
 			case PictureSpatialScalableExtensionID:
-				picture_spatial_scalable_extension()
+				if err := picture_spatial_scalable_extension(); err != nil {
+					return err
+				}
 			default:
 				if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
@@ -83,14 +97,41 @@ func (br *VideoSequence) extension_data(i int) error {
 	return nil
 }
 
-func copyright_extension() {
-	panic("unsupported: copyright_extension")
+// copyright_extension skips the extension: it has no effect on the decoding process
+func copyright_extension(br bitreader.BitReader) error {
+	if err := CopyrightExtensionID.Assert(br); err != nil {
+		return err
+	}
+	return skip_extension(br)
 }
 
-func picture_display_extension() {
-	panic("unsupported: picture_display_extension")
+// picture_display_extension skips the extension: it has no effect on the decoding process
+func picture_display_extension(br bitreader.BitReader) error {
+	if err := PictureDisplayExtensionID.Assert(br); err != nil {
+		return err
+	}
+	return skip_extension(br)
 }
 
-func picture_spatial_scalable_extension() {
-	panic("unsupported: picture_spatial_scalable_extension")
+func picture_spatial_scalable_extension() error {
+	return ErrUnsupportedScalability
+}
+
+// skip_extension reads up to the start code after the extension
+func skip_extension(br bitreader.BitReader) error {
+	if !br.IsAligned() {
+		if _, err := br.Align(); err != nil {
+			return err
+		}
+	}
+	for {
+		if nextbits, err := br.Peek32(24); err != nil {
+			return err
+		} else if nextbits == StartCodePrefix {
+			return nil
+		}
+		if err := br.Skip(8); err != nil {
+			return err
+		}
+	}
 }
-- 
2.43.0


From 4c0b25de74bb8fa0db25bf381b276dee2defb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 38/52] fix: video: report scalable coding as an error

---
 video/sequence_scalable_extension.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..c83fbe4 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -49,7 +49,8 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
+	// TODO(jh): sequence_scalable support
+	return &sse, ErrUnsupportedScalability
 
 	/*
 		scalable_mode 2 uimsbf
@@ -71,6 +72,4 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
-	panic("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From 939d35297e919035eef0bf13b69d416f7245ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 39/52] fix: video: don't ignore errors while reading
 extensions

---
 video/quant_matrix_extension.go     | 4 +++-
 video/sequence_display_extension.go | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index a4dac4c..1234275 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -19,7 +19,9 @@ package video
 //
 func (vs *VideoSequence) quant_matrix_extension() error {
 
-	QuantMatrixExtensionID.Assert(vs)
+	if err := QuantMatrixExtensionID.Assert(vs); err != nil {
+		return err
+	}
 
 	if load, err := vs.Read1(); err != nil {
 		return err
diff --git a/video/sequence_display_extension.go b/video/sequence_display_extension.go
index 83f2ae7..3f0d7c9 100644
--- a/video/sequence_display_extension.go
+++ b/video/sequence_display_extension.go
@@ -26,6 +26,9 @@ func sequence_display_extension(br bitreader.BitReader) (*SequenceDisplayExtensi
 	}
 
 	sde.colour_description, err = br.Read1()
+	if err != nil {
+		return nil, err
+	}
 	if sde.colour_description {
 		sde.colour_primaries, err = br.Read32(8)
 		if err != nil {
-- 
2.43.0


From 32ad5581b712b150974a14c8bc2a1cce9476ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 40/52] fix: video: report unsupported pictures as errors

---
 video/picture_data.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/video/picture_data.go b/video/picture_data.go
index ec22099..d511feb 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -1,7 +1,17 @@
 package video
 
+import "errors"
 import "image"
 
+// ErrUnsupportedChromaFormat indicates that the video isn't subsampled 4:2:0.
+var ErrUnsupportedChromaFormat = errors.New("unsupported chroma format")
+
+// ErrUnsupportedPictureStructure indicates that a picture is coded as single fields.
+var ErrUnsupportedPictureStructure = errors.New("unsupported picture structure")
+
+// ErrUnsupportedPictureCodingType indicates that a picture is neither an I, P nor B picture.
+var ErrUnsupportedPictureCodingType = errors.New("unsupported picture coding type")
+
 func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
@@ -24,6 +34,18 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
+	if self.SequenceExtension.chroma_format != ChromaFormat420 {
+		return nil, ErrUnsupportedChromaFormat
+	}
+	if self.PictureCodingExtension.picture_structure != PictureStructure_FramePicture {
+		return nil, ErrUnsupportedPictureStructure
+	}
+	switch self.PictureHeader.picture_coding_type {
+	case IFrame, PFrame, BFrame:
+	default:
+		return nil, ErrUnsupportedPictureCodingType
+	}
+
 	w, h := self.Size()
 	if self.SequenceExtension.progressive_sequence == 0 {
 		// both fields of a frame are made of whole macroblocks (6.3.3)
-- 
2.43.0


From c8177b4fea13761f67c4c258b3d4d3c06eec74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 41/52] fix: video: report invalid and unsupported motion
 vectors as errors

---
 video/motion_vector_info.go | 29 +++++++++++++++++++----------
 video/motion_vectors.go     | 19 ++++++++++++++-----
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 0e3e67a..320d666 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -1,5 +1,14 @@
 package video
 
+import "errors"
+
+// ErrInvalidMotionVector indicates that a motion vector is coded in a reserved way, or that it points outside
+// of the reference picture.
+var ErrInvalidMotionVector = errors.New("invalid motion vector")
+
+// ErrUnsupportedPrediction indicates that a macroblock uses an unsupported prediction mode.
+var ErrUnsupportedPrediction = errors.New("unsupported prediction mode")
+
 type motionVectorFormat int
 
 const (
@@ -14,34 +23,34 @@ type motionVectorInfo struct {
 	dmv                  int
 }
 
-func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
+func mv_info(fp *VideoSequence, mb *Macroblock) (motionVectorInfo, error) {
 	if fp.PictureCodingExtension.frame_pred_frame_dct == 1 {
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	}
 
 	// The concealment vectors of intra macroblocks are frame vectors (table 6-17)
 	if mb.macroblock_type.macroblock_intra &&
 		fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	}
 
 	switch mb.frame_motion_type {
 	case 1:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
 	switch mb.field_motion_type {
 	case 1:
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
-	panic("invalid motion vector state")
+	return motionVectorInfo{}, ErrInvalidMotionVector
 }
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..ada68d6 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -123,7 +123,20 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 
 	f_code := fp.PictureCodingExtension.f_code
 
-	mvd.info = mv_info(fp, mb)
+	info, err := mv_info(fp, mb)
+	if err != nil {
+		return err
+	}
+	mvd.info = info
+
+	if mvd.info.dmv == 1 {
+		return ErrUnsupportedPrediction
+	}
+	for t := 0; t < 2; t++ {
+		if f_code[s][t] < 1 || f_code[s][t] > 9 {
+			return ErrInvalidMotionVector
+		}
+	}
 
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
@@ -140,10 +153,6 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.residual[r][s][t] = int(code)
 			}
 		}
-		if mvd.info.dmv == 1 {
-			panic("unsupported: dmv[]")
-		}
-
 		mvd.update_actual(r, s, t, f_code, mvd.info.motion_vector_format, fp.PictureCodingExtension.picture_structure)
 
 		return nil
-- 
2.43.0


From b30b747ed2a163936de9ff6fa8cf1d56cbee4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 42/52] fix: video: reject motion vectors that point outside of
 the picture

---
 video/copy_macroblocks.go    |  7 ++++++-
 video/macroblock.go          | 10 ++++++++--
 video/motion_compensation.go | 31 +++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index b0b3872..f0fa097 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -31,11 +31,14 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 	}
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
+		if err := mvd.check_references(mb_row, mb_addr, fs); err != nil {
+			return err
+		}
 		for i := 0; i < 6; i++ {
 			b.zero()
 			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
@@ -43,4 +46,6 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 7c64c2b..71f15d9 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -58,12 +58,14 @@ func (br *VideoSequence) macroblock(
 				mb.macroblock_address_increment-1,
 				frameSlice, br.frameStore.past)
 		case BFrame:
-			bframe_copy_macroblocks(
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -150,6 +152,10 @@ func (br *VideoSequence) macroblock(
 	mb_address += mb.macroblock_address_increment
 	pattern_code := mb.cbp.decode(mb.macroblock_type.macroblock_intra, mb.macroblock_type.macroblock_pattern, br.SequenceExtension.chroma_format)
 
+	if err := mvd.check_references(mb_row, mb_address, br.frameStore); err != nil {
+		return 0, err
+	}
+
 	var b block
 	var cb clampedblock
 
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 8fec2c5..2268aab 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,7 @@
 package video
 
+import "image"
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -10,6 +12,35 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
+// check_references returns an error if the prediction of a macroblock needs samples that lie outside of a reference
+// picture (7.6.3.8).
+func (motionVectors *motionVectorData) check_references(mb_row, mb_addr int, fs frameStore) error {
+	check := func(s int, reference *image.YCbCr) error {
+		if reference == nil {
+			return nil
+		}
+		x := mb_addr*32 + motionVectors.actual[0][s][0]
+		y := mb_row*32 + motionVectors.actual[0][s][1]
+		if x < 0 || x > (reference.Rect.Dx()-16)*2 ||
+			y < 0 || y > (reference.Rect.Dy()-16)*2 {
+			return ErrInvalidMotionVector
+		}
+		return nil
+	}
+
+	if (motionVectors.previous & motionVectorsFormed_FrameForward) == motionVectorsFormed_FrameForward {
+		if err := check(0, fs.past); err != nil {
+			return err
+		}
+	}
+	if (motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward {
+		if err := check(1, fs.future); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
-- 
2.43.0


From a830342bbbc8c8c37339d456aa11d14711b12aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 43/52] fix: video: don't crash on skipped macroblocks without
 a reference picture

---
 video/copy_macroblocks.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index f0fa097..bdceeeb 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -3,6 +3,11 @@ package video
 import "image"
 
 func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
+	if src == nil {
+		// there is nothing to predict from, as in motion_compensation()
+		return
+	}
+
 	// Copy Y
 	{
 		y := row * 16
-- 
2.43.0


From 1b88084c565e47054d7584a5704ceb131f481815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 44/52] fix: video: select references by coding order

---
 video/frame_provider.go |  2 +-
 video/frame_store.go    | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..a0144b0 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -73,7 +73,7 @@ MORE_FRAMES:
 		return nil, err
 	}
 
-	self.frameStore.set(self.PictureHeader.temporal_reference)
+	self.frameStore.set(self.PictureHeader.picture_coding_type)
 
 	if frame, err := self.picture_data(); err != nil {
 		return nil, err
diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..7e1a0dd 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -19,16 +19,16 @@ func (fs *frameStore) gop() {
 	fs.frames[1].previous_gop = true
 }
 
-func (fs *frameStore) set(current_temporal_reference uint32) {
-	for _, ref := range fs.frames {
-		if ref.frame != nil {
-			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
-				fs.past = ref.frame
-			} else {
-				fs.future = ref.frame
-			}
-		}
+// set selects the reference pictures of a picture: P pictures are predicted from the last coded I or P picture,
+// B pictures from the last two (7.6.2).
+func (fs *frameStore) set(picture_coding_type PictureCodingType) {
+	fs.past, fs.future = nil, nil
+	switch picture_coding_type {
+	case PFrame:
+		fs.past = fs.frames[1].frame
+	case BFrame:
+		fs.past = fs.frames[0].frame
+		fs.future = fs.frames[1].frame
 	}
 }
 
-- 
2.43.0


From 4529d235436bb013adfa7e964866546c79ec8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 45/52] fix: video: wrap temporal references around

---
 video/video_sequence.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..22969f5 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -83,7 +83,7 @@ func (vs *VideoSequence) Size() (width int, height int) {
 func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
-		vs.frameCounter++
+		vs.nextFrame()
 		return img, nil
 	}
 
@@ -92,8 +92,13 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 		if img, err := vs.step(); err != nil {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
-			vs.frameCounter++
+			vs.nextFrame()
 			return img, nil
 		}
 	}
 }
+
+// nextFrame() advances to the next temporal_reference, which counts modulo 1024.
+func (vs *VideoSequence) nextFrame() {
+	vs.frameCounter = (vs.frameCounter + 1) & 0x3FF
+}
-- 
2.43.0


From 24679d1e6a263e68e43a1c5afb0983286d02b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 46/52] fix: video: start the sequence after a sequence end
 afresh

---
 video/frame_provider.go | 22 +++++++++++-----------
 video/video_sequence.go |  3 ++-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a0144b0..6062c88 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -12,10 +12,12 @@ var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video st
 // be the order they should be displayed.
 func (self *VideoSequence) step() (*image.YCbCr, error) {
 
-	if self.SequenceHeader != nil {
+	if self.sequenceStarted {
 		goto RESUME
 	}
 
+START:
+
 	// align to next start code
 	if err := next_start_code(self); err != nil {
 		return nil, err
@@ -38,7 +40,7 @@ func (self *VideoSequence) step() (*image.YCbCr, error) {
 		return nil, err
 	}
 
-CONTINUE:
+	self.sequenceStarted = true
 
 	if err := self.extension_and_user_data(0); err != nil {
 		return nil, err
@@ -105,16 +107,14 @@ RESUME:
 		goto END_OF_STREAM
 	}
 
-	if err := self.sequence_header(); err != nil {
-		return nil, err
-	}
-
-	if err := self.sequence_extension(); err != nil {
-		return nil, err
-	}
-
-	goto CONTINUE
+	// a repeated sequence header
+	self.sequenceStarted = false
+	goto START
 
 END_OF_STREAM:
+	// the next sequence starts afresh
+	self.sequenceStarted = false
+	self.frameStore = frameStore{}
+	self.frameCounter = 0
 	return nil, EOS
 }
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 22969f5..8cc2d07 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -23,7 +23,8 @@ type VideoSequence struct {
 
 	quantisationMatricies [4]quantisationMatrix
 	frameStore
-	frameCounter uint32
+	frameCounter    uint32
+	sequenceStarted bool // between the sequence extension and the end of the sequence
 }
 
 func NewVideoSequence(r io.Reader) *VideoSequence {
-- 
2.43.0


From 25b287611a847f9602d2c0ae11fb0c365dddc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 47/52] fix: video: don't predict from pictures of another size

---
 video/frame_store.go  | 10 ++++++++++
 video/picture_data.go |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/video/frame_store.go b/video/frame_store.go
index 7e1a0dd..8f1c1b9 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -45,3 +45,13 @@ func (fs *frameStore) tryGet(temporal_reference uint32) *image.YCbCr {
 	}
 	return nil
 }
+
+// resize drops the reference pictures of another size: they cannot be predicted from.
+func (fs *frameStore) resize(r image.Rectangle) {
+	if fs.past != nil && fs.past.Rect != r {
+		fs.past = nil
+	}
+	if fs.future != nil && fs.future.Rect != r {
+		fs.future = nil
+	}
+}
diff --git a/video/picture_data.go b/video/picture_data.go
index d511feb..7caeb14 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -53,6 +53,8 @@ func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 	}
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
+	self.frameStore.resize(frame.Rect)
+
 	for {
 		if err := self.slice(frame); err != nil {
 			return nil, err
-- 
2.43.0


From a3c30ee3f243c522a2693a90f04b8818ccf0e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 48/52] fix: video: print the hours of a time code with two
 digits

---
 video/group_of_pictures_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/group_of_pictures_header.go b/video/group_of_pictures_header.go
index a1cb029..69bf3a6 100644
--- a/video/group_of_pictures_header.go
+++ b/video/group_of_pictures_header.go
@@ -74,5 +74,5 @@ func (tc TimeCode) String() string {
 	if tc.DropFrame {
 		secondsFramesSep = ";"
 	}
-	return fmt.Sprintf("%d:%02d:%02d%s%02d", tc.Hours, tc.Minutes, tc.Seconds, secondsFramesSep, tc.Pictures)
+	return fmt.Sprintf("%02d:%02d:%02d%s%02d", tc.Hours, tc.Minutes, tc.Seconds, secondsFramesSep, tc.Pictures)
 }
-- 
2.43.0


From 0a617cb658c2a5a724f0c0a1adeaadcff877ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 49/52] fix: video: predict the fields of field-predicted
 macroblocks from fields

---
 video/copy_macroblocks.go    |  4 ++
 video/motion_compensation.go | 83 ++++++++++++++++++++++++++++++++++++
 video/motion_vectors.go      | 13 +++++-
 3 files changed, 99 insertions(+), 1 deletion(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index bdceeeb..4f79a82 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -40,6 +40,10 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	var b block
 	var cb clampedblock
 
+	// the prediction is frame-based, with the vectors of the predictions (7.6.6.4)
+	mvd.info = motionVectorInfo{1, motionVectorFormat_Frame, 0}
+	mvd.actual[0] = mvd.predictions[0]
+
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		if err := mvd.check_references(mb_row, mb_addr, fs); err != nil {
 			return err
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 2268aab..a6ed887 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -19,6 +19,18 @@ func (motionVectors *motionVectorData) check_references(mb_row, mb_addr int, fs
 		if reference == nil {
 			return nil
 		}
+		if motionVectors.field_predicted() {
+			// each field is predicted from a field of half the height
+			for r := 0; r < 2; r++ {
+				x := mb_addr*32 + motionVectors.actual[r][s][0]
+				y := mb_row*16 + motionVectors.actual[r][s][1]
+				if x < 0 || x > (reference.Rect.Dx()-16)*2 ||
+					y < 0 || y > reference.Rect.Dy()-16 {
+					return ErrInvalidMotionVector
+				}
+			}
+			return nil
+		}
 		x := mb_addr*32 + motionVectors.actual[0][s][0]
 		y := mb_row*32 + motionVectors.actual[0][s][1]
 		if x < 0 || x > (reference.Rect.Dx()-16)*2 ||
@@ -43,6 +55,11 @@ func (motionVectors *motionVectorData) check_references(mb_row, mb_addr int, fs
 
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
+	if motionVectors.field_predicted() {
+		b.field_motion_compensation(motionVectors, i, mb_row, mb_addr, interlaced, fs)
+		return
+	}
+
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
 			fs.future != nil,
@@ -202,3 +219,69 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		}
 	}
 }
+
+// field_motion_compensation predicts the lines of each field of a frame picture from a field of the reference
+// pictures, with the motion vectors of that field (7.6.2.1).
+func (b *block) field_motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
+
+	for v := 0; v < 8; v++ {
+		// line of the macroblock
+		line := v
+		switch i {
+		case 0, 1, 2, 3:
+			if interlaced {
+				line = v*2 + (i&2)>>1
+			} else {
+				line = v + (i&2)<<2
+			}
+		}
+		r := line & 1
+
+		var prediction [8]int32
+		var samples int32
+
+		predict := func(s int, reference *image.YCbCr) {
+			var channel []uint8
+			var stride, x, y int
+
+			horizontal, vertical := motionVectors.actual[r][s][0], motionVectors.actual[r][s][1]
+
+			switch i {
+			case 0, 1, 2, 3:
+				channel, stride = reference.Y, reference.YStride
+				x, y = (mb_addr*16)+(i&1)<<3, mb_row*8+line>>1
+			case 4, 5:
+				channel, stride = reference.Cb, reference.CStride
+				if i == 5 {
+					channel = reference.Cr
+				}
+				x, y = mb_addr*8, mb_row*4+line>>1
+				horizontal, vertical = horizontal/2, vertical/2
+			}
+
+			x, y = x+horizontal>>1, y+vertical>>1
+
+			base := (y*2+int(motionVectors.vertical_field_select[r][s]))*stride + x
+			dx, dy := horizontal&1, (vertical&1)*stride*2
+			for u := range prediction {
+				p := base + u
+				prediction[u] += (int32(channel[p]) + int32(channel[p+dx]) +
+					int32(channel[p+dy]) + int32(channel[p+dx+dy]) + 2) / 4
+			}
+			samples++
+		}
+
+		if (motionVectors.previous&motionVectorsFormed_FrameForward) != 0 && fs.past != nil {
+			predict(0, fs.past)
+		}
+		if (motionVectors.previous&motionVectorsFormed_FrameBackward) != 0 && fs.future != nil {
+			predict(1, fs.future)
+		}
+		for u, pel := range prediction {
+			if samples == 2 {
+				pel = (pel + 1) / 2
+			}
+			b[v*8+u] += pel
+		}
+	}
+}
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index ada68d6..3ce02b7 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -96,7 +96,13 @@ func (motionVector *motionVectorData) update_actual(r, s, t int, f_code fCode, m
 	}
 }
 
+// field_predicted returns true if the fields of the macroblock are predicted separately.
+func (mvd *motionVectorData) field_predicted() bool {
+	return mvd.info.motion_vector_format == motionVectorFormat_Field
+}
+
 func (mvd *motionVectorData) reset() {
+	mvd.info = motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	mvd.predictions[0][0][0] = 0
 	mvd.predictions[0][0][1] = 0
 	mvd.predictions[0][1][0] = 0
@@ -176,7 +182,12 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.vertical_field_select[0][s] = val
 			}
 		}
-		return motion_vector(0, s)
+		if err := motion_vector(0, s); err != nil {
+			return err
+		}
+		// the predictions of both vectors follow a single one (table 7-9)
+		mvd.predictions[1][s] = mvd.predictions[0][s]
+		return nil
 	} else {
 		if val, err := fp.Read32(1); err != nil {
 			return err
-- 
2.43.0


From 581404e850fe130a2347c9feaf2c69488e7d2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 50/52] fix: pes: report read errors instead of missing markers

---
 pes/extension.go |  8 ++++++--
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 3b744f9..46dce08 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -78,7 +78,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
@@ -95,7 +97,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		if v, err := r.Read32(1); v != 1 || err != nil {
+		if v, err := r.Read32(1); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 		length, err := r.Read32(7)
diff --git a/pes/header.go b/pes/header.go
index 6e5f473..41a5399 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,7 +31,10 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
-	if val != 2 || err != nil {
+	if err != nil {
+		return nil, 0, err
+	}
+	if val != 2 {
 		return nil, 0, ErrMarkerNotFound
 	}
 
@@ -217,7 +220,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
-	if val != marker || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != marker {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -229,7 +235,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -241,7 +250,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -253,7 +265,10 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	}
+	if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
-- 
2.43.0


From eb20d00216d0b46fa593f2d27a4f91b88b35ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 51/52] fix: ts: report source failures instead of the end of a
 payload unit

---
 ts/payload_unit_reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 2fb7393..23662af 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -62,6 +62,9 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 				return n, nil
 			}
 			stream.state = drained
+			if stream.failed() {
+				return n, stream.err
+			}
 			return n, EOP
 		} else if rerr != nil {
 			return n, rerr
@@ -116,6 +119,12 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 	return
 }
 
+// failed tells if the source ended other than by reaching its end, so that it
+// is unknown whether the last unit is complete.
+func (stream *payloadUnitBuffer) failed() bool {
+	return stream.err != nil && stream.err != io.EOF && stream.err != io.ErrUnexpectedEOF
+}
+
 func (stream *payloadUnitBuffer) next() error {
 	return stream.currentPacket.Next(stream.br)
 }
-- 
2.43.0


From 338081c80dbe3c4285d718a383b50556dd02158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 52/52] fix: don't lose bytes of a source that come with an
 error, nor ask it for none

---
 internal/bits/reader.go   | 35 +++++++++++++++++++++++++++++++++++
 pes/payload_reader.go     |  3 ++-
 ps/pack_reader.go         |  3 ++-
 ts/demuxer.go             |  3 ++-
 ts/payload_reader.go      |  3 ++-
 ts/payload_unit_reader.go |  3 ++-
 video/video_sequence.go   |  3 ++-
 7 files changed, 47 insertions(+), 6 deletions(-)
 create mode 100644 internal/bits/reader.go

diff --git a/internal/bits/reader.go b/internal/bits/reader.go
new file mode 100644
index 0000000..251239a
--- /dev/null
+++ b/internal/bits/reader.go
@@ -0,0 +1,35 @@
+// Package bits makes bit readers of any source.
+package bits
+
+import "io"
+import "github.com/32bitkid/bitreader"
+
+// NewReader creates a bit reader that loses no bytes of r that come together with
+// an error: bitreader drops those.
+func NewReader(r io.Reader) bitreader.BitReader {
+	return bitreader.NewReader(&source{r: r})
+}
+
+// source reports errors on their own.
+type source struct {
+	r   io.Reader
+	err error
+}
+
+func (s *source) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		// bitreader asks for no bytes at times: this neither has to wait nor can it fail.
+		return 0, nil
+	}
+
+	if s.err != nil {
+		err, s.err = s.err, nil
+		return 0, err
+	}
+
+	n, err = s.r.Read(p)
+	if n > 0 && err != nil {
+		s.err, err = err, nil
+	}
+	return n, err
+}
diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index e93b2e5..6419dcb 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -3,11 +3,12 @@ package pes
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bits"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
 	return &payloadReader{
-		br:            bitreader.NewReader(source),
+		br:            bits.NewReader(source),
 		currentPacket: new(Packet),
 	}
 }
diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index 4b25688..d95dffb 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -7,6 +7,7 @@ import (
 
 import (
 	"github.com/32bitkid/bitreader"
+	"github.com/32bitkid/mpeg/internal/bits"
 	"github.com/32bitkid/mpeg/pes"
 )
 
@@ -18,7 +19,7 @@ type packreader struct {
 
 func NewPackReader(r io.Reader) io.Reader {
 	return &packreader{
-		br:        bitreader.NewReader(r),
+		br:        bits.NewReader(r),
 		remainder: &bytes.Buffer{},
 	}
 }
diff --git a/ts/demuxer.go b/ts/demuxer.go
index 650f8a4..18b7a3c 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -1,12 +1,13 @@
 package ts
 
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bits"
 import "io"
 
 // Creates a new MPEG-2 Transport Stream Demultiplexer
 func NewDemuxer(reader io.Reader) *Demuxer {
 	return &Demuxer{
-		reader:    bitreader.NewReader(reader),
+		reader:    bits.NewReader(reader),
 		skipUntil: alwaysTrueTester,
 		takeWhile: alwaysTrueTester,
 	}
diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index dfb5399..ee11244 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -3,12 +3,13 @@ package ts
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bits"
 
 // NewPayloadReader takes a transport stream and creates a reader
 // that delivers just the packet payload bytes.
 func NewPayloadReader(source io.Reader, where PacketTester) StreamControlReader {
 	return &payloadReader{
-		br:        bitreader.NewReader(source),
+		br:        bits.NewReader(source),
 		where:     where,
 		closed:    false,
 		skipUntil: nil,
diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 23662af..49391ce 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -4,6 +4,7 @@ import "io"
 import "bytes"
 import "errors"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bits"
 
 // EOP is the error returned by Read when the current payload unit
 // has been completed. The Readonly only returns EOP only to
@@ -22,7 +23,7 @@ const (
 // packets match the packet tester.
 func NewPayloadUnitReader(source io.Reader, where PacketTester) io.Reader {
 	return &payloadUnitBuffer{
-		br:             bitreader.NewReader(source),
+		br:             bits.NewReader(source),
 		where:          where,
 		startIndicator: where.And(IsPayloadUnitStart),
 		state:          drained,
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 8cc2d07..e0de832 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -3,6 +3,7 @@ package video
 import "io"
 import "image"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/internal/bits"
 
 type sequenceHeaders struct {
 	*SequenceHeader
@@ -29,7 +30,7 @@ type VideoSequence struct {
 
 func NewVideoSequence(r io.Reader) *VideoSequence {
 	return &VideoSequence{
-		BitReader: bitreader.NewReader(r),
+		BitReader: bits.NewReader(r),
 	}
 }
 
-- 
2.43.0

