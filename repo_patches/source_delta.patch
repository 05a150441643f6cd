From 95b1713463e84b9b4184d181779a24f3bb3c82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 01/50] fix: reject an empty interval in r= and z= lines
 instead of panicking

---
 sdp/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7d48944..3e24605 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -824,6 +824,10 @@ func decodeInterval(b []byte, v *time.Duration) error {
 		*v = 0
 		return nil
 	}
+	if len(b) == 0 {
+		err := io.ErrUnexpectedEOF
+		return errors.Wrap(err, "empty interval is invalid duration")
+	}
 	var (
 		unit            time.Duration
 		noUnitSpecified bool
-- 
2.43.0


From 8a39702c5c52437d54c6c78b8a573d252bda1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 02/50] fix: keep the decoded repeat times of a timing

---
 sdp/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 3e24605..56d0db9 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -892,6 +892,7 @@ func (d *Decoder) decodeRepeatTimes(m *Message) error {
 		}
 		t.Offsets = append(t.Offsets, dd)
 	}
+	m.Timing[len(m.Timing)-1] = t
 	return nil
 }
 
-- 
2.43.0


From fabca390e0a057c7faa2484e94496de82a155ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 03/50] fix: store the TTL of a media connection in the media

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 56d0db9..0f93329 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -641,7 +641,7 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		if isV4 {
 			switch d.section {
 			case sectionMedia:
-				m.Connection.TTL, err = decodeByte(first)
+				d.m.Connection.TTL, err = decodeByte(first)
 			case sectionSession:
 				m.Connection.TTL, err = decodeByte(first)
 			}
-- 
2.43.0


From 6c8613302663c563d979a0d0828950e214170dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 04/50] fix: decode the number of addresses of an IPv6
 connection

---
 sdp/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 0f93329..7e417de 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -648,9 +648,9 @@ func (d *Decoder) decodeConnectionData(m *Message) error {
 		} else {
 			switch d.section {
 			case sectionMedia:
-				d.m.Connection.Addresses, err = decodeByte(second)
+				d.m.Connection.Addresses, err = decodeByte(first)
 			case sectionSession:
-				m.Connection.Addresses, err = decodeByte(second)
+				m.Connection.Addresses, err = decodeByte(first)
 			}
 		}
 		if err != nil {
-- 
2.43.0


From 02b4c1f6f36f52842fdb742ac01df1dd8a248f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 05/50] fix: reject TTL and address counts that do not fit a
 byte

---
 sdp/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 7e417de..61fe90e 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -514,7 +514,7 @@ func decodeIP(dst net.IP, v []byte) (net.IP, error) {
 
 func decodeByte(dst []byte) (byte, error) {
 	// ALLOCATIONS: suboptimal.
-	n, err := strconv.ParseInt(string(dst), 10, 16)
+	n, err := strconv.ParseUint(string(dst), 10, 8)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 0ee74bb732ff57476eda3fa10dd0e9d909e5cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 06/50] fix: accept several time descriptions and time zones
 after them

---
 sdp/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/decoder.go b/sdp/decoder.go
index 61fe90e..97abc1a 100644
--- a/sdp/decoder.go
+++ b/sdp/decoder.go
@@ -289,6 +289,10 @@ func isExpected(t Type, s section, pos int) error {
 			return nil
 		}
 	case sectionTime:
+		if t == TypeTiming || t == TypeTimeZones {
+			// further time descriptions, or zones closing them
+			return nil
+		}
 		if isExpected(t, sectionSession, orderingAfterTime) == nil {
 			//logger.Printf("t->s")
 			return nil
@@ -385,6 +389,9 @@ func (d *Decoder) decodeTiming(m *Message) error {
 		if err := isExpected(d.t, d.section, d.sPos); err != nil {
 			return errors.Wrap(err, "decode failed")
 		}
+		if d.t == TypeTiming {
+			d.sPos = 0
+		}
 		if !isZeroOrMore(d.t) {
 			d.sPos++
 		}
-- 
2.43.0


From ba0c6b29894a602c55fe701e1f1f37cd359895c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 07/50] fix: accept messages as soon as the connection runs

The status became connected only after the connected event had been
handled, so a request sent right after Run was dropped silently.
---
 tcpnetwork/tcpnetwork.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 2d5c90f..45ab77d 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -178,6 +178,8 @@ func (connection *Connection) Send(msg []byte, needCopy bool) {
 
 // Run a routine to process connection connection
 func (connection *Connection) Run() {
+	// accept messages from now on, the routines below send them once they run
+	connection.status = ConnStatusConnected
 	go connection.routineMain()
 }
 
@@ -209,7 +211,6 @@ func (connection *Connection) routineMain() {
 
 	// connected
 	connection.pushEvent(ConnEventConnected, nil)
-	connection.status = ConnEventConnected
 
 	go connection.routineSend()
 	connection.routineRead()
-- 
2.43.0


From 1fb3280da17462058b9196e11ecfcfa5b3009f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 08/50] fix: sending while the connection ends no longer panics

The send queue was closed when the connection ended, so a concurrent
Send or Close could send on a closed channel. The queue stays open and
a separate channel tells the senders that the connection has ended.
---
 tcpnetwork/tcpnetwork.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 45ab77d..78656b6 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -42,6 +42,7 @@ type Connection struct {
 	connRW              *bufio.ReadWriter
 	status              int
 	sendMsgQueue        chan []byte
+	done                chan struct{} // closed when the connection has ended
 	sendBufferSize      int
 	sendTimeoutSec      int
 	readTimeoutSec      int
@@ -72,6 +73,7 @@ func NewConnection(c net.Conn, sendBufferSize int, eventHandler func(*ConnEvent)
 		connRW:              bufio.NewReadWriter(bufio.NewReaderSize(c, connConfMaxReadBufferLength), bufio.NewWriterSize(c, connConfMaxReadBufferLength)),
 		status:              ConnStatusNone,
 		sendMsgQueue:        make(chan []byte, sendBufferSize),
+		done:                make(chan struct{}),
 		sendBufferSize:      sendBufferSize,
 		sendTimeoutSec:      connConfDefaultSendTimeoutSec,
 		maxReadBufferLength: connConfMaxReadBufferLength,
@@ -100,6 +102,10 @@ func (connection *Connection) Close() {
 		{
 			// nothing
 		}
+	case <-connection.done:
+		{
+			// connection ended, nobody reads the queue any more
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -151,6 +157,10 @@ func (connection *Connection) sendRaw(msg []byte) {
 		{
 			// nothing
 		}
+	case <-connection.done:
+		{
+			// connection ended, nobody reads the queue any more
+		}
 	case <-time.After(time.Duration(connection.sendTimeoutSec) * time.Second):
 		{
 			// timeout, close the connection
@@ -195,9 +205,8 @@ func (connection *Connection) routineMain() {
 		// close the connection
 		connection.close()
 
-		// free channel
-		close(connection.sendMsgQueue)
-		connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)
+		// stop the send routine and the waiting senders
+		close(connection.done)
 
 		// post event
 		connection.pushEvent(ConnEventDisconnected, nil)
@@ -223,13 +232,13 @@ func (connection *Connection) routineSend() error {
 
 	for {
 		select {
-		case sendMsg, ok := <-connection.sendMsgQueue:
+		case <-connection.done:
+			{
+				// connection ended, quit
+				return nil
+			}
+		case sendMsg := <-connection.sendMsgQueue:
 			{
-				if !ok {
-					// channel closed, quit
-					return nil
-				}
-
 				if nil == sendMsg {
 					log.Println("User disconnect")
 					connection.close()
-- 
2.43.0


From 9881ecdc31312c1bc100b297a698cdff9a18566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 09/50] fix: close the connection when a message cannot be
 written

Errors of Flush were ignored and a write error only ended the send
routine: the connection stayed connected, nothing was sent any more and
no disconnected event was raised.
---
 tcpnetwork/tcpnetwork.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 78656b6..0aed584 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -252,16 +252,19 @@ func (connection *Connection) routineSend() error {
 					_, err = connection.connRW.Write(headerBytes)
 					if err != nil {
 						log.Println("Conn write error:", err)
+						connection.close()
 						return err
 					}
-					connection.connRW.Flush()
 				}
 				_, err = connection.connRW.Write(sendMsg)
+				if err == nil {
+					err = connection.connRW.Flush()
+				}
 				if err != nil {
 					log.Println("Conn write error:", err)
+					connection.close()
 					return err
 				}
-				connection.connRW.Flush()
 			}
 		}
 	}
-- 
2.43.0


From 504a594c57ef5680155e5a2ffeba1bb325ef2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 10/50] fix: receive packets of up to 65535 bytes after the
 header

The read buffer had no room for the header of the largest packets, so
they ended the connection.
---
 tcpnetwork/tcpnetwork.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 0aed584..003886b 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -272,7 +272,7 @@ func (connection *Connection) routineSend() error {
 
 func (connection *Connection) routineRead() error {
 	// default buffer
-	buf := make([]byte, connection.maxReadBufferLength)
+	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
 
 	for {
 		data, err := connection.unpack(buf)
-- 
2.43.0


From 02f083b6a9f81943a3955198c01be34a3529c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:27 +0000
Subject: [PATCH 11/50] fix: end the connection with an error on an impossible
 content length

A negative or too large content length made the read routine panic.
---
 tcpnetwork/tcpnetwork.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 003886b..7bbad8e 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -364,6 +364,9 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 	bufStartPos += bodyLength
 
 	contextLength = connection.streamProtocol.GetContentLength(buf[:bufStartPos])
+	if contextLength < 0 || contextLength > len(buf)-bufStartPos {
+		return nil, errors.New("The content length is invalid")
+	}
 	if 0 != contextLength {
 		// read context
 		if 0 != connection.readTimeoutSec {
-- 
2.43.0


From 872ebbc50f420290ebe6ffe8836ddb17104f0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 12/50] fix: keep the framing after an interleaved packet
 without payload

A packet length of zero was taken for an unknown header, so whatever
followed was delivered as part of it.
---
 rtpstreamprotocol.go       | 4 ++--
 tcpnetwork/tcpinterface.go | 2 +-
 tcpnetwork/tcpnetwork.go   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rtpstreamprotocol.go b/rtpstreamprotocol.go
index ca6734c..8bbf16c 100644
--- a/rtpstreamprotocol.go
+++ b/rtpstreamprotocol.go
@@ -25,7 +25,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 		var len uint16
 		err := binary.Read(reader, binary.BigEndian, &len)
 		if nil != err {
-			return 0, nil
+			return -1, nil
 		}
 		return int(len), nil
 	} else if "rtsp" == string(header[0:4]) || "RTSP" == string(header[0:4]) {
@@ -33,7 +33,7 @@ func (streamProtocol *RTPStreamProtocol) UnserializeHeader(header []byte) (int,
 	} else {
 		log.Print("header error")
 		log.Print(header)
-		return 0, nil
+		return -1, nil
 	}
 }
 
diff --git a/tcpnetwork/tcpinterface.go b/tcpnetwork/tcpinterface.go
index 237b3f9..c0a313a 100644
--- a/tcpnetwork/tcpinterface.go
+++ b/tcpnetwork/tcpinterface.go
@@ -6,7 +6,7 @@ type IStreamProtocol interface {
 	Init()
 	// get the header length of the stream
 	GetHeaderLength() int
-	// read the header length of the stream
+	// read the header length of the stream, negative for an unknown header
 	UnserializeHeader([]byte) (int, []byte)
 	// format header
 	SerializeHeader([]byte) []byte
diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index 7bbad8e..d106327 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -339,7 +339,7 @@ func (connection *Connection) unpack(buf []byte) ([]byte, error) {
 			}
 		}
 		bodyLength = curBodyPos
-	} else if 0 != packetLength {
+	} else if packetLength >= 0 {
 		if packetLength > connection.maxReadBufferLength {
 			return nil, errors.New("The stream data is too long")
 		}
-- 
2.43.0


From 863cec0ecc95cd6e334ad81fd5e93f1068a2e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:11 +0000
Subject: [PATCH 13/50] fix: ignore interleaved packets shorter than a RTP
 header

They crashed the process with an index out of range.
---
 rtspclient.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index d931a87..c0b091d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -1,8 +1,6 @@
 package rtspclient
 
 import (
-	"bytes"
-	"encoding/binary"
 	"errors"
 	"log"
 	"net"
@@ -166,12 +164,8 @@ func (session *RtspClientSession) parsingData(data []byte) {
 func (session *RtspClientSession) parsingRtp(data []byte) {
 	header := data[:4]
 	rtpData := data[4:]
-
-	timestampBufBefore := rtpData[4:8]
-	reader := bytes.NewReader(timestampBufBefore)
-	var timestamp uint32
-	err := binary.Read(reader, binary.BigEndian, &timestamp)
-	if nil != err {
+	if len(rtpData) < RtpHeaderLen {
+		log.Print("rtp packet too short")
 		return
 	}
 
-- 
2.43.0


From 1b025a3b769ff7fd60d3c909e40a731c5a8b9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 14/50] fix: ignore packets with a truncated H.264 or H.265
 payload header

A fragment without its fragmentation header crashed the process, and a
H.265 packet of one byte became part of the next unit.
---
 h264rtpparser.go | 5 ++++-
 hevcrtpparser.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 0b9f486..7376a46 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -5,7 +5,7 @@ type H264RtpParser struct {
 
 func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+1 {
-		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 	rtpData := src[RtpHeaderLen:]
 	packetNALUnitType := (rtpData[0] & 0x1f)
@@ -37,6 +37,9 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		{
 			// For these NALUs, the first two bytes are the FU indicator and the FU header.
 			// If the start bit is set, we reconstruct the original NAL header into byte 1:
+			if len(rtpData) < 2 {
+				return false, src, nil
+			}
 			startBit := rtpData[1] & 0x80
 			endBit := rtpData[1] & 0x40
 			if 0 != startBit {
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index 4f4f104..be1c57c 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -5,7 +5,7 @@ type HevcRtpParser struct {
 
 func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool, header []byte, payload []byte) {
 	if len(src) < RtpHeaderLen+2 {
-		return false, src[:RtpHeaderLen], src[RtpHeaderLen:]
+		return false, src, nil
 	}
 
 	rtpData := src[RtpHeaderLen:]
@@ -26,6 +26,9 @@ func (rtpParser *HevcRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 			// the 2-byte DONL header.
 			// If the start bit is set, we reconstruct the original NAL header at the end of these
 			// 3 (or 5) bytes, and skip over the first 1 (or 3) bytes.
+			if len(rtpData) < 3 {
+				return false, src, nil
+			}
 			startBit := rtpData[2] & 0x80
 			endBit := rtpData[2] & 0x40
 			if 0 != startBit {
-- 
2.43.0


From 0475c13a202dba0f31b22c356cceaa48480e16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 15/50] fix: read the RTP marker bit from the packet

It was read from the header result before that was set, so every packet
of the marker framed codec crashed the process.
---
 markrtpparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markrtpparser.go b/markrtpparser.go
index b2de253..79e3006 100644
--- a/markrtpparser.go
+++ b/markrtpparser.go
@@ -8,7 +8,7 @@ func (rtpParser *MarkRtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
 	}
 
-	mark := ((header[1] & 0x80) >> 7)
+	mark := ((src[1] & 0x80) >> 7)
 	isCompletesFrame = (mark == 1)
 
 	return isCompletesFrame, src[:RtpHeaderLen], src[RtpHeaderLen:]
-- 
2.43.0


From 9526a163a5e71c93285deeff798898c9340f76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 16/50] fix: split aggregation packets at the sizes of their
 units

The high byte of the size was shifted out (H.265), the units of H.264
aggregation packets were never separated, and a truncated aggregation
packet crashed the process.
---
 h264rtpparser.go | 18 +++++++++---------
 hevcrtpparser.go |  6 +++++-
 rtpparser.go     |  2 +-
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 7376a46..3db089a 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -62,37 +62,37 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-	if len(header) < RtpHeaderLen+2 {
+	if len(header) < RtpHeaderLen+1 {
 		return 0, len(payload)
 	}
 
-	naluHeader := header[RtpHeaderLen:]
-	packetNALUnitType := (naluHeader[0] & 0x7E) >> 1
+	packetNALUnitType := header[RtpHeaderLen] & 0x1f
 
 	switch packetNALUnitType {
 	case 24, 25: // STAP-A STAP-B
 		{
-			naluSize = int((payload[0] << 8) | naluHeader[1])
 			naluHeaderSize = 2
 		}
 		break
 	case 26: // MTAP16
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 5
 		}
 		break
 	case 27: // MTAP24
 		{
-			naluSize = int((naluHeader[3] << 8) | naluHeader[4])
 			naluHeaderSize = 6
 		}
 		break
 	default:
 		{
-			naluSize = len(payload)
-			naluHeaderSize = 0
+			return 0, len(payload)
 		}
 	}
-	return naluHeaderSize, naluSize
+	if len(payload) < naluHeaderSize {
+		// truncated
+		return len(payload), len(payload)
+	}
+	naluSize = int(payload[0])<<8 | int(payload[1])
+	return naluHeaderSize, naluHeaderSize + naluSize
 }
diff --git a/hevcrtpparser.go b/hevcrtpparser.go
index be1c57c..b2fab53 100644
--- a/hevcrtpparser.go
+++ b/hevcrtpparser.go
@@ -68,8 +68,12 @@ func (rtpParser *HevcRtpParser) ParsingRtp(header []byte, payload []byte) (naluH
 	case 48: // Aggregation Packet (AP)
 		{
 			// We skip over the 2-byte Payload Header, and the DONL header (if any).
-			naluSize = int((payload[0] << 8) | payload[1])
 			naluHeaderSize = 2
+			if len(payload) < naluHeaderSize {
+				// truncated
+				return len(payload), len(payload)
+			}
+			naluSize = int(payload[0])<<8 | int(payload[1])
 		}
 		break
 	default:
diff --git a/rtpparser.go b/rtpparser.go
index 572a904..51f4d34 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -31,7 +31,7 @@ func (rtpParser *RtpParser) splitRtpPacket(src []byte) ([]byte, []byte) {
 
 func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int) {
 	naluHeaderSize, naluSize := rtpParser.rtpSourceHandler.ParsingRtp(header, payload)
-	if naluSize > len(payload)-naluHeaderSize {
+	if naluSize > len(payload) {
 		naluSize = len(payload)
 	}
 	nalu := payload[naluHeaderSize:naluSize]
-- 
2.43.0


From 1d445344e5dd358e180b0734ff6dda682d4c936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 17/50] fix: deliver a unit whose last packet has no payload

The end of a unit was not noticed when the packet with the end (or
marker) bit was empty, and the next unit was appended to it.
---
 rtpparser.go  |  2 +-
 rtspclient.go | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index 51f4d34..8cee776 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -52,7 +52,7 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 	copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
 	rtpParser.payloadLen += len(nalu)
 
-	if rtpParser.isMarkFrame {
+	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
 		data := make([]byte, rtpParser.payloadLen)
 		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
 		rtpParser.payloadLen = 0
diff --git a/rtspclient.go b/rtspclient.go
index c0b091d..4046040 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -173,14 +173,16 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	channelNum := int(header[1])
 	rtpParser, ok := session.rtpChannelMap[channelNum]
 	if ok {
-		totalLength := 0
 		header, payload := rtpParser.splitRtpPacket(rtpData)
-		for totalLength < len(payload) {
-			nalu, completionLength := rtpParser.pushData(header, payload[totalLength:])
+		for {
+			nalu, completionLength := rtpParser.pushData(header, payload)
 			if nil != nalu {
 				session.dataHandle(newRtspData(channelNum, session, nalu))
 			}
-			totalLength += completionLength
+			payload = payload[completionLength:]
+			if len(payload) == 0 {
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From be18480d1228c7beed09f675de9f241e2d5385f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 18/50] fix: do not keep the last fragment of an oversized unit

When the fragment that passed the limit was the last one, it stayed in
the buffer and became part of the next unit.
---
 rtpparser.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rtpparser.go b/rtpparser.go
index 8cee776..88c7e8e 100644
--- a/rtpparser.go
+++ b/rtpparser.go
@@ -36,17 +36,14 @@ func (rtpParser *RtpParser) pushData(header []byte, payload []byte) ([]byte, int
 	}
 	nalu := payload[naluHeaderSize:naluSize]
 
-	if rtpParser.payloadLen+len(nalu) > MaxPayloadLength {
+	if rtpParser.payloadLen > 0 && rtpParser.payloadLen+len(nalu) > MaxPayloadLength {
 		log.Print("playload too long")
 		data := make([]byte, rtpParser.payloadLen)
 		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
 
 		rtpParser.payloadLen = 0
-		if len(nalu) < MaxPayloadLength {
-			copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
-			rtpParser.payloadLen += len(nalu)
-		}
-		return data, naluSize
+		// the fragment itself is pushed again
+		return data, 0
 	}
 
 	copy(rtpParser.payloadBuf[rtpParser.payloadLen:], nalu)
-- 
2.43.0


From 20885cb483a76a634b2f3e748972a8b1621b54d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 19/50] fix: give up when the server does not answer

A response time-out called Close, which sent TEARDOWN and waited for its
answer, which timed out and called Close again: the caller never
returned and the connection was never closed.
---
 rtspclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 4046040..f23a1e5 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -390,7 +390,8 @@ func (session *RtspClientSession) WaitRtspResponse() (*RtspResponseContext, erro
 		}
 	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
 		{
-			session.Close()
+			// the server is silent: close without TEARDOWN
+			session.tcpConn.Close()
 			return nil, errors.New("recv response time out")
 		}
 	}
-- 
2.43.0


From 7b92c4bd8ba0d4acf94b0786418f59a49a807c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:36 +0000
Subject: [PATCH 20/50] fix: closing a session that was never connected is safe

It crashed with a nil connection. Closing while a request is outstanding
no longer steals the response from the waiting caller.
---
 rtspclient.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index f23a1e5..dfba9a5 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -323,9 +323,13 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 }
 
 func (session *RtspClientSession) Close() {
-	if session.tcpConn.GetStatus() == tcpnetwork.ConnEventConnected {
-		session.SendTeardown()
-		session.WaitRtspResponse()
+	if nil == session.tcpConn {
+		return
+	}
+	if session.tcpConn.GetStatus() == tcpnetwork.ConnStatusConnected {
+		if nil == session.SendTeardown() {
+			session.WaitRtspResponse()
+		}
 	}
 	session.tcpConn.Close()
 }
-- 
2.43.0


From 666e75ee9be32ab647d2a8a7d4628bb824e7a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 21/50] fix: report a failed session set-up over a WebSocket

PlayUseWebsocket returned success whatever the server answered.
---
 rtspclient.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index dfba9a5..5f2d9f3 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -349,8 +349,7 @@ func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string
 
 	conn := &WebsocketConn{conn: websocketConn}
 
-	session.SetConnection(conn)
-	return nil
+	return session.SetConnection(conn)
 }
 
 func (session *RtspClientSession) Play(rtspURL string) error {
-- 
2.43.0


From 3f7062e7fab275ce5ad4d7e320205deb225700a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:22 +0000
Subject: [PATCH 22/50] fix: a response nobody waits for no longer blocks the
 session

The goroutine that handles the connection waited until somebody took the
response: no more data was delivered and the end of the connection was
not noticed. The response was then taken for the reply to a later
request.
---
 rtspclient.go  | 13 ++++++++-----
 rtsprequest.go |  4 ++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 5f2d9f3..ddb1f12 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -86,7 +86,7 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 		dataHandle:         rtpHandler,
 		eventHandle:        eventHandler,
 		eventQueue:         make(chan *tcpnetwork.ConnEvent),
-		rtspResponseQueue:  make(chan *RtspResponseContext),
+		rtspResponseQueue:  make(chan *RtspResponseContext, 1),
 		rtpProtocol:        &RTPStreamProtocol{},
 		rtspContext:        NewRtspClientContext(),
 		rtspRequestInitial: true,
@@ -108,7 +108,7 @@ func (session *RtspClientSession) HandleConn() {
 		close(session.eventQueue)
 		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
 		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext)
+		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	}()
 	for {
 		event, ok := <-session.eventQueue
@@ -192,10 +192,13 @@ func (session *RtspClientSession) parsingRtsp(data []byte) {
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
 	if nil != err {
-		session.rtspResponseQueue <- nil
-		return
+		rtspResponseContext = nil
+	}
+	select {
+	case session.rtspResponseQueue <- rtspResponseContext:
+	default:
+		log.Print("response without request")
 	}
-	session.rtspResponseQueue <- rtspResponseContext
 }
 
 func (session *RtspClientSession) sendRequest() error {
diff --git a/rtsprequest.go b/rtsprequest.go
index 76bf801..48fd1e8 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -32,6 +32,10 @@ func NewRtspClientContext() *RtspClientContext {
 func (session *RtspClientSession) sendRequst(request []byte) {
 	log.Println(string(request))
 	session.rtspRequestInitial = false
+	select {
+	case <-session.rtspResponseQueue: // not the reply of this request
+	default:
+	}
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
 }
-- 
2.43.0


From c15a169dec9d7f927593178cd91259e20dfaebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:23 +0000
Subject: [PATCH 23/50] fix: give every connection of a session its own queues

The queues were replaced after the disconnected event, so a caller
waiting a moment later missed the disconnection, and a connection made
meanwhile used queues that were about to be closed.
---
 rtspclient.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index ddb1f12..a369bed 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -96,22 +96,12 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 	}
 }
 
-func (session *RtspClientSession) pushConnEvent(event *tcpnetwork.ConnEvent) {
-	if nil == session.eventQueue {
-		return
-	}
-	session.eventQueue <- event
-}
-
 func (session *RtspClientSession) HandleConn() {
-	defer func() {
-		close(session.eventQueue)
-		session.eventQueue = make(chan *tcpnetwork.ConnEvent)
-		close(session.rtspResponseQueue)
-		session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
-	}()
+	eventQueue, rtspResponseQueue := session.eventQueue, session.rtspResponseQueue
+	// nobody answers requests of this connection any more
+	defer close(rtspResponseQueue)
 	for {
-		event, ok := <-session.eventQueue
+		event, ok := <-eventQueue
 		if !ok {
 			// channel closed, quit
 			return
@@ -317,7 +307,14 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 }
 
 func (session *RtspClientSession) SetConnection(conn net.Conn) error {
-	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, session.pushConnEvent)
+	// every connection has its own queues
+	eventQueue := make(chan *tcpnetwork.ConnEvent)
+	session.eventQueue = eventQueue
+	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
+	session.rtspRequestInitial = true
+	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
+		eventQueue <- event
+	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
 	go session.HandleConn()
-- 
2.43.0


From 32bedc6ecfef99a95b49236528fffdfd90773dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:56 +0000
Subject: [PATCH 24/50] fix: authorize PAUSE, and SETUP for its own URI

PAUSE carried no authorization, and the digest of SETUP was computed for
the URL of the session instead of the URI of the request.
---
 rtsprequest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 48fd1e8..0e03e11 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -76,7 +76,7 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
 	}
 	if nil != session.rtspContext.authenicator {
-		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", session.rtspContext.rtspURL)
+		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", inTrackURL)
 	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
@@ -94,6 +94,9 @@ func (session *RtspClientSession) SendPause() error {
 		"Session: %s\r\n" +
 		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
+	if nil != session.rtspContext.authenicator {
+		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
+	}
 	request += "\r\n"
 	session.sendRequst([]byte(request))
 	return nil
-- 
2.43.0


From bda67495fbb2ca3a4c118747106b952eef33f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 25/50] fix: name the session in TEARDOWN and keep it between
 SETUPs

A SETUP response without session header made the client forget the
session, and TEARDOWN did not say which session ends.
---
 rtspclient.go  | 4 +++-
 rtsprequest.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index a369bed..a760882 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -266,7 +266,9 @@ func (session *RtspClientSession) sendRequest() error {
 		if 200 != response.Status {
 			return errors.New("response error: " + strconv.Itoa(response.Status))
 		}
-		session.rtspContext.sessionID = response.sessionID
+		if "" != response.sessionID {
+			session.rtspContext.sessionID = response.sessionID
+		}
 	}
 
 	session.SendPlay(0, 1)
diff --git a/rtsprequest.go b/rtsprequest.go
index 0e03e11..948cef5 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -144,7 +144,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.userAgent)
+		"Session: %s\r\n" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From 99e74546bbc27827bed05368dad8c2edff7f225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 26/50] fix: write the start time of PLAY as a number

The Range header contained a formatting error and replaced the Speed
header.
---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 948cef5..492fa2a 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -114,7 +114,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strStartTime string
 	if inStartTimeSec != 0 {
-		strSpeed = fmt.Sprintf("Range: npt=%d.0-\r\n", float32(inStartTimeSec))
+		strStartTime = fmt.Sprintf("Range: npt=%d.0-\r\n", inStartTimeSec)
 	}
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
-- 
2.43.0


From d987b71165d57912f5ec32042d80eb61c127d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 27/50] fix: add the default port to IPv6 hosts, forget earlier
 credentials

An IPv6 literal without port was dialled without port, and a URL without
user info was used with the credentials of an earlier URL.
---
 rtspclient.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index a760882..4ffe137 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -6,7 +6,6 @@ import (
 	"net"
 	"net/url"
 	"strconv"
-	"strings"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -290,14 +289,14 @@ func (session *RtspClientSession) ParsingURL(rtspURL string) error {
 		return errors.New("url parse error: " + rtspURL)
 	}
 
-	if "" != urlInfo.RawQuery {
-		session.rtspContext.rtspURL += ("?" + urlInfo.RawQuery)
-	}
-	session.address = urlInfo.Host
-	if !strings.Contains(session.address, ":") {
-		session.address += ":554"
+	port := urlInfo.Port()
+	if "" == port {
+		port = "554"
 	}
+	session.address = net.JoinHostPort(urlInfo.Hostname(), port)
 
+	session.username = ""
+	session.password = ""
 	if nil != urlInfo.User {
 		session.username = urlInfo.User.Username()
 		session.password, _ = urlInfo.User.Password()
-- 
2.43.0


From 37089944bd1f2673c37504ba3a1e0967dcbc7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 28/50] fix: keep the part of a WebSocket message that was not
 read yet

A message larger than the read buffer crashed the process.
---
 websocketconn.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index fd1586a..1f837a6 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -9,15 +9,20 @@ import (
 
 type WebsocketConn struct {
 	conn *websocket.Conn
+	rest []byte // received but not yet read
 }
 
 func (conn *WebsocketConn) Read(b []byte) (int, error) {
-	_, message, err := conn.conn.ReadMessage()
-	if nil != err {
-		return 0, err
+	for len(conn.rest) == 0 {
+		_, message, err := conn.conn.ReadMessage()
+		if nil != err {
+			return 0, err
+		}
+		conn.rest = message
 	}
-	copy(b[:len(message)], message)
-	return len(message), nil
+	n := copy(b, conn.rest)
+	conn.rest = conn.rest[n:]
+	return n, nil
 }
 
 func (conn *WebsocketConn) Write(b []byte) (int, error) {
-- 
2.43.0


From f41fe1a3ffb3f04a300d1dd3bb45635f50b25b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:03 +0000
Subject: [PATCH 29/50] fix: addresses and deadlines of a WebSocket connection

The methods called themselves for ever.
---
 websocketconn.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/websocketconn.go b/websocketconn.go
index 1f837a6..10c4c95 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -38,21 +38,25 @@ func (conn *WebsocketConn) Close() error {
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-	return conn.LocalAddr()
+	return conn.conn.LocalAddr()
 }
 
 func (conn *WebsocketConn) RemoteAddr() net.Addr {
-	return conn.RemoteAddr()
+	return conn.conn.RemoteAddr()
 }
 
 func (conn *WebsocketConn) SetDeadline(t time.Time) error {
-	return conn.SetDeadline(t)
+	err := conn.conn.SetReadDeadline(t)
+	if nil != err {
+		return err
+	}
+	return conn.conn.SetWriteDeadline(t)
 }
 
 func (conn *WebsocketConn) SetReadDeadline(t time.Time) error {
-	return conn.SetReadDeadline(t)
+	return conn.conn.SetReadDeadline(t)
 }
 
 func (conn *WebsocketConn) SetWriteDeadline(t time.Time) error {
-	return conn.SetWriteDeadline(t)
+	return conn.conn.SetWriteDeadline(t)
 }
-- 
2.43.0


From db038d40d675df6c0239ce3628f2ec80d387bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 30/50] fix: close the transport of a WebSocket connection

Close only announced the end to the peer: unless the peer closed the
connection, the reader kept waiting and no disconnected event came.
---
 websocketconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/websocketconn.go b/websocketconn.go
index 10c4c95..85ca15a 100644
--- a/websocketconn.go
+++ b/websocketconn.go
@@ -34,7 +34,8 @@ func (conn *WebsocketConn) Write(b []byte) (int, error) {
 }
 
 func (conn *WebsocketConn) Close() error {
-	return conn.conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
+	conn.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
+	return conn.conn.Close()
 }
 
 func (conn *WebsocketConn) LocalAddr() net.Addr {
-- 
2.43.0


From 360c40cc7d0aae5191aa440ee3a3c938ed82d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 31/50] fix: a malformed session description no longer ends the
 process

The description comes from the server; the error is returned to the
caller instead.
---
 sdpparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index e06062d..2516597 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -31,14 +31,14 @@ func parsingSDPLine(strSdp string) (*sdp.Message, error) {
 	var err error
 	sdpSession, err = sdp.DecodeSession([]byte(strSdp), sdpSession)
 	if nil != err {
-		log.Fatal("sdp decode session error: ", err)
+		log.Print("sdp decode session error: ", err)
 		return nil, err
 	}
 	sdpDecoder := sdp.NewDecoder(sdpSession)
 	sdpMessage := &sdp.Message{}
 	err = sdpDecoder.Decode(sdpMessage)
 	if nil != err {
-		log.Fatal("sdp decode error: ", err)
+		log.Print("sdp decode error: ", err)
 		return nil, err
 	}
 	return sdpMessage, nil
-- 
2.43.0


From 3303dc13cf156da680d20352f30c9811107390de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 32/50] fix: separate format parameters at semicolons

Values kept the trailing semicolon, and parameters without a space in
between became one parameter.
---
 sdpparser.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index 2516597..2c3e70e 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -108,17 +108,13 @@ func getFramerateForFramerate(sdpFramerate string) int {
 func getFmtParame(sdpFmtp string) map[string]string {
 	fmtParame := make(map[string]string)
 
-	fieldsFmtp := strings.Split(sdpFmtp, " ")
-	for _, field := range fieldsFmtp {
-		fields := strings.Split(field, " ")
-		for _, fieldTemp := range fields {
-			fieldTemp = strings.Replace(fieldTemp, ";", "", -1)
-			index := strings.Index(fieldTemp, "=")
-			if index == -1 {
-				fmtParame[fieldTemp] = ""
-			} else {
-				fmtParame[fieldTemp[:index]] = field[index+1:]
-			}
+	// a "<fmt> <name>=<value>;<name>=<value>..." line, with or without spaces around the parameters
+	for _, field := range strings.FieldsFunc(sdpFmtp, func(r rune) bool { return r == ' ' || r == ';' }) {
+		index := strings.Index(field, "=")
+		if index == -1 {
+			fmtParame[field] = ""
+		} else {
+			fmtParame[field[:index]] = field[index+1:]
 		}
 	}
 	return fmtParame
-- 
2.43.0


From a519bb7a22c1deccb92a2f5569a32c1aac790779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 33/50] fix: accept frame rates with a fraction

"a=framerate:25.0" was taken for a frame rate of 0.
---
 sdpparser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdpparser.go b/sdpparser.go
index 2c3e70e..fdb9c75 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -101,6 +101,10 @@ func parsingSDP(sdp string) *SDPInfo {
 
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
+	// the rate may have a fraction, which is dropped
+	if index := strings.Index(sdpFramerate, "."); index != -1 {
+		sdpFramerate = sdpFramerate[:index]
+	}
 	framerate, _ := strconv.Atoi(sdpFramerate)
 	return framerate
 }
-- 
2.43.0


From 82c7190f1375185792718389982ce8c12810f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 34/50] fix: use the first of several payload formats of a
 media

A media with several formats was taken for PCMU, and the attributes of
another format could be used.
---
 sdpparser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sdpparser.go b/sdpparser.go
index fdb9c75..7107d8f 100644
--- a/sdpparser.go
+++ b/sdpparser.go
@@ -59,10 +59,12 @@ func parsingSDP(sdp string) *SDPInfo {
 
 	for index, meidaInfo := range sdpMessage.Medias {
 		sdpInfo.Medias[index].MediumName = meidaInfo.Description.Type
-		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(meidaInfo.Description.Format)
+		// the first format is used
+		payloadFormat := strings.Split(meidaInfo.Description.Format, " ")[0]
+		sdpInfo.Medias[index].PayloadFormat, _ = strconv.Atoi(payloadFormat)
 		codecName, _, timestampFrequency, channels := getPayloadInfo(sdpInfo.Medias[index].PayloadFormat)
 		if "" == codecName {
-			sdpRtpmap := meidaInfo.Attributes.Value("rtpmap")
+			sdpRtpmap := getFormatAttribute(meidaInfo.Attributes, "rtpmap", payloadFormat)
 			if "" != sdpRtpmap {
 				codecName, timestampFrequency, channels = getPayloadInfoForRtpmap(sdpRtpmap)
 			}
@@ -88,7 +90,7 @@ func parsingSDP(sdp string) *SDPInfo {
 			sdpInfo.Medias[index].VideoFramerate = getFramerateForFramerate(sdpFramerate)
 		}
 
-		sdpFmtp := meidaInfo.Attributes.Value("fmtp")
+		sdpFmtp := getFormatAttribute(meidaInfo.Attributes, "fmtp", payloadFormat)
 		if "" != sdpFmtp {
 			sdpInfo.Medias[index].Fmtp = getFmtParame(sdpFmtp)
 			log.Print(sdpFmtp)
@@ -99,6 +101,16 @@ func parsingSDP(sdp string) *SDPInfo {
 	return sdpInfo
 }
 
+// getFormatAttribute returns the value of the attribute for the payload format
+func getFormatAttribute(attributes sdp.Attributes, name string, payloadFormat string) string {
+	for _, value := range attributes.Values(name) {
+		if strings.HasPrefix(value, payloadFormat+" ") {
+			return value
+		}
+	}
+	return ""
+}
+
 func getFramerateForFramerate(sdpFramerate string) int {
 	// Check for a "a=framerate: <fps>" or "a=x-framerate: <fps>" line
 	// the rate may have a fraction, which is dropped
-- 
2.43.0


From 4202d73b2554ec371a91dca1110a9a612672d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 35/50] fix: reject responses without a status code

A response of less than four bytes, or with a shorter status line, made
the parser panic or read the status from the body.
---
 rtspparser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 29404b3..8b27356 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -29,7 +29,7 @@ const (
 
 func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	// rtp packet no context
-	if string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp" {
+	if len(response) < 4 || (string(response[:4]) != "RTSP" && string(response[:4]) != "rtsp") {
 		return errors.New("not rtsp packet")
 	}
 
@@ -46,6 +46,9 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	rtspResponse := response[:rtspEndPos]
 
 	// get status code
+	if len(rtspResponse) < len("RTSP/1.0 200") {
+		return errors.New("no status code")
+	}
 	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
 	context.Status, _ = strconv.Atoi(strStatus)
 
-- 
2.43.0


From e4ea4110d9ce7e433d8ffe30ce62d722e46226c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 36/50] fix: reject responses with an invalid content length

A negative length made the parser panic, and a length out of range was
taken for the largest number.
---
 rtspparser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtspparser.go b/rtspparser.go
index 8b27356..0a66fc6 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -63,7 +63,11 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 		theValue := keyValue[1]
 		if theKey == strings.ToUpper(sContentLenHeader) {
 			theValue = strings.Replace(theValue, " ", "", -1)
-			context.contentLength, _ = strconv.Atoi(theValue)
+			contentLength, err := strconv.Atoi(theValue)
+			if nil != err || contentLength < 0 {
+				return errors.New("content length error: " + theValue)
+			}
+			context.contentLength = contentLength
 			if len(response)-rtspEndPos >= context.contentLength {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
-- 
2.43.0


From 8c9ba1644f69c02afc2cde77c3a9dcc8ded735e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 37/50] fix: understand header values with colons and session
 parameters

Headers with a colon in their value were ignored, and the session
identifier was sent back with its parameters and leading white space.
---
 rtspparser.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 0a66fc6..4a36861 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -54,15 +54,13 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 
 	fields := strings.Split(string(rtspResponse), "\r\n")
 	for _, field := range fields {
-		keyValue := strings.Split(field, ":")
-		if 2 != len(keyValue) {
+		index := strings.Index(field, ":")
+		if -1 == index {
 			continue
 		}
-		theKey := strings.ToUpper(keyValue[0])
-		theKey = strings.Replace(theKey, " ", "", -1)
-		theValue := keyValue[1]
+		theKey := strings.ToUpper(strings.TrimSpace(field[:index]))
+		theValue := strings.TrimSpace(field[index+1:])
 		if theKey == strings.ToUpper(sContentLenHeader) {
-			theValue = strings.Replace(theValue, " ", "", -1)
 			contentLength, err := strconv.Atoi(theValue)
 			if nil != err || contentLength < 0 {
 				return errors.New("content length error: " + theValue)
@@ -72,7 +70,8 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 				context.content = string(response[rtspEndPos : rtspEndPos+context.contentLength])
 			}
 		} else if theKey == strings.ToUpper(sSessionHeader) {
-			context.sessionID = theValue
+			// without parameters like ";timeout=60"
+			context.sessionID = strings.TrimSpace(strings.Split(theValue, ";")[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
 			if "Digest" == authenticateType {
-- 
2.43.0


From 5a1d5a657723e5c6513274d7525ae95505810254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:35 +0000
Subject: [PATCH 38/50] fix: parse authentication challenges whatever their
 order and values

Challenges were understood only with the parameters realm, nonce and
stale in this order, and not when a value contained a space or a comma.
---
 rtspparser.go | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/rtspparser.go b/rtspparser.go
index 4a36861..c99b3d7 100644
--- a/rtspparser.go
+++ b/rtspparser.go
@@ -2,7 +2,6 @@ package rtspclient
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 )
@@ -74,12 +73,12 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 			context.sessionID = strings.TrimSpace(strings.Split(theValue, ";")[0])
 		} else if theKey == strings.ToUpper(sAuthenticateHeader) {
 			authenticateType, realm, nonce, _ := parsingAuthenticate(theValue)
-			if "Digest" == authenticateType {
+			if strings.EqualFold("Digest", authenticateType) {
 				context.digestAuthenticator = NewAuthenticator()
 				context.digestAuthenticator.realm = realm
 				context.digestAuthenticator.nonce = nonce
 				context.digestAuthenticator.authenicatorType = AuthenticatorTypeDigest
-			} else if "Basic" == authenticateType {
+			} else if strings.EqualFold("Basic", authenticateType) {
 				context.basicAuthenticator = NewAuthenticator()
 				context.basicAuthenticator.realm = realm
 				context.basicAuthenticator.authenicatorType = AuthenticatorTypeBasic
@@ -89,13 +88,44 @@ func ParserRtspResponse(response []byte, context *RtspResponseContext) error {
 	return nil
 }
 
+// cutAt returns what is before and after the first of the separators
+func cutAt(str string, separators string) (string, string) {
+	index := strings.IndexAny(str, separators)
+	if -1 == index {
+		return str, ""
+	}
+	return str[:index], str[index+1:]
+}
+
 func parsingAuthenticate(authenticateValue string) (string, string, string, string) {
-	authenticateValue = strings.Replace(authenticateValue, "\"", " ", -1)
 	var realm string
 	var nonce string
 	var stale string
 	var authenticateType string
 
-	fmt.Sscanf(authenticateValue, " %s realm= %s , nonce= %s , stale= %s ", &authenticateType, &realm, &nonce, &stale)
+	// <scheme> <name>=<value>, <name>="<value>"...
+	authenticateType, authenticateValue = cutAt(strings.TrimSpace(authenticateValue), " \t")
+	for {
+		var name, value string
+		name, authenticateValue = cutAt(strings.TrimLeft(authenticateValue, " \t,"), "=")
+		if "" == name {
+			break
+		}
+		authenticateValue = strings.TrimLeft(authenticateValue, " \t")
+		if strings.HasPrefix(authenticateValue, "\"") {
+			value, authenticateValue = cutAt(authenticateValue[1:], "\"")
+		} else {
+			value, authenticateValue = cutAt(authenticateValue, ",")
+			value = strings.TrimSpace(value)
+		}
+		switch strings.ToLower(strings.TrimSpace(name)) {
+		case "realm":
+			realm = value
+		case "nonce":
+			nonce = value
+		case "stale":
+			stale = value
+		}
+	}
 	return authenticateType, realm, nonce, stale
 }
-- 
2.43.0


From c061d7b90c0e42d17640901204e828599793bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 39/50] fix: send no empty session header

The first SETUP named a session with an empty identifier.
---
 rtsprequest.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 492fa2a..efae20d 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -40,6 +40,14 @@ func (session *RtspClientSession) sendRequst(request []byte) {
 	session.rtspContext.cseq++
 }
 
+// sessionHeader returns the session header, once the server has assigned a session
+func (session *RtspClientSession) sessionHeader() string {
+	if "" == session.rtspContext.sessionID {
+		return ""
+	}
+	return fmt.Sprintf("Session: %s\r\n", session.rtspContext.sessionID)
+}
+
 func (session *RtspClientSession) SendDescribe() error {
 	if !session.rtspRequestInitial {
 		return errors.New("waiting last request Reply")
@@ -67,10 +75,10 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 
 	request := fmt.Sprintf(("SETUP %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n" +
 		"%s" +
-		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.rtspContext.sessionID, inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), inTrackURL, session.rtspContext.cseq, session.sessionHeader(), inClientRTPid, inClientRTCPid, session.rtspContext.setupHeaders, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -91,8 +99,8 @@ func (session *RtspClientSession) SendPause() error {
 
 	request := fmt.Sprintf(("PAUSE %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
@@ -119,11 +127,11 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	request := fmt.Sprintf(("PLAY %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
+		"%s" +
 		"%s" +
 		"%s" +
 		"x-prebuffer: maxtime=3.0\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, strStartTime, strSpeed, session.rtspContext.userAgent)
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), strStartTime, strSpeed, session.rtspContext.userAgent)
 
 	if 0 != session.rtspContext.bandwidth {
 		request += fmt.Sprintf("Bandwidth: %d\r\n", session.rtspContext.bandwidth)
@@ -144,8 +152,8 @@ func (session *RtspClientSession) SendTeardown() error {
 
 	request := fmt.Sprintf(("TEARDOWN %s RTSP/1.0\r\n" +
 		"CSeq: %d\r\n" +
-		"Session: %s\r\n" +
-		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.rtspContext.sessionID, session.rtspContext.userAgent)
+		"%s" +
+		"User-agent: %s\r\n"), session.rtspContext.rtspURL, session.rtspContext.cseq, session.sessionHeader(), session.rtspContext.userAgent)
 
 	if nil != session.rtspContext.authenicator {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
-- 
2.43.0


From f0cedc01449f014243300d9110c191ad5bcd4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:38 +0000
Subject: [PATCH 40/50] fix: a request on a session that was never connected is
 an error

It crashed with a nil connection.
---
 rtsprequest.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index efae20d..3e703b5 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -29,7 +29,10 @@ func NewRtspClientContext() *RtspClientContext {
 	}
 }
 
-func (session *RtspClientSession) sendRequst(request []byte) {
+func (session *RtspClientSession) sendRequst(request []byte) error {
+	if nil == session.tcpConn {
+		return errors.New("session is not connected")
+	}
 	log.Println(string(request))
 	session.rtspRequestInitial = false
 	select {
@@ -38,6 +41,7 @@ func (session *RtspClientSession) sendRequst(request []byte) {
 	}
 	session.tcpConn.Send([]byte(request), false)
 	session.rtspContext.cseq++
+	return nil
 }
 
 // sessionHeader returns the session header, once the server has assigned a session
@@ -64,8 +68,7 @@ func (session *RtspClientSession) SendDescribe() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("DESCRIBE", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid int, inClientRTCPid int) error {
@@ -87,9 +90,7 @@ func (session *RtspClientSession) SendTcpSetup(inTrackURL string, inClientRTPid
 		request += session.rtspContext.authenicator.createAuthenticatorString("SETUP", inTrackURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendPause() error {
@@ -106,8 +107,7 @@ func (session *RtspClientSession) SendPause() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("PAUSE", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) error {
@@ -140,9 +140,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 		request += session.rtspContext.authenicator.createAuthenticatorString("PLAY", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
 
 func (session *RtspClientSession) SendTeardown() error {
@@ -159,7 +157,5 @@ func (session *RtspClientSession) SendTeardown() error {
 		request += session.rtspContext.authenicator.createAuthenticatorString("TEARDOWN", session.rtspContext.rtspURL)
 	}
 	request += "\r\n"
-	session.sendRequst([]byte(request))
-
-	return nil
+	return session.sendRequst([]byte(request))
 }
-- 
2.43.0


From 53659b985cda7e34e888f02b1d09e77a7b27051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:39 +0000
Subject: [PATCH 41/50] fix: forget the medias of an earlier play

Channels and medias of the last description stayed when the session was
used again for a description with fewer medias.
---
 rtspclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 4ffe137..35e0c1d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -241,6 +241,8 @@ func (session *RtspClientSession) sendRequest() error {
 	}
 
 	session.rtspContext.sessionID = ""
+	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
-- 
2.43.0


From 724d3c8b273d265065728feda1591fbd282f3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 42/50] fix: set up a media without control attribute at the
 session URL

---
 rtspclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 35e0c1d..03b4e77 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -245,7 +245,10 @@ func (session *RtspClientSession) sendRequest() error {
 	session.RtpMediaMap = make(map[int]MediaSubsession)
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
-		if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
+		if "" == strTrackURL || "*" == strTrackURL {
+			// the control URL of the whole presentation
+			strTrackURL = session.rtspContext.rtspURL
+		} else if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
 			// if strings.Contains(session.rtspContext.rtspURL, "?") {
 			// 	paramStartIndex := strings.Index(session.rtspContext.rtspURL, "?")
 			// 	strTrackURL = session.rtspContext.rtspURL[:paramStartIndex] + "/" + strTrackURL + session.rtspContext.rtspURL[paramStartIndex:]
-- 
2.43.0


From a8370c7de5d8dcae168643eeba5433546ea2bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 43/50] fix: guard the channel map

Frames that arrive during the set-up are looked up in the map while the
set-up adds the next channel, which can end the process.
---
 rtspclient.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index 03b4e77..98a11ba 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/NodeBoy2/rtspclient/tcpnetwork"
@@ -75,6 +76,7 @@ type RtspClientSession struct {
 	tcpConn            *tcpnetwork.Connection
 	eventQueue         chan *tcpnetwork.ConnEvent
 	rtspResponseQueue  chan *RtspResponseContext
+	rtpChannelLock     sync.RWMutex // guards rtpChannelMap
 	rtpChannelMap      map[int]*RtpParser
 	sdpInfo            *SDPInfo
 	RtpMediaMap        map[int]MediaSubsession
@@ -160,7 +162,9 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 
 	// rtp data
 	channelNum := int(header[1])
+	session.rtpChannelLock.RLock()
 	rtpParser, ok := session.rtpChannelMap[channelNum]
+	session.rtpChannelLock.RUnlock()
 	if ok {
 		header, payload := rtpParser.splitRtpPacket(rtpData)
 		for {
@@ -241,7 +245,9 @@ func (session *RtspClientSession) sendRequest() error {
 	}
 
 	session.rtspContext.sessionID = ""
+	session.rtpChannelLock.Lock()
 	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.rtpChannelLock.Unlock()
 	session.RtpMediaMap = make(map[int]MediaSubsession)
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
@@ -259,7 +265,9 @@ func (session *RtspClientSession) sendRequest() error {
 		}
 		rtpIndex := index * 2
 		rtcpIndex := index*2 + 1
+		session.rtpChannelLock.Lock()
 		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
+		session.rtpChannelLock.Unlock()
 		session.RtpMediaMap[rtpIndex] = media
 		session.SendTcpSetup(strTrackURL, rtpIndex, rtcpIndex)
 
-- 
2.43.0


From f2058217a8245cbd7463e67cc61abd3515e142ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 44/50] fix: ignore H.264 aggregation packets that end in their
 header

STAP-B, MTAP16 and MTAP24 packets without a complete header crashed the
process.
---
 h264rtpparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h264rtpparser.go b/h264rtpparser.go
index 3db089a..f8ee234 100644
--- a/h264rtpparser.go
+++ b/h264rtpparser.go
@@ -59,6 +59,9 @@ func (rtpParser *H264RtpParser) SplitHeader(src []byte) (isCompletesFrame bool,
 		}
 	}
 
+	if len(rtpData) < skipHeaderLen {
+		return false, src, nil
+	}
 	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
 }
 func (rtpParser *H264RtpParser) ParsingRtp(header []byte, payload []byte) (naluHeaderSize int, naluSize int) {
-- 
2.43.0


From f949da4f08e39c5174540f2d1922e1a6f27a23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 45/50] fix: only control attributes that are rtsp URLs are
 absolute

---
 rtspclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtspclient.go b/rtspclient.go
index 98a11ba..ab95c4d 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"net/url"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -254,7 +255,7 @@ func (session *RtspClientSession) sendRequest() error {
 		if "" == strTrackURL || "*" == strTrackURL {
 			// the control URL of the whole presentation
 			strTrackURL = session.rtspContext.rtspURL
-		} else if len(strTrackURL) < 4 || ("rtsp" != string(strTrackURL[:4]) && "RTSP" != string(strTrackURL[:4])) {
+		} else if !strings.HasPrefix(strings.ToLower(strTrackURL), "rtsp://") {
 			// if strings.Contains(session.rtspContext.rtspURL, "?") {
 			// 	paramStartIndex := strings.Index(session.rtspContext.rtspURL, "?")
 			// 	strTrackURL = session.rtspContext.rtspURL[:paramStartIndex] + "/" + strTrackURL + session.rtspContext.rtspURL[paramStartIndex:]
-- 
2.43.0


From 68fa8c99e3e70c52697cf7e7cdc1617d65c9d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 46/50] fix: give up writing to a peer that does not read

---
 tcpnetwork/tcpnetwork.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tcpnetwork/tcpnetwork.go b/tcpnetwork/tcpnetwork.go
index d106327..8dc2028 100644
--- a/tcpnetwork/tcpnetwork.go
+++ b/tcpnetwork/tcpnetwork.go
@@ -245,6 +245,9 @@ func (connection *Connection) routineSend() error {
 					return nil
 				}
 
+				// a peer that does not read must not block the connection for ever
+				connection.conn.SetWriteDeadline(time.Now().Add(time.Duration(connection.sendTimeoutSec) * time.Second))
+
 				var err error
 				headerBytes := connection.streamProtocol.SerializeHeader(sendMsg)
 				if nil != headerBytes {
-- 
2.43.0


From 37fe0a44979adea27e89f4e2d79c96457e82ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 47/50] fix: write the speed of PLAY exactly

---
 rtsprequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtsprequest.go b/rtsprequest.go
index 3e703b5..35208f9 100644
--- a/rtsprequest.go
+++ b/rtsprequest.go
@@ -117,7 +117,7 @@ func (session *RtspClientSession) SendPlay(inStartTimeSec int, inSpeed int) erro
 
 	var strSpeed string
 	if inSpeed != 1 {
-		strSpeed = fmt.Sprintf("Speed: %f\r\n", float32(inSpeed))
+		strSpeed = fmt.Sprintf("Speed: %f\r\n", float64(inSpeed))
 	}
 
 	var strStartTime string
-- 
2.43.0


From 7b7d5767d69fe954d6d9c142aeb17d68b092f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 48/50] fix: forget the earlier session when a new connection
 is set

---
 rtspclient.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index ab95c4d..8919fde 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -245,11 +245,6 @@ func (session *RtspClientSession) sendRequest() error {
 		return errors.New("parse sdp error")
 	}
 
-	session.rtspContext.sessionID = ""
-	session.rtpChannelLock.Lock()
-	session.rtpChannelMap = make(map[int]*RtpParser)
-	session.rtpChannelLock.Unlock()
-	session.RtpMediaMap = make(map[int]MediaSubsession)
 	for index, media := range session.sdpInfo.Medias {
 		strTrackURL := media.TrackURL
 		if "" == strTrackURL || "*" == strTrackURL {
@@ -327,6 +322,12 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	session.eventQueue = eventQueue
 	session.rtspResponseQueue = make(chan *RtspResponseContext, 1)
 	session.rtspRequestInitial = true
+	// nothing of an earlier session is left
+	session.rtspContext.sessionID = ""
+	session.rtpChannelLock.Lock()
+	session.rtpChannelMap = make(map[int]*RtpParser)
+	session.rtpChannelLock.Unlock()
+	session.RtpMediaMap = make(map[int]MediaSubsession)
 	session.tcpConn = tcpnetwork.NewConnection(conn, 0x0fff, func(event *tcpnetwork.ConnEvent) {
 		eventQueue <- event
 	})
-- 
2.43.0


From 614b32bd9d0b5409ea2098ce3381aed6f65addf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 49/50] fix: keep what is left of an earlier connection out of
 the next session

---
 rtspclient.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rtspclient.go b/rtspclient.go
index 8919fde..e122bc2 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -99,7 +99,11 @@ func NewRtspClientSession(rtpHandler func(*RtspData), eventHandler func(*RtspEve
 }
 
 func (session *RtspClientSession) HandleConn() {
-	eventQueue, rtspResponseQueue := session.eventQueue, session.rtspResponseQueue
+	session.handleConn(session.eventQueue, session.rtspResponseQueue, session.rtpChannelMap)
+}
+
+// handleConn handles the events of one connection, which may come late, when the session has another one
+func (session *RtspClientSession) handleConn(eventQueue chan *tcpnetwork.ConnEvent, rtspResponseQueue chan *RtspResponseContext, rtpChannelMap map[int]*RtpParser) {
 	// nobody answers requests of this connection any more
 	defer close(rtspResponseQueue)
 	for {
@@ -128,7 +132,7 @@ func (session *RtspClientSession) HandleConn() {
 		case tcpnetwork.ConnEventData:
 			{
 				if event.Data != nil {
-					session.parsingData(event.Data)
+					session.parsingData(event.Data, rtspResponseQueue, rtpChannelMap)
 				}
 			}
 			break
@@ -144,16 +148,16 @@ func (session *RtspClientSession) HandleConn() {
 	}
 }
 
-func (session *RtspClientSession) parsingData(data []byte) {
+func (session *RtspClientSession) parsingData(data []byte, rtspResponseQueue chan *RtspResponseContext, rtpChannelMap map[int]*RtpParser) {
 	headerData := data[:4]
 	if headerData[0] == '$' {
-		session.parsingRtp(data)
+		session.parsingRtp(data, rtpChannelMap)
 	} else if string(headerData[:4]) == "RTSP" || string(headerData[:4]) == "rtsp" {
-		session.parsingRtsp(data)
+		session.parsingRtsp(data, rtspResponseQueue)
 	}
 }
 
-func (session *RtspClientSession) parsingRtp(data []byte) {
+func (session *RtspClientSession) parsingRtp(data []byte, rtpChannelMap map[int]*RtpParser) {
 	header := data[:4]
 	rtpData := data[4:]
 	if len(rtpData) < RtpHeaderLen {
@@ -164,7 +168,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	// rtp data
 	channelNum := int(header[1])
 	session.rtpChannelLock.RLock()
-	rtpParser, ok := session.rtpChannelMap[channelNum]
+	rtpParser, ok := rtpChannelMap[channelNum]
 	session.rtpChannelLock.RUnlock()
 	if ok {
 		header, payload := rtpParser.splitRtpPacket(rtpData)
@@ -181,7 +185,7 @@ func (session *RtspClientSession) parsingRtp(data []byte) {
 	}
 }
 
-func (session *RtspClientSession) parsingRtsp(data []byte) {
+func (session *RtspClientSession) parsingRtsp(data []byte, rtspResponseQueue chan *RtspResponseContext) {
 	log.Print(string(data))
 	rtspResponseContext := &RtspResponseContext{}
 	err := ParserRtspResponse(data, rtspResponseContext)
@@ -189,7 +193,7 @@ func (session *RtspClientSession) parsingRtsp(data []byte) {
 		rtspResponseContext = nil
 	}
 	select {
-	case session.rtspResponseQueue <- rtspResponseContext:
+	case rtspResponseQueue <- rtspResponseContext:
 	default:
 		log.Print("response without request")
 	}
@@ -333,7 +337,7 @@ func (session *RtspClientSession) SetConnection(conn net.Conn) error {
 	})
 	session.tcpConn.SetStreamProtocol(session.rtpProtocol)
 	session.tcpConn.Run()
-	go session.HandleConn()
+	go session.handleConn(eventQueue, session.rtspResponseQueue, session.rtpChannelMap)
 
 	return session.sendRequest()
 }
-- 
2.43.0


From 86ea0afab4bb9a706ffb2a8bc6cc9d733837cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:52 +0000
Subject: [PATCH 50/50] fix: refuse PlayUseWebsocket on a connected session, as
 Play does

---
 rtspclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtspclient.go b/rtspclient.go
index e122bc2..b960edd 100644
--- a/rtspclient.go
+++ b/rtspclient.go
@@ -355,6 +355,10 @@ func (session *RtspClientSession) Close() {
 }
 
 func (session *RtspClientSession) PlayUseWebsocket(webURL string, rtspURL string) error {
+	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
+		return errors.New("session is connected")
+	}
+
 	urlError := session.ParsingURL(rtspURL)
 	if nil != urlError {
 		return errors.New("url parse error: " + rtspURL)
-- 
2.43.0

