From 96041cf3cda7a8fa88242b87bc7352de3b4ec87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:31 +0000
Subject: [PATCH 01/11] fix: encode far-future and far-past DateTime values by
 clamping, not by integer overflow

---
 ua/binary_encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 015cc77..58c22c4 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -491,10 +491,11 @@ func (enc *BinaryEncoder) WriteString(value string) error {
 func (enc *BinaryEncoder) WriteDateTime(value time.Time) error {
 	// ticks are 100 nanosecond intervals since January 1, 1601
 	ticks := (value.Unix()+11644473600)*10000000 + int64(value.Nanosecond())/100
-	if ticks < 0 {
+	// compare times, not ticks: the multiplication overflows for far-away years
+	if value.Before(time.Unix(-11644473600, 0)) {
 		ticks = 0
 	}
-	if ticks >= 2650467743990000000 {
+	if !value.Before(time.Unix(253402300799, 0)) {
 		ticks = 0x7FFFFFFFFFFFFFFF
 	}
 	if err := enc.WriteInt64(ticks); err != nil {
-- 
2.43.0


From 0e0d3bfae6bf386c252e86af456e2a6f2641dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:32 +0000
Subject: [PATCH 02/11] fix: allocate the optional DiagnosticInfo fields before
 decoding into them

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From f887bb97e43933ca8a8b5217a84e3e42cb725f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 03/11] fix: keep the NamespaceURI and ServerIndex flags when
 encoding an ExpandedNodeID with a null NodeID

---
 ua/binary_encoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 58c22c4..0932c06 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -706,7 +706,10 @@ func (enc *BinaryEncoder) WriteExpandedNodeID(value ExpandedNodeID) error {
 			return BadEncodingError
 		}
 	default:
-		if err := enc.WriteUInt16(0); err != nil {
+		if err := enc.WriteByte(0x00 | b); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteByte(0x00); err != nil {
 			return BadEncodingError
 		}
 	}
-- 
2.43.0


From 9963ade341f9de301281f90cd7652780d0aca67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:40 +0000
Subject: [PATCH 04/11] fix: encode a DataValue held by a Variant as a
 DataValue

---
 ua/binary_encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 0932c06..fa45b30 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -1047,6 +1047,13 @@ func (enc *BinaryEncoder) WriteVariant(value Variant) error {
 		if err := enc.WriteLocalizedText(v1); err != nil {
 			return BadEncodingError
 		}
+	case DataValue:
+		if err := enc.WriteByte(VariantTypeDataValue); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDataValue(v1); err != nil {
+			return BadEncodingError
+		}
 	case []bool:
 		if err := enc.WriteByte(VariantTypeBoolean | VariantTypeArray); err != nil {
 			return BadEncodingError
-- 
2.43.0


From 9512e045e6be0b4befd87b769f76cb26a9cf31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:29 +0000
Subject: [PATCH 05/11] fix: reject multi-dimensional Variants whose dimensions
 do not match the number of elements

---
 ua/binary_decoder.go | 69 ++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..3d1a8a0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -1304,7 +1304,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1334,7 +1334,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1364,7 +1364,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1394,7 +1394,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1424,7 +1424,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1454,7 +1454,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1484,7 +1484,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1514,7 +1514,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1544,7 +1544,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1574,7 +1574,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1604,7 +1604,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1634,7 +1634,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1664,7 +1664,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1694,7 +1694,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1724,7 +1724,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1754,7 +1754,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1784,7 +1784,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1814,7 +1814,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1844,7 +1844,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1874,7 +1874,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1904,7 +1904,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1934,7 +1934,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1964,7 +1964,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1994,7 +1994,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2024,7 +2024,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readArrayDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2053,6 +2053,25 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 	}
 }
 
+// readArrayDimensions reads the dimensions of a multi-dimensional array that has n elements.
+// It returns BadDecodingError if the dimensions are inconsistent with the number of elements.
+func (dec *BinaryDecoder) readArrayDimensions(dims *[]int32, n int) error {
+	if err := dec.ReadInt32Array(dims); err != nil {
+		return BadDecodingError
+	}
+	product := int64(1)
+	for _, dim := range *dims {
+		if dim < 0 || product*int64(dim) > int64(n) {
+			return BadDecodingError
+		}
+		product *= int64(dim)
+	}
+	if product != int64(n) {
+		return BadDecodingError
+	}
+	return nil
+}
+
 // split recursively creates a multi-dimensional array from a set of values
 // and some given dimensions.
 func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
-- 
2.43.0


From 7296bc8de690411ad296f85fbc394e1dcc4ad206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:05 +0000
Subject: [PATCH 06/11] fix: skip zero when the subscription and monitored item
 id counters wrap

---
 server/datachange_monitored_item.go |  3 +--
 server/event_monitored_item.go      |  3 +--
 server/monitored_item.go            | 10 ++++++++++
 server/subscription.go              |  3 +--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..85bb93e 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -6,7 +6,6 @@ import (
 	"bytes"
 	"math"
 	"reflect"
-	"sync/atomic"
 	"time"
 
 	"sync"
@@ -46,7 +45,7 @@ func NewDataChangeMonitoredItem(sub *Subscription, node Node, itemToMonitor ua.R
 		sub:                 sub,
 		srv:                 sub.manager.server,
 		node:                node,
-		id:                  atomic.AddUint32(&monitoredItemID, 1),
+		id:                  getNextID(&monitoredItemID),
 		itemToMonitor:       itemToMonitor,
 		monitoringMode:      monitoringMode,
 		clientHandle:        parameters.ClientHandle,
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..3c6e2dc 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -3,7 +3,6 @@
 package server
 
 import (
-	"sync/atomic"
 	"time"
 
 	"sync"
@@ -37,7 +36,7 @@ func NewEventMonitoredItem(sub *Subscription, node Node, itemToMonitor ua.ReadVa
 		sub:            sub,
 		srv:            sub.manager.server,
 		node:           node,
-		id:             atomic.AddUint32(&monitoredItemID, 1),
+		id:             getNextID(&monitoredItemID),
 		itemToMonitor:  itemToMonitor,
 		monitoringMode: monitoringMode,
 		clientHandle:   parameters.ClientHandle,
diff --git a/server/monitored_item.go b/server/monitored_item.go
index 4d3fb25..25a0430 100644
--- a/server/monitored_item.go
+++ b/server/monitored_item.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"sync/atomic"
 	"time"
 
 	"github.com/awcullen/opcua/ua"
@@ -17,6 +18,15 @@ var (
 	monitoredItemID = uint32(0)
 )
 
+// getNextID atomically increments the counter and returns its new value, skipping zero.
+func getNextID(counter *uint32) uint32 {
+	for {
+		if id := atomic.AddUint32(counter, 1); id != 0 {
+			return id
+		}
+	}
+}
+
 // MonitoredItem specifies a node that is monitored
 type MonitoredItem interface {
 	ID() uint32
diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..52fcfdc 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -5,7 +5,6 @@ import (
 	"log"
 	"math"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/awcullen/opcua/ua"
@@ -67,7 +66,7 @@ func NewSubscription(manager *SubscriptionManager, session *Session, publishingI
 	s := &Subscription{
 		manager:             manager,
 		session:             session,
-		id:                  atomic.AddUint32(&subscriptionID, 1),
+		id:                  getNextID(&subscriptionID),
 		publishingEnabled:   publishingEnabled,
 		priority:            priority,
 		nextSequenceNumber:  1,
-- 
2.43.0


From d89e50e1cfcb24df77ab2af42d252474a34a8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:59 +0000
Subject: [PATCH 07/11] fix: cancel faults echo the handle of the cancel
 request itself

The faults answering a CancelRequest carried CancelRequest.RequestHandle (the
handle of the requests to cancel) instead of the request header's handle, so a
client could not correlate them.
---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..c7bcf42 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -975,7 +975,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionIDInvalid,
 				},
 			},
@@ -995,7 +995,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionNotActivated,
 				},
 			},
@@ -1012,7 +1012,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSecureChannelIDInvalid,
 				},
 			},
-- 
2.43.0


From fc51381685495ebb58e75aed661a97ce3641bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:04 +0000
Subject: [PATCH 08/11] fix: keep the acknowledgement results in a late
 keep-alive publish response

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index 52fcfdc..69d66c0 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -612,7 +612,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 4c9a3bc22942f1f0275805affee85d95c3f32fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:20 +0000
Subject: [PATCH 09/11] fix: a timeout hint of zero means a publish request
 does not expire

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..f3cd7b6 100644
--- a/server/session.go
+++ b/server/session.go
@@ -322,7 +322,7 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			rid := op.requestId
 			results := op.results
 			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			if req.TimeoutHint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 5e638528288ea9c9acddb490516728f2d2b4b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:46 +0000
Subject: [PATCH 10/11] fix: answer the publish requests queued for a session
 when it is closed

---
 server/server_service_set.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index c7bcf42..fd5728d 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -938,6 +938,25 @@ func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32,
 		}
 	}
 
+	// answer the publish requests that are still queued
+	for {
+		pch, prequestid, preq, _, ok, err := session.removePublishRequest()
+		if ok {
+			pch.Write(
+				&ua.ServiceFault{
+					ResponseHeader: ua.ResponseHeader{
+						Timestamp:     time.Now(),
+						RequestHandle: preq.RequestHandle,
+						ServiceResult: ua.BadSessionClosed,
+					},
+				},
+				prequestid,
+			)
+		} else if err == nil {
+			break
+		}
+	}
+
 	// delete session
 	srv.sessionManager.Delete(session)
 
-- 
2.43.0


From 96c349ecccaf77a326adbd9ec10e6b5a1a81dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 11/11] fix: refuse subscription ids of other sessions in
 monitored item, acknowledge and republish services

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index fd5728d..f6ede31 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3779,7 +3779,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4293,7 +4293,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4458,7 +4458,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4641,7 +4641,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5354,7 +5354,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5516,7 +5516,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0

