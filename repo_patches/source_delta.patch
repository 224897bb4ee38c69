From f91b479601edd7ad1bad8793296f097c67a68ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 01/15] fix: write the V1 header fields in wire order
 (sequence, system, component)

---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index e5379b3..7d71fa4 100644
--- a/stream.go
+++ b/stream.go
@@ -305,9 +305,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From 3e802259b91e048ec14f7486ba4e5874980b9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 02/15] fix: detect signed V2 frames by the incompatibility
 flags, as the stream reader does

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From b0bdb5ff131e69e79b8e46bbea4bad86fb83089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 03/15] fix: truncate an all-zero V2 payload to its first byte
 instead of leaving it whole

---
 util/util.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..01c0353 100644
--- a/util/util.go
+++ b/util/util.go
@@ -1,15 +1,14 @@
 package util
 
 func TruncateV2(input []byte) []byte {
-	var i int
+	i := len(input)
 	// Loop through the array in reverse until the first non-zero byte is found
-	for i = len(input); i > 0; i-- {
-		if input[i-1] != 0 {
-			return input[:i]
-		}
+	// The first byte is never truncated, even if every byte is zero
+	for i > 1 && input[i-1] == 0 {
+		i--
 	}
 
-	return input
+	return input[:i]
 }
 
 // CStrLen returns the length of the null-terminated C string contained in the input buffer
-- 
2.43.0


From ce268a42ae10eac1f13226897f539e66489a9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 04/15] fix: use the declared parser table in uAvionix, so that
 the package compiles

---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..423b956 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -47,7 +47,7 @@ func (d Dialect) GetMeta(messageID uint32) (meta mavlink2.MessageMeta, err error
 
 // GetMessage extracts and parses the message contained in the Frame
 func (d Dialect) GetMessage(frame mavlink2.Frame) (message mavlink2.Message, err error) {
-	if parser, ok := uavionixParsers[frame.GetMessageID()]; ok {
+	if parser, ok := uAvionixParsers[frame.GetMessageID()]; ok {
 		message, err = parser(frame)
 		return
 	}
-- 
2.43.0


From 33bfcbeb1560a1c07d87c9dd5a253600227d4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 05/15] fix: pass returnInvalidFrames in cmd, so that it
 compiles

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index 39f8f3c..b9b954a 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -22,7 +22,7 @@ func main() {
 
 	dialects := mavlink2.Dialects{common.Dialect{}, ardupilotmega.Dialect{}}
 
-	stream := mavlink2.NewFrameStream(rwc, input, dialects)
+	stream := mavlink2.NewFrameStream(rwc, input, dialects, false)
 
 	var wg sync.WaitGroup
 
-- 
2.43.0


From 156e5bafbb69b250eb18b4c2af1c119678a25bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 06/15] fix: keep V2Extension.PayloadLength within the payload
 for frames of any length

---
 common/v2_extension.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..cdbbb12 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -28,7 +28,6 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
-	"math"
 	"text/tabwriter"
 
 	"github.com/botlink/go-mavlink2"
@@ -163,7 +162,15 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	// A V2 frame can be shorter than the description if its trailing zeroes were truncated,
+	// and no frame can hold more payload than the Payload field
+	payloadLength := int(frame.GetMessageLength()) - 5
+	if payloadLength < 0 {
+		payloadLength = 0
+	} else if payloadLength > len(m.Payload) {
+		payloadLength = len(m.Payload)
+	}
+	ioBytes[len(ioBytes)-1] = uint8(payloadLength)
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From 7b994f8916032da9a54415e82b306db13ac147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 07/15] fix: accept V1 V2Extension frames with the
 variable-length payload that Write produces

---
 common/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/dialect.go b/common/dialect.go
index cf90dd8..7725f73 100644
--- a/common/dialect.go
+++ b/common/dialect.go
@@ -190,7 +190,7 @@ var commonMessages = map[uint32]mavlink2.MessageMeta{
 	245:   mavlink2.MessageMeta{CRCExtra: 130, MinimumLength: 2, MaximumLength: 2},
 	246:   mavlink2.MessageMeta{CRCExtra: 184, MinimumLength: 38, MaximumLength: 38},
 	247:   mavlink2.MessageMeta{CRCExtra: 81, MinimumLength: 19, MaximumLength: 19},
-	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 254, MaximumLength: 254},
+	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 5, MaximumLength: 254},
 	249:   mavlink2.MessageMeta{CRCExtra: 204, MinimumLength: 36, MaximumLength: 36},
 	250:   mavlink2.MessageMeta{CRCExtra: 49, MinimumLength: 30, MaximumLength: 30},
 	251:   mavlink2.MessageMeta{CRCExtra: 170, MinimumLength: 18, MaximumLength: 18},
-- 
2.43.0


From e5f58fa4110bbfb19160996e1f1eaaced26575bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 08/15] fix: clear the previous value in the string setters, so
 that a shorter string leaves no tail

---
 ardupilotmega/device_op_read.go     | 1 +
 ardupilotmega/device_op_write.go    | 1 +
 common/adsb_vehicle.go              | 1 +
 common/ais_vessel.go                | 2 ++
 common/auth_key.go                  | 1 +
 common/camera_image_captured.go     | 1 +
 common/camera_information.go        | 1 +
 common/change_operator_control.go   | 1 +
 common/component_information.go     | 1 +
 common/debug_float_array.go         | 1 +
 common/debug_vect.go                | 1 +
 common/named_value_float.go         | 1 +
 common/named_value_int.go           | 1 +
 common/open_drone_id_operator_id.go | 1 +
 common/open_drone_id_self_id.go     | 1 +
 common/param_ext_ack.go             | 2 ++
 common/param_ext_request_read.go    | 1 +
 common/param_ext_set.go             | 2 ++
 common/param_ext_value.go           | 2 ++
 common/param_map_rc.go              | 1 +
 common/param_request_read.go        | 1 +
 common/param_set.go                 | 1 +
 common/param_value.go               | 1 +
 common/play_tune.go                 | 2 ++
 common/play_tune_v2.go              | 1 +
 common/smart_battery_info.go        | 1 +
 common/statustext.go                | 1 +
 common/statustext_long.go           | 1 +
 common/uavcan_node_info.go          | 1 +
 common/video_stream_information.go  | 2 ++
 common/wifi_config_ap.go            | 2 ++
 paparazzi/script_item.go            | 1 +
 uAvionix/uavionix_adsb_out_cfg.go   | 1 +
 33 files changed, 40 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..d7af7e1 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -100,6 +100,7 @@ func (m *DeviceOpRead) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..00e0bd0 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -104,6 +104,7 @@ func (m *DeviceOpWrite) String() string {
 // SetBusname encodes the input string to the Busname array
 func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
+	m.Busname = [40]byte{}
 	copy(m.Busname[:], []byte(input)[:clen])
 
 	if len(input) > 40 {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..25d7bf7 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -116,6 +116,7 @@ func (m *AdsbVehicle) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..497e532 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -132,6 +132,7 @@ func (m *AisVessel) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
+	m.Callsign = [7]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 7 {
@@ -151,6 +152,7 @@ func (m *AisVessel) GetCallsign() string {
 // SetName encodes the input string to the Name array
 func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.Name = [20]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..f2af34e 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -68,6 +68,7 @@ func (m *AuthKey) String() string {
 // SetKey encodes the input string to the Key array
 func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Key = [32]byte{}
 	copy(m.Key[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..bfc2cbc 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -108,6 +108,7 @@ func (m *CameraImageCaptured) String() string {
 // SetFileURL encodes the input string to the FileURL array
 func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
+	m.FileURL = [205]byte{}
 	copy(m.FileURL[:], []byte(input)[:clen])
 
 	if len(input) > 205 {
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..efbd79d 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -116,6 +116,7 @@ func (m *CameraInformation) String() string {
 // SetCamDefinitionURI encodes the input string to the CamDefinitionURI array
 func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.CamDefinitionURI = [140]byte{}
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..ddc101e 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -80,6 +80,7 @@ func (m *ChangeOperatorControl) String() string {
 // SetPasskey encodes the input string to the Passkey array
 func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
+	m.Passkey = [25]byte{}
 	copy(m.Passkey[:], []byte(input)[:clen])
 
 	if len(input) > 25 {
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..59bd067 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -96,6 +96,7 @@ func (m *ComponentInformation) String() string {
 // SetComponentDefinitionURI encodes the input string to the ComponentDefinitionURI array
 func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
+	m.ComponentDefinitionURI = [140]byte{}
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
 	if len(input) > 140 {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..68cc81f 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -97,6 +97,7 @@ func (m *DebugFloatArray) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..dc4dc20 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -84,6 +84,7 @@ func (m *DebugVect) String() string {
 // SetName encodes the input string to the Name array
 func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..5eb9d62 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -76,6 +76,7 @@ func (m *NamedValueFloat) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..4de1246 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -76,6 +76,7 @@ func (m *NamedValueInt) String() string {
 // SetName encodes the input string to the Name array
 func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
+	m.Name = [10]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 10 {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..41a0e06 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDOperatorID) String() string {
 // SetOperatorID encodes the input string to the OperatorID array
 func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
+	m.OperatorID = [20]byte{}
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
 	if len(input) > 20 {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..2146aea 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -72,6 +72,7 @@ func (m *OpenDroneIDSelfID) String() string {
 // SetDescription encodes the input string to the Description array
 func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
+	m.Description = [23]byte{}
 	copy(m.Description[:], []byte(input)[:clen])
 
 	if len(input) > 23 {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..1f849a0 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -80,6 +80,7 @@ func (m *ParamExtAck) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -99,6 +100,7 @@ func (m *ParamExtAck) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..903ca11 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamExtRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..74fce6a 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -84,6 +84,7 @@ func (m *ParamExtSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtSet) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..365ea67 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -84,6 +84,7 @@ func (m *ParamExtValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
@@ -103,6 +104,7 @@ func (m *ParamExtValue) GetParamID() string {
 // SetParamValue encodes the input string to the ParamValue array
 func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
+	m.ParamValue = [128]byte{}
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
 	if len(input) > 128 {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..1d699be 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -100,6 +100,7 @@ func (m *ParamMapRC) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..2a4abc9 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -80,6 +80,7 @@ func (m *ParamRequestRead) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..5a29857 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -84,6 +84,7 @@ func (m *ParamSet) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..8664315 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -84,6 +84,7 @@ func (m *ParamValue) String() string {
 // SetParamID encodes the input string to the ParamID array
 func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
+	m.ParamID = [16]byte{}
 	copy(m.ParamID[:], []byte(input)[:clen])
 
 	if len(input) > 16 {
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..b365da0 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -97,6 +97,7 @@ func (m *PlayTune) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
+	m.Tune = [30]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 30 {
@@ -116,6 +117,7 @@ func (m *PlayTune) GetTune() string {
 // SetTune2 encodes the input string to the Tune2 array
 func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
+	m.Tune2 = [200]byte{}
 	copy(m.Tune2[:], []byte(input)[:clen])
 
 	if len(input) > 200 {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..cd1f10c 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -80,6 +80,7 @@ func (m *PlayTuneV2) String() string {
 // SetTune encodes the input string to the Tune array
 func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
+	m.Tune = [248]byte{}
 	copy(m.Tune[:], []byte(input)[:clen])
 
 	if len(input) > 248 {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..8d75d5c 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -104,6 +104,7 @@ func (m *SmartBatteryInfo) String() string {
 // SetDeviceName encodes the input string to the DeviceName array
 func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.DeviceName = [50]byte{}
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..aae7e13 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -72,6 +72,7 @@ func (m *Statustext) String() string {
 // SetText encodes the input string to the Text array
 func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Text = [50]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..ea70a5e 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -72,6 +72,7 @@ func (m *StatustextLong) String() string {
 // SetText encodes the input string to the Text array
 func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
+	m.Text = [254]byte{}
 	copy(m.Text[:], []byte(input)[:clen])
 
 	if len(input) > 254 {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..948974c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -100,6 +100,7 @@ func (m *UavcanNodeInfo) String() string {
 // SetName encodes the input string to the Name array
 func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
+	m.Name = [80]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 80 {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..1fbb155 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -112,6 +112,7 @@ func (m *VIDeoStreamInformation) String() string {
 // SetName encodes the input string to the Name array
 func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.Name = [32]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -131,6 +132,7 @@ func (m *VIDeoStreamInformation) GetName() string {
 // SetURI encodes the input string to the URI array
 func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
+	m.URI = [160]byte{}
 	copy(m.URI[:], []byte(input)[:clen])
 
 	if len(input) > 160 {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..c964746 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -72,6 +72,7 @@ func (m *WifiConfigAp) String() string {
 // SetSsID encodes the input string to the SsID array
 func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
+	m.SsID = [32]byte{}
 	copy(m.SsID[:], []byte(input)[:clen])
 
 	if len(input) > 32 {
@@ -91,6 +92,7 @@ func (m *WifiConfigAp) GetSsID() string {
 // SetPassword encodes the input string to the Password array
 func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
+	m.Password = [64]byte{}
 	copy(m.Password[:], []byte(input)[:clen])
 
 	if len(input) > 64 {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..8a384d1 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -80,6 +80,7 @@ func (m *ScriptItem) String() string {
 // SetName encodes the input string to the Name array
 func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
+	m.Name = [50]byte{}
 	copy(m.Name[:], []byte(input)[:clen])
 
 	if len(input) > 50 {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..4f6ecaf 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -96,6 +96,7 @@ func (m *UavionixAdsbOutCfg) String() string {
 // SetCallsign encodes the input string to the Callsign array
 func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
+	m.Callsign = [9]byte{}
 	copy(m.Callsign[:], []byte(input)[:clen])
 
 	if len(input) > 9 {
-- 
2.43.0


From cfea96af12a32310ca3f2adad42dfc1b2ab7e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 09/15] fix: report ErrUnknownMessage when there are no
 Dialects at all

---
 dialect.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..d09c203 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,9 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	// No Dialect understands the message until one of them says so
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +62,9 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	// No Dialect understands the message until one of them says so
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +91,8 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+	// No Dialect understands the message until one of them says so
+	err := ErrUnknownMessage
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From 918360089e95f3b89e4acb2d6daed1f05ee59529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 10/15] fix: return ErrFrameTooShort from FrameFromBytes
 instead of slicing past the input

---
 frame.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/frame.go b/frame.go
index 27d1995..7e2ffcf 100644
--- a/frame.go
+++ b/frame.go
@@ -274,6 +274,16 @@ func FrameFromBytes(raw []byte, frameLength uint16, makeCopy bool) (frame Frame,
 
 	startByte := raw[0]
 
+	if startByte != V1StartByte && startByte != V2StartByte {
+		err = ErrUnknownStartByte
+		return
+	}
+
+	if makeCopy && len(raw) < int(frameLength) {
+		err = ErrFrameTooShort
+		return
+	}
+
 	if startByte == V1StartByte {
 		if makeCopy {
 			var rawCopy []byte
@@ -290,8 +300,6 @@ func FrameFromBytes(raw []byte, frameLength uint16, makeCopy bool) (frame Frame,
 		} else {
 			frame = FrameV2(raw)
 		}
-	} else {
-		err = ErrUnknownStartByte
 	}
 
 	return
-- 
2.43.0


From 58311cb3cbddd6e210b3ac333f2afb80b3a092da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 11/15] fix: close the frame channel only when no frame is
 being delivered, and end both loops when the stream closes

---
 stream.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index 7d71fa4..25ae735 100644
--- a/stream.go
+++ b/stream.go
@@ -67,6 +67,8 @@ type FrameStream struct {
 	closeErr            error
 	closeOnce           sync.Once
 	closed              chan struct{}
+	closing             chan struct{}
+	delivering          sync.Mutex
 	buffer              []byte
 	bufferIndex         int
 	dialects            Dialects
@@ -98,6 +100,7 @@ func NewFrameStreamWithLogger(rwc io.ReadWriteCloser, inputFrames chan Frame, di
 		rwc:                 rwc,
 		closeOnce:           sync.Once{},
 		closed:              make(chan struct{}),
+		closing:             make(chan struct{}),
 		buffer:              make([]byte, maxFrameLength*2, maxFrameLength*2),
 		bufferIndex:         0,
 		dialects:            dialects,
@@ -131,16 +134,42 @@ func (s *FrameStream) Closed() <-chan struct{} {
 func (s *FrameStream) close(err error) {
 	s.closeOnce.Do(func() {
 		s.Lock()
-		defer s.Unlock()
-
 		s.closeErr = err
+		s.Unlock()
 
 		s.rwc.Close()
+
+		// outputFrames can only be closed when no frame is being delivered,
+		// as sending on a closed channel panics
+		close(s.closing)
+		s.delivering.Lock()
 		close(s.outputFrames)
+		s.delivering.Unlock()
+
 		close(s.closed)
 	})
 }
 
+// deliver hands frame to the consumer of outputFrames.
+// It returns false if the FrameStream is closed before the consumer takes the frame
+func (s *FrameStream) deliver(frame Frame) bool {
+	s.delivering.Lock()
+	defer s.delivering.Unlock()
+
+	select {
+	case <-s.closing:
+		return false
+	default:
+	}
+
+	select {
+	case s.outputFrames <- frame:
+		return true
+	case <-s.closing:
+		return false
+	}
+}
+
 func (s *FrameStream) GetCloseErr() error {
 	return s.closeErr
 }
@@ -151,6 +180,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closing:
+			return
 		case frame, ok := <-s.inputFrames:
 			if !ok {
 				s.close(ErrWriteChannelClosed)
@@ -185,7 +216,9 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			if !s.deliver(frame) {
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 4f51575ae61250991bac9c6556cb8fbc92fa3232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 12/15] fix: read the close error under the lock it is written
 under

---
 stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream.go b/stream.go
index 25ae735..a7927f7 100644
--- a/stream.go
+++ b/stream.go
@@ -171,6 +171,9 @@ func (s *FrameStream) deliver(frame Frame) bool {
 }
 
 func (s *FrameStream) GetCloseErr() error {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.closeErr
 }
 
-- 
2.43.0


From c6da6bda39cf411edaef4783319e970b67679c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 13/15] fix: close the stream when the context is done, even
 while a loop is blocked

---
 stream.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stream.go b/stream.go
index a7927f7..d92e69a 100644
--- a/stream.go
+++ b/stream.go
@@ -150,6 +150,16 @@ func (s *FrameStream) close(err error) {
 	})
 }
 
+// closeWhenDone closes the FrameStream when ctx is done, even if the loop that uses ctx
+// is blocked on the transport or on the consumer of its frames
+func (s *FrameStream) closeWhenDone(ctx context.Context) {
+	select {
+	case <-ctx.Done():
+		s.close(ctx.Err())
+	case <-s.closing:
+	}
+}
+
 // deliver hands frame to the consumer of outputFrames.
 // It returns false if the FrameStream is closed before the consumer takes the frame
 func (s *FrameStream) deliver(frame Frame) bool {
@@ -178,6 +188,8 @@ func (s *FrameStream) GetCloseErr() error {
 }
 
 func (s *FrameStream) WriteContext(ctx context.Context) {
+	go s.closeWhenDone(ctx)
+
 	for {
 		select {
 		case <-ctx.Done():
@@ -204,6 +216,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 }
 
 func (s *FrameStream) ReadContext(ctx context.Context) {
+	go s.closeWhenDone(ctx)
+
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 6d23718e570fabe2a034075a3a3d7147189a887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 14/15] fix: datagrams longer than 4096 bytes lost their tail

The reader's default buffer of 4096 bytes cut them, and with them the frames
in the tail. Make it as large as a UDP datagram can be.
---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index d92e69a..d3f83ea 100644
--- a/stream.go
+++ b/stream.go
@@ -88,6 +88,9 @@ type FrameLogger interface {
 // mavlink v1 has max length 263, v2 has max length 279
 const maxFrameLength = 279
 
+// A datagram has to be read as a whole, as what does not fit in one read is lost
+const maxDatagramLength = 65535
+
 func NewFrameStream(rwc io.ReadWriteCloser, inputFrames chan Frame, dialects Dialects, returnInvalidFrames bool) *FrameStream {
 	return NewFrameStreamWithLogger(rwc, inputFrames, dialects, returnInvalidFrames, nil)
 }
@@ -96,7 +99,7 @@ func NewFrameStreamWithLogger(rwc io.ReadWriteCloser, inputFrames chan Frame, di
 	f := &FrameStream{
 		inputFrames:         inputFrames,
 		outputFrames:        make(chan Frame),
-		reader:              bufio.NewReader(rwc),
+		reader:              bufio.NewReaderSize(rwc, maxDatagramLength),
 		rwc:                 rwc,
 		closeOnce:           sync.Once{},
 		closed:              make(chan struct{}),
-- 
2.43.0


From 4fd6a9be0adfdd359e8eba954ab31dfd1109f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 15/15] fix: messages that do not fit a frame were built into a
 wrong one

A message ID above 255 in a V1 frame, or a payload of more than 255 bytes,
was cut to its low byte in the header.
---
 stream.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stream.go b/stream.go
index d3f83ea..0ca782f 100644
--- a/stream.go
+++ b/stream.go
@@ -351,6 +351,18 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		return
 	}
 
+	// The header of a V1 Frame has one byte for the message ID
+	if version == 1 && message.GetID() > 255 {
+		err = ErrEncodeV2MessageV1Frame
+		return
+	}
+
+	// The header has one byte for the message length
+	if len(messageBytes) > 255 {
+		err = ErrMessageTooLong
+		return
+	}
+
 	x25 := X25CRC{}
 	x25.Reset()
 
-- 
2.43.0

