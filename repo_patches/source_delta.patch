From bbdf4af57f81700c19c0a4090c13a1dae9c5af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 01/62] fix: reject packets whose header length disagrees with
 the header

Package.Decode sliced its input with the header length taken from the
packet: 0 (wrapping to 255) or a value beyond the input panicked, as did a
frame length near 65535 (uint16 overflow of the body slice). A panic in a
connection goroutine kills the whole receiver. A header length that differs
from the parsed header also let the checksums cover other bytes than the
ones decoded.
---
 libs/egts/egts_pkg.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..69150bc 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,6 +121,11 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	// длина заголовка должна соответствовать фактически разобранным полям
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -160,7 +165,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 9bf07b54819bf043167ba3880111755a5933e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 02/62] fix: compute the packet length without 16-bit
 wrap-around

A header length below 10 made the remaining length wrap to about 65 KB, so
the server swallowed the packets that followed; a large frame length wrapped
the sum and lost synchronisation with the stream.
---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..0a248de 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -93,9 +93,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Не корректная длина заголовка ЕГТС. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 8521801f77853f9302387d816dfe4bdafe7f3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 03/62] fix: read the altitude as the three bytes it has

SrPosData.Decode read four bytes, so the first byte of a following
source-data field ended up in the altitude, and accepted a cut-off altitude.
---
 libs/egts/egts_sr_pos_data.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..0a3fc04 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -118,8 +119,11 @@ func (e *SrPosData) Decode(content []byte) error {
 	}
 
 	if e.ALTE == "1" {
+		if buf.Len() < 3 {
+			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", io.ErrUnexpectedEOF)
+		}
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From c153496bd687aceb6dbd7486553b0cf848319da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 04/62] fix: decode the second counter into its own field

SrCountersData.Decode overwrote the first counter with the second.
---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 781c0178d27a8bba989d45aa4cf62a1f7af97fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 05/62] fix: encode the analog sensor flags in the order they
 are decoded

SrAdSensorsData.Encode wrote the presence bits of the analog sensors in
reverse, so any asymmetric set of sensors decoded as other sensors.
---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 7eb89904a44934f814764f54da2a15fff4ce5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 06/62] fix: keep coordinates exact when a decoded position is
 encoded again

Dividing before multiplying rounded below the integer for one coordinate in
seven, so re-encoding a decoded position moved it by one unit each time.
---
 libs/egts/egts_sr_pos_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 0a3fc04..8c761a8 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -149,12 +149,12 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Latitude/90*0xFFFFFFFF)); err != nil {
+	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Latitude*0xFFFFFFFF/90)); err != nil {
 		return result, fmt.Errorf("Не удалось записать широту: %v", err)
 	}
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Longitude/180*0xFFFFFFFF)); err != nil {
+	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Longitude*0xFFFFFFFF/180)); err != nil {
 		return result, fmt.Errorf("Не удалось записать долготу: %v", err)
 	}
 
-- 
2.43.0


From 07a5e49558d08f995ee3a753131759c1a700ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 07/62] fix: reject sections that end inside a field

bytes.Reader.Read returns what is left without an error, so a section cut
off inside its last field was accepted with the missing bytes taken as zero
or as left-overs of the previous field; likewise a packet that lacked one
byte of its checksum.
---
 libs/egts/egts_pkg.go                    |  3 +++
 libs/egts/egts_sr_abs_cntr_data.go       |  3 +++
 libs/egts/egts_sr_ad_sensors_data.go     |  5 +++++
 libs/egts/egts_sr_counters_data.go       |  5 +++++
 libs/egts/egts_sr_dispatcher_identity.go |  3 +++
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  3 +++
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 8 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 69150bc..be73a7c 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -159,6 +159,9 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcDecryptError, err
 	}
 
+	if buf.Len() < 2 {
+		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: пакет обрезан")
+	}
 	crcBytes := make([]byte, 2)
 	if _, err = buf.Read(crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..156c94a 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -19,6 +19,9 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	var (
 		err error
 	)
+	if len(content) < 4 {
+		return fmt.Errorf("Некорректный размер данных abs_cntr_data: %d", len(content))
+	}
 	buf := bytes.NewReader(content)
 
 	if e.CounterNumber, err = buf.ReadByte(); err != nil {
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 85fa38c..0ba710a 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 //SrAdSensorsData структура подзаписи типа EGTS_SR_AD_SENSORS_DATA, которая применяется абонентским
@@ -136,6 +137,10 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 		}
 	}
 
+	if buf.Len() < 3*strings.Count(flagBits, "1") {
+		return fmt.Errorf("Некорректный размер данных ad_sensors_data: %d", len(content))
+	}
+
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
 		if _, err = buf.Read(tmpBuf); err != nil {
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 454cdc0..86f6066 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 //SrCountersData структура подзаписи типа EGTS_SR_COUNTERS_DATA, которая используется аппаратно-программным
@@ -51,6 +52,10 @@ func (c *SrCountersData) Decode(content []byte) error {
 	c.CounterFieldExists2 = flagBits[6:7]
 	c.CounterFieldExists1 = flagBits[7:]
 
+	if buf.Len() < 3*strings.Count(flagBits, "1") {
+		return fmt.Errorf("Некорректный размер данных counters_data: %d", len(content))
+	}
+
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
 		if _, err = buf.Read(tmpBuf); err != nil {
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..32ceaca 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -19,6 +19,9 @@ type SrDispatcherIdentity struct {
 func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	var err error
 
+	if len(content) < 5 {
+		return fmt.Errorf("Некорректный размер данных dispatcher_identity: %d", len(content))
+	}
 	buf := bytes.NewBuffer(content)
 
 	if d.DispatcherType, err = buf.ReadByte(); err != nil {
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..63a4cb9 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -25,6 +25,9 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 		flags   byte
 		sensNum uint64
 	)
+	if len(content) < 7 {
+		return fmt.Errorf("Некорректный размер данных liquid_level: %d", len(content))
+	}
 	buf := bytes.NewReader(content)
 
 	if flags, err = buf.ReadByte(); err != nil {
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
-- 
2.43.0


From d47f9437506d7cc3267cb659dac4f8fab854aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 08/62] fix: reject records and subrecords longer than the data
 they are in

A record announcing more bytes than the frame holds was padded with zeros and
a subrecord was silently cut, so values the sender never sent were decoded.
---
 libs/egts/record_data.go          | 6 ++++++
 libs/egts/service_data_records.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..a9fb948 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -30,12 +30,18 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 			return fmt.Errorf("Не удалось получить тип записи subrecord data: %v", err)
 		}
 
+		if buf.Len() < 2 {
+			return fmt.Errorf("Не удалось получить длину записи subrecord data: данные обрезаны")
+		}
 		tmpIntBuf := make([]byte, 2)
 		if _, err = buf.Read(tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина подзаписи %d больше оставшихся данных %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..8d2d8c8 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -102,6 +102,10 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		}
 
 		if buf.Len() != 0 {
+			if buf.Len() < int(sdr.RecordLength) {
+				return fmt.Errorf("длина записи SDR %d больше оставшихся данных %d", sdr.RecordLength, buf.Len())
+			}
+
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
 			if _, err = buf.Read(rdsBytes); err != nil {
-- 
2.43.0


From c8456822ca47c1756ccd19c0172a38be204a452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 09/62] fix: report a wrong body checksum with its own result
 code

It was reported as a header checksum error (137 instead of 138).
---
 libs/egts/egts_pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index be73a7c..d429264 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -169,7 +169,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
 	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
-- 
2.43.0


From e6558c896553479ed47ef7db95d17b9dd22110a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 10/62] fix: send the authorisation result as application data

EGTS_SR_RESULT_CODE was sent in a packet typed as EGTS_PT_RESPONSE but without
the response fields, which no peer (this library included) can decode.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0a248de..bb41d65 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -392,7 +392,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 0e26ae0c381ffd631fa5ca8c4927ada38ef92dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 11/62] fix: leave the accept loop when the server is stopped

After Stop the loop kept failing and logging in a busy loop for ever.
---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index bb41d65..98faf8b 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
@@ -36,6 +37,9 @@ func (s *Server) Run() {
 		conn, err := s.l.Accept()
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
 		} else {
 			go s.handleConn(conn)
 		}
-- 
2.43.0


From 5c8d24c554aab7089ef7c26fd6956f1c3f7b9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:52 +0000
Subject: [PATCH 12/62] fix: close connections that stay idle longer than
 conn_ttl

The timer was only looked at after the peer had closed the connection, so an
idle connection was kept for ever although the README promises otherwise.
---
 cli/receiver/server/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 98faf8b..41f0c68 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -80,6 +80,9 @@ func (s *Server) handleConn(conn net.Conn) {
 		recvPacket = nil
 
 		connTimer := time.NewTimer(s.ttl)
+		if s.ttl > 0 {
+			_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+		}
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
@@ -88,6 +91,9 @@ func (s *Server) handleConn(conn net.Conn) {
 		switch err {
 		case nil:
 			connTimer.Reset(s.ttl)
+			if s.ttl > 0 {
+				_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
+			}
 
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
-- 
2.43.0


From 6faeb1d12051261245223c26f8754772ba8c89fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 13/62] fix: compose the record number from counters 110 and
 111 as documented

Counter 110 holds the three low bytes and 111 the high byte; the bytes were
mixed in opposite orders, which lost the lowest byte and swapped the others.
---
 cli/receiver/server/server.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 41f0c68..529bedd 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -249,18 +249,16 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							tmpBuf := make([]byte, 4)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							copy(packetIDBytes, tmpBuf[:3])
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
 
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
+							packetIDBytes[3] = tmpBuf[0]
 
 							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						}
-- 
2.43.0


From b249b3355ad083600590600452a087ee5b4beac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 14/62] fix: save to the remaining stores when one store fails

Repository.Save promises to save to all stores but stopped at the first
failure, so one unavailable store lost the record for all stores after it.
---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index aac933e..342942a 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From 0f90166e234b6faa89ef2402f7196e5f58d54574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 15/62] fix: use redis database 0 when none is configured

The default was unreachable because the wrong lookup was tested.
---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 36ec763c789e7e9b06275d8a2127697ea319855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 16/62] fix: send the time given to packet-gen

The required -time option was parsed and then ignored.
---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..9bae84e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 4faef3876fe40ca74553ec63af949cbaabb02db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 17/62] fix: give packet-gen the ack timeout it documents

The default was 0 seconds, so reading the ack always timed out.
---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9bae84e..66760c3 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 176d38fdaa02e47013eee37ce261efbbf4e8f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:57 +0000
Subject: [PATCH 18/62] fix: exit with status 0 when packet-gen succeeded

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 66760c3..7b243cf 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 689b79937d788cda82515bb7e3f1a4f3cf95a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:57 +0000
Subject: [PATCH 19/62] fix: do not crash packet-gen on an ack without record
 confirmations

---
 cli/packet-gen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 7b243cf..8974190 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	ackRecords, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack does not confirm any record")
+		os.Exit(1)
+	}
+
+	for _, rec := range *ackRecords {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 231ea4a795b7a683fc2f2deb0a37d6aeb806f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 20/62] fix: refuse to encode sections that do not fit their
 length field

A subrecord, record or frame above 65535 bytes was emitted with its length
wrapped to 16 bits, which no peer can decode.
---
 libs/egts/egts_pkg.go             |  4 ++++
 libs/egts/record_data.go          | 13 +++++++++----
 libs/egts/service_data_records.go |  5 +++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d429264..37538a5 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -240,6 +241,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Размер секции данных превышает допустимый: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index a9fb948..0669508 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -140,6 +141,14 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			}
 		}
 
+		srd, err := rd.SubrecordData.Encode()
+		if err != nil {
+			return result, err
+		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("Размер подзаписи превышает допустимый: %d", len(srd))
+		}
+
 		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordType); err != nil {
 			return result, err
 		}
@@ -151,10 +160,6 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		srd, err := rd.SubrecordData.Encode()
-		if err != nil {
-			return result, err
-		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 8d2d8c8..bdfd17e 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 )
@@ -138,6 +139,10 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("размер записи SDR превышает допустимый: %d", len(rd))
+		}
+
 		if sdr.RecordLength == 0 {
 			sdr.RecordLength = uint16(len(rd))
 		}
-- 
2.43.0


From 3ed93b349c70280c32ae1eaf8bc967dba1793419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 21/62] fix: fill in the subrecord type of module data and
 dispatcher identity

They were the only supported types for which an unset type was refused.
---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 0669508..abb09ee 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -136,6 +136,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From b49c41554c2e1b5d2a818ad0f2f009df637ee421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 22/62] fix: store positions that arrive together with a
 confirmation

A confirmation subrecord made the server drop the rest of the packet,
including the position of the same record and all records after it.
---
 cli/receiver/server/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 529bedd..75bef4a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -59,6 +59,7 @@ func (s *Server) handleConn(conn net.Conn) {
 
 	var (
 		isPkgSave         bool
+		isConfirmation    bool
 		srResultCodePkg   []byte
 		serviceType       uint8
 		srResponsesRecord egts.RecordDataSet
@@ -78,6 +79,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResponsesRecord = nil
 		srResultCodePkg = nil
 		recvPacket = nil
+		isConfirmation = false
 
 		connTimer := time.NewTimer(s.ttl)
 		if s.ttl > 0 {
@@ -192,7 +194,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
+						isConfirmation = true
 					case *egts.SrPosData:
 						log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						isPkgSave = true
@@ -288,6 +290,11 @@ func (s *Server) handleConn(conn net.Conn) {
 				}
 			}
 
+			// пакеты с подтверждениями не подтверждаются
+			if isConfirmation {
+				goto Received
+			}
+
 			resp, err := createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, srResponsesRecord)
 			if err != nil {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
-- 
2.43.0


From a40899393842824302fa2befd1f3da1ec963da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 23/62] fix: store southern and western coordinates with their
 sign

The protocol sends absolute values and hemisphere flags; the flags were
dropped, so such positions were stored in the opposite hemisphere.
---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 75bef4a..63ceade 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -203,6 +203,13 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						// координаты передаются по модулю, полушарие задано флагами
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From f6ad5d49d6d4f7aa53acafabd7ace0b29aa013d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:03 +0000
Subject: [PATCH 24/62] fix: report invalid flags when encoding a terminal
 identity

The error was overwritten and a record with all flags cleared was emitted.
---
 libs/egts/egts_sr_term_identity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 19d4acd..b2ec1a9 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From ee4636d78c37bed236205ca8d29c90eb013c3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:13 +0000
Subject: [PATCH 25/62] fix: restart the idle limit with every received segment

---
 cli/receiver/server/server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 63ceade..eeb7bd3 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -54,6 +54,19 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// idleReader читает из соединения, отсчитывая допустимое время простоя от последних полученных данных
+type idleReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r idleReader) Read(b []byte) (int, error) {
+	if r.ttl > 0 {
+		_ = r.conn.SetReadDeadline(time.Now().Add(r.ttl))
+	}
+	return r.conn.Read(b)
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
@@ -72,6 +85,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		return
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
+	reader := idleReader{conn: conn, ttl: s.ttl}
 
 	for {
 	Received:
@@ -82,20 +96,14 @@ func (s *Server) handleConn(conn net.Conn) {
 		isConfirmation = false
 
 		connTimer := time.NewTimer(s.ttl)
-		if s.ttl > 0 {
-			_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
-		}
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(reader, headerBuf)
 
 		switch err {
 		case nil:
 			connTimer.Reset(s.ttl)
-			if s.ttl > 0 {
-				_ = conn.SetReadDeadline(time.Now().Add(s.ttl))
-			}
 
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
@@ -115,7 +123,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(reader, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
-- 
2.43.0


From 8dd1515c11adbd7b877e67beaa4f982ebdc0d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 26/62] fix: use the documented conn_ttl key in the shipped
 configuration

The receiver reads conn_ttl; con_live_sec was ignored, so the shipped
configuration ran without an idle limit.
---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 3fff48c..bb70f73 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 37397880957f2e05c01bb51a06bc047793a435cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 27/62] fix: do not confirm records that were not saved

A record whose saving failed was confirmed with status 0, so the terminal
dropped it and the position was lost. Report an I/O error for it instead.
---
 cli/receiver/server/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index eeb7bd3..fca86c4 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -12,8 +12,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -301,6 +302,11 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+						// не подтверждаем запись, которая не сохранена
+						srResponsesRecord[len(srResponsesRecord)-1].SubrecordData = &egts.SrResponse{
+							ConfirmedRecordNumber: rec.RecordNumber,
+							RecordStatus:          egtsPcIoError,
+						}
 					}
 				}
 			}
-- 
2.43.0


From cb72b4a00638a2701676703e41366c1fb82f7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:43 +0000
Subject: [PATCH 28/62] fix: store courses above 255 degrees

The course was stored in eight bits with the ninth bit of the direction
merged into the eighth, so 300 degrees became 172.
---
 cli/receiver/server/server.go  | 4 +++-
 cli/receiver/storage/packet.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index fca86c4..c5d4d1a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -220,7 +220,9 @@ func (s *Server) handleConn(conn net.Conn) {
 							exportPacket.Longitude = -exportPacket.Longitude
 						}
 						exportPacket.Speed = subRecData.Speed
-						exportPacket.Course = subRecData.Direction
+						// старший бит направления хранится отдельно
+						highestBit := subRecData.DirectionHighestBit
+						exportPacket.Course = uint16(highestBit)<<8 | uint16(subRecData.Direction&^(highestBit<<7))
 					case *egts.SrExtPosData:
 						log.Debug("Разбор подзаписи EGTS_SR_EXT_POS_DATA")
 						exportPacket.Nsat = subRecData.Satellites
diff --git a/cli/receiver/storage/packet.go b/cli/receiver/storage/packet.go
index 48ea5c6..4ef32ed 100644
--- a/cli/receiver/storage/packet.go
+++ b/cli/receiver/storage/packet.go
@@ -17,7 +17,7 @@ type NavRecord struct {
 	Vdop                uint16         `json:"vdop"`
 	Nsat                uint8          `json:"nsat"`
 	Ns                  uint16         `json:"ns"`
-	Course              uint8          `json:"course"`
+	Course              uint16         `json:"course"`
 	AnSensors           []AnSensor     `json:"an_sensors"`
 	LiquidSensors       []LiquidSensor `json:"liquid_sensors"`
 }
-- 
2.43.0


From de97bd3800fca2643cc45211940254ecee0d70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:02 +0000
Subject: [PATCH 29/62] fix: packet generator: send southern and western
 coordinates

---
 cli/packet-gen/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 8974190..8fd7236 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -83,6 +84,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// в протоколе координаты передаются без знака, полушария задаются отдельными флагами
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -114,11 +124,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From dcf3400c8329e38a34cb44b87c24014f27356073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 30/62] fix: packet generator: refuse values the packet cannot
 carry

---
 cli/packet-gen/main.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 8fd7236..e7e8a46 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -84,6 +84,33 @@ func main() {
 		os.Exit(1)
 	}
 
+	if pid < 0 || pid > math.MaxUint16 {
+		fmt.Println("Packet identifier is out of range: ", pid)
+		os.Exit(1)
+	}
+
+	if oid < 0 || int64(oid) > math.MaxUint32 {
+		fmt.Println("Client identifier is out of range: ", oid)
+		os.Exit(1)
+	}
+
+	if liqLvl < 0 || int64(liqLvl) > math.MaxUint32 {
+		fmt.Println("Liquid level is out of range: ", liqLvl)
+		os.Exit(1)
+	}
+
+	if !(math.Abs(lat) <= 90) || !(math.Abs(lon) <= 180) {
+		fmt.Println("Coordinates are out of range: ", lat, lon)
+		os.Exit(1)
+	}
+
+	// время в протоколе - число секунд с 01.01.2010 в 32 битах
+	navSeconds := timestamp.Unix() - time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
+	if navSeconds < 0 || navSeconds > math.MaxUint32 {
+		fmt.Println("Timestamp is out of range: ", timestamp)
+		os.Exit(1)
+	}
+
 	// в протоколе координаты передаются без знака, полушария задаются отдельными флагами
 	lahs, lohs := "0", "0"
 	if lat < 0 {
-- 
2.43.0


From 0ff51d5b743fbbf92b343a58fb8f7e503ae587ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:19 +0000
Subject: [PATCH 31/62] fix: packet generator: succeed only if the sent record
 is confirmed

---
 cli/packet-gen/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index e7e8a46..9ba0051 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -42,6 +42,9 @@ Example
 Created by Igor Kuznetsov
 */
 
+// номер единственной записи отправляемого пакета
+const sentRecordNumber = 1
+
 func main() {
 
 	pid := 0
@@ -134,7 +137,7 @@ func main() {
 		PacketType:       1,
 		ServicesFrameData: &egts.ServiceDataSet{
 			egts.ServiceDataRecord{
-				RecordNumber:             1,
+				RecordNumber:             sentRecordNumber,
 				SourceServiceOnDevice:    "0",
 				RecipientServiceOnDevice: "0",
 				Group:                    "0",
@@ -250,6 +253,7 @@ func main() {
 		os.Exit(1)
 	}
 
+	confirmed := false
 	for _, rec := range *ackRecords {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
@@ -258,10 +262,18 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					if response.ConfirmedRecordNumber == sentRecordNumber {
+						confirmed = true
+					}
 				}
 			}
 		}
 	}
 
+	if !confirmed {
+		fmt.Println("Received ack does not confirm the sent record")
+		os.Exit(1)
+	}
+
 	fmt.Println("Packet sent and processed correct")
 }
-- 
2.43.0


From 96e9ed8c2dd6a734e780a893f4fa53da4de7fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:43 +0000
Subject: [PATCH 32/62] fix: packet generator: read the whole answer

---
 cli/packet-gen/main.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 9ba0051..ba69b52 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -214,17 +216,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -277,3 +277,25 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket читает один пакет целиком, сколькими бы TCP сегментами он ни пришел
+func readPacket(r io.Reader) ([]byte, error) {
+	const headerLen = 10
+
+	packet := make([]byte, headerLen)
+	if _, err := io.ReadFull(r, packet); err != nil {
+		return nil, err
+	}
+
+	packetLen := int(packet[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(packet[5:7])); bodyLen > 0 {
+		packetLen += bodyLen + 2
+	}
+	if packetLen <= headerLen {
+		return packet, nil
+	}
+
+	packet = append(packet, make([]byte, packetLen-headerLen)...)
+	_, err := io.ReadFull(r, packet[headerLen:])
+	return packet, err
+}
-- 
2.43.0


From 7d457ddb12b7a73fc02dda231b94ae740290acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 33/62] fix: postgresql: quote the settings in the connection
 string

---
 .../storage/store/postgresql/connector.go       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..41177b4 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,8 +19,20 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
+// connEscaper экранирует символы, которые имеют особое значение в строке подключения.
+var connEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`)
+
+// connParam возвращает параметр строки подключения, пустой параметр не указывается.
+func connParam(key, value string) string {
+	if value == "" {
+		return ""
+	}
+	return key + "='" + connEscaper.Replace(value) + "' "
+}
+
 type Connector struct {
 	connection *sql.DB
 	config     map[string]string
@@ -34,8 +46,9 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 	c.config = cfg
-	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+	connStr := connParam("dbname", c.config["database"]) + connParam("host", c.config["host"]) +
+		connParam("port", c.config["port"]) + connParam("user", c.config["user"]) +
+		connParam("password", c.config["password"]) + connParam("sslmode", c.config["sslmode"])
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
-- 
2.43.0


From adbd2870ad2a2ccf7ce9d27e8beec37623f99008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 34/62] fix: rabbitmq: escape the credentials in the URI

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 60de3d1c887aa2075a95048d82f1272e44226dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 35/62] fix: an unusable store does not keep the others from
 being used

---
 cli/receiver/storage/store.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index 342942a..97029b7 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -55,13 +55,16 @@ func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
 	return firstErr
 }
 
-//LoadStorages загружает хранилища из структуры конфига
+//LoadStorages загружает хранилища из структуры конфига, непригодное хранилище не мешает загрузке остальных
 func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 	if len(storages) == 0 {
 		return InvalidStorage
 	}
 
-	var db Store
+	var (
+		db      Store
+		loadErr error
+	)
 	for store, params := range storages {
 		switch store {
 		case "rabbitmq":
@@ -77,16 +80,18 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 		case "mysql":
 			db = &mysql.Connector{}
 		default:
-			return UnknownStorage
+			loadErr = UnknownStorage
+			continue
 		}
 
 		if err := db.Init(params); err != nil {
-			return err
+			loadErr = err
+			continue
 		}
 
 		r.AddStore(db)
 	}
-	return nil
+	return loadErr
 }
 
 //NewRepository создает пустой репозиторий
-- 
2.43.0


From 8518b3356c11aec3620e5b6a76fac33f9d4185ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 36/62] fix: the logging store writes records at every log
 level

---
 cli/receiver/storage/default.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/default.go b/cli/receiver/storage/default.go
index 7f35fb9..a6b894c 100644
--- a/cli/receiver/storage/default.go
+++ b/cli/receiver/storage/default.go
@@ -5,6 +5,9 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+// packetLog выводит пакеты независимо от уровня логирования приложения
+var packetLog = log.New()
+
 type LogConnector struct{}
 
 func (c LogConnector) Init(cfg map[string]string) error {
@@ -17,7 +20,7 @@ func (c LogConnector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return err
 	}
 
-	log.WithField("packet", string(jsonPkg)).Info("Export packet")
+	packetLog.WithField("packet", string(jsonPkg)).Info("Export packet")
 	return nil
 }
 
-- 
2.43.0


From ae3c9a0815478ad8c8b6c8cdc90ca6ae2e42afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:23 +0000
Subject: [PATCH 37/62] fix: a subrecord without data is an error of encoding,
 not a crash

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index abb09ee..909c375 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -108,6 +108,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 
 	for _, rd := range *rds {
+		if rd.SubrecordData == nil {
+			return result, fmt.Errorf("не заданы данные подзаписи типа %d", rd.SubrecordType)
+		}
+
 		if rd.SubrecordType == 0 {
 			switch rd.SubrecordData.(type) {
 			case *SrPosData:
-- 
2.43.0


From 18aeaf7abdb4484712f27d472457bb89391d45f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:25 +0000
Subject: [PATCH 38/62] fix: identification fields of a wrong width are an
 error of encoding

---
 libs/egts/egts_sr_term_identity.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index b2ec1a9..225cb47 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -143,24 +143,36 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.IMEIE == "1" {
+		if len(e.IMEI) != 15 {
+			return result, fmt.Errorf("Не верная длина IMEI: %d", len(e.IMEI))
+		}
 		if _, err = buf.Write([]byte(e.IMEI)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMEI при авторизации")
 		}
 	}
 
 	if e.IMSIE == "1" {
+		if len(e.IMSI) != 16 {
+			return result, fmt.Errorf("Не верная длина IMSI: %d", len(e.IMSI))
+		}
 		if _, err = buf.Write([]byte(e.IMSI)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
 		}
 	}
 
 	if e.LNGCE == "1" {
+		if len(e.LanguageCode) != 3 {
+			return result, fmt.Errorf("Не верная длина кода языка: %d", len(e.LanguageCode))
+		}
 		if _, err = buf.Write([]byte(e.LanguageCode)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
 		}
 	}
 
 	if e.NIDE == "1" {
+		if len(e.NetworkIdentifier) != 3 {
+			return result, fmt.Errorf("Не верная длина идентификатора сети оператора: %d", len(e.NetworkIdentifier))
+		}
 		if _, err = buf.Write(e.NetworkIdentifier); err != nil {
 			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации")
 		}
@@ -173,6 +185,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
+		if len(e.MobileNumber) != 15 {
+			return result, fmt.Errorf("Не верная длина телефонного номера: %d", len(e.MobileNumber))
+		}
 		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
 			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
 		}
-- 
2.43.0


From 566bc38a0cee93de49bce9af9f6dedf72120aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:26 +0000
Subject: [PATCH 39/62] fix: authorisation fields containing their delimiter
 are an error of encoding

---
 libs/egts/egts_sr_auth_info.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_auth_info.go b/libs/egts/egts_sr_auth_info.go
index 20428ac..2da34a6 100644
--- a/libs/egts/egts_sr_auth_info.go
+++ b/libs/egts/egts_sr_auth_info.go
@@ -57,6 +57,10 @@ func (e *SrAuthInfo) Encode() ([]byte, error) {
 	//разделитель строковых полей из ГОСТ 54619 - 2011 секции EGTS_SR_AUTH_INFO
 	sep := byte(0x00)
 
+	if strings.IndexByte(e.UserName+e.UserPassword+e.ServerSequence, sep) >= 0 {
+		return result, fmt.Errorf("Строковое поле авторизации содержит разделитель")
+	}
+
 	result = append(result, []byte(e.UserName)...)
 	result = append(result, sep)
 
-- 
2.43.0


From 466bd8e77c737204577b792446d946ecde2c1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 40/62] fix: module fields containing their delimiter are an
 error of encoding

---
 libs/egts/egts_sr_module_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/egts/egts_sr_module_data.go b/libs/egts/egts_sr_module_data.go
index 86dc227..5bebe37 100644
--- a/libs/egts/egts_sr_module_data.go
+++ b/libs/egts/egts_sr_module_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"strings"
 )
 
 const (
@@ -102,6 +103,10 @@ func (e *SrModuleData) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	if strings.IndexByte(e.SerialNumber+e.Description, Delimiter) >= 0 {
+		return result, fmt.Errorf("строковое поле содержит разделитель")
+	}
+
 	if err = binary.Write(buf, binary.LittleEndian, e.ModuleType); err != nil {
 		return result, fmt.Errorf("не удалось записать тип модуля")
 	}
-- 
2.43.0


From 3a58ee301b744f236f8a415aab799e83c566b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:29 +0000
Subject: [PATCH 41/62] fix: an analog sensor value wider than its field is an
 error of encoding

---
 libs/egts/egts_sr_abs_an_sensors_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/egts/egts_sr_abs_an_sensors_data.go b/libs/egts/egts_sr_abs_an_sensors_data.go
index 0247912..f948019 100644
--- a/libs/egts/egts_sr_abs_an_sensors_data.go
+++ b/libs/egts/egts_sr_abs_an_sensors_data.go
@@ -3,6 +3,7 @@ package egts
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 )
 
 //SrAbsAnSensData структура подзаписи типа EGTS_SR_ABS_AN_SENS_DATA, которая применяется абонентским
@@ -24,6 +25,10 @@ func (e *SrAbsAnSensData) Decode(content []byte) error {
 
 //Encode преобразовывает подзапись в набор байт
 func (e *SrAbsAnSensData) Encode() ([]byte, error) {
+	if e.Value > 0xFFFFFF {
+		return nil, fmt.Errorf("значение датчика не помещается в 24 бита: %d", e.Value)
+	}
+
 	return []byte{
 		byte(e.SensorNumber),
 		byte(e.Value),
-- 
2.43.0


From 059d6e522240c8bed68c3186c476370ea1b6a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:31 +0000
Subject: [PATCH 42/62] fix: a counter value wider than its field is an error
 of encoding

---
 libs/egts/egts_sr_abs_cntr_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 156c94a..1dab3f2 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -51,6 +51,10 @@ func (e *SrAbsCntrData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать номер счетного входа: %v", err)
 	}
 
+	if e.CounterValue > 0xFFFFFF {
+		return nil, fmt.Errorf("Значение счетного входа не помещается в 24 бита: %d", e.CounterValue)
+	}
+
 	counterVal := make([]byte, 4)
 	binary.LittleEndian.PutUint32(counterVal, e.CounterValue)
 	if _, err = buf.Write(counterVal[:3]); err != nil {
-- 
2.43.0


From 4fb78df67b3159c7c927a360fa280f871ca95a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 43/62] fix: counters wider than their field are an error of
 encoding

---
 libs/egts/egts_sr_counters_data.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 86f6066..d095849 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -149,6 +149,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 
 	sensVal := make([]byte, 4)
 	if c.CounterFieldExists1 == "1" {
+		if c.Counter1 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN1 не помещаются в 24 бита: %d", c.Counter1)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter1)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN1: %v", err)
@@ -156,6 +159,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists2 == "1" {
+		if c.Counter2 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN2 не помещаются в 24 бита: %d", c.Counter2)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter2)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN2: %v", err)
@@ -163,6 +169,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists3 == "1" {
+		if c.Counter3 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN3 не помещаются в 24 бита: %d", c.Counter3)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter3)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN3: %v", err)
@@ -170,6 +179,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists4 == "1" {
+		if c.Counter4 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN4 не помещаются в 24 бита: %d", c.Counter4)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter4)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN4: %v", err)
@@ -177,6 +189,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists5 == "1" {
+		if c.Counter5 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN5 не помещаются в 24 бита: %d", c.Counter5)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter5)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN5: %v", err)
@@ -184,6 +199,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists6 == "1" {
+		if c.Counter6 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN6 не помещаются в 24 бита: %d", c.Counter6)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter6)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN6: %v", err)
@@ -191,6 +209,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists7 == "1" {
+		if c.Counter7 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN7 не помещаются в 24 бита: %d", c.Counter7)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter7)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN7: %v", err)
@@ -198,6 +219,9 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 	}
 
 	if c.CounterFieldExists8 == "1" {
+		if c.Counter8 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания CN8 не помещаются в 24 бита: %d", c.Counter8)
+		}
 		binary.LittleEndian.PutUint32(sensVal, c.Counter8)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания CN8: %v", err)
-- 
2.43.0


From 6d822dadf26d4de51fee5c8636d9db611b78cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:34 +0000
Subject: [PATCH 44/62] fix: analog sensors wider than their field are an error
 of encoding

---
 libs/egts/egts_sr_ad_sensors_data.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 0ba710a..3dd7dae 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -305,6 +305,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 
 	sensVal := make([]byte, 4)
 	if e.AnalogSensorFieldExists1 == "1" {
+		if e.AnalogSensor1 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS1 не помещаются в 24 бита: %d", e.AnalogSensor1)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor1)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS1: %v", err)
@@ -312,6 +315,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
+		if e.AnalogSensor2 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS2 не помещаются в 24 бита: %d", e.AnalogSensor2)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor2)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS2: %v", err)
@@ -319,6 +325,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
+		if e.AnalogSensor3 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS3 не помещаются в 24 бита: %d", e.AnalogSensor3)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor3)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS3: %v", err)
@@ -326,6 +335,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
+		if e.AnalogSensor4 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS4 не помещаются в 24 бита: %d", e.AnalogSensor4)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor4)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS4: %v", err)
@@ -333,6 +345,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
+		if e.AnalogSensor5 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS5 не помещаются в 24 бита: %d", e.AnalogSensor5)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor5)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS5: %v", err)
@@ -340,6 +355,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
+		if e.AnalogSensor6 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS6 не помещаются в 24 бита: %d", e.AnalogSensor6)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor6)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS6: %v", err)
@@ -347,6 +365,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
+		if e.AnalogSensor7 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS7 не помещаются в 24 бита: %d", e.AnalogSensor7)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor7)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS7: %v", err)
@@ -354,6 +375,9 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
+		if e.AnalogSensor8 > 0xFFFFFF {
+			return result, fmt.Errorf("Показания ANS8 не помещаются в 24 бита: %d", e.AnalogSensor8)
+		}
 		binary.LittleEndian.PutUint32(sensVal, e.AnalogSensor8)
 		if _, err = buf.Write(sensVal[:3]); err != nil {
 			return result, fmt.Errorf("Не удалось запистаь показания ANS8: %v", err)
-- 
2.43.0


From 3ded15c4fe9f2469a2bb4f1c6be5a44cd98eaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:36 +0000
Subject: [PATCH 45/62] fix: a liquid sensor number wider than its field is an
 error of encoding

---
 libs/egts/egts_sr_liquid_level_sensor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 63a4cb9..94277cc 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -68,6 +68,10 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	if e.LiquidLevelSensorNumber > 7 {
+		return result, fmt.Errorf("Порядковый номер датчика не помещается в 3 бита: %d", e.LiquidLevelSensorNumber)
+	}
+
 	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
 		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
-- 
2.43.0


From 6bb21a84488eb0e26292926aeb9fb864a722ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:38 +0000
Subject: [PATCH 46/62] fix: a record time outside the range of its field is an
 error of encoding

---
 libs/egts/service_data_records.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index bdfd17e..89dec94 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -177,8 +177,11 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		}
 
 		if sdr.TimeFieldExists == "1" {
-			tm := uint32(sdr.Time.Unix() - timeOffset.Unix())
-			if err := binary.Write(buf, binary.LittleEndian, tm); err != nil {
+			tm := sdr.Time.Unix() - timeOffset.Unix()
+			if tm < 0 || tm > math.MaxUint32 {
+				return result, fmt.Errorf("время записи SDR не представимо: %v", sdr.Time)
+			}
+			if err := binary.Write(buf, binary.LittleEndian, uint32(tm)); err != nil {
 				return result, fmt.Errorf("не удалось записать время формирования записи на стороне отправителя SDR: %v", err)
 			}
 		}
-- 
2.43.0


From 462d02d69ad26edb286a310f7b4c2edb9a9a0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:39 +0000
Subject: [PATCH 47/62] fix: an odometer or altitude wider than its field is an
 error of encoding

---
 libs/egts/egts_sr_pos_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 8c761a8..02334aa 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -141,6 +141,10 @@ func (e *SrPosData) Encode() ([]byte, error) {
 		result []byte
 	)
 
+	if e.Odometer > 0xFFFFFF || e.ALTE == "1" && e.Altitude > 0xFFFFFF {
+		return result, fmt.Errorf("Пробег или высота не помещается в 24 бита: %d, %d", e.Odometer, e.Altitude)
+	}
+
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
-- 
2.43.0


From e42704703528ee2500695aa22b3362224e6c6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 48/62] fix: a speed that does not fit its field is an error of
 encoding, it changed the course and the altitude sign

---
 libs/egts/egts_sr_pos_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 02334aa..6b8e2a3 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -145,6 +145,10 @@ func (e *SrPosData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Пробег или высота не помещается в 24 бита: %d, %d", e.Odometer, e.Altitude)
 	}
 
+	if e.Speed > 0x3FFF/10 || e.DirectionHighestBit > 1 || e.AltitudeSign > 1 {
+		return result, fmt.Errorf("Скорость не помещается в 14 бит или знак в 1 бит: %d, %d, %d", e.Speed, e.DirectionHighestBit, e.AltitudeSign)
+	}
+
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
-- 
2.43.0


From f06d1dabf981e8c11f3d5baeb754b19b38eb6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:42 +0000
Subject: [PATCH 49/62] fix: coordinates outside their range are an error of
 encoding

---
 libs/egts/egts_sr_pos_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 6b8e2a3..4048f7f 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -149,6 +149,10 @@ func (e *SrPosData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Скорость не помещается в 14 бит или знак в 1 бит: %d, %d, %d", e.Speed, e.DirectionHighestBit, e.AltitudeSign)
 	}
 
+	if !(e.Latitude >= 0 && e.Latitude <= 90) || !(e.Longitude >= 0 && e.Longitude <= 180) {
+		return result, fmt.Errorf("Не верные координаты: %v, %v", e.Latitude, e.Longitude)
+	}
+
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
-- 
2.43.0


From fa86e9490f1b20e9adfc4d12485b307cdd894f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:44 +0000
Subject: [PATCH 50/62] fix: a navigation time outside the range of its field
 is an error of encoding

---
 libs/egts/egts_sr_pos_data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 4048f7f..c2ae815 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -156,7 +157,11 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.NavigationTime.Sub(startDate).Seconds())); err != nil {
+	navTime := e.NavigationTime.Unix() - startDate.Unix()
+	if navTime < 0 || navTime > math.MaxUint32 {
+		return result, fmt.Errorf("Время навигации не представимо: %v", e.NavigationTime)
+	}
+	if err = binary.Write(buf, binary.LittleEndian, uint32(navTime)); err != nil {
 		return result, fmt.Errorf("Не удалось записать время навигации: %v", err)
 	}
 
-- 
2.43.0


From cbadc1f1f85639a37ef90185df531917dfce63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 51/62] fix: a packet decoded into a used object kept its
 routing fields and body

---
 libs/egts/egts_pkg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 37538a5..3b4a13d 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -46,6 +46,7 @@ type Options struct {
 
 // Decode разбирает набор байт в структуру пакета
 func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
+	*p = Package{}
 	options := &Options{}
 	for _, o := range opt {
 		o(options)
-- 
2.43.0


From e3d588d30baed74954a9534aaa6a17596375d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 52/62] fix: sensors decoded into a used object kept values of
 absent sensors

---
 libs/egts/egts_sr_ad_sensors_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 3dd7dae..390a11d 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -49,6 +49,7 @@ type SrAdSensorsData struct {
 
 //Decode разбирает байты в структуру подзаписи
 func (e *SrAdSensorsData) Decode(content []byte) error {
+	*e = SrAdSensorsData{}
 	var (
 		err           error
 		flags         byte
-- 
2.43.0


From aaa1b492446f6bb5347d8837f1f4574b8edeadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 53/62] fix: counters decoded into a used object kept values of
 absent counters

---
 libs/egts/egts_sr_counters_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index d095849..73ad93b 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -31,6 +31,7 @@ type SrCountersData struct {
 
 //Decode разбирает байты в структуру подзаписи
 func (c *SrCountersData) Decode(content []byte) error {
+	*c = SrCountersData{}
 	var (
 		err        error
 		flags      byte
-- 
2.43.0


From bb499d182d33efec6df038fb51995f878d245d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 54/62] fix: extended position data decoded into a used object
 kept absent fields

---
 libs/egts/egts_sr_ext_pos_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index b7ab165..a98351e 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -25,6 +25,7 @@ type SrExtPosData struct {
 
 //Decode разбирает байты в структуру подзаписи
 func (e *SrExtPosData) Decode(content []byte) error {
+	*e = SrExtPosData{}
 	var (
 		err   error
 		flags byte
-- 
2.43.0


From 07599ae069f8c41a19ed96bdf460bbd194efbe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 55/62] fix: a position decoded into a used object kept an
 absent altitude

---
 libs/egts/egts_sr_pos_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index c2ae815..5ba93ed 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -37,6 +37,7 @@ type SrPosData struct {
 
 //Decode разбирает байты в структуру подзаписи
 func (e *SrPosData) Decode(content []byte) error {
+	*e = SrPosData{}
 	var (
 		err   error
 		flags byte
-- 
2.43.0


From 1bc4d02c15b353e28736976bdfc216716b254518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 56/62] fix: an identification decoded into a used object kept
 absent fields

---
 libs/egts/egts_sr_term_identity.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 225cb47..ea0dc06 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -31,6 +31,7 @@ type SrTermIdentity struct {
 
 //Decode разбирает байты в структуру подзаписи
 func (e *SrTermIdentity) Decode(content []byte) error {
+	*e = SrTermIdentity{}
 	var (
 		err   error
 		flags byte
-- 
2.43.0


From a924b3887c09e41073792e1b614373281aa0f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 57/62] fix: a response decoded into a used object kept its
 records

---
 libs/egts/egts_pt_response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..ebf4813 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -15,6 +15,7 @@ type PtResponse struct {
 
 // Decode разбирает байты в структуру подзаписи
 func (s *PtResponse) Decode(content []byte) error {
+	*s = PtResponse{}
 	var (
 		err error
 	)
-- 
2.43.0


From 304a725472b0dd9db5f790f5c90bb166af8e9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 58/62] fix: subrecords decoded into a used set were appended
 to the earlier ones

---
 libs/egts/record_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 909c375..be49f3c 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -21,6 +21,7 @@ type RecordDataSet []RecordData
 
 // Decode разбирает байты в структуру подзаписи
 func (rds *RecordDataSet) Decode(recDS []byte) error {
+	*rds = nil
 	var (
 		err error
 	)
-- 
2.43.0


From 9339935c5be32eb9f4cb8c9ac78c67e68839b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 59/62] fix: records decoded into a used set were appended to
 the earlier ones

---
 libs/egts/service_data_records.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 89dec94..636a0f1 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -37,6 +37,7 @@ type ServiceDataSet []ServiceDataRecord
 // Decode разбирает байты в структуру подзаписи
 //nolint:funlen
 func (s *ServiceDataSet) Decode(serviceDS []byte) error {
+	*s = nil
 	var (
 		err   error
 		flags byte
-- 
2.43.0


From 5de960912da8649c09d927fce442ae5564c6e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:45 +0000
Subject: [PATCH 60/62] fix: an authorisation decoded into a used object kept
 an absent server sequence

---
 libs/egts/egts_sr_auth_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/egts/egts_sr_auth_info.go b/libs/egts/egts_sr_auth_info.go
index 2da34a6..bb93147 100644
--- a/libs/egts/egts_sr_auth_info.go
+++ b/libs/egts/egts_sr_auth_info.go
@@ -17,6 +17,7 @@ type SrAuthInfo struct {
 
 // Decode разбирает байты в структуру подзаписи
 func (e *SrAuthInfo) Decode(content []byte) error {
+	*e = SrAuthInfo{}
 	var (
 		err    error
 		tmpStr string
-- 
2.43.0


From c3ab27a755659c250fb163f923c6dd980a665ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 61/62] fix: a connection whose peer takes no replies was never
 closed

---
 cli/receiver/server/server.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c5d4d1a..84a94e8 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -68,6 +68,21 @@ func (r idleReader) Read(b []byte) (int, error) {
 	return r.conn.Read(b)
 }
 
+// reply отправляет ответ, ожидая его приема не дольше допустимого времени простоя. Возвращает false, если ответ
+// за это время не принят и соединение нужно закрыть
+func (s *Server) reply(conn net.Conn, resp []byte) bool {
+	if s.ttl > 0 {
+		_ = conn.SetWriteDeadline(time.Now().Add(s.ttl))
+	}
+
+	var netErr net.Error
+	if _, err := conn.Write(resp); errors.As(err, &netErr) && netErr.Timeout() {
+		log.WithField("ip", conn.RemoteAddr()).Warn("Ответ не принят. Соединение закрыто по таймауту")
+		return false
+	}
+	return true
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
@@ -152,7 +167,9 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа EGTS_PT_RESPONSE с ошибкой")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if !s.reply(conn, resp) {
+				return
+			}
 
 			goto Received
 		}
@@ -323,12 +340,16 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if !s.reply(conn, resp) {
+				return
+			}
 
 			log.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")
 
 			if len(srResultCodePkg) > 0 {
-				_, _ = conn.Write(srResultCodePkg)
+				if !s.reply(conn, srResultCodePkg) {
+					return
+				}
 				log.WithField("packet", resp).Debug("Отправлен пакет EGTS_SR_RESULT_CODE")
 			}
 		case egts.PtResponsePacket:
-- 
2.43.0


From 51751fa62db8052734f2f7c5aab50b8e5649e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 62/62] fix: store plugins without a connection crashed on Save
 and Close

---
 cli/receiver/storage/store/mysql/connector.go           | 6 ++++++
 cli/receiver/storage/store/postgresql/connector.go      | 6 ++++++
 cli/receiver/storage/store/rabbitmq/connector.go        | 3 +++
 cli/receiver/storage/store/redis/connector.go           | 6 ++++++
 cli/receiver/storage/store/tarantool_queue/connector.go | 6 ++++++
 5 files changed, 27 insertions(+)

diff --git a/cli/receiver/storage/store/mysql/connector.go b/cli/receiver/storage/store/mysql/connector.go
index a66550d..e49f3b1 100644
--- a/cli/receiver/storage/store/mysql/connector.go
+++ b/cli/receiver/storage/store/mysql/connector.go
@@ -45,6 +45,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
 	}
+	if c.connection == nil {
+		return fmt.Errorf("Нет подключения к mysql")
+	}
 
 	innerPkg, err := msg.ToBytes()
 	if err != nil {
@@ -59,5 +62,8 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 }
 
 func (c *Connector) Close() error {
+	if c.connection == nil {
+		return nil
+	}
 	return c.connection.Close()
 }
diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 41177b4..b5cb0d0 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -63,6 +63,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
 	}
+	if c.connection == nil {
+		return fmt.Errorf("Нет подключения к postgresql")
+	}
 
 	innerPkg, err := msg.ToBytes()
 	if err != nil {
@@ -77,5 +80,8 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 }
 
 func (c *Connector) Close() error {
+	if c.connection == nil {
+		return nil
+	}
 	return c.connection.Close()
 }
diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index eb663f7..cecfd2b 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -50,6 +50,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
 	}
+	if c.channel == nil {
+		return fmt.Errorf("Нет подключения к RabbitMQ")
+	}
 
 	innerPkg, err := msg.ToBytes()
 	if err != nil {
diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index b050cf4..465dae8 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -66,6 +66,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
 	}
+	if c.conn == nil {
+		return fmt.Errorf("Нет подключения к redis")
+	}
 
 	innerPkg, err := msg.ToBytes()
 	if err != nil {
@@ -80,5 +83,8 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 }
 
 func (c *Connector) Close() error {
+	if c.conn == nil {
+		return nil
+	}
 	return c.conn.Close()
 }
diff --git a/cli/receiver/storage/store/tarantool_queue/connector.go b/cli/receiver/storage/store/tarantool_queue/connector.go
index 8c01b2e..5d682bf 100644
--- a/cli/receiver/storage/store/tarantool_queue/connector.go
+++ b/cli/receiver/storage/store/tarantool_queue/connector.go
@@ -70,6 +70,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
 	}
+	if c.connection == nil {
+		return fmt.Errorf("Нет подключения к tarantool")
+	}
 
 	innerPkg, err := msg.ToBytes()
 	if err != nil {
@@ -84,5 +87,8 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 }
 
 func (c *Connector) Close() error {
+	if c.connection == nil {
+		return nil
+	}
 	return c.connection.Close()
 }
-- 
2.43.0

