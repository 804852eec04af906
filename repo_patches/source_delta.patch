From dfb39724613f4f8b801312e2b4b3c798d101f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 01/45] fix: reject packets whose header length or body size
 does not match instead of panicking

Package.Decode sliced its input by the header length and frame data length
read from the wire, so HL=0, an HL beyond the input or an FDL longer than the
data crashed the caller.
---
 libs/egts/egts_pkg.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..77cdd15 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -101,12 +102,21 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	// длина заголовка фиксирована и зависит только от наличия полей маршрутизации
+	headerLength := DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		headerLength += 5
+	}
+	if int(p.HeaderLength) != headerLength {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -130,7 +140,7 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[headerLength:headerLength+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From a9b4465410dd0b9233a7d8fd5feeae08b93858b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 02/45] fix: verify the body checksum before parsing it and
 report code 138

The body CRC was compared only after the body had been parsed, a mismatch was
answered with the header CRC code (137), and a packet without a body, which
has no CRC field, could not be decoded at all.
---
 libs/egts/egts_pkg.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 77cdd15..4917ea0 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -119,6 +119,20 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
+
+	// контрольная сумма тела присутствует только при наличии самого тела
+	if p.FrameDataLength > 0 {
+		crcBytes := make([]byte, 2)
+		if _, err = io.ReadFull(buf, crcBytes); err != nil {
+			return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+		}
+		p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+
+		if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+			return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+		}
+	}
+
 	switch p.PacketType {
 	case PtAppdataPacket:
 		p.ServicesFrameData = &ServiceDataSet{}
@@ -134,15 +148,6 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcDecryptError, err
 	}
 
-	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-
-	if p.ServicesFrameDataCheckSum != crc16(content[headerLength:headerLength+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
-	}
 	return egtsPcOk, err
 }
 
-- 
2.43.0


From 94c58c7a75629d4032b5f0172407a7d1d9c1d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 03/45] fix: reject truncated records and fields instead of
 inventing their values

A short read left the missing bytes of a field zero, or filled with the
previous field, and reported success.
---
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 15 ++++++++-------
 libs/egts/record_data.go                 |  3 +++
 libs/egts/service_data_records.go        |  3 ++-
 9 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..72bde24 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -48,7 +49,7 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 9b8fcb3..6d35ceb 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index bbcf14d..8ae2d71 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -34,6 +34,9 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина подзаписи %d превышает оставшиеся %d байт", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7a5b635..d44fc92 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -97,7 +98,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 8f3e883476f86a24a44534a114d6882767c27924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 04/45] fix: read the three byte altitude of EGTS_SR_POS_DATA
 as three bytes

A fourth byte was consumed from the optional source data that follows.
---
 libs/egts/egts_sr_pos_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..d3b8349 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From db1de093edbd415198334176928b1cf14cec2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 05/45] fix: decode the second counter of EGTS_SR_COUNTERS_DATA
 into its own field

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From c09dabcee68b0e47a095c4ade20a58a41ef9c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 06/45] fix: encode the analog sensor presence bits of
 EGTS_SR_AD_SENSORS_DATA in the order they are decoded

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From aab5265e3115dce3c9925fdcdf3b0529cb5b0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 07/45] fix: do not recursively parse and discard the tail of a
 record response

Nested responses made decoding one packet take memory quadratic in its size.
---
 libs/egts/egts_sr_response.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..4137ba9 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -30,10 +30,6 @@ func (s *SrResponse) Decode(content []byte) error {
 		return fmt.Errorf("Не удалось получить статус обработки записи: %v", err)
 	}
 
-	sfd := ServiceDataSet{}
-	if err = sfd.Decode(buf.Bytes()); err != nil {
-		return err
-	}
 	return err
 }
 
-- 
2.43.0


From 07f2444e2fd6761a16ca07ad742abe3d0f403ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 08/45] fix: keep the fixed field widths of
 EGTS_SR_TERM_IDENTITY when encoding

Short or long language, network and phone values shifted every field after
them, and an invalid flag string was silently encoded as zero flags.
---
 libs/egts/egts_sr_term_identity.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 6d35ceb..4d7ef78 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -128,7 +128,14 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать идентификатор терминал при авторизации")
 	}
 
-	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8); err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
+	// длины полей в протоколе фиксированы
+	if (e.IMEIE == "1" && len(e.IMEI) > 15) || (e.IMSIE == "1" && len(e.IMSI) > 16) || (e.LNGCE == "1" && len(e.LanguageCode) > 3) ||
+		(e.NIDE == "1" && len(e.NetworkIdentifier) > 3) || (e.MNE == "1" && len(e.MobileNumber) > 15) {
+		return result, fmt.Errorf("Превышена длина поля term identify")
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
@@ -165,12 +172,14 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		if _, err = buf.Write([]byte(e.LanguageCode)); err != nil {
 			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
 		}
+		buf.Write(make([]byte, 3-len(e.LanguageCode)))
 	}
 
 	if e.NIDE == "1" {
 		if _, err = buf.Write(e.NetworkIdentifier); err != nil {
 			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации")
 		}
+		buf.Write(make([]byte, 3-len(e.NetworkIdentifier)))
 	}
 
 	if e.BSE == "1" {
@@ -183,6 +192,7 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
 			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
 		}
+		buf.Write(make([]byte, 15-len(e.MobileNumber)))
 	}
 
 	result = buf.Bytes()
-- 
2.43.0


From f97eab1a7eac2a77b7197969370e63782f0443ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 09/45] fix: encode records holding a dispatcher identity
 without an explicit type

The type was not inferred, and a subrecord without data crashed the encoder.
---
 libs/egts/record_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 8ae2d71..13f55b9 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -98,6 +98,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 
 	for _, rd := range *rds {
+		if rd.SubrecordData == nil {
+			return result, fmt.Errorf("не задано содержимое подзаписи")
+		}
 		if rd.SubrecordType == 0 {
 			switch rd.SubrecordData.(type) {
 			case *SrPosData:
@@ -126,6 +129,8 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From 16d2474dd197d216ae795e430161309898c78dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 10/45] fix: refuse to encode sections longer than their length
 field can express

The 16 bit length was silently truncated and the resulting packet could not be
parsed.
---
 libs/egts/egts_pkg.go             | 4 ++++
 libs/egts/record_data.go          | 4 ++++
 libs/egts/service_data_records.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 4917ea0..09b4ee3 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -199,6 +200,9 @@ func (p *Package) Encode() ([]byte, error) {
 			return result, err
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Длина секции данных превышает допустимую: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 13f55b9..2c77e86 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -151,6 +152,9 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("длина подзаписи превышает допустимую: %d", len(srd))
+		}
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index d44fc92..5dd930c 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -128,6 +129,9 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("Длина записи SDR превышает допустимую: %d", len(rd))
+		}
 		if sdr.RecordLength == 0 {
 			sdr.RecordLength = uint16(len(rd))
 		}
-- 
2.43.0


From e17467d5409e9c3ba0a806e40648b63b1109326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 11/45] fix: refuse to encode values that overflow into
 neighbouring bit fields

A sensor number above 7, a speed above 1638 km/h and coordinates outside
0..90/0..180 produced well formed records with other values in them.
---
 libs/egts/egts_sr_liquid_level_sensor.go | 3 +++
 libs/egts/egts_sr_pos_data.go            | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 72bde24..6e901df 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -66,6 +66,9 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	if e.LiquidLevelSensorNumber > 7 {
+		return result, fmt.Errorf("Номер датчика ДУЖ превышает допустимый: %d", e.LiquidLevelSensorNumber)
+	}
 	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
 		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index d3b8349..9d20b43 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -138,6 +138,10 @@ func (e *SrPosData) Encode() ([]byte, error) {
 		result []byte
 	)
 
+	if !(e.Latitude >= 0 && e.Latitude <= 90 && e.Longitude >= 0 && e.Longitude <= 180) {
+		return result, fmt.Errorf("Координаты должны быть заданы по модулю: %v, %v", e.Latitude, e.Longitude)
+	}
+
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
@@ -166,6 +170,9 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	// скорость
+	if e.Speed > 0x3FFF/10 || e.DirectionHighestBit > 1 || e.AltitudeSign > 1 {
+		return result, fmt.Errorf("Скорость или знаковые биты pos_data превышают допустимые значения")
+	}
 	speed := e.Speed*10 | uint16(e.DirectionHighestBit)<<15 // 15 бит
 	speed = speed | uint16(e.AltitudeSign)<<14              //14 бит
 	spd := make([]byte, 2)
-- 
2.43.0


From 802f3e2bc7e503e4590d319022b4fb31856e36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 12/45] fix: compute the packet size without 16 bit wrap-around

A body near the maximum size, or a header length below the minimum, wrapped the
frame length, so the server lost the packet boundary or waited for 64 KB that
never come.
---
 cli/receiver/server/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..c0a0871 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -94,9 +94,14 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			// заголовок короче минимального не позволяет определить границу пакета
+			if pkgLen < egts.DEFAULT_HEADER_LEN {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка ЕГТС. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 78738bfe44d1ab17eaf5d7e75cfad1b458e4f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 13/45] fix: do not acknowledge telemetry that could not be
 stored

A failed save was only logged and the terminal got a success response, so it
dropped the only copy of the data.
---
 cli/receiver/server/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c0a0871..f1c1cca 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -12,8 +12,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -298,6 +299,12 @@ func (s *Server) handleConn(conn net.Conn) {
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+
+					// не подтверждаем несохраненные данные, чтобы терминал передал их повторно
+					resultCode = egtsPcIoError
+					for _, rec := range srResponsesRecord {
+						rec.SubrecordData.(*egts.SrResponse).RecordStatus = egtsPcIoError
+					}
 				}
 			}
 
-- 
2.43.0


From 14055bc045841cc5f2eea3e6eb496d9f71522a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 14/45] fix: send EGTS_SR_RESULT_CODE in a PT_APPDATA packet

It was labelled PT_RESPONSE although its body has no response header, so
terminals read the record header as a packet id and a processing result.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index f1c1cca..8f26896 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -421,7 +421,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 1acb2ecfd2465f084ab8e6568e9de69bffd98a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 15/45] fix: process packets that carry a record response along
 with telemetry

Such packets were dropped whole: their positions were not saved and the
terminal never got the mandatory PT_RESPONSE.
---
 cli/receiver/server/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 8f26896..5131940 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -179,7 +179,6 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
 					case *egts.SrTermIdentity:
 						log.Debug("Разбор подзаписи EGTS_SR_TERM_IDENTITY")
 						// fmt.Printf("Разбор подзаписи EGTS_SR_TERM_IDENTITY: %+v\n\n", subRecData)
-- 
2.43.0


From 682a2da84ffde46e978f6083b6157b5bd1dfb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 16/45] fix: assemble the packet id of counters 110 and 111 in
 one byte order

The low three bytes were stored big endian and read back little endian, so the
exported id was scrambled whenever the high byte was sent.
---
 cli/receiver/server/server.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 5131940..5613a17 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -256,18 +256,14 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							highByte := packetIDBytes[3]
+							binary.LittleEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
+							packetIDBytes[3] = highByte
+
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
-
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
+							packetIDBytes[3] = byte(subRecData.CounterValue)
 
 							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						}
-- 
2.43.0


From 3f54b21427ac62093594bd91d06f61d8396849f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 17/45] fix: export southern and western coordinates with their
 sign

LAHS and LOHS were ignored, so such positions were stored mirrored to the north
and the east.
---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 5613a17..c1e4795 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -205,6 +205,13 @@ func (s *Server) handleConn(conn net.Conn) {
 							Speed:        subRecData.Speed,
 							NavigationDt: subRecData.NavigationTime.Format(time.RFC3339),
 						}
+						// в протоколе координаты передаются по модулю, полушарие задается флагами
+						if subRecData.LAHS == "1" {
+							locData.Latitude = -locData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							locData.Longitude = -locData.Longitude
+						}
 
 						exportPacket.LocStates = append(exportPacket.LocStates, locData)
 						exportPacket.LocStatesCount++
-- 
2.43.0


From 244b0135f117f8441afb3ec016df5d960a8f800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 18/45] fix: keep the object id for records that omit it

The standard lets consecutive records of one object omit OID after the first
one; the exported client id was then reset to zero.
---
 cli/receiver/server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c1e4795..87c9533 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -168,7 +168,9 @@ func (s *Server) handleConn(conn net.Conn) {
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
-				exportPacket.ClientID = rec.ObjectIdentifier
+				if rec.ObjectIDFieldExists == "1" {
+					exportPacket.ClientID = rec.ObjectIdentifier
+				}
 
 				for _, subRec := range rec.RecordDataSet {
 					switch subRecData := subRec.SubrecordData.(type) {
-- 
2.43.0


From ad8d829de831eecf809f9833201a3ebb17dc321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 19/45] fix: export positions of different objects in one
 packet under their own ids

A retranslated packet may hold records of several objects; all their positions
were stored under the id of the last one.
---
 cli/receiver/server/server.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 87c9533..42c134f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -153,6 +153,8 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			isPkgSave = false
+			isClientKnown := false
+			var exportPackets []storage.NavRecord
 
 			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {
 				packetIDBytes := make([]byte, 4)
@@ -169,7 +171,21 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.Info("Тип сервиса ", serviceType)
 
 				if rec.ObjectIDFieldExists == "1" {
+					// данные разных объектов одного пакета не должны смешиваться
+					if isClientKnown && exportPacket.ClientID != rec.ObjectIdentifier {
+						if isPkgSave {
+							exportPackets = append(exportPackets, exportPacket)
+						}
+						exportPacket = storage.NavRecord{
+							ServerID:   s.serverId,
+							IMEI:       exportPacket.IMEI,
+							PacketID:   uint32(pkg.PacketIdentifier),
+							ReceivedDt: ReceivedDt,
+						}
+						isPkgSave = false
+					}
 					exportPacket.ClientID = rec.ObjectIdentifier
+					isClientKnown = true
 				}
 
 				for _, subRec := range rec.RecordDataSet {
@@ -301,7 +317,10 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			if isPkgSave {
-				if err := s.store.Save(&exportPacket); err != nil {
+				exportPackets = append(exportPackets, exportPacket)
+			}
+			for i := range exportPackets {
+				if err := s.store.Save(&exportPackets[i]); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
 
 					// не подтверждаем несохраненные данные, чтобы терминал передал их повторно
-- 
2.43.0


From 55b9eb56170914037a989bd9f215afa77faed96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 20/45] fix: close connections that stay silent longer than
 conn_ttl

The timer was only waited for after the peer had closed its side, so a silent
or half open peer held its connection and goroutine forever.
---
 cli/receiver/server/server.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 42c134f..74c2ee3 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -69,6 +69,7 @@ func (s *Server) handleConn(conn net.Conn) {
 		return
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
+	reader := &ttlReader{conn: conn, ttl: s.ttl}
 
 	for {
 	Received:
@@ -81,7 +82,7 @@ func (s *Server) handleConn(conn net.Conn) {
 
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(reader, headerBuf)
 
 		switch err {
 		case nil:
@@ -106,7 +107,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(reader, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
@@ -351,6 +352,21 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// ttlReader ограничивает время ожидания каждой порции данных
+type ttlReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r *ttlReader) Read(p []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(p)
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		serverId: "EGTS_GATE0",
-- 
2.43.0


From 05c77830cd72c85f091cee687b755c1e0943295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 21/45] fix: make Run return after Stop and synchronise the
 listener

Run kept calling Accept on the closed listener, spinning and logging forever,
and Stop read the listener while Run was still assigning it.
---
 cli/receiver/server/server.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 74c2ee3..39a4c23 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,8 +2,10 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
@@ -22,21 +24,27 @@ type Server struct {
 	addr     string
 	ttl      time.Duration
 	store    *storage.Repository
+	mu       sync.Mutex // защищает l
 	l        net.Listener
 }
 
 func (s *Server) Run() {
-	var err error
-
-	s.l, err = net.Listen("tcp", s.addr)
+	l, err := net.Listen("tcp", s.addr)
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
-	defer s.l.Close()
+	defer l.Close()
+
+	s.mu.Lock()
+	s.l = l
+	s.mu.Unlock()
 
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
-		conn, err := s.l.Accept()
+		conn, err := l.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
@@ -46,6 +54,9 @@ func (s *Server) Run() {
 }
 
 func (s *Server) Stop() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if s.l != nil {
 		return s.l.Close()
 	}
-- 
2.43.0


From fb0533561ec9570976775094145bc8c1a6ab91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 22/45] fix: offer each record to every storage even when one
 of them fails

An outage of one storage silently starved all storages configured after it.
---
 cli/receiver/storage/store.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index a0b0127..ed50558 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -44,14 +44,16 @@ func (r *Repository) AddStore(s Saver) {
 	r.storages = append(r.storages, s)
 }
 
-//Save сохраняет данные во все установленные хранилища
+//Save сохраняет данные во все установленные хранилища. Сбой одного из них не должен
+//оставлять без данных остальные, поэтому возвращается первая ошибка после обхода всех.
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var result error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && result == nil {
+			result = err
 		}
 	}
-	return nil
+	return result
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From fedc2992210e8fa442b3ba04879394df69db714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 23/45] fix: return redis publish errors instead of panicking

An unreachable redis server took the whole receiver process down.
---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..1437420 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("Не удалось отправить сообщение в очередь: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From 5b2488f38b4cc68191c5b76d91b03d973994d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 24/45] fix: fall back to redis database 0 when db is not
 configured

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 1437420..6d349f0 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 10899e8675ea14493e26f297cddbe8863535b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 25/45] fix: use the conn_ttl key in the sample configuration

The receiver reads conn_ttl; con_live_sec was ignored and left the TTL at zero.
---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..c720f90 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 2b4de4e40a91d6e2252474b8c433ff1a9b44527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 26/45] fix: send the requested timestamp from packet-gen

The --time value was parsed and then replaced with a constant.
---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..76bfc5d 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 3e8d49ac8d1cb076102776c1396c5bc0b08ab7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 27/45] fix: exit with status 0 from packet-gen after a
 successful exchange

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 76bfc5d..62e8e9e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 0c609c9817df89747f0653e9a699a1b3cb713cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 28/45] fix: wait for the ack for the documented five seconds
 by default

---
 cli/packet-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 62e8e9e..66124b6 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -50,7 +50,7 @@ func main() {
 	lat := 0.0
 	lon := 0.0
 	server := ""
-	ackTimeout := 0
+	ackTimeout := 5
 
 	flag.IntVar(&pid, "pid", 0, "Packet identifier (require)")
 	flag.IntVar(&oid, "oid", 0, "Client identifier (require)")
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 53362553b0f081d8b23fcb6e248bd6362d581064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 29/45] fix: report an ack without record confirmations instead
 of panicking in packet-gen

---
 cli/packet-gen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 66124b6..219c761 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -207,7 +207,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	ackRecords, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack does not confirm any record")
+		os.Exit(1)
+	}
+
+	for _, rec := range *ackRecords {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From f24a30af27e60b1483583557d4604f28df9816eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 30/45] fix: encode southern and western coordinates in
 packet-gen

---
 cli/packet-gen/main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 219c761..a025f9b 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -83,6 +83,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// широта и долгота передаются по модулю, полушарие задается флагами
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs, lat = "1", -lat
+	}
+	if lon < 0 {
+		lohs, lon = "1", -lon
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -117,8 +126,8 @@ func main() {
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From cf870a9aad9957210033fd3618e76c2343decdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 31/45] fix: refuse packet-gen identifiers and levels that do
 not fit the protocol fields

---
 cli/packet-gen/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index a025f9b..58ca40b 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -68,6 +69,11 @@ func main() {
 		os.Exit(1)
 	}
 
+	if pid < 0 || pid > math.MaxUint16 || oid < 0 || uint64(oid) > math.MaxUint32 || liqLvl < 0 || uint64(liqLvl) > math.MaxUint32 {
+		fmt.Println("Numeric parameter is out of range. See to help (-h)")
+		os.Exit(1)
+	}
+
 	if oid == 0 {
 		fmt.Println("Client identifier is require. See to help (-h)")
 		os.Exit(1)
-- 
2.43.0


From 30aa7505543088739e467e979e344e49cf0904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 32/45] fix: read the whole ack packet in packet-gen

An ack that arrived in several segments was parsed after the first one and
reported as a failure.
---
 cli/packet-gen/main.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 58ca40b..b5c0ada 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -189,10 +191,10 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
+	ackBuf := make([]byte, math.MaxUint8+math.MaxUint16+2)
 
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackLen, err := readPacket(conn, ackBuf)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
@@ -243,3 +245,21 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket считывает один пакет целиком, даже если он пришел несколькими сегментами
+func readPacket(r io.Reader, buf []byte) (int, error) {
+	if _, err := io.ReadFull(r, buf[:egts.DEFAULT_HEADER_LEN]); err != nil {
+		return 0, err
+	}
+
+	pkgLen := int(buf[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(buf[5:7])); bodyLen > 0 {
+		pkgLen += bodyLen + 2
+	}
+	if pkgLen < egts.DEFAULT_HEADER_LEN {
+		return 0, fmt.Errorf("incorrect header length: %d", buf[3])
+	}
+
+	_, err := io.ReadFull(r, buf[egts.DEFAULT_HEADER_LEN:pkgLen])
+	return pkgLen, err
+}
-- 
2.43.0


From 91c50f8a2f5343d25400d0ec913d96b472471d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 33/45] fix: refuse to encode navigation times outside the
 protocol range

---
 libs/egts/egts_sr_pos_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 9d20b43..00b6329 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -145,6 +146,9 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
+	if seconds := e.NavigationTime.Unix() - startDate.Unix(); seconds < 0 || seconds > math.MaxUint32 {
+		return result, fmt.Errorf("Время навигации не представимо в протоколе: %v", e.NavigationTime)
+	}
 	if err = binary.Write(buf, binary.LittleEndian, uint32(e.NavigationTime.Sub(startDate).Seconds())); err != nil {
 		return result, fmt.Errorf("Не удалось записать время навигации: %v", err)
 	}
-- 
2.43.0


From e81400764a265212795e1269c3d8e78389e8f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 34/45] fix: keep SRCD of EGTS_SR_POS_DATA when decoding and
 encoding

---
 libs/egts/egts_sr_pos_data.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 00b6329..3c29acc 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -33,6 +33,8 @@ type SrPosData struct {
 	Source              byte      `json:"SRC"`
 	Altitude            uint32    `json:"ALT"`
 	SourceData          int16     `json:"SRCD"`
+
+	sourceDataExists bool // SRCD передано, в том числе нулевое
 }
 
 //Decode разбирает байты в структуру подзаписи
@@ -127,7 +129,13 @@ func (e *SrPosData) Decode(content []byte) error {
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
 	}
 
-	//TODO: разобраться с разбором SourceData
+	// наличие поля SRCD флагом не обозначается
+	if buf.Len() >= 2 {
+		if err = binary.Read(buf, binary.LittleEndian, &e.SourceData); err != nil {
+			return fmt.Errorf("Не удалось получить данные источника: %v", err)
+		}
+		e.sourceDataExists = true
+	}
 	return err
 }
 
@@ -212,7 +220,12 @@ func (e *SrPosData) Encode() ([]byte, error) {
 		}
 	}
 
-	//TODO: разобраться с записью SourceData
+	if e.sourceDataExists || e.SourceData != 0 {
+		if err = binary.Write(buf, binary.LittleEndian, e.SourceData); err != nil {
+			return result, fmt.Errorf("Не удалось записать данные источника: %v", err)
+		}
+	}
+
 	result = buf.Bytes()
 	return result, nil
 }
-- 
2.43.0


From 747e8fb19387d403ff6ec07d28ef154a2c6dfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 35/45] fix: do not lose a Stop that comes right after the port
 is opened

---
 cli/receiver/server/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 39a4c23..b0ef9a8 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -29,16 +29,18 @@ type Server struct {
 }
 
 func (s *Server) Run() {
+	// Stop, вызванный после открытия порта, не должен быть пропущен
+	s.mu.Lock()
 	l, err := net.Listen("tcp", s.addr)
+	if err == nil {
+		s.l = l
+	}
+	s.mu.Unlock()
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
 	defer l.Close()
 
-	s.mu.Lock()
-	s.l = l
-	s.mu.Unlock()
-
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := l.Accept()
-- 
2.43.0


From 4f5b920ee5a40b071a839d5bc5db3110909c8ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 36/45] fix: quote values of the postgresql connection string

---
 cli/receiver/storage/store/postgresql/connector.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..1f4a9b2 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]), quote(c.config["user"]),
+		quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -66,3 +68,9 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 func (c *Connector) Close() error {
 	return c.connection.Close()
 }
+
+// quote экранирует значение параметра в строке подключения: пустое значение или значение с
+// пробелом без кавычек искажает следующие за ним параметры
+func quote(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
-- 
2.43.0


From 939e182f9027da29152f9f20498d68fb4057ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 37/45] fix: escape user and password in the rabbitmq URI

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 8802647b21a1882302394d6e8d19cb509bae6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 38/45] fix: reconnect to rabbitmq after the broker closes the
 connection

---
 .../storage/store/rabbitmq/connector.go       | 48 ++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index eb663f7..ddb8f6a 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -17,33 +17,41 @@ import (
 	"fmt"
 	"github.com/streadway/amqp"
 	"net/url"
+	"sync"
 )
 
 type Connector struct {
 	connection *amqp.Connection
 	channel    *amqp.Channel
 	config     map[string]string
+	mu         sync.Mutex // защищает соединение и канал при переподключении
+	closed     bool
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
-	var (
-		err error
-	)
 	if cfg == nil {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 
 	c.config = cfg
+	return c.connect()
+}
+
+func (c *Connector) connect() error {
 	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
-	if c.connection, err = amqp.Dial(conStr); err != nil {
+	connection, err := amqp.Dial(conStr)
+	if err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
 
-	if c.channel, err = c.connection.Channel(); err != nil {
+	channel, err := connection.Channel()
+	if err != nil {
+		_ = connection.Close()
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
 
-	return err
+	c.connection, c.channel = connection, channel
+	return nil
 }
 
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
@@ -56,7 +64,25 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
-	if err = c.channel.Publish(
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	err = c.publish(innerPkg)
+	if err == amqp.ErrClosed && !c.closed {
+		// соединение или канал закрыты брокером
+		_ = c.connection.Close()
+		if err = c.connect(); err == nil {
+			err = c.publish(innerPkg)
+		}
+	}
+	if err != nil {
+		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
+	}
+	return nil
+}
+
+func (c *Connector) publish(innerPkg []byte) error {
+	return c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
 		false,
@@ -64,15 +90,15 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		amqp.Publishing{
 			ContentType: "text/plain",
 			Body:        innerPkg,
-		}); err != nil {
-		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
-	}
-	return nil
+		})
 }
 
 func (c *Connector) Close() error {
 	var err error
 	if c != nil {
+		c.mu.Lock()
+		defer c.mu.Unlock()
+		c.closed = true
 		if c.channel != nil {
 			if err = c.channel.Close(); err != nil {
 				return err
-- 
2.43.0


From 08b2748a3b797cc94344fcfaa6dab3771f2085a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 39/45] fix: packet-gen does not accept an ack without record
 statuses

---
 cli/packet-gen/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index b5c0ada..5c7351d 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -230,6 +230,7 @@ func main() {
 		os.Exit(1)
 	}
 
+	confirmed := false
 	for _, rec := range *ackRecords {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
@@ -238,11 +239,17 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					confirmed = true
 				}
 			}
 		}
 	}
 
+	if !confirmed {
+		fmt.Println("Received ack does not confirm any record")
+		os.Exit(1)
+	}
+
 	fmt.Println("Packet sent and processed correct")
 }
 
-- 
2.43.0


From d02621902d3cae5f9d02b6acbcbfdae48f9e396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 40/45] fix: print packets at any log level and report output
 errors

---
 cli/receiver/storage/default.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/default.go b/cli/receiver/storage/default.go
index 7f35fb9..7ade9f9 100644
--- a/cli/receiver/storage/default.go
+++ b/cli/receiver/storage/default.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"encoding/json"
 	log "github.com/sirupsen/logrus"
+	"time"
 )
 
 type LogConnector struct{}
@@ -17,8 +18,19 @@ func (c LogConnector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return err
 	}
 
-	log.WithField("packet", string(jsonPkg)).Info("Export packet")
-	return nil
+	entry := log.WithField("packet", string(jsonPkg))
+	entry.Time = time.Now()
+	entry.Level = log.InfoLevel
+	entry.Message = "Export packet"
+
+	line, err := entry.Bytes()
+	if err != nil {
+		return err
+	}
+
+	// пишем сами: Info отбрасывает пакет при уровне логирования выше INFO и скрывает ошибку записи
+	_, err = entry.Logger.Out.Write(line)
+	return err
 }
 
 func (c LogConnector) Close() error {
-- 
2.43.0


From af83593e6f3d9b596d206b6dc3f33e26507cfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 41/45] fix: pause before accepting again after an accept error

When the process is out of descriptors every Accept fails at once, so the
loop kept a core busy and wrote megabytes of log per second.
---
 cli/receiver/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index b0ef9a8..b61cc18 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -17,6 +17,9 @@ const (
 	egtsPcOk      = 0
 	egtsPcIoError = 155
 	headerLen     = 10
+
+	// пауза перед следующей попыткой принять соединение после ошибки
+	acceptRetryDelay = 50 * time.Millisecond
 )
 
 type Server struct {
@@ -49,6 +52,7 @@ func (s *Server) Run() {
 		}
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
+			time.Sleep(acceptRetryDelay)
 		} else {
 			go s.handleConn(conn)
 		}
-- 
2.43.0


From 32691250c654bd4d42363fb87692063e680ad257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 42/45] fix: refuse bit field values of a wrong width when
 encoding

A flag given as "" or "11" moved all the flags above it: strconv.ParseUint
accepts any number of digits that fits into a byte.
---
 libs/egts/egts_pkg.go                    |  5 ++--
 libs/egts/egts_sr_ad_sensors_data.go     | 29 +++++++-----------------
 libs/egts/egts_sr_counters_data.go       | 15 ++++--------
 libs/egts/egts_sr_ext_pos_data.go        |  7 +++---
 libs/egts/egts_sr_liquid_level_sensor.go |  6 ++---
 libs/egts/egts_sr_pos_data.go            |  2 +-
 libs/egts/egts_sr_state_data.go          |  3 +--
 libs/egts/egts_sr_term_identity.go       |  3 +--
 libs/egts/flags.go                       | 23 +++++++++++++++++++
 libs/egts/service_data_records.go        |  7 +++---
 10 files changed, 49 insertions(+), 51 deletions(-)
 create mode 100644 libs/egts/flags.go

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 09b4ee3..83d19dc 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"math"
-	"strconv"
 )
 
 const DEFAULT_HEADER_LEN = 11
@@ -169,8 +168,8 @@ func (p *Package) Encode() ([]byte, error) {
 	}
 
 	//собираем флаги
-	flagsBits := p.Prefix + p.Route + p.EncryptionAlg + p.Compression + p.Priority
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = parseFlags([]int{2, 1, 2, 1, 2}, p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 631cae4..cecebf2 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrAdSensorsData структура подзаписи типа EGTS_SR_AD_SENSORS_DATA, которая применяется абонентским
@@ -214,16 +213,10 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 
 	buf := new(bytes.Buffer)
 
-	flagsBits := e.DigitalInputsOctetExists8 +
-		e.DigitalInputsOctetExists7 +
-		e.DigitalInputsOctetExists6 +
-		e.DigitalInputsOctetExists5 +
-		e.DigitalInputsOctetExists4 +
-		e.DigitalInputsOctetExists3 +
-		e.DigitalInputsOctetExists2 +
-		e.DigitalInputsOctetExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = parseFlags(singleBitFlags,
+		e.DigitalInputsOctetExists8, e.DigitalInputsOctetExists7, e.DigitalInputsOctetExists6, e.DigitalInputsOctetExists5,
+		e.DigitalInputsOctetExists4, e.DigitalInputsOctetExists3, e.DigitalInputsOctetExists2, e.DigitalInputsOctetExists1)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт цифровых выходов ad_sesor_data: %v", err)
 	}
 
@@ -235,16 +228,10 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists8 +
-		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists6 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = parseFlags(singleBitFlags,
+		e.AnalogSensorFieldExists8, e.AnalogSensorFieldExists7, e.AnalogSensorFieldExists6, e.AnalogSensorFieldExists5,
+		e.AnalogSensorFieldExists4, e.AnalogSensorFieldExists3, e.AnalogSensorFieldExists2, e.AnalogSensorFieldExists1)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
 	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 1aa445a..622e9e3 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrCountersData структура подзаписи типа EGTS_SR_COUNTERS_DATA, которая используется аппаратно-программным
@@ -127,16 +126,10 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 		result []byte
 	)
 	buf := new(bytes.Buffer)
-	flagsBits := c.CounterFieldExists8 +
-		c.CounterFieldExists7 +
-		c.CounterFieldExists6 +
-		c.CounterFieldExists5 +
-		c.CounterFieldExists4 +
-		c.CounterFieldExists3 +
-		c.CounterFieldExists2 +
-		c.CounterFieldExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = parseFlags(singleBitFlags,
+		c.CounterFieldExists8, c.CounterFieldExists7, c.CounterFieldExists6, c.CounterFieldExists5,
+		c.CounterFieldExists4, c.CounterFieldExists3, c.CounterFieldExists2, c.CounterFieldExists1)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов counters_data: %v", err)
 	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index b7ab165..0cec506 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrExtPosData структура подзаписи типа EGTS_SR_EXT_POS_DATA, которая используется абонентским
@@ -92,9 +91,9 @@ func (e *SrExtPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 
 	//байт флагов
-	flagsBits := "000" + e.NavigationSystemFieldExists + e.SatellitesFieldExists +
-		e.PdopFieldExists + e.HdopFieldExists + e.VdopFieldExists
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = parseFlags(singleBitFlags, e.NavigationSystemFieldExists, e.SatellitesFieldExists,
+		e.PdopFieldExists, e.HdopFieldExists, e.VdopFieldExists)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 6e901df..71f1815 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -69,9 +69,9 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	if e.LiquidLevelSensorNumber > 7 {
 		return result, fmt.Errorf("Номер датчика ДУЖ превышает допустимый: %d", e.LiquidLevelSensorNumber)
 	}
-	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
-		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = parseFlags([]int{1, 2, 1, 3}, e.LiquidLevelSensorErrorFlag, e.LiquidLevelSensorValueUnit,
+		e.RawDataFlag, fmt.Sprintf("%03b", e.LiquidLevelSensorNumber))
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3c29acc..27e2ee3 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -172,7 +172,7 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	//байт флагов
-	flags, err = strconv.ParseUint(e.ALTE+e.LOHS+e.LAHS+e.MV+e.BB+e.CS+e.FIX+e.VLD, 2, 8)
+	flags, err = parseFlags(singleBitFlags, e.ALTE, e.LOHS, e.LAHS, e.MV, e.BB, e.CS, e.FIX, e.VLD)
 	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов pos_data: %v", err)
 	}
diff --git a/libs/egts/egts_sr_state_data.go b/libs/egts/egts_sr_state_data.go
index 502cb8c..b0468ea 100644
--- a/libs/egts/egts_sr_state_data.go
+++ b/libs/egts/egts_sr_state_data.go
@@ -3,7 +3,6 @@ package egts
 import (
 	"bytes"
 	"fmt"
-	"strconv"
 )
 
 //SrStateData структура подзаписи типа EGTS_SR_STATE_DATA, которая используется для передачи на
@@ -79,7 +78,7 @@ func (e *SrStateData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать значение напряжения внутренней батареи: %v", err)
 	}
 
-	if flags, err = strconv.ParseUint("00000"+e.NMS+e.IBU+e.BBU, 2, 8); err != nil {
+	if flags, err = parseFlags(singleBitFlags, e.NMS, e.IBU, e.BBU); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов state_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 4d7ef78..640fa3c 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrTermIdentity структура подзаписи типа EGTS_SR_TERM_IDENTITY, которая используется АС при запросе
@@ -128,7 +127,7 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать идентификатор терминал при авторизации")
 	}
 
-	if flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8); err != nil {
+	if flags, err = parseFlags(singleBitFlags, e.MNE, e.BSE, e.NIDE, e.SSRA, e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
 	}
 	// длины полей в протоколе фиксированы
diff --git a/libs/egts/flags.go b/libs/egts/flags.go
new file mode 100644
index 0000000..75245cb
--- /dev/null
+++ b/libs/egts/flags.go
@@ -0,0 +1,23 @@
+package egts
+
+import (
+	"fmt"
+	"strconv"
+)
+
+// parseFlags собирает байт флагов из битовых полей, начиная со старшего. Значение каждого
+// поля должно занимать ровно отведенное ему количество бит, иначе оно изменит соседние поля.
+func parseFlags(widths []int, fields ...string) (uint64, error) {
+	bits := ""
+	for i, field := range fields {
+		if len(field) != widths[i] {
+			return 0, fmt.Errorf("некорректное значение битового поля %d: %q", i, field)
+		}
+		bits += field
+	}
+
+	return strconv.ParseUint(bits, 2, 8)
+}
+
+// все поля байта флагов занимают по одному биту
+var singleBitFlags = []int{1, 1, 1, 1, 1, 1, 1, 1}
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 5dd930c..c476d25 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"math"
-	"strconv"
 )
 
 //ServiceDataRecord запись содержащая мониторинговую информацию
@@ -144,9 +143,9 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		}
 
 		//составной байт
-		flagsBits := sdr.SourceServiceOnDevice + sdr.RecipientServiceOnDevice + sdr.Group + sdr.RecordProcessingPriority +
-			sdr.TimeFieldExists + sdr.EventIDFieldExists + sdr.ObjectIDFieldExists
-		if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+		flags, err = parseFlags([]int{1, 1, 1, 2, 1, 1, 1}, sdr.SourceServiceOnDevice, sdr.RecipientServiceOnDevice, sdr.Group,
+			sdr.RecordProcessingPriority, sdr.TimeFieldExists, sdr.EventIDFieldExists, sdr.ObjectIDFieldExists)
+		if err != nil {
 			return result, fmt.Errorf("Не удалось сгенерировать байт флагов SDR: %v", err)
 		}
 		if err = buf.WriteByte(uint8(flags)); err != nil {
-- 
2.43.0


From dd054e3c040db5b3d56a07907a9e007502206cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 43/45] fix: send the last line of the file whole and skip
 blank lines in send_egts.py

---
 tools/send_egts.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/send_egts.py b/tools/send_egts.py
index 31688cb..9cfa006 100755
--- a/tools/send_egts.py
+++ b/tools/send_egts.py
@@ -21,9 +21,14 @@ if __name__ == '__main__':
 
     with open(args.file) as f:
         for rec in f.readlines():
+            # последняя строка может быть без перевода строки
+            rec = rec.strip()
+            if not rec:
+                continue
+
             print("send: {}".format(rec))
-            package = bytes.fromhex(rec[:-1])            
-            client.send(package)
+            package = bytes.fromhex(rec)
+            client.sendall(package)
 
             rec_package = client.recv(BUFF)
             print("received: {}".format(rec_package.hex()))
-- 
2.43.0


From 0f0d90685d527bcbf5f5b1db82bb125b1f7dd0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 44/45] fix: close connections whose peer does not take its
 replies within conn_ttl

---
 cli/receiver/server/server.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index b61cc18..e60ee17 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -72,6 +72,7 @@ func (s *Server) Stop() error {
 
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
+	conn = &ttlWriter{Conn: conn, ttl: s.ttl}
 
 	var (
 		isPkgSave         bool
@@ -384,6 +385,26 @@ func (r *ttlReader) Read(p []byte) (int, error) {
 	return r.conn.Read(p)
 }
 
+// ttlWriter ограничивает время передачи каждого ответа
+type ttlWriter struct {
+	net.Conn
+	ttl time.Duration
+}
+
+func (w *ttlWriter) Write(p []byte) (int, error) {
+	if w.ttl > 0 {
+		if err := w.SetWriteDeadline(time.Now().Add(w.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	n, err := w.Conn.Write(p)
+	if ne, ok := err.(net.Error); ok && ne.Timeout() {
+		// ответ передан не полностью, продолжать обмен нельзя
+		w.Close()
+	}
+	return n, err
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		serverId: "EGTS_GATE0",
-- 
2.43.0


From 7ac176794bf2bb6320837a53a65d1a2180d82dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 45/45] fix: give up on an nsq producer that does not answer
 any more

---
 cli/receiver/storage/store/nsq/connector.go | 80 ++++++++++++++++++++-
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/storage/store/nsq/connector.go b/cli/receiver/storage/store/nsq/connector.go
index 7468673..b0e7d85 100644
--- a/cli/receiver/storage/store/nsq/connector.go
+++ b/cli/receiver/storage/store/nsq/connector.go
@@ -12,13 +12,89 @@ topic = "receiver"
 
 import (
 	"fmt"
+	"sync"
+	"time"
 
 	"github.com/nsqio/go-nsq"
 	log "github.com/sirupsen/logrus"
 )
 
+// publishTimeout предельное время ожидания ответа nsqd
+const publishTimeout = 30 * time.Second
+
+// producer заменяет nsq.Producer, который перестал отвечать. Если nsqd разрывает соединение
+// сразу после его установки, библиотека может остаться в состоянии, в котором отправка
+// сообщений ожидает бесконечно.
+type producer struct {
+	server string
+	config *nsq.Config
+
+	mu      sync.Mutex
+	current *nsq.Producer
+	stopped bool
+}
+
+func newProducer(server string, config *nsq.Config) (*producer, error) {
+	current, err := nsq.NewProducer(server, config)
+	if err != nil {
+		return nil, err
+	}
+	return &producer{server: server, config: config, current: current}, nil
+}
+
+func (p *producer) Publish(topic string, body []byte) error {
+	p.mu.Lock()
+	current := p.current
+	p.mu.Unlock()
+
+	done := make(chan error, 1)
+	go func() {
+		done <- current.Publish(topic, body)
+	}()
+
+	timer := time.NewTimer(publishTimeout)
+	defer timer.Stop()
+
+	select {
+	case err := <-done:
+		return err
+	case <-timer.C:
+	}
+
+	if err := p.replace(current); err != nil {
+		return err
+	}
+	return fmt.Errorf("нет ответа от nsqd в течение %v", publishTimeout)
+}
+
+// replace останавливает old, что освобождает ожидающие его вызовы, и создает новый nsq.Producer
+func (p *producer) replace(old *nsq.Producer) error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.stopped || p.current != old {
+		return nil
+	}
+	current, err := nsq.NewProducer(p.server, p.config)
+	if err != nil {
+		return err
+	}
+	p.current = current
+	go old.Stop()
+	return nil
+}
+
+func (p *producer) Stop() {
+	p.mu.Lock()
+	p.stopped = true
+	current := p.current
+	p.mu.Unlock()
+
+	current.Stop()
+}
+
 type Connector struct {
-	producer *nsq.Producer
+	producer *producer
 	config   map[string]string
 }
 
@@ -35,7 +111,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 
 	config := nsq.NewConfig()
 
-	if c.producer, err = nsq.NewProducer(c.config["server"], config); err != nil {
+	if c.producer, err = newProducer(c.config["server"], config); err != nil {
 		return fmt.Errorf("Ошибка подключения к nsq шине: %v", err)
 	}
 	return err
-- 
2.43.0

