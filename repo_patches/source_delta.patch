From a853d8de3e293684a14c87f09e52f43cc8bc10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 01/62] fix: mix audio frames at any alignment

---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..4c96cea 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0	// frames are only guaranteed to be 2-byte aligned
+	MOVOU	0(AX), X1
+	PADDSW  X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From 96d2ca228ebd7066cc4d2d3131ab73a5327f9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 02/62] fix: clear the RTP marker bit when sending a DTMF digit
 fails

---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..96801c9 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -138,11 +138,11 @@ func (rs *Session) SendDTMF(digit byte) error {
 		event[2] = byte(dur >> 8)
 		event[3] = byte(dur & 0xff)
 		_, err := rs.Sock.WriteTo(append(rs.Header.Write(rs.obuf), event[:]...), rs.Peer)
+		rs.Header.Mark = false
 		if err != nil {
 			return err
 		}
 		rs.Header.Seq++
-		rs.Header.Mark = false
 		dur += dtmfInterval
 		if dur >= dtmfDuration {
 			break
-- 
2.43.0


From 57ab7d3e39d807f9987683f6f9557d0ef5d863d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 03/62] fix: keep extreme noise generator seeds from
 overflowing

---
 dsp/awgn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/awgn.go b/dsp/awgn.go
index e710204..5220ec7 100644
--- a/dsp/awgn.go
+++ b/dsp/awgn.go
@@ -62,7 +62,8 @@ func NewAWGN_DBM0(idum int64, level float64) (s *AWGN) {
 
 func NewAWGN_DBOV(idum int64, level float64) (s *AWGN) {
 	s = new(AWGN)
-	if idum < 0.0 {
+	idum %= m1 // only the residue matters; keeps extreme seeds from overflowing
+	if idum < 0 {
 		idum = -idum
 	}
 	s.rms = math.Pow(10.0, level/20.0) * 32768.0
-- 
2.43.0


From 5b580484b6708f9a2009a0c7705faa144d6bad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 04/62] fix: refuse URI ports above 65535 instead of wrapping
 them

---
 sip/uri_parse.go | 240 ++++++++++++++++++++++++-----------------------
 sip/uri_parse.rl |   3 +
 2 files changed, 126 insertions(+), 117 deletions(-)

diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..d566616 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -26,7 +26,7 @@ import (
 
 //line uri_parse.rl:25
 
-//line uri_parse.go:27
+//line uri_parse.go:30
 const uri_start int = 1
 const uri_first_final int = 45
 const uri_error int = 0
@@ -53,23 +53,23 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	var hex byte
 
 	
-//line uri_parse.rl:161
+//line uri_parse.rl:164
 
 
 	
-//line uri_parse.go:55
+//line uri_parse.go:61
 	{
 	cs = uri_start
 	}
 
-//line uri_parse.rl:164
+//line uri_parse.rl:167
 	if bytes.IndexByte(data, '@') == -1 {
 		cs = uri_en_uriSansUser;
 	} else {
 		cs = uri_en_uriWithUser;
 	}
 	
-//line uri_parse.go:65
+//line uri_parse.go:73
 	{
 	if p == pe {
 		goto _test_eof
@@ -214,7 +214,7 @@ tr0:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -225,7 +225,7 @@ tr0:
 		
 	goto st2
 tr2:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -240,7 +240,7 @@ tr2:
 			goto _test_eof2
 		}
 	st_case_2:
-//line uri_parse.go:236
+//line uri_parse.go:244
 		switch data[p] {
 		case 43:
 			goto tr2
@@ -276,7 +276,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line uri_parse.go:272
+//line uri_parse.go:280
 		switch data[p] {
 		case 33:
 			goto tr4
@@ -337,7 +337,7 @@ tr11:
 			goto _test_eof4
 		}
 	st_case_4:
-//line uri_parse.go:333
+//line uri_parse.go:341
 		switch data[p] {
 		case 33:
 			goto tr6
@@ -378,7 +378,7 @@ tr5:
 			goto _test_eof5
 		}
 	st_case_5:
-//line uri_parse.go:374
+//line uri_parse.go:382
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -403,7 +403,7 @@ tr10:
 			goto _test_eof6
 		}
 	st_case_6:
-//line uri_parse.go:399
+//line uri_parse.go:407
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -428,7 +428,7 @@ tr8:
 			goto _test_eof7
 		}
 	st_case_7:
-//line uri_parse.go:424
+//line uri_parse.go:432
 		switch data[p] {
 		case 33:
 			goto tr12
@@ -490,7 +490,7 @@ tr18:
 			goto _test_eof8
 		}
 	st_case_8:
-//line uri_parse.go:486
+//line uri_parse.go:494
 		switch data[p] {
 		case 33:
 			goto tr14
@@ -534,7 +534,7 @@ tr13:
 			goto _test_eof9
 		}
 	st_case_9:
-//line uri_parse.go:530
+//line uri_parse.go:538
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -559,7 +559,7 @@ tr17:
 			goto _test_eof10
 		}
 	st_case_10:
-//line uri_parse.go:555
+//line uri_parse.go:563
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -590,7 +590,7 @@ tr16:
 			goto _test_eof11
 		}
 	st_case_11:
-//line uri_parse.go:586
+//line uri_parse.go:594
 		switch data[p] {
 		case 43:
 			goto tr19
@@ -620,7 +620,7 @@ tr19:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -631,7 +631,7 @@ tr19:
 		
 	goto st45
 tr66:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -646,7 +646,7 @@ tr66:
 			goto _test_eof45
 		}
 	st_case_45:
-//line uri_parse.go:642
+//line uri_parse.go:650
 		switch data[p] {
 		case 43:
 			goto tr66
@@ -686,7 +686,7 @@ tr67:
 			goto _test_eof12
 		}
 	st_case_12:
-//line uri_parse.go:682
+//line uri_parse.go:690
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr21
 		}
@@ -694,6 +694,9 @@ tr67:
 tr21:
 //line uri_parse.rl:86
 
+			if uri.Port > 6553 || (uri.Port == 6553 && data[p] > '5') {
+				return nil, errors.New(fmt.Sprintf("Port out of range in URI at pos %d: %s", p, data))
+			}
 			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
 		
 	goto st46
@@ -702,7 +705,7 @@ tr21:
 			goto _test_eof46
 		}
 	st_case_46:
-//line uri_parse.go:698
+//line uri_parse.go:709
 		switch data[p] {
 		case 59:
 			goto st13
@@ -720,23 +723,23 @@ tr68:
 		
 	goto st13
 tr74:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
 tr79:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -746,7 +749,7 @@ tr79:
 			goto _test_eof13
 		}
 	st_case_13:
-//line uri_parse.go:742
+//line uri_parse.go:753
 		switch data[p] {
 		case 33:
 			goto tr22
@@ -797,7 +800,7 @@ tr22:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -813,7 +816,7 @@ tr22:
 			goto _test_eof47
 		}
 	st_case_47:
-//line uri_parse.go:809
+//line uri_parse.go:820
 		switch data[p] {
 		case 33:
 			goto tr72
@@ -855,7 +858,7 @@ tr23:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -866,7 +869,7 @@ tr23:
 			goto _test_eof14
 		}
 	st_case_14:
-//line uri_parse.go:862
+//line uri_parse.go:873
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -891,7 +894,7 @@ tr24:
 			goto _test_eof15
 		}
 	st_case_15:
-//line uri_parse.go:887
+//line uri_parse.go:898
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -906,7 +909,7 @@ tr24:
 		}
 		goto st0
 tr75:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -917,7 +920,7 @@ tr75:
 			goto _test_eof16
 		}
 	st_case_16:
-//line uri_parse.go:913
+//line uri_parse.go:924
 		switch data[p] {
 		case 33:
 			goto tr26
@@ -979,7 +982,7 @@ tr29:
 			goto _test_eof48
 		}
 	st_case_48:
-//line uri_parse.go:975
+//line uri_parse.go:986
 		switch data[p] {
 		case 33:
 			goto tr77
@@ -1025,7 +1028,7 @@ tr27:
 			goto _test_eof17
 		}
 	st_case_17:
-//line uri_parse.go:1021
+//line uri_parse.go:1032
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1050,7 +1053,7 @@ tr28:
 			goto _test_eof18
 		}
 	st_case_18:
-//line uri_parse.go:1046
+//line uri_parse.go:1057
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1071,45 +1074,45 @@ tr69:
 		
 	goto st19
 tr76:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr80:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr83:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
 tr87:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -1119,7 +1122,7 @@ tr87:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1115
+//line uri_parse.go:1126
 		switch data[p] {
 		case 33:
 			goto tr30
@@ -1174,7 +1177,7 @@ tr30:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1190,7 +1193,7 @@ tr30:
 			goto _test_eof49
 		}
 	st_case_49:
-//line uri_parse.go:1186
+//line uri_parse.go:1197
 		switch data[p] {
 		case 33:
 			goto tr81
@@ -1232,7 +1235,7 @@ tr31:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1243,7 +1246,7 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1239
+//line uri_parse.go:1250
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1268,7 +1271,7 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1264
+//line uri_parse.go:1275
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1283,7 +1286,7 @@ tr32:
 		}
 		goto st0
 tr84:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1294,7 +1297,7 @@ tr84:
 			goto _test_eof22
 		}
 	st_case_22:
-//line uri_parse.go:1290
+//line uri_parse.go:1301
 		switch data[p] {
 		case 33:
 			goto tr34
@@ -1360,7 +1363,7 @@ tr37:
 			goto _test_eof50
 		}
 	st_case_50:
-//line uri_parse.go:1356
+//line uri_parse.go:1367
 		switch data[p] {
 		case 33:
 			goto tr85
@@ -1406,7 +1409,7 @@ tr35:
 			goto _test_eof23
 		}
 	st_case_23:
-//line uri_parse.go:1402
+//line uri_parse.go:1413
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1431,7 +1434,7 @@ tr36:
 			goto _test_eof24
 		}
 	st_case_24:
-//line uri_parse.go:1427
+//line uri_parse.go:1438
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1471,7 +1474,7 @@ tr38:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1482,7 +1485,7 @@ tr38:
 		
 	goto st26
 tr39:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1497,7 +1500,7 @@ tr39:
 			goto _test_eof26
 		}
 	st_case_26:
-//line uri_parse.go:1493
+//line uri_parse.go:1504
 		switch data[p] {
 		case 46:
 			goto tr39
@@ -1528,7 +1531,7 @@ tr40:
 			goto _test_eof51
 		}
 	st_case_51:
-//line uri_parse.go:1524
+//line uri_parse.go:1535
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1553,7 +1556,7 @@ tr41:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1564,7 +1567,7 @@ tr41:
 		
 	goto st28
 tr42:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1579,7 +1582,7 @@ tr42:
 			goto _test_eof28
 		}
 	st_case_28:
-//line uri_parse.go:1575
+//line uri_parse.go:1586
 		switch data[p] {
 		case 43:
 			goto tr42
@@ -1615,7 +1618,7 @@ tr43:
 			goto _test_eof29
 		}
 	st_case_29:
-//line uri_parse.go:1611
+//line uri_parse.go:1622
 		switch data[p] {
 		case 43:
 			goto tr44
@@ -1645,7 +1648,7 @@ tr44:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1656,7 +1659,7 @@ tr44:
 		
 	goto st52
 tr89:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1671,7 +1674,7 @@ tr89:
 			goto _test_eof52
 		}
 	st_case_52:
-//line uri_parse.go:1667
+//line uri_parse.go:1678
 		switch data[p] {
 		case 43:
 			goto tr89
@@ -1711,7 +1714,7 @@ tr90:
 			goto _test_eof30
 		}
 	st_case_30:
-//line uri_parse.go:1707
+//line uri_parse.go:1718
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr46
 		}
@@ -1719,6 +1722,9 @@ tr90:
 tr46:
 //line uri_parse.rl:86
 
+			if uri.Port > 6553 || (uri.Port == 6553 && data[p] > '5') {
+				return nil, errors.New(fmt.Sprintf("Port out of range in URI at pos %d: %s", p, data))
+			}
 			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
 		
 	goto st53
@@ -1727,7 +1733,7 @@ tr46:
 			goto _test_eof53
 		}
 	st_case_53:
-//line uri_parse.go:1723
+//line uri_parse.go:1737
 		switch data[p] {
 		case 59:
 			goto st31
@@ -1745,23 +1751,23 @@ tr91:
 		
 	goto st31
 tr97:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st31
 tr102:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -1771,7 +1777,7 @@ tr102:
 			goto _test_eof31
 		}
 	st_case_31:
-//line uri_parse.go:1767
+//line uri_parse.go:1781
 		switch data[p] {
 		case 33:
 			goto tr47
@@ -1822,7 +1828,7 @@ tr47:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1838,7 +1844,7 @@ tr47:
 			goto _test_eof54
 		}
 	st_case_54:
-//line uri_parse.go:1834
+//line uri_parse.go:1848
 		switch data[p] {
 		case 33:
 			goto tr95
@@ -1880,7 +1886,7 @@ tr48:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1891,7 +1897,7 @@ tr48:
 			goto _test_eof32
 		}
 	st_case_32:
-//line uri_parse.go:1887
+//line uri_parse.go:1901
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1916,7 +1922,7 @@ tr49:
 			goto _test_eof33
 		}
 	st_case_33:
-//line uri_parse.go:1912
+//line uri_parse.go:1926
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1931,7 +1937,7 @@ tr49:
 		}
 		goto st0
 tr98:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1942,7 +1948,7 @@ tr98:
 			goto _test_eof34
 		}
 	st_case_34:
-//line uri_parse.go:1938
+//line uri_parse.go:1952
 		switch data[p] {
 		case 33:
 			goto tr51
@@ -2004,7 +2010,7 @@ tr54:
 			goto _test_eof55
 		}
 	st_case_55:
-//line uri_parse.go:2000
+//line uri_parse.go:2014
 		switch data[p] {
 		case 33:
 			goto tr100
@@ -2050,7 +2056,7 @@ tr52:
 			goto _test_eof35
 		}
 	st_case_35:
-//line uri_parse.go:2046
+//line uri_parse.go:2060
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2075,7 +2081,7 @@ tr53:
 			goto _test_eof36
 		}
 	st_case_36:
-//line uri_parse.go:2071
+//line uri_parse.go:2085
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2096,45 +2102,45 @@ tr92:
 		
 	goto st37
 tr99:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr103:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr106:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st37
 tr110:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -2144,7 +2150,7 @@ tr110:
 			goto _test_eof37
 		}
 	st_case_37:
-//line uri_parse.go:2140
+//line uri_parse.go:2154
 		switch data[p] {
 		case 33:
 			goto tr55
@@ -2199,7 +2205,7 @@ tr55:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2215,7 +2221,7 @@ tr55:
 			goto _test_eof56
 		}
 	st_case_56:
-//line uri_parse.go:2211
+//line uri_parse.go:2225
 		switch data[p] {
 		case 33:
 			goto tr104
@@ -2257,7 +2263,7 @@ tr56:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2268,7 +2274,7 @@ tr56:
 			goto _test_eof38
 		}
 	st_case_38:
-//line uri_parse.go:2264
+//line uri_parse.go:2278
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2293,7 +2299,7 @@ tr57:
 			goto _test_eof39
 		}
 	st_case_39:
-//line uri_parse.go:2289
+//line uri_parse.go:2303
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2308,7 +2314,7 @@ tr57:
 		}
 		goto st0
 tr107:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -2319,7 +2325,7 @@ tr107:
 			goto _test_eof40
 		}
 	st_case_40:
-//line uri_parse.go:2315
+//line uri_parse.go:2329
 		switch data[p] {
 		case 33:
 			goto tr59
@@ -2385,7 +2391,7 @@ tr62:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2381
+//line uri_parse.go:2395
 		switch data[p] {
 		case 33:
 			goto tr108
@@ -2431,7 +2437,7 @@ tr60:
 			goto _test_eof41
 		}
 	st_case_41:
-//line uri_parse.go:2427
+//line uri_parse.go:2441
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2456,7 +2462,7 @@ tr61:
 			goto _test_eof42
 		}
 	st_case_42:
-//line uri_parse.go:2452
+//line uri_parse.go:2466
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2496,7 +2502,7 @@ tr63:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2507,7 +2513,7 @@ tr63:
 		
 	goto st44
 tr64:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2522,7 +2528,7 @@ tr64:
 			goto _test_eof44
 		}
 	st_case_44:
-//line uri_parse.go:2518
+//line uri_parse.go:2532
 		switch data[p] {
 		case 46:
 			goto tr64
@@ -2553,7 +2559,7 @@ tr65:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2549
+//line uri_parse.go:2563
 		switch data[p] {
 		case 58:
 			goto st30
@@ -2630,53 +2636,53 @@ tr65:
 			uri.Host = string(buf[0:amt])
 		
 		case 47, 54:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 49, 56:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 		case 48, 55:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 50, 57:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2665
+//line uri_parse.go:2679
 		}
 	}
 
 	_out: {}
 	}
 
-//line uri_parse.rl:170
+//line uri_parse.rl:173
 
 	if cs < uri_first_final {
 		if p == pe {
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..3f4c163 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -84,6 +84,9 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		}
 
 		action port {
+			if uri.Port > 6553 || (uri.Port == 6553 && fc > '5') {
+				return nil, errors.New(fmt.Sprintf("Port out of range in URI at pos %d: %s", p, data))
+			}
 			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
 		}
 
-- 
2.43.0


From 23626c31dbed3884e9e3fef04d5290b3dad651c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 05/62] fix: escape URI header names and values with their own
 character set

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..af1e8bc 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -50,9 +50,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From b02d73d8ef9f5ae0993f2caa76cad663e9666905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 06/62] fix: accept extension headers whose name begins a known
 header name

---
 sip/msg_parse.go | 346 ++++++++++++++++++++++++-----------------------
 sip/sip.rl       |   2 +-
 2 files changed, 177 insertions(+), 171 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..b5682dd 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -28,7 +28,7 @@ import (
 
 //line msg_parse.rl:26
 
-//line msg_parse.go:28
+//line msg_parse.go:32
 const msg_start int = 1
 const msg_first_final int = 765
 const msg_error int = 0
@@ -74,14 +74,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	
 //line msg_parse.rl:52
 	
-//line msg_parse.go:71
+//line msg_parse.go:78
 	{
 	cs = msg_start
 	}
 
 //line msg_parse.rl:53
 	
-//line msg_parse.go:76
+//line msg_parse.go:85
 	{
 	var _widec int16
 	if p == pe {
@@ -1698,7 +1698,7 @@ tr416:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1693
+//line msg_parse.go:1702
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1714,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1709
+//line msg_parse.go:1718
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1761,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1756
+//line msg_parse.go:1765
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1777,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1772
+//line msg_parse.go:1781
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1794,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1789
+//line msg_parse.go:1798
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1846,7 +1846,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1841
+//line msg_parse.go:1850
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1874,7 +1874,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1869
+//line msg_parse.go:1878
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1900,7 +1900,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1895
+//line msg_parse.go:1904
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1914,7 +1914,7 @@ tr16:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:1909
+//line msg_parse.go:1918
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1927,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1922
+//line msg_parse.go:1931
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2064,7 +2064,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2059
+//line msg_parse.go:2068
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2092,7 +2092,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2087
+//line msg_parse.go:2096
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2120,7 +2120,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2115
+//line msg_parse.go:2124
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2136,7 +2136,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2131
+//line msg_parse.go:2140
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2152,7 +2152,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2147
+//line msg_parse.go:2156
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2246,7 +2246,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2241
+//line msg_parse.go:2250
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2320,7 +2320,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2315
+//line msg_parse.go:2324
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2345,7 +2345,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2340
+//line msg_parse.go:2349
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2382,7 +2382,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2377
+//line msg_parse.go:2386
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2410,7 +2410,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2405
+//line msg_parse.go:2414
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2438,7 +2438,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2433
+//line msg_parse.go:2442
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2466,7 +2466,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2461
+//line msg_parse.go:2470
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2494,7 +2494,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2489
+//line msg_parse.go:2498
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2548,7 +2548,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2543
+//line msg_parse.go:2552
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2683,7 +2683,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2678
+//line msg_parse.go:2687
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2713,7 +2713,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2708
+//line msg_parse.go:2717
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2955,7 +2955,7 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2950
+//line msg_parse.go:2959
 		if data[p] == 10 {
 			goto tr65
 		}
@@ -2969,7 +2969,7 @@ tr65:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:2964
+//line msg_parse.go:2973
 		goto st0
 tr52:
 //line sip.rl:228
@@ -2982,7 +2982,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2977
+//line msg_parse.go:2986
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3085,7 +3085,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3080
+//line msg_parse.go:3089
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3141,7 +3141,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3136
+//line msg_parse.go:3145
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3173,7 +3173,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3168
+//line msg_parse.go:3177
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3210,7 +3210,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3205
+//line msg_parse.go:3214
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3238,7 +3238,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3233
+//line msg_parse.go:3242
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3266,7 +3266,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3261
+//line msg_parse.go:3270
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3294,7 +3294,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3289
+//line msg_parse.go:3298
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3322,7 +3322,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3317
+//line msg_parse.go:3326
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3350,7 +3350,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3345
+//line msg_parse.go:3354
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3367,7 +3367,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3362
+//line msg_parse.go:3371
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3591,7 +3591,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3586
+//line msg_parse.go:3595
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3652,7 +3652,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3647
+//line msg_parse.go:3656
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3686,7 +3686,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3681
+//line msg_parse.go:3690
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3772,7 +3772,7 @@ tr122:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:3767
+//line msg_parse.go:3776
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3818,7 +3818,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3813
+//line msg_parse.go:3822
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3889,7 +3889,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3884
+//line msg_parse.go:3893
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,7 +3952,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3947
+//line msg_parse.go:3956
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4075,7 +4075,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4070
+//line msg_parse.go:4079
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4152,7 +4152,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4147
+//line msg_parse.go:4156
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4208,7 +4208,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4203
+//line msg_parse.go:4212
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4242,7 +4242,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4237
+//line msg_parse.go:4246
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4279,7 +4279,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4274
+//line msg_parse.go:4283
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4307,7 +4307,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4302
+//line msg_parse.go:4311
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4335,7 +4335,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4330
+//line msg_parse.go:4339
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4363,7 +4363,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4358
+//line msg_parse.go:4367
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4391,7 +4391,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4386
+//line msg_parse.go:4395
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4419,7 +4419,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4414
+//line msg_parse.go:4423
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4436,7 +4436,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4431
+//line msg_parse.go:4440
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4522,7 +4522,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4517
+//line msg_parse.go:4526
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4606,7 +4606,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4601
+//line msg_parse.go:4610
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4661,7 +4661,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4656
+//line msg_parse.go:4665
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4691,7 +4691,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4686
+//line msg_parse.go:4695
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4749,7 +4749,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4744
+//line msg_parse.go:4753
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4804,7 +4804,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4799
+//line msg_parse.go:4808
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4834,7 +4834,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4829
+//line msg_parse.go:4838
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4892,7 +4892,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4887
+//line msg_parse.go:4896
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4950,7 +4950,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4945
+//line msg_parse.go:4954
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4997,7 +4997,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4992
+//line msg_parse.go:5001
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5050,7 +5050,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5045
+//line msg_parse.go:5054
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5084,7 +5084,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5079
+//line msg_parse.go:5088
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5158,7 +5158,7 @@ tr199:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:5153
+//line msg_parse.go:5162
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5204,7 +5204,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5199
+//line msg_parse.go:5208
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5235,7 +5235,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5230
+//line msg_parse.go:5239
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5297,7 +5297,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5292
+//line msg_parse.go:5301
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5405,7 +5405,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5400
+//line msg_parse.go:5409
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5457,7 +5457,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5452
+//line msg_parse.go:5461
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5524,7 +5524,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5519
+//line msg_parse.go:5528
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5555,7 +5555,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5550
+//line msg_parse.go:5559
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5591,7 +5591,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5586
+//line msg_parse.go:5595
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5713,7 +5713,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5708
+//line msg_parse.go:5717
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5818,7 +5818,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5813
+//line msg_parse.go:5822
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5902,7 +5902,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5897
+//line msg_parse.go:5906
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5963,7 +5963,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5958
+//line msg_parse.go:5967
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5997,7 +5997,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5992
+//line msg_parse.go:6001
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6075,7 +6075,7 @@ tr246:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:6070
+//line msg_parse.go:6079
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6121,7 +6121,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6116
+//line msg_parse.go:6125
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6192,7 +6192,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6187
+//line msg_parse.go:6196
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,7 +6255,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6250
+//line msg_parse.go:6259
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6378,7 +6378,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6373
+//line msg_parse.go:6382
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6455,7 +6455,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6450
+//line msg_parse.go:6459
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6511,7 +6511,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6506
+//line msg_parse.go:6515
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6545,7 +6545,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6540
+//line msg_parse.go:6549
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6582,7 +6582,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6577
+//line msg_parse.go:6586
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6610,7 +6610,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6605
+//line msg_parse.go:6614
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6638,7 +6638,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6633
+//line msg_parse.go:6642
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6666,7 +6666,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6661
+//line msg_parse.go:6670
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6694,7 +6694,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6689
+//line msg_parse.go:6698
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6722,7 +6722,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6717
+//line msg_parse.go:6726
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6739,7 +6739,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6734
+//line msg_parse.go:6743
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6825,7 +6825,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6820
+//line msg_parse.go:6829
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6926,7 +6926,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6921
+//line msg_parse.go:6930
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6966,7 +6966,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6961
+//line msg_parse.go:6970
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6987,7 +6987,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6982
+//line msg_parse.go:6991
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7084,7 +7084,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7079
+//line msg_parse.go:7088
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7177,7 +7177,7 @@ tr293:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:7172
+//line msg_parse.go:7181
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7391,7 +7391,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7386
+//line msg_parse.go:7395
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,7 +7433,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7428
+//line msg_parse.go:7437
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7495,7 +7495,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7490
+//line msg_parse.go:7499
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7559,7 +7559,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7554
+//line msg_parse.go:7563
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7591,7 +7591,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7586
+//line msg_parse.go:7595
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7651,7 +7651,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7646
+//line msg_parse.go:7655
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7719,7 +7719,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7714
+//line msg_parse.go:7723
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7775,7 +7775,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7770
+//line msg_parse.go:7779
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7805,7 +7805,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7800
+//line msg_parse.go:7809
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7842,7 +7842,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7837
+//line msg_parse.go:7846
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7870,7 +7870,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7865
+//line msg_parse.go:7874
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7898,7 +7898,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7893
+//line msg_parse.go:7902
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7926,7 +7926,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7921
+//line msg_parse.go:7930
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7954,7 +7954,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7949
+//line msg_parse.go:7958
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7982,7 +7982,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7977
+//line msg_parse.go:7986
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7999,7 +7999,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7994
+//line msg_parse.go:8003
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8141,7 +8141,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8136
+//line msg_parse.go:8145
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8232,7 +8232,7 @@ tr375:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:8227
+//line msg_parse.go:8236
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8343,7 +8343,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8338
+//line msg_parse.go:8347
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8388,7 +8388,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8383
+//line msg_parse.go:8392
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8454,7 +8454,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8449
+//line msg_parse.go:8458
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8505,7 +8505,7 @@ tr361:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:8500
+//line msg_parse.go:8509
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8544,7 +8544,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8539
+//line msg_parse.go:8548
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8606,7 +8606,7 @@ tr366:
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:8601
+//line msg_parse.go:8610
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8663,7 +8663,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8658
+//line msg_parse.go:8667
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8729,7 +8729,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8724
+//line msg_parse.go:8733
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8774,7 +8774,7 @@ tr371:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:8769
+//line msg_parse.go:8778
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8813,7 +8813,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8808
+//line msg_parse.go:8817
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8865,7 +8865,7 @@ tr367:
 			goto _test_eof775
 		}
 	st_case_775:
-//line msg_parse.go:8860
+//line msg_parse.go:8869
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8944,7 +8944,7 @@ tr357:
 			goto _test_eof776
 		}
 	st_case_776:
-//line msg_parse.go:8939
+//line msg_parse.go:8948
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9037,7 +9037,7 @@ tr368:
 			goto _test_eof777
 		}
 	st_case_777:
-//line msg_parse.go:9032
+//line msg_parse.go:9041
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9054,7 +9054,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9049
+//line msg_parse.go:9058
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9116,7 +9116,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9111
+//line msg_parse.go:9120
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9260,7 +9260,7 @@ tr386:
 			goto _test_eof778
 		}
 	st_case_778:
-//line msg_parse.go:9255
+//line msg_parse.go:9264
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9338,7 +9338,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9333
+//line msg_parse.go:9342
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9449,7 +9449,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9444
+//line msg_parse.go:9453
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9503,7 +9503,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9498
+//line msg_parse.go:9507
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9519,7 +9519,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9514
+//line msg_parse.go:9523
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9535,7 +9535,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9530
+//line msg_parse.go:9539
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9551,7 +9551,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9546
+//line msg_parse.go:9555
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9567,7 +9567,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9562
+//line msg_parse.go:9571
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9583,7 +9583,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9578
+//line msg_parse.go:9587
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9606,7 +9606,7 @@ tr403:
 			goto _test_eof779
 		}
 	st_case_779:
-//line msg_parse.go:9601
+//line msg_parse.go:9610
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9619,7 +9619,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9614
+//line msg_parse.go:9623
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9642,12 +9642,18 @@ tr394:
 		}
 	st_case_273:
 		switch data[p] {
+		case 9:
+			goto tr406
+		case 32:
+			goto tr406
 		case 33:
 			goto st274
 		case 37:
 			goto st274
 		case 39:
 			goto st274
+		case 58:
+			goto tr407
 		case 126:
 			goto st274
 		}
@@ -9729,7 +9735,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9724
+//line msg_parse.go:9739
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9750,7 +9756,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9745
+//line msg_parse.go:9760
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9793,7 +9799,7 @@ value=nil
 			goto _test_eof780
 		}
 	st_case_780:
-//line msg_parse.go:9788
+//line msg_parse.go:9803
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9891,7 +9897,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9886
+//line msg_parse.go:9901
 		switch data[p] {
 		case 65:
 			goto st282
@@ -10148,7 +10154,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10143
+//line msg_parse.go:10158
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10313,7 +10319,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10323
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10397,7 +10403,7 @@ tr1001:
 			goto _test_eof781
 		}
 	st_case_781:
-//line msg_parse.go:10392
+//line msg_parse.go:10407
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11637,7 +11643,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11632
+//line msg_parse.go:11647
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11792,7 +11798,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11787
+//line msg_parse.go:11802
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -12013,7 +12019,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12008
+//line msg_parse.go:12023
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12056,7 +12062,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12051
+//line msg_parse.go:12066
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12626,7 +12632,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12621
+//line msg_parse.go:12636
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12814,7 +12820,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12809
+//line msg_parse.go:12824
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12896,7 +12902,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12891
+//line msg_parse.go:12906
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13402,7 +13408,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13397
+//line msg_parse.go:13412
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13758,7 +13764,7 @@ tr706:
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13753
+//line msg_parse.go:13768
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14019,7 +14025,7 @@ tr725:
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14014
+//line msg_parse.go:14029
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14369,7 +14375,7 @@ tr753:
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14364
+//line msg_parse.go:14379
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17845,7 +17851,7 @@ tr753:
 
 	{goto st273 }
 
-//line msg_parse.go:17840
+//line msg_parse.go:17855
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..b3fcee6 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -529,7 +529,7 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 # responsibility of the person using Msg.Headers to do case-insensitive
 # string comparisons.
 value   := hval <: CRLF @value @goto_header;
-xheader := token %name HCOLON <: any @{value=nil} @hold @goto_value;
+xheader := tokenc* %name HCOLON <: any @{value=nil} @hold @goto_value;
 sheader  = cheader <: CRLF @goto_header
          | aname $!gxh HCOLON <: any @{value=nil} @hold @goto_addr
          | sname $!gxh HCOLON <: any @hold @goto_value
-- 
2.43.0


From bdf36419fedbcbe784f6800764be1835076ac734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 07/62] fix: take the compact header l as Content-Length alone

---
 sip/msg_parse.go | 38 ++++----------------------------------
 sip/sip.rl       |  6 +++---
 2 files changed, 7 insertions(+), 37 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index b5682dd..ab53266 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -13722,49 +13722,19 @@ clen=0
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
 	goto st508
 tr706:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
 	goto st508
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13768
+//line msg_parse.go:13738
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14025,7 +13995,7 @@ tr725:
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14029
+//line msg_parse.go:13999
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14375,7 +14345,7 @@ tr753:
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14379
+//line msg_parse.go:14349
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17851,7 +17821,7 @@ tr753:
 
 	{goto st273 }
 
-//line msg_parse.go:17855
+//line msg_parse.go:17825
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index b3fcee6..a182789 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -492,9 +492,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From ba391b96bbdf6ec92758ec0b89ee536039451fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 08/62] fix: refuse numbers that do not fit instead of wrapping
 them when parsing messages

---
 sip/msg_parse.go | 865 +++++++++++++++++++++++++----------------------
 sip/msg_parse.rl |   6 +
 sip/sip.rl       |  26 +-
 3 files changed, 496 insertions(+), 401 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index ab53266..ff68abc 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1691,7 +1691,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 		goto st0
 tr416:
-//line sip.rl:171
+//line sip.rl:180
 
 	p--
 
@@ -1783,7 +1783,7 @@ tr5:
 		}
 		goto st4
 tr7:
-//line sip.rl:124
+//line sip.rl:130
 
 	msg.Request, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -1838,6 +1838,9 @@ tr7:
 tr12:
 //line sip.rl:116
 
+	if msg.VersionMajor > 25 || (msg.VersionMajor == 25 && data[p] > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
 
 	goto st10
@@ -1846,7 +1849,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1850
+//line msg_parse.go:1853
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1864,8 +1867,11 @@ tr12:
 		}
 		goto st0
 tr14:
-//line sip.rl:120
+//line sip.rl:123
 
+	if msg.VersionMinor > 25 || (msg.VersionMinor == 25 && data[p] > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
 
 	goto st12
@@ -1874,7 +1880,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1878
+//line msg_parse.go:1884
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1890,7 +1896,7 @@ tr14:
 		}
 		goto st0
 tr42:
-//line sip.rl:133
+//line sip.rl:139
 
 	msg.Phrase = string(buf[0:amt])
 
@@ -1900,13 +1906,13 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1904
+//line msg_parse.go:1910
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st765
 	st765:
@@ -1914,7 +1920,7 @@ tr16:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:1918
+//line msg_parse.go:1924
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1933,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1931
+//line msg_parse.go:1937
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2056,6 +2062,9 @@ tr2:
 tr20:
 //line sip.rl:116
 
+	if msg.VersionMajor > 25 || (msg.VersionMajor == 25 && data[p] > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
 
 	goto st18
@@ -2064,7 +2073,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2068
+//line msg_parse.go:2077
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2082,8 +2091,11 @@ tr20:
 		}
 		goto st0
 tr22:
-//line sip.rl:120
+//line sip.rl:123
 
+	if msg.VersionMinor > 25 || (msg.VersionMinor == 25 && data[p] > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
 
 	goto st20
@@ -2092,7 +2104,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2096
+//line msg_parse.go:2108
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2110,7 +2122,7 @@ tr22:
 		}
 		goto st0
 tr24:
-//line sip.rl:129
+//line sip.rl:135
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2120,13 +2132,13 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2124
+//line msg_parse.go:2136
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
 		goto st0
 tr25:
-//line sip.rl:129
+//line sip.rl:135
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2136,13 +2148,13 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2140
+//line msg_parse.go:2152
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
 		goto st0
 tr26:
-//line sip.rl:129
+//line sip.rl:135
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2152,7 +2164,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2156
+//line msg_parse.go:2168
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2246,7 +2258,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2250
+//line msg_parse.go:2262
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2320,7 +2332,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2324
+//line msg_parse.go:2336
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2345,7 +2357,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2349
+//line msg_parse.go:2361
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2382,7 +2394,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2386
+//line msg_parse.go:2398
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2410,7 +2422,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2414
+//line msg_parse.go:2426
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2438,7 +2450,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2442
+//line msg_parse.go:2454
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2466,7 +2478,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2470
+//line msg_parse.go:2482
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2494,7 +2506,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2498
+//line msg_parse.go:2510
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2548,7 +2560,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2552
+//line msg_parse.go:2564
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2673,7 +2685,7 @@ tr45:
 		}
 		goto st0
 tr49:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2683,7 +2695,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2687
+//line msg_parse.go:2699
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2703,7 +2715,7 @@ tr49:
 		}
 		goto st0
 tr50:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2713,7 +2725,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2717
+//line msg_parse.go:2729
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2945,7 +2957,7 @@ tr50:
 		}
 		goto st0
 tr51:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2955,13 +2967,13 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2959
+//line msg_parse.go:2971
 		if data[p] == 10 {
 			goto tr65
 		}
 		goto st0
 tr65:
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st766
 	st766:
@@ -2969,10 +2981,10 @@ tr65:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:2973
+//line msg_parse.go:2985
 		goto st0
 tr52:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2982,7 +2994,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2986
+//line msg_parse.go:2998
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3085,7 +3097,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3089
+//line msg_parse.go:3101
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3141,7 +3153,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3145
+//line msg_parse.go:3157
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3173,7 +3185,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3177
+//line msg_parse.go:3189
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3210,7 +3222,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3214
+//line msg_parse.go:3226
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3238,7 +3250,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3242
+//line msg_parse.go:3254
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3266,7 +3278,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3270
+//line msg_parse.go:3282
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3294,7 +3306,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3298
+//line msg_parse.go:3310
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3322,7 +3334,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3326
+//line msg_parse.go:3338
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3350,7 +3362,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3354
+//line msg_parse.go:3366
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3367,7 +3379,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3371
+//line msg_parse.go:3383
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3591,7 +3603,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3595
+//line msg_parse.go:3607
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3642,7 +3654,7 @@ tr93:
 		}
 		goto st0
 tr94:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3652,7 +3664,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3656
+//line msg_parse.go:3668
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3676,7 +3688,7 @@ tr94:
 		}
 		goto st0
 tr96:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3686,7 +3698,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3690
+//line msg_parse.go:3702
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3714,17 +3726,17 @@ tr96:
 		}
 		goto st0
 tr106:
-//line sip.rl:167
+//line sip.rl:176
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -3733,11 +3745,11 @@ tr106:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:283
  {goto st103 } 
 	goto st767
 tr110:
-//line sip.rl:167
+//line sip.rl:176
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
@@ -3750,21 +3762,21 @@ tr110:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:284
  {goto st68 } 
 	goto st767
 tr122:
-//line sip.rl:167
+//line sip.rl:176
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st767
 	st767:
@@ -3772,7 +3784,7 @@ tr122:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:3776
+//line msg_parse.go:3788
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3808,7 +3820,7 @@ tr122:
 		}
 		goto tr106
 tr97:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3818,7 +3830,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3822
+//line msg_parse.go:3834
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3879,7 +3891,7 @@ tr97:
 		}
 		goto tr110
 tr98:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3889,7 +3901,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3893
+//line msg_parse.go:3905
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,7 +3964,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3956
+//line msg_parse.go:3968
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4065,7 +4077,7 @@ tr114:
 		}
 		goto st0
 tr99:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -4075,7 +4087,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4079
+//line msg_parse.go:4091
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4152,7 +4164,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4156
+//line msg_parse.go:4168
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4208,7 +4220,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4212
+//line msg_parse.go:4224
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4242,7 +4254,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4246
+//line msg_parse.go:4258
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4279,7 +4291,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4283
+//line msg_parse.go:4295
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4307,7 +4319,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4311
+//line msg_parse.go:4323
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4335,7 +4347,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4339
+//line msg_parse.go:4351
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4363,7 +4375,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4367
+//line msg_parse.go:4379
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4391,7 +4403,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4395
+//line msg_parse.go:4407
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4419,7 +4431,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4423
+//line msg_parse.go:4435
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4436,7 +4448,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4440
+//line msg_parse.go:4452
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4512,7 +4524,7 @@ tr141:
 		}
 		goto st0
 tr100:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -4522,7 +4534,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4526
+//line msg_parse.go:4538
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4606,7 +4618,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4610
+//line msg_parse.go:4622
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4651,7 +4663,7 @@ tr146:
 		}
 		goto st0
 tr147:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -4661,7 +4673,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4665
+//line msg_parse.go:4677
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4681,7 +4693,7 @@ tr147:
 		}
 		goto st0
 tr149:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -4691,7 +4703,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4695
+//line msg_parse.go:4707
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4749,7 +4761,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4753
+//line msg_parse.go:4765
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4794,7 +4806,7 @@ tr154:
 		}
 		goto st0
 tr156:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -4804,7 +4816,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4808
+//line msg_parse.go:4820
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4824,7 +4836,7 @@ tr156:
 		}
 		goto st0
 tr158:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -4834,7 +4846,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4838
+//line msg_parse.go:4850
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4892,7 +4904,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4896
+//line msg_parse.go:4908
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4940,7 +4952,7 @@ tr163:
 		}
 		goto st0
 tr165:
-//line sip.rl:155
+//line sip.rl:161
 
 	via.Transport = string(data[mark:p])
 
@@ -4950,7 +4962,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4954
+//line msg_parse.go:4966
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4997,7 +5009,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:5001
+//line msg_parse.go:5013
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5040,7 +5052,7 @@ tr169:
 		}
 		goto st0
 tr172:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5050,7 +5062,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5054
+//line msg_parse.go:5066
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5074,7 +5086,7 @@ tr172:
 		}
 		goto st0
 tr173:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5084,7 +5096,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5088
+//line msg_parse.go:5100
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5112,13 +5124,13 @@ tr173:
 		}
 		goto st0
 tr184:
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -5127,7 +5139,7 @@ tr184:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:283
  {goto st103 } 
 	goto st768
 tr193:
@@ -5140,17 +5152,17 @@ tr193:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:284
  {goto st68 } 
 	goto st768
 tr199:
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st768
 	st768:
@@ -5158,7 +5170,7 @@ tr199:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:5162
+//line msg_parse.go:5174
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5194,7 +5206,7 @@ tr199:
 		}
 		goto tr184
 tr175:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5204,7 +5216,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5208
+//line msg_parse.go:5220
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5225,8 +5237,11 @@ tr175:
 		}
 		goto st0
 tr188:
-//line sip.rl:163
+//line sip.rl:169
 
+	if via.Port > 6553 || (via.Port == 6553 && data[p] > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
 
 	goto st119
@@ -5235,7 +5250,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5239
+//line msg_parse.go:5254
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5287,7 +5302,7 @@ tr188:
 		}
 		goto st0
 tr176:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5297,7 +5312,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5301
+//line msg_parse.go:5316
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5395,7 +5410,7 @@ tr176:
 		}
 		goto st0
 tr177:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5405,7 +5420,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5409
+//line msg_parse.go:5424
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5447,7 +5462,7 @@ tr177:
 		}
 		goto st0
 tr178:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5457,7 +5472,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5461
+//line msg_parse.go:5476
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5524,7 +5539,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5528
+//line msg_parse.go:5543
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5545,7 +5560,7 @@ tr204:
 		}
 		goto st0
 tr206:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5555,7 +5570,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5559
+//line msg_parse.go:5574
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5581,7 +5596,7 @@ tr206:
 		}
 		goto st0
 tr167:
-//line sip.rl:155
+//line sip.rl:161
 
 	via.Transport = string(data[mark:p])
 
@@ -5591,7 +5606,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5595
+//line msg_parse.go:5610
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5703,7 +5718,7 @@ tr167:
 		}
 		goto st0
 tr159:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -5713,7 +5728,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5717
+//line msg_parse.go:5732
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5808,7 +5823,7 @@ tr159:
 		}
 		goto st0
 tr150:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -5818,7 +5833,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5822
+//line msg_parse.go:5837
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5902,7 +5917,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5906
+//line msg_parse.go:5921
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5953,7 +5968,7 @@ tr217:
 		}
 		goto st0
 tr218:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -5963,7 +5978,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5967
+//line msg_parse.go:5982
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5987,7 +6002,7 @@ tr218:
 		}
 		goto st0
 tr220:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -5997,7 +6012,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:6001
+//line msg_parse.go:6016
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6025,11 +6040,11 @@ tr220:
 		}
 		goto st0
 tr230:
-//line sip.rl:210
+//line sip.rl:219
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -6040,11 +6055,11 @@ tr230:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st769
 tr234:
-//line sip.rl:210
+//line sip.rl:219
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
@@ -6053,21 +6068,21 @@ tr234:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st769
 tr246:
-//line sip.rl:210
+//line sip.rl:219
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st769
 	st769:
@@ -6075,7 +6090,7 @@ tr246:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:6079
+//line msg_parse.go:6094
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6111,7 +6126,7 @@ tr246:
 		}
 		goto tr230
 tr221:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6121,7 +6136,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6125
+//line msg_parse.go:6140
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6182,7 +6197,7 @@ tr221:
 		}
 		goto tr234
 tr222:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6192,7 +6207,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6196
+//line msg_parse.go:6211
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,7 +6270,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6259
+//line msg_parse.go:6274
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6368,7 +6383,7 @@ tr238:
 		}
 		goto st0
 tr223:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6378,7 +6393,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6382
+//line msg_parse.go:6397
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6455,7 +6470,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6459
+//line msg_parse.go:6474
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6511,7 +6526,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6515
+//line msg_parse.go:6530
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6545,7 +6560,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6549
+//line msg_parse.go:6564
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6582,7 +6597,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6586
+//line msg_parse.go:6601
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6610,7 +6625,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6614
+//line msg_parse.go:6629
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6638,7 +6653,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6642
+//line msg_parse.go:6657
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6666,7 +6681,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6670
+//line msg_parse.go:6685
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6694,7 +6709,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6698
+//line msg_parse.go:6713
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6722,7 +6737,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6726
+//line msg_parse.go:6741
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6739,7 +6754,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6743
+//line msg_parse.go:6758
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6815,7 +6830,7 @@ tr265:
 		}
 		goto st0
 tr224:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6825,7 +6840,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6829
+//line msg_parse.go:6844
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6916,7 +6931,7 @@ tr224:
 		}
 		goto st0
 tr329:
-//line sip.rl:193
+//line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
 
@@ -6926,7 +6941,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6930
+//line msg_parse.go:6945
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6946,7 +6961,7 @@ tr329:
 		}
 		goto st0
 tr305:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -6956,7 +6971,7 @@ tr305:
 }
 	goto st190
 tr330:
-//line sip.rl:193
+//line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
 
@@ -6966,7 +6981,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6970
+//line msg_parse.go:6985
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6987,7 +7002,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6991
+//line msg_parse.go:7006
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7073,7 +7088,7 @@ tr275:
 		}
 		goto st0
 tr279:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -7084,7 +7099,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7088
+//line msg_parse.go:7103
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7139,7 +7154,7 @@ tr279:
 		}
 		goto st0
 tr285:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -7150,7 +7165,7 @@ tr285:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st770
 tr289:
@@ -7159,17 +7174,17 @@ tr289:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st770
 tr293:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st770
 	st770:
@@ -7177,7 +7192,7 @@ tr293:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:7181
+//line msg_parse.go:7196
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7371,7 +7386,7 @@ tr293:
 		}
 		goto st0
 tr310:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7381,7 +7396,7 @@ tr310:
 }
 	goto st210
 tr331:
-//line sip.rl:193
+//line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
 
@@ -7391,7 +7406,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7395
+//line msg_parse.go:7410
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,7 +7448,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7437
+//line msg_parse.go:7452
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7481,7 +7496,7 @@ tr271:
 		}
 		goto st0
 tr304:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7495,7 +7510,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7499
+//line msg_parse.go:7514
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7545,7 +7560,7 @@ tr304:
 		}
 		goto st0
 tr306:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7559,7 +7574,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7563
+//line msg_parse.go:7578
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7577,7 +7592,7 @@ tr306:
 		}
 		goto st0
 tr309:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7591,7 +7606,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7595
+//line msg_parse.go:7610
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7651,7 +7666,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7655
+//line msg_parse.go:7670
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7719,7 +7734,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7723
+//line msg_parse.go:7738
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7775,7 +7790,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7779
+//line msg_parse.go:7794
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7805,7 +7820,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7809
+//line msg_parse.go:7824
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7842,7 +7857,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7846
+//line msg_parse.go:7861
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7870,7 +7885,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7874
+//line msg_parse.go:7889
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7898,7 +7913,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7902
+//line msg_parse.go:7917
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7926,7 +7941,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7930
+//line msg_parse.go:7945
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7954,7 +7969,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7958
+//line msg_parse.go:7973
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7982,7 +7997,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7986
+//line msg_parse.go:8001
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7999,7 +8014,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:8003
+//line msg_parse.go:8018
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8130,7 +8145,7 @@ tr332:
 		}
 		goto st0
 tr336:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8141,7 +8156,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8145
+//line msg_parse.go:8160
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8194,7 +8209,7 @@ tr336:
 		}
 		goto st0
 tr345:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8205,7 +8220,7 @@ tr345:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st771
 tr349:
@@ -8214,17 +8229,17 @@ tr349:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st771
 tr375:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st771
 	st771:
@@ -8232,7 +8247,7 @@ tr375:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:8236
+//line msg_parse.go:8251
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8332,7 +8347,7 @@ tr375:
 		}
 		goto tr349
 tr340:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8343,7 +8358,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8347
+//line msg_parse.go:8362
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8377,7 +8392,7 @@ tr340:
 		}
 		goto st0
 tr337:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8388,7 +8403,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8392
+//line msg_parse.go:8407
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8443,7 +8458,7 @@ tr337:
 		}
 		goto st0
 tr355:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8454,7 +8469,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8458
+//line msg_parse.go:8473
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8486,7 +8501,7 @@ tr355:
 		}
 		goto st0
 tr361:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8497,7 +8512,7 @@ tr361:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st772
 	st772:
@@ -8505,7 +8520,7 @@ tr361:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:8509
+//line msg_parse.go:8524
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8533,7 +8548,7 @@ tr361:
 		}
 		goto st0
 tr359:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8544,7 +8559,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8548
+//line msg_parse.go:8563
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8578,7 +8593,7 @@ tr359:
 		}
 		goto tr345
 tr356:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8589,7 +8604,7 @@ tr356:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st773
 tr366:
@@ -8598,7 +8613,7 @@ tr366:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st773
 	st773:
@@ -8606,7 +8621,7 @@ tr366:
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:8610
+//line msg_parse.go:8625
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8652,7 +8667,7 @@ tr366:
 		}
 		goto st0
 tr338:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8663,7 +8678,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8667
+//line msg_parse.go:8682
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8718,7 +8733,7 @@ tr338:
 		}
 		goto st0
 tr365:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8729,7 +8744,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8733
+//line msg_parse.go:8748
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8766,7 +8781,7 @@ tr371:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st774
 	st774:
@@ -8774,7 +8789,7 @@ tr371:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:8778
+//line msg_parse.go:8793
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8802,7 +8817,7 @@ tr371:
 		}
 		goto st0
 tr369:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8813,7 +8828,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8817
+//line msg_parse.go:8832
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8847,7 +8862,7 @@ tr369:
 		}
 		goto tr349
 tr367:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8857,7 +8872,7 @@ tr367:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st775
 	st775:
@@ -8865,7 +8880,7 @@ tr367:
 			goto _test_eof775
 		}
 	st_case_775:
-//line msg_parse.go:8869
+//line msg_parse.go:8884
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8920,12 +8935,12 @@ tr367:
 		}
 		goto st0
 tr357:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8936,7 +8951,7 @@ tr357:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st776
 	st776:
@@ -8944,7 +8959,7 @@ tr357:
 			goto _test_eof776
 		}
 	st_case_776:
-//line msg_parse.go:8948
+//line msg_parse.go:8963
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8999,12 +9014,12 @@ tr357:
 		}
 		goto st0
 tr358:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -9015,11 +9030,11 @@ tr358:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st777
 tr368:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9029,7 +9044,7 @@ tr368:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st777
 	st777:
@@ -9037,13 +9052,13 @@ tr368:
 			goto _test_eof777
 		}
 	st_case_777:
-//line msg_parse.go:9041
+//line msg_parse.go:9056
 		if data[p] == 10 {
 			goto tr375
 		}
 		goto st0
 tr339:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9054,7 +9069,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9058
+//line msg_parse.go:9073
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9116,7 +9131,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9120
+//line msg_parse.go:9135
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9217,7 +9232,7 @@ tr376:
 		}
 		goto st0
 tr377:
-//line sip.rl:189
+//line sip.rl:198
 
 	addr = new(Addr)
 
@@ -9226,11 +9241,11 @@ tr377:
 	p--
 
 
-//line sip.rl:253
+//line sip.rl:277
  {goto st188 } 
 	goto st778
 tr382:
-//line sip.rl:189
+//line sip.rl:198
 
 	addr = new(Addr)
 
@@ -9239,11 +9254,11 @@ tr382:
 	p = ( mark) - 1
 
 
-//line sip.rl:253
+//line sip.rl:277
  {goto st188 } 
 	goto st778
 tr386:
-//line sip.rl:189
+//line sip.rl:198
 
 	addr = new(Addr)
 
@@ -9252,7 +9267,7 @@ tr386:
 	p = ( mark) - 1
 
 
-//line sip.rl:255
+//line sip.rl:279
  {goto st229 } 
 	goto st778
 	st778:
@@ -9260,7 +9275,7 @@ tr386:
 			goto _test_eof778
 		}
 	st_case_778:
-//line msg_parse.go:9264
+//line msg_parse.go:9279
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9338,7 +9353,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9342
+//line msg_parse.go:9357
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9449,7 +9464,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9453
+//line msg_parse.go:9468
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9503,7 +9518,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9507
+//line msg_parse.go:9522
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9519,7 +9534,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9523
+//line msg_parse.go:9538
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9535,7 +9550,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9539
+//line msg_parse.go:9554
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9551,7 +9566,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9555
+//line msg_parse.go:9570
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9567,7 +9582,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9571
+//line msg_parse.go:9586
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9583,13 +9598,13 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9587
+//line msg_parse.go:9602
 		if data[p] == 10 {
 			goto tr403
 		}
 		goto st0
 tr403:
-//line sip.rl:180
+//line sip.rl:189
 {
 	b := data[mark:p - 1]
 	if value != nil {
@@ -9598,7 +9613,7 @@ tr403:
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
 }
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st779
 	st779:
@@ -9606,7 +9621,7 @@ tr403:
 			goto _test_eof779
 		}
 	st_case_779:
-//line msg_parse.go:9610
+//line msg_parse.go:9625
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9619,7 +9634,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9623
+//line msg_parse.go:9638
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9725,7 +9740,7 @@ tr394:
 		}
 		goto st0
 tr406:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -9735,7 +9750,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9739
+//line msg_parse.go:9754
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9746,7 +9761,7 @@ tr406:
 		}
 		goto st0
 tr407:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -9756,7 +9771,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9760
+//line msg_parse.go:9775
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9784,14 +9799,14 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:532
+//line sip.rl:556
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:282
  {goto st263 } 
 	goto st780
 	st780:
@@ -9799,7 +9814,7 @@ value=nil
 			goto _test_eof780
 		}
 	st_case_780:
-//line msg_parse.go:9803
+//line msg_parse.go:9818
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9897,7 +9912,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9901
+//line msg_parse.go:9916
 		switch data[p] {
 		case 65:
 			goto st282
@@ -10000,153 +10015,153 @@ tr414:
 		}
 		goto tr416
 tr435:
-//line sip.rl:451
+//line sip.rl:475
 value=&msg.AcceptContact
 	goto st283
 tr450:
-//line sip.rl:450
+//line sip.rl:474
 value=&msg.Accept
 	goto st283
 tr469:
-//line sip.rl:452
+//line sip.rl:476
 value=&msg.AcceptEncoding
 	goto st283
 tr478:
-//line sip.rl:453
+//line sip.rl:477
 value=&msg.AcceptLanguage
 	goto st283
 tr489:
-//line sip.rl:456
+//line sip.rl:480
 value=&msg.AlertInfo
 	goto st283
 tr493:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
 	goto st283
 tr502:
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st283
 tr522:
-//line sip.rl:457
+//line sip.rl:481
 value=&msg.AuthenticationInfo
 	goto st283
 tr532:
-//line sip.rl:458
+//line sip.rl:482
 value=&msg.Authorization
 	goto st283
 tr534:
-//line sip.rl:475
+//line sip.rl:499
 value=&msg.ReferredBy
 	goto st283
 tr564:
-//line sip.rl:462
+//line sip.rl:486
 value=&msg.CallInfo
 	goto st283
 tr597:
-//line sip.rl:459
+//line sip.rl:483
 value=&msg.ContentDisposition
 	goto st283
 tr606:
-//line sip.rl:461
+//line sip.rl:485
 value=&msg.ContentEncoding
 	goto st283
 tr616:
-//line sip.rl:460
+//line sip.rl:484
 value=&msg.ContentLanguage
 	goto st283
 tr651:
-//line sip.rl:463
+//line sip.rl:487
 value=&msg.Date
 	goto st283
 tr664:
-//line sip.rl:464
+//line sip.rl:488
 value=&msg.ErrorInfo
 	goto st283
 tr669:
-//line sip.rl:465
+//line sip.rl:489
 value=&msg.Event
 	goto st283
 tr698:
-//line sip.rl:466
+//line sip.rl:490
 value=&msg.InReplyTo
 	goto st283
 tr700:
-//line sip.rl:480
+//line sip.rl:504
 value=&msg.Supported
 	goto st283
 tr739:
-//line sip.rl:468
+//line sip.rl:492
 value=&msg.MIMEVersion
 	goto st283
 tr767:
-//line sip.rl:469
+//line sip.rl:493
 value=&msg.Organization
 	goto st283
 tr797:
-//line sip.rl:470
+//line sip.rl:494
 value=&msg.Priority
 	goto st283
 tr816:
-//line sip.rl:471
+//line sip.rl:495
 value=&msg.ProxyAuthenticate
 	goto st283
 tr826:
-//line sip.rl:472
+//line sip.rl:496
 value=&msg.ProxyAuthorization
 	goto st283
 tr834:
-//line sip.rl:473
+//line sip.rl:497
 value=&msg.ProxyRequire
 	goto st283
 tr836:
-//line sip.rl:474
+//line sip.rl:498
 value=&msg.ReferTo
 	goto st283
 tr886:
-//line sip.rl:467
+//line sip.rl:491
 value=&msg.ReplyTo
 	goto st283
 tr892:
-//line sip.rl:476
+//line sip.rl:500
 value=&msg.Require
 	goto st283
 tr902:
-//line sip.rl:477
+//line sip.rl:501
 value=&msg.RetryAfter
 	goto st283
 tr909:
-//line sip.rl:479
+//line sip.rl:503
 value=&msg.Subject
 	goto st283
 tr917:
-//line sip.rl:478
+//line sip.rl:502
 value=&msg.Server
 	goto st283
 tr941:
-//line sip.rl:481
+//line sip.rl:505
 value=&msg.Timestamp
 	goto st283
 tr943:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st283
 tr956:
-//line sip.rl:482
+//line sip.rl:506
 value=&msg.Unsupported
 	goto st283
 tr966:
-//line sip.rl:483
+//line sip.rl:507
 value=&msg.UserAgent
 	goto st283
 tr983:
-//line sip.rl:484
+//line sip.rl:508
 value=&msg.Warning
 	goto st283
 tr999:
-//line sip.rl:485
+//line sip.rl:509
 value=&msg.WWWAuthenticate
 	goto st283
 	st283:
@@ -10154,7 +10169,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10158
+//line msg_parse.go:10173
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10165,153 +10180,153 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr436:
-//line sip.rl:451
+//line sip.rl:475
 value=&msg.AcceptContact
 	goto st284
 tr452:
-//line sip.rl:450
+//line sip.rl:474
 value=&msg.Accept
 	goto st284
 tr470:
-//line sip.rl:452
+//line sip.rl:476
 value=&msg.AcceptEncoding
 	goto st284
 tr479:
-//line sip.rl:453
+//line sip.rl:477
 value=&msg.AcceptLanguage
 	goto st284
 tr490:
-//line sip.rl:456
+//line sip.rl:480
 value=&msg.AlertInfo
 	goto st284
 tr495:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
 	goto st284
 tr503:
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st284
 tr523:
-//line sip.rl:457
+//line sip.rl:481
 value=&msg.AuthenticationInfo
 	goto st284
 tr533:
-//line sip.rl:458
+//line sip.rl:482
 value=&msg.Authorization
 	goto st284
 tr535:
-//line sip.rl:475
+//line sip.rl:499
 value=&msg.ReferredBy
 	goto st284
 tr565:
-//line sip.rl:462
+//line sip.rl:486
 value=&msg.CallInfo
 	goto st284
 tr598:
-//line sip.rl:459
+//line sip.rl:483
 value=&msg.ContentDisposition
 	goto st284
 tr607:
-//line sip.rl:461
+//line sip.rl:485
 value=&msg.ContentEncoding
 	goto st284
 tr617:
-//line sip.rl:460
+//line sip.rl:484
 value=&msg.ContentLanguage
 	goto st284
 tr652:
-//line sip.rl:463
+//line sip.rl:487
 value=&msg.Date
 	goto st284
 tr665:
-//line sip.rl:464
+//line sip.rl:488
 value=&msg.ErrorInfo
 	goto st284
 tr670:
-//line sip.rl:465
+//line sip.rl:489
 value=&msg.Event
 	goto st284
 tr699:
-//line sip.rl:466
+//line sip.rl:490
 value=&msg.InReplyTo
 	goto st284
 tr701:
-//line sip.rl:480
+//line sip.rl:504
 value=&msg.Supported
 	goto st284
 tr740:
-//line sip.rl:468
+//line sip.rl:492
 value=&msg.MIMEVersion
 	goto st284
 tr768:
-//line sip.rl:469
+//line sip.rl:493
 value=&msg.Organization
 	goto st284
 tr798:
-//line sip.rl:470
+//line sip.rl:494
 value=&msg.Priority
 	goto st284
 tr817:
-//line sip.rl:471
+//line sip.rl:495
 value=&msg.ProxyAuthenticate
 	goto st284
 tr827:
-//line sip.rl:472
+//line sip.rl:496
 value=&msg.ProxyAuthorization
 	goto st284
 tr835:
-//line sip.rl:473
+//line sip.rl:497
 value=&msg.ProxyRequire
 	goto st284
 tr837:
-//line sip.rl:474
+//line sip.rl:498
 value=&msg.ReferTo
 	goto st284
 tr887:
-//line sip.rl:467
+//line sip.rl:491
 value=&msg.ReplyTo
 	goto st284
 tr893:
-//line sip.rl:476
+//line sip.rl:500
 value=&msg.Require
 	goto st284
 tr903:
-//line sip.rl:477
+//line sip.rl:501
 value=&msg.RetryAfter
 	goto st284
 tr910:
-//line sip.rl:479
+//line sip.rl:503
 value=&msg.Subject
 	goto st284
 tr918:
-//line sip.rl:478
+//line sip.rl:502
 value=&msg.Server
 	goto st284
 tr942:
-//line sip.rl:481
+//line sip.rl:505
 value=&msg.Timestamp
 	goto st284
 tr944:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st284
 tr957:
-//line sip.rl:482
+//line sip.rl:506
 value=&msg.Unsupported
 	goto st284
 tr967:
-//line sip.rl:483
+//line sip.rl:507
 value=&msg.UserAgent
 	goto st284
 tr984:
-//line sip.rl:484
+//line sip.rl:508
 value=&msg.Warning
 	goto st284
 tr1000:
-//line sip.rl:485
+//line sip.rl:509
 value=&msg.WWWAuthenticate
 	goto st284
 	st284:
@@ -10319,7 +10334,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10323
+//line msg_parse.go:10338
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10347,7 +10362,7 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr559:
-//line sip.rl:257
+//line sip.rl:281
  {goto st280 } 
 	goto st781
 tr442:
@@ -10356,7 +10371,7 @@ tr442:
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:282
  {goto st263 } 
 	goto st781
 tr541:
@@ -10365,22 +10380,22 @@ tr541:
 	p--
 
 
-//line sip.rl:256
+//line sip.rl:280
  {goto st34 } 
 	goto st781
 tr576:
-//line sip.rl:534
+//line sip.rl:558
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st256 } 
 	goto st781
 tr971:
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -10389,7 +10404,7 @@ tr971:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:283
  {goto st103 } 
 	goto st781
 tr1001:
@@ -10403,7 +10418,7 @@ tr1001:
 			goto _test_eof781
 		}
 	st_case_781:
-//line msg_parse.go:10407
+//line msg_parse.go:10422
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11643,7 +11658,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11647
+//line msg_parse.go:11662
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11782,13 +11797,13 @@ tr553:
 		}
 		goto st0
 tr557:
-//line sip.rl:220
+//line sip.rl:229
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
 tr643:
-//line sip.rl:236
+//line sip.rl:251
 
 	msg.CSeqMethod = string(data[mark:p])
 
@@ -11798,7 +11813,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11802
+//line msg_parse.go:11817
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -11987,31 +12002,31 @@ tr643:
 		}
 		goto tr416
 tr572:
-//line sip.rl:437
+//line sip.rl:461
 addrp=lastAddr(&msg.Contact)
 	goto st394
 tr683:
-//line sip.rl:438
+//line sip.rl:462
 addrp=lastAddr(&msg.From)
 	goto st394
 tr788:
-//line sip.rl:439
+//line sip.rl:463
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
 tr855:
-//line sip.rl:440
+//line sip.rl:464
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
 tr879:
-//line sip.rl:441
+//line sip.rl:465
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
 tr907:
-//line sip.rl:442
+//line sip.rl:466
 addrp=lastAddr(&msg.Route)
 	goto st394
 tr930:
-//line sip.rl:443
+//line sip.rl:467
 addrp=lastAddr(&msg.To)
 	goto st394
 	st394:
@@ -12019,7 +12034,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12023
+//line msg_parse.go:12038
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12030,31 +12045,31 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr573:
-//line sip.rl:437
+//line sip.rl:461
 addrp=lastAddr(&msg.Contact)
 	goto st395
 tr684:
-//line sip.rl:438
+//line sip.rl:462
 addrp=lastAddr(&msg.From)
 	goto st395
 tr789:
-//line sip.rl:439
+//line sip.rl:463
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
 tr856:
-//line sip.rl:440
+//line sip.rl:464
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
 tr880:
-//line sip.rl:441
+//line sip.rl:465
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
 tr908:
-//line sip.rl:442
+//line sip.rl:466
 addrp=lastAddr(&msg.Route)
 	goto st395
 tr931:
-//line sip.rl:443
+//line sip.rl:467
 addrp=lastAddr(&msg.To)
 	goto st395
 	st395:
@@ -12062,7 +12077,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12066
+//line msg_parse.go:12081
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12614,16 +12629,22 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr624:
-//line sip.rl:493
+//line sip.rl:517
 clen=0
-//line sip.rl:224
+//line sip.rl:233
 
+	if !fitsInt(clen, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
 tr626:
-//line sip.rl:224
+//line sip.rl:233
 
+	if !fitsInt(clen, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
@@ -12632,7 +12653,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12636
+//line msg_parse.go:12657
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12806,12 +12827,26 @@ tr626:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr637b
 		}
 		goto st0
+tr637b:
+//line sip.rl:518
+msg.CSeq=0
+//line sip.rl:244
+
+	if !fitsInt(msg.CSeq, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
+	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+
+	goto st450
 tr637:
-//line sip.rl:232
+//line sip.rl:244
 
+	if !fitsInt(msg.CSeq, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
 
 	goto st450
@@ -12820,7 +12855,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12824
+//line msg_parse.go:12859
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12902,7 +12937,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12906
+//line msg_parse.go:12941
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13390,16 +13425,22 @@ tr641:
 		}
 		goto st0
 tr678:
-//line sip.rl:495
+//line sip.rl:519
 msg.Expires=0
-//line sip.rl:240
+//line sip.rl:255
 
+	if !fitsInt(msg.Expires, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
 tr680:
-//line sip.rl:240
+//line sip.rl:255
 
+	if !fitsInt(msg.Expires, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
@@ -13408,7 +13449,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13412
+//line msg_parse.go:13453
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13716,16 +13757,22 @@ tr680:
 		}
 		goto st0
 tr704:
-//line sip.rl:493
+//line sip.rl:517
 clen=0
-//line sip.rl:224
+//line sip.rl:233
 
+	if !fitsInt(clen, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st508
 tr706:
-//line sip.rl:224
+//line sip.rl:233
 
+	if !fitsInt(clen, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st508
@@ -13734,7 +13781,7 @@ tr706:
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13738
+//line msg_parse.go:13785
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13977,16 +14024,22 @@ tr706:
 		}
 		goto st0
 tr723:
-//line sip.rl:496
+//line sip.rl:520
 msg.MaxForwards=0
-//line sip.rl:244
+//line sip.rl:262
 
+	if !fitsInt(msg.MaxForwards, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st526
 tr725:
-//line sip.rl:244
+//line sip.rl:262
 
+	if !fitsInt(msg.MaxForwards, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st526
@@ -13995,7 +14048,7 @@ tr725:
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:13999
+//line msg_parse.go:14052
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14327,16 +14380,22 @@ tr725:
 		}
 		goto st0
 tr751:
-//line sip.rl:497
+//line sip.rl:521
 msg.MinExpires=0
-//line sip.rl:248
+//line sip.rl:269
 
+	if !fitsInt(msg.MinExpires, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st552
 tr753:
-//line sip.rl:248
+//line sip.rl:269
 
+	if !fitsInt(msg.MinExpires, data[p]) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st552
@@ -14345,7 +14404,7 @@ tr753:
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14349
+//line msg_parse.go:14408
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17815,13 +17874,13 @@ tr753:
 	if p == eof {
 		switch cs {
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
-//line sip.rl:171
+//line sip.rl:180
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17825
+//line msg_parse.go:17884
 		}
 	}
 
@@ -17859,6 +17918,12 @@ func lookAheadWSP(data []byte, p, pe int) bool {
 	return p + 2 < pe && (data[p+2] == ' ' || data[p+2] == '\t')
 }
 
+// fitsInt reports whether appending the decimal digit c to n stays an int.
+func fitsInt(n int, c byte) bool {
+	const max = int(^uint(0) >> 1)
+	return n < max/10 || (n == max/10 && int(c-'0') <= max%10)
+}
+
 func lastAddr(addrp **Addr) **Addr {
 	if *addrp == nil {
 		return addrp
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 123e941..0a87847 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -81,6 +81,12 @@ func lookAheadWSP(data []byte, p, pe int) bool {
 	return p + 2 < pe && (data[p+2] == ' ' || data[p+2] == '\t')
 }
 
+// fitsInt reports whether appending the decimal digit c to n stays an int.
+func fitsInt(n int, c byte) bool {
+	const max = int(^uint(0) >> 1)
+	return n < max/10 || (n == max/10 && int(c-'0') <= max%10)
+}
+
 func lastAddr(addrp **Addr) **Addr {
 	if *addrp == nil {
 		return addrp
diff --git a/sip/sip.rl b/sip/sip.rl
index a182789..3a96eee 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -114,10 +114,16 @@ action Method {
 }
 
 action VersionMajor {
+	if msg.VersionMajor > 25 || (msg.VersionMajor == 25 && fc > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
 }
 
 action VersionMinor {
+	if msg.VersionMinor > 25 || (msg.VersionMinor == 25 && fc > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
 }
 
@@ -161,6 +167,9 @@ action ViaHost {
 }
 
 action ViaPort {
+	if via.Port > 6553 || (via.Port == 6553 && fc > '5') {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
 }
 
@@ -222,6 +231,9 @@ action CallID {
 }
 
 action ContentLength {
+	if !fitsInt(clen, fc) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(fc) - 0x30)
 }
 
@@ -230,6 +242,9 @@ action ContentType {
 }
 
 action CSeq {
+	if !fitsInt(msg.CSeq, fc) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
 }
 
@@ -238,14 +253,23 @@ action CSeqMethod {
 }
 
 action Expires {
+	if !fitsInt(msg.Expires, fc) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
 }
 
 action MaxForwards {
+	if !fitsInt(msg.MaxForwards, fc) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
 }
 
 action MinExpires {
+	if !fitsInt(msg.MinExpires, fc) {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
 }
 
@@ -491,7 +515,7 @@ sname    = "Accept"i %{value=&msg.Accept}
 # their own special type of parsing.
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
-         | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
+         | "CSeq"i $!gxh HCOLON (digit+ >{msg.CSeq=0} @CSeq) LWS token >mark %CSeqMethod
          | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
          | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
          | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
-- 
2.43.0


From 718f251dcb9aa4b378b2ffef1d5f3402d779cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 09/62] fix: accept payloads that begin with white space

---
 sip/msg_parse.go | 61 +++++++++++++++++++++---------------------------
 sip/sip.rl       |  2 +-
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index ff68abc..76c74ba 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -9854,14 +9854,9 @@ value=nil
 			goto _test_eof280
 		}
 	st_case_280:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
+		case 13:
+			goto st764
 		case 33:
 			goto tr414
 		case 37:
@@ -9870,26 +9865,24 @@ value=nil
 			goto tr414
 		case 126:
 			goto tr414
-		case 269:
-			goto st764
 		}
 		switch {
-		case _widec < 48:
+		case data[p] < 48:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
 					goto tr414
 				}
-			case _widec >= 42:
+			case data[p] >= 42:
 				goto tr414
 			}
-		case _widec > 57:
+		case data[p] > 57:
 			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
+			case data[p] > 90:
+				if 95 <= data[p] && data[p] <= 122 {
 					goto tr414
 				}
-			case _widec >= 65:
+			case data[p] >= 65:
 				goto tr414
 			}
 		default:
@@ -9912,7 +9905,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9916
+//line msg_parse.go:9909
 		switch data[p] {
 		case 65:
 			goto st282
@@ -10169,7 +10162,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10173
+//line msg_parse.go:10166
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10334,7 +10327,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10338
+//line msg_parse.go:10331
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10418,7 +10411,7 @@ tr1001:
 			goto _test_eof781
 		}
 	st_case_781:
-//line msg_parse.go:10422
+//line msg_parse.go:10415
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11658,7 +11651,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11662
+//line msg_parse.go:11655
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11813,7 +11806,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11817
+//line msg_parse.go:11810
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -12034,7 +12027,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12038
+//line msg_parse.go:12031
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12077,7 +12070,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12081
+//line msg_parse.go:12074
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12653,7 +12646,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12657
+//line msg_parse.go:12650
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12855,7 +12848,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12859
+//line msg_parse.go:12852
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12937,7 +12930,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12941
+//line msg_parse.go:12934
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13449,7 +13442,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13453
+//line msg_parse.go:13446
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13781,7 +13774,7 @@ tr706:
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13785
+//line msg_parse.go:13778
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14048,7 +14041,7 @@ tr725:
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14052
+//line msg_parse.go:14045
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14404,7 +14397,7 @@ tr753:
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14408
+//line msg_parse.go:14401
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17880,7 +17873,7 @@ tr753:
 
 	{goto st273 }
 
-//line msg_parse.go:17884
+//line msg_parse.go:17877
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 3a96eee..74cc4f5 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -559,7 +559,7 @@ sheader  = cheader <: CRLF @goto_header
          | sname $!gxh HCOLON <: any @hold @goto_value
          | ("Via"i | "v"i) $!gxh HCOLON <: any @ViaNew @hold @goto_via
          | ("Content-Type"i | "c"i) $!gxh HCOLON <: any @hold @goto_ctype;
-header  := CRLF @break
+header  := CR LF @break
          | tokenc @mark @hold sheader;
 
 # Start Line Parsing
-- 
2.43.0


From 9e4e9ffda63b10bf2a3b4685e99ce5e2e8881a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:57 +0000
Subject: [PATCH 10/62] fix: end an address without angle brackets at its first
 semicolon or comma

---
 sip/msg_parse.go | 1014 +++++++---------------------------------------
 sip/sip.rl       |    2 +-
 2 files changed, 158 insertions(+), 858 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 76c74ba..e10dc74 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -592,38 +592,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_243
 	case 244:
 		goto st_case_244
-	case 245:
-		goto st_case_245
-	case 246:
-		goto st_case_246
-	case 772:
-		goto st_case_772
-	case 247:
-		goto st_case_247
-	case 248:
-		goto st_case_248
-	case 249:
-		goto st_case_249
-	case 773:
-		goto st_case_773
-	case 250:
-		goto st_case_250
-	case 251:
-		goto st_case_251
-	case 774:
-		goto st_case_774
-	case 252:
-		goto st_case_252
-	case 253:
-		goto st_case_253
-	case 254:
-		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
 	case 255:
 		goto st_case_255
 	case 256:
@@ -1698,7 +1666,7 @@ tr416:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1702
+//line msg_parse.go:1670
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1682,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1718
+//line msg_parse.go:1686
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1729,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1765
+//line msg_parse.go:1733
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1745,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1781
+//line msg_parse.go:1749
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1762,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1798
+//line msg_parse.go:1766
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1849,7 +1817,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1853
+//line msg_parse.go:1821
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1880,7 +1848,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1884
+//line msg_parse.go:1852
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1906,7 +1874,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1910
+//line msg_parse.go:1878
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1920,7 +1888,7 @@ tr16:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:1924
+//line msg_parse.go:1892
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1933,7 +1901,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1937
+//line msg_parse.go:1905
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2073,7 +2041,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2077
+//line msg_parse.go:2045
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2104,7 +2072,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2108
+//line msg_parse.go:2076
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2132,7 +2100,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2136
+//line msg_parse.go:2104
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2148,7 +2116,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2152
+//line msg_parse.go:2120
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2164,7 +2132,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2168
+//line msg_parse.go:2136
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2258,7 +2226,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2262
+//line msg_parse.go:2230
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2332,7 +2300,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2336
+//line msg_parse.go:2304
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2357,7 +2325,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2361
+//line msg_parse.go:2329
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2394,7 +2362,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2398
+//line msg_parse.go:2366
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2422,7 +2390,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2426
+//line msg_parse.go:2394
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2450,7 +2418,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2454
+//line msg_parse.go:2422
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2478,7 +2446,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2482
+//line msg_parse.go:2450
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2506,7 +2474,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2510
+//line msg_parse.go:2478
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2560,7 +2528,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2564
+//line msg_parse.go:2532
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2695,7 +2663,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2699
+//line msg_parse.go:2667
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2725,7 +2693,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2729
+//line msg_parse.go:2697
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2967,7 +2935,7 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2971
+//line msg_parse.go:2939
 		if data[p] == 10 {
 			goto tr65
 		}
@@ -2981,7 +2949,7 @@ tr65:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:2985
+//line msg_parse.go:2953
 		goto st0
 tr52:
 //line sip.rl:240
@@ -2994,7 +2962,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2998
+//line msg_parse.go:2966
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3097,7 +3065,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3101
+//line msg_parse.go:3069
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3153,7 +3121,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3157
+//line msg_parse.go:3125
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3185,7 +3153,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3189
+//line msg_parse.go:3157
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3222,7 +3190,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3226
+//line msg_parse.go:3194
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3250,7 +3218,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3254
+//line msg_parse.go:3222
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3278,7 +3246,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3282
+//line msg_parse.go:3250
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3306,7 +3274,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3310
+//line msg_parse.go:3278
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3334,7 +3302,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3338
+//line msg_parse.go:3306
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3362,7 +3330,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3366
+//line msg_parse.go:3334
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3379,7 +3347,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3383
+//line msg_parse.go:3351
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3603,7 +3571,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3607
+//line msg_parse.go:3575
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3664,7 +3632,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3668
+//line msg_parse.go:3636
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3698,7 +3666,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3702
+//line msg_parse.go:3670
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3784,7 +3752,7 @@ tr122:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:3788
+//line msg_parse.go:3756
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3830,7 +3798,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3834
+//line msg_parse.go:3802
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3901,7 +3869,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3905
+//line msg_parse.go:3873
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3964,7 +3932,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3968
+//line msg_parse.go:3936
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4087,7 +4055,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4091
+//line msg_parse.go:4059
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4164,7 +4132,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4168
+//line msg_parse.go:4136
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4220,7 +4188,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4224
+//line msg_parse.go:4192
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4254,7 +4222,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4258
+//line msg_parse.go:4226
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4291,7 +4259,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4295
+//line msg_parse.go:4263
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4319,7 +4287,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4323
+//line msg_parse.go:4291
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4347,7 +4315,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4351
+//line msg_parse.go:4319
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4375,7 +4343,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4379
+//line msg_parse.go:4347
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4403,7 +4371,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4407
+//line msg_parse.go:4375
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4431,7 +4399,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4435
+//line msg_parse.go:4403
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4448,7 +4416,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4452
+//line msg_parse.go:4420
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4534,7 +4502,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4538
+//line msg_parse.go:4506
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4618,7 +4586,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4622
+//line msg_parse.go:4590
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4673,7 +4641,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4677
+//line msg_parse.go:4645
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4703,7 +4671,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4707
+//line msg_parse.go:4675
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4761,7 +4729,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4765
+//line msg_parse.go:4733
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4816,7 +4784,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4820
+//line msg_parse.go:4788
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4846,7 +4814,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4850
+//line msg_parse.go:4818
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4904,7 +4872,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4908
+//line msg_parse.go:4876
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4962,7 +4930,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4966
+//line msg_parse.go:4934
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5009,7 +4977,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:5013
+//line msg_parse.go:4981
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5062,7 +5030,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5066
+//line msg_parse.go:5034
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5096,7 +5064,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5100
+//line msg_parse.go:5068
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5170,7 +5138,7 @@ tr199:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:5174
+//line msg_parse.go:5142
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5216,7 +5184,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5220
+//line msg_parse.go:5188
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5250,7 +5218,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5254
+//line msg_parse.go:5222
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5312,7 +5280,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5316
+//line msg_parse.go:5284
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5420,7 +5388,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5424
+//line msg_parse.go:5392
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5472,7 +5440,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5476
+//line msg_parse.go:5444
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5539,7 +5507,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5543
+//line msg_parse.go:5511
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5570,7 +5538,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5574
+//line msg_parse.go:5542
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5606,7 +5574,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5610
+//line msg_parse.go:5578
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5728,7 +5696,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5732
+//line msg_parse.go:5700
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5833,7 +5801,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5837
+//line msg_parse.go:5805
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5917,7 +5885,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5921
+//line msg_parse.go:5889
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5978,7 +5946,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5982
+//line msg_parse.go:5950
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6012,7 +5980,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:6016
+//line msg_parse.go:5984
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6090,7 +6058,7 @@ tr246:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:6094
+//line msg_parse.go:6062
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6136,7 +6104,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6140
+//line msg_parse.go:6108
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6207,7 +6175,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6211
+//line msg_parse.go:6179
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6270,7 +6238,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6274
+//line msg_parse.go:6242
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6393,7 +6361,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6397
+//line msg_parse.go:6365
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6470,7 +6438,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6474
+//line msg_parse.go:6442
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6526,7 +6494,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6530
+//line msg_parse.go:6498
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6560,7 +6528,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6564
+//line msg_parse.go:6532
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6597,7 +6565,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6601
+//line msg_parse.go:6569
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6625,7 +6593,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6629
+//line msg_parse.go:6597
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6653,7 +6621,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6657
+//line msg_parse.go:6625
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6681,7 +6649,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6685
+//line msg_parse.go:6653
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6709,7 +6677,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6713
+//line msg_parse.go:6681
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6737,7 +6705,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6741
+//line msg_parse.go:6709
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6754,7 +6722,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6758
+//line msg_parse.go:6726
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6840,7 +6808,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6844
+//line msg_parse.go:6812
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6941,7 +6909,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6945
+//line msg_parse.go:6913
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6981,7 +6949,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6985
+//line msg_parse.go:6953
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -7002,7 +6970,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:7006
+//line msg_parse.go:6974
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7099,7 +7067,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7103
+//line msg_parse.go:7071
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7192,7 +7160,7 @@ tr293:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:7196
+//line msg_parse.go:7164
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7406,7 +7374,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7410
+//line msg_parse.go:7378
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7448,7 +7416,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7452
+//line msg_parse.go:7420
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7510,7 +7478,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7514
+//line msg_parse.go:7482
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7574,7 +7542,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7578
+//line msg_parse.go:7546
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7606,7 +7574,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7610
+//line msg_parse.go:7578
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7666,7 +7634,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7670
+//line msg_parse.go:7638
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7734,7 +7702,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7738
+//line msg_parse.go:7706
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7790,7 +7758,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7794
+//line msg_parse.go:7762
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7820,7 +7788,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7824
+//line msg_parse.go:7792
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7857,7 +7825,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7861
+//line msg_parse.go:7829
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7885,7 +7853,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7889
+//line msg_parse.go:7857
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7913,7 +7881,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7917
+//line msg_parse.go:7885
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7941,7 +7909,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7945
+//line msg_parse.go:7913
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7969,7 +7937,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7973
+//line msg_parse.go:7941
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7997,7 +7965,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:8001
+//line msg_parse.go:7969
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -8014,7 +7982,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:8018
+//line msg_parse.go:7986
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8156,7 +8124,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8160
+//line msg_parse.go:8128
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8247,7 +8215,7 @@ tr375:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:8251
+//line msg_parse.go:8219
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8358,7 +8326,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8362
+//line msg_parse.go:8330
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8397,666 +8365,14 @@ tr337:
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st245
-	st245:
-		if p++; p == pe {
-			goto _test_eof245
-		}
-	st_case_245:
-//line msg_parse.go:8407
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
-			goto tr355
-		case 33:
-			goto tr356
-		case 44:
-			goto tr337
-		case 59:
-			goto tr357
-		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
-		case 126:
-			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
-				}
-			case _widec >= 36:
-				goto tr356
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr355:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st246
-	st246:
-		if p++; p == pe {
-			goto _test_eof246
-		}
-	st_case_246:
-//line msg_parse.go:8473
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st246
-		case 32:
-			goto st246
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		case 269:
-			goto tr345
-		case 525:
-			goto st247
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr361:
-//line sip.rl:223
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:276
- {goto st256 } 
-	goto st772
-	st772:
-		if p++; p == pe {
-			goto _test_eof772
-		}
-	st_case_772:
-//line msg_parse.go:8524
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st238
-		case 32:
-			goto st238
-		case 269:
-			goto tr349
-		case 525:
-			goto st239
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr359:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8563
-		if data[p] == 10 {
-			goto st248
-		}
-		goto st0
-	st248:
-		if p++; p == pe {
-			goto _test_eof248
-		}
-	st_case_248:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		}
-		goto st0
-	st249:
-		if p++; p == pe {
-			goto _test_eof249
-		}
-	st_case_249:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		}
-		goto tr345
-tr356:
-//line sip.rl:223
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:276
- {goto st256 } 
-	goto st773
-tr366:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:278
- {goto st153 } 
-	goto st773
-	st773:
-		if p++; p == pe {
-			goto _test_eof773
-		}
-	st_case_773:
-//line msg_parse.go:8625
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr336
-		case 32:
-			goto tr336
-		case 33:
-			goto st232
-		case 44:
-			goto tr337
-		case 59:
-			goto tr338
-		case 61:
-			goto st232
-		case 93:
-			goto st232
-		case 95:
-			goto st232
-		case 126:
-			goto st232
-		case 269:
-			goto tr339
-		case 525:
-			goto tr340
-		}
-		switch {
-		case _widec < 63:
-			if 36 <= _widec && _widec <= 58 {
-				goto st232
-			}
-		case _widec > 91:
-			if 97 <= _widec && _widec <= 122 {
-				goto st232
-			}
-		default:
-			goto st232
-		}
-		goto st0
+	goto st234
 tr338:
 //line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st250
-	st250:
-		if p++; p == pe {
-			goto _test_eof250
-		}
-	st_case_250:
-//line msg_parse.go:8682
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr365:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st251
-	st251:
-		if p++; p == pe {
-			goto _test_eof251
-		}
-	st_case_251:
-//line msg_parse.go:8748
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st251
-		case 32:
-			goto st251
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		case 269:
-			goto tr349
-		case 525:
-			goto st252
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr371:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:278
- {goto st153 } 
-	goto st774
-	st774:
-		if p++; p == pe {
-			goto _test_eof774
-		}
-	st_case_774:
-//line msg_parse.go:8793
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st234
-		case 32:
-			goto st234
-		case 269:
-			goto tr345
-		case 525:
-			goto st235
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr369:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st252
-	st252:
-		if p++; p == pe {
-			goto _test_eof252
-		}
-	st_case_252:
-//line msg_parse.go:8832
-		if data[p] == 10 {
-			goto st253
-		}
-		goto st0
-	st253:
-		if p++; p == pe {
-			goto _test_eof253
-		}
-	st_case_253:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		}
-		goto st0
-	st254:
-		if p++; p == pe {
-			goto _test_eof254
-		}
-	st_case_254:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		}
-		goto tr349
-tr367:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:278
- {goto st153 } 
-	goto st775
-	st775:
-		if p++; p == pe {
-			goto _test_eof775
-		}
-	st_case_775:
-//line msg_parse.go:8884
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
-			goto tr355
-		case 33:
-			goto tr356
-		case 44:
-			goto tr337
-		case 59:
-			goto tr357
-		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
-		case 126:
-			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
-				}
-			case _widec >= 36:
-				goto tr356
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr357:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:223
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:276
- {goto st256 } 
-	goto st776
-	st776:
-		if p++; p == pe {
-			goto _test_eof776
-		}
-	st_case_776:
-//line msg_parse.go:8963
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr358:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:223
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:276
- {goto st256 } 
-	goto st777
-tr368:
-//line sip.rl:214
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:278
- {goto st153 } 
-	goto st777
-	st777:
-		if p++; p == pe {
-			goto _test_eof777
-		}
-	st_case_777:
-//line msg_parse.go:9056
-		if data[p] == 10 {
-			goto tr375
-		}
-		goto st0
+	goto st238
 tr339:
 //line sip.rl:214
 
@@ -9069,7 +8385,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9073
+//line msg_parse.go:8389
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9131,7 +8447,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9135
+//line msg_parse.go:8451
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9275,7 +8591,7 @@ tr386:
 			goto _test_eof778
 		}
 	st_case_778:
-//line msg_parse.go:9279
+//line msg_parse.go:8595
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9353,7 +8669,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9357
+//line msg_parse.go:8673
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9464,7 +8780,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9468
+//line msg_parse.go:8784
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9518,7 +8834,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9522
+//line msg_parse.go:8838
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9534,7 +8850,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9538
+//line msg_parse.go:8854
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9550,7 +8866,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9554
+//line msg_parse.go:8870
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9566,7 +8882,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9570
+//line msg_parse.go:8886
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9582,7 +8898,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9586
+//line msg_parse.go:8902
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9598,7 +8914,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9602
+//line msg_parse.go:8918
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9621,7 +8937,7 @@ tr403:
 			goto _test_eof779
 		}
 	st_case_779:
-//line msg_parse.go:9625
+//line msg_parse.go:8941
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9634,7 +8950,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9638
+//line msg_parse.go:8954
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9750,7 +9066,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9754
+//line msg_parse.go:9070
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9771,7 +9087,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9775
+//line msg_parse.go:9091
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9814,7 +9130,7 @@ value=nil
 			goto _test_eof780
 		}
 	st_case_780:
-//line msg_parse.go:9818
+//line msg_parse.go:9134
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9905,7 +9221,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9909
+//line msg_parse.go:9225
 		switch data[p] {
 		case 65:
 			goto st282
@@ -10162,7 +9478,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10166
+//line msg_parse.go:9482
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10327,7 +9643,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10331
+//line msg_parse.go:9647
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10411,7 +9727,7 @@ tr1001:
 			goto _test_eof781
 		}
 	st_case_781:
-//line msg_parse.go:10415
+//line msg_parse.go:9731
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11651,7 +10967,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11655
+//line msg_parse.go:10971
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11806,7 +11122,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11810
+//line msg_parse.go:11126
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -12027,7 +11343,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12031
+//line msg_parse.go:11347
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12070,7 +11386,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12074
+//line msg_parse.go:11390
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12646,7 +11962,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12650
+//line msg_parse.go:11966
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12848,7 +12164,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12852
+//line msg_parse.go:12168
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12930,7 +12246,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12934
+//line msg_parse.go:12250
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13442,7 +12758,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13446
+//line msg_parse.go:12762
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13774,7 +13090,7 @@ tr706:
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13778
+//line msg_parse.go:13094
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14041,7 +13357,7 @@ tr725:
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14045
+//line msg_parse.go:13361
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14397,7 +13713,7 @@ tr753:
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14401
+//line msg_parse.go:13717
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17332,22 +16648,6 @@ tr753:
 	_test_eof242: cs = 242; goto _test_eof
 	_test_eof243: cs = 243; goto _test_eof
 	_test_eof244: cs = 244; goto _test_eof
-	_test_eof245: cs = 245; goto _test_eof
-	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
-	_test_eof247: cs = 247; goto _test_eof
-	_test_eof248: cs = 248; goto _test_eof
-	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
-	_test_eof250: cs = 250; goto _test_eof
-	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
-	_test_eof252: cs = 252; goto _test_eof
-	_test_eof253: cs = 253; goto _test_eof
-	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
@@ -17873,7 +17173,7 @@ tr753:
 
 	{goto st273 }
 
-//line msg_parse.go:17877
+//line msg_parse.go:17177
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 74cc4f5..36a0151 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -449,7 +449,7 @@ addr_angled       := addr_display? addr_spec addr_angled_end;
 addr_uri_end       = CRLF @Addr @goto_header
                    | SEMI <: any @hold @goto_addr_param
                    | COMMA <: any @Addr @hold @goto_addr;
-addr_uri          := ( uri - ";" ) %AddrUri addr_uri_end;
+addr_uri          := ( scheme ":" uric ( uric - [;,] )* ) %AddrUri addr_uri_end;
 addr              := [<\"] @AddrNew @hold @goto_addr_angled
                    | unquoted_string >mark "<" @AddrNew @backtrack @goto_addr_angled
                    | scheme >mark ":" @AddrNew @backtrack @goto_addr_uri;
-- 
2.43.0


From 9fb6d9651811923c609b7091992339e91502ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 11/62] fix: end quoted strings at a line feed that isn't part
 of a fold

---
 sip/quote.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..054c0ad 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -47,14 +47,15 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 	b.WriteByte('"')
 	for i := 0; i < len(s); i++ {
-		if qdtextc(s[i]) {
-			if s[i] == '\r' {
-				if i+2 >= len(s) || s[i+1] != '\n' ||
-					!(s[i+2] == ' ' || s[i+2] == '\t') {
-					break
-				}
+		if s[i] == '\r' || s[i] == '\n' {
+			// Line breaks are only allowed when they're folded.
+			if s[i] == '\n' || i+2 >= len(s) || s[i+1] != '\n' ||
+				!(s[i+2] == ' ' || s[i+2] == '\t') {
+				break
 			}
-		} else {
+			b.WriteByte('\r')
+			i++
+		} else if !qdtextc(s[i]) {
 			if !qdtextesc(s[i]) {
 				break
 			}
-- 
2.43.0


From deff3ede2a8e1510f8891b7d0e266c91514f349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 12/62] fix: keep UTF-8 text in quoted strings instead of
 truncating it

---
 sip/quote.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sip/quote.go b/sip/quote.go
index 054c0ad..184ba7f 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -16,6 +16,7 @@ package sip
 
 import (
 	"bytes"
+	"unicode/utf8"
 )
 
 // appendSanitized appends stripping all characters that don't match the predicate.
@@ -55,6 +56,13 @@ func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 			}
 			b.WriteByte('\r')
 			i++
+		} else if s[i] >= utf8.RuneSelf {
+			r, n := utf8.DecodeRune(s[i:])
+			if r == utf8.RuneError && n <= 1 {
+				break
+			}
+			b.Write(s[i : i+n-1])
+			i += n - 1
 		} else if !qdtextc(s[i]) {
 			if !qdtextesc(s[i]) {
 				break
-- 
2.43.0


From 8dc84fbac3ad12e5e86e01f4bdc3bb5b4f6ea300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 13/62] fix: quote parameter values with spaces and display
 names with outer spaces

---
 sip/param.go | 6 +++++-
 sip/quote.go | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sip/param.go b/sip/param.go
index 6cf5465..39818c3 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -49,6 +49,10 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		if strings.IndexByte(p.Value, ' ') >= 0 {
+			appendQuoteQuoted(b, []byte(p.Value))
+		} else {
+			appendQuoted(b, []byte(p.Value))
+		}
 	}
 }
diff --git a/sip/quote.go b/sip/quote.go
index 184ba7f..063b14f 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -39,6 +39,11 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 			return
 		}
 	}
+	// White space around an unquoted display name isn't part of the name.
+	if len(s) > 0 && (s[0] == ' ' || s[len(s)-1] == ' ') {
+		appendQuoteQuoted(b, s)
+		return
+	}
 	b.Write(s)
 }
 
-- 
2.43.0


From 4b1b08dcdd3ab6f98f089333daa181f85ec5fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 14/62] fix: put IPv6 hosts in brackets when formatting Via
 headers

---
 sip/via.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/via.go b/sip/via.go
index 231ef9b..5d9d795 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,7 +53,13 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
+	if util.IsIPv6(via.Host) {
+		b.WriteString("[")
+		b.WriteString(via.Host)
+		b.WriteString("]")
+	} else {
+		b.WriteString(via.Host)
+	}
 	if via.Port != 5060 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
-- 
2.43.0


From b4552c8dd9e3d3a6b99d404b854cdbb44da68780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 15/62] fix: write the Via port exactly when there is one

---
 sip/via.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/via.go b/sip/via.go
index 5d9d795..9f8e980 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -60,7 +60,7 @@ func (via *Via) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteString(via.Host)
 	}
-	if via.Port != 5060 {
+	if via.Port != 0 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From 2c7f497371db099ca9b676bd184c3bed41882ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 16/62] fix: write the Retry-After header under its own name

---
 sip/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..f07e665 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -399,7 +399,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 7858c32c4a4e3b13fbde9d77eeec42febc87a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 17/62] fix: write the Accept-Contact header

---
 sip/msg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/msg.go b/sip/msg.go
index f07e665..de346b9 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
-- 
2.43.0


From 46e339ffd938e0f53121961881aea79c2083a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 18/62] fix: leave out the Content-Type of a payload that has
 none

---
 sip/msg.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sip/msg.go b/sip/msg.go
index de346b9..996794a 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -455,9 +455,11 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	msg.XHeader.Append(b)
 
 	if msg.Payload != nil {
-		b.WriteString("Content-Type: ")
-		b.WriteString(msg.Payload.ContentType())
-		b.WriteString("\r\n")
+		if contentType := msg.Payload.ContentType(); contentType != "" {
+			b.WriteString("Content-Type: ")
+			b.WriteString(contentType)
+			b.WriteString("\r\n")
+		}
 		payload := msg.Payload.Data()
 		b.WriteString("Content-Length: ")
 		b.WriteString(strconv.Itoa(len(payload)))
-- 
2.43.0


From 736b71747a883e3d204a008eaf544df2ce5fd9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 19/62] fix: don't change the message when formatting it

---
 sip/msg.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sip/msg.go b/sip/msg.go
index 996794a..49b5159 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -148,14 +148,15 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		msg.appendVersion(b)
 		b.WriteString("\r\n")
 	} else {
-		if msg.Phrase == "" {
-			msg.Phrase = Phrase(msg.Status)
+		phrase := msg.Phrase
+		if phrase == "" {
+			phrase = Phrase(msg.Status)
 		}
 		msg.appendVersion(b)
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		b.WriteString(phrase)
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From e5506d3eb404d1caf4db6932172bfca14d9c18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 20/62] fix: keep the display name when copying an address

---
 sip/addr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..983ef41 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,6 +93,7 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
+	res.Display = addr.Display
 	res.Param = addr.Param
 	res.Next = addr.Next.Copy()
 	return res
-- 
2.43.0


From 3ba19166ced50642ca7b0e76b35c5d32535e4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 21/62] fix: refuse SDP whose connection address is blank

---
 sdp/sdp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index e1db097..ae34f1a 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -481,6 +481,9 @@ func parseConnLine(line string) (addr string, err error) {
 		return "", errors.New("unsupported conn net type")
 	}
 	addr = toks[2]
+	if addr == "" {
+		return "", errors.New("blank address in c= line")
+	}
 	if n := strings.Index(addr, "/"); n >= 0 {
 		return "", errors.New("multicast address in c= line D:")
 	}
-- 
2.43.0


From 4cb277a23204aee9049f8ffc22ce219c14553a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 22/62] fix: keep the codec attributes of each SDP media
 section apart

---
 sdp/sdp.go | 57 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index ae34f1a..60c7330 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -134,10 +134,9 @@ func Parse(s string) (sdp *SDP, err error) {
 	// We abstract the structure of the media lines so we need a place to store
 	// them before assembling the audio/video data structures.
 	var audioinfo, videoinfo string
-	rtpmaps := make([]string, len(lines))
-	rtpmapcnt := 0
-	fmtps := make([]string, len(lines))
-	fmtpcnt := 0
+	var audioattrs, videoattrs mediaAttrs
+	var sessionattrs, otherattrs mediaAttrs
+	attrs := &sessionattrs
 	sdp.Attrs = make([][2]string, 0, len(lines))
 
 	// Extract information from SDP.
@@ -153,10 +152,15 @@ func Parse(s string) (sdp *SDP, err error) {
 			line = line[2:]
 			if strings.HasPrefix(line, "audio ") {
 				audioinfo = line[6:]
+				audioattrs = mediaAttrs{}
+				attrs = &audioattrs
 			} else if strings.HasPrefix(line, "video ") {
 				videoinfo = line[6:]
+				videoattrs = mediaAttrs{}
+				attrs = &videoattrs
 			} else {
 				log.Println("Unsupported SDP media line:", line)
+				attrs = &otherattrs
 			}
 		case line[0] == 's': // session line
 			sdp.Session = line[2:]
@@ -182,11 +186,9 @@ func Parse(s string) (sdp *SDP, err error) {
 			line = line[2:]
 			switch {
 			case strings.HasPrefix(line, "rtpmap:"):
-				rtpmaps[rtpmapcnt] = line[7:]
-				rtpmapcnt++
+				attrs.rtpmaps = append(attrs.rtpmaps, line[7:])
 			case strings.HasPrefix(line, "fmtp:"):
-				fmtps[fmtpcnt] = line[5:]
-				fmtpcnt++
+				attrs.fmtps = append(attrs.fmtps, line[5:])
 			case strings.HasPrefix(line, "ptime:"):
 				ptimeS := line[6:]
 				if ptime, err := strconv.Atoi(ptimeS); err == nil && ptime > 0 {
@@ -229,8 +231,11 @@ func Parse(s string) (sdp *SDP, err error) {
 			}
 		}
 	}
-	rtpmaps = rtpmaps[0:rtpmapcnt]
-	fmtps = fmtps[0:fmtpcnt]
+	audioown, videoown := audioattrs, videoattrs
+	audioattrs.inherit(&sessionattrs, "")
+	audioattrs.inherit(&videoown, videoinfo)
+	videoattrs.inherit(&sessionattrs, "")
+	videoattrs.inherit(&audioown, audioinfo)
 
 	if !okConn || !okOrigin {
 		return nil, errors.New("sdp missing mandatory information")
@@ -245,7 +250,7 @@ func Parse(s string) (sdp *SDP, err error) {
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Audio, pts, rtpmaps, fmtps)
+		err = populateCodecs(sdp.Audio, pts, audioattrs.rtpmaps, audioattrs.fmtps)
 		if err != nil {
 			return nil, err
 		}
@@ -259,7 +264,7 @@ func Parse(s string) (sdp *SDP, err error) {
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Video, pts, rtpmaps, fmtps)
+		err = populateCodecs(sdp.Video, pts, videoattrs.rtpmaps, videoattrs.fmtps)
 		if err != nil {
 			return nil, err
 		}
@@ -368,6 +373,34 @@ func (sdp *SDP) Append(b *bytes.Buffer) {
 	}
 }
 
+// Codec attributes describe the m= line they follow. The same payload type can
+// mean different things on different m= lines.
+type mediaAttrs struct {
+	rtpmaps []string
+	fmtps   []string
+}
+
+// Adds the attributes which were written somewhere else, e.g. before any m=
+// line, except those describing a payload type of the m= line they're under.
+func (attrs *mediaAttrs) inherit(from *mediaAttrs, info string) {
+	attrs.rtpmaps = appendForeign(attrs.rtpmaps, from.rtpmaps, info)
+	attrs.fmtps = appendForeign(attrs.fmtps, from.fmtps, info)
+}
+
+func appendForeign(dst, src []string, info string) []string {
+	toks := strings.Split(info, " ")
+lines:
+	for _, line := range src {
+		for n := 2; n < len(toks); n++ {
+			if strings.HasPrefix(line, toks[n]+" ") {
+				continue lines
+			}
+		}
+		dst = append(dst[:len(dst):len(dst)], line)
+	}
+	return dst
+}
+
 // Here we take the list of payload types from the m= line (e.g. 9 18 0 101)
 // and turn them into a list of codecs.
 //
-- 
2.43.0


From 8a97c4089a23a5ff3131bf06c07e5680cc222dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 23/62] fix: don't put the branch of one request on the
 transport's Via

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..978d179 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,7 +32,7 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
 			msg.Contact = contact
-- 
2.43.0


From 99238326f750ecb53ca63acfd7e82a7ea971ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 24/62] fix: take only the address of the first Contact for a
 missing From

---
 dialog/route.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dialog/route.go b/dialog/route.go
index 978d179..c9b0de0 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -43,6 +43,8 @@ func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 		if msg.From == nil {
 			msg.From = msg.Contact.Copy()
 			msg.From.Uri.Param = nil
+			msg.From.Param = nil
+			msg.From.Next = nil
 		}
 		if msg.CallID == "" {
 			msg.CallID = util.GenerateCallID()
-- 
2.43.0


From 29cf39da888ed4262c5d76a3f9cfbcaff868e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 25/62] fix: never generate a CSeq of zero

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7ffce9a..41062e5 100755
--- a/util/util.go
+++ b/util/util.go
@@ -41,14 +41,14 @@ func IsIPv6(ip string) bool {
 	return strings.Index(ip, ":") >= 0
 }
 
-// Generate a secure random number between 0 and 50,000.
+// Generate a secure random number between 1 and 50,000. Zero means no CSeq.
 func GenerateCSeq() int {
 	nBig, err := rand.Int(rand.Reader, big.NewInt(50000))
 	if err != nil {
 		panic("could not get random int: " + err.Error())
 	}
 
-	return int(nBig.Int64())
+	return int(nBig.Int64()) + 1
 }
 
 // Generate a 48-bit secure random string like: 27c97271d363.
-- 
2.43.0


From 478489a353a17f3551e2ee601f7c4528dfdebb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 26/62] fix: refuse to route a response which has no Via left

---
 dialog/route.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/route.go b/dialog/route.go
index c9b0de0..9d616ff 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -83,6 +83,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		if via.CompareHostPort(msg.Via) {
 			msg.Via = msg.Via.Next
 		}
+		if msg.Via == nil {
+			return "", 0, errors.New("No Via to send the response to")
+		}
 
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
-- 
2.43.0


From ee9821f602853dfc62a061540927894b276e6a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 27/62] fix: refuse an rport that is out of range

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 9d616ff..17a535d 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -97,7 +97,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From 76ee91a7fdf9ac2f62262aaac4252075694d59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 28/62] fix: ignore an empty received parameter when routing a
 response

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 17a535d..2b70d0e 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -88,7 +88,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		}
 
 		host, port = msg.Via.Host, msg.Via.Port
-		if received := msg.Via.Param.Get("received"); received != nil {
+		if received := msg.Via.Param.Get("received"); received != nil && len(received.Value) > 0 {
 			host = received.Value
 		}
 
-- 
2.43.0


From 22bda6348945f11837b8cf31671a1332af6039df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 29/62] fix: send to port 5060 when the destination has no port

---
 dialog/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..008f060 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,7 +82,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
-	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
+	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(or5060(port))))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From beef7110b4ec18adf70588aa096e7559b238b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 30/62] fix: recognise ICMP refusals, which are wrapped in a
 SyscallError

---
 util/util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 41062e5..1dbab25 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,6 +17,7 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
 	"net"
@@ -27,8 +28,8 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	_, ok := err.(*net.OpError)
+	return ok && errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From 1eb6e042a2a4c9fe6dda175ddb2614959d7c3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 31/62] fix: don't let later datagrams overwrite received
 messages

---
 dialog/receiver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..c9b0951 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,8 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := make([]byte, amt) // The message refers to it.
+		copy(packet, buf)
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 8d496cb7be05d838f37b23911b83a7c680557143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 32/62] fix: drop received messages without Via instead of
 crashing

---
 dialog/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index c9b0951..06e0390 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -45,6 +45,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if msg.Via == nil {
+			log.Printf("Dropping SIP message: no Via\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
-- 
2.43.0


From caf9d2a738082884459fe541e6444308b0d0b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 33/62] fix: fill in the rport of every request that has one

---
 dialog/receiver.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 06e0390..4d8cc1d 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -65,23 +65,16 @@ func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 	if msg.IsResponse() {
 		return
 	}
-	if int(msg.Via.Port) != addr.Port {
+	port := strconv.Itoa(addr.Port)
+	if rport := msg.Via.Param.Get("rport"); rport != nil {
 
-		rport := msg.Via.Param.Get("rport")
-		port := strconv.Itoa(addr.Port)
-
-		if rport == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "rport",
-				Value: port,
-				Next:  msg.Via.Param,
-			}
-		} else {
-
-			// implied rport is 5060, but some NAT will use another port,we use real port instead
-			if len(rport.Value) == 0 {
-				rport.Value = port
-			}
+		// implied rport is 5060, but some NAT will use another port,we use real port instead
+		rport.Value = port
+	} else if int(msg.Via.Port) != addr.Port {
+		msg.Via.Param = &sip.Param{
+			Name:  "rport",
+			Value: port,
+			Next:  msg.Via.Param,
 		}
 	}
 	if msg.Via.Host != addr.IP.String() {
-- 
2.43.0


From 3f2f1cc7b2d5512d80c3b7122709430a3a4b185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 34/62] fix: don't believe a received parameter that came with
 the request

---
 dialog/receiver.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 4d8cc1d..8f07f7b 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -77,13 +77,14 @@ func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 			Next:  msg.Via.Param,
 		}
 	}
-	if msg.Via.Host != addr.IP.String() {
-		if msg.Via.Param.Get("received") == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "received",
-				Value: addr.IP.String(),
-				Next:  msg.Via.Param,
-			}
+	host := addr.IP.String()
+	if received := msg.Via.Param.Get("received"); received != nil {
+		received.Value = host
+	} else if msg.Via.Host != host {
+		msg.Via.Param = &sip.Param{
+			Name:  "received",
+			Value: host,
+			Next:  msg.Via.Param,
 		}
 	}
 }
-- 
2.43.0


From 4230ec759b6e78438ee7c82ad4bd732d20766fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 35/62] fix: acknowledge and report failure responses without
 Contact

---
 dialog/dialog.go   | 4 ++--
 dialog/messages.go | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..22b2913 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,8 +303,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
+			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
 			return false
 		}
 		if !dls.send(NewAck(msg, dls.request)) {
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..d4aad21 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,9 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	request := invite.Request
+	if msg.Contact != nil {
+		request = msg.Contact.Uri
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
-- 
2.43.0


From 3b9a406c04b8018f5d199e32c770e24b916de667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 36/62] fix: don't crash on redirects to nowhere

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 22b2913..439bed4 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -341,6 +341,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
-- 
2.43.0


From 944a4e614bd4c96d9861e873e9ab41d4be3e1d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 37/62] fix: don't crash on SDP without audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 439bed4..694a3b4 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -397,7 +397,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From 0d85abe78ee14ca4f1c8e4f234532931089872ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 38/62] fix: don't send responses to responses or ACKs

---
 dialog/dialog.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 694a3b4..4060045 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -280,7 +280,7 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+		if !dls.reply(msg, sip.StatusVersionNotSupported) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
@@ -288,7 +288,7 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 	if msg.CallID != dls.request.CallID {
 		log.Printf("Received message doesn't match dialog\r\n")
-		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
+		return dls.reply(msg, sip.StatusCallTransactionDoesNotExist)
 	}
 	if msg.IsResponse() {
 		return dls.handleResponse(msg)
@@ -357,7 +357,20 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	return true
 }
 
+// Sends a response, unless msg is something that must never get one.
+func (dls *dialogState) reply(msg *sip.Msg, status int) bool {
+	if msg.IsResponse() || msg.Method == sip.MethodAck {
+		return true
+	}
+	return dls.send(NewResponse(msg, status))
+}
+
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
+	if msg.Method == sip.MethodAck { // Re-INVITE response has been ACK'd.
+		dls.response = nil
+		dls.responseTimer = nil
+		return true
+	}
 	if msg.MaxForwards <= 0 {
 		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
 			return false
@@ -387,10 +400,6 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		dls.remote = msg
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
-	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-		dls.response = nil
-		dls.responseTimer = nil
-		return true
 	default:
 		return dls.send(NewResponse(msg, sip.StatusMethodNotAllowed))
 	}
-- 
2.43.0


From 5baed893ac82ee728051368bff10b1b307359537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 39/62] fix: keep the untried routes until the call is decided

---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 4060045..71fe3a0 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,7 +311,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
+	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
-- 
2.43.0


From 2585a33d1b204550b619c020a116d4d92bbb3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 40/62] fix: don't CANCEL before a provisional response

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 71fe3a0..834e9cc 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -35,6 +35,8 @@ const (
 	Ringing
 	Answered
 	Hangup
+
+	calling = -1 // Nothing has been heard from the remote UA.
 )
 
 var (
@@ -91,6 +93,7 @@ func NewDialog(invite *sip.Msg) (dl *Dialog, err error) {
 		peerChan:       peerChan,
 		sendHangupChan: sendHangupChan,
 		invite:         invite,
+		state:          calling,
 	}
 	go dls.run()
 	return &Dialog{
-- 
2.43.0


From 89da2910132b24a4d2a826182250bdf146add78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 41/62] fix: don't crash when logging an ICMP refusal

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 834e9cc..e31ec39 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -115,7 +115,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
-- 
2.43.0


From 327e0a62b1c219b8090c51cba84508e509ed0d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 42/62] fix: don't wait forever for the receiver to stop

---
 dialog/dialog.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e31ec39..dfb2762 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -520,8 +520,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		drain(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -529,7 +528,22 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		drain(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// Waits for ReceiveMessages to stop, whatever it still wants to tell us.
+func drain(msgs <-chan *sip.Msg, errs <-chan error) {
+	for msgs != nil || errs != nil {
+		select {
+		case _, ok := <-msgs:
+			if !ok {
+				msgs = nil
+			}
+		case _, ok := <-errs:
+			if !ok {
+				errs = nil
+			}
+		}
 	}
 }
-- 
2.43.0


From 05159663875b5a6e1241b5298fda5f88fdf0623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 43/62] fix: say goodbye to the remote UA after a re-INVITE,
 not to ourselves

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index dfb2762..e55dab2 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -402,7 +402,11 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			remote := *dls.remote
+			remote.Contact = msg.Contact
+			dls.remote = &remote
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	default:
-- 
2.43.0


From 3234a389bed2c07722971d246e9791610fe6b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 44/62] fix: ignore provisional responses after the call was
 answered

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e55dab2..fd3d029 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -318,6 +318,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		dls.routes = nil
 	}
 	dls.requestTimer = nil
+	if msg.Status < sip.StatusOK && dls.state >= Answered {
+		log.Printf("Ignoring late provisional response\r\n")
+		return true
+	}
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
 	}
-- 
2.43.0


From 92b60066a9262f784c38bc02a66fe2f118892970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 45/62] fix: don't call again when a BYE is redirected

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index fd3d029..c965343 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -350,7 +350,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		if msg.Contact == nil {
+		if msg.Contact == nil || dls.request != dls.invite {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
-- 
2.43.0


From dfbb0600b30c6467b030a50ff670d9453499c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 46/62] fix: spell the phrase of status 484 right

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d4ee56a..d5b47c3 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -165,7 +165,7 @@ var phrases = map[int]string{
 	StatusCallTransactionDoesNotExist:  "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                 "Loop Detected",
 	StatusTooManyHops:                  "Too Many Hops",
-	StatusAddressIncomplete:            "Address StatusIncomplete",
+	StatusAddressIncomplete:            "Address Incomplete",
 	StatusAmbiguous:                    "Ambiguous",
 	StatusBusyHere:                     "Busy Here",
 	StatusRequestTerminated:            "Request Terminated",
-- 
2.43.0


From dabadd7c4593a1f05e9d629f5301856178db4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 47/62] fix: take every provisional response for proceeding

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index c965343..e79b3ce 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -362,6 +362,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
+		if dls.state == calling {
+			dls.transition(Proceeding)
+		}
 	}
 	return true
 }
-- 
2.43.0


From 5033cdb65cd94ef6981167a9ea09f3ff0570a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 48/62] fix: don't CANCEL a new attempt because an earlier one
 got a provisional response

---
 dialog/dialog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e79b3ce..7148e17 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -182,6 +182,7 @@ func (dls *dialogState) popRoute() bool {
 	}
 	dls.populate(dls.request)
 	if dls.state < Answered {
+		dls.state = calling
 		dls.rseq = 0
 		dls.remote = nil
 		dls.lseq = dls.request.CSeq
-- 
2.43.0


From 12994a55b4d11709a82ef223d0d19569e48dcf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 49/62] fix: don't let a late failure or redirect undo an
 answered call

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7148e17..259c810 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -323,6 +323,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		log.Printf("Ignoring late provisional response\r\n")
 		return true
 	}
+	if msg.Status > sip.StatusOK && dls.state >= Answered && dls.request == dls.invite {
+		log.Printf("Ignoring late final response\r\n")
+		return true
+	}
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
 	}
-- 
2.43.0


From d0f309d22a845e7fd32de1969c596d64b4f7b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 50/62] fix: don't raise a hop limit of one to 70 when sending

---
 dialog/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 008f060..c45c25e 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -19,6 +19,7 @@ package dialog
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 
@@ -88,6 +89,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	}
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
+		if msg.MaxForwards == 0 {
+			return errors.New("Local froot loop detected")
+		}
 	}
 	ts := time.Now()
 	addTimestamp(msg, ts)
-- 
2.43.0


From 03c320b70ce20ba016ad357a5ce8f50be4cbad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 51/62] fix: choose RTP ports for IPv6 hosts too

---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index 96801c9..826f10e 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -220,7 +220,7 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 }
 
 func Listen(host string) (sock net.PacketConn, err error) {
-	if strings.Contains(host, ":") {
+	if _, _, err := net.SplitHostPort(host); err == nil {
 		return net.ListenPacket("udp", host)
 	}
 	for i := 0; i < rtpBindMaxAttempts; i++ {
-- 
2.43.0


From 8aaaec236618bdc50359c0cd3485a828fedd1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 52/62] fix: hang up when a re-INVITE's answer is never
 acknowledged

---
 dialog/dialog.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 259c810..d903bc6 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -493,10 +493,10 @@ func (dls *dialogState) resendResponse() bool {
 		dls.responseResends++
 		dls.responseTimer = time.After(duration(resendInterval))
 	} else {
-		// TODO(jart): If resending INVITE 200 OK, start sending BYE.
 		log.Printf("Timeout sending response: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
-		if !dls.popRoute() {
-			return false
+		dls.response = nil
+		if dls.state == Answered && dls.request == dls.invite {
+			return dls.sendHangup() // RFC3261 13.3.1.4
 		}
 	}
 	return true
-- 
2.43.0


From 48901146ec43178d554d0509ab3517cfbf3db8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 53/62] fix: say where a message is wrong when that's a line
 break

---
 sip/msgerror.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/msgerror.go b/sip/msgerror.go
index 380f6c8..45ee880 100644
--- a/sip/msgerror.go
+++ b/sip/msgerror.go
@@ -40,7 +40,7 @@ func (err MsgParseError) Error() string {
 	lineOffset := 0
 	for i := 0; i < len(lines); i++ {
 		b.Write(lines[i])
-		if o <= err.Offset && err.Offset < o+len(lines[i]) {
+		if o <= err.Offset && err.Offset < o+len(lines[i])+2 { // with the line break
 			line = i + 1
 			lineOffset = err.Offset - o
 			b.WriteByte('\n')
-- 
2.43.0


From 733d44dcd8f098931f52ae513a8b74d3617b9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 54/62] fix: retransmit a request with the hop limit it had

---
 dialog/dialog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d903bc6..5668f70 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -439,6 +439,7 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 			dls.errChan <- errors.New("Local froot loop detected")
 			return false
 		}
+		defer func() { msg.MaxForwards++ }() // A retransmission is the same message.
 	}
 	ts := time.Now()
 	addTimestamp(msg, ts)
-- 
2.43.0


From e7b82fd1abfa20f095f599c2593e760fa72392d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 55/62] fix: name our address on the interface the next server
 is reached through

---
 dialog/dialog.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 5668f70..828342d 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -65,6 +65,7 @@ type dialogState struct {
 	state           int              // Current state of the dialog.
 	dest            string           // Destination hostname (or IP).
 	addr            string           // Destination ip:port.
+	lhost           string           // Local address we reach it from.
 	sock            *net.UDPConn     // Outbound message socket (connected for ICMP)
 	csock           *net.UDPConn     // Inbound socket for Contact field.
 	routes          *AddressRoute    // List of SRV addresses to attempt contacting.
@@ -236,8 +237,9 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	lport := uint16(laddr.Port)
 
 	if msg.Via == nil {
-		msg.Via = &sip.Via{Host: lhost}
+		msg.Via = &sip.Via{}
 	}
+	dls.rehost(&msg.Via.Host, lhost)
 	msg.Via.Port = lport
 	branch := msg.Via.Param.Get("branch")
 	if branch != nil {
@@ -251,8 +253,9 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	}
 
 	if msg.Contact == nil {
-		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: lhost}}
+		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip"}}
 	}
+	dls.rehost(&msg.Contact.Uri.Host, lhost)
 	if dls.csock != nil {
 		msg.Contact.Uri.Port = uint16(dls.csock.LocalAddr().(*net.UDPAddr).Port)
 	} else {
@@ -268,20 +271,25 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 	if msg.Method == sip.MethodInvite {
 		if ms, ok := msg.Payload.(*sdp.SDP); ok {
-			if ms.Addr == "" {
-				ms.Addr = lhost
-			}
-			if ms.Origin.Addr == "" {
-				ms.Origin.Addr = lhost
-			}
+			dls.rehost(&ms.Addr, lhost)
+			dls.rehost(&ms.Origin.Addr, lhost)
 			if ms.Origin.ID == "" {
 				ms.Origin.ID = util.GenerateOriginID()
 			}
 		}
 	}
+	dls.lhost = lhost
 	PopulateMessage(nil, nil, msg)
 }
 
+// Fills in our address, unless the application chose another one. The next
+// server might be reached through another interface than the last one was.
+func (dls *dialogState) rehost(host *string, lhost string) {
+	if *host == "" || *host == dls.lhost {
+		*host = lhost
+	}
+}
+
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
 		if !dls.reply(msg, sip.StatusVersionNotSupported) {
-- 
2.43.0


From 07db49eea7bec7597ad552e76fb193477161e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 56/62] fix: receive datagrams of any size

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 8f07f7b..d763fee 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -24,7 +24,7 @@ import (
 )
 
 func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
-	buf := make([]byte, 2048)
+	buf := make([]byte, 65536) // RFC3261 18.1.1
 	laddr := sock.LocalAddr().(*net.UDPAddr)
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
-- 
2.43.0


From 08b3cae194ecf439e28e35b687699840596846a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 57/62] fix: look up the host media is wanted at

---
 dialog/dialog.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 828342d..5f6784f 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -436,7 +436,12 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
 	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
-		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
+		addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(ms.Addr, util.Portstr(ms.Audio.Port)))
+		if err != nil {
+			log.Printf("Media address %s unknown: %s\r\n", ms.Addr, err)
+			return
+		}
+		dls.peerChan <- addr
 	}
 }
 
-- 
2.43.0


From b2fc4aa94295875d6a712df02288c24fd0a62255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:31 +0000
Subject: [PATCH 58/62] fix: let a CSeq on the next line replace the one before
 it as well

---
 sip/msg_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index e10dc74..ab0d7a9 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -12385,7 +12385,7 @@ tr641:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+			goto tr637b
 		}
 		goto st0
 	st459:
-- 
2.43.0


From 0b9871af6744e0c140c560ce8f848d25b127f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:27 +0000
Subject: [PATCH 59/62] fix: don't end the call when a write meets the refusal
 of an earlier packet

---
 dialog/dialog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 5f6784f..35d3015 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -462,6 +462,11 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 		trace("send", dls.b.Bytes(), dls.sock.RemoteAddr())
 	}
 	_, err := dls.sock.Write(dls.b.Bytes())
+	if util.IsRefused(err) {
+		// ICMP refused what was sent before. This one is lost, so the timer decides.
+		log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
+		return true
+	}
 	if err != nil {
 		dls.errChan <- err
 		return false
-- 
2.43.0


From ee09ad9ce4372e8094614f9809aa4251cdb097da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 60/62] fix: let only the ACK of an answer stop its
 retransmission

---
 dialog/dialog.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 35d3015..eb53a66 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -392,8 +392,10 @@ func (dls *dialogState) reply(msg *sip.Msg, status int) bool {
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	if msg.Method == sip.MethodAck { // Re-INVITE response has been ACK'd.
-		dls.response = nil
-		dls.responseTimer = nil
+		if dls.response != nil && dls.response.CSeq == msg.CSeq {
+			dls.response = nil
+			dls.responseTimer = nil
+		}
 		return true
 	}
 	if msg.MaxForwards <= 0 {
-- 
2.43.0


From 97675dbbc7698cc7779d7b72ba46863fb25365ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:13 +0000
Subject: [PATCH 61/62] fix: hang up a call that is answered in spite of our
 CANCEL, and don't retry one

---
 dialog/dialog.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index eb53a66..a50f53b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -63,6 +63,7 @@ type dialogState struct {
 	peerChan        chan<- *net.UDPAddr
 	sendHangupChan  <-chan bool
 	state           int              // Current state of the dialog.
+	canceled        bool             // We hung up before there was an answer.
 	dest            string           // Destination hostname (or IP).
 	addr            string           // Destination ip:port.
 	lhost           string           // Local address we reach it from.
@@ -350,6 +351,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 				dls.transition(Answered)
 			}
 			dls.remote = msg
+			if dls.canceled { // RFC3261 9.1: The answer was faster than the CANCEL.
+				dls.canceled = false
+				return dls.sendHangup()
+			}
 		case sip.MethodBye, sip.MethodCancel:
 			dls.transition(Hangup)
 			return false
@@ -363,7 +368,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		if msg.Contact == nil || dls.request != dls.invite {
+		if msg.Contact == nil || dls.request != dls.invite || dls.canceled {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
@@ -526,6 +531,8 @@ func (dls *dialogState) resendResponse() bool {
 func (dls *dialogState) sendHangup() bool {
 	switch dls.state {
 	case Proceeding, Ringing:
+		dls.canceled = true
+		dls.routes = nil
 		return dls.send(NewCancel(dls.invite))
 	case Answered:
 		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))
-- 
2.43.0


From a5e0fe50e14f5a6cac61de0c0497069eef620c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 62/62] fix: acknowledge a failure where the INVITE went

---
 dialog/messages.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dialog/messages.go b/dialog/messages.go
index d4aad21..85b36ef 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,9 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
-	request := invite.Request
-	if msg.Contact != nil {
-		request = msg.Contact.Uri
+	// The ACK of a failure goes where the INVITE went.
+	request, route := invite.Request, invite.Route
+	if msg.Status < sip.StatusMultipleChoices {
+		route = msg.RecordRoute.Reversed()
+		if msg.Contact != nil {
+			request = msg.Contact.Uri
+		}
 	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
@@ -71,7 +75,7 @@ func NewAck(msg, invite *sip.Msg) *sip.Msg {
 		CallID:             msg.CallID,
 		CSeq:               msg.CSeq,
 		CSeqMethod:         "ACK",
-		Route:              msg.RecordRoute.Reversed(),
+		Route:              route,
 		Authorization:      invite.Authorization,
 		ProxyAuthorization: invite.ProxyAuthorization,
 		UserAgent:          GosipUA,
-- 
2.43.0

