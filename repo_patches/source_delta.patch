From a89670905b92d069707b0aeb469703509ab74478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:49 +0000
Subject: [PATCH 01/33] fix: UNIT long identifier is marked as set, so display
 and type are read

---
 a2l/unit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..cb11507 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,8 +64,8 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
-				log.Info().Msg("unit name successfully parsed")
+				u.longIdentifierSet = true
+				log.Info().Msg("unit longIdentifier successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
 				u.displaySet = true
-- 
2.43.0


From f920549a0b056e668b56e5291b29a5cb6307bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:49 +0000
Subject: [PATCH 02/33] fix: FRAME parameters are read one after the other, end
 of file inside a FRAME is an error

---
 a2l/frame.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..f0a457a 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -42,6 +42,8 @@ forLoop:
 			log.Info().Msg("frame ifData successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("frame could not be parsed")
 				break forLoop
 			} else if tok.current() == endFrameToken {
 				break forLoop
@@ -51,8 +53,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +65,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +74,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
-- 
2.43.0


From 018b6df7c1f516a4ccf406d9aa6fe91ad2363591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 03/33] fix: NO_RESCALE_X reads its data type

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From 9fa9671a2140623b4a933db850a64d1fc0c21dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 04/33] fix: MATRIX_DIM keeps every dimension instead of
 overwriting the second one

---
 a2l/matrix_dim.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..17fc1c6 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From f5e505197fb300e664e35c1b2c1ae66f8f1d91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 05/33] fix: OVERWRITE stores the conversion and input
 quantity, not the keyword itself

---
 a2l/overwrite.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..27f498a 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,6 +28,15 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
+			if tok.next() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			} else if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
 			o.conversion = tok.current()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
@@ -45,6 +54,15 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
+			if tok.next() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			} else if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
 			o.inputQuantity = tok.current()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
-- 
2.43.0


From 3161d25e0a35b21aedee6da5c7da8440f5cede9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 06/33] fix: ADDRESS_TYPE reads the word behind the keyword

---
 a2l/blob.go                | 1 +
 a2l/instance.go            | 1 +
 a2l/structure_component.go | 1 +
 a2l/type_def_blob.go       | 1 +
 a2l/type_def_structure.go  | 1 +
 5 files changed, 5 insertions(+)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From 7a2d6e767cd0cc5b49e4d8480d287297d3a1aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 07/33] fix: ENCODING reads the word behind the keyword

---
 a2l/characteristic.go          | 1 +
 a2l/type_def_characteristic.go | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..02817d7 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,13 +73,14 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
 				break forLoop
 			}
-			log.Info().Msg("typeDefCharacteristic displayIdentifier successfully parsed")
+			log.Info().Msg("typeDefCharacteristic encoding successfully parsed")
 		case extendedLimitsToken:
 			tdc.extendedLimits, err = parseExtendedLimits(tok)
 			if err != nil {
-- 
2.43.0


From 9ebdb50b7ee7efd2b765fcc8ba89b3b2eb2c1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 08/33] fix: accept the address type PLONGLONG

---
 a2l/enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..9f9cdf1 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
-- 
2.43.0


From acee60596b2b04ad999542a5017b0502ad1c0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 09/33] fix: MEASUREMENT and TYPEDEF_MEASUREMENT read the
 parameters behind the conversion

---
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From 2a60f1d4c7d58f83c24058ba0cd0b812108ae83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 10/33] fix: MEMORY_SEGMENT reads five offsets instead of one
 offset five times

---
 a2l/memory_segment.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..6df519e 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -91,7 +91,17 @@ forLoop:
 				ms.size = tok.current()
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
-				for i := 0; i < 5; i++ {
+				ms.offset[0] = tok.current()
+				for i := 1; i < 5; i++ {
+					if tok.next() == emptyToken {
+						err = errors.New("unexpected end of file")
+						log.Err(err).Msg("memorySegment offset could not be parsed")
+						break forLoop
+					} else if isKeyword(tok.current()) {
+						err = errors.New("unexpected token " + tok.current())
+						log.Err(err).Msg("memorySegment offset could not be parsed")
+						break forLoop
+					}
 					ms.offset[i] = tok.current()
 				}
 				ms.offsetSet = true
-- 
2.43.0


From 3a1092b1b288e253d9cc97b444984d1d2e3f7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 11/33] fix: an unexpected keyword in BIT_OPERATION stops the
 parser with the error

---
 a2l/bit_operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/bit_operation.go b/a2l/bit_operation.go
index ea65548..dfec724 100644
--- a/a2l/bit_operation.go
+++ b/a2l/bit_operation.go
@@ -56,6 +56,7 @@ forLoop:
 			} else if isKeyword(tok.current()) {
 				err = errors.New("unexpected token " + tok.current())
 				log.Err(err).Msg("bitOperation could not be parsed")
+				break forLoop
 			}
 		}
 	}
-- 
2.43.0


From c49c6cb479c0ed9fd85c423d288f0a67dec3c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:50 +0000
Subject: [PATCH 12/33] fix: a keyword or the end of file is not taken as a
 table text or criterion value

---
 a2l/compu_vtab.go         | 10 +++++++++-
 a2l/compu_vtab_range.go   | 10 +++++++++-
 a2l/var_forbidden_comb.go |  9 ++++++---
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/a2l/compu_vtab.go b/a2l/compu_vtab.go
index 4bb0a5a..9b4d4b6 100644
--- a/a2l/compu_vtab.go
+++ b/a2l/compu_vtab.go
@@ -85,7 +85,15 @@ forLoop:
 					cvt.InValSet = true
 					log.Info().Msg("compuVtab inVal successfully parsed")
 				}
-				tok.next()
+				if tok.next() == emptyToken {
+					err = errors.New("unexpected end of file")
+					log.Err(err).Msg("compuVtab outVal could not be parsed")
+					break forLoop
+				} else if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtab outVal could not be parsed")
+					break forLoop
+				}
 				cvt.OutVal = append(cvt.OutVal, tok.current())
 				log.Info().Msg("compuVtab outVal successfully parsed")
 				if uint16(len(cvt.OutVal)) == cvt.NumberValuePairs {
diff --git a/a2l/compu_vtab_range.go b/a2l/compu_vtab_range.go
index 9996d86..63fbb57 100644
--- a/a2l/compu_vtab_range.go
+++ b/a2l/compu_vtab_range.go
@@ -90,7 +90,15 @@ forLoop:
 					cvr.InValMaxSet = true
 					log.Info().Msg("compuVtabRange inValMax successfully parsed")
 				}
-				tok.next()
+				if tok.next() == emptyToken {
+					err = errors.New("unexpected end of file")
+					log.Err(err).Msg("compuVtabRange outVal could not be parsed")
+					break forLoop
+				} else if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtabRange outVal could not be parsed")
+					break forLoop
+				}
 				cvr.OutVal = append(cvr.OutVal, tok.current())
 				log.Info().Msg("compuVtabRange outVal successfully parsed")
 				if uint16(len(cvr.OutVal)) == cvr.NumberValueTriples {
diff --git a/a2l/var_forbidden_comb.go b/a2l/var_forbidden_comb.go
index b1dcae9..52b52c2 100644
--- a/a2l/var_forbidden_comb.go
+++ b/a2l/var_forbidden_comb.go
@@ -35,13 +35,16 @@ forLoop:
 			break forLoop
 		} else if !vfc.criterionNameSet || !vfc.criterionValueSet {
 			vfc.criterionName = append(vfc.criterionName, tok.current())
-			if tok.next() != emptyToken {
-				vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
-			} else {
+			if tok.next() == emptyToken {
 				err = errors.New("unexpected end of file")
 				log.Err(err).Msg("varForbiddenComb could not be parsed")
 				break forLoop
+			} else if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("varForbiddenComb could not be parsed")
+				break forLoop
 			}
+			vfc.criterionValue = append(vfc.criterionValue, tok.current())
 		}
 	}
 	return vfc, err
-- 
2.43.0


From 7ddbfa7e1df41005182852528353e317dbad31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 13/33] fix: MATRIX_DIM ends in front of READ_ONLY and
 READ_WRITE

---
 a2l/matrix_dim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 17fc1c6..6586f1d 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
-- 
2.43.0


From 2cf50a6243a9773f5b88ff72162314604135269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 14/33] fix: FNC_VALUES index modes are no keywords,
 FIX_AXIS_PAR is one

---
 a2l/tokens.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..c679f2e 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
@@ -543,6 +540,7 @@ var keywordMap = map[string]uint8{
 	"EPK":                             0,
 	"ERROR_MASK":                      0,
 	"EXTENDED_LIMITS":                 0,
+	"FIX_AXIS_PAR":                    0,
 	"FIX_AXIS_PAR_DIST":               0,
 	"FIX_NO_AXIS_PTS_4":               0,
 	"FIX_NO_AXIS_PTS_5":               0,
-- 
2.43.0


From 27c90d63c6d4b0b58209abf4a2735e80d644ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:42 +0000
Subject: [PATCH 15/33] fix: WORD data types are 16 bit wide, LONG data sizes
 32 bit

---
 a2l/enums.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index 9f9cdf1..d0a822b 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -41,13 +41,13 @@ const (
 	UBYTE DataTypeEnum = ubyteToken
 	//SBYTE is defined as an unsigned 8 bit integer
 	SBYTE DataTypeEnum = sbyteToken
-	//UWORD seems to be statically defined as a 32 bit unsigned integer
+	//UWORD is defined as a 16 bit unsigned integer
 	UWORD DataTypeEnum = uwordToken
-	//SWORD seems to be statically defined as a 32 bit signed integer
+	//SWORD is defined as a 16 bit signed integer
 	SWORD DataTypeEnum = swordToken
-	//ULONG is defined as a 64 bit unsigned integer
+	//ULONG is defined as a 32 bit unsigned integer
 	ULONG DataTypeEnum = ulongToken
-	//SLONG is defined as a 64 bit signed integer
+	//SLONG is defined as a 32 bit signed integer
 	SLONG DataTypeEnum = slongToken
 	//AUint64 is defined as a 64 bit unsigned integer
 	AUint64 DataTypeEnum = aUint64Token
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
-- 
2.43.0


From ebc623e5aa3d2f727a9dfcb6f9a70a56e28871a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:43 +0000
Subject: [PATCH 16/33] fix: raw bytes are read with the width of their data
 type, float16 by its value

---
 record_manager.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 9385892..109accd 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -157,16 +157,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -175,7 +175,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			val := int64(binary.BigEndian.Uint64(byteSlice))
 			return float64(val), nil
 		case a2l.Float16Ieee:
-			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice))
+			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice)).Float32()
 			return float64(val), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.BigEndian.Uint32(byteSlice))
@@ -195,16 +195,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
@@ -213,7 +213,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			val := int64(binary.LittleEndian.Uint64(byteSlice))
 			return float64(val), nil
 		case a2l.Float16Ieee:
-			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice))
+			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice)).Float32()
 			return float64(val), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.LittleEndian.Uint32(byteSlice))
-- 
2.43.0


From 8a5992172e4afbcaf3c2a49a9801e93e4020c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 17/33] fix: the value of a system constant is returned

---
 record_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 109accd..c1ed21f 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -31,13 +31,12 @@ func (cd *CalibrationData) getSystemConstantValue(ident string) (string, error)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	var val string
 	if !sc.ValueSet {
 		err = errors.New("no value defined in system constant " + sc.Name)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	return val, nil
+	return sc.Value, nil
 }
 
 // GetObjectByIdent returns an object with a given identifier that is defined within the a2l
-- 
2.43.0


From 390381b6c5a817df14022d32fea4356e61e9d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 18/33] fix: getBytes allocates a slice of length 0 and the
 capacity needed

---
 calib_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index d061669..484881f 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -481,7 +481,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
 	nBytes := length / 8
-	bytes := make([]byte, nBytes, 0)
+	bytes := make([]byte, 0, nBytes)
 	if length%8 != 0 {
 		err := errors.New("unexpected number of bits " + strconv.Itoa(int(length)) + ". Expected a multiple of 8.")
 		log.Error().Err(err).Msg("invalid length")
-- 
2.43.0


From 81c34c2d65dd38e74be05297fe0203832d0517e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 19/33] fix: alignment moves to the next multiple of the border

---
 calib_data.go | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 484881f..41d435c 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -201,7 +201,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -210,14 +210,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -226,7 +226,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -235,14 +235,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -251,7 +251,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -260,14 +260,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -276,7 +276,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -285,14 +285,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -301,7 +301,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -310,14 +310,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -326,7 +326,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -335,14 +335,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -351,7 +351,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -360,14 +360,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -376,7 +376,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -385,14 +385,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -401,7 +401,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -410,14 +410,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -426,7 +426,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -435,14 +435,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -451,7 +451,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -460,14 +460,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
-- 
2.43.0


From f142f858430dacae4fffe07b30a2fb63ca12f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:44 +0000
Subject: [PATCH 20/33] fix: an alignment border of 0 does not crash, it is
 taken as not set

---
 calib_data.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 41d435c..b70863d 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -198,7 +198,7 @@ func (cd *CalibrationData) getRecordLayout(c *a2l.Characteristic) (*a2l.RecordLa
 func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) uint32 {
 	switch dte {
 	case a2l.UBYTE:
-		if rl.AlignmentByte.AlignmentBorderSet {
+		if rl.AlignmentByte.AlignmentBorderSet && rl.AlignmentByte.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
@@ -207,7 +207,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentByte
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -223,7 +223,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.SBYTE:
-		if rl.AlignmentByte.AlignmentBorderSet {
+		if rl.AlignmentByte.AlignmentBorderSet && rl.AlignmentByte.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
@@ -232,7 +232,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentByte
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -248,7 +248,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.UWORD:
-		if rl.AlignmentWord.AlignmentBorderSet {
+		if rl.AlignmentWord.AlignmentBorderSet && rl.AlignmentWord.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
@@ -257,7 +257,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -273,7 +273,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.SWORD:
-		if rl.AlignmentWord.AlignmentBorderSet {
+		if rl.AlignmentWord.AlignmentBorderSet && rl.AlignmentWord.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
@@ -282,7 +282,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -298,7 +298,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.ULONG:
-		if rl.AlignmentLong.AlignmentBorderSet {
+		if rl.AlignmentLong.AlignmentBorderSet && rl.AlignmentLong.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
@@ -307,7 +307,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -323,7 +323,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.SLONG:
-		if rl.AlignmentLong.AlignmentBorderSet {
+		if rl.AlignmentLong.AlignmentBorderSet && rl.AlignmentLong.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
@@ -332,7 +332,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -348,7 +348,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.AUint64:
-		if rl.AlignmentInt64.AlignmentBorderSet {
+		if rl.AlignmentInt64.AlignmentBorderSet && rl.AlignmentInt64.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
@@ -357,7 +357,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentInt64
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -373,7 +373,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.AInt64:
-		if rl.AlignmentInt64.AlignmentBorderSet {
+		if rl.AlignmentInt64.AlignmentBorderSet && rl.AlignmentInt64.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
@@ -382,7 +382,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentInt64
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -398,7 +398,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.Float16Ieee:
-		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
+		if rl.AlignmentFloat16Ieee.AlignmentBorderSet && rl.AlignmentFloat16Ieee.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
@@ -407,7 +407,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat16Ieee
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -423,7 +423,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.Float32Ieee:
-		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
+		if rl.AlignmentFloat32Ieee.AlignmentBorderSet && rl.AlignmentFloat32Ieee.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
@@ -432,7 +432,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat32Ieee
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -448,7 +448,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.Float64Ieee:
-		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
+		if rl.AlignmentFloat64Ieee.AlignmentBorderSet && rl.AlignmentFloat64Ieee.AlignmentBorder != 0 {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
@@ -457,7 +457,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat64Ieee
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder != 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
-- 
2.43.0


From c69770d6d51f6fc68c54018db0a22f73822cdd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 21/33] fix: the read position moves by bytes, behind the value
 at the aligned address

---
 axis_pts.go       | 10 +++++-----
 distOp.go         | 10 +++++-----
 fnc_values.go     |  4 ++--
 identification.go |  2 +-
 no_axis_pts.go    | 10 +++++-----
 no_rescale_x.go   |  2 +-
 offsetOp.go       | 10 +++++-----
 reserved.go       |  2 +-
 shiftOp.go        | 10 +++++-----
 9 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/axis_pts.go b/axis_pts.go
index e5a19b9..3146dee 100644
--- a/axis_pts.go
+++ b/axis_pts.go
@@ -45,7 +45,7 @@ func (cv *CharacteristicValues) getAxisPointsX(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos = cd.getNextAlignedAddress(*curPos, rl.AxisPtsX.Datatype, rl) + uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()/8)
 	}
 	return val, err
 }
@@ -84,7 +84,7 @@ func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength())
+		*curPos = cd.getNextAlignedAddress(*curPos, rl.AxisPtsY.Datatype, rl) + uint32(rl.AxisPtsY.Datatype.GetDatatypeLength()/8)
 	}
 	return val, err
 }
@@ -123,7 +123,7 @@ func (cv *CharacteristicValues) getAxisPointsZ(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength())
+		*curPos = cd.getNextAlignedAddress(*curPos, rl.AxisPtsZ.Datatype, rl) + uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength()/8)
 	}
 	return val, err
 }
@@ -162,7 +162,7 @@ func (cv *CharacteristicValues) getAxisPoints4(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength())
+		*curPos = cd.getNextAlignedAddress(*curPos, rl.AxisPts4.Datatype, rl) + uint32(rl.AxisPts4.Datatype.GetDatatypeLength()/8)
 	}
 	return val, err
 }
@@ -201,7 +201,7 @@ func (cv *CharacteristicValues) getAxisPoints5(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength())
+		*curPos = cd.getNextAlignedAddress(*curPos, rl.AxisPts5.Datatype, rl) + uint32(rl.AxisPts5.Datatype.GetDatatypeLength()/8)
 	}
 	return val, err
 }
diff --git a/distOp.go b/distOp.go
index b71553a..253ccc2 100644
--- a/distOp.go
+++ b/distOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getDistOpX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.DistOpX.Datatype, rl) + uint32(rl.DistOpX.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getDistOpY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.DistOpY.Datatype, rl) + uint32(rl.DistOpY.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getDistOpZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.DistOpZ.Datatype, rl) + uint32(rl.DistOpZ.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getDistOp4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.DistOp4.Datatype, rl) + uint32(rl.DistOp4.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getDistOp5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.DistOp5.Datatype, rl) + uint32(rl.DistOp5.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
diff --git a/fnc_values.go b/fnc_values.go
index dad7048..3d87cf6 100644
--- a/fnc_values.go
+++ b/fnc_values.go
@@ -23,7 +23,7 @@ func (cv *CharacteristicValues) getFncValues1D(cd *CalibrationData, rl *a2l.Reco
 		log.Err(err).Msg("could not retrieve FncValues values")
 		return 0.0, bufByte, err
 	}
-	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.FncValues.Datatype, rl) + uint32(rl.FncValues.Datatype.GetDatatypeLength()/8)
 	return bufFloat, bufByte, err
 }
 
@@ -61,7 +61,7 @@ func (cv *CharacteristicValues) getFncValues2D(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos = cd.getNextAlignedAddress(*curPos, rl.AxisPtsX.Datatype, rl) + uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()/8)
 	}
 	return val, err
 }
diff --git a/identification.go b/identification.go
index 5e90e66..7ef477b 100644
--- a/identification.go
+++ b/identification.go
@@ -20,6 +20,6 @@ func (cd *CalibrationData) getIdentification(rl *a2l.RecordLayout, curPos *uint3
 		log.Err(err).Msg("could not retrieve identification value")
 		return nil, err
 	}
-	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.Identification.Datatype, rl) + uint32(rl.Identification.Datatype.GetDatatypeLength()/8)
 	return val, err
 }
diff --git a/no_axis_pts.go b/no_axis_pts.go
index 766b01f..7f1c7e0 100644
--- a/no_axis_pts.go
+++ b/no_axis_pts.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getNoAxisPtsX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.NoAxisPtsX.Datatype, rl) + uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getNoAxisPtsY(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.NoAxisPtsY.Datatype, rl) + uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getNoAxisPtsZ(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.NoAxisPtsZ.Datatype, rl) + uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getNoAxisPts4(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.NoAxisPts4.Datatype, rl) + uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getNoAxisPts5(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.NoAxisPts5.Datatype, rl) + uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
diff --git a/no_rescale_x.go b/no_rescale_x.go
index a90ae17..e96f960 100644
--- a/no_rescale_x.go
+++ b/no_rescale_x.go
@@ -24,6 +24,6 @@ func (cd *CalibrationData) getNoRescaleX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noRescaleX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.NoRescaleX.Datatype, rl) + uint32(rl.NoRescaleX.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
diff --git a/offsetOp.go b/offsetOp.go
index f5a194d..6e4ee06 100644
--- a/offsetOp.go
+++ b/offsetOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getOffsetX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.OffsetX.Datatype, rl) + uint32(rl.OffsetX.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getOffsetY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.OffsetY.Datatype, rl) + uint32(rl.OffsetY.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getOffsetZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.OffsetZ.Datatype, rl) + uint32(rl.OffsetZ.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getOffset4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.Offset4.Datatype, rl) + uint32(rl.Offset4.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getOffset5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.Offset5.Datatype, rl) + uint32(rl.Offset5.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
diff --git a/reserved.go b/reserved.go
index 6602641..9411492 100644
--- a/reserved.go
+++ b/reserved.go
@@ -16,6 +16,6 @@ func (cd *CalibrationData) getReserved(rl *a2l.RecordLayout, curPos *uint32) err
 		return err
 	}
 	//Value of reserved is not relevant. Only its datasize and the resulting offset for other datastructres are necessary
-	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength())
+	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength() / 8)
 	return nil
 }
diff --git a/shiftOp.go b/shiftOp.go
index 256ee1b..faeee72 100644
--- a/shiftOp.go
+++ b/shiftOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getShiftOpX(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.ShiftOpX.Datatype, rl) + uint32(rl.ShiftOpX.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getShiftOpY(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.ShiftOpY.Datatype, rl) + uint32(rl.ShiftOpY.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getShiftOpZ(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.ShiftOpZ.Datatype, rl) + uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getShiftOp4(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.ShiftOp4.Datatype, rl) + uint32(rl.ShiftOp4.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getShiftOp5(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength())
+	*curPos = cd.getNextAlignedAddress(*curPos, rl.ShiftOp5.Datatype, rl) + uint32(rl.ShiftOp5.Datatype.GetDatatypeLength()/8)
 	return int64(val), err
 }
-- 
2.43.0


From 64bb7ed69af2756ac3f731aa9ff7920623d4ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 22/33] fix: an interpolated table conversion is reported as
 not implemented instead of yielding 0

---
 compu_methods.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compu_methods.go b/compu_methods.go
index eebbb44..c69c460 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -38,6 +38,9 @@ func convDecToPhy(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float6
 		}
 		return phy, err
 	case a2l.TabIntp:
+		//implement if found in prod data.
+		err = errors.New("conversion method 'TabIntp' not implemented for compuMethod " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	case a2l.TabNointp:
 		phy, err := calcTabNoIntp(dec, cm, cd)
-- 
2.43.0


From de3dce8cd2cb47b33d4320e890c345c3f2e948ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 23/33] fix: a verbal range table compares with both limits of
 the rows it has

---
 compu_methods.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index c69c460..616b9e2 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -69,9 +69,8 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 		return "", err
 	}
 	if tabRange.NumberValueTriplesSet {
-		var i uint16
-		for i = 0; i < tabRange.NumberValueTriples; i++ {
-			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMin[i] {
+		for i := range tabRange.InValMin {
+			if tabRange.InValMin[i] <= dec && dec <= tabRange.InValMax[i] {
 				return tabRange.OutVal[i], err
 			}
 		}
-- 
2.43.0


From b680cec3995f575a30be49aa398a2db19eeaa2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 24/33] fix: a missing conversion table is an error

---
 compu_methods.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 616b9e2..16e2e13 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -167,11 +167,9 @@ func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float
 	var err error
 	tab, exists := cd.A2l.Project.Modules[cd.ModuleIndex].CompuTabs[cm.CompuTabRef.ConversionTable]
 	if !exists {
-		if err != nil {
-			err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
-			log.Err(err).Msg("decimal value could not be converted")
-			return dec, err
-		}
+		err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
+		return dec, err
 	}
 	if tab.InValSet && tab.OutValSet {
 		for i := range tab.InVal {
-- 
2.43.0


From 92508cbbae9471f292b48d594d3518ce925dc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:36 +0000
Subject: [PATCH 25/33] fix: the address text of a characteristic is a
 hexadecimal number of any length, independent of the data byte order

---
 record_manager.go | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index c1ed21f..d980b32 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -2,7 +2,6 @@ package calibrationReader
 
 import (
 	"encoding/binary"
-	"encoding/hex"
 	"errors"
 	"fmt"
 	"math"
@@ -99,35 +98,14 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	return calibrationObjects
 }
 
-// hexToByteSlice converts at least a four character hexString to a slice of several bytes. fails if input is too short or not valid hex.
-func hexToByteSlice(hexVal string) ([]byte, error) {
-	decoded, err := hex.DecodeString(hexVal)
-	if err != nil {
-		log.Err(err).Msg("could not decode hex string " + hexVal)
-	}
-	return decoded, err
-}
-
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
-	var val uint32
-	byteSlice, err := hexToByteSlice(strings.ReplaceAll(str, "0x", ""))
+	val, err := strconv.ParseUint(strings.ReplaceAll(str, "0x", ""), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
-		return val, err
-	}
-	modCom := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
-	if modCom.ByteOrder.ByteOrder == a2l.MsbFirstMswLast || modCom.ByteOrder.ByteOrder == a2l.MsbLastMswFirst {
-		err = errors.New("unexpected byte order")
-		log.Err(err).Msg("byte order " + modCom.ByteOrder.ByteOrder.String() + "not implemented")
-		return val, err
-	}
-	if !modCom.ByteOrder.ByteOrderSet || modCom.ByteOrder.ByteOrder == a2l.BigEndian || modCom.ByteOrder.ByteOrder == a2l.MsbFirst {
-		val = binary.BigEndian.Uint32(byteSlice)
-	} else {
-		val = binary.LittleEndian.Uint32(byteSlice)
+		return 0, err
 	}
-	return val, nil
+	return uint32(val), nil
 }
 
 // converts a byteSlice into a a2l.DatatypeEnum datatype.
-- 
2.43.0


From ab3cc5a725065d6699b3e5239ef5e8d959f6ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 26/33] fix: an Intel-HEX line that is no record is an error
 instead of ending its worker silently

---
 ihex32/hex.go    | 17 +++++++++++++----
 ihex32/record.go |  2 +-
 ihex32/tokens.go |  3 +++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..c768835 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//errChan receives at most one error per parser
+	errChan := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errChan, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//all parsers have finished as their channels are closed
+	close(errChan)
+	for err = range errChan {
+		return h, err
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +245,16 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// Blank lines are skipped. The first line that is no valid record is reported via the error channel.
+func parseRecordRoutine(c chan []*record, e chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if strings.Trim(l, blankCharacters) != "" {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("line '" + l + "' could not be parsed")
+				e <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..b485ed6 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -27,7 +27,7 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	if line[0] == beginLineToken[0] && len(line) >= 11 {
+	if len(line) >= 11 && line[0] == beginLineToken[0] {
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index 8cf284d..3813f50 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -11,3 +11,6 @@ const dataRecordToken = "00"
 const extendedLinearAddressRecordToken = "04"
 
 //const startLinearAddressRecordToken = "05"
+
+//blankCharacters may make up a line that holds no record: white space and the end of file mark of DOS
+const blankCharacters = " \t\r\n\x1a"
-- 
2.43.0


From 6634fbae157df5c71d6862368c471f42b97a36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 27/33] fix: header, count and termination S-records are
 skipped, other lines that are no S3 record are an error

---
 srec19/hex.go    | 21 ++++++++++++++++-----
 srec19/record.go |  8 ++++++++
 srec19/tokens.go |  6 ++++++
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..480951e 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//errChan receives at most one error per parser
+	errChan := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errChan, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//all parsers have finished as their channels are closed
+	close(errChan)
+	for err = range errChan {
+		return h, err
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -227,17 +234,21 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// Blank lines are skipped. The first line that is no valid record is reported via the error channel.
+func parseRecordRoutine(c chan []*record, e chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if strings.Trim(l, blankCharacters) != "" {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("line '" + l + "' could not be parsed")
+				e <- err
 				break forLoop
 			}
-			recs = append(recs, r)
+			if r.recordType == dataRecordToken {
+				recs = append(recs, r)
+			}
 		}
 	}
 	c <- recs
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..79003a1 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -26,6 +27,10 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
+	if len(line) < 2 {
+		err := errors.New("entry is too short")
+		return &r, err
+	}
 	r.recordType = line[1:2]
 	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
 		r.byteCount = line[2:4]
@@ -35,6 +40,9 @@ func parseRecord(line string) (*record, error) {
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
+	} else if line[0] == beginLineToken[0] && strings.Contains(otherRecordTokens, r.recordType) {
+		//header, count and termination records carry no data
+		return &r, nil
 	} else {
 		err := errors.New("entry has no begin line symbol or is too short")
 		return &r, err
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..9e493b3 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,9 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+
+//otherRecordTokens are the types of the header, count and termination records
+const otherRecordTokens = "056789"
+
+//blankCharacters may make up a line that holds no record: white space and the end of file mark of DOS
+const blankCharacters = " \t\r\n\x1a"
-- 
2.43.0


From a0e35a5fe58bac1b6c32fab8976d7d6b57b5d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:24 +0000
Subject: [PATCH 28/33] fix: a record whose length does not match its byte
 count is rejected

---
 ihex32/record.go | 12 ++++++++++--
 srec19/record.go |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index b485ed6..eb1f59d 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -29,16 +29,24 @@ func parseRecord(line string) (*record, error) {
 	r := record{}
 	if len(line) >= 11 && line[0] == beginLineToken[0] {
 		r.byteCount = line[1:3]
+		count, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(count) {
+			err = errors.New("length of the line does not match its byte count")
+			return &r, err
+		}
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
 		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+			if len(line) == 15 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err := errors.New("extended address record does not hold two bytes")
 				return &r, err
 			}
 		} else {
diff --git a/srec19/record.go b/srec19/record.go
index 79003a1..b203e55 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -34,6 +34,14 @@ func parseRecord(line string) (*record, error) {
 	r.recordType = line[1:2]
 	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
 		r.byteCount = line[2:4]
+		count, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if count < 5 || len(line) != 4+2*int(count) {
+			err = errors.New("length of the line does not match its byte count")
+			return &r, err
+		}
 		r.addressField = line[4:12]
 		for i := 12; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
-- 
2.43.0


From 92138132f12324fb48f80eba03a003322b672564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:25 +0000
Subject: [PATCH 29/33] fix: an extended linear address of 0 does not end the
 propagation of the offsets

---
 ihex32/record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index eb1f59d..6874177 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -74,7 +74,7 @@ forLoop:
 			offs = recs[i].offset
 			firstRecordAfterNewOffset = true
 		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
+			if firstRecordAfterNewOffset && recs[i].offset == offs && offs != "0000" /*0000 is the init value, so nobody needs to have been here*/ {
 				recs[i].rwm.Unlock()
 				break forLoop
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-- 
2.43.0


From 27ad8af27fad17e5e04e0b68a195c28763e58f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:24 +0000
Subject: [PATCH 30/33] fix: the reader of the hex file is chosen by the
 extension of the file name

---
 calib_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index b70863d..a164ff0 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -122,7 +122,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if strings.HasSuffix(strings.ToLower(hexFilePath), ".hex") {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -134,7 +134,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if strings.HasSuffix(strings.ToLower(hexFilePath), ".s19") {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From c787ea48fe2e2de10ebb2b17fc59571fd706ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:42 +0000
Subject: [PATCH 31/33] fix: the parts of a module parsed in parallel end
 between two blocks, no block is skipped

---
 a2l/module.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..4f657d9 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -417,17 +418,19 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
+	minIndex := startIndex
 	for i := 0; i < numProc; i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
+		//each parser reads the tokens behind minIndex up to and including maxIndex
+		maxIndex := endIndex
+		if i+1 < numProc {
+			maxIndex = nextBlockBorder(minIndex, startIndex+((endIndex-startIndex)/numProc)*(i+1), endIndex)
 		}
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
 			cCompuTab, cCompuVtab, cCompuVtabRange, cFrame, cFunction, cGroup, cIfData, cMeasurement, cModCommon,
 			cModPar, cRecordLayout, cInstance, cTransformer, cTypeDefAxis, cTypeDefBlob, cTypeDefCharacteristic, cTypeDefMeasurement, cTypeDefStructure, cUnit, cUserRights, cVariantCoding, cError)
+		minIndex = maxIndex
 	}
 	//Start Go Routine that monitors when the parsers are done and then closes the channels.
 	//this way the collectorroutines know when they're done.
@@ -449,6 +452,22 @@ forLoop:
 	return myModule, err
 }
 
+// nextBlockBorder returns the first index, not smaller than wantedIndex, at which every block opened behind minIndex
+// has been closed again, so that no parser starts or ends within a block. It is endIndex if there is none before it.
+func nextBlockBorder(minIndex int, wantedIndex int, endIndex int) int {
+	depth := 0
+	index := minIndex
+	for index < endIndex && (index < wantedIndex || depth > 0) {
+		index++
+		if strings.HasPrefix(tokenList[index], "/begin ") {
+			depth++
+		} else if strings.HasPrefix(tokenList[index], "/end ") {
+			depth--
+		}
+	}
+	return index
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
-- 
2.43.0


From d5ddd115bdfe6d1395edd20caf1c6cd94c715f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:15 +0000
Subject: [PATCH 32/33] fix: the tokens do not depend on where the text is
 divided between the workers

---
 a2l/token_generator.go | 54 +++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..d76dcdb 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -14,6 +14,16 @@ const expectedNumberOfTokens = 3000000
 var tokenList []string
 var moduleCount uint32
 
+// errEndOfText is returned when the text ends behind a complete token or comment
+var errEndOfText = errors.New("reached eof")
+
+// tokenPart contains the tokens of a part of the text.
+// complete is false if the part ends within a token or a comment
+type tokenPart struct {
+	tokens   []string
+	complete bool
+}
+
 type tokenGenerator struct {
 	index int
 }
@@ -48,7 +58,7 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
 	//Split text file into lines and the lines into words separated by whitespace
-	var locTokens []chan []string
+	var locTokens []chan tokenPart
 	tokenList = make([]string, 0, expectedNumberOfTokens)
 	lines := strings.Split(str, "\n")
 	for i := 0; i < numProc; i++ {
@@ -59,16 +69,23 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 			//integer divisions might round up or down, so we make sure that we get the "real" end here
 			end = len(lines)
 		}
-		c := make(chan []string, 1)
+		c := make(chan tokenPart, 1)
 		locTokens = append(locTokens, c)
 		go tokenBuilderRoutine(lines[start:end], c)
 	}
 	//collect token lists from channels
+	complete := true
 	for _, c := range locTokens {
 		for t := range c {
-			tokenList = append(tokenList, t...)
+			tokenList = append(tokenList, t.tokens...)
+			complete = complete && t.complete
 		}
 	}
+	if !complete && numProc > 1 {
+		//a text, a comment or a keyword reaches across the border of two parts, so they have to be read as a whole
+		moduleCount = 0
+		tokenList = append(tokenList[:0], buildTokenList(splitLinesIntoWords(lines)).tokens...)
+	}
 	tokenList = append(tokenList, emptyToken)
 	tg := tokenGenerator{}
 	tg.index = 0
@@ -85,7 +102,13 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
-func tokenBuilderRoutine(lines []string, c chan []string) {
+func tokenBuilderRoutine(lines []string, c chan tokenPart) {
+	c <- buildTokenList(splitLinesIntoWords(lines))
+	close(c)
+}
+
+// splitLinesIntoWords returns the words of all lines that are not blank
+func splitLinesIntoWords(lines []string) [][]string {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
 	for _, l := range lines {
@@ -93,11 +116,10 @@ func tokenBuilderRoutine(lines []string, c chan []string) {
 			fields = append(fields, strings.Fields(l))
 		}
 	}
-	c <- buildTokenList(fields)
-	close(c)
+	return fields
 }
 
-func buildTokenList(str [][]string) []string {
+func buildTokenList(str [][]string) tokenPart {
 	var err error
 	tl := make([]string, 0, expectedNumberOfTokens/numProc)
 	currentOuterIndex := 0
@@ -109,7 +131,7 @@ func buildTokenList(str [][]string) []string {
 		t, err = buildNextValidToken(&currentOuterIndex, &currentInnerIndex, str, firstRun)
 		firstRun = false
 		if err != nil {
-			return tl
+			return tokenPart{tokens: tl, complete: err == errEndOfText}
 		}
 		if t != emptyToken {
 			if strings.Contains(t, "*/") && !strings.Contains(t, "*/") {
@@ -128,7 +150,7 @@ func buildTokenList(str [][]string) []string {
 				tl = append(tl, t)
 			}
 		} else {
-			return tl
+			return tokenPart{tokens: tl}
 		}
 	}
 }
@@ -151,8 +173,8 @@ func buildNextValidToken(currentOuterIndex *int, currentInnerIndex *int, str [][
 				return emptyToken, err
 			}
 		} else {
-			err = errors.New("index out of bounds with outer index " + strconv.Itoa((*currentOuterIndex)) + " of " + strconv.Itoa(len(str)))
-			return emptyToken, err
+			//there are no words at all
+			return emptyToken, errEndOfText
 		}
 	}
 start:
@@ -218,7 +240,7 @@ func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]str
 			*currentInnerIndex = 0
 			return str[*currentOuterIndex][*currentInnerIndex], nil
 		} else {
-			return emptyToken, errors.New("reached eof")
+			return emptyToken, errEndOfText
 		}
 
 	} else {
@@ -237,7 +259,7 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 			//Until the delimiter of the multiline comment is found
 			if err != nil {
-				return emptyToken, err
+				return emptyToken, errors.New("reached eof within a comment")
 			}
 			if strings.Contains(t, endMultilineCommentToken) {
 				t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
@@ -272,7 +294,7 @@ func getTextInQuotationMarks(currentOuterIndex *int, currentInnerIndex *int, str
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 			if err != nil {
-				return emptyToken, err
+				return emptyToken, errors.New("reached eof within a text in quotation marks")
 			}
 			textInQuotationMarks = textInQuotationMarks + spaceToken + t
 			//Until there is an even number of quotation marks
@@ -303,7 +325,7 @@ func moveToNextRawValue(currentOuterIndex *int, currentInnerIndex *int, str [][]
 		str[*currentOuterIndex] = append(str[*currentOuterIndex], emptyToken)
 		*currentInnerIndex++
 		//reached EOF
-		return emptyToken, errors.New("reached eof")
+		return emptyToken, errEndOfText
 	} else if len(str[*currentOuterIndex])-1 == *currentInnerIndex && len(str)-1 > *currentOuterIndex {
 		//then go the next line and move to its first token
 		*currentOuterIndex++
@@ -337,7 +359,7 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 		twoWordedToken := t
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
-			return emptyToken, err
+			return emptyToken, errors.New("reached eof behind " + twoWordedToken)
 		}
 		twoWordedToken = twoWordedToken + spaceToken + t
 		return twoWordedToken, nil
-- 
2.43.0


From 2cddba23d680b3d5118ad130d234d25f212565a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:15 +0000
Subject: [PATCH 33/33] fix: the comment that starts first counts, and /*/ does
 not end the comment it starts

---
 a2l/token_generator.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index d76dcdb..75e5753 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -184,7 +184,7 @@ start:
 		qtp := strings.Index(t, quotationMarkToken)
 		lcp := strings.Index(t, beginLineCommentToken)
 		mlcp := strings.Index(t, beginMultilineCommentToken)
-		if mlcp != -1 && mlcp < qtp {
+		if mlcp != -1 && mlcp < qtp && (lcp == -1 || mlcp < lcp) {
 			//if the beginning of a multiline comment is present and its position is before the quotation mark, then skip the comment
 			t, err = skipMultilineComment(currentOuterIndex, currentInnerIndex, str)
 			if err != nil {
@@ -208,7 +208,8 @@ start:
 			}
 			return textInQuotationMarks, nil
 		}
-	} else if strings.Contains(t, beginLineCommentToken) {
+	} else if lcp, mlcp := strings.Index(t, beginLineCommentToken), strings.Index(t, beginMultilineCommentToken); lcp != -1 && (mlcp == -1 || lcp < mlcp) {
+		//if both kinds of comments are present then the first one counts
 		t, err = skipLineComment(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
 			return emptyToken, err
@@ -253,7 +254,9 @@ func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]str
 func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]string) (string, error) {
 	var err error
 	t := str[*currentOuterIndex][*currentInnerIndex]
-	if strings.Contains(t, beginMultilineCommentToken) && !strings.Contains(t, endMultilineCommentToken) {
+	begin := strings.Index(t, beginMultilineCommentToken)
+	//the delimiter has to be behind the begin, "/*/" does not end the comment it starts
+	if begin != -1 && !strings.Contains(t[begin+len(beginMultilineCommentToken):], endMultilineCommentToken) {
 		//Get the next token in a Loop
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
@@ -271,7 +274,7 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 			}
 
 		}
-	} else if strings.Contains(t, beginMultilineCommentToken) && strings.Contains(t, endMultilineCommentToken) {
+	} else if begin != -1 {
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		return t, err
 	} else {
-- 
2.43.0

