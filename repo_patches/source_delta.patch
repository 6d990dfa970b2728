From 35458c1002e0c8a83064a398a73f57c81ef8c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 01/63] fix: give variable-size struct fields no fixed width

A normal field whose type is a variable-size struct was recorded with the
width of that struct's fixed part. The field offset therefore advanced twice
(fixed width plus the encoded size), leaving gap bytes on the wire, and
decode_size skipped the field altogether. Report -1 as String, Bytes and
Array already do; the C++ decode_size template for such a field, never
reached before, looked up the element type of a non-array.
---
 definition/struct.go        | 3 +++
 generator/target/cpp/cpp.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..d297678 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,9 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..9074144 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2584,7 +2584,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
-- 
2.43.0


From 993a0799c2507334968e7e542c41b2134ba43fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 02/63] fix: keep C# decoder temporaries distinct and the
 64-bit sign mask signed

A string, bytes or variable-size struct field followed by an enum, bool or
float field at the same static offset declared the same local twice, and
-signext arith emitted 'long ^ ulong' for a full-width int64 field.
---
 generator/target/csharp/csharp.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..de121ce 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1890,7 +1890,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyBytes":    "byte[]",
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + "Dyn",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -1905,7 +1905,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      7,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + "Dyn",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3165,7 +3165,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"FieldName":   fieldNameStr,
 			"FromByte":    from / 8,
 			"Dynamic":     structDynamic,
-			"TempName":    g.generateDecodeTempVarName(from),
+			"TempName":    g.generateDecodeTempVarName(from) + "Dyn",
 			"GenOptions":  g.GenCtx.GenOptions,
 		}
 
@@ -3180,7 +3180,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyInt":      typeMap[definition.TypeID_Int32],
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + "Dyn",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3196,7 +3196,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      g.generateDec(7),
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + "Dyn",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3289,6 +3289,9 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 				decodeStmts = append(decodeStmts, stmt)
 
 			case gen.SignExtMethodArith:
+				if originFromBitSize == 64 {
+					break // already full width, and the mask would be a ulong
+				}
 				signMask := uint64(1) << (originFromBitSize - 1)
 				signMaskStr := g.generateHex(signMask)
 				signExtendData := map[string]any{
-- 
2.43.0


From 69f0247a7295c1e8a7f7c1368b294ea85bb83f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 03/63] fix: encode and check constant fields by their bit
 pattern

Narrow big-endian constants used the leading bytes of the full type width,
negative and float constants never matched on decode (or did not compile in
Java), unnamed constants produced invalid Java, C# and JS members, and JS
compared BigInt with Number.
---
 generator/gen/gen_util.go             | 58 +++++++++++++++++++++++++++
 generator/target/c/c.go               | 19 +++------
 generator/target/commonjs/commonjs.go | 33 +++++++--------
 generator/target/cpp/cpp.go           | 19 +++------
 generator/target/csharp/csharp.go     | 23 +++++------
 generator/target/esm/esm.go           |  4 ++
 generator/target/esm/esm_decode.go    | 15 +++++--
 generator/target/esm/esm_encode.go    | 14 ++-----
 generator/target/golang/golang.go     | 19 +++------
 generator/target/java/java.go         | 23 +++++------
 generator/target/python/python.go     | 19 +++------
 11 files changed, 138 insertions(+), 108 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..c28e252 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,10 @@
 package gen
 
 import (
+	"bytes"
+	"encoding/binary"
+	"fmt"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +19,57 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// WireConstant returns the constant field as it appears on the wire: the value
+// reduced to the bits the field occupies, typed as the smallest unsigned type
+// that holds them. Signed, float and bool constants keep their bit pattern.
+func WireConstant(field *definition.ConstantField) (*definition.ConstantField, error) {
+	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
+	buffer := &bytes.Buffer{}
+	if err := binary.Write(buffer, binary.LittleEndian, value); err != nil {
+		return nil, fmt.Errorf("internal error: %s", err)
+	}
+	var raw [8]byte
+	copy(raw[:], buffer.Bytes())
+	bits := binary.LittleEndian.Uint64(raw[:])
+	if field.FieldBitSize < 64 {
+		bits &= uint64(1)<<field.FieldBitSize - 1
+	}
+
+	base := definition.IntBaseAuto
+	if lit, ok := field.FieldConstant.(*definition.IntLiteral); ok {
+		base = lit.Base
+	}
+	wire := *field
+	wire.FieldConstant = MakeIntLit(bits, base)
+	switch {
+	case field.FieldBitSize <= 8:
+		wire.FieldType = &definition.Uint8
+	case field.FieldBitSize <= 16:
+		wire.FieldType = &definition.Uint16
+	case field.FieldBitSize <= 32:
+		wire.FieldType = &definition.Uint32
+	default:
+		wire.FieldType = &definition.Uint64
+	}
+	return &wire, nil
+}
+
+// ConstantData returns the bytes of a constant field in field order, i.e. the
+// i-th byte holds the bits [8*i, 8*i+8) of the encoded field.
+func ConstantData(field *definition.ConstantField) ([]byte, error) {
+	wire, err := WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
+	bits := wire.FieldConstant.GetLiteralValueIn(definition.TypeID_Uint64).(uint64)
+	data := make([]byte, (field.FieldBitSize+7)/8)
+	for i := range data {
+		shift := int64(i) * 8
+		if MatchOption(field.FieldOptions, "order", "big") {
+			shift = max(0, field.FieldBitSize-8*(int64(i)+1))
+		}
+		data[i] = byte(bits >> shift)
+	}
+	return data, nil
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..a941a5d 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1746,19 +1744,10 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2670,6 +2659,10 @@ func (g CGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..3bce9a4 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1475,6 +1473,10 @@ var constantFieldTemplate = `
 `
 
 func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	// an unnamed constant has no member, it only exists on the wire
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
@@ -2019,19 +2021,10 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -3042,6 +3035,10 @@ func (g CommonJSGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g CommonJSGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
@@ -3062,9 +3059,13 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
-	if err != nil {
-		return nil, err
+	// the decoded value is a BigInt above 32 bits and a signed 32-bit Number otherwise
+	literal := field.FieldConstant.(*definition.IntLiteral)
+	literalValue := gen.FormatIntLiteral(literal, g.opts())
+	if field.FieldType.GetTypeBitSize() > 32 {
+		literalValue += "n"
+	} else if literal.IntValue > math.MaxInt32 {
+		literalValue = "(" + literalValue + " | 0)"
 	}
 
 	decodeConstantFieldData := map[string]any{
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 9074144..b957693 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1886,19 +1884,10 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2921,6 +2910,10 @@ func (g CppGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index de121ce..49f5377 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -840,6 +838,10 @@ var constantFieldTemplate = `
 `
 
 func (g CSharpGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	// an unnamed constant has no member, it only exists on the wire
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
@@ -1506,19 +1508,10 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2725,6 +2718,10 @@ func (g CSharpGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..43a719a 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1312,6 +1312,10 @@ var constantFieldTemplate = `
 `
 
 func (g ESModuleGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	// an unnamed constant has no member, it only exists on the wire
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 	funcMap := template.FuncMap{
 		"GenerateType":    g.GenerateType,
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..ca0bbc9 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -2,6 +2,7 @@ package esm
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/xaxys/bubbler/definition"
@@ -436,6 +437,10 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 	tempName := g.generateDecodeTempVarName(startBits)
@@ -445,9 +450,13 @@ func (g ESModuleGenerator) generateDecodeConstantField(field *definition.Constan
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
-	if err != nil {
-		return nil, err
+	// the decoded value is a BigInt above 32 bits and a signed 32-bit Number otherwise
+	literal := field.FieldConstant.(*definition.IntLiteral)
+	literalValue := gen.FormatIntLiteral(literal, g.opts())
+	if field.FieldType.GetTypeBitSize() > 32 {
+		literalValue += "n"
+	} else if literal.IntValue > math.MaxInt32 {
+		literalValue = "(" + literalValue + " | 0)"
 	}
 	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
 	decodeStmts = append(decodeStmts, checkStr)
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..a20187e 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,16 +318,10 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
+	data, err := gen.ConstantData(field)
+	if err != nil {
+		return nil, err
 	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-	data := buffer.Bytes()
 	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..57e70a7 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,19 +1465,10 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2338,6 +2327,10 @@ func (g GoGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..9215a1a 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -792,6 +790,10 @@ var constantFieldTemplate = `
 `
 
 func (g JavaGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	// an unnamed constant has no member, it only exists on the wire
+	if field.FieldName == "" {
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
@@ -1489,19 +1491,10 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2472,6 +2465,10 @@ func (g JavaGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..94543f0 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,19 +1155,10 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -1955,6 +1944,10 @@ func (g PythonGenerator) generateDecodeStructFieldName(name string) string {
 }
 
 func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
+	field, err := gen.WireConstant(field)
+	if err != nil {
+		return nil, err
+	}
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-- 
2.43.0


From 8cc3713e0d63f25e1a5e079408ea0116691ecd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 04/63] fix: emit a single long suffix on Java array sign masks

---
 generator/target/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 9215a1a..97f522e 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2444,7 +2444,7 @@ for (int _i = 0; _i < {{ .Length }}; _i++) {
 {{- end -}}
 
 {{- define "intSignExtArith" -}}
-({{ .IntType }})((_v ^ {{ .SignMask }}L) - {{ .SignMask }}L)
+({{ .IntType }})((_v ^ {{ .SignMask }}) - {{ .SignMask }})
 {{- end -}}
 `
 
-- 
2.43.0


From 7ea43d3ae30a4fbe538c6015c6794c07c40f6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 05/63] fix: index struct arrays in dynamic Go structs with one
 integer type

---
 generator/target/golang/golang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 57e70a7..f393e5a 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1636,7 +1636,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = "int64(offset)+" + offsetExpr
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2528,7 +2528,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = "int64(offset)+" + offsetExpr
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From b15b4f72bd05b0de8283509d798bd4b042cb5531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 06/63] fix: qualify enum casts of another package in C++ and
 Go array loops

---
 generator/target/cpp/cpp.go       | 6 +++++-
 generator/target/golang/golang.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index b957693..d257af5 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3148,7 +3148,11 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(%s)_v", elemTyT.EnumName)
+				enumTyStr, err := g.GenerateType(elemTyT)
+				if err != nil {
+					return nil, err
+				}
+				common["Expr"] = fmt.Sprintf("(%s)_v", enumTyStr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasicSimple", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index f393e5a..dcdda02 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2541,7 +2541,11 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			case *definition.Enum:
 				// `EnumName(_v)` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("%s(_v)", elemTyT.EnumName)
+				enumTyStr, err := g.GenerateType(elemTyT)
+				if err != nil {
+					return nil, err
+				}
+				common["Expr"] = fmt.Sprintf("%s(_v)", enumTyStr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From c540e8b70e9aacf742ca2bc584301920886fbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 07/63] fix: define encode_size of fixed C++ structs where
 callers can see it

---
 generator/target/cpp/cpp.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index d257af5..8c10285 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1487,8 +1487,11 @@ var encoderDeclTemplate = `
 {{- $structName := .StructDef.StructName -}}
         // EncodeSizeDecl: encode_size
         // Returns an estimation of the encoded size in bytes.
-        {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
+{{- if .StructDef.StructDynamic }}
         uint64_t encode_size() const;
+{{- else }}
+        constexpr uint64_t encode_size() const { return {{ calc .StructDef.StructBitSize "/" 8 }}; }
+{{- end }}
         // EncoderDecl: encode
 {{- if not .GenOptions.CompatibleMode }}
         uint64_t encode(::std::span<uint8_t> buf) const;
@@ -1598,6 +1601,7 @@ var encoderTemplate = `
 
 {{- define "encoder" -}}
 {{- $structName := .StructDef.StructName -}}
+{{- if or .GenOptions.SingleFile .StructDef.StructDynamic }}
     // EncodeSize: {{ $structName }}::encode_size
     // Returns an estimation of the encoded size in bytes.
     {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
@@ -1662,6 +1666,7 @@ var encoderTemplate = `
         return {{ calc .StructDef.StructBitSize "/" 8 }};
         {{- end }}
     }
+{{- end }}
 
     // Encoder: {{ $structName }}::encode
 {{- if not .GenOptions.CompatibleMode }}
-- 
2.43.0


From 5a1d601b56080ca592d465fc5f90be59f2cbc9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 08/63] fix: place the second half of a straddling field byte
 after the first

When the last wire byte of a field covers two bytes of the value, the upper
part was shifted by the width of the field's tail instead of by the bits
already placed, so set bits were lost.
---
 generator/target/c/c.go               | 5 ++---
 generator/target/commonjs/commonjs.go | 8 +++-----
 generator/target/cpp/cpp.go           | 5 ++---
 generator/target/csharp/csharp.go     | 5 ++---
 generator/target/esm/esm.go           | 6 ++----
 generator/target/esm/esm_encode.go    | 2 +-
 generator/target/java/java.go         | 5 ++---
 7 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index a941a5d..db618cc 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -237,8 +237,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2197,7 +2196,7 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 3bce9a4..3f7296a 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -541,8 +541,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -898,8 +897,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -2522,7 +2520,7 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 8c10285..5cdc9a4 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -238,8 +238,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2347,7 +2346,7 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 49f5377..a661907 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -520,8 +520,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(8 - (begin & 7));
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -2039,7 +2038,7 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 43a719a..27d8683 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index a20187e..5a446f9 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -659,7 +659,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 97f522e..e284e23 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -458,8 +458,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(8 - (begin & 7));
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -2006,7 +2005,7 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
-- 
2.43.0


From 2d4a54c140c74d29f9507091cea47492efaefd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 09/63] fix: honour the start offset in Java array loops

---
 generator/target/java/java.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index e284e23..fc01774 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1673,7 +1673,9 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 
 			bitBaseExpr := fmt.Sprintf("%d + _i * %dL", from, elemBitSize)
 			if structDynamic {
-				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
+				bitBaseExpr = g.generateCastExpr(&definition.Int64, "(offset + start)") + " * 8 + (" + bitBaseExpr + ")"
+			} else {
+				bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 			}
 
 			// Each branch picks one self-contained loop template.
@@ -1692,6 +1694,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 				if structDynamic {
 					offsetExpr = "offset + " + offsetExpr
 				}
+				offsetExpr = "start + " + offsetExpr
 				_ = elemTyT
 				common["DataExpr"] = "data, " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopStruct", nil, common)
@@ -2714,7 +2717,9 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 
 			bitBaseExpr := fmt.Sprintf("%d + _i * %dL", from, elemBitSize)
 			if structDynamic {
-				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
+				bitBaseExpr = g.generateCastExpr(&definition.Int64, "(offset + start)") + " * 8 + (" + bitBaseExpr + ")"
+			} else {
+				bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 			}
 
 			// Each branch picks one self-contained loop template.
@@ -2733,6 +2738,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 				if structDynamic {
 					offsetExpr = "offset + " + offsetExpr
 				}
+				offsetExpr = "start + " + offsetExpr
 				_ = elemTyT
 				common["DataExpr"] = "data, " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From 8a72052f5d9e8396a591c058e51260bffcc1316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 10/63] fix: shift both parts of a straddling byte in the
 Python decoder

---
 generator/target/python/python.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 94543f0..d72bc1e 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2402,6 +2402,9 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			consumed += partSize
 		}
 		exprStr := strings.Join(parts, " | ")
+		if len(parts) > 1 {
+			exprStr = "(" + exprStr + ")" // the processor shifts the whole byte
+		}
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 819c65e0de8c6c075f4b11db349367e3d7f1282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 11/63] fix: emit the JS float helpers for structs that use
 floats only in arrays

---
 generator/target/commonjs/commonjs.go | 4 ++++
 generator/target/esm/esm.go           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 3f7296a..6037e34 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1184,6 +1184,10 @@ func (g CommonJSGenerator) GenerateArrayDefaultValue(array *definition.Array) (s
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
+	// visit the element type, to have its helper functions emitted
+	if _, err := g.GenerateType(array.ElementType); err != nil {
+		return "", err
+	}
 	return "[]", nil
 }
 
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 27d8683..5c79627 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1095,6 +1095,10 @@ func (g ESModuleGenerator) GenerateArrayDefaultValue(array *definition.Array) (s
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
+	// visit the element type, to have its helper functions emitted
+	if _, err := g.GenerateType(array.ElementType); err != nil {
+		return "", err
+	}
 	return "[]", nil
 }
 
-- 
2.43.0


From 9f9d6672d138064a74d16079acbb9378c1187d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 12/63] fix: decode uint32 fields as unsigned Numbers in JS

---
 generator/target/commonjs/commonjs.go | 12 +++++++++---
 generator/target/esm/esm_decode.go    | 13 +++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 6037e34..c570821 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3061,13 +3061,11 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	// the decoded value is a BigInt above 32 bits and a signed 32-bit Number otherwise
+	// the decoded value is a BigInt above 32 bits and a Number otherwise
 	literal := field.FieldConstant.(*definition.IntLiteral)
 	literalValue := gen.FormatIntLiteral(literal, g.opts())
 	if field.FieldType.GetTypeBitSize() > 32 {
 		literalValue += "n"
-	} else if literal.IntValue > math.MaxInt32 {
-		literalValue = "(" + literalValue + " | 0)"
 	}
 
 	decodeConstantFieldData := map[string]any{
@@ -3524,6 +3522,14 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators work on signed 32-bit integers
+		if ty.GetTypeID() == definition.TypeID_Uint32 && fieldBitSize == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr, "Operator": exprOpToString[definition.ExprOp_ASSIGN], "Expr": fieldNameStr + " >>> 0",
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index ca0bbc9..01b789f 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -2,7 +2,6 @@ package esm
 
 import (
 	"fmt"
-	"math"
 	"strings"
 
 	"github.com/xaxys/bubbler/definition"
@@ -450,13 +449,11 @@ func (g ESModuleGenerator) generateDecodeConstantField(field *definition.Constan
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	// the decoded value is a BigInt above 32 bits and a signed 32-bit Number otherwise
+	// the decoded value is a BigInt above 32 bits and a Number otherwise
 	literal := field.FieldConstant.(*definition.IntLiteral)
 	literalValue := gen.FormatIntLiteral(literal, g.opts())
 	if field.FieldType.GetTypeBitSize() > 32 {
 		literalValue += "n"
-	} else if literal.IntValue > math.MaxInt32 {
-		literalValue = "(" + literalValue + " | 0)"
 	}
 	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
 	decodeStmts = append(decodeStmts, checkStr)
@@ -778,6 +775,14 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators work on signed 32-bit integers
+		if ty.GetTypeID() == definition.TypeID_Uint32 && fieldBitSize == 32 {
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr, "Operator": exprOpToString[definition.ExprOp_ASSIGN], "Expr": fieldNameStr + " >>> 0",
+			})
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
-- 
2.43.0


From 15ddb574476c76fe482e9c4e1aa1ca56e4e1b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 13/63] fix: round the temporary type of enum array elements up
 to a real integer type

---
 generator/target/c/c.go           | 4 ++--
 generator/target/cpp/cpp.go       | 4 ++--
 generator/target/csharp/csharp.go | 4 ++--
 generator/target/golang/golang.go | 4 ++--
 generator/target/java/java.go     | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index db618cc..9280498 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1806,7 +1806,7 @@ func (g CGenerator) generateEncodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2761,7 +2761,7 @@ func (g CGenerator) generateDecodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 5cdc9a4..77cd4e5 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1951,7 +1951,7 @@ func (g CppGenerator) generateEncodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -3017,7 +3017,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index a661907..87e6ade 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1610,7 +1610,7 @@ func (g CSharpGenerator) generateEncodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2890,7 +2890,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index dcdda02..0eb0aaf 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1528,7 +1528,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2430,7 +2430,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index fc01774..15e7092 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1593,7 +1593,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2640,7 +2640,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
-- 
2.43.0


From 1bb7ba7389653b03955ebb1354d93ee51be32256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 14/63] fix: decode narrow floats through a temporary of the
 full width in C# and Java

---
 generator/target/csharp/csharp.go | 6 ++----
 generator/target/java/java.go     | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 87e6ade..cb1db63 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2815,10 +2815,8 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
+			// same as enum, but in the full width of the type: the cast needs all its bytes
+			tySize := ty.GetTypeBitSize() / 8
 			tyUint := typeSizeToUintStr(tySize * 8)
 			tyUintID := typeSizeMapUint[tySize*8]
 			tempTy := definition.GetBasicType(tyUintID)
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 15e7092..73dad96 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2565,10 +2565,8 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
+			// same as enum, but in the full width of the type: the cast needs all its bytes
+			tySize := ty.GetTypeBitSize() / 8
 			tyUint := typeSizeToUintStr(tySize * 8)
 			tyUintID := typeSizeMapUint[tySize*8]
 			tempTy := definition.GetBasicType(tyUintID)
-- 
2.43.0


From 8f868b2507d6ac81b9f626f0f14b3feee135bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 15/63] fix: sign-extend 32-bit wide int64 fields as BigInt in
 JS

---
 generator/target/commonjs/commonjs.go | 2 +-
 generator/target/esm/esm_decode.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index c570821..10bf452 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3537,7 +3537,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() <= 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 01b789f..11efb1a 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -787,7 +787,7 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() <= 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From 3144bc2e9b4635bc87b9da9ca0aa3d59c3be80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 16/63] fix: name enums of a single ESM file without package
 prefix when encoding arrays

---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 5a446f9..40856ce 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -421,6 +421,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 			case *definition.Enum:
 				encodeStmts = append(encodeStmts, util.IndentSpace(util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 					"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[_i]", name), "FieldDef": field,
+					"SingleFile": g.GenCtx.GenOptions.SingleFile,
 				}), 4))
 			}
 
@@ -537,6 +538,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				case *definition.Enum:
 					encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 						"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
+						"SingleFile": g.GenCtx.GenOptions.SingleFile,
 					}))
 				}
 
-- 
2.43.0


From a7af29395f9b744fe74a4a35ed008ad855be69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 17/63] fix: ask for more bytes in C# before slicing past the
 buffer in DecodeSize

---
 generator/target/csharp/csharp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index cb1db63..370b6b7 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2316,6 +2316,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
+                if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }});
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
@@ -2327,6 +2328,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
+                if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }});
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
@@ -2392,6 +2394,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
+                if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }});
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
-- 
2.43.0


From 97ee9304616a4f4c1cbdf5c6ecc5d4deeeec21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 18/63] fix: clear a byte that begins with padding before
 OR-ing later fields into it

---
 generator/target/c/c.go               | 15 ++++++++++++++-
 generator/target/commonjs/commonjs.go | 15 ++++++++++++++-
 generator/target/cpp/cpp.go           | 15 ++++++++++++++-
 generator/target/csharp/csharp.go     | 16 +++++++++++++++-
 generator/target/esm/esm_encode.go    | 14 +++++++++++++-
 generator/target/java/java.go         | 15 ++++++++++++++-
 6 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9280498..5f0e9d3 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1759,7 +1759,20 @@ func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField,
 }
 
 func (g CGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// later fields are OR-ed into a byte that begins with padding, so it has to start cleared
+	to := startBits + field.GetFieldBitSize()
+	lastByte := to &^ 7
+	if to == lastByte || startBits > lastByte {
+		return []string{""}, nil
+	}
+	encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+		"TyUint8":   typeMap[definition.TypeID_Uint8],
+		"BytePos":   lastByte / 8,
+		"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+		"FieldData": "0",
+		"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+	})
+	return []string{encodeStmt}, nil
 }
 
 func (g CGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 10bf452..246ba46 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2039,7 +2039,20 @@ func (g CommonJSGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g CommonJSGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// later fields are OR-ed into a byte that begins with padding, so it has to start cleared
+	to := startBits + field.GetFieldBitSize()
+	lastByte := to &^ 7
+	if to == lastByte || startBits > lastByte {
+		return []string{""}, nil
+	}
+	encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+		"TyUint8":   typeMap[definition.TypeID_Uint8],
+		"BytePos":   lastByte / 8,
+		"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+		"FieldData": "0",
+		"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+	})
+	return []string{encodeStmt}, nil
 }
 
 func (g CommonJSGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 77cd4e5..9bb4ef7 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1904,7 +1904,20 @@ func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantFiel
 }
 
 func (g CppGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// later fields are OR-ed into a byte that begins with padding, so it has to start cleared
+	to := startBits + field.GetFieldBitSize()
+	lastByte := to &^ 7
+	if to == lastByte || startBits > lastByte {
+		return []string{""}, nil
+	}
+	encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+		"TyUint8":   typeMap[definition.TypeID_Uint8],
+		"BytePos":   lastByte / 8,
+		"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+		"FieldData": "0",
+		"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+	})
+	return []string{encodeStmt}, nil
 }
 
 func (g CppGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 370b6b7..6efb88a 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1523,7 +1523,21 @@ func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g CSharpGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// later fields are OR-ed into a byte that begins with padding, so it has to start cleared
+	to := startBits + field.GetFieldBitSize()
+	lastByte := to &^ 7
+	if to == lastByte || startBits > lastByte {
+		return []string{""}, nil
+	}
+	encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+		"TyUint8":    typeMap[definition.TypeID_Uint8],
+		"BytePos":    lastByte / 8,
+		"Operator":   exprOpToString[definition.ExprOp_ASSIGN],
+		"FieldData":  "0",
+		"Dynamic":    field.FieldBelongs.GetTypeDynamic(),
+		"GenOptions": g.GenCtx.GenOptions,
+	})
+	return []string{encodeStmt}, nil
 }
 
 func (g CSharpGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 40856ce..b009121 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -327,7 +327,19 @@ func (g ESModuleGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g ESModuleGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// later fields are OR-ed into a byte that begins with padding, so it has to start cleared
+	to := startBits + field.GetFieldBitSize()
+	lastByte := to &^ 7
+	if to == lastByte || startBits > lastByte {
+		return []string{""}, nil
+	}
+	encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+		"BytePos":   lastByte / 8,
+		"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+		"FieldData": "0",
+		"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+	})
+	return []string{encodeStmt}, nil
 }
 
 func (g ESModuleGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 73dad96..504a161 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1506,7 +1506,20 @@ func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantFie
 }
 
 func (g JavaGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// later fields are OR-ed into a byte that begins with padding, so it has to start cleared
+	to := startBits + field.GetFieldBitSize()
+	lastByte := to &^ 7
+	if to == lastByte || startBits > lastByte {
+		return []string{""}, nil
+	}
+	encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+		"TyUint8":   typeMap[definition.TypeID_Uint8],
+		"BytePos":   lastByte / 8,
+		"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+		"FieldData": "0",
+		"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+	})
+	return []string{encodeStmt}, nil
 }
 
 func (g JavaGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
-- 
2.43.0


From b7407151ff74d9563b2d8d1108ba5c93f31af77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 19/63] fix: start a byte afresh when an array loop begins it

---
 generator/target/c/c.go               | 2 +-
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/cpp/cpp.go           | 2 +-
 generator/target/csharp/csharp.go     | 2 +-
 generator/target/esm/esm.go           | 4 ++--
 generator/target/java/java.go         | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 5f0e9d3..ef07655 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -251,7 +251,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 246ba46..44d5e90 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -555,7 +555,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -911,7 +911,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 9bb4ef7..75f56f6 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -252,7 +252,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 6efb88a..a77843c 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -534,7 +534,7 @@ var structTemplate = `
                 }
                 int shiftLeftOuter = (int)(i & 7);
                 part = (part << shiftLeftOuter) & dataMask;
-                if (dataMask == 0xFF) {
+                if ((i & 7) == 0) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
                     data[(int)(i / 8)] |= (byte)part;
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 5c79627..bd918dd 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -516,7 +516,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -838,7 +838,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 504a161..7195322 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -472,7 +472,7 @@ var structTemplate = `
             }
             int shiftLeftOuter = (int)(i & 7);
             part = (part << shiftLeftOuter) & dataMask;
-            if (dataMask == 0xFF) {
+            if ((i & 7) == 0) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
                 data[(int)(i / 8)] |= (byte)part;
-- 
2.43.0


From 6eb35957923d3e25fd7364337b9221da4c0a79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 20/63] fix: compare and hash byte strings by content in C#

---
 generator/target/csharp/csharp.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index a77843c..5861a19 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -630,13 +630,21 @@ var structTemplate = `
             if (obj == null) return false;
             if (this.GetType() != obj.GetType()) return false;
             {{ $structDef.StructName }} other = ({{ $structDef.StructName }})obj;
+        {{- $memoryCopy := .GenOptions.MemoryCopy }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- if $field.FieldType.GetTypeID.IsBasic }}
             if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
             {{- else if $field.FieldType.GetTypeID.IsArray }}
+                {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            if (this.{{ $fieldName }}.Length != other.{{ $fieldName }}.Length) return false;
+            if (!this.{{ $fieldName }}.Zip(other.{{ $fieldName }}, (a, b) => {{ if $memoryCopy }}Enumerable.SequenceEqual(a, b){{ else }}a.Span.SequenceEqual(b.Span){{ end }}).All(same => same)) return false;
+                {{- else }}
             if (!Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+                {{- end }}
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+            if (!{{ if $memoryCopy }}Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }}){{ else }}this.{{ $fieldName }}.Span.SequenceEqual(other.{{ $fieldName }}.Span){{ end }}) return false;
             {{- else }}
             if (!Object.Equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- end }}
@@ -648,16 +656,32 @@ var structTemplate = `
         public override int GetHashCode()
         {
             int result = 17;
-        {{- $memoryCopy := .GenOptions.MemoryCopy }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- $isBasicOrEnum := or $field.FieldType.GetTypeID.IsBasic $field.FieldType.GetTypeID.IsEnum }}
+            {{- $hash := "GetHashCode()" }}
+            {{- if $field.FieldType.GetTypeID.IsArray }}
+                {{- $hash = "Aggregate(0, (a, v) => a * 31 + v.GetHashCode())" }}
+                {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
+                    {{- if $memoryCopy }}
+                        {{- $hash = "Aggregate(0, (a, v) => a * 31 + v.Aggregate(0, (b, w) => b * 31 + w))" }}
+                    {{- else }}
+                        {{- $hash = "Aggregate(0, (a, v) => a * 31 + v.ToArray().Aggregate(0, (b, w) => b * 31 + w))" }}
+                    {{- end }}
+                {{- end }}
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+                {{- if $memoryCopy }}
+                    {{- $hash = "Aggregate(0, (a, v) => a * 31 + v)" }}
+                {{- else }}
+                    {{- $hash = "ToArray().Aggregate(0, (a, v) => a * 31 + v)" }}
+                {{- end }}
+            {{- end }}
             {{- $isMemory := and $field.FieldType.GetTypeID.IsBytes ( not $memoryCopy ) }}
             {{- if and ( not $isBasicOrEnum ) ( not $isMemory ) }}
-            result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
+            result = result * 31 + (this.{{ $fieldName }} != null ? this.{{ $fieldName }}.{{ $hash }} : 0);
             {{- else }}
-            result = result * 31 + {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }};
+            result = result * 31 + this.{{ $fieldName }}.{{ $hash }};
             {{- end }}
         {{- end }}
         {{- end }}
-- 
2.43.0


From 2e655dee5d2eb39bcff8431d16d1fc853082d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 21/63] fix: let Java equals treat zeros and NaNs as hashCode
 does

---
 generator/target/java/java.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 7195322..65f4f1d 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -568,7 +568,9 @@ public final class {{ $structDef.StructName }} {
     {{- range $field := $structDef.StructFields.Values }}
     {{- if $field.GetFieldKind.IsNormal }}
         {{- $fieldName := TocamelCase $field.FieldName }}
-        {{- if $field.FieldType.GetTypeID.IsBasic }}
+        {{- if $field.FieldType.GetTypeID.IsFloat }}
+        if (!Objects.equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+        {{- else if $field.FieldType.GetTypeID.IsBasic }}
         if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
         {{- else if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-- 
2.43.0


From 088a381b660588a5b342977147994b490a55a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 22/63] fix: refuse bytes lengths that no frame can have in C,
 C++, Java and C# decode_size

---
 generator/target/c/c.go           | 13 +++++++++++--
 generator/target/cpp/cpp.go       | 17 +++++++++++++----
 generator/target/csharp/csharp.go | 18 ++++++++++++++++++
 generator/target/java/java.go     |  9 +++++++++
 4 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index ef07655..a475caa 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2337,13 +2337,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - offset - {{ $fromByte }}) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2354,13 +2357,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - offset - {{ $fromByte }}) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2403,13 +2409,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - offset - {{ $fromByte }}) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2581,8 +2590,8 @@ var fieldDecoderTemplate = `
     {
         uint64_t {{ .TempName }} = 0;
         {{ .TyUint8 }} shift = 0;
-        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-        {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+        {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 75f56f6..62e020b 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2504,13 +2504,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - offset - {{ $fromByte }}) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2521,13 +2524,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - offset - {{ $fromByte }}) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2579,13 +2585,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - offset - {{ $fromByte }}) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2801,11 +2810,11 @@ var fieldDecoderTemplate = `
             uint64_t {{ .TempName }} = 0;
             {{ .TyUint8 }} shift = 0;
         {{- if .CompatibleMode }}
-            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- else }}
-            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- end }}
             {{ .FieldName }}.length = {{ .TempName }};
     {{- if .MemoryCopy }}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 5861a19..1cd69cf 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2288,26 +2288,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2320,26 +2326,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2402,26 +2414,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - offset - {{ $fromByte }}) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 65f4f1d..5bc2083 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2169,13 +2169,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - offset - {{ $fromByte }}) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2186,13 +2189,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - offset - {{ $fromByte }}) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2233,13 +2239,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - offset - {{ $fromByte }}) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
-- 
2.43.0


From 8e5a6e0a289ef4c69a398f910b4c5e1cace76b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 23/63] fix: stop the JS string decoder at the terminator when
 UTF-8 is cut short

---
 generator/target/commonjs/commonjs.go | 20 ++++++++++++--------
 generator/target/esm/esm.go           | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 44d5e90..6729e49 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -475,14 +475,16 @@ var fileTemplate = `
      */
     function stringFromUTF8Bytes(data, start) {
         var str = "";
+        var end = start;
+        while (end < data.length && data[end] && data[end] !== 0) end++;
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | ((offset < end ? data[offset++] & 0x3F : 0) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0);
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
@@ -831,14 +833,16 @@ var fileTemplate = `
      */
     function stringFromUTF8Bytes(data, start) {
         var str = "";
+        var end = start;
+        while (end < data.length && data[end] && data[end] !== 0) end++;
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | ((offset < end ? data[offset++] & 0x3F : 0) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0);
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index bd918dd..956b151 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -437,14 +437,16 @@ function stringToUTF8Bytes(str, data, start) {
  */
 function stringFromUTF8Bytes(data, start) {
     let str = "";
+    let end = start;
+    while (end < data.length && data[end] && data[end] !== 0) end++;
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | ((offset < end ? data[offset++] & 0x3F : 0) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0);
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
@@ -759,14 +761,16 @@ function stringToUTF8Bytes(str, data, start) {
  */
 function stringFromUTF8Bytes(data, start) {
     let str = "";
+    let end = start;
+    while (end < data.length && data[end] && data[end] !== 0) end++;
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0));
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | ((offset < end ? data[offset++] & 0x3F : 0) << 12) | ((offset < end ? data[offset++] & 0x3F : 0) << 6) | (offset < end ? data[offset++] & 0x3F : 0);
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
-- 
2.43.0


From d3d6a6b807d850c0c2574e2338b73c5b1866c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 24/63] fix: report a failed allocation from C decode instead
 of writing through NULL

---
 generator/target/c/c.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index a475caa..14a1c3b 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2575,6 +2575,7 @@ var fieldDecoderTemplate = `
         uint64_t {{ .TempName }} = strlen((const char*)((const {{ .TyUint8 }}*)data + offset + {{ .FromByte }}));
         {{ if .MemoryCopy -}}
         {{ .FieldName }} = ({{ .TyString }})malloc({{ .TempName }} + 1);
+        if ({{ .FieldName }} == NULL) return -1;
         {{ .FieldName }}[{{ .TempName }}] = 0;
         memcpy({{ .FieldName }}, (const {{ .TyUint8 }}*)data + offset + {{ .FromByte }}, {{ .TempName }});
         {{ else -}}
@@ -2595,6 +2596,7 @@ var fieldDecoderTemplate = `
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
+        if ({{ .FieldName }}.data == NULL && {{ .TempName }} > 0) return -1;
         memcpy({{ .FieldName }}.data, (const {{ .TyUint8 }}*)data + offset + {{ .FromByte }}, {{ .TempName }});
         {{ else -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)data + offset + {{ .FromByte }};
-- 
2.43.0


From 8aabdb55e4ce45370e54a34fef0d4253643fb25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 25/63] fix: report a failed write to standard output

---
 generator/gen/gen_ctx.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..9867b7e 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -40,11 +40,17 @@ func normalizeGeneratedIndent(text string) string {
 	return strings.TrimRight(strings.Join(normalized, "\n"), "\n") + "\n"
 }
 
+func writeStdout(text string) error {
+	if _, err := fmt.Print(text); err != nil {
+		return fmt.Errorf("cannot write to standard output: %w", err)
+	}
+	return nil
+}
+
 func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return writeStdout(text)
 	}
 
 	file := pkg.ToFilePath(ext)
@@ -63,8 +69,7 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		}
 	}
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return writeStdout(text)
 	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
@@ -73,8 +78,7 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 func (ctx *GenCtx) WriteFileAbs(path string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	if path == "" {
-		fmt.Print(text)
-		return nil
+		return writeStdout(text)
 	}
 
 	id, err := fileio.GetFileIdentifer(path)
-- 
2.43.0


From 3b5e94620b1840c07b77b0427f3ec769ba961bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 26/63] fix: refuse negative enum values instead of renumbering
 them

---
 compiler/proto_visitor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..2713248 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -1,6 +1,7 @@
 package compiler
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xaxys/bubbler/definition"
@@ -2371,6 +2372,19 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 		case definition.Literal:
 			switch val := val.(type) {
 			case *definition.IntLiteral:
+				if val.IntValue < 0 {
+					return &definition.CompileError{
+						Position: definition.BasePosition{
+							File:   v.Unit.UnitName.Path,
+							Line:   ctx.Constant().GetStart().GetLine(),
+							Column: ctx.Constant().GetStart().GetColumn(),
+						},
+						Err: &definition.InvalidLiteralError{
+							Literal: ctx.Constant().GetText(),
+							Err:     errors.New("enum value must be in range [0, 2^63)"),
+						},
+					}
+				}
 				value = val.IntValue
 			default:
 				return &definition.CompileError{
-- 
2.43.0


From 8b43618ff6d556b21906ab04a19cbd6ca92a06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 27/63] fix: do not write generated files outside of the output
 path

---
 generator/gen/gen_ctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index 9867b7e..d56e25a 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -71,6 +71,9 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 	if ctx.OutputPath == "" {
 		return writeStdout(text)
 	}
+	if !filepath.IsLocal(filepath.Join(".", file)) {
+		return fmt.Errorf("output file '%s' is outside of output path '%s'", file, ctx.OutputPath)
+	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
 }
-- 
2.43.0


From 19506a6e45fd341e99306458bb316d7afb6fedd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 28/63] fix: report generated files that would overwrite each
 other

---
 generator/gen/gen_ctx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index d56e25a..9524b0d 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -13,6 +13,8 @@ type GenCtx struct {
 	Units      []*definition.CompilationUnit
 	GenOptions *GenOptions
 	OutputPath string
+
+	written map[string]struct{} // files written so far
 }
 
 func normalizeGeneratedIndent(text string) string {
@@ -75,6 +77,13 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		return fmt.Errorf("output file '%s' is outside of output path '%s'", file, ctx.OutputPath)
 	}
 	path := filepath.Join(ctx.OutputPath, file)
+	if _, ok := ctx.written[path]; ok {
+		return fmt.Errorf("output file '%s' is generated more than once", path)
+	}
+	if ctx.written == nil {
+		ctx.written = make(map[string]struct{})
+	}
+	ctx.written[path] = struct{}{}
 	return ctx.WriteFileAbs(path, text)
 }
 
-- 
2.43.0


From 4727bc0345b4ab6e48cc734946bcfbec60de3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 29/63] fix: recognise a file imported by another spelling of
 its absolute path

---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From 90bdc48dfdb90de64f325f88df18502f84540644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 30/63] fix: include stdlib.h in every C and C++ header when
 copying memory

Whether a header got the include depended on the state left by the
unit generated before it: only the first one did.
---
 generator/target/c/c.go     | 9 ++-------
 generator/target/cpp/cpp.go | 9 ++-------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 14a1c3b..d9042e6 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -22,7 +22,6 @@ type GeneratedType struct {
 type CGeneratorState struct {
 	UseMathH      bool
 	UseStringH    bool
-	UseStdLibH    bool
 	UseBytesType  bool
 	UseBitHelpers bool
 }
@@ -36,7 +35,6 @@ func NewCGeneratorState() *CGeneratorState {
 func (g *CGeneratorState) Reset() {
 	g.UseMathH = false
 	g.UseStringH = false
-	g.UseStdLibH = false
 	g.UseBytesType = false
 	g.UseBitHelpers = false
 }
@@ -157,9 +155,6 @@ func (g *CGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error)
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
-	if ctx.GenOptions.MemoryCopy {
-		g.GenState.UseStdLibH = true
-	}
 
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
@@ -179,7 +174,7 @@ func (g *CGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error)
 			"GenOptions":    g.GenCtx.GenOptions,
 			"UseMathH":      g.GenState.UseMathH,
 			"UseStringH":    g.GenState.UseStringH,
-			"UseStdLibH":    g.GenState.UseStdLibH,
+			"UseStdLibH":    g.GenCtx.GenOptions.MemoryCopy,
 			"UseBytesType":  g.GenState.UseBytesType,
 			"UseBitHelpers": g.GenState.UseBitHelpers,
 		}
@@ -480,7 +475,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"Unit":         unit,
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
-		"UseStdLibH":   g.GenState.UseStdLibH,
+		"UseStdLibH":   g.GenCtx.GenOptions.MemoryCopy,
 		"UseBytesType": g.GenState.UseBytesType,
 		"GenOptions":   g.GenCtx.GenOptions,
 	}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 62e020b..5a65de5 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -25,7 +25,6 @@ type GeneratedType struct {
 type CppGeneratorState struct {
 	UseMathH      bool
 	UseStringH    bool
-	UseStdLibH    bool
 	UseBytesType  bool
 	UseBitHelpers bool
 }
@@ -39,7 +38,6 @@ func NewCppGeneratorState() *CppGeneratorState {
 func (g *CppGeneratorState) Reset() {
 	g.UseMathH = false
 	g.UseStringH = false
-	g.UseStdLibH = false
 	g.UseBytesType = false
 	g.UseBitHelpers = false
 }
@@ -156,9 +154,6 @@ func (g *CppGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings erro
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
-	if ctx.GenOptions.MemoryCopy {
-		g.GenState.UseStdLibH = true
-	}
 
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
@@ -177,7 +172,7 @@ func (g *CppGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings erro
 			"GenUnits":      g.GenUnits,
 			"UseMathH":      g.GenState.UseMathH,
 			"UseStringH":    g.GenState.UseStringH,
-			"UseStdLibH":    g.GenState.UseStdLibH,
+			"UseStdLibH":    g.GenCtx.GenOptions.MemoryCopy,
 			"UseBytesType":  g.GenState.UseBytesType,
 			"UseBitHelpers": g.GenState.UseBitHelpers,
 			"GenOptions":    g.GenCtx.GenOptions,
@@ -550,7 +545,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"Unit":         unit,
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
-		"UseStdLibH":   g.GenState.UseStdLibH,
+		"UseStdLibH":   g.GenCtx.GenOptions.MemoryCopy,
 		"UseBytesType": g.GenState.UseBytesType,
 		"GenOptions":   g.GenCtx.GenOptions,
 	}
-- 
2.43.0


From 2b662cd9469ea7b620f346d8b6f7a07f887b1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 31/63] fix: name C++ types by their namespace from the root

References used the package path even where cpp_namespace names another
namespace, and were looked up relative to the enclosing one, so the
generated code did not compile.
---
 definition/compilation_unit.go | 10 ++++++++++
 generator/target/cpp/cpp.go    | 18 +++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/definition/compilation_unit.go b/definition/compilation_unit.go
index 1eec937..4053a5a 100644
--- a/definition/compilation_unit.go
+++ b/definition/compilation_unit.go
@@ -177,6 +177,16 @@ func (c *CompilationUnit) AddImport(other *CompilationUnit) error {
 	return nil
 }
 
+// CppNamespace returns the C++ namespace of the definitions of this unit
+func (c *CompilationUnit) CppNamespace() string {
+	if option, ok := c.Options.Get("cpp_namespace"); ok {
+		if name, ok := option.OptionValue.GetLiteralValue().(string); ok {
+			return name
+		}
+	}
+	return c.Package.ToPath("::", "")
+}
+
 func (c CompilationUnit) String() string {
 	options := "[\n"
 	for _, option := range c.Options.Values() {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 5a65de5..c352d56 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -727,7 +727,7 @@ var structTemplate = `
 `
 
 func (g CppGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := fmt.Sprintf("struct %s::%s", structDef.StructBelongs.Package.ToPath("::", ""), structDef.StructName)
+	name := fmt.Sprintf("struct ::%s::%s", structDef.StructBelongs.CppNamespace(), structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -1417,7 +1417,7 @@ func (g CppGenerator) GenerateRawSetter(field definition.Field) (string, error)
 // ==================== GenerateEnum ====================
 
 func (g CppGenerator) GenerateEnum(enumDef *definition.Enum) (string, error) {
-	name := fmt.Sprintf("enum %s::%s", enumDef.EnumBelongs.Package.ToPath("::", ""), enumDef.EnumName)
+	name := fmt.Sprintf("enum ::%s::%s", enumDef.EnumBelongs.CppNamespace(), enumDef.EnumName)
 	// check if this enum is already generated
 	if g.GenTypes.Has(enumDef.EnumName) {
 		return name, nil
@@ -2542,9 +2542,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = ::{{ $structType.StructBelongs.CppNamespace }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = ::{{ $structType.StructBelongs.CppNamespace }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2555,9 +2555,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = ::{{ $structType.StructBelongs.CppNamespace }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = ::{{ $structType.StructBelongs.CppNamespace }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2600,9 +2600,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = ::{{ $structType.StructBelongs.CppNamespace }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = ::{{ $structType.StructBelongs.CppNamespace }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2774,7 +2774,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeNormalFieldTempVarAssignEnum" -}}
-    {{ .FieldName }} = static_cast<enum {{ .EnumDef.EnumBelongs.Package.ToPath "::" "" }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
+    {{ .FieldName }} = static_cast<enum ::{{ .EnumDef.EnumBelongs.CppNamespace }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
 {{- end -}}
 
 {{- define "decodeNormalFieldNoCast" -}}
-- 
2.43.0


From 031516fa517cbd4f0881bb14362fbfdacaf364ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 32/63] fix: import every file whose definitions are used, and
 no others

Only directly imported files were imported by the generated C#, Java,
Kotlin and JavaScript code, which does not suffice for definitions of
files imported by those; files generated for nothing were imported
although they may not exist (omit_empty) or be no package at all (Java);
Go imported packages used by a field's type only inside that type.
---
 generator/gen/gen_util.go             | 13 +++++++++++++
 generator/target/c/c.go               |  5 +++--
 generator/target/commonjs/commonjs.go |  5 +++--
 generator/target/cpp/cpp.go           |  5 +++--
 generator/target/csharp/csharp.go     |  3 ++-
 generator/target/esm/esm.go           |  3 ++-
 generator/target/golang/golang.go     |  6 +++---
 generator/target/java/java.go         |  3 ++-
 generator/target/kotlin/kotlin.go     |  4 ++--
 generator/target/python/python.go     |  3 ++-
 10 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index c28e252..d08dd6f 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -20,6 +20,19 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	return option.OptionValue.GetLiteralValue() == value
 }
 
+// ImportedUnits returns the units whose definitions unit may refer to: its
+// imports and theirs, without those that define nothing and may not even be
+// generated.
+func ImportedUnits(unit *definition.CompilationUnit) []*definition.CompilationUnit {
+	units := make([]*definition.CompilationUnit, 0, unit.GlobalImports.Len())
+	for _, imported := range unit.GlobalImports.Values() {
+		if imported.LocalTypes.Len() > 0 {
+			units = append(units, imported)
+		}
+	}
+	return units
+}
+
 // WireConstant returns the constant field as it appears on the wire: the value
 // reduced to the bits the field occupies, typed as the smallest unsigned type
 // that holds them. Signed, float and bool constants keep their bit pattern.
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index d9042e6..bfaa9b3 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -329,8 +329,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if .Imports -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
 {{ else -}}
@@ -473,6 +473,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.ImportedUnits(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenCtx.GenOptions.MemoryCopy,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 6729e49..72a979e 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -294,9 +294,9 @@ var fileTemplate = `
         return mergeDeep(target, ...sources);
     });
 
-    {{- if gt .Unit.LocalImports.Len 0 }}
+    {{- if .Imports }}
     var $root = mergeDeep({},
-        {{- range $unit := .Unit.LocalImports.Values }}
+        {{- range $unit := .Imports }}
         require("{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb" }}"),
         {{- end }}
     );
@@ -1050,6 +1050,7 @@ func (g CommonJSGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index c352d56..d6524a6 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -339,8 +339,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if .Imports -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
 {{ else -}}
@@ -543,6 +543,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.ImportedUnits(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenCtx.GenOptions.MemoryCopy,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 1cd69cf..b0ad10b 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -208,7 +208,7 @@ using System.Collections.Generic;
 using System.Linq;
 using System.Text;
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $unit.Options.Has "csharp_namespace" -}}
 {{ $namespace0 := $unit.Options.MustGet "csharp_namespace" -}}
 {{ $namespace1 := slice $namespace0.OptionValue 1 -1 -}}
@@ -328,6 +328,7 @@ func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 956b151..e0c0db1 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -287,7 +287,7 @@ var fileTemplate = `
 {{- end }}
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
-{{- range $unit := .Unit.LocalImports.Values }}
+{{- range $unit := .Imports }}
 import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
@@ -976,6 +976,7 @@ func (g ESModuleGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0eb0aaf..2f9e5ca 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -184,11 +184,11 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 				if !ok {
 					continue
 				}
-				if innerStructTy, ok := customTy.(*definition.Struct); ok {
-					dfsStructType(innerStructTy)
-				}
 				tyName := customTy.GetTypeName()
 				if unit.LocalNames.Has(tyName) {
+					if innerStructTy, ok := customTy.(*definition.Struct); ok {
+						dfsStructType(innerStructTy)
+					}
 					continue
 				}
 				tyUnit := customTy.GetBelongs()
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5bc2083..59ff59b 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -212,7 +212,7 @@ package {{ .Unit.Package }};
 {{- end }}
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $unit.Options.Has "java_package" -}}
 {{ $pkgName := $unit.Options.MustGet "java_package" -}}
 import {{ slice $pkgName.OptionValue 1 -1 }}.*;
@@ -270,6 +270,7 @@ func (g JavaGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			name, genType := entry.Key, entry.Value
 			fileData := map[string]any{
 				"Unit":       unit,
+				"Imports":    gen.ImportedUnits(unit),
 				"GenType":    genType,
 				"GenOptions": g.GenCtx.GenOptions,
 			}
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..13124d0 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -75,9 +75,9 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		return nil
 	}
 	pkg := kotlinPackage(unit)
-	imports := make([]string, 0, unit.LocalImports.Len())
+	imports := make([]string, 0, unit.GlobalImports.Len())
 	seen := map[string]bool{}
-	for _, imported := range unit.LocalImports.Values() {
+	for _, imported := range gen.ImportedUnits(unit) {
 		p := kotlinPackage(imported)
 		if p != "" && p != pkg && !seen[p] {
 			imports = append(imports, "import "+p+".*")
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index d72bc1e..bd570d7 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -169,7 +169,7 @@ from enum import Enum
 from typing import List, Tuple, Union, overload
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 from {{ $curUnit.Package.ToPyRelativePath $unit.Package "_bb" }} import *
 {{ else -}}
@@ -245,6 +245,7 @@ func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
-- 
2.43.0


From 1e4d54a50313e683661383b2b4d40e1f28b143ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 33/63] fix: keep ESM packages with the same last name apart

---
 generator/target/esm/esm.go        | 32 ++++++++++++++++++++++--------
 generator/target/esm/esm_decode.go |  4 ++--
 generator/target/esm/esm_encode.go |  6 +++---
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index e0c0db1..8404676 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -177,7 +177,7 @@ var structPackagePrefixTemplate = `
     {{- if $inPackage -}}
     {{ $structDef.StructName }}
     {{- else -}}
-    ${{ $structDef.StructBelongs.Package.PackageName }}.{{ $structDef.StructName }}
+    ${{ $structDef.StructBelongs.Package.ToPath "$" "" }}.{{ $structDef.StructName }}
     {{- end -}}
 {{- end -}}
 {{- end -}}
@@ -258,6 +258,7 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 	if g.GenCtx.GenOptions.SingleFile {
 		singleData := map[string]any{
 			"GenUnits":   g.GenUnits,
+			"Exports":    g.collectExports(),
 			"GenState":   g.GenState,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
@@ -274,6 +275,23 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 	return topErr, g.Warning
 }
 
+// collectExports returns the names a single file exports under each package
+// name; packages that differ only in their path share one.
+func (g *ESModuleGenerator) collectExports() *util.OrderedMap[string, []string] {
+	exports := util.NewOrderedMap[string, []string]()
+	for _, genUnit := range g.GenUnits.Values() {
+		pkgName := genUnit.SourceUnit.Package.PackageName
+		names := exports.MustGet(pkgName)
+		for _, entry := range genUnit.GeneratedTypes.Entries() {
+			if entry.Value.GeneratedDef != "" {
+				names = append(names, entry.Key)
+			}
+		}
+		exports.MustPut(pkgName, names)
+	}
+	return exports
+}
+
 // ==================== GenerateUnit ====================
 
 var fileTemplate = `
@@ -288,7 +306,7 @@ var fileTemplate = `
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
 {{- range $unit := .Imports }}
-import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
+import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
 {{- if .GenState.UseStructArray }}
@@ -930,12 +948,10 @@ const {{ $entry.Key }} = (function() {
 
 {{ end -}}
 export default {
-{{ range $genUnit := .GenUnits.Values }}
-    {{ $genUnit.SourceUnit.Package.PackageName }}: {
-{{- range $entry := $genUnit.GeneratedTypes.Entries }}
-{{- if $entry.Value.GeneratedDef }}
-        {{ $entry.Key }},
-{{- end }}
+{{ range $export := .Exports.Entries }}
+    {{ $export.Key }}: {
+{{- range $name := $export.Value }}
+        {{ $name }},
 {{- end }}
     },
 {{ end -}}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 11efb1a..be542c4 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -349,7 +349,7 @@ var fieldDecoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .FieldName }} = {{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- else -}}
-    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
+    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- end -}}
 {{- end -}}
 
@@ -617,7 +617,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
-					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, idxCast)
+					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, idxCast)
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index b009121..a883e6b 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -234,7 +234,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -255,7 +255,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -499,7 +499,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
-- 
2.43.0


From ed1e9c8cc8e50c9d3716f821ec85dade76aa1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 34/63] fix: report a failed import again instead of an import
 cycle

---
 compiler/compilation_runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/compilation_runtime.go b/compiler/compilation_runtime.go
index fa07d64..e714fdc 100644
--- a/compiler/compilation_runtime.go
+++ b/compiler/compilation_runtime.go
@@ -171,11 +171,13 @@ func (r *CompilationRuntime) compile(ident *definition.FileIdentifer, content st
 		}
 	}
 
+	r.ParseStack.Remove(ident.Path)
 	if errs != nil {
+		// not imported, another file importing it gets the same errors
+		r.Packages.Remove(unit.Package.String())
 		return nil, errs, warnings
 	}
 
-	r.ParseStack.Remove(ident.Path)
 	r.Units.Put(ident.Path, unit)
 
 	protoVisitor := NewParseVisitor(unit)
-- 
2.43.0


From 667046c916748439958d051c4e75e8dc7efa0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 35/63] fix: refuse sizes that do not fit 64 bits

bytes * 8 + bits, array length * element size and the sum of the fields wrapped
around, so a field of 2305843009213693953 bytes became one of 1 byte.
---
 compiler/proto_visitor.go | 38 ++++++++++++++++++++++++++++++++++++++
 definition/error.go       | 12 ++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 2713248..39f3532 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -3,6 +3,7 @@ package compiler
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -153,6 +154,22 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 		field.SetFieldBelongs(structDef)
 	}
 
+	// check total size
+	sum := int64(0)
+	for _, field := range fields.Values() {
+		size := field.GetFieldBitSize()
+		if size <= 0 {
+			continue
+		}
+		if size > math.MaxInt64-sum {
+			return &definition.CompileError{
+				Position: field,
+				Err:      &definition.SizeOverflowError{},
+			}
+		}
+		sum += size
+	}
+
 	// check field alignment
 	err := structDef.ForEachField(func(field definition.Field, index int, fixedStart int64, isDynamicStart bool) error {
 
@@ -890,6 +907,16 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.SizeOverflowError{},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2060,6 +2087,17 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if elemSize := base.GetTypeBitSize(); elemSize > 0 && length > math.MaxInt64/elemSize {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.SizeOverflowError{},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
diff --git a/definition/error.go b/definition/error.go
index 57d3877..344152e 100644
--- a/definition/error.go
+++ b/definition/error.go
@@ -614,6 +614,18 @@ func (e InvalidSizeError) Error() string {
 
 // --------------------
 
+type SizeOverflowError struct{}
+
+func (e SizeOverflowError) String() string {
+	return "size is too large (more than 2^63 - 1 bits)"
+}
+
+func (e SizeOverflowError) Error() string {
+	return e.String()
+}
+
+// --------------------
+
 type InvalidLiteralError struct {
 	Literal string
 	Err     error
-- 
2.43.0


From 176380dfadc1da2237a748cd75c2e2c78a4d485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 36/63] fix: refuse enums wider than 8 bytes and enum values
 that do not fit

Their code cut values off, or did not compile (Go).
---
 compiler/proto_visitor.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 39f3532..d654940 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2261,6 +2261,20 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 		panic("unreachable")
 	}
 
+	if size > 64 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.Size_().GetStart().GetLine(),
+				Column: ctx.Size_().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: size,
+				Msg:  "enum size cannot be greater than [8] (64 bits)",
+			},
+		}
+	}
+
 	body := ctx.EnumBody().Accept(v)
 	var values *util.OrderedMap[string, *definition.EnumValue]
 	switch val := body.(type) {
@@ -2287,6 +2301,18 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 
 	var errs definition.TopLevelError
 	for _, val := range values.Values() {
+		// a value counted up from the greatest one is negative
+		if val.EnumValue < 0 || (size < 63 && val.EnumValue>>size != 0) {
+			ex := &definition.CompileError{
+				Position: val,
+				Err: &definition.InvalidEnumDefError{
+					DefName: name,
+					Err:     fmt.Errorf("value of %s does not fit %d bits", val.EnumValueName, size),
+				},
+			}
+			errs = definition.TopLevelErrorsJoin(errs, ex)
+			continue
+		}
 		dupErr := v.Unit.AddLocalName(val.EnumValueName, val)
 		if dupErr != nil {
 			ex := &definition.CompileError{
-- 
2.43.0


From bec9804a667716ec6bc44dedbfc72546d9e2ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 37/63] fix: refuse arrays of structs that are declared
 narrower than their elements

Such an element was encoded over its neighbours and behind the end of the frame.
---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index d654940..35dffe4 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -548,7 +548,11 @@ func (v *ProtoVisitor) VisitFieldNormal(ctx *parser.FieldNormalContext) any {
 				}
 			}
 		}
-		if _, ok := type_.(*definition.Struct); ok && size != type_Size {
+		elemType := type_
+		if arrTy, ok := type_.(*definition.Array); ok {
+			elemType = arrTy.ElementType
+		}
+		if _, ok := elemType.(*definition.Struct); ok && size != type_Size {
 			return &definition.CompileError{
 				Position: pos,
 				Err: &definition.InvalidSizeError{
-- 
2.43.0


From 51f1f3a0ee0a5562c7ff9f838557c899a699d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 38/63] fix: Java enums with several names for one value

They had one case label twice and did not compile.
---
 generator/target/java/java.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 59ff59b..b112061 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1149,7 +1149,7 @@ public enum {{ .EnumDef.EnumName }} {
 
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
-        {{- range .EnumDef.EnumValues.Values }}
+        {{- range .DistinctValues }}
             case {{ .EnumValue }}: return {{ .EnumValueName }};
         {{- end }}
             default: return null;
@@ -1164,8 +1164,19 @@ public enum {{ .EnumDef.EnumName }} {
 `
 
 func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// a number stands for the first of its names
+	numbers := map[int64]bool{}
+	distinct := []*definition.EnumValue{}
+	for _, value := range enumDef.EnumValues.Values() {
+		if !numbers[value.EnumValue] {
+			numbers[value.EnumValue] = true
+			distinct = append(distinct, value)
+		}
+	}
+
 	enumDefData := map[string]any{
-		"EnumDef": enumDef,
+		"EnumDef":        enumDef,
+		"DistinctValues": distinct,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
-- 
2.43.0


From 652f592ddde09250cd80e79758cee00bdc18d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 39/63] fix: Java enums with numbers beyond int

They did not compile.
---
 generator/target/java/java.go | 53 +++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b112061..5038301 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1117,13 +1117,13 @@ var enumTemplate = `
 // Enum: {{ .EnumDef.ShortString }}
 public enum {{ .EnumDef.EnumName }} {
     {{- range .EnumDef.EnumValues.Values }}
-    {{ .EnumValueName }}({{ .EnumValue }}),
+    {{ .EnumValueName }}({{ .EnumValue }}{{ if $.Wide }}L{{ end }}),
     {{- end }}
     ;
 
-    private final int value;
+    private final {{ .TyValue }} value;
 
-    public final int getNumber() {
+    public final {{ .TyValue }} getNumber() {
         return value;
     }
 
@@ -1146,6 +1146,23 @@ public enum {{ .EnumDef.EnumName }} {
     public static {{ .EnumDef.EnumName }} forNumber(short value) {
         return forNumber(Short.toUnsignedInt(value));
     }
+    {{- if .Wide }}
+
+    public static {{ .EnumDef.EnumName }} valueOf(long value) {
+        return forNumber(value);
+    }
+
+    public static {{ .EnumDef.EnumName }} forNumber(int value) {
+        return forNumber(Integer.toUnsignedLong(value));
+    }
+
+    public static {{ .EnumDef.EnumName }} forNumber(long value) {
+        {{- range .DistinctValues }}
+        if (value == {{ .EnumValue }}L) return {{ .EnumValueName }};
+        {{- end }}
+        return null;
+    }
+    {{- else }}
 
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
@@ -1155,14 +1172,28 @@ public enum {{ .EnumDef.EnumName }} {
             default: return null;
         }
     }
+    {{- end }}
 
-    private {{ .EnumDef.EnumName }}(int value) {
+    private {{ .EnumDef.EnumName }}({{ .TyValue }} value) {
         this.value = value;
     }
 }
 {{- end -}}
 `
 
+// isWideEnum returns true if the numbers of the enum do not fit a Java int
+func isWideEnum(enumDef *definition.Enum) bool {
+	if enumDef.EnumBitSize > 32 {
+		return true
+	}
+	for _, value := range enumDef.EnumValues.Values() {
+		if value.EnumValue > math.MaxInt32 {
+			return true
+		}
+	}
+	return false
+}
+
 func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
 	// a number stands for the first of its names
 	numbers := map[int64]bool{}
@@ -1174,9 +1205,17 @@ func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, e
 		}
 	}
 
+	wide := isWideEnum(enumDef)
+	tyValue := "int"
+	if wide {
+		tyValue = "long"
+	}
+
 	enumDefData := map[string]any{
 		"EnumDef":        enumDef,
 		"DistinctValues": distinct,
+		"Wide":           wide,
+		"TyValue":        tyValue,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
@@ -2783,7 +2822,11 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `EnumName.forNumber(int)` is an API call; cast `(int)_v` is a basic-type cast.
-				common["Expr"] = fmt.Sprintf("%s.forNumber(%s)", elemTyT.EnumName, g.generateCastExpr(&definition.Int32, "_v"))
+				number := "_v"
+				if !isWideEnum(elemTyT) {
+					number = g.generateCastExpr(&definition.Int32, number)
+				}
+				common["Expr"] = fmt.Sprintf("%s.forNumber(%s)", elemTyT.EnumName, number)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From ead28f13608f0a64e505e10bf7b8f8784c8a2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 40/63] fix: C# and JS enums wider than 32 bits

C# did not compile; JS shifted numbers of more than 32 bits.
---
 generator/target/commonjs/commonjs.go | 71 +++++++++++++++++++--------
 generator/target/csharp/csharp.go     |  9 +++-
 generator/target/esm/esm.go           | 33 +++++++++++--
 generator/target/esm/esm_decode.go    |  8 +--
 generator/target/esm/esm_encode.go    | 27 +++++-----
 5 files changed, 108 insertions(+), 40 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 72a979e..1c2308c 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1659,7 +1659,7 @@ var enumTemplate = `
 {{- define "enumDef" -}}
                 var valuesById = {}, values = Object.create(valuesById);
                 {{- range .EnumDef.EnumValues.Values }}
-                values[valuesById[{{ .EnumValue }}] = "{{ .EnumValueName }}"] = {{ .EnumValue }};
+                values[valuesById[{{ call $.Literal .EnumValue }}] = "{{ .EnumValueName }}"] = {{ call $.Literal .EnumValue }};
                 {{- end }}
                 return values;
 {{- end -}}
@@ -1676,9 +1676,37 @@ var enumTemplate = `
 {{- end -}}
 `
 
+// Numbers beyond 32 bits do not survive the bit operators of Number, and those
+// beyond 53 bits do not fit a Number at all: they are handled as BigInt.
+
+// enumTempType returns the type of the variable that holds the number of the enum
+func enumTempType(enumDef *definition.Enum) *definition.BasicType {
+	if enumDef.EnumBitSize > 32 {
+		return &definition.Uint64
+	}
+	return &definition.Uint32
+}
+
+// enumBits returns the expression of the number in the variable, to take bits from
+func enumBits(enumDef *definition.Enum, tempName string) string {
+	if enumDef.EnumBitSize > 32 {
+		return fmt.Sprintf("BigInt(%s || 0)", tempName)
+	}
+	return tempName
+}
+
+// enumLiteral returns the literal of a number of an enum
+func enumLiteral(value int64) string {
+	if value > 1<<53 {
+		return fmt.Sprintf("%dn", value)
+	}
+	return fmt.Sprint(value)
+}
+
 func (g CommonJSGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Literal": enumLiteral,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
@@ -1934,9 +1962,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarDeclEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if not $inPackage -}}
-    var {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    var {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    var {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    var {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -1955,9 +1983,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarAssignEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if not $inPackage -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -2105,8 +2133,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 
 	case *definition.Enum:
 		tempName := g.generateEncodeTempVarName(startBits)
-		// any integer type is ok (except 64-bit)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 
 		encodeNormalFieldTempVarDeclData := map[string]any{
 			"EnumDef":   ty,
@@ -2117,7 +2144,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 		declStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclEnum", nil, encodeNormalFieldTempVarDeclData)
 		encodeStmts = append(encodeStmts, declStr)
 
-		stmts, err := g.generateEncodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
+		stmts, err := g.generateEncodeNormalFieldImpl(enumBits(ty, tempName), tempTy, field.FieldOptions, structDynamic, from, to)
 		if err != nil {
 			return nil, err
 		}
@@ -2246,11 +2273,15 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
+				isNumber := `=== "number"`
+				if elemTyT.EnumBitSize > 32 {
+					isNumber = `!== "string"`
+				}
 				var lookupExpr string
 				if inPackage {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $package.%s[%s[_i]])", name, name, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] "+isNumber+" ? %s[_i] : $package.%s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $root.%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] "+isNumber+" ? %s[_i] : $root.%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package, elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
@@ -2262,7 +2293,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 			// Unroll the array
 			// temp variable declaration
 			var nameIndex func(int64) string
-			switch ty.ElementType.(type) {
+			switch enumTy := ty.ElementType.(type) {
 			case *definition.Struct, *definition.String, *definition.Bytes:
 				nameIndex = func(index int64) string {
 					return fmt.Sprintf("%s[%d]", name, index)
@@ -2308,8 +2339,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 					return tempName
 				}
 
-				// change elemTy to any integer type (except 64-bit)
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(enumTy)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -2320,7 +2350,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 
 				subName := nameIndex(i)
 
-				switch ty.ElementType.(type) {
+				switch enumTy := ty.ElementType.(type) {
 				case *definition.BasicType:
 					if ty.ElementType.GetTypeID().IsFloat() {
 						encodeNormalFieldTempVarAssignFloatCastData := map[string]any{
@@ -2340,6 +2370,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 					}
 					assignStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, encodeNormalFieldTempVarAssignData)
 					encodeStmts = append(encodeStmts, assignStr)
+					subName = enumBits(enumTy, subName)
 				default:
 				}
 
@@ -3161,8 +3192,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 		}
 
 	case *definition.Enum:
-		// any integer type is ok (except 64-bit)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		tempName := g.generateDecodeTempVarName(startBits)
 
 		decodeNormalFieldTempVarDeclOnlyData := map[string]any{
@@ -3292,9 +3322,9 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
 				if inPackage {
-					common["Expr"] = fmt.Sprintf("$package.%s[%s]", elemTyT.EnumName, g.generateCastExpr(&definition.Uint32, "_v"))
+					common["Expr"] = fmt.Sprintf("$package.%s[%s]", elemTyT.EnumName, g.generateCastExpr(enumTempType(elemTyT), "_v"))
 				} else {
-					common["Expr"] = fmt.Sprintf("$root.%s.%s[%s]", elemTyT.EnumBelongs.Package, elemTyT.EnumName, g.generateCastExpr(&definition.Uint32, "_v"))
+					common["Expr"] = fmt.Sprintf("$root.%s.%s[%s]", elemTyT.EnumBelongs.Package, elemTyT.EnumName, g.generateCastExpr(enumTempType(elemTyT), "_v"))
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
@@ -3305,7 +3335,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 			// Unroll the array
 			// temp variable declaration
 			var nameIndex func(int64) string
-			switch ty.ElementType.(type) {
+			switch enumTy := ty.ElementType.(type) {
 			case *definition.Struct, *definition.String, *definition.Bytes:
 				nameIndex = func(index int64) string {
 					return fmt.Sprintf("%s[%d]", name, index)
@@ -3349,8 +3379,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 					return tempName
 				}
 
-				// change elemTy to any integer type (except 64-bit)
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(enumTy)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b0ad10b..f79f8a6 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2,6 +2,7 @@ package csharp
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"text/template"
 
@@ -1122,7 +1123,7 @@ func (g CSharpGenerator) GenerateEnum(enumDef *definition.Enum) (string, error)
 var enumTemplate = `
 {{- define "enumDef" -}}
     // Enum: {{ .EnumDef.ShortString }}
-    public enum {{ .EnumDef.EnumName }}
+    public enum {{ .EnumDef.EnumName }}{{ if .Wide }} : long{{ end }}
     {
         {{- range .EnumDef.EnumValues.Values }}
         {{ .EnumValueName }} = {{ .EnumValue }},
@@ -1132,8 +1133,14 @@ var enumTemplate = `
 `
 
 func (g CSharpGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// an enum without an underlying type is an int
+	wide := enumDef.EnumBitSize > 32
+	for _, value := range enumDef.EnumValues.Values() {
+		wide = wide || value.EnumValue > math.MaxInt32
+	}
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Wide":    wide,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 8404676..4d321e5 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1,4 +1,4 @@
-﻿package esm
+package esm
 
 import (
 	"fmt"
@@ -1455,14 +1455,41 @@ var enumTemplate = `
 {{- define "enumDef" -}}
 const valuesById = {}, values = Object.create(valuesById);
 {{- range .EnumDef.EnumValues.Values }}
-values[valuesById[{{ .EnumValue }}] = "{{ .EnumValueName }}"] = {{ .EnumValue }};
+values[valuesById[{{ call $.Literal .EnumValue }}] = "{{ .EnumValueName }}"] = {{ call $.Literal .EnumValue }};
 {{- end }}
 return values;
 {{- end -}}
 `
 
+// Numbers beyond 32 bits do not survive the bit operators of Number, and those
+// beyond 53 bits do not fit a Number at all: they are handled as BigInt.
+
+// enumTempType returns the type of the variable that holds the number of the enum
+func enumTempType(enumDef *definition.Enum) *definition.BasicType {
+	if enumDef.EnumBitSize > 32 {
+		return &definition.Uint64
+	}
+	return &definition.Uint32
+}
+
+// enumBits returns the expression of the number in the variable, to take bits from
+func enumBits(enumDef *definition.Enum, tempName string) string {
+	if enumDef.EnumBitSize > 32 {
+		return fmt.Sprintf("BigInt(%s || 0)", tempName)
+	}
+	return tempName
+}
+
+// enumLiteral returns the literal of a number of an enum
+func enumLiteral(value int64) string {
+	if value > 1<<53 {
+		return fmt.Sprintf("%dn", value)
+	}
+	return fmt.Sprint(value)
+}
+
 func (g ESModuleGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
-	enumDefData := map[string]any{"EnumDef": enumDef}
+	enumDefData := map[string]any{"EnumDef": enumDef, "Literal": enumLiteral}
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
 	code := &GeneratedType{GeneratedDef: enumDefStr}
 	return code, nil
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index be542c4..c8b0fab 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -509,7 +509,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 		}
 
 	case *definition.Enum:
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		tempName := g.generateDecodeTempVarName(startBits)
 		decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 		stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
@@ -613,7 +613,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
-				idxCast := g.generateCastExpr(&definition.Uint32, "_v")
+				idxCast := g.generateCastExpr(enumTempType(elemTyT), "_v")
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
@@ -627,7 +627,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 		} else {
 			// Unroll the array
 			var nameIndex func(int64) string
-			switch ty.ElementType.(type) {
+			switch enumTy := ty.ElementType.(type) {
 			case *definition.Struct, *definition.String, *definition.Bytes:
 				nameIndex = func(index int64) string { return fmt.Sprintf("%s[%d]", name, index) }
 			case *definition.BasicType:
@@ -647,7 +647,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(enumTy)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index a883e6b..c32b641 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -232,9 +232,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarDeclEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if or .SingleFile $inPackage -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -253,9 +253,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarAssignEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if or .SingleFile $inPackage -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} {{ if gt .EnumDef.EnumBitSize 32 }}!== "string"{{ else }}=== "number"{{ end }}) ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -379,13 +379,13 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 
 	case *definition.Enum:
 		tempName := g.generateEncodeTempVarName(startBits)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		declStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclEnum", nil, map[string]any{
 			"EnumDef": ty, "TempName": tempName, "FieldName": g.generateEncodeStructFieldName(field.FieldName), "FieldDef": field,
 			"SingleFile": g.GenCtx.GenOptions.SingleFile,
 		})
 		encodeStmts = append(encodeStmts, declStr)
-		stmts, err := g.generateEncodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
+		stmts, err := g.generateEncodeNormalFieldImpl(enumBits(ty, tempName), tempTy, field.FieldOptions, structDynamic, from, to)
 		if err != nil {
 			return nil, err
 		}
@@ -495,11 +495,15 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
+				isNumber := `=== "number"`
+				if elemTyT.EnumBitSize > 32 {
+					isNumber = `!== "string"`
+				}
 				var lookupExpr string
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] "+isNumber+" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] "+isNumber+" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
@@ -510,7 +514,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 		} else {
 			// Unroll the array
 			var nameIndex func(int64) string
-			switch ty.ElementType.(type) {
+			switch enumTy := ty.ElementType.(type) {
 			case *definition.Struct, *definition.String, *definition.Bytes:
 				nameIndex = func(index int64) string { return fmt.Sprintf("%s[%d]", name, index) }
 			case *definition.BasicType:
@@ -530,7 +534,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				tempName := g.generateEncodeTempVarName(startBits)
 				encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(enumTy)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -540,7 +544,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				subTo := from + (i+1)*elemBitSize
 				subName := nameIndex(i)
 
-				switch ty.ElementType.(type) {
+				switch enumTy := ty.ElementType.(type) {
 				case *definition.BasicType:
 					if ty.ElementType.GetTypeID().IsFloat() {
 						encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignFloatCast", nil, map[string]any{
@@ -552,6 +556,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 						"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
 						"SingleFile": g.GenCtx.GenOptions.SingleFile,
 					}))
+					subName = enumBits(enumTy, subName)
 				}
 
 				stmts, err := g.generateEncodeNormalFieldImpl(subName, elemTy, field.FieldOptions, structDynamic, subFrom, subTo)
-- 
2.43.0


From 424f5ed14ca49b93926091dd599c950c5c3981ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 41/63] fix: do not write out arrays longer than -unroll
 element by element

Setters in C and C++ and initial values in Java and C# did so for any
length: a long array exhausted the memory.
---
 generator/target/c/c.go           | 6 ++++++
 generator/target/cpp/cpp.go       | 6 ++++++
 generator/target/csharp/csharp.go | 5 +++++
 generator/target/java/java.go     | 5 +++++
 4 files changed, 22 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index bfaa9b3..c27e8c9 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1312,9 +1312,15 @@ void {{ $structName }}_set_{{ $fieldName }}(struct {{ $structName }}* ptr, {{ $p
 // RawSetterArray: {{ $structName }}_set_{{ $fieldName }}
 {{ if .GenOptions.SingleFile }}static {{ end -}}
 void {{ $structName }}_set_{{ $fieldName }}(struct {{ $structName }}* ptr, {{ $elemTyStr }}* value, uint64_t length) {
+{{- if and (ge .GenOptions.LoopUnroll 0) (gt $length .GenOptions.LoopUnroll) }}
+    for (int64_t _i = 0; _i < {{ $length }}; _i++) {
+        ptr->{{ $fieldName }}[_i] = value[_i];
+    }
+{{- else }}
 {{- range $i := iterate 0 $length }}
     ptr->{{ $fieldName }}[{{ $i }}] = value[{{ $i }}];
 {{- end }}
+{{- end }}
 }
 
 // RawSetterArrayItem: {{ $structName }}_set_{{ $fieldName }}_item
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index d6524a6..944332e 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1382,9 +1382,15 @@ var rawSetterTemplate = `
 {{- $structName := .FieldDef.FieldBelongs.StructName -}}
     // RawSetterArray: {{ $structName }}::set_{{ $fieldName }}
     void {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}set_{{ $fieldName }}(const {{ $elemTyStr }}* value, uint64_t length) {
+    {{- if and (ge .GenOptions.LoopUnroll 0) (gt $length .GenOptions.LoopUnroll) }}
+        for (int64_t _i = 0; _i < {{ $length }}; _i++) {
+            this->{{ $fieldName }}[_i] = value[_i];
+        }
+    {{- else }}
     {{- range $i := iterate 0 $length }}
         this->{{ $fieldName }}[{{ $i }}] = value[{{ $i }}];
     {{- end }}
+    {{- end }}
     }
 
     // RawSetterArrayItem: {{ $structName }}::set_{{ $fieldName }}_item
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index f79f8a6..b3ab902 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -448,8 +448,12 @@ func (g CSharpGenerator) GenerateArray(array *definition.Array) (string, error)
 var arrayDefaultValueTemplate = `
 {{- define "arrayDefaultValue" -}}
 {{ $elemDefValue := .ElemDefValue -}}
+{{- if and (ge .LoopUnroll 0) (gt .Length .LoopUnroll) -}}
+    Enumerable.Range(0, {{ .Length }}).Select(_ => ({{ .ElemTy }}){{ $elemDefValue }}).ToArray()
+{{- else -}}
     new {{ .ElemTy }}[] { {{ $elemDefValue }}{{ range $i := iterate 1 .Length }}, {{ $elemDefValue }}{{ end }} }
 {{- end -}}
+{{- end -}}
 `
 
 func (g CSharpGenerator) GenerateArrayDefaultValue(array *definition.Array) (string, error) {
@@ -477,6 +481,7 @@ func (g CSharpGenerator) GenerateArrayDefaultValue(array *definition.Array) (str
 		"ElemTy":       elemTy,
 		"ElemDefValue": elemDefValue,
 		"Length":       array.Length,
+		"LoopUnroll":   g.GenCtx.GenOptions.LoopUnroll,
 	}
 
 	defaultValue := util.ExecuteTemplate(arrayDefaultValueTemplate, "arrayDefaultValue", nil, data)
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5038301..a2c5ab2 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -386,8 +386,12 @@ func (g JavaGenerator) GenerateArray(array *definition.Array) (string, error) {
 var arrayDefaultValueTemplate = `
 {{- define "arrayDefaultValue" -}}
 {{ $elemDefValue := .ElemDefValue -}}
+{{- if and (ge .LoopUnroll 0) (gt .Length .LoopUnroll) -}}
+    java.util.stream.Stream.generate(() -> {{ $elemDefValue }}).limit({{ .Length }}).toArray({{ .ElemTy }}[]::new)
+{{- else -}}
     new {{ .ElemTy }}[] { {{ $elemDefValue }}{{ range $i := iterate 1 .Length }}, {{ $elemDefValue }}{{ end }} }
 {{- end -}}
+{{- end -}}
 `
 
 func (g JavaGenerator) GenerateArrayDefaultValue(array *definition.Array) (string, error) {
@@ -415,6 +419,7 @@ func (g JavaGenerator) GenerateArrayDefaultValue(array *definition.Array) (strin
 		"ElemTy":       elemTy,
 		"ElemDefValue": elemDefValue,
 		"Length":       array.Length,
+		"LoopUnroll":   g.GenCtx.GenOptions.LoopUnroll,
 	}
 
 	defaultValue := util.ExecuteTemplate(arrayDefaultValueTemplate, "arrayDefaultValue", nil, data)
-- 
2.43.0


From b2d134a4108eb6563d804f6e1aaeca6525abffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 42/63] fix: refuse constants that do not fit their field

They were encoded as other numbers.
---
 compiler/proto_visitor.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 35dffe4..1eabe43 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -856,6 +856,29 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 		}
 	}
 
+	// a constant that does not fit would be encoded as another one
+	fit := true
+	switch val := constant.GetLiteralValue().(type) {
+	case int64:
+		if val >= 0 {
+			fit = size >= 64 || val>>size == 0
+		} else {
+			fit = val>>(size-1) == -1
+		}
+	case float64:
+		fit = type_.TypeTypeID != definition.TypeID_Float32 || !math.IsInf(float64(float32(val)), 0)
+	default:
+	}
+	if !fit {
+		return &definition.CompileError{
+			Position: pos,
+			Err: &definition.InvalidLiteralError{
+				Literal: fmt.Sprint(constant.GetLiteralValue()),
+				Err:     fmt.Errorf("value does not fit %s of %d bits", type_.String(), size),
+			},
+		}
+	}
+
 	options := util.NewOrderedMap[string, *definition.Option]()
 	if ctx.FieldOptions() != nil {
 		ret := ctx.FieldOptions().Accept(v)
-- 
2.43.0


From 221c878b46c9717dcc0cb51c8acb3cb10fb8a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 43/63] fix: report a wrong name of a struct or enum field's
 type instead of crashing

---
 compiler/proto_visitor.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 1eabe43..6b6f048 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2176,7 +2176,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		var name string
+		nameRet := ctx.StructName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2214,7 +2223,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		var name string
+		nameRet := ctx.EnumName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0


From 3eb778368936010e7dc69790685c475a0b255058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 44/63] fix: write float literals in full

Float literals were written with six decimals, so that constants and
expressions of small or precise numbers lost digits (1e-7 became 0), and
infinities became text no target compiles.
---
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/esm/esm_decode.go    |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/python/python.go     |  2 +-
 util/float.go                         | 26 ++++++++++++++++++++++++++
 9 files changed, 34 insertions(+), 8 deletions(-)
 create mode 100644 util/float.go

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index c27e8c9..eb9ccc2 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3425,7 +3425,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "(1.0 / 0.0)", "(-1.0 / 0.0)", "(0.0 / 0.0)"), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 1c2308c..6cc8c55 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3889,7 +3889,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "Infinity", "-Infinity", "NaN"), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 944332e..746acd4 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3697,7 +3697,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "(1.0 / 0.0)", "(-1.0 / 0.0)", "(0.0 / 0.0)"), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b3ab902..028b18a 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3650,7 +3650,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "double.PositiveInfinity", "double.NegativeInfinity", "double.NaN"), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index c8b0fab..cb292cf 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -1016,7 +1016,7 @@ func (g ESModuleLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g ESModuleLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%g", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "Infinity", "-Infinity", "NaN"), nil
 }
 
 func (g ESModuleLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 2f9e5ca..199a4da 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3026,7 +3026,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "math.Inf(1)", "math.Inf(-1)", "math.NaN()"), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index a2c5ab2..8508192 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3415,7 +3415,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "Double.POSITIVE_INFINITY", "Double.NEGATIVE_INFINITY", "Double.NaN"), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index bd570d7..5ca85dc 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2571,7 +2571,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return util.FloatLiteral(literal.FloatValue, "float('inf')", "float('-inf')", "float('nan')"), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/util/float.go b/util/float.go
new file mode 100644
index 0000000..b45a552
--- /dev/null
+++ b/util/float.go
@@ -0,0 +1,26 @@
+package util
+
+import (
+	"math"
+	"strconv"
+	"strings"
+)
+
+// FloatLiteral writes a finite float64 as a decimal literal that reads back as
+// exactly the same value and is a floating point literal in every target.
+// Infinities and NaN have no literal; their names in the target are passed in.
+func FloatLiteral(v float64, inf, negInf, nan string) string {
+	switch {
+	case math.IsInf(v, 1):
+		return inf
+	case math.IsInf(v, -1):
+		return negInf
+	case math.IsNaN(v):
+		return nan
+	}
+	s := strconv.FormatFloat(v, 'g', -1, 64)
+	if !strings.ContainsAny(s, ".e") {
+		s += ".0"
+	}
+	return s
+}
-- 
2.43.0


From 10d744b42cc7cda09b08834e63d89f80bb3942b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 45/63] fix: keep Python's not and negative literals apart from
 their surroundings

The Python target wrote (notvalue) for !value. A negative literal next to
another operator changed meaning or did not compile: - -1 became --1, and
(-2) ** value became -2 ** value.
---
 generator/target/c/c.go               | 6 +++++-
 generator/target/commonjs/commonjs.go | 6 +++++-
 generator/target/cpp/cpp.go           | 6 +++++-
 generator/target/csharp/csharp.go     | 6 +++++-
 generator/target/esm/esm_decode.go    | 6 +++++-
 generator/target/golang/golang.go     | 6 +++++-
 generator/target/java/java.go         | 6 +++++-
 generator/target/kotlin/kotlin.go     | 6 +++++-
 generator/target/python/python.go     | 8 ++++++--
 9 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index eb9ccc2..365b6c3 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3366,7 +3366,11 @@ func (g CExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (str
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g CExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 6cc8c55..396356c 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3818,7 +3818,11 @@ func (g CommonJSExprGenerator) GenerateConstantExpr(expr *definition.ConstantExp
 	if generator == nil {
 		generator = NewCommonJSLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g CommonJSExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 746acd4..fefa351 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3641,7 +3641,11 @@ func (g CppExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (s
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g CppExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 028b18a..586b249 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3594,7 +3594,11 @@ func (g CSharpExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr)
 	if generator == nil {
 		generator = NewCSharpLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g CSharpExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index cb292cf..2612046 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -949,7 +949,11 @@ func (g ESModuleExprGenerator) GenerateConstantExpr(expr *definition.ConstantExp
 	if generator == nil {
 		generator = NewESModuleLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g ESModuleExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 199a4da..0b937b9 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2943,7 +2943,11 @@ func (g GoExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (st
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g GoExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 8508192..45fb919 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3324,7 +3324,11 @@ func (g JavaExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (
 	if generator == nil {
 		generator = NewJavaLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g JavaExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 13124d0..499050d 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -488,7 +488,11 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 	case *definition.RawExpr:
 		return e.Expr, nil
 	case *definition.ConstantExpr:
-		return g.literalForType(e.ConstantValue, e.ConstantType)
+		literal, err := g.literalForType(e.ConstantValue, e.ConstantType)
+		if err == nil && strings.HasPrefix(literal, "-") {
+			literal = "(" + literal + ")" // keep the sign apart from the operators around it
+		}
+		return literal, err
 	case *definition.CastExpr:
 		inner, err := g.generateExpr(e.Expr1, value)
 		if err != nil {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 5ca85dc..b1f8ed2 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2462,7 +2462,7 @@ var exprOpToString = map[definition.ExprOp]string{
 	definition.ExprOp_BOR:    "|",
 	definition.ExprOp_AND:    "and",
 	definition.ExprOp_OR:     "or",
-	definition.ExprOp_NOT:    "not",
+	definition.ExprOp_NOT:    "not ",
 	definition.ExprOp_BNOT:   "~",
 	definition.ExprOp_ASSIGN: "=",
 }
@@ -2512,7 +2512,11 @@ func (g PythonExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr)
 	if generator == nil {
 		generator = NewPythonLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	literal, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err == nil && strings.HasPrefix(literal, "-") {
+		literal = "(" + literal + ")" // keep the sign apart from the operators around it
+	}
+	return literal, err
 }
 
 func (g PythonExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
-- 
2.43.0


From c46bce3224db8b495fa5676952de76c6c93c62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 46/63] fix: give embedded fields custom accessors of their own

A struct embedding another one with custom getters or setters repeated the
accessors of the embedded struct, which C, C++ and Go do not compile.
---
 definition/field.go  | 12 +++++++++++-
 definition/method.go |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/definition/field.go b/definition/field.go
index 318653a..64e0bb3 100644
--- a/definition/field.go
+++ b/definition/field.go
@@ -130,10 +130,20 @@ func (f NormalField) Copy() Field {
 		FieldName:    f.FieldName,
 		FieldType:    f.FieldType,
 		FieldBitSize: f.FieldBitSize,
-		FieldMethods: f.FieldMethods,
+		FieldMethods: util.NewOrderedMap[string, *util.OrderedMap[MethodKindID, Method]](),
 		FieldOptions: f.FieldOptions,
 		FieldBelongs: f.FieldBelongs,
 	}
+	// the copy has methods of its own, which belong to it
+	for _, entry := range f.FieldMethods.Entries() {
+		group := util.NewOrderedMap[MethodKindID, Method]()
+		for _, method := range entry.Value.Entries() {
+			newMethod := method.Value.Copy()
+			newMethod.SetMethodBelongs(&newField)
+			group.Put(method.Key, newMethod)
+		}
+		newField.FieldMethods.Put(entry.Key, group)
+	}
 	return &newField
 }
 
diff --git a/definition/method.go b/definition/method.go
index 52dcb65..1e26b0a 100644
--- a/definition/method.go
+++ b/definition/method.go
@@ -39,6 +39,7 @@ type Method interface {
 	GetMethodName() string
 	GetMethodBelongs() *NormalField
 	SetMethodBelongs(*NormalField)
+	Copy() Method
 }
 
 var _ Method = (*GetMethod)(nil)
@@ -68,6 +69,10 @@ func (m *GetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m GetMethod) Copy() Method {
+	return &m
+}
+
 type SetMethod struct {
 	BasePosition
 
@@ -93,6 +98,10 @@ func (m *SetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m SetMethod) Copy() Method {
+	return &m
+}
+
 // type Method struct {
 //     BasePosition
 
-- 
2.43.0


From 551ee0ac257828ac7c7fb919ea720700bd043f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 47/63] fix: type the value of a custom getter as its field

It was given the getter's return type, so that Go ternaries returned the
field under the wrong type.
---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 6b6f048..e1dc847 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -1226,7 +1226,11 @@ func (v *MethodVisitor) VisitFieldMethod(ctx *parser.FieldMethodContext) any {
 		panic("unreachable")
 	}
 
-	exprVisitor := NewExprVisitor(v, type_)
+	valueType := type_
+	if kind == definition.MethodKindID_Get {
+		valueType = v.FieldType // a getter's value is the field
+	}
+	exprVisitor := NewExprVisitor(v, valueType)
 	var expr definition.Expr
 	exprRet := ctx.Expr().Accept(exprVisitor)
 	switch val := exprRet.(type) {
-- 
2.43.0


From 9d2d5c88eefb230405bcadd7e39568c78abb2adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:08 +0000
Subject: [PATCH 48/63] fix: size probe of a nested struct must not overflow on
 huge lengths (Java, C#, Kotlin)

---
 generator/target/csharp/csharp.go        | 6 +++---
 generator/target/java/java.go            | 6 +++---
 generator/target/kotlin/kotlin_decode.go | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 586b249..b2ac0b4 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2382,7 +2382,7 @@ var decoderTemplate = `
                 if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }});
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return _subSize < offset + {{ $fromByte }} - int.MaxValue ? -1 : -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
             }
             {{- else }}
@@ -2394,7 +2394,7 @@ var decoderTemplate = `
                 if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }});
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return _subSize < offset + {{ $fromByte }} - int.MaxValue ? -1 : -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
             }
             {{- end -}}
@@ -2466,7 +2466,7 @@ var decoderTemplate = `
                 if (data.Length < offset + {{ $fromByte }}) return -(offset + {{ $fromByte }});
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return _subSize < offset + {{ $fromByte }} - int.MaxValue ? -1 : -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
             }
     {{- end -}}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 45fb919..71ac5c6 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2265,14 +2265,14 @@ var decoderTemplate = `
             {{- if $shouldUseLoop }}
         for (int _i = 0; _i < {{ $f.FieldType.Length }}; _i++) {
             int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].decodeSize(data, offset + start + {{ $fromByte }});
-            if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+            if (_subSize < 0) return _subSize < offset + {{ $fromByte }} - Integer.MAX_VALUE ? -1 : -(offset + {{ $fromByte }}) + _subSize;
             offset += _subSize;
         }
             {{- else }}
             {{- range $i := iterate 0 $f.FieldType.Length }}
         {   // {{ $f }}: [{{ $i }}]
             int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].decodeSize(data, offset + start + {{ $fromByte }});
-            if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+            if (_subSize < 0) return _subSize < offset + {{ $fromByte }} - Integer.MAX_VALUE ? -1 : -(offset + {{ $fromByte }}) + _subSize;
             offset += _subSize;
         }
             {{- end }}
@@ -2312,7 +2312,7 @@ var decoderTemplate = `
     {{- if $f.FieldType.GetTypeDynamic }}
         {   // {{ $f }}
             int _subSize = this.{{ TocamelCase $f.FieldName }}.decodeSize(data, offset + start + {{ $fromByte }});
-            if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+            if (_subSize < 0) return _subSize < offset + {{ $fromByte }} - Integer.MAX_VALUE ? -1 : -(offset + {{ $fromByte }}) + _subSize;
             offset += _subSize;
         }
     {{- end -}}
diff --git a/generator/target/kotlin/kotlin_decode.go b/generator/target/kotlin/kotlin_decode.go
index cbfdfe9..dd5283e 100644
--- a/generator/target/kotlin/kotlin_decode.go
+++ b/generator/target/kotlin/kotlin_decode.go
@@ -102,7 +102,7 @@ func (g *KotlinGenerator) emitDecodeSizeValue(b *strings.Builder, ty definition.
 		if t.StructDynamic {
 			fmt.Fprintf(b, "%srun {\n", indent)
 			fmt.Fprintf(b, "%s    val subSize = %s.decodeSize(data, %s)\n", indent, expr, pos)
-			fmt.Fprintf(b, "%s    if (subSize < 0) return -(offset + %d) + subSize\n", indent, fromByte)
+			fmt.Fprintf(b, "%s    if (subSize < 0) return if (subSize < offset + %d - Int.MAX_VALUE) -1 else -(offset + %d) + subSize\n", indent, fromByte, fromByte)
 			fmt.Fprintf(b, "%s    offset += subSize\n", indent)
 			fmt.Fprintf(b, "%s}\n", indent)
 		}
-- 
2.43.0


From 13c4f9e53401e9d565468949f9fa3c3b265bc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 49/63] fix: negate float constants before taking their bits
 (Kotlin)

---
 generator/target/kotlin/kotlin_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/kotlin/kotlin_encode.go b/generator/target/kotlin/kotlin_encode.go
index 7fe5c59..27f5ca5 100644
--- a/generator/target/kotlin/kotlin_encode.go
+++ b/generator/target/kotlin/kotlin_encode.go
@@ -218,9 +218,9 @@ func (g *KotlinGenerator) basicToULong(ty *definition.BasicType, expr string) st
 	case definition.TypeID_Bool:
 		return "(if (" + expr + ") 1uL else 0uL)"
 	case definition.TypeID_Float32:
-		return "" + expr + ".toRawBits().toUInt().toULong()"
+		return "(" + expr + ").toRawBits().toUInt().toULong()"
 	case definition.TypeID_Float64:
-		return "" + expr + ".toRawBits().toULong()"
+		return "(" + expr + ").toRawBits().toULong()"
 	default:
 		return "(" + expr + ").toULong()"
 	}
-- 
2.43.0


From c3811e143a0c225583d496b771b4d90b1507f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 50/63] fix: compare float fields the way hashCode does
 (Kotlin)

---
 generator/target/kotlin/kotlin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 499050d..0a38405 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -472,7 +472,11 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 			fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
 			fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
 		} else {
-			fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
+			if f.FieldType.GetTypeID().IsFloat() {
+				fmt.Fprintf(&eq, "        if (!%s.equals(other.%s)) return false\n", name, name)
+			} else {
+				fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
+			}
 			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", name)
 		}
 	}
-- 
2.43.0


From 61121d68a5f42a0fa9de0eb3fdaa83834d2cf166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 51/63] fix: tell fields from local variables in equals and
 hashCode (Java, Kotlin)

---
 generator/target/java/java.go     |  8 ++++----
 generator/target/kotlin/kotlin.go | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 71ac5c6..dc8012a 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -602,14 +602,14 @@ public final class {{ $structDef.StructName }} {
         {{- $fieldName := TocamelCase $field.FieldName }}
         {{- if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-        result = 31 * result + Arrays.deepHashCode({{ $fieldName }});
+        result = 31 * result + Arrays.deepHashCode(this.{{ $fieldName }});
             {{- else }}
-        result = 31 * result + Arrays.hashCode({{ $fieldName }});
+        result = 31 * result + Arrays.hashCode(this.{{ $fieldName }});
             {{- end }}
         {{- else if $field.FieldType.GetTypeID.IsBytes }}
-        result = 31 * result + Arrays.hashCode({{ $fieldName }});
+        result = 31 * result + Arrays.hashCode(this.{{ $fieldName }});
         {{- else }}
-        result = 31 * result + Objects.hashCode({{ $fieldName }});
+        result = 31 * result + Objects.hashCode(this.{{ $fieldName }});
         {{- end }}
     {{- end }}
     {{- end }}
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 0a38405..20772c0 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -462,22 +462,22 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 		if f.FieldType.GetTypeID().IsArray() {
 			a := f.FieldType.(*definition.Array)
 			if a.ElementType.GetTypeID().IsBytes() {
-				fmt.Fprintf(&eq, "        if (!%s.contentDeepEquals(other.%s)) return false\n", name, name)
-				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentDeepHashCode()\n", name)
+				fmt.Fprintf(&eq, "        if (!this.%s.contentDeepEquals(other.%s)) return false\n", name, name)
+				fmt.Fprintf(&hash, "        result = 31 * result + this.%s.contentDeepHashCode()\n", name)
 			} else {
-				fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
-				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
+				fmt.Fprintf(&eq, "        if (!this.%s.contentEquals(other.%s)) return false\n", name, name)
+				fmt.Fprintf(&hash, "        result = 31 * result + this.%s.contentHashCode()\n", name)
 			}
 		} else if f.FieldType.GetTypeID().IsBytes() {
-			fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
-			fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
+			fmt.Fprintf(&eq, "        if (!this.%s.contentEquals(other.%s)) return false\n", name, name)
+			fmt.Fprintf(&hash, "        result = 31 * result + this.%s.contentHashCode()\n", name)
 		} else {
 			if f.FieldType.GetTypeID().IsFloat() {
-				fmt.Fprintf(&eq, "        if (!%s.equals(other.%s)) return false\n", name, name)
+				fmt.Fprintf(&eq, "        if (!this.%s.equals(other.%s)) return false\n", name, name)
 			} else {
-				fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
+				fmt.Fprintf(&eq, "        if (this.%s != other.%s) return false\n", name, name)
 			}
-			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", name)
+			fmt.Fprintf(&hash, "        result = 31 * result + this.%s.hashCode()\n", name)
 		}
 	}
 	eq.WriteString("        return true\n    }\n\n")
-- 
2.43.0


From 5e8aed5dafee44cd40402b352df2ec5f24168e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 52/63] fix: convert the operands of custom accessor
 expressions to one type (Kotlin)

---
 generator/target/kotlin/kotlin.go | 169 ++++++++++++++++++++++++------
 1 file changed, 138 insertions(+), 31 deletions(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 20772c0..5ed1f3a 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -485,6 +485,118 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 	return eq.String() + hash.String()
 }
 
+// exprType is the type of the Kotlin code generated for an expression.
+func exprType(expr definition.Expr) definition.TypeID {
+	switch e := expr.(type) {
+	case *definition.CastExpr:
+		return e.ToType.GetTypeID()
+	case *definition.ConstantExpr:
+		switch v := e.ConstantValue.(type) {
+		case *definition.BoolLiteral:
+			return definition.TypeID_Bool
+		case *definition.FloatLiteral:
+			return definition.TypeID_Float64
+		case *definition.IntLiteral:
+			if int64(int32(v.IntValue)) != v.IntValue {
+				return definition.TypeID_Int64
+			}
+			return definition.TypeID_Int32
+		}
+	case *definition.UnopExpr:
+		if e.Op == definition.ExprOp_NOT {
+			return definition.TypeID_Bool
+		}
+		return promotedType(exprType(e.Expr1))
+	case *definition.BinopExpr:
+		switch e.Op {
+		case definition.ExprOp_POW:
+			if e.GetExprType() != nil && e.GetExprType().GetTypeID() == definition.TypeID_Float32 {
+				return definition.TypeID_Float32
+			}
+			return definition.TypeID_Float64
+		case definition.ExprOp_SHL, definition.ExprOp_SHR:
+			return promotedType(exprType(e.Expr1))
+		case definition.ExprOp_ADD, definition.ExprOp_SUB, definition.ExprOp_MUL, definition.ExprOp_DIV, definition.ExprOp_MOD:
+			return commonType(exprType(e.Expr1), exprType(e.Expr2))
+		case definition.ExprOp_BAND, definition.ExprOp_BOR, definition.ExprOp_BXOR:
+			return commonType(exprType(e.Expr1), exprType(e.Expr2))
+		}
+		return definition.TypeID_Bool
+	case *definition.TenaryExpr:
+		yes, no := exprType(e.Expr1), exprType(e.Expr2)
+		if yes == no {
+			return yes
+		}
+		return commonType(yes, no)
+	default:
+		if ty := expr.GetExprType(); ty != nil {
+			return ty.GetTypeID()
+		}
+	}
+	return definition.TypeID_Int32
+}
+
+// promotedType is the type narrow integers are computed in.
+func promotedType(ty definition.TypeID) definition.TypeID {
+	switch ty {
+	case definition.TypeID_Uint8, definition.TypeID_Uint16, definition.TypeID_Int8, definition.TypeID_Int16:
+		return definition.TypeID_Int32
+	}
+	return ty
+}
+
+// commonType is the type two operands of an operator are computed in. Kotlin does not
+// mix types by itself.
+func commonType(ty1, ty2 definition.TypeID) definition.TypeID {
+	ty1, ty2 = promotedType(ty1), promotedType(ty2)
+	for _, ty := range []definition.TypeID{
+		definition.TypeID_Float64, definition.TypeID_Float32,
+		definition.TypeID_Uint64, definition.TypeID_Int64, definition.TypeID_Uint32,
+	} {
+		if ty1 == ty || ty2 == ty {
+			return ty
+		}
+	}
+	return ty1
+}
+
+// convert turns Kotlin code of type from into the type to.
+func (g *KotlinGenerator) convert(code string, from, to definition.TypeID) string {
+	if from == to {
+		return code
+	}
+	if to.IsBool() {
+		zero := map[definition.TypeID]string{
+			definition.TypeID_Uint32: "0u", definition.TypeID_Uint64: "0uL", definition.TypeID_Int64: "0L",
+			definition.TypeID_Float32: "0.0f", definition.TypeID_Float64: "0.0",
+		}[promotedType(from)]
+		if zero == "" {
+			zero = "0"
+		}
+		return "(" + g.convert(code, from, promotedType(from)) + " != " + zero + ")"
+	}
+	if from.IsBool() {
+		code, from = "if ("+code+") 1 else 0", definition.TypeID_Int32
+	}
+	ty, _ := g.GenerateBasicType(&definition.BasicType{TypeTypeID: to})
+	switch to {
+	case definition.TypeID_Uint8, definition.TypeID_Uint16:
+		return "(" + code + ").toUInt().to" + ty + "()"
+	case definition.TypeID_Int8, definition.TypeID_Int16:
+		return "(" + code + ").toInt().to" + ty + "()"
+	}
+	return "(" + code + ").to" + ty + "()"
+}
+
+// generateOperand generates an expression as an operand of type to.
+func (g *KotlinGenerator) generateOperand(expr definition.Expr, value string, to definition.TypeID) (string, error) {
+	code, err := g.generateExpr(expr, value)
+	if err != nil {
+		return "", err
+	}
+	return g.convert(code, exprType(expr), to), nil
+}
+
 func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (string, error) {
 	switch e := expr.(type) {
 	case *definition.ValueExpr:
@@ -498,47 +610,42 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 		}
 		return literal, err
 	case *definition.CastExpr:
-		inner, err := g.generateExpr(e.Expr1, value)
-		if err != nil {
-			return "", err
-		}
-		if e.ToType.GetTypeID().IsBool() {
-			return "(" + inner + " != 0)", nil
-		}
-		ty, _ := g.GenerateBasicType(e.ToType)
-		switch e.ToType.GetTypeID() {
-		case definition.TypeID_Uint8, definition.TypeID_Uint16:
-			return "(" + inner + ").toUInt().to" + ty + "()", nil
-		case definition.TypeID_Int8, definition.TypeID_Int16:
-			return "(" + inner + ").toInt().to" + ty + "()", nil
-		}
-		return "(" + inner + ").to" + ty + "()", nil
+		return g.generateOperand(e.Expr1, value, e.ToType.GetTypeID())
 	case *definition.UnopExpr:
-		inner, err := g.generateExpr(e.Expr1, value)
+		ty := exprType(e)
+		inner, err := g.generateOperand(e.Expr1, value, ty)
 		if err != nil {
 			return "", err
 		}
-		if e.Op == definition.ExprOp_BNOT {
+		switch {
+		case e.Op == definition.ExprOp_BNOT:
 			return "(" + inner + ").inv()", nil
+		case e.Op == definition.ExprOp_SUB && ty == definition.TypeID_Uint32:
+			return "(0u - " + inner + ")", nil
+		case e.Op == definition.ExprOp_SUB && ty == definition.TypeID_Uint64:
+			return "(0uL - " + inner + ")", nil
 		}
 		return "(" + e.Op.String() + inner + ")", nil
 	case *definition.BinopExpr:
-		left, err := g.generateExpr(e.Expr1, value)
+		ty := commonType(exprType(e.Expr1), exprType(e.Expr2))
+		tyRight := ty
+		switch e.Op {
+		case definition.ExprOp_POW:
+			ty, tyRight = definition.TypeID_Float64, definition.TypeID_Float64
+		case definition.ExprOp_SHL, definition.ExprOp_SHR:
+			ty, tyRight = promotedType(exprType(e.Expr1)), definition.TypeID_Int32
+		}
+		left, err := g.generateOperand(e.Expr1, value, ty)
 		if err != nil {
 			return "", err
 		}
-		right, err := g.generateExpr(e.Expr2, value)
+		right, err := g.generateOperand(e.Expr2, value, tyRight)
 		if err != nil {
 			return "", err
 		}
-		if e.Op == definition.ExprOp_POW {
-			out := "(" + left + ").toDouble().pow((" + right + ").toDouble())"
-			if e.GetExprType() != nil && e.GetExprType().GetTypeID() == definition.TypeID_Float32 {
-				out += ".toFloat()"
-			}
-			return out, nil
-		}
 		switch e.Op {
+		case definition.ExprOp_POW:
+			return g.convert("("+left+").pow("+right+")", definition.TypeID_Float64, exprType(e)), nil
 		case definition.ExprOp_BAND:
 			return "(" + left + " and " + right + ")", nil
 		case definition.ExprOp_BOR:
@@ -546,22 +653,22 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 		case definition.ExprOp_BXOR:
 			return "(" + left + " xor " + right + ")", nil
 		case definition.ExprOp_SHL:
-			return "(" + left + " shl (" + right + ").toInt())", nil
+			return "(" + left + " shl " + right + ")", nil
 		case definition.ExprOp_SHR:
-			return "(" + left + " shr (" + right + ").toInt())", nil
+			return "(" + left + " shr " + right + ")", nil
 		default:
 			return "(" + left + " " + e.Op.String() + " " + right + ")", nil
 		}
 	case *definition.TenaryExpr:
-		cond, err := g.generateExpr(e.Cond, value)
+		cond, err := g.generateOperand(e.Cond, value, definition.TypeID_Bool)
 		if err != nil {
 			return "", err
 		}
-		yes, err := g.generateExpr(e.Expr1, value)
+		yes, err := g.generateOperand(e.Expr1, value, exprType(e))
 		if err != nil {
 			return "", err
 		}
-		no, err := g.generateExpr(e.Expr2, value)
+		no, err := g.generateOperand(e.Expr2, value, exprType(e))
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From e40725c7f22f904f02788347deca1767a3e4c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 53/63] fix: put the sign of a negative hexadecimal constant
 before its prefix

---
 generator/gen/gen_dispatcher.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..047259e 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -69,11 +69,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 			return fmt.Sprintf("%d", u)
 		}
 	}
+	// the sign comes before the prefix: -0x2A, not 0x-2A
+	sign, magnitude := "", uint64(literal.IntValue)
+	if literal.IntValue < 0 {
+		sign, magnitude = "-", -magnitude
+	}
 	switch base {
 	case definition.IntBaseHex:
-		return fmt.Sprintf("0x%X", literal.IntValue)
+		return fmt.Sprintf("%s0x%X", sign, magnitude)
 	case definition.IntBaseBin:
-		return fmt.Sprintf("0b%b", literal.IntValue)
+		return fmt.Sprintf("%s0b%b", sign, magnitude)
 	default:
 		return fmt.Sprintf("%d", literal.IntValue)
 	}
-- 
2.43.0


From e4992787f7c6e8129ff4d50592ff39d7fe596f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 54/63] fix: accept infinite float32 constants

---
 compiler/proto_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index e1dc847..88cbf94 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -866,7 +866,7 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 			fit = val>>(size-1) == -1
 		}
 	case float64:
-		fit = type_.TypeTypeID != definition.TypeID_Float32 || !math.IsInf(float64(float32(val)), 0)
+		fit = type_.TypeTypeID != definition.TypeID_Float32 || math.IsInf(val, 0) || !math.IsInf(float64(float32(val)), 0)
 	default:
 	}
 	if !fit {
-- 
2.43.0


From 7473312eaf81bd999f18f340978048b84e754d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 55/63] fix: accept single-quoted import paths

---
 compiler/import_visitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/import_visitor.go b/compiler/import_visitor.go
index b79e9ff..619f549 100644
--- a/compiler/import_visitor.go
+++ b/compiler/import_visitor.go
@@ -1,6 +1,7 @@
 package compiler
 
 import (
+	"fmt"
 	"strconv"
 
 	"github.com/xaxys/bubbler/definition"
@@ -48,6 +49,10 @@ func (v *ImportVisitor) VisitImportStatement(ctx *parser.ImportStatementContext)
 	}
 
 	fileLit := ctx.StrLit().STR_LIT().GetText()
+	// 'abc' -> "abc"
+	if fileLit[0] == '\'' && fileLit[len(fileLit)-1] == '\'' {
+		fileLit = fmt.Sprintf(`"%s"`, fileLit[1:len(fileLit)-1])
+	}
 	file, err := strconv.Unquote(fileLit)
 	if err != nil {
 		return topLevelErrorWrapper(
-- 
2.43.0


From a8cece618b8b936ccc77fd2b55142948d15b8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 56/63] fix: generate struct types that are defined in place
 (ES module)

---
 generator/target/esm/esm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 4d321e5..e55bcbc 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1303,6 +1303,7 @@ var normalFieldTemplate = `
 {{- define "normalField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $tyDefValue := GenerateTypeDefaultValue $field.FieldType -}}
     this.{{ $fieldName }} = {{ $tyDefValue }};
 {{- end -}}
-- 
2.43.0


From 696223248a10aca1419135b27ed54c8ad3ff8937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:57 +0000
Subject: [PATCH 57/63] fix: visit every struct type once when collecting
 imports (Go)

---
 generator/target/golang/golang.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0b937b9..073772a 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -163,6 +163,7 @@ func (g *GoGenerator) decodeIntValueExpr(elemTy *definition.BasicType, elemBitSi
 func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.OrderedMap[string, *GeneratedUnit], error) {
 	var errs definition.TopLevelError
 	imports := util.NewOrderedMap[string, *GeneratedUnit]()
+	visited := make(map[*definition.Struct]bool)
 	for _, localType := range unit.LocalTypes.Values() {
 		structType, ok := localType.(*definition.Struct)
 		if !ok {
@@ -171,6 +172,10 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 
 		var dfsStructType func(structTy *definition.Struct)
 		dfsStructType = func(structTy *definition.Struct) {
+			if visited[structTy] {
+				return
+			}
+			visited[structTy] = true
 			for _, field := range structTy.StructFields.Values() {
 				normalField, ok := field.(*definition.NormalField)
 				if !ok {
-- 
2.43.0


From c33eca4d9c2b31939c0a6adf4ca10d616beed640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:10 +0000
Subject: [PATCH 58/63] fix: spell infinite and NaN constants (Kotlin)

---
 generator/target/kotlin/kotlin.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 5ed1f3a..c72518b 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -2,6 +2,7 @@ package kotlin
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -697,14 +698,16 @@ func (g *KotlinGenerator) literalForType(lit definition.Literal, ty *definition.
 	case *definition.StringLiteral:
 		return strconv.Quote(v.StringValue), nil
 	case *definition.FloatLiteral:
-		s := strconv.FormatFloat(v.FloatValue, 'g', -1, 64)
-		if !strings.ContainsAny(s, ".eE") {
-			s += ".0"
-		}
 		if ty.GetTypeID() == definition.TypeID_Float32 {
-			s += "f"
+			s := util.FloatLiteral(v.FloatValue, "Float.POSITIVE_INFINITY", "Float.NEGATIVE_INFINITY", "Float.NaN")
+			if strings.HasPrefix(s, "Float.") {
+				return s, nil
+			}
+			return s + "f", nil
 		}
-		return s, nil
+		// the bits every other target sends for this constant
+		nan := fmt.Sprintf("Double.fromBits(0x%XL)", math.Float64bits(math.NaN()))
+		return util.FloatLiteral(v.FloatValue, "Double.POSITIVE_INFINITY", "Double.NEGATIVE_INFINITY", nan), nil
 	case *definition.IntLiteral:
 		resolved := *v
 		if resolved.Base == definition.IntBaseAuto {
-- 
2.43.0


From 5cec5735990bf61507b65e27b7bde11a0f9dc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 59/63] fix: generate struct types that are defined in place
 (Kotlin)

---
 generator/target/kotlin/kotlin.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index c72518b..8f83a5f 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -71,6 +71,34 @@ func kotlinPackage(unit *definition.CompilationUnit) string {
 	return unit.Package.String()
 }
 
+// unitTypes returns the types to generate for a unit: its top-level types, each
+// preceded by the struct types that are defined in place as the type of a field.
+func unitTypes(unit *definition.CompilationUnit) []definition.CustomType {
+	types := util.NewOrderedMap[string, definition.CustomType]()
+	var add func(ty definition.Type)
+	add = func(ty definition.Type) {
+		if array, ok := ty.(*definition.Array); ok {
+			ty = array.ElementType
+		}
+		custom, ok := ty.(definition.CustomType)
+		if !ok || custom.GetBelongs() != unit || types.Has(custom.GetTypeName()) {
+			return
+		}
+		if structDef, ok := custom.(*definition.Struct); ok {
+			for _, field := range structDef.StructFields.Values() {
+				if normalField, ok := field.(*definition.NormalField); ok {
+					add(normalField.FieldType)
+				}
+			}
+		}
+		types.Put(custom.GetTypeName(), custom)
+	}
+	for _, ty := range unit.LocalTypes.Values() {
+		add(ty)
+	}
+	return types.Values()
+}
+
 func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
 		return nil
@@ -85,7 +113,7 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			seen[p] = true
 		}
 	}
-	for _, ty := range unit.LocalTypes.Values() {
+	for _, ty := range unitTypes(unit) {
 		var body string
 		var err error
 		switch t := ty.(type) {
-- 
2.43.0


From eebfd6b64c6bc799d17a48c1c384034edd8fcc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 60/63] fix: Python decode reports a failure as (False, -1)

A frame refused for a constant or by a nested struct was reported as
(False, 0), other refusals and the documentation say (False, -1).
---
 generator/target/python/python.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index b1f8ed2..bdee496 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1846,19 +1846,19 @@ var fieldDecoderTemplate = `
 
 {{- define "decodeConstantField" -}}
     if {{ .TempName }} != {{ .ConstantValue }}:
-            return False, 0
+            return False, -1
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
 {{- if .FieldStruct.GetTypeDynamic -}}
         success, {{ .TempName }} = {{ .FieldName }}.decode(data[offset+{{ .FromByte }}:])
         if not success:
-            return False, 0
+            return False, -1
         offset += {{ .TempName }}
 {{- else -}}
         success, _ = {{ .FieldName }}.decode(data[{{ if .Dynamic }}offset+{{ end }}{{ .FromByte }}:])
         if not success:
-            return False, 0
+            return False, -1
 {{- end -}}
 {{- end -}}
 
-- 
2.43.0


From 9ee4f93338270f4b0027462c33d107c86ea985b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 61/63] fix: the Python target always copies

Without -memcpy byte strings decoded from a bytearray or memoryview were
views of the caller's buffer, although the documentation says the option
is forced for Python.
---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index bdee496..3c37732 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -90,6 +90,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target does not support zero-copy, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From e34aa7d9b00576545fcc261a6d1005456d5d90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 62/63] fix: relative references follow -rmpath

-rmpath moves some outputs and not others, but relative includes, imports
and requires were computed from the packages as written and led to files
that do not exist.
---
 generator/gen/gen_ctx.go              | 10 +---------
 generator/gen/gen_option.go           | 18 ++++++++++++++++++
 generator/target/c/c.go               |  4 ++--
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  4 ++--
 generator/target/esm/esm.go           |  2 +-
 generator/target/python/python.go     |  2 +-
 7 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index 9524b0d..0373095 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -61,15 +61,7 @@ func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string
 
 func (ctx *GenCtx) WriteFile(file string, text string) error {
 	text = normalizeGeneratedIndent(text)
-	for _, rmpath := range ctx.GenOptions.RemovePath {
-		if strings.HasPrefix(file, rmpath) {
-			file = file[len(rmpath):]
-			for strings.HasPrefix(file, "/") {
-				file = file[1:]
-			}
-			break
-		}
-	}
+	file = ctx.GenOptions.removePathPrefix(file)
 	if ctx.OutputPath == "" {
 		return writeStdout(text)
 	}
diff --git a/generator/gen/gen_option.go b/generator/gen/gen_option.go
index 84d7d71..d44beba 100644
--- a/generator/gen/gen_option.go
+++ b/generator/gen/gen_option.go
@@ -44,6 +44,24 @@ func (o *GenOptions) String() string {
 	return util.ToString(*o)
 }
 
+// removePathPrefix returns the output path of a generated file without the first
+// of the RemovePath prefixes it begins with.
+func (o *GenOptions) removePathPrefix(file string) string {
+	for _, rmpath := range o.RemovePath {
+		if strings.HasPrefix(file, rmpath) {
+			return strings.TrimLeft(file[len(rmpath):], "/")
+		}
+	}
+	return file
+}
+
+// OutputPackage returns the package whose path is where the files of pkg are
+// written, for calculating relative paths between generated files.
+func (o *GenOptions) OutputPackage(pkg *definition.Package) *definition.Package {
+	file := o.removePathPrefix(pkg.ToFilePath(""))
+	return definition.NewPackage(pkg.BasePosition, strings.Split(file, "/"))
+}
+
 func NewGenOptions(setter ...GenOptionSetter) *GenOptions {
 	options := &GenOptions{
 		RemovePath:     nil,
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 365b6c3..f4ed927 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -332,7 +332,7 @@ struct bytes {
 {{ if .Imports -}}
 {{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
-#include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
+#include "{{ ($.GenOptions.OutputPackage $curUnit.Package).ToRelativePathStrict ($.GenOptions.OutputPackage $unit.Package) ".bb.h" }}"
 {{ else -}}
 #include "{{ $unit.Package.ToFilePath ".bb.h" }}"
 {{ end -}}
@@ -375,7 +375,7 @@ struct bytes {
 {{- end }}
 
 {{ if .GenOptions.RelativePath -}}
-#include "{{ .Unit.Package.ToRelativePathStrict .Unit.Package ".bb.h" }}"
+#include "{{ (.GenOptions.OutputPackage .Unit.Package).ToRelativePathStrict (.GenOptions.OutputPackage .Unit.Package) ".bb.h" }}"
 {{ else -}}
 #include "{{ .Unit.Package.ToFilePath ".bb.h" }}"
 {{ end -}}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 396356c..b88ab15 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -297,7 +297,7 @@ var fileTemplate = `
     {{- if .Imports }}
     var $root = mergeDeep({},
         {{- range $unit := .Imports }}
-        require("{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb" }}"),
+        require("{{ ($.GenOptions.OutputPackage $curUnit.Package).ToRelativePathStrict ($.GenOptions.OutputPackage $unit.Package) ".bb" }}"),
         {{- end }}
     );
     {{- else }}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index fefa351..db02a74 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -342,7 +342,7 @@ struct bytes {
 {{ if .Imports -}}
 {{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
-#include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
+#include "{{ ($.GenOptions.OutputPackage $curUnit.Package).ToRelativePathStrict ($.GenOptions.OutputPackage $unit.Package) ".bb.hpp" }}"
 {{ else -}}
 #include "{{ $unit.Package.ToFilePath ".bb.hpp" }}"
 {{ end -}}
@@ -396,7 +396,7 @@ namespace {{ .Unit.Package.ToPath "::" "" }}
 {{- end }}
 
 {{ if .GenOptions.RelativePath -}}
-#include "{{ .Unit.Package.ToRelativePathStrict .Unit.Package ".bb.hpp" }}"
+#include "{{ (.GenOptions.OutputPackage .Unit.Package).ToRelativePathStrict (.GenOptions.OutputPackage .Unit.Package) ".bb.hpp" }}"
 {{ else -}}
 #include "{{ .Unit.Package.ToFilePath ".bb.hpp" }}"
 {{ end -}}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index e55bcbc..edf1925 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -306,7 +306,7 @@ var fileTemplate = `
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
 {{- range $unit := .Imports }}
-import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
+import ${{ $unit.Package.ToPath "$" "" }} from "{{ ($.GenOptions.OutputPackage $curUnit.Package).ToRelativePathStrict ($.GenOptions.OutputPackage $unit.Package) ".bb.js" }}";
 {{- end }}
 
 {{- if .GenState.UseStructArray }}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 3c37732..5361df0 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -181,7 +181,7 @@ from typing import List, Tuple, Union, overload
 {{ $curUnit := .Unit -}}
 {{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
-from {{ $curUnit.Package.ToPyRelativePath $unit.Package "_bb" }} import *
+from {{ ($.GenOptions.OutputPackage $curUnit.Package).ToPyRelativePath ($.GenOptions.OutputPackage $unit.Package) "_bb" }} import *
 {{ else -}}
 from {{ $unit.Package.ToPath "." "_bb" }} import *
 {{ end -}}
-- 
2.43.0


From 220cdff47ea582516fcc7db5a29bb4ba0ab5474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:18 +0000
Subject: [PATCH 63/63] fix: Kotlin refuses setter-only accessors before
 writing anything

The refusal came when the struct was generated, after the files of other
packages had been written, and did not say where the accessor is.
---
 generator/target/kotlin/kotlin.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 8f83a5f..4546914 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -42,6 +42,9 @@ func (g *KotlinGenerator) Generate(ctx *gen.GenCtx) (error, error) {
 		}})
 		ctx.GenOptions.MemoryCopy = true
 	}
+	if err := checkCustomProperties(ctx.Units); err != nil {
+		return &definition.GenerateError{Err: err}, g.Warning
+	}
 	var topErr definition.TopLevelError
 	if err := g.AcceptGenCtx(ctx); err != nil {
 		if e, ok := err.(definition.TopLevelError); ok {
@@ -426,6 +429,31 @@ func (g *KotlinGenerator) generateStruct(s *definition.Struct) (string, error) {
 	return b.String(), nil
 }
 
+// checkCustomProperties refuses what Kotlin cannot express before any file is written.
+func checkCustomProperties(units []*definition.CompilationUnit) error {
+	for _, unit := range units {
+		for _, ty := range unitTypes(unit) {
+			s, ok := ty.(*definition.Struct)
+			if !ok {
+				continue
+			}
+			for _, field := range s.StructFields.Values() {
+				f, ok := field.(*definition.NormalField)
+				if !ok {
+					continue
+				}
+				for _, entry := range f.FieldMethods.Entries() {
+					name, group := entry.Key, entry.Value
+					if name != "" && group.Has(definition.MethodKindID_Set) && !group.Has(definition.MethodKindID_Get) {
+						return fmt.Errorf("%s: Kotlin target cannot generate setter-only custom property %q on field %q: Kotlin does not support write-only properties; add a getter with the same name and type or redesign the schema API", f.GetPositionString(), name, f.FieldName)
+					}
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func (g *KotlinGenerator) generateCustomProperties(s *definition.Struct) (string, error) {
 	var b strings.Builder
 	for _, field := range s.StructFields.Values() {
@@ -440,9 +468,6 @@ func (g *KotlinGenerator) generateCustomProperties(s *definition.Struct) (string
 			}
 			getMethod, hasGet := group.Get(definition.MethodKindID_Get)
 			setMethod, hasSet := group.Get(definition.MethodKindID_Set)
-			if hasSet && !hasGet {
-				return "", fmt.Errorf("Kotlin target cannot generate setter-only custom property %q on field %q: Kotlin does not support write-only properties; add a getter with the same name and type or redesign the schema API", name, f.FieldName)
-			}
 			if !hasGet {
 				continue
 			}
-- 
2.43.0

