From a90101f278ad335e0edfd1e12aad71362167fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 01/25] fix: Parse mangles non-ASCII text

Parse converted each byte of the document to a rune of its own, so every
multi-byte UTF-8 sequence in a key or string came back as mojibake.
---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..aab923a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,9 +161,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1 : i]
 		}
-		value := string(json_string[i])
+		value := json_string[i : i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From 43da815c5d551caf3ef62ce6ff3725f5fda9d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 02/25] fix: string escape sequences are neither decoded by
 Parse nor written by ToJSONString

---
 json/JSON.go | 146 +++++++++++++++++++++++++++++++++++++++++----------
 json/Map.go  |   7 +--
 2 files changed, 120 insertions(+), 33 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index aab923a..967c2e1 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -7,6 +7,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	common "github.com/matehaxor03/holistic_common/common"
 )
@@ -124,10 +126,107 @@ func Parse(s string) (*Map, []error) {
 	return parent_map, nil
 }
 
+// isEscaped reports whether the character at index is preceded by an odd number of backslashes.
+func isEscaped(json_string string, index uint64) bool {
+	escaped := false
+	for index > 0 && json_string[index-1] == '\\' {
+		escaped = !escaped
+		index--
+	}
+	return escaped
+}
+
+// escapeString escapes the characters that cannot appear as they are inside of a JSON string.
+func escapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		switch character := value[i]; character {
+		case '"', '\\':
+			result.WriteByte('\\')
+			result.WriteByte(character)
+		case '\n':
+			result.WriteString("\\n")
+		case '\r':
+			result.WriteString("\\r")
+		case '\t':
+			result.WriteString("\\t")
+		default:
+			if character < 0x20 {
+				result.WriteString(fmt.Sprintf("\\u%04x", character))
+			} else {
+				result.WriteByte(character)
+			}
+		}
+	}
+	return result.String()
+}
+
+// unescapeString decodes the escape sequences of a JSON string, a sequence that is not one of JSON is kept as it is.
+func unescapeString(value string) string {
+	if !strings.Contains(value, "\\") {
+		return value
+	}
+
+	unicode_escape := func(index int) (rune, bool) {
+		if len(value) < index+6 || value[index] != '\\' || value[index+1] != 'u' {
+			return 0, false
+		}
+		code, code_error := strconv.ParseUint(value[index+2:index+6], 16, 16)
+		return rune(code), code_error == nil
+	}
+
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' || i+1 == len(value) {
+			result.WriteByte(value[i])
+			continue
+		}
+
+		switch value[i+1] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i+1])
+			i++
+		case 'b':
+			result.WriteByte('\b')
+			i++
+		case 'f':
+			result.WriteByte('\f')
+			i++
+		case 'n':
+			result.WriteByte('\n')
+			i++
+		case 'r':
+			result.WriteByte('\r')
+			i++
+		case 't':
+			result.WriteByte('\t')
+			i++
+		default:
+			first, first_found := unicode_escape(i)
+			if !first_found {
+				result.WriteByte(value[i])
+				continue
+			}
+			i += 5
+
+			if utf16.IsSurrogate(first) {
+				second, second_found := unicode_escape(i + 1)
+				combined := utf16.DecodeRune(first, second)
+				if second_found && combined != utf8.RuneError {
+					first = combined
+					i += 6
+				}
+			}
+			result.WriteRune(first)
+		}
+	}
+	return result.String()
+}
+
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
-	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
-		key = (key)[1:(len(key) - 1)]
+	if len(key) >= 2 && strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
+		key = unescapeString((key)[1:(len(key) - 1)])
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
 	}
@@ -159,16 +258,12 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 	for *index < uint64(len(json_string)) {
 		i := *index
-		previous_value := ""
-		if *index > 0 {
-			previous_value = json_string[i-1 : i]
-		}
 		value := json_string[i : i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
 		if !parsing_string {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !isEscaped(json_string, i) {
 				parsing_string = true
 				opention_quote, opention_quote_errors := metrics.GetInt("opening_quote")
 				if opention_quote_errors != nil {
@@ -206,7 +301,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				}
 			}
 		} else {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !isEscaped(json_string, i) {
 				parsing_string = false
 				closing_quote, closing_quote_errors := metrics.GetInt("closing_quote")
 				if closing_quote_errors != nil {
@@ -268,7 +363,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 						current_mode = mode_looking_for_next_value_or_end
 					}
 				}
-			} else if value == "\"" && previous_value != "\\" {
+			} else if value == "\"" && !isEscaped(json_string, i) {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
 			}
@@ -277,7 +372,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if current_mode == mode_looking_for_key_name {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !isEscaped(json_string, i) {
 				current_mode = mode_looking_for_key_name_column
 			}
 			temp_key_r += value
@@ -464,23 +559,20 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
-
 	if ((*list)[len(*list)-1]).IsMap() {
-		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
+		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
-			key_value = dequoted_value
+			key_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: key does not start with  \" and/or end with \" key: '%s'", key_value))
 		}
 	}
 
 	if strings.Contains(string_value, "\"") {
-		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
+		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
-			string_value = dequoted_value
+			string_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: value does not start with  \" and/or end with \" value: '%s'", string_value))
 		}
@@ -794,40 +886,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value.(error))))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", *(temp_value.(*error)))))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -919,7 +1011,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..31c48ac 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -332,13 +332,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
 			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
 			json.WriteString("\"")
-			json.WriteString(escaped_key)
+			json.WriteString(escapeString(*key_clone))
 			json.WriteString("\":")
 			string_conversion_errors := ConvertInterfaceValueToJSONStringValue(json, internal_map[key])
 			if string_conversion_errors != nil {
-- 
2.43.0


From 48816c291c169e6f7cee7e5235eaf46faec64da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 03/25] fix: Parse crashes on or accepts unbalanced brackets
 and content after the root

---
 json/JSON.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 967c2e1..b8a365b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -259,6 +259,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	for *index < uint64(len(json_string)) {
 		i := *index
 		value := json_string[i : i+1]
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: unexpected content after the end of the json: '%s'", json_string[i:]))
+			return nil, errors
+		}
+
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
@@ -432,6 +437,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "}" {
+				if !((*list)[len(*list)-1]).IsMap() {
+					errors = append(errors, fmt.Errorf("error: closing bracket } does not match the opening bracket ["))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 				if parse_errors != nil {
 					errors = append(errors, parse_errors...)
@@ -487,6 +497,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "]" {
+				if !((*list)[len(*list)-1]).IsArray() {
+					errors = append(errors, fmt.Errorf("error: closing bracket ] does not match the opening bracket {"))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 
 				if parse_errors != nil {
-- 
2.43.0


From b2e4e5a2b247bea55e626a654b2f5a7cb12806b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 04/25] fix: Parse drops unexpected text and members without a
 value and joins split tokens

---
 json/JSON.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index b8a365b..717ba52 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -136,6 +136,18 @@ func isEscaped(json_string string, index uint64) bool {
 	return escaped
 }
 
+// isFiller reports whether the character at index has no meaning around the name of a member:
+// whitespace, either as it is or spelled as an escape sequence.
+func isFiller(json_string string, index uint64) bool {
+	switch json_string[index] {
+	case ' ', '\n', '\r', '\t', '\\':
+		return true
+	case 'n', 'r', 't':
+		return index > 0 && json_string[index-1] == '\\'
+	}
+	return false
+}
+
 // escapeString escapes the characters that cannot appear as they are inside of a JSON string.
 func escapeString(value string) string {
 	var result strings.Builder
@@ -371,6 +383,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			} else if value == "\"" && !isEscaped(json_string, i) {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
+			} else if value != "," && !isFiller(json_string, i) {
+				errors = append(errors, fmt.Errorf("error: unexpected character '%s' while looking for a key", value))
+				return nil, errors
 			}
 			*index++
 			continue
@@ -388,12 +403,20 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		if current_mode == mode_looking_for_key_name_column {
 			if string(value) == ":" {
 				current_mode = mode_looking_for_next_value_or_end
+			} else if !isFiller(json_string, i) {
+				errors = append(errors, fmt.Errorf("error: unexpected character '%s' between the key %s and :", value, temp_key_r))
+				return nil, errors
 			}
 			*index++
 			continue
 		}
 
 		if !parsing_string {
+			if (value == "{" || value == "[") && temp_value_r != "" {
+				errors = append(errors, fmt.Errorf("error: unexpected value before %s: '%s'", value, temp_value_r))
+				return nil, errors
+			}
+
 			if value == "{" {
 				new_map := NewMapValue()
 				new_map_value := NewValue(new_map)
@@ -610,11 +633,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	var uint8_value *uint8
 
 	if data_type != "string" {
-		string_value = strings.ReplaceAll(string_value, "\n", "")
-		string_value = strings.ReplaceAll(string_value, "\t", "")
-		string_value = strings.ReplaceAll(string_value, " ", "")
-		string_value = strings.ReplaceAll(string_value, "\r", "")
-		string_value = strings.ReplaceAll(string_value, "\\", "")
+		string_value = strings.Trim(string_value, " \n\r\t\\")
 
 		if string_value == "true" {
 			data_type = "bool"
@@ -858,7 +877,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		} else if data_type == "uint64" {
 			(*value_as_map).SetUInt64Value(key_value, *uint64_value)
 		} else if data_type == "empty" {
-
+			errors = append(errors, fmt.Errorf("error: key '%s' does not have a value", key_value))
 		} else {
 			errors = append(errors, fmt.Errorf("json.PaseJSONValue type is not supported for Map %s", data_type))
 		}
-- 
2.43.0


From a955aabcef2dcafe3ff8a1a4fd23d29494a69dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 05/25] fix: Parse rejects numbers with an exponent and accepts
 hexadecimal fractions

---
 json/JSON.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 717ba52..1f08034 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -649,7 +649,13 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 			data_type = "empty"
 		} else {
 			var negative_number bool
-			negative_number_count := strings.Count(string_value, "-")
+			mantissa := string_value
+			exponent_index := strings.IndexAny(string_value, "eE")
+			if exponent_index >= 0 {
+				mantissa = string_value[:exponent_index]
+			}
+
+			negative_number_count := strings.Count(mantissa, "-")
 			if negative_number_count == 1 {
 				negative_number = true
 				if !strings.HasPrefix(string_value, "-") {
@@ -662,15 +668,19 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 			}
 
 			var decimal_number bool
-			decimal_count := strings.Count(string_value, ".")
+			decimal_count := strings.Count(mantissa, ".")
 			if decimal_count == 1 {
 				decimal_number = true
 			} else if decimal_count == 0 {
-				decimal_number = false
+				decimal_number = exponent_index >= 0
 			} else {
 				errors = append(errors, fmt.Errorf("error: value contained %d decimal points expected 1", decimal_count))
 			}
 
+			if decimal_number && strings.Trim(string_value, "0123456789+-.eE") != "" {
+				errors = append(errors, fmt.Errorf("error: value is not a decimal number: %s", string_value))
+			}
+
 			if len(errors) > 0 {
 				return errors
 			}
-- 
2.43.0


From f9d14e2f824c16298992fa42583c773c3e2bd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 06/25] fix: Parse and GetFloat64 lose the precision of decimal
 numbers

---
 json/JSON.go  | 18 ++++++++++++++----
 json/Value.go |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 1f08034..611cb8e 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -126,6 +126,15 @@ func Parse(s string) (*Map, []error) {
 	return parent_map, nil
 }
 
+// float32ToFloat64 widens a float32 by its shortest decimal representation: 0.1 stays 0.1.
+func float32ToFloat64(value float32) float64 {
+	result, result_error := strconv.ParseFloat(strconv.FormatFloat(float64(value), 'g', -1, 32), 64)
+	if result_error != nil {
+		return float64(value)
+	}
+	return result
+}
+
 // isEscaped reports whether the character at index is preceded by an odd number of backslashes.
 func isEscaped(json_string string, index uint64) bool {
 	escaped := false
@@ -694,11 +703,12 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 					float64_value = &float64_temp
 
 					float32_temp, float32_temp_error := strconv.ParseFloat(string_value, 32)
-					if float32_temp_error != nil {
-					} else {
-						data_type = "float32"
+					if float32_temp_error == nil {
 						float32_conv := float32(float32_temp)
-						float32_value = &float32_conv
+						if float32ToFloat64(float32_conv) == float64_temp {
+							data_type = "float32"
+							float32_value = &float32_conv
+						}
 					}
 				}
 
diff --git a/json/Value.go b/json/Value.go
index 819b5e0..7e3e0b6 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -684,10 +684,10 @@ func NewValue(v interface{}) (*Value) {
 				value := *(this().GetObject().(*float64))
 				result = &value
 			case "float32":
-				value := float64(this().GetObject().(float32))
+				value := float32ToFloat64(this().GetObject().(float32))
 				result = &value
 			case "*float32":
-				value := float64(*(this().GetObject().(*float32)))
+				value := float32ToFloat64(*(this().GetObject().(*float32)))
 				result = &value
 			case "int":
 				int_value := this().GetObject().(int)
-- 
2.43.0


From 3fda0eeb2ea2a589cf207a12b0651abfebf144e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 07/25] fix: floats are written with six decimals and NaN and
 infinity as invalid json

---
 json/JSON.go | 72 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 611cb8e..7205140 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"strconv"
@@ -135,6 +136,21 @@ func float32ToFloat64(value float32) float64 {
 	return result
 }
 
+// formatFloat writes all of the digits needed to read the same value back, always with a decimal point.
+func formatFloat(value float64, bit_size int) (string, []error) {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		var errors []error
+		errors = append(errors, fmt.Errorf("error: %f cannot be represented as a number", value))
+		return "", errors
+	}
+
+	result := strconv.FormatFloat(value, 'f', -1, bit_size)
+	if !strings.Contains(result, ".") {
+		result += ".0"
+	}
+	return result, nil
+}
+
 // isEscaped reports whether the character at index is preceded by an odd number of backslashes.
 func isEscaped(json_string string, index uint64) bool {
 	escaped := false
@@ -1114,13 +1130,33 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		string_value, string_value_errors := formatFloat(*(temp_value.(*float64)), 64)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			json.WriteString(string_value)
+		}
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		string_value, string_value_errors := formatFloat(temp_value.(float64), 64)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			json.WriteString(string_value)
+		}
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		string_value, string_value_errors := formatFloat(float64(*(temp_value.(*float32))), 32)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			json.WriteString(string_value)
+		}
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		string_value, string_value_errors := formatFloat(float64(temp_value.(float32)), 32)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			json.WriteString(string_value)
+		}
 	case "nil":
 		json.WriteString("null")
 	default:
@@ -1229,13 +1265,33 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "int":
 		result = strconv.FormatInt(int64(temp_value.(int)), 10)
 	case "*float64":
-		result = fmt.Sprintf("%f", *(temp_value.(*float64)))
+		string_value, string_value_errors := formatFloat(*(temp_value.(*float64)), 64)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			result = string_value
+		}
 	case "float64":
-		result = fmt.Sprintf("%f", (temp_value.(float64)))
+		string_value, string_value_errors := formatFloat(temp_value.(float64), 64)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			result = string_value
+		}
 	case "*float32":
-		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
+		string_value, string_value_errors := formatFloat(float64(*(temp_value.(*float32))), 32)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			result = string_value
+		}
 	case "float32":
-		result = fmt.Sprintf("%f", (temp_value.(float32)))
+		string_value, string_value_errors := formatFloat(float64(temp_value.(float32)), 32)
+		if string_value_errors != nil {
+			errors = append(errors, string_value_errors...)
+		} else {
+			result = string_value
+		}
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 3228ae2c5ef8c4cb351ee5f34870748a350a61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 08/25] fix: GetString panics on a value that is not a string

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 7e3e0b6..db719da 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 49bc79cc9eade131833ff8ce1dccb82e12f12fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 09/25] fix: values holding a time, errors or a function are
 treated as nil

---
 json/Value.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index db719da..4ed0a1d 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -648,18 +648,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == s			
 		},
 		IsNil: func() bool {
-			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return common.IsNil(this().GetObject())
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From 40b1b5885b313266a2159734c1c2b5f29556edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 10/25] fix: a string or error spelled like nil is treated as
 nil

---
 json/Array.go |  2 --
 json/JSON.go  | 38 ++++++++++++++++++++++++++++++++------
 json/Map.go   |  4 ++--
 json/Value.go | 36 +++++++++++++++---------------------
 4 files changed, 49 insertions(+), 31 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index c542672..d16b92f 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -440,8 +440,6 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
-				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
 			if len(errors) > 0 {
diff --git a/json/JSON.go b/json/JSON.go
index 7205140..1756e39 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"net/url"
 	"os/exec"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -127,6 +128,31 @@ func Parse(s string) (*Map, []error) {
 	return parent_map, nil
 }
 
+// isNil reports whether object is nil, common.IsNil decides by the text of an object:
+// the text of a string or an error says nothing about it being nil.
+func isNil(object interface{}) bool {
+	switch value := object.(type) {
+	case string:
+		return false
+	case error:
+		reflect_value := reflect.ValueOf(value)
+		return reflect_value.Kind() == reflect.Ptr && reflect_value.IsNil()
+	}
+	return common.IsNil(object)
+}
+
+func getType(object interface{}) string {
+	if isNil(object) {
+		return "nil"
+	}
+	return fmt.Sprintf("%T", object)
+}
+
+func isString(object interface{}) bool {
+	type_of := getType(object)
+	return type_of == "string" || type_of == "*string"
+}
+
 // float32ToFloat64 widens a float32 by its shortest decimal representation: 0.1 stays 0.1.
 func float32ToFloat64(value float32) float64 {
 	result, result_error := strconv.ParseFloat(strconv.FormatFloat(float64(value), 'g', -1, 32), 64)
@@ -935,12 +961,12 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		json.WriteString("null")
 		return nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -950,7 +976,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		temp_string := temp_value.(string)
@@ -1174,11 +1200,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	var errors []error
 	var result string
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		return "null", nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -1188,7 +1214,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		result = temp_value.(string)
diff --git a/json/Map.go b/json/Map.go
index 31c48ac..e9926d9 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -223,12 +223,12 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		type_of := common.GetType(value)
 		if type_of == "*json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		} else if type_of == "json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		}
diff --git a/json/Value.go b/json/Value.go
index 4ed0a1d..749aece 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -382,7 +382,7 @@ func NewValue(v interface{}) (*Value) {
 				return false
 			}
 
-			if !common.IsString(this().GetObject()) {
+			if !isString(this().GetObject()) {
 				return false
 			}
 		
@@ -442,7 +442,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result (func(string) []error)
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "func(string) []error":
 				result = (this().GetObject()).(func(string) []error)
@@ -466,7 +466,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result []error
 			
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*[]error":
 				result = *(this().GetObject().(*[]error))
@@ -520,7 +520,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result *Array
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*json.Array":
 				result = this().GetObject().(*Array)
@@ -556,7 +556,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -607,7 +607,7 @@ func NewValue(v interface{}) (*Value) {
 			return common.IsNumber(this().GetObject())
 		},
 		IsString: func() (bool) {
-			return common.IsString(this().GetObject())
+			return isString(this().GetObject())
 		},
 		IsValueEqualToString: func(s *string) (bool) {
 			this_nil := this().IsNil()
@@ -630,13 +630,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
 			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
-			
-			if this_nil && compare_nil {
-				return true
-			}
-			
-			if this_nil != compare_nil {
+			if this_nil {
 				return false
 			}
 
@@ -648,7 +642,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == s			
 		},
 		IsNil: func() bool {
-			return common.IsNil(this().GetObject())
+			return isNil(this().GetObject())
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
@@ -663,7 +657,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *float64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "float64":
 				value := this().GetObject().(float64)
@@ -877,7 +871,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -919,7 +913,7 @@ func NewValue(v interface{}) (*Value) {
 			var result *bool
 			var errors []error
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				value := this().GetObject().(bool)
@@ -969,7 +963,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 		
 			var result bool
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				result = this().GetObject().(bool)
@@ -1018,7 +1012,7 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 				case "json.Value":
 					string_value, convert_errors := ConvertInterfaceValueToStringValue(this().GetObject().(Value))
@@ -1208,7 +1202,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 
 			var uint64_value uint64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*int64":
 				x := *(this().GetObject().(*int64))
@@ -1372,7 +1366,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		GetType: func() string {
-			return common.GetType(this().GetObject())
+			return getType(this().GetObject())
 		},
 		IsInteger: func() bool {
 			return common.IsInteger(this().GetObject())
-- 
2.43.0


From 91aa519140795bc18be553964736c1d9eef97cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 11/25] fix: declared accessors that are never assigned crash
 when they are called

---
 json/Array.go | 111 ++++++++++++++++++++++++++++++++++++++++++++++++++
 json/Map.go   |  40 ++++++++++++++++++
 json/Value.go |  30 ++++++++++++++
 3 files changed, 181 insertions(+)

diff --git a/json/Array.go b/json/Array.go
index d16b92f..9f5600f 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -555,6 +555,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfInt64: func() (*[](*int64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -663,6 +690,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfUInt64: func() (*[](*uint64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -771,6 +825,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfInt64Value: func() ([](int64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -879,6 +960,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfUInt64Value: func() ([](uint64), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -1128,6 +1236,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return result, nil
 		},
 	}
+	created_array.GetArrayValue = func() (Array, []error) {
+		return created_array, nil
+	}
 	return &created_array
 }
 
diff --git a/json/Map.go b/json/Map.go
index e9926d9..79b58eb 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -610,6 +610,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		GetArrayValue: func(s string) (Array, []error) {
 			return getArrayValue(s)
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
 		GetArrayOfInt8: func(s string) (*[]*int8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -646,6 +655,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfInt64()
 		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfUInt8: func(s string) (*[]*uint8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -823,6 +841,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -976,6 +1002,20 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetIntValue()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+			return getInternalValue(s).GetUInt()
+		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		SetInt: func(s string, value *int) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index 749aece..c9dfdfd 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -3,6 +3,7 @@ package json
 import (
 	common "github.com/matehaxor03/holistic_common/common"
 	"fmt"
+	"math"
 	"time"
 	"strings"
 	"strconv"
@@ -1821,6 +1822,35 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			var errors []error
+			uint64_value, uint64_value_errors := this().GetUInt64()
+			if uint64_value_errors != nil {
+				return nil, uint64_value_errors
+			} else if uint64_value == nil {
+				return nil, nil
+			}
+
+			if *uint64_value > math.MaxUint {
+				errors = append(errors, fmt.Errorf("error: value is not in range [0, %d]", uint64(math.MaxUint)))
+				return nil, errors
+			}
+
+			result := uint(*uint64_value)
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			var errors []error
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				return 0, uint_value_errors
+			} else if uint_value == nil {
+				errors = append(errors, fmt.Errorf("error: Value.GetUInt returned nil"))
+				return 0, errors
+			}
+
+			return *uint_value, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From 78e8a544b15568a521a5b04ebd4da4388e18292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 12/25] fix: GetInt64 wraps a large uint to a negative number

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index c9dfdfd..495aa7a 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1107,10 +1107,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if uint64(*x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if uint64(x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From 06e0e0d1d625cb06770e14b062ea7ef28ebec747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 13/25] fix: array operations crash on a nil element

---
 json/Array.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index 9f5600f..47a68b5 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -156,17 +158,13 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 					}
 				}
 			} else {
-				if common.IsNil(temp_value) {
-					cloned.AppendNil()
+				cloned_value, cloned_value_errors := temp_value.Clone()
+				if cloned_value_errors != nil {
+					errors = append(errors, cloned_value_errors...)
+				} else if common.IsNil(cloned_value) {
+					errors = append(errors, fmt.Errorf("Array.Clone cloned value is nil"))
 				} else {
-					cloned_value, cloned_value_errors := temp_value.Clone()
-					if cloned_value_errors != nil {
-						errors = append(errors, cloned_value_errors...)
-					} else if common.IsNil(cloned_value) {
-						errors = append(errors, fmt.Errorf("Array.Clone cloned value is nil"))
-					} else {
-						cloned.AppendValue(cloned_value)
-					}
+					cloned.AppendValue(cloned_value)
 				}
 			}
 		}
@@ -437,6 +435,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+		
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
@@ -461,6 +464,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetMap value is nil"))
+				return nil, errors
+			}
+		
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From a2c34beee16730588993b2126eadc7d19309f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 14/25] fix: Clone mangles a percent sign in an error message

---
 json/Value.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 495aa7a..2548550 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -203,38 +203,38 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
-- 
2.43.0


From 0eccba4a63c2bf747d14d301a031c61e23ebde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 15/25] fix: the keys returned by GetKeys change under
 RemoveKey

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 79b58eb..4436e15 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -568,7 +568,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0


From b46174276548413e0c3389610ef317a24f031d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 16/25] fix: Map.IsNil is true for every map

---
 json/Map.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index 4436e15..fc76e5d 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -450,17 +450,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return isValueNilForMap(s)
 		},
 		IsNil: func() bool {			
-			if common.IsNil(internal_map) {
-				return true
-			}
-	
-			return !(common.IsValue(internal_map) ||
-					common.IsNumber(internal_map) || 
-					common.IsBool(internal_map) || 
-					common.IsString(internal_map) || 
-					common.IsArray(internal_map) || 
-					common.IsMap(internal_map) ||
-					common.IsFunc(internal_map))
+			return common.IsNil(internal_map)
 		},
 		IsBool: func(s string) bool {
 			if isValueNilForMap(s) {
-- 
2.43.0


From 6809eba4923bad03cf59ca04fe02b93adad22b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 17/25] fix: reading a time from text or from a null value
 crashes

---
 json/Value.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 2548550..dcb40e7 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -149,6 +149,14 @@ func NewValue(v interface{}) (*Value) {
 		return internal_value
 	}
 
+	// common.GetTime crashes on a string that is not a time but not on a pointer to one
+	getTimeObject := func() interface{} {
+		if value, is_string := internal_value.(string); is_string {
+			return &value
+		}
+		return internal_value
+	}
+
 	setObject := func(value interface{}) {
 		internal_value = value
 	}
@@ -1350,21 +1358,23 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(getTimeObject(), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(getTimeObject())
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
-				return (*common.GetTimeZero()), temp_time_errors
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: Value.GetTime returned nil"))
+				return (*common.GetTimeZero()), errors
 			}
 			return *temp_time, nil
 		},
-- 
2.43.0


From b4019143bd8d5dd7b9adbc9dd45fc7e4cdd6d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 18/25] fix: a time set by value cannot be serialised

---
 json/JSON.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 1756e39..b2741ba 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1113,6 +1113,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 		json.WriteString((*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000"))
 		json.WriteString("\"")
+	case "time.Time":
+		json.WriteString("\"")
+		json.WriteString((temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000"))
+		json.WriteString("\"")
 	case "map[string]map[string][][]string":
 		json.WriteString("\"map[string]map[string][][]string\"")
 	case "*uint64":
@@ -1248,6 +1252,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		}
 	case "*time.Time":
 		result = (*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000")
+	case "time.Time":
+		result = (temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
 		result = "map[string]map[string][][]string"
 	case "*uint64":
-- 
2.43.0


From 9609bdb4f41c39b88855f179e63044d53cd9ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 19/25] fix: an error of any but a few types cannot be
 serialised or cloned

---
 json/JSON.go  | 14 ++++++++++++--
 json/Value.go |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index b2741ba..d140fce 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1190,7 +1190,13 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "nil":
 		json.WriteString("null")
 	default:
-		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
+		if temp_error, is_error := temp_value.(error); is_error {
+			json.WriteString("\"")
+			json.WriteString(escapeString(temp_error.Error()))
+			json.WriteString("\"")
+		} else {
+			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
+		}
 	}
 
 	if len(errors) > 0 {
@@ -1329,7 +1335,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "*json.Value":
 		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
 	default:
-		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
+		if temp_error, is_error := temp_value.(error); is_error {
+			result = temp_error.Error()
+		} else {
+			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
+		}
 	}
 
 	if len(errors) > 0 {
diff --git a/json/Value.go b/json/Value.go
index dcb40e7..4d7576a 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -357,7 +357,11 @@ func NewValue(v interface{}) (*Value) {
 					result := "*func(string) []error"
 					cloned_value.SetStringValue(result)
 				default:
-					errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					if temp_error, is_error := temp_object.(error); is_error {
+						cloned_value.SetErrorValue(fmt.Errorf("%s", temp_error.Error()))
+					} else {
+						errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					}
 			}
 			
 		}
-- 
2.43.0


From ce5cf1fc622c53e0e8d9ed05e7f1970ebd21fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 20/25] fix: Clone refuses a pointer to errors and crashes on a
 nil error

---
 json/Value.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 4d7576a..b9c783d 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -161,6 +161,18 @@ func NewValue(v interface{}) (*Value) {
 		internal_value = value
 	}
 
+	cloneErrors := func(list []error) []error {
+		var result_array []error
+		for _, result_array_value := range list {
+			if isNil(result_array_value) {
+				result_array = append(result_array, nil)
+			} else {
+				result_array = append(result_array, fmt.Errorf("%s", result_array_value.Error()))
+			}
+		}
+		return result_array
+	}
+
 	clone := func() (*Value, []error) {
 		var errors []error
 		temp_value := this()
@@ -213,13 +225,10 @@ func NewValue(v interface{}) (*Value) {
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
 					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
-					result := temp_object.([]error)
-					var result_array []error
-					for _, result_array_value := range result {
-						e := fmt.Errorf("%s", result_array_value.Error())
-						result_array = append(result_array, e)
-					}	
-					cloned_value.SetErrorsValue(result_array)				
+					cloned_value.SetErrorsValue(cloneErrors(temp_object.([]error)))
+				case "*[]error":
+					result_array := cloneErrors(*(temp_object.(*[]error)))
+					cloned_value.SetErrors(&result_array)
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
 					cloned_error := fmt.Errorf("%s", result)
-- 
2.43.0


From a63fbbbd32cd103401ed779c63bef825bcb012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 21/25] fix: the text of a value that holds nil is reported as
 not supported

---
 json/JSON.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index d140fce..eb7edb6 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1330,6 +1330,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		} else {
 			result = string_value
 		}
+	case "nil":
+		result = "null"
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From b6c7743a1a29e25aeed9d1e605511f18060c55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 22/25] fix: a pointer to a nil error crashes cloning and
 serialising

---
 json/JSON.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index eb7edb6..ad72c69 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -137,6 +137,8 @@ func isNil(object interface{}) bool {
 	case error:
 		reflect_value := reflect.ValueOf(value)
 		return reflect_value.Kind() == reflect.Ptr && reflect_value.IsNil()
+	case *error:
+		return value == nil || isNil(*value)
 	}
 	return common.IsNil(object)
 }
-- 
2.43.0


From d74c3e566d36989e6e8c9b82c4c3329183182157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 23/25] fix: Parse accepts numbers that are not spelled as in
 JSON

---
 json/JSON.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index ad72c69..754d73a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -6,6 +6,7 @@ import (
 	"net/url"
 	"os/exec"
 	"reflect"
+	"regexp"
 	"strconv"
 	"strings"
 	"time"
@@ -15,6 +16,9 @@ import (
 	common "github.com/matehaxor03/holistic_common/common"
 )
 
+// number_pattern is how JSON spells a number.
+var number_pattern = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
+
 func cloneString(value *string) *string {
 	if value == nil {
 		return nil
@@ -730,8 +734,8 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 				errors = append(errors, fmt.Errorf("error: value contained %d decimal points expected 1", decimal_count))
 			}
 
-			if decimal_number && strings.Trim(string_value, "0123456789+-.eE") != "" {
-				errors = append(errors, fmt.Errorf("error: value is not a decimal number: %s", string_value))
+			if !number_pattern.MatchString(string_value) {
+				errors = append(errors, fmt.Errorf("error: value is not a number: %s", string_value))
 			}
 
 			if len(errors) > 0 {
-- 
2.43.0


From 432370bf7e46953161da3d03b8b9ea013f8e5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 24/25] fix: Parse skips characters around a value that are not
 whitespace in JSON

---
 json/JSON.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index 754d73a..891a4af 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -652,7 +652,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	data_type := ""
 
 	key_value = strings.TrimSpace(key_value)
-	string_value = strings.TrimSpace(string_value)
+	string_value = strings.Trim(string_value, " \n\r\t")
 
 	if ((*list)[len(*list)-1]).IsMap() {
 		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
-- 
2.43.0


From e6b21e99d6d13d671f250f985e0949903749b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 25/25] fix: the text and the clone of an exit error are made
 of its fields

---
 json/JSON.go  | 2 +-
 json/Value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 891a4af..532a1de 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1245,7 +1245,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "exec.ExitError":
 		result = fmt.Sprintf("%s", temp_value.(exec.ExitError))
 	case "*exec.ExitError":
-		result = fmt.Sprintf("%s", *(temp_value.(*exec.ExitError)))
+		result = (temp_value.(*exec.ExitError)).Error()
 	case "errors.errorString":
 		result = fmt.Sprintf("%s", temp_value)
 	case "*errors.errorString":
diff --git a/json/Value.go b/json/Value.go
index b9c783d..3eb230f 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -242,7 +242,7 @@ func NewValue(v interface{}) (*Value) {
 					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
-					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
+					result := (temp_object.(*exec.ExitError)).Error()
 					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
-- 
2.43.0

