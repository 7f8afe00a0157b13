From 009041c378bd32e605f00263e630df0b33f83939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 1/9] fix: significant digits: reject more digits than the year
 has instead of panicking

---
 level2/significant_digits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..dbd0a86 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,7 +101,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	if digits > len(strconv.Itoa(yyyy)) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-- 
2.43.0


From 94ced75ae242975b02a5fe5a71be6d1665016981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 2/9] fix: exponential years: report out-of-range exponents as
 unsupported instead of panicking

---
 common/exponential.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..cc868f4 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -14,6 +14,15 @@ func ParseExponentialNotation(notation string) (int, error) {
 		return 0, err
 	}
 
+	// Check the magnitude before converting to an integer: an infinite value
+	// has no integer value and a very large exponent yields a very large integer.
+
+	limit := big.NewFloat(float64(edtf.MAX_YEARS + 1))
+
+	if flt.Cmp(limit) >= 0 || flt.Cmp(new(big.Float).Neg(limit)) <= 0 {
+		return 0, edtf.Unsupported("exponential notation", notation)
+	}
+
 	var i = new(big.Int)
 	yyyy, _ := flt.Int(i)
 
-- 
2.43.0


From 5012c91a5a1da582256c12e05af90b4d4afe9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 3/9] fix: cmd/parse: fail when output can not be written

---
 cmd/parse/main.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cmd/parse/main.go b/cmd/parse/main.go
index b50b6b6..1050b26 100644
--- a/cmd/parse/main.go
+++ b/cmd/parse/main.go
@@ -27,7 +27,11 @@ func main() {
 
 	wr := io.MultiWriter(writers...)
 
-	wr.Write([]byte(`[`))
+	_, err := wr.Write([]byte(`[`))
+
+	if err != nil {
+		log.Fatalf("Failed to write output, %v", err)
+	}
 
 	for i, raw := range flag.Args() {
 
@@ -44,11 +48,23 @@ func main() {
 		}
 
 		if i > 0 {
-			wr.Write([]byte(`,`))
+			_, err := wr.Write([]byte(`,`))
+
+			if err != nil {
+				log.Fatalf("Failed to write output, %v", err)
+			}
 		}
 
-		wr.Write(enc)
+		_, err = wr.Write(enc)
+
+		if err != nil {
+			log.Fatalf("Failed to write output, %v", err)
+		}
 	}
 
-	wr.Write([]byte(`]`))
+	_, err = wr.Write([]byte(`]`))
+
+	if err != nil {
+		log.Fatalf("Failed to write output, %v", err)
+	}
 }
-- 
2.43.0


From 804d07382edf09003188b7767f12a4b6d4a88990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 4/9] fix: cmd/matches: fail when output can not be written

---
 cmd/matches/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/matches/main.go b/cmd/matches/main.go
index e5e2fe6..4b435ee 100644
--- a/cmd/matches/main.go
+++ b/cmd/matches/main.go
@@ -27,7 +27,11 @@ func main() {
 			log.Fatalf("Failed to parse EDTF string '%s', %v", raw, err)
 		}
 
-		fmt.Printf("%s level %d (%s)\n", raw, level, feature)
+		_, err = fmt.Printf("%s level %d (%s)\n", raw, level, feature)
+
+		if err != nil {
+			log.Fatalf("Failed to write output, %v", err)
+		}
 	}
 
 }
-- 
2.43.0


From f674b576a7c1f0574f037a3fd9e40d760069b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 5/9] fix: cmd/parse-wasi: fail when output can not be written

---
 cmd/parse-wasi/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/parse-wasi/main.go b/cmd/parse-wasi/main.go
index f42fbdf..c5a26b1 100644
--- a/cmd/parse-wasi/main.go
+++ b/cmd/parse-wasi/main.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"log"
 
 	"github.com/sfomuseum/go-edtf/parser"
 )
@@ -14,7 +15,12 @@ func main() {
 	flag.Parse()
 
 	for _, raw := range flag.Args() {
-		fmt.Println(parse(raw))
+
+		_, err := fmt.Println(parse(raw))
+
+		if err != nil {
+			log.Fatalf("Failed to write output, %v", err)
+		}
 	}
 }
 
-- 
2.43.0


From 7d0f6b01910e160e09f82ce026c067436bf34595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 6/9] fix: cmd/parse-wasm: reject with the error message
 instead of printing it to the console

---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..e8c8872 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From e5c7bd2ce9a9c05a76dfebb6499b9a346e65c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 7/9] fix: cmd/parse-wasm: calling parse_edtf without arguments
 must not end the program

---
 cmd/parse-wasm/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index e8c8872..5be4bc1 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -14,7 +14,13 @@ func ParseFunc() js.Func {
 
 	return js.FuncOf(func(this js.Value, args []js.Value) interface{} {
 
-		edtf_str := args[0].String()
+		edtf_arg := js.Undefined()
+
+		if len(args) > 0 {
+			edtf_arg = args[0]
+		}
+
+		edtf_str := edtf_arg.String()
 
 		handler := js.FuncOf(func(this js.Value, args []js.Value) interface{} {
 
-- 
2.43.0


From ba330bad5fae3c491025955eae8cf662a6d02819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:18 +0000
Subject: [PATCH 8/9] fix: cmd/parse-wasm: release the promise executor of each
 call

---
 cmd/parse-wasm/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 5be4bc1..ebaab9f 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -45,6 +45,9 @@ func ParseFunc() js.Func {
 			return nil
 		})
 
+		// The executor is called, once, before the constructor returns.
+		defer handler.Release()
+
 		promiseConstructor := js.Global().Get("Promise")
 		return promiseConstructor.New(handler)
 	})
-- 
2.43.0


From 24ce374f3c18c5394cdc7c26d271bb71dcda3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:33 +0000
Subject: [PATCH 9/9] fix: cmd/parse-wasm: calling parse_edtf with a BigInt
 must not end the program

---
 cmd/parse-wasm/main.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index ebaab9f..76051a3 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -20,13 +20,18 @@ func ParseFunc() js.Func {
 			edtf_arg = args[0]
 		}
 
-		edtf_str := edtf_arg.String()
+		edtf_str, str_err := stringValue(edtf_arg)
 
 		handler := js.FuncOf(func(this js.Value, args []js.Value) interface{} {
 
 			resolve := args[0]
 			reject := args[1]
 
+			if str_err != nil {
+				reject.Invoke(fmt.Sprintf("Failed to parse argument, %v", str_err))
+				return nil
+			}
+
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
@@ -53,6 +58,19 @@ func ParseFunc() js.Func {
 	})
 }
 
+// stringValue returns the string form of v or an error if v is of a type that syscall/js does not know about, like BigInt.
+func stringValue(v js.Value) (str string, err error) {
+
+	defer func() {
+
+		if r := recover(); r != nil {
+			err = fmt.Errorf("Unsupported value, %v", r)
+		}
+	}()
+
+	return v.String(), nil
+}
+
 func main() {
 
 	parse_func := ParseFunc()
-- 
2.43.0

