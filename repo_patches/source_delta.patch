From 3aae5ab14cfd9f48974ef3fe99cdbcb0ed812cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 01/26] fix: validate integers and numbers by their exact value

Integer validation truncated fractional and out-of-range floats, number
validation rounded large integers, and enumerations were compared by Go type
instead of by value (enum [1, 2] on a number type rejected 1).
---
 scalars.go | 72 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..98c7620 100644
--- a/scalars.go
+++ b/scalars.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"regexp"
 	"time"
@@ -53,6 +54,27 @@ func isCompatibleEnum(source Nodes, target Nodes) bool {
 	return true
 }
 
+// exactNumber returns the exact value of a decoded number, or nil if v is not a number.
+func exactNumber(v any) *big.Float {
+	switch v := v.(type) {
+	// go-yaml unmarshals integers as int, or as int64 and uint64 if they do not fit
+	case int:
+		return new(big.Float).SetInt64(int64(v))
+	case int64:
+		return new(big.Float).SetInt64(v)
+	case uint:
+		return new(big.Float).SetUint64(uint64(v))
+	case uint64:
+		return new(big.Float).SetUint64(v)
+	// json unmarshals numbers as float64
+	case float64:
+		if !math.IsNaN(v) {
+			return new(big.Float).SetFloat64(v)
+		}
+	}
+	return nil
+}
+
 type FormatFacets struct {
 	Format *string
 }
@@ -109,18 +131,14 @@ func (s *IntegerShape) alias(source Shape) (Shape, error) {
 }
 
 func (s *IntegerShape) validate(v interface{}, _ string) error {
-	var val big.Int
-	switch v := v.(type) {
-	case int:
-		val.SetInt64(int64(v))
-	case uint:
-		val.SetUint64(uint64(v))
-	// json unmarshals numbers as float64
-	case float64:
-		val.SetInt64(int64(v))
-	default:
+	num := exactNumber(v)
+	if num == nil {
 		return fmt.Errorf("invalid type, got %T, expected int, uint or float64", v)
 	}
+	if !num.IsInt() {
+		return fmt.Errorf("value must be integer, got %v", v)
+	}
+	val, _ := num.Int(nil)
 
 	if s.Minimum != nil && val.Cmp(s.Minimum) < 0 {
 		return fmt.Errorf("value must be greater than %s", s.Minimum.String())
@@ -132,15 +150,9 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	// TODO: Implement format validation
 	if s.Enum != nil {
 		// TODO: Probably enum values should be stored as big.Int to simplify validation
-		var num any
-		if val.IsInt64() {
-			num = int(val.Int64())
-		} else if val.IsUint64() {
-			num = uint(val.Uint64())
-		}
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == num {
+			if n := exactNumber(e.Value); n != nil && n.Cmp(num) == 0 {
 				found = true
 				break
 			}
@@ -334,31 +346,27 @@ func (s *NumberShape) alias(source Shape) (Shape, error) {
 }
 
 func (s *NumberShape) validate(v interface{}, _ string) error {
-	var val float64
-	switch v := v.(type) {
-	// go-yaml unmarshals integers as int
-	case int:
-		val = float64(v)
-	case uint:
-		val = float64(v)
-	case float64:
-		val = v
-	default:
+	num := exactNumber(v)
+	if num == nil {
 		return fmt.Errorf("invalid type, got %T, expected int, uint, float64", v)
 	}
 
-	if s.Minimum != nil && val < *s.Minimum {
-		return fmt.Errorf("value must be greater than %f", *s.Minimum)
+	if s.Minimum != nil {
+		if m := exactNumber(*s.Minimum); m != nil && num.Cmp(m) < 0 {
+			return fmt.Errorf("value must be greater than %f", *s.Minimum)
+		}
 	}
-	if s.Maximum != nil && val > *s.Maximum {
-		return fmt.Errorf("value must be less than %f", *s.Maximum)
+	if s.Maximum != nil {
+		if m := exactNumber(*s.Maximum); m != nil && num.Cmp(m) > 0 {
+			return fmt.Errorf("value must be less than %f", *s.Maximum)
+		}
 	}
 	// TODO: Implement multipleOf validation
 	// TODO: Implement format validation
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == val {
+			if n := exactNumber(e.Value); n != nil && n.Cmp(num) == 0 {
 				found = true
 				break
 			}
-- 
2.43.0


From 421465d3d6eae898a2b54bcdfc6a3d9bd59ecc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 02/26] fix: count string length in characters, not bytes

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 98c7620..4178e69 100644
--- a/scalars.go
+++ b/scalars.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"regexp"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 
@@ -543,7 +544,7 @@ func (s *StringShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	strLen := uint64(len(i))
+	strLen := uint64(utf8.RuneCountInString(i))
 	if s.MinLength != nil && strLen < *s.MinLength {
 		return fmt.Errorf("length must be greater than %d", *s.MinLength)
 	}
-- 
2.43.0


From 4012d4332cc208384c6961fb6e4c3aab8d8cf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 03/26] fix: keep a number type's own multipleOf when
 inheriting

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 4178e69..2f1837a 100644
--- a/scalars.go
+++ b/scalars.go
@@ -405,7 +405,7 @@ func (s *NumberShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", *s.Maximum))
 	}
 	// TODO: multipleOf validation
-	if ss.MultipleOf != nil {
+	if s.MultipleOf == nil {
 		// TODO: Disallow multipleOf 0 to avoid division by zero during validation
 		s.MultipleOf = ss.MultipleOf
 	}
-- 
2.43.0


From a04fb3acecc3d4b3b4a6f31c952c6cb978312ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 04/26] fix: compare enumeration values by value when
 inheriting, without panicking on lists and maps

---
 scalars.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 2f1837a..58ef189 100644
--- a/scalars.go
+++ b/scalars.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 	"unicode/utf8"
@@ -43,7 +44,7 @@ func isCompatibleEnum(source Nodes, target Nodes) bool {
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if isSameValue(v.Value, e.Value) {
 				found = true
 				break
 			}
@@ -55,6 +56,14 @@ func isCompatibleEnum(source Nodes, target Nodes) bool {
 	return true
 }
 
+// isSameValue compares decoded values: numbers by their exact value, anything else structurally.
+func isSameValue(a, b any) bool {
+	if x, y := exactNumber(a), exactNumber(b); x != nil && y != nil {
+		return x.Cmp(y) == 0
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 // exactNumber returns the exact value of a decoded number, or nil if v is not a number.
 func exactNumber(v any) *big.Float {
 	switch v := v.(type) {
-- 
2.43.0


From 007b21e6b4f7ebb8cbe5847e49a3fc69213197b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 05/26] fix: accept 64-bit integers as enumeration values of
 integer and number types

---
 scalars.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index 58ef189..db79373 100644
--- a/scalars.go
+++ b/scalars.go
@@ -231,7 +231,7 @@ func (s *IntegerShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint:
+			case int, int64, uint, uint64:
 			default:
 				return StacktraceNew("enum value must be int or uint", s.Location,
 					stacktrace.WithPosition(&e.Position))
@@ -445,7 +445,7 @@ func (s *NumberShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint, float64:
+			case int, int64, uint, uint64, float64:
 			default:
 				return StacktraceNew("enum value must be int, uint, float64", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From 347473c86be298d6f0f217804c33e792483cfc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:32 +0000
Subject: [PATCH 06/26] fix: keep the enumeration when aliasing a boolean type

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index db79373..d3bf35c 100644
--- a/scalars.go
+++ b/scalars.go
@@ -854,13 +854,14 @@ func (s *BooleanShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 }
 
 func (s *BooleanShape) alias(source Shape) (Shape, error) {
-	_, ok := source.(*BooleanShape)
+	ss, ok := source.(*BooleanShape)
 	if !ok {
 		return nil, StacktraceNew("cannot make alias from different type", s.Location,
 			stacktrace.WithPosition(&s.Position),
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	s.Enum = ss.Enum
 	return s, nil
 }
 
-- 
2.43.0


From 02e81b04310c9975d00c280998bbefa86981ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 07/26] fix: do not modify a registered hook list in place

A hook removing itself while hooks were running shifted the list under the
loop: the next hook was skipped and the last one ran twice. Appending into
spare capacity could overwrite a hook registered through a derived context.
---
 raml.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 683fc5e..54b8961 100644
--- a/raml.go
+++ b/raml.go
@@ -57,7 +57,9 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
-	hooks = append(hooks, hook)
+	// Registered lists are never modified in place: they may be in use by a running callHooks
+	// or shared with a derived context.
+	hooks = append(hooks[:len(hooks):len(hooks)], hook)
 	r.setHooks(key, hooks)
 }
 
@@ -71,7 +73,7 @@ func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
-			hooks = append(hooks[:i], hooks[i+1:]...)
+			hooks = append(hooks[:i:i], hooks[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From 05bb8d917ff721a470a7e17f738de12557fadb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:01 +0000
Subject: [PATCH 08/26] fix: report an unknown type name in a fragment as an
 error

---
 raml.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 54b8961..49075a8 100644
--- a/raml.go
+++ b/raml.go
@@ -166,7 +166,11 @@ func (r *RAML) GetTypeFromFragmentPtr(location string, typeName string) (*BaseSh
 	if !ok {
 		return nil, fmt.Errorf("location %s not found", location)
 	}
-	return loc[typeName], nil
+	shape, ok := loc[typeName]
+	if !ok {
+		return nil, fmt.Errorf("type %s not found in %s", typeName, location)
+	}
+	return shape, nil
 }
 
 // PutTypeIntoFragment puts a shape into a fragment.
@@ -185,7 +189,11 @@ func (r *RAML) GetAnnotationTypeFromFragmentPtr(location string, typeName string
 	if !ok {
 		return nil, fmt.Errorf("location %s not found", location)
 	}
-	return loc[typeName], nil
+	shape, ok := loc[typeName]
+	if !ok {
+		return nil, fmt.Errorf("annotation type %s not found in %s", typeName, location)
+	}
+	return shape, nil
 }
 
 // PutTypeIntoFragment puts a shape into a fragment.
-- 
2.43.0


From f24671f43b5390e2e1d5887f0e2db7256a73903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 09/26] fix: do not share empty lists and maps between copies
 of a JSON Schema

---
 schema.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/schema.go b/schema.go
index f0d4b2c..0f3aeba 100644
--- a/schema.go
+++ b/schema.go
@@ -98,36 +98,36 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	}
 	newJs := js.ShallowCopy()
 
-	if len(js.Required) > 0 {
+	if js.Required != nil {
 		newJs.Required = make([]string, len(js.Required))
 		copy(newJs.Required, js.Required)
 	}
 
-	if len(js.Examples) > 0 {
+	if js.Examples != nil {
 		newJs.Examples = make([]any, len(js.Examples))
 		copy(newJs.Examples, js.Examples)
 	}
 
-	if len(js.Enum) > 0 {
+	if js.Enum != nil {
 		newJs.Enum = make([]any, len(js.Enum))
 		copy(newJs.Enum, js.Enum)
 	}
 
-	if len(js.AnyOf) > 0 {
+	if js.AnyOf != nil {
 		newJs.AnyOf = make([]T, len(js.AnyOf))
 		for i, v := range js.AnyOf {
 			newJs.AnyOf[i] = v.DeepCopy()
 		}
 	}
 
-	if len(js.AllOf) > 0 {
+	if js.AllOf != nil {
 		newJs.AllOf = make([]T, len(js.AllOf))
 		for i, v := range js.AllOf {
 			newJs.AllOf[i] = v.DeepCopy()
 		}
 	}
 
-	if (len(js.OneOf)) > 0 {
+	if js.OneOf != nil {
 		newJs.OneOf = make([]T, len(js.OneOf))
 		for i, v := range js.OneOf {
 			newJs.OneOf[i] = v.DeepCopy()
@@ -141,21 +141,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	newJs.Items = js.Items.DeepCopy()
 	newJs.PropertyNames = js.PropertyNames.DeepCopy()
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		newJs.Properties = orderedmap.New[string, T](js.Properties.Len())
 		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
 			newJs.Properties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		newJs.PatternProperties = orderedmap.New[string, T](js.PatternProperties.Len())
 		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			newJs.PatternProperties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if len(js.Definitions) > 0 {
+	if js.Definitions != nil {
 		newJs.Definitions = make(map[string]T, len(js.Definitions))
 		for k, v := range js.Definitions {
 			newJs.Definitions[k] = v.DeepCopy()
-- 
2.43.0


From da53ccdab1cf369c78f7559e244d749fba9c1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:13 +0000
Subject: [PATCH 10/26] fix: convert to the plain JSON Schema without a wrapper
 instead of panicking

---
 jsonschemaconv.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..1e08259 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -77,11 +77,7 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		Definitions: c.definitions,
 	}
 
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil), nil
-	}
-
-	return any(core).(T), nil
+	return c.finish(core, nil), nil
 }
 
 func (c *JSONSchemaConverter[T]) Visit(s Shape) T {
@@ -473,18 +469,12 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 			core.Definitions[k] = c.recast(v)
 		}
 	}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.finish(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeEmptySchema() T {
 	core := &JSONSchemaGeneric[T]{}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.finish(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
@@ -507,8 +497,17 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 	if base.Example != nil {
 		core.Examples = []any{base.Example.Data.Value}
 	}
+	return c.finish(core, base)
+}
+
+// finish turns the canonical schema into a dialect node.
+func (c *JSONSchemaConverter[T]) finish(core *JSONSchemaGeneric[T], base *BaseShape) T {
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, base)
 	}
+	// NOTE: Only the plain JSONSchema may be used without a wrapper.
+	if plain, ok := any(core).(*JSONSchemaGeneric[*JSONSchema]); ok {
+		return any(&JSONSchema{JSONSchemaGeneric: *plain}).(T)
+	}
 	return any(core).(T)
 }
-- 
2.43.0


From d53a0eff8864d2e4074a0ccc83080642279810a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 11/26] fix: refuse a DataType whose uses is not a map instead
 of panicking

---
 fragment.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fragment.go b/fragment.go
index 05e1a1d..05750a4 100644
--- a/fragment.go
+++ b/fragment.go
@@ -345,6 +345,10 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 				break
 			}
 
+			if valueNode.Kind != yaml.MappingNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
+
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
 			for j := 0; j != len(valueNode.Content); j += 2 {
-- 
2.43.0


From 31477e6f1eff977308d801ab2300ea1d0fbd1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 12/26] fix: refuse a reference to a loaded fragment of another
 kind instead of panicking

---
 parse.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index a50be10..9ee9cac 100644
--- a/parse.go
+++ b/parse.go
@@ -131,7 +131,12 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	if dt := r.GetFragment(path); dt != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		cached, ok := dt.(*DataType)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a data type", path,
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return cached, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -224,7 +229,12 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		cached, ok := lib.(*Library)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a library", path,
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return cached, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -274,7 +284,12 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		cached, ok := lib.(*NamedExample)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a named example", path,
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return cached, nil
 	}
 
 	f, err := openFragmentFile(path)
-- 
2.43.0


From 4210205254c7a53e4a92fd5e6610973766a45393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 13/26] fix: refuse a null document instead of panicking

---
 parse.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parse.go b/parse.go
index 9ee9cac..d148cd0 100644
--- a/parse.go
+++ b/parse.go
@@ -82,6 +82,11 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// A null document resets the pointer.
+	if dt == nil {
+		return nil, StacktraceNew("fragment must be map", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, dt)
 
@@ -191,6 +196,11 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// A null document resets the pointer.
+	if lib == nil {
+		return nil, StacktraceNew("fragment must be map", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	var st *stacktrace.StackTrace
 
@@ -272,6 +282,11 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// A null document resets the pointer.
+	if ne == nil {
+		return nil, StacktraceNew("fragment must be map", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, ne)
 
-- 
2.43.0


From becd7d0d3c0b6c49d955e318d187cac6383d0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:50 +0000
Subject: [PATCH 14/26] fix: facets of a type must be a map

---
 shape.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shape.go b/shape.go
index 09e7252..41b9417 100644
--- a/shape.go
+++ b/shape.go
@@ -803,6 +803,9 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Kind != yaml.MappingNode && (valueNode.Kind != yaml.ScalarNode || valueNode.Tag != TagNull) {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 4e65d9de8c44dfb641110d342219e6a3c2abe373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:50 +0000
Subject: [PATCH 15/26] fix: properties of an object type must be a map

---
 complex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/complex.go b/complex.go
index d1537b8..fe5b490 100644
--- a/complex.go
+++ b/complex.go
@@ -305,6 +305,9 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetMaxProperties))
 		}
 	case FacetProperties:
+		if valueNode.Kind != yaml.MappingNode && (valueNode.Kind != yaml.ScalarNode || valueNode.Tag != TagNull) {
+			return StacktraceNew("properties must be map", s.Location, WithNodePosition(valueNode))
+		}
 		if len(valueNode.Content)%2 != 0 {
 			return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
 		}
-- 
2.43.0


From 1195c042b967374cd2a8272be9781742dad18067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:26 +0000
Subject: [PATCH 16/26] fix: refuse an empty list of parent types

---
 resolve.go | 3 +++
 shape.go   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/resolve.go b/resolve.go
index 7a5869a..8d1a72a 100644
--- a/resolve.go
+++ b/resolve.go
@@ -86,6 +86,9 @@ func (r *RAML) resolveDomainExtension(de *DomainExtension) error {
 
 func (r *RAML) resolveMultipleInheritance(base *BaseShape, shape *UnknownShape) error {
 	inherits := base.Inherits
+	if len(inherits) == 0 {
+		return fmt.Errorf("no types to inherit from")
+	}
 	for _, inherit := range inherits {
 		if err := r.resolveShape(inherit); err != nil {
 			return fmt.Errorf("resolve inherit: %w", err)
diff --git a/shape.go b/shape.go
index 41b9417..0bfd84f 100644
--- a/shape.go
+++ b/shape.go
@@ -686,6 +686,10 @@ func (r *RAML) makeShapeType(
 				WithNodePosition(shapeTypeNode))
 		}
 	case yaml.SequenceNode:
+		if len(shapeTypeNode.Content) == 0 {
+			return "", nil, StacktraceNew("type array must not be empty", location,
+				WithNodePosition(shapeTypeNode))
+		}
 		var inherits = make([]*BaseShape, len(shapeTypeNode.Content))
 		for i, node := range shapeTypeNode.Content {
 			if node.Kind != yaml.ScalarNode {
-- 
2.43.0


From 55e40c2c9ae90263fd7873551f8e699eeea30056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 17/26] fix: keep the facets of a declaration whose type is a
 parenthesised built-in

---
 rdt_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..291883c 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -77,7 +77,7 @@ func (visitor *RdtVisitor) VisitType(ctx *rdt.TypeContext, target *UnknownShape)
 }
 
 func (visitor *RdtVisitor) VisitPrimitive(ctx *rdt.PrimitiveContext, target *UnknownShape) (Shape, error) {
-	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), nil)
+	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), target.facets)
 	if err != nil {
 		return nil, fmt.Errorf("make concrete shape: %w", err)
 	}
-- 
2.43.0


From 3fff5a65096e33d0750abb42c4f4d24a04d2ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 18/26] fix: report hook errors raised while a type expression
 is resolved

---
 rdt_visitor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 291883c..110d51b 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make union member: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -94,7 +97,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	unionShape := shape.(*UnionShape)
 
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make optional member: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -103,7 +109,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make nil member: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -119,7 +128,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	arrayShape := shape.(*ArrayShape)
 
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make array items: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
-- 
2.43.0


From deb7681a2c29486720ac6566026453095dace892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 19/26] fix: report circular type references

---
 complex.go |  2 ++
 resolve.go | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/complex.go b/complex.go
index fe5b490..3cb273a 100644
--- a/complex.go
+++ b/complex.go
@@ -997,6 +997,8 @@ type UnknownShape struct {
 	*BaseShape
 
 	facets []*yaml.Node
+	// resolving is set while the type expression is being resolved.
+	resolving bool
 }
 
 func (s *UnknownShape) Base() *BaseShape {
diff --git a/resolve.go b/resolve.go
index 8d1a72a..9e392f3 100644
--- a/resolve.go
+++ b/resolve.go
@@ -155,6 +155,17 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
+	if unknownShape.resolving {
+		return StacktraceNew("circular type reference", base.Location,
+			stacktrace.WithPosition(&base.Position))
+	}
+	unknownShape.resolving = true
+	err := r.resolveUnknownShape(base, unknownShape)
+	unknownShape.resolving = false
+	return err
+}
+
+func (r *RAML) resolveUnknownShape(base *BaseShape, unknownShape *UnknownShape) error {
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
 		if err != nil {
-- 
2.43.0


From 78d5171d1df653261ec5f2c247d02c9c2005aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:04 +0000
Subject: [PATCH 20/26] fix: load a fragment that is referred to while it is
 being decoded once

---
 parse.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index d148cd0..e3317ca 100644
--- a/parse.go
+++ b/parse.go
@@ -78,18 +78,20 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
+	// Registered before decoding, as fragments may refer to each other.
+	r.PutFragment(path, dt)
 	if err := decoder.Decode(&dt); err != nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 	// A null document resets the pointer.
 	if dt == nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNew("fragment must be map", path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	r.PutFragment(path, dt)
-
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
 		include := pair.Value
@@ -192,20 +194,22 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
+	// Registered before decoding, as fragments may refer to each other.
+	r.PutFragment(path, lib)
 	if err := decoder.Decode(&lib); err != nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 	// A null document resets the pointer.
 	if lib == nil {
+		delete(r.fragmentsCache, path)
 		return nil, StacktraceNew("fragment must be map", path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From 13a0563846527749b14935a260579e2524f0b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 21/26] fix: do not panic on converting a file type with an
 empty fileTypes list

---
 jsonschemaconv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 1e08259..020cf15 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -249,7 +249,7 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
+	if len(s.FileTypes) > 0 {
 		maybeStr, ok := s.FileTypes[0].Value.(string)
 		if !ok {
 			panic("file type must be a string")
-- 
2.43.0


From 9bf290859f96e9b288c930a9a8e7f9e08ca97a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 22/26] fix: do not panic on converting a json type that has no
 schema

---
 jsonschemaconv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 020cf15..36b7799 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -358,6 +358,11 @@ func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	node := c.makeSchemaFromBaseShape(s.Base())
 	dst := node.Generic()
 
+	// A type declared as json without a schema carries no constraints of its own.
+	if s.Schema == nil {
+		return node
+	}
+
 	// Recast the plain schema to T
 	recasted := c.recast(s.Schema)
 	src := recasted.Generic()
-- 
2.43.0


From c34e7c325d5390baefe764293d24aa7317517b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 23/26] fix: keep included examples when converting to JSON
 Schema

---
 jsonschemaconv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 36b7799..545a01a 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -494,7 +494,11 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 		core.Default = base.Default.Value
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		examples := base.Examples.Map
+		if base.Examples.Link != nil {
+			examples = base.Examples.Link.Map
+		}
+		for pair := examples.Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			core.Examples = append(core.Examples, ex.Data.Value)
 		}
-- 
2.43.0


From f679c2541d5fadb1155895935db07ec2bbffac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:55 +0000
Subject: [PATCH 24/26] fix: let a deep copy of a recursive type refer to the
 copied head

---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 3cb273a..f2dd153 100644
--- a/complex.go
+++ b/complex.go
@@ -1059,9 +1059,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if c.Head != nil {
+		c.Head = c.Head.clone(clonedMap)
+	}
 	return &c
 }
 
-- 
2.43.0


From f99758cf6fe12cdf721443a32cef4881e25c8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:29 +0000
Subject: [PATCH 25/26] fix: validate included examples against the type

---
 validate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 9275a5e..e6b42b5 100644
--- a/validate.go
+++ b/validate.go
@@ -311,7 +311,11 @@ func (r *RAML) validateExamples(base *BaseShape) error {
 		}
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		examples := base.Examples.Map
+		if base.Examples.Link != nil {
+			examples = base.Examples.Link.Map
+		}
+		for pair := examples.Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			if err := base.Validate(ex.Data.Value); err != nil {
 				return StacktraceNewWrapped("validate example", err, ex.Location,
-- 
2.43.0


From 098b1684d0789a254d6a56b09b12383c3b44ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:29 +0000
Subject: [PATCH 26/26] fix: do not leave a type flagged as visited when
 marking recursion fails

---
 unwrap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unwrap.go b/unwrap.go
index 13c6410..f5e7254 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -195,15 +195,15 @@ func (r *RAML) FindAndMarkRecursion(base *BaseShape) (*BaseShape, error) {
 	case *UnionShape:
 		err = r.findAndMarkRecursionInUnionShape(t)
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	// Reset the context to avoid generating recursive shape
 	// for trait that points to the same type that defines this trait.
 	// This is OK because traits cannot have nested traits and
 	// cannot be used as a source for inheritance.
 	base.ShapeVisited = false
+	if err != nil {
+		return nil, err
+	}
 	err = r.findAndMarkRecursionInCustomShapeFacetDefinitions(base)
 	if err != nil {
 		return nil, err
-- 
2.43.0

