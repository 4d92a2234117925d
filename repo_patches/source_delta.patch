From 2160a6716ffeb15770c26f12d060cd37b9918721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 01/65] fix: size a CDF string variable for its longest string
 in every row

Only the first slice of strings was measured, so a longer string in a later
row overran its place and shifted everything stored after it.
---
 netcdf/cdf/cdfwriter.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..1f3cfac 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -293,9 +293,6 @@ func (cw *CDFWriter) getDimLengthsHelper(
 					maxLen = int64(rv.Index(i).Len())
 				}
 			}
-			if maxLen == 0 {
-				thrower.Throw(ErrEmptySlice)
-			}
 			dims = append(dims, maxLen)
 			return dims, typeChar
 		}
@@ -322,7 +319,29 @@ func (cw *CDFWriter) getDimLengthsHelper(
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	dims, ty := cw.getDimLengthsHelper(v, dims, dimNames)
+	if ty == typeChar && v.Kind() != reflect.String {
+		// The helper only looks at the first string slice, but the last
+		// dimension has to fit the longest string of all.
+		last := len(dims) - 1
+		dims[last] = maxStringLen(v)
+		if dims[last] == 0 {
+			thrower.Throw(ErrEmptySlice)
+		}
+	}
+	return dims, ty
+}
+
+// maxStringLen returns the length of the longest string in a slice, which may be nested.
+func maxStringLen(rv reflect.Value) int64 {
+	if rv.Kind() == reflect.String {
+		return int64(rv.Len())
+	}
+	maxLen := int64(0)
+	for i := range rv.Len() {
+		maxLen = max(maxLen, maxStringLen(rv.Index(i)))
+	}
+	return maxLen
 }
 
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
-- 
2.43.0


From 2ca9a72c21f865643391d2df0b55b5d378ab9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 02/65] fix: place CDF record variables after all the
 fixed-size ones

An empty variable (zero-length first dimension) has a non-zero vsize but takes
up no space while there are no records, so every variable added after it was
given an offset past its data.
---
 netcdf/cdf/cdfwriter.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 1f3cfac..7a4e4d4 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -30,7 +30,6 @@ type savedVar struct {
 	dimLengths []int64
 	dimNames   []string
 	attrs      api.AttributeMap
-	vsize      int64
 }
 
 type CDFWriter struct {
@@ -463,7 +462,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		vr.Dimensions, vr.Attributes})
 	return nil
 }
 
@@ -634,6 +633,28 @@ func (cw *CDFWriter) writeVar(which int) {
 	cw.writeAttributes(saved.attrs)
 
 	write32(cw.bf, int32(saved.ty))
+	cw.writeNumber(saved.computeVSize())
+
+	// The records come after the data of all the other variables.
+	calcOffset := cw.begin
+	for i := range cw.vars {
+		other := &cw.vars[i]
+		if saved.isRecord() && !other.isRecord() ||
+			saved.isRecord() == other.isRecord() && i < which {
+			calcOffset += other.computeVSize()
+		}
+	}
+	write64(cw.bf, calcOffset)
+}
+
+// isRecord returns true if the first dimension is the unlimited one.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
+// computeVSize returns the padded size of the variable, or of one of its
+// records if it is a record variable.
+func (saved *savedVar) computeVSize() int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -660,14 +681,7 @@ func (cw *CDFWriter) writeVar(which int) {
 	}
 	// pad vsize
 	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
-
-	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
-	}
-	write64(cw.bf, calcOffset)
+	return vsize
 }
 
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
-- 
2.43.0


From 41b835ccdc84b5a3a649198f86c328e72e82bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 03/65] fix: reject unsupported CDF attributes when they are
 added, and choose the version first

The version byte was written before the global attributes were looked at, so a
global attribute that needs the 64-bit data format left a file with a version 2
signature and a version 5 layout. Unsupported global attributes were only
noticed at Close, and an unsupported one that followed a 64-bit-data one in a
variable's list was noticed after AddVar had accepted the variable.
---
 netcdf/cdf/cdfwriter.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 7a4e4d4..55131f3 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -404,10 +404,13 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	cw.checkV5Attributes(attrs)
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -604,6 +607,7 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	if attrs == nil {
 		return
 	}
+	version := cw.version
 	for _, k := range attrs.Keys() {
 		v, _ := attrs.Get(k)
 		switch v.(type) {
@@ -611,14 +615,14 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 			[]int8, []int16, []int32, []float32, []float64:
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
-			cw.version = 5
-			return
+			version = 5
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
 			thrower.Throw(ErrAttribute)
 		}
 	}
+	cw.version = version
 }
 
 func (cw *CDFWriter) writeVar(which int) {
@@ -926,6 +930,8 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	// The version has to be known before anything is written.
+	cw.checkV5Attributes(cw.globalAttrs)
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -942,7 +948,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From 68fa5e100854a49598bc0fda619af7801dc09b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 04/65] fix: refuse a second CDF variable of the same name

The file that resulted could not be opened any more.
---
 netcdf/cdf/cdfwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 55131f3..d09f133 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -431,6 +431,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateVariable
+		}
+	}
 	cw.checkV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
 	switch ty {
-- 
2.43.0


From 2dc0bbf71106a3a08d0a07a6ac7ce9185838f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 05/65] fix: close the file when writing a CDF file fails

---
 netcdf/cdf/cdfwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index d09f133..2d682d7 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -880,6 +880,12 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 // Close writes all the data out and closes the file.
 func (cw *CDFWriter) Close() (err error) {
 	defer thrower.RecoverError(&err)
+	defer func() {
+		if cw.file != nil { // writing failed
+			_ = cw.file.Close()
+			cw.file = nil
+		}
+	}()
 	cw.writeAll()
 	err = cw.bf.Flush()
 	err2 := cw.file.Close()
-- 
2.43.0


From 6228e2ad062bbddfac1b32bee9f61bb82749f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 06/65] fix: return an error for values of types a CDF file
 can't hold

AddVar panicked on nil, bool, int and so on, and accepted types that Close
could not write.
---
 netcdf/cdf/cdfwriter.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 2d682d7..4982c21 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -315,7 +315,35 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	panic("internal error") // should never happen
 }
 
+// checkSupported throws an error if the value isn't of a type that can be written out.
+func checkSupported(val any) {
+	t := reflect.TypeOf(val)
+	if t == nil {
+		thrower.Throw(ErrUnknownType)
+	}
+	// t is going to be the innermost container, or the scalar if there isn't any
+	elem := t
+	for elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
+		t = elem
+		elem = elem.Elem()
+	}
+	switch elem.Kind() {
+	case reflect.String:
+		if elem == reflect.TypeFor[string]() {
+			return
+		}
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+		reflect.Float32, reflect.Float64:
+		if t == elem || t == reflect.SliceOf(elem) && elem.PkgPath() == "" {
+			return
+		}
+	}
+	thrower.Throw(ErrUnknownType)
+}
+
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
+	checkSupported(val)
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
 	dims, ty := cw.getDimLengthsHelper(v, dims, dimNames)
-- 
2.43.0


From 28b20749488ec2e384b67098f2d3650b342da03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 07/65] fix: refuse ragged values for CDF variables

Only the first slice of each dimension was measured; a different length further
on overran or underran the variable's place.
---
 netcdf/cdf/cdfwriter.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 4982c21..2fce5f1 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -347,6 +347,7 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
 	dims, ty := cw.getDimLengthsHelper(v, dims, dimNames)
+	checkLengths(v, dims)
 	if ty == typeChar && v.Kind() != reflect.String {
 		// The helper only looks at the first string slice, but the last
 		// dimension has to fit the longest string of all.
@@ -359,6 +360,22 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	return dims, ty
 }
 
+// checkLengths throws an error if not all slices of a dimension have the same length.
+func checkLengths(rv reflect.Value, dims []int64) {
+	if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
+		return
+	}
+	if int64(rv.Len()) != dims[0] {
+		thrower.Throw(ErrDimensionSize)
+	}
+	switch rv.Type().Elem().Kind() {
+	case reflect.Slice, reflect.Array:
+		for i := range rv.Len() {
+			checkLengths(rv.Index(i), dims[1:])
+		}
+	}
+}
+
 // maxStringLen returns the length of the longest string in a slice, which may be nested.
 func maxStringLen(rv reflect.Value) int64 {
 	if rv.Kind() == reflect.String {
-- 
2.43.0


From ff099803f2f9918d7449e04bea5ffac557b67c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 08/65] fix: undo what a failed AddVar did to a CDF file's
 dimensions and version

The dimensions of a refused variable stayed behind, and made later variables
that use the same names fail.
---
 netcdf/cdf/cdfwriter.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 2fce5f1..92bbf3a 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -481,6 +481,21 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			return ErrDuplicateVariable
 		}
 	}
+	// A call that fails must not leave anything behind.
+	version, nDims := cw.version, len(cw.dimNames)
+	added := false
+	defer func() {
+		if added {
+			return
+		}
+		cw.version = version
+		for _, dimName := range cw.dimNames[nDims:] {
+			delete(cw.dimLengths, dimName)
+			delete(cw.dimIds, dimName)
+		}
+		cw.dimNames = cw.dimNames[:nDims]
+		cw.nextID = int64(nDims)
+	}()
 	cw.checkV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
 	switch ty {
@@ -516,6 +531,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
 		vr.Dimensions, vr.Attributes})
+	added = true
 	return nil
 }
 
-- 
2.43.0


From 46b268ca05dc5cafa2bcd56b28728b810faaea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 09/65] fix: name CDF dimensions in a copy of the caller's list

Names for unnamed dimensions were appended to the list, possibly writing into
the caller's array, and in the wrong place when an unnamed dimension was not
the last. A list longer than the rank is refused instead of being cut.
---
 netcdf/cdf/cdfwriter.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 92bbf3a..64c7af2 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -502,21 +502,22 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	if len(vr.Dimensions) > len(dimLengths) {
+		return ErrDimensionSize
+	}
+	dimNames := make([]string, len(dimLengths))
+	copy(dimNames, vr.Dimensions) // don't modify the caller's names
 	for i := range dimLengths {
-		var dimName string
-		if i < len(vr.Dimensions) {
-			dimName = vr.Dimensions[i]
-		}
+		dimName := dimNames[i]
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
 			} else {
 				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
+			dimNames[i] = dimName
 		}
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
 		if has {
 			if dimLengths[i] != currentLength {
@@ -530,7 +531,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes})
+		dimNames, vr.Attributes})
 	added = true
 	return nil
 }
-- 
2.43.0


From 15e6e9c9366c470f137a554374cd85bbfecc28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 10/65] fix: never write more than one unlimited dimension to a
 CDF file

A zero-length dimension is the unlimited one, and the format only allows one.
A zero length elsewhere than first was already refused, but not until Close.
---
 netcdf/cdf/cdfwriter.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 64c7af2..2ea6bf5 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -47,6 +47,7 @@ type CDFWriter struct {
 
 var (
 	ErrUnlimitedMustBeFirst = errors.New("unlimited dimension must be first")
+	ErrMultipleUnlimited    = errors.New("there can only be one unlimited dimension")
 	ErrDimensionSize        = errors.New("dimension doesn't match size")
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
@@ -465,6 +466,16 @@ func (cw *CDFWriter) CreateGroup(name string) (api.Writer, error) {
 	return nil, api.ErrUnsupported
 }
 
+// unlimited returns the name of the unlimited dimension, or an empty string.
+func (cw *CDFWriter) unlimited() string {
+	for _, dimName := range cw.dimNames {
+		if cw.dimLengths[dimName] == 0 {
+			return dimName
+		}
+	}
+	return ""
+}
+
 // AddVar adds a variable to be written out.
 // Use util.NewOrderedMap to create attribute maps for the variable.
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
@@ -508,7 +519,14 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	dimNames := make([]string, len(dimLengths))
 	copy(dimNames, vr.Dimensions) // don't modify the caller's names
 	for i := range dimLengths {
+		if dimLengths[i] == 0 && i > 0 {
+			return ErrUnlimitedMustBeFirst
+		}
 		dimName := dimNames[i]
+		if dimName == "" && dimLengths[i] == 0 {
+			dimName = cw.unlimited()
+			dimNames[i] = dimName
+		}
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
@@ -524,6 +542,9 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 				thrower.Throw(ErrDimensionSize)
 			}
 		} else {
+			if dimLengths[i] == 0 && cw.unlimited() != "" {
+				return ErrMultipleUnlimited
+			}
 			cw.dimLengths[dimName] = dimLengths[i]
 			cw.dimIds[dimName] = cw.nextID
 			cw.dimNames = append(cw.dimNames, dimName)
-- 
2.43.0


From a87ad652700cfe6c0de7b75653efc5422725371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 11/65] fix: give empty CDF character variables of rank 3 and
 more a string type

An empty one of rank 3 was returned as [][][]uint8 instead of [][]string. Also
return a character above 127 in a scalar as the byte it is, not as UTF-8.
---
 netcdf/cdf/cdf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..665bfa5 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -945,7 +945,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
@@ -1103,6 +1103,10 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
+		if vType == typeChar {
+			// the last dimension is in the strings
+			return emptySlice([]string{}, dimLengths[1:])
+		}
 		return emptySlice(data, dimLengths)
 	}
 	if len(dimLengths) == 0 {
-- 
2.43.0


From 20955f6e41c20593f9dc2a0022fd0e4221e20af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 12/65] fix: read slices of CDF record variables from the right
 records

---
 netcdf/cdf/cdf.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 665bfa5..c169da8 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -904,20 +904,19 @@ func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
 	return &seekReader{file: file, offset: offset, reader: nil}
 }
 
+// newRecordReader reads the given number of bytes of a record variable, starting
+// at a byte position in the variable (as if its records were contiguous) that is
+// a multiple of the variable's size in a record.
 func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
-		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
+	var readers []io.Reader
+	for size > 0 {
+		record := start / v.vsize
+		offset := int64(v.begin) + record*int64(cdf.recSize)
+		thisSize := min(v.vsize, size)
+		readers = append(readers,
+			io.LimitReader(newSeekReader(cdf.file, offset), thisSize))
+		start += v.vsize
 		size -= thisSize
-		start = 0
 	}
 	return io.MultiReader(readers...)
 }
-- 
2.43.0


From f8fba81eca71d4cb773bd3180e45f5ebab90d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 13/65] fix: accept character fill values in CDF files, and
 return an error for those of a wrong type

---
 netcdf/cdf/cdf.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index c169da8..d40bbfa 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1182,6 +1182,17 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 			}
 			userFV = val.Index(0).Interface()
 		}
+		// It must be of the variable's type. Character attributes are strings.
+		want := goType(v.vType)
+		if v.vType == typeChar {
+			want = "uint8"
+			if str, isString := userFV.(string); isString && len(str) == 1 {
+				userFV = str[0]
+			}
+		}
+		if reflect.TypeOf(userFV).String() != want {
+			thrower.Throw(ErrFillValue)
+		}
 	}
 	var fillValue []byte
 	switch v.vType {
-- 
2.43.0


From 2ffe960d4d97b38ac88e02bfcbd061c979cd9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 14/65] fix: give the unstored part of CDF record variables the
 fill value

---
 netcdf/cdf/cdf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index d40bbfa..2075abb 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -913,8 +913,8 @@ func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader
 		record := start / v.vsize
 		offset := int64(v.begin) + record*int64(cdf.recSize)
 		thisSize := min(v.vsize, size)
-		readers = append(readers,
-			io.LimitReader(newSeekReader(cdf.file, offset), thisSize))
+		readers = append(readers, io.LimitReader(
+			makeFillValueReader(*v, newSeekReader(cdf.file, offset)), thisSize))
 		start += v.vsize
 		size -= thisSize
 	}
-- 
2.43.0


From 7b978e7ac45cfcd9b4a1059d80358077cbf17dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 15/65] fix: refuse slices outside a CDF variable

---
 netcdf/cdf/cdf.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2075abb..2effc4d 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -643,7 +643,8 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if end < begin {
+		if begin < 0 || end < begin || end > length ||
+			len(dimLengths) == 0 && end-begin != 1 {
 			return nil, errors.New("invalid slice parameters")
 		}
 		var nChunks int64
@@ -747,10 +748,14 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			return nil, ErrTooManyDimensions
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(dimLengths[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(dimLengths) == 0 {
+			// nothing to slice in a scalar
+			return getSlice(0, 1)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
-- 
2.43.0


From d468ea4d814d6a6f4e68da337362394fe11b3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 16/65] fix: slice the last dimension of character variables

---
 internal/slicer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..cfc0e91 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -104,6 +104,10 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
+	// The last dimension of characters is in the strings
+	if v.Kind() == reflect.String && len(dims) == 1 && uint64(v.Len()) == dims[0] {
+		return v.Slice(int(begin[0]), int(end[0]))
+	}
 	// For scalars or base types at the end of recursion
 	return v
 }
-- 
2.43.0


From 073f5cde3cbe8d7ce27e947aa14e0229f6c4de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 17/65] fix: undo the HDF5 filters in any order, for odd sizes
 too, and verify the checksum first

---
 netcdf/hdf5/hdf5.go    |   4 +-
 netcdf/hdf5/readers.go | 113 ++++++++++-------------------------------
 2 files changed, 30 insertions(+), 87 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..1a4da23 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2578,8 +2578,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				if len(f.cdv) > 0 {
 					shuffleParam = f.cdv[0]
 				}
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
+				// Shuffling doesn't change the size.
+				bf = newUnshuffleReader(bf, inputSize, shuffleParam)
 				canSeek = false
 			}
 		}
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..2ee6c35 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -5,10 +5,10 @@ package hdf5
 import (
 	"bufio"
 	"bytes"
+	"encoding/binary"
 	"io"
 	"sync"
 
-	"github.com/batchatco/go-native-netcdf/netcdf/util"
 	"github.com/batchatco/go-thrower"
 )
 
@@ -53,92 +53,34 @@ type unshuffleReader struct {
 	shuffleParam uint32
 }
 
-// Streaming version of a fletcher32 reader
-type fletcher struct {
-	r            io.Reader
-	size         uint64
-	count        uint64
-	sum1         uint32
-	sum2         uint32
-	partial      uint8
-	checksum     uint32
-	readChecksum bool
-}
-
-// fletcher32Reader creates a reader implementing the fletcher32 algorithm.
+// fletcher32Reader reads data followed by its fletcher32 checksum, verifies it and
+// returns a reader of the data. All of it is verified before any of it is returned.
 func fletcher32Reader(r io.Reader, size uint64) remReader {
 	assert(size >= 4, "bad size for fletcher")
-	return &fletcher{
-		r:            r,
-		size:         size,
-		count:        0,
-		sum1:         0,
-		sum2:         0,
-		partial:      0,
-		checksum:     0,
-		readChecksum: false,
-	}
-}
-
-func (fl *fletcher) Rem() int64 {
-	return int64((fl.size - 4) - fl.count)
-}
-
-func (fl *fletcher) Size() int64 {
-	return int64(fl.size)
-}
-
-func (fl *fletcher) Count() int64 {
-	return int64(fl.count)
-}
-
-func (fl *fletcher) Read(b []byte) (int, error) {
-	thisLen := uint64(len(b))
-	if thisLen+fl.count > fl.size-4 {
-		thisLen = (fl.size - 4) - fl.count
-	}
-	n, err := fl.r.Read(b[:thisLen])
-	if err != nil && err != io.EOF {
-		return 0, err
-	}
-	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
-	}
-	for i := 0; i < n; i++ {
-		var val uint16
-		switch {
-		case (fl.count+uint64(i))%2 == 1:
-			// Previous read left us with an odd count.
-			// Recover the partial read and compute val.
-			val = (uint16(fl.partial) << 8) | uint16(b[i])
-			addToSums(val)
-		case i == n-1:
-			// Can't complete a read, so save the partial.
-			fl.partial = b[i]
-		default:
-			val = (uint16(b[i]) << 8) | uint16(b[i+1])
-			addToSums(val)
-			i++
-		}
-	}
-	fl.count += uint64(n)
-	if fl.count == fl.size-4 {
-		if (fl.size-4)%2 == 1 {
-			// Retrieve partial and complete sum as if next byte were zero.
-			val := uint16(fl.partial) << 8
-			addToSums(val)
-		}
-		calcedSum := (uint32(fl.sum2) << 16) | uint32(fl.sum1)
-		if !fl.readChecksum {
-			util.MustReadLE(fl.r, &fl.checksum)
-			fl.readChecksum = true
-		}
-		if calcedSum != fl.checksum {
-			thrower.Throw(ErrFletcherChecksum)
+	data, err := io.ReadAll(io.LimitReader(r, int64(size)))
+	thrower.ThrowIfError(err)
+	assertError(uint64(len(data)) == size, io.ErrUnexpectedEOF, "short data for fletcher")
+	checksum := binary.LittleEndian.Uint32(data[size-4:])
+	data = data[:size-4]
+	if fletcher32(data) != checksum {
+		thrower.Throw(ErrFletcherChecksum)
+	}
+	return newResetReaderFromBytes(data)
+}
+
+// fletcher32 implements the fletcher32 algorithm.
+func fletcher32(data []byte) uint32 {
+	sum1 := uint32(0)
+	sum2 := uint32(0)
+	for i := 0; i < len(data); i += 2 {
+		val := uint32(data[i]) << 8
+		if i+1 < len(data) {
+			val |= uint32(data[i+1])
 		}
+		sum1 = (sum1 + val) % 65535
+		sum2 = (sum1 + sum2) % 65535
 	}
-	return n, nil
+	return (sum2 << 16) | sum1
 }
 
 func (r *resetReader) Rem() int64 {
@@ -293,7 +235,7 @@ func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader
 }
 
 func unshuffle(val []byte, n uint32) {
-	if n == 1 {
+	if n <= 1 {
 		return // avoids allocation
 	}
 	// shuffle params are never very large in practice, so this isn't wasteful
@@ -305,7 +247,8 @@ func unshuffle(val []byte, n uint32) {
 			tmp[j*int(n)+i] = val[i*nelems+j]
 		}
 	}
-	copy(val, tmp)
+	// Any bytes after the last whole element weren't shuffled.
+	copy(val, tmp[:nelems*int(n)])
 }
 
 func (r *unshuffleReader) Read(p []byte) (int, error) {
-- 
2.43.0


From 3ae66adeec630ff4e9fc512f23d449e3f4a2c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 18/65] fix: put chunks in their place in the array, for every
 rank, chunk shape and slice

---
 netcdf/hdf5/hdf5.go    | 432 +++++++++++++----------------------------
 netcdf/hdf5/readers.go | 224 +++++++--------------
 netcdf/hdf5/segment.go |  49 -----
 3 files changed, 204 insertions(+), 501 deletions(-)
 delete mode 100644 netcdf/hdf5/segment.go

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 1a4da23..39caf4c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -240,9 +240,6 @@ type object struct {
 	attrlist         []*attribute
 	dataBlocks       []dataBlock
 	btreeAddr        uint64
-	chunkSize        uint64
-	numberOfElements uint64
-	dimensionality   uint8
 	filters          []filter
 	objAttr          *attribute
 	fillValue        []byte // takes precedence over old fill value
@@ -930,98 +927,63 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	h5.checkChecksum(bta, nbytes)
 }
 
-func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
-	dso := uint64(0)
-	sizes := dtSize
-	rank := len(dimensions)
-	if len(offsets) < rank {
-		rank = len(offsets)
-	}
-	for d := rank - 1; d >= 0; d-- {
-		dso += offsets[d] * sizes
-		sizes *= dimensions[d]
-	}
-	return dso
-}
-
-func (h5 *HDF5) readBTreeNode(parent *object, bta uint64, dtSize uint64,
-	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) {
-	h5.readBTreeNodeAny(parent, bta, true /*isTop*/, dtSize, numberOfElements,
-		dimensionality, firstOffset, lastOffset)
-}
-
-func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
-	dtSize uint64, numberOfElements uint64, dimensionality uint8,
-	firstOffset, lastOffset uint64) {
-	bf := h5.newSeek(bta, 24) // adjust later
-	checkMagic(bf, 4, "TREE")
-	nodeType := read8(bf)
-	checkVal(1, nodeType, "raw data only")
-	nodeLevel := read8(bf)
-	entriesUsed := read16(bf)
-	leftAddress := read64(bf)
-	rightAddress := read64(bf)
-	if leftAddress != invalidAddress || rightAddress != invalidAddress {
-		assert(!isTop, "Siblings unexpected")
-	}
-	dimDataSize := 0
-	if dimensionality > 0 {
-		dimDataSize = 8 * int(dimensionality-1)
-	}
-
-	type btreeEntry struct {
-		sizeChunk  uint32
-		filterMask uint32
-		offsets    []uint64
-		addr       uint64
-		flatOffset uint64
-	}
-
-	entries := make([]btreeEntry, entriesUsed+1)
-	bf = h5.newSeek(bta+uint64(bf.Count()),
-		int64((int(entriesUsed)*(24+dimDataSize))+16+dimDataSize))
-
-	for i := uint16(0); i <= entriesUsed; i++ {
-		entries[i].sizeChunk = read32(bf)
-		entries[i].filterMask = read32(bf)
-		entries[i].offsets = make([]uint64, dimensionality-1)
-		for d := uint8(0); d < dimensionality-1; d++ {
-			entries[i].offsets[d] = read64(bf)
-		}
-		read64(bf) // last offset must be zero
-		if i < entriesUsed {
-			entries[i].addr = read64(bf)
-		}
-		if parent.objAttr.dimensions != nil {
-			entries[i].flatOffset = calculateFlatOffsetFromKeys(entries[i].offsets,
-				parent.objAttr.dimensions, dtSize)
+// readChunkIndex returns the stored chunks which have rows in [firstRow, lastRow).
+func (h5 *HDF5) readChunkIndex(obj *object, firstRow, lastRow uint64) []dataBlock {
+	var blocks []dataBlock
+	rank := len(obj.objAttr.layout)
+	chunkLength := calcChunkSize(obj.objAttr) * uint64(obj.objAttr.length)
+	// Tells if chunks starting in rows low to high overlap the requested rows.
+	overlaps := func(low, high uint64) bool {
+		return low < lastRow && (high >= firstRow || firstRow-high < obj.objAttr.layout[0])
+	}
+
+	var readNode func(bta uint64, level int)
+	readNode = func(bta uint64, level int) {
+		bf := h5.newSeek(bta, 24) // adjust later
+		checkMagic(bf, 4, "TREE")
+		nodeType := read8(bf)
+		checkVal(1, nodeType, "raw data only")
+		nodeLevel := read8(bf)
+		assertError(level < 0 || int(nodeLevel) == level, ErrCorrupted, "bad chunk index level")
+		entriesUsed := read16(bf)
+		leftAddress := read64(bf)
+		rightAddress := read64(bf)
+		if leftAddress != invalidAddress || rightAddress != invalidAddress {
+			assert(level >= 0, "Siblings unexpected")
+		}
+		keySize := 4 + 4 + 8*rank + 8 // sizes, offsets and a last offset that must be zero
+		bf = h5.newSeek(bta+uint64(bf.Count()), int64(int(entriesUsed)*(keySize+8)+keySize))
+
+		entries := make([]dataBlock, int(entriesUsed)+1)
+		for i := range entries {
+			entries[i].length = uint64(read32(bf))
+			entries[i].filterMask = read32(bf)
+			entries[i].offsets = make([]uint64, rank)
+			for d := range rank {
+				entries[i].offsets[d] = read64(bf)
+			}
+			read64(bf) // last offset must be zero
+			if i < int(entriesUsed) {
+				entries[i].offset = read64(bf)
+			}
+			entries[i].dsLength = chunkLength
+		}
+		for i := range int(entriesUsed) {
+			low := entries[i].offsets[0]
+			switch {
+			case nodeLevel > 0:
+				if overlaps(low, entries[i+1].offsets[0]) {
+					readNode(entries[i].offset, int(nodeLevel)-1)
+				}
+			case overlaps(low, low):
+				blocks = append(blocks, entries[i])
+			}
 		}
 	}
-
-	for i := uint16(0); i < entriesUsed; i++ {
-		low := entries[i].flatOffset
-		high := entries[i+1].flatOffset
-		if nodeLevel == 0 {
-			high = low + numberOfElements*dtSize
-		}
-
-		// Prune if the requested range [firstOffset, lastOffset) does not overlap
-		// with the range covered by this entry [low, high).
-		if low >= lastOffset || (high > 0 && high <= firstOffset) {
-			continue
-		}
-
-		if nodeLevel > 0 {
-			h5.readBTreeNodeAny(parent, entries[i].addr, false /*not top*/, dtSize,
-				numberOfElements, dimensionality, firstOffset, lastOffset)
-			continue
-		}
-
-		pending := dataBlock{offset: entries[i].addr, length: uint64(entries[i].sizeChunk), filterMask: entries[i].filterMask}
-		pending.dsLength = numberOfElements * dtSize
-		pending.offsets = entries[i].offsets
-		parent.dataBlocks = append(parent.dataBlocks, pending)
+	if obj.btreeAddr != 0 {
+		readNode(obj.btreeAddr, -1)
 	}
+	return blocks
 }
 
 func log2(v uint64) int {
@@ -1696,6 +1658,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			for i := range int(dimensionality) - 1 {
 				size := read32(bf)
 				numberOfElements *= uint64(size)
+				assertError(size > 0, ErrDimensionality, "zero chunk dimension")
 				layout[i] = uint64(size)
 				logger.Info("layout", i, "size", size)
 			}
@@ -1706,9 +1669,6 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 				numberOfElements)
 			if address != invalidAddress {
 				parent.btreeAddr = address
-				parent.chunkSize = uint64(size)
-				parent.numberOfElements = numberOfElements
-				parent.dimensionality = dimensionality
 			} else {
 				logger.Info("layout specified invalid address")
 			}
@@ -2473,187 +2433,102 @@ func readAll(bf io.Reader, b []byte) (uint64, error) {
 	return tot, nil
 }
 
+// newRecordReader returns a reader of the variable's data in row-major order, or
+// of the requested part of its first dimension. What isn't stored gets the fill value.
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	nBlocks := len(obj.dataBlocks)
-	size := uint64(calcAttrSize(obj.objAttr))
+	attr := obj.objAttr
+	size := calcAttrSize(attr)
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
 	}
-	logger.Info("size=", size, "dtlength=", obj.objAttr.length, "dims=", obj.objAttr.dimensions)
+	logger.Info("size=", size, "dtlength=", attr.length, "dims=", attr.dimensions)
 	firstOffset := uint64(0)
-	lastOffset := uint64(size)
-	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
-		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
-			dimSize := size / obj.objAttr.dimensions[0]
-			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
-			lastOffset = uint64(obj.objAttr.lastDim) * dimSize
-			size = lastOffset - firstOffset
-		}
-	}
-	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
-		nBlocks = len(obj.dataBlocks)
-	}
-	if nBlocks == 0 {
-		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
+	lastOffset := size
+	if attr.isSlice && len(attr.dimensions) > 0 {
+		rowSize := size / attr.dimensions[0]
+		firstOffset = uint64(attr.firstDim) * rowSize
+		lastOffset = uint64(attr.lastDim) * rowSize
+	}
+	size = lastOffset - firstOffset
+	if len(attr.layout) > 0 {
+		return newResetReader(newLayoutReader(h5, obj), int64(size))
+	}
+	if len(obj.dataBlocks) == 0 {
+		logger.Info("No blocks, filling only", size, attr.dimensions)
 		return makeFillValueReader(obj, nil, int64(size))
 	}
-	offset := uint64(0)
-	for _, val := range obj.dataBlocks {
-		dsLength := val.dsLength
-		skipBegin := uint64(0)
-		skipEnd := uint64(0)
-		valOffset := val.offset
-
-		if len(obj.objAttr.layout) > 0 {
-			offset = calculateFlatOffset(val.offsets, obj.objAttr.dimensions, obj.objAttr.layout, uint64(obj.objAttr.length))
-		}
-
-		if offset+dsLength <= firstOffset {
-			if len(obj.objAttr.layout) == 0 {
-				offset += dsLength
+	block := obj.dataBlocks[0]
+	if firstOffset >= block.length {
+		return makeFillValueReader(obj, nil, int64(size))
+	}
+	length := min(size, block.length-firstOffset)
+	var bf io.Reader
+	switch {
+	case length == 0:
+		bf = newResetReaderFromBytes([]byte{})
+	case block.rawData != nil:
+		bf = newResetReaderFromBytes(block.rawData[firstOffset : firstOffset+length])
+	default:
+		bf = h5.newSeek(block.offset+firstOffset, int64(length))
+	}
+	if length < size {
+		return makeFillValueReader(obj, bf, int64(size))
+	}
+	return newResetReader(bf, int64(size))
+}
+
+// readChunk returns the contents of one chunk, with the filters undone.
+func (h5 *HDF5) readChunk(obj *object, block dataBlock) []byte {
+	logger.Infof("offset=0x%x length=%d offset+length=0x%x filesize=0x%x",
+		block.offset, block.length, block.offset+block.length, h5.fileSize)
+	assertError(block.length > 0, ErrCorrupted, "empty chunk")
+	var bf io.Reader = h5.newSeek(block.offset, int64(block.length))
+
+	// Filters must be applied in the reverse order of their definition.
+	// We pre-calculate the expected data size at each stage of the pipeline
+	// to ensure filters like Fletcher32 and Shuffle receive the correct input/output sizes.
+	targetSize := make([]uint64, len(obj.filters))
+	curr := block.dsLength
+	for j := range obj.filters {
+		targetSize[j] = curr
+		if (1<<uint(j))&block.filterMask == 0 {
+			if obj.filters[j].kind == filterFletcher32 {
+				curr += 4
 			}
-			continue
-		}
-		if offset >= lastOffset {
-			break
-		}
-		if firstOffset >= offset && firstOffset < offset+dsLength {
-			skipBegin = (firstOffset - offset)
-		}
-		if offset+dsLength > lastOffset {
-			skipEnd = offset + dsLength - lastOffset
 		}
+	}
 
-		var bf io.Reader
-		canSeek := false
-		if val.rawData != nil {
-			thisSize := int64(dsLength - skipEnd)
-			bf = newResetReaderFromBytes(val.rawData[:thisSize])
-		} else {
-			logger.Infof("offset=0x%x length=%d offset+length=0x%x filesize=0x%x",
-				valOffset, val.length,
-				valOffset+val.length, h5.fileSize)
-			bf = h5.newSeek(valOffset, int64(val.length))
-			canSeek = true
-		}
-
-		// Filters must be applied in the reverse order of their definition.
-		// We pre-calculate the expected data size at each stage of the pipeline
-		// to ensure filters like Fletcher32 and Shuffle receive the correct input/output sizes.
-		targetSize := make([]uint64, len(obj.filters))
-		curr := dsLength
-		for j := range obj.filters {
-			targetSize[j] = curr
-			if (1<<uint(j))&val.filterMask == 0 {
-				if obj.filters[j].kind == filterFletcher32 {
-					curr += 4
-				}
-			}
+	inputSize := block.length
+	for j := len(obj.filters) - 1; j >= 0; j-- {
+		f := obj.filters[j]
+		if (1<<uint(j))&block.filterMask != 0 {
+			continue
 		}
-
-		inputSize := val.length
-		for j := len(obj.filters) - 1; j >= 0; j-- {
-			f := obj.filters[j]
-			if (1<<uint(j))&val.filterMask != 0 {
-				continue
+		switch f.kind {
+		case filterFletcher32:
+			bf = fletcher32Reader(bf, inputSize)
+			inputSize -= 4
+		case filterDeflate:
+			zbf, err := zlib.NewReader(bf)
+			if err != nil {
+				failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
 			}
-			switch f.kind {
-			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
-				inputSize -= 4
-			case filterDeflate:
-				zbf, err := zlib.NewReader(bf)
-				if err != nil {
-					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
-				}
-				// If there are more filters, we don't know the size yet.
-				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
-				inputSize = targetSize[j]
-				canSeek = false
-			case filterShuffle:
-				shuffleParam := uint32(0)
-				if len(f.cdv) > 0 {
-					shuffleParam = f.cdv[0]
-				}
-				// Shuffling doesn't change the size.
-				bf = newUnshuffleReader(bf, inputSize, shuffleParam)
-				canSeek = false
+			bf = newResetReader(zbf, int64(targetSize[j]))
+			inputSize = targetSize[j]
+		case filterShuffle:
+			shuffleParam := uint32(0)
+			if len(f.cdv) > 0 {
+				shuffleParam = f.cdv[0]
 			}
-		}
-		if skipBegin > 0 {
-			if canSeek {
-				thisSize := int64(dsLength - (skipBegin + skipEnd))
-				bf = h5.newSeek(valOffset+skipBegin, thisSize)
-			} else {
-				skip(bf, int64(skipBegin))
-			}
-		}
-		thisSeg := &segment{
-			offset: offset + skipBegin,
-			length: dsLength - (skipBegin + skipEnd),
-			r:      bf,
-		}
-		segments.append(thisSeg)
-		if len(obj.objAttr.layout) == 0 {
-			offset += dsLength
-		}
-	}
-	segments.sort()
-	readers := make([]io.Reader, 0)
-	off := firstOffset
-	logger.Info("firstoffset=", firstOffset, "lastOffset=", lastOffset)
-	for i := range segments.Len() {
-		seg := segments.get(i)
-		r := seg.r
-		if seg.offset > off {
-			// Hole
-			holeSize := seg.offset - off
-			readers = append(readers, makeFillValueReader(obj, nil, int64(holeSize)))
-			off = seg.offset
-		}
-		assert(seg.offset <= off, "discontiguous data")
-		logger.Infof("Reader at offset 0x%x length %d", seg.offset, seg.length)
-		readers = append(readers, newResetReader(r, int64(seg.length)))
-		off += seg.length
-	}
-	if size > off {
-		extra := size - off
-		logger.Infof("Fill value reader at end offset 0x%x length %d",
-			off, extra)
-		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
-		off += extra
-	}
-	assertError(off <= lastOffset, ErrCorrupted,
-		fmt.Sprintf("this only happens in corrupted files (2) %d %d", off, lastOffset))
-	return newResetReader(io.MultiReader(readers...), int64(size))
-}
-
-func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
-	r := h5.newRecordReader(obj)
-	if needsLayoutReader(obj.objAttr) {
-		return newLayoutReader(r, obj)
-	}
-	return r
-}
-
-func needsLayoutReader(attr *attribute) bool {
-	if len(attr.layout) == 0 {
-		return false
-	}
-	for i := range attr.dimensions {
-		if attr.dimensions[i]%attr.layout[i] != 0 {
-			return true
-		}
-	}
-	for i := range len(attr.layout) - 1 {
-		if attr.layout[i] != 1 {
-			return true
+			// Shuffling doesn't change the size.
+			bf = newUnshuffleReader(bf, inputSize, shuffleParam)
 		}
 	}
-	return false
+	// The stored size isn't trusted until that much was really there.
+	data, err := io.ReadAll(io.LimitReader(bf, int64(block.dsLength)))
+	thrower.ThrowIfError(err)
+	assertError(uint64(len(data)) == block.dsLength, ErrCorrupted, "short chunk")
+	return data
 }
 
 func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
@@ -2691,38 +2566,9 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 }
 
 func (h5 *HDF5) getData(obj *object) any {
-	attr := obj.objAttr
-	sz := calcAttrSize(obj.objAttr)
-	bf := h5.newMaybeLayoutRecordReader(obj)
-	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
-	if int64(sz) > bf.(remReader).Rem() {
-		length := int64(sz) - bf.(remReader).Rem()
-		logger.Info("Add fill value reader", length)
-		bf = makeFillValueReader(obj, bf, int64(sz))
-	}
-	var bff io.Reader
-	if attr.isSlice {
-		assert(attr.lastDim >= attr.firstDim, "bad slice params")
-		var chunkSize int64
-		switch {
-		case len(attr.dimensions) == 0:
-			chunkSize = 1
-		case attr.dimensions[0] == 0:
-			chunkSize = 0
-		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
-		}
-		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
-		bff = newResetReader(bf, sliceSize)
-	} else {
-		bff = newResetReader(bf, int64(sz))
-	}
-	return getDataAttr(h5, h5, bff, *attr)
+	bf := h5.newRecordReader(obj)
+	logger.Info("about to getdataattr rem=", bf.Rem())
+	return getDataAttr(h5, h5, bf, *obj.objAttr)
 }
 
 func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 2ee6c35..592cb87 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -277,17 +277,17 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	return int(thisLen), err
 }
 
+// layoutReader puts the rows of chunked data together, in row-major order.
 type layoutReader struct {
-	r           remReader
-	obj         *object
-	buf         []byte
-	size        int64
-	count       uint64 // number bytes produced
-	stripeIndex int
+	h5      *HDF5
+	obj     *object
+	blocks  map[uint64][]dataBlock // stored chunks by their first row
+	row     uint64                 // next row
+	lastRow uint64                 // end of the rows to read
+	buf     []byte
 }
 
-// calcChunkSize calculates the size of a chunk
-// Returns 0 if not chunked
+// calcChunkSize calculates the number of elements of a chunk
 func calcChunkSize(attr *attribute) uint64 {
 	chunkSize := uint64(1)
 	for _, v := range attr.layout {
@@ -297,22 +297,11 @@ func calcChunkSize(attr *attribute) uint64 {
 }
 
 // calcAttrSize computes the total size of an object in bytes.
-// If it is chunked, it may be larger than the data size.
 func calcAttrSize(attr *attribute) uint64 {
-	dtLength := uint64(attr.length)
-	if len(attr.layout) == 0 {
-		return calcDataSize(attr) * dtLength // not chunked
-	}
-	totalChunks := uint64(1)
-	for i := range attr.dimensions {
-		gi := (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
-		totalChunks *= gi
-	}
-	chunkSize := calcChunkSize(attr)
-	return totalChunks * chunkSize * dtLength
+	return calcDataSize(attr) * uint64(attr.length)
 }
 
-// calcDataSize computes the size of the data, not counting chunks.
+// calcDataSize computes the number of elements of an object.
 func calcDataSize(attr *attribute) uint64 {
 	dataSize := uint64(1)
 	for _, v := range attr.dimensions {
@@ -321,145 +310,59 @@ func calcDataSize(attr *attribute) uint64 {
 	return dataSize
 }
 
-func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLength uint64) uint64 {
-	rank := len(dims)
-	flatChunkIndex := uint64(0)
-	for i := range rank {
-		gi := offsets[i] / layout[i]
-		gridStride := uint64(1)
-		for k := i + 1; k < rank; k++ {
-			gridStride *= (dims[k] + layout[k] - 1) / layout[k]
-		}
-		flatChunkIndex += gi * gridStride
-	}
-
-	chunkSize := uint64(1)
-	for _, v := range layout {
-		chunkSize *= v
-	}
-
-	return flatChunkIndex * chunkSize * dtLength
-}
-
-func (lr *layoutReader) fillrow() error {
-	attr := lr.obj.objAttr
-	dims := attr.dimensions
-	layout := attr.layout
-	dtLength := uint64(attr.length)
-	rank := len(dims)
-
-	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
-	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
-		}
-	}
-
-	if lr.stripeIndex >= totalStripes {
+// fillrows makes the next rows, those which are in the same chunks.
+func (lr *layoutReader) fillrows() error {
+	if lr.row >= lr.lastRow {
 		return io.EOF
 	}
+	dims := lr.obj.objAttr.dimensions
+	layout := lr.obj.objAttr.layout
+	dtLength := uint64(lr.obj.objAttr.length)
+	rank := len(dims)
 
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
-	}
-
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
-	}
-
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
-
-	for gc := range numChunksInStripe {
-		// Read one chunk
-		_, err := io.ReadFull(lr.r, readBuf)
-		if err != nil {
-			return err
-		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
-		}
-
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
-			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
-			}
-
-			// Check if this row is valid in the dataset
-			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
-					isValid = false
-					break
-				}
+	chunkRow := lr.row - lr.row%layout[0]
+	first := lr.row
+	last := min(chunkRow+layout[0], lr.lastRow)
+	rowSize := calcAttrSize(lr.obj.objAttr) / dims[0]
+	lr.buf = make([]byte, (last-first)*rowSize)
+	blocks := lr.blocks[chunkRow]
+	read(makeFillValueReader(lr.obj, nil, int64(len(lr.buf))), lr.buf)
+	for _, block := range blocks {
+		chunk := lr.h5.readChunk(lr.obj, block)
+		// Copies the part of the chunk which is inside the variable and the rows.
+		// src and dst are in elements, begin and end limit the next dimension.
+		var copyDim func(d int, src, dst uint64)
+		copyDim = func(d int, src, dst uint64) {
+			begin := block.offsets[d]
+			origin := uint64(0)
+			end := dims[d]
+			if d == 0 {
+				begin, origin, end = first, first, last
 			}
-
-			if !isValid {
-				continue
+			end = min(end, block.offsets[d]+layout[d])
+			if begin >= end {
+				return
 			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
+			src = src*layout[d] + begin - block.offsets[d]
+			dst = dst*dims[d] + begin - origin
+			if d == rank-1 {
+				n := (end - begin) * dtLength
+				copy(lr.buf[dst*dtLength:][:n], chunk[src*dtLength:])
+				return
 			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
-				continue
+			for i := range end - begin {
+				copyDim(d+1, src+i, dst+i)
 			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
-			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
 		}
+		copyDim(0, 0, 0)
 	}
-
-	lr.stripeIndex++
+	lr.row = last
 	return nil
 }
 
 func (lr *layoutReader) Read(b []byte) (int, error) {
-	if len(lr.buf) == 0 {
-		err := lr.fillrow()
+	for len(lr.buf) == 0 {
+		err := lr.fillrows()
 		if err != nil {
 			return 0, err
 		}
@@ -467,19 +370,22 @@ func (lr *layoutReader) Read(b []byte) (int, error) {
 
 	n := copy(b, lr.buf)
 	lr.buf = lr.buf[n:]
-	lr.count += uint64(n)
 	return n, nil
 }
 
-func (lr *layoutReader) Rem() int64 {
-	return lr.size - int64(lr.count)
-}
-
-func (lr *layoutReader) Count() int64 {
-	return int64(lr.count)
-}
-
-func newLayoutReader(r remReader, obj *object) io.Reader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+func newLayoutReader(h5 *HDF5, obj *object) io.Reader {
+	attr := obj.objAttr
+	assertError(len(attr.dimensions) == len(attr.layout), ErrDimensionality, "chunks have another rank")
+	lr := &layoutReader{h5: h5, obj: obj, lastRow: attr.dimensions[0]}
+	if attr.isSlice {
+		lr.row, lr.lastRow = uint64(attr.firstDim), uint64(attr.lastDim)
+	}
+	lr.blocks = make(map[uint64][]dataBlock)
+	for _, block := range h5.readChunkIndex(obj, lr.row, lr.lastRow) {
+		for d, offset := range block.offsets {
+			assertError(offset%attr.layout[d] == 0, ErrCorrupted, "bad chunk offset")
+		}
+		lr.blocks[block.offsets[0]] = append(lr.blocks[block.offsets[0]], block)
+	}
+	return lr
 }
diff --git a/netcdf/hdf5/segment.go b/netcdf/hdf5/segment.go
deleted file mode 100644
index 1909fe1..0000000
--- a/netcdf/hdf5/segment.go
+++ /dev/null
@@ -1,49 +0,0 @@
-package hdf5
-
-import (
-	"io"
-	"sort"
-)
-
-// segments are a bunch of discontiguous locations and lengths in
-// file to read data for an object.
-type segment struct {
-	offset uint64
-	length uint64
-	r      io.Reader // reader to use for this segment
-}
-
-// object representing all the segments
-type segments struct {
-	segs []*segment
-}
-
-func newSegments() *segments {
-	return &segments{make([]*segment, 0)}
-}
-
-// Standard sorting functions
-func (s *segments) Len() int {
-	return len(s.segs)
-}
-
-func (s *segments) Swap(i, j int) {
-	s.segs[i], s.segs[j] = s.segs[j], s.segs[i]
-}
-
-func (s *segments) Less(i, j int) bool {
-	return s.segs[i].offset <= s.segs[j].offset
-}
-
-// other methods
-func (s *segments) get(i int) *segment {
-	return s.segs[i]
-}
-
-func (s *segments) sort() {
-	sort.Sort(s)
-}
-
-func (s *segments) append(thisSeg *segment) {
-	s.segs = append(s.segs, thisSeg)
-}
-- 
2.43.0


From 7d092563187d24396a59ed08104e3aec43051aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 19/65] fix: don't change an array type when its values are
 read

---
 netcdf/hdf5/array.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..bd80c68 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -48,16 +48,16 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	logger.Info("orig dimensions=", attr.dimensions)
 	logger.Info("Array length=", attr.length)
 	logger.Info("Array dimensions=", dimensions)
-	arrayAttr := attr.children[0]
+	arrayAttr := *attr.children[0] // a copy, because the type isn't to be changed
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
+	newDimensions := append(append([]uint64{}, dimensions...), arrayAttr.dimensions...)
 	arrayAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, arrayAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
-- 
2.43.0


From 20a46d6ecde544e4749e745b22c2b48a7badbc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 20/65] fix: decode nested, empty, reordered and large
 user-defined HDF5 types, and arrays of strings

---
 netcdf/hdf5/compound.go |  33 +++------
 netcdf/hdf5/enum.go     |   2 +-
 netcdf/hdf5/hdf5.go     |  57 ++------------
 netcdf/hdf5/opaque.go   |   7 +-
 netcdf/hdf5/string.go   |  19 ++++-
 netcdf/hdf5/vlen.go     | 159 +++++++++++++++++++++++++---------------
 6 files changed, 133 insertions(+), 144 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..ec10876 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
@@ -157,36 +157,21 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 	logger.Info(bf.(remReader).Count(), "Alloc compounds", dimLengths, class,
 		"length=", length,
 		"nchildren=", len(attr.children), "rem=", bf.(remReader).Rem())
-	dtlen := uint64(0)
-	for i := range attr.children {
-		clen := uint64(calcAttrSize(attr.children[i]))
-		dtlen += clen
-	}
 	if len(dimLengths) == 0 {
 		rem := bf.(remReader).Rem()
-		if length > rem {
-			logger.Warn("not enough room", length, rem)
-		} else {
-			rem = length
-		}
-		cbf := newResetReader(bf, rem)
+		assert(length <= rem, "not enough room for compound")
+		b := make([]byte, length)
+		read(bf, b)
+		// The members can be at any offset, in any order.
 		varray := make([]compoundField, len(attr.children))
 		for i, c := range attr.children {
-			byteOffset := c.byteOffset
-			clen := uint64(calcAttrSize(c))
-			if int64(byteOffset) > cbf.Count() {
-				skipLen := int64(byteOffset) - cbf.Count()
-				logger.Info("skip to offset", skipLen)
-				skip(cbf, int64(skipLen))
-			}
-			ccbf := newResetReader(cbf, int64(clen))
+			begin := uint64(c.byteOffset)
+			end := begin + calcAttrSize(c)
+			assert(begin <= end && end <= uint64(length), "member is outside of compound")
+			ccbf := newResetReaderFromBytes(b[begin:end])
 			varray[i].Val = getDataAttr(hr, cstr, ccbf, *c)
 			varray[i].Name = c.name
 		}
-		if cbf.Count() < length {
-			rem := length - cbf.Count()
-			skip(cbf, int64(rem))
-		}
 		if cast != nil {
 			fields := make([]reflect.StructField, len(attr.children))
 			for i := range fields {
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..f064c95 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,7 +114,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 39caf4c..bddbe76 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -79,6 +79,8 @@ const (
 	typeReference
 	typeEnumerated
 	typeVariableLength
+	// 10
+	typeArray
 )
 
 // data type names
@@ -323,6 +325,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		low := read16(r)
+		return uint64(read8(r))<<16 | uint64(low)
 	case 4:
 		return uint64(read32(r))
 	case 8:
@@ -3273,58 +3278,6 @@ func (h5 *HDF5) ListVariables() []string {
 	return ret
 }
 
-func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
-}
-
-func undoInterfaces(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	if top.Kind() != reflect.Slice {
-		return top
-	}
-	// Don't recurse into named slice types (e.g. compound, opaque).
-	// These are intentionally distinct from their underlying types
-	// and should not be decomposed.
-	if top.Type().Name() != "" {
-		return top
-	}
-	length := reflect.ValueOf(v).Len()
-	if length == 0 {
-		return emptySlice(v)
-	}
-	underlying := undoInterfaces(top.Index(0).Interface())
-	val := reflect.MakeSlice(reflect.SliceOf(underlying.Type()), length, length)
-	val.Index(0).Set(underlying)
-	for i := 1; i < val.Len(); i++ {
-		underlying = undoInterfaces(top.Index(i).Interface())
-		if !underlying.Type().AssignableTo(val.Type().Elem()) {
-			return top
-		}
-		val.Index(i).Set(underlying)
-	}
-	return val
-}
-
-func convert(v any) any {
-	val := undoInterfaces(v)
-	assert(val.IsValid(), "invalid conversion")
-	return val.Interface()
-}
-
 func (h5 *HDF5) register(typeName string, proto any) {
 	if _, has := h5.GetType(typeName); !has {
 		logger.Warn("no such type", typeName)
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..d57f9e2 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,11 +44,8 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
-	if bf.Rem() == 0 {
-		logger.Info("No properties for opaque")
-		return
-	}
-	plen := int(bf.Rem())
+	plen := int(bitFields & 0xff)
+	assert(int64(plen) <= bf.Rem(), "opaque tag is too long")
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..d92fd98 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -40,7 +40,17 @@ func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		logger.Infof("no data")
 		return
 	}
-	b := make([]byte, df.Rem())
+	size := calcAttrSize(attr)
+	if df.Rem() < int64(size) {
+		logger.Infof("short data: %d vs. %d", df.Rem(), size)
+		return
+	}
+	isArray := len(attr.dimensions) > 0 && attr.length != 1
+	if isArray || len(attr.dimensions) > 1 {
+		attr.df = newResetReaderSave(df, df.Rem())
+		return
+	}
+	b := make([]byte, size)
 	read(df, b)
 	logger.Infof("* string padding=%d set=%d b[%s]=%s", padding, set,
 		attr.name, getString(b))
@@ -74,7 +84,12 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		return values
 	}
 	ty := reflect.TypeOf("")
-	vals := makeSlices(ty, dimLengths)
+	sliceDims := dimLengths
+	if dtlen == 1 {
+		// The last dimension is the length of the strings.
+		sliceDims = dimLengths[:len(dimLengths)-1]
+	}
+	vals := makeSlices(ty, sliceDims)
 	for i := uint64(0); i < thisDim; i++ {
 		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
 	}
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..22c28ca 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
+	"github.com/batchatco/go-thrower"
 )
 
 type vlenManagerType struct{}
@@ -52,10 +53,9 @@ func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 		"proplen=", bf.Rem())
 	// checkVal(1, dtversion, "Only support version 1 of variable-length")
 	vtType := uint8(bitFields & 0b1111)
+	// The padding doesn't have anything to do with reading data, just
+	// writing.  So we accept all of them.
 	vtPad := uint8(bitFields>>4) & 0b1111
-	// The value of pad here may not have anything to do with reading data, just
-	// writing.  So we could accept all of them
-	assert(vtPad == 0 || vtPad == 1, "only do v0 and v1 versions of VL padding")
 	vtCset := (bitFields >> 8) & 0b1111
 	logger.Infof("type=%d paddingtype=%d cset=%d", vtType, vtPad, vtCset)
 	switch vtType {
@@ -106,12 +106,13 @@ func (vlenManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attrib
 	logger.Info("variable-length type", typeNames[int(attr.children[0].class)])
 	logger.Info("dimensions=", dimensions, "rem=", bf.(remReader).Rem())
 	cast := c.cast(*attr)
-	values := allocVariable(hr, c, bf, dimensions, *attr.children[0], cast)
-	logger.Infof("vl kind %T", values)
-	if cast != nil {
-		return values
+	sliceType := cast
+	if sliceType == nil {
+		sliceType = reflect.SliceOf(goType(c, attr.children[0], attr.children[0].dimensions))
 	}
-	return convert(values)
+	values := allocVariable(hr, c, bf, dimensions, *attr.children[0], sliceType)
+	logger.Infof("vl kind %T", values)
+	return values
 }
 
 func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
@@ -168,8 +169,10 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 	return vals.Interface()
 }
 
+// allocVariable reads references to sequences, each of which becomes a slice of the
+// given type.
 func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, attr attribute,
-	cast reflect.Type) any {
+	sliceType reflect.Type) any {
 	logger.Info("allocVariable", dimLengths, "count=", bf.(remReader).Count(),
 		"rem=", bf.(remReader).Rem())
 	if len(dimLengths) == 0 {
@@ -181,65 +184,101 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		util.MustReadLE(bf, &index)
 		logger.Infof("length %d(0x%x) addr 0x%x index %d(0x%x)\n",
 			length, length, addr, index, index)
-		var val0 any
-		var s []byte
-		var bff remReader
 		if length == 0 {
-			// If there's no value to read, we fake one to get the type.
-			attr.dimensions = nil
-			s = make([]byte, attr.length)
-			bff = newResetReaderFromBytes(s)
-		} else {
-			bff, _ = hr.readGlobalHeap(addr, index)
+			return reflect.MakeSlice(sliceType, 0, 0).Interface()
 		}
-		var t reflect.Type
-		val0 = getDataAttr(hr, c, bff, attr)
-		if cast != nil {
-			t = cast.Elem()
-		} else {
-			t = reflect.ValueOf(val0).Type()
-		}
-		sl := reflect.MakeSlice(reflect.SliceOf(t), int(length), int(length))
-		if cast != nil {
-			sl = sl.Convert(cast)
-		}
-		if length > 0 {
-			sl.Index(0).Set(reflect.ValueOf(val0))
-			for i := 1; i < int(length); i++ {
-				val := getDataAttr(hr, c, bff, attr)
-				sl.Index(i).Set(reflect.ValueOf(val))
-			}
+		bff, size := hr.readGlobalHeap(addr, index)
+		assert(uint64(length)*calcAttrSize(&attr) <= size, "sequence is longer than its data")
+		sl := reflect.MakeSlice(sliceType, int(length), int(length))
+		for i := range int(length) {
+			sl.Index(i).Set(reflect.ValueOf(getDataAttr(hr, c, bff, attr)))
 		}
 		return sl.Interface()
 	}
-	thisDim := dimLengths[0]
-	if len(dimLengths) == 1 {
-		// For scalars, this can be faster using binary.Read
-		vals := make([]any, thisDim)
-		for i := range thisDim {
-			logger.Info("Alloc inner", i, "of", thisDim)
-			vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
+	vals := makeSlices(sliceType, dimLengths)
+	for i := range int(dimLengths[0]) {
+		vals.Index(i).Set(reflect.ValueOf(allocVariable(hr, c, bf, dimLengths[1:], attr, sliceType)))
+	}
+	return vals.Interface()
+}
+
+// goType is the type of what getDataAttr returns for the type and dimensions.
+func goType(c caster, attr *attribute, dimensions []uint64) reflect.Type {
+	var ty reflect.Type
+	switch attr.class {
+	case typeArray:
+		child := attr.children[0]
+		return goType(c, child, append(append([]uint64{}, dimensions...), child.dimensions...))
+	case typeEnumerated:
+		ty = c.cast(*attr.children[0])
+		if ty == nil {
+			return reflect.TypeOf(enumerated{})
+		}
+	case typeFixedPoint:
+		ty = fixedPointType(attr)
+	case typeFloatingPoint:
+		ty = reflect.TypeOf(float64(0))
+		if attr.length == 4 {
+			ty = reflect.TypeOf(float32(0))
 		}
-		assert(vals[0] != nil, "we never return nil")
-		t := reflect.ValueOf(vals[0]).Type()
-		vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
-		for i := range int(thisDim) {
-			vals2.Index(i).Set(reflect.ValueOf(vals[i]))
+	case typeString:
+		ty = reflect.TypeOf("")
+		if attr.length == 1 && len(dimensions) > 0 {
+			dimensions = dimensions[1:] // an array of characters is a string
 		}
-		return vals2.Interface()
+	case typeOpaque:
+		if ty = c.cast(*attr); ty == nil {
+			ty = reflect.TypeOf(opaque{})
+		}
+	case typeCompound:
+		if ty = c.cast(*attr); ty == nil {
+			ty = reflect.TypeOf(compound{})
+		}
+	case typeVariableLength:
+		if attr.vtType == 1 {
+			ty = reflect.TypeOf("")
+			break
+		}
+		if ty = c.cast(*attr); ty == nil {
+			child := attr.children[0]
+			ty = reflect.SliceOf(goType(c, child, child.dimensions))
+		}
+	case typeReference:
+		ty = reflect.TypeOf(uint64(0))
+	default:
+		thrower.Throw(ErrUnsupportedDataTypeVersion)
 	}
-
-	// TODO: we sometimes know the type (float32) and can do something smarter here
-
-	vals := make([]any, thisDim)
-	for i := range thisDim {
-		logger.Info("Alloc outer", i, "of", thisDim)
-		vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
+	for range dimensions {
+		ty = reflect.SliceOf(ty)
 	}
-	t := reflect.ValueOf(vals[0]).Type()
-	vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
-	for i := range int(thisDim) {
-		vals2.Index(i).Set(reflect.ValueOf(vals[i]))
+	return ty
+}
+
+func fixedPointType(attr *attribute) reflect.Type {
+	var v any
+	switch attr.length {
+	case 1:
+		v = int8(0)
+		if !attr.signed {
+			v = uint8(0)
+		}
+	case 2:
+		v = int16(0)
+		if !attr.signed {
+			v = uint16(0)
+		}
+	case 4:
+		v = int32(0)
+		if !attr.signed {
+			v = uint32(0)
+		}
+	case 8:
+		v = int64(0)
+		if !attr.signed {
+			v = uint64(0)
+		}
+	default:
+		thrower.Throw(ErrFixedPoint)
 	}
-	return vals2.Interface()
+	return reflect.TypeOf(v)
 }
-- 
2.43.0


From 016785c6c31afff632e4d0e9cba4aa120157f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 21/65] fix: refuse slices outside an HDF5 variable, and slice
 scalars, enumerations and texts in every dimension

---
 internal/slicer.go  |  7 ++++---
 netcdf/hdf5/hdf5.go | 20 +++++++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index cfc0e91..c6ec8e6 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -104,9 +104,10 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
-	// The last dimension of characters is in the strings
-	if v.Kind() == reflect.String && len(dims) == 1 && uint64(v.Len()) == dims[0] {
-		return v.Slice(int(begin[0]), int(end[0]))
+	// The last dimension of characters is in the strings, which can be shorter
+	// than it because they end at the first NUL.
+	if v.Kind() == reflect.String && len(dims) == 1 {
+		return v.Slice(min(int(begin[0]), v.Len()), min(int(end[0]), v.Len()))
 	}
 	// For scalars or base types at the end of recursion
 	return v
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index bddbe76..8d18234 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3151,13 +3151,16 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			}
 			return data, nil
 		}
-		if end < begin {
+		if fakeEnd || begin < 0 || end < begin || end > d {
 			return nil, errors.New("invalid slice parameters")
 		}
+		// The object is shared, so its type must be copied, too.
 		fakeObj := *found
-		fakeObj.objAttr.isSlice = true
-		fakeObj.objAttr.firstDim = begin
-		fakeObj.objAttr.lastDim = end
+		fakeAttr := *found.objAttr
+		fakeObj.objAttr = &fakeAttr
+		fakeAttr.isSlice = true
+		fakeAttr.firstDim = begin
+		fakeAttr.lastDim = end
 		data := h5.getData(&fakeObj)
 		if data == nil {
 			return nil, ErrNotFound
@@ -3169,10 +3172,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, ErrDimensionality
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || uint64(end[i]) > found.objAttr.dimensions[i] {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(begin) == 0 {
+			return getSlice(0, 1) // a scalar
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
@@ -3190,6 +3196,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if enum, has := partialData.(enumerated); has {
+			enum.values, err = internal.SliceMD(enum.values, newDims, newBegin, newEnd)
+			return enum, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
-- 
2.43.0


From 8427430ad02dd20632b8cec21e430a1c51aeb2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 22/65] fix: keep the fill value in step with the elements when
 a CDF file ends inside one

---
 netcdf/cdf/cdf.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2effc4d..149d766 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1304,5 +1304,29 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	default:
 		thrower.Throw(ErrInternal)
 	}
-	return io.MultiReader(bf, internal.NewFillValueReader(fillValue))
+	return &storedReader{bf: bf, fillValue: fillValue}
+}
+
+// storedReader reads what is stored, and fill values for what isn't. If the last
+// stored element isn't complete, its rest comes from the fill value's rest.
+type storedReader struct {
+	bf        io.Reader // nil after its end
+	fillValue []byte
+	pos       int // position in the current element
+}
+
+func (sr *storedReader) Read(p []byte) (n int, err error) {
+	if sr.bf != nil {
+		n, err = sr.bf.Read(p)
+		if err == io.EOF {
+			sr.bf = nil
+			err = nil
+		}
+	} else {
+		for n < len(p) {
+			n += copy(p[n:], sr.fillValue[(sr.pos+n)%len(sr.fillValue):])
+		}
+	}
+	sr.pos = (sr.pos + n) % len(sr.fillValue)
+	return n, err
 }
-- 
2.43.0


From acfc194f7e3c4eed4215b22ebf0d710d11dfb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 23/65] fix: read empty floating-point attributes of HDF5 files

---
 netcdf/hdf5/floatingPoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..4ecf1d3 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -147,7 +147,7 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		return
 	}
 	logger.Info("data len", df.Rem())
-	assert(df.Rem() >= int64(attr.length), "floating-point data short")
+	assert(df.Rem() >= int64(calcAttrSize(attr)), "floating-point data short")
 	attr.df = newResetReaderSave(df, df.Rem())
 }
 
-- 
2.43.0


From c358ff3a0b5621397b0fbb214cf3f246c864a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 24/65] fix: show netCDF-4 variables that are named like a
 dimension under their own names

---
 netcdf/hdf5/hdf5.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 8d18234..6e5d5c8 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2740,20 +2740,30 @@ func (k objectKind) isDimensionScale() bool {
 	return k.hasClass && !k.hasCoordinates && !k.hasName
 }
 
+// nonCoordPrefix is put before the names of variables that are named like a
+// dimension in the same group without being its coordinate variable.
+const nonCoordPrefix = "_nc4_non_coord_"
+
 func (h5 *HDF5) findVariable(varName string) *object {
-	obj, has := h5.groupObject.children[varName]
-	if !has {
-		return nil
+	for _, name := range []string{nonCoordPrefix + varName, varName} {
+		obj, has := h5.groupObject.children[name]
+		if has && isVariable(obj) {
+			logger.Info("Found variable", varName, "group", h5.groupName, "child=", obj.name)
+			return obj
+		}
 	}
-	logger.Info("Found variable", varName, "group", h5.groupName, "child=", obj.name)
+	return nil
+}
+
+func isVariable(obj *object) bool {
 	if classifyObject(obj.attrlist).isDimensionScale() {
-		return nil
+		return false
 	}
 	if obj.objAttr.dimensions == nil {
 		logger.Infof("variable %s datatype only", obj.name)
-		return nil
+		return false
 	}
-	return obj
+	return true
 }
 
 func (h5 *HDF5) findGlobalAttrType(attrName string) string {
@@ -3275,9 +3285,9 @@ func (h5 *HDF5) ListVariables() []string {
 		children := obj.sortChildren()
 		for _, o := range children {
 			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
+				if isVariable(o) {
 					logger.Info("append", o.name)
-					ret = append(ret, o.name)
+					ret = append(ret, strings.TrimPrefix(o.name, nonCoordPrefix))
 				}
 				continue
 			}
-- 
2.43.0


From 7d01019e01d311621c8b094244dae0c12ca6c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 25/65] fix: refuse what an HDF5 file can't hold when it is
 added, and write heaps, dimensions and long names correctly

---
 netcdf/hdf5/hdf5writer.go   | 805 ++++++++++++++++++++++--------------
 netcdf/hdf5/writer_utils.go |  25 +-
 2 files changed, 496 insertions(+), 334 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..1f5c5e5 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"reflect"
 	"slices"
+	"strings"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -17,6 +18,18 @@ import (
 
 var (
 	ErrInvalidName = errors.New("invalid name")
+
+	// ErrDuplicateName is returned when a name is already in use in the group
+	ErrDuplicateName = errors.New("name is already in use")
+
+	// ErrDimensionSize is returned when the values don't have the lengths of the dimensions
+	ErrDimensionSize = errors.New("dimension doesn't match size")
+
+	// ErrTooLarge is returned for attributes and types that don't fit in an object header
+	ErrTooLarge = errors.New("too large for an object header")
+
+	// ErrWriterClosed is returned when a writer is used after it has been closed
+	ErrWriterClosed = errors.New("writer is closed")
 )
 
 type h5Var struct {
@@ -24,6 +37,9 @@ type h5Var struct {
 	val             any
 	dimensions      []string
 	attributes      api.AttributeMap
+	rank            int      // array dimensions of the values, what is below is vlen
+	shape           []uint64 // extents, which are unknownExtent inside of empty slices
+	chars           bool     // the last dimension is the length of the strings
 	addr            uint64
 	isDimScale      bool
 	vlenHeapIndices []uint32            // heap indices for vlen elements
@@ -39,10 +55,17 @@ type h5Group struct {
 	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
 }
 
+// h5HeapRef is the location of an object in the global heap.
+type h5HeapRef struct {
+	addr  uint64 // of the collection
+	index uint32
+}
+
 type h5GlobalHeap struct {
-	addr    uint64
-	objects [][]byte
-	indices map[string]uint32
+	objects [][]byte          // not written yet
+	refs    []h5HeapRef       // where the written objects are
+	strings map[string]uint32 // object number of a string, from 1
+	dims    map[string]uint32 // object number of a reference to a dimension
 }
 
 type h5Message struct {
@@ -57,6 +80,7 @@ type HDF5Writer struct {
 	root            *h5Group
 	heap            *h5GlobalHeap
 	closed          bool
+	dimSizes        map[string]uint64 // dimension name → extent, unknownExtent if not known yet
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
@@ -78,19 +102,19 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	// 2. Collect and write strings, and then the vlen data, which may refer to them.
+	hw.heap = &h5GlobalHeap{strings: make(map[string]uint32), dims: make(map[string]uint32)}
 	hw.collectStrings(hw.root)
+	hw.writeGlobalHeap()
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
+	hw.writeGlobalHeap()
+
+	// 3. Write dimension scale variable data and OHs, so we know their
+	//    addresses for DIMENSION_LIST references, and then the references.
+	hw.writeDimScaleContents(hw.root)
 	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
-	}
+	hw.writeGlobalHeap()
 
 	// 4. Write data variables and subgroups
 	hw.writeGroupContents(hw.root)
@@ -154,17 +178,12 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			if v.isDimScale {
 				continue
 			}
-			shape := hw.getDimensions(v.val)
-			for i, dname := range v.dimensions {
+			for _, dname := range v.dimensions {
 				if dname == "" || seen[dname] {
 					continue
 				}
 				seen[dname] = true
-				var size uint64
-				if i < len(shape) {
-					size = shape[i]
-				}
-				dims = append(dims, dimInfo{dname, size})
+				dims = append(dims, dimInfo{dname, hw.dimSize(dname)})
 			}
 		}
 		var groupNames []string
@@ -183,7 +202,14 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 	// (a "coordinate variable"), promote it to a dimension scale by
 	// adding the required attributes. Otherwise create a synthetic one.
 	for i, d := range dims {
-		if existing, ok := g.vars[d.name]; ok && !existing.isDimScale {
+		existing, ok := g.vars[d.name]
+		if ok && !(len(existing.dimensions) == 1 && existing.dimensions[0] == d.name) {
+			// Not a coordinate variable: it can't have the dimension's name.
+			delete(g.vars, d.name)
+			g.vars[nonCoordPrefix+d.name] = existing
+			ok = false
+		}
+		if ok && !existing.isDimScale {
 			// Promote existing coordinate variable to dimension scale
 			existing.isDimScale = true
 			// Prepend CLASS, NAME, _Netcdf4Dimid to existing attributes
@@ -216,6 +242,8 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			g.vars[d.name] = &h5Var{
 				name:       d.name,
 				val:        make([]int8, d.size),
+				rank:       1,
+				shape:      []uint64{d.size},
 				dimensions: []string{d.name},
 				attributes: dimAttrs,
 				isDimScale: true,
@@ -260,7 +288,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
+			if _, ok := hw.heap.dims[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -270,8 +298,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			// Store the 8-byte object reference in the global heap
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			hw.heap.dims[dname] = hw.heap.add(ref)
 		}
 	}
 	for _, sub := range g.groups {
@@ -379,13 +406,13 @@ func (hw *HDF5Writer) writeSuperblockV2() {
 }
 
 func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize uint64) {
-	nDims := len(v.dimensions)
-	dtMsg := hw.buildDatatypeMessage(v.val, nDims)
-	rv := reflect.ValueOf(v.val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+	var dtMsg []byte
+	if v.chars {
+		dtMsg = buildStringDatatype(1)
+	} else {
+		dtMsg = hw.buildDatatypeMessage(v.val, v.rank)
 	}
-	dsMsg := buildDataspaceMessage(getDimensionsLimited(rv, nDims))
+	dsMsg := buildDataspaceMessage(hw.extents(v))
 	layoutMsg := hw.buildLayoutMessageV2(dataAddr, dataSize)
 
 	messages := []h5Message{
@@ -430,8 +457,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) < 256 {
+		util.MustWriteByte(buf, 0) // flags
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 1) // flags: 2-byte length
+		util.MustWriteLE(buf, uint16(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
@@ -506,9 +538,13 @@ func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
 	hw.vlenHeapIndices = v.vlenHeapIndices
 	hw.vlenPos = 0
 
-	nDims := len(v.dimensions)
 	start := hw.buf.Len()
-	hw.writeDataRecursive(rv, fixedLen, nDims)
+	if v.chars {
+		extents := hw.extents(v)
+		hw.writeChars(rv, int(extents[len(extents)-1]))
+	} else {
+		hw.writeDataRecursive(rv, fixedLen, v.rank)
+	}
 	dataSize := uint64(hw.buf.Len() - start)
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
@@ -516,6 +552,19 @@ func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
 	return dataSize
 }
 
+// writeChars writes strings that are padded to the length of a dimension.
+func (hw *HDF5Writer) writeChars(rv reflect.Value, length int) {
+	if rv.Kind() == reflect.String {
+		b := make([]byte, length)
+		copy(b, rv.String())
+		util.MustWriteRaw(hw.buf, b)
+		return
+	}
+	for i := range rv.Len() {
+		hw.writeChars(rv.Index(i), length)
+	}
+}
+
 func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRemaining int) {
 	// Handle special types before general slice processing
 	switch v := rv.Interface().(type) {
@@ -533,10 +582,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen data: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.heap.writeRef(hw.buf, rv.Len(), hw.vlenHeapIndices[hw.vlenPos])
 			hw.vlenPos++
 			return
 		}
@@ -556,10 +602,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 		} else {
 			// VLen string
 			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.heap.writeRef(hw.buf, len(str), hw.heap.strings[str])
 		}
 		return
 	}
@@ -593,7 +636,9 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
 	for _, v := range g.vars {
-		hw.collectStringsRecursive(reflect.ValueOf(v.val))
+		if !v.chars {
+			hw.collectStringsRecursive(reflect.ValueOf(v.val))
+		}
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
@@ -674,97 +719,36 @@ func (hw *HDF5Writer) collectStringsActual(rv reflect.Value) {
 }
 
 func (hw *HDF5Writer) addStringToHeap(s string) {
-	if _, ok := hw.heap.indices[s]; !ok {
-		hw.heap.objects = append(hw.heap.objects, []byte(s))
-		hw.heap.indices[s] = uint32(len(hw.heap.objects))
+	if _, ok := hw.heap.strings[s]; !ok {
+		hw.heap.strings[s] = hw.heap.add([]byte(s))
 	}
 }
 
+// add adds an object to the heap and returns its number.
+func (gh *h5GlobalHeap) add(obj []byte) uint32 {
+	gh.objects = append(gh.objects, obj)
+	return uint32(len(gh.refs) + len(gh.objects))
+}
+
+// writeRef writes the descriptor of a heap object of n elements.
+func (gh *h5GlobalHeap) writeRef(buf *bytes.Buffer, n int, number uint32) {
+	ref := gh.refs[number-1]
+	util.MustWriteLE(buf, uint32(n))
+	util.MustWriteLE(buf, ref.addr)
+	util.MustWriteLE(buf, ref.index)
+}
+
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 	for _, v := range g.vars {
-		nDims := len(v.dimensions)
-		rv := reflect.ValueOf(v.val)
-		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-			rv = rv.Elem()
-		}
-		// Check if this variable has vlen data (more nesting than declared dims)
-		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
-		}
+		v.vlenHeapIndices = nil
+		hw.collectVlen(reflect.ValueOf(v.val), v.rank, &v.vlenHeapIndices)
 	}
 	for _, sub := range g.groups {
 		hw.collectVlenData(sub)
 	}
 }
 
-// hasVlenData checks if a value has more nesting levels than nDims,
-// meaning it contains vlen data.
-func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return hw.hasVlenData(reflect.ValueOf(e.values), nDims)
-	}
-	for range nDims {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			return false
-		}
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return false
-		}
-		if rv.Len() == 0 {
-			// Check type: if element type is still a slice, it's vlen
-			elemType := rv.Type().Elem()
-			return elemType.Kind() == reflect.Slice &&
-				elemType != reflect.TypeOf(compound{}) &&
-				elemType != reflect.TypeOf(opaque{})
-		}
-		rv = rv.Index(0)
-	}
-	// After consuming nDims, check if there's still a slice (= vlen)
-	if rv.Kind() == reflect.Slice && rv.Type() != reflect.TypeOf(compound{}) && rv.Type() != reflect.TypeOf(opaque{}) {
-		return true
-	}
-	// Also check within compound fields
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				return true
-			}
-		}
-	}
-	return false
-}
-
-// collectVlenElements walks through the array dimensions and serializes
-// each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
-	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
-		return
-	}
-	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
-		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
-		}
-		return
-	}
-	// At the vlen level: serialize this element's data
-	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
-		}
-	}
-}
-
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
@@ -773,7 +757,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
 				var indices []uint32
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+				_, nDims := hw.getAttributeDimensions(val)
+				hw.collectVlen(reflect.ValueOf(val), nDims, &indices)
 				if len(indices) > 0 {
 					if v.attrVlenIndices == nil {
 						v.attrVlenIndices = make(map[string][]uint32)
@@ -787,7 +772,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
 			var indices []uint32
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+			_, nDims := hw.getAttributeDimensions(val)
+			hw.collectVlen(reflect.ValueOf(val), nDims, &indices)
 			if len(indices) > 0 {
 				if g.attrVlenIndices == nil {
 					g.attrVlenIndices = make(map[string][]uint32)
@@ -801,9 +787,9 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	}
 }
 
-// collectVlenFromValue recursively walks a value and serializes any vlen
-// elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
+// collectVlen walks a value with nDims array dimensions and serializes the
+// slices found below them (in compounds also) to the global heap.
+func (hw *HDF5Writer) collectVlen(rv reflect.Value, nDims int, indices *[]uint32) {
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
@@ -811,50 +797,26 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32)
 	switch v := rv.Interface().(type) {
 	case compound:
 		for _, f := range v {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice &&
-				frv.Type() != reflect.TypeOf(compound{}) &&
-				frv.Type() != reflect.TypeOf(opaque{}) {
-				// Vlen field in compound: serialize it
-				hw.serializeVlenToHeap(frv, indices)
-			} else {
-				hw.collectVlenFromValue(frv, indices)
-			}
+			hw.collectVlen(reflect.ValueOf(f.Val), 0, indices)
 		}
 		return
 	case opaque:
 		return
 	case enumerated:
-		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
+		hw.collectVlen(reflect.ValueOf(v.values), nDims, indices)
 		return
 	}
 
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return
+		if hw.shouldUseVLen(rv) {
+			return // the strings are in the heap
 		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
-				}
-				return
-			}
+		if nDims == 0 {
+			hw.serializeVlenToHeap(rv, indices)
+			return
 		}
-		// Regular array: recurse into elements
 		for i := range rv.Len() {
-			hw.collectVlenFromValue(rv.Index(i), indices)
+			hw.collectVlen(rv.Index(i), nDims-1, indices)
 		}
 	}
 }
@@ -875,13 +837,11 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	*indices = append(*indices, hw.heap.add(buf.Bytes()))
 }
 
-// getAttributeDimensions returns the array dimensions and effective nDims
-// for an attribute value, detecting vlen (varying inner lengths) and stopping.
+// getAttributeDimensions returns the array dimensions of an attribute value.
+// Attributes have at most one in netCDF, so what is below is vlen.
 func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	rv := reflect.ValueOf(val)
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
@@ -890,66 +850,29 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	if e, ok := rv.Interface().(enumerated); ok {
 		return hw.getAttributeDimensions(e.values)
 	}
-	var dims []uint64
-	nDims := 0
-	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			break
-		}
-		dims = append(dims, uint64(rv.Len()))
-		nDims++
-		if rv.Len() == 0 {
-			break
-		}
-		// Check if inner elements have varying lengths (= vlen boundary)
-		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
-			firstLen := rv.Index(0).Len()
-			isVlen := false
-			for i := 1; i < rv.Len(); i++ {
-				if rv.Index(i).Len() != firstLen {
-					isVlen = true
-					break
-				}
-			}
-			if isVlen {
-				break
-			}
-		}
-		rv = rv.Index(0)
+	if sliceDepth(rv.Type()) == 0 {
+		return nil, 0
 	}
-	return dims, nDims
+	return []uint64{uint64(rv.Len())}, 1
 }
 
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
+// writeGlobalHeap writes the objects that have not been written yet.
+func (hw *HDF5Writer) writeGlobalHeap() {
+	const maxObjects = 65535 // an object's index in its collection has 16 bits
+	for len(hw.heap.objects) > 0 {
+		n := min(len(hw.heap.objects), maxObjects)
+		hw.writeHeapCollection(hw.heap.objects[:n])
+		hw.heap.objects = hw.heap.objects[n:]
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
 }
 
-func (hw *HDF5Writer) writeGlobalHeap() {
-	gh := hw.heap
-
+func (hw *HDF5Writer) writeHeapCollection(objects [][]byte) {
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
 	}
-	gh.addr = uint64(hw.buf.Len())
+	addr := uint64(hw.buf.Len())
 
 	// Collection Header
 	util.MustWriteRaw(hw.buf, []byte("GCOL"))
@@ -959,7 +882,8 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	sizeAddr := hw.buf.Len()
 	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
 
-	for i, obj := range gh.objects {
+	for i, obj := range objects {
+		hw.heap.refs = append(hw.heap.refs, h5HeapRef{addr, uint32(i + 1)})
 		util.MustWriteLE(hw.buf, uint16(i+1)) // index
 		util.MustWriteLE(hw.buf, uint16(0))   // ref count
 		util.MustWriteLE(hw.buf, uint32(0))   // reserved
@@ -977,7 +901,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	// header — it represents the total remaining bytes from the start of
 	// the entry to the end of the collection.
 	const minGCOLSize = 4096
-	currentSize := hw.buf.Len() - int(gh.addr)
+	currentSize := hw.buf.Len() - int(addr)
 	totalSize := currentSize + 16 // at least room for the free space header
 	if totalSize < minGCOLSize {
 		totalSize = minGCOLSize
@@ -992,19 +916,11 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	}
 
 	// Final size
-	finalSize := uint64(hw.buf.Len()) - gh.addr
+	finalSize := uint64(hw.buf.Len()) - addr
 	data := hw.buf.Bytes()
 	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
 }
 
-func (hw *HDF5Writer) getDimensions(val any) []uint64 {
-	rv := reflect.ValueOf(val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	return getDimensionsRecursive(rv)
-}
-
 func getDimensionsRecursive(rv reflect.Value) []uint64 {
 	// Unwrap enumerated to its inner values
 	if e, ok := rv.Interface().(enumerated); ok {
@@ -1025,156 +941,410 @@ func getDimensionsRecursive(rv reflect.Value) []uint64 {
 	return nil
 }
 
-// getDimensionsLimited returns dimensions up to maxDepth levels deep.
-// For vlen variables, the array nesting exceeds the declared dimensions;
-// this function stops after maxDepth levels so the excess nesting can be
-// identified as vlen data.
-func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return getDimensionsLimited(reflect.ValueOf(e.values), maxDepth)
+// unknownExtent is the extent of a dimension whose slices are inside of an empty one.
+const unknownExtent = ^uint64(0)
+
+// sliceDepth returns the number of slice levels above the elements.
+func sliceDepth(t reflect.Type) int {
+	n := 0
+	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
+		if t == reflect.TypeOf(compound{}) || t == reflect.TypeOf(opaque{}) {
+			break
+		}
+		t = t.Elem()
+		n++
 	}
-	if maxDepth <= 0 {
+	return n
+}
+
+// setExtents sets the extents of the outer levels of the slices, which must
+// have the same lengths everywhere.
+func setExtents(rv reflect.Value, shape []uint64) error {
+	if len(shape) == 0 {
 		return nil
 	}
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return nil
-		}
-		dims := []uint64{uint64(rv.Len())}
-		if rv.Len() > 0 {
-			inner := getDimensionsLimited(rv.Index(0), maxDepth-1)
-			dims = append(dims, inner...)
+	n := uint64(rv.Len())
+	if shape[0] != unknownExtent && shape[0] != n {
+		return ErrDimensionSize
+	}
+	shape[0] = n
+	for i := range rv.Len() {
+		if err := setExtents(rv.Index(i), shape[1:]); err != nil {
+			return err
 		}
-		return dims
 	}
 	return nil
 }
 
-func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+// dimSize returns the extent of a dimension.
+func (hw *HDF5Writer) dimSize(name string) uint64 {
+	if n, has := hw.dimSizes[name]; has && n != unknownExtent {
+		return n
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	return 0
+}
+
+// extents returns the extents of a variable.
+func (hw *HDF5Writer) extents(v *h5Var) []uint64 {
+	extents := slices.Clone(v.shape)
+	for i := range extents {
+		if i < len(v.dimensions) && v.dimensions[i] != "" {
+			extents[i] = hw.dimSize(v.dimensions[i])
+		} else if extents[i] == unknownExtent {
+			extents[i] = 0
 		}
 	}
-	hw.root.attributes = attrs
-	return nil
+	return extents
 }
 
-func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
+// setLayout decides how the values of the variable are stored.
+func (hw *HDF5Writer) setLayout(v *h5Var) error {
+	rv := reflect.ValueOf(v.val)
+	isEnum := false
+	if e, ok := v.val.(enumerated); ok {
+		rv = reflect.ValueOf(e.values)
+		isEnum = true
+	}
+	depth := sliceDepth(rv.Type())
+	leaf := rv.Type()
+	for range depth {
+		leaf = leaf.Elem()
+	}
+	v.rank = len(v.dimensions)
+	switch {
+	case leaf.Kind() == reflect.String && v.rank == depth+1:
+		v.chars = true
+		v.rank = depth
+	case leaf.Kind() == reflect.String && v.rank == 0:
+		v.rank = depth // strings are never vlen, the dimensions have no names
+	case v.rank > depth:
+		return ErrDimensionSize
+	}
+	v.shape = make([]uint64, v.rank)
+	for i := range v.shape {
+		v.shape[i] = unknownExtent
+	}
+	if err := setExtents(rv, v.shape); err != nil {
+		return err
 	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
+	if v.chars {
+		maxLen := 0
+		findMaxLen(rv, &maxLen)
+		name := v.dimensions[v.rank]
+		length := uint64(maxLen)
+		if n, has := hw.dimSizes[name]; has && n != unknownExtent && n > length {
+			length = n
+		}
+		v.shape = append(v.shape, length)
+		return nil
 	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+	if depth > v.rank+1 || depth > v.rank && isEnum {
+		return fmt.Errorf("%w: %T", ErrUnsupportedType, v.val)
+	}
+	return checkElements(rv, depth > v.rank)
+}
+
+// checkElements checks that the elements can be stored: they have one type,
+// and there are no vlens in vlens.
+func checkElements(rv reflect.Value, inVlen bool) error {
+	leaf := rv.Type()
+	for range sliceDepth(leaf) {
+		leaf = leaf.Elem()
+	}
+	switch leaf {
+	case reflect.TypeOf(compound{}), reflect.TypeOf(opaque{}):
+	case reflect.TypeOf(enumerated{}):
+		return fmt.Errorf("%w: %v", ErrUnsupportedType, rv.Type())
+	default:
+		if inVlen && leaf.Kind() == reflect.String {
+			return fmt.Errorf("%w: %v", ErrUnsupportedType, rv.Type())
+		}
+		return nil
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+	var first any // decides the type
+	var check func(rv reflect.Value) error
+	check = func(rv reflect.Value) error {
+		if sliceDepth(rv.Type()) > 0 {
+			for i := range rv.Len() {
+				if err := check(rv.Index(i)); err != nil {
+					return err
+				}
 			}
+			return nil
+		}
+		val := rv.Interface()
+		if first == nil {
+			first = val
+		}
+		if !sameType(first, val) {
+			return fmt.Errorf("%w: mixed types", ErrUnsupportedType)
 		}
+		if c, ok := val.(compound); ok {
+			return checkFields(c, inVlen)
+		}
+		return nil
 	}
-	hw.root.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
+	if err := check(rv); err != nil {
+		return err
+	}
+	if first == nil {
+		return fmt.Errorf("%w: no elements to tell the type", ErrUnsupportedType)
 	}
 	return nil
 }
 
-func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
+func checkFields(c compound, inVlen bool) error {
+	for _, f := range c {
+		switch val := f.Val.(type) {
+		case compound:
+			if err := checkFields(val, inVlen); err != nil {
+				return err
+			}
+			continue
+		case opaque, string:
+			continue
+		case enumerated:
+			if sliceDepth(reflect.TypeOf(val.values)) > 0 {
+				return fmt.Errorf("%w: enumerations in a field", ErrUnsupportedType)
+			}
+			continue
+		}
+		depth := sliceDepth(reflect.TypeOf(f.Val))
+		if depth > 1 || depth > 0 && inVlen {
+			return fmt.Errorf("%w: %T in a field", ErrUnsupportedType, f.Val)
+		}
+		if depth > 0 {
+			if err := checkElements(reflect.ValueOf(f.Val), true); err != nil {
+				return err
+			}
+		}
 	}
-	if g, ok := hw.root.groups[name]; ok {
-		return &groupWriter{hw: hw, group: g}, nil
+	return nil
+}
+
+// sameType returns true if elements have the same type in the file.
+func sameType(a, b any) bool {
+	switch av := a.(type) {
+	case compound:
+		bv, ok := b.(compound)
+		if !ok || len(av) != len(bv) {
+			return false
+		}
+		for i := range av {
+			if av[i].Name != bv[i].Name || !sameType(av[i].Val, bv[i].Val) {
+				return false
+			}
+		}
+		return true
+	case opaque:
+		bv, ok := b.(opaque)
+		return ok && len(av) == len(bv)
+	case enumerated:
+		bv, ok := b.(enumerated)
+		return ok && reflect.TypeOf(av.values) == reflect.TypeOf(bv.values) &&
+			reflect.DeepEqual(av.names, bv.names) && reflect.DeepEqual(av.memberVals, bv.memberVals)
+	case []compound:
+		bv, ok := b.([]compound)
+		return ok && len(av) > 0 && (len(bv) == 0 || sameType(av[0], bv[0]))
+	case []opaque:
+		bv, ok := b.([]opaque)
+		return ok && len(av) > 0 && (len(bv) == 0 || sameType(av[0], bv[0]))
+	}
+	return reflect.TypeOf(a) == reflect.TypeOf(b)
+}
+
+// checkAttributes checks that the attributes can be stored.
+func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) error {
+	if !hasValidNames(attrs) {
+		return ErrInvalidName
 	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
+	if attrs == nil {
+		return nil
 	}
-	hw.root.groups[name] = g
-	return &groupWriter{hw: hw, group: g}, nil
+	for _, k := range attrs.Keys() {
+		switch k {
+		case "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST":
+			return fmt.Errorf("%w: %s is reserved", ErrInvalidName, k)
+		}
+		val, _ := attrs.Get(k)
+		if !isSupportedType(val) {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, val)
+		}
+		rv := reflect.ValueOf(val)
+		isEnum := false
+		if e, ok := val.(enumerated); ok {
+			rv = reflect.ValueOf(e.values)
+			isEnum = true
+		}
+		// Attributes are scalars or lists, so a list of lists is vlen.
+		depth := sliceDepth(rv.Type())
+		if depth > 2 || depth > 1 && isEnum {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, val)
+		}
+		if err := checkElements(rv, depth > 1); err != nil {
+			return err
+		}
+		dims, nDims := hw.getAttributeDimensions(val)
+		dt := hw.buildDatatypeMessage(val, nDims)
+		size := uint64(binary.LittleEndian.Uint32(dt[4:])) // of an element
+		for _, n := range dims {
+			size *= n
+		}
+		const header = 8 + 7 + 7 + 7 + 16 // with the padding and the dataspace
+		if header+uint64(len(k))+1+uint64(len(dt))+size > 65535 {
+			return fmt.Errorf("%w: attribute %s", ErrTooLarge, k)
+		}
+	}
+	return nil
 }
 
-type groupWriter struct {
-	hw    *HDF5Writer
-	group *h5Group
+// maxNameLen is the length of names that fit in an object header.
+const maxNameLen = 60000
+
+func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
+	return hw.addAttributes(hw.root, attrs)
 }
 
-func (gw *groupWriter) Close() error {
-	return nil
+func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
+	return hw.addVar(hw.root, name, vr)
 }
 
-func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
+	return hw.createGroup(hw.root, name)
+}
+
+func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+	if hw.closed {
+		return ErrWriterClosed
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	if err := hw.checkAttributes(attrs); err != nil {
+		return err
+	}
+	if attrs == nil {
+		return nil
+	}
+	// Add them to those of earlier calls.
+	var keys []string
+	vals := make(map[string]any)
+	if g.attributes != nil {
+		for _, k := range g.attributes.Keys() {
+			keys = append(keys, k)
+			vals[k], _ = g.attributes.Get(k)
 		}
 	}
-	gw.group.attributes = attrs
-	return nil
+	for _, k := range attrs.Keys() {
+		if _, has := vals[k]; has {
+			return fmt.Errorf("%w: %s", ErrDuplicateName, k)
+		}
+		keys = append(keys, k)
+		vals[k], _ = attrs.Get(k)
+	}
+	g.attributes, err = util.NewOrderedMap(keys, vals)
+	return err
 }
 
-func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
+func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) (err error) {
+	defer thrower.RecoverError(&err)
+	if hw.closed {
+		return ErrWriterClosed
 	}
-	if !hasValidNames(vr.Attributes) {
+	if !internal.IsValidNetCDFName(name) || len(name) > maxNameLen {
 		return ErrInvalidName
 	}
+	if err := hw.checkAttributes(vr.Attributes); err != nil {
+		return err
+	}
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
-		}
+	if g.vars[name] != nil || g.groups[name] != nil {
+		return ErrDuplicateName
 	}
-	gw.group.vars[name] = &h5Var{
+	v := &h5Var{
 		name:       name,
 		val:        vr.Values,
 		dimensions: vr.Dimensions,
 		attributes: vr.Attributes,
 	}
+	if err := hw.setLayout(v); err != nil {
+		return err
+	}
+	if len(v.shape) > 255 || !v.chars && len(hw.buildDatatypeMessage(v.val, v.rank)) > 65535 {
+		return fmt.Errorf("%w: type or shape", ErrTooLarge)
+	}
+	// The dimensions are in the root group.
+	sizes := make(map[string]uint64)
+	for i, dname := range vr.Dimensions {
+		if dname == "" {
+			continue
+		}
+		if !isValidDimName(dname) {
+			return ErrInvalidName
+		}
+		if hw.root.groups[dname] != nil {
+			return ErrDuplicateName
+		}
+		size, has := sizes[dname]
+		if !has {
+			size, has = hw.dimSizes[dname]
+		}
+		if !has || size == unknownExtent {
+			size = v.shape[i]
+		}
+		if v.shape[i] != unknownExtent && v.shape[i] != size {
+			return ErrDimensionSize
+		}
+		sizes[dname] = size
+	}
+	for dname, size := range sizes {
+		hw.dimSizes[dname] = size
+	}
+	g.vars[name] = v
 	return nil
 }
 
-func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
+func (hw *HDF5Writer) createGroup(g *h5Group, name string) (api.Writer, error) {
+	if hw.closed {
+		return nil, ErrWriterClosed
+	}
+	if !internal.IsValidNetCDFName(name) || len(name) > maxNameLen {
 		return nil, ErrInvalidName
 	}
-	if g, ok := gw.group.groups[name]; ok {
-		return &groupWriter{hw: gw.hw, group: g}, nil
+	if sub, ok := g.groups[name]; ok {
+		return &groupWriter{hw: hw, group: sub}, nil
 	}
-	g := &h5Group{
+	if _, isDim := hw.dimSizes[name]; g.vars[name] != nil || isDim && g == hw.root {
+		return nil, ErrDuplicateName
+	}
+	sub := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
 		vars:   make(map[string]*h5Var),
 	}
-	gw.group.groups[name] = g
-	return &groupWriter{hw: gw.hw, group: g}, nil
+	g.groups[name] = sub
+	return &groupWriter{hw: hw, group: sub}, nil
+}
+
+type groupWriter struct {
+	hw    *HDF5Writer
+	group *h5Group
+}
+
+func (gw *groupWriter) Close() error {
+	return nil
+}
+
+func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
+	return gw.hw.addAttributes(gw.group, attrs)
+}
+
+func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
+	return gw.hw.addVar(gw.group, name, vr)
+}
+
+func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
+	return gw.hw.createGroup(gw.group, name)
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
@@ -1266,6 +1436,12 @@ func hasValidNames(am api.AttributeMap) bool {
 	return true
 }
 
+// isValidDimName allows leading underscores, which generated names have.
+func isValidDimName(name string) bool {
+	name = strings.TrimLeft(name, "_")
+	return name == "" || len(name) <= maxNameLen && internal.IsValidNetCDFName(name)
+}
+
 func OpenWriter(fileName string) (api.Writer, error) {
 	file, err := os.Create(fileName)
 	if err != nil {
@@ -1275,6 +1451,7 @@ func OpenWriter(fileName string) (api.Writer, error) {
 	hw := &HDF5Writer{
 		file:      file,
 		buf:       new(bytes.Buffer),
+		dimSizes:  make(map[string]uint64),
 		byteOrder: util.NativeByteOrder,
 		root: &h5Group{
 			name:       "/",
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..943343b 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -371,10 +371,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.heap.writeRef(buf, rv.Len(), hw.vlenHeapIndices[hw.vlenPos])
 			hw.vlenPos++
 			return
 		}
@@ -394,10 +391,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 		} else {
 			// VLen string
 			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.heap.writeRef(buf, len(str), hw.heap.strings[str])
 		}
 		return
 	}
@@ -421,10 +415,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			util.MustWrite(buf, hw.byteOrder, v)
 		case string:
 			// Vlen string descriptor
-			idx := hw.heap.indices[v]
-			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.heap.writeRef(buf, len(v), hw.heap.strings[v])
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -435,10 +426,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
-				idx := hw.vlenHeapIndices[hw.vlenPos]
-				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
+				hw.heap.writeRef(buf, rv.Len(), hw.vlenHeapIndices[hw.vlenPos])
 				hw.vlenPos++
 			} else {
 				thrower.Throw(ErrUnsupportedType)
@@ -601,10 +589,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		hw.heap.writeRef(buf, 1, hw.heap.dims[dname]) // 1 reference
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From 6f314656d85857ae79cf455fa30d2b157b6e16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 26/65] fix: keep compound attributes with one member compound

---
 netcdf/hdf5/hdf5.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 6e5d5c8..ff98239 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2994,12 +2994,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 // A scalar attribute can be stored as a single-length array.
 // This code undoes that to return an actual scalar.
 func undoScalarAttribute(value any) any {
-	// Opaque is a slice, but we don't want to undo it.
-	_, has := value.(opaque)
-	if has {
+	// Opaque and compound are slices, but we don't want to undo them.
+	switch value.(type) {
+	case opaque, compound:
 		return value
 	}
-	_, has = value.(enumerated)
+	_, has := value.(enumerated)
 	// Enumerated that haven't been cast can also be slices.
 	if has {
 		e, has := value.(enumerated)
-- 
2.43.0


From 5e118163f125d7156c03d5a2d4d61dbf9b6a9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 27/65] fix: read attributes and datasets without elements as
 empty

---
 netcdf/hdf5/hdf5.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ff98239..37521fd 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -618,11 +618,15 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 			checkVal(0, z, "zero pad")
 		}
 	}
-	dims, count := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
+	dims, count, isNull := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
 	if version == 1 {
 		padBytes(bf, 7)
 	}
 	logger.Info("dimensions are", dims)
+	if isNull && len(dtb) > 0 && dtb[0]&0b1111 == typeString {
+		// netCDF writes an empty text like this
+		dims, count = nil, 1
+	}
 	logger.Info("count objects=", count)
 	attr.dimensions = dims
 	logger.Info("sizeRem=", bf.Rem())
@@ -1495,7 +1499,9 @@ func headerTypeToString(ty int) string {
 	return htts[ty]
 }
 
-func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
+// readDataspace returns the dimensions, the number of elements and whether it is
+// a null dataspace, which is returned as a dimension of length zero.
+func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64, bool) {
 	bf := obf.(remReader)
 	version := read8(bf)
 	logger.Info("dataspace message version=", version)
@@ -1521,7 +1527,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		logger.Infof("simple dataspace")
 	case 2:
 		logger.Infof("null dataspace")
-		// let it go
+		return []uint64{0}, 0, true
 	default:
 		fail(fmt.Sprintf("unknown dstype %d", dstype))
 	}
@@ -1551,10 +1557,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		}
 		fail("permutation indices not supported")
 	}
-	if version == 2 && dstype == 2 && bf.Rem() > 0 {
-		logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
-	}
-	return ret, count
+	return ret, count, false
 }
 
 func (h5 *HDF5) readFilterPipeline(obj *object, obf io.Reader) {
@@ -1924,7 +1927,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeDataspace:
 			obj.isGroup = false
-			obj.objAttr.dimensions, _ = h5.readDataspace(f)
+			obj.objAttr.dimensions, _, _ = h5.readDataspace(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 
 		case typeLinkInfo:
-- 
2.43.0


From d2dea95c23880c75b4f743f66f4df41d82270940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 28/65] fix: write the attribute info message the HDF5 library
 counts attributes by

---
 netcdf/hdf5/hdf5writer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 1f5c5e5..38c0535 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -454,6 +454,17 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 	return h5Message{mType: 2, data: buf.Bytes()}
 }
 
+// buildAttributeInfoMessage makes the message without which the HDF5 library
+// doesn't count the attributes of an object.
+func (hw *HDF5Writer) buildAttributeInfoMessage() h5Message {
+	buf := new(bytes.Buffer)
+	util.MustWriteByte(buf, 0)                    // version
+	util.MustWriteByte(buf, 0)                    // flags (no creation order tracking)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // fractal heap address (undefined = compact)
+	util.MustWriteLE(buf, uint64(invalidAddress)) // name index v2 B-tree address (undefined = compact)
+	return h5Message{mType: 21, data: buf.Bytes()}
+}
+
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
@@ -480,6 +491,11 @@ func (hw *HDF5Writer) buildLayoutMessageV2(addr uint64, size uint64) []byte {
 }
 
 func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
+	isAttribute := func(m h5Message) bool { return m.mType == 12 }
+	if i := slices.IndexFunc(messages, isAttribute); i >= 0 {
+		messages = slices.Insert(messages, i, hw.buildAttributeInfoMessage())
+	}
+
 	ohBuf := new(bytes.Buffer)
 	util.MustWriteRaw(ohBuf, []byte("OHDR"))
 	util.MustWriteByte(ohBuf, 2)
-- 
2.43.0


From f79597318f9365e3c36afdcf36835c7a75f6e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 29/65] fix: store text attributes without a terminator, which
 netCDF counts as a character

---
 netcdf/hdf5/writer_utils.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 943343b..7a24c1e 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -320,11 +320,24 @@ func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
 	nameBytes := append([]byte(name), 0)
 	util.MustWriteLE(buf, uint16(len(nameBytes)))
 
+	rv := reflect.ValueOf(val)
+	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
+	}
 	dims, nDims := hw.getAttributeDimensions(val)
 	dtMsg := hw.buildDatatypeMessage(val, nDims)
-	util.MustWriteLE(buf, uint16(len(dtMsg)))
-
 	dsMsg := buildDataspaceMessage(dims)
+	// NetCDF counts every stored character of a text, so there is no terminator,
+	// which only the texts of the dimension scales interface need. An empty text
+	// has no element.
+	text := rv.Kind() == reflect.String && name != "CLASS" && name != "NAME"
+	if text {
+		dtMsg = buildStringDatatype(max(rv.Len(), 1))
+		if rv.Len() == 0 {
+			dsMsg = []byte{2, 0, 0, 2} // null dataspace
+		}
+	}
+	util.MustWriteLE(buf, uint16(len(dtMsg)))
 	util.MustWriteLE(buf, uint16(len(dsMsg)))
 	writePadded := func(b []byte) {
 		util.MustWriteRaw(buf, b)
@@ -338,9 +351,9 @@ func (hw *HDF5Writer) buildAttributeMessage(name string, val any) h5Message {
 	writePadded(dsMsg)
 
 	// Value
-	rv := reflect.ValueOf(val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+	if text {
+		util.MustWriteRaw(buf, []byte(rv.String()))
+		return h5Message{mType: 12, data: buf.Bytes()}
 	}
 	maxLen := 0
 	if !hw.shouldUseVLen(rv) {
-- 
2.43.0


From 94b06c66645fa710639d4c77d202df9c60a3c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 30/65] fix: describe the types of group and variable
 attributes, and list attributes in a fixed order

---
 netcdf/hdf5/amap.go | 10 ++++----
 netcdf/hdf5/hdf5.go | 62 +++++++++++++++++++--------------------------
 2 files changed, 31 insertions(+), 41 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..be9535d 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -7,18 +7,18 @@ import (
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5    *HDF5
+	attrs []*attribute // the attributes in the map
 }
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrType(key)
+	ret := c.h5.findAttrType(c.attrs, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrGoType(key)
+	ret := c.h5.findAttrGoType(c.attrs, key)
 	return ret, ret != ""
 }
 
@@ -26,7 +26,7 @@ func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
+		c := callback{h5, h5.rootObject.attrlist}
 		om.SetTypeCallbacks(c.regCallback, c.goCallback)
 	}
 	return om, nil
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 37521fd..3cfd8aa 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2769,44 +2769,32 @@ func isVariable(obj *object) bool {
 	return true
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
-		if attr.name != attrName {
-			continue
-		}
-		origNames := map[string]bool{}
-		base := cdlTypeString(attr.class, h5, attrName, attr, origNames)
-		dims := ""
-		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
-		} else {
-			for range attr.dimensions {
-				dims += "(*)"
-			}
-		}
-		return base + dims
+// attrRank is the number of dimensions of an attribute's value.
+func attrRank(attr *attribute) int {
+	if len(attr.dimensions) > 0 && attr.dimensions[0] == 1 {
+		return len(attr.dimensions) - 1 // see undoScalarAttribute
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return len(attr.dimensions)
 }
 
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
-		if attr.name != attrName {
-			continue
+func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
+	for _, attr := range attrs {
+		if attr.name == attrName {
+			base := cdlTypeString(attr.class, h5, attrName, attr, map[string]bool{})
+			return base + strings.Repeat("(*)", attrRank(attr))
 		}
-		origNames := map[string]bool{}
-		base := goTypeString(attr.class, h5, attrName, attr, origNames)
-		dims := ""
-		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
-		} else {
-			for range attr.dimensions {
-				dims += "[]"
-			}
+	}
+	return ""
+}
+
+func (h5 *HDF5) findAttrGoType(attrs []*attribute, attrName string) string {
+	for _, attr := range attrs {
+		if attr.name == attrName {
+			base := goTypeString(attr.class, h5, attrName, attr, map[string]bool{})
+			return strings.Repeat("[]", attrRank(attr)) + base
 		}
-		return dims + base
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
 func (h5 *HDF5) findType(varName string) string {
@@ -2963,6 +2951,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 }
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
+	keys := []string{}
 	filtered := make(map[string]any)
 	for i := range unfiltered {
 		val := unfiltered[i]
@@ -2981,15 +2970,16 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
+	c := callback{h5, unfiltered}
+	om.SetTypeCallbacks(c.regCallback, c.goCallback)
 	om.Hide(ncpKey)
 	return om
 }
-- 
2.43.0


From ec1333ef84c048dce124d10593bb1d4f9a221689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 31/65] fix: list attributes, groups and types in creation
 order

---
 netcdf/hdf5/hdf5.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 3cfd8aa..ac1ebfc 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1891,12 +1891,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("header message flag: must fail to open if you don't understand type")
 		}
 
+		co := uint16(0)
 		if hasFlag8(ohFlags, 2) {
 			if bf.Rem() < 2 {
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 && version > 1 {
@@ -1994,7 +1995,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
@@ -2862,7 +2863,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
@@ -2873,7 +2874,7 @@ func (h5 *HDF5) ListTypes() []string {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -2913,7 +2914,8 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
+		varName := obj.name
 		if obj.isGroup || origNames[varName] {
 			continue
 		}
@@ -3236,8 +3238,7 @@ func (h5 *HDF5) ListSubgroups() []string {
 			ret = append(ret, tail)
 			return
 		}
-		obj.sortChildren()
-		for _, o := range obj.children {
+		for _, o := range obj.sortChildren() {
 			sgDescend(o, group+o.name+"/")
 		}
 	}
@@ -3252,7 +3253,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
@@ -3264,6 +3265,9 @@ func (obj *object) sortChildren() []*object {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
+		if children[i].creationOrder == children[j].creationOrder {
+			return children[i].name < children[j].name // not tracked
+		}
 		return children[i].creationOrder < children[j].creationOrder
 	})
 	return children
-- 
2.43.0


From bbfba87fd2e59b9c798652023a925d6e3e19f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 32/65] fix: keep the keys of attribute maps unique and
 independent of the caller's arguments

---
 netcdf/util/orderedmap.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..87562e6 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -4,6 +4,7 @@ package util
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"reflect"
 	"slices"
 	"strconv"
@@ -46,23 +47,21 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 			return nil, ErrorKeysDontMatchValues
 		}
 	}
-	if values == nil {
-		values = map[string]any{}
-	}
-
-	visibleKeys := []string{}
-	visibleKeys = append(visibleKeys, keys...)
+	// The caller may change its arguments later on.
+	ownValues := make(map[string]any, len(values))
+	maps.Copy(ownValues, values)
 
 	return &OrderedMap{
-		keys:        keys,
-		values:      values,
-		visibleKeys: visibleKeys,
+		keys:        slices.Clone(keys),
+		values:      ownValues,
+		visibleKeys: slices.Clone(keys),
 		hiddenKeys:  map[string]bool{}}, nil
 }
 
 // Add adds a key/value pair to an ordered map at the end.
+// A key that is already in the map gets the new value and keeps its place.
 func (om *OrderedMap) Add(name string, val any) {
-	if !om.hiddenKeys[name] {
+	if _, has := om.values[name]; !has && !om.hiddenKeys[name] {
 		om.keys = append(om.keys, name)
 		om.visibleKeys = append(om.visibleKeys, name)
 	}
@@ -101,7 +100,9 @@ func (om *OrderedMap) Hide(hiddenKey string) {
 // Keys returns the keys in order for the map.
 // It does not return the hidden keys.
 func (om *OrderedMap) Keys() []string {
-	return om.visibleKeys
+	keys := make([]string, len(om.visibleKeys))
+	copy(keys, om.visibleKeys)
+	return keys
 }
 
 func (om *OrderedMap) pGoType(val any) (string, bool) {
@@ -186,7 +187,7 @@ func (om *OrderedMap) putDim(inner string, dim int, kind reflect.Kind) string {
 		sDim = strconv.Itoa(dim)
 	}
 	parenLoc := strings.LastIndex(inner, "(")
-	if parenLoc == -1 || parenLoc == len(inner)-1 {
+	if !strings.HasSuffix(inner, ")") || parenLoc == len(inner)-1 {
 		return fmt.Sprintf("%s(%s)", inner, sDim)
 	}
 	fixed := fmt.Sprintf("%s%s,%s", inner[:parenLoc+1], sDim, inner[parenLoc+1:])
-- 
2.43.0


From 1869bdc7fb7135ee29e1066097c22274f54fb514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 33/65] fix: keep the attributes of earlier AddAttributes
 calls, and refuse invalid dimension names and closed writers in CDF

---
 netcdf/cdf/cdfwriter.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 2ea6bf5..42edfda 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"strings"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -51,6 +52,8 @@ var (
 	ErrDimensionSize        = errors.New("dimension doesn't match size")
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
+	ErrDuplicateAttribute   = errors.New("duplicate attribute")
+	ErrWriterClosed         = errors.New("writer is closed")
 	ErrEmptySlice           = errors.New("empty slice encountered")
 )
 
@@ -453,11 +456,34 @@ func hasValidNames(am api.AttributeMap) bool {
 func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
 	defer thrower.RecoverError(&err)
 
+	if cw.file == nil {
+		return ErrWriterClosed
+	}
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	if attrs == nil {
+		return nil
+	}
+	// Add them to those of earlier calls.
+	keys := cw.globalAttrs.Keys()
+	vals := make(map[string]any)
+	for _, k := range keys {
+		vals[k], _ = cw.globalAttrs.Get(k)
+	}
+	for _, k := range attrs.Keys() {
+		if _, has := vals[k]; has {
+			return ErrDuplicateAttribute
+		}
+		keys = append(keys, k)
+		vals[k], _ = attrs.Get(k)
+	}
+	all, err := util.NewOrderedMap(keys, vals)
+	if err != nil {
+		return err
+	}
 	cw.checkV5Attributes(attrs)
-	cw.globalAttrs = attrs
+	cw.globalAttrs = all
 	return nil
 }
 
@@ -481,6 +507,9 @@ func (cw *CDFWriter) unlimited() string {
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	defer thrower.RecoverError(&err)
 
+	if cw.file == nil {
+		return ErrWriterClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
@@ -492,6 +521,13 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			return ErrDuplicateVariable
 		}
 	}
+	for _, dimName := range vr.Dimensions {
+		// Generated names have leading underscores.
+		base := strings.TrimLeft(dimName, "_")
+		if base != "" && !internal.IsValidNetCDFName(base) {
+			return ErrInvalidName
+		}
+	}
 	// A call that fails must not leave anything behind.
 	version, nDims := cw.version, len(cw.dimNames)
 	added := false
@@ -963,6 +999,9 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 // Close writes all the data out and closes the file.
 func (cw *CDFWriter) Close() (err error) {
 	defer thrower.RecoverError(&err)
+	if cw.file == nil {
+		return ErrWriterClosed
+	}
 	defer func() {
 		if cw.file != nil { // writing failed
 			_ = cw.file.Close()
-- 
2.43.0


From 419c6b4056f46839f35ad832c241a34122b668ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 34/65] fix: release the file and remember the error when
 closing an HDF5 writer fails

---
 netcdf/hdf5/hdf5writer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 38c0535..3ebea56 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -80,6 +80,7 @@ type HDF5Writer struct {
 	root            *h5Group
 	heap            *h5GlobalHeap
 	closed          bool
+	closeErr        error             // what Close returned
 	dimSizes        map[string]uint64 // dimension name → extent, unknownExtent if not known yet
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
@@ -88,11 +89,18 @@ type HDF5Writer struct {
 }
 
 func (hw *HDF5Writer) Close() (err error) {
-	defer thrower.RecoverError(&err)
 	if hw.closed {
-		return nil
+		return hw.closeErr
 	}
 	hw.closed = true
+	defer func() {
+		// The file is released in any case.
+		if err2 := hw.file.Close(); err == nil {
+			err = err2
+		}
+		hw.closeErr = err
+	}()
+	defer thrower.RecoverError(&err)
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -134,10 +142,6 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
-- 
2.43.0


From bf7e14c82cd370d83584317c1646463d02a0313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 35/65] fix: write HDF5 files with the same bytes for the same
 calls

---
 netcdf/hdf5/hdf5writer.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 3ebea56..2a4dd49 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"os"
 	"reflect"
 	"slices"
@@ -276,15 +277,22 @@ func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
 	}
 
 	// Recurse into subgroups
-	for _, sub := range g.groups {
+	for _, name := range sortedKeys(g.groups) {
+		sub := g.groups[name]
 		hw.writeDimScaleContents(sub)
 	}
 }
 
+// sortedKeys lists a map's keys in an order that doesn't change.
+func sortedKeys[V any](m map[string]V) []string {
+	return slices.Sorted(maps.Keys(m))
+}
+
 // collectDimReferences adds global heap entries for dimension references
 // needed by DIMENSION_LIST attributes.
 func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
 		if v.isDimScale {
 			continue
 		}
@@ -305,7 +313,8 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			hw.heap.dims[dname] = hw.heap.add(ref)
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range sortedKeys(g.groups) {
+		sub := g.groups[name]
 		hw.collectDimReferences(sub)
 	}
 }
@@ -655,7 +664,8 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 }
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
 		if !v.chars {
 			hw.collectStringsRecursive(reflect.ValueOf(v.val))
 		}
@@ -672,7 +682,8 @@ func (hw *HDF5Writer) collectStrings(g *h5Group) {
 			hw.collectStringsRecursive(reflect.ValueOf(val))
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range sortedKeys(g.groups) {
+		sub := g.groups[name]
 		hw.collectStrings(sub)
 	}
 }
@@ -760,11 +771,13 @@ func (gh *h5GlobalHeap) writeRef(buf *bytes.Buffer, n int, number uint32) {
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
 		v.vlenHeapIndices = nil
 		hw.collectVlen(reflect.ValueOf(v.val), v.rank, &v.vlenHeapIndices)
 	}
-	for _, sub := range g.groups {
+	for _, name := range sortedKeys(g.groups) {
+		sub := g.groups[name]
 		hw.collectVlenData(sub)
 	}
 }
@@ -772,7 +785,8 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
@@ -802,7 +816,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			}
 		}
 	}
-	for _, sub := range g.groups {
+	for _, name := range sortedKeys(g.groups) {
+		sub := g.groups[name]
 		hw.collectAttrVlenData(sub)
 	}
 }
-- 
2.43.0


From 727d651b9b7992cbada3c116b174956aa4a80b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 36/65] fix: give one dimension name for each dimension of a
 partly named variable

---
 netcdf/hdf5/hdf5.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ac1ebfc..a5d43aa 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3044,19 +3044,25 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
 		varLen := a.value.([][]uint64)
 		addrToName := h5.addrIndex()
+		found := false
 		for _, v := range varLen {
+			dimName := "" // stays empty for a dimension without a scale
 			for i, addr := range v {
 				// Each entry in the dimension list is a uint64 object address.
 				logger.Infof("dimension list %d 0x%x)", i, addr)
 				if name := addrToName[addr]; name != "" {
 					logger.Info("dim found", name)
-					dimNames = append(dimNames, name)
+					dimName = name
+					found = true
+					break
 				}
 			}
+			dimNames = append(dimNames, dimName)
 		}
-	}
-	if len(dimNames) > 0 {
-		return dimNames
+		if found {
+			return dimNames
+		}
+		dimNames = dimNames[:0]
 	}
 
 	var f func(ob *object)
-- 
2.43.0


From 87098200177971ceb3b5cb1b4ad3e070d89a92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 37/65] fix: count each CDF handle's Close once

---
 netcdf/cdf/cdf.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 149d766..5f9d495 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -68,7 +68,7 @@ const (
 type CDF struct {
 	fname        string
 	file         api.ReadSeekerCloser
-	fileRefCount int
+	fileRefCount *int // open handles of the file
 	version      uint8
 	numRecs      uint64 // 64-bits in V5
 	recSize      uint64
@@ -540,16 +540,17 @@ func (cdf *CDF) readHeader() (err error) {
 // Close closes this group and closes any underlying files if they are no
 // longer being used by any other groups.
 func (cdf *CDF) Close() {
-	defer thrower.RecoverError(nil)
-	assert(cdf.fileRefCount > 0, "ref count off", ErrInternal)
-	cdf.fileRefCount--
-	if cdf.fileRefCount == 0 {
+	if cdf.file == nil {
+		return // already closed
+	}
+	*cdf.fileRefCount--
+	if *cdf.fileRefCount == 0 {
 		err := cdf.file.Close()
 		if err != nil {
 			logger.Error("Error on close (ignored):", err)
 		}
-		cdf.file = nil
 	}
+	cdf.file = nil
 }
 
 // GetGroup gets the given group or returns an error if not found.
@@ -561,8 +562,9 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
-	cdf.fileRefCount++
-	return api.Group(cdf), nil
+	hg := *cdf // a handle of its own, which is closed by itself
+	*hg.fileRefCount++
+	return api.Group(&hg), nil
 }
 
 // Open is the implementation of the API netcdf.Open.
@@ -583,7 +585,8 @@ func Open(fname string) (api.Group, error) {
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 	defer thrower.RecoverError(&err)
-	c := &CDF{file: file, fileRefCount: 1}
+	refCount := 1
+	c := &CDF{file: file, fileRefCount: &refCount}
 	err = c.readHeader()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d0f6accce2ee803d7b0038e4d77fdcfbb6f371c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 38/65] fix: read on when a source delivers less than asked for

---
 netcdf/hdf5/hdf5.go    | 20 --------------------
 netcdf/hdf5/readers.go | 27 ++++++++++++++++-----------
 netcdf/netcdf4.go      |  4 ++--
 3 files changed, 18 insertions(+), 33 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a5d43aa..886ea81 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2422,26 +2422,6 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
-		}
-	}
-	return tot, nil
-}
-
 // newRecordReader returns a reader of the variable's data in row-major order, or
 // of the requested part of its first dimension. What isn't stored gets the fill value.
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 592cb87..80fe324 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -164,19 +164,21 @@ func (f *raFile) Read(p []byte) (int, error) {
 }
 
 func (f *raFile) readNoLock(p []byte) (int, error) {
-	thisLen := len(p)
 	_, err := f.rcFile.file.Seek(f.seekPointer, io.SeekStart)
 	if err != nil {
 		logger.Error("Seek error in Read", err, io.SeekStart)
 		return 0, err
 	}
-	n, err := f.rcFile.file.Read(p[:thisLen])
+	// The file may deliver less than what was asked for.
+	n, err := io.ReadFull(f.rcFile.file, p)
+	// Save position
+	f.seekPointer += int64(n)
+	if err == io.ErrUnexpectedEOF {
+		err = nil // the next read gives io.EOF
+	}
 	if err != nil {
 		logger.Error("Read error in Read", err, io.SeekStart)
-		return 0, err
 	}
-	// Save position
-	f.seekPointer += int64(n)
 	// Return read results
 	return n, err
 }
@@ -193,6 +195,9 @@ func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
 	f.seekPointer = offset
 	n, retErr := f.readNoLock(b)
 	f.seekPointer = save
+	if n < len(b) && retErr == nil {
+		retErr = io.ErrUnexpectedEOF
+	}
 	return n, retErr
 }
 
@@ -259,14 +264,14 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if thisLen > r.size {
 		thisLen = r.size
 	}
-	var err error
 	if r.b == nil {
-		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
+		b := make([]byte, r.size)
+		_, err := io.ReadFull(r.r, b)
 		if err != nil {
-			assert(err == io.EOF, err.Error())
+			return 0, err
 		}
+		unshuffle(b, r.shuffleParam)
+		r.b = b
 	}
 	copy(p, r.b[:thisLen])
 	r.b = r.b[thisLen:]
@@ -274,7 +279,7 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	if r.size == 0 {
 		return int(thisLen), io.EOF
 	}
-	return int(thisLen), err
+	return int(thisLen), nil
 }
 
 // layoutReader puts the rows of chunked data together, in row-major order.
diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 9f676c6..b87563d 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -69,8 +69,8 @@ func New(file api.ReadSeekerCloser) (api.Group, error) {
 
 func getKind(file io.ReadSeeker) (byte, error) {
 	var b [1]byte
-	n, err := file.Read(b[:])
-	if n == 0 {
+	_, err := io.ReadFull(file, b[:])
+	if err != nil {
 		return 0, err
 	}
 	_, err = file.Seek(0, io.SeekStart)
-- 
2.43.0


From d0b5296380c48a988615a49f2707cd5b0ed22b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 39/65] fix: load HDF5 attributes and heaps whole or not at
 all, and without changing shared state

---
 netcdf/hdf5/hdf5.go    | 230 ++++++++++++++++++++---------------------
 netcdf/hdf5/readers.go |   4 +-
 2 files changed, 116 insertions(+), 118 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 886ea81..99d2393 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -13,6 +13,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/batchatco/go-native-netcdf/internal"
@@ -218,6 +219,8 @@ type HDF5 struct {
 	groupObject   *object
 	registrations map[string]any
 	addrs         map[uint64]bool
+	attrLock      *sync.Mutex                  // guards the objects' loadedAttrs
+	heapLock      *sync.Mutex                  // guards heapCache
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
 }
@@ -234,21 +237,21 @@ type linkInfo struct {
 }
 
 type object struct {
-	addr             uint64
-	link             *linkInfo
-	attr             *linkInfo
-	children         map[string]*object
-	name             string
-	attrlist         []*attribute
-	dataBlocks       []dataBlock
-	btreeAddr        uint64
-	filters          []filter
-	objAttr          *attribute
-	fillValue        []byte // takes precedence over old fill value
-	fillValueOld     []byte
-	isGroup          bool
-	creationOrder    uint64
-	attrListIsSorted bool
+	addr          uint64
+	link          *linkInfo
+	attr          *linkInfo
+	children      map[string]*object
+	name          string
+	attrlist      []*attribute
+	dataBlocks    []dataBlock
+	btreeAddr     uint64
+	filters       []filter
+	objAttr       *attribute
+	fillValue     []byte // takes precedence over old fill value
+	fillValueOld  []byte
+	isGroup       bool
+	creationOrder uint64
+	loadedAttrs   []*attribute // attrlist with the values, see attributesOf
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -1111,18 +1114,21 @@ func checkVal(expected, actual any, comment string) {
 }
 
 func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
-	// Return from cache on subsequent calls to the same heap collection.
-	if cache, ok := h5.heapCache[heapAddress]; ok {
-		if data, ok := cache[index]; ok {
-			return newResetReaderFromBytes(data), uint64(len(data))
-		}
-		return nil, 0
+	h5.heapLock.Lock()
+	defer h5.heapLock.Unlock()
+	cache, ok := h5.heapCache[heapAddress]
+	if !ok {
+		// First visit: parse the entire collection and cache every object.
+		cache = h5.readHeapCollection(heapAddress)
+		h5.heapCache[heapAddress] = cache
 	}
+	data, ok := cache[index]
+	assertError(ok, ErrCorrupted, "no such object in the global heap")
+	return newResetReaderFromBytes(data), uint64(len(data))
+}
 
-	// First visit: parse the entire collection and cache every object.
+func (h5 *HDF5) readHeapCollection(heapAddress uint64) map[uint32][]byte {
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
-
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
 	version := read8(bf)
@@ -1159,10 +1165,7 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 		}
 	}
 
-	if data, ok := cache[index]; ok {
-		return newResetReaderFromBytes(data), uint64(len(data))
-	}
-	return nil, 0
+	return cache
 }
 
 func (h5 *HDF5) readHeap(link *linkInfo) {
@@ -2336,6 +2339,8 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		return nil, ErrNotFound
 	}
 
+	// Attributes can't return an error, so what it needs is read now.
+	h5.loadAttributes(o)
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
@@ -2345,7 +2350,8 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 
 func fileSize(file io.ReadSeeker) int64 {
 	fi, err := file.Seek(0, io.SeekEnd)
-	file.Seek(0, io.SeekStart)
+	thrower.ThrowIfError(err)
+	_, err = file.Seek(0, io.SeekStart)
 	thrower.ThrowIfError(err)
 	return fi
 }
@@ -2384,6 +2390,8 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		groupObject:   nil,
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
+		attrLock:      &sync.Mutex{},
+		heapLock:      &sync.Mutex{},
 		heapCache:     make(map[uint64]map[uint32][]byte),
 	}
 	h5.readSuperblock()
@@ -2393,6 +2401,8 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
+	// Attributes can't return an error, so what it needs is read now.
+	h5.loadAttributes(h5.rootObject)
 	return api.Group(h5), nil
 }
 
@@ -2682,8 +2692,7 @@ loop:
 func (h5 *HDF5) Attributes() api.AttributeMap {
 	// entry point, panic can bubble up
 	assert(h5.groupObject != nil, "nil root object")
-	h5.sortAttrList(h5.groupObject)
-	return h5.getAttributes(h5.groupObject.attrlist)
+	return h5.getAttributes(h5.attributesOf(h5.groupObject))
 }
 
 func (h5 *HDF5) hasAddr(addr uint64) bool {
@@ -2699,8 +2708,7 @@ type objectKind struct {
 
 // classifyObject scans attrlist for the three NetCDF4 metadata attributes that
 // distinguish dimension scales, coordinate variables, and regular variables.
-// String attribute values are set immediately during parsing, so this is safe to
-// call before sortAttrList.
+// String attribute values are set immediately during parsing.
 func classifyObject(attrlist []*attribute) objectKind {
 	var k objectKind
 	for _, a := range attrlist {
@@ -2916,47 +2924,81 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	return ""
 }
 
-func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
-	if a.df != nil {
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
-		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
-		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
-		save := h5.registrations
+// isInternalAttr tells whether an attribute is hidden, because it only describes
+// how netCDF-4 uses HDF5.
+func isInternalAttr(name string) bool {
+	switch name {
+	case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
+		return true
+	}
+	return false
+}
+
+// attrValue reads the value of an attribute. It changes nothing, so it can be
+// tried again if it fails.
+func (h5 *HDF5) attrValue(obj *object, a *attribute) any {
+	switch {
+	case a.value != nil:
+		return a.value
+	case a.df != nil:
+		raw := newResetReaderFromBytes(a.df.(*resetReader).bytes)
+		df := makeFillValueReader(obj, raw, int64(calcAttrSize(a)))
+		hg := *h5
 		switch a.name {
 		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
-			h5.registrations = nil
+			// Suppress registrations for internal HDF5 attributes to avoid side effects.
+			hg.registrations = nil
 		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
+		return getDataAttr(&hg, &hg, df, *a)
+	case isInternalAttr(a.name):
+		return nil
+	}
+	logger.Info("Need fill value reader", a.name)
+	df := makeFillValueReader(newObject(), nil, int64(calcAttrSize(a)))
+	return getDataAttr(h5, h5, df, *a)
+}
+
+// loadAttributes returns the attributes of an object with their values, in creation order.
+// The groups of a file share its objects, so what was read when the file was opened is
+// left as it is.
+func (h5 *HDF5) loadAttributes(obj *object) []*attribute {
+	loaded := make([]*attribute, 0, len(obj.attrlist))
+	for _, orig := range obj.attrlist {
+		a := *orig
+		a.value = h5.attrValue(obj, orig)
 		a.df = nil
-		h5.registrations = save
+		loaded = append(loaded, &a)
+	}
+	sort.SliceStable(loaded, func(i, j int) bool {
+		return loaded[i].creationOrder < loaded[j].creationOrder
+	})
+	return loaded
+}
+
+// attributesOf is like loadAttributes, but loads them only once.
+func (h5 *HDF5) attributesOf(obj *object) []*attribute {
+	h5.attrLock.Lock()
+	defer h5.attrLock.Unlock()
+	if obj.loadedAttrs == nil {
+		obj.loadedAttrs = h5.loadAttributes(obj)
 	}
+	return obj.loadedAttrs
 }
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	keys := []string{}
 	filtered := make(map[string]any)
-	for i := range unfiltered {
-		val := unfiltered[i]
+	for _, val := range unfiltered {
 		logger.Infof("getting attribute %s %p", val.name, val)
-		switch val.name {
-		case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
+		if isInternalAttr(val.name) {
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
-		default:
-			if val.value == nil {
-				if val.df == nil {
-					logger.Info("Need fill value reader", val.name)
-					fakeObj := newObject()
-					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
-				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
-			}
-			value := undoScalarAttribute(val.value)
-			if _, has := filtered[val.name]; !has {
-				keys = append(keys, val.name)
-			}
-			filtered[val.name] = value
+			continue
 		}
+		value := undoScalarAttribute(val.value)
+		if _, has := filtered[val.name]; !has {
+			keys = append(keys, val.name)
+		}
+		filtered[val.name] = value
 	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
@@ -3015,9 +3057,8 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-		a := obj.attrlist[i]
+	attrs := h5.attributesOf(obj)
+	for _, a := range attrs {
 		if a.name != "DIMENSION_LIST" {
 			continue
 		}
@@ -3045,43 +3086,13 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		dimNames = dimNames[:0]
 	}
 
-	var f func(ob *object)
-	f = func(ob *object) {
-		logger.Infof("obj %s 0x%x", ob.name, ob.addr)
-		for i := range ob.attrlist {
-			h5.parseAttr(ob, ob.attrlist[i])
-			a := ob.attrlist[i]
-			if a.name != "REFERENCE_LIST" {
-				continue
-			}
-			logger.Infof("value is %T %v", a.value, a.value)
-			for k, v := range a.value.([]compound) {
-				vals2 := v
-				v0 := vals2[0].Val.(uint64)
-				v1, has := vals2[1].Val.(int32)
-				if !has {
-					// Recent versions of netcdf tools generate unsigned for the dimension.
-					logger.Info("Unsigned reference dimension")
-					uv1 := vals2[1].Val.(uint32)
-					v1 = int32(uv1)
-				}
-				logger.Infof("single ref %d 0x%x %d %s", k, v0, v1, ob.name)
-			}
-		}
-		for _, o := range ob.children {
-			f(o)
+	for _, a := range attrs {
+		if a.name != "NAME" {
+			continue
 		}
-	}
-	f(h5.rootObject)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-		a := obj.attrlist[i]
-		switch a.name {
-		case "NAME":
-			nameValue := a.value.(string)
-			if !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
-				return append(dimNames, nameValue)
-			}
+		nameValue, ok := a.value.(string)
+		if ok && !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
+			return append(dimNames, nameValue)
 		}
 	}
 	return nil
@@ -3100,9 +3111,8 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	if data == nil {
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
 	dims := h5.getDimensions(found)
-	attrs := h5.getAttributes(found.attrlist)
+	attrs := h5.getAttributes(h5.attributesOf(found))
 	return &api.Variable{
 			Values:     data,
 			Dimensions: dims,
@@ -3121,7 +3131,6 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		logger.Warnf("variable %s not found", varName)
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
 	d := int64(0)
 	fakeEnd := false
 	switch {
@@ -3198,7 +3207,7 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	for i, v := range found.objAttr.dimensions {
 		shape[i] = int64(v)
 	}
-	attrs := h5.getAttributes(found.attrlist)
+	attrs := h5.getAttributes(h5.attributesOf(found))
 	origNames := map[string]bool{varName: true}
 	ty := cdlTypeString(found.objAttr.class, h5, varName, found.objAttr, origNames)
 	origNames = map[string]bool{varName: true}
@@ -3232,19 +3241,6 @@ func (h5 *HDF5) ListSubgroups() []string {
 	return ret
 }
 
-func (h5 *HDF5) sortAttrList(obj *object) {
-	if obj.attrListIsSorted {
-		return
-	}
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-	}
-	sort.SliceStable(obj.attrlist, func(i, j int) bool {
-		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
-	})
-	obj.attrListIsSorted = true
-}
-
 func (obj *object) sortChildren() []*object {
 	var children []*object
 	for _, child := range obj.children {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 80fe324..998aea5 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -173,7 +173,7 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 	n, err := io.ReadFull(f.rcFile.file, p)
 	// Save position
 	f.seekPointer += int64(n)
-	if err == io.ErrUnexpectedEOF {
+	if n > 0 && err == io.ErrUnexpectedEOF {
 		err = nil // the next read gives io.EOF
 	}
 	if err != nil {
@@ -206,6 +206,8 @@ func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
 }
 
 func (rcf *refCountedFile) reference() {
+	rcf.lock.Lock()
+	defer rcf.lock.Unlock()
 	rcf.refCount++
 }
 
-- 
2.43.0


From f63b98d5f89375474d69cab8e99a30c5e56a7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 40/65] fix: give each caller attribute values of its own

---
 netcdf/cdf/cdf.go         |  4 ++--
 netcdf/hdf5/hdf5.go       | 36 ++++++++++++------------------------
 netcdf/util/orderedmap.go | 17 +++++++++++++++++
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 5f9d495..2d83e2f 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -599,7 +599,7 @@ func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 
 // Attributes returns the global attributes for this group.
 func (cdf *CDF) Attributes() api.AttributeMap {
-	return cdf.globalAttrs
+	return cdf.globalAttrs.Clone()
 }
 
 func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
@@ -782,7 +782,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	for i, v := range dimLengths {
 		shape[i] = int64(v)
 	}
-	return internal.NewSlicer(getSlice, getSliceMD, length, shape, dimNames, varFound.attrs,
+	return internal.NewSlicer(getSlice, getSliceMD, length, shape, dimNames, varFound.attrs.Clone(),
 		cdlType(varFound.vType), goType(varFound.vType)), nil
 }
 
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 99d2393..9af35e9 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -219,7 +219,6 @@ type HDF5 struct {
 	groupObject   *object
 	registrations map[string]any
 	addrs         map[uint64]bool
-	attrLock      *sync.Mutex                  // guards the objects' loadedAttrs
 	heapLock      *sync.Mutex                  // guards heapCache
 	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
 	addrToName    map[uint64]string            // lazy cache: object address → name
@@ -251,7 +250,6 @@ type object struct {
 	fillValueOld  []byte
 	isGroup       bool
 	creationOrder uint64
-	loadedAttrs   []*attribute // attrlist with the values, see attributesOf
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -2340,7 +2338,7 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 	}
 
 	// Attributes can't return an error, so what it needs is read now.
-	h5.loadAttributes(o)
+	h5.attributesOf(o)
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
@@ -2390,7 +2388,6 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		groupObject:   nil,
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
-		attrLock:      &sync.Mutex{},
 		heapLock:      &sync.Mutex{},
 		heapCache:     make(map[uint64]map[uint32][]byte),
 	}
@@ -2402,7 +2399,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
 	// Attributes can't return an error, so what it needs is read now.
-	h5.loadAttributes(h5.rootObject)
+	h5.attributesOf(h5.rootObject)
 	return api.Group(h5), nil
 }
 
@@ -2958,10 +2955,10 @@ func (h5 *HDF5) attrValue(obj *object, a *attribute) any {
 	return getDataAttr(h5, h5, df, *a)
 }
 
-// loadAttributes returns the attributes of an object with their values, in creation order.
+// attributesOf returns the attributes of an object with their values, in creation order.
 // The groups of a file share its objects, so what was read when the file was opened is
-// left as it is.
-func (h5 *HDF5) loadAttributes(obj *object) []*attribute {
+// left as it is, and the caller gets values of its own.
+func (h5 *HDF5) attributesOf(obj *object) []*attribute {
 	loaded := make([]*attribute, 0, len(obj.attrlist))
 	for _, orig := range obj.attrlist {
 		a := *orig
@@ -2975,16 +2972,6 @@ func (h5 *HDF5) loadAttributes(obj *object) []*attribute {
 	return loaded
 }
 
-// attributesOf is like loadAttributes, but loads them only once.
-func (h5 *HDF5) attributesOf(obj *object) []*attribute {
-	h5.attrLock.Lock()
-	defer h5.attrLock.Unlock()
-	if obj.loadedAttrs == nil {
-		obj.loadedAttrs = h5.loadAttributes(obj)
-	}
-	return obj.loadedAttrs
-}
-
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	keys := []string{}
 	filtered := make(map[string]any)
@@ -3054,10 +3041,9 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	return m
 }
 
-func (h5 *HDF5) getDimensions(obj *object) []string {
+func (h5 *HDF5) getDimensions(obj *object, attrs []*attribute) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
-	attrs := h5.attributesOf(obj)
 	for _, a := range attrs {
 		if a.name != "DIMENSION_LIST" {
 			continue
@@ -3111,8 +3097,9 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	if data == nil {
 		return nil, ErrNotFound
 	}
-	dims := h5.getDimensions(found)
-	attrs := h5.getAttributes(h5.attributesOf(found))
+	attrlist := h5.attributesOf(found)
+	dims := h5.getDimensions(found, attrlist)
+	attrs := h5.getAttributes(attrlist)
 	return &api.Variable{
 			Values:     data,
 			Dimensions: dims,
@@ -3202,12 +3189,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
-	dims := h5.getDimensions(found)
+	attrlist := h5.attributesOf(found)
+	dims := h5.getDimensions(found, attrlist)
 	shape := make([]int64, len(found.objAttr.dimensions))
 	for i, v := range found.objAttr.dimensions {
 		shape[i] = int64(v)
 	}
-	attrs := h5.getAttributes(h5.attributesOf(found))
+	attrs := h5.getAttributes(attrlist)
 	origNames := map[string]bool{varName: true}
 	ty := cdlTypeString(found.objAttr.class, h5, varName, found.objAttr, origNames)
 	origNames = map[string]bool{varName: true}
diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index 87562e6..8065d71 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -68,6 +68,23 @@ func (om *OrderedMap) Add(name string, val any) {
 	om.values[name] = val
 }
 
+// Clone returns a copy of an ordered map which the caller can keep and change.
+// Values that are slices are copied, too.
+func (om *OrderedMap) Clone() *OrderedMap {
+	ret := *om
+	ret.keys = slices.Clone(om.keys)
+	ret.visibleKeys = slices.Clone(om.visibleKeys)
+	ret.hiddenKeys = maps.Clone(om.hiddenKeys)
+	ret.values = make(map[string]any, len(om.values))
+	for key, value := range om.values {
+		if v := reflect.ValueOf(value); v.Kind() == reflect.Slice {
+			value = reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, v.Len()), v).Interface()
+		}
+		ret.values[key] = value
+	}
+	return &ret
+}
+
 // Get returns the value associated with key and sets has to true if found.
 func (om *OrderedMap) Get(key string) (val any, has bool) {
 	val, has = om.values[key]
-- 
2.43.0


From 5fb51f7fddfd7cd9cf17c7c135c7e9b7227b9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 41/65] fix: recognise a file object that was read before by
 its content

---
 netcdf/cdf/cdf.go | 2 ++
 netcdf/netcdf4.go | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2d83e2f..d8223eb 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -587,6 +587,8 @@ func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 	defer thrower.RecoverError(&err)
 	refCount := 1
 	c := &CDF{file: file, fileRefCount: &refCount}
+	// The file may have been read before.
+	seekTo(file, 0)
 	err = c.readHeader()
 	if err != nil {
 		return nil, err
diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index b87563d..d08996c 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -69,7 +69,12 @@ func New(file api.ReadSeekerCloser) (api.Group, error) {
 
 func getKind(file io.ReadSeeker) (byte, error) {
 	var b [1]byte
-	_, err := io.ReadFull(file, b[:])
+	// The file may have been read before.
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
+	_, err = io.ReadFull(file, b[:])
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 6683203e78100beaf8bbe840657b38b21e517ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 42/65] fix: describe netCDF characters, one-element attributes
 and multi-dimensional coordinate variables as they are

The CDL type of character variables is char, whose last dimension is the length
of the text; attribute values and their types only lose a dimension of length 1
of the attribute, not of its type; and coordinate variables of several dimensions
have all their dimension names.
---
 netcdf/hdf5/array.go  |  8 +++--
 netcdf/hdf5/hdf5.go   | 71 ++++++++++++++++++++++++++++++++++++++++---
 netcdf/hdf5/string.go |  3 ++
 3 files changed, 76 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index bd80c68..3c9f7f0 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -32,8 +32,12 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	arrayAttr := attr.children[0]
 	ty := goTypeString(arrayAttr.class, sh, typeName, arrayAttr, origNames)
 	assert(ty != "", "unable to parse array attr")
-	dStr := make([]string, len(arrayAttr.dimensions))
-	for i, d := range arrayAttr.dimensions {
+	dimensions := arrayAttr.dimensions
+	if arrayAttr.class == typeString && arrayAttr.length == 1 && len(dimensions) > 0 {
+		dimensions = dimensions[:len(dimensions)-1] // the length of the text
+	}
+	dStr := make([]string, len(dimensions))
+	for i, d := range dimensions {
 		dStr[i] = fmt.Sprintf("[%d]", d)
 	}
 	dims := strings.Join(dStr, "")
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 9af35e9..a216635 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2757,16 +2757,23 @@ func isVariable(obj *object) bool {
 
 // attrRank is the number of dimensions of an attribute's value.
 func attrRank(attr *attribute) int {
-	if len(attr.dimensions) > 0 && attr.dimensions[0] == 1 {
-		return len(attr.dimensions) - 1 // see undoScalarAttribute
+	rank := len(attr.dimensions)
+	if rank > 0 && attr.class == typeString && attr.length == 1 {
+		rank-- // the length of the text
 	}
-	return len(attr.dimensions)
+	if rank > 0 && attr.dimensions[0] == 1 {
+		rank-- // see undoScalarAttribute
+	}
+	return rank
 }
 
 func (h5 *HDF5) findAttrType(attrs []*attribute, attrName string) string {
 	for _, attr := range attrs {
 		if attr.name == attrName {
 			base := cdlTypeString(attr.class, h5, attrName, attr, map[string]bool{})
+			if attr.class == typeString {
+				base = "string" // also the text of netCDF characters
+			}
 			return base + strings.Repeat("(*)", attrRank(attr))
 		}
 	}
@@ -2981,7 +2988,10 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 			continue
 		}
-		value := undoScalarAttribute(val.value)
+		value := val.value
+		if len(val.dimensions) > 0 && val.dimensions[0] == 1 {
+			value = undoScalarAttribute(value)
+		}
 		if _, has := filtered[val.name]; !has {
 			keys = append(keys, val.name)
 		}
@@ -3041,6 +3051,39 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	return m
 }
 
+// dimIDs returns the names of the file's dimensions by their netCDF-4 numbers, which
+// either are stored with them or count them in the order of the groups.
+func (h5 *HDF5) dimIDs() map[int32]string {
+	names := make(map[int32]string)
+	next := int32(0)
+	var walk func(*object)
+	walk = func(group *object) {
+		children := group.sortChildren()
+		for _, child := range children {
+			if child.isGroup || !classifyObject(child.attrlist).hasClass {
+				continue
+			}
+			id := next
+			for _, a := range child.attrlist {
+				if a.name == "_Netcdf4Dimid" {
+					if val, ok := undoScalarAttribute(h5.attrValue(child, a)).(int32); ok {
+						id = val
+					}
+				}
+			}
+			names[id] = child.name
+			next = max(next, id+1)
+		}
+		for _, child := range children {
+			if child.isGroup {
+				walk(child)
+			}
+		}
+	}
+	walk(h5.rootObject)
+	return names
+}
+
 func (h5 *HDF5) getDimensions(obj *object, attrs []*attribute) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
@@ -3072,6 +3115,26 @@ func (h5 *HDF5) getDimensions(obj *object, attrs []*attribute) []string {
 		dimNames = dimNames[:0]
 	}
 
+	// A coordinate variable with more dimensions than its own has their numbers instead.
+	for _, a := range attrs {
+		ids, ok := a.value.([]int32)
+		if a.name != "_Netcdf4Coordinates" || !ok || len(ids) != len(obj.objAttr.dimensions) {
+			continue
+		}
+		idToName := h5.dimIDs()
+		for _, id := range ids {
+			name, has := idToName[id]
+			if !has {
+				break
+			}
+			dimNames = append(dimNames, name)
+		}
+		if len(dimNames) == len(ids) {
+			return dimNames
+		}
+		dimNames = dimNames[:0]
+	}
+
 	for _, a := range attrs {
 		if a.name != "NAME" {
 			continue
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index d92fd98..0b9cfe3 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -13,6 +13,9 @@ var (
 )
 
 func (stringManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+	if attr.length == 1 && len(attr.dimensions) > 0 {
+		return "char" // the last dimension is the length of the text
+	}
 	return "string"
 }
 
-- 
2.43.0


From 20f694a6959b06f5e92586790860b15551865383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 43/65] fix: read symbol-table groups of several index levels

---
 netcdf/hdf5/hdf5.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a216635..5e519bf 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1321,7 +1321,9 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 	}
 }
 
-func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
+// readSymbolTable reads the node at addr of a group's index, which must have the
+// given level unless that is negative, and everything below it.
+func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64, level int) {
 	bf := h5.newSeek(addr, 52) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
@@ -1335,8 +1337,9 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	if nodeLevel > 0 {
 		logger.Infof("Start level %d", nodeLevel)
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
+	assert(level >= 0 || leftAddress == invalidAddress && rightAddress == invalidAddress,
 		"Siblings unexpected")
+	assertError(level < 0 || int(nodeLevel) == level, ErrCorrupted, "bad group index level")
 	assert(nodeType == 0, "what we expect")
 	type keyAddr struct {
 		key  uint64
@@ -1353,6 +1356,10 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
 	for _, v := range keyAddrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTable(parent, v.addr, heapAddr, int(nodeLevel)-1)
+			continue
+		}
 		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
 	}
 }
@@ -2031,7 +2038,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			heapAddr = read64(f)
 			logger.Infof("Symbol table btree=0x%x heap=0x%x", btreeAddr, heapAddr)
 
-			h5.readSymbolTable(obj, btreeAddr, heapAddr)
+			h5.readSymbolTable(obj, btreeAddr, heapAddr, -1)
 
 		case typeObjectModificationTime:
 			// this may not be used in netcdf
-- 
2.43.0


From f8f9753ac2f2db1726a8c65da1ba6595944938f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 44/65] fix: refuse CDF variables of dimensions that don't
 exist

---
 netcdf/cdf/cdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index d8223eb..2251d66 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -399,6 +399,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	for i := uint64(0); i < nDims; i++ {
 		// dimid
 		dimids[i] = cdf.readNumber(bf)
+		assert(dimids[i] < uint64(len(cdf.dimensions)),
+			fmt.Sprint(name, " dimid: ", dimids[i], " not found"),
+			ErrCorruptedFile)
 	}
 	attrs := cdf.getAttrList(bf)
 	vType := read32(bf)
-- 
2.43.0


From 1bcb2d516385bcc708ef8d8e1e6d36e603422872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 45/65] fix: don't allocate memory for CDF values that aren't
 in the file

---
 netcdf/cdf/cdf.go | 76 ++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2251d66..a41e97f 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -177,11 +177,24 @@ func assert(condition bool, message string, err error) {
 	fail(message, err)
 }
 
-// Read up to nBytes
+// Read nBytes
 func readBytes(r io.Reader, nBytes uint64) []byte {
-	b := make([]byte, nBytes)
-	util.MustReadBE(r, b)
-	return b
+	return readValues[byte](r, nBytes)
+}
+
+// readValues reads n values. The memory for them is allocated as they are read, because
+// a corrupted file may claim that there are any number of them.
+func readValues[T any](r io.Reader, n uint64) []T {
+	const most = 1 << 16
+	values := make([]T, min(n, most))
+	util.MustReadBE(r, values)
+	for left := n - uint64(len(values)); left > 0; {
+		more := make([]T, min(left, most))
+		util.MustReadBE(r, more)
+		values = append(values, more...)
+		left -= uint64(len(more))
+	}
+	return values
 }
 
 func read8(r io.Reader) byte {
@@ -234,86 +247,54 @@ func (cdf *CDF) getAttr(bf io.Reader) (string, any) {
 	switch vType {
 	case typeByte:
 		// byte becomes int8 in go-speak
-		b := make([]int8, nvars)
-		util.MustReadBE(bf, b)
-		values = b
+		values = readValues[int8](bf, nvars)
 		nread += nvars
 
 	case typeChar:
 		// char array becomes string in go-speak
-		b := make([]byte, nvars)
-		util.MustReadBE(bf, b)
-		values = string(b)
+		values = string(readBytes(bf, nvars))
 		nread += nvars
 
 	case typeShort:
-		sv := make([]int16, nvars)
-		util.MustReadBE(bf, sv)
-		values = sv
+		values = readValues[int16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeInt:
-		i32v := make([]int32, nvars)
-		util.MustReadBE(bf, i32v)
-		values = i32v
+		values = readValues[int32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeFloat:
-		fv := make([]float32, nvars)
-		util.MustReadBE(bf, fv)
-		values = fv
+		values = readValues[float32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeDouble:
-		dv := make([]float64, nvars)
-		util.MustReadBE(bf, dv)
-		values = dv
+		values = readValues[float64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUByte:
 		cdf.checkVersion(5)
 		// unsigned byte becomes uint8 in go-speak
-		b := make([]uint8, nvars)
-		for i := range b {
-			b[i] = uint8(read8(bf))
-		}
-		values = b
+		values = readValues[uint8](bf, nvars)
 		nread += nvars
 
 	case typeUShort:
 		cdf.checkVersion(5)
-		sv := make([]uint16, nvars)
-		for i := range sv {
-			sv[i] = read16(bf)
-		}
-		values = sv
+		values = readValues[uint16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeUInt:
 		cdf.checkVersion(5)
-		i32v := make([]uint32, nvars)
-		for i := range i32v {
-			i32v[i] = read32(bf)
-		}
-		values = i32v
+		values = readValues[uint32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeInt64:
 		cdf.checkVersion(5)
-		i64v := make([]int64, nvars)
-		for i := range i64v {
-			i64v[i] = int64(read64(bf))
-		}
-		values = i64v
+		values = readValues[int64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUInt64:
 		cdf.checkVersion(5)
-		i64v := make([]uint64, nvars)
-		for i := range i64v {
-			i64v[i] = read64(bf)
-		}
-		values = i64v
+		values = readValues[uint64](bf, nvars)
 		nread += 8 * nvars
 
 	default:
@@ -368,6 +349,7 @@ func (cdf *CDF) getAttrList(bf io.Reader) *util.OrderedMap {
 
 func (cdf *CDF) readName(bf io.Reader) string {
 	nameLen := cdf.readNumber(bf)
+	assert(nameLen <= math.MaxInt32, "bad length of name", ErrCorruptedFile)
 	b := readBytes(bf, roundInt32(nameLen))
 	for i := uint64(0); i < nameLen; i++ {
 		if b[i] == 0 {
-- 
2.43.0


From 5b94a37c9da04b9980f51567a41e43be63d42ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 46/65] fix: refuse CDF variables with negative or overflowing
 sizes

---
 netcdf/cdf/cdf.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index a41e97f..9c497c4 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -81,6 +81,12 @@ type CDF struct {
 
 const maxDimensions = 1024
 
+// maxElements is more than the elements that any variable can have.
+const maxElements = math.MaxInt64 / 8
+
+// maxSliceBytes is more than the memory that any machine has.
+const maxSliceBytes = 1 << 46
+
 var (
 	ErrNotCDF                = errors.New("not a CDF file")
 	ErrUnsupportedVersion    = errors.New("unsupported CDF version")
@@ -364,6 +370,7 @@ func (cdf *CDF) readName(bf io.Reader) string {
 func (cdf *CDF) getDim(bf io.Reader) dimension {
 	name := cdf.readName(bf)
 	dimLength := cdf.readNumber(bf)
+	assert(dimLength <= math.MaxInt64, "negative dimension", ErrCorruptedFile)
 	return dimension{name, dimLength}
 }
 
@@ -459,6 +466,7 @@ func (cdf *CDF) readHeader() (err error) {
 	assert(numRecs != 0xffffffffffffffff,
 		"streaming not supported",
 		ErrNoStreamingDimensions)
+	assert(numRecs <= math.MaxInt64, "negative number of records", ErrCorruptedFile)
 	cdf.numRecs = numRecs
 
 	// dimlist
@@ -617,6 +625,9 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			dimLengths[i] = cdf.numRecs
 		}
 		dimNames[i] = dim.name
+		assert(dimLengths[i] == 0 || totalSize <= maxElements/int64(dimLengths[i]),
+			"variable too large",
+			ErrCorruptedFile)
 		totalSize *= int64(dimLengths[i])
 	}
 	var chunkSize int64
@@ -669,6 +680,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		default:
 			thrower.Throw(ErrInternal)
 		}
+		assert(sizeInBytes <= maxSliceBytes, "slice too large", ErrCorruptedFile)
 
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
-- 
2.43.0


From 168a3118811e14ca49c4b2f9ca194f17659a1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 47/65] fix: compute the size of a CDF record from the
 dimensions

---
 netcdf/cdf/cdf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 9c497c4..eb7b054 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -417,7 +417,8 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 		default:
 			thrower.Throw(ErrUnknownType)
 		}
-		cdf.recSize += uint64(vsize)
+		// The stored vsize is redundant, and not right for large variables.
+		cdf.recSize += roundInt32(n)
 		usedVsize = n
 	}
 	var offset uint64
-- 
2.43.0


From 78a1b48026cb200b29389e531308cd9e7e71f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 48/65] fix: return an error instead of exiting for non-zero
 reserved bytes

A file whose reserved bytes aren't zero is damaged or of an unknown version.
Opening it returns ErrCorrupted; it doesn't end the process.
---
 netcdf/hdf5/assert.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..1b387e7 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -16,8 +16,8 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = corrupted // logging function for padBytesCheck()
+	maybeFail = fail      // fail function, can be disabled for testing
 )
 
 // Panics if condition isn't met
@@ -64,6 +64,11 @@ func failError(err error, msg string) {
 	panic("never gets here")
 }
 
+// Panics with the error for corrupted files
+func corrupted(v ...any) {
+	failError(ErrCorrupted, fmt.Sprint(v...))
+}
+
 // Check that pad bytes are zero up to byte boundary (pad32 = 1,3 or 7)
 func padBytes(bf io.Reader, pad32 int) {
 	padBytesCheck(bf, pad32, round, logFunc)
-- 
2.43.0


From 43a3bd90213a9e684ecccc5a9d9272a634b65bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 49/65] fix: check lengths and addresses in HDF5 files before
 using them

They come from the file. Negative, overflowing and far too large ones made
Open panic or ask for more memory than there is.
---
 netcdf/hdf5/hdf5.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 5e519bf..1c91928 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -285,7 +285,7 @@ func SetLogLevel(level int) int {
 
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
-	assert(int64(addr)+size <= h5.fileSize,
+	assert(size >= 0 && addr <= uint64(h5.fileSize) && size <= h5.fileSize-int64(addr),
 		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
 			addr, size, int64(addr)+size, h5.fileSize))
 	if size == 0 {
@@ -742,6 +742,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	b := readEnc(bf, uint8(size))
 	lenlen := uint64(b)
 	logger.Infof("lenlen=0x%x", lenlen)
+	assertError(lenlen <= uint64(bf.Rem()), ErrCorrupted, "link name is too long")
 	linkName := make([]byte, lenlen)
 	if lenlen > 0 {
 		read(bf, linkName)
@@ -1133,6 +1134,7 @@ func (h5 *HDF5) readHeapCollection(heapAddress uint64) map[uint32][]byte {
 	checkVal(1, version, "version")
 	checkZeroes(bf, 3)
 	csize := read64(bf) // collection size including these 16 header bytes
+	assertError(csize >= 16, ErrCorrupted, "global heap is too small")
 	csize -= 16
 	bf = h5.newSeek(heapAddress+uint64(bf.Count()), int64(csize))
 	for csize >= 16 {
@@ -1249,7 +1251,9 @@ func (h5 *HDF5) readLocalHeap(addr uint64, offset uint64) string {
 	flOffset := read64(bf)
 	dsAddr := read64(bf)
 	logger.Infof("dsSize=%d flOffset=0x%x dsAddr=0x%x", dsSize, flOffset, dsAddr)
-	bff := h5.newSeek(dsAddr+offset, int64(dsSize)-int64(offset))
+	assertError(offset < dsSize && dsSize <= uint64(h5.fileSize) && dsAddr <= uint64(h5.fileSize),
+		ErrCorrupted, "bad local heap")
+	bff := h5.newSeek(dsAddr+offset, int64(dsSize-offset))
 	return readNullTerminatedName(bff, 0)
 }
 
@@ -1426,7 +1430,7 @@ func hexPrint(addr uint64) string {
 func (h5 *HDF5) isMagic(magic string, addr uint64) bool {
 	assert(addr != 0 && addr != invalidAddress,
 		fmt.Sprint("invalid address for checking magic number: ", hexPrint(addr)))
-	if addr+4 > uint64(h5.fileSize) {
+	if h5.fileSize < 4 || addr > uint64(h5.fileSize)-4 {
 		logger.Error("seeking past end of file -- probably a truncated file")
 		thrower.Throw(ErrCorrupted)
 		panic("not reached")
@@ -1829,6 +1833,7 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 		logger.Infof("zero length fill value")
 		return nil // zero-length, maybe they meant zero
 	}
+	assertError(int64(len) <= bf.(remReader).Rem(), ErrCorrupted, "fill value is too long")
 	b := make([]byte, len)
 	read(bf, b)
 	logger.Infof("fill value=0x%x len=%d", b, len)
@@ -1961,6 +1966,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("Fill value old")
 			sz := read32(f)
 			logger.Info("Fill value old size", sz)
+			assertError(int64(sz) <= f.Rem(), ErrCorrupted, "old fill value is too long")
 			fv := make([]byte, sz)
 			read(f, fv)
 			obj.fillValueOld = fv
@@ -2114,6 +2120,7 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	chunkSize := size
 	start := 0
 	if version > 1 {
+		assertError(size >= 8, ErrCorrupted, "continuation is too small")
 		checkMagic(bf, 4, "OCHK")
 		chunkSize = size - 8 // minus magic & checksum
 		start = 4            // skip magic
@@ -2540,7 +2547,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 	if obj.fillValue == nil {
 		objFillValue = obj.fillValueOld
 	}
-	if objFillValue != nil {
+	if len(objFillValue) > 0 {
 		if &objFillValue[0] == &fillValueUndefinedConstant[0] {
 			logger.Info("Using the undefined fill value")
 			undefinedFillValue = true
-- 
2.43.0


From f1e645fb7b2777ea39ad9f4f52e68c458bb449e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 50/65] fix: don't follow loops in HDF5 files

A B-tree node, a heap block or a continuation of an object header that refers
to itself made Open run until the stack or the memory was used up. A record
type which isn't supported ended the process.
---
 netcdf/hdf5/hdf5.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 1c91928..c9729bb 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -233,6 +233,7 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	nrows            uint16 // rows of the indirect block read, if any
 }
 
 type object struct {
@@ -250,6 +251,7 @@ type object struct {
 	fillValueOld  []byte
 	isGroup       bool
 	creationOrder uint64
+	continuations map[uint64]bool // addresses of the header's other chunks
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -691,6 +693,7 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	logger.Infof("Read indirect block 0x%x %d", blockToUse, blockSize)
 	nrows := log2(blockSize) - log2(link.blockSize*uint64(width)) + 1
 	logger.Info("calculated rows=", nrows, "blocksize=", blockSize)
+	assertError(nrows > 0, ErrCorrupted, "indirect heap block has no rows")
 	h5.readRootBlock(&nextLink, blockToUse, uint16(nrows))
 
 	h5.readLinkData(obj, &nextLink, offset, length, creationOrder, callback)
@@ -773,7 +776,12 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	logger.Infof("done with name=%s", string(linkName))
 }
 
-func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
+// readBTreeInternal reads the node at bta and everything below it. The nodes which have
+// been read are in seen, because no node can be in a tree twice.
+func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32,
+	seen map[uint64]bool) {
+	assertError(!seen[bta], ErrCorrupted, "B-tree node is in the tree twice")
+	seen[bta] = true
 	nr := uint64(numRec) // should work
 	len := 4 + 2 + nr*uint64(recordSize)
 	sub := 0
@@ -804,6 +812,7 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 		// Each child pointer triplet: 8-byte address + 4 numRecords + 4 totalRecords = 16 bytes.
 		fixedSizeOverhead := uint32(10)
 		onePointerTriplet := uint32(16)
+		assertError(nodeSize >= fixedSizeOverhead+onePointerTriplet, ErrCorrupted, "B-tree node is too small")
 		maxNumberOfRecords := uint64(nodeSize-(fixedSizeOverhead+onePointerTriplet)) / (uint64(recordSize) + uint64(onePointerTriplet))
 		logger.Info("max number of records", maxNumberOfRecords)
 		assert(maxNumberOfRecords < 256, "can't handle this") // TODO: support bigger maxes
@@ -816,7 +825,7 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 			h5.readBTreeLeaf(parent, cnp, uint64(cnr), recordSize)
 		} else {
 			logger.Info("Descend into node")
-			h5.readBTreeInternal(parent, cnp, uint64(cnr), recordSize, depth-1, nodeSize)
+			h5.readBTreeInternal(parent, cnp, uint64(cnr), recordSize, depth-1, nodeSize, seen)
 		}
 		if depth > 1 {
 			tnr := read16(bf) // total number of records in child node
@@ -865,7 +874,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				logger.Infof("offset=0x%x length=%d", offset, length)
 				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 
 		case 8: // for indexing the ‘name’ field for indexed attributes.
@@ -917,7 +926,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 					offset, length, mflags, co)
 				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 		default:
 			fail(fmt.Sprintf("unhandled type: %d", ty))
@@ -1010,9 +1019,13 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	width := link.tableWidth
 	startBlockSize := link.blockSize
 	maxBlockSize := link.maximumBlockSize
+	assertError(startBlockSize > 0 && maxBlockSize >= startBlockSize, ErrCorrupted, "bad heap block sizes")
+	// An indirect block has fewer rows than the one it is in.
+	assertError(link.nrows == 0 || nrows < link.nrows, ErrCorrupted, "indirect heap block is too big")
+	link.nrows = nrows
 	// bytes in block
 	// signature=4 version=1 heapaddr=8 blockoffset=(calc) + variables=(calc) + checksum
-	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows*width*8) + 4
+	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows)*int64(width)*8 + 4
 	bf := h5.newSeek(bta, bSize)
 	checkMagic(bf, 4, "FHIB")
 	version := read8(bf)
@@ -1033,7 +1046,7 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	maxRowsDirect := log2(maxBlockSize) - log2(startBlockSize) + 2
 	directRows := maxRowsDirect
 	indirectRows := 0
-	if nrows < uint16(maxRowsDirect) {
+	if int(nrows) < maxRowsDirect {
 		directRows = int(nrows)
 	} else {
 		indirectRows = int(nrows) - maxRowsDirect
@@ -1396,8 +1409,10 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	h5.checkChecksum(addr, 34)
 	// TODO: indirect blocks for leaf
 	if depth > 0 {
-		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize)
+		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize,
+			make(map[uint64]bool))
 	} else {
+		checkVal(numRecRootNode, numRec, "number of records in the root node")
 		h5.readBTreeLeaf(parent, rootNodeAddress, uint64(numRec), recordSize)
 	}
 }
@@ -2116,6 +2131,11 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	offset := read64(obf)
 	size := read64(obf)
 	logger.Infof("continuation offset=%08x length=%d", offset, size)
+	assertError(!obj.continuations[offset], ErrCorrupted, "continuation is in the header twice")
+	if obj.continuations == nil {
+		obj.continuations = make(map[uint64]bool)
+	}
+	obj.continuations[offset] = true
 	bf := h5.newSeek(offset, int64(size))
 	chunkSize := size
 	start := 0
-- 
2.43.0


From ea5c1b488175ea9cd29b4aa6031e8ab9c1b2d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 51/65] fix: read what follows a second link to an object in a
 symbol table

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c9729bb..f54f1cb 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1320,7 +1320,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		if h5.hasAddr(objectHeaderAddress) {
 			logger.Info("avoid link loop")
 			logger.Infof("done with name=%s", string(linkName))
-			return
+			continue
 		}
 		obj := newObject()
 		obj.addr = objectHeaderAddress
-- 
2.43.0


From 6c250030a273fb9a400f3e302aee7fa868ccc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 52/65] fix: check the sizes of HDF5 types

The size of a type must agree with its class and with what it is made of.
Otherwise reading values of it panicked or needed too much memory.
---
 netcdf/hdf5/array.go    |  1 +
 netcdf/hdf5/compound.go |  4 ++++
 netcdf/hdf5/enum.go     |  7 +------
 netcdf/hdf5/readers.go  | 26 ++++++++++++++------------
 netcdf/hdf5/types.go    |  1 +
 netcdf/hdf5/vlen.go     |  4 +++-
 6 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index 3c9f7f0..81b2de0 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -91,6 +91,7 @@ func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitField
 	var arrayAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &arrayAttr)
 	arrayAttr.dimensions = dimensions
+	assertError(calcAttrSize(&arrayAttr) == uint64(attr.length), ErrCorrupted, "bad array size")
 	attr.children = append(attr.children, &arrayAttr)
 	if df != nil && df.Rem() > 0 {
 		logger.Info("Using an array in an attribute")
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index ec10876..1ace870 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -119,6 +119,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 			}
 			reserved := read32(bf)
 			checkVal(0, reserved, "reserved dt")
+			assertError(dimensionality <= 4, ErrCorrupted, "too many dimensions of a member")
 			compoundAttribute.dimensions = make([]uint64, 4)
 			for i := range 4 {
 				dsize := read32(bf)
@@ -132,6 +133,9 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 		printDatatype(hr, c, bf, nil, 0, &compoundAttribute)
 		logger.Infof("%d compound after: len(prop) = %d len(data) = %d", i, bf.Rem(), rem)
 		logger.Infof("%d compound dtlength", compoundAttribute.length)
+		size := calcAttrSize(&compoundAttribute)
+		assertError(size <= uint64(attr.length) && uint64(byteOffset) <= uint64(attr.length)-size,
+			ErrCorrupted, "member is outside of compound")
 		attr.children = append(attr.children, &compoundAttribute)
 	}
 	logger.Info("Compound length is", attr.length)
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index f064c95..64baa6e 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -138,12 +138,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	default:
 		thrower.Throw(ErrFixedPoint)
 	}
-	switch attr.length {
-	case 1, 2, 4, 8:
-		break
-	default:
-		thrower.Throw(ErrFixedPoint)
-	}
+	assertError(attr.length == enumAttr.length, ErrCorrupted, "bad enum size")
 	values := make([]any, numberOfMembers)
 	enumAttr.enumValues = values
 	for i := uint32(0); i < numberOfMembers; i++ {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 998aea5..ff7b343 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -7,6 +7,8 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
+	"slices"
 	"sync"
 
 	"github.com/batchatco/go-thrower"
@@ -296,25 +298,25 @@ type layoutReader struct {
 
 // calcChunkSize calculates the number of elements of a chunk
 func calcChunkSize(attr *attribute) uint64 {
-	chunkSize := uint64(1)
-	for _, v := range attr.layout {
-		chunkSize *= v
-	}
-	return chunkSize
+	return product(attr.layout)
 }
 
 // calcAttrSize computes the total size of an object in bytes.
 func calcAttrSize(attr *attribute) uint64 {
-	return calcDataSize(attr) * uint64(attr.length)
+	return product(append([]uint64{uint64(attr.length)}, attr.dimensions...))
 }
 
-// calcDataSize computes the number of elements of an object.
-func calcDataSize(attr *attribute) uint64 {
-	dataSize := uint64(1)
-	for _, v := range attr.dimensions {
-		dataSize *= v
+// product multiplies sizes. What doesn't fit in an int64 can't be right.
+func product(sizes []uint64) uint64 {
+	if slices.Contains(sizes, 0) {
+		return 0
+	}
+	total := uint64(1)
+	for _, v := range sizes {
+		assertError(v <= math.MaxInt64/total, ErrCorrupted, "size is too big")
+		total *= v
 	}
-	return dataSize
+	return total
 }
 
 // fillrows makes the next rows, those which are in the same chunks.
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..d67b55c 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -125,6 +125,7 @@ func printDatatype(hr heapReader, c caster, bf remReader, df remReader, objCount
 	dtversion := (b0 >> 4) & 0b1111
 	dtclass := b0 & 0b1111
 	dtlength := read32(bf)
+	assertError(int(dtclass) < len(typeNames), ErrCorrupted, fmt.Sprint("unknown type class ", dtclass))
 	logger.Infof("* length=%d dtlength=%d dtversion=%d class=%s flags=%s",
 		bf.Rem(), dtlength,
 		dtversion, typeNames[dtclass], binaryToString(uint64(bitFields)))
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 22c28ca..28c9c68 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -71,6 +71,8 @@ func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	default:
 		fail("unknown variable-length type")
 	}
+	// a length, the address of a global heap and an index in it
+	assertError(attr.length == 16, ErrCorrupted, "bad variable-length size")
 	var variableAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &variableAttr)
 	logger.Info("variable class", variableAttr.class, "vtType", vtType)
@@ -188,7 +190,7 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 			return reflect.MakeSlice(sliceType, 0, 0).Interface()
 		}
 		bff, size := hr.readGlobalHeap(addr, index)
-		assert(uint64(length)*calcAttrSize(&attr) <= size, "sequence is longer than its data")
+		assert(uint64(length) <= size/calcAttrSize(&attr), "sequence is longer than its data")
 		sl := reflect.MakeSlice(sliceType, int(length), int(length))
 		for i := range int(length) {
 			sl.Index(i).Set(reflect.ValueOf(getDataAttr(hr, c, bff, attr)))
-- 
2.43.0


From 10abe74ea6302fe8996d16b079d6bafb28aef73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 53/65] fix: check that the shape of HDF5 data agrees with its
 size

The number of values a file says it has isn't trusted any more, because
allocating them panicked or used up the memory.
---
 netcdf/hdf5/hdf5.go    | 38 +++++++++++++++++++++++++++++++++++---
 netcdf/hdf5/readers.go | 12 +++++-------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f54f1cb..cdd30ce 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -244,6 +244,8 @@ type object struct {
 	name          string
 	attrlist      []*attribute
 	dataBlocks    []dataBlock
+	dataSize      uint64 // size in bytes of the data if it isn't chunked
+	elementSize   uint32 // size in bytes of an element if the data is chunked
 	btreeAddr     uint64
 	filters       []filter
 	objAttr       *attribute
@@ -634,7 +636,9 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	attr.dimensions = dims
 	logger.Info("sizeRem=", bf.Rem())
 	pf := newResetReaderFromBytes(dtb)
+	available := bf.Rem()
 	printDatatype(h5, h5, pf, bf, count, attr)
+	assertError(calcAttrSize(attr) <= uint64(available), ErrCorrupted, "attribute is too short")
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
@@ -951,7 +955,7 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 func (h5 *HDF5) readChunkIndex(obj *object, firstRow, lastRow uint64) []dataBlock {
 	var blocks []dataBlock
 	rank := len(obj.objAttr.layout)
-	chunkLength := calcChunkSize(obj.objAttr) * uint64(obj.objAttr.length)
+	chunkLength := product(append([]uint64{uint64(obj.objAttr.length)}, obj.objAttr.layout...))
 	// Tells if chunks starting in rows low to high overlap the requested rows.
 	overlaps := func(low, high uint64) bool {
 		return low < lastRow && (high >= firstRow || firstRow-high < obj.objAttr.layout[0])
@@ -1559,13 +1563,13 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64, bool) {
 		fail(fmt.Sprintf("unknown dstype %d", dstype))
 	}
 	ret := make([]uint64, d)
-	count := int64(1)
 	for i := range int(d) {
 		sz := read64(bf)
 		logger.Infof("dataspace dimension %d/%d size=%d", i, d, sz)
+		assertError(sz <= math.MaxInt64, ErrCorrupted, "dimension is too long")
 		ret[i] = sz
-		count *= int64(sz)
 	}
+	count := int64(product(ret))
 	if hasFlag8(flags, 0) {
 		for i := range int(d) {
 			sz := read64(bf)
@@ -1657,6 +1661,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 	case classCompact:
 		size := read16(bf)
 		logger.Infof("layout compact size=%d", size)
+		parent.dataSize = uint64(size)
 		b := make([]byte, size)
 		read(bf, b)
 		parent.dataBlocks = append(parent.dataBlocks,
@@ -1669,6 +1674,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 		address := read64(bf)
 		size := read64(bf)
 		logger.Infof("layout contiguous address=0x%x size=%d", address, size)
+		parent.dataSize = size
 		if address != invalidAddress {
 			logger.Infof("alloc blocks")
 			parent.dataBlocks = append(parent.dataBlocks,
@@ -1702,6 +1708,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			size := read32(bf)
 			logger.Infof("layout data element size=%d, number of elements=%d", size,
 				numberOfElements)
+			parent.elementSize = size
 			if address != invalidAddress {
 				parent.btreeAddr = address
 			} else {
@@ -2455,7 +2462,26 @@ func (h5 *HDF5) dumpObject(obj *object) {
 	}
 }
 
+// maxSliceBytes limits the slices which are allocated. Go panics for those which
+// don't fit in the address space.
+const maxSliceBytes = 1 << 46
+
+// checkSlices checks that slices with the given dimensions can be allocated.
+func checkSlices(dimLengths []uint64) {
+	const sliceSize = 24 // what a slice takes up in another one, which is more than numbers do
+	total := uint64(1)
+	for _, v := range dimLengths {
+		if v == 0 {
+			return
+		}
+		assertError(v <= maxSliceBytes/sliceSize/total, ErrDimensionality, "too many values")
+		total *= v
+	}
+}
+
 func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
+	assertError(dimLengths[0] <= maxSliceBytes/max(1, uint64(ty.Size())), ErrDimensionality,
+		"too many values")
 	sliceType := reflect.SliceOf(ty)
 	for i := 1; i < len(dimLengths); i++ {
 		sliceType = reflect.SliceOf(sliceType)
@@ -2472,6 +2498,11 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		return newResetReaderFromBytes([]byte{})
 	}
 	logger.Info("size=", size, "dtlength=", attr.length, "dims=", attr.dimensions)
+	if len(attr.layout) > 0 {
+		assertError(obj.elementSize == attr.length, ErrCorrupted, "bad element size of chunks")
+	} else {
+		assertError(obj.dataSize >= size, ErrCorrupted, "data is too short")
+	}
 	firstOffset := uint64(0)
 	lastOffset := size
 	if attr.isSlice && len(attr.dimensions) > 0 {
@@ -2622,6 +2653,7 @@ func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
 		}
 		dimensions = nd
 	}
+	checkSlices(dimensions)
 	return alloc(attr.class, hr, c, bf, &attr, dimensions)
 }
 
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index ff7b343..0ee60ae 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -269,11 +269,14 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 		thisLen = r.size
 	}
 	if r.b == nil {
-		b := make([]byte, r.size)
-		_, err := io.ReadFull(r.r, b)
+		// The size isn't trusted until that much was really there.
+		b, err := io.ReadAll(io.LimitReader(r.r, int64(r.size)))
 		if err != nil {
 			return 0, err
 		}
+		if uint64(len(b)) < r.size {
+			return 0, io.ErrUnexpectedEOF
+		}
 		unshuffle(b, r.shuffleParam)
 		r.b = b
 	}
@@ -296,11 +299,6 @@ type layoutReader struct {
 	buf     []byte
 }
 
-// calcChunkSize calculates the number of elements of a chunk
-func calcChunkSize(attr *attribute) uint64 {
-	return product(attr.layout)
-}
-
 // calcAttrSize computes the total size of an object in bytes.
 func calcAttrSize(attr *attribute) uint64 {
 	return product(append([]uint64{uint64(attr.length)}, attr.dimensions...))
-- 
2.43.0


From 2fa4c5f3689c1d87babf8eb6eb811ab2e2555103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 54/65] fix: don't panic for HDF5 types, dimensions and names
 that make no sense

What can't be described has no description, and what has no length is no
dimension. Names of links can't be empty or have a slash in them.
---
 netcdf/hdf5/amap.go |  4 +--
 netcdf/hdf5/hdf5.go | 67 +++++++++++++++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index be9535d..10a2305 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -13,12 +13,12 @@ type callback struct {
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findAttrType(c.attrs, key)
+	ret := describe(func() string { return c.h5.findAttrType(c.attrs, key) })
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findAttrGoType(c.attrs, key)
+	ret := describe(func() string { return c.h5.findAttrGoType(c.attrs, key) })
 	return ret, ret != ""
 }
 
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index cdd30ce..65721ec 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -642,6 +642,11 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
+// isLinkName tells whether an object can have the name in its group.
+func isLinkName(name string) bool {
+	return name != "" && !strings.Contains(name, "/")
+}
+
 type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint16,
 	creationOrder uint64)
 
@@ -759,6 +764,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 		checkZeroes(bf, int(bf.Rem()))
 	}
 	logger.Infof("hard link=0x%x", hardAddr)
+	assertError(isLinkName(string(linkName)), ErrCorrupted, "bad link name")
 	_, has := parent.children[string(linkName)]
 	assert(!has, "duplicate object")
 	if h5.hasAddr(hardAddr) {
@@ -1294,7 +1300,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		logger.Infof("%d: link name offset=0x%x", i, linkNameOffset)
 		linkName := h5.readLocalHeap(heapAddr, linkNameOffset)
 		logger.Infof("%d: link name=%s", i, linkName)
-		assert(len(linkName) > 0, "namelen cannot be zero")
+		assertError(isLinkName(linkName), ErrCorrupted, "bad link name")
 		objectHeaderAddress := read64(bf) // 16
 		logger.Infof("local symbol table entry=%d header addr=0x%x",
 			linkNameOffset, objectHeaderAddress)
@@ -2879,10 +2885,28 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 		logger.Info("this is a group")
 		return nil, false
 	}
-	assert(len(obj.attrlist) == 0, "types don't have attributes")
+	if len(obj.attrlist) != 0 {
+		logger.Info("types don't have attributes")
+		return nil, false
+	}
 	return obj, true
 }
 
+// describe returns what the function returns, or the empty string if it fails, for
+// entry points which can't return an error.
+func describe(f func() string) string {
+	var ret string
+	err := func() (err error) {
+		defer thrower.RecoverError(&err)
+		ret = f()
+		return nil
+	}()
+	if err != nil {
+		return ""
+	}
+	return ret
+}
+
 // GetType gets the CDL description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetType(typeName string) (string, bool) {
 	obj, has := h5.getTypeObj(typeName)
@@ -2890,31 +2914,25 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 		return "", false
 	}
 	origNames := map[string]bool{typeName: true}
-	sig := cdlTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
-	return sig, true
+	sig := describe(func() string {
+		return cdlTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
+	})
+	return sig, sig != ""
 }
 
 // GetGoType gets the Go description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
-	obj, has := h5.groupObject.children[typeName]
+	obj, has := h5.getTypeObj(typeName)
 	if !has {
 		return "", false
 	}
-	logger.Info("Found type", typeName, "group", h5.groupName, "child=", obj.name)
-	if len(obj.attrlist) != 0 {
-		logger.Info("types don't have attributes")
-		return "", false
-	}
-	if obj.objAttr.dimensions != nil {
-		logger.Info("this is a variable")
-		return "", false
-	}
-	if obj.isGroup {
-		logger.Info("this is a group")
+	origNames := map[string]bool{typeName: true}
+	sig := describe(func() string {
+		return goTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
+	})
+	if sig == "" {
 		return "", false
 	}
-	origNames := map[string]bool{typeName: true}
-	sig := goTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
 	return fmt.Sprintf("type %s %s", typeName, sig), true
 }
 
@@ -2946,7 +2964,7 @@ func (h5 *HDF5) ListDimensions() []string {
 			continue
 		}
 		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) {
+		if k.hasClass && (k.hasName || !k.hasCoordinates) && len(obj.objAttr.dimensions) > 0 {
 			ret = append(ret, obj.name)
 		}
 	}
@@ -2961,7 +2979,8 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 			continue
 		}
 		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
+		if k.hasClass && (k.hasName || !k.hasCoordinates) && len(obj.objAttr.dimensions) > 0 &&
+			obj.name == name {
 			return obj.objAttr.dimensions[0], true
 		}
 	}
@@ -3074,6 +3093,9 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 // A scalar attribute can be stored as a single-length array.
 // This code undoes that to return an actual scalar.
 func undoScalarAttribute(value any) any {
+	if value == nil {
+		return nil // a type which isn't supported
+	}
 	// Opaque and compound are slices, but we don't want to undo them.
 	switch value.(type) {
 	case opaque, compound:
@@ -3158,7 +3180,10 @@ func (h5 *HDF5) getDimensions(obj *object, attrs []*attribute) []string {
 			continue
 		}
 		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
-		varLen := a.value.([][]uint64)
+		varLen, ok := a.value.([][]uint64)
+		if !ok {
+			continue
+		}
 		addrToName := h5.addrIndex()
 		found := false
 		for _, v := range varLen {
-- 
2.43.0


From a2446fdc441179ed2841571910a241c20ed626cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 55/65] fix: refuse HDF5 objects without a type and endless
 unshuffling

An object which isn't a group must have a type; looking at one without panicked.
Unshuffling elements that are larger than the data took forever.
---
 netcdf/hdf5/hdf5.go    | 8 ++++++++
 netcdf/hdf5/readers.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 65721ec..99c4ee1 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -779,6 +779,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	obj.addr = hardAddr
 	h5.addrs[hardAddr] = true
 	h5.readDataObjectHeader(obj, hardAddr)
+	checkKind(obj)
 	logger.Info("obj name", obj.name)
 	logger.Infof("object (0x%x, %s) from parent (0x%x, %s)\n",
 		obj.addr, obj.name, parent.addr, parent.name)
@@ -1342,6 +1343,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		parent.children[obj.name] = obj
 		obj.isGroup = true
 		h5.readDataObjectHeader(obj, objectHeaderAddress)
+		checkKind(obj)
 		logger.Info("STE rem=", bf.Rem())
 		h5.dumpObject(obj)
 		logger.Infof("done with name=%s", obj.name)
@@ -2186,6 +2188,12 @@ func (h5 *HDF5) readDataObjectHeader(obj *object, addr uint64) {
 	h5.readDataObjectHeaderV1(obj, addr)
 }
 
+// checkKind checks that an object is a group or has a type.
+func checkKind(obj *object) {
+	assertError(obj.objAttr.length > 0 || obj.isGroup && obj.objAttr.dimensions == nil,
+		ErrCorrupted, "object is neither a group nor a variable nor a type")
+}
+
 func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	obj.addr = addr
 	origAddr := addr
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 0ee60ae..a275992 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -244,7 +244,7 @@ func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader
 }
 
 func unshuffle(val []byte, n uint32) {
-	if n <= 1 {
+	if n <= 1 || uint64(n) > uint64(len(val)) {
 		return // avoids allocation
 	}
 	// shuffle params are never very large in practice, so this isn't wasteful
-- 
2.43.0


From ac1e6c51e60d1c1060c90fc53bd19f4da4455cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 56/65] fix: verify the checksums of fractal heap blocks

Links and attributes in dense storage were read from direct blocks without
looking at the checksum of the block.
---
 netcdf/hdf5/hdf5.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 99c4ee1..b2f4bca 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -233,7 +233,9 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
-	nrows            uint16 // rows of the indirect block read, if any
+	nrows            uint16          // rows of the indirect block read, if any
+	checksums        bool            // direct blocks have checksums
+	checked          map[uint64]bool // direct blocks whose checksum is right
 }
 
 type object struct {
@@ -650,6 +652,29 @@ func isLinkName(name string) bool {
 type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint16,
 	creationOrder uint64)
 
+// checkDirectBlock checks the checksum of a heap's direct block, if it has one.
+func (h5 *HDF5) checkDirectBlock(link *linkInfo, addr uint64, size uint64) {
+	if !link.checksums || link.checked[addr] {
+		return
+	}
+	assertError(size <= math.MaxInt64, ErrCorrupted, "heap block is too big")
+	bf := h5.newSeek(addr, int64(size))
+	checkMagic(bf, 4, "FHDB")
+	// signature=4 version=1 heapaddr=8 blockoffset=(calc) checksum=4
+	const checksumSize = 4
+	checksumOffset := 4 + 1 + 8 + uint64(link.maxHeapSize/8)
+	assertError(size >= checksumOffset+checksumSize, ErrCorrupted, "heap block is too small")
+	// The checksum is that of the block with zeroes in place of the checksum.
+	block := make([]byte, size)
+	read(h5.newSeek(addr, int64(size)), block)
+	field := block[checksumOffset:][:checksumSize]
+	sum := binary.LittleEndian.Uint32(field)
+	copy(field, make([]byte, checksumSize))
+	hash := computeChecksumStream(newResetReaderFromBytes(block), len(block))
+	assert(hash == sum, "checksum mismatch")
+	link.checked[addr] = true
+}
+
 // Handling doubling table.  Assume width of 4.
 func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length uint16, creationOrder uint64, callback doublerCallback) {
 	logger.Infof("doubling start: offset=0x%x length=%d blocksize=%d block=%x iblock=%x", offset, length, link.blockSize, link.block, link.iBlock)
@@ -673,6 +698,7 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 		}
 	}
 	if offset < blockSize && blockToUse != invalidAddress {
+		h5.checkDirectBlock(link, blockToUse, blockSize)
 		callback(obj, blockToUse, offset, length, creationOrder)
 		return
 	}
@@ -1204,7 +1230,9 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	link.checksums = hasFlag8(flags, 1)
+	link.checked = make(map[uint64]bool)
+	if !link.checksums {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
-- 
2.43.0


From b0b93c0f744ff19a1d487fd56a750e3490358e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 57/65] fix: accept empty texts, which have no data

---
 netcdf/hdf5/hdf5.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index b2f4bca..1daa2f0 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -630,8 +630,9 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 		padBytes(bf, 7)
 	}
 	logger.Info("dimensions are", dims)
-	if isNull && len(dtb) > 0 && dtb[0]&0b1111 == typeString {
-		// netCDF writes an empty text like this
+	// netCDF writes an empty text like this
+	emptyText := isNull && len(dtb) > 0 && dtb[0]&0b1111 == typeString
+	if emptyText {
 		dims, count = nil, 1
 	}
 	logger.Info("count objects=", count)
@@ -640,7 +641,7 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	pf := newResetReaderFromBytes(dtb)
 	available := bf.Rem()
 	printDatatype(h5, h5, pf, bf, count, attr)
-	assertError(calcAttrSize(attr) <= uint64(available), ErrCorrupted, "attribute is too short")
+	assertError(emptyText || calcAttrSize(attr) <= uint64(available), ErrCorrupted, "attribute is too short")
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
-- 
2.43.0


From 71d7d725960364fda39a29b092cb830c7baa8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 58/65] fix: describe user-defined types in reasonable time, by
 their definitions

Looking for the name of a type described all the others, each of which
looked for its name among the rest, and so on. Types which are the same
were described by each other's names.
---
 netcdf/hdf5/array.go    |  4 ++--
 netcdf/hdf5/compound.go |  4 ++--
 netcdf/hdf5/enum.go     |  4 ++--
 netcdf/hdf5/hdf5.go     | 11 +++++------
 netcdf/hdf5/opaque.go   |  4 ++--
 netcdf/hdf5/types.go    | 24 +++++++++++++++++++++++-
 netcdf/hdf5/vlen.go     |  4 ++--
 7 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index 81b2de0..f04bc91 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -23,7 +23,7 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	}
 	dims := strings.Join(dStr, ",")
 	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
@@ -42,7 +42,7 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	}
 	dims := strings.Join(dStr, "")
 	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 1ace870..db4532b 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -30,7 +30,7 @@ func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attrib
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -45,7 +45,7 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 64baa6e..44ebb2e 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -33,7 +33,7 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -56,7 +56,7 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 1daa2f0..a5e72b2 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2952,7 +2952,7 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 	}
 	origNames := map[string]bool{typeName: true}
 	sig := describe(func() string {
-		return cdlTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
+		return cdlTypeString(obj.objAttr.class, definition{h5, obj.objAttr}, typeName, obj.objAttr, origNames)
 	})
 	return sig, sig != ""
 }
@@ -2965,7 +2965,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 	}
 	origNames := map[string]bool{typeName: true}
 	sig := describe(func() string {
-		return goTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
+		return goTypeString(obj.objAttr.class, definition{h5, obj.objAttr}, typeName, obj.objAttr, origNames)
 	})
 	if sig == "" {
 		return "", false
@@ -3024,10 +3024,11 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return 0, false
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
+func (h5 *HDF5) findSignature(attr *attribute, name string, origNames map[string]bool, printer printerType) string {
 	if h5.groupObject == nil {
 		return ""
 	}
+	signature := printer(attr.class, noNames{}, name, attr, origNames)
 	for _, obj := range h5.groupObject.sortChildren() {
 		varName := obj.name
 		if obj.isGroup || origNames[varName] {
@@ -3040,9 +3041,7 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 			// this is a variable
 			continue
 		}
-		origNames[varName] = true
-		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-		origNames[varName] = false
+		sig := printer(obj.objAttr.class, noNames{}, name, obj.objAttr, origNames)
 		if sig != "" && sig == signature {
 			return obj.name
 		}
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index d57f9e2..9702cc8 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -17,7 +17,7 @@ var (
 
 func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -26,7 +26,7 @@ func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribut
 
 func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index d67b55c..7bebe90 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -27,10 +27,32 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
+	// findSignature returns the name of a type which is defined as attr is, or ""
+	findSignature(attr *attribute, name string, origNames map[string]bool,
 		printer printerType) string
 }
 
+// noNames is for describing types without the names of others.
+type noNames struct{}
+
+func (noNames) findSignature(*attribute, string, map[string]bool, printerType) string {
+	return ""
+}
+
+// definition is for describing a type itself, with the names of the others that it is made of.
+type definition struct {
+	sigHelper
+	attr *attribute
+}
+
+func (d definition) findSignature(attr *attribute, name string, origNames map[string]bool,
+	printer printerType) string {
+	if attr == d.attr {
+		return ""
+	}
+	return d.sigHelper.findSignature(attr, name, origNames, printer)
+}
+
 type printerType func(class uint8, helper sigHelper, name string, attr *attribute,
 	origNames map[string]bool) string
 
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 28c9c68..ab71d9d 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -25,7 +25,7 @@ func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -41,7 +41,7 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
-- 
2.43.0


From 7aeaa61f8248ff05d2d4a7c06c44048b81a62b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 59/65] fix: generate dimension names that aren't in use with
 another length

---
 netcdf/cdf/cdfwriter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 42edfda..3fbd557 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -502,6 +502,12 @@ func (cw *CDFWriter) unlimited() string {
 	return ""
 }
 
+// hasOtherLength tells whether there is a dimension of that name with another length.
+func (cw *CDFWriter) hasOtherLength(dimName string, length int64) bool {
+	currentLength, has := cw.dimLengths[dimName]
+	return has && currentLength != length
+}
+
 // AddVar adds a variable to be written out.
 // Use util.NewOrderedMap to create attribute maps for the variable.
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
@@ -569,6 +575,10 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			} else {
 				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
 			}
+			// The caller may have a dimension of that name.
+			for cw.hasOtherLength(dimName, dimLengths[i]) {
+				dimName += "_"
+			}
 			dimNames[i] = dimName
 		}
 
-- 
2.43.0


From f642e93d127ab884d2f443d85eefdddd3337d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 60/65] fix: a link to the root group is a loop too

---
 netcdf/hdf5/hdf5.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a5e72b2..8f93ff9 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2478,6 +2478,7 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
 	h5.rootObject = newObject()
+	h5.addrs[h5.rootAddr] = true // a link to it is a loop
 	h5.readDataObjectHeader(h5.rootObject, h5.rootAddr)
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
-- 
2.43.0


From c03f9bb9b5c850604a780f89257c4ac280d6df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 61/65] fix: write dimensions and variables too large for the
 classic formats as version 5

---
 netcdf/cdf/cdfwriter.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 3fbd557..60d4357 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -745,8 +745,12 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	for _, k := range attrs.Keys() {
 		v, _ := attrs.Get(k)
 		switch v.(type) {
-		case string, int8, int16, int32, float32, float64,
-			[]int8, []int16, []int32, []float32, []float64:
+		case string, []int8, []int16, []int32, []float32, []float64:
+			if reflect.ValueOf(v).Len() > math.MaxInt32 {
+				version = 5
+			}
+
+		case int8, int16, int32, float32, float64:
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
 			version = 5
@@ -759,6 +763,21 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	cw.version = version
 }
 
+// checkV5Sizes makes it a version 5 file if there are dimensions or variables which the
+// earlier versions have no room for.
+func (cw *CDFWriter) checkV5Sizes() {
+	for _, length := range cw.dimLengths {
+		if length > math.MaxInt32 {
+			cw.version = 5
+		}
+	}
+	for i := range cw.vars {
+		if cw.vars[i].computeVSize() > math.MaxUint32-3 {
+			cw.version = 5
+		}
+	}
+}
+
 func (cw *CDFWriter) writeVar(which int) {
 	saved := &cw.vars[which]
 	cw.writeName(saved.name)
@@ -1075,6 +1094,7 @@ func (cw *CDFWriter) writeNumber(n int64) {
 func (cw *CDFWriter) writeAll() {
 	// The version has to be known before anything is written.
 	cw.checkV5Attributes(cw.globalAttrs)
+	cw.checkV5Sizes()
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
-- 
2.43.0


From a1b140b0c66ce48b88e71ac0268876239f7a4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 62/65] fix: take the type of sequences from one that has
 elements

---
 netcdf/hdf5/writer_utils.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 7a24c1e..3552a0a 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -177,6 +177,21 @@ func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
 	return rv
 }
 
+// firstSequence is navigateToFirst for sequences: it prefers one that has elements,
+// because in some types only those tell their type.
+func firstSequence(rv reflect.Value, depth int) reflect.Value {
+	first := navigateToFirst(rv, depth)
+	if first.Len() > 0 || depth == 0 {
+		return first
+	}
+	for i := range rv.Len() {
+		if elem := firstSequence(rv.Index(i), depth-1); elem.Len() > 0 {
+			return elem
+		}
+	}
+	return first
+}
+
 func buildOpaqueDatatype(size int) []byte {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 0x15) // version 1, class 5 (opaque)
@@ -488,7 +503,7 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 
 	// If still a slice after consuming declared dims, it's vlen
 	if t.Kind() == reflect.Slice {
-		elem := navigateToFirst(rv, dimsStripped)
+		elem := firstSequence(rv, dimsStripped)
 		return hw.buildVlenSequenceDatatype(elem)
 	}
 
-- 
2.43.0


From 51b46c0da69a8ce3fac92f04eb93fbb5d025b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:34 +0000
Subject: [PATCH 63/65] fix: refuse compounds without fields and opaques
 without bytes

---
 netcdf/hdf5/hdf5writer.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 2a4dd49..313a4f9 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1114,8 +1114,13 @@ func checkElements(rv reflect.Value, inVlen bool) error {
 		if !sameType(first, val) {
 			return fmt.Errorf("%w: mixed types", ErrUnsupportedType)
 		}
-		if c, ok := val.(compound); ok {
-			return checkFields(c, inVlen)
+		switch val := val.(type) {
+		case compound:
+			return checkFields(val, inVlen)
+		case opaque:
+			if len(val) == 0 {
+				return fmt.Errorf("%w: opaque without bytes", ErrUnsupportedType)
+			}
 		}
 		return nil
 	}
@@ -1129,6 +1134,9 @@ func checkElements(rv reflect.Value, inVlen bool) error {
 }
 
 func checkFields(c compound, inVlen bool) error {
+	if len(c) == 0 {
+		return fmt.Errorf("%w: compound without fields", ErrUnsupportedType)
+	}
 	for _, f := range c {
 		switch val := f.Val.(type) {
 		case compound:
@@ -1136,7 +1144,12 @@ func checkFields(c compound, inVlen bool) error {
 				return err
 			}
 			continue
-		case opaque, string:
+		case opaque:
+			if len(val) == 0 {
+				return fmt.Errorf("%w: opaque without bytes", ErrUnsupportedType)
+			}
+			continue
+		case string:
 			continue
 		case enumerated:
 			if sliceDepth(reflect.TypeOf(val.values)) > 0 {
-- 
2.43.0


From 8c1d92c92922517f55e9fd0f6dd77b2884be647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 64/65] fix: refuse lists of interfaces

---
 netcdf/hdf5/hdf5writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 313a4f9..f6bc38b 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1427,6 +1427,9 @@ func isSupportedType(val any) bool {
 			return isSupportedElemType(t.Elem())
 		}
 		rv = rv.Index(0)
+		if rv.Kind() == reflect.Interface {
+			return false
+		}
 		// Check for named types at element level
 		switch rv.Interface().(type) {
 		case compound, opaque, enumerated:
-- 
2.43.0


From 906db99feddf0e586da885c60aecd131b161c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:29 +0000
Subject: [PATCH 65/65] fix: keep the chunk layout when it precedes the
 datatype in an object header

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 8f93ff9..e8a5ee1 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2012,12 +2012,15 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
+			// Preserve dimensions, layout and noDf from the existing objAttr across the datatype
+			// re-read: messages can be in any order.
 			save := obj.objAttr.dimensions
+			layout := obj.objAttr.layout
 			noDf := obj.objAttr.noDf
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save
+			obj.objAttr.layout = layout
 			obj.objAttr.noDf = noDf
 
 		case typeDataStorageFillValueOld:
-- 
2.43.0

