From 5f59592f81189514e408b655fdd93b8d2efa9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 01/36] fix: errorsWithData errors satisfy IncomparableMaker,
 as documented and as required by fieldElements

ErrorWithData_any is documented to have IncomparableMaker as sub-interface and
fieldElements/errors.go boxes such errors, but neither Is nor CanMakeIncomparable existed,
so fieldElements did not compile.
---
 bandersnatch/errorsWithData/errorsWithData.go      |  1 +
 .../errorsWithData/plainErrorWithParams.go         | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index dedb740..9dd8f68 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -255,6 +255,7 @@ const (
 // Either way, we do NOT require the caller to follow the error chain.
 type ErrorWithData_any interface {
 	error // i.e. provides an Error() string method
+	IncomparableMaker
 	// Error_interpolate is an extended version of Error() that additionally takes a map of parameters. This is required to make any $foo (as opposed to %foo) interpolation work.
 	Error_interpolate(ParamMap) string
 	// GetParameter obtains the value stored under the given parameterName and whether it was present. Returns (nil, false) if not.
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..444d8a7 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -253,3 +253,17 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
+
+// Is is provided to satisfy [IncomparableMaker]: errors.Is(e, target) must hold if target is a boxed version of e.
+func (e *errorWithParameters_common) Is(target error) bool {
+	return error(e) == UnboxError(target)
+}
+
+// Is is provided to satisfy [IncomparableMaker]. This needs to be (re-)defined for errorWithParameters_T, because the method promoted
+// from the embedded [errorWithParameters_common] would compare the address of the embedded struct (which has a different type).
+func (e *errorWithParameters_T[StructType]) Is(target error) bool {
+	return error(e) == UnboxError(target)
+}
+
+// CanMakeIncomparable is provided to satisfy [IncomparableMaker].
+func (e *errorWithParameters_common) CanMakeIncomparable() {}
-- 
2.43.0


From ae66ef18cd164fe68c682512f394930864aa7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 02/36] fix: pass data treatment modes in errorTransform and
 bandersnatchErrors (did not compile)

---
 bandersnatch/bandersnatchErrors/serializer_errors.go | 2 +-
 internal/errorTransform/error_transform.go           | 4 ++--
 internal/errorTransform/serializer_errors.go         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..79ddbc9 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -94,5 +94,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From 577b99a4577811322b893162fcb9f2c056bd3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 03/36] fix: pass data treatment mode in fieldElements (did not
 compile)

---
 bandersnatch/fieldElements/field_element_bigInt.go     | 4 ++--
 bandersnatch/fieldElements/field_element_montgomery.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
-- 
2.43.0


From 2a926e3443a4ed8ae39db4218a8798e35f3cd4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 04/36] fix: pass data treatment modes in curvePoints (did not
 compile)

---
 bandersnatch/curvePoints/serializer_curve_field.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 7c474f9513b3fae10cc7ccd7f0334a9d353f93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 05/36] fix: adapt pointserializer to errorsWithData API and
 IoError field (did not compile)

---
 .../pointserializer/headerSerializer.go       | 13 ++++++-
 .../pointserializer/serialize_curve_point.go  | 30 +++++++-------
 .../pointserializer/serialize_curve_points.go | 39 ++++++++++---------
 bandersnatch/pointserializer/utils.go         | 16 +++++---
 .../pointserializer/values_serializers.go     |  2 +
 5 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 85f2b85..b9ad77a 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -9,6 +9,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
 )
 
@@ -290,7 +291,7 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceHeader() []byte {
 func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reader) (bytesRead int, size int32, err bandersnatchErrors.DeserializationError) {
 	bytesRead, errCER := consumeExpectRead(input, shd.headerSlice[:])
 	if errCER != nil {
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, FIELDNAME_PARTIAL_READ, bytesRead != 0)
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0)
 		return
 	}
 	var buf [simpleHeaderSliceLengthOverhead]byte
@@ -299,9 +300,11 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	if errPlain != nil {
 		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:],
 			FIELDNAME_BYTES_READ, bytesJustRead,
+			errorconsts.FIELDNAME_IO_ERROR, true,
 		)
 		return
 	}
@@ -309,6 +312,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	var sizeUInt32 uint32 = shd.sliceSizeEndianness.Uint32(buf[:])
 	if sizeUInt32 > math.MaxInt32 {
 		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}",
+			errorsWithData.ReplacePreviousData,
 			"Size", sizeUInt32)
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.ReadErrorData{
 			PartialRead:  false,
@@ -334,6 +338,7 @@ func (shs *simpleHeaderSerializer) serializeGlobalSliceHeader(output io.Writer,
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.WriteErrorData{
 			BytesWritten: bytesWritten,
 			PartialWrite: bytesWritten != 0,
+			IoError:      true,
 		})
 		return
 	}
@@ -348,6 +353,7 @@ func (shs *simpleHeaderSerializer) serializeGlobalSliceHeader(output io.Writer,
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.WriteErrorData{
 			BytesWritten: bytesJustWritten,
 			PartialWrite: bytesJustWritten != simpleHeaderSliceLengthOverhead,
+			IoError:      true,
 		})
 		return
 	}
@@ -368,7 +374,9 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceFooter() []byte {
 // addPartialReadInfo is a helper function that just "downcasts" the extra data type for the error.
 // This is because consumeExpectRead returns headerRead as additional data, which also contains ExpectedToRead.
 func fixReadErrorType(errIn errorsWithData.ErrorWithData[headerRead]) (errOut bandersnatchErrors.DeserializationError) {
-	return errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn)
+	// the second return value is always true here: headerRead extends ReadErrorData.
+	errOut, _ = errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn, errorsWithData.EnsureDataIsPresent)
+	return
 }
 
 // deserializeGlobalSliceFooter reads from input and consumes the global slice footer
@@ -502,6 +510,7 @@ func (shd *simpleHeaderDeserializer) MultiPointHeaderOverhead(numPoints int32) (
 	// NOTE: ret64 is guaranteed to not have overflown an int64, since it is at most (2^31-1) * (2^31-1) + 4 + (2^31-1), which is smaller than 2^63-1
 	if ret64 > math.MaxInt32 {
 		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}",
+			errorsWithData.ReplacePreviousData,
 			"Size", ret64)
 	}
 	ret = int32(ret64)
diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 6af6811..047fd35 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -539,7 +539,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -558,7 +558,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerDeserializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -567,7 +567,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -583,7 +583,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -604,7 +604,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerSerializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -614,7 +614,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -628,7 +628,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 {
 			errorTransform.UnexpectEOF2(&err) // does nothing, actually, because err cannot be EOF for bytesWritten > 0
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -637,7 +637,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -646,7 +646,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 	}
 	return
@@ -740,18 +740,18 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err // we return -1 for the int32 in case of error here, as the actual value is meaningless. Note that that overhead might well be negative at this point anyway.
 
 	}
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
@@ -774,11 +774,11 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err
 
@@ -786,7 +786,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index ff2c44d..8c7c054 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -11,6 +11,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
 )
 
@@ -96,7 +97,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 			}
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", "PointsDeserialized", i)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i)
 			return
 		}
 	}
@@ -142,7 +143,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle,
-				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w",
+				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsDeserialized", i)
 			return
 		}
@@ -195,7 +196,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w",
+				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsDeserialized", i,
 				FIELDNAME_PARTIAL_READ, true)
 			return
@@ -206,12 +207,12 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		if errNonBatch != nil {
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"PointsDeserialized", i,
 					FIELDNAME_PARTIAL_READ, true)
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"PointsDeserialized", i)
 			}
 			return
@@ -220,7 +221,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
 	}
@@ -252,7 +253,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 
 	// If reading the slice header fails, bail out
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1) // create a dummy value for output
 		return
@@ -290,7 +291,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -319,7 +320,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 
 	bytesRead, size, errNonBatch = md.headerSerializer.deserializeGlobalSliceHeader(inputStream)
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1)
 		return
@@ -351,7 +352,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -415,13 +416,13 @@ func UseExistingSlice[PointType any, PointTypePtr interface {
 			// The error message depends on whether the capacity is too small as well.
 			if cap(existingSlice) < int(length) {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}",
+					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}",
+					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
@@ -470,7 +471,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoints(outputStream io.Writ
 				errorTransform.UnexpectEOF2(&errSingle)
 			}
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errSingle,
-				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w",
+				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i)
 			return
 		}
@@ -491,7 +492,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	expectedSize, errOverflow := md.SliceOutputLength(L)
 	if errOverflow != nil {
 		// var noWriteAttempt :=
-		overflowErrData := BatchSerializationErrorData{WriteErrorData: bandersnatchErrors.NoWriteAttempt, PointsSerialized: 0}
+		overflowErrData := BatchSerializationErrorData{WriteErrorData: errorconsts.NoWriteAttempt, PointsSerialized: 0}
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrSizeDoesNotFitInt32, ErrorPrefix+"called SerializeSlice with a slice that would require more than MaxInt32 bytes to serialize", &overflowErrData)
 		return
 	}
@@ -501,7 +502,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errHeader != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errHeader,
-			ErrorPrefix+"failed to write slice header. Error was %w",
+			ErrorPrefix+"failed to write slice header. Error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			"PointsSerialized", 0,
 			"PartialWrite", bytesWritten != 0)
 		return
@@ -522,7 +523,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -533,7 +534,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -544,7 +545,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i+1,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -556,7 +557,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errNonBatch != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			"PointsSerialized", LInt, // Note: PointsSerialized needs type int, not int32
 			FIELDNAME_PARTIAL_WRITE, true)
 		return
diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index 526a0c1..b18a50c 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -9,12 +9,13 @@ import (
 
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 )
 
-const FIELDNAME_PARTIAL_READ = bandersnatchErrors.FIELDNAME_PARTIAL_READ
-const FIELDNAME_PARTIAL_WRITE = bandersnatchErrors.FIELDNAME_PARTIAL_WRITE
-const FIELDNAME_ACTUALLY_READ = bandersnatchErrors.FIELDNAME_ACTUALLY_READ
-const FIELDNAME_BYTES_READ = bandersnatchErrors.FIELDNAME_BYTES_READ
+const FIELDNAME_PARTIAL_READ = errorconsts.FIELDNAME_PARTIAL_READ
+const FIELDNAME_PARTIAL_WRITE = errorconsts.FIELDNAME_PARTIAL_WRITE
+const FIELDNAME_ACTUALLY_READ = errorconsts.FIELDNAME_ACTUALLY_READ
+const FIELDNAME_BYTES_READ = errorconsts.FIELDNAME_BYTES_READ
 
 // additional data contained in errors returned by consumeExpectRead. Note that this "extends" bandersnatchErrors.ReadErrorData
 type headerRead struct {
@@ -22,6 +23,7 @@ type headerRead struct {
 	ActuallyRead   []byte
 	ExpectedToRead []byte
 	BytesRead      int
+	IoError        bool
 }
 
 func init() {
@@ -92,7 +94,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		buf = buf[0:bytes_read:bytes_read] // We reduce the cap, so maybe some future version of Go actually frees the trailing memory. (We *could* copy it to a new buffer, but that's probably worse in most cases)
 
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
-		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read} // extra data returned in error
+		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
 
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
@@ -171,9 +173,11 @@ func writeFull(output io.Writer, data []byte) (bytesWritten int, err bandersnatc
 	bytesWritten, errPlain := output.Write(data)
 	if errPlain != nil {
 		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w",
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			"Data", copyByteSlice(data),
-			bandersnatchErrors.FIELDNAME_BYTES_WRITTEN, bytesWritten,
+			errorconsts.FIELDNAME_BYTES_WRITTEN, bytesWritten,
 			FIELDNAME_PARTIAL_WRITE, bytesWritten != 0 && bytesWritten < len(data),
+			errorconsts.FIELDNAME_IO_ERROR, true,
 		)
 	} // else err == nil
 	return
diff --git a/bandersnatch/pointserializer/values_serializers.go b/bandersnatch/pointserializer/values_serializers.go
index 4374426..684cf19 100644
--- a/bandersnatch/pointserializer/values_serializers.go
+++ b/bandersnatch/pointserializer/values_serializers.go
@@ -73,6 +73,7 @@ func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadP
 	if *errPtr != nil {
 		var bytesRead int = *bytesReadPtr
 		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr,
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_READ, bytesRead != 0 && bytesRead != expectToRead,
 			// NOTE: We do not update the "BytesRead" metadata in the error. This is intentional: "BytesRead" refers to the failing sub-call.
 		)
@@ -86,6 +87,7 @@ func updateWriteError(errPtr *bandersnatchErrors.SerializationError, bytesWritte
 	if *errPtr != nil {
 		var bytesWritten int = *bytesWrittenPtr
 		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr,
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_WRITE, (bytesWritten != 0) && (bytesWritten != expectToWrite),
 			// NOTE: We do not update the "BytesWritten" metadata in the error. This is intentional: "BytesWritten" refers to the failing sub-call.
 		)
-- 
2.43.0


From ce51b45cbb2281725c3fca55fdf59b66a2a70210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 06/36] fix: PrecomputedCache does not keep locks (or
 incomplete pages) when a user-provided callback panics

---
 internal/testutils/precomputation_meta.go | 27 +++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/testutils/precomputation_meta.go b/internal/testutils/precomputation_meta.go
index b1e08e9..a07920d 100644
--- a/internal/testutils/precomputation_meta.go
+++ b/internal/testutils/precomputation_meta.go
@@ -89,22 +89,20 @@ func MakePrecomputedCache[KeyType comparable, ElementType any](createRandFromSee
 //   - the given entries are copied into the cache into a fresh backing array.
 func (pc *PrecomputedCache[KeyType, ElementType]) PrepopulateCache(key KeyType, cacheEntries []ElementType) {
 	copyFun := pc.copyFun
+	// Prepare the page before touching the table: createRandFromSeed and copyFun are provided by the user and may panic.
+	// In that case, no lock may stay locked and no incomplete page may become visible.
+	newPage := pc.newCachePage(key)
+	for _, entry := range cacheEntries {
+		newPage.elements = append(newPage.elements, copyFun(entry))
+	}
 	pc.tableMutex.Lock()
+	defer pc.tableMutex.Unlock()
 	page, ok := pc.data[key]
 	if ok {
-		pc.tableMutex.Unlock()
 		panic(fmt.Errorf("trying to populate cache under key %v, which already exists", key))
 	}
 	Assert(page == nil)
-	page = pc.newCachePage(key)
-	pc.data[key] = page
-	page.pageMutex.Lock() // cannot block, because no other goroutine can see the newly created cache page until we unlock the table mutex.
-	pc.tableMutex.Unlock()
-	for _, entry := range cacheEntries {
-		page.elements = append(page.elements, copyFun(entry))
-	}
-	page.pageMutex.Unlock()
-
+	pc.data[key] = newPage
 }
 
 // GetElements returns (a copy of) the first amount many precomputed elements that are stored under the given key.
@@ -164,6 +162,11 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 
 	copyFun := source.copyFun // avoid indirection through source at each access.
 
+	// copyFun and creationFun are provided by the user and may panic (or end the goroutine by t.FailNow).
+	// We use deferred calls to ensure that the lock we currently hold is released in that case.
+	unlock := pc.pageMutex.RUnlock
+	defer func() { unlock() }()
+
 	// Check if the cache contains enough elements:
 	pc.pageMutex.RLock()
 	currentLen := len(pc.elements)
@@ -173,7 +176,6 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 		for i := 0; i < amount; i++ {
 			ret[i] = copyFun(pc.elements[i])
 		}
-		pc.pageMutex.RUnlock()
 		return
 	}
 
@@ -182,6 +184,7 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 	// sync.RWMutex cannot atomically upgrade read-locks to rw-locks. So pc.elements may get extended in the meantime. This is fine.
 	creationFun := source.creationFun
 	pc.pageMutex.Lock()
+	unlock = pc.pageMutex.Unlock
 	// extend as appropriate
 	for len(pc.elements) < amount {
 		pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
@@ -190,10 +193,10 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 
 	// We are now guaranteed to read the desired amount
 	pc.pageMutex.RLock()
+	unlock = pc.pageMutex.RUnlock
 	for i := 0; i < amount; i++ {
 		ret[i] = copyFun(pc.elements[i])
 	}
-	pc.pageMutex.RUnlock()
 	return
 }
 
-- 
2.43.0


From e5feb917a47d705caae84ad4a3d3a99e1b6bae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 07/36] fix: fieldElements: set IoError in the error data of
 failed reads and writes

---
 .../fieldElements/field_element_serialize.go    | 10 ++++++++--
 bandersnatch/fieldElements/uint256_serialize.go | 17 +++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/bandersnatch/fieldElements/field_element_serialize.go b/bandersnatch/fieldElements/field_element_serialize.go
index 791cf30..8784c8c 100644
--- a/bandersnatch/fieldElements/field_element_serialize.go
+++ b/bandersnatch/fieldElements/field_element_serialize.go
@@ -9,6 +9,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
 )
 
@@ -204,7 +205,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) Serialize(output io.Writer, byteOrd
 	var buf []byte = make([]byte, 32)
 	byteOrder.PutUint256(buf, zUint256)
 	bytesWritten, errPlain = output.Write(buf)
-	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten})
+	err = errorsWithData.AddDataToError_struct(errPlain, errorconsts.NewIntermediateWriteErrorData(bytesWritten, 32))
 	return
 }
 
@@ -247,7 +248,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) SerializeWithPrefix(output io.Write
 	var buf []byte = make([]byte, 32)
 	byteOrder.PutUint256(buf, zUint256)
 	bytesWritten, errPlain = output.Write(buf)
-	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten})
+	err = errorsWithData.AddDataToError_struct(errPlain, errorconsts.NewIntermediateWriteErrorData(bytesWritten, 32))
 	return
 }
 
@@ -310,12 +311,14 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 	var buf [32]byte                  // for receiving the input of io.ReadFull
 
 	var errPlain error // errors returned to this function;
+	var ioError bool   // set to true if errPlain is due to input
 	// automatically fill err from errPlain at the end
 	defer func() {
 		err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.ReadErrorData{
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      ioError,
 		})
 	}()
 	expectedPrefixLength := expectedPrefix.PrefixLen()
@@ -325,6 +328,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 	if byteOrder.StartsWithMSB() {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:1])
 		if errPlain != nil { // ioError (most likely EOF)
+			ioError = true
 			return
 		}
 		if buf[0]>>(8-expectedPrefixLength) != byte(expectedPrefixBits) {
@@ -335,12 +339,14 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 		bytes_just_read, errPlain = io.ReadFull(input, buf[1:32])
 		bytesRead += bytes_just_read
 		if errPlain != nil {
+			ioError = true
 			errorTransform.UnexpectEOF(&errPlain) // Replace io.EOF -> io.ErrUnexpectedEOF
 			return
 		}
 	} else {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:32])
 		if errPlain != nil {
+			ioError = true
 			return
 		}
 	}
diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..d466920 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -186,11 +186,7 @@ func (z *Uint256) Deserialize(input io.Reader, byteOrder FieldElementEndianness)
 	var buf [32]byte // := make([]byte, 32)
 	bytesRead, errPlain = io.ReadFull(input, buf[:])
 	if errPlain != nil {
-		err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.ReadErrorData{
-			PartialRead:  bytesRead != 0 && bytesRead != 32,
-			BytesRead:    bytesRead,
-			ActuallyRead: buf[0:bytesRead],
-		})
+		err = errorsWithData.AddDataToError_struct(errPlain, errorconsts.NewIntermediateReadErrorData(bytesRead, 32, buf[0:bytesRead]))
 		return
 	}
 
@@ -253,11 +249,7 @@ func (z *Uint256) DeserializeAndGetPrefix(input io.Reader, prefixLength uint8, b
 	var buf [32]byte // := make([]byte, 32)
 	bytesRead, errPlain = io.ReadFull(input, buf[:])
 	if errPlain != nil {
-		err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.ReadErrorData{
-			PartialRead:  bytesRead != 0 && bytesRead != 32,
-			BytesRead:    bytesRead,
-			ActuallyRead: buf[0:bytesRead],
-		})
+		err = errorsWithData.AddDataToError_struct(errPlain, errorconsts.NewIntermediateReadErrorData(bytesRead, 32, buf[0:bytesRead]))
 		return
 	}
 
@@ -350,12 +342,14 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 	var buf [32]byte    // for receiving the input of io.ReadFull
 
 	var errPlain error // errors returned to this function;
+	var ioError bool   // set to true if errPlain is due to input
 	// automatically fill err from errPlain at the end
 	defer func() {
 		err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.ReadErrorData{
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      ioError,
 		})
 	}()
 
@@ -366,6 +360,7 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 	if byteOrder.StartsWithMSB() {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:1])
 		if errPlain != nil { // ioError (most likely EOF)
+			ioError = true
 			return
 		}
 		if buf[0]>>(8-expectedPrefixLength) != byte(expectedPrefixBits) {
@@ -376,12 +371,14 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 		bytes_just_read, errPlain = io.ReadFull(input, buf[1:32])
 		bytesRead += bytes_just_read
 		if errPlain != nil {
+			ioError = true
 			errorTransform.UnexpectEOF(&errPlain) // Replace io.EOF -> io.ErrUnexpectedEOF
 			return
 		}
 	} else {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:32])
 		if errPlain != nil {
+			ioError = true
 			return
 		}
 	}
-- 
2.43.0


From bcff80135ef1d25a09f2e1abcdd2812a796c326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 08/36] fix: Uint256: buffer and byte slice variants of
 Deserialize report and consume what they read, no panic on short input

---
 bandersnatch/fieldElements/uint256_serialize.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index d466920..5c6a2fe 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -206,18 +206,21 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
 func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianness) (bytesRead int, err bandersnatchErrors.DeserializationError) {
 
 	if len(input) < 32 {
-		panic("Not handled yet") // TODO
+		// same behaviour as the general method for inputs that are too short
+		return z.Deserialize(bytes.NewReader(input), byteOrder)
 	}
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -277,7 +280,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 		return
 	}
 
-	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Bytes()
+	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Next()
 
 	// check that the input has sufficient size
 	if inputSize := input.Len(); inputSize < 32 {
@@ -287,7 +290,8 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
@@ -311,11 +315,13 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 	}
 
 	if len(input) < 32 {
-		panic("Not handled yet") // TODO
+		// same behaviour as the general method for inputs that are too short
+		return z.DeserializeAndGetPrefix(bytes.NewReader(input), prefixLength, byteOrder)
 	}
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
 
-- 
2.43.0


From 3bc2a2f1c59fbd3238d49c71c1ea8c3ba077134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 09/36] fix: pointserializer: end of file before a slice is
 io.EOF, ActuallyRead holds only what was read

---
 bandersnatch/pointserializer/headerSerializer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index b9ad77a..ff054c6 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -298,11 +298,13 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	bytesJustRead, errPlain := io.ReadFull(input, buf[:])
 	bytesRead += bytesJustRead // Validate ensures this fits into int32
 	if errPlain != nil {
-		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
+		if bytesRead > 0 {
+			errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF (unless the stream ended before the slice started)
+		}
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
 			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
-			FIELDNAME_ACTUALLY_READ, buf[:],
+			FIELDNAME_ACTUALLY_READ, buf[:bytesJustRead],
 			FIELDNAME_BYTES_READ, bytesJustRead,
 			errorconsts.FIELDNAME_IO_ERROR, true,
 		)
-- 
2.43.0


From dfd5717b9ea64fe82e81faf9c0b48322be039e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 10/36] fix: pointserializer: end of file within a slice is
 io.ErrUnexpectedEOF, PartialRead is set for missing slice footers and not for
 invalid last points

---
 .../pointserializer/serialize_curve_points.go       | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 8c7c054..4b2ac9c 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -195,6 +195,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointHeader(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we are in the middle of a slice
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsDeserialized", i,
@@ -205,7 +206,8 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_point.DeserializeCurvePoint(inputStream, trustLevel, targetSlice.GetByIndex(i))
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we are in the middle of a slice
+			if i != size-1 || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"PointsDeserialized", i,
@@ -221,6 +223,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we are in the middle of a slice
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
@@ -291,6 +294,10 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
+		errorTransform.UnexpectEOF2(&errNonBatch) // we are in the middle of a slice
+		if bytesJustRead == 0 {
+			errNonBatch = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](errNonBatch, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
+		}
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
@@ -352,6 +359,10 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
+		errorTransform.UnexpectEOF2(&errNonBatch) // we are in the middle of a slice
+		if bytesJustRead == 0 {
+			errNonBatch = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](errNonBatch, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
+		}
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
-- 
2.43.0


From 50a0054b9e91176e383517848a84126fcb03238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 11/36] fix: DoesMethodExist found no methods of interface
 types, so that the free function WithParameter refused every exported
 (de)serializer type

---
 internal/utils/reflect_call.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/reflect_call.go b/internal/utils/reflect_call.go
index 91813ad..00480ce 100644
--- a/internal/utils/reflect_call.go
+++ b/internal/utils/reflect_call.go
@@ -39,17 +39,22 @@ func DoesMethodExist(receiverType reflect.Type, methodName string, inputs []refl
 		return false, fmt.Sprintf("type %v has no method named %v", typeName, methodName)
 	}
 	methodType := method.Type
-	// +1 comes from the receiver. Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
-	if methodType.NumIn() != len(inputs)+1 {
-		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-1)
+	// Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input;
+	// the exception are interface types, for which method.Type does not include the receiver.
+	numReceivers := 1
+	if receiverType.Kind() == reflect.Interface {
+		numReceivers = 0
+	}
+	if methodType.NumIn() != len(inputs)+numReceivers {
+		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-numReceivers)
 	}
 	if methodType.NumOut() != len(outputs) {
 		return false, fmt.Sprintf("method %v.%v has an unexpected number of output arguments. We expected %v, got %v", typeName, methodName, len(outputs), methodType.NumOut())
 	}
 
 	for i, t := range inputs {
-		if !t.AssignableTo(methodType.In(i + 1)) {
-			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+1)))
+		if !t.AssignableTo(methodType.In(i + numReceivers)) {
+			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+numReceivers)))
 		}
 	}
 
-- 
2.43.0


From f93b9853b0a04808ab0644b63bedaa751e294cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 12/36] fix: errorsWithData: the first use of an error modified
 it, so that goroutines sharing an error raced

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 444d8a7..c9a87c2 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -140,6 +140,10 @@ func makeErrorWithParametersCommon(baseError error, interpolationString string)
 	// Parse the intepolation string.
 	// We ignore potential returned errors: If there is a parsing error, this is additionally recorded in ret.parsedInterpolationString itself.
 	ret.parsedInterpolationString, _ = make_ast(tokens)
+
+	// Post-process the tree now, while nobody else can see it: [handleSyntaxConditions] modifies the tree when it is called for the first time and
+	// errors may be shared between goroutines after creation. We ignore potential errors for the same reason as above.
+	_ = ret.parsedInterpolationString.handleSyntaxConditions()
 	ret.params = GetData_map(baseError)
 	return
 }
-- 
2.43.0


From 37472b5e151277506d91c20c6c90c02fb634bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 13/36] fix: errorsWithData: ValidateError_Params(nil)
 panicked, and with it validation of errors that refer to the wrapped error by
 %w

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index c9a87c2..ecf3803 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -255,6 +255,9 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
 
-- 
2.43.0


From ccaea4645724e25376ae931670a6c3a48f61d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 14/36] fix: errorsWithData: messages with a condition nested
 in another one were not checked, printing such an error panicked

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..7cbe68c 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -202,15 +202,15 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 // It checks that the strings given as format verbs, conditions, variable names satisfy specific constraints
 // and ensures that errors are handled correctly later.
 //
-// For ast_cond, we just flag the conditional as invalid on failure.
+// For ast_cond, we just flag the conditional as invalid on failure. In any case, we process the child as well; we report the first error.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	errorFromChild := abase.child.handleSyntaxConditions()
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
-	} else {
-		return nil
 	}
+	return errorFromChild
 }
 
 /**
-- 
2.43.0


From 38678f2dc4ae28881437f28edbe026c3ebe13bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 15/36] fix: errorsWithData: creating an error panicked if its
 message left two or more nested conditions open

---
 bandersnatch/errorsWithData/formatting_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..91d5785 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,8 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		// (Note that stack.Len() shrinks as we proceed. We only keep ROOT - LIST.)
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From 0c4468d8b7f47166e3dfe50a2b85f6cbe2661cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 16/36] fix: errorsWithData: validation took map selectors such
 as %v{!m} for missing parameters

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 7cbe68c..3d82bd2 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -348,7 +348,7 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) { // map selectors such as !m refer to the whole map
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -359,7 +359,7 @@ func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ Pa
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) { // map selectors such as !m refer to the whole map
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -376,7 +376,7 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
 	_, ok := parameters_passed[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) { // map selectors such as !m refer to the whole map
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
-- 
2.43.0


From fe7b30b85f02dbc72f74f491b23791727b8d0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 17/36] fix: errorsWithData: NewErrorWithData_struct could
 return an error whose data does not fit its type

---
 bandersnatch/errorsWithData/modify_errors.go        | 3 ++-
 bandersnatch/errorsWithData/plainErrorWithParams.go | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/modify_errors.go b/bandersnatch/errorsWithData/modify_errors.go
index 04c6bad..197fc75 100644
--- a/bandersnatch/errorsWithData/modify_errors.go
+++ b/bandersnatch/errorsWithData/modify_errors.go
@@ -28,7 +28,8 @@ import (
 //
 // For baseError == nil, interpolationString == "", this function panics.
 // For baseError == nil, interpolationString != "", creates a new error that does not wrap an error.
-// The function also panics if StructType is unsuited (e.g. contains unexported fields)
+// The function also panics if StructType is unsuited (e.g. contains unexported fields) or if pre-existing parameters that are kept because of mode
+// have a wrong type for StructType.
 func NewErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode ...PreviousDataTreatment) ErrorWithData[StructType] {
 	if len(mode) > 1 {
 		panic(ErrorPrefix + "called NewErrorWithData_struct with more than 1 mode")
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index ecf3803..f496946 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -198,11 +198,16 @@ func deleteParameterFromError[StructType any](baseError error, interpolationStri
 // mode controls how already-present data in baseError should be handled.
 //
 // The function may panic if called with invalid StructType, so StructType should be checked by the caller beforehand.
-// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error.
+// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error
+// or if mode==[PreferPreviousData] and the data in base error is of wrong type to construct an instance of StructType.
 func newErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode PreviousDataTreatment) (ret *errorWithParameters_T[StructType]) {
 	ret = new(errorWithParameters_T[StructType])
 	ret.errorWithParameters_common = makeErrorWithParametersCommon(baseError, interpolationString)
 	fillMapFromStruct(data, &ret.errorWithParameters_common.params, mode)
+	// All parameters are present, but for mode == [PreferPreviousData] those inherited from baseError may have a wrong type.
+	if err := ensureCanMakeStructFromParameters[StructType](&ret.errorWithParameters_common.params, EnsureDataIsPresent); err != nil {
+		panic(err)
+	}
 	return
 }
 
-- 
2.43.0


From 3eab39efcfc8f4a9239b8fc5d76292b91f33b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 18/36] fix: Point_xtw_*.SetFromSubgroupPoint overwrote the
 receiver when given a NaP

---
 bandersnatch/curvePoints/curve_point_xtw.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f1aaa40..1730a07 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1064,7 +1064,6 @@ func (p *point_xtw_base) NegEq() {
 func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP to xtw via SetFromSubgroupPoint", false, input)
-		*p = Point_xtw_subgroup{}
 		return false
 	}
 	if input.CanOnlyRepresentSubgroup() {
@@ -1106,7 +1105,6 @@ func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRe
 func (p *Point_xtw_full) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP point to xtw subgroup point", false, input)
-		*p = Point_xtw_full{}
 		return false
 	}
 	if !trusted.Bool() {
-- 
2.43.0


From 835524d3f7e6b1a2d151516fd3009d8b80a6a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 19/36] fix: IsInSubgroup was true for NaPs of type
 Point_efgh_full, without calling the NaP handler

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..acb1bf2 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1112,6 +1112,9 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
-- 
2.43.0


From 45b6bdbc833ad822b845bfe6e5bd5cfd2bcf322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 20/36] fix: IsInSubgroup of point types for the subgroup did
 not check for NaPs

---
 bandersnatch/curvePoints/curve_point.go            | 1 -
 bandersnatch/curvePoints/curve_point_axtw.go       | 9 +++++++++
 bandersnatch/curvePoints/curve_point_doubleproj.go | 9 +++++++++
 bandersnatch/curvePoints/curve_point_xtw.go        | 9 +++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/curve_point.go b/bandersnatch/curvePoints/curve_point.go
index f1cb5e6..44d36ec 100644
--- a/bandersnatch/curvePoints/curve_point.go
+++ b/bandersnatch/curvePoints/curve_point.go
@@ -262,7 +262,6 @@ type thisCurvePointCanRepresentFullCurve struct{}
 func (thisCurvePointCanRepresentInfinity) CanRepresentInfinity() bool         { return true }
 func (thisCurvePointCannotRepresentInfinity) CanRepresentInfinity() bool      { return false }
 func (thisCurvePointCanOnlyRepresentSubgroup) CanOnlyRepresentSubgroup() bool { return true }
-func (thisCurvePointCanOnlyRepresentSubgroup) IsInSubgroup() bool             { return true }
 func (thisCurvePointCanRepresentFullCurve) CanOnlyRepresentSubgroup() bool    { return false }
 func (thisCurvePointCanRepresentFullCurve) HasDecaf() bool                    { return false }
 
diff --git a/bandersnatch/curvePoints/curve_point_axtw.go b/bandersnatch/curvePoints/curve_point_axtw.go
index 9380b7f..c2f03d1 100644
--- a/bandersnatch/curvePoints/curve_point_axtw.go
+++ b/bandersnatch/curvePoints/curve_point_axtw.go
@@ -429,6 +429,15 @@ func (p *point_axtw_base) toDecaf_axtw() (ret point_axtw_base) {
 }
 */
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// Since the type can only represent points in the subgroup, this is true unless the point is a NaP.
+func (p *Point_axtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_axtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index acb1bf2..67f2514 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1110,6 +1110,15 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	}
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// Since the type can only represent points in the subgroup, this is true unless the point is a NaP.
+func (p *Point_efgh_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index 1730a07..af1d625 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -585,6 +585,15 @@ func (p *point_xtw_base) T_decaf_affine() FieldElement {
 	return p.t
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// Since the type can only represent points in the subgroup, this is true unless the point is a NaP.
+func (p *Point_xtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_xtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
-- 
2.43.0


From b4c797ac21bf8846dd32228779a2a43f10c10455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 21/36] fix: batch normalisation corrupted points if the NaP
 handler panicked

---
 bandersnatch/curvePoints/batch_operations.go | 138 +++++++++++--------
 1 file changed, 81 insertions(+), 57 deletions(-)

diff --git a/bandersnatch/curvePoints/batch_operations.go b/bandersnatch/curvePoints/batch_operations.go
index 752c251..ccf5774 100644
--- a/bandersnatch/curvePoints/batch_operations.go
+++ b/bandersnatch/curvePoints/batch_operations.go
@@ -46,34 +46,40 @@ func (points CurvePointSlice_xtw_full) BatchNormalizeForZ() (failingIndices []in
 			point.t.MulEq(&point.z)
 			point.z.SetOne()
 		} else {
-			// i is in failingIndices, so z was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so z was unchanged at 0. We need to treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			// We normalize points with Z==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			if point.IsNaP() {
-				napEncountered("NaP encountered in BatchNormalizeForZ for a slice of Point_xtw_full points", false, point)
-				*point = Point_xtw_full{} // standard-NAP
-				continue
-			}
-			// Points at infinity get replaced by default representations of the appropriate point at infinity:
-			if point.IsE1() {
-				point.SetE1()
-				continue
-			}
-			if point.IsE2() {
-				point.SetE2()
-				continue
-			}
-			panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
+	// All points that are not in failingIndices are valid now. We only now treat the special cases, because
+	// the handler called for NaPs may panic: other points must not be left in an invalid state then.
+	for _, i := range failingIndices {
+		point := &points[i]
+
+		// We normalize points with Z==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		if point.IsNaP() {
+			napEncountered("NaP encountered in BatchNormalizeForZ for a slice of Point_xtw_full points", false, point)
+			*point = Point_xtw_full{} // standard-NAP
+			continue
+		}
+		// Points at infinity get replaced by default representations of the appropriate point at infinity:
+		if point.IsE1() {
+			point.SetE1()
+			continue
 		}
+		if point.IsE2() {
+			point.SetE2()
+			continue
+		}
+		panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 	}
 	return
 }
@@ -118,25 +124,31 @@ func (points CurvePointSlice_xtw_subgroup) BatchNormalizeForZ() (failingIndices
 			point.t.MulEq(&point.z)
 			point.z.SetOne()
 		} else {
-			// i is in failingIndices, so z was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so z was unchanged at 0. We need to treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			// We normalize points with Z==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			if point.IsNaP() {
-				napEncountered("NaP encountered in BatchNormalizeForZ for slice of Point_xtw_subgroup points", false, point)
-				*point = Point_xtw_subgroup{} // standard-NAP
-				continue
-			}
-			panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
+	// All points that are not in failingIndices are valid now. We only now treat the special cases, because
+	// the handler called for NaPs may panic: other points must not be left in an invalid state then.
+	for _, i := range failingIndices {
+		point := &points[i]
+
+		// We normalize points with Z==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		if point.IsNaP() {
+			napEncountered("NaP encountered in BatchNormalizeForZ for slice of Point_xtw_subgroup points", false, point)
+			*point = Point_xtw_subgroup{} // standard-NAP
+			continue
 		}
+		panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 	}
 	return
 }
@@ -181,34 +193,40 @@ func (points CurvePointSlice_xtw_full) BatchNormalizeForY() (failingIndices []in
 			point.z.MulEq(&point.y)
 			point.y.SetOne()
 		} else {
-			// i is in failingIndices, so y was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so y was unchanged at 0. We need to treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			// We normalize points with Y==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			if point.IsNaP() {
-				napEncountered("NaP encountered in BatchNormalizeForY for a slice of Point_xtw_full points", false, point)
-				*point = Point_xtw_full{} // standard-NAP
-				continue
-			}
-			// Points at infinity get replaced by default representations of the appropriate point at infinity:
-			if point.IsE1() {
-				point.SetE1()
-				continue
-			}
-			if point.IsE2() {
-				point.SetE2()
-				continue
-			}
-			panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
+	// All points that are not in failingIndices are valid now. We only now treat the special cases, because
+	// the handler called for NaPs may panic: other points must not be left in an invalid state then.
+	for _, i := range failingIndices {
+		point := &points[i]
+
+		// We normalize points with Y==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		if point.IsNaP() {
+			napEncountered("NaP encountered in BatchNormalizeForY for a slice of Point_xtw_full points", false, point)
+			*point = Point_xtw_full{} // standard-NAP
+			continue
+		}
+		// Points at infinity get replaced by default representations of the appropriate point at infinity:
+		if point.IsE1() {
+			point.SetE1()
+			continue
 		}
+		if point.IsE2() {
+			point.SetE2()
+			continue
+		}
+		panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 	}
 	return
 }
@@ -254,25 +272,31 @@ func (points CurvePointSlice_xtw_subgroup) BatchNormalizeForY() (failingIndices
 
 			point.y.SetOne()
 		} else {
-			// i is in failingIndices, so y was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so y was unchanged at 0. We need to treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			if !point.IsNaP() {
-				panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
-			}
+	// All points that are not in failingIndices are valid now. We only now treat the special cases, because
+	// the handler called for NaPs may panic: other points must not be left in an invalid state then.
+	for _, i := range failingIndices {
+		point := &points[i]
 
-			// We normalize points with Y==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			napEncountered("NaP encountered in BatchNormalizeForY for slice of Point_xtw_subgroup points", false, point)
-			*point = Point_xtw_subgroup{} // standard-NAP
+		if !point.IsNaP() {
+			panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 		}
+
+		// We normalize points with Y==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		napEncountered("NaP encountered in BatchNormalizeForY for slice of Point_xtw_subgroup points", false, point)
+		*point = Point_xtw_subgroup{} // standard-NAP
 	}
 	return
 }
-- 
2.43.0


From e88bb47ac869121ce8f2b13ebcb1076579a94c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 22/36] fix: Exponent.Neg negates its argument, not the
 receiver

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..8f68c71 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From 52bb5c06913d7ca0e820aa1a22018bafd2748288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 23/36] fix: Exponent.ModuloP253 returns the residue, not its
 negative

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 8f68c71..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From 7fe7c4f2522c00947d6800964cddb958ee721d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 24/36] fix: callcounters: Get of an unknown id crashed instead
 of reporting failure

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a050604..dbade72 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -499,7 +499,9 @@ func (id Id) Get() (ret int, ok bool) {
 	}
 	correctDependencies()
 	cc, ok := callCounters[id]
-	ret = cc.count_modified
+	if ok {
+		ret = cc.count_modified
+	}
 	return
 }
 
-- 
2.43.0


From 9f232541bdbac4a9164c3df2ead31f3566e01a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 25/36] fix: callcounters: CreateAttachedCallCounter panicked
 if there was nothing to attach to

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index dbade72..ce5e884 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -225,7 +225,9 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 // It also makes the attached-to parent display the difference between itself and its children.
 func CreateAttachedCallCounter(id Id, displayName string, attachTo Id) (cc *CallCounter) {
 	cc = CreateNewCallCounter(id, displayName, true, attachTo, false)
-	attachTo.SetDisplayRemaining(true)
+	if attachTo != "" {
+		attachTo.SetDisplayRemaining(true)
+	}
 	return
 }
 
-- 
2.43.0


From 84e11dfac574fbf5bcfddf5a6164367ce39f54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 26/36] fix: callcounters: empty display names did not default
 to the id

---
 internal/callcounters/callcounters.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index ce5e884..fac9ede 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -208,7 +208,11 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 	if cc.initialized {
 		panic("callcounters: trying to create a call counter for an already used id")
 	}
-	cc.displayName = displayName
+	if displayName != "" {
+		cc.displayName = displayName
+	} else {
+		cc.displayName = string(id)
+	}
 	cc.id = id
 	cc.initialized = true
 	cc.displayRootNode = displayRootNode
-- 
2.43.0


From 11629a238d3e9e92f556cfff5530b75c9f1a4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 27/36] fix: callcounters: the structure report did not mark
 counters below hidden ones

---
 internal/callcounters/callcounters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index fac9ede..a13bb9f 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -406,7 +406,7 @@ func GetCallCounterStructureReport(indent string) (ret string) {
 				ret += item.Tag
 				if !item.CC.display {
 					ret += " (hidden)"
-					if hidebelow > item.depth {
+					if hidebelow == -1 || hidebelow > item.depth {
 						hidebelow = item.depth
 					}
 				} else if hidebelow == -1 {
-- 
2.43.0


From 5c2f3261575a987a5735db57d24f960859b5ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 28/36] fix: callcounters: counters below a parent that is
 never created were lost from reports if something else referred to it first

---
 internal/callcounters/callcounters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a13bb9f..9bb17a4 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -167,8 +167,8 @@ func CreateHierarchicalCallCounter(id Id, displayName string, parentId Id) *Call
 	if parentId != "" {
 		cc.displayRootNode = false
 		var parentcc *CallCounter
-		parentcc, alreadyExists = getCounter(parentId)
-		if !alreadyExists {
+		parentcc, _ = getCounter(parentId)
+		if !parentcc.initialized {
 			// The default dummy parent should have these settings in case it is never "properly" created.
 			parentcc.displayRootNode = true
 			parentcc.display = true
-- 
2.43.0


From d7637ad40d8b6d53c5bb1470c4e4d64eb10b16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 29/36] fix: FaultyBuffer.Read failed before its threshold if
 the buffer held less data

---
 internal/testutils/failingIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/testutils/failingIO.go b/internal/testutils/failingIO.go
index 085d897..92bb5a8 100644
--- a/internal/testutils/failingIO.go
+++ b/internal/testutils/failingIO.go
@@ -49,7 +49,7 @@ func (fb *FaultyBuffer) Read(p []byte) (n int, err error) {
 	if err != nil {
 		return
 	}
-	if fault {
+	if fault && n == L { // otherwise, the buffer ran out of data before the threshold
 		err = fb.designatedErr
 		fb.alreadyRead += 1 // to differentiate repeated calls
 	}
-- 
2.43.0


From 6b066eabe8752d59a1e98745307281c63585f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 30/36] fix: Double did nothing if its input was of a type that
 the package does not know

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 67f2514..c37f485 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -796,6 +796,10 @@ func (p *point_efgh_base) Double(x CurvePointPtrInterfaceRead) {
 		p.double_ss(&x.point_efgh_base)
 	case *Point_efgh_subgroup:
 		p.double_ss(&x.point_efgh_base)
+	default:
+		var x_conv Point_xtw_full
+		x_conv.SetFrom(x)
+		p.double_st(&x_conv.point_xtw_base)
 	}
 }
 
-- 
2.43.0


From 6728c18e6bb7d000a1d9e7d8aec591aef17a6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 31/36] fix: Point_xtw_full.SetFrom panicked for invalid and
 infinite points of a type that the package does not know

---
 bandersnatch/curvePoints/curve_point_xtw.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index af1d625..3bef57a 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1175,10 +1175,21 @@ func (p *Point_xtw_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	case CurvePointPtrInterfaceCooReadExtended:
 		p.x, p.y, p.t, p.z = input.XYTZ_projective()
 	default:
-		p.x, p.y, p.z = input.XYZ_projective()
-		if p.z.IsZero() {
-			panic("Not implemented.") // TODO: FIX THIS
+		// X:Y:Z coordinates alone do not suffice for NaPs and points at infinity.
+		if input.IsNaP() {
+			napEncountered("Converting NaP to xtw_full", false, input)
+			*p = Point_xtw_full{}
+			return
+		}
+		if input.IsAtInfinity() {
+			if input.(CurvePointPtrInterfaceDistinguishInfinity).IsE1() {
+				p.point_xtw_base = infinitePoint1_xtw_base
+			} else {
+				p.point_xtw_base = infinitePoint2_xtw_base
+			}
+			return
 		}
+		p.x, p.y, p.z = input.XYZ_projective()
 		p.t.Mul(&p.x, &p.y)
 		p.x.MulEq(&p.z)
 		p.y.MulEq(&p.z)
-- 
2.43.0


From eb272aa53bb8604510989f0d2bfc1b1961da6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 32/36] fix: Point_efgh_subgroup.Endo could give a valid point
 for an invalid one of a type that the package does not know

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index c37f485..4adf11e 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -861,6 +861,8 @@ func (p *Point_efgh_subgroup) Endo(input CurvePointPtrInterfaceRead) {
 		ensureSubgroupOnly(input)
 		if input.IsNaP() {
 			napEncountered("Computing endomorphism of NaP", false, input)
+			p.point_efgh_base = point_efgh_base{}
+			return
 		}
 		if input.IsNeutralElement() {
 			p.point_efgh_base = neutralElement_efghbase
-- 
2.43.0


From 857612f275f32d2bc76f60c081f8ab99ef5700b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 33/36] fix: headers reported PartialRead for streams that
 failed with io.ErrUnexpectedEOF before delivering anything

---
 bandersnatch/pointserializer/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index b18a50c..683aa27 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -99,7 +99,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
 			message := fmt.Sprintf(ErrorPrefix+"Unexpected EOF after reading %%v{BytesRead} out of %v bytes when reading header.\nReported error was %%w.\nBytes expected were 0x%%x{ExpectedToRead}, got 0x%%x{ActuallyRead}", len(expectToRead))
-			returnedErrorData.PartialRead = true
+			returnedErrorData.PartialRead = (bytes_read > 0) // NOTE: input itself might give io.ErrUnexpectedEOF before delivering anything
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
 		} else if errors.Is(err, io.EOF) {
-- 
2.43.0


From 7466e4462f2c423a57424a5a071219698f253b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 34/36] fix: DeserializeCurvePoints_Bounded hid
 io.ErrUnexpectedEOF of the input stream itself as an ordinary end of the
 stream

---
 .../pointserializer/serialize_curve_points.go | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 4b2ac9c..15aed79 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -151,13 +151,30 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 	return
 }
 
+// eofObserver wraps an [io.Reader] and remembers whether it reached its end.
+//
+// This is needed to distinguish the end of the stream from a stream that fails with [io.ErrUnexpectedEOF] by itself (e.g. because it decompresses truncated data).
+type eofObserver struct {
+	io.Reader
+	eof bool
+}
+
+func (r *eofObserver) Read(p []byte) (n int, err error) {
+	n, err = r.Reader.Read(p)
+	if err == io.EOF {
+		r.eof = true
+	}
+	return
+}
+
 // DeserializeCurvePoints_Bounded is a variant of the DeserializeCurvePoints method of our (de)serializers.
 //
 // While the DeserializeCurvePoints method will always try to deserialize exactly outputPoints.Len() many points and report and error if it could not,
 // this version will report no error if fewer points were present in the inputStream (and no other error occurred).
 // It reports the number of points actually written to outputPoints.
 func DeserializeCurvePoints_Bounded(deserializer CurvePointDeserializer, inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoints curvePoints.CurvePointSlice) (bytesRead int, pointsWritten int, err BatchDeserializationError) {
-	bytesRead, err = deserializer.DeserializeCurvePoints(inputStream, trustLevel, outputPoints)
+	observedStream := eofObserver{Reader: inputStream}
+	bytesRead, err = deserializer.DeserializeCurvePoints(&observedStream, trustLevel, outputPoints)
 	if err == nil {
 		pointsWritten = outputPoints.Len()
 		return
@@ -165,7 +182,7 @@ func DeserializeCurvePoints_Bounded(deserializer CurvePointDeserializer, inputSt
 	// err != nil at this point
 	errData := err.GetData_struct()
 	pointsWritten = errData.PointsDeserialized
-	if errData.PartialRead {
+	if errData.PartialRead || !observedStream.eof {
 		return
 	}
 	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
-- 
2.43.0


From adf97ba6cc1ad51c003aa6e3194708ae62a973fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 35/36] fix: report the received values in the error of
 CurvePointFromYAndSignX_subgroup

The error for points outside the subgroup carried zeroes as Y and SignX,
both as data and in its message.
---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..e5d48e9 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 3f32fd1106630c7cf71963a3707a299d75a0539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 36/36] fix: message of SliceOutputLength's error refers to
 data that it does not have

If the headers of a slice alone are too long, the error's message is supposed to
report the size of the headers, which is stored as Size rather than as Data.
---
 bandersnatch/pointserializer/serialize_curve_point.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 047fd35..0d3c1d8 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -740,7 +740,7 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Size}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
@@ -774,7 +774,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Size}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-- 
2.43.0

