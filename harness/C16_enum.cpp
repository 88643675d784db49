// @property C16
// @sources FCollada/FUtils/FUDaeEnum.cpp
#include "StdAfx.h"
#include "FUtils/FUDaeEnum.h"
#include "FUtils/FUDaeEnumSyntax.h"
#include "FUtils/FUDaeSyntax.h"
#include "fcv.h"

static bool spec_same(const char* a, const char* b) { u64 i = 0; while (a[i] != 0 && a[i] == b[i]) ++i; return a[i] == b[i]; }

// every defined value: the keyword reads back, is no other value's keyword, and is not the unknown keyword
template <class E> static void values_ok(const E* v, u32 n, const char* (*write)(E), E (*read)(const char*), const char* other, bool otherIsKeyword)
{
	for (u32 i = 0; i < n; ++i)
	{
		const char* k = write(v[i]);
		fcv_check(read(k) == v[i], "the written keyword of a defined value reads back as that value");
		if (!otherIsKeyword) fcv_check(!spec_same(k, other), "a defined value is not written as the unknown keyword");
		for (u32 j = 0; j < i; ++j) fcv_check(!spec_same(k, write(v[j])), "distinct values are written as distinct keywords");
	}
}
// any other number is written as the documented unknown/default keyword
template <class E> static void others_ok(const E* v, u32 n, const char* (*write)(E), const char* other)
{
	i32 x = fcv_i32("value");
	bool defined = false;
	for (u32 i = 0; i < n; ++i) defined = defined | (x == (i32) v[i]);
	fcv_assume(!defined);
	fcv_check(spec_same(write((E) x), other), "a value outside the enumeration is written as the unknown keyword");
}
// any text: if it is read as a defined value it is the keyword written for that value; otherwise the documented unknown value results
template <class E> static void text_ok(const E* v, u32 n, const char* (*write)(E), E (*read)(const char*), E unknown, bool nonempty = false)
{
	u64 len = fcv_len("len", 24);
	if (nonempty) fcv_assume(len > 0);
	char* t = fcv_text("t", len);
#ifndef FCV_SYM
	u32 pick = fcv_u32("pick");
	if (pick % 3 == 0) { const char* k = write(v[(pick / 3) % n]); size_t l = strlen(k); for (u64 i = 0; i < len && i < l; ++i) t[i] = k[i]; }
#endif
	E e = read(t);
	bool known = false;
	for (u32 i = 0; i < n; ++i) if (e == v[i]) { known = true; if (spec_same(t, write(v[i]))) return; }
	fcv_check(e == unknown, known ? "a text that is no keyword gives the unknown/default value" : "reading gives an enumeration value");
}

static const FUDaeInterpolation::Interpolation Interpolation_v[] = { FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::TCB };
static const char* Interpolation_w(FUDaeInterpolation::Interpolation e) { return FUDaeInterpolation::ToString(e); }
static FUDaeInterpolation::Interpolation Interpolation_r(const char* t) { return FUDaeInterpolation::FromString(t); }
FCV_UNIT(Interpolation_values, "") { values_ok(Interpolation_v, 4, &Interpolation_w, &Interpolation_r, DAEERR_UNKNOWN_ELEMENT, false); }
FCV_UNIT(Interpolation_others, "") { others_ok(Interpolation_v, 4, &Interpolation_w, DAEERR_UNKNOWN_ELEMENT); }
FCV_UNIT(Interpolation_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(Interpolation_v, 4, &Interpolation_w, &Interpolation_r, FUDaeInterpolation::UNKNOWN, true); }
FCV_UNIT(Interpolation_empty, "") { fcv_check(Interpolation_r("") == FUDaeInterpolation::BEZIER, "an absent interpolation is application defined: bezier"); }

static const FUDaeSplineType::Type SplineType_v[] = { FUDaeSplineType::LINEAR, FUDaeSplineType::BEZIER, FUDaeSplineType::NURBS };
static const char* SplineType_w(FUDaeSplineType::Type e) { return FUDaeSplineType::ToString(e); }
static FUDaeSplineType::Type SplineType_r(const char* t) { return FUDaeSplineType::FromString(t); }
FCV_UNIT(SplineType_values, "") { values_ok(SplineType_v, 3, &SplineType_w, &SplineType_r, DAE_UNKNOWN_SPLINE_TYPE, false); }
FCV_UNIT(SplineType_others, "") { others_ok(SplineType_v, 3, &SplineType_w, DAE_UNKNOWN_SPLINE_TYPE); }
FCV_UNIT(SplineType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(SplineType_v, 3, &SplineType_w, &SplineType_r, FUDaeSplineType::UNKNOWN); }

static const FUDaeSplineForm::Form SplineForm_v[] = { FUDaeSplineForm::OPEN, FUDaeSplineForm::CLOSED };
static const char* SplineForm_w(FUDaeSplineForm::Form e) { return FUDaeSplineForm::ToString(e); }
static FUDaeSplineForm::Form SplineForm_r(const char* t) { return FUDaeSplineForm::FromString(t); }
FCV_UNIT(SplineForm_values, "") { values_ok(SplineForm_v, 2, &SplineForm_w, &SplineForm_r, DAE_UNKNOWN_SPLINE_FORM, false); }
FCV_UNIT(SplineForm_others, "") { others_ok(SplineForm_v, 2, &SplineForm_w, DAE_UNKNOWN_SPLINE_FORM); }
FCV_UNIT(SplineForm_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(SplineForm_v, 2, &SplineForm_w, &SplineForm_r, FUDaeSplineForm::UNKNOWN); }

static const FUDaeTextureWrapMode::WrapMode TextureWrapMode_v[] = { FUDaeTextureWrapMode::NONE, FUDaeTextureWrapMode::WRAP, FUDaeTextureWrapMode::MIRROR, FUDaeTextureWrapMode::CLAMP, FUDaeTextureWrapMode::BORDER };
static const char* TextureWrapMode_w(FUDaeTextureWrapMode::WrapMode e) { return FUDaeTextureWrapMode::ToString(e); }
static FUDaeTextureWrapMode::WrapMode TextureWrapMode_r(const char* t) { return FUDaeTextureWrapMode::FromString(t); }
FCV_UNIT(TextureWrapMode_values, "") { values_ok(TextureWrapMode_v, 5, &TextureWrapMode_w, &TextureWrapMode_r, DAE_TEXTURE_WRAP_UNKNOWN, false); }
FCV_UNIT(TextureWrapMode_others, "") { others_ok(TextureWrapMode_v, 5, &TextureWrapMode_w, DAE_TEXTURE_WRAP_UNKNOWN); }
FCV_UNIT(TextureWrapMode_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(TextureWrapMode_v, 5, &TextureWrapMode_w, &TextureWrapMode_r, FUDaeTextureWrapMode::UNKNOWN); }

static const FUDaeTextureFilterFunction::FilterFunction TextureFilterFunction_v[] = { FUDaeTextureFilterFunction::NONE, FUDaeTextureFilterFunction::NEAREST, FUDaeTextureFilterFunction::LINEAR, FUDaeTextureFilterFunction::NEAREST_MIPMAP_NEAREST, FUDaeTextureFilterFunction::LINEAR_MIPMAP_NEAREST, FUDaeTextureFilterFunction::NEAREST_MIPMAP_LINEAR, FUDaeTextureFilterFunction::LINEAR_MIPMAP_LINEAR };
static const char* TextureFilterFunction_w(FUDaeTextureFilterFunction::FilterFunction e) { return FUDaeTextureFilterFunction::ToString(e); }
static FUDaeTextureFilterFunction::FilterFunction TextureFilterFunction_r(const char* t) { return FUDaeTextureFilterFunction::FromString(t); }
FCV_UNIT(TextureFilterFunction_values, "") { values_ok(TextureFilterFunction_v, 7, &TextureFilterFunction_w, &TextureFilterFunction_r, DAE_TEXTURE_FILTER_UNKNOWN, false); }
FCV_UNIT(TextureFilterFunction_others, "") { others_ok(TextureFilterFunction_v, 7, &TextureFilterFunction_w, DAE_TEXTURE_FILTER_UNKNOWN); }
FCV_UNIT(TextureFilterFunction_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(TextureFilterFunction_v, 7, &TextureFilterFunction_w, &TextureFilterFunction_r, FUDaeTextureFilterFunction::UNKNOWN); }

static const FUDaeMorphMethod::Method MorphMethod_v[] = { FUDaeMorphMethod::NORMALIZED, FUDaeMorphMethod::RELATIVE };
static const char* MorphMethod_w(FUDaeMorphMethod::Method e) { return FUDaeMorphMethod::ToString(e); }
static FUDaeMorphMethod::Method MorphMethod_r(const char* t) { return FUDaeMorphMethod::FromString(t); }
FCV_UNIT(MorphMethod_values, "") { values_ok(MorphMethod_v, 2, &MorphMethod_w, &MorphMethod_r, DAEERR_UNKNOWN_MORPH_METHOD, false); }
FCV_UNIT(MorphMethod_others, "") { others_ok(MorphMethod_v, 2, &MorphMethod_w, DAEERR_UNKNOWN_MORPH_METHOD); }
FCV_UNIT(MorphMethod_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(MorphMethod_v, 2, &MorphMethod_w, &MorphMethod_r, FUDaeMorphMethod::DEFAULT); }

static const FUDaeInfinity::Infinity Infinity_v[] = { FUDaeInfinity::CONSTANT, FUDaeInfinity::LINEAR, FUDaeInfinity::CYCLE, FUDaeInfinity::CYCLE_RELATIVE, FUDaeInfinity::OSCILLATE };
static const char* Infinity_w(FUDaeInfinity::Infinity e) { return FUDaeInfinity::ToString(e); }
static FUDaeInfinity::Infinity Infinity_r(const char* t) { return FUDaeInfinity::FromString(t); }
FCV_UNIT(Infinity_values, "") { values_ok(Infinity_v, 5, &Infinity_w, &Infinity_r, DAEMAYA_CONSTANT_INFINITY, true); }
FCV_UNIT(Infinity_others, "") { others_ok(Infinity_v, 5, &Infinity_w, DAEMAYA_CONSTANT_INFINITY); }
FCV_UNIT(Infinity_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(Infinity_v, 5, &Infinity_w, &Infinity_r, FUDaeInfinity::DEFAULT); }

static const FUDaeBlendMode::Mode BlendMode_v[] = { FUDaeBlendMode::NONE, FUDaeBlendMode::OVER, FUDaeBlendMode::IN, FUDaeBlendMode::OUT, FUDaeBlendMode::ADD, FUDaeBlendMode::SUBTRACT, FUDaeBlendMode::MULTIPLY, FUDaeBlendMode::DIFFERENCE, FUDaeBlendMode::LIGHTEN, FUDaeBlendMode::DARKEN, FUDaeBlendMode::SATURATE, FUDaeBlendMode::DESATURATE, FUDaeBlendMode::ILLUMINATE };
static const char* BlendMode_w(FUDaeBlendMode::Mode e) { return FUDaeBlendMode::ToString(e); }
static FUDaeBlendMode::Mode BlendMode_r(const char* t) { return FUDaeBlendMode::FromString(t); }
FCV_UNIT(BlendMode_values, "") { values_ok(BlendMode_v, 13, &BlendMode_w, &BlendMode_r, DAEMAYA_NONE_BLENDMODE, true); }
FCV_UNIT(BlendMode_others, "") { others_ok(BlendMode_v, 13, &BlendMode_w, DAEMAYA_NONE_BLENDMODE); }
FCV_UNIT(BlendMode_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(BlendMode_v, 13, &BlendMode_w, &BlendMode_r, FUDaeBlendMode::UNKNOWN); }

static const FUDaeGeometryInput::Semantic GeometryInput_v[] = { FUDaeGeometryInput::POSITION, FUDaeGeometryInput::VERTEX, FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::GEOTANGENT, FUDaeGeometryInput::GEOBINORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::TEXTANGENT, FUDaeGeometryInput::TEXBINORMAL, FUDaeGeometryInput::UV, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::EXTRA, FUDaeGeometryInput::POINT_SIZE, FUDaeGeometryInput::POINT_ROTATION };
static const char* GeometryInput_w(FUDaeGeometryInput::Semantic e) { return FUDaeGeometryInput::ToString(e); }
static FUDaeGeometryInput::Semantic GeometryInput_r(const char* t) { return FUDaeGeometryInput::FromString(t); }
FCV_UNIT(GeometryInput_values, "") { values_ok(GeometryInput_v, 13, &GeometryInput_w, &GeometryInput_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(GeometryInput_others, "") { others_ok(GeometryInput_v, 13, &GeometryInput_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(GeometryInput_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(GeometryInput_v, 13, &GeometryInput_w, &GeometryInput_r, FUDaeGeometryInput::UNKNOWN); }

static const FUDaeProfileType::Type ProfileType_v[] = { FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::GLSL, FUDaeProfileType::GLES, FUDaeProfileType::COMMON };
static const char* ProfileType_w(FUDaeProfileType::Type e) { return FUDaeProfileType::ToString(e); }
static FUDaeProfileType::Type ProfileType_r(const char* t) { return FUDaeProfileType::FromString(t); }
FCV_UNIT(ProfileType_values, "") { values_ok(ProfileType_v, 5, &ProfileType_w, &ProfileType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(ProfileType_others, "") { others_ok(ProfileType_v, 5, &ProfileType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(ProfileType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(ProfileType_v, 5, &ProfileType_w, &ProfileType_r, FUDaeProfileType::UNKNOWN); }

static const FUDaePassStateFunction::Function PassStateFunction_v[] = { FUDaePassStateFunction::NEVER, FUDaePassStateFunction::LESS, FUDaePassStateFunction::EQUAL, FUDaePassStateFunction::LESS_EQUAL, FUDaePassStateFunction::GREATER, FUDaePassStateFunction::NOT_EQUAL, FUDaePassStateFunction::GREATER_EQUAL, FUDaePassStateFunction::ALWAYS };
static const char* PassStateFunction_w(FUDaePassStateFunction::Function e) { return FUDaePassStateFunction::ToString(e); }
static FUDaePassStateFunction::Function PassStateFunction_r(const char* t) { return FUDaePassStateFunction::FromString(t); }
FCV_UNIT(PassStateFunction_values, "") { values_ok(PassStateFunction_v, 8, &PassStateFunction_w, &PassStateFunction_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateFunction_others, "") { others_ok(PassStateFunction_v, 8, &PassStateFunction_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateFunction_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateFunction_v, 8, &PassStateFunction_w, &PassStateFunction_r, FUDaePassStateFunction::INVALID); }

static const FUDaePassStateStencilOperation::Operation PassStateStencilOperation_v[] = { FUDaePassStateStencilOperation::KEEP, FUDaePassStateStencilOperation::ZERO, FUDaePassStateStencilOperation::REPLACE, FUDaePassStateStencilOperation::INCREMENT, FUDaePassStateStencilOperation::DECREMENT, FUDaePassStateStencilOperation::INVERT, FUDaePassStateStencilOperation::INCREMENT_WRAP, FUDaePassStateStencilOperation::DECREMENT_WRAP };
static const char* PassStateStencilOperation_w(FUDaePassStateStencilOperation::Operation e) { return FUDaePassStateStencilOperation::ToString(e); }
static FUDaePassStateStencilOperation::Operation PassStateStencilOperation_r(const char* t) { return FUDaePassStateStencilOperation::FromString(t); }
FCV_UNIT(PassStateStencilOperation_values, "") { values_ok(PassStateStencilOperation_v, 8, &PassStateStencilOperation_w, &PassStateStencilOperation_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateStencilOperation_others, "") { others_ok(PassStateStencilOperation_v, 8, &PassStateStencilOperation_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateStencilOperation_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateStencilOperation_v, 8, &PassStateStencilOperation_w, &PassStateStencilOperation_r, FUDaePassStateStencilOperation::INVALID); }

static const FUDaePassStateBlendType::Type PassStateBlendType_v[] = { FUDaePassStateBlendType::ZERO, FUDaePassStateBlendType::ONE, FUDaePassStateBlendType::SOURCE_COLOR, FUDaePassStateBlendType::ONE_MINUS_SOURCE_COLOR, FUDaePassStateBlendType::DESTINATION_COLOR, FUDaePassStateBlendType::ONE_MINUS_DESTINATION_COLOR, FUDaePassStateBlendType::SOURCE_ALPHA, FUDaePassStateBlendType::ONE_MINUS_SOURCE_ALPHA, FUDaePassStateBlendType::DESTINATION_ALPHA, FUDaePassStateBlendType::ONE_MINUS_DESTINATION_ALPHA, FUDaePassStateBlendType::CONSTANT_COLOR, FUDaePassStateBlendType::ONE_MINUS_CONSTANT_COLOR, FUDaePassStateBlendType::CONSTANT_ALPHA, FUDaePassStateBlendType::ONE_MINUS_CONSTANT_ALPHA, FUDaePassStateBlendType::SOURCE_ALPHA_SATURATE };
static const char* PassStateBlendType_w(FUDaePassStateBlendType::Type e) { return FUDaePassStateBlendType::ToString(e); }
static FUDaePassStateBlendType::Type PassStateBlendType_r(const char* t) { return FUDaePassStateBlendType::FromString(t); }
FCV_UNIT(PassStateBlendType_values, "") { values_ok(PassStateBlendType_v, 15, &PassStateBlendType_w, &PassStateBlendType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateBlendType_others, "") { others_ok(PassStateBlendType_v, 15, &PassStateBlendType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateBlendType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateBlendType_v, 15, &PassStateBlendType_w, &PassStateBlendType_r, FUDaePassStateBlendType::INVALID); }

static const FUDaePassStateFaceType::Type PassStateFaceType_v[] = { FUDaePassStateFaceType::FRONT, FUDaePassStateFaceType::BACK, FUDaePassStateFaceType::FRONT_AND_BACK };
static const char* PassStateFaceType_w(FUDaePassStateFaceType::Type e) { return FUDaePassStateFaceType::ToString(e); }
static FUDaePassStateFaceType::Type PassStateFaceType_r(const char* t) { return FUDaePassStateFaceType::FromString(t); }
FCV_UNIT(PassStateFaceType_values, "") { values_ok(PassStateFaceType_v, 3, &PassStateFaceType_w, &PassStateFaceType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateFaceType_others, "") { others_ok(PassStateFaceType_v, 3, &PassStateFaceType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateFaceType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateFaceType_v, 3, &PassStateFaceType_w, &PassStateFaceType_r, FUDaePassStateFaceType::INVALID); }

static const FUDaePassStateBlendEquation::Equation PassStateBlendEquation_v[] = { FUDaePassStateBlendEquation::ADD, FUDaePassStateBlendEquation::SUBTRACT, FUDaePassStateBlendEquation::REVERSE_SUBTRACT, FUDaePassStateBlendEquation::MIN, FUDaePassStateBlendEquation::MAX };
static const char* PassStateBlendEquation_w(FUDaePassStateBlendEquation::Equation e) { return FUDaePassStateBlendEquation::ToString(e); }
static FUDaePassStateBlendEquation::Equation PassStateBlendEquation_r(const char* t) { return FUDaePassStateBlendEquation::FromString(t); }
FCV_UNIT(PassStateBlendEquation_values, "") { values_ok(PassStateBlendEquation_v, 5, &PassStateBlendEquation_w, &PassStateBlendEquation_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateBlendEquation_others, "") { others_ok(PassStateBlendEquation_v, 5, &PassStateBlendEquation_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateBlendEquation_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateBlendEquation_v, 5, &PassStateBlendEquation_w, &PassStateBlendEquation_r, FUDaePassStateBlendEquation::INVALID); }

static const FUDaePassStateMaterialType::Type PassStateMaterialType_v[] = { FUDaePassStateMaterialType::EMISSION, FUDaePassStateMaterialType::AMBIENT, FUDaePassStateMaterialType::DIFFUSE, FUDaePassStateMaterialType::SPECULAR, FUDaePassStateMaterialType::AMBIENT_AND_DIFFUSE };
static const char* PassStateMaterialType_w(FUDaePassStateMaterialType::Type e) { return FUDaePassStateMaterialType::ToString(e); }
static FUDaePassStateMaterialType::Type PassStateMaterialType_r(const char* t) { return FUDaePassStateMaterialType::FromString(t); }
FCV_UNIT(PassStateMaterialType_values, "") { values_ok(PassStateMaterialType_v, 5, &PassStateMaterialType_w, &PassStateMaterialType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateMaterialType_others, "") { others_ok(PassStateMaterialType_v, 5, &PassStateMaterialType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateMaterialType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateMaterialType_v, 5, &PassStateMaterialType_w, &PassStateMaterialType_r, FUDaePassStateMaterialType::INVALID); }

static const FUDaePassStateFogType::Type PassStateFogType_v[] = { FUDaePassStateFogType::LINEAR, FUDaePassStateFogType::EXP, FUDaePassStateFogType::EXP2 };
static const char* PassStateFogType_w(FUDaePassStateFogType::Type e) { return FUDaePassStateFogType::ToString(e); }
static FUDaePassStateFogType::Type PassStateFogType_r(const char* t) { return FUDaePassStateFogType::FromString(t); }
FCV_UNIT(PassStateFogType_values, "") { values_ok(PassStateFogType_v, 3, &PassStateFogType_w, &PassStateFogType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateFogType_others, "") { others_ok(PassStateFogType_v, 3, &PassStateFogType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateFogType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateFogType_v, 3, &PassStateFogType_w, &PassStateFogType_r, FUDaePassStateFogType::INVALID); }

static const FUDaePassStateFogCoordinateType::Type PassStateFogCoordinateType_v[] = { FUDaePassStateFogCoordinateType::FOG_COORDINATE, FUDaePassStateFogCoordinateType::FRAGMENT_DEPTH };
static const char* PassStateFogCoordinateType_w(FUDaePassStateFogCoordinateType::Type e) { return FUDaePassStateFogCoordinateType::ToString(e); }
static FUDaePassStateFogCoordinateType::Type PassStateFogCoordinateType_r(const char* t) { return FUDaePassStateFogCoordinateType::FromString(t); }
FCV_UNIT(PassStateFogCoordinateType_values, "") { values_ok(PassStateFogCoordinateType_v, 2, &PassStateFogCoordinateType_w, &PassStateFogCoordinateType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateFogCoordinateType_others, "") { others_ok(PassStateFogCoordinateType_v, 2, &PassStateFogCoordinateType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateFogCoordinateType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateFogCoordinateType_v, 2, &PassStateFogCoordinateType_w, &PassStateFogCoordinateType_r, FUDaePassStateFogCoordinateType::INVALID); }

static const FUDaePassStateFrontFaceType::Type PassStateFrontFaceType_v[] = { FUDaePassStateFrontFaceType::CLOCKWISE, FUDaePassStateFrontFaceType::COUNTER_CLOCKWISE };
static const char* PassStateFrontFaceType_w(FUDaePassStateFrontFaceType::Type e) { return FUDaePassStateFrontFaceType::ToString(e); }
static FUDaePassStateFrontFaceType::Type PassStateFrontFaceType_r(const char* t) { return FUDaePassStateFrontFaceType::FromString(t); }
FCV_UNIT(PassStateFrontFaceType_values, "") { values_ok(PassStateFrontFaceType_v, 2, &PassStateFrontFaceType_w, &PassStateFrontFaceType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateFrontFaceType_others, "") { others_ok(PassStateFrontFaceType_v, 2, &PassStateFrontFaceType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateFrontFaceType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateFrontFaceType_v, 2, &PassStateFrontFaceType_w, &PassStateFrontFaceType_r, FUDaePassStateFrontFaceType::INVALID); }

static const FUDaePassStateLogicOperation::Operation PassStateLogicOperation_v[] = { FUDaePassStateLogicOperation::CLEAR, FUDaePassStateLogicOperation::AND, FUDaePassStateLogicOperation::AND_REVERSE, FUDaePassStateLogicOperation::COPY, FUDaePassStateLogicOperation::AND_INVERTED, FUDaePassStateLogicOperation::NOOP, FUDaePassStateLogicOperation::XOR, FUDaePassStateLogicOperation::OR, FUDaePassStateLogicOperation::NOR, FUDaePassStateLogicOperation::EQUIV, FUDaePassStateLogicOperation::INVERT, FUDaePassStateLogicOperation::OR_REVERSE, FUDaePassStateLogicOperation::COPY_INVERTED, FUDaePassStateLogicOperation::NAND, FUDaePassStateLogicOperation::SET };
static const char* PassStateLogicOperation_w(FUDaePassStateLogicOperation::Operation e) { return FUDaePassStateLogicOperation::ToString(e); }
static FUDaePassStateLogicOperation::Operation PassStateLogicOperation_r(const char* t) { return FUDaePassStateLogicOperation::FromString(t); }
FCV_UNIT(PassStateLogicOperation_values, "") { values_ok(PassStateLogicOperation_v, 15, &PassStateLogicOperation_w, &PassStateLogicOperation_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateLogicOperation_others, "") { others_ok(PassStateLogicOperation_v, 15, &PassStateLogicOperation_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateLogicOperation_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateLogicOperation_v, 15, &PassStateLogicOperation_w, &PassStateLogicOperation_r, FUDaePassStateLogicOperation::INVALID); }

static const FUDaePassStatePolygonMode::Mode PassStatePolygonMode_v[] = { FUDaePassStatePolygonMode::POINT, FUDaePassStatePolygonMode::LINE, FUDaePassStatePolygonMode::FILL };
static const char* PassStatePolygonMode_w(FUDaePassStatePolygonMode::Mode e) { return FUDaePassStatePolygonMode::ToString(e); }
static FUDaePassStatePolygonMode::Mode PassStatePolygonMode_r(const char* t) { return FUDaePassStatePolygonMode::FromString(t); }
FCV_UNIT(PassStatePolygonMode_values, "") { values_ok(PassStatePolygonMode_v, 3, &PassStatePolygonMode_w, &PassStatePolygonMode_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStatePolygonMode_others, "") { others_ok(PassStatePolygonMode_v, 3, &PassStatePolygonMode_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStatePolygonMode_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStatePolygonMode_v, 3, &PassStatePolygonMode_w, &PassStatePolygonMode_r, FUDaePassStatePolygonMode::INVALID); }

static const FUDaePassStateShadeModel::Model PassStateShadeModel_v[] = { FUDaePassStateShadeModel::FLAT, FUDaePassStateShadeModel::SMOOTH };
static const char* PassStateShadeModel_w(FUDaePassStateShadeModel::Model e) { return FUDaePassStateShadeModel::ToString(e); }
static FUDaePassStateShadeModel::Model PassStateShadeModel_r(const char* t) { return FUDaePassStateShadeModel::FromString(t); }
FCV_UNIT(PassStateShadeModel_values, "") { values_ok(PassStateShadeModel_v, 2, &PassStateShadeModel_w, &PassStateShadeModel_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateShadeModel_others, "") { others_ok(PassStateShadeModel_v, 2, &PassStateShadeModel_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateShadeModel_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateShadeModel_v, 2, &PassStateShadeModel_w, &PassStateShadeModel_r, FUDaePassStateShadeModel::INVALID); }

static const FUDaePassStateLightModelColorControlType::Type PassStateLightModelColorControlType_v[] = { FUDaePassStateLightModelColorControlType::SINGLE_COLOR, FUDaePassStateLightModelColorControlType::SEPARATE_SPECULAR_COLOR };
static const char* PassStateLightModelColorControlType_w(FUDaePassStateLightModelColorControlType::Type e) { return FUDaePassStateLightModelColorControlType::ToString(e); }
static FUDaePassStateLightModelColorControlType::Type PassStateLightModelColorControlType_r(const char* t) { return FUDaePassStateLightModelColorControlType::FromString(t); }
FCV_UNIT(PassStateLightModelColorControlType_values, "") { values_ok(PassStateLightModelColorControlType_v, 2, &PassStateLightModelColorControlType_w, &PassStateLightModelColorControlType_r, DAEERR_UNKNOWN_INPUT, false); }
FCV_UNIT(PassStateLightModelColorControlType_others, "") { others_ok(PassStateLightModelColorControlType_v, 2, &PassStateLightModelColorControlType_w, DAEERR_UNKNOWN_INPUT); }
FCV_UNIT(PassStateLightModelColorControlType_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassStateLightModelColorControlType_v, 2, &PassStateLightModelColorControlType_w, &PassStateLightModelColorControlType_r, FUDaePassStateLightModelColorControlType::INVALID); }

static const FUDaePassState::State PassState_v[] = { FUDaePassState::ALPHA_FUNC, FUDaePassState::BLEND_FUNC, FUDaePassState::BLEND_FUNC_SEPARATE, FUDaePassState::BLEND_EQUATION, FUDaePassState::BLEND_EQUATION_SEPARATE, FUDaePassState::COLOR_MATERIAL, FUDaePassState::CULL_FACE, FUDaePassState::DEPTH_FUNC, FUDaePassState::FOG_MODE, FUDaePassState::FOG_COORD_SRC, FUDaePassState::FRONT_FACE, FUDaePassState::LIGHT_MODEL_COLOR_CONTROL, FUDaePassState::LOGIC_OP, FUDaePassState::POLYGON_MODE, FUDaePassState::SHADE_MODEL, FUDaePassState::STENCIL_FUNC, FUDaePassState::STENCIL_OP, FUDaePassState::STENCIL_FUNC_SEPARATE, FUDaePassState::STENCIL_OP_SEPARATE, FUDaePassState::STENCIL_MASK_SEPARATE, FUDaePassState::LIGHT_ENABLE, FUDaePassState::LIGHT_AMBIENT, FUDaePassState::LIGHT_DIFFUSE, FUDaePassState::LIGHT_SPECULAR, FUDaePassState::LIGHT_POSITION, FUDaePassState::LIGHT_CONSTANT_ATTENUATION, FUDaePassState::LIGHT_LINEAR_ATTENUATION, FUDaePassState::LIGHT_QUADRATIC_ATTENUATION, FUDaePassState::LIGHT_SPOT_CUTOFF, FUDaePassState::LIGHT_SPOT_DIRECTION, FUDaePassState::LIGHT_SPOT_EXPONENT, FUDaePassState::TEXTURE1D, FUDaePassState::TEXTURE2D, FUDaePassState::TEXTURE3D, FUDaePassState::TEXTURECUBE, FUDaePassState::TEXTURERECT, FUDaePassState::TEXTUREDEPTH, FUDaePassState::TEXTURE1D_ENABLE, FUDaePassState::TEXTURE2D_ENABLE, FUDaePassState::TEXTURE3D_ENABLE, FUDaePassState::TEXTURECUBE_ENABLE, FUDaePassState::TEXTURERECT_ENABLE, FUDaePassState::TEXTUREDEPTH_ENABLE, FUDaePassState::TEXTURE_ENV_COLOR, FUDaePassState::TEXTURE_ENV_MODE, FUDaePassState::CLIP_PLANE, FUDaePassState::CLIP_PLANE_ENABLE, FUDaePassState::BLEND_COLOR, FUDaePassState::CLEAR_COLOR, FUDaePassState::CLEAR_STENCIL, FUDaePassState::CLEAR_DEPTH, FUDaePassState::COLOR_MASK, FUDaePassState::DEPTH_BOUNDS, FUDaePassState::DEPTH_MASK, FUDaePassState::DEPTH_RANGE, FUDaePassState::FOG_DENSITY, FUDaePassState::FOG_START, FUDaePassState::FOG_END, FUDaePassState::FOG_COLOR, FUDaePassState::LIGHT_MODEL_AMBIENT, FUDaePassState::LIGHTING_ENABLE, FUDaePassState::LINE_STIPPLE, FUDaePassState::LINE_WIDTH, FUDaePassState::MATERIAL_AMBIENT, FUDaePassState::MATERIAL_DIFFUSE, FUDaePassState::MATERIAL_EMISSION, FUDaePassState::MATERIAL_SHININESS, FUDaePassState::MATERIAL_SPECULAR, FUDaePassState::MODEL_VIEW_MATRIX, FUDaePassState::POINT_DISTANCE_ATTENUATION, FUDaePassState::POINT_FADE_THRESHOLD_SIZE, FUDaePassState::POINT_SIZE, FUDaePassState::POINT_SIZE_MIN, FUDaePassState::POINT_SIZE_MAX, FUDaePassState::POLYGON_OFFSET, FUDaePassState::PROJECTION_MATRIX, FUDaePassState::SCISSOR, FUDaePassState::STENCIL_MASK, FUDaePassState::ALPHA_TEST_ENABLE, FUDaePassState::AUTO_NORMAL_ENABLE, FUDaePassState::BLEND_ENABLE, FUDaePassState::COLOR_LOGIC_OP_ENABLE, FUDaePassState::COLOR_MATERIAL_ENABLE, FUDaePassState::CULL_FACE_ENABLE, FUDaePassState::DEPTH_BOUNDS_ENABLE, FUDaePassState::DEPTH_CLAMP_ENABLE, FUDaePassState::DEPTH_TEST_ENABLE, FUDaePassState::DITHER_ENABLE, FUDaePassState::FOG_ENABLE, FUDaePassState::LIGHT_MODEL_LOCAL_VIEWER_ENABLE, FUDaePassState::LIGHT_MODEL_TWO_SIDE_ENABLE, FUDaePassState::LINE_SMOOTH_ENABLE, FUDaePassState::LINE_STIPPLE_ENABLE, FUDaePassState::LOGIC_OP_ENABLE, FUDaePassState::MULTISAMPLE_ENABLE, FUDaePassState::NORMALIZE_ENABLE, FUDaePassState::POINT_SMOOTH_ENABLE, FUDaePassState::POLYGON_OFFSET_FILL_ENABLE, FUDaePassState::POLYGON_OFFSET_LINE_ENABLE, FUDaePassState::POLYGON_OFFSET_POINT_ENABLE, FUDaePassState::POLYGON_SMOOTH_ENABLE, FUDaePassState::POLYGON_STIPPLE_ENABLE, FUDaePassState::RESCALE_NORMAL_ENABLE, FUDaePassState::SAMPLE_ALPHA_TO_COVERAGE_ENABLE, FUDaePassState::SAMPLE_ALPHA_TO_ONE_ENABLE, FUDaePassState::SAMPLE_COVERAGE_ENABLE, FUDaePassState::SCISSOR_TEST_ENABLE, FUDaePassState::STENCIL_TEST_ENABLE };
static const char* PassState_w(FUDaePassState::State e) { return FUDaePassState::ToString(e); }
static FUDaePassState::State PassState_r(const char* t) { return FUDaePassState::FromString(t); }
FCV_UNIT(PassState_values, "") { values_ok(PassState_v, 108, &PassState_w, &PassState_r, DAEERR_UNKNOWN_ELEMENT, false); }
FCV_UNIT(PassState_others, "") { others_ok(PassState_v, 108, &PassState_w, DAEERR_UNKNOWN_ELEMENT); }
FCV_UNIT(PassState_text, "merge=strcmp;bounds=len:5;search=1") { text_ok(PassState_v, 108, &PassState_w, &PassState_r, FUDaePassState::INVALID); }
