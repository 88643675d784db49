From d0cc10955c50771be55894f9043559b5259a8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 01/52] fix: FCDVersion operator> and operator>= were
 interchanged

---
 FCollada/FCDocument/FCDVersion.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDVersion.h b/FCollada/FCDocument/FCDVersion.h
index 0a89a44..635d015 100644
--- a/FCollada/FCDocument/FCDVersion.h
+++ b/FCollada/FCDocument/FCDVersion.h
@@ -74,12 +74,12 @@ public:
 	/** Returns whether this version is newer than a second version.
 		@param b A second version.
 		@return Whether this version is newer than the second version. */
-	inline bool operator> (const FCDVersion& b) const { return b <= *this; }
+	inline bool operator> (const FCDVersion& b) const { return b < *this; }
 
 	/** Returns whether this version is newer or equal to a second version.
 		@param b A second version.
 		@return Whether this version is newer or equal to a second version. */
-	inline bool operator>= (const FCDVersion& b) const { return b < *this; }
+	inline bool operator>= (const FCDVersion& b) const { return b <= *this; }
 };
 
 #endif // _FCD_VERSION_H_
-- 
2.43.0


From 996033c0d5adcd84d5b21cf62075e1dcee8a6061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 02/52] fix: FMVector4::ToHSVColor divided zero by zero for
 grey colours

---
 FCollada/FMath/FMVector3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMVector3.cpp b/FCollada/FMath/FMVector3.cpp
index 4ab59c3..549d666 100644
--- a/FCollada/FMath/FMVector3.cpp
+++ b/FCollada/FMath/FMVector3.cpp
@@ -94,7 +94,8 @@ FMVector3 FMVector4::ToHSVColor()
 	float largest = max(max(x, y), z);
 	hsv.z = largest;				// v
 	float delta = largest - smallest;
-	if (!IsEquivalent(largest, 0.0f))
+	if (!(delta > 0.0f)) hsv.x = hsv.y = 0; // grey: no hue, no saturation
+	else if (!IsEquivalent(largest, 0.0f))
 	{
 		hsv.y = delta / largest;	// s
 		if (IsEquivalent(x, largest))			hsv.x = (y-z) / delta;			// between yellow & magenta
-- 
2.43.0


From f097a98c4c19c3a09425147ae5d75d533366bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 03/52] fix: FMVector4::FromHSVColor returned magenta instead
 of red for a hue of one

---
 FCollada/FMath/FMVector3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMVector3.cpp b/FCollada/FMath/FMVector3.cpp
index 549d666..ac0c39f 100644
--- a/FCollada/FMath/FMVector3.cpp
+++ b/FCollada/FMath/FMVector3.cpp
@@ -64,6 +64,7 @@ FMVector4 FMVector4::FromHSVColor(float hue, float saturation, float value)
 	if (!IsEquivalent(saturation, 0.0f))
 	{
 		hue *= 6.0f;						// sector 0 to 5
+		if (hue >= 6.0f) hue -= 6.0f;		// a hue of one is the hue zero
 		float sector = floor(hue);
 		float f = hue - sector;				// factorial part of h
 		float p = value * (1.0f - saturation);
-- 
2.43.0


From 75cb31354a4a69458a1418982ec281618380a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 04/52] fix: FUDaeTextureFilterFunction::ToString wrote the
 linear filter as unknown

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From 43745702a6791da9eec93d97635f487be235d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 05/52] fix: FMQuaternion::ToEuler lacked the factor two in the
 X rotation

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 75f03d2..258b611 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -163,7 +163,7 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		// [GLaforte] Derived on 18-07-2007.
 		angles.y = asinf(siny);
-		angles.x = atan2f((x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
+		angles.x = atan2f(2.0f * (x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
 		angles.z = atan2f(2.0f * (z*w-x*y), 1.0f - 2.0f * (y*y+z*z));
 	}
 
-- 
2.43.0


From aaa82627a2942fe21c3df5561ae5dda3706b0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 06/52] fix: FMQuaternion::ToEuler turned the wrong way at the
 south pole

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 258b611..f99f485 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -156,7 +156,7 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		angles.y = (float) -FMath::Pi / 2;
 
-		angles.x = -2 * atan2(x,w);
+		angles.x = 2 * atan2(x,w);
 		angles.z = 0;
 	}
 	else
-- 
2.43.0


From 062020dedaf7081335a30e208be32feb3ac920ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 07/52] fix: FMQuaternion::MatrixRotationQuaternion divided by
 a vanishing component for half turns

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index f99f485..cb0122a 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -245,7 +245,7 @@ FMQuaternion FMQuaternion::MatrixRotationQuaternion(const FMMatrix44& mat)
 		q.z = (mat[0][1] - mat[1][0]) / s;
 		q.w = s * 0.25f;
 	}
-	else if (mat[0][0] > mat[1][1])
+	else if (mat[0][0] > mat[1][1] && mat[0][0] > mat[2][2])
 	{
 		s = sqrtf(1.0f + mat[0][0] - mat[1][1] - mat[2][2]) * 2.0f;
 		q.x = 0.25f * s;
-- 
2.43.0


From 12699dddf61d5182566753baba21b4277cd78363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 08/52] fix: FMMatrix44::Recompose did not rebuild the matrix
 given to Decompose

---
 FCollada/FMath/FMMatrix44.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 5632bea..9d8dd76 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -170,8 +170,8 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 
 void FMMatrix44::Recompose(const FMVector3& scale, const FMVector3& rotation, const FMVector3& translation, float inverted)
 {
-	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
-		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
 		* FMMatrix44::ScaleMatrix(inverted * scale);
 }
 
-- 
2.43.0


From 36543991d044c53475fd990dfc5d990e3373407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 09/52] fix: FMMatrix33::RotationMatrix rotated clockwise
 instead of counter-clockwise

---
 FCollada/FMath/FMMatrix33.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMMatrix33.cpp b/FCollada/FMath/FMMatrix33.cpp
index 3a03f4b..e84710a 100644
--- a/FCollada/FMath/FMMatrix33.cpp
+++ b/FCollada/FMath/FMMatrix33.cpp
@@ -49,7 +49,7 @@ FMMatrix33 FMMatrix33::RotationMatrix(float angle)
 	FMMatrix33 m(identity);
 	float c = cosf(angle), s = sinf(angle);
 	m[0][0] = c; m[1][1] = c;
-	m[0][1] = -s; m[1][0] = s;
+	m[0][1] = s; m[1][0] = -s;
 	return m;
 }
 
-- 
2.43.0


From 41920109cc548ae6412e3fe3a815f0212da9b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 10/52] fix: a bounding box contains every point included into
 it, also when it was empty before

---
 FCollada/FUtils/FUBoundingBox.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 4813579..6326ab4 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -106,11 +106,11 @@ void FUBoundingBox::Include(const FUBoundingBox& boundingBox)
 void FUBoundingBox::Include(const FMVector3& point)
 {
 	if (point.x < minimum.x) minimum.x = point.x;
-	else if (point.x > maximum.x) maximum.x = point.x;
+	if (point.x > maximum.x) maximum.x = point.x;
 	if (point.y < minimum.y) minimum.y = point.y;
-	else if (point.y > maximum.y) maximum.y = point.y;
+	if (point.y > maximum.y) maximum.y = point.y;
 	if (point.z < minimum.z) minimum.z = point.z;
-	else if (point.z > maximum.z) maximum.z = point.z;
+	if (point.z > maximum.z) maximum.z = point.z;
 }
 
 FUBoundingBox FUBoundingBox::Transform(const FMMatrix44& transform) const
-- 
2.43.0


From edb0bb01aa79d8c1c79a91f4a845b49aa4f88cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 11/52] fix: overlap of bounding spheres: invalid spheres,
 position of the overlap center

---
 FCollada/FUtils/FUBoundingSphere.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index ce373b0..7f348c1 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -69,18 +69,18 @@ bool FUBoundingSphere::Contains(const FMVector3& point) const
 
 bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector3* overlapCenter) const
 {
-	if (radius >= 0.0f)
+	if (radius >= 0.0f && boundingSphere.radius >= 0.0f)
 	{
-		FMVector3 centerToCenter = center - boundingSphere.center;
+		FMVector3 centerToCenter = boundingSphere.center - center;
 		float distanceSquared = centerToCenter.LengthSquared();
 		bool overlaps = distanceSquared < (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
 		if (overlaps && overlapCenter != NULL)
 		{
 			float distance = sqrtf(distanceSquared);
-			float overlapDistance = (radius + boundingSphere.radius) - distance;
-			float smallerRadius = min(radius, boundingSphere.radius);
-			overlapDistance = min(2.0f * smallerRadius, overlapDistance);
-			(*overlapCenter) = center + centerToCenter / distance * (radius - overlapDistance / 2.0f);
+			// The overlap region spans this interval on the line through the two centers.
+			float overlapStart = max(-radius, distance - boundingSphere.radius);
+			float overlapEnd = min(radius, distance + boundingSphere.radius);
+			(*overlapCenter) = (distance > 0.0f) ? center + centerToCenter / distance * ((overlapStart + overlapEnd) / 2.0f) : center;
 		}
 		return overlaps;
 	}
-- 
2.43.0


From aa257cb2b3da8e3c5df4b86e598083cec2d86d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 12/52] fix: including a bounding sphere encloses both spheres

---
 FCollada/FUtils/FUBoundingSphere.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index 7f348c1..f48fc17 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -130,13 +130,21 @@ void FUBoundingSphere::Include(const FMVector3& point)
 
 void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 {
+	if (boundingSphere.radius < 0.0f) return;
 	if (radius >= 0.0f)
 	{
 		float distance = (center - boundingSphere.center).Length();
-		if (distance + boundingSphere.radius > radius)
+		if (distance + radius <= boundingSphere.radius)
 		{
-			center = ((radius + distance / 2.0f) * center + (boundingSphere.radius + distance / 2.0f) * boundingSphere.center) / (radius + boundingSphere.radius + distance);
-			radius = (radius + boundingSphere.radius + distance) / 2.0f;
+			// This sphere is inside the included one.
+			center = boundingSphere.center;
+			radius = boundingSphere.radius;
+		}
+		else if (distance + boundingSphere.radius > radius)
+		{
+			float enclosingRadius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center = center + (boundingSphere.center - center) * ((enclosingRadius - radius) / distance);
+			radius = enclosingRadius;
 		}
 	}
 	else
-- 
2.43.0


From bc86631c9ede1a7865669995048e089649f98211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 13/52] fix: including an invalid bounding box has no effect on
 a bounding sphere

---
 FCollada/FUtils/FUBoundingSphere.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index f48fc17..006a6c3 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -156,6 +156,7 @@ void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 
 void FUBoundingSphere::Include(const FUBoundingBox& boundingBox)
 {
+	if (!boundingBox.IsValid()) return;
 	if (radius >= 0.0f)
 	{
 		FUBOUNDINGBOX_COORDINATES(coordinates, boundingBox);
-- 
2.43.0


From 3b2c3d2f4357f28df5b13f518b315edc254a0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 14/52] fix: shrinking an animatable list with a fill value
 removes the animations of the dropped elements

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ddf6745..98ca978 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -186,7 +186,7 @@ template <class TYPE, int QUALIFIERS>
 void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const TYPE& value)
 {
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
-	else if (count < values.size()) OnRemoval(count - values.size(), values.size());
+	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
 	OnPotentialSizeChange();
 }
-- 
2.43.0


From 7c05413d5809dbc3c48090a34789c668975cdb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 15/52] fix: animations of an animatable list stay bound to the
 values of their elements

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index 98ca978..39c5662 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -197,14 +197,10 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::OnPotentialSizeChange()
 	size_t animatedCount = animateds.size();
 	if (animatedCount == 0) return;
 
-	// Check if the first FCDAnimated points to the correct values.
-	// If it does, then they all should be fine.
-	FCDAnimated* animated = animateds.front();
-	FUAssert((size_t) animated->GetArrayElement() < values.size(), return);
-	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]) return;
-
-	// Process all the animateds and set their value pointers.
+	// Process all the animateds and set their value pointers: the array may have moved
+	// and the elements after an insertion or a removal have new indices.
 	// IMPORTANT: it is assumed that these values are FLOATS and ORDERED.
+	FCDAnimated* animated = animateds.front();
 	size_t stride = animated->GetValueCount();
 	for (size_t i = 0; i < animatedCount; ++i)
 	{
-- 
2.43.0


From d56c5354e975fdda17636b59acf52ce3a391da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 16/52] fix: FUEvent::ReleaseHandler removes exactly one
 handler of the object

Erasing the single position returned by std::remove_if was undefined when the
object had no handler, and left a moved-from handler behind when it had several.
---
 FCollada/FUtils/FUEvent.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 27e5983..ab64123 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -18,7 +18,9 @@
 #ifndef _FU_EVENT_H_
 #define _FU_EVENT_H_
 
+#include <algorithm>
 #include <functional>
+#include <tuple>
 #include <vector>
 
 /**
@@ -55,8 +57,9 @@ public:
 		@param function The address of the function callback to unregister. */
 	void ReleaseHandler(void* object)
 	{
-		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](auto t){ return std::get<0>(t) == object; }));
+		auto it = std::find_if(handlers.begin(), handlers.end(),
+					[object](const auto& t){ return std::get<0>(t) == object; });
+		if (it != handlers.end()) handlers.erase(it);
 	}
 
 	/**
-- 
2.43.0


From 86f0e457f97a787beec6d1ab9ac7902dca0185f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 17/52] fix: FUEvent may be changed by the handlers it calls

A handler that released itself destroyed the running callback, and one that
released an earlier handler made others run twice.
---
 FCollada/FUtils/FUEvent.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index ab64123..70bfa44 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -31,7 +31,10 @@ template <typename... Args>
 class FUEvent
 {
 private:
-	std::vector<std::tuple<void*, std::function<void(Args...)>>> handlers;
+	// The object, the callback and the registration number of each handler.
+	typedef std::tuple<void*, std::function<void(Args...)>, size_t> Handler;
+	std::vector<Handler> handlers;
+	size_t nextRegistration = 0;
 public:
 
 	/** Constructor. */
@@ -48,7 +51,7 @@ public:
 		@param _function The static function to callback. */
 	void InsertHandler(void* object, std::function<void(Args...)> func)
 	{
-		handlers.emplace_back(std::tuple(object,func));
+		handlers.emplace_back(object, func, nextRegistration++);
 	}
 
 	/** Releases and unregisters a callback that handles the event.
@@ -69,8 +72,16 @@ public:
 	 */
 	void operator()(Args... args)
 	{
-		for (std::size_t i = handlers.size(); i > 0; --i)
-			(std::get<1>(handlers[i - 1]))(args...);
+		// The callbacks may insert and release handlers: call a copy of the
+		// current handlers, leaving out those released in the meantime.
+		std::vector<Handler> current(handlers);
+		for (std::size_t i = current.size(); i > 0; --i)
+		{
+			const Handler& h = current[i - 1];
+			if (std::any_of(handlers.begin(), handlers.end(),
+					[&h](const auto& t){ return std::get<2>(t) == std::get<2>(h); }))
+				(std::get<1>(h))(args...);
+		}
 	}
 };
 
-- 
2.43.0


From 5b3dd0e0afdd037ff7ed16f783f5ba979fb60c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 18/52] fix: copies of a FUTrackedPtr track their object

The implicit copy constructor copied the pointer without tracking: the copy
dangled once the object was released.
---
 FCollada/FUtils/FUTracker.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..cafeba6 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -120,6 +120,7 @@ public:
 	{
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
+	FUTrackedPtr(const FUTrackedPtr& _ptr) : FUTrackedPtr(_ptr.ptr) {} /**< See above. */
 
 	/** Destructor.
 		Stops the tracking of the pointer. */
-- 
2.43.0


From 6aa7cd22f907fad351c245513b1799468986bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 19/52] fix: copies of a FUTrackedList track their objects

The defaulted copy constructor and assignment copied the pointers without
tracking the new objects nor releasing the tracking of the old ones.
---
 FCollada/FUtils/FUTracker.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index cafeba6..e537beb 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -335,14 +335,25 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList(const FUTrackedList<ObjectClass>& other) : Parent(), FUTracker()
+	{
+		insert(end(), other.begin(), other.end());
+	}
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (this != &other)
+		{
+			clear();
+			insert(end(), other.begin(), other.end());
+		}
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From dd389f190479d470a563e77a409e000283253999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 20/52] fix: assigning a FUObjectRef to another transfers the
 ownership

The object was attached to its new owner while still attached to the old one,
which is refused: it stayed owned by a reference that no longer pointed to it.
---
 FCollada/FUtils/FUObject.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..0c5af87 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -198,9 +198,10 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
+		ObjectClass* object = _ptr.ptr;
+		if (object != NULL) _ptr.DetachObject((FUObject*) object);
 		_ptr.ptr = NULL;
-		return *this;
+		return operator=(object);
 	}
 
 	/** Accesses the tracked object.
-- 
2.43.0


From 1b02ec389867021ca84463468a520c26eca9cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 21/52] fix: a FUObjectRef cannot be copied

The implicit copy constructor made two references own one object, which was then
released twice.
---
 FCollada/FUtils/FUObject.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 0c5af87..6c5f347 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -162,6 +162,8 @@ public:
 		if (_ptr != NULL) AttachObject((FUObject*) ptr);
 	}
 
+	FUObjectRef(const FUObjectRef<ObjectClass>& _ptr) = delete; /**< An object has only one owner. */
+
 	/** Destructor.
 		The object referenced will be released. */
 	~FUObjectRef()
-- 
2.43.0


From 6022ddf2f3782bf8cf808e566dd2afdd170c839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 22/52] fix: reducing the influences of a vertex of zero
 weights leaves them zero

The re-normalization divided zero by zero and left NaN weights.
---
 FCollada/FCDocument/FCDSkinController.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSkinController.cpp b/FCollada/FCDocument/FCDSkinController.cpp
index 5e3d11b..6f3cf27 100644
--- a/FCollada/FCDocument/FCDSkinController.cpp
+++ b/FCollada/FCDocument/FCDSkinController.cpp
@@ -179,8 +179,11 @@ void FCDSkinController::ReduceInfluences(uint32 maxInfluenceCount, float minimum
 
 			float newTotal = 0.0f;
 			for (size_t i = 0; i < newInfluenceCount; ++i) newTotal += influence.GetPair(i)->weight;
-			float renormalizingFactor = oldTotal / newTotal;
-			for (size_t i = 0; i < newInfluenceCount; ++i) influence.GetPair(i)->weight *= renormalizingFactor;
+			if (newTotal != 0.0f)
+			{
+				float renormalizingFactor = oldTotal / newTotal;
+				for (size_t i = 0; i < newInfluenceCount; ++i) influence.GetPair(i)->weight *= renormalizingFactor;
+			}
 		}
 	}
 
-- 
2.43.0


From 7188c6dc19714e9dd8c67214a3a1ad96bf907523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 23/52] fix: FCDGeometryPolygons::RemoveFace removes that face
 and its holes

The number of counts to remove was given as the end of the range, so that only the
first face could be removed; its holes stayed in the list of holes, whose indices
were not moved.
---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..fb954af 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -107,7 +107,11 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	// Remove the face and its holes
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
-	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	size_t first = index + holeBefore;
+	size_t last = first + holeCount + 1; // +1 in order to remove the polygon as well as the holes.
+	faceVertexCounts.erase(first, last);
+	if (holeCount > 0) holeFaces.erase(holeBefore, holeBefore + holeCount);
+	for (size_t i = holeBefore; i < holeFaces.size(); ++i) holeFaces[i] -= (uint32) (last - first);
 
 	parent->Recalculate();
 	SetDirtyFlag();
-- 
2.43.0


From 07c3c7ef901de3a95d10d928030c8c5243dbe110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 24/52] fix: linear pre-infinity continues the line of the
 first segment

The slope was applied to the distance to the first key with the wrong sign, which
mirrored the line.
---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..c350d04 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -329,7 +329,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart + inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
-- 
2.43.0


From c4937e1eb5389edb594ea1dd83487586bede1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 25/52] fix: evaluating a curve at the time of a key gives the
 value of that key

A stepped segment lasted until after the time of its end key and a Bezier segment
only came near it; an input that rounding in the cycle modes put after the last key
read past the end of the keys.
---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index c350d04..d0a5c8f 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -364,13 +364,15 @@ float FCDAnimationCurve::Evaluate(float input) const
 	// Linear search is more efficient on the last interval
 	for (it = start; it != terminate; ++it)
 	{
-		if ((*it)->input >= input) break;
+		if ((*it)->input > input) break;
 	}
 	if (it == keys.begin()) return outputOffset + outputStart;
+	if (it == keys.end()) return outputOffset + outputEnd;
 
 	// Get the keys and values for this interval
 	const FCDAnimationKey* startKey = *(it - 1);
 	const FCDAnimationKey* endKey = *it;
+	if (startKey->input == input) return outputOffset + startKey->output;
 	float inputInterval = endKey->input - startKey->input;
 	float outputInterval = endKey->output - startKey->output;
 
-- 
2.43.0


From 32038370228f2b49fe28cbdc0a8c09a6c8ebda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 26/52] fix: animation keys have a virtual destructor

Bezier and TCB keys were deleted through their base class, which is undefined.
---
 FCollada/FCDocument/FCDAnimationKey.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationKey.h b/FCollada/FCDocument/FCDAnimationKey.h
index 6993be2..a854672 100644
--- a/FCollada/FCDocument/FCDAnimationKey.h
+++ b/FCollada/FCDocument/FCDAnimationKey.h
@@ -26,6 +26,9 @@
 class FCDAnimationKey
 {
 public:
+	/** Destructor: the keys of a curve are deleted through this class. */
+	virtual ~FCDAnimationKey() {}
+
 	/** The key input. Typically, this will be a time value, in seconds.
 		For driven curves, the dimension of this value will depend on the driver. */
 	float input;
-- 
2.43.0


From 149d23ce0f707f2107ce036f91b26b0446fd0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 27/52] fix: integers in text may be separated by carriage
 returns

---
 FCollada/FUtils/FUStringConversion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..67f2521 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -46,8 +46,8 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 		++s;
 	}
 	val *= sign;
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return val;
 }
@@ -147,8 +147,8 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 		++s;
 	}
 
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return val;
 }
-- 
2.43.0


From 1c7935a82924b762c3f489daa3de6ad99f43b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 28/52] fix: INF is read as infinity, and a text ending in I is
 not read past its end

---
 FCollada/FUtils/FUStringConversion.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 67f2521..9a860df 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -98,18 +98,10 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	if (infinity) // test for infinity
 	{
 		infinity = false;
-		c = *(s++);
-		if (c != 'I') infinity = false;
-		else
+		if (s[0] == 'I' && s[1] == 'N' && s[2] == 'F')
 		{
-			c = *(s++);
-			if (c != 'N') infinity = false;
-			else
-			{
-				c = *(s++);
-				if (c != 'F') infinity = false;
-				else out = std::numeric_limits<float>::infinity() * ((float) sign);
-			}
+			infinity = true;
+			out = std::numeric_limits<float>::infinity() * ((float) sign);
 		}
 	}
 	if (!infinity)
-- 
2.43.0


From 8d6c1fa3b18f53f8848ce1cb8db1358508002be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 29/52] fix: decimal numbers may have explicit plus signs

---
 FCollada/FUtils/FUStringConversion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 9a860df..acec828 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -67,6 +67,7 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	double val = 0.0;
 	float sign = 1.0;
 	if (*s == '-') { ++s; sign = -1.0; }
+	else if (*s == '+') ++s;
 	float decimals = 0.0;
 	int32 exponent = 0;
 	bool infinity = false;
@@ -87,7 +88,7 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 		case '8': val = val * 10.0 + 8.0; decimals *= 10.0; break;
 		case '9': val = val * 10.0 + 9.0; decimals *= 10.0; break;
 		case 'e':
-		case 'E': ++s; exponent = ToInt32(&s); s -= 2; nonValidFound = true; break;
+		case 'E': ++s; if (*s == '+') ++s; exponent = ToInt32(&s); s -= 2; nonValidFound = true; break;
 		case 'I': infinity = true; [[fallthrough]];
 		default: nonValidFound = true; --s; break;
 		}
-- 
2.43.0


From e845416a52ddcd8de12ff17f2847c34df10a4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 30/52] fix: many fraction digits and large exponents of a
 decimal number do not over- or underflow before the value is complete

---
 FCollada/FUtils/FUStringConversion.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index acec828..a0a170c 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -68,7 +68,7 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	float sign = 1.0;
 	if (*s == '-') { ++s; sign = -1.0; }
 	else if (*s == '+') ++s;
-	float decimals = 0.0;
+	double decimals = 0.0;
 	int32 exponent = 0;
 	bool infinity = false;
 	bool nonValidFound = false;
@@ -109,8 +109,9 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	{
 		// Generate the value
 		if (decimals == 0.0) decimals = 1.0;
-		out = (float) (val * sign / decimals);
-		if (exponent != 0) out *= powf(10.0f, (float) exponent);
+		val *= sign / decimals;
+		if (exponent != 0 && val != 0.0) val *= pow(10.0, (double) exponent);
+		out = (float) val;
 	}
 
 	// Find next whitespaces and Skip end whitespaces
-- 
2.43.0


From ea2f6c8c6de01fe7ad7e55a873f8844f9c3abf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 31/52] fix: CountValues counts words that start with a
 non-ASCII character

---
 FCollada/FUtils/FUStringConversion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index a0a170c..1aab731 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -278,7 +278,7 @@ template <class CH>
 FCOLLADA_EXPORT size_t FUStringConversion::CountValues(const CH* sz)
 {
 	size_t count = 0;
-	if (sz != NULL && *sz > 0)
+	if (sz != NULL && *sz != 0)
 	{
 		while (*sz != 0)
 		{
-- 
2.43.0


From 5d95a7eb6de929b6b623f973b5c0d0a1bbad7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 32/52] fix: a text of white spaces only is an empty list of
 numbers

---
 FCollada/FUtils/FUStringConversion.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 1aab731..6d5ae1d 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -296,6 +296,14 @@ FCOLLADA_EXPORT size_t FUStringConversion::CountValues(const CH* sz)
 
 #ifdef HAS_VECTORTYPES
 
+// Skip the white spaces at the beginning of a text, so that a text of white spaces only is an empty list.
+template<class CH>
+static inline const CH* SkipWhiteSpaces(const CH* s)
+{
+	while (s != NULL && (*s == ' ' || *s == '\t' || *s == '\r' || *s == '\n')) ++s;
+	return s;
+}
+
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToBooleanList(const CH* value, BooleanList& array)
 {
@@ -324,6 +332,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToInt32List(const CH* value, Int32List& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -343,6 +352,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToUInt32List(const CH* value, UInt32List& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -362,6 +372,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToFloatList(const CH* value, FloatList& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -382,6 +393,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 {
 	size_t stride = arrays.size();
 	size_t validCount = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
 		size_t length = arrays[0]->size();
@@ -431,6 +443,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 {
 	size_t stride = arrays.size();
 	size_t validCount = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
 		size_t length = arrays[0]->size();
@@ -480,6 +493,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToMatrixList(const CH* value, FMMatrix44List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -502,6 +516,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector2List(const CH* value, FMVector2List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -519,6 +534,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector3List(const CH* value, FMVector3List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -536,6 +552,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector4List(const CH* value, FMVector4List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
-- 
2.43.0


From 46172f50a58840b29c465549b74701d6f27059cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 33/52] fix: reading a list of words replaces the previous
 elements of the list

---
 FCollada/FUtils/FUStringConversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 0613f0e..7cac477 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -117,7 +117,7 @@ void FUStringConversion::ToFStringList(const fstring& value, FStringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) { array[index].clear(); array[index++].append(word, s - word); }
 		else { array.push_back(fstring(word, s - word)); ++index; }
 
 		// Skip all white spaces
@@ -140,7 +140,7 @@ void FUStringConversion::ToStringList(const char* s, StringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) { array[index].clear(); array[index++].append(word, s - word); }
 		else { array.push_back(fm::string(word, s - word)); ++index; }
 
 		// Skip all white spaces
-- 
2.43.0


From a817cf33cf6104208511461d06b0902ba63ce6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 34/52] fix: FUStringBuilder::index does not look past the
 content

---
 FCollada/FUtils/FUStringBuilder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index 2a21779..834aac6 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -339,7 +339,7 @@ int32 FUStringBuilderT<Char>::index(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		const Char* end = buffer + size + 1;
+		const Char* end = buffer + size;
 		for (const Char* p = buffer; p != end; ++p)
 		{
 			if (*p == c) return (int32)(p - buffer);
-- 
2.43.0


From 92b4de1d3d4095e820dd02ddf6b9a4946dc1ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 35/52] fix: FUStringBuilder::rindex finds the first character

---
 FCollada/FUtils/FUStringBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index 834aac6..f6933e4 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -353,9 +353,9 @@ int32 FUStringBuilderT<Char>::rindex(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		for (const Char* p = buffer + size - 1; p != buffer; --p)
+		for (const Char* p = buffer + size; p != buffer; --p)
 		{
-			if (*p == c) return (int32)(p - buffer);
+			if (*(p - 1) == c) return (int32)(p - 1 - buffer);
 		}
 	}
 	return -1;
-- 
2.43.0


From 072895f6cbfb20e7d4e6e3912ab427ee164243f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 36/52] fix: FUStringBuilder appends all the digits of 64-bit
 integers

---
 FCollada/FUtils/FUStringBuilder.cpp | 4 ++--
 FCollada/FUtils/FUStringBuilder.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.cpp b/FCollada/FUtils/FUStringBuilder.cpp
index 8904f5e..b677004 100644
--- a/FCollada/FUtils/FUStringBuilder.cpp
+++ b/FCollada/FUtils/FUStringBuilder.cpp
@@ -41,7 +41,7 @@ template<> void FUStringBuilder::append(uint32 i)
 template<> void FUStringBuilder::append(uint64 i)
 {
 	fchar sz[128];
-	fsnprintf(sz, 128, FC("%u"), (unsigned int) i);
+	fsnprintf(sz, 128, FC("%llu"), (unsigned long long) i);
 	append(sz);
 }
 
@@ -68,7 +68,7 @@ template<> void FUSStringBuilder::append(uint32 i)
 template<> void FUSStringBuilder::append(uint64 i)
 {
 	char sz[128];
-	snprintf(sz, 128, "%u", (unsigned int) i);
+	snprintf(sz, 128, "%llu", (unsigned long long) i);
 	append(sz);
 }
 
diff --git a/FCollada/FUtils/FUStringBuilder.h b/FCollada/FUtils/FUStringBuilder.h
index b7be595..bb59bb4 100644
--- a/FCollada/FUtils/FUStringBuilder.h
+++ b/FCollada/FUtils/FUStringBuilder.h
@@ -137,9 +137,9 @@ public:
 #endif
 #else
 #if defined(__APPLE__) || defined(__OpenBSD__)
-	inline void append(unsigned long i) { append((uint32) i); } /**< See above. */
+	inline void append(unsigned long i) { append((uint64) i); } /**< See above. */
 #endif
-	inline void append(long i) { append((int32) i); } /**< See above. */
+	inline void append(long i) { if (i < 0) append((Char) '-'); append(i < 0 ? (uint64) 0 - (uint64) i : (uint64) i); } /**< See above. */
 #endif // platform-switch.
 
 	/** Appends the floating-point value, after converting it to a string,
-- 
2.43.0


From 39a075ef855c516eaafef09181d5ec54cda86d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 37/52] fix: FUStringBuilder::remove ignores a negative end
 also when it is far from the start

---
 FCollada/FUtils/FUStringBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index f6933e4..df45bbd 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -313,9 +313,9 @@ void FUStringBuilderT<Char>::remove(int32 start)
 template <class Char>
 void FUStringBuilderT<Char>::remove(int32 start, int32 end)
 {
-	int32 diff = end - start;
-	if ((int32)size >= end && start >= 0 && diff > 0)
+	if (start >= 0 && end > start && (int32)size >= end)
 	{
+		int32 diff = end - start;
 		const Char* stop = buffer + size - diff;
 		for (Char* p = buffer + start; p != stop; ++p)
 		{
-- 
2.43.0


From f6e541549075c4fe2629e16e26dde75d9ea60064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 38/52] fix: copying a tree clones its nodes

---
 FCollada/FMath/FMTree.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index b55dbeb..50141ad 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -368,6 +368,15 @@ namespace fm
 			fm::Construct(root);
 		}
 
+		/** Copy constructor. Clones another tree.
+			@param copy The tree to clone. */
+		tree(const tree& copy) : root(NULL), sized(0)
+		{
+			root = (node*) fm::Allocate(sizeof(node));
+			fm::Construct(root);
+			(*this) = copy;
+		}
+
 		/** Destructor. */
 		~tree()
 		{
-- 
2.43.0


From 88a0bb49c9f51c69d8b43890f10c0bb51674e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 39/52] fix: assigning a tree to itself keeps its nodes

---
 FCollada/FMath/FMTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index 50141ad..d9c3c8d 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -632,6 +632,7 @@ namespace fm
 			@return This tree, cloned. */
 		inline tree<KEY,DATA>& operator= (const tree<KEY,DATA>& copy)
 		{
+			if (this == &copy) return (*this);
 			clear();
 
 			// Function based on the iterator..
-- 
2.43.0


From 151dcb97514448f88c867c68f1163829324a839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 40/52] fix: generated names are unique also for names with
 long numbers or leading zeroes

---
 FCollada/FUtils/FUUniqueStringMap.cpp | 58 +++++++++++++--------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/FCollada/FUtils/FUUniqueStringMap.cpp b/FCollada/FUtils/FUUniqueStringMap.cpp
index bab61e7..2566f4b 100644
--- a/FCollada/FUtils/FUUniqueStringMap.cpp
+++ b/FCollada/FUtils/FUUniqueStringMap.cpp
@@ -13,18 +13,18 @@
 template <class CH>
 inline void SplitString(const fm::stringT<CH>& str, fm::stringT<CH>& prefix, uint32& suffix)
 {
-	// Remove the suffix from the string.
+	// Find the suffix: the number at the end of the string, without leading zeroes.
 	size_t len = str.length();
-	prefix = str;
-	while (len > 0 && prefix[len-1] >= '0' && prefix[len-1] <= '9')
-	{
-		prefix.erase(len-1, len);
-		--len;
-	}
+	size_t offset = len;
+	while (offset > 0 && str[offset-1] >= '0' && str[offset-1] <= '9') --offset;
+	while (offset + 1 < len && str[offset] == '0') ++offset;
+
+	// Numbers of more than nine digits may not fit in the suffix: they belong to the prefix.
+	if (len - offset > 9) offset = len;
 
 	// Parse the suffix: if no suffix is present, use -1.
-	size_t offset = prefix.length();
-	if (offset == str.length()) suffix = ~(uint32)0;
+	prefix = str.substr(0, offset);
+	if (offset == len) suffix = ~(uint32)0;
 	else suffix = FUStringConversion::ToUInt32(str.c_str() + offset);
 }
 
@@ -34,31 +34,31 @@ void FUUniqueStringMapT<CH>::insert(fm::stringT<CH>& wantedStr)
 	fm::stringT<CH> prefix; uint32 suffix;
 	SplitString(wantedStr, prefix, suffix);
 
-	typename StringMap::iterator itV = values.find(prefix);
-	if (itV == values.end())
+	if (contains(wantedStr))
 	{
-		// Add this prefix to the string list.
-		itV = values.insert(prefix, NumberMap());
-	}
+		// Retrieve the largest known suffix, if there is one.
+		NumberMap& numbers = values.find(prefix)->second;
+		NumberMap::iterator itN = numbers.last();
+		if (itN->first == ~(uint32)0) --itN;
+		uint32 next = (itN == numbers.end()) ? 0 : itN->first;
 
-	NumberMap::iterator itN = itV->second.find(suffix);
-	if (itN != itV->second.end())
-	{
-		// Retrieve the end of the tree.
-		itN = itV->second.last();
-		if (itN->first != ~(uint32)0) suffix = itN->first + 1;
-		else
+		// Recreate the user's string to use a unique suffix.
+		fm::stringT<CH> base = prefix;
+		do
 		{
-			// Get the second last suffix, if it exists.
-			--itN;
-			if (itN == itV->second.end()) suffix = 2;
-			suffix = itN->first + 1;
+			FUStringBuilderT<CH> builder(base);
+			builder.append(++next);
+			wantedStr = builder.ToString();
 		}
+		while (contains(wantedStr));
+		SplitString(wantedStr, prefix, suffix);
+	}
 
-		// Recreate the user's string to use this unique suffix.
-		FUStringBuilderT<CH> builder(prefix);
-		builder.append(suffix);
-		wantedStr = builder.ToString();
+	typename StringMap::iterator itV = values.find(prefix);
+	if (itV == values.end())
+	{
+		// Add this prefix to the string list.
+		itV = values.insert(prefix, NumberMap());
 	}
 
 	// Insert our suffix in the known list.
-- 
2.43.0


From 224f800001439405a3dd6c4161a8f172ad57781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 41/52] fix: fm::string finds non-ASCII characters

---
 FCollada/FUtils/FUString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index ed0bb4a..ded1ac3 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -215,7 +215,7 @@ namespace fm
 				character was not matched within the given (sub)string. */
 		size_t find(const CH& character, size_t offset=0) const
 		{
-			if (character > 0)
+			if (character != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -290,7 +290,7 @@ namespace fm
 		size_t rfind(const CH& character, size_t offset=0) const
 		{
 			size_t ret = npos;
-			if (character > 0)
+			if (character != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
-- 
2.43.0


From b186774ab750d51cefdacc69bb9a131142a8558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 42/52] fix: fm::string::find_first_of also searches strings
 shorter than the list of characters

---
 FCollada/FUtils/FUString.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index ded1ac3..db4a32b 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -366,12 +366,11 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_first_of(const CH* c, size_t offset=0) const
 		{
-			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			if (*c != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
-					d = c;
+					const CH* d = c;
 					while (*d != 0 && *d != *it) { ++d; }
 					if (*d != 0) return it - Parent::begin();
 				}
-- 
2.43.0


From e027f09e1123dbcd44b59bb1a70487a1f78e35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 43/52] fix: fm::string::find_last_of finds the last of the
 characters

---
 FCollada/FUtils/FUString.h | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index db4a32b..d41030e 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -385,21 +385,12 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_last_of(const CH* c, size_t offset=0) const
 		{
-			size_t ret = length() - offset; // UNOPTIMIZE. Didn't feel like this is an important-enough function.
-			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			if (offset > length()) return npos;
+			for (size_t ret = length() - offset; ret > 0; --ret)
 			{
-				const CH* end = Parent::end() - (length + offset);
-				const CH* begin = Parent::begin();
-				for (const CH* it = end; it >= begin; --it)
+				for (const CH* d = c; *d != 0; ++d)
 				{
-					d = c;
-					while (*d != 0)
-					{
-						if (*d == *it) return ret;
-						++d;
-					}
-					--ret;
+					if (*d == *(Parent::begin() + ret - 1)) return ret - 1;
 				}
 			}
 			return npos;
-- 
2.43.0


From 6e2a2849b120686a431ccfd38c6d273086cbbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 44/52] fix: a string made of no characters of a buffer is
 terminated

---
 FCollada/FUtils/FUString.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index d41030e..3b3c20a 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -68,9 +68,11 @@ namespace fm
 				Use stringT::npos for copying full NULL-terminated strings. */
 		stringT(const CH* c, size_t length) : Parent()
 		{
-			if (c == NULL || length == 0) return;
-
-			if (length != npos)
+			if (c == NULL || length == 0)
+			{
+				Parent::push_back((CH) 0);
+			}
+			else if (length != npos)
 			{
 				size_t str_length = std::char_traits<CH>::length(c);
 				if (length > str_length) length = str_length;
-- 
2.43.0


From 6a804d530e689b79506a830af0997b5264a55434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 45/52] fix: removing the last character of an empty string
 does not write before its buffer

---
 FCollada/FUtils/FUString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 3b3c20a..636a33f 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -111,7 +111,7 @@ namespace fm
 
 		/** Removes the last character from a string.
 			This function is NULL-termination aware. */
-		inline void pop_back() { if (Parent::size() > 0) { Parent::pop_back(); Parent::back() = 0; } }
+		inline void pop_back() { if (Parent::size() > 1) { Parent::pop_back(); Parent::back() = 0; } }
 
 		/** Retrieves whether the string contains useful data.
 			This function differs from the parent because it checks for NULL-termination.
-- 
2.43.0


From 07e0275e22af90336436e1c0e0fe8b55b65fe3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 46/52] fix: filling up a string replaces its old terminator

---
 FCollada/FUtils/FUString.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 636a33f..0cb50a4 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -437,7 +437,9 @@ namespace fm
 			@param value The value to assign to the new entries in the list. */
 		void resize(size_t count, const CH& value)
 		{
+			size_t originalSize = length();
 			Parent::resize(count + 1, value);
+			if (originalSize < count) *(Parent::begin() + originalSize) = value;
 			Parent::back() = 0; // NULL-terminate
 		}
 	};
-- 
2.43.0


From ff23291e8c8d2c9bf432eb2881d929c4ef655735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 47/52] fix: a string can be inserted in itself

---
 FCollada/FUtils/FUString.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 0cb50a4..8cf7acd 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -166,6 +166,12 @@ namespace fm
 		{
 			if (str != NULL && (*str != 0))
 			{
+				if (str >= Parent::begin() && str < Parent::end())
+				{
+					// Part of this string: it moves during the insertion.
+					insert(offset, stringT(str, count));
+					return;
+				}
 				size_t originalSize = length();
 				offset = min(offset, originalSize);
 
@@ -187,7 +193,11 @@ namespace fm
 		void insert(size_t offset, const stringT& str)
 		{
 			size_t str_length = str.length();
-			if (str_length > 0)
+			if (&str == this)
+			{
+				insert(offset, stringT(str));
+			}
+			else if (str_length > 0)
 			{
 				size_t originalSize = length();
 				offset = min(offset, originalSize);
-- 
2.43.0


From 674641970363415164e04a60502c52414527dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 48/52] fix: growing an array destroys the old copies of its
 elements

---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..9f7af13 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -337,6 +337,7 @@ namespace fm
 							for(size_t i = 0; i < sized; ++i)
 							{
 								fm::Construct(newValues + i, *(heapBuffer + i));
+								(*(heapBuffer + i)).~T();
 							}
 						}
 					}
-- 
2.43.0


From a010de25f5fb5be616c93d201d9b13765fc35f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 49/52] fix: copies of an element of an array can be inserted
 in the same array

---
 FCollada/FMath/FMArray.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 9f7af13..4045abc 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -279,6 +279,13 @@ namespace fm
 			@param value The value to assign to the new entries in the list. */
 		void resize(size_t count, const T& value)
 		{
+			if (&value >= begin() && &value < end())
+			{
+				// One of our own elements: it moves during the re-allocation.
+				T copy(value);
+				resize(count, copy);
+				return;
+			}
 			reserve(count);
 			T* it = end();
 
@@ -377,6 +384,12 @@ namespace fm
 		iterator insert(iterator it, const T& item)
 		{
 			FUAssert(it >= begin() && it <= end(), return it);
+			if (&item >= begin() && &item < end())
+			{
+				// One of our own elements: it moves during the insertion.
+				T copy(item);
+				return insert(it, copy);
+			}
 			if (sized == reserved)
 			{
 				size_t offset = it - begin();
@@ -460,6 +473,13 @@ namespace fm
 			if (count > 0)
 			{
 				FUAssert(it >= begin() && it <= end(), return);
+				if (!noInit && &item >= begin() && &item < end())
+				{
+					// One of our own elements: it moves during the insertion.
+					T copy(item);
+					insert(it, count, copy);
+					return;
+				}
 				if (sized + count > reserved)
 				{
 					size_t offset = it - begin();
-- 
2.43.0


From 48eb2a1e071ae929f0e73e21946c69d22ae41813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 50/52] fix: a character can be appended to a cleared string

---
 FCollada/FUtils/FUString.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 8cf7acd..b2cb12b 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -152,6 +152,7 @@ namespace fm
 		{
 			if (c != 0)
 			{
+				if (Parent::size() == 0) Parent::push_back((CH) 0); // cleared: there is no NULL-terminator.
 				Parent::back() = c;
 				Parent::push_back(static_cast<CH>(0));
 			}
-- 
2.43.0


From f1b2eea06dd4daba3b64f3585a87565a33523466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 51/52] fix: searching from beyond the end of a string stays
 within its buffer

---
 FCollada/FUtils/FUString.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index b2cb12b..c2e0b8d 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -228,7 +228,7 @@ namespace fm
 				character was not matched within the given (sub)string. */
 		size_t find(const CH& character, size_t offset=0) const
 		{
-			if (character != 0)
+			if (character != 0 && offset < length())
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -246,7 +246,7 @@ namespace fm
 				string was not matched within the given (sub)string. */
 		size_t find(const stringT& str, size_t offset=0) const
 		{
-			if (str.length() > 0 && length() >= str.length())
+			if (str.length() > 0 && length() >= str.length() && offset < length())
 			{
 				CH firstMatch = str.front();
 				const CH* end_fence = Parent::end() - str.size() + 1;
@@ -276,7 +276,7 @@ namespace fm
 		size_t find(const CH* c, size_t offset=0) const
 		{
 			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			if (length > 0 && Parent::size() >= length && offset < Parent::size())
 			{
 				const CH* end_fence = Parent::end() - length + 1;
 				for (const CH* it = Parent::begin() + offset; it < end_fence; ++it)
@@ -303,7 +303,7 @@ namespace fm
 		size_t rfind(const CH& character, size_t offset=0) const
 		{
 			size_t ret = npos;
-			if (character != 0)
+			if (character != 0 && offset < length())
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -322,7 +322,7 @@ namespace fm
 		size_t rfind(const stringT& str, size_t offset=0) const
 		{
 			size_t ret = npos;
-			if (str.length() > 0 && length() >= str.length())
+			if (str.length() > 0 && length() >= str.length() && offset < length())
 			{
 				CH firstMatch = str.front();
 				const CH* end_fence = Parent::end() - str.size() + 1;
@@ -353,7 +353,7 @@ namespace fm
 		{
 			size_t ret = npos;
 			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			if (length > 0 && Parent::size() >= length && offset < Parent::size())
 			{
 				const CH* end_fence = Parent::end() - length + 1;
 				for (const CH* it = Parent::begin() + offset; it < end_fence; ++it)
@@ -379,7 +379,7 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_first_of(const CH* c, size_t offset=0) const
 		{
-			if (*c != 0)
+			if (*c != 0 && offset < length())
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
-- 
2.43.0


From 13a3ea46a8766d3d7dcdbc443b496061bfec0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 52/52] fix: cloning an object into one with a registered id
 gives up that id

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index e23c7db..eb6a245 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -33,6 +33,7 @@ FCDObjectWithId::~FCDObjectWithId()
 
 void FCDObjectWithId::Clone(FCDObjectWithId* clone) const
 {
+	clone->RemoveDaeId(); // the id it may have registered is not its id anymore.
 	clone->daeId = daeId;
 	const_cast<FCDObjectWithId*>(this)->RemoveDaeId();
 }
-- 
2.43.0

