CHECK=True
U='FCollada/FUtils/'; M='FCollada/FMath/'
BUGS=[
dict(id='C01-signed-shift',property='C01',edits=[(U+'FUCrc32.cpp','''	crc32 CRC32(const char* sz)
	{
		uint32 crc = 0xffffffff;
''','''	crc32 CRC32(const char* sz)
	{
		uint32 crc = 0xffffffff;
		while (sz[0] > 0 && sz[1] > 0) // plain characters, two at a time
		{
			crc = (crc >> 8) ^ kCRCTable[(crc & 0xFF) ^ (uint8)(*sz++)];
			crc = (crc >> 8) ^ kCRCTable[(crc & 0xFF) ^ (uint8)(*sz++)];
		}
		if (sz[0] != 0 && (uint8) sz[0] < 0x20) ++sz; // leave out a trailing line feed
''')],needs='a text with an odd number of plain characters of which the last is a control character',
breaks='a control character at an odd end is left out of the checksum',
demo='''#include "FUtils/FUCrc32.h"
static uint32 ref(const char* s) { uint32 c = 0xffffffff; for (; *s; ++s) { c ^= (uint8) *s; for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
int main() { const char* t[] = { "", "a", "ab", "abc\\n", "ab\\n", "\\n", "x\\xff\\x80y", "abcdefgh\\t" }; for (auto s : t) EXPECT(FUCrc32::CRC32(s) == ref(s)); return 0; }
'''),
dict(id='C09-transform-alias',property='C09',edits=[(M+'FMMatrix44.cpp','''		m[0][1] * coordinate.x + m[1][1] * coordinate.y + m[2][1] * coordinate.z + m[3][1],
''','''		m[0][1] * coordinate.x + m[1][1] * coordinate.y + m[2][1] * coordinate.z + ((m[3][1] * m[3][3]) * m[3][3]),
''')],needs='a matrix whose last element is not one, transforming a point',breaks='the transformed y coordinate is off for matrices with m[3][3] != 1',
demo='''#include "FMath/FMMatrix44.h"
int main() { FMMatrix44 m = FMMatrix44::Identity; m.m[3][0] = 3; m.m[3][1] = 5; m.m[3][2] = 7; m.m[3][3] = 2;
 FMVector3 r = m.TransformCoordinate(FMVector3(1, 1, 1)); EXPECT(r.x == 4 && r.y == 6 && r.z == 8); return 0; }
'''),
dict(id='C10-unnormalised-axis',property='C10',edits=[(M+'FMMatrix44.cpp','''(IsEquivalent(axis.LengthSquared(), 1.0f))''','''(axis.LengthSquared() >= 1.0f - FLT_TOLERANCE)''')],
needs='an axis longer than one',breaks='a rotation about an axis longer than one is not orthonormal',
demo='''#include "FMath/FMMatrix44.h"
int main() { FMMatrix44 a = FMMatrix44::AxisRotationMatrix(FMVector3(0, 2, 0), 0.7f), b = FMMatrix44::AxisRotationMatrix(FMVector3(0, 1, 0), 0.7f), c = FMMatrix44::AxisRotationMatrix(FMVector3(0, 0.5f, 0), 0.7f);
 for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { EXPECT(fabs(a.m[i][j] - b.m[i][j]) < 1e-4); EXPECT(fabs(c.m[i][j] - b.m[i][j]) < 1e-4); } return 0; }
'''),
dict(id='C10-slerp-shortcut',property='C10',edits=[(M+'FMQuaternion.cpp','''	if (IsEquivalent(dot, 1.0f)) return *this;
''','''	if (IsEquivalent(dot * dot, 1.0f) || dot > 0.98f) return *this;
''')],needs='spherical interpolation between orientations less than about 23 degrees apart',breaks='interpolation between close orientations stays at the first one instead of reaching the second',
demo='''#include "FMath/FMQuaternion.h"
int main() { FMQuaternion a(FMVector3::XAxis, 0.2f), b(FMVector3::XAxis, 0.5f), c = a.slerp(b, 1.0f); EXPECT(fabs(c.x - b.x) < 1e-4 && fabs(c.w - b.w) < 1e-4); return 0; }
'''),
dict(id='C16-blend-mode',property='C16',edits=[(U+'FUDaeEnum.cpp','''		case DESATURATE: return DAEMAYA_DESATURATE_BLENDMODE;
		case ILLUMINATE''','''		case DESATURATE: return DAEMAYA_SATURATE_BLENDMODE;
		case ILLUMINATE''')],needs='writing the blend mode DESATURATE',breaks='the keyword of one blend mode reads back as another',
demo='''#include "FUtils/FUDaeEnum.h"
int main() { EXPECT(FUDaeBlendMode::FromString(FUDaeBlendMode::ToString(FUDaeBlendMode::DESATURATE)) == FUDaeBlendMode::DESATURATE); EXPECT(FUDaeBlendMode::FromString(FUDaeBlendMode::ToString(FUDaeBlendMode::SATURATE)) == FUDaeBlendMode::SATURATE); return 0; }
'''),
dict(id='C27-revision',property='C27',edits=[('FCollada/FCDocument/FCDVersion.cpp','''	if (minor < b.minor) return true;
	if (minor > b.minor) return false;
	return revision < b.revision;''','''	if (minor != b.minor) return minor < b.minor;
	return (int32) (revision - b.revision) < 0;''')],needs='revisions more than 2^31 apart',breaks='ordering of versions with huge revision numbers',
demo='''#include "FCDocument/FCDVersion.h"
int main() { FCDVersion a(1, 4, 0), b(1, 4, 0xF0000000u); EXPECT(a < b); EXPECT(!(b < a)); return 0; }
'''),
dict(id='C28-hue-wrap',property='C28',edits=[(M+'FMVector3.cpp','''		if (hsv.x < 0.0f) hsv.x += 1.0f;''','''		if (hsv.x < -0.01f) hsv.x += 1.0f;''')],needs='a colour that is nearly red with slightly more blue than green',breaks='the hue of such colours is negative and does not convert back',
demo='''#include "FMath/FMVector4.h"
int main() { FMVector4 c(1.0f, 0.0f, 0.02f, 1.0f); FMVector3 h = c.ToHSVColor(); EXPECT(h.x >= 0 && h.x <= 1); return 0; }
'''),
]
