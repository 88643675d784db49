// @property C01
// @sources FCollada/FUtils/FUCrc32.cpp
#include "StdAfx.h"
#include "FUtils/FUCrc32.h"
#include "fcv.h"

// one byte of the bitwise reflected CRC-32 (ISO 3309 / ITU-T V.42)
static u32 spec_crc_byte(u32 crc, u8 b)
{
	crc ^= b;
	for (int i = 0; i < 8; ++i) crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320u : crc >> 1;
	return crc;
}
static u32 spec_step(u32 acc, const void* ctx, u64 k) { return spec_crc_byte(acc, ((const u8*) ctx)[k]); }

// for every text of every length: CRC32(text) == ~fold(crc_byte, 0xFFFFFFFF, bytes before the terminator)
FCV_UNIT(crc32_is_standard, "")
{
	u64 n = fcv_len("n", 40);
	char* s = fcv_text("s", n);
	u32 expect = ~fcv_fold_u32(&spec_step, 0xFFFFFFFFu, s, n);
	u32 got = FUCrc32::CRC32(s);
	fcv_check(got == expect, "checksum equals the reflected CRC-32 of the bytes before the terminator");
}
