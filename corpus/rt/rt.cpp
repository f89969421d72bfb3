// Entry points into the C++ runtime for the abstract interpretation of its LLVM IR (lib/rtcpp.py); never executed.
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/BitSizeOfCalculator.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/FloatUtil.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/BitBuffer.h"
using namespace zserio;
typedef BasicBitBuffer<> BB;
#define PRE BitStreamWriter w(buf, bits, BitsTag()); for (size_t i = 0; i < pre; i += 8) w.writeBits(prebits[i / 8], static_cast<uint8_t>(pre - i < 8 ? pre - i : 8));
#define WN(N, M, T) extern "C" void w_##N(uint8_t* buf, size_t bits, const uint8_t* prebits, size_t pre, T v, uint8_t n, size_t* pos) { PRE w.M(v, n); *pos = w.getBitPosition(); }
#define W(N, M, T) extern "C" void w_##N(uint8_t* buf, size_t bits, const uint8_t* prebits, size_t pre, T v, size_t* pos) { PRE w.M(v); *pos = w.getBitPosition(); }
#define RPRE BitStreamReader r(buf, bits, BitsTag()); for (size_t i = 0; i < pre; i += 8) r.readBits(static_cast<uint8_t>(pre - i < 8 ? pre - i : 8));
#define RN(N, M, T) extern "C" T r_##N(const uint8_t* buf, size_t bits, size_t pre, uint8_t n, size_t* pos) { RPRE T v = r.M(n); *pos = r.getBitPosition(); return v; }
#define R(N, M, T) extern "C" T r_##N(const uint8_t* buf, size_t bits, size_t pre, size_t* pos) { RPRE T v = r.M(); *pos = r.getBitPosition(); return v; }
#define S(N, M, T) extern "C" size_t s_##N(T v) { return M(v); }
#define VAR(N, M, T) W(N, write##M, T) R(N, read##M, T) S(N, bitSizeOf##M, T)
WN(bits, writeBits, uint32_t) WN(bits64, writeBits64, uint64_t) WN(signed, writeSignedBits, int32_t) WN(signed64, writeSignedBits64, int64_t)
RN(bits, readBits, uint32_t) RN(bits64, readBits64, uint64_t) RN(signed, readSignedBits, int32_t) RN(signed64, readSignedBits64, int64_t)
VAR(varint16, VarInt16, int16_t) VAR(varint32, VarInt32, int32_t) VAR(varint64, VarInt64, int64_t) VAR(varint, VarInt, int64_t)
VAR(varuint16, VarUInt16, uint16_t) VAR(varuint32, VarUInt32, uint32_t) VAR(varuint64, VarUInt64, uint64_t) VAR(varuint, VarUInt, uint64_t)
VAR(varsize, VarSize, uint32_t)
W(float16, writeFloat16, float) W(float32, writeFloat32, float) W(float64, writeFloat64, double) W(bool, writeBool, bool) W(align, alignTo, size_t)
R(float16, readFloat16, float) R(float32, readFloat32, float) R(float64, readFloat64, double) R(bool, readBool, bool)
extern "C" void r_align(const uint8_t* buf, size_t bits, size_t pre, size_t v, size_t* pos) { RPRE r.alignTo(v); *pos = r.getBitPosition(); }
extern "C" void w_bytes(uint8_t* buf, size_t bits, const uint8_t* prebits, size_t pre, const uint8_t* v, size_t n, size_t* pos) { PRE w.writeBytes(Span<const uint8_t>(v, n)); *pos = w.getBitPosition(); }
extern "C" void w_string(uint8_t* buf, size_t bits, const uint8_t* prebits, size_t pre, const uint8_t* v, size_t n, size_t* pos) { PRE w.writeString(StringView(reinterpret_cast<const char*>(v), n)); *pos = w.getBitPosition(); }
extern "C" void w_bitbuffer(uint8_t* buf, size_t bits, const uint8_t* prebits, size_t pre, const uint8_t* v, size_t n, size_t* pos) { PRE BB b(Span<const uint8_t>(v, (n + 7) / 8), n); w.writeBitBuffer(b); *pos = w.getBitPosition(); }
extern "C" void r_bytes(const uint8_t* buf, size_t bits, size_t pre, uint8_t* out, size_t* n, size_t* pos) { RPRE vector<uint8_t> v = r.readBytes<>(); *n = v.size(); for (size_t i = 0; i < v.size(); ++i) out[i] = v[i]; *pos = r.getBitPosition(); }
extern "C" void r_string(const uint8_t* buf, size_t bits, size_t pre, uint8_t* out, size_t* n, size_t* pos) { RPRE string<> v = r.readString<>(); *n = v.size(); for (size_t i = 0; i < v.size(); ++i) out[i] = static_cast<uint8_t>(v[i]); *pos = r.getBitPosition(); }
extern "C" void r_bitbuffer(const uint8_t* buf, size_t bits, size_t pre, uint8_t* out, size_t* n, size_t* pos) { RPRE BB v = r.readBitBuffer<std::allocator<uint8_t>>(); *n = v.getBitSize(); for (size_t i = 0; i < v.getByteSize(); ++i) out[i] = v.getBuffer()[i]; *pos = r.getBitPosition(); }
extern "C" size_t s_bytes(const uint8_t* v, size_t n) { return bitSizeOfBytes(Span<const uint8_t>(v, n)); }
extern "C" size_t s_string(const uint8_t* v, size_t n) { return bitSizeOfString(StringView(reinterpret_cast<const char*>(v), n)); }
extern "C" size_t s_bitbuffer(const uint8_t* v, size_t n) { BB b(Span<const uint8_t>(v, (n + 7) / 8), n); return bitSizeOfBitBuffer(b); }
extern "C" float f16_to(uint16_t v) { return convertUInt16ToFloat(v); }
extern "C" uint16_t f16_from(float v) { return convertFloatToUInt16(v); }
extern "C" float f32_to(uint32_t v) { return convertUInt32ToFloat(v); }
extern "C" uint32_t f32_from(float v) { return convertFloatToUInt32(v); }
extern "C" double f64_to(uint64_t v) { return convertUInt64ToDouble(v); }
extern "C" uint64_t f64_from(double v) { return convertDoubleToUInt64(v); }
extern "C" int64_t lower(size_t n, bool s) { return getBitFieldLowerBound(n, s); }
extern "C" uint64_t upper(size_t n, bool s) { return getBitFieldUpperBound(n, s); }
extern "C" uint8_t numbits(uint64_t n) { return builtin::numBits(n); }
extern "C" size_t align_to(size_t a, size_t p) { return alignTo(a, p); }
extern "C" uint32_t size32(size_t n) { return convertSizeToUInt32(n); }
#define H(N, T) extern "C" uint32_t h_##N(uint32_t seed, T v) { return calcHashCode(seed, v); }
H(bool, bool) H(int8, int8_t) H(int16, int16_t) H(int32, int32_t) H(int64, int64_t) H(uint8, uint8_t) H(uint16, uint16_t) H(uint32, uint32_t) H(uint64, uint64_t)
H(float, float) H(double, double)
extern "C" uint32_t h_string(uint32_t seed, const char* v, size_t n) { return calcHashCode(seed, stringViewToString(StringView(v, n), std::allocator<char>())); }
extern "C" uint32_t h_bytes(uint32_t seed, const uint8_t* v, size_t n) { vector<uint8_t> x; for (size_t i = 0; i < n; ++i) x.push_back(v[i]); return calcHashCode(seed, x); }
extern "C" uint32_t h_bitbuffer(uint32_t seed, const uint8_t* v, size_t n) { return calcHashCode(seed, BB(Span<const uint8_t>(v, (n + 7) / 8), n)); }
extern "C" bool e_bitbuffer(const uint8_t* a, size_t n, const uint8_t* b, size_t m) { return BB(Span<const uint8_t>(a, (n + 7) / 8), n) == BB(Span<const uint8_t>(b, (m + 7) / 8), m); }
#define HA(N, T) extern "C" uint32_t ha_##N(uint32_t seed, T a, T b) { vector<T> x; x.push_back(a); x.push_back(b); return calcHashCode(seed, x); }
HA(int8, int8_t) HA(int16, int16_t) HA(int32, int32_t) HA(int64, int64_t) HA(uint8, uint8_t) HA(uint16, uint16_t) HA(uint32, uint32_t) HA(uint64, uint64_t)
HA(float, float) HA(double, double) HA(bool, bool)
#define ISSET(N) extern "C" bool isset##N(uint##N##_t a, uint##N##_t b) { return builtin::isSet(a, b); }
ISSET(8) ISSET(16) ISSET(32) ISSET(64)
extern "C" bool l_bitbuffer(const uint8_t* a, size_t n, const uint8_t* b, size_t m) { return BB(Span<const uint8_t>(a, (n + 7) / 8), n) < BB(Span<const uint8_t>(b, (m + 7) / 8), m); }
