// Entry points into the C++ arrays for the abstract interpretation of their LLVM IR (lib/runtimes.py); never executed.
#include "zserio/Array.h"
#include "zserio/ArrayTraits.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/DeltaContext.h"
#include "zserio/String.h"
#include "zserio/Vector.h"
using namespace zserio;

struct Owner
{
    uint8_t bitSize;
    size_t* log;
    size_t* count;
};

struct Width
{
    using OwnerType = Owner;
    static uint8_t get(const Owner& owner) { return owner.bitSize; }
};

static void note(const Owner& owner, size_t index, size_t offset)
{
    owner.log[2 * *owner.count] = index;
    owner.log[2 * *owner.count + 1] = offset;
    ++*owner.count;
}

struct Expr
{
    using OwnerType = Owner;
    static void initializeOffset(Owner& owner, size_t index, size_t offset) { note(owner, index, offset); }
    static void checkOffset(const Owner& owner, size_t index, size_t offset) { note(owner, index, offset); }
};

enum Op { SIZE, OFFSETS, WRITE, READ };

template <typename ARRAY>
static size_t plain(int op, ARRAY& array, uint8_t* buf, size_t bits, size_t pre, size_t n, Owner& owner)
{
    if (op == SIZE)
    {
        return array.bitSizeOf(owner, pre);
    }
    if (op == OFFSETS)
    {
        return array.initializeOffsets(owner, pre);
    }
    if (op == WRITE)
    {
        BitStreamWriter out(buf, bits, BitsTag());
        out.setBitPosition(pre);
        array.write(owner, out);
        return out.getBitPosition();
    }
    BitStreamReader in(buf, bits, BitsTag());
    in.setBitPosition(pre);
    array.read(owner, in, n);
    return in.getBitPosition();
}

template <typename ARRAY>
static size_t packed(int op, ARRAY& array, uint8_t* buf, size_t bits, size_t pre, size_t n, Owner& owner)
{
    if (op == SIZE)
    {
        return array.bitSizeOfPacked(owner, pre);
    }
    if (op == OFFSETS)
    {
        return array.initializeOffsetsPacked(owner, pre);
    }
    if (op == WRITE)
    {
        BitStreamWriter out(buf, bits, BitsTag());
        out.setBitPosition(pre);
        array.writePacked(owner, out);
        return out.getBitPosition();
    }
    BitStreamReader in(buf, bits, BitsTag());
    in.setBitPosition(pre);
    array.readPacked(owner, in, n);
    return in.getBitPosition();
}

#define ARGS int op, uint8_t* buf, size_t bits, size_t pre, size_t n, size_t* result, uint8_t bitSize, size_t* log, size_t* count
#define CALL(NAME, FUNC, T, TRAITS, TYPE) \
    extern "C" size_t NAME(ARGS, T* values) \
    { \
        Owner owner = {bitSize, log, count}; \
        vector<T> raw; \
        if (op != READ) \
        { \
            for (size_t i = 0; i < n; ++i) raw.push_back(values[i]); \
        } \
        Array<vector<T>, TRAITS, TYPE, Expr> array(raw); \
        const size_t end = FUNC(op, array, buf, bits, pre, n, owner); \
        if (op == READ) \
        { \
            *result = array.getRawArray().size(); \
            for (size_t i = 0; i < *result; ++i) values[i] = array.getRawArray()[i]; \
        } \
        return end; \
    }
#define UNPACKED(K, T, TRAITS) CALL(K##_auto, plain, T, TRAITS, AUTO) CALL(K##_normal, plain, T, TRAITS, NORMAL) \
    CALL(K##_aligned, plain, T, TRAITS, ALIGNED) CALL(K##_aligned_auto, plain, T, TRAITS, ALIGNED_AUTO)
#define IMPL(K, T, TRAITS) CALL(K##_implicit, plain, T, TRAITS, IMPLICIT)
#define PACKED(K, T, TRAITS) CALL(K##_auto_packed, packed, T, TRAITS, AUTO) CALL(K##_normal_packed, packed, T, TRAITS, NORMAL) \
    CALL(K##_aligned_packed, packed, T, TRAITS, ALIGNED) CALL(K##_aligned_auto_packed, packed, T, TRAITS, ALIGNED_AUTO)
#define BOTH(K, T, TRAITS) UNPACKED(K, T, TRAITS) PACKED(K, T, TRAITS)
#define FIX(K, T, TRAITS) BOTH(K, T, TRAITS) IMPL(K, T, TRAITS)

using BitFieldArrayTraits_uint8_t_5 = BitFieldArrayTraits<uint8_t, 5>;
using BitFieldArrayTraits_int8_t_5 = BitFieldArrayTraits<int8_t, 5>;
using BitFieldArrayTraits_uint16_t_13 = BitFieldArrayTraits<uint16_t, 13>;
using BitFieldArrayTraits_int16_t_13 = BitFieldArrayTraits<int16_t, 13>;
using BitFieldArrayTraits_uint32_t_27 = BitFieldArrayTraits<uint32_t, 27>;
using BitFieldArrayTraits_int32_t_27 = BitFieldArrayTraits<int32_t, 27>;
using BitFieldArrayTraits_uint64_t_41 = BitFieldArrayTraits<uint64_t, 41>;
using BitFieldArrayTraits_int64_t_41 = BitFieldArrayTraits<int64_t, 41>;
using DynamicBitFieldArrayTraits_uint8_t_Width = DynamicBitFieldArrayTraits<uint8_t, Width>;
using DynamicBitFieldArrayTraits_int64_t_Width = DynamicBitFieldArrayTraits<int64_t, Width>;
FIX(u5, uint8_t, BitFieldArrayTraits_uint8_t_5) FIX(i5, int8_t, BitFieldArrayTraits_int8_t_5)
FIX(u13, uint16_t, BitFieldArrayTraits_uint16_t_13) FIX(i13, int16_t, BitFieldArrayTraits_int16_t_13)
FIX(u27, uint32_t, BitFieldArrayTraits_uint32_t_27) FIX(i27, int32_t, BitFieldArrayTraits_int32_t_27)
FIX(u41, uint64_t, BitFieldArrayTraits_uint64_t_41) FIX(i41, int64_t, BitFieldArrayTraits_int64_t_41)
FIX(u8, uint8_t, StdIntArrayTraits<uint8_t>) FIX(i8, int8_t, StdIntArrayTraits<int8_t>)
FIX(u16, uint16_t, StdIntArrayTraits<uint16_t>) FIX(i16, int16_t, StdIntArrayTraits<int16_t>)
FIX(u32, uint32_t, StdIntArrayTraits<uint32_t>) FIX(i32, int32_t, StdIntArrayTraits<int32_t>)
FIX(u64, uint64_t, StdIntArrayTraits<uint64_t>) FIX(i64, int64_t, StdIntArrayTraits<int64_t>)
BOTH(du5, uint8_t, DynamicBitFieldArrayTraits_uint8_t_Width) BOTH(di41, int64_t, DynamicBitFieldArrayTraits_int64_t_Width)
BOTH(varint16, int16_t, VarIntNNArrayTraits<int16_t>) BOTH(varint32, int32_t, VarIntNNArrayTraits<int32_t>)
BOTH(varint64, int64_t, VarIntNNArrayTraits<int64_t>) BOTH(varint, int64_t, VarIntArrayTraits<int64_t>)
BOTH(varuint16, uint16_t, VarIntNNArrayTraits<uint16_t>) BOTH(varuint32, uint32_t, VarIntNNArrayTraits<uint32_t>)
BOTH(varuint64, uint64_t, VarIntNNArrayTraits<uint64_t>) BOTH(varuint, uint64_t, VarIntArrayTraits<uint64_t>)
BOTH(varsize, uint32_t, VarSizeArrayTraits)
UNPACKED(float32, float, Float32ArrayTraits) IMPL(float32, float, Float32ArrayTraits)
UNPACKED(float64, double, Float64ArrayTraits) IMPL(float64, double, Float64ArrayTraits)
UNPACKED(float16, float, Float16ArrayTraits) IMPL(float16, float, Float16ArrayTraits)
UNPACKED(bool, bool, BoolArrayTraits) IMPL(bool, bool, BoolArrayTraits)

// elements of variable size are given and returned as their bytes and sizes
template <typename T>
struct Blob;
template <>
struct Blob<vector<uint8_t>>
{
    static vector<uint8_t> make(const uint8_t* data, size_t n) { vector<uint8_t> v; for (size_t i = 0; i < n; ++i) v.push_back(data[i]); return v; }
    static size_t take(const vector<uint8_t>& v, uint8_t* data) { for (size_t i = 0; i < v.size(); ++i) data[i] = v[i]; return v.size(); }
};
template <>
struct Blob<string<>>
{
    static string<> make(const uint8_t* data, size_t n) { return string<>(reinterpret_cast<const char*>(data), n); }
    static size_t take(const string<>& v, uint8_t* data) { for (size_t i = 0; i < v.size(); ++i) data[i] = static_cast<uint8_t>(v[i]); return v.size(); }
};
template <>
struct Blob<BitBuffer>
{
    static BitBuffer make(const uint8_t* data, size_t n) { return BitBuffer(Span<const uint8_t>(data, (n + 7) / 8), n); }
    static size_t take(const BitBuffer& v, uint8_t* data) { for (size_t i = 0; i < v.getByteSize(); ++i) data[i] = v.getBuffer()[i]; return v.getBitSize(); }
};
#define BLOB(NAME, T, TRAITS, TYPE) \
    extern "C" size_t NAME(ARGS, uint8_t* data, size_t* sizes) \
    { \
        Owner owner = {bitSize, log, count}; \
        vector<T> raw; \
        if (op != READ) \
        { \
            for (size_t i = 0; i < n; ++i) raw.push_back(Blob<T>::make(data + 8 * i, sizes[i])); \
        } \
        Array<vector<T>, TRAITS, TYPE, Expr> array(raw); \
        const size_t end = plain(op, array, buf, bits, pre, n, owner); \
        if (op == READ) \
        { \
            *result = array.getRawArray().size(); \
            for (size_t i = 0; i < *result; ++i) sizes[i] = Blob<T>::take(array.getRawArray()[i], data + 8 * i); \
        } \
        return end; \
    }
#define BLOBS(K, T, TRAITS) BLOB(K##_auto, T, TRAITS, AUTO) BLOB(K##_normal, T, TRAITS, NORMAL) \
    BLOB(K##_aligned, T, TRAITS, ALIGNED) BLOB(K##_aligned_auto, T, TRAITS, ALIGNED_AUTO)
BLOBS(bytes, vector<uint8_t>, BasicBytesArrayTraits<>)
BLOBS(string, string<>, BasicStringArrayTraits<>)
BLOBS(bitbuffer, BitBuffer, BasicBitBufferArrayTraits<>)
