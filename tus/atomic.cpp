#include "mg/box/Atomic.h"
#include <new>
#include "atomic_ops.inc"
using namespace mg::box;
typedef void* VP;
#define DL(A, T, n) T drv_##A##_##n(A* a) { return a->n(); }
#define DS(A, T, n) void drv_##A##_##n(A* a, T v) { a->n(v); }
#define DX(A, T, n) T drv_##A##_##n(A* a, T v) { return a->n(v); }
#define DV(A, T, n) void drv_##A##_##n(A* a) { a->n(); }
#define DC(A, T, n) bool drv_##A##_##n(A* a, decltype(a->LoadRelaxed())* e, T v) { return a->n(*e, v); }
#define WIDE(A) long long drv_##A##_wide(A* a) { return a->LoadRelaxed(); } void drv_##A##_new(A* a, decltype(a->LoadRelaxed()) v) { new (a) A(v); }
extern "C" {
#define L(n) DL(AtomicU8, uint8_t, n)
#define S(n) DS(AtomicU8, uint8_t, n)
#define X(n) DX(AtomicU8, uint8_t, n)
#define V(n) DV(AtomicU8, uint8_t, n)
#define C(n) DC(AtomicU8, uint8_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicU8)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicU16, uint16_t, n)
#define S(n) DS(AtomicU16, uint16_t, n)
#define X(n) DX(AtomicU16, uint16_t, n)
#define V(n) DV(AtomicU16, uint16_t, n)
#define C(n) DC(AtomicU16, uint16_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicU16)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicU32, uint32_t, n)
#define S(n) DS(AtomicU32, uint32_t, n)
#define X(n) DX(AtomicU32, uint32_t, n)
#define V(n) DV(AtomicU32, uint32_t, n)
#define C(n) DC(AtomicU32, uint32_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicU32)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicU64, uint64_t, n)
#define S(n) DS(AtomicU64, uint64_t, n)
#define X(n) DX(AtomicU64, uint64_t, n)
#define V(n) DV(AtomicU64, uint64_t, n)
#define C(n) DC(AtomicU64, uint64_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicU64)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicI8, int8_t, n)
#define S(n) DS(AtomicI8, int8_t, n)
#define X(n) DX(AtomicI8, int8_t, n)
#define V(n) DV(AtomicI8, int8_t, n)
#define C(n) DC(AtomicI8, int8_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicI8)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicI16, int16_t, n)
#define S(n) DS(AtomicI16, int16_t, n)
#define X(n) DX(AtomicI16, int16_t, n)
#define V(n) DV(AtomicI16, int16_t, n)
#define C(n) DC(AtomicI16, int16_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicI16)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicI32, int32_t, n)
#define S(n) DS(AtomicI32, int32_t, n)
#define X(n) DX(AtomicI32, int32_t, n)
#define V(n) DV(AtomicI32, int32_t, n)
#define C(n) DC(AtomicI32, int32_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicI32)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicI64, int64_t, n)
#define S(n) DS(AtomicI64, int64_t, n)
#define X(n) DX(AtomicI64, int64_t, n)
#define V(n) DV(AtomicI64, int64_t, n)
#define C(n) DC(AtomicI64, int64_t, n)
OPS_ALL(L, S, X, V, C) OPS_INT(L, S, X, V, C) WIDE(AtomicI64)
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicBool, bool, n)
#define S(n) DS(AtomicBool, bool, n)
#define X(n) DX(AtomicBool, bool, n)
#define V(n) DV(AtomicBool, bool, n)
#define C(n) DC(AtomicBool, bool, n)
OPS_ALL(L, S, X, V, C) void drv_AtomicBool_new(AtomicBool* a, bool v) { new (a) AtomicBool(v); }
#undef L
#undef S
#undef X
#undef V
#undef C
#define L(n) DL(AtomicVoidPtr, VP, n)
#define S(n) DS(AtomicVoidPtr, VP, n)
#define X(n) DX(AtomicVoidPtr, VP, n)
#define V(n) DV(AtomicVoidPtr, VP, n)
#define C(n) DC(AtomicVoidPtr, VP, n)
OPS_ALL(L, S, X, V, C) void drv_AtomicVoidPtr_new(AtomicVoidPtr* a, VP v) { new (a) AtomicVoidPtr(v); }
#undef L
#undef S
#undef X
#undef V
#undef C
}
