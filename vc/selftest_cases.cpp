// Obligations with a known answer: every ct_good_* has to be discharged, every ct_bad_* has to be rejected.
#include "vc.hpp"
#include <cstring>
using i32 = std::int32_t;
using u32 = std::uint32_t;
using u16 = std::uint16_t;
using u8 = std::uint8_t;
using i8 = std::int8_t;
#define NOINLINE __attribute__((noinline))

// wrap-around
CONTRACT(good_add, sz x, sz y) { REQ(Z(x) + Z(y) < TWO64); ENS(Z(x + y) == Z(x) + Z(y)); }
CONTRACT(bad_add, sz x, sz y) { ENS(Z(x + y) == Z(x) + Z(y)); }
CONTRACT(good_sub, sz x, sz y) { REQ(Z(y) <= Z(x)); ENS(Z(x - y) == Z(x) - Z(y)); }
CONTRACT(bad_sub, sz x, sz y) { ENS(Z(x - y) + Z(y) == Z(x)); }
CONTRACT(good_sub_wrap, sz x, sz y) { REQ(Z(x) < Z(y)); ENS(Z(x - y) == TWO64 + Z(x) - Z(y)); }
CONTRACT(good_mul, sz x, sz y) { REQ(Z(x) * Z(y) < TWO64); ENS(Z(x * y) == Z(x) * Z(y)); }
CONTRACT(bad_mul, sz x, sz y) { REQ(Z(x) < Z(sz(1) << 33) && Z(y) < Z(sz(1) << 33)); ENS(Z(x * y) == Z(x) * Z(y)); }
CONTRACT(good_cancel, sz x, sz y) { ENS(Z((x + y) - y) == Z(x)); }
CONTRACT(bad_half, sz x) { ENS(Z((x + x) / 2) == Z(x)); }
CONTRACT(good_half, sz x) { REQ(Z(x) < Z(sz(1) << 63)); ENS(Z((x + x) / 2) == Z(x)); }
// narrow types
CONTRACT(good_u32, sz x) { REQ(Z(x) < Z(sz(1) << 32)); ENS(Z(sz(u32(x))) == Z(x)); }
CONTRACT(bad_u32, sz x) { REQ(Z(x) <= Z(sz(1) << 32)); ENS(Z(sz(u32(x))) == Z(x)); }
CONTRACT(good_i32, sz x) { REQ(Z(x) < Z(sz(1) << 31)); ENS(Z(sz(long(i32(x)))) == Z(x)); }
CONTRACT(bad_i32, sz x) { REQ(Z(x) <= Z(sz(1) << 31)); ENS(Z(sz(long(i32(x)))) == Z(x)); }
CONTRACT(good_i8, sz x) { REQ(Z(x) < Z(256) && Z(128) <= Z(x)); ENS(Z(long(i8(x))) == Z(x) - Z(256)); }
CONTRACT(bad_i8, sz x) { REQ(Z(x) < Z(256)); ENS(Z(long(i8(x))) == Z(x) - Z(256)); }
CONTRACT(good_u16_add, sz x, sz y) { REQ(Z(x) < Z(65536) && Z(y) < Z(65536)); ENS(Z(sz(u16(x + y))) == (Z(x) + Z(y)) % Z(65536)); }
CONTRACT(bad_u16_add, sz x, sz y) { REQ(Z(x) < Z(65536) && Z(y) < Z(65536)); ENS(Z(sz(u16(x + y))) == Z(x) + Z(y)); }
CONTRACT(good_shl_shr, sz x) { ENS(Z((x << 32) >> 32) == Z(x) % Z(sz(1) << 32)); }
CONTRACT(bad_shl_shr, sz x) { ENS(Z((x << 32) >> 32) == Z(x)); }
CONTRACT(good_sar, sz x) { REQ(Z(x) < Z(sz(1) << 31)); ENS(Z(long(x << 32) >> 32) == Z(x)); }
CONTRACT(bad_sar, sz x) { REQ(Z(x) < Z(sz(1) << 32)); ENS(Z(long(x << 32) >> 32) == Z(x)); }
// division
CONTRACT(good_divmod, sz x, sz y) { REQ(Z(0) < Z(y)); ENS(Z(x / y) * Z(y) + Z(x % y) == Z(x)); ENS(Z(x % y) < Z(y)); }
CONTRACT(bad_div_zero, sz x, sz y) { ENS(Z(x / y) <= Z(x)); }
CONTRACT(bad_divmod, sz x, sz y) { REQ(Z(1) < Z(y)); ENS(Z(x / y) * Z(y) == Z(x)); }
CONTRACT(good_ceil, sz x, sz y) { REQ(Z(0) < Z(y) && Z(x) + Z(y) < TWO64); ENS(Z((x + y - 1) / y) == Z(x / y + (x % y != 0))); }
CONTRACT(bad_ceil, sz x, sz y) { REQ(Z(0) < Z(y) && Z(x) + Z(y) < TWO64); ENS(Z((x + y - 1) / y) == Z(x / y + 1)); }
CONTRACT(bad_ceil_wrap, sz x, sz y) { REQ(Z(0) < Z(y)); ENS(Z((x + y - 1) / y) == Z(x / y + (x % y != 0))); }
CONTRACT(good_tile, sz i, sz j, sz n, sz m) { REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(n) * Z(m) < TWO64); ENS(Z(i * m + j) < Z(n) * Z(m)); ENS(Z((i * m + j) / m) == Z(i)); }
CONTRACT(bad_tile, sz i, sz j, sz n, sz m) { REQ(Z(i) < Z(n) && Z(j) <= Z(m) && Z(n) * Z(m) < TWO64); ENS(Z(i * m + j) < Z(n) * Z(m)); }
CONTRACT(good_sdiv, sz x) { REQ(Z(x) < Z(1000)); ENS(Z(long(0 - x) / 10) == Z(0) - Z(x / 10)); }
CONTRACT(bad_sdiv, sz x) { REQ(Z(x) < Z(1000)); ENS(Z(long(0 - x) / 10) == (Z(0) - Z(x)) / Z(10)); }
// bits
CONTRACT(good_and, sz x) { ENS(Z(x & 15) == Z(x) % Z(16)); }
CONTRACT(bad_and, sz x) { ENS(Z(x & 14) == Z(x) % Z(16)); }
CONTRACT(bad_or, sz x) { REQ(Z(x) < Z(16)); ENS(Z((x << 3) | x) == Z(9) * Z(x)); }
// branches, selects, switches
CONTRACT(good_max, sz x, sz y) { sz m = x < y ? y : x; ENS(Z(x) <= Z(m) && Z(y) <= Z(m)); ENS(Z(m) == Z(x) || Z(m) == Z(y)); }
CONTRACT(bad_signed_cmp, sz x, sz y) { sz m = long(x) < long(y) ? y : x; ENS(Z(x) <= Z(m)); }
CONTRACT(good_switch, sz x) { sz r = 0; switch (x) { case 1: r = 7; break; case 5: r = 70; break; case 9: r = 3; break; default: r = x; } ENS(Z(r) == Z(x) || Z(r) == Z(7) || Z(r) == Z(70) || Z(r) == Z(3)); }
CONTRACT(bad_switch, sz x) { sz r = 0; switch (x) { case 1: r = 7; break; case 5: r = 70; break; case 9: r = 3; break; default: r = x; } ENS(Z(r) == Z(x) || Z(r) == Z(7) || Z(r) == Z(70)); }
CONTRACT(bad_unreached_return, sz x) { if (x == 12345) ENS(Z(x) == Z(12346)); ENS(Z(x) == Z(x)); }
CONTRACT(good_case, sz x) { CASE(0, Z(x) < Z(10)); ENS(Z(x) < Z(10) || Z(10) <= Z(x)); }
CONTRACT(bad_case, sz x) { CASE(0, Z(x) < Z(10)); ENS(Z(x) < Z(10)); }
// loops: invariants
CONTRACT(good_count, sz n) { vg_set(0, 0); for (sz i = 0; i < n; ++i) { ENS(Z(vg_get(0)) == Z(i)); vg_set(0, vg_get(0) + 1); } ENS(Z(vg_get(0)) == Z(n)); }
CONTRACT(bad_count, sz n) { vg_set(0, 0); for (sz i = 0; i <= n; ++i) vg_set(0, vg_get(0) + 1); ENS(Z(vg_get(0)) == Z(n)); }
CONTRACT(bad_count_skip, sz n) { vg_set(0, 0); for (sz i = 0; i < n; ++i) { if (i != 77777) vg_set(0, vg_get(0) + 1); } ENS(Z(vg_get(0)) == Z(n)); }
CONTRACT(bad_count_late, sz n) { vg_set(0, 0); for (sz i = 0; i < n; ++i) { ENS(Z(i) < Z(1000000)); vg_set(0, vg_get(0) + 1); } }
CONTRACT(good_down, sz n) { vg_set(0, 0); for (sz l = n; l > 0; --l) { ENS(Z(vg_get(0)) == Z(n) - Z(l)); vg_set(0, vg_get(0) + 1); } ENS(Z(vg_get(0)) == Z(n)); }
CONTRACT(good_nested, sz n, sz m) {
	CASE(0, Z(m) == Z(0));
	vg_set(0, 0); vg_set(1, 0);
	for (sz i = 0; i < n; ++i)
		for (sz j = 0; j < m; ++j) {
			ENS(Z(vg_get(0)) == Z(i)); ENS(Z(vg_get(1)) == Z(j));
			if (vg_get(1) + 1 < m) vg_set(1, vg_get(1) + 1);
			else { vg_set(1, 0); vg_set(0, vg_get(0) + 1); }
		}
}
CONTRACT(bad_nested, sz n, sz m) {
	CASE(0, Z(m) == Z(0));
	vg_set(0, 0); vg_set(1, 0);
	for (sz i = 0; i < n; ++i)
		for (sz j = (i == 5 ? 1 : 0); j < m; ++j) {
			ENS(Z(vg_get(0)) == Z(i)); ENS(Z(vg_get(1)) == Z(j));
			if (vg_get(1) + 1 < m) vg_set(1, vg_get(1) + 1);
			else { vg_set(1, 0); vg_set(0, vg_get(0) + 1); }
		}
}
// local objects, also changed inside of loops
NOINLINE static void bump(sz *p) { *p += 1; }
struct obj { sz a, b; sz *volatile q; };
CONTRACT(good_local, sz x) { sz a[4] = {x, 1, 2, 3}; std::memcpy(a + 1, a, 8); ENS(Z(a[1]) == Z(x)); ENS(Z(a[3]) == Z(3)); }
CONTRACT(bad_local, sz x) { u8 a[16] = {}; std::memcpy(a + 1, &x, 8); ENS(Z(sz(a[2])) == Z(0)); }
CONTRACT(bad_loop_memory, sz n, sz m) { sz v[2] = {m, 0}; for (sz i = 0; i < n; ++i) { if (i == 3) bump(v); vg_set(0, i); } ENS(Z(v[0]) == Z(m)); }
CONTRACT(bad_loop_call, sz n, sz m) { sz v[2] = {m, 0}; for (sz i = 0; i < n; ++i) { bump(v); vg_set(0, i); } ENS(Z(v[0]) == Z(m)); }
CONTRACT(good_bounds, sz x) { char b[8]; char *p = b + 8; sz n = x % 8 + 1; for (sz i = 0; i < 1; ++i) *--p = 'a'; ENS(as_b(b[7] == 'a')); ENS(Z(n) <= Z(8)); }
CONTRACT(bad_bounds_un, sz x) { REQ(Z(x) < Z(100)); char b[1]; char *p = b + 1; sz n = 0; do { *--p = char('0' + x % 10); ++n; } while (x /= 10); vg_set(0, sz(b[0])); ENS(Z(n) <= Z(2)); }
// memory outside of the contract's objects
CONTRACT(good_store, sz v) { const char *p = vc_memory(64); vc_track(); EXPECT_STORE(p + 8, 8, v); *(sz *)(p + 8) = v; STORES_DONE(); }
CONTRACT(bad_store_addr, sz v) { const char *p = vc_memory(64); vc_track(); EXPECT_STORE(p + 8, 8, v); *(sz *)(p + 16) = v; STORES_DONE(); }
CONTRACT(bad_store_value, sz v) { const char *p = vc_memory(64); vc_track(); EXPECT_STORE(p + 8, 8, v); *(sz *)(p + 8) = v + 1; STORES_DONE(); }
CONTRACT(bad_store_width, sz v) { const char *p = vc_memory(64); vc_track(); EXPECT_STORE(p + 8, 8, v); *(u32 *)(p + 8) = u32(v); STORES_DONE(); }
CONTRACT(bad_store_missing, sz v) { const char *p = vc_memory(64); vc_track(); EXPECT_STORE(p + 8, 8, v); STORES_DONE(); }
CONTRACT(bad_store_extra, sz v) { const char *p = vc_memory(64); vc_track(); EXPECT_STORE(p + 8, 8, v); *(sz *)(p + 8) = v; if (v == 99) *(sz *)(p + 24) = v; STORES_DONE(); }
CONTRACT(good_load, sz i) { REQ(Z(i) < Z(8)); const char *p = vc_memory(64); const sz *q = (const sz *)p; ENS(Z(q[i]) == Z(*(const sz *)(p + 8 * i))); }
CONTRACT(bad_load, sz i) { REQ(Z(i) < Z(7)); const char *p = vc_memory(64); const sz *q = (const sz *)p; ENS(Z(q[i]) == Z(q[i + 1])); }
// the abstract structure: what its contract gives, and nothing else
CONTRACT(good_abs, sz l, sz i) { REQ(Z(i) < Z(l)); ENS(Z(abs_off(0, 8, l, 1, 1, i, 0, 0)) + Z(8) <= Z(abs_size(0, 8, l, 1, 1))); }
CONTRACT(bad_abs_pre, sz l, sz i) { REQ(Z(i) <= Z(l)); ENS(Z(abs_off(0, 8, l, 1, 1, i, 0, 0)) + Z(8) <= Z(abs_size(0, 8, l, 1, 1))); }
CONTRACT(good_abs_disjoint, sz l, sz i, sz j) {
	REQ(Z(i) < Z(l) && Z(j) < Z(i));
	sz a = abs_off(0, 8, l, 1, 1, i, 0, 0), b = abs_off(0, 8, l, 1, 1, j, 0, 0);
	ENS(Z(a) + Z(8) <= Z(b) || Z(b) + Z(8) <= Z(a));
}
CONTRACT(bad_abs_order, sz l, sz i, sz j) {
	REQ(Z(i) < Z(l) && Z(j) < Z(i));
	ENS(Z(abs_off(0, 8, l, 1, 1, j, 0, 0)) < Z(abs_off(0, 8, l, 1, 1, i, 0, 0)));
}
