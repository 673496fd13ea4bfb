// The structures whose memory safety (C01) and injectivity (C02) is verified: every layout and every
// transformation of the library over an arbitrary (abstract) inner structure, and concrete compositions.
//   STRUCT(name, (parameters), precondition statements, structure expression, dimensions...)
using A = absn::abs_t<0, int, 'x', 'y'>;
using A3 = absn::abs_t<0, int, 'x', 'y', 'z'>;
using U = absn::absu_t<0, int, 'x', 'y'>;
using U3 = absn::absu_t<0, int, 'x', 'y', 'z'>;
#define NM sz n, sz m
#define FITS(...) REQ((__VA_ARGS__) < TWO64)

// -- layouts over an arbitrary structure
STRUCT(abs, (NM), , (A{{n, m}}), 'x', 'y')
STRUCT(vector, (NM, sz k), FITS(Z(k) * zsize<0, int>(n, m)), (A{{n, m}} ^ vector<'v'>(k)), 'v', 'x', 'y')
#ifndef WITHOUT_COSTLY_LOOPS
STRUCT(vector2, (NM, sz k, sz l), FITS(Z(k) * zsize<0, int>(n, m)); FITS(Z(l) * (Z(k) * zsize<0, int>(n, m))),
       (A{{n, m}} ^ vectors<'v', 'w'>(k, l)), 'w', 'v', 'x', 'y')
#endif
STRUCT(vector_inner_unsized, (NM, sz k), FITS(Z(k) * zsize<0, int>(n, m)), (U{} ^ vector<'v'>() ^ set_length<'x', 'v', 'y'>(n, k, m)), 'v', 'x', 'y')
STRUCT(array, (NM), FITS(Z(12) * zsize<0, int>(n, m)), (A{{n, m}} ^ array<'v', 12>()), 'v', 'x', 'y')
STRUCT(array1, (NM), , (A{{n, m}} ^ array<'v', 1>()), 'v', 'x', 'y')
// -- transformations of an arbitrary structure
#ifndef WITHOUT_COSTLY_LOOPS
STRUCT(into_blocks_size, (NM, sz b), REQ(Z(b) > Z(0)), (A{{n, m}} ^ into_blocks<'x', 'a', 'b'>(b)), 'a', 'b', 'y')
#endif
STRUCT(into_blocks_count, (NM, sz k), REQ(Z(k) > Z(0)), (A{{n, m}} ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a'>(k)), 'a', 'b', 'y')
#ifndef WITHOUT_COSTLY_LOOPS
STRUCT(into_blocks_unsized, (NM, sz k, sz b), FITS(Z(k) * Z(b)), (U{} ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a', 'b', 'y'>(k, b, m)), 'a', 'b', 'y')
#endif
STRUCT(into_blocks_inner, (NM, sz b), REQ(Z(b) > Z(0)), (A{{n, m}} ^ into_blocks<'y', 'a'>(b)), 'a', 'x', 'y')
STRUCT(into_blocks_lit, (NM), , (A{{n, m}} ^ into_blocks<'x', 'a', 'b'>(lit<4>)), 'a', 'b', 'y')
STRUCT(into_blocks_dynamic, (NM, sz b), REQ(Z(b) > Z(0)); REQ(Z(n) + Z(b) <= TWO64), (A{{n, m}} ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b)), 'a', 'b', 'p', 'y')
STRUCT(into_blocks_static_body, (NM), , (A{{n, m}} ^ into_blocks_static<'x', 's', 'a', 'b'>(lit<5>) ^ fix<'s'>(lit<0>)), 'a', 'b', 'y')
STRUCT(into_blocks_static_border, (NM), , (A{{n, m}} ^ into_blocks_static<'x', 's', 'a', 'b'>(lit<5>) ^ fix<'s'>(lit<1>)), 'a', 'b', 'y')
STRUCT(merge_blocks, (NM, sz p), FITS(Z(n) * Z(m)), (A3{{n, m, p}} ^ merge_blocks<'x', 'y', 'v'>()), 'v', 'z')
STRUCT(merge_blocks_rev, (NM, sz p), FITS(Z(n) * Z(p)), (A3{{n, m, p}} ^ merge_blocks<'z', 'x', 'v'>()), 'v', 'y')
STRUCT(merge_blocks_len, (NM, sz L), REQ(Z(m) > Z(0) && Z(L) % Z(m) == Z(0)), (U3{} ^ set_length<'y', 'z'>(m, n) ^ merge_blocks<'x', 'y', 'v'>() ^ set_length<'v'>(L)), 'v', 'z')
STRUCT(shift, (NM, sz a), REQ(Z(a) <= Z(n)), (A{{n, m}} ^ shift<'x'>(a)), 'x', 'y')
STRUCT(shift_len, (NM, sz a), FITS(Z(n) + Z(a)), (U{} ^ shift<'x'>(a) ^ set_length<'x', 'y'>(n, m)), 'x', 'y')
STRUCT(shift2, (NM, sz a, sz b), REQ(Z(a) <= Z(n) && Z(b) <= Z(m)), (A{{n, m}} ^ shift<'x', 'y'>(a, b)), 'x', 'y')
STRUCT(slice, (NM, sz a, sz l), REQ(Z(a) + Z(l) <= Z(n)), (A{{n, m}} ^ slice<'x'>(a, l)), 'x', 'y')
STRUCT(span, (NM, sz a, sz e), REQ(Z(a) <= Z(e) && Z(e) <= Z(n)), (A{{n, m}} ^ span<'x'>(a, e)), 'x', 'y')
#ifndef WITHOUT_COSTLY_LOOPS
STRUCT(span_both, (NM, sz a, sz e), REQ(Z(a) <= Z(e) && Z(e) <= Z(n) && Z(e) <= Z(m)), (A{{n, m}} ^ span<'x'>(a, e) ^ span<'y'>(a, e)), 'x', 'y')
#endif
#ifndef WITHOUT_STEP
STRUCT(step, (NM, sz s, sz d), REQ(Z(s) < Z(d)); REQ(Z(n) + Z(d) <= TWO64), (A{{n, m}} ^ step<'x'>(s, d)), 'x', 'y')
#endif
STRUCT(reverse, (NM), , (A{{n, m}} ^ reverse<'x'>()), 'x', 'y')
STRUCT(reverse_both, (NM), , (A{{n, m}} ^ reverse<'y', 'x'>()), 'x', 'y')
STRUCT(rename, (NM, sz p), , (A3{{n, m, p}} ^ rename<'x', 'y', 'y', 'z', 'z', 'x'>()), 'x', 'y', 'z')
STRUCT(hoist, (NM, sz p), , (A3{{n, m, p}} ^ hoist<'z', 'y'>()), 'x', 'y', 'z')
STRUCT(reorder, (NM, sz p), , (A3{{n, m, p}} ^ reorder<'z', 'x', 'y'>()), 'x', 'y', 'z')
STRUCT(join, (NM), , (A3{{n, n, m}} ^ join<'x', 'y', 'd'>()), 'd', 'z')
STRUCT(fix, (NM, sz p, sz f), REQ(Z(f) < Z(m)), (A3{{n, m, p}} ^ fix<'y'>(f)), 'x', 'z')
STRUCT(set_length, (NM, sz p), , (U3{} ^ set_length<'z', 'x'>(p, n) ^ set_length<'y'>(m)), 'x', 'y', 'z')
// -- concrete compositions
STRUCT(c_matrix, (NM), FITS(Z(n) * Z(m) * Z(4)), (scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m)), 'x', 'y')
#ifndef WITHOUT_COSTLY_LOOPS
STRUCT(c_cube, (NM, sz p), FITS(Z(n) * Z(m) * Z(8)); FITS(Z(n) * Z(m) * Z(p) * Z(8)), (scalar<double>() ^ vectors<'x', 'y', 'z'>(n, m, p)), 'x', 'y', 'z')
#endif
#ifndef WITHOUT_COSTLY_LOOPS
STRUCT(c_tiled, (NM), FITS(Z(n) * Z(m) * Z(4)), (scalar<int>() ^ vectors<'x', 'y'>(n, m) ^ into_blocks<'x', 'X', 'x'>(lit<16>) ^ into_blocks<'y', 'Y', 'y'>(lit<8>) ^ hoist<'Y', 'X'>()), 'X', 'Y', 'x', 'y')
#endif
#ifndef WITHOUT_TILED_LAYOUT
STRUCT(c_tiled_layout, (NM), FITS(Z(n) * Z(m) * Z(512)), (scalar<int>() ^ array<'x', 16>() ^ array<'y', 8>() ^ vectors<'X', 'Y'>(n, m) ^ merge_blocks<'X', 'x', 'i'>() ^ merge_blocks<'Y', 'y', 'j'>()), 'i', 'j')
#endif
STRUCT(c_slice_blocks, (NM, sz a, sz b), REQ(Z(b) > Z(0) && Z(a) <= Z(n)); FITS(Z(n) * Z(m) * Z(4)), (scalar<int>() ^ vectors<'x', 'y'>(n, m) ^ shift<'x'>(a) ^ into_blocks<'x', 'X'>(b)), 'X', 'x', 'y')
STRUCT(c_tuple_member0, (sz n), FITS(Z(n) * Z(32) + Z(64)), (pack(scalar<char>() ^ vector<'v'>(n), scalar<double>() ^ vector<'v'>(n)) ^ tuple<'t'>() ^ fix<'t'>(lit<0>)), 'v')
STRUCT(c_tuple_member1, (sz n), FITS(Z(n) * Z(32) + Z(64)), (pack(scalar<char>() ^ vector<'v'>(n), scalar<double>() ^ vector<'v'>(n)) ^ tuple<'t'>() ^ fix<'t'>(lit<1>)), 'v')
STRUCT(c_aos, (NM), FITS(Z(n) * Z(m) * Z(12)), (pack(scalar<double>(), scalar<int>()) ^ tuple<'t'>() ^ vectors<'x', 'y'>(n, m) ^ fix<'t'>(lit<1>)), 'x', 'y')
#ifndef WITHOUT_STEP
STRUCT(c_step_vec, (NM, sz s, sz d), REQ(Z(s) < Z(d)); REQ(Z(n) + Z(d) <= TWO64); FITS(Z(n) * Z(m) * Z(8)), (scalar<double>() ^ vectors<'x', 'y'>(n, m) ^ step<'x'>(s, d)), 'x', 'y')
#endif
