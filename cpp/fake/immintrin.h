// lane-wise meaning of the vector instructions the kernels use
#pragma once
struct __m128d { SymD v[2]; };
struct __m256d { SymD v[4]; };
inline __m256d _mm256_add_pd(__m256d const &a, __m256d const &b) { return {{a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2], a.v[3] + b.v[3]}}; }
inline __m256d _mm256_sub_pd(__m256d const &a, __m256d const &b) { return {{a.v[0] - b.v[0], a.v[1] - b.v[1], a.v[2] - b.v[2], a.v[3] - b.v[3]}}; }
inline __m256d _mm256_mul_pd(__m256d const &a, __m256d const &b) { return {{a.v[0] * b.v[0], a.v[1] * b.v[1], a.v[2] * b.v[2], a.v[3] * b.v[3]}}; }
inline __m256d _mm256_addsub_pd(__m256d const &a, __m256d const &b) { return {{a.v[0] - b.v[0], a.v[1] + b.v[1], a.v[2] - b.v[2], a.v[3] + b.v[3]}}; }
inline __m256d _mm256_fmadd_pd(__m256d const &a, __m256d const &b, __m256d const &c) { return _mm256_add_pd(_mm256_mul_pd(a, b), c); }
inline __m256d _mm256_fmsub_pd(__m256d const &a, __m256d const &b, __m256d const &c) { return _mm256_sub_pd(_mm256_mul_pd(a, b), c); }
inline __m256d _mm256_fmaddsub_pd(__m256d const &a, __m256d const &b, __m256d const &c) { return _mm256_addsub_pd(_mm256_mul_pd(a, b), c); }
inline __m256d _mm256_hadd_pd(__m256d const &a, __m256d const &b) { return {{a.v[0] + a.v[1], b.v[0] + b.v[1], a.v[2] + a.v[3], b.v[2] + b.v[3]}}; }
inline __m256d _mm256_hsub_pd(__m256d const &a, __m256d const &b) { return {{a.v[0] - a.v[1], b.v[0] - b.v[1], a.v[2] - a.v[3], b.v[2] - b.v[3]}}; }
inline __m256d _mm256_permute_pd(__m256d const &a, int c) { return {{a.v[c & 1], a.v[(c >> 1) & 1], a.v[2 + ((c >> 2) & 1)], a.v[2 + ((c >> 3) & 1)]}}; }
inline __m256d _mm256_movedup_pd(__m256d const &a) { return {{a.v[0], a.v[0], a.v[2], a.v[2]}}; }
inline __m256d _mm256_set1_pd(SymD const &a) { return {{a, a, a, a}}; }
inline __m256d _mm256_setzero_pd() { return {{0., 0., 0., 0.}}; }
inline __m256d _mm256_setr_pd(SymD const &a, SymD const &b, SymD const &c, SymD const &d) { return {{a, b, c, d}}; }
inline __m256d _mm256_set_pd(SymD const &a, SymD const &b, SymD const &c, SymD const &d) { return {{d, c, b, a}}; }
inline __m256d _mm256_load_pd(SymD const *p) { return {{p[0], p[1], p[2], p[3]}}; }
inline __m256d _mm256_loadu_pd(SymD const *p) { return _mm256_load_pd(p); }
inline void _mm256_store_pd(SymD *p, __m256d const &a) { for (int i = 0; i < 4; ++i) p[i] = a.v[i]; }
inline void _mm256_storeu_pd(SymD *p, __m256d const &a) { _mm256_store_pd(p, a); }
inline __m128d _mm_load_pd(SymD const *p) { return {{p[0], p[1]}}; }
inline __m128d _mm_loadu_pd(SymD const *p) { return {{p[0], p[1]}}; }
inline void _mm_store_pd(SymD *p, __m128d const &a) { p[0] = a.v[0]; p[1] = a.v[1]; }
inline void _mm_storeu_pd(SymD *p, __m128d const &a) { p[0] = a.v[0]; p[1] = a.v[1]; }
inline __m256d _mm256_broadcast_pd(__m128d const *p) { return {{p->v[0], p->v[1], p->v[0], p->v[1]}}; }
inline __m256d _mm256_castpd128_pd256(__m128d const &a) { return {{a.v[0], a.v[1], 0., 0.}}; }
inline __m128d _mm256_castpd256_pd128(__m256d const &a) { return {{a.v[0], a.v[1]}}; }
inline __m128d _mm256_extractf128_pd(__m256d const &a, int h) { return {{a.v[2 * (h & 1)], a.v[2 * (h & 1) + 1]}}; }
inline __m256d _mm256_insertf128_pd(__m256d a, __m128d const &b, int h) { a.v[2 * (h & 1)] = b.v[0]; a.v[2 * (h & 1) + 1] = b.v[1]; return a; }
