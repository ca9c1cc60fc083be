// Documented meaning of the vector instructions used, on exact numbers.
#pragma once
#include "../sym.hpp"
struct __m128d { Real v[2]; };
struct __m256d { Real v[4]; };
inline __m256d _mm256_add_pd(__m256d const& a, __m256d const& b){ __m256d r; for (int i = 0; i < 4; ++i) r.v[i] = a.v[i] + b.v[i]; return r; }
inline __m256d _mm256_sub_pd(__m256d const& a, __m256d const& b){ __m256d r; for (int i = 0; i < 4; ++i) r.v[i] = a.v[i] - b.v[i]; return r; }
inline __m256d _mm256_mul_pd(__m256d const& a, __m256d const& b){ __m256d r; for (int i = 0; i < 4; ++i) r.v[i] = a.v[i] * b.v[i]; return r; }
inline __m256d _mm256_addsub_pd(__m256d const& a, __m256d const& b){ __m256d r; for (int i = 0; i < 4; ++i) r.v[i] = i & 1 ? a.v[i] + b.v[i] : a.v[i] - b.v[i]; return r; }
inline __m256d _mm256_fmadd_pd(__m256d const& a, __m256d const& b, __m256d const& c){ return _mm256_add_pd(_mm256_mul_pd(a, b), c); }
inline __m256d _mm256_fmaddsub_pd(__m256d const& a, __m256d const& b, __m256d const& c){ return _mm256_addsub_pd(_mm256_mul_pd(a, b), c); }
inline __m256d _mm256_hsub_pd(__m256d const& a, __m256d const& b){
    __m256d r; r.v[0] = a.v[0] - a.v[1]; r.v[1] = b.v[0] - b.v[1]; r.v[2] = a.v[2] - a.v[3]; r.v[3] = b.v[2] - b.v[3]; return r; }
inline __m256d _mm256_hadd_pd(__m256d const& a, __m256d const& b){
    __m256d r; r.v[0] = a.v[0] + a.v[1]; r.v[1] = b.v[0] + b.v[1]; r.v[2] = a.v[2] + a.v[3]; r.v[3] = b.v[2] + b.v[3]; return r; }
inline __m256d _mm256_permute_pd(__m256d const& a, int k){
    __m256d r; r.v[0] = a.v[k & 1]; r.v[1] = a.v[(k >> 1) & 1]; r.v[2] = a.v[2 + ((k >> 2) & 1)]; r.v[3] = a.v[2 + ((k >> 3) & 1)]; return r; }
inline __m256d _mm256_movedup_pd(__m256d const& a){ __m256d r; r.v[0] = r.v[1] = a.v[0]; r.v[2] = r.v[3] = a.v[2]; return r; }
inline __m256d _mm256_set1_pd(Real const& x){ __m256d r; for (auto& y : r.v) y = x; return r; }
inline __m256d _mm256_setr_pd(Real const& a, Real const& b, Real const& c, Real const& d){ __m256d r; r.v[0] = a; r.v[1] = b; r.v[2] = c; r.v[3] = d; return r; }
inline __m256d _mm256_set_pd(Real const& d, Real const& c, Real const& b, Real const& a){ return _mm256_setr_pd(a, b, c, d); }
inline __m256d _mm256_load_pd(Real const* p){ __m256d r; for (int i = 0; i < 4; ++i) r.v[i] = p[i]; return r; }
inline __m256d _mm256_loadu_pd(Real const* p){ return _mm256_load_pd(p); }
inline void _mm256_store_pd(Real* p, __m256d const& a){ for (int i = 0; i < 4; ++i) p[i] = a.v[i]; }
inline void _mm256_storeu_pd(Real* p, __m256d const& a){ _mm256_store_pd(p, a); }
inline __m128d _mm_load_pd(Real const* p){ __m128d r; r.v[0] = p[0]; r.v[1] = p[1]; return r; }
inline __m128d _mm_loadu_pd(Real const* p){ return _mm_load_pd(p); }
inline void _mm_store_pd(Real* p, __m128d const& a){ p[0] = a.v[0]; p[1] = a.v[1]; }
inline void _mm_storeu_pd(Real* p, __m128d const& a){ _mm_store_pd(p, a); }
inline __m256d _mm256_broadcast_pd(__m128d const* p){ __m256d r; r.v[0] = r.v[2] = p->v[0]; r.v[1] = r.v[3] = p->v[1]; return r; }
inline __m256d _mm256_castpd128_pd256(__m128d const& a){ __m256d r; r.v[0] = a.v[0]; r.v[1] = a.v[1]; return r; }
inline __m128d _mm256_castpd256_pd128(__m256d const& a){ __m128d r; r.v[0] = a.v[0]; r.v[1] = a.v[1]; return r; }
inline __m128d _mm256_extractf128_pd(__m256d const& a, int k){ __m128d r; r.v[0] = a.v[2 * k]; r.v[1] = a.v[2 * k + 1]; return r; }
inline __m256d _mm256_insertf128_pd(__m256d a, __m128d const& b, int k){ a.v[2 * k] = b.v[0]; a.v[2 * k + 1] = b.v[1]; return a; }
