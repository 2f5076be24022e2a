/* gcc folds table entries used as immediate operands; clang's builtins insist on literal immediates.
   Replace those intrinsics by functions with the same semantics so the avx sources can be analysed unchanged. */
#include <immintrin.h>
#undef _mm_ror_epi64
#undef _mm256_ror_epi64
#undef _mm512_ror_epi64
#undef _mm_rol_epi64
#undef _mm256_rol_epi64
#undef _mm512_rol_epi64
typedef unsigned long long isapsa_v2 __attribute__((vector_size(16)));
typedef unsigned long long isapsa_v4 __attribute__((vector_size(32)));
typedef unsigned long long isapsa_v8 __attribute__((vector_size(64)));
static inline __attribute__((always_inline)) __m128i isapsa_ror2(__m128i a, int n) { n &= 63; isapsa_v2 x = (isapsa_v2)a; return (__m128i)((x >> n) | (x << ((64 - n) & 63))); }
static inline __attribute__((always_inline)) __m256i isapsa_ror4(__m256i a, int n) { n &= 63; isapsa_v4 x = (isapsa_v4)a; return (__m256i)((x >> n) | (x << ((64 - n) & 63))); }
static inline __attribute__((always_inline)) __m512i isapsa_ror8(__m512i a, int n) { n &= 63; isapsa_v8 x = (isapsa_v8)a; return (__m512i)((x >> n) | (x << ((64 - n) & 63))); }
#define _mm_ror_epi64(a, n) isapsa_ror2((a), (n))
#define _mm256_ror_epi64(a, n) isapsa_ror4((a), (n))
#define _mm512_ror_epi64(a, n) isapsa_ror8((a), (n))
#define _mm_rol_epi64(a, n) isapsa_ror2((a), -(n))
#define _mm256_rol_epi64(a, n) isapsa_ror4((a), -(n))
#define _mm512_rol_epi64(a, n) isapsa_ror8((a), -(n))
