// Stands between the library and LAPACK: every array handed over has to be as large as
// the documentation of the routine asks for (the routines themselves are not instrumented).
#include <algorithm>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
static void need(const char* who, const char* what, const void* p, size_t bytes)
{
	if (bytes == 0 || !__asan_region_is_poisoned(const_cast<void*>(p), bytes))
		return;
	fprintf(stderr, "%s: the array %s is too small, %zu bytes are needed\n", who, what, bytes);
	abort();
}
#else
static void need(const char*, const char*, const void*, size_t) { }
#endif

typedef std::complex<float>  C;
typedef std::complex<double> Z;

template <typename T> static void array(const char* who, const char* what, const T* p, long n)
{
	if (n > 0)
		need(who, what, p, n * sizeof(T));
}

// columns of length rows that are lda apart
template <typename T> static void matrix(const char* who, const char* what, const T* p, long rows, long cols, long lda)
{
	if (rows > 0 && cols > 0)
		need(who, what, p, ((cols - 1) * lda + rows) * sizeof(T));
}

template <typename F> static F next(const char* name)
{
	void* p = dlsym(RTLD_NEXT, name);
	if (!p) {
		fprintf(stderr, "no %s\n", name);
		abort();
	}
	return reinterpret_cast<F>(p);
}

#define SYEV(NAME, T)                                                                                                  \
	extern "C" void NAME(char* jobz, char* uplo, int* n, T* a, int* lda, T* w, T* work, int* lwork, int* info)     \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		matrix(#NAME, "a", a, *n, *n, *lda);                                                                   \
		array(#NAME, "w", w, *n);                                                                              \
		array(#NAME, "work", work, *lwork == -1 ? 1 : std::max(1, *lwork));                                    \
		f(jobz, uplo, n, a, lda, w, work, lwork, info);                                                        \
	}
SYEV(ssyev_, float)
SYEV(dsyev_, double)

#define HEEV(NAME, T, R)                                                                                               \
	extern "C" void NAME(char* jobz, char* uplo, int* n, T* a, int* lda, R* w, T* work, int* lwork, R* rwork, int* info) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		matrix(#NAME, "a", a, *n, *n, *lda);                                                                   \
		array(#NAME, "w", w, *n);                                                                              \
		array(#NAME, "work", work, *lwork == -1 ? 1 : std::max(1, *lwork));                                    \
		if (*lwork != -1)                                                                                      \
			array(#NAME, "rwork", rwork, 3L * *n - 2);                                                     \
		f(jobz, uplo, n, a, lda, w, work, lwork, rwork, info);                                                 \
	}
HEEV(cheev_, C, float)
HEEV(zheev_, Z, double)

extern "C" void zgeev_(char* jobvl, char* jobvr, int* n, Z* a, int* lda, Z* w, Z* vl, int* ldvl, Z* vr, int* ldvr, Z* work, int* lwork, double* rwork, int* info)
{
	static auto f = next<decltype(&zgeev_)>("zgeev_");
	matrix("zgeev_", "a", a, *n, *n, *lda);
	array("zgeev_", "w", w, *n);
	if (*jobvl == 'V' || *jobvl == 'v')
		matrix("zgeev_", "vl", vl, *n, *n, *ldvl);
	if (*jobvr == 'V' || *jobvr == 'v')
		matrix("zgeev_", "vr", vr, *n, *n, *ldvr);
	array("zgeev_", "work", work, *lwork == -1 ? 1 : std::max(1, *lwork));
	if (*lwork != -1)
		array("zgeev_", "rwork", rwork, 2L * *n);
	f(jobvl, jobvr, n, a, lda, w, vl, ldvl, vr, ldvr, work, lwork, rwork, info);
}

#define GETRF(NAME, T)                                                                                                 \
	extern "C" void NAME(int* m, int* n, T* a, int* lda, int* ipiv, int* info)                                     \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		matrix(#NAME, "a", a, *m, *n, *lda);                                                                   \
		array(#NAME, "ipiv", ipiv, std::min(*m, *n));                                                          \
		f(m, n, a, lda, ipiv, info);                                                                           \
	}
GETRF(sgetrf_, float)
GETRF(dgetrf_, double)
GETRF(cgetrf_, C)
GETRF(zgetrf_, Z)

#define GETRI(NAME, T)                                                                                                 \
	extern "C" void NAME(int* n, T* a, int* lda, int* ipiv, T* work, int* lwork, int* info)                        \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		matrix(#NAME, "a", a, *n, *n, *lda);                                                                   \
		if (*lwork != -1)                                                                                      \
			array(#NAME, "ipiv", ipiv, *n);                                                                \
		array(#NAME, "work", work, *lwork == -1 ? 1 : std::max(1, *lwork));                                    \
		f(n, a, lda, ipiv, work, lwork, info);                                                                 \
	}
GETRI(sgetri_, float)
GETRI(dgetri_, double)
GETRI(cgetri_, C)
GETRI(zgetri_, Z)

template <typename T, typename R>
static void svdArrays(const char* who, char ju, char jv, long m, long n, const T* a, long lda, const R* s, const T* u, long ldu, const T* vt, long ldvt, const T* work, long lwork)
{
	long mn = std::min(m, n);
	matrix(who, "a", a, m, n, lda);
	array(who, "s", s, mn);
	if (ju == 'A' || ju == 'S')
		matrix(who, "u", u, m, ju == 'A' ? m : mn, ldu);
	if (jv == 'A' || jv == 'S')
		matrix(who, "vt", vt, jv == 'A' ? n : mn, n, ldvt);
	array(who, "work", work, lwork == -1 ? 1 : std::max(1L, lwork));
}

#define GESDD(NAME, T)                                                                                                 \
	extern "C" void NAME(char* jobz, int* m, int* n, T* a, int* lda, T* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, int* iwork, int* info) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		svdArrays(#NAME, *jobz, *jobz, *m, *n, a, *lda, s, u, *ldu, vt, *ldvt, work, *lwork);                  \
		if (*lwork != -1)                                                                                      \
			array(#NAME, "iwork", iwork, 8L * std::min(*m, *n));                                           \
		f(jobz, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, iwork, info);                                  \
	}
GESDD(sgesdd_, float)
GESDD(dgesdd_, double)

#define CGESDD(NAME, T, R)                                                                                             \
	extern "C" void NAME(char* jobz, int* m, int* n, T* a, int* lda, R* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, R* rwork, int* iwork, int* info) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		svdArrays(#NAME, *jobz, *jobz, *m, *n, a, *lda, s, u, *ldu, vt, *ldvt, work, *lwork);                  \
		if (*lwork != -1) {                                                                                    \
			long mn = std::min(*m, *n), mx = std::max(*m, *n);                                             \
			array(#NAME, "iwork", iwork, 8 * mn);                                                          \
			array(#NAME, "rwork", rwork, 5 * mn * mn + 5 * mn);                                            \
			if (2 * mx < 3 * mn)                                                                           \
				array(#NAME, "rwork", rwork, 2 * mx * mn + 2 * mn * mn + mn);                          \
		}                                                                                                      \
		f(jobz, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, rwork, iwork, info);                           \
	}
CGESDD(cgesdd_, C, float)
CGESDD(zgesdd_, Z, double)

#define GESVD(NAME, T)                                                                                                 \
	extern "C" void NAME(char* jobu, char* jobvt, int* m, int* n, T* a, int* lda, T* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, int* info) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		svdArrays(#NAME, *jobu, *jobvt, *m, *n, a, *lda, s, u, *ldu, vt, *ldvt, work, *lwork);                 \
		f(jobu, jobvt, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info);                                  \
	}
GESVD(sgesvd_, float)
GESVD(dgesvd_, double)

#define CGESVD(NAME, T, R)                                                                                             \
	extern "C" void NAME(char* jobu, char* jobvt, int* m, int* n, T* a, int* lda, R* s, T* u, int* ldu, T* vt, int* ldvt, T* work, int* lwork, R* rwork, int* info) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		svdArrays(#NAME, *jobu, *jobvt, *m, *n, a, *lda, s, u, *ldu, vt, *ldvt, work, *lwork);                 \
		if (*lwork != -1)                                                                                      \
			array(#NAME, "rwork", rwork, 5L * std::min(*m, *n));                                           \
		f(jobu, jobvt, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, rwork, info);                           \
	}
CGESVD(cgesvd_, C, float)
CGESVD(zgesvd_, Z, double)

#define GESV(NAME, T)                                                                                                  \
	extern "C" void NAME(int* n, int* nrhs, T* a, int* lda, int* ipiv, T* b, int* ldb, int* info)                  \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		matrix(#NAME, "a", a, *n, *n, *lda);                                                                   \
		matrix(#NAME, "b", b, *n, *nrhs, *ldb);                                                                \
		array(#NAME, "ipiv", ipiv, *n);                                                                        \
		f(n, nrhs, a, lda, ipiv, b, ldb, info);                                                                \
	}
GESV(sgesv_, float)
GESV(dgesv_, double)
GESV(cgesv_, C)
GESV(zgesv_, Z)

#define STERF(NAME, T)                                                                                                 \
	extern "C" void NAME(int* n, T* d, T* e, int* info)                                                            \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		array(#NAME, "d", d, *n);                                                                              \
		array(#NAME, "e", e, *n - 1L);                                                                         \
		f(n, d, e, info);                                                                                      \
	}
STERF(ssterf_, float)
STERF(dsterf_, double)

#define STEQR(NAME, T)                                                                                                 \
	extern "C" void NAME(char* jobz, int* n, T* d, T* e, T* z, int* ldz, T* work, int* info)                       \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		array(#NAME, "d", d, *n);                                                                              \
		array(#NAME, "e", e, *n - 1L);                                                                         \
		if (*jobz != 'N' && *jobz != 'n') {                                                                    \
			matrix(#NAME, "z", z, *n, *n, *ldz);                                                           \
			array(#NAME, "work", work, 2L * *n - 2);                                                       \
		}                                                                                                      \
		f(jobz, n, d, e, z, ldz, work, info);                                                                  \
	}
STEQR(ssteqr_, float)
STEQR(dsteqr_, double)

#define STEDC(NAME, T)                                                                                                 \
	extern "C" void NAME(char* jobz, int* n, T* d, T* e, T* z, int* ldz, T* work, int* lwork, int* iwork, int* liwork, int* info) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		array(#NAME, "d", d, *n);                                                                              \
		array(#NAME, "e", e, *n - 1L);                                                                         \
		if (*jobz != 'N' && *jobz != 'n')                                                                      \
			matrix(#NAME, "z", z, *n, *n, *ldz);                                                           \
		array(#NAME, "work", work, std::max(1, *lwork));                                                       \
		array(#NAME, "iwork", iwork, std::max(1, *liwork));                                                    \
		f(jobz, n, d, e, z, ldz, work, lwork, iwork, liwork, info);                                            \
	}
STEDC(sstedc_, float)
STEDC(dstedc_, double)

#define GEMM(NAME, T)                                                                                                  \
	extern "C" void NAME(char* ta, char* tb, int* m, int* n, int* k, const T* alpha, const T* a, int* lda, const T* b, int* ldb, const T* beta, T* c, int* ldc) \
	{                                                                                                              \
		static auto f = next<decltype(&NAME)>(#NAME);                                                          \
		bool na = (*ta == 'N' || *ta == 'n'), nb = (*tb == 'N' || *tb == 'n');                                 \
		matrix(#NAME, "a", a, na ? *m : *k, na ? *k : *m, *lda);                                               \
		matrix(#NAME, "b", b, nb ? *k : *n, nb ? *n : *k, *ldb);                                               \
		matrix(#NAME, "c", c, *m, *n, *ldc);                                                                   \
		f(ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc);                                               \
	}
GEMM(sgemm_, float)
GEMM(dgemm_, double)
GEMM(cgemm_, C)
GEMM(zgemm_, Z)
