// Counts the calls of matrix kernels (products, factorisations) a run makes, as a measure of the work it does between two looks at
// its telegram. Each entry point of BLAS/LAPACK below counts and continues in the real library, whatever its arguments are.
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
extern "C" { long work_count_total = 0; }
#define KERNELS(F) F(dgemm_) F(dgemv_) F(dsyrk_) F(dpotrf_) F(dgetrf_) F(dgesv_) F(dposv_) F(dgesvx_) F(dposvx_) F(dgels_) F(dgelsd_) F(dgesdd_) F(dgesvd_) F(dsyev_) F(dsyevd_) F(dgeev_) F(dgeqrf_)
#define DECLARE(name) extern "C" { void* work_count_##name = nullptr; } __asm__(".text\n.globl " #name "\n.type " #name ",@function\n" #name ":\n lock incq work_count_total(%rip)\n jmp *work_count_" #name "(%rip)\n.size " #name ",.-" #name "\n");
KERNELS(DECLARE)
#define RESOLVE(name) work_count_##name = dlsym(RTLD_NEXT, #name); if (!work_count_##name) { std::fprintf(stderr, "no %s\n", #name); std::abort(); }
__attribute__((constructor)) static void resolve() { KERNELS(RESOLVE) }
