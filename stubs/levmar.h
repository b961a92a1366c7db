#pragma once
#define LM_OPTS_SZ 5
#define LM_INFO_SZ 10
#define LM_ERROR -1
#define LM_INIT_MU 1E-03
#define LM_STOP_THRESH 1E-17
#define LM_DIFF_DELTA 1E-06
#define LM_VERSION "2.6"
#define LM_DIF_WORKSZ(npar, nmeas) (4*(nmeas) + 4*(npar) + (nmeas)*(npar) + (npar)*(npar))
extern "C" {
int dlevmar_dif(void (*func)(double* p, double* hx, int m, int n, void* adata), double* p, double* x, int m, int n, int itmax, double* opts, double* info, double* work, double* covar, void* adata);
int dlevmar_der(void (*func)(double* p, double* hx, int m, int n, void* adata), void (*jacf)(double* p, double* j, int m, int n, void* adata), double* p, double* x, int m, int n, int itmax, double* opts, double* info, double* work, double* covar, void* adata);
}
