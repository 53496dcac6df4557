// Stand-in for the part of the MEX API the loader uses (stub component).
#ifndef MEX_STUB_H
#define MEX_STUB_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mxArray_tag mxArray;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef int mwSize;
typedef int mwIndex;
char *mxArrayToString(const mxArray *a);
void mxFree(void *p);
mxArray *mxCreateStructMatrix(int m, int n, int nf, const char **keys);
void mxSetFieldByNumber(mxArray *a, int i, int f, mxArray *v);
void mxSetField(mxArray *a, int i, const char *name, mxArray *v);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateDoubleMatrix(int m, int n, mxComplexity c);
double *mxGetPr(const mxArray *a);
mxArray *mxCreateString(const char *s);
void mxDestroyArray(mxArray *a);
const char *mexFunctionName(void);
int mexPrintf(const char *f, ...);
void mexErrMsgTxt(const char *m);
void mexWarnMsgTxt(const char *m);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#ifdef __cplusplus
}
#endif
#endif
