// Stand-in for Matlab's mex.h: the part of the C matrix interface that the gateways use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cctype>
extern "C" {
typedef struct mxArray_tag mxArray;
typedef size_t mwSize; typedef size_t mwIndex;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS } mxClassID;
typedef char16_t mxChar; typedef double mxDouble; typedef struct { double real, imag; } mxComplexDouble;
size_t mxGetM(const mxArray *); size_t mxGetN(const mxArray *);
double *mxGetPr(const mxArray *); void *mxGetData(const mxArray *); mxDouble *mxGetDoubles(const mxArray *); mxComplexDouble *mxGetComplexDoubles(const mxArray *);
double mxGetScalar(const mxArray *);
size_t mxGetNumberOfDimensions(const mxArray *); const mwSize *mxGetDimensions(const mxArray *); size_t mxGetNumberOfElements(const mxArray *);
bool mxIsChar(const mxArray *); bool mxIsDouble(const mxArray *); bool mxIsSingle(const mxArray *); bool mxIsComplex(const mxArray *);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity); mxArray *mxCreateString(const char *);
void mxDestroyArray(mxArray *); void mxFree(void *);
char *mxArrayToString(const mxArray *); int mxGetString(const mxArray *, char *, mwSize);
// not used by the gateways today, but natural to use in a change of theirs
bool mxIsEmpty(const mxArray *); bool mxIsNumeric(const mxArray *); bool mxIsLogical(const mxArray *); mxClassID mxGetClassID(const mxArray *); size_t mxGetElementSize(const mxArray *);
float *mxGetSingles(const mxArray *); mxArray *mxCreateDoubleScalar(double); mxArray *mxDuplicateArray(const mxArray *);
void *mxMalloc(size_t); void *mxCalloc(size_t, size_t);
[[noreturn]] void mexErrMsgIdAndTxt(const char *, const char *, ...); void mexWarnMsgTxt(const char *);
[[noreturn]] void mexErrMsgTxt(const char *); int mexPrintf(const char *, ...); int mexCallMATLAB(int, mxArray **, int, mxArray **, const char *);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
}
