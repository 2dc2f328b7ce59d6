// The part of clBLAS the library uses, implemented by the simulated device (sim/core/seam_opencl.cpp).
#pragma once
#include <CL/cl.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { clblasRowMajor, clblasColumnMajor } clblasOrder;
typedef enum { clblasNoTrans, clblasTrans, clblasConjTrans } clblasTranspose;
typedef cl_int clblasStatus;
clblasStatus clblasSetup(void);
void clblasTeardown(void);
clblasStatus clblasSgemm(clblasOrder, clblasTranspose, clblasTranspose, size_t M, size_t N, size_t K, cl_float alpha, const cl_mem A, size_t offA, size_t lda, const cl_mem B, size_t offB, size_t ldb,
  cl_float beta, cl_mem C, size_t offC, size_t ldc, cl_uint queues, cl_command_queue*, cl_uint waits, const cl_event*, cl_event*);
clblasStatus clblasSgemv(clblasOrder, clblasTranspose, size_t M, size_t N, cl_float alpha, const cl_mem A, size_t offA, size_t lda, const cl_mem X, size_t offx, int incx, cl_float beta, cl_mem Y, size_t offy, int incy,
  cl_uint queues, cl_command_queue*, cl_uint waits, const cl_event*, cl_event*);
#ifdef __cplusplus
}
#endif
