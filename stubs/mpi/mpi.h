// MPI for the verification harnesses: ranks are cooperative threads of one program (vx_spawn / vx_yield).
// Semantics follow the standard; every mismatch between ranks (kind, count, root, operation), every use of a
// non-completed or invalid object and every deadlock is reported as a violation.
#pragma once
#include <stdint.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info;
typedef long MPI_Aint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int count; };
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_NULL 0
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR = 1, MPI_BYTE, MPI_INT, MPI_UNSIGNED, MPI_INT64_T, MPI_UINT64_T, MPI_FLOAT, MPI_DOUBLE, MPI_LONG, MPI_UNSIGNED_LONG, MPI_INT32_T, MPI_UINT32_T, MPI_C_BOOL, MPI_CXX_BOOL, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
extern "C" {
int MPI_Init(int*, char***); int MPI_Finalize(void); int MPI_Initialized(int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Barrier(MPI_Comm);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Type_size(MPI_Datatype, int*);
int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void);
}
// harness side: run fn(rank) on nranks ranks to completion (rank 0 on the calling thread)
void vx_mpi_run(int nranks, void (*fn)(int));
void vx_mpi_size(int nranks);   // single-rank use without vx_mpi_run
