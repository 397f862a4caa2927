/* Stand-in for the part of MPI that binnedMPI uses: records what is created and can inject errors. */
#ifndef VERIF_MPI_STUB_H
#define VERIF_MPI_STUB_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Comm;
typedef void (MPI_User_function)(void *, void *, int *, MPI_Datatype *);
enum { MPI_SUCCESS = 0, MPI_ERR_BUFFER = 1, MPI_ERR_COUNT = 2, MPI_ERR_TYPE = 3, MPI_ERR_ARG = 12, MPI_ERR_OTHER = 15, MPI_ERR_INTERN = 16, MPI_ERR_NO_MEM = 34, MPI_ERR_OP = 9, MPI_ERR_COMM = 5 };
#define MPI_COMM_WORLD ((MPI_Comm)91)
#define MPI_DOUBLE ((MPI_Datatype)1001)
#define MPI_FLOAT ((MPI_Datatype)1002)
#define MPI_C_DOUBLE_COMPLEX ((MPI_Datatype)1003)
#define MPI_DOUBLE_COMPLEX ((MPI_Datatype)1003)
#define MPI_C_FLOAT_COMPLEX ((MPI_Datatype)1004)
#define MPI_COMPLEX ((MPI_Datatype)1004)
#define MPI_BYTE ((MPI_Datatype)1005)
#define MPI_CHAR ((MPI_Datatype)1006)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
int MPI_Type_contiguous(int count, MPI_Datatype base, MPI_Datatype *out);
int MPI_Type_commit(MPI_Datatype *t);
int MPI_Type_free(MPI_Datatype *t);
int MPI_Type_size(MPI_Datatype t, int *size);
int MPI_Op_create(MPI_User_function *fn, int commute, MPI_Op *op);
int MPI_Op_free(MPI_Op *op);
int MPI_Abort(MPI_Comm comm, int code);
int MPI_Error_string(int code, char *s, int *len);
/* the harness's view */
typedef struct {
  int types, ops, aborts, abort_code, abort_comm, fail_at, fail_code, calls;
  struct { long size; int committed, freed; } type[4096];
  struct { MPI_User_function *fn; int commute, freed; } op[4096];
} mpistub_state;
mpistub_state *mpistub(void);
#ifdef __cplusplus
}
#endif
#endif
