#include "mpi.h"
#include <stdio.h>
#include <string.h>
static mpistub_state st;
mpistub_state *mpistub(void) { return &st; }
static int fails(void) { st.calls++; return st.fail_at && st.calls == st.fail_at; }
static long size_of(MPI_Datatype t) {
  switch (t) {
    case MPI_DOUBLE: return 8; case MPI_FLOAT: return 4; case MPI_DOUBLE_COMPLEX: return 16; case MPI_COMPLEX: return 8;
    case MPI_BYTE: case MPI_CHAR: return 1;
  }
  if (t >= 5000 && t < 5000 + st.types) return st.type[t - 5000].size;
  return -1;
}
int MPI_Type_contiguous(int count, MPI_Datatype base, MPI_Datatype *out) {
  if (fails()) return st.fail_code;
  if (count < 0) return MPI_ERR_COUNT;
  if (size_of(base) < 0) return MPI_ERR_TYPE;
  if (st.types == 4096) return MPI_ERR_INTERN;
  st.type[st.types].size = count * size_of(base); st.type[st.types].committed = 0;
  *out = 5000 + st.types++;
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *t) {
  if (fails()) return st.fail_code;
  if (*t < 5000 || *t >= 5000 + st.types) return MPI_ERR_TYPE;
  st.type[*t - 5000].committed = 1;
  return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype *t) { if (*t < 5000 || *t >= 5000 + st.types) return MPI_ERR_TYPE; st.type[*t - 5000].freed = 1; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int *size) { long s = size_of(t); if (s < 0) return MPI_ERR_TYPE; *size = (int)s; return MPI_SUCCESS; }
int MPI_Op_create(MPI_User_function *fn, int commute, MPI_Op *op) {
  if (fails()) return st.fail_code;
  if (st.ops == 4096) return MPI_ERR_INTERN;
  st.op[st.ops].fn = fn; st.op[st.ops].commute = commute; *op = 20000 + st.ops++;
  return MPI_SUCCESS;
}
int MPI_Op_free(MPI_Op *op) { if (*op < 20000 || *op >= 20000 + st.ops) return MPI_ERR_OP; st.op[*op - 20000].freed = 1; *op = MPI_OP_NULL; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm comm, int code) { st.aborts++; st.abort_code = code; st.abort_comm = comm; return MPI_SUCCESS; }
int MPI_Error_string(int code, char *s, int *len) { *len = sprintf(s, "error %d", code); return MPI_SUCCESS; }
