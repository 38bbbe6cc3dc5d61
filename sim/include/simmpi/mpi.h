/* Simulated MPI: every rank is a fiber of one process (see sim/kernel.hpp). The subset of MPI that
   DLA-Future uses plus what a reasonable rewrite of it could use. Errors in the use of MPI (mismatched
   collectives, wrong types, modified buffers, leaks, ...) end the case as a violation. */
#ifndef SIMMPI_MPI_H
#define SIMMPI_MPI_H
#include <stddef.h>
#include <stdint.h>

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define SIMMPI 1

typedef struct simmpi_comm_s* MPI_Comm;
typedef struct simmpi_type_s* MPI_Datatype;
typedef struct simmpi_request_s* MPI_Request;
typedef struct simmpi_op_s* MPI_Op;
typedef struct simmpi_group_s* MPI_Group;
typedef struct simmpi_errhandler_s* MPI_Errhandler;
typedef struct simmpi_info_s* MPI_Info;
typedef struct simmpi_message_s* MPI_Message;
typedef intptr_t MPI_Aint;
typedef int64_t MPI_Count;
typedef int64_t MPI_Offset;
typedef int MPI_Fint;
typedef struct {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  int64_t simmpi_bytes;
  int simmpi_cancelled;
} MPI_Status;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef void(MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
typedef int(MPI_Comm_copy_attr_function)(MPI_Comm, int, void*, void*, void*, int*);
typedef int(MPI_Comm_delete_attr_function)(MPI_Comm, int, void*, void*);

#ifdef __cplusplus
extern "C" {
#endif

extern struct simmpi_comm_s simmpi_comm_world, simmpi_comm_self;
#define MPI_COMM_WORLD (&simmpi_comm_world)
#define MPI_COMM_SELF (&simmpi_comm_self)
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_OP_NULL ((MPI_Op) 0)
#define MPI_GROUP_NULL ((MPI_Group) 0)
#define MPI_INFO_NULL ((MPI_Info) 0)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler) 0)
#define MPI_MESSAGE_NULL ((MPI_Message) 0)
extern struct simmpi_errhandler_s simmpi_errors_fatal, simmpi_errors_return;
#define MPI_ERRORS_ARE_FATAL (&simmpi_errors_fatal)
#define MPI_ERRORS_RETURN (&simmpi_errors_return)
extern struct simmpi_group_s simmpi_group_empty;
#define MPI_GROUP_EMPTY (&simmpi_group_empty)

#define SIMMPI_TYPES(X)                                                                              \
  X(CHAR, char) X(SIGNED_CHAR, signed char) X(UNSIGNED_CHAR, unsigned char) X(BYTE, unsigned char)     \
  X(SHORT, short) X(UNSIGNED_SHORT, unsigned short) X(INT, int) X(UNSIGNED, unsigned) X(LONG, long)    \
  X(UNSIGNED_LONG, unsigned long) X(LONG_LONG, long long) X(UNSIGNED_LONG_LONG, unsigned long long)    \
  X(FLOAT, float) X(DOUBLE, double) X(LONG_DOUBLE, long double) X(CXX_BOOL, bool) X(C_BOOL, bool)      \
  X(CXX_FLOAT_COMPLEX, cfloat) X(CXX_DOUBLE_COMPLEX, cdouble) X(C_FLOAT_COMPLEX, cfloat)               \
  X(C_DOUBLE_COMPLEX, cdouble) X(INT8_T, int8_t) X(INT16_T, int16_t) X(INT32_T, int32_t)               \
  X(INT64_T, int64_t) X(UINT8_T, uint8_t) X(UINT16_T, uint16_t) X(UINT32_T, uint32_t)                  \
  X(UINT64_T, uint64_t) X(AINT, MPI_Aint) X(COUNT, MPI_Count) X(WCHAR, wchar_t) X(PACKED, unsigned char)

#define SIMMPI_DECL(N, T) extern struct simmpi_type_s simmpi_t_##N;
extern struct simmpi_type_s simmpi_t_CHAR, simmpi_t_SIGNED_CHAR, simmpi_t_UNSIGNED_CHAR, simmpi_t_BYTE,
    simmpi_t_SHORT, simmpi_t_UNSIGNED_SHORT, simmpi_t_INT, simmpi_t_UNSIGNED, simmpi_t_LONG,
    simmpi_t_UNSIGNED_LONG, simmpi_t_LONG_LONG, simmpi_t_UNSIGNED_LONG_LONG, simmpi_t_FLOAT, simmpi_t_DOUBLE,
    simmpi_t_LONG_DOUBLE, simmpi_t_CXX_BOOL, simmpi_t_C_BOOL, simmpi_t_CXX_FLOAT_COMPLEX,
    simmpi_t_CXX_DOUBLE_COMPLEX, simmpi_t_C_FLOAT_COMPLEX, simmpi_t_C_DOUBLE_COMPLEX, simmpi_t_INT8_T,
    simmpi_t_INT16_T, simmpi_t_INT32_T, simmpi_t_INT64_T, simmpi_t_UINT8_T, simmpi_t_UINT16_T,
    simmpi_t_UINT32_T, simmpi_t_UINT64_T, simmpi_t_AINT, simmpi_t_COUNT, simmpi_t_WCHAR, simmpi_t_PACKED;
#define MPI_CHAR (&simmpi_t_CHAR)
#define MPI_SIGNED_CHAR (&simmpi_t_SIGNED_CHAR)
#define MPI_UNSIGNED_CHAR (&simmpi_t_UNSIGNED_CHAR)
#define MPI_BYTE (&simmpi_t_BYTE)
#define MPI_SHORT (&simmpi_t_SHORT)
#define MPI_UNSIGNED_SHORT (&simmpi_t_UNSIGNED_SHORT)
#define MPI_INT (&simmpi_t_INT)
#define MPI_UNSIGNED (&simmpi_t_UNSIGNED)
#define MPI_LONG (&simmpi_t_LONG)
#define MPI_UNSIGNED_LONG (&simmpi_t_UNSIGNED_LONG)
#define MPI_LONG_LONG (&simmpi_t_LONG_LONG)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG (&simmpi_t_UNSIGNED_LONG_LONG)
#define MPI_FLOAT (&simmpi_t_FLOAT)
#define MPI_DOUBLE (&simmpi_t_DOUBLE)
#define MPI_LONG_DOUBLE (&simmpi_t_LONG_DOUBLE)
#define MPI_CXX_BOOL (&simmpi_t_CXX_BOOL)
#define MPI_C_BOOL (&simmpi_t_C_BOOL)
#define MPI_CXX_FLOAT_COMPLEX (&simmpi_t_CXX_FLOAT_COMPLEX)
#define MPI_CXX_DOUBLE_COMPLEX (&simmpi_t_CXX_DOUBLE_COMPLEX)
#define MPI_C_FLOAT_COMPLEX (&simmpi_t_C_FLOAT_COMPLEX)
#define MPI_C_COMPLEX (&simmpi_t_C_FLOAT_COMPLEX)
#define MPI_C_DOUBLE_COMPLEX (&simmpi_t_C_DOUBLE_COMPLEX)
#define MPI_INT8_T (&simmpi_t_INT8_T)
#define MPI_INT16_T (&simmpi_t_INT16_T)
#define MPI_INT32_T (&simmpi_t_INT32_T)
#define MPI_INT64_T (&simmpi_t_INT64_T)
#define MPI_UINT8_T (&simmpi_t_UINT8_T)
#define MPI_UINT16_T (&simmpi_t_UINT16_T)
#define MPI_UINT32_T (&simmpi_t_UINT32_T)
#define MPI_UINT64_T (&simmpi_t_UINT64_T)
#define MPI_AINT (&simmpi_t_AINT)
#define MPI_COUNT (&simmpi_t_COUNT)
#define MPI_WCHAR (&simmpi_t_WCHAR)
#define MPI_PACKED (&simmpi_t_PACKED)

extern struct simmpi_op_s simmpi_op_sum, simmpi_op_prod, simmpi_op_max, simmpi_op_min, simmpi_op_land,
    simmpi_op_lor, simmpi_op_lxor, simmpi_op_band, simmpi_op_bor, simmpi_op_bxor, simmpi_op_replace;
#define MPI_SUM (&simmpi_op_sum)
#define MPI_PROD (&simmpi_op_prod)
#define MPI_MAX (&simmpi_op_max)
#define MPI_MIN (&simmpi_op_min)
#define MPI_LAND (&simmpi_op_land)
#define MPI_LOR (&simmpi_op_lor)
#define MPI_LXOR (&simmpi_op_lxor)
#define MPI_BAND (&simmpi_op_band)
#define MPI_BOR (&simmpi_op_bor)
#define MPI_BXOR (&simmpi_op_bxor)
#define MPI_REPLACE (&simmpi_op_replace)

#define MPI_IN_PLACE ((void*) 1)
#define MPI_BOTTOM ((void*) 0)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_ERRCODES_IGNORE ((int*) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_TAG_UB 0
#define MPI_KEYVAL_INVALID (-1)
#define MPI_COMM_TYPE_SHARED 0
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
enum { MPI_IDENT, MPI_CONGRUENT, MPI_SIMILAR, MPI_UNEQUAL };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum {
  MPI_SUCCESS = 0, MPI_ERR_BUFFER, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM, MPI_ERR_RANK,
  MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_GROUP, MPI_ERR_OP, MPI_ERR_ARG, MPI_ERR_TRUNCATE, MPI_ERR_OTHER,
  MPI_ERR_INTERN, MPI_ERR_IN_STATUS, MPI_ERR_PENDING, MPI_ERR_UNKNOWN, MPI_ERR_LASTCODE = 92
};

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Query_thread(int*);
int MPI_Is_thread_main(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Error_string(int, char*, int*);
int MPI_Error_class(int, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Get_library_version(char*, int*);
int MPI_Get_version(int*, int*);
double MPI_Wtime(void);
double MPI_Wtick(void);

int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Comm_set_name(MPI_Comm, const char*);
int MPI_Comm_get_name(MPI_Comm, char*, int*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Comm_test_inter(MPI_Comm, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Group_compare(MPI_Group, MPI_Group, int*);
int MPI_Group_free(MPI_Group*);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
MPI_Comm MPI_Comm_f2c(MPI_Fint);

int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hindexed(int, const int*, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Get_address(const void*, MPI_Aint*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm,
                 MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);

int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Igather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_local(const void*, void*, int, MPI_Datatype, MPI_Op);
int MPI_Dims_create(int, int, int*);

#ifdef __cplusplus
}
#endif
#endif
