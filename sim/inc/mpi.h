/* Simulated MPI: the interface the OSHMPI sources are compiled against. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Datatype; typedef int MPI_Op;
typedef int MPI_Request; typedef int MPI_Win; typedef int MPI_Info; typedef int MPI_Errhandler;
typedef int MPI_Message; typedef int MPI_File;
typedef long MPI_Aint; typedef long long MPI_Count; typedef long long MPI_Offset; typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int cancelled; long count; } MPI_Status;
typedef struct simmpi_cvar *MPI_T_cvar_handle;
typedef void (MPI_User_function)(void*,void*,int*,MPI_Datatype*);
typedef void (MPI_Comm_errhandler_function)(MPI_Comm*,int*,...);
typedef int (MPI_Comm_copy_attr_function)(MPI_Comm,int,void*,void*,void*,int*);
typedef int (MPI_Comm_delete_attr_function)(MPI_Comm,int,void*,void*);
#define MPI_COMM_NULL ((MPI_Comm)0x04000000)
#define MPI_COMM_WORLD ((MPI_Comm)0x44000000)
#define MPI_COMM_SELF ((MPI_Comm)0x44000001)
#define MPI_GROUP_NULL ((MPI_Group)0x08000000)
#define MPI_GROUP_EMPTY ((MPI_Group)0x48000000)
#define MPI_WIN_NULL ((MPI_Win)0x20000000)
#define MPI_INFO_NULL ((MPI_Info)0x1c000000)
#define MPI_INFO_ENV ((MPI_Info)0x5c000001)
#define MPI_REQUEST_NULL ((MPI_Request)0x2c000000)
#define MPI_OP_NULL ((MPI_Op)0x18000000)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0x0c000000)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)0x14000000)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)0x54000000)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)0x54000001)
#define MPI_MESSAGE_NULL ((MPI_Message)0x2c000000)
/* predefined types: 0x4c000000 | size<<8 | id */
#define MPI_BYTE               0x4c000101
#define MPI_CHAR               0x4c000102
#define MPI_SIGNED_CHAR        0x4c000103
#define MPI_UNSIGNED_CHAR      0x4c000104
#define MPI_SHORT              0x4c000205
#define MPI_UNSIGNED_SHORT     0x4c000206
#define MPI_INT                0x4c000407
#define MPI_UNSIGNED           0x4c000408
#define MPI_LONG               0x4c000809
#define MPI_UNSIGNED_LONG      0x4c00080a
#define MPI_LONG_LONG_INT      0x4c00080b
#define MPI_LONG_LONG          MPI_LONG_LONG_INT
#define MPI_UNSIGNED_LONG_LONG 0x4c00080c
#define MPI_FLOAT              0x4c00040d
#define MPI_DOUBLE             0x4c00080e
#define MPI_LONG_DOUBLE        0x4c00100f
#define MPI_INT8_T             0x4c000110
#define MPI_INT16_T            0x4c000211
#define MPI_INT32_T            0x4c000412
#define MPI_INT64_T            0x4c000813
#define MPI_UINT8_T            0x4c000114
#define MPI_UINT16_T           0x4c000215
#define MPI_UINT32_T           0x4c000416
#define MPI_UINT64_T           0x4c000817
#define MPI_C_FLOAT_COMPLEX    0x4c000818
#define MPI_C_COMPLEX          MPI_C_FLOAT_COMPLEX
#define MPI_C_DOUBLE_COMPLEX   0x4c001019
#define MPI_C_LONG_DOUBLE_COMPLEX 0x4c00201a
#define MPI_C_BOOL             0x4c00011b
#define MPI_AINT               0x4c00081c
#define MPI_OFFSET             0x4c00081d
#define MPI_COUNT              0x4c00081e
#define MPI_PACKED             0x4c00011f
#define MPI_WCHAR              0x4c000420
#define MPI_MAX   0x58000001
#define MPI_MIN   0x58000002
#define MPI_SUM   0x58000003
#define MPI_PROD  0x58000004
#define MPI_LAND  0x58000005
#define MPI_BAND  0x58000006
#define MPI_LOR   0x58000007
#define MPI_BOR   0x58000008
#define MPI_LXOR  0x58000009
#define MPI_BXOR  0x5800000a
#define MPI_MINLOC 0x5800000b
#define MPI_MAXLOC 0x5800000c
#define MPI_REPLACE 0x5800000d
#define MPI_NO_OP 0x5800000e
enum { MPI_SUCCESS=0, MPI_ERR_BUFFER=1, MPI_ERR_COUNT=2, MPI_ERR_TYPE=3, MPI_ERR_TAG=4, MPI_ERR_COMM=5,
  MPI_ERR_RANK=6, MPI_ERR_ROOT=7, MPI_ERR_GROUP=8, MPI_ERR_OP=9, MPI_ERR_TOPOLOGY=10, MPI_ERR_DIMS=11,
  MPI_ERR_ARG=12, MPI_ERR_UNKNOWN=13, MPI_ERR_TRUNCATE=14, MPI_ERR_OTHER=15, MPI_ERR_INTERN=16,
  MPI_ERR_IN_STATUS=17, MPI_ERR_PENDING=18, MPI_ERR_REQUEST=19, MPI_ERR_NO_MEM=34, MPI_ERR_WIN=45,
  MPI_ERR_RMA_RANGE=55, MPI_ERR_RMA_SYNC=50, MPI_ERR_LASTCODE=0x3fffffff,
  MPI_T_ERR_INVALID_NAME=72, MPI_T_ERR_INVALID_INDEX=61 };
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-1)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1L)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)1)
#define MPI_STATUSES_IGNORE ((MPI_Status*)1)
#define MPI_ERRCODES_IGNORE ((int*)0)
#define MPI_MAX_INFO_VAL 1024
#define MPI_MAX_INFO_KEY 255
#define MPI_MAX_ERROR_STRING 512
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_OBJECT_NAME 128
#define MPI_MAX_LIBRARY_VERSION_STRING 512
#define MPI_KEYVAL_INVALID 0x24000000
enum { MPI_THREAD_SINGLE=0, MPI_THREAD_FUNNELED=1, MPI_THREAD_SERIALIZED=2, MPI_THREAD_MULTIPLE=3 };
enum { MPI_IDENT=0, MPI_CONGRUENT=1, MPI_SIMILAR=2, MPI_UNEQUAL=3 };
#define MPI_COMM_TYPE_SHARED 1
#define MPI_LOCK_EXCLUSIVE 234
#define MPI_LOCK_SHARED 235
#define MPI_MODE_NOCHECK 1024
#define MPI_MODE_NOSTORE 2048
#define MPI_MODE_NOPUT 4096
#define MPI_MODE_NOPRECEDE 8192
#define MPI_MODE_NOSUCCEED 16384
#define MPI_TAG_UB 0x64400001
#define MPI_HOST 0x64400003
#define MPI_IO 0x64400005
#define MPI_WTIME_IS_GLOBAL 0x64400007
#define MPI_UNIVERSE_SIZE 0x64400009
#define MPI_WIN_BASE 0x66000001
#define MPI_WIN_SIZE 0x66000003
#define MPI_WIN_DISP_UNIT 0x66000005
#define MPI_WIN_CREATE_FLAVOR 0x66000007
#define MPI_WIN_MODEL 0x66000009
enum { MPI_WIN_FLAVOR_CREATE=1, MPI_WIN_FLAVOR_ALLOCATE=2, MPI_WIN_FLAVOR_DYNAMIC=3, MPI_WIN_FLAVOR_SHARED=4 };
enum { MPI_WIN_SEPARATE=1, MPI_WIN_UNIFIED=2 };
enum { MPI_COMBINER_NAMED=1 };
enum { MPI_ORDER_C=56, MPI_ORDER_FORTRAN=57 };

int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Initialized(int*);
int MPI_Finalized(int*); int MPI_Finalize(void); int MPI_Query_thread(int*); int MPI_Is_thread_main(int*);
int MPI_Abort(MPI_Comm,int); double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Get_processor_name(char*,int*); int MPI_Get_version(int*,int*); int MPI_Get_library_version(char*,int*);
int MPI_Error_string(int,char*,int*); int MPI_Error_class(int,int*);
int MPI_T_init_thread(int,int*); int MPI_T_finalize(void); int MPI_T_cvar_get_index(const char*,int*);
int MPI_T_cvar_handle_alloc(int,void*,MPI_T_cvar_handle*,int*); int MPI_T_cvar_handle_free(MPI_T_cvar_handle*);
int MPI_T_cvar_write(MPI_T_cvar_handle,const void*); int MPI_T_cvar_read(MPI_T_cvar_handle,void*); int MPI_T_cvar_get_num(int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_dup_with_info(MPI_Comm,MPI_Info,MPI_Comm*); int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm,MPI_Group,int,MPI_Comm*); int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm,int,int,MPI_Info,MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_group(MPI_Comm,MPI_Group*);
int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*); int MPI_Comm_get_attr(MPI_Comm,int,void*,int*);
int MPI_Comm_set_attr(MPI_Comm,int,void*); int MPI_Comm_delete_attr(MPI_Comm,int);
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*,MPI_Comm_delete_attr_function*,int*,void*); int MPI_Comm_free_keyval(int*);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler); int MPI_Comm_get_errhandler(MPI_Comm,MPI_Errhandler*);
int MPI_Comm_set_name(MPI_Comm,const char*); int MPI_Comm_get_name(MPI_Comm,char*,int*);
int MPI_Comm_set_info(MPI_Comm,MPI_Info); int MPI_Comm_get_info(MPI_Comm,MPI_Info*); int MPI_Comm_test_inter(MPI_Comm,int*);
int MPI_Win_set_errhandler(MPI_Win,MPI_Errhandler); int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Group_size(MPI_Group,int*); int MPI_Group_rank(MPI_Group,int*); int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*);
int MPI_Group_excl(MPI_Group,int,const int*,MPI_Group*); int MPI_Group_range_incl(MPI_Group,int,int[][3],MPI_Group*); int MPI_Group_range_excl(MPI_Group,int,int[][3],MPI_Group*);
int MPI_Group_free(MPI_Group*); int MPI_Group_translate_ranks(MPI_Group,int,const int*,MPI_Group,int*);
int MPI_Group_compare(MPI_Group,MPI_Group,int*); int MPI_Group_union(MPI_Group,MPI_Group,MPI_Group*);
int MPI_Group_intersection(MPI_Group,MPI_Group,MPI_Group*); int MPI_Group_difference(MPI_Group,MPI_Group,MPI_Group*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Send_init(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Recv_init(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Start(MPI_Request*); int MPI_Startall(int,MPI_Request*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Improbe(int,int,MPI_Comm,int*,MPI_Message*,MPI_Status*); int MPI_Mprobe(int,int,MPI_Comm,MPI_Message*,MPI_Status*);
int MPI_Mrecv(void*,int,MPI_Datatype,MPI_Message*,MPI_Status*); int MPI_Imrecv(void*,int,MPI_Datatype,MPI_Message*,MPI_Request*);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*); int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Testsome(int,MPI_Request*,int*,int*,MPI_Status*); int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*); int MPI_Test_cancelled(const MPI_Status*,int*);
int MPI_Request_get_status(MPI_Request,int*,MPI_Status*); int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*); int MPI_Get_elements(const MPI_Status*,MPI_Datatype,int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Scatterv(const void*,const int*,const int*,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Alltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Reduce_scatter_block(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Reduce_local(const void*,void*,int,MPI_Datatype,MPI_Op);
int MPI_Ibarrier(MPI_Comm,MPI_Request*); int MPI_Ibcast(void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
int MPI_Iallgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm,MPI_Request*);
int MPI_Iallgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm,MPI_Request*);
int MPI_Igather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
int MPI_Iscatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
int MPI_Ialltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm,MPI_Request*);
int MPI_Ialltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm,MPI_Request*);
int MPI_Iallreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm,MPI_Request*);
int MPI_Ireduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm,MPI_Request*);
int MPI_Win_create(void*,MPI_Aint,int,MPI_Info,MPI_Comm,MPI_Win*); int MPI_Win_create_dynamic(MPI_Info,MPI_Comm,MPI_Win*);
int MPI_Win_allocate(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*); int MPI_Win_attach(MPI_Win,void*,MPI_Aint); int MPI_Win_detach(MPI_Win,const void*);
int MPI_Win_free(MPI_Win*); int MPI_Win_lock_all(int,MPI_Win); int MPI_Win_unlock_all(MPI_Win); int MPI_Win_lock(int,int,int,MPI_Win); int MPI_Win_unlock(int,MPI_Win);
int MPI_Win_flush(int,MPI_Win); int MPI_Win_flush_all(MPI_Win); int MPI_Win_flush_local(int,MPI_Win); int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_sync(MPI_Win); int MPI_Win_fence(int,MPI_Win);
int MPI_Win_get_group(MPI_Win,MPI_Group*); int MPI_Win_get_attr(MPI_Win,int,void*,int*); int MPI_Win_set_info(MPI_Win,MPI_Info); int MPI_Win_get_info(MPI_Win,MPI_Info*); int MPI_Win_set_name(MPI_Win,const char*);
int MPI_Put(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win); int MPI_Get(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win);
int MPI_Rput(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*); int MPI_Rget(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*);
int MPI_Accumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Get_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Raccumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
int MPI_Fetch_and_op(const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Op,MPI_Win); int MPI_Compare_and_swap(const void*,const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Win);
int MPI_Type_vector(int,int,int,MPI_Datatype,MPI_Datatype*); int MPI_Type_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*);
int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_resized(MPI_Datatype,MPI_Aint,MPI_Aint,MPI_Datatype*); int MPI_Type_dup(MPI_Datatype,MPI_Datatype*);
int MPI_Type_indexed(int,const int*,const int*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_indexed_block(int,int,const int*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed(int,const int*,const MPI_Aint*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_struct(int,const int*,const MPI_Aint*,const MPI_Datatype*,MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Type_size(MPI_Datatype,int*); int MPI_Type_size_x(MPI_Datatype,MPI_Count*); int MPI_Type_get_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*); int MPI_Type_get_true_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*);
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info,const char*,const char*); int MPI_Info_get(MPI_Info,const char*,int,char*,int*); int MPI_Info_free(MPI_Info*); int MPI_Info_dup(MPI_Info,MPI_Info*); int MPI_Info_delete(MPI_Info,const char*); int MPI_Info_get_nkeys(MPI_Info,int*); int MPI_Info_get_valuelen(MPI_Info,const char*,int*,int*);
int MPI_Get_address(const void*,MPI_Aint*); MPI_Aint MPI_Aint_add(MPI_Aint,MPI_Aint); MPI_Aint MPI_Aint_diff(MPI_Aint,MPI_Aint);
int MPI_Alloc_mem(MPI_Aint,MPI_Info,void*); int MPI_Free_mem(void*); int MPI_Op_create(MPI_User_function*,int,MPI_Op*); int MPI_Op_free(MPI_Op*); int MPI_Op_commutative(MPI_Op,int*);
int MPI_Pack(const void*,int,MPI_Datatype,void*,int,int*,MPI_Comm); int MPI_Unpack(const void*,int,int*,void*,int,MPI_Datatype,MPI_Comm); int MPI_Pack_size(int,MPI_Datatype,MPI_Comm,int*);
#ifdef __cplusplus
}
#endif
#endif
