/* Data symbols of the MPI implementation, owned by the simulator.  Compiled without mpi.h. */
char ompi_message_no_proc[2048] __attribute__((aligned(64)));
char ompi_message_null[2048] __attribute__((aligned(64)));
char ompi_mpi_2cplex[2048] __attribute__((aligned(64)));
char ompi_mpi_2dblcplex[2048] __attribute__((aligned(64)));
char ompi_mpi_2dblprec[2048] __attribute__((aligned(64)));
char ompi_mpi_2int[2048] __attribute__((aligned(64)));
char ompi_mpi_2integer[2048] __attribute__((aligned(64)));
char ompi_mpi_2real[2048] __attribute__((aligned(64)));
char ompi_mpi_aint[2048] __attribute__((aligned(64)));
char ompi_mpi_byte[2048] __attribute__((aligned(64)));
char ompi_mpi_c_bool[2048] __attribute__((aligned(64)));
char ompi_mpi_c_double_complex[2048] __attribute__((aligned(64)));
char ompi_mpi_c_float_complex[2048] __attribute__((aligned(64)));
char ompi_mpi_c_long_double_complex[2048] __attribute__((aligned(64)));
char ompi_mpi_char[2048] __attribute__((aligned(64)));
char ompi_mpi_character[2048] __attribute__((aligned(64)));
char ompi_mpi_comm_null[2048] __attribute__((aligned(64)));
char ompi_mpi_comm_self[2048] __attribute__((aligned(64)));
char ompi_mpi_comm_world[2048] __attribute__((aligned(64)));
char ompi_mpi_complex16[2048] __attribute__((aligned(64)));
char ompi_mpi_complex32[2048] __attribute__((aligned(64)));
char ompi_mpi_complex8[2048] __attribute__((aligned(64)));
char ompi_mpi_count[2048] __attribute__((aligned(64)));
char ompi_mpi_cplex[2048] __attribute__((aligned(64)));
char ompi_mpi_cxx_bool[2048] __attribute__((aligned(64)));
char ompi_mpi_cxx_cplex[2048] __attribute__((aligned(64)));
char ompi_mpi_cxx_dblcplex[2048] __attribute__((aligned(64)));
char ompi_mpi_cxx_ldblcplex[2048] __attribute__((aligned(64)));
char ompi_mpi_datatype_null[2048] __attribute__((aligned(64)));
char ompi_mpi_dblcplex[2048] __attribute__((aligned(64)));
char ompi_mpi_dblprec[2048] __attribute__((aligned(64)));
char ompi_mpi_double[2048] __attribute__((aligned(64)));
char ompi_mpi_double_int[2048] __attribute__((aligned(64)));
char ompi_mpi_errhandler_null[2048] __attribute__((aligned(64)));
char ompi_mpi_errors_are_fatal[2048] __attribute__((aligned(64)));
char ompi_mpi_errors_return[2048] __attribute__((aligned(64)));
char ompi_mpi_file_null[2048] __attribute__((aligned(64)));
char ompi_mpi_float[2048] __attribute__((aligned(64)));
char ompi_mpi_float_int[2048] __attribute__((aligned(64)));
char ompi_mpi_group_empty[2048] __attribute__((aligned(64)));
char ompi_mpi_group_null[2048] __attribute__((aligned(64)));
char ompi_mpi_info_env[2048] __attribute__((aligned(64)));
char ompi_mpi_info_null[2048] __attribute__((aligned(64)));
char ompi_mpi_int[2048] __attribute__((aligned(64)));
char ompi_mpi_int16_t[2048] __attribute__((aligned(64)));
char ompi_mpi_int32_t[2048] __attribute__((aligned(64)));
char ompi_mpi_int64_t[2048] __attribute__((aligned(64)));
char ompi_mpi_int8_t[2048] __attribute__((aligned(64)));
char ompi_mpi_integer[2048] __attribute__((aligned(64)));
char ompi_mpi_integer1[2048] __attribute__((aligned(64)));
char ompi_mpi_integer16[2048] __attribute__((aligned(64)));
char ompi_mpi_integer2[2048] __attribute__((aligned(64)));
char ompi_mpi_integer4[2048] __attribute__((aligned(64)));
char ompi_mpi_integer8[2048] __attribute__((aligned(64)));
char ompi_mpi_lb[2048] __attribute__((aligned(64)));
char ompi_mpi_ldblcplex[2048] __attribute__((aligned(64)));
char ompi_mpi_logical[2048] __attribute__((aligned(64)));
char ompi_mpi_logical1[2048] __attribute__((aligned(64)));
char ompi_mpi_logical2[2048] __attribute__((aligned(64)));
char ompi_mpi_logical4[2048] __attribute__((aligned(64)));
char ompi_mpi_logical8[2048] __attribute__((aligned(64)));
char ompi_mpi_long[2048] __attribute__((aligned(64)));
char ompi_mpi_long_double[2048] __attribute__((aligned(64)));
char ompi_mpi_long_int[2048] __attribute__((aligned(64)));
char ompi_mpi_long_long_int[2048] __attribute__((aligned(64)));
char ompi_mpi_longdbl_int[2048] __attribute__((aligned(64)));
char ompi_mpi_offset[2048] __attribute__((aligned(64)));
char ompi_mpi_op_band[2048] __attribute__((aligned(64)));
char ompi_mpi_op_bor[2048] __attribute__((aligned(64)));
char ompi_mpi_op_bxor[2048] __attribute__((aligned(64)));
char ompi_mpi_op_land[2048] __attribute__((aligned(64)));
char ompi_mpi_op_lor[2048] __attribute__((aligned(64)));
char ompi_mpi_op_lxor[2048] __attribute__((aligned(64)));
char ompi_mpi_op_max[2048] __attribute__((aligned(64)));
char ompi_mpi_op_maxloc[2048] __attribute__((aligned(64)));
char ompi_mpi_op_min[2048] __attribute__((aligned(64)));
char ompi_mpi_op_minloc[2048] __attribute__((aligned(64)));
char ompi_mpi_op_no_op[2048] __attribute__((aligned(64)));
char ompi_mpi_op_null[2048] __attribute__((aligned(64)));
char ompi_mpi_op_prod[2048] __attribute__((aligned(64)));
char ompi_mpi_op_replace[2048] __attribute__((aligned(64)));
char ompi_mpi_op_sum[2048] __attribute__((aligned(64)));
char ompi_mpi_packed[2048] __attribute__((aligned(64)));
char ompi_mpi_real[2048] __attribute__((aligned(64)));
char ompi_mpi_real16[2048] __attribute__((aligned(64)));
char ompi_mpi_real2[2048] __attribute__((aligned(64)));
char ompi_mpi_real4[2048] __attribute__((aligned(64)));
char ompi_mpi_real8[2048] __attribute__((aligned(64)));
char ompi_mpi_short[2048] __attribute__((aligned(64)));
char ompi_mpi_short_int[2048] __attribute__((aligned(64)));
char ompi_mpi_signed_char[2048] __attribute__((aligned(64)));
char ompi_mpi_ub[2048] __attribute__((aligned(64)));
char ompi_mpi_uint16_t[2048] __attribute__((aligned(64)));
char ompi_mpi_uint32_t[2048] __attribute__((aligned(64)));
char ompi_mpi_uint64_t[2048] __attribute__((aligned(64)));
char ompi_mpi_uint8_t[2048] __attribute__((aligned(64)));
char ompi_mpi_unsigned[2048] __attribute__((aligned(64)));
char ompi_mpi_unsigned_char[2048] __attribute__((aligned(64)));
char ompi_mpi_unsigned_long[2048] __attribute__((aligned(64)));
char ompi_mpi_unsigned_long_long[2048] __attribute__((aligned(64)));
char ompi_mpi_unsigned_short[2048] __attribute__((aligned(64)));
char ompi_mpi_wchar[2048] __attribute__((aligned(64)));
char ompi_mpi_win_null[2048] __attribute__((aligned(64)));
char ompi_request_null[2048] __attribute__((aligned(64)));
