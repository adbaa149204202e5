/* Common part of the analysis configurations (what configure finds on this platform). */
#ifndef OSHMPICONF_COMMON_H
#define OSHMPICONF_COMMON_H
#define HAVE_GCC_ATTRIBUTE 1
#define HAVE_MPI_IALLGATHER 1
#define HAVE_MPI_IALLGATHERV 1
#define HAVE_MPI_IALLREDUCE 1
#define HAVE_MPI_IALLTOALL 1
#define HAVE_MPI_IBARRIER 1
#define HAVE_MPI_IBCAST 1
#define HAVE_MULTIPLE_PRAGMA_WEAK 1
#define HAVE_PRAGMA_WEAK 1
#define HAVE_WEAK_ATTRIBUTE 1
#define HAVE_ATEXIT 1
#define HAVE_STRTOF 1
#define HAVE_SYS_MMAN_H 1
#define HAVE_UNISTD_H 1
#define HAVE_RANDOM_R 1
#define HAVE_STRUCT_RANDOM_DATA 1
#define HAVE_STDINT_H 1
#define HAVE_INTTYPES_H 1
#define OSHMPI_MPI_PTRDIFF_T MPI_INT64_T
#define OSHMPI_MPI_SIZE_T MPI_UINT64_T
#define SIZEOF_INT16_T 2
#define SIZEOF_INT32_T 4
#define SIZEOF_INT64_T 8
#define SIZEOF_INT8_T 1
#define SIZEOF_PTRDIFF_T 8
#define SIZEOF_SIZE_T 8
#define SIZEOF_UINT16_T 2
#define SIZEOF_UINT32_T 4
#define SIZEOF_UINT64_T 8
#define SIZEOF_UINT8_T 1
#define HAVE_ATOL 1
#define HAVE_DLFCN_H 1
#define HAVE_FCNTL_H 1
#define HAVE_MATH_H 1
#define HAVE_MEMCPY 1
#define HAVE_MEMSET 1
#define HAVE_MPI_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_WCHAR_H 1
#define USE_LINUX 1
#define PACKAGE "oshmpi"
#define PACKAGE_VERSION "0"
#define VERSION "0"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#endif
