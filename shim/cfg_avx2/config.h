/* configuration variant avx2 (see DESIGN.md) */
#define PACKAGE_VERSION "0.7.5"
#define VERSION "0.7.5"
#define HAVE_FLOOR 1
#define HAVE_POW 1
#define HAVE_SQRT 1
#define HAVE_GETDELIM 1
#define HAVE_STRCHR 1
#define HAVE_STRSTR 1
#define HAVE_STRTOL 1
#define HAVE_MEMSET 1
#define HAVE_MEMMOVE 1
#define NUMBER_OF_CPUS 8
#define HAVE_AVX2 1
