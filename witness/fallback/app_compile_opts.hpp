#define MARA_COMPILE_SUBPROGRAM_BOILERPLATE 1
#define MARA_COMPILE_SUBPROGRAM_PARTDOM     1
#define MARA_COMPILE_SUBPROGRAM_CLOUD       1
#define MARA_COMPILE_SUBPROGRAM_SEDOV       1
#define MARA_COMPILE_SUBPROGRAM_BINARY      1
#define MARA_COMPILE_SUBPROGRAM_AMRSAND     1
#define MARA_COMPILE_SUBPROGRAM_TEST        1
#define MARA_PREFERRED_THREAD_COUNT         12
