#ifndef VERIF_SIM_FDK_MACHINE_TYPE_H_
#define VERIF_SIM_FDK_MACHINE_TYPE_H_
typedef signed int INT;
typedef unsigned int UINT;
typedef unsigned char UCHAR;
typedef signed char SCHAR;
typedef short SHORT;
typedef short INT_PCM;
#define IS_LITTLE_ENDIAN
#endif
