#ifndef VERIF_SIM_OPUS_TYPES_H_
#define VERIF_SIM_OPUS_TYPES_H_
#include <stdint.h>
typedef int16_t opus_int16;
typedef uint16_t opus_uint16;
typedef int32_t opus_int32;
typedef uint32_t opus_uint32;
#endif
