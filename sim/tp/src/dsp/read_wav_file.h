#ifndef VERIF_SIM_READ_WAV_FILE_H_
#define VERIF_SIM_READ_WAV_FILE_H_
#include <stdint.h>
#include <stdio.h>
#include "src/dsp/read_wav_info.h"
#ifdef __cplusplus
extern "C" {
#endif
int ReadWavHeader(FILE* f, ReadWavInfo* info);
size_t ReadWavSamples(FILE* f, ReadWavInfo* info, void* samples, size_t num_samples);
#ifdef __cplusplus
}
#endif
#endif
