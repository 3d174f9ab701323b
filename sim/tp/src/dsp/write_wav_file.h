#ifndef VERIF_SIM_WRITE_WAV_FILE_H_
#define VERIF_SIM_WRITE_WAV_FILE_H_
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
int WriteWavHeader(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader24Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader32Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
#ifdef __cplusplus
}
#endif
#endif
