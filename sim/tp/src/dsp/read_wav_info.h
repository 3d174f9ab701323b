#ifndef VERIF_SIM_READ_WAV_INFO_H_
#define VERIF_SIM_READ_WAV_INFO_H_
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct ReadWavInfo {
  int num_channels;
  int sample_rate_hz;
  size_t remaining_samples;
  int bit_depth;
  int destination_alignment_bytes;
  enum { kPcm16Encoding, kPcm24Encoding, kPcm32Encoding, kMuLawEncoding, kIeeeFloat32Encoding, kIeeeFloat64Encoding } encoding;
  enum { kInt16, kInt32, kFloat } sample_format;
} ReadWavInfo;
#ifdef __cplusplus
}
#endif
#endif
