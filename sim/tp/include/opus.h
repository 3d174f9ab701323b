#ifndef VERIF_SIM_OPUS_H_
#define VERIF_SIM_OPUS_H_
#include "opus_defines.h"
#include "opus_types.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct OpusEncoder OpusEncoder;
typedef struct OpusDecoder OpusDecoder;
OpusEncoder* opus_encoder_create(opus_int32 fs, int channels, int application, int* error);
void opus_encoder_destroy(OpusEncoder* st);
int opus_encoder_ctl(OpusEncoder* st, int request, ...);
opus_int32 opus_encode(OpusEncoder* st, const opus_int16* pcm, int frame_size, unsigned char* data, opus_int32 max_data_bytes);
opus_int32 opus_encode_float(OpusEncoder* st, const float* pcm, int frame_size, unsigned char* data, opus_int32 max_data_bytes);
OpusDecoder* opus_decoder_create(opus_int32 fs, int channels, int* error);
void opus_decoder_destroy(OpusDecoder* st);
int opus_decode_float(OpusDecoder* st, const unsigned char* data, opus_int32 len, float* pcm, int frame_size, int decode_fec);
#ifdef __cplusplus
}
#endif
#endif
