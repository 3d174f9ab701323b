#ifndef VERIF_SIM_FLAC_STREAM_ENCODER_H_
#define VERIF_SIM_FLAC_STREAM_ENCODER_H_
#include <stddef.h>
#include "format.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
  FLAC__STREAM_ENCODER_INIT_STATUS_OK = 0,
  FLAC__STREAM_ENCODER_INIT_STATUS_ENCODER_ERROR,
  FLAC__STREAM_ENCODER_INIT_STATUS_UNSUPPORTED_CONTAINER,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_CALLBACKS,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_NUMBER_OF_CHANNELS,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_BITS_PER_SAMPLE,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_SAMPLE_RATE,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_BLOCK_SIZE,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_MAX_LPC_ORDER,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_QLP_COEFF_PRECISION,
  FLAC__STREAM_ENCODER_INIT_STATUS_BLOCK_SIZE_TOO_SMALL_FOR_LPC_ORDER,
  FLAC__STREAM_ENCODER_INIT_STATUS_NOT_STREAMABLE,
  FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_METADATA,
  FLAC__STREAM_ENCODER_INIT_STATUS_ALREADY_INITIALIZED
} FLAC__StreamEncoderInitStatus;
extern const char* const FLAC__StreamEncoderInitStatusString[];
typedef enum {
  FLAC__STREAM_ENCODER_WRITE_STATUS_OK = 0,
  FLAC__STREAM_ENCODER_WRITE_STATUS_FATAL_ERROR
} FLAC__StreamEncoderWriteStatus;
typedef enum { FLAC__STREAM_ENCODER_SEEK_STATUS_OK = 0 } FLAC__StreamEncoderSeekStatus;
typedef enum { FLAC__STREAM_ENCODER_TELL_STATUS_OK = 0 } FLAC__StreamEncoderTellStatus;
typedef struct FLAC__StreamEncoder FLAC__StreamEncoder;
typedef FLAC__StreamEncoderWriteStatus (*FLAC__StreamEncoderWriteCallback)(const FLAC__StreamEncoder*, const FLAC__byte buffer[], size_t bytes, uint32_t samples, uint32_t current_frame, void* client_data);
typedef FLAC__StreamEncoderSeekStatus (*FLAC__StreamEncoderSeekCallback)(const FLAC__StreamEncoder*, FLAC__uint64, void*);
typedef FLAC__StreamEncoderTellStatus (*FLAC__StreamEncoderTellCallback)(const FLAC__StreamEncoder*, FLAC__uint64*, void*);
typedef void (*FLAC__StreamEncoderMetadataCallback)(const FLAC__StreamEncoder*, const FLAC__StreamMetadata*, void*);
FLAC__StreamEncoder* FLAC__stream_encoder_new(void);
void FLAC__stream_encoder_delete(FLAC__StreamEncoder*);
FLAC__bool FLAC__stream_encoder_set_channels(FLAC__StreamEncoder*, uint32_t);
FLAC__bool FLAC__stream_encoder_set_bits_per_sample(FLAC__StreamEncoder*, uint32_t);
FLAC__bool FLAC__stream_encoder_set_sample_rate(FLAC__StreamEncoder*, uint32_t);
FLAC__bool FLAC__stream_encoder_set_blocksize(FLAC__StreamEncoder*, uint32_t);
FLAC__bool FLAC__stream_encoder_set_total_samples_estimate(FLAC__StreamEncoder*, FLAC__uint64);
FLAC__bool FLAC__stream_encoder_set_compression_level(FLAC__StreamEncoder*, uint32_t);
FLAC__bool FLAC__stream_encoder_set_verify(FLAC__StreamEncoder*, FLAC__bool);
FLAC__StreamEncoderInitStatus FLAC__stream_encoder_init_stream(FLAC__StreamEncoder*, FLAC__StreamEncoderWriteCallback, FLAC__StreamEncoderSeekCallback, FLAC__StreamEncoderTellCallback, FLAC__StreamEncoderMetadataCallback, void* client_data);
FLAC__bool FLAC__stream_encoder_process_interleaved(FLAC__StreamEncoder*, const FLAC__int32 buffer[], uint32_t samples);
FLAC__bool FLAC__stream_encoder_finish(FLAC__StreamEncoder*);
#ifdef __cplusplus
}
#endif
#endif
