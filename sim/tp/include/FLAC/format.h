#ifndef VERIF_SIM_FLAC_FORMAT_H_
#define VERIF_SIM_FLAC_FORMAT_H_
#include "ordinals.h"
typedef enum {
  FLAC__METADATA_TYPE_STREAMINFO = 0,
  FLAC__METADATA_TYPE_PADDING = 1,
} FLAC__MetadataType;
typedef struct { FLAC__MetadataType type; FLAC__bool is_last; uint32_t length; } FLAC__StreamMetadata;
typedef struct {
  uint32_t blocksize, sample_rate, channels;
  int channel_assignment;
  uint32_t bits_per_sample;
} FLAC__FrameHeader;
typedef struct { FLAC__FrameHeader header; } FLAC__Frame;
#endif
