#ifndef VERIF_SIM_AACENC_LIB_H_
#define VERIF_SIM_AACENC_LIB_H_
#include "../../libSYS/include/FDK_audio.h"
#include "../../libSYS/include/machine_type.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
  AACENC_OK = 0x0000, AACENC_INVALID_HANDLE = 0x0020, AACENC_MEMORY_ERROR = 0x0021,
  AACENC_UNSUPPORTED_PARAMETER = 0x0022, AACENC_INVALID_CONFIG = 0x0023,
  AACENC_INIT_ERROR = 0x0040, AACENC_INIT_AAC_ERROR = 0x0041, AACENC_INIT_SBR_ERROR = 0x0042,
  AACENC_INIT_TP_ERROR = 0x0043, AACENC_INIT_META_ERROR = 0x0044, AACENC_INIT_MPS_ERROR = 0x0045,
  AACENC_ENCODE_ERROR = 0x0060, AACENC_ENCODE_EOF = 0x0080
} AACENC_ERROR;
typedef enum { IN_AUDIO_DATA = 0, IN_ANCILLRY_DATA = 1, IN_METADATA_SETUP = 2, OUT_BITSTREAM_DATA = 3, OUT_AU_SIZES = 4 } AACENC_BufferIdentifier;
typedef struct AACENCODER AACENCODER;
typedef AACENCODER* HANDLE_AACENCODER;
typedef struct {
  UINT maxOutBufBytes, maxAncBytes, inBufFillLevel, inputChannels, frameLength, nDelay, nDelayCore;
  UCHAR confBuf[64];
  UINT confSize;
} AACENC_InfoStruct;
typedef struct { INT numBufs; void** bufs; INT* bufferIdentifiers; INT* bufSizes; INT* bufElSizes; } AACENC_BufDesc;
typedef struct { INT numInSamples; INT numAncBytes; } AACENC_InArgs;
typedef struct { INT numOutBytes; INT numInSamples; INT numAncBytes; INT bitResState; } AACENC_OutArgs;
typedef enum {
  AACENC_AOT = 0x0100, AACENC_BITRATE = 0x0101, AACENC_BITRATEMODE = 0x0102, AACENC_SAMPLERATE = 0x0103,
  AACENC_CHANNELMODE = 0x0106, AACENC_AFTERBURNER = 0x0200, AACENC_TRANSMUX = 0x0300,
  AACENC_SIGNALING_MODE = 0x0302, AACENC_METADATA_MODE = 0x0600
} AACENC_PARAM;
AACENC_ERROR aacEncOpen(HANDLE_AACENCODER*, UINT encModules, UINT maxChannels);
AACENC_ERROR aacEncClose(HANDLE_AACENCODER*);
AACENC_ERROR aacEncEncode(HANDLE_AACENCODER, const AACENC_BufDesc* in, const AACENC_BufDesc* out, const AACENC_InArgs*, AACENC_OutArgs*);
AACENC_ERROR aacEncInfo(HANDLE_AACENCODER, AACENC_InfoStruct*);
AACENC_ERROR aacEncoder_SetParam(HANDLE_AACENCODER, AACENC_PARAM, UINT);
#ifdef __cplusplus
}
#endif
#endif
