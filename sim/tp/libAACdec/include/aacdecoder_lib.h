#ifndef VERIF_SIM_AACDECODER_LIB_H_
#define VERIF_SIM_AACDECODER_LIB_H_
#include "../../libSYS/include/FDK_audio.h"
#include "../../libSYS/include/machine_type.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
  AAC_DEC_OK = 0x0000, AAC_DEC_OUT_OF_MEMORY = 0x0002, AAC_DEC_UNKNOWN = 0x0005,
  AAC_DEC_TRANSPORT_SYNC_ERROR = 0x1001, AAC_DEC_NOT_ENOUGH_BITS = 0x1002,
  AAC_DEC_INVALID_HANDLE = 0x2001, AAC_DEC_UNSUPPORTED_AOT = 0x2002, AAC_DEC_UNSUPPORTED_FORMAT = 0x2003,
  AAC_DEC_UNSUPPORTED_ER_FORMAT = 0x2004, AAC_DEC_UNSUPPORTED_EPCONFIG = 0x2005,
  AAC_DEC_UNSUPPORTED_MULTILAYER = 0x2006, AAC_DEC_UNSUPPORTED_CHANNELCONFIG = 0x2007,
  AAC_DEC_UNSUPPORTED_SAMPLINGRATE = 0x2008, AAC_DEC_INVALID_SBR_CONFIG = 0x2009,
  AAC_DEC_SET_PARAM_FAIL = 0x200A, AAC_DEC_NEED_TO_RESTART = 0x200B, AAC_DEC_OUTPUT_BUFFER_TOO_SMALL = 0x200C,
  AAC_DEC_TRANSPORT_ERROR = 0x4001, AAC_DEC_PARSE_ERROR = 0x4002, AAC_DEC_UNSUPPORTED_EXTENSION_PAYLOAD = 0x4003,
  AAC_DEC_DECODE_FRAME_ERROR = 0x4004, AAC_DEC_CRC_ERROR = 0x4005, AAC_DEC_INVALID_CODE_BOOK = 0x4006,
  AAC_DEC_UNSUPPORTED_PREDICTION = 0x4007, AAC_DEC_UNSUPPORTED_CCE = 0x4008, AAC_DEC_UNSUPPORTED_LFE = 0x4009,
  AAC_DEC_UNSUPPORTED_GAIN_CONTROL_DATA = 0x400A, AAC_DEC_UNSUPPORTED_SBA = 0x400B,
  AAC_DEC_TNS_READ_ERROR = 0x400C, AAC_DEC_RVLC_ERROR = 0x400D,
  AAC_DEC_ANC_DATA_ERROR = 0x8001, AAC_DEC_TOO_SMALL_ANC_BUFFER = 0x8002, AAC_DEC_TOO_MANY_ANC_ELEMENTS = 0x8003
} AAC_DECODER_ERROR;
typedef enum { AAC_PCM_MAX_OUTPUT_CHANNELS = 0x0012 } AACDEC_PARAM;
typedef struct { INT sampleRate, frameSize, numChannels; } CStreamInfo;
typedef struct AAC_DECODER_INSTANCE AAC_DECODER_INSTANCE;
typedef AAC_DECODER_INSTANCE* HANDLE_AACDECODER;
HANDLE_AACDECODER aacDecoder_Open(TRANSPORT_TYPE, UINT nrOfLayers);
void aacDecoder_Close(HANDLE_AACDECODER);
AAC_DECODER_ERROR aacDecoder_ConfigRaw(HANDLE_AACDECODER, UCHAR* conf[], const UINT length[]);
AAC_DECODER_ERROR aacDecoder_SetParam(HANDLE_AACDECODER, AACDEC_PARAM, INT);
AAC_DECODER_ERROR aacDecoder_Fill(HANDLE_AACDECODER, UCHAR* buf[], const UINT size[], UINT* bytesValid);
AAC_DECODER_ERROR aacDecoder_DecodeFrame(HANDLE_AACDECODER, INT_PCM*, INT size, UINT flags);
CStreamInfo* aacDecoder_GetStreamInfo(HANDLE_AACDECODER);
#ifdef __cplusplus
}
#endif
#endif
