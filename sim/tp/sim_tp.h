// Common fault seam of the simulated third-party libraries (harness only).
#ifndef VERIF_SIM_TP_H_
#define VERIF_SIM_TP_H_
namespace simtp {
enum Site : int {
  kOpusEncCreate, kOpusEncCtl, kOpusEncode, kOpusDecCreate, kOpusDecode,
  kFlacEncNew, kFlacEncInit, kFlacEncProcess, kFlacEncFinish,
  kFlacDecNew, kFlacDecInit, kFlacDecProcess,
  kAacEncOpen, kAacEncConfig, kAacEncode, kAacDecOpen, kAacDecFill, kAacDecode,
  kObrAdd, kWavReadHeader, kWavWriteHeader,
  kNumSites
};
extern const char* const kSiteNames[kNumSites];
// Decides whether the call at `site` fails. nullptr: never.
extern bool (*fault_hook)(int site);
inline bool Fault(Site s) { return fault_hook != nullptr && fault_hook(s); }
// Frames the FLAC encoder holds back beyond its one-sample look-ahead.
extern int flac_hold_frames;
// Live handles: opened minus closed, per library. A leak leaves it non-zero.
extern long live_handles;
}  // namespace simtp
#endif
