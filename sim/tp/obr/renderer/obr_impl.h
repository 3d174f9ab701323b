#ifndef VERIF_SIM_OBR_IMPL_H_
#define VERIF_SIM_OBR_IMPL_H_
#include <cstddef>
#include "absl/status/status.h"
#include "obr/audio_buffer/audio_buffer.h"
#include "obr/renderer/audio_element_type.h"
namespace obr {
// Stub binaural renderer: a fixed, stateful (one-sample memory) linear mix.
class ObrImpl {
 public:
  ObrImpl(int buffer_size_per_channel, int sampling_rate);
  ~ObrImpl();
  ObrImpl(const ObrImpl&) = delete;
  absl::Status AddAudioElement(AudioElementType type);
  size_t GetNumberOfInputChannels() const { return num_inputs_; }
  size_t GetNumberOfOutputChannels() const { return 2; }
  void Process(const AudioBuffer& in, AudioBuffer* out);
 private:
  int frames_;
  size_t num_inputs_ = 0;
  float last_[2] = {0, 0};
};
}  // namespace obr
#endif
