#ifndef VERIF_SIM_OBR_AUDIO_BUFFER_H_
#define VERIF_SIM_OBR_AUDIO_BUFFER_H_
#include <cstddef>
#include <vector>
namespace obr {
class AudioBuffer {
 public:
  AudioBuffer(size_t num_channels, size_t num_frames)
      : data_(num_channels, std::vector<float>(num_frames, 0.0f)), num_frames_(num_frames) {}
  std::vector<float>& operator[](size_t c) { return data_.at(c); }
  const std::vector<float>& operator[](size_t c) const { return data_.at(c); }
  size_t num_channels() const { return data_.size(); }
  size_t num_frames() const { return num_frames_; }
 private:
  std::vector<std::vector<float>> data_;
  size_t num_frames_;
};
}  // namespace obr
#endif
