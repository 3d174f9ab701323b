#ifndef VERIF_SIM_EBUR128_ANALYZER_H_
#define VERIF_SIM_EBUR128_ANALYZER_H_
#include <cstdint>
#include <optional>
#include <vector>
namespace loudness {
// Stub loudness meter: mean square energy instead of the gated K-weighted one.
class EbuR128Analyzer {
 public:
  enum SampleFormat { S16, S32, FLOAT, DOUBLE };
  enum SampleLayout { INTERLEAVED, PLANAR_CONTIGUOUS, PLANAR_NON_CONTIGUOUS };
  EbuR128Analyzer(int32_t num_channels, const std::vector<float>& weights, int32_t sample_rate, bool enable_true_peak = false);
  void Process(const void* data, int64_t num_samples_per_channel, SampleFormat, SampleLayout);
  std::optional<float> GetRelativeGatedIntegratedLoudness() const;
  float digital_peak_dbfs() const;
  float true_peak_dbfs() const;
 private:
  int32_t num_channels_;
  std::vector<float> weights_;
  bool true_peak_;
  double energy_ = 0, peak_ = 0;
  int64_t n_ = 0;
};
}  // namespace loudness
#endif
