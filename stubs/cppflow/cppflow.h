// Declarations of the part of cppflow that the repository uses (cppflow and TensorFlow are not
// installed here). Only parsed for analysis, never linked.
#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace cppflow {
class tensor {
 public:
  tensor() = default;
  template <typename T>
  tensor(const std::vector<T>& values, const std::vector<int64_t>& shape) { (void)values; (void)shape; }
  tensor shape() const { return tensor(); }
  template <typename T> std::vector<T> get_data() const { return {}; }
};
class model {
 public:
  explicit model(const std::string& path) { (void)path; }
  std::vector<tensor> operator()(std::vector<std::tuple<std::string, tensor>> inputs,
                                 std::vector<std::string> outputs) {
    (void)inputs; return std::vector<tensor>(outputs.size());
  }
};
}  // namespace cppflow
