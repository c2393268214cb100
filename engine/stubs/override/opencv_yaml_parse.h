// the YAML reader is outside every property: options are set by the harness
#ifndef OPENCV_YAML_PARSER_H
#define OPENCV_YAML_PARSER_H
#include <boost/filesystem.hpp>
#include <memory>
#include <string>
#include "utils/colors.h"
#include "utils/print.h"
#include "utils/quat_ops.h"
namespace ov_core {
class YamlParser {
public:
  explicit YamlParser(const std::string &, bool = true) {}
  std::string get_config_folder() { return ""; }
  bool successful() const { return true; }
  template <class T> void parse_config(const std::string &, T &, bool = true) {}
  template <class T> void parse_external(const std::string &, const std::string &, const std::string &, T &, bool = true) {}
  template <class T> void parse_external(const std::string &, const std::string &, const std::string &, const std::string &, T &, bool = true) {}
};
} // namespace ov_core
#endif
