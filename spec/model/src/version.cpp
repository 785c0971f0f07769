#include <fmt/core.h>

#include <string>

#include "shiguredo/mp4/constants.hpp"
#include "shiguredo/mp4/version.hpp"

namespace shiguredo::mp4 {

std::string get_version_string() {
  return "2023.2.1";
}

}  // namespace shiguredo::mp4
