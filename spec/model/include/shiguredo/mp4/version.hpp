#pragma once

#include <string>

namespace shiguredo::mp4 {

std::string get_version_string();

}  // namespace shiguredo::mp4
