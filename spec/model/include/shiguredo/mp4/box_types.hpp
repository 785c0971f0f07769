#pragma once

namespace shiguredo::mp4 {

class BoxMap;

void register_box_map(BoxMap*);

}  // namespace shiguredo::mp4
