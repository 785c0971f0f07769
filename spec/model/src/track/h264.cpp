#include "shiguredo/mp4/track/h264.hpp"

#include <fmt/core.h>

#include <algorithm>
#include <cstdint>
#include <memory>
#include <stdexcept>

#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/writer/writer.hpp"

namespace shiguredo::mp4::track {

H264Track::H264Track(const H264TrackParameters& params) {
  m_timescale = params.timescale;
  m_duration = params.duration;
  m_media_time = params.media_time;
  m_mvhd_timescale = params.writer->getMvhdTimescale();
  m_time_from_epoch = params.writer->getTimeFromEpoch();
  m_track_id = params.track_id;
  if (m_track_id == 0) {
    throw std::runtime_error("H264Track::H264Track(): invalid track_id=0");
  }
  m_width = params.width;
  m_height = params.height;
  m_writer = params.writer;
  m_configuration_version = params.configuration_version;
  m_profile = params.profile;
  m_profile_compatibility = params.profile_compatibility;
  m_level = params.level;
}

void H264Track::makeStsdBoxInfo(BoxInfo* stbl) {
  auto stsd = new BoxInfo({.parent = stbl, .box = new box::Stsd({.entry_count = 1})});
  auto avc1 = new BoxInfo({.parent = stsd,
                           .box = new box::VisualSampleEntry({
                               .type = BoxType("avc1"),
                               .data_reference_index = 1,
                               .width = static_cast<std::uint16_t>(m_width),
                               .height = static_cast<std::uint16_t>(m_height),
                           })});

  auto avcc = new box::AVCDecoderConfiguration({
      .configuration_version = m_configuration_version,
      .profile = m_profile,
      .profile_compatibility = m_profile_compatibility,
      .level = m_level,
      .sequence_parameter_sets = m_sequence_parameter_sets,
      .picture_parameter_sets = m_picture_parameter_sets,
  });
  new BoxInfo({.parent = avc1, .box = avcc});
}

void H264Track::appendTrakBoxInfo(BoxInfo* moov) {
  finalize();

  auto trak = makeTrakBoxInfo(moov);
  makeTkhdBoxInfo(trak);

  auto edts = makeEdtsBoxInfo(trak);
  makeElstBoxInfo(edts);

  auto mdia = makeMdiaBoxInfo(trak);
  makeMdhdBoxInfo(mdia);
  makeHdlrBoxInfo(mdia);

  auto minf = makeMinfBoxInfo(mdia);
  makeVmhdBoxInfo(minf);
  makeDinfBoxInfo(minf);

  auto stbl = makeStblBoxInfo(minf);
  makeStsdBoxInfo(stbl);
  makeSttsBoxInfo(stbl);
  makeStssBoxInfo(stbl);
  makeStscBoxInfo(stbl);
  makeStszBoxInfo(stbl);
  makeOffsetBoxInfo(stbl);
}

void H264Track::addData(const std::uint64_t timestamp, const std::vector<std::uint8_t>& data, bool is_key) {
  addData(timestamp, data.data(), data.size(), is_key);
}

void H264Track::addData(const std::uint64_t timestamp,
                        const std::uint8_t* data,
                        const std::size_t data_size,
                        bool is_key) {
  std::size_t start = 0;
  std::vector<std::uint8_t> mdat_data = {};
  while (1) {
    auto nu = find_next_nal_unit(data, data_size, start);
    std::vector<uint8_t> sps_data = {};
    std::vector<uint8_t> pps_data = {};
    std::size_t video_data_size;
    switch (nu.header & 0x1f) {
      case 1:
      case 2:
      case 3:
      case 4:
      case 5:
        // VCL
        video_data_size = nu.end - nu.start - nu.start_code_size;
        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 24));
        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 16));
        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 8));
        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size & 0xff));

        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, std::back_inserter(mdat_data));
        break;
      case 6:
        // SEI
        // 無視する
        break;
      case 10:
      case 11:
        // end of sequence, end of stream
        // 無視する
        break;
      case 7:
        // SPS
        std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
                    std::back_inserter(sps_data));
        appendSequenceParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = sps_data}));
        // 最初の SPS で profile, profile_compatibility, level を置換する
        if (std::size(m_sequence_parameter_sets) == 1 && std::size(sps_data) > 4) {
          m_profile = sps_data[1];
          m_profile_compatibility = sps_data[2];
          m_level = sps_data[3];
        }
        break;
      case 8:
        // PPS
        std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
                    std::back_inserter(pps_data));
        appendPictureParameterSets(shiguredo::mp4::box::AVCParameterSet({.nal_unit = pps_data}));
        break;
      default:
        throw std::runtime_error(
            fmt::format("unsuppoted NalUnit type: header={:02x}, type={:02x}", nu.header, nu.header & 0x1f));
    }

    if (nu.end >= data_size) {
      // 同じアクセスユニットの VCL は 1 つの sample にまとめる
      if (!std::empty(mdat_data)) {
        addMdatData(timestamp, mdat_data, is_key);
      }
      return;
    }
    start = nu.end;
  }
}

bool operator==(NalUnit const& left, NalUnit const& right) {
  return left.start_code_size == right.start_code_size && left.start == right.start && left.end == right.end &&
         left.header == right.header;
}

std::ostream& operator<<(std::ostream& os, const NalUnit& nu) {
  os << "start_code_size: " << nu.start_code_size << " start: " << nu.start << " end: " << nu.end
     << " header: " << static_cast<uint32_t>(nu.header);
  return os;
}

NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
  // start から NalUnit が始まっていることを期待する
  auto index = start;
  std::size_t start_code_size;
  std::uint8_t header = 0;
  bool found = false;
  while (index + 3 < data_size) {
    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
        data[index + 3] == 1) {
      if (!found) {
        found = true;
        start_code_size = 4;
        header = data[index + 4];
      } else {
        return NalUnit{start_code_size, start, index, header};
      }
      index += 4;
      continue;
    }
    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
      if (!found) {
        found = true;
        start_code_size = 3;
        header = data[index + 3];
      } else {
        return NalUnit{start_code_size, start, index, header};
      }
      index += 3;
      continue;
    }
    if (index == start) {
      throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
    }
    ++index;
  }
  if (!found) {
    throw std::runtime_error("nalunit not found");
  }
  return NalUnit{start_code_size, start, data_size, header};
}

void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
  if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
      std::end(m_sequence_parameter_sets)) {
    m_sequence_parameter_sets.emplace_back(params);
  }
}

void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
  if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
      std::end(m_picture_parameter_sets)) {
    m_picture_parameter_sets.emplace_back(params);
  }
}

}  // namespace shiguredo::mp4::track
