"""The functions whose behaviour is compared with the reference model (spec/model), the property each one serves, and
the contract functions: what is behind a call to one of them is that unit's own business, so the call is an event."""
NS = 'shiguredo::mp4::'
CONTRACT_CLASSES = ['BoxHeader', 'Box', 'FullBox', 'AnyTypeBox', 'BoxInfo', 'BoxMap', 'writer::Writer', 'writer::SimpleWriter',
                    'writer::FaststartWriter', 'track::Track', 'track::H264Track', 'track::VideTrack',
                    'track::SounTrack', 'track::AACTrack', 'track::AV1Track', 'track::MP3Track', 'track::OpusTrack',
                    'track::VPXTrack', 'reader::SimpleReader', 'box::AudioSampleEntry', 'box::Mvhd']
CONTRACT_FREE = ['read_box_header', 'register_box_map', 'track::find_next_nal_unit', 'track::make_offset_box',
                 'track::make_stsc_entries', 'track::make_stts_entries', 'time::convert_to_epoch_19040101',
                 'time::format_epoch_19040101', 'stream::get_istream_offset_to_end']
# helpers that are never contracts: inlined where they are used
INLINE = {'BoxHeader::BoxHeader', 'Box::makeHeader', 'FullBox::readVersionAndFlag', 'FullBox::writeVersionAndFlag',
          'writer::FaststartWriter::getFtypSize', 'writer::FaststartWriter::getMoovSize',
          'writer::FaststartWriter::getMdatHeaderSize', 'writer::FaststartWriter::recreateMoovBoxInfo',
          'box::AudioSampleEntry::AudioSampleEntry', 'box::Mvhd::Mvhd'}
INLINE_PREFIX = ('make', '~')


def outputs(f):
    """is there a parameter the function can change something through (a stream, a result)?"""
    for p in f.get("params", []):
        t = (p["t"] if isinstance(p, dict) else p).strip()
        if t.endswith(('&', '*')) and not t.startswith('const '):
            return True
    return False


def contracts(model):
    out, pure = set(), set()
    for f in model.fns.values():
        if 'body' not in f:
            continue
        q = f['q']
        if not q.startswith(NS):
            continue
        s = q[len(NS):]
        c = (f.get('cls') or '')[len(NS):]
        if c in CONTRACT_CLASSES and s not in INLINE and f['n'] != c.split('::')[-1] and \
                not f['n'].startswith(INLINE_PREFIX):
            out.add(q)
            if f.get('const') and not outputs(f):
                pure.add(q)
        elif not c and s in CONTRACT_FREE:
            out.add(q)
    # virtual members without a body of their own
    for c in CONTRACT_CLASSES:
        for m in model.recs.get(NS + c, {}).get("methods", []):
            q = NS + c + '::' + m["n"]
            if m.get("virtual") and m["n"] not in ('~' + c.split('::')[-1],) and not m["n"].startswith(INLINE_PREFIX):
                out.add(q)
                if m.get("const") and not outputs(m):
                    pure.add(q)
    return out, pure


# property -> units: function, [extra contracts], [contracts to look through], options
UNITS = {
    "C12": ["BoxHeader::BoxHeader(BoxHeaderParameters)", "BoxHeader::write", "BoxHeader::getDataSize",
            "BoxHeader::getHeaderSize", "BoxHeader::getSize", "BoxHeader::getOffset", "BoxHeader::getType",
            "BoxHeader::setOffsetAndDataSize", "Box::getHeaderSize", "Box::setOffsetAndDataSize", "Box::getSize",
            "Box::write", "Box::setHeader", "Box::getType", "Box::getDataSize", "AnyTypeBox::setType", "AnyTypeBox::getType",
            "BoxInfo::BoxInfo(BoxInfoParameters)",
            "BoxInfo::adjustOffsetAndSize", "BoxInfo::write", "BoxInfo::getSize", "BoxInfo::getType", "BoxInfo::getPath",
            "BoxInfo::getBox", "BoxInfo::addLeaf",
            "writer::SimpleWriter::SimpleWriter", "writer::SimpleWriter::writeFtypBox",
            "writer::SimpleWriter::writeFreeBoxAndMdatHeader", "writer::SimpleWriter::addMdatData",
            "writer::SimpleWriter::tellCurrentMdatOffset", "writer::SimpleWriter::writeMoovBox",
            "writer::SimpleWriter::appendTrakAndUdtaBoxInfo",
            "writer::FaststartWriter::FaststartWriter", "writer::FaststartWriter::writeFtypBox",
            "writer::FaststartWriter::writeMdatHeader", "writer::FaststartWriter::addMdatData",
            "writer::FaststartWriter::tellCurrentMdatOffset", "writer::FaststartWriter::writeMoovBox",
            "writer::FaststartWriter::copyMdatData", "writer::FaststartWriter::appendTrakAndUdtaBoxInfo",
            "writer::FaststartWriter::deleteIntermediateFile", "writer::FaststartWriter::getIntermediateFilePath",
            "writer::Writer::addMdatData", "writer::Writer::getMoovBoxInfo", "writer::Writer::getTimeFromEpoch",
            "writer::Writer::getMvhdTimescale", "writer::Writer::getAndUpdateNextTrackID",
            "writer::Writer::appendUdtaBoxInfo", "writer::SimpleWriter::setOffsetAndSize",
            "writer::FaststartWriter::setOffsetAndSize", "writer::FaststartWriter::getFtypSize",
            "writer::FaststartWriter::getMoovSize", "writer::FaststartWriter::getMdatHeaderSize",
            "writer::FaststartWriter::recreateMoovBoxInfo",
            "track::Track::addMdatData", "track::Track::terminateCurrentChunk", "track::Track::resetChunkOffsets",
            ("track::Track::makeOffsetBoxInfo", {"tree": True}), "track::make_offset_box"],
    "C07": ["read_box_header", "BoxHeader::seekToData", "BoxHeader::seekToEnd", "Box::seekToData", "Box::seekToEnd",
            "reader::SimpleReader::SimpleReader", ("reader::SimpleReader::read", {"opaque": ["reader::SimpleReader::readBox"]}), "reader::SimpleReader::readBox",
            "BoxMap::addBoxDef", "BoxMap::getBoxInstance(BoxType)", "BoxMap::getBoxInstance(BoxHeader *)",
            "BoxMap::isSupported", "BoxMap::getSupportedVersions", "BoxMap::isSupportedVersion",
            "stream::get_istream_offset_to_end", "BoxInfo::BoxInfo(BoxInfoParameters)", "BoxInfo::getPath", "BoxInfo::getType",
            "BoxInfo::getBox", "Box::getType"],
    "C10": ["track::Track::terminateCurrentChunk", "track::Track::addMdatData", "track::Track::finalize",
            "track::make_stts_entries", "track::make_stsc_entries", "track::make_offset_box",
            "track::Track::resetChunkOffsets", "track::Track::setMediaTime", "track::Track::getTimescale",
            "track::Track::getDurationInTimescale", "track::Track::getDurationInMvhdTimescale",
            "track::Track::getHandlerTypeArray",
            ("track::Track::makeStszBoxInfo", {"tree": True}), ("track::Track::makeStscBoxInfo", {"tree": True}),
            ("track::Track::makeSttsBoxInfo", {"tree": True}), ("track::Track::makeStssBoxInfo", {"tree": True}),
            ("track::Track::makeOffsetBoxInfo", {"tree": True}), ("track::Track::makeElstBoxInfo", {"tree": True}),
            ("track::Track::makeMdhdBoxInfo", {"tree": True}), ("track::SounTrack::makeTkhdBoxInfo", {"tree": True}),
            ("track::VideTrack::makeTkhdBoxInfo", {"tree": True}),
            "track::H264Track::addData", "track::AACTrack::addData", "track::AV1Track::addData",
            "track::MP3Track::addData", "track::OpusTrack::addData", "track::VPXTrack::addData"],
    "C11": [("track::%s::appendTrakBoxInfo" % c, {"tree": True}) for c in
            ("AACTrack", "AV1Track", "H264Track", "MP3Track", "OpusTrack", "VPXTrack")] +
           ["BoxInfo::BoxInfo(BoxInfoParameters)"],
    "C14": ["*::readData", "FullBox::readVersionAndFlag", "box::SampleEntry::readReservedAndDataReferenceIndex",
            "box::Colr::nclxUnwriteData", "box::AudioSampleEntry::checkLengthOfQuickTimeData",
            "box::AudioSampleEntry::getLengthOfQuickTimeData", "box::AudioSampleEntry::setUnderWave",
            "box::is_avc_high_profile", "box::Sgpd::noDefaultLength"],
    "C16": ["Box::addFlag", "Box::checkFlag", "Box::getFlags", "Box::getVersion", "Box::removeFlag", "Box::setFlags",
            "Box::setVersion", "FullBox::addFlag", "FullBox::checkFlag", "FullBox::getFlags", "FullBox::getVersion",
            "FullBox::removeFlag", "FullBox::setFlags", "FullBox::setVersion", "FullBox::writeVersionAndFlag",
            "FullBox::readVersionAndFlag",
            "BoxType::BoxType", "BoxType::getData", "BoxType::matchWith", "BoxType::operator<=>", "BoxType::operator==",
            "BoxType::setData"],
    "C17": ["endian::*"],
    "C18": [(u, {"intrinsics": False, "also": ["bitio::"]}) for u in ("bitio::*", "bitio::Reader::*", "bitio::Writer::*")],
    "C22": ["time::convert_to_epoch_19040101", "time::format_epoch_19040101"],
    "C23": ["box::encode_language", "box::decode_language", "box::Mvhd::getRate", "box::Tkhd::getWidth", "box::Tkhd::getHeight",
            "box::ElstEntry::getMediaRate", "box::Smhd::getBalance", "box::Mvhd::setNextTrackID"],
    "C26": ["track::%s::%s" % (c, c) for c in ("AACTrack", "AV1Track", "H264Track", "MP3Track", "OpusTrack", "VPXTrack")],
    "C28": ["track::H264Track::addData", "track::AACTrack::addData", "track::AV1Track::addData", "track::MP3Track::addData",
            "track::OpusTrack::addData", "track::VPXTrack::addData", "track::find_next_nal_unit",
            "track::H264Track::appendPictureParameterSets", "track::H264Track::appendSequenceParameterSets",
            "track::AV1Track::setConfigOBUs", "track::operator=="],
    "C05": ["register_box_map", "BoxDef::BoxDef", "*ctor()", "box::box_type_*", "BoxMap::addBoxDef",
            "BoxMap::getBoxInstance(BoxType)", "BoxMap::getBoxInstance(BoxHeader *)", "BoxMap::isSupported",
            "BoxMap::getSupportedVersions", "BoxMap::isSupportedVersion", "AnyTypeBox::setType", "AnyTypeBox::getType",
            "box_type_any", "BoxType::BoxType", "BoxType::getData", "BoxType::matchWith", "BoxType::operator<=>",
            "BoxType::operator==", "BoxType::setData"],
    "C06": [(u, {"io": True}) for u in (
                "read_box_header", "BoxHeader::write", "BoxHeader::seekToData", "BoxHeader::seekToEnd", "Box::write",
                "Box::seekToData", "Box::seekToEnd", "BoxInfo::write", "stream::get_istream_offset_to_end",
                "reader::SimpleReader::SimpleReader", "reader::SimpleReader::readBox", "box::Meta::readData",
                "writer::SimpleWriter::SimpleWriter", "writer::SimpleWriter::writeFtypBox",
                "writer::SimpleWriter::writeFreeBoxAndMdatHeader", "writer::SimpleWriter::addMdatData",
                "writer::SimpleWriter::tellCurrentMdatOffset", "writer::SimpleWriter::writeMoovBox",
                "writer::SimpleWriter::appendTrakAndUdtaBoxInfo",
                "writer::FaststartWriter::FaststartWriter", "writer::FaststartWriter::writeFtypBox",
                "writer::FaststartWriter::writeMdatHeader", "writer::FaststartWriter::addMdatData",
                "writer::FaststartWriter::tellCurrentMdatOffset", "writer::FaststartWriter::writeMoovBox",
                "writer::FaststartWriter::copyMdatData", "writer::FaststartWriter::appendTrakAndUdtaBoxInfo",
                "writer::FaststartWriter::deleteIntermediateFile", "writer::Writer::addMdatData",
                "track::Track::addMdatData")] +
           [("reader::SimpleReader::read", {"opaque": ["reader::SimpleReader::readBox"], "io": True})] +
           [(u, {"intrinsics": False, "also": ["bitio::"], "io": True})
            for u in ("bitio::*", "bitio::Reader::*", "bitio::Writer::*")],
    "C13": ["*::writeData", "BoxHeader::write", "BoxHeader::BoxHeader(BoxHeaderParameters)"] +
           [(u, {"intrinsics": False, "also": ["bitio::"]}) for u in
            ("bitio::write*", "bitio::Writer::*")],
    "C25": ["read_box_header", "BoxHeader::write", "BoxHeader::BoxHeader(BoxHeaderParameters)", "BoxType::BoxType",
            "BoxType::setData", "Box::*", "FullBox::*", "BoxInfo::BoxInfo(BoxInfoParameters)", "BoxInfo::addLeaf",
            "BoxInfo::getBox", "BoxInfo::write", "BoxInfo::adjustOffsetAndSize",
            "BoxMap::addBoxDef", "BoxMap::getBoxInstance(BoxType)", "BoxMap::getBoxInstance(BoxHeader *)",
            "BoxMap::getSupportedVersions", "BoxMap::isSupportedVersion", "endian::*",
            "reader::SimpleReader::readBox", "track::find_next_nal_unit", "track::H264Track::addData",
            "track::make_stts_entries", "track::make_stsc_entries", "track::make_offset_box", "track::Track::finalize",
            "track::Track::terminateCurrentChunk", "track::Track::addMdatData", "writer::Writer::addMdatData",
            "writer::SimpleWriter::addMdatData", "writer::FaststartWriter::addMdatData",
            "writer::FaststartWriter::copyMdatData"] +
           [(u, {"intrinsics": False, "also": ["bitio::"]}) for u in ("bitio::*", "bitio::Reader::*", "bitio::Writer::*")],
    "C09": ["*dtor", "read_box_header", "BoxMap::addBoxDef", "BoxMap::getBoxInstance(BoxType)",
            "BoxMap::getBoxInstance(BoxHeader *)", "reader::SimpleReader::SimpleReader", "reader::SimpleReader::readBox",
            ("reader::SimpleReader::read", {"opaque": ["reader::SimpleReader::readBox"]}),
            "Box::setHeader", "Box::makeHeader", "BoxInfo::BoxInfo(BoxInfoParameters)", "BoxInfo::addLeaf", "BoxInfo::getBox",
            "register_box_map", "writer::SimpleWriter::SimpleWriter", "writer::SimpleWriter::writeFtypBox",
            "writer::SimpleWriter::writeFreeBoxAndMdatHeader", "writer::SimpleWriter::appendTrakAndUdtaBoxInfo",
            "writer::FaststartWriter::FaststartWriter", "writer::FaststartWriter::writeFtypBox",
            "writer::FaststartWriter::recreateMoovBoxInfo", "writer::FaststartWriter::appendTrakAndUdtaBoxInfo",
            "writer::FaststartWriter::deleteIntermediateFile", "writer::Writer::appendUdtaBoxInfo",
            "writer::Writer::getMoovBoxInfo", "writer::FaststartWriter::copyMdatData"] +
           [("track::%s::appendTrakBoxInfo" % c, {"tree": True}) for c in
            ("AACTrack", "AV1Track", "H264Track", "MP3Track", "OpusTrack", "VPXTrack")],
    "C20": ["writer::FaststartWriter::FaststartWriter"],
}

# what the loops that are not counted owe their end to: a read that fails at the end of the stream, a box that is at
# least as large as its header, a NAL unit that ends behind its start
ENDINGS = ["read_box_header", "BoxHeader::seekToData", "BoxHeader::getSize", "BoxHeader::getHeaderSize", "BoxHeader::getDataSize",
           "reader::SimpleReader::readBox", "reader::SimpleReader::read", "track::find_next_nal_unit",
           "stream::get_istream_offset_to_end", "writer::FaststartWriter::copyMdatData", "bitio::Reader::read",
           "bitio::Reader::readBit", "bitio::Reader::readBits", "bitio::Reader::seek", "bitio::read_uvarint",
           "box::Esds::readData"]
UNITS["C08"] = [u for u in ENDINGS if not u.startswith('bitio') and u != "reader::SimpleReader::read"] + \
    [("reader::SimpleReader::read", {"opaque": ["reader::SimpleReader::readBox"]}),
     "writer::FaststartWriter::appendTrakAndUdtaBoxInfo", "track::H264Track::addData"] + \
    [(u, dict(o, io=True)) for u, o in UNITS["C18"]]
_seen = {u if isinstance(u, str) else u[0] for u in UNITS["C08"]}
UNITS["C08"] += [u for u in UNITS["C14"] + UNITS["C10"] + UNITS["C12"] + ["*::writeData", "*::getDataSize"]
                 if (u if isinstance(u, str) else u[0]) not in _seen]
