#pragma once

#include "shiguredo/mp4/box/av1c.hpp"
#include "shiguredo/mp4/box/avc.hpp"
#include "shiguredo/mp4/box/btrt.hpp"
#include "shiguredo/mp4/box/co64.hpp"
#include "shiguredo/mp4/box/colr.hpp"
#include "shiguredo/mp4/box/ctts.hpp"
#include "shiguredo/mp4/box/dOps.hpp"
#include "shiguredo/mp4/box/data.hpp"
#include "shiguredo/mp4/box/dinf.hpp"
#include "shiguredo/mp4/box/dref.hpp"
#include "shiguredo/mp4/box/edts.hpp"
#include "shiguredo/mp4/box/elst.hpp"
#include "shiguredo/mp4/box/emsg.hpp"
#include "shiguredo/mp4/box/esds.hpp"
#include "shiguredo/mp4/box/fiel.hpp"
#include "shiguredo/mp4/box/free.hpp"
#include "shiguredo/mp4/box/ftyp.hpp"
#include "shiguredo/mp4/box/hdlr.hpp"
#include "shiguredo/mp4/box/ilst.hpp"
#include "shiguredo/mp4/box/iods.hpp"
#include "shiguredo/mp4/box/mdat.hpp"
#include "shiguredo/mp4/box/mdhd.hpp"
#include "shiguredo/mp4/box/mdia.hpp"
#include "shiguredo/mp4/box/mehd.hpp"
#include "shiguredo/mp4/box/meta.hpp"
#include "shiguredo/mp4/box/mfhd.hpp"
#include "shiguredo/mp4/box/mfra.hpp"
#include "shiguredo/mp4/box/mfro.hpp"
#include "shiguredo/mp4/box/minf.hpp"
#include "shiguredo/mp4/box/moof.hpp"
#include "shiguredo/mp4/box/moov.hpp"
#include "shiguredo/mp4/box/mvex.hpp"
#include "shiguredo/mp4/box/mvhd.hpp"
#include "shiguredo/mp4/box/pixel_aspect_ratio.hpp"
#include "shiguredo/mp4/box/pssh.hpp"
#include "shiguredo/mp4/box/sample_entry.hpp"
#include "shiguredo/mp4/box/sbgp.hpp"
#include "shiguredo/mp4/box/schi.hpp"
#include "shiguredo/mp4/box/sdtp.hpp"
#include "shiguredo/mp4/box/sgpd.hpp"
#include "shiguredo/mp4/box/sidx.hpp"
#include "shiguredo/mp4/box/sinf.hpp"
#include "shiguredo/mp4/box/skip.hpp"
#include "shiguredo/mp4/box/smhd.hpp"
#include "shiguredo/mp4/box/stbl.hpp"
#include "shiguredo/mp4/box/stco.hpp"
#include "shiguredo/mp4/box/stsc.hpp"
#include "shiguredo/mp4/box/stsd.hpp"
#include "shiguredo/mp4/box/stss.hpp"
#include "shiguredo/mp4/box/stsz.hpp"
#include "shiguredo/mp4/box/stts.hpp"
#include "shiguredo/mp4/box/styp.hpp"
#include "shiguredo/mp4/box/tfdt.hpp"
#include "shiguredo/mp4/box/tfhd.hpp"
#include "shiguredo/mp4/box/tfra.hpp"
#include "shiguredo/mp4/box/tkhd.hpp"
#include "shiguredo/mp4/box/traf.hpp"
#include "shiguredo/mp4/box/trak.hpp"
#include "shiguredo/mp4/box/trex.hpp"
#include "shiguredo/mp4/box/trun.hpp"
#include "shiguredo/mp4/box/udta.hpp"
#include "shiguredo/mp4/box/url.hpp"
#include "shiguredo/mp4/box/urn.hpp"
#include "shiguredo/mp4/box/vmhd.hpp"
#include "shiguredo/mp4/box/vpc.hpp"
#include "shiguredo/mp4/box/wave.hpp"
