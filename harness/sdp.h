#pragma once
#include "common.h"
#include <sstream>
#include <random>
#include <list>
#include <map>
#include <functional>
#define private public // offers are otherwise made by a connection with its threads
#include "srtc/sdp_offer.h"
#include "srtc/sdp_answer.h"
#undef private
#include "srtc/track_selector.h"
#include "srtc/x509_certificate.h"
#include "srtc/x509_hash.h"
#include <string>
namespace {
typedef std::shared_ptr<SdpOffer> OfferP;
struct Line { std::string s; Line() {} };
inline SdpOffer::MediaLine videoLine(const std::string& id, std::vector<Codec> codecs, std::vector<std::string> layers = {})
{
    SdpOffer::MediaLine m; m.id = id; m.mediaType = MediaType::Video;
    for (auto c : codecs) m.codec_list.emplace_back(c, 0x42e01f, 0, false);
    uint16_t w = 320;
    for (auto& l : layers) { m.layer_list.push_back({ l, w, (uint16_t)(w / 2), 15, (uint32_t)(w + 1) }); w *= 2; }
    return m;
}
inline SdpOffer::MediaLine audioLine(const std::string& id)
{
    SdpOffer::MediaLine m; m.id = id; m.mediaType = MediaType::Audio;
    m.codec_list.emplace_back(Codec::Opus, 0, 20, true);
    return m;
}
inline OfferP mkOffer(Direction d, SdpOffer::Config cfg, const std::vector<SdpOffer::MediaLine>& m) { return OfferP(new SdpOffer(d, cfg, m)); }
}
