#include "common.h"
#include "srtc/extension_map.h"
#include "srtc/track_selector.h"
static TrackP mk(Codec c, uint32_t profile, bool opts, uint8_t pt)
{
    auto media = std::make_shared<Media>("m", c == Codec::Opus ? MediaType::Audio : MediaType::Video);
    TrackBuilder b(media, Direction::Publish, 1, pt, 90000);
    b.codec(c, opts ? std::make_shared<Track::CodecOptions>((int)profile, 0, false) : nullptr);
    return b.build();
}
// any list of video tracks: the result is one of them, none is better, and any rotation of the list selects an equivalent one
HARNESS(n03_select)
{
    const int n = (int)vp_param("n", 3);
    static const Codec cs[] = {Codec::VP8, Codec::VP9, Codec::H264, Codec::H265, Codec::AV1};
    std::vector<TrackP> v; uint32_t prof[6]; Codec codec[6];
    for (int i = 0; i < n; i++) {
        codec[i] = cs[vp_choose(5, "codec")];
        bool o = vp_choose(2, "opts") != 0;
        prof[i] = o ? (uint32_t)vp_range(0, 0xffffff, "profile") : 0;
        v.push_back(mk(codec[i], prof[i], o, (uint8_t)(96 + i)));
    }
    HighestTrackSelector sel;
    auto best = sel.selectTrack(v);
    int bi = -1;
    for (int i = 0; i < n; i++) if (v[i] == best) bi = i;
    vp_assert(bi >= 0, "one of the offered tracks");
    auto rank = [](Codec c) { return (int)c; };
    for (int i = 0; i < n; i++) vp_assert(rank(codec[i]) < rank(codec[bi]) || (codec[i] == codec[bi] && prof[i] <= prof[bi]), "no offered track is better");
    std::vector<TrackP> w(v.rbegin(), v.rend());
    auto b2 = sel.selectTrack(w);
    vp_assert(b2 && b2->getCodec() == best->getCodec() && (b2->getCodecOptions() ? b2->getCodecOptions()->profileLevelId : 0) == prof[bi], "independent of the order");
    vp_assert(sel.selectTrack({}) == nullptr, "nothing from nothing");
    auto a = mk(Codec::Opus, 0, false, 111);
    vp_assert(sel.selectTrack({a}) == a, "audio");
    vp_reach("done");
}
// extension map: any registrations with distinct ids and names, any sequence of look-ups answers exactly what was registered
HARNESS(n03_map)
{
    const int n = (int)vp_param("n", 3), q = (int)vp_param("q", 4);
    static const char* names[] = {"urn:a", "urn:b", "urn:c", "urn:d"};
    ExtensionMap m; uint8_t id[4];
    for (int i = 0; i < n; i++) {
        id[i] = (uint8_t)vp_range(1, 255, "id");
        for (int k = 0; k < i; k++) vp_assume(id[k] != id[i]);
        m.add(id[i], names[i]);
    }
    for (int k = 0; k < q; k++) {
        if (vp_choose(2, "by")) {
            int w = (int)vp_choose(4, "name");
            vp_assert(m.findByName(names[w]) == (w < n ? id[w] : 0), "id of a name");
        } else {
            uint8_t w = (uint8_t)vp_range(0, 255, "qid");
            std::string r = m.findById(w);
            int e = -1;
            for (int i = 0; i < n; i++) if (id[i] == w) e = i;
            vp_assert(r == (e < 0 ? "" : names[e]), "name of an id");
        }
    }
    m.clear();
    vp_assert(m.findByName("urn:a") == 0 && m.findById(id[0]).empty(), "cleared");
    vp_reach("done");
}
