// Reference anti-alias filters of the two decimators (coefficients are part of their definition).
#pragma once
#include "refdsp.h"
namespace refdec { using ref::V;
static const V B8 = {0.060111378492136,-0.257323420830598,0.420583503165928,-0.222750785197418,-0.222750785197418,0.420583503165928,-0.257323420830598,0.060111378492136};
static const V A8 = {1,-5.667654878577432,14.062452278088417,-19.737303840697738,16.889698874608641,-8.796600612325928,2.577553446979888,-0.326903916815751};
static const V B4 = {0.10133306904918619,-0.2447523353702363,0.33622528590120965,-0.13936581560633518,-0.13936581560633382,0.3362252859012087,-0.2447523353702358,0.10133306904918594};
static const V A4 = {1,-3.9035590278139427,7.5299379980621133,-8.6890803793177511,6.4578667096099176,-3.0242979431223631,0.83043385136748382,-0.094420800837809335};
static const V B2 = {0.20898944260075727,0.40011234879814367,0.819741973072733,1.0087419911682323,1.0087419911682325,0.81974197307273156,0.40011234879814295,0.20898944260075661};
static const V A2 = {1,0.0077331184208358217,1.9853971155964376,0.19296739275341004,1.2330748872852182,0.18705341389316466,0.23659265908013868,0.032352924250533946};
static const V BB = {0.029588223638661,0.177529341831965,0.443823354579912,0.591764472773216,0.443823354579912,0.177529341831965,0.029588223638661};
static const V BA = {1,0,0.777695961855673,0,0.114199425062434,0,0.001750925956183};
inline V decimate(int factor, bool b, V y) {
    if (!b) { if (factor == 1) return y; if (factor == 2) y = ref::filter(B2, A2, y); else if (factor == 4) y = ref::filter(B4, A4, y); else if (factor == 8) y = ref::filter(B8, A8, y); V z; for (size_t i = 0; i < y.size(); i += factor) z.push_back(y[i]); return z; }
    for (int f = factor; f > 1; f /= 2) { y = ref::filter(BB, BA, y); V z; for (size_t i = 0; i < y.size(); i += 2) z.push_back(y[i]); y = z; }
    return y;
}
}
