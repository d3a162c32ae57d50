// C36: Pitch <-> frequency conversion: equal temperament, nearest semitone, consistent cents.
#include "mc.h"
#include "base/Pitch.h"
MC_SCENARIO(forward, "every MIDI pitch -20..150 x 9 cent offsets x 7 concert pitches (three of them fractional)", 0, 1) { int p = mc::choose(171, "p") - 20; static const float C[] = {0, -100, -50, -12.5f, 1, 25, 50, 100, 250}, A[] = {440, 432, 261.6f, 1000, 442.75f, 415.3047f, 0.75f}; float c = mc::pick(C, "c"), a = mc::pick(A, "a"); double want = a * std::pow(2.0, (p + c / 100.0 - 69) / 12); float got = Pitch::getFrequencyForPitch(p, c, a); mc::step(); mc::require(std::fabs(got - want) <= 2e-5 * want, "frequency", "pitch %d cents %g A=%g: %g Hz, expected %g", p, c, a, got, want); if (a == 440 && c == 0) mc::require(Pitch::getFrequencyForPitch(p) == got, "frequency", "default arguments differ"); mc::state(mc::Hash("f").i(p).d(c).d(a)); }
MC_SCENARIO(nearest, "MIDI pitch -60..140 x 101 offsets -50..50 cents x 8 concert pitches (five of them fractional, down to 0.75 Hz): pitch is the nearest semitone and pitch+cents reproduces the frequency", 1, 8) { int p = mc::choose(201, "p") - 60, c = mc::choose(101, "c") - 50; static const float A[] = {440, 432, 100, 442.75f, 415.3047f, 261.6256f, 0.75f, 1760.9f}; float a = mc::pick(A, "a"); double f = a * std::pow(2.0, (p + c / 100.0 - 69) / 12); double semis = p + c / 100.0; float cents = 999; int m = Pitch::getPitchForFrequency((float)f, &cents, a); mc::step();
    mc::require(std::fabs(m + cents / 100.0 - semis) < 5e-4, "roundtrip", "%g Hz: pitch %d %+g cents, expected %g semitones", f, m, cents, semis); mc::require(cents >= -50.01f && cents < 50.01f, "nearest", "%g Hz: cents offset %g is not within half a semitone", f, cents); if (std::abs(c) < 50) mc::require(m == p, "nearest", "%g Hz: pitch %d, nearest is %d", f, m, p); float c2; mc::require(Pitch::getPitchForFrequency((float)f, 0, a) == m, "null-cents", "result depends on the cents pointer"); (void)c2; float back = Pitch::getFrequencyForPitch(m, cents, a); mc::require(std::fabs(back - f) < 1e-4 * f, "roundtrip", "%g Hz came back as %g", f, back); mc::state(mc::Hash("n").i(p).i(c).d(a)); }
