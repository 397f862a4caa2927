#pragma once
#include "red.h"

// An arbitrary reachable accumulator: any integer per bin within what capacity-many deposits can leave
template <class T> static Model<T> draw_state(Ctx &c, int fold) {
  typedef Tr<T> R; Model<T> m(fold); m.empty = false;
  m.idx = c.chance(1, 4) ? (int)c.draw(3) : c.chance(1, 4) ? R::MAXIDX - (int)c.draw(std::min(fold, (int)R::MAXIDX)) : (int)c.draw(R::MAXIDX);
  int maxbits = R::W - 1 + R::P + R::P - R::W - 2 - 3;      // capacity * 2^(W-1), a little less
  int top = (int)c.draw(2) == 0 ? (int)c.draw(maxbits) : (int)c.draw(std::min(maxbits, R::P)); 
  int style = c.weighted({4, 3, 3, 2});
  for (int i = 0; i < fold; i++) {
    int v = m.idx + i; i128 x = 0;
    bool dup = v > R::MAXIDX;
    int bits = dup ? std::min(20, top) : style == 0 ? (int)c.draw(maxbits) : style == 3 ? (c.chance(1, 2) ? 0 : (int)c.draw(maxbits)) : top;
    if (bits > 0) { u128 r = ((u128)c.draw(~0ull) << 64) | c.draw(~0ull); switch (c.weighted({4, 2, 2})) { case 0: x = (i128)(r >> (128 - bits)); break; case 1: x = ((i128)1 << bits) - 1 - (i128)(r & 7); break; case 2: x = (i128)1 << (bits - 1); break; } if (x < 0) x = 0; if (c.chance(1, 2)) x = -x; }
    m.s[v] = x;
  }
  if (style == 2)         // each bin cancels most of the bin above it
    for (int i = fold - 1; i > 0; i--) {
      int v = m.idx + i; if (v > R::MAXIDX) continue;
      int lim = maxbits - R::W; i128 up = m.s[v - 1]; i128 mx = (i128)1 << lim; if (up > mx) up %= mx; if (up < -mx) up = -((-up) % mx); m.s[v - 1] = up;
      m.s[v] = -(up << R::W) + (i128)((int64_t)c.draw(1000) - 500);
    }
  // the zero slices at the top are possible too (cancellation)
  return m;
}
