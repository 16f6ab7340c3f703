// Many copies of small scenes side by side in one world.  They are too far
// apart to interact, so what happens to each of them must be something which
// can happen to it alone (decided by the reference model on the small scene).
#pragma once
#include "drive.hpp"

namespace mc {

struct Tiles {
    int n, m, size;              // tiles along X and Y, cells of a tile
    static const int O = 2;      // first tile
    static WP grid(int n, int m, int size) {
        WP p;
        p.hx = (n * size + 2 * O) / 2 + 1;
        p.hy = (m * size + 2 * O) / 2 + 1;
        p.hz = 30;
        return p;
    }
    // kind(k): the tile at place k = a * m + b.  The records of all tiles are
    // dealt in turn, those of one tile keep their order.
    void fill(St* s, const std::function<const St&(int)>& kind) const {
        size_t most = 0;
        for (int a = 0; a < n; a++) for (int b = 0; b < m; b++) {
            const St& t = kind(a * m + b);
            most = std::max(most, t.e.size());
            for (int i = 0; i < size; i++) for (int j = 0; j < size; j++)
                s->at(O + a * size + i, O + b * size + j) = t.at(i, j);
        }
        for (size_t q = 0; q < most; q++)
            for (int a = 0; a < n; a++) for (int b = 0; b < m; b++) {
                const St& t = kind(a * m + b);
                if (q >= t.e.size()) continue;
                Ent e = t.e[q];
                e.i += O + a * size; e.j += O + b * size;
                s->e.push_back(e);
            }
    }
    St cut(const St& s, int k) const {
        St t;
        t.nx = t.ny = size;
        int a = k / m, b = k % m;
        for (int i = 0; i < size; i++) for (int j = 0; j < size; j++)
            t.c.push_back(s.at(O + a * size + i, O + b * size + j));
        return t;
    }
    // Columns outside all tiles, which nothing may change
    std::string gaps(const St& a, const St& b) const {
        for (int i = 0; i < a.nx; i++) for (int j = 0; j < a.ny; j++)
            if (i < O || j < O || i >= O + n * size || j >= O + m * size)
                if (!(a.at(i, j) == b.at(i, j)))
                    return "a column far from all scenes changed";
        return "";
    }
};
inline St tile(int size, int t) {
    St s; s.nx = s.ny = size;
    s.c.assign(size * size, col(t));
    return s;
}

}  // namespace mc
