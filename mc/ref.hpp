// Reference models of the soil movements, written from the documentation in
// integer arithmetic (heights in cells).  They return the set of all possible
// results over every random order.
#pragma once
#include <climits>
#include <functional>
#include <set>
#include <unordered_set>
#include "world.hpp"

namespace ref {
using mc::St; using mc::Col; using mc::Ent;

struct Area { int x0, x1, y0, y1; };     // half open

inline int half_down(int x) { return x >= 0 ? x / 2 : -((1 - x) / 2); }

inline int low_bottom(const Col& c) {    // underside of the lowest wall
    int b = INT_MAX;
    for (int l = 0; l < 4; l += 2)
        if (c.wall(l)) b = std::min(b, c.b[l]);
    return b;
}
inline int top_of(const Col& c, int l) {  // top of the soil / wall of layer l
    return c.soil(l) ? c.s[l + 1] : c.b[l + 1];
}

// Where soil arriving at a column ends up
struct Target {
    int layer = -1;           // -1: the terrain, otherwise wall layer 0 or 2
    int top = 0;              // height of what is there now
    int room = INT_MAX;       // how much fits
    bool closed = false;      // nothing may go there
};

// Terrain sliding onto a neighbour
inline Target terrain_target(const Col& c) {
    Target t;
    t.top = c.t;
    bool w0 = c.wall(0), w2 = c.wall(2);
    if (!w0 && !w2) return t;
    int bot = low_bottom(c);
    if (c.t < bot) { t.room = bot - c.t; return t; }
    // the body sits on the terrain
    if (w0 != w2) {
        t.layer = w0 ? 0 : 2;
        t.top = top_of(c, t.layer);
        return t;
    }
    int lo = c.b[0] < c.b[2] ? 0 : 2, up = 2 - lo;
    if (top_of(c, lo) < c.b[up]) {
        t.layer = lo; t.top = top_of(c, lo); t.room = c.b[up] - t.top;
    } else {
        t.layer = up; t.top = top_of(c, up);
    }
    return t;
}

// Soil lying on a wall whose top is at `from`, sliding onto a neighbour
inline Target body_target(const Col& c, int from) {
    Target t;
    t.top = c.t;
    bool w0 = c.wall(0), w2 = c.wall(2);
    if (!w0 && !w2) return t;
    if (w0 != w2) {
        int l = w0 ? 0 : 2;
        if (from < c.b[l]) { t.room = c.b[l] - c.t; return t; }
        t.layer = l; t.top = top_of(c, l);
        return t;
    }
    int lo = c.b[0] < c.b[2] ? 0 : 2, up = 2 - lo;
    if (from < c.b[up] && top_of(c, lo) < c.b[up]) {
        t.layer = lo; t.top = top_of(c, lo); t.room = c.b[up] - t.top;
    } else {
        t.layer = up; t.top = top_of(c, up);
    }
    return t;
}

inline void land(St* s, int i, int j, const Target& t, int h) {
    Col& c = s->at(i, j);
    if (t.layer < 0) { c.t += h; return; }
    if (h == 0) return;
    if (!c.soil(t.layer)) c.s[t.layer] = c.s[t.layer + 1] = c.b[t.layer + 1];
    c.s[t.layer + 1] += h;
    s->e.push_back({t.layer, i, j, h});
}

static const int DX[8] = {1, -1, 0, 0, 1, 1, -1, -1};
static const int DY[8] = {0, 0, 1, -1, 1, -1, 1, -1};

// One avalanche of terrain; 0 = stable, 1 = moved
inline bool terrain_pair(St* s, int i, int j, int ci, int cj, int dh) {
    Col& a = s->at(i, j);
    const Col& c = s->at(ci, cj);
    if (!(c.t < a.t - dh)) return false;
    Target t = terrain_target(c);
    // Terrain which can go under a wall only looks at the terrain
    if (!(t.top < a.t - dh)) return false;
    int left = half_down(dh + a.t + t.top);
    int h = std::min(a.t - left, t.room);
    a.t -= h;
    land(s, ci, cj, t, h);
    return true;
}

// One avalanche of the soil of record `n`
inline bool body_pair(St* s, int n, int ci, int cj, int dh, bool* moved) {
    int l = s->e[n].ind, i = s->e[n].i, j = s->e[n].j;
    Col& a = s->at(i, j);
    if (!a.soil(l) || s->e[n].h <= 0) return false;
    Target t = body_target(s->at(ci, cj), a.b[l + 1]);
    int S = a.s[l + 1];
    if (!(t.top < S - dh)) return false;
    int left = half_down(dh + S + t.top);
    int h = std::min({S - left, s->e[n].h, t.room});
    if (h <= 0) return true;      // unstable but nothing can move
    *moved = true;
    a.s[l + 1] -= h;
    s->e[n].h -= h;
    if (a.s[l + 1] == a.s[l]) a.s[l] = a.s[l + 1] = 0;
    land(s, ci, cj, t, h);
    return true;
}

// ---- canonical keys
using Key = std::vector<short>;
inline Key cols_key(const St& s) {
    Key k;
    k.reserve(s.c.size() * 9);
    for (auto& c : s.c) {
        k.push_back(c.t);
        for (int l = 0; l < 4; l++) k.push_back(c.b[l]);
        for (int l = 0; l < 4; l++) k.push_back(c.s[l]);
    }
    return k;
}
// columns which differ between walls are constant during relaxation: a short
// key with terrain and soil only
inline Key soil_key(const St& s) {
    Key k;
    k.reserve(s.c.size() * 5);
    for (auto& c : s.c) {
        k.push_back(c.t);
        for (int l = 0; l < 4; l++) k.push_back(c.s[l]);
    }
    return k;
}
inline void add_entries(Key* k, const St& s) {
    k->push_back(-30000);
    for (auto& e : s.e) {
        k->push_back(e.ind); k->push_back(e.i); k->push_back(e.j);
        k->push_back(e.h);
    }
}

struct Out { St s; bool acted; bool moved; };
using Outs = std::map<Key, Out>;    // keyed by soil_key (+ acted)

// ---- a pass of terrain relaxation over `area`
inline std::vector<std::pair<int, int>> unstable_cells(
    const St& s, int dh, const Area& a
) {
    std::vector<std::pair<int, int>> u;
    for (int i = a.x0; i < a.x1; i++)
        for (int j = a.y0; j < a.y1; j++) {
            int h = s.at(i, j).t - dh;
            bool un = false;
            for (int d = 0; d < 4; d++)
                if (s.at(i + DX[d], j + DY[d]).t < h) un = true;
            if (un) u.push_back({i, j});
        }
    return u;
}

inline Outs terrain_pass(const St& s0, int dh, const Area& a) {
    auto u = unstable_cells(s0, dh, a);
    Outs outs;
    std::set<Key> seen;
    std::function<void(const St&, unsigned, int, unsigned, bool)> rec =
        [&](const St& s, unsigned left, int cell, unsigned dirs, bool acted) {
        // cell >= 0: directions `dirs` of that cell still to be visited
        Key k = soil_key(s);
        k.push_back(left); k.push_back(cell); k.push_back(dirs);
        k.push_back(acted);
        if (!seen.insert(k).second) return;
        if (cell >= 0) {
            bool any = false;
            for (int d = 0; d < 4; d++) {
                if (!(dirs >> d & 1)) continue;
                St n = s;
                if (!terrain_pair(&n, u[cell].first, u[cell].second,
                        u[cell].first + DX[d], u[cell].second + DY[d], dh))
                    continue;
                any = true;
                rec(n, left, cell, dirs & ~(1u << d), true);
            }
            if (any) return;
            cell = -1;
        }
        if (!left) {
            Key o = soil_key(s);
            outs.emplace(o, Out{s, acted, acted});
            return;
        }
        for (size_t c = 0; c < u.size(); c++)
            if (left >> c & 1) rec(s, left & ~(1u << c), c, 15, acted);
    };
    rec(s0, (1u << u.size()) - 1, -1, 0, false);
    return outs;
}

// ---- a pass of carried soil relaxation, records in list order
inline Outs body_pass(const St& s0, int dh) {
    Outs outs;
    std::set<Key> seen;
    size_t n0 = s0.e.size();
    std::function<void(const St&, size_t, unsigned, bool, bool)> rec =
        [&](const St& s, size_t n, unsigned dirs, bool acted, bool moved) {
        Key k = soil_key(s);
        add_entries(&k, s);
        k.push_back(n); k.push_back(dirs); k.push_back(acted);
        k.push_back(moved);
        if (!seen.insert(k).second) return;
        if (n == n0) {
            Key o = soil_key(s);
            auto r = outs.emplace(o, Out{s, acted, moved});
            if (!r.second) {   // keep the weaker flags
                r.first->second.acted |= acted;
                r.first->second.moved |= moved;
            }
            return;
        }
        bool any = false;
        if (dirs)
            for (int d = 0; d < 4; d++) {
                if (!(dirs >> d & 1)) continue;
                St m = s;
                bool mv = false;
                if (!body_pair(&m, n, s.e[n].i + DX[d], s.e[n].j + DY[d],
                               dh, &mv))
                    continue;
                any = true;
                rec(m, n, dirs & ~(1u << d), true, moved || mv);
            }
        if (!any) rec(s, n + 1, 15, acted, moved);
    };
    rec(s0, 0, 15, false, false);
    return outs;
}

// ---- terrain pushed out by the body
inline Outs push_terrain(const St& s0, const Area& a) {
    Outs outs;
    std::set<Key> seen;
    struct Job { int i, j, l; };
    std::vector<Job> jobs;
    for (int i = a.x0; i < a.x1; i++)
        for (int j = a.y0; j < a.y1; j++)
            for (int l = 0; l < 4; l += 2)
                if (s0.at(i, j).wall(l) && s0.at(i, j).t > s0.at(i, j).b[l])
                    jobs.push_back({i, j, l});
    // A column is handled wall by wall (in list order), each time down to the
    // underside of that wall, with its own order of directions.
    std::function<void(const St&, size_t)> next;
    std::function<void(const St&, size_t, int, int, unsigned)> ring =
        [&](const St& s, size_t n, int h, int r, unsigned left) {
        Key k = soil_key(s);
        k.push_back(n); k.push_back(h); k.push_back(r); k.push_back(left);
        if (!seen.insert(k).second) return;
        const Job& J = jobs[n];
        if (h == 0) {
            St m = s;
            m.at(J.i, J.j).t = m.at(J.i, J.j).b[J.l];
            next(m, n + 1);
            return;
        }
        bool any = false;
        for (int d = 0; d < 8; d++) {
            if (!(left >> d & 1)) continue;
            int ci = J.i + DX[d] * r, cj = J.j + DY[d] * r;
            if (!s.in(ci, cj)) continue;
            const Col& c = s.at(ci, cj);
            int bot = low_bottom(c);
            int room = bot == INT_MAX ? h : bot - c.t;
            if (room <= 0) continue;
            any = true;
            St m = s;
            int q = std::min(room, h);
            m.at(ci, cj).t += q;
            ring(m, n, h - q, r, left & ~(1u << d));
        }
        if (!any) {
            if (r > s.nx + s.ny) return;   // no room in the whole grid
            ring(s, n, h, r + 1, 255);
        }
    };
    next = [&](const St& s, size_t n) {
        if (n == jobs.size()) {
            outs.emplace(soil_key(s), Out{s, !jobs.empty(), !jobs.empty()});
            return;
        }
        const Job& J = jobs[n];
        int h = s.at(J.i, J.j).t - s.at(J.i, J.j).b[J.l];
        if (h <= 0) { next(s, n + 1); return; }
        ring(s, n, h, 1, 255);
    };
    next(s0, 0);
    return outs;
}

// ---- carried soil pushed out by the other wall.  `lost` counts the soil
// which found no room.
struct BOut { St s; int lost; };
using BOuts = std::map<Key, BOut>;
inline BOuts push_body_soil(const St& s0) {
    BOuts outs;
    std::set<Key> seen;
    // explores one direction to its end, returns what is left
    auto walk = [&](St* s, int i, int j, int l, int d, int h) {
        int pi = i, pj = j, pl = l;
        int limit = s->at(i, j).b[2 - l];       // underside of the wall above
        for (int r = 1; h > 0; r++) {
            int ci = i + DX[d] * r, cj = j + DY[d] * r;
            if (!s->in(ci, cj)) return h;
            Col& c = s->at(ci, cj);
            int from = s->at(pi, pj).b[pl + 1];
            bool w0 = c.wall(0), w2 = c.wall(2);
            Target t;
            if (!w0 && !w2) { c.t += h; return 0; }
            if (w0 != w2) {
                int k = w0 ? 0 : 2;
                if (c.b[k] > from) { c.t += h; return 0; }   // below it
                if (c.b[k + 1] >= limit) return h;           // blocked
                t.layer = k;
                land(s, ci, cj, t, h);
                return 0;
            }
            int lo = c.b[0] < c.b[2] ? 0 : 2, up = 2 - lo;
            int room = c.b[up] - top_of(c, lo);
            int q = std::min(std::max(room, 0), h);
            t.layer = lo;
            land(s, ci, cj, t, q);
            h -= q;
            pi = ci; pj = cj; pl = lo;
            limit = c.b[up];
        }
        return h;
    };
    std::function<void(const St&, size_t, int)> next;
    std::function<void(const St&, size_t, int, unsigned, int)> dirs =
        [&](const St& s, size_t n, int h, unsigned left, int lost) {
        Key k = soil_key(s);
        add_entries(&k, s);
        k.push_back(n); k.push_back(h); k.push_back(left); k.push_back(lost);
        if (!seen.insert(k).second) return;
        // Directions which take nothing leave no trace (the eight rays have
        // no cell in common): they can be dropped
        bool any = false;
        if (h > 0)
            for (int d = 0; d < 8; d++) {
                if (!(left >> d & 1)) continue;
                St m = s;
                int q = walk(&m, s.e[n].i, s.e[n].j, s.e[n].ind, d, h);
                if (q == h) { left &= ~(1u << d); continue; }
                any = true;
                dirs(m, n, q, left & ~(1u << d), lost);
            }
        if (!any) next(s, n + 1, lost + h);
    };
    next = [&](const St& s, size_t n, int lost) {
        if (n >= s.e.size()) {
            Key k = soil_key(s);
            k.push_back(lost);
            outs.emplace(k, BOut{s, lost});
            return;
        }
        const Ent& e = s.e[n];
        const Col& c = s.at(e.i, e.j);
        int up = 2 - e.ind;
        int h = 0;
        if (c.wall(up) && c.soil(e.ind) && c.b[up] > c.b[e.ind])
            h = std::min(c.s[e.ind + 1] - c.b[up], e.h);
        if (h <= 0) { next(s, n + 1, lost); return; }
        St m = s;
        m.e[n].h -= h;
        Col& x = m.at(e.i, e.j);
        x.s[e.ind + 1] -= h;
        if (x.s[e.ind + 1] == x.s[e.ind]) x.s[e.ind] = x.s[e.ind + 1] = 0;
        dirs(m, n, h, 255, lost);
    };
    next(s0, 0, 0);
    return outs;
}

}  // namespace ref
