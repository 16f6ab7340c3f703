// Reference of the motion of the carried soil (C10), in double precision.
#pragma once
#include "drive.hpp"

namespace mc {

struct Place { int ind, i, j; };      // ind -1: the terrain
// All the places which the documented rule allows for a record; empty when a
// rounding makes the rule itself ambiguous.
inline std::vector<Place> follow_places(
    const WP& p, const Pose& from, const Pose& to, const D3& b, const St& s
) {
    D3 n = to_world(to.pos, to.ori, b);
    D3 o = to_world(from.pos, from.ori, b);
    double dx = n[0] - o[0], dy = n[1] - o[1];
    double fi = n[0] / double(p.cxy) + p.hx, fj = n[1] / double(p.cxy) + p.hy;
    std::vector<Place> out;
    for (double f : {fi, fj})
        if (std::fabs(std::fabs(f - std::floor(f)) - 0.5) < 2e-3) return out;
    int i0 = std::lround(fi), j0 = std::lround(fj);
    const double E = 2e-6;
    std::vector<int> sx = {dx < 0 ? -1 : 1}, sy = {dy < 0 ? -1 : 1};
    if (std::fabs(dx) < E) sx = {1, -1};
    if (std::fabs(dy) < E) sy = {1, -1};
    auto add = [&](Place q) {
        for (auto& x : out)
            if (x.ind == q.ind && x.i == q.i && x.j == q.j) return;
        out.push_back(q);
    };
    for (int X : sx) for (int Y : sy) for (int main = 0; main < 2; main++) {
        double diff = std::fabs(dx) - std::fabs(dy);
        if (main == 0 && diff < -E) continue;      // along X
        if (main == 1 && diff > E) continue;       // along Y
        std::vector<std::pair<int, int>> dir;
        if (main == 0)
            dir = {{0, 0}, {X, 0}, {X, Y}, {0, Y}, {X, -Y}, {0, -Y}, {-X, Y},
                   {-X, 0}, {-X, -Y}};
        else
            dir = {{0, 0}, {0, Y}, {X, Y}, {X, 0}, {-X, Y}, {-X, 0}, {X, -Y},
                   {0, -Y}, {-X, -Y}};
        double best = 1e9;
        bool done = false;
        for (auto [di, dj] : dir) {
            int i = i0 + di, j = j0 + dj;
            if (!s.in(i, j)) continue;
            const Col& c = s.at(i, j);
            for (int l = 0; l < 4; l += 2) {
                if (!c.wall(l)) continue;
                double d = std::fabs(n[2] - c.b[l + 1] * double(p.cz));
                if (d < p.cz + p.tol - 4e-6) { add({l, i, j}); done = true; }
                else if (d < p.cz + p.tol + 4e-6) return {};   // ambiguous
                best = std::min(best, d);
            }
            if (done) break;
        }
        if (done) continue;
        if (best > 1e8) { add({-1, i0, j0}); continue; }
        for (auto [di, dj] : dir) {
            int i = i0 + di, j = j0 + dj;
            if (!s.in(i, j)) continue;
            const Col& c = s.at(i, j);
            for (int l = 0; l < 4; l += 2)
                if (c.wall(l) && std::fabs(n[2] - c.b[l + 1] * double(p.cz)) <
                    best + 1e-5)
                    add({l, i, j});
        }
    }
    return out;
}

struct Rec { D3 b; double h; int ind, i, j; };
inline std::vector<Rec> records_of(const ss::SimOut& o) {
    std::vector<Rec> v;
    for (auto& e : o.body_soil_pos_)
        v.push_back({{e.x_b, e.y_b, e.z_b}, e.h_soil, e.ind, e.ii, e.jj});
    return v;
}

// Checks one call of UpdateBodySoil: `s0` is the state before (new walls
// already placed), `rec0` the records before, `o` the result.
// Returns an error or "".  *ambiguous counts the records whose place is not
// determined by the rule.
inline std::string check_follow(
    const WP& p, const Pose& from, const Pose& to, const St& s0,
    const std::vector<Rec>& rec0, const ss::SimOut& o, const ss::Body& body,
    long warned, int* ambiguous
) {
    std::ostringstream er;
    St s = snap(o, p.cz);
    if (!s.bad.empty()) return s.bad;
    std::string m = walls_same(s0, s);
    if (!m.empty()) return m;
    if (body.pos_ != to.pos || body.ori_ != to.ori)
        return "the pose of the body was not recorded exactly";
    if ((m = bookkeeping(s)) != "") return m;
    // every record before has one record after, at an allowed place
    std::vector<Rec> now = records_of(o);
    std::vector<char> used(now.size(), 0);
    std::vector<int> dt(s.c.size(), 0);
    bool fell = false, amb = false;
    for (auto& r : rec0) {
        double q = r.h / double(p.cz);
        if (q < 0.9 - 1e-3) continue;            // dropped
        if (std::fabs(q - 0.9) < 1e-3) { amb = true; continue; }
        if (std::fabs(q - std::floor(q) - 0.5) < 1e-3) { amb = true; continue; }
        int h = std::lround(q);
        auto pl = follow_places(p, from, to, r.b, s0);
        if (pl.empty()) { amb = true; (*ambiguous)++; }
        bool ok = false, terrain = false;
        for (auto& a : pl) if (a.ind < 0) terrain = true;
        if (terrain) {
            fell = true;
            dt[pl[0].i * s.ny + pl[0].j] += h;
            continue;
        }
        for (size_t k = 0; k < now.size() && !ok; k++) {
            if (used[k]) continue;
            auto& x = now[k];
            bool same = std::fabs(x.h - h * double(p.cz)) < 0.01 * p.cz;
            for (int c = 0; c < 3; c++)
                if (std::fabs(x.b[c] - r.b[c]) > 1e-6) same = false;
            if (!same) continue;
            bool here = pl.empty();
            for (auto& a : pl)
                if (a.ind == x.ind && a.i == x.i && a.j == x.j) here = true;
            if (here) { used[k] = 1; ok = true; }
        }
        if (!ok && !pl.empty()) {
            er << "record of " << h << " cells at body frame (" << r.b[0]
               << "," << r.b[1] << "," << r.b[2] << ") is not carried to "
               << "layer " << pl[0].ind << " of (" << pl[0].i << ","
               << pl[0].j << ")" << (pl.size() > 1 ? " (or ties)" : "")
               << "; records now:";
            for (auto& x : now)
                er << " [layer " << x.ind << " (" << x.i << "," << x.j
                   << ") h=" << x.h / p.cz << " b=" << x.b[0] << ","
                   << x.b[1] << "," << x.b[2] << "]";
            return er.str();
        }
    }
    if (amb) return "";
    for (size_t k = 0; k < now.size(); k++)
        if (!used[k] && now[k].h > 0.5 * p.cz)
            return "a record appeared which was not carried before";
    for (size_t k = 0; k < s.c.size(); k++)
        if (s.c[k].t != s0.c[k].t + dt[k])
            return "terrain changed although the soil had a wall to rest on";
    if (fell != (warned > 0))
        return fell ? "soil fell on the terrain without warning" :
            "warning although every record found a wall";
    return "";
}

}  // namespace mc
