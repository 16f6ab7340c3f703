// Consistency checks (C14), output files (C15), constructors (C16), initial
// terrain (C17) and rigid body geometry (C19).
#include <filesystem>
#include <fstream>
#include <limits>
#include <stdexcept>
#include <unistd.h>
#include "step.hpp"
using namespace mc;
namespace fs = std::filesystem;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string path;
static std::string text() { return path; }

// ------------------------------------------------------------------- C14
// A column in real heights: terrain, four wall and four soil bounds
using Raw = std::array<double, 9>;
static std::string raw_str(const Raw& r) {
    std::ostringstream o;
    o.precision(9);
    o << "terrain " << r[0] << " walls";
    for (int k = 1; k < 5; k++) o << " " << r[k];
    o << " soil";
    for (int k = 5; k < 9; k++) o << " " << r[k];
    return o.str();
}
// 1: consistent, 0: not, -1: within rounding of a limit
static int consistent(const Raw& r, double tol) {
    bool w[2], q[2];
    double wl[2], wh[2], sl[2], sh[2];
    for (int l = 0; l < 2; l++) {
        wl[l] = r[1 + 2 * l]; wh[l] = r[2 + 2 * l];
        sl[l] = r[5 + 2 * l]; sh[l] = r[6 + 2 * l];
        w[l] = wl[l] != 0 || wh[l] != 0;
        q[l] = sl[l] != 0 || sh[l] != 0;
    }
    bool amb = false, bad = false;
    const double E = 0.2 * tol;
    // d > 0 breaks a convention
    auto must = [&](double d) {
        if (std::fabs(d) < E) amb = true;
        else if (d > 0) bad = true; };
    // a and b both > 0 break a convention
    auto both = [&](double a, double b) {
        if (a < -E || b < -E) return;
        if (a > E && b > E) bad = true; else amb = true; };
    for (int l = 0; l < 2; l++) {
        int u = 1 - l;
        if (w[l]) {
            must(r[0] - wl[l] - tol);            // terrain above the wall
            must(wl[l] - wh[l] + tol);           // wall without thickness
        }
        if (q[l]) {
            must(sl[l] - sh[l] - tol);           // soil upside down
            if (!w[l]) bad = true;               // soil without wall
            else if (std::fabs(sl[l] - wh[l]) > 1.2 * tol) bad = true;
            else if (sl[l] != wh[l]) amb = true;
            if (w[u]) both(wh[u] - tol - sl[l], sh[l] - tol - wl[u]);
        }
    }
    if (w[0] && w[1]) both(wh[0] + tol - wl[1], wh[1] + tol - wl[0]);
    if (bad) return 0;
    return amb ? -1 : 1;
}
static void set_raw(ss::SimOut* o, int i, int j, const Raw& r) {
    o->terrain_[i][j] = r[0];
    for (int l = 0; l < 4; l++) {
        o->body_[l][i][j] = r[1 + l];
        o->body_soil_[l][i][j] = r[5 + l];
    }
}
static std::uint64_t bits_out(const ss::SimOut& o) {
    std::uint64_t h = 3;
    auto f = [&](float v) { std::uint32_t u; std::memcpy(&u, &v, 4);
        h = mix(h, u); };
    for (auto& r : o.terrain_) for (float v : r) f(v);
    for (int l = 0; l < 4; l++) {
        for (auto& r : o.body_[l]) for (float v : r) f(v);
        for (auto& r : o.body_soil_[l]) for (float v : r) f(v);
    }
    for (auto& e : o.body_soil_pos_) {
        h = mix(h, e.ind); h = mix(h, e.ii); h = mix(h, e.jj);
        f(e.x_b); f(e.y_b); f(e.z_b); f(e.h_soil);
    }
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
        h = mix(h, o.body_area_[a][b]);
        h = mix(h, o.relax_area_[a][b]);
        h = mix(h, o.impact_area_[a][b]);
    }
    return mix(h, o.equilibrium_);
}
static void check_one(ss::SimOut* o, int want, float tol, bool deep) {
    std::uint64_t h = deep ? bits_out(*o) : 0;
    long w = n_warning;
    bool ok = ss::CheckSoil(o, tol);
    w = n_warning - w;
    R->count("runs");
    if (want >= 0 && ok != (want == 1))
        R->fail("soil", ok ? "an inconsistent state is accepted" :
                "a consistent state is rejected: " + last_warning);
    if (ok && w) R->fail("warning", "a state is accepted with a warning");
    if (!ok && !w) R->fail("warning", "a state is rejected silently");
    if (deep && bits_out(*o) != h) R->fail("changed", "the check changed the "
                                           "state");
}
static void columns() {
    // every column over a height alphabet
    WP p; p.hx = 2; p.hy = 2;
    ss::Grid g = make_grid(p);
    std::vector<int> al = R->thorough() ? std::vector<int>{-2, -1, 0, 1, 2, 3} :
        std::vector<int>{-1, 0, 1, 2, 3};
    long n = al.size(), all = 1;
    for (int k = 0; k < 9; k++) all *= n;
    long lump = all / (n * n * n);
    for (long a = 0; a < n * n * n; a++) {
        if (!R->next()) continue;
        ss::SimOut o(g);
        set_area(o.body_area_, 2, 3, 2, 3);
        Raw r;
        R->describe = [&] { return raw_str(r); };
        for (long b = 0; b < lump; b++) {
            long c = a * lump + b;
            std::array<int, 9> v;
            for (int k = 0; k < 9; k++) { v[k] = al[c % n]; c /= n; }
            for (int k = 0; k < 9; k++) r[k] = v[k] * double(p.cz);
            set_raw(&o, 2, 2, r);
            // float(k * cz) is used by both: compare in cells
            Raw q;
            for (int k = 0; k < 9; k++) q[k] = float(r[k]);
            int want = consistent(q, p.tol);
            if (want < 0) { R->count("ambiguous"); continue; }
            R->distinct("outcomes", mix(a * lump + b, want));
            check_one(&o, want, p.tol, b % 64 == 0);
        }
    }
}
static void tolerance() {
    // all columns over three heights, one or two bounds moved by less or more
    // than the tolerance, for several tolerances
    WP p; p.hx = 2; p.hy = 2;
    ss::Grid g = make_grid(p);
    long all = 19683;
    for (long c0 = 0; c0 < all; c0++) {
        if (!R->next()) continue;
        long c = c0;
        Raw r;
        for (int k = 0; k < 9; k++) { r[k] = float((c % 3) * 0.1f); c /= 3; }
        for (float tol : {1e-5f, 1e-3f, 0.02f}) {
            ss::SimOut o(g);
            set_area(o.body_area_, 2, 3, 2, 3);
            Raw q;
            R->describe = [&] {
                return raw_str(q) + " tolerance " + std::to_string(tol); };
            std::vector<double> off = {-1.5 * tol, -0.5 * tol, 0.5 * tol,
                                       1.5 * tol};
            if (R->thorough()) { off.push_back(-2.5 * tol);
                off.push_back(2.5 * tol); }
            for (int k = 0; k < 9; k++) for (double d : off) {
                int m0 = R->thorough() ? 0 : 9;
                for (int m = m0; m <= 9; m++) {
                    if (m < 9 && m <= k) continue;
                    q = r;
                    q[k] += d;
                    if (m < 9) q[m] += d;
                    for (auto& v : q) v = float(v);
                    // an absent layer stays absent
                    set_raw(&o, 2, 2, q);
                    int want = consistent(q, tol);
                    if (want < 0) { R->count("ambiguous"); continue; }
                    check_one(&o, want, tol, false);
                }
            }
        }
        R->distinct("outcomes", c0);
    }
}
static void locations() {
    // defects of each kind at every cell, for every body area
    WP p; p.hx = 3; p.hy = 2;
    ss::Grid g = make_grid(p);
    const double c = 0.1f;
    std::vector<Raw> bad = {
        {2*c, c, 2*c, 0, 0, 0, 0, 0, 0}, {2*c, 0, 0, c, 3*c, 0, 0, 0, 0},
        {0, 2*c, c, 0, 0, 0, 0, 0, 0}, {0, 0, 0, c, c, 0, 0, 0, 0},
        {0, c, 3*c, 2*c, 4*c, 0, 0, 0, 0}, {0, c, 2*c, 2*c, 3*c, 0, 0, 0, 0},
        {0, c, 2*c, 3*c, 4*c, 2*c, 4*c, 0, 0},
        {0, 3*c, 4*c, c, 2*c, 0, 0, 2*c, 5*c},
        {0, c, 2*c, 0, 0, 3*c, 2*c, 0, 0}, {0, 0, 0, c, 2*c, 0, 0, 3*c, 4*c},
        {0, c, 3*c, 0, 0, 2*c, 4*c, 0, 0}, {0, 0, 0, 0, 0, c, 2*c, 0, 0},
        {0, c, 2*c, 0, 0, 0, 0, 2*c, 3*c},
        {0, c, 2*c, 0, 0, 2*c + 0.3*c, 3*c, 0, 0}};
    Raw good = {0, c, 2*c, 4*c, 5*c, 2*c, 4*c, 5*c, 6*c};
    int nx = 7, ny = 5;
    for (int x0 = 0; x0 <= nx; x0++) for (int x1 = x0; x1 <= nx; x1++)
    for (int y0 = 0; y0 <= ny; y0++) for (int y1 = y0; y1 <= ny; y1++) {
        if (!R->next()) continue;
        ss::SimOut o(g);
        set_area(o.body_area_, x0, x1, y0, y1);
        std::string what;
        R->describe = [&] {
            std::ostringstream s;
            s << what << "; body area [" << x0 << "," << x1 << ")x[" << y0
              << "," << y1 << ")";
            return s.str(); };
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
            set_raw(&o, i, j, (i + j) % 2 ? good : Raw{});
        what = "no defect";
        check_one(&o, 1, p.tol, true);
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
            for (size_t k = 0; k < bad.size(); k++) {
                if (!R->thorough() && (i * 3 + j * 5 + k + x0 + y1) % 5) continue;
                set_raw(&o, i, j, bad[k]);
                bool in = i >= x0 && i < x1 && j >= y0 && j < y1;
                what = raw_str(bad[k]) + " at (" + std::to_string(i) + "," +
                    std::to_string(j) + ")";
                check_one(&o, !in, p.tol, false);
                set_raw(&o, i, j, (i + j) % 2 ? good : Raw{});
            }
        R->distinct("outcomes", (x0 * 8 + x1) * 64 + y0 * 8 + y1);
    }
}
static void volumes() {
    // states with soil on both layers, every single and double change of the
    // amounts, on both sides of the tolerance
    for (int variant = 0; variant < 10; variant++) {
        WP p; p.hx = 2 + variant % 2; p.hy = 2; p.hz = 20;
        if (variant >= 3) { p.cxy = 0.2f; p.cz = 0.05f; }
        if (variant >= 6) { p.cxy = 3; p.cz = 1.3f; p.tol = 2e-5f; }
        if (variant >= 8) { p.cxy = 0.015f; p.cz = 0.004f; }
        ss::Grid g = make_grid(p);
        St s; s.nx = 2 * p.hx + 1; s.ny = 5;
        s.c.assign(s.nx * s.ny, Col());
        for (int i = 0; i < s.nx; i++) for (int j = 0; j < s.ny; j++)
            s.at(i, j).t = (i * 3 + j * variant) % 4 - 2;
        s.at(1, 1) = col1(0, 0, 1, 2, 2);
        s.at(0, 4) = col1(-3, 2, -2, -1, 3);
        s.at(2, 3) = col2(-1, 0, 0, 1, 2, 4, 5, 3);
        s.at(3, 2) = col2(-9, 2, -7, -6, 3, -2, -1, 1);   // soil up to zero
        s.at(s.nx - 1, 0) = col1(-4, 0, -3, 0, 4);         // soil from zero
        s.at(s.nx - 1, 2) = col1(-4, 2, -2, 0, 3);
        s.at(2, 0) = col2(-5, 0, -4, -3, 3, 1, 2, 0);
        s.at(0, 1) = col2(-9, 0, -8, -5, 1, -1, 0, 2);
        auto_entries(&s);
        // some amounts split in two or three records
        auto es = s.e;
        s.e.clear();
        for (auto& e : es) {
            if (e.h >= 3 && variant % 3) {
                s.e.push_back({e.ind, e.i, e.j, 1});
                s.e.push_back({e.ind, e.i, e.j, e.h - 1});
            } else { s.e.push_back(e); }
        }
        if (variant % 2) std::reverse(s.e.begin(), s.e.end());
        World w(p);
        int v = volume(s);
        struct Change { int kind, a, b; double d; };
        std::vector<Change> ch1;
        for (size_t k = 0; k < s.e.size(); k++)
            for (double d : {-1.0, 1.0, 0.5, -0.5, 2.0, 0.001, -0.001})
                ch1.push_back({0, int(k), 0, d});       // amount of a record
        for (int k = 0; k < s.nx * s.ny; k++)
            for (int d : {-1, 1, 3}) ch1.push_back({1, k, 0, double(d)});
        for (int k = 0; k < s.nx * s.ny; k++)
            for (int l = 0; l < 4; l += 2)
                for (double d : {-1.0, 1.0})
                    ch1.push_back({2, k, l, d});        // amount on the body
        for (size_t k = 0; k < s.e.size(); k++) {
            ch1.push_back({3, int(k), 0, 0});           // record removed
            ch1.push_back({4, int(k), 0, 0});           // record duplicated
            ch1.push_back({5, int(k), 0, 0});           // other layer
            ch1.push_back({6, int(k), 0, 0});           // other cell
        }
        ch1.push_back({9, 0, 0, 0});                    // nothing
        auto apply = [&](const Change& c, double sign, ss::SimOut* o,
                         std::vector<std::array<double, 2>>* soil,
                         std::vector<std::array<double, 2>>* rec,
                         long* total) {
            double cz = p.cz;
            if (c.kind == 0) {
                if (c.a >= static_cast<int>(o->body_soil_pos_.size())) return;
                auto& e = o->body_soil_pos_[c.a];
                e.h_soil += sign * c.d * cz;
                (*rec)[e.ii * s.ny + e.jj][e.ind / 2] += sign * c.d;
            } else if (c.kind == 1) {
                o->terrain_[c.a / s.ny][c.a % s.ny] += sign * c.d * cz;
                *total += long(sign * c.d);
            } else if (c.kind == 2) {
                auto& x = o->body_soil_[c.b + 1][c.a / s.ny][c.a % s.ny];
                double nv = std::lround(x / cz) + sign * c.d;
                x = nv * cz;
                (*soil)[c.a][c.b / 2] += sign * c.d;
                *total += long(sign * c.d);
            } else if (c.kind >= 3 && c.kind <= 6) {
                if (c.a >= static_cast<int>(o->body_soil_pos_.size())) return;
                auto e = o->body_soil_pos_[c.a];
                double h = e.h_soil / cz;
                if (c.kind != 4) {
                    o->body_soil_pos_.erase(o->body_soil_pos_.begin() + c.a);
                    (*rec)[e.ii * s.ny + e.jj][e.ind / 2] -= h;
                }
                if (c.kind == 5) e.ind = 2 - e.ind;
                if (c.kind == 6) e.jj = (e.jj + 1) % s.ny;
                if (c.kind != 3) {
                    o->body_soil_pos_.push_back(e);
                    (*rec)[e.ii * s.ny + e.jj][e.ind / 2] += h;
                }
            }
        };
        for (size_t a = 0; a < ch1.size(); a++) {
            if (!R->next()) continue;
            for (size_t b = a; b < ch1.size(); b++) {
                if (b > a && !R->thorough() && (a * 7 + b) % 5 &&
                    b + 1 != ch1.size()) continue;
                w.load(s);
                std::vector<std::array<double, 2>> soil(s.nx * s.ny), rec(
                    s.nx * s.ny);
                for (int k = 0; k < s.nx * s.ny; k++)
                    for (int l = 0; l < 2; l++)
                        soil[k][l] = s.c[k].s[2 * l + 1] - s.c[k].s[2 * l];
                for (auto& e : s.e) rec[e.i * s.ny + e.j][e.ind / 2] += e.h;
                long total = v;
                apply(ch1[a], 1, &w.out, &soil, &rec, &total);
                // the second change: added or taken back
                if (b > a) apply(ch1[b], b % 2 ? 1 : -1, &w.out, &soil, &rec,
                                 &total);
                bool same = true, amb = false;
                for (int k = 0; k < s.nx * s.ny; k++)
                    for (int l = 0; l < 2; l++) {
                        double d = std::fabs(soil[k][l] - rec[k][l]) * p.cz;
                        if (d > 2e-6 + 1.3 * p.tol) same = false;
                        else if (d > 0.5 * p.tol) amb = true;
                    }
                if (amb && same) { R->count("ambiguous"); continue; }
                for (int dv : {0, 1, -1, 7}) {
                    std::uint64_t h = bits_out(w.out);
                    long n = n_warning;
                    bool ok = ss::CheckVolume(&w.out, total + dv, g, p.tol);
                    n = n_warning - n;
                    R->count("runs");
                    R->describe = [&] {
                        std::ostringstream o;
                        o << "state " << variant << " changes (" <<
                            ch1[a].kind << "," << ch1[a].a << "," << ch1[a].b
                          << "," << ch1[a].d << ") and (" << ch1[b].kind << ","
                          << ch1[b].a << "," << ch1[b].b << "," << ch1[b].d <<
                            "), expected volume off by " << dv;
                        return o.str(); };
                    if (ok != (same && dv == 0))
                        R->fail("volume", ok ? "wrong amounts are accepted" :
                                "right amounts are rejected: " + last_warning);
                    if ((n == 0) != ok)
                        R->fail("warning", ok ? "warning although accepted" :
                                "rejected silently");
                    if (bits_out(w.out) != h)
                        R->fail("changed", "the check changed the state");
                    if (dv == 0 && b % 3 == 0) {
                        // both checks together
                        set_area(w.out.body_area_, 0, s.nx, 0, s.ny);
                        n = n_warning;
                        bool so = ss::CheckSoil(&w.out, p.tol);
                        long n1 = n_warning;
                        ss::SoilDynamics sd;
                        sd.Check(&w.out, total + dv, g, p.tol);
                        if ((n_warning - n1 > 0) != !(so && ok))
                            R->fail("check", "Check does not warn exactly when "
                                    "one of the checks rejects");
                        set_area(w.out.body_area_, 1, s.nx - 1, 1, s.ny - 1);
                    }
                }
            }
            R->distinct("outcomes", variant * 100000 + a);
        }
    }
}

// Large states: thousands of records and cells, millions of soil cells, one
// flaw at a time at every place
static void large_states() {
    for (int variant = 0; variant < 6; variant++) {
        WP p; p.hx = 30 - variant; p.hy = 24 + 2 * variant; p.hz = 20;
        if (variant % 2) { p.cxy = 0.2f; p.cz = 0.05f; }
        ss::Grid g = make_grid(p);
        World w(p);
        St s = w.empty(0);
        // many or few records, spread over the whole grid; low and high ground
        int every = variant < 3 ? 1 : 7;
        int high = variant % 3 == 2 ? 15000 : variant % 3 == 1 ? -300 : -6;
        // (the tolerance has to cover the rounding of such heights)
        if (high > 1000) p.tol = 2e-3f;
        for (int i = 0; i < s.nx; i++) for (int j = 0; j < s.ny; j++) {
            int t = high + (i * 3 + j * variant) % 4;
            int l = (i + j) % 2 * 2;
            s.at(i, j) = (i * s.ny + j) % every ? col(t) :
                col2(t, l, t + 4, t + 5, 1 + (i + 2 * j) % 3, t + 9, t + 10,
                     1 + j % 2);
        }
        auto_entries(&s);
        auto es = s.e;
        s.e.clear();
        for (auto& e : es) if (e.h > 2) {
            s.e.push_back({e.ind, e.i, e.j, e.h - 1});
            e.h = 1;
        }
        s.e.insert(s.e.end(), es.begin(), es.end());
        const long v = volume(s);
        R->max("records_in_one_world", s.e.size());
        R->max("soil_cells_in_one_world", std::labs(v));
        std::string flaw;
        auto both = [&](bool vol_ok, long total, bool soil_ok) {
            R->describe = [&] { return "large state " +
                std::to_string(variant) + ", " + flaw; };
            long n = n_warning;
            bool ok = ss::CheckVolume(&w.out, total, g, p.tol);
            R->count("runs");
            if (ok != vol_ok)
                R->fail("volume", ok ? "wrong amounts are accepted" :
                        "right amounts are rejected: " + last_warning);
            if ((n_warning == n) != ok)
                R->fail("warning", ok ? "warning although accepted" :
                        "rejected silently");
            n = n_warning;
            ok = ss::CheckSoil(&w.out, p.tol);
            if (ok != soil_ok)
                R->fail("soil", ok ? "an inconsistent state is accepted" :
                    "a consistent state is rejected: " + last_warning);
            if ((n_warning == n) != ok)
                R->fail("warning", ok ? "warning although accepted" :
                        "rejected silently");
        };
        w.load(s);
        set_area(w.out.body_area_, 0, s.nx, 0, s.ny);
        for (int d : {0, 1, -1, 2, 16, 4096, -65536}) {
            if (!R->next()) continue;
            flaw = "total " + std::to_string(v) + " given as " +
                std::to_string(v + d);
            both(d == 0, v + d, true);
        }
        int step = R->thorough() ? 1 : 5;
        for (size_t k = variant % step; k < s.e.size() + step; k += step) {
            if (!R->next()) continue;
            // (the last record always)
            size_t q = std::min(k, s.e.size() - 1);
            auto e = w.out.body_soil_pos_[q];
            flaw = "record " + std::to_string(q) + " changed";
            w.out.body_soil_pos_[q].h_soil += (q % 2 ? -1 : 1) * p.cz;
            both(false, v, true);
            w.out.body_soil_pos_[q] = e;
            flaw = "record " + std::to_string(q) + " of the other layer";
            w.out.body_soil_pos_[q].ind = 2 - e.ind;
            both(false, v, true);
            w.out.body_soil_pos_[q] = e;
            R->distinct("outcomes", variant * 100000 + q);
        }
        for (int k = variant % step; k < s.nx * s.ny; k += step) {
            if (!R->next()) continue;
            int i = k / s.ny, j = k % s.ny;
            flaw = "terrain of (" + std::to_string(i) + "," +
                std::to_string(j) + ") ";
            float t = w.out.terrain_[i][j];
            w.out.terrain_[i][j] = (s.at(i, j).t + 1) * p.cz;
            both(false, v, true);
            both(true, v + 1, true);
            w.out.terrain_[i][j] = (s.at(i, j).t - 2) * p.cz;
            both(true, v - 2, true);
            if (s.at(i, j).wall(0)) {
                flaw += "inside a wall";
                w.out.terrain_[i][j] = (s.at(i, j).t + 5) * p.cz;
                both(true, v + 5, false);
            }
            w.out.terrain_[i][j] = t;
            R->distinct("outcomes", 1000000 + variant * 100000 + k);
        }
    }
}

// ------------------------------------------------------------------- C15
using Rows = std::vector<std::array<double, 3>>;
static std::string slurp(const fs::path& f) {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static bool parse(const fs::path& f, Rows* rows) {
    std::ifstream i(f);
    std::string line;
    if (!std::getline(i, line) || line != "x,y,z") return false;
    while (std::getline(i, line)) {
        std::array<double, 3> r;
        char* e = line.data();
        for (int k = 0; k < 3; k++) {
            char* b = e;
            r[k] = std::strtod(b, &e);
            if (e == b) return false;
            if (k < 2 && *e++ != ',') return false;
        }
        if (*e) return false;
        rows->push_back(r);
    }
    return true;
}
static bool near(double a, double b) {
    return std::fabs(a - b) < 2e-6 + 1e-5 * std::fabs(b);
}
static bool near(const std::array<double, 3>& a,
                 const std::array<double, 3>& b) {
    return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2]);
}
// same rows, in any order
static std::string same_rows(Rows a, Rows b, bool ordered) {
    if (a.size() != b.size())
        return std::to_string(a.size()) + " rows instead of " +
            std::to_string(b.size());
    for (size_t k = 0; k < b.size(); k++) {
        bool ok = false;
        for (size_t m = 0; m < a.size() && !ok; m++) {
            if (ordered && m) break;
            if (near(a[m], b[k])) { a.erase(a.begin() + m); ok = true; }
        }
        if (!ok) {
            std::ostringstream o;
            o << "row " << b[k][0] << "," << b[k][1] << "," << b[k][2]
              << " is missing" << (ordered ? " at its place" : "");
            return o.str();
        }
    }
    return "";
}
static std::map<std::string, std::string> tree(const fs::path& d) {
    std::map<std::string, std::string> m;
    for (auto& e : fs::recursive_directory_iterator(d))
        if (e.is_regular_file())
            m[fs::relative(e.path(), d).string()] = slurp(e.path());
    return m;
}
static std::string num(int n) {
    char b[16];
    std::snprintf(b, sizeof b, "%05d", n);
    return b;
}
struct OutWorld {
    WP p; ss::Grid g; Sim s; Scene sc;
    static Scene scene(int k) {
        Scene s;
        s.p.hx = 2 + k % 2; s.p.hy = 3; s.p.hz = 9;
        if (k % 3 == 1) { s.p.cxy = 0.2f; s.p.cz = 0.05f; }
        if (k % 6 == 2) { s.p.cxy = 12.34f; s.p.cz = 3.713f; s.p.tol = 4e-5f; }
        if (k % 6 == 5) { s.p.cxy = 0.0213f; s.p.cz = 0.00317f; }
        float c = s.p.cxy;
        s.j = {0.1f * c, 0, 0}; s.b = {-0.7f * c, 0.2f * c, -2 * c};
        s.t = {1.4f * c, 0, -1.5f * c}; s.width = 1.3f * c;
        return s;
    }
    explicit OutWorld(int k)
        : p(scene(k).p), g(make_grid(p)), s(scene(k), g), sc(scene(k)) {
        set(k);
    }
    // contents number k: 0 no soil, then one and two layers
    void set(int k) {
        St st;
        st.nx = 2 * p.hx + 1; st.ny = 2 * p.hy + 1;
        st.c.assign(st.nx * st.ny, Col());
        for (int i = 0; i < st.nx; i++) for (int j = 0; j < st.ny; j++)
            st.at(i, j).t = (i * 5 + j * 3 + k) % 7 - 4;
        if (k & 1) {
            st.at(1, 2) = col1(0, 0, 1, 2, 2);
            st.at(2, 4) = col1(-3, 0, -2, -1, 1);       // soil up to zero
        }
        if (k & 2) {
            st.at(3, 1) = col1(0, 2, 1, 2, 1);
            st.at(0, 0) = col1(-6, 2, -5, 0, 2);        // soil from zero
            st.at(1, 4) = col1(-6, 2, -5, -3, 3);       // up to zero
        }
        if (k & 4) {
            st.at(2, 2) = col2(-1, 0, 0, 1, 2, 4, 5, 3);
            st.at(3, 5) = col2(-9, 2, -8, -7, 1, -3, -2, 2);
            st.at(2 * p.hx, 6) = col1(-4, 0, -1, 0, 1);
            st.at(0, 5) = col2(-4, 0, -2, 0, 2, 3, 4, 2);
            st.at(1, 6) = col2(-9, 0, -8, -7, 1, -3, -2, 2);
            st.at(4, 4) = col1(-8, 0, -6, -5, 2);
        }
        auto_entries(&st);
        put(st, &s.out, p.cz, g, s.body());
        for (ss::Body* b : {static_cast<ss::Body*>(&s.bucket),
                            static_cast<ss::Body*>(&s.blade)}) {
            b->pos_ = {0.07f * k, -0.11f * k, 0.2f};
            b->ori_ = euler(20 * k, 35 - 9 * k, 12 * (k % 3));
        }
    }
    Rows terrain() const {
        Rows r;
        for (int i = 0; i <= 2 * p.hx; i++) for (int j = 0; j <= 2 * p.hy; j++)
            r.push_back({(i - p.hx) * double(p.cxy),
                (j - p.hy) * double(p.cxy), s.out.terrain_[i][j]});
        return r;
    }
    Rows soil() const {
        Rows r;
        for (int i = 0; i <= 2 * p.hx; i++) for (int j = 0; j <= 2 * p.hy; j++)
            for (int l = 0; l < 4; l += 2)
                if (s.out.body_soil_[l][i][j] != 0 ||
                    s.out.body_soil_[l + 1][i][j] != 0)
                    r.push_back({(i - p.hx) * double(p.cxy),
                        (j - p.hy) * double(p.cxy),
                        s.out.body_soil_[l + 1][i][j]});
        return r;
    }
    Rows body(bool blade) const {
        const ss::Body& b = blade ? static_cast<const ss::Body&>(s.blade) :
            s.bucket;
        Corners c = corners(b, b.pos_, b.ori_);
        std::vector<D3> v;
        if (blade)
            v = {c.br, c.bl, c.jl, c.jr, c.jr, c.jl, c.tl, c.tr};
        else
            v = {c.br, c.tr, c.jr, c.jr, c.jl, c.bl, c.br, c.br, c.tr, c.tl,
                 c.bl, c.bl, c.tl, c.jl};
        Rows r;
        for (auto& d : v) r.push_back({d[0], d[1], d[2]});
        return r;
    }
};
// what a write may create: one file of the kind with the lowest free number
static void one_write(const fs::path& root, OutWorld* w, int kind,
                      const std::string& hist) {
    auto before = tree(root);
    std::uint64_t h = bits(w->s);
    if (kind == 0) ss::WriteSoil(&w->s.out, w->g);
    if (kind == 1) ss::WriteBody(&w->s.bucket);
    if (kind == 2) ss::WriteBody(&w->s.blade);
    ss::SoilDynamics sd;
    if (kind == 3) sd.WriteOutputs(&w->s.out, w->g, &w->s.bucket);
    if (kind == 4) sd.WriteOutputs(&w->s.out, w->g, &w->s.blade);
    R->count("runs");
    if (bits(w->s) != h) R->fail("changed", "writing changed the state");
    auto after = tree(root);
    std::map<std::string, Rows> want;
    std::set<std::string> ordered;
    auto free_ = [&](const std::string& k) {
        int n = 0;
        while (before.count("results/" + k + "_" + num(n) + ".csv")) n++;
        return num(n) + ".csv"; };
    if (kind == 0 || kind >= 3) {
        std::string n = free_("terrain");
        want["results/terrain_" + n] = w->terrain();
        want["results/body_soil_" + n] = w->soil();
    }
    if (kind == 1 || kind == 3)
        want["results/bucket_" + free_("bucket")] = w->body(false);
    if (kind == 2 || kind == 4)
        want["results/blade_" + free_("blade")] = w->body(true);
    for (auto& [f, v] : before)
        if (!after.count(f)) R->fail("lost", f + " disappeared; " + hist);
        else if (after[f] != v)
            R->fail("overwritten", f + " was changed; " + hist);
    for (auto& [f, v] : after)
        if (!before.count(f) && !want.count(f))
            R->fail("stray", "unexpected file " + f + "; " + hist);
    for (auto& [f, rows] : want) {
        if (!after.count(f)) {
            R->fail("missing", f + " was not written; " + hist);
            continue;
        }
        Rows got;
        if (!parse(root / f, &got)) {
            R->fail("format", f + " is not a list of points; " + hist);
            continue;
        }
        bool body = f.find("bucket") != f.npos || f.find("blade") != f.npos;
        if (rows.empty()) {
            if (got.size() != 1)
                R->fail("dummy", f + " does not hold one dummy point");
            continue;
        }
        std::string e = same_rows(got, rows, body);
        if (!e.empty()) R->fail("contents", f + ": " + e + "; " + hist);
    }
}
static void outputs() {
    fs::path root = fs::absolute(R->arg("--tmp", ".")) /
        ("w" + std::to_string(R->shard()));
    fs::create_directories(root / "soil_simulator");
    fs::create_directories(root / "results");
    if (chdir(root.c_str())) _exit(77);
    std::vector<std::string> kinds = {"terrain", "bucket", "blade"};
    auto clear = [&] {
        for (auto& e : fs::directory_iterator(root / "results"))
            fs::remove(e.path()); };
    auto plant = [&](const std::string& f) {
        std::ofstream(root / "results" / f) << "old " << f << "\n"; };
    auto say = [&](const std::string& h) {
        path = h; R->describe = text; };
    // every subset of numbers 0..4 (and runs up to a change of digits) of each
    // kind, then every sequence of writes of length two (three)
    std::vector<std::vector<int>> sets;
    int bitsn = R->thorough() ? 6 : 4;
    for (int m = 0; m < 1 << bitsn; m++) {
        std::vector<int> v;
        for (int k = 0; k < bitsn; k++) if (m >> k & 1) v.push_back(k);
        sets.push_back(v);
    }
    for (int top : {9, 10, 99, 100, 120}) {
        std::vector<int> v;
        for (int k = 0; k < top; k++) v.push_back(k);
        sets.push_back(v);
        v.push_back(top + 1);
        sets.push_back(v);
        v.erase(v.begin() + top / 2);
        sets.push_back(v);
    }
    if (R->thorough()) {
        std::vector<int> v;
        for (int k = 0; k < 1001; k++) v.push_back(k);
        sets.push_back(v);
    }
    for (auto& st : sets) for (int mode = 0; mode < 4; mode++)
    for (int a = 0; a < 5; a++) {
        if (!R->next()) continue;
        for (int b = 0; b < 5; b++) {
            if (st.size() > 20 && b != a && (a + b) % 3 && !R->thorough())
                continue;
            clear();
            // mode 0: the numbers exist for every kind; else for one kind
            for (int n : st) for (int k = 0; k < 3; k++)
                if (mode == 0 || mode - 1 == k) {
                    plant(kinds[k] + "_" + num(n) + ".csv");
                    if (k == 0) plant("body_soil_" + num(n) + ".csv");
                }
            plant("terrain.csv");
            plant("notes_00000.csv");
            OutWorld w((a + b) % 6);
            std::ostringstream o;
            o << st.size() << " existing numbers";
            for (size_t k = 0; k < st.size() && k < 8; k++) o << " " << st[k];
            o << " mode " << mode << " writes";
            std::vector<int> seq = {a, b, (a + b) % 5};
            int nth = 0;
            for (int k : seq) {
                o << " " << k;
                say(o.str());
                w.set((a + 2 * b + 3 * nth++) % 8);
                one_write(root, &w, k, o.str());
            }
            R->distinct("outcomes", mix(mix(st.size() * 64 + mode * 8 + a, b),
                        st.empty() ? 0 : st.back()));
        }
    }
    // long runs of existing numbers, for every kind together and alone
    std::vector<int> tops = {999, 1000, 10000};
    if (R->thorough()) {
        tops.push_back(1001);
        tops.push_back(9999);
        tops.push_back(10001);
        tops.push_back(32768);
        tops.push_back(65536);
        tops.push_back(99999);
    }
    for (int top : tops) for (int mode = 0; mode < 4; mode++) {
        if (!R->next()) continue;
        clear();
        for (int n = 0; n < top; n++) for (int k = 0; k < 3; k++)
            if (mode == 0 || mode - 1 == k) {
                plant(kinds[k] + "_" + num(n) + ".csv");
                if (k == 0) plant("body_soil_" + num(n) + ".csv");
            }
        OutWorld w(mode);
        std::string h = std::to_string(top) + " existing numbers mode " +
            std::to_string(mode) + " writes";
        // (with 99999 numbers taken only one write of each kind is possible)
        std::vector<int> seq = {0, 1, 2};
        if (top < 99999) seq = {3, 4, 0};
        for (int k : seq) {
            h += " " + std::to_string(k);
            say(h);
            w.set((top + k) % 8);
            one_write(root, &w, k, h);
        }
        R->distinct("outcomes", mix(top, mode));
    }
    // contents: every state, both bodies, several poses
    for (int k = 0; k < 6; k++) for (int c = 0; c < 8; c++)
        for (int kind = 0; kind < 5; kind++) {
            if (!R->next()) continue;
            clear();
            OutWorld w(k);
            w.set(c);
            std::string h = "world " + std::to_string(k) + " contents " +
                std::to_string(c) + " write " + std::to_string(kind);
            say(h);
            one_write(root, &w, kind, h);
            R->distinct("outcomes", 777 + (k * 8 + c) * 5 + kind);
        }
    if (chdir("/")) _exit(77);
    fs::remove_all(root);
}

// ------------------------------------------------------------------- C16
template <typename F> static int built(F f) {
    try { f(); } catch (const std::invalid_argument&) { return 0; }
    catch (...) { return 2; }
    return 1;
}
static void grids() {
    std::vector<float> sz = {-1, -1e-6f, -0.0f, 0, 1e-6f, 0.05f, 0.0999f, 0.1f,
                             0.1001f, 0.2f, 0.7f, 1.3f};
    std::vector<float> cs = {-0.1f, -0.0f, 0, 1e-3f, 0.05f, 0.1f, 0.1001f,
                             0.2f};
    for (float x : sz) for (float y : sz) {
        if (!R->next()) continue;
        for (float z : sz) for (float cxy : cs) for (float cz : cs) {
            std::ostringstream o;
            o << "Grid(" << x << ", " << y << ", " << z << ", " << cxy << ", "
              << cz << ")";
            path = o.str();
            R->describe = text;
            bool want = x > 0 && y > 0 && z > 0 && cxy > 0 && cz > 0 &&
                cz <= cxy && cxy <= x && cxy <= y && cz <= z;
            int got = built([&] { ss::Grid g(x, y, z, cxy, cz); });
            R->count("runs");
            R->distinct("outcomes", mix(mix(got, std::uint64_t(x * 1e6)),
                        std::uint64_t((y + z + cxy + cz) * 1e6)));
            if (got != want) R->fail("grid", got == 1 ? "accepted" : got == 0 ?
                "rejected" : "raised another error");
        }
    }
}
static void sizes() {
    // consistent sizes of every grid of whole cells
    for (float cxy : {0.01f, 0.05f, 0.1f, 0.15f, 0.2f, 0.25f, 0.3f, 1.0f})
    for (float ratio : {1.0f, 0.5f, 0.2f, 0.1f})
    for (int n = 1; n <= 100; n++) {
        if (!R->next()) continue;
        float cz = cxy * ratio;
        int a = n, b = 1 + (n * 7) % 41, c = 1 + (n * 13) % 97;
        std::ostringstream o;
        o << "grid of half lengths " << a << "," << b << "," << c <<
            " cells " << cxy << "x" << cz;
        path = o.str();
        R->describe = text;
        ss::Grid g(a * cxy, b * cxy, c * cz, cxy, cz);
        R->count("runs");
        R->distinct("outcomes", mix(mix(n, std::uint64_t(cxy * 1000)),
                    std::uint64_t(ratio * 1000)));
        auto bad = [&](const std::string& k, const std::string& m) {
            R->fail(k, m); };
        if (g.half_length_x_ != a || g.half_length_y_ != b ||
            g.half_length_z_ != c)
            bad("half", "half lengths are " + std::to_string(g.half_length_x_)
                + "," + std::to_string(g.half_length_y_) + "," +
                std::to_string(g.half_length_z_));
        if (g.cell_size_xy_ != cxy || g.cell_size_z_ != cz)
            bad("cell", "cell sizes are not the given ones");
        if (std::fabs(g.cell_area_ - double(cxy) * cxy) > 1e-6 * cxy * cxy)
            bad("area", "cell area");
        if (std::fabs(g.cell_volume_ - double(cxy) * cxy * cz) >
            1e-6 * cxy * cxy * cz) bad("volume", "cell volume");
        auto vec = [&](auto& v, int h, double cell, int shift, const char* w) {
            if (static_cast<int>(v.size()) != 2 * h + 1) {
                bad("length", std::string(w) + " has " +
                    std::to_string(v.size()) + " elements");
                return;
            }
            for (int k = 0; k <= 2 * h; k++)
                if (std::fabs(v[k] - (k - h + shift) * cell) > 0.01 * cell) {
                    bad("position", std::string(w) + "[" + std::to_string(k) +
                        "] = " + std::to_string(v[k]));
                    return;
                } };
        vec(g.vect_x_, a, cxy, 0, "vect_x");
        vec(g.vect_y_, b, cxy, 0, "vect_y");
        vec(g.vect_z_, c, cz, 1, "vect_z");
        // a new state on this grid
        ss::SimOut s(g);
        size_t nx = 2 * a + 1, ny = 2 * b + 1;
        auto lay = [&](auto& l, const char* w) {
            bool ok = l.size() == nx;
            for (auto& r : l) {
                ok = ok && r.size() == ny;
                for (float v : r) ok = ok && v == 0;
            }
            if (!ok) bad("state", std::string(w) + " of a new state is not "
                         "empty or has not the size of the grid"); };
        lay(s.terrain_, "terrain");
        if (s.body_.size() != 4 || s.body_soil_.size() != 4)
            bad("layers", "number of layers");
        for (auto& l : s.body_) lay(l, "body");
        for (auto& l : s.body_soil_) lay(l, "body soil");
        if (!s.body_soil_pos_.empty()) bad("records", "records in a new state");
        if (s.equilibrium_) bad("equilibrium", "a new state is settled");
        for (auto* ar : {&s.body_area_, &s.relax_area_, &s.impact_area_})
            if ((*ar)[0][0] != 1 || (*ar)[0][1] != 2 * a || (*ar)[1][0] != 1 ||
                (*ar)[1][1] != 2 * b)
                bad("areas", "an active area of a new state is not the "
                    "interior of the grid");
    }
}
// Sizes which are not whole numbers of cells go to the nearest one
static void uneven() {
    for (float cxy : {0.02f, 0.1f, 0.25f, 1.0f, 30.0f})
    for (float ratio : {1.0f, 0.5f, 0.15f})
    for (int n = 1; n <= 60; n++) {
        if (!R->next()) continue;
        float cz = cxy * ratio;
        const double fr[] = {-0.45, -0.3, -0.1, 0.1, 0.3, 0.45};
        for (int f = 0; f < 6; f++) {
            int a = n, b = 1 + (n * 7) % 41, c = 1 + (n * 13) % 97;
            // never less than one cell
            double fa = fr[f], fb = fr[(f + n) % 6], fc = fr[(f * 5 + 2) % 6];
            if (a == 1) fa = std::fabs(fa);
            if (b == 1) fb = std::fabs(fb);
            if (c == 1) fc = std::fabs(fc);
            float sx = (a + fa) * cxy, sy = (b + fb) * cxy, sz = (c + fc) * cz;
            R->describe = [&] { std::ostringstream o; o << "Grid(" << sx <<
                ", " << sy << ", " << sz << ", " << cxy << ", " << cz << ")";
                return o.str(); };
            ss::Grid g(sx, sy, sz, cxy, cz);
            R->count("runs");
            R->distinct("outcomes", mix(mix(n * 6 + f, std::uint64_t(cxy*100)),
                                        std::uint64_t(ratio * 100)));
            if (g.half_length_x_ != a || g.half_length_y_ != b ||
                g.half_length_z_ != c)
                R->fail("half", "half lengths are " + std::to_string(
                    g.half_length_x_) + "," + std::to_string(g.half_length_y_)
                    + "," + std::to_string(g.half_length_z_) + " instead of " +
                    std::to_string(a) + "," + std::to_string(b) + "," +
                    std::to_string(c));
            auto vec = [&](auto& v, int h, double cell, const char* w) {
                if (static_cast<int>(v.size()) != 2 * h + 1) {
                    R->fail("length", std::string(w) + " has " +
                            std::to_string(v.size()) + " elements");
                    return;
                }
                for (size_t k = 1; k < v.size(); k++)
                    if (std::fabs(v[k] - v[k-1] - cell) > 0.01 * cell) {
                        R->fail("spacing", std::string(w) + " is not spaced "
                                "by one cell");
                        return;
                    }
                if (std::fabs(v[h]) > 0.51 * cell && w[5] != 'z')
                    R->fail("centre", std::string(w) + " is not centred"); };
            vec(g.vect_x_, a, cxy, "vect_x");
            vec(g.vect_y_, b, cxy, "vect_y");
            vec(g.vect_z_, c, cz, "vect_z");
        }
    }
}
static void bodies() {
    std::vector<V3> pts = {{0, 0, 0}, {0, 0, -0.5f}, {0.7f, 0, -0.5f},
        {0.7f, 0.1f, -0.5f}, {1, 0, 0}, {0, 1, 0}, {-0.5f, 0, 0.25f},
        {}, {1}, {1, 2}, {1, 2, 3, 4}};
    for (auto& o : pts) for (auto& j : pts) for (auto& b : pts) {
        if (!R->next()) continue;
        for (auto& t : pts)
            for (float w : {-1.0f, -0.0f, 0.0f, 1e-6f, 0.5f}) {
                bool want = o.size() == 3 && j.size() == 3 && b.size() == 3 &&
                    t.size() == 3 && j != b && j != t && b != t && w > 0;
                R->describe = [&] {
                    std::ostringstream s;
                    s << "body";
                    for (auto* v : {&o, &j, &b, &t}) {
                        s << " (";
                        for (float x : *v) s << x << " ";
                        s << ")";
                    }
                    s << " width " << w;
                    return s.str(); };
                auto good = [&](const ss::Body& B) {
                    bool ok = B.width_ == w && B.pos_ == V3{0, 0, 0} &&
                        B.ori_ == V3{0, 0, 0, 0};
                    for (int k = 0; k < 3; k++)
                        ok = ok && B.j_pos_init_[k] == j[k] - o[k] &&
                            B.b_pos_init_[k] == b[k] - o[k] &&
                            B.t_pos_init_[k] == t[k] - o[k];
                    ok = ok && B.j_pos_init_.size() == 3 &&
                        B.b_pos_init_.size() == 3 && B.t_pos_init_.size() == 3;
                    if (!ok) R->fail("vertices", "the body does not hold its "
                                     "vertices relative to its origin, its "
                                     "width or a null pose"); };
                int g1 = built([&] { ss::Bucket B(o, j, b, t, w); good(B); });
                int g2 = built([&] { ss::Blade B(o, j, b, t, w); good(B); });
                R->count("runs", 2);
                R->distinct("outcomes", mix(mix(R->index(), t.size()),
                            std::uint64_t(w * 1e7) + want));
                if (g1 != want || g2 != want)
                    R->fail("body", want ? "rejected" : "accepted");
            }
    }
}
static void params() {
    float half_pi = std::numbers::pi / 2;     // above pi / 2 once rounded
    std::vector<float> an = {-3, -1e-6f, -0.0f, 0, 1e-6f, 0.3f, 0.85f, 1.5f,
        std::nextafter(half_pi, 0.0f), std::nextafter(half_pi, 9.0f), 1.6f, 2,
        3.2f, 100};
    for (float a : an) for (int it = -3; it <= 20; it++) {
        if (!R->next()) continue;
        for (int b = -4; b <= 12; b++) {
            bool want = a >= 0 && a < half_pi && it >= 0 && b >= 2;
            R->describe = [&] {
                std::ostringstream s;
                s.precision(9);
                s << "SimParam(" << a << ", " << it << ", " << b << ")";
                return s.str(); };
            int got = built([&] {
                ss::SimParam p(a, it, b);
                if (p.repose_angle_ != a || p.max_iterations_ != it ||
                    p.cell_buffer_ != b)
                    R->fail("values", "the parameters are not the given ones");
            });
            R->count("runs");
            R->distinct("outcomes", mix(mix(it + 10, b + 10),
                        std::uint64_t((a + 5) * 1e6) + want));
            if (got != want) R->fail("param", want ? "rejected" : "accepted");
        }
    }
}

// ------------------------------------------------------------------- C17
static double noise(double x, double y, const std::vector<int>& P) {
    const double F = (std::sqrt(3.0) - 1) / 2, G = (3 - std::sqrt(3.0)) / 6;
    static const int D[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1},
        {1, -1}, {-1, 1}, {-1, -1}};
    int i = std::floor(x + (x + y) * F), j = std::floor(y + (x + y) * F);
    double x0 = x - i + (i + j) * G, y0 = y - j + (i + j) * G;
    int c[3][2] = {{0, 0}, {x0 > y0, !(x0 > y0)}, {1, 1}};
    double n = 0;
    for (int k = 0; k < 3; k++) {
        double a = x0 - c[k][0] + k * G, b = y0 - c[k][1] + k * G;
        double t = 0.5 - a * a - b * b;
        if (t <= 0) continue;
        int h = P[(i + c[k][0] + P[(j + c[k][1]) & 255]) & 255] & 7;
        n += t * t * t * t * (a * D[h][0] + b * D[h][1]);
    }
    return n;
}
static void initial() {
    struct G { int hx, hy; float cxy, cz; };
    std::vector<G> gs = {{6, 5, 0.1f, 0.1f}, {4, 9, 0.2f, 0.05f},
                         {12, 12, 0.05f, 0.01f}, {1, 1, 0.1f, 0.1f},
                         {5, 4, 4, 1.5f}, {4, 3, 0.01f, 0.003f}};
    std::vector<float> amps = {0, 0.2f, 5, 100, 700, -0.2f, -5, -100, -700};
    int np = R->thorough() ? 40 : 8;
    for (size_t gi = 0; gi < gs.size(); gi++)
    for (int pol = 0; pol < np; pol++)
    for (int part = 0; part < 16; part++) {
        if (!R->next()) continue;
        WP p; p.hx = gs[gi].hx; p.hy = gs[gi].hy; p.cxy = gs[gi].cxy;
        p.cz = gs[gi].cz; p.hz = 30;
        ss::Grid g = make_grid(p);
        auto run = [&](float amp, const std::string& dev) {
            std::ostringstream o;
            o << "grid " << gi << " amplitude " << amp << " draws " << pol
              << dev;
            path = o.str();
            R->describe = text;
            ss::SimOut s(g);
            // something in every other field, to see that it stays
            s.body_[0][1][1] = 0.3f; s.body_soil_[1][0][2] = 0.7f;
            s.terrain_[1][2] = 9.7f;
            s.body_soil_pos_.push_back({2, 1, 1, 0.1f, 0.2f, 0.3f, 0.4f});
            s.body_area_[0][0] = 2; s.relax_area_[1][1] = 1;
            ss::SimOut b = s;
            ss::SoilDynamics sd;
            ch.reset();
            sd.Init(&s, g, amp);
            R->count("runs");
            std::vector<int> drawn;      // (draws of one value do not count)
            for (size_t k = 0; k < ch.arity.size(); k++)
                if (ch.arity[k] > 1) drawn.push_back(k);
            bool std_draws = drawn.size() == 255;
            for (size_t k = 0; std_draws && k < 255; k++)
                std_draws = ch.arity[drawn[k]] == 256 - static_cast<int>(k);
            R->count(std_draws ? "reference_runs" : "invariant_runs");
            std::vector<int> P(256);
            for (int k = 0; k < 256; k++) P[k] = k;
            if (std_draws)
                for (int k = 0; k < 255; k++)
                    std::swap(P[255 - k], P[ch.taken[drawn[k]]]);
            bool flat = true;
            std::uint64_t h = 5;
            for (int i = 0; i <= 2 * p.hx; i++)
                for (int j = 0; j <= 2 * p.hy; j++) {
                    double v = s.terrain_[i][j];
                    double q = v / p.cz, r = std::round(q);
                    h = mix(h, std::int64_t(r));
                    if (!(std::fabs(q - r) < 1e-3 + 1e-6 * std::fabs(q)))
                        R->fail("quantised", "a height is not a multiple of "
                                "the cell height: " + std::to_string(v));
                    if (std::fabs(r) > std::fabs(amp) / p.cz + 0.5)
                        R->fail("bounded", "a height exceeds the amplitude: " +
                                std::to_string(v));
                    if (r != 0) flat = false;
                    if (!std_draws) continue;
                    double x = i / (2.0 * p.hx), y = j / (2.0 * p.hy);
                    double e = amp * (0.5 * noise(x, y, P) + 0.25 * noise(
                        2 * x, 2 * y, P) + 0.125 * noise(4 * x, 4 * y, P) +
                        0.0625 * noise(8 * x, 8 * y, P)) / p.cz;
                    if (std::fabs(e - r) > 0.5 + 2e-3 * (1 + std::fabs(e) / 50))
                        R->fail("noise", "height " + std::to_string(r) +
                            " cells at (" + std::to_string(i) + "," +
                            std::to_string(j) + ") instead of " +
                            std::to_string(e));
                }
            R->distinct("outcomes", h);
            if (amp == 0 && !flat) R->fail("flat", "amplitude zero but the "
                                           "terrain is not flat");
            ss::SimOut t = s;
            t.terrain_ = b.terrain_;
            if (bits_out(t) != bits_out(b))
                R->fail("changed", "Init changed more than the terrain");
            return s.terrain_;
        };
        if (part == 0)
            for (float a : amps) {
                ch.policy = pol;
                auto x = run(a, ""), y = run(a, " again"), z = run(-a, "");
                ch.policy = 0;
                for (size_t i = 0; i < x.size(); i++)
                    for (size_t j = 0; j < x[i].size(); j++) {
                        if (x[i][j] != y[i][j])
                            R->fail("repeat", "the same draws give another "
                                    "terrain");
                        if (x[i][j] != -z[i][j])
                            R->fail("mirror", "the opposite amplitude does not "
                                    "give the mirrored terrain");
                    }
            }
        // every single draw changed
        int step = R->thorough() ? 5 : 41;
        ch.policy = pol;
        for (int d = part; d < 255; d += 16)
            for (int v = (d + pol) % step; v < 256 - d; v += step) {
                if (gi == 2 && v % 3) continue;
                ch.dev_at = d;
                ch.dev_value = v;
                run(gi % 2 ? 300 : -300, " draw " + std::to_string(d) + "=" +
                    std::to_string(v));
                ch.dev_at = -1;
            }
        ch.policy = 0;
    }
}
// Whatever the way the permutation is drawn: the terrain depends on the draws
// and the number of draw sequences is a multiple of the 256! permutations
static void permutations() {
    for (int g = 0; g < 3; g++) {
        if (!R->next()) continue;
        WP p; p.hx = 9 + g; p.hy = 8; p.hz = 20;
        ss::Grid grid = make_grid(p);
        R->describe = [&] { return "terrains of a grid of half lengths " +
            std::to_string(p.hx) + ",8 under 24 draw policies"; };
        long raw = raw_draws();
        std::set<std::vector<std::vector<float>>> seen;
        std::vector<int> first;
        bool fixed = true;
        for (int pol = 0; pol < 24; pol++) {
            ss::SimOut s(grid);
            ss::SoilDynamics sd;
            run_default([&] { sd.Init(&s, grid, 200); }, pol);
            R->count("runs");
            seen.insert(s.terrain_);
            if (pol == 0) first = ch.arity;
            else if (ch.arity != first) fixed = false;
        }
        R->max("terrains", seen.size());
        if (seen.size() < 20)
            R->fail("draws", "24 different series of draws give only " +
                    std::to_string(seen.size()) + " terrains");
        if (!fixed || raw_draws() != raw) {
            R->count("draws_of_another_form"); continue; }
        std::map<int, long> have, need;
        auto factor = [](std::map<int, long>* m, int n) {
            for (int q = 2; q <= n; q++)
                while (n % q == 0) { (*m)[q]++; n /= q; }
        };
        for (int a : first) factor(&have, a);
        for (int k = 2; k <= 256; k++) factor(&need, k);
        for (auto& [q, e] : need)
            if (have[q] < e) {
                R->fail("biased", "the number of draw sequences is not a "
                        "multiple of the number of permutations (factor " +
                        std::to_string(q) + "), so they are not equally "
                        "likely");
                break;
            }
    }
}
static void noise_points() {
    // the noise itself on a lattice of points, against the reference
    for (int perm = 0; perm < 6; perm++)
        for (int xi = 0; xi < 64; xi++) {
            if (!R->next()) continue;
            std::vector<int> P(256);
            for (int k = 0; k < 256; k++)
                P[k] = perm % 2 ? (k * (2 * perm + 1) + 17 * perm) & 255 :
                    255 - ((k * (2 * perm + 3)) & 255);
            double x0 = xi * 0.125;
            R->describe = text;
            for (int yi = 0; yi < 128; yi++)
                for (double dx : {0.0, 0.03, 0.061}) {
                    double x = x0 + dx, y = yi * 0.0625 + dx / 3;
                    float v = ss::simplex_noise(x, y, P);
                    double e = noise(float(x), float(y), P);
                    R->count("runs");
                    R->distinct("outcomes", mix(perm, std::int64_t(e * 1e7)));
                    path = "noise at " + std::to_string(x) + "," +
                        std::to_string(y) + " table " + std::to_string(perm);
                    if (!(std::fabs(v - e) < 3e-6))
                        R->fail("noise", std::to_string(v) + " instead of " +
                                std::to_string(e));
                }
        }
}

// ------------------------------------------------------------------- C19
static bool close3(const V3& a, const D3& b, double tol) {
    return a.size() == 3 && std::fabs(a[0] - b[0]) < tol &&
        std::fabs(a[1] - b[1]) < tol && std::fabs(a[2] - b[2]) < tol;
}
static std::string v_str(const V3& v) {
    std::ostringstream o;
    o << "(";
    for (float x : v) o << x << " ";
    o << ")";
    return o.str();
}
static D4 hamilton(const D4& a, const D4& b) {
    return {a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3],
            a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1],
            a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]};
}
static std::vector<V3> quats(bool norms) {
    std::vector<V3> v;
    std::vector<float> al = {-1, -0.5f, 0, 0.3f, 1};
    for (float a : al) for (float b : al) for (float c : al) for (float d : al)
    {
        double n = std::sqrt(a*a + b*b + c*c + d*d);
        if (n == 0) continue;
        v.push_back({float(a/n), float(b/n), float(c/n), float(d/n)});
        if (norms) {
            v.push_back({a, b, c, d});
            v.push_back({float(a*7/n), float(b*7/n), float(c*7/n),
                         float(d*7/n)});
        }
    }
    return v;
}
static std::vector<V3> vectors() {
    std::vector<V3> v;
    for (float a : {-2.0f, 0.0f, 0.37f, 1.0f}) for (float b : {-0.9f, 0.0f,
        1.0f, 3.1f}) for (float c : {-1.0f, 0.0f, 0.05f, 2.0f})
        v.push_back({a, b, c});
    return v;
}
static void rotations() {
    auto qs = quats(true), vs = vectors();
    for (size_t k = 0; k < qs.size(); k += 4) {
        if (!R->next()) continue;
        for (size_t m = k; m < k + 4 && m < qs.size(); m++)
            for (auto& v : vs) {
                auto& q = qs[m];
                R->describe = [&] { return "quaternion " + v_str(q) +
                    " vector " + v_str(v); };
                V3 r = ss::CalcRotationQuaternion(q, v);
                R->count("runs");
                R->distinct("outcomes", mix(mix(m, std::int64_t(r[0] * 1e4)),
                            std::int64_t(r[1] * 1e4)));
                if (!close3(r, rot(d4(q), d3(v)), 2e-5))
                    R->fail("rotation", "rotated to " + v_str(r));
            }
    }
}
static void products() {
    auto qs = quats(false);
    for (size_t k = 0; k < qs.size(); k++) {
        if (!R->next()) continue;
        for (size_t m = 0; m < qs.size(); m += 1) {
            auto &a = qs[k], &b = qs[m];
            R->describe = [&] { return "quaternions " + v_str(a) + v_str(b); };
            V3 r = ss::MultiplyQuaternion(a, b);
            D4 e = hamilton(d4(a), d4(b));
            R->count("runs");
            bool ok = r.size() == 4;
            for (int i = 0; ok && i < 4; i++)
                ok = std::fabs(r[i] - e[i]) < 1e-5;
            if (!ok) R->fail("product", "product is " + v_str(r));
            if (m % 16 == k % 16) {
                // the product composes the rotations
                V3 v = {0.4f, -1.1f, 0.7f};
                V3 x = ss::CalcRotationQuaternion(r, v);
                V3 y = ss::CalcRotationQuaternion(b,
                    ss::CalcRotationQuaternion(a, v));
                if (!close3(x, d3(y), 2e-5))
                    R->fail("compose", "the product does not compose the "
                            "rotations");
            }
        }
        R->distinct("outcomes", k);
    }
}
static void angles() {
    const double d = std::numbers::pi / 180;
    int st = R->thorough() ? 15 : 30;
    for (int yaw = -360; yaw <= 360; yaw += st) {
        for (int off : {0, 7}) {
            if (!R->next()) continue;
            for (int pitch = -360; pitch <= 360; pitch += st)
                for (int roll = -360; roll <= 360; roll += st) {
                    double a[3] = {(yaw + off) * d, (pitch - off) * d,
                                   (roll + 2 * off) * d};
                    V3 in = {float(a[0]), float(a[1]), float(a[2])};
                    V3 q = ss::AngleToQuat(in);
                    R->count("runs");
                    R->describe = [&] { return "angles " + v_str(in); };
                    D4 z{std::cos(a[0]/2), 0, 0, std::sin(a[0]/2)};
                    D4 y{std::cos(a[1]/2), 0, std::sin(a[1]/2), 0};
                    D4 x{std::cos(a[2]/2), std::sin(a[2]/2), 0, 0};
                    D4 e = hamilton(hamilton(z, y), x);
                    double dot = 0;
                    for (int k = 0; k < 4; k++) dot += q[k] * e[k];
                    double sg = dot < 0 ? -1 : 1;
                    bool ok = q.size() == 4;
                    for (int k = 0; k < 4; k++)
                        ok = ok && std::fabs(q[k] - sg * e[k]) < 2e-6;
                    if (!ok) R->fail("angles", "converted to " + v_str(q));
                    if (q[0] < 0) R->fail("sign", "negative real part " +
                                          v_str(q));
                    R->distinct("outcomes", mix(mix(std::int64_t(q[1] * 1e5),
                        std::int64_t(q[2] * 1e5)), std::int64_t(q[3] * 1e5)));
                }
        }
    }
}
static void normals() {
    auto vs = vectors();
    for (size_t a = 0; a < vs.size(); a++) {
        if (!R->next()) continue;
        for (size_t b = 0; b < vs.size(); b += 1)
            for (size_t c = 0; c < vs.size(); c += R->thorough() ? 1 : 3) {
                D3 u{vs[b][0]-vs[a][0], vs[b][1]-vs[a][1], vs[b][2]-vs[a][2]};
                D3 w{vs[c][0]-vs[a][0], vs[c][1]-vs[a][1], vs[c][2]-vs[a][2]};
                D3 n{u[1]*w[2]-u[2]*w[1], u[2]*w[0]-u[0]*w[2],
                     u[0]*w[1]-u[1]*w[0]};
                double l = std::sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]);
                if (l < 0.05) continue;      // nearly on a line
                for (auto& x : n) x /= l;
                V3 r = ss::CalcNormal(vs[a], vs[b], vs[c]);
                R->count("runs");
                R->describe = [&] { return "points " + v_str(vs[a]) +
                    v_str(vs[b]) + v_str(vs[c]); };
                if (!close3(r, n, 5e-5))
                    R->fail("normal", "normal is " + v_str(r));
                R->distinct("outcomes", mix(std::int64_t(n[0] * 1e5),
                            std::int64_t(n[1] * 1e5)) + (n[2] > 0));
            }
    }
}
static void frames_() {
    auto qs = quats(false);
    WP p; p.hx = 5; p.hy = 3; p.hz = 10; p.cxy = 0.2f; p.cz = 0.1f;
    ss::Grid g = make_grid(p);
    struct Sh { V3 j, b, t; float w; };
    std::vector<Sh> sh = {
        {{0, 0, 0}, {0, 0, -0.5f}, {0.7f, 0, -0.5f}, 0.5f},
        {{0.3f, 0.1f, 0.2f}, {0.1f, -0.2f, -0.4f}, {0.9f, 0.3f, -0.1f}, 1.3f},
        {{-0.6f, 0, 1}, {0.2f, 0.5f, 0.1f}, {0, -0.7f, 0.3f}, 0.05f}};
    std::vector<V3> pos = {{0, 0, 0}, {0.3f, -0.7f, 0.2f}, {-1, 0.4f, -0.9f}};
    for (size_t k = 0; k < qs.size(); k += 2) {
        if (!R->next()) continue;
        for (size_t m = k; m < k + 2 && m < qs.size(); m++)
        for (size_t s = 0; s < sh.size(); s++) for (auto& po : pos) {
            auto& q = qs[m];
            ss::Bucket bu({0, 0, 0}, sh[s].j, sh[s].b, sh[s].t, sh[s].w);
            ss::Blade bl({0, 0, 0}, sh[s].j, sh[s].b, sh[s].t, sh[s].w);
            R->describe = [&] { return "shape " + std::to_string(s) +
                " position " + v_str(po) + " orientation " + v_str(q); };
            for (ss::Body* b : {static_cast<ss::Body*>(&bu),
                                static_cast<ss::Body*>(&bl)}) {
                Corners c = corners(*b, po, q);
                b->pos_ = {9, 9, 9};        // not used for the corners
                b->ori_ = {1, 0, 0, 0};
                auto [jr, jl, br, bl_, tr, tl] =
                    ss::CalcBodyCornerPos(po, q, b);
                R->count("runs");
                if (!close3(jr, c.jr, 3e-5) || !close3(jl, c.jl, 3e-5) ||
                    !close3(br, c.br, 3e-5) || !close3(bl_, c.bl, 3e-5) ||
                    !close3(tr, c.tr, 3e-5) || !close3(tl, c.tl, 3e-5))
                    R->fail("corners", "the corners are not the vertices moved "
                            "rigidly, half a width on each side");
                if (b->pos_ != V3{9, 9, 9} || b->ori_ != V3{1, 0, 0, 0})
                    R->fail("pose", "the recorded pose changed");
                b->pos_ = po;
                b->ori_ = q;
                for (int i = 0; i <= 10; i += 2) for (int j = 0; j <= 6; j++)
                    for (float z : {-0.5f, 0.0f, 0.3f}) {
                        V3 x = ss::CalcBodyFramePos(i, j, z, g, b);
                        D3 cell = cell_centre(p, i, j, z);
                        R->count("runs");
                        if (!close3(x, to_body({po, q}, cell), 3e-5))
                            R->fail("frame", "cell (" + std::to_string(i) + ","
                                + std::to_string(j) + ") converts to " +
                                v_str(x));
                        V3 y = ss::CalcRotationQuaternion(q, x);
                        for (int d = 0; d < 3; d++) y[d] += po[d];
                        if (!close3(y, cell, 5e-5))
                            R->fail("back", "a cell converted to the body "
                                    "frame and back is elsewhere");
                    }
            }
            R->distinct("outcomes", mix(mix(m, s), std::int64_t(po[0] * 10)));
        }
    }
}

// Small rotations and the neighbourhood of quarter, half and whole turns, for
// bodies and quaternions of all sizes
static void fine() {
    std::vector<D4> qs;
    const double pi = std::numbers::pi;
    for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++)
        for (int z = -1; z <= 1; z++) {
            double n = std::sqrt(x*x + y*y + z*z);
            if (n == 0) continue;
            for (double b : {0.0, pi / 2, pi, 2 * pi})
                for (double d : {0.0, 0.3, 0.1, 0.03, 0.01, 3e-3, 1e-3, 3e-4,
                                 1e-4, 3e-5}) {
                    double a = (b + d) / 2;
                    qs.push_back({std::cos(a), std::sin(a) * x / n,
                                  std::sin(a) * y / n, std::sin(a) * z / n});
                }
        }
    auto f4 = [](const D4& q, double k) { return V3{float(q[0]*k),
        float(q[1]*k), float(q[2]*k), float(q[3]*k)}; };
    std::vector<V3> vs = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.6f, -0.3f, 0.8f},
                          {-0.2f, -0.9f, -0.5f}};
    WP p; p.hx = 5; p.hy = 3; p.hz = 10; p.cxy = 0.2f; p.cz = 0.1f;
    for (size_t k = 0; k < qs.size(); k++) {
        if (!R->next()) continue;
        std::string what;
        R->describe = [&] { std::ostringstream o; o.precision(9);
            o << "quaternion";
            for (double x : qs[k]) o << " " << x;
            o << what; return o.str(); };
        // rotations, of vectors of all lengths
        for (float norm : {1.0f, 0.01f, 30.0f})
            for (float scale : {1.0f, 1e-3f, 1e3f}) for (auto v : vs) {
                for (auto& x : v) x *= scale;
                what = " norm " + std::to_string(norm) + " vector " + v_str(v);
                V3 q = f4(qs[k], norm);
                V3 r = ss::CalcRotationQuaternion(q, v);
                R->count("runs");
                if (!close3(r, rot(d4(q), d3(v)), 4e-6 * scale))
                    R->fail("rotation", "rotated to " + v_str(r));
                // there and back
                V3 c = {q[0], -q[1], -q[2], -q[3]};
                if (!close3(ss::CalcRotationQuaternion(c, r), d3(v),
                            4e-6 * scale))
                    R->fail("back", "rotated there and back is elsewhere");
                R->distinct("outcomes", mix(mix(k, std::int64_t(r[0] * 1e6)),
                            std::int64_t(r[1] * 1e6)));
            }
        // products
        for (size_t m = k % 7; m < qs.size(); m += 7) {
            V3 a = f4(qs[k], 1), b = f4(qs[m], 1);
            what = " times the one of number " + std::to_string(m);
            V3 r = ss::MultiplyQuaternion(a, b);
            D4 e = hamilton(d4(a), d4(b));
            R->count("runs");
            for (int i = 0; i < 4; i++) if (std::fabs(r[i] - e[i]) > 1e-6) {
                R->fail("product", "product is " + v_str(r)); break; }
        }
        // corners and frames of bodies of all sizes
        for (float scale : {1.0f, 0.01f, 50.0f}) for (int far : {0, 1}) {
            V3 j = {0.1f, 0, 0.3f}, b = {0, 0.05f, -0.5f}, t = {0.7f, 0, -0.4f};
            for (auto* v : {&j, &b, &t}) for (auto& x : *v) x *= scale;
            ss::Bucket bu({0, 0, 0}, j, b, t, 0.6f * scale);
            V3 q = f4(qs[k], 1), po = {0.3f * scale * far,
                -0.2f * scale * far, 0.15f * scale * far};
            what = " body of size " + std::to_string(scale) + " at " +
                v_str(po);
            Corners c = corners(bu, po, q);
            auto [jr, jl, br, bl, tr, tl] = ss::CalcBodyCornerPos(po, q, &bu);
            R->count("runs");
            double e = 6e-6 * scale;
            if (!close3(jr, c.jr, e) || !close3(jl, c.jl, e) ||
                !close3(br, c.br, e) || !close3(bl, c.bl, e) ||
                !close3(tr, c.tr, e) || !close3(tl, c.tl, e))
                R->fail("corners", "the corners are not the vertices moved "
                        "rigidly, half a width on each side");
            bu.pos_ = po;
            bu.ori_ = q;
            WP w = p;
            w.cxy *= scale; w.cz *= scale;
            ss::Grid g = make_grid(w);
            for (int i : {0, 3, 5, 10}) for (int jj : {0, 2, 3, 6}) {
                float z = 0.3f * scale;
                V3 x = ss::CalcBodyFramePos(i, jj, z, g, &bu);
                D3 cell = cell_centre(w, i, jj, z);
                R->count("runs");
                if (!close3(x, to_body({po, q}, cell), 2 * e))
                    R->fail("frame", "cell (" + std::to_string(i) + "," +
                            std::to_string(jj) + ") converts to " + v_str(x));
            }
        }
    }
    // normals of small and large triangles
    for (size_t k = 0; k < qs.size(); k++) for (float scale : {1.0f, 2e-3f,
                                                               300.0f}) {
        if (!R->next()) continue;
        D3 pts[3] = {{0, 0, 0}, {1, 0, 0}, {0.3, 0.8, 0}};
        V3 f[3];
        for (int i = 0; i < 3; i++) {
            D3 r = rot(qs[k], pts[i]);
            for (auto& x : r) x *= scale;
            f[i] = {float(r[0]), float(r[1]), float(r[2])};
        }
        D3 n = rot(qs[k], {0, 0, 1});
        R->describe = [&] { return "points " + v_str(f[0]) + v_str(f[1]) +
            v_str(f[2]); };
        V3 r = ss::CalcNormal(f[0], f[1], f[2]);
        R->count("runs");
        if (!close3(r, n, 4e-6)) R->fail("normal", "normal is " + v_str(r));
    }
    // Euler angles next to the quarter turns
    std::vector<double> an;
    for (int q = -4; q <= 4; q++) for (double d : {0.0, 0.03, -0.002, 1e-3,
                                                   -1e-4, 3e-5})
        an.push_back(q * pi / 2 + d);
    for (double yaw : an) {
        if (!R->next()) continue;
        for (double pitch : an) for (double roll : an) {
            V3 in = {float(yaw), float(pitch), float(roll)};
            V3 q = ss::AngleToQuat(in);
            R->count("runs");
            R->describe = [&] { return "angles " + v_str(in); };
            D4 z{std::cos(in[0]/2.0), 0, 0, std::sin(in[0]/2.0)};
            D4 y{std::cos(in[1]/2.0), 0, std::sin(in[1]/2.0), 0};
            D4 x{std::cos(in[2]/2.0), std::sin(in[2]/2.0), 0, 0};
            D4 e = hamilton(hamilton(z, y), x);
            double dot = 0;
            for (int k = 0; k < 4; k++) dot += q[k] * e[k];
            double sg = dot < 0 ? -1 : 1;
            for (int k = 0; k < 4; k++) if (std::fabs(q[k] - sg * e[k]) > 1e-6)
            { R->fail("angles", "converted to " + v_str(q)); break; }
            if (q[0] < 0) R->fail("sign", "negative real part " + v_str(q));
        }
    }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    std::string P = r.arg("--prop", "C14");
    if (P == "C14") {
        if (r.section("columns")) columns();
        if (r.section("tolerance")) tolerance();
        if (r.section("locations")) locations();
        if (r.section("volumes")) volumes();
        if (r.section("large")) large_states();
    }
    if (P == "C15") if (r.section("outputs")) outputs();
    if (P == "C16") {
        if (r.section("grids")) grids();
        if (r.section("sizes")) sizes();
        if (r.section("uneven")) uneven();
        if (r.section("bodies")) bodies();
        if (r.section("params")) params();
    }
    if (P == "C17") {
        if (r.section("noise")) noise_points();
        if (r.section("permutation")) permutations();
        if (r.section("initial")) initial();
    }
    if (P == "C19") {
        if (r.section("rotations")) rotations();
        if (r.section("products")) products();
        if (r.section("angles")) angles();
        if (r.section("normals")) normals();
        if (r.section("frames")) frames_();
        if (r.section("fine")) fine();
    }
    return r.finish();
}
