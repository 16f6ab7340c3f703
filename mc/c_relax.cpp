// Relaxation passes on every small arrangement of columns, compared with the
// reference model over every random order.
//   --prop C04 : RelaxTerrain      --prop C05 : RelaxBodySoil
#include "tiles.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string MON;      // only this general property is reported

static St cur;      // state being run, for the reports
static WP curp;
static std::string text() {
    std::ostringstream o;
    o << "cell " << curp.cxy << "x" << curp.cz << " dh=" << curp.dh << " "
      << st_str(cur);
    return o.str();
}

enum Kind { TERRAIN, BODY };

// One pass under the current choices, compared with `outs`
static void one(World& w, Kind kind, const St& s0, const ref::Area& a,
                const ref::Outs& outs, bool any_unstable, bool eq0) {
    w.load(s0);
    set_area(w.out.impact_area_, a.x0, a.x1, a.y0, a.y1);
    set_area(w.out.body_area_, 1, 3, 2, 4);
    w.out.equilibrium_ = eq0;
    long nw = n_warning;
    if (kind == TERRAIN)
        ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par, w.p.tol);
    else
        ss::RelaxBodySoil(&w.out, w.grid, &w.body, w.par, w.p.tol);
    R->count("runs");
    St s = w.read();
    if (!MON.empty()) {
        R->distinct("outcomes", hash_st(s, false));
        std::string m = one_monitor(MON, w, s0, s, n_warning - nw);
        if (!m.empty()) R->fail("monitor", m);
        return;
    }
    if (!s.bad.empty()) { R->fail("height", s.bad); return; }
    R->distinct("outcomes", hash_st(s, false));
    auto it = outs.find(ref::soil_key(s));
    if (it == outs.end()) {
        std::ostringstream o;
        o << "result is none of the " << outs.size()
          << " results the avalanche rule allows; got " << st_str(s)
          << " expected e.g. " << st_str(outs.begin()->second.s);
        R->fail("outcome", o.str());
        return;
    }
    std::string m = walls_same(s0, s);
    if (m.empty()) m = bookkeeping(s);
    if (m.empty()) m = w.records();
    if (!m.empty()) { R->fail("records", m); return; }
    if (volume(s) != volume(s0)) R->fail("volume", "soil volume changed");
    bool moved = ref::soil_key(s) != ref::soil_key(s0);
    if (moved && w.out.equilibrium_)
        R->fail("flag", "soil moved but equilibrium is reported");
    if (!any_unstable && w.out.equilibrium_ != (kind == TERRAIN ? true : eq0))
        R->fail("flag", "nothing is unstable but the equilibrium flag says "
                "otherwise");
    if (kind == TERRAIN && any_unstable && w.out.equilibrium_)
        R->fail("flag", "an unstable column is left but equilibrium is "
                "reported");
    if (n_warning != nw) R->fail("warning", "unexpected warning");
    int (*ia)[2] = w.out.impact_area_;
    int (*ba)[2] = w.out.body_area_;
    if (ia[0][0] != a.x0 || ia[0][1] != a.x1 || ia[1][0] != a.y0 ||
        ia[1][1] != a.y1 || ba[0][0] != 1 || ba[0][1] != 3 || ba[1][0] != 2 ||
        ba[1][1] != 4)
        R->fail("area", "a relaxation pass changed the examined area");
}

static void world(World& w, Kind kind, const St& s0, const ref::Area& a,
                  int maxdev, long cap, bool eq0 = true) {
    cur = s0; curp = w.p;
    ref::Outs none;
    auto outs = !MON.empty() ? none : kind == TERRAIN ? ref::terrain_pass(s0, w.p.dh, a)
                                : ref::body_pass(s0, w.p.dh);
    bool any = false;
    for (auto& [k, o] : outs) if (o.acted) any = true;
    R->count("ref_outcomes", outs.size());
    R->max("outcomes_of_one_world", outs.size());
    R->distinct("worlds", hash_st(s0) ^ mix(w.p.dh, w.p.cz * 1e4));
    auto st = explore(maxdev, cap, [&] {
        one(w, kind, s0, a, outs, any, eq0); });
    if (st.capped) R->capped("orders");
    R->count("choices", st.choices);
    std::ostringstream o;
    o << text() << " -> " << outs.size() << " possible results, " << st.runs
      << " orders";
    if (outs.size() > 1) R->sample(o.str());
}

// Hundreds of small scenes in one pass
static void many(Kind kind, const std::vector<St>& scenes, int n, int m,
                 int size) {
    std::vector<ref::Outs> outs[3];
    for (int pol = 0; pol < (R->thorough() ? 12 : 4); pol++)
    for (int shift = 0; shift < 8; shift++)
    for (int dh = 1; dh <= 2; dh++) {
        if (!R->next()) continue;
        ref::Area in{1, size - 1, 1, size - 1};
        if (outs[dh].empty())
            for (auto& t : scenes)
                outs[dh].push_back(kind == TERRAIN ?
                    ref::terrain_pass(t, dh, in) : ref::body_pass(t, dh));
        Tiles q{n, m, size};
        WP p = Tiles::grid(n, m, size);
        p.dh = dh;
        if (shift % 3 == 1) { p.cxy = 0.25f; p.cz = 0.2f; }
        World w(p, frames()[(pol + shift) % 3]);
        auto type = [&](int k) {
            return (k * (1 + 2 * (shift / 4)) + k / 7 + shift * 5) %
                scenes.size(); };
        St s0 = w.empty(scenes[0].at(0, 0).t);
        q.fill(&s0, [&](int k) -> const St& { return scenes[type(k)]; });
        cur = scenes[type(0)]; curp = p;
        R->distinct("worlds", hash_st(s0));
        run_default([&] {
            w.load(s0);
            set_area(w.out.impact_area_, 1, s0.nx - 1, 1, s0.ny - 1);
            w.out.equilibrium_ = true;
            long nw = n_warning;
            if (kind == TERRAIN)
                ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par, p.tol);
            else
                ss::RelaxBodySoil(&w.out, w.grid, &w.body, w.par, p.tol);
            R->count("runs");
            R->count("scenes", n * m);
            R->max("records_in_one_world", s0.e.size());
            St s = w.read();
            std::string e = MON.empty() ? s.bad :
                one_monitor(MON, w, s0, s, n_warning - nw);
            if (!MON.empty()) {
                if (!e.empty()) R->fail("many", e);
                return;
            }
            if (e.empty()) e = walls_same(s0, s);
            if (e.empty()) e = bookkeeping(s);
            if (e.empty()) e = w.records();
            if (e.empty()) e = q.gaps(s0, s);
            if (e.empty() && n_warning != nw) e = "unexpected warning";
            bool acted = false;
            for (int k = 0; e.empty() && k < n * m; k++) {
                auto& o = outs[dh][type(k)];
                auto it = o.find(ref::soil_key(q.cut(s, k)));
                if (it == o.end()) {
                    cur = scenes[type(k)];
                    e = "scene " + std::to_string(k) + " of " +
                        std::to_string(n * m) + " ends in none of its " +
                        std::to_string(o.size()) + " possible results";
                } else if (it->second.acted) {
                    acted = true;
                }
            }
            if (e.empty() && acted && w.out.equilibrium_)
                e = "soil moved but equilibrium is reported";
            if (!e.empty()) R->fail("many", e);
            R->distinct("outcomes", hash_st(s, false));
        }, pol == 0 ? 0 : pol + 2);
    }
}

// The columns are placed off the diagonal of a grid that is not square, so that
// the two indices of a cell cannot stand for each other
static const int DX[4] = {1, -1, 0, 0}, DY[4] = {0, 0, 1, -1};

static std::vector<WP> scales() {
    WP a; a.hx = 2; a.hy = 4; a.hz = 30;
    WP b = a; b.cxy = 0.25f; b.cz = 0.2f;
    WP c = a; c.cxy = 0.2f; c.cz = 0.05f;
    return {a, b, c};
}

// ------------------------------------------------------------------ C04
static void terrain_checks() {
    auto sc = scales();
    bool th = R->thorough();
    auto cols = th ? valid_columns(-2, 4, -3, 2) : valid_columns(-2, 3, -3, 2);
    std::vector<std::unique_ptr<World>> ws;
    for (int dh = 1; dh <= 3; dh++)
        for (int k = 0; k < 3; k++) {
            WP p = sc[k]; p.dh = dh;
            ws.push_back(std::make_unique<World>(p, frames()[(k + dh) % 3]));
        }
    R->describe = text;
    if (R->section("pair")) {
        // one unstable column, one neighbour that matters
        R->describe = text;
        for (size_t k = 0; k < cols.size(); k++)
            for (int d = 0; d < 4; d++) {
                if (!R->next()) continue;
                for (int dh = 1; dh <= 3; dh++)
                    for (int S = -1; S <= (th ? 8 : 6); S++) {
                        World& w = *ws[(dh - 1) * 3 + (k + d) % 3];
                        St s = w.rough(S);
                        s.at(2, 4).t = S;
                        s.at(2 + DX[d], 4 + DY[d]) = cols[k];
                        auto_entries(&s);
                        world(w, TERRAIN, s, {2, 3, 4, 5}, th ? -1 : 1, 0);
                    }
            }
    }
    // representative columns, compared with a source of height 4
    std::vector<Col> rep = {
        col(4), col(0), col(2),
        col1(0, 0, 1, 2), col1(0, 2, 3, 5), col1(0, 2, 0, 1, 1),
        col1(1, 0, 1, 2, 0), col2(0, 0, 0, 1, 0, 2, 3, 0),
        col2(1, 2, 1, 2, 1, 3, 4, 0), col2(-1, 2, -1, 0, 2, 3, 4, 1),
        col2(0, 0, 0, 1, 1, 2, 3, 0), col2(-1, 2, 0, 1, 0, 3, 4, 1),
    };
    if (R->section("cross")) {
        // one unstable column, all four neighbours, every order
        R->describe = text;
        size_t n = th ? rep.size() : 7;
        static const size_t pick[7] = {0, 1, 3, 5, 7, 9, 6};
        for (size_t k = 0; k < n * n * n * n; k++) {
            if (!R->next()) continue;
            for (int dh = 1; dh <= 2; dh++) {
                World& w = *ws[(dh - 1) * 3 + k % 3];
                St s = w.rough(5);
                s.at(2, 4).t = 4;
                size_t q = k;
                for (int d = 0; d < 4; d++, q /= n)
                    s.at(2 + DX[d], 4 + DY[d]) =
                        rep[th ? q % n : pick[q % n]];
                auto_entries(&s);
                world(w, TERRAIN, s, {2, 3, 4, 5}, -1, 0);
            }
        }
    }
    if (R->section("heights")) {
        // the same worlds at many heights
        R->describe = text;
        WP a; a.hx = 2; a.hy = 4;
        for (auto& p0 : height_scales(a)) for (int dh = 1; dh <= 2; dh++) {
            WP p = p0; p.dh = dh;
            World w(p, frames()[dh]);
            int far = th ? 60 : 16;
            for (int off = -far; off <= far; off++)
                for (size_t k = 0; k < rep.size(); k++) {
                    if (!R->next()) continue;
                    for (int S = 2; S <= 9; S++) {
                        int d = (k + off + far + S) % 4;
                        St s = w.rough(S);
                        s.at(2, 4).t = S;
                        s.at(2 + DX[d], 4 + DY[d]) = rep[k];
                        lift(&s, off);
                        auto_entries(&s);
                        world(w, TERRAIN, s, {2, 3, 4, 5}, 0, 0);
                    }
                }
        }
    }
    if (R->section("many")) {
        // hundreds of unstable columns in one pass
        R->describe = text;
        std::vector<St> sc;
        for (size_t k = 0; k < rep.size(); k++)
            for (int d = 0; d < 4; d++) for (int S = 2; S <= 6; S++) {
                St t = tile(7, 0);
                t.at(3, 3).t = S;
                t.at(3 + DX[d], 3 + DY[d]) = rep[k];
                auto_entries(&t);
                sc.push_back(t);
            }
        for (auto [n, m] : {std::pair{24, 19}, {40, 28}})
            many(TERRAIN, sc, n, m, 7);
    }
    if (R->section("two")) {
        // two unstable columns next to each other, every order
        R->describe = text;
        WP p; p.hx = 2; p.hy = 5; p.hz = 30;
        World w(p, frames()[1]);
        std::vector<Col> r = {col(0), col1(0, 0, 1, 2), col1(1, 2, 1, 2, 1),
                              col2(0, 2, 0, 1, 0, 3, 4, 0)};
        int n = th ? 4 : 3;
        int tot = n * n * n * n * n * n;
        for (int k = 0; k < tot; k++) {
            if (!R->next()) continue;
            St s = w.rough(6);
            s.at(2, 4).t = 4 + k % 2;
            s.at(2, 5).t = 4;
            int q = k;
            for (auto [i, j] : {std::pair{1, 4}, {3, 4}, {2, 3}, {1, 5},
                    {3, 5}, {2, 6}}) {
                s.at(i, j) = r[q % n];
                q /= n;
            }
            auto_entries(&s);
            world(w, TERRAIN, s, {2, 3, 4, 6}, -1, 0);
        }
    }
    if (R->section("terrain")) {
        // free terrain of 4x3 cells, heights 0..3, every pair of deviations
        R->describe = text;
        WP p; p.hx = 3; p.hy = 4; p.hz = 30;
        for (int dh = 1; dh <= 2; dh++) {
            p.dh = dh;
            World w(p, frames()[2]);
            int cells = th ? 7 : 6, base = 4, tot = 1;
            for (int k = 0; k < cells; k++) tot *= base;
            for (int k = 0; k < tot; k++) {
                if (!R->next()) continue;
                St s = w.empty(0);
                int q = k;
                static const int X[7] = {2, 3, 2, 3, 4, 3, 2},
                                 Y[7] = {5, 5, 6, 6, 6, 7, 7};
                for (int c = 0; c < cells; c++, q /= base)
                    s.at(X[c], Y[c]).t = 2 * (q % base);
                if (ref::unstable_cells(s, dh, {1, 6, 5, 8}).size() > 3)
                    { R->count("skipped.many_unstable"); continue; }
                world(w, TERRAIN, s, {1, 6, 5, 8}, 1, 0);
            }
        }
    }
    if (R->section("angle")) {
        // the repose angle gives the height difference, to the nearest cell
        R->describe = text;
        for (double cxy : {0.1, 0.2, 0.25})
            for (double cz : {0.1, 0.05, 0.04})
                for (int k = 1; k < 60; k++) {
                    if (!R->next()) continue;
                    double ang = k * std::numbers::pi / 2 / 60;
                    double d = cxy * std::tan(ang) / cz;
                    if (std::fabs(d - std::floor(d) - 0.5) < 0.02 || d > 40)
                        { R->count("skipped.ambiguous_angle"); continue; }
                    WP p; p.cxy = cxy; p.cz = cz; p.hx = 2; p.hy = 4; p.hz = 200;
                    p.dh = std::lround(d);
                    if (p.dh < 1) continue;
                    World w(p);
                    w.par = ss::SimParam(ang, 3, 2);
                    for (int top = p.dh - 1; top <= p.dh + 3; top++)
                        for (int t = -1; t <= 0; t++) {
                            St s = w.empty(top + t);
                            s.at(2, 5).t = t;
                            world(w, TERRAIN, s, {2, 3, 4, 5}, 1, 0);
                        }
                }
    }
}

// ------------------------------------------------------------------ C05
struct Source { Col c; std::vector<int> rec; int l; };

static std::vector<Source> sources(bool th) {
    std::vector<Source> v;
    for (int l = 0; l < 4; l += 2) {
        for (int top = (th ? 0 : 1); top <= 2; top++)
            for (int q = 1; q <= 3; q++) {
                v.push_back({col1(-3, l, top - 1, top, q), {q}, l});
                if (q > 1) {
                    v.push_back({col1(-3, l, top - 1, top, q), {1, q - 1}, l});
                    if (th || top == 1)
                        v.push_back({col1(-3, l, top - 1, top, q), {q - 1, 1},
                                     l});
                }
            }
        // soil between two walls, and soil on the upper of two walls
        v.push_back({col2(-3, l, 0, 1, 2, 3, 4, 0), {2}, l});
        v.push_back({col2(-3, l, -1, 0, 3, 3, 5, 0), {2, 1}, l});
        v.push_back({col2(-3, 2 - l, -2, -1, 0, 0, 1, 3), {3}, l});
        v.push_back({col2(-3, 2 - l, -1, 0, 0, 1, 2, 2), {1, 1}, l});
    }
    return v;
}

static void add_source(St* s, int i, int j, const Source& q) {
    s->at(i, j) = q.c;
    for (int h : q.rec) s->e.push_back({q.l, i, j, h});
}

static void body_checks() {
    auto sc = scales();
    bool th = R->thorough();
    auto cols = th ? valid_columns(-1, 4, -3, 2) : valid_columns(-1, 3, -2, 2);
    auto src = sources(th);
    std::vector<std::unique_ptr<World>> ws;
    for (int dh = 1; dh <= 3; dh++)
        for (int k = 0; k < 3; k++) {
            WP p = sc[k]; p.dh = dh;
            ws.push_back(std::make_unique<World>(p, frames()[(k + dh) % 3]));
        }
    if (R->section("pair")) {
        R->describe = text;
        for (size_t k = 0; k < cols.size(); k++)
            for (int d = 0; d < 4; d++) {
                if (!R->next()) continue;
                for (size_t q = 0; q < src.size(); q++)
                    for (int dh = 1; dh <= 3; dh++) {
                        World& w = *ws[(dh - 1) * 3 + (k + d) % 3];
                        St s = w.rough(12, 4);
                        s.at(2 + DX[d], 4 + DY[d]) = cols[k];
                        add_source(&s, 2, 4, src[q]);
                        // records of the neighbour come after the source, or
                        // have nowhere to go
                        auto keep = s.e;
                        s.e.clear();
                        St nb = w.rough(12, 4);
                        nb.at(2 + DX[d], 4 + DY[d]) = cols[k];
                        auto_entries(&nb);
                        if (q % 2) { s.e = nb.e;
                            s.e.insert(s.e.end(), keep.begin(), keep.end());
                        } else { s.e = keep;
                            s.e.insert(s.e.end(), nb.e.begin(), nb.e.end()); }
                        world(w, BODY, s, {1, 4, 3, 6}, 1, 0,
                              (k + q) % 3 != 0);
                    }
            }
    }
    std::vector<Col> rep = {
        col(12), col(0), col1(-2, 0, 2, 3), col1(0, 2, 0, 1, 1),
        col2(-1, 2, -1, 0, 0, 2, 3, 0), col2(-1, 0, 0, 1, 1, 3, 4, 0),
        col1(-1, 2, 4, 5), col2(-1, 2, -1, 0, 2, 2, 3, 0),
        col2(-1, 0, -1, 0, 1, 1, 2, 0), col1(1, 0, 1, 2, 0),
    };
    if (R->section("cross")) {
        R->describe = text;
        int n = th ? rep.size() : 6;
        std::vector<Source> few = {
            {col1(-3, 0, 1, 2, 3), {3}, 0}, {col1(-3, 2, 1, 2, 4), {2, 2}, 2},
            {col2(-3, 2, 1, 2, 3, 5, 6, 0), {3}, 2},
            {col2(-3, 2, -1, 0, 0, 1, 2, 4), {4}, 0}};
        for (int k = 0; k < n * n * n * n; k++)
            for (int f = 0; f < 4; f++) {
                if (!R->next()) continue;
                for (int dh = 1; dh <= 2; dh++) {
                    World& w = *ws[(dh - 1) * 3 + k % 3];
                    St s = w.rough(12, 4);
                    int q = k;
                    for (int d = 0; d < 4; d++, q /= n)
                        s.at(2 + DX[d], 4 + DY[d]) = rep[q % n];
                    St nb = s;
                    auto_entries(&nb);
                    s.at(2, 4) = few[f].c;
                    for (int h : few[f].rec)
                        s.e.push_back({few[f].l, 2, 4, h});
                    // the neighbours come last and find no lower place
                    s.e.insert(s.e.end(), nb.e.begin(), nb.e.end());
                    world(w, BODY, s, {1, 4, 3, 6}, th ? 3 : 2, 0);
                }
            }
    }
    if (R->section("tall")) {
        // little soil, or much more than the neighbour has room for
        R->describe = text;
        std::vector<Col> two;
        for (auto& c : valid_columns(-2, th ? 4 : 3, -3, 2))
            if (c.wall(0) && c.wall(2) && c.t == ref::low_bottom(c))
                two.push_back(c);
        for (size_t k = 0; k < two.size(); k++)
            for (int d = 0; d < 4; d++) {
                if (!R->next()) continue;
                for (int top = -1; top <= 1; top++)
                    for (int q : {1, 2, 4, 6, 9})
                        for (int x = 0; x < 3; x++) {
                            int l = (k + top + x + 1) % 2 * 2;
                            int rec = x == 0 ? q : x == 1 ? q - 2 : 1;
                            if (rec < 1 || rec > q) continue;
                            World& w = *ws[(k + q + x) % 9];
                            St s = w.rough(14, 4);
                            s.at(2 + DX[d], 4 + DY[d]) = two[k];
                            auto_entries(&s);
                            auto nb = s.e;
                            s.e.clear();
                            s.at(2, 4) = col1(-3, l, top - 1, top, q);
                            s.e.push_back({l, 2, 4, rec});
                            // (a record of no soil does nothing)
                            if (x == 2) s.e.push_back({l, 2, 4, 0});
                            if (rec < q) s.e.push_back({l, 2, 4, q - rec});
                            if (x == 1) s.e.push_back({l, 2, 4, 0});
                            s.e.insert(s.e.end(), nb.begin(), nb.end());
                            world(w, BODY, s, {1, 4, 3, 6}, 1, 0);
                        }
            }
    }
    if (R->section("heights")) {
        // the same worlds at many heights
        R->describe = text;
        WP a; a.hx = 2; a.hy = 4;
        for (auto& p0 : height_scales(a)) for (int dh = 1; dh <= 2; dh++) {
            WP p = p0; p.dh = dh;
            World w(p, frames()[dh]);
            int far = th ? 60 : 16;
            for (int off = -far; off <= far; off++)
                for (size_t k = 0; k < rep.size(); k++) {
                    if (!R->next()) continue;
                    for (size_t q = off & 1; q < src.size(); q += 2) {
                        int d = (k + off + far + q) % 4;
                        St s = w.rough(12, 4);
                        s.at(2 + DX[d], 4 + DY[d]) = rep[k];
                        auto_entries(&s);
                        auto nb = s.e;
                        s.e.clear();
                        add_source(&s, 2, 4, src[q]);
                        s.e.insert(s.e.end(), nb.begin(), nb.end());
                        lift(&s, off);
                        world(w, BODY, s, {1, 4, 3, 6}, 0, 0);
                    }
                }
        }
    }
    if (R->section("many")) {
        // hundreds of records in one pass
        R->describe = text;
        std::vector<St> sc;
        for (size_t k = 0; k < rep.size(); k++)
            for (size_t q = 0; q < src.size(); q++) {
                int d = (k + q) % 4;
                St t = tile(5, 12);
                t.at(2 + DX[d], 2 + DY[d]) = rep[k];
                if ((k + q) % 2) t.at(2 - DX[d], 2 - DY[d]) = rep[q % 7];
                auto_entries(&t);
                auto nb = t.e;
                t.e.clear();
                add_source(&t, 2, 2, src[q]);
                if (q % 3) t.e.insert(t.e.end(), nb.begin(), nb.end());
                else t.e.insert(t.e.begin(), nb.begin(), nb.end());
                sc.push_back(t);
            }
        for (auto [n, m] : {std::pair{24, 19}, {40, 28}})
            many(BODY, sc, n, m, 5);
    }
    if (R->section("chain")) {
        // soil moved by one record is seen by the next ones: three walls in a
        // row, every order of the list
        R->describe = text;
        WP p; p.hx = 2; p.hy = 5; p.hz = 30;
        World w(p, frames()[1]);
        std::vector<Col> r = {
            col1(-2, 0, 0, 1, 3), col1(-2, 2, 1, 2, 2), col1(-2, 0, -1, 0, 1),
            col2(-2, 0, -1, 0, 1, 2, 3, 2), col2(-2, 2, -1, 0, 2, 3, 4, 0),
            col(-1), col1(-2, 2, 2, 3, 2)};
        int n = r.size();
        for (int k = 0; k < n * n * n; k++)
            for (int ord = 0; ord < 2; ord++) {
                if (!R->next()) continue;
                St s = w.rough(12, 4);
                s.at(2, 4) = r[k % n];
                s.at(2, 5) = r[k / n % n];
                s.at(2, 6) = r[k / n / n];
                auto_entries(&s);
                if (ord) std::reverse(s.e.begin(), s.e.end());
                world(w, BODY, s, {1, 4, 3, 8}, th ? 3 : 2, 0);
            }
    }
    if (R->section("angle")) {
        R->describe = text;
        for (double cxy : {0.1, 0.25})
            for (double cz : {0.1, 0.04})
                for (int k = 1; k < 60; k++) {
                    if (!R->next()) continue;
                    double ang = k * std::numbers::pi / 2 / 60;
                    double d = cxy * std::tan(ang) / cz;
                    if (std::fabs(d - std::floor(d) - 0.5) < 0.02 || d > 40)
                        { R->count("skipped.ambiguous_angle"); continue; }
                    WP p; p.cxy = cxy; p.cz = cz; p.hx = 2; p.hy = 4; p.hz = 200;
                    p.dh = std::lround(d);
                    if (p.dh < 1) continue;
                    World w(p);
                    w.par = ss::SimParam(ang, 3, 2);
                    for (int h = p.dh; h <= p.dh + 3; h++) {
                        if (h < 2) continue;
                        St s = w.rough(12 + p.dh);
                        s.at(2, 4) = col1(-3, 0, 0, 1, h - 1);
                        s.e.push_back({0, 2, 4, h - 1});
                        s.at(2, 5) = col(0);
                        world(w, BODY, s, {1, 4, 3, 6}, 1, 0);
                    }
                }
    }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    MON = r.arg("--monitor", "");
    if (r.arg("--prop", "C04") == "C04") terrain_checks();
    else body_checks();
    return r.finish();
}
