// Soil pushed out by the body on every small arrangement of columns.
//   --prop C08 : MoveIntersectingBody      (terrain)
//   --prop C09 : MoveIntersectingBodySoil  (carried soil)
#include "tiles.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string MON;      // only this general property is reported
static St cur; static WP curp;
static std::string text() {
    std::ostringstream o;
    o << "cell " << curp.cxy << "x" << curp.cz << " " << st_str(cur);
    return o.str();
}
static const int* DX = ref::DX; static const int* DY = ref::DY;

// ------------------------------------------------------------------- C08
// Rule of a single source: returns an error or ""
static std::string ring_rule(const St& a, const St& b, int si, int sj) {
    const Col& src = a.at(si, sj);
    int bot = ref::low_bottom(src);
    int h = src.t - bot;
    if (b.at(si, sj).t != bot) return "source column not cut at the underside "
        "of its lowest wall";
    std::vector<char> ray(a.c.size(), 0);
    int placed = 0, partial = 0, far = 0;
    for (int r = 1; r < std::max(a.nx, a.ny); r++)
        for (int d = 0; d < 8; d++) {
            int i = si + DX[d] * r, j = sj + DY[d] * r;
            if (!a.in(i, j)) continue;
            ray[i * a.ny + j] = 1;
            int q = b.at(i, j).t - a.at(i, j).t;
            if (q < 0) return "terrain taken from another column";
            if (!q) continue;
            int bo = ref::low_bottom(a.at(i, j));
            if (bo != INT_MAX && b.at(i, j).t > bo)
                return "terrain pushed into a wall";
            if (bo == INT_MAX || b.at(i, j).t < bo) partial++;
            placed += q; far = std::max(far, r);
        }
    for (int i = 0; i < a.nx; i++)
        for (int j = 0; j < a.ny; j++)
            if (!ray[i * a.ny + j] && !(i == si && j == sj) &&
                !(a.at(i, j) == b.at(i, j)))
                return "a column off the eight directions changed";
    if (placed != h) return "amount pushed differs from the amount received";
    // the column is emptied wall by wall: each wall has its own last column
    int walls = 0;
    for (int l = 0; l < 4; l += 2)
        if (src.wall(l) && src.t > src.b[l]) walls++;
    if (partial > walls)
        return "soil spread over several columns which had room";
    for (int r = 1; r < far; r++)
        for (int d = 0; d < 8; d++) {
            int i = si + DX[d] * r, j = sj + DY[d] * r;
            if (!a.in(i, j)) continue;
            int bo = ref::low_bottom(a.at(i, j));
            if (bo == INT_MAX || b.at(i, j).t < bo)
                return "a farther ring was used although a nearer one has "
                       "room";
        }
    return "";
}

static void run_terrain(World& w, const St& s0, const ref::Area& a) {
    w.load(s0);
    set_area(w.out.body_area_, a.x0, a.x1, a.y0, a.y1);
    set_area(w.out.relax_area_, 1, 2, 1, 2);
    set_area(w.out.impact_area_, 1, 2, 1, 2);
    ss::MoveIntersectingBody(&w.out, w.p.tol);
    R->count("runs");
}
static std::string common(World& w, const St& s0, const St& s) {
    if (!MON.empty()) return one_monitor(MON, w, s0, s, 0);
    if (!s.bad.empty()) return s.bad;
    for (size_t k = 0; k < s.c.size(); k++)
        if (s.c[k].b != s0.c[k].b || s.c[k].s != s0.c[k].s)
            return "a wall or carried soil changed";
    if (s.e != s0.e) return "the list of carried soil changed";
    if (volume(s) != volume(s0)) return "soil volume changed";
    std::string m = w.records();
    return m;
}

static void single(World& w, const St& s0, int si, int sj, int maxdev) {
    cur = s0; curp = w.p;
    R->distinct("worlds", hash_st(s0));
    auto st = explore(maxdev, 0, [&] {
        run_terrain(w, s0, {si, si + 1, sj, sj + 1});
        St s = w.read();
        std::string m = common(w, s0, s);
        if (m.empty() && MON.empty()) m = ring_rule(s0, s, si, sj);
        if (!m.empty()) R->fail("push", m + "; got " + st_str(s));
        R->distinct("outcomes", hash_st(s, false));
    });
    R->count("choices", st.choices);
}

// Hundreds of small scenes in one pass: scene by scene one of its results
static void many(bool body, const std::vector<St>& scenes, int n, int m,
                 int size) {
    std::vector<std::map<ref::Key, int>> outs;
    for (int pol = 0; pol < (R->thorough() ? 12 : 4); pol++)
    for (int shift = 0; shift < 8; shift++) {
        if (!R->next()) continue;
        if (outs.empty())
            for (auto& t : scenes) {
                std::map<ref::Key, int> o;
                if (body)
                    for (auto& [k, v] : ref::push_body_soil(t))
                        o[ref::soil_key(v.s)] = v.lost;
                else
                    for (auto& [k, v] : ref::push_terrain(t,
                            {1, size - 1, 1, size - 1}))
                        o[k] = 0;
                outs.push_back(o);
            }
        Tiles q{n, m, size};
        WP p = Tiles::grid(n, m, size);
        if (shift % 3 == 1) { p.cxy = 0.25f; p.cz = 0.2f; }
        World w(p, frames()[(pol + shift) % 3]);
        auto type = [&](int k) {
            return (k * (1 + 2 * (shift / 4)) + k / 7 + shift * 5) %
                scenes.size(); };
        St s0 = w.empty(scenes[0].at(0, 0).t);
        q.fill(&s0, [&](int k) -> const St& { return scenes[type(k)]; });
        cur = scenes[type(0)]; curp = p;
        R->distinct("worlds", hash_st(s0));
        run_default([&] {
            w.load(s0);
            set_area(w.out.body_area_, 1, s0.nx - 1, 1, s0.ny - 1);
            set_area(w.out.relax_area_, 1, 2, 1, 2);
            set_area(w.out.impact_area_, 1, 2, 1, 2);
            long nw = n_warning;
            if (body)
                ss::MoveIntersectingBodySoil(&w.out, w.grid, &w.body, p.tol);
            if (!body || MON == "C02")
                ss::MoveIntersectingBody(&w.out, p.tol);
            R->count("runs");
            R->count("scenes", n * m);
            R->max("records_in_one_world", s0.e.size());
            St s = w.read();
            if (!MON.empty()) {
                std::string e = one_monitor(MON, w, s0, s, n_warning - nw);
                if (!e.empty()) R->fail("many", e);
                return;
            }
            std::string e = s.bad;
            if (e.empty()) e = walls_same(s0, s);
            if (e.empty()) e = bookkeeping(s);
            if (e.empty()) e = w.records();
            if (e.empty()) e = q.gaps(s0, s);
            long lost = 0;
            for (int k = 0; e.empty() && k < n * m; k++) {
                auto& o = outs[type(k)];
                auto it = o.find(ref::soil_key(q.cut(s, k)));
                if (it == o.end()) {
                    cur = scenes[type(k)];
                    e = "scene " + std::to_string(k) + " of " +
                        std::to_string(n * m) + " ends in none of its " +
                        std::to_string(o.size()) + " possible results";
                } else {
                    lost += it->second;
                }
            }
            if (e.empty() && volume(s0) - volume(s) != lost)
                e = "the amount of soil changed";
            if (e.empty() && (lost > 0) != (n_warning != nw))
                e = lost > 0 ? "soil discarded without warning" :
                    "warning although nothing was discarded";
            if (!e.empty()) R->fail("many", e);
            R->distinct("outcomes", hash_st(s, false));
        }, pol == 0 ? 0 : pol + 2);
    }
}

static void terrain_checks() {
    bool th = R->thorough();
    WP p; p.hx = 3; p.hy = 6; p.hz = 30;
    WP p2 = p; p2.cxy = 0.25f; p2.cz = 0.2f;
    World w1(p, frames()[1]), w2(p2, frames()[2]);
    std::vector<Col> src = {
        col1(2, 0, 0, 1), col1(2, 2, -1, 3), col1(1, 2, -2, 0, 2),
        col2(3, 0, -1, 0, 0, 2, 3, 0), col2(1, 2, 0, 1, 0, 3, 4, 1),
        col2(2, 2, -1, 0, 1, 1, 3, 0), col2(4, 0, 0, 1, 1, 2, 3, 1)};
    std::vector<Col> rep = {
        col(0), col1(-1, 0, 0, 1), col1(0, 2, 0, 1, 1), col1(-3, 2, -1, 1),
        col2(-1, 2, 0, 1, 0, 2, 3, 1), col2(0, 0, 0, 1, 0, 2, 3, 0),
        col2(-4, 0, -2, -1, 0, 0, 1, 0)};
    auto single_world = [&](World& w, const Col& sc, int si, int sj) {
        St s = w.rough(-1);
        s.at(si, sj) = sc;
        return s;
    };
    if (R->section("ring")) {
        // every first ring over `n` kinds of columns
        R->describe = text;
        int n = th ? 4 : 3;
        static const int pick[4] = {1, 0, 2, 4};
        int tot = 1; for (int k = 0; k < 8; k++) tot *= n;
        for (int k = 0; k < tot; k++) {
            if (!R->next()) continue;
            for (size_t c = k % 2; c < src.size(); c += th ? 1 : 2) {
                World& w = (k / 2 + c) % 2 ? w2 : w1;
                St s = single_world(w, src[c], 3, 8);
                int q = k;
                for (int d = 0; d < 8; d++, q /= n)
                    s.at(3 + DX[d], 8 + DY[d]) = rep[pick[q % n]];
                auto_entries(&s);
                single(w, s, 3, 8, 1);
            }
        }
    }
    if (R->section("pairs")) {
        // two columns of the ring with room (all others full), all columns
        R->describe = text;
        auto cols = valid_columns(-2, th ? 2 : 1, -3, 1);
        for (size_t k = 0; k < cols.size(); k++)
            for (int d = 0; d < 8; d++) {
                if (!R->next()) continue;
                for (int d2 = 0; d2 < 8; d2++) {
                    if (d2 == d) continue;
                    for (size_t c = 0; c < src.size(); c++) {
                        World& w = (k + c) % 2 ? w2 : w1;
                        St s = single_world(w, src[c], 3, 8);
                        for (int x = 0; x < 8; x++)
                            s.at(3 + DX[x], 8 + DY[x]) = col1(0, 0, 0, 1);
                        s.at(3 + DX[d], 8 + DY[d]) = cols[k];
                        s.at(3 + DX[d2], 8 + DY[d2]) =
                            rep[1 + (k + c + d2) % 4];
                        auto_entries(&s);
                        single(w, s, 3, 8, th ? 1 : 0);
                    }
                }
            }
    }
    if (R->section("far")) {
        // first ring full or with little room, second ring over three kinds,
        // third ring free
        R->describe = text;
        int tot = 6561;
        for (int k = 0; k < tot; k++) {
            if (!R->next()) continue;
            for (size_t c = k % 3; c < src.size(); c += 3) {
                World& w = k % 2 ? w2 : w1;
                St s = single_world(w, src[c], 3, 8);
                int q = k;
                for (int d = 0; d < 8; d++, q /= 3) {
                    s.at(3 + DX[d], 8 + DY[d]) =
                        d == k % 7 ? col1(-1, 2, 0, 1) : col1(0, 0, 0, 1);
                    static const int pick[3] = {2, 1, 0};
                    s.at(3 + 2 * DX[d], 8 + 2 * DY[d]) = rep[pick[q % 3]];
                }
                auto_entries(&s);
                single(w, s, 3, 8, th ? 1 : 0);
            }
        }
    }
    if (R->section("distant")) {
        // all rings full but a gap and, in the same or a farther ring, room
        // for all
        R->describe = text;
        WP q; q.hx = 6; q.hy = 11; q.hz = 30;
        WP q2 = q; q2.cxy = 0.25f; q2.cz = 0.2f;
        World w3(q, frames()[1]), w4(q2, frames()[2]);
        for (size_t c = 0; c < src.size(); c++)
        for (int k1 = 0; k1 < 8; k1++) for (int k2 = 0; k2 < 8; k2++) {
            if (!R->next()) continue;
            for (int d1 = 1; d1 <= 5; d1++) for (int d2 = d1; d2 <= 5; d2++)
            for (size_t gap = 1; gap < rep.size(); gap++) {
                if (d1 == d2 && k1 == k2) continue;
                World& w = (k1 + d2) % 2 ? w3 : w4;
                St s = w.rough(-1);
                for (int i = 1; i < s.nx - 1; i++)
                    for (int j = 1; j < s.ny - 1; j++)
                        s.at(i, j) = (d1 + k2) % 2 ? col1(0, 0, 0, 2) :
                            col1(0, 2, 0, 3, 1);
                s.at(6, 11) = src[c];
                s.at(6 + d1 * DX[k1], 11 + d1 * DY[k1]) = rep[gap];
                s.at(6 + d2 * DX[k2], 11 + d2 * DY[k2]) =
                    d1 % 2 ? col(-1) : col1(0, 0, 9, 10, 1);
                auto_entries(&s);
                single(w, s, 6, 11, th ? 1 : 0);
            }
        }
    }
    if (R->section("long")) {
        // a wide body: room at every distance in every direction
        R->describe = text;
        int n = th ? 270 : 130;
        WP q; q.hx = n + 2; q.hy = n + 4; q.hz = 30;
        World w(q, frames()[1]);
        St base = w.empty(0);
        for (int i = 1; i < base.nx - 1; i++)
            for (int j = 1; j < base.ny - 1; j++)
                base.at(i, j) = (i + 2 * j) % 3 ? col1(0, 0, 0, 2) :
                    col1(0, 2, 0, 3, 1);
        for (int k = 0; k < 8; k++) for (int d = 1; d <= n; d++) {
            if (!R->next()) continue;
            for (size_t c = (k + d) % 2; c < src.size(); c += th ? 2 : 4) {
                St s = base;
                s.at(q.hx, q.hy) = src[c];
                // little room on the way, the rest at the end
                if (d > 1) s.at(q.hx + d / 2 * DX[k], q.hy + d / 2 * DY[k]) =
                    rep[1 + (d + c) % 4];
                s.at(q.hx + d * DX[k], q.hy + d * DY[k]) =
                    d % 2 ? col(-1) : col1(0, 0, 9, 10, 1);
                auto_entries(&s);
                single(w, s, q.hx, q.hy, 0);
            }
        }
    }
    if (R->section("heights")) {
        // the same worlds at many heights
        R->describe = text;
        WP a; a.hx = 3; a.hy = 6;
        for (auto& q : height_scales(a)) {
            World w(q, frames()[2]);
            int far = th ? 60 : 16;
            for (int off = -far; off <= far; off++)
                for (size_t c = 0; c < src.size(); c++) {
                    if (!R->next()) continue;
                    for (int k = 0; k < 12; k++) {
                        St s = w.rough(-2);
                        s.at(3, 8) = src[c];
                        for (int d = 0; d < 8; d++)
                            s.at(3 + DX[d], 8 + DY[d]) =
                                d == k % 8 || d == (k + 3) % 8 ?
                                rep[(k + off + far + d) % rep.size()] :
                                col1(0, 0, 0, 1);
                        lift(&s, off);
                        auto_entries(&s);
                        single(w, s, 3, 8, 0);
                    }
                }
        }
    }
    if (R->section("orders")) {
        // the complete tree of orders for a few rings
        R->describe = text;
        for (int k = 0; k < (th ? 24 : 8); k++) {
            if (!R->next()) continue;
            // one wall in the terrain: a single order of eight directions
            static const int one[4] = {0, 1, 2, 4};
            St s = single_world(w1, src[one[k % 4]], 3, 8);
            for (int d = 0; d < 8; d++)
                s.at(3 + DX[d], 8 + DY[d]) =
                    rep[(d * (k + 1) + k / 7) % rep.size()];
            if (k % 2) for (int d = 0; d < 8; d++)
                if (ref::low_bottom(s.at(3 + DX[d], 8 + DY[d])) == INT_MAX)
                    s.at(3 + DX[d], 8 + DY[d]) = rep[2];
            auto_entries(&s);
            single(w1, s, 3, 8, -1);
        }
    }
    if (R->section("edge")) {
        // the source at every place of the body area, including its border
        R->describe = text;
        for (int x0 = 2; x0 <= 4; x0++) for (int x1 = x0 + 1; x1 <= 5; x1++)
        for (int y0 = 6; y0 <= 9; y0++) for (int y1 = y0 + 1; y1 <= 10; y1++)
        for (size_t c = 0; c < src.size(); c++) {
            if (!R->next()) continue;
            for (int i = x0; i < x1; i++)
                for (int j = y0; j < y1; j++) {
                    St s = single_world(w1, src[c], i, j);
                    auto_entries(&s);
                    cur = s; curp = w1.p;
                    run_default([&] { run_terrain(w1, s, {x0, x1, y0, y1});
                    });
                    St o = w1.read();
                    std::string m = common(w1, s, o);
                    if (m.empty() && MON.empty()) m = ring_rule(s, o, i, j);
                    if (!m.empty()) R->fail("push", m + "; got " + st_str(o));
                }
        }
    }
    if (R->section("several")) {
        // several intersecting columns: any result of the reference
        R->describe = text;
        std::vector<std::pair<int, int>> off = {
            {0, 1}, {1, 0}, {1, 1}, {1, -1}, {0, 2}, {2, 0}, {2, 1}};
        int n = src.size(), m = rep.size();
        for (int k = 0; k < n * n * (int)off.size() * m; k++) {
            if (!R->next()) continue;
            int q = k;
            Col a = src[q % n]; q /= n;
            Col b = src[q % n]; q /= n;
            auto o = off[q % off.size()]; q /= off.size();
            World& w = k % 2 ? w2 : w1;
            St s = w.rough(-1);
            // surrounded by walls, one hole each
            for (int i = 2; i <= 5; i++) for (int j = 7; j <= 9; j++)
                s.at(i, j) = col1(0, (i + j) % 2 * 2, 0, 1);
            s.at(3, 8) = a;
            s.at(3 + o.first, 8 + o.second) = b;
            for (auto [i, j] : {std::pair{2, 8}, {2, 7}, {4, 7}, {3, 9}}) {
                if (i == 3 + o.first && j == 8 + o.second) continue;
                s.at(i, j) = rep[(q + i * 2 + j) % m];
            }
            auto_entries(&s);
            cur = s; curp = w.p;
            decltype(ref::push_terrain(s, {1, 6, 1, 12})) outs;
            if (MON.empty()) outs = ref::push_terrain(s, {1, 6, 1, 12});
            R->count("ref_outcomes", outs.size());
            R->max("outcomes_of_one_world", outs.size());
            R->distinct("worlds", hash_st(s));
            std::ostringstream os;
            os << text() << " -> " << outs.size() << " possible results";
            R->sample(os.str());
            explore(th ? 2 : 1, 0, [&] {
                run_terrain(w, s, {1, 6, 1, 12});
                St r = w.read();
                std::string e = common(w, s, r);
                if (e.empty() && MON.empty() &&
                    !outs.count(ref::soil_key(r)))
                    e = "result is none of the " + std::to_string(outs.size())
                        + " results the rule allows; got " + st_str(r);
                if (!e.empty()) R->fail("several", e);
                R->distinct("outcomes", hash_st(r, false));
            });
        }
    }
    if (R->section("many")) {
        // hundreds of columns entered by the body at once
        R->describe = text;
        std::vector<St> sc;
        for (size_t c = 0; c < src.size(); c++)
            for (size_t k = 1; k < rep.size(); k++)
                for (int d = 0; d < 8; d++) {
                    int d2 = (d + 1 + (c + k) % 7) % 8;
                    St t = tile(7, -1);
                    for (int x = 0; x < 8; x++)
                        t.at(3 + DX[x], 3 + DY[x]) = col1(0, 0, 0, 1);
                    t.at(3, 3) = src[c];
                    t.at(3 + DX[d], 3 + DY[d]) = rep[k];
                    t.at(3 + DX[d2], 3 + DY[d2]) =
                        (c + d) % 3 ? col(-2) : rep[1 + (k + d) % 6];
                    auto_entries(&t);
                    sc.push_back(t);
                }
        for (auto [n, m] : {std::pair{24, 19}, {40, 28}})
            many(false, sc, n, m, 7);
    }
    if (R->section("idle")) {
        // a body which does not enter the terrain moves nothing
        R->describe = text;
        auto cols = valid_columns(-2, 3, -3, 1);
        for (size_t k = 0; k < cols.size(); k++) {
            if (!R->next()) continue;
            St s = w1.empty(2);
            s.at(3, 8) = cols[k];
            s.at(4, 8) = cols[(k * 7 + 3) % cols.size()];
            auto_entries(&s);
            cur = s; curp = w1.p;
            run_default([&] { run_terrain(w1, s, {1, 6, 1, 12}); });
            St r = w1.read();
            std::string e = common(w1, s, r);
            if (e.empty() && MON.empty() && !(r.c == s.c)) e = "soil moved without reason";
            if (!e.empty()) R->fail("idle", e);
        }
    }
}

// ------------------------------------------------------------------- C09
static void body_world(World& w, const St& s0, int maxdev) {
    cur = s0; curp = w.p;
    decltype(ref::push_body_soil(s0)) outs;
    if (MON.empty()) outs = ref::push_body_soil(s0);
    R->count("ref_outcomes", outs.size());
    R->max("outcomes_of_one_world", outs.size());
    R->distinct("worlds", hash_st(s0));
    if (outs.size() > 1) {
        std::ostringstream os;
        os << text() << " -> " << outs.size() << " possible results";
        R->sample(os.str());
    }
    auto st = explore(maxdev, 0, [&] {
        w.load(s0);
        set_area(w.out.body_area_, 1, 2 * w.p.hx, 1, 2 * w.p.hy);
        set_area(w.out.relax_area_, 1, 2, 1, 2);
        set_area(w.out.impact_area_, 1, 2, 1, 2);
        long nw = n_warning;
        ss::MoveIntersectingBodySoil(&w.out, w.grid, &w.body, w.p.tol);
        R->count("runs");
        St s = w.read();
        if (!MON.empty()) {
            // soil meeting a higher wall is poured on the terrain whatever
            // the room below that wall; the next phase sorts that out
            if (MON == "C02") {
                ss::MoveIntersectingBody(&w.out, w.p.tol);
                s = w.read();
            }
            std::string e = one_monitor(MON, w, s0, s, n_warning - nw);
            if (!e.empty()) R->fail("monitor", e + "; got " + st_str(s));
            R->distinct("outcomes", hash_st(s, false));
            return;
        }
        std::string m = s.bad;
        if (m.empty()) m = walls_same(s0, s);
        if (m.empty()) m = bookkeeping(s);
        if (m.empty()) m = w.records();
        if (m.empty()) {
            int lost = volume(s0) - volume(s);
            auto k = ref::soil_key(s);
            k.push_back(lost);
            if (!outs.count(k)) {
                std::ostringstream o;
                o << "result is none of the " << outs.size()
                  << " results the rule allows (lost " << lost << "); got "
                  << st_str(s) << " expected e.g. "
                  << st_str(outs.begin()->second.s) << " lost "
                  << outs.begin()->second.lost;
                m = o.str();
            } else if ((lost > 0) != (n_warning != nw)) {
                m = lost > 0 ? "soil discarded without warning" :
                    "warning although nothing was discarded";
            }
        }
        if (!m.empty()) R->fail("push", m);
        R->distinct("outcomes", hash_st(s, false));
    });
    R->count("choices", st.choices);
}

struct Src { Col c; int l; std::vector<int> rec; };

static void body_checks() {
    bool th = R->thorough();
    WP p; p.hx = 4; p.hy = 7; p.hz = 30;
    WP p2 = p; p2.cxy = 0.25f; p2.cz = 0.2f;
    World w1(p, frames()[1]), w2(p2, frames()[2]);
    const int C = 4, D = 9;       // off the diagonal
    // soil on the lower wall reaching into the upper one
    std::vector<Src> src;
    for (int l = 0; l < 4; l += 2) {
        auto mk = [&](int b, int u, int q, int b2, int u2, int q2) {
            Col c; c.t = -4;
            c.b[l] = b; c.b[l + 1] = u;
            if (q) { c.s[l] = u; c.s[l + 1] = u + q; }
            int m = 2 - l;
            c.b[m] = b2; c.b[m + 1] = u2;
            if (q2) { c.s[m] = u2; c.s[m + 1] = u2 + q2; }
            return c;
        };
        src.push_back({mk(-1, 0, 3, 2, 3, 0), l, {3}});
        src.push_back({mk(-1, 0, 3, 1, 2, 0), l, {1, 2}});
        src.push_back({mk(-2, -1, 4, 0, 1, 2), l, {1, 1, 2}});
        src.push_back({mk(-1, 1, 2, 2, 4, 0), l, {2}});
        src.push_back({mk(-2, -1, 2, 1, 2, 0), l, {2}});      // not caught
        src.push_back({mk(-1, 0, 2, 1, 2, 0), l, {1, 1}});
    }
    auto add_src = [&](St* s, const Src& q) {
        s->at(C, D) = q.c;
        for (int h : q.rec) s->e.push_back({q.l, C, D, h});
        // soil on the upper wall is never caught
        int m = 2 - q.l;
        if (q.c.soil(m))
            s->e.push_back({m, C, D, q.c.s[m + 1] - q.c.s[m]});
    };
    // all the rest of the neighbourhood blocks the way
    auto blocked = [&](World& w) {
        St s = w.rough(-6);
        for (int d = 0; d < 8; d++)
            s.at(C + DX[d], D + DY[d]) = col1(-4, d % 2 * 2, -2, 6);
        return s;
    };
    auto others = [&](St* s) {
        // records of soil lying elsewhere, in front of or behind the source
        St t = *s; t.e.clear();
        t.at(C, D) = Col();
        auto_entries(&t);
        return t.e;
    };
    auto cols = valid_columns(-2, th ? 4 : 3, -4, 1);
    std::vector<Col> cut;
    for (auto& c : cols)     // the amount of terrain matters little here
        if (c.t == -4 || c.t == ref::low_bottom(c) || (!c.wall(0) && !c.wall(2)
            && c.t >= 2)) cut.push_back(c);
    cols = cut;
    std::vector<Col> rep = {
        col(-4), col1(-4, 0, -2, 6), col1(-4, 2, 1, 2), col1(-4, 0, -1, 0, 1),
        col2(-4, 0, -2, -1, 0, 1, 2, 0), col2(-4, 2, -1, 0, 1, 1, 2, 1),
        col2(-4, 0, 0, 1, 0, 3, 4, 0), col2(-4, 2, -2, -1, 1, 1, 2, 0),
        col1(-4, 2, -3, -2, 0)};
    if (R->section("ray")) {
        // one open direction: every first column, several second columns
        R->describe = text;
        for (size_t k = 0; k < cols.size(); k++)
            for (int d = 0; d < 8; d++) {
                if (!R->next()) continue;
                for (size_t k2 = 0; k2 < (th ? rep.size() : 6); k2++)
                    for (size_t q = 0; q < src.size(); q++) {
                        World& w = (k + k2) % 2 ? w2 : w1;
                        St s = blocked(w);
                        s.at(C + DX[d], D + DY[d]) = cols[k];
                        s.at(C + 2*DX[d], D + 2*DY[d]) = rep[k2];
                        s.at(C + 3*DX[d], D + 3*DY[d]) =
                            k % 2 ? rep[1] : rep[0];
                        auto oth = others(&s);
                        if (q % 2) s.e = oth;
                        add_src(&s, src[q]);
                        if (q % 2 == 0)
                            s.e.insert(s.e.end(), oth.begin(), oth.end());
                        body_world(w, s, 0);
                    }
            }
    }
    if (R->section("two_rays")) {
        // two open directions, three columns deep
        R->describe = text;
        int n = rep.size();
        for (int k = 0; k < n * n * n; k++)
            for (int d = 0; d < 8; d++) {
                if (!R->next()) continue;
                for (size_t q = 0; q < src.size(); q++) {
                    World& w = (k + q) % 2 ? w2 : w1;
                    int d2 = (d + 1 + (k + q) % 7) % 8;
                    St s = blocked(w);
                    s.at(C + DX[d], D + DY[d]) = rep[k % n];
                    s.at(C + 2*DX[d], D + 2*DY[d]) = rep[k / n % n];
                    s.at(C + DX[d2], D + DY[d2]) = rep[k / n / n];
                    s.at(C + 2*DX[d2], D + 2*DY[d2]) = rep[(k + d) % n];
                    s.at(C + 3*DX[d], D + 3*DY[d]) = rep[(k + q) % 2];
                    s.at(C + 3*DX[d2], D + 3*DY[d2]) = rep[1];
                    add_src(&s, src[q]);
                    auto oth = others(&s);
                    s.e.insert(s.e.end(), oth.begin(), oth.end());
                    body_world(w, s, th ? 2 : 1);
                }
            }
    }
    if (R->section("all_rays")) {
        // eight directions: every first ring over three kinds of columns,
        // the second ring over the kinds in turn
        R->describe = text;
        int n = rep.size();
        for (int k = 0; k < 6561; k++) {
            if (!R->next()) continue;
            for (size_t q = th ? 0 : k % 3; q < src.size(); q += th ? 1 : 3) {
                World& w = (k + q) % 2 ? w2 : w1;
                St s = w.rough(-6);
                int x = k;
                for (int d = 0; d < 8; d++, x /= 3) {
                    int v = (k / 3 + d) % 3;
                    static const int kind[3][3] = {
                        {1, 1, 1}, {0, 2, 8}, {3, 4, 5}};
                    s.at(C + DX[d], D + DY[d]) = rep[kind[x % 3][v]];
                    s.at(C + 2*DX[d], D + 2*DY[d]) = rep[(k + d * 4) % n];
                    s.at(C + 3*DX[d], D + 3*DY[d]) = rep[(k + d) % 2];
                }
                add_src(&s, src[q]);
                auto oth = others(&s);
                s.e.insert(s.e.end(), oth.begin(), oth.end());
                body_world(w, s, th ? 1 : k % 4 == 0);
            }
        }
    }
    if (R->section("many")) {
        // hundreds of records, many of them caught by another wall
        R->describe = text;
        std::vector<St> sc;
        for (size_t q = 0; q < src.size(); q++)
            for (size_t k = 0; k < rep.size(); k++)
                for (int d = 0; d < 8; d++) {
                    St t = tile(9, -6);
                    for (int x = 0; x < 8; x++)
                        t.at(4 + DX[x], 4 + DY[x]) =
                            col1(-4, x % 2 * 2, -2, 6);
                    t.at(4 + DX[d], 4 + DY[d]) = rep[k];
                    t.at(4 + 2*DX[d], 4 + 2*DY[d]) = rep[(k * 5 + q) % 9];
                    t.at(4 + 3*DX[d], 4 + 3*DY[d]) = rep[(k + d) % 2];
                    if ((k + q) % 2) {
                        int d2 = (d + 3) % 8;
                        t.at(4 + DX[d2], 4 + DY[d2]) = rep[(k + 2) % 9];
                        t.at(4 + 2*DX[d2], 4 + 2*DY[d2]) = rep[q % 2];
                    }
                    auto_entries(&t);
                    auto oth = t.e;
                    t.e.clear();
                    t.at(4, 4) = src[q].c;
                    for (int h : src[q].rec)
                        t.e.push_back({src[q].l, 4, 4, h});
                    int m = 2 - src[q].l;
                    if (src[q].c.soil(m))
                        t.e.push_back({m, 4, 4,
                            src[q].c.s[m + 1] - src[q].c.s[m]});
                    t.e.insert((q + d) % 2 ? t.e.end() : t.e.begin(),
                               oth.begin(), oth.end());
                    sc.push_back(t);
                }
        for (auto [n, m] : {std::pair{24, 19}, {40, 28}})
            many(true, sc, n, m, 9);
    }
    if (R->section("chains")) {
        // one open direction, up to four columns deep
        R->describe = text;
        WP q; q.hx = 6; q.hy = 9; q.hz = 30;
        WP q2 = q; q2.cxy = 0.25f; q2.cz = 0.2f;
        World w3(q, frames()[1]), w4(q2, frames()[2]);
        std::vector<Col> mid = {
            col2(-4, 0, -2, -1, 0, 1, 2, 0), col2(-4, 2, -2, -1, 0, 1, 2, 0),
            col2(-4, 0, -1, 0, 2, 2, 3, 0), col2(-4, 2, -1, 0, 2, 2, 3, 1),
            col2(-4, 0, 0, 1, 1, 3, 4, 0), col2(-4, 2, -3, -2, 0, 0, 1, 2)};
        std::vector<Col> last = {
            col(-4), col1(-4, 0, -3, -2, 1), col1(-4, 2, 8, 9),
            col1(-4, 2, 0, 1, 0), col1(-4, 0, 9, 11), col1(-4, 2, 2, 3)};
        int n = mid.size();
        for (int dir = 0; dir < 8; dir++)
        for (int len = 2; len <= 4; len++)
        for (int k = 0; k < int(std::pow(n, len - 1) + .5); k++) {
            if (!R->next()) continue;
            for (int m = 0; m < n; m++)
            for (size_t e = (k + m) % 2; e < last.size(); e += th ? 1 : 2)
            for (int h : {3, 5, 9}) {
                World& w = (k + m) % 2 ? w3 : w4;
                St s = w.rough(-6);
                for (int d = 0; d < 8; d++) if (d != dir)
                    s.at(6 + DX[d], 11 + DY[d]) = col1(-4, d % 2 * 2, -2, 20);
                s.at(6, 11) = e % 2 ? col2(-4, 0, -1, 0, h, 2, 3, 0) :
                    col2(-4, 2, -1, 0, h, 2, 3, 1);
                for (int z = 1, v = k * n + m; z <= len; z++, v /= n)
                    s.at(6 + z * DX[dir], 11 + z * DY[dir]) = mid[v % n];
                s.at(6 + (len + 1) * DX[dir], 11 + (len + 1) * DY[dir]) =
                    last[e];
                auto_entries(&s);
                body_world(w, s, 0);
            }
        }
    }
    if (R->section("long")) {
        // soil travelling between two wide walls, up to every distance
        R->describe = text;
        int n = th ? 270 : 130;
        WP q; q.hx = n + 3; q.hy = n + 5; q.hz = 30;
        World w(q, frames()[1]);
        std::vector<Col> last = {
            col(-4), col1(-4, 0, -3, -2, 1), col1(-4, 2, 8, 9),
            col1(-4, 2, 0, 1, 0), col1(-4, 0, 9, 11), col1(-4, 2, 2, 3)};
        St base = w.empty(-6);
        for (int dir = 0; dir < 8; dir++) for (int d = 1; d <= n; d++) {
            if (!R->next()) continue;
            for (size_t e = (d + dir) % 3; e < last.size(); e += th ? 1 : 3) {
                St s = base;
                for (int x = 0; x < 8; x++) if (x != dir)
                    s.at(q.hx + DX[x], q.hy + DY[x]) =
                        col1(-4, x % 2 * 2, -2, 20);
                s.at(q.hx, q.hy) = e % 2 ? col2(-4, 0, -1, 0, 5, 2, 3, 0) :
                    col2(-4, 2, -1, 0, 5, 2, 3, 1);
                // filled passages, one with a little room
                for (int z = 1; z < d; z++)
                    s.at(q.hx + z * DX[dir], q.hy + z * DY[dir]) =
                        col2(-4, (z + d) % 2 * 2, -1, 0,
                             z == d / 2 ? 1 : 2, 2, 3, z % 5 == 0);
                s.at(q.hx + d * DX[dir], q.hy + d * DY[dir]) = last[e];
                auto_entries(&s);
                body_world(w, s, 0);
            }
        }
    }
    if (R->section("heights")) {
        // the same worlds at many heights
        R->describe = text;
        WP a; a.hx = 4; a.hy = 7;
        int n = rep.size();
        for (auto& x : height_scales(a)) {
            World w(x, frames()[1]);
            int far = th ? 60 : 16;
            for (int off = -far; off <= far; off++)
                for (int k = 0; k < n; k++) {
                    if (!R->next()) continue;
                    for (size_t q = 0; q < src.size(); q++) {
                        int d = (off + far + k + q) % 8;
                        St s = blocked(w);
                        s.at(C + DX[d], D + DY[d]) = rep[k];
                        s.at(C + 2*DX[d], D + 2*DY[d]) = rep[(off + far) % n];
                        s.at(C + 3*DX[d], D + 3*DY[d]) = rep[q % 2];
                        add_src(&s, src[q]);
                        auto oth = others(&s);
                        s.e.insert(s.e.end(), oth.begin(), oth.end());
                        lift(&s, off);
                        body_world(w, s, 0);
                    }
                }
        }
    }
    if (R->section("orders")) {
        // complete tree of orders
        R->describe = text;
        for (int k = 0; k < (th ? 24 : 8); k++) {
            if (!R->next()) continue;
            St s = w1.empty(-4);
            for (int d = 0; d < 8; d++) {
                s.at(C + DX[d], D + DY[d]) = rep[(d * (k + 2) + k) % 9];
                s.at(C + 2*DX[d], D + 2*DY[d]) = rep[(d + k) % 3 ? 1 : 0];
            }
            add_src(&s, src[k % 2 ? 0 : 9]);
            auto oth = others(&s);
            s.e.insert(s.e.end(), oth.begin(), oth.end());
            // one caught record per world: the tree has 8! leaves
            body_world(w1, s, k % 2 ? -1 : 2);
        }
    }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    MON = r.arg("--monitor", "");
    if (r.arg("--prop", "C08") == "C08") terrain_checks();
    else body_checks();
    return r.finish();
}
