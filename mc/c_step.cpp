// Histories of motions of a real body through real soil: every sequence of
// motions up to a depth, from every point of scripted digging cycles, each
// step executed both by the real Step and phase by phase.
//   --prop C01 C02 C03 C06 C07 C10 C23 : the monitors which report
#include "step.hpp"
using namespace mc;
std::mc_mt19937 soil_simulator::rng;

static Runner* R;
static std::string P;             // property whose monitors report
static bool mon(const char* p) { return P == p; }

static std::string path;          // what is being executed, for the reports
static const Stage* cur_stage;
static std::string at_str(const At& a) {
    std::ostringstream o;
    o << "(" << a.x << "," << a.y << "," << a.z << "; " << a.yaw << "," <<
        a.pitch << "," << a.roll << ")";
    return o.str();
}
static std::string text() {
    std::ostringstream o;
    auto& s = cur_stage->sc;
    o << "scene " << s.name << " grid " << 2 * s.p.hx + 1 << "x" <<
        2 * s.p.hy + 1 << " cell " << s.p.cxy << "x" << s.p.cz << " dh=" <<
        s.p.dh << " iterations=" << s.p.maxit << " buffer=" << s.p.buffer <<
        " terrain " << s.terrain << ": " << path;
    return o.str();
}

static std::string area_str(const int a[2][2]) {
    std::ostringstream o;
    o << "[" << a[0][0] << "," << a[0][1] << ")x[" << a[1][0] << "," <<
        a[1][1] << ")";
    return o.str();
}
static bool in_area(const int a[2][2], int i, int j) {
    return i >= a[0][0] && i < a[0][1] && j >= a[1][0] && j < a[1][1];
}
static bool interior(const int a[2][2], const WP& p) {
    return a[0][0] >= 1 && a[1][0] >= 1 && a[0][1] <= 2 * p.hx &&
        a[1][1] <= 2 * p.hy;
}

static bool only_soil_differs(const St& a, const St& b) {
    for (size_t k = 0; k < a.c.size(); k++)
        if (!(a.c[k] == b.c[k])) return true;
    return false;
}

// Records in the state which are not the ones of before have to hold the
// place where the soil landed, in the frame of the recorded pose.
static std::string new_records(const Sim& s, const std::vector<Rec>& before,
                               const WP& p) {
    Pose q{s.body()->pos_, s.body()->ori_};
    for (auto& e : s.out.body_soil_pos_) {
        if (e.h_soil < 0.5 * p.cz) continue;
        bool old = false;
        for (auto& r : before)
            if (r.ind == e.ind && r.i == e.ii && r.j == e.jj &&
                std::fabs(r.b[0] - e.x_b) < 1e-6 &&
                std::fabs(r.b[1] - e.y_b) < 1e-6 &&
                std::fabs(r.b[2] - e.z_b) < 1e-6) { old = true; break; }
        if (old) continue;
        D3 b = to_body(q, cell_centre(p, e.ii, e.jj,
            s.out.body_[e.ind + 1][e.ii][e.jj]));
        double near = 1e-3 * p.cz;
        if (!(std::fabs(b[0] - e.x_b) < near && std::fabs(b[1] - e.y_b) < near
              && std::fabs(b[2] - e.z_b) < near)) {
            std::ostringstream o;
            o << "new record of layer " << e.ind << " at (" << e.ii << "," <<
                e.jj << ") holds (" << e.x_b << "," << e.y_b << "," << e.z_b
              << ") in the body frame instead of (" << b[0] << "," << b[1] <<
                "," << b[2] << ")";
            return o.str();
        }
    }
    return "";
}

struct Visit {             // monitors called along a step taken by phases
    const Stage& st;
    long v0 = 0;
    St prev;
    std::vector<Rec> recs;
    Pose from;
    long warn = 0;
    bool moved = false;
    long passes = 0;
    bool last_moved = false;
    bool loss = false;
    long moved_warning = 0;
};

// Does the shuffle of the records in Step consume the draws as the
// composition below does?  (see calibrate)
static bool same_shuffle = true;

static void shuffle(ss::SimOut* o) {
    for (int aa = static_cast<int>(o->body_soil_pos_.size()) - 1; aa > 0; aa--)
    {
        std::uniform_int_distribution<int> dist(0, aa);
        int bb = dist(ss::rng);
        std::swap(o->body_soil_pos_[aa], o->body_soil_pos_[bb]);
    }
}
static void hull(ss::SimOut* o) {
    for (int a = 0; a < 2; a++) {
        o->impact_area_[a][0] = std::min(o->body_area_[a][0],
                                         o->relax_area_[a][0]);
        o->impact_area_[a][1] = std::max(o->body_area_[a][1],
                                         o->relax_area_[a][1]);
    }
}

static void after_phase(Visit* v, Sim* s, const char* phase) {
    auto& p = v->st.sc.p;
    bool need = mon("C01") || mon("C03") || mon("C06") || mon("C07") ||
        mon("C10");
    if (!need) return;
    St now = snap(s->out, p.cz);
    long w = n_warning - v->warn;
    if (mon("C01")) {
        if (!now.bad.empty()) R->fail("height", now.bad);
        long d = volume(now) - volume(v->prev);
        if (d > 0 || (d < 0 && (w == 0 || std::string(phase) != "push")))
            R->fail(std::string("volume.") + phase, "the phase '" +
                    std::string(phase) + "' changes the amount of soil by " +
                    std::to_string(d) + " cells");
        if (d < 0) { v->loss = true; R->count("documented_losses"); }
    }
    if (mon("C03") && std::string(phase) != "place") {
        std::string m = bookkeeping(now);
        if (m.empty() && std::string(phase) != "carry")
            m = new_records(*s, v->recs, p);
        if (!m.empty()) R->fail(std::string("records.") + phase, "after the "
            "phase '" + std::string(phase) + "': " + m);
    }
    if (mon("C06") && (std::string(phase) == "terrain" ||
                       std::string(phase) == "soil pass")) {
        bool moved = only_soil_differs(v->prev, now);
        if (moved && s->out.equilibrium_)
            R->fail("flag", "soil moved in the phase '" + std::string(phase) +
                    "' but equilibrium is reported");
        if (moved && energy(now) >= energy(v->prev))
            R->fail("energy", "the phase '" + std::string(phase) +
                    "' moves soil without lowering it: it may never settle");
        if (moved) v->last_moved = true;
    }
    if (mon("C07") && std::string(phase) == "terrain") {
        if (!interior(s->out.impact_area_, p) ||
            !interior(s->out.relax_area_, p))
            R->fail("interior", "the active area leaves the interior of the "
                    "grid: impact " + area_str(s->out.impact_area_) +
                    " relax " + area_str(s->out.relax_area_));
        int a[2][2];
        std::memcpy(a, s->out.impact_area_, sizeof a);
        for (int k = 0; k < 2; k++) { a[k][0]--; a[k][1]++; }
        for (int i = 0; i < now.nx; i++)
            for (int j = 0; j < now.ny; j++)
                if (!(now.at(i, j) == v->prev.at(i, j)) && !in_area(a, i, j))
                    R->fail("reach", "column (" + std::to_string(i) + "," +
                            std::to_string(j) + ") changed although it is "
                            "more than one cell from the examined area " +
                            area_str(s->out.impact_area_));
        // after the pass: everything still sliding is in the next area
        auto sl = sliding_terrain(now, p.dh);
        R->max("sliding_after_a_pass", sl.size());
        int n[2][2];
        for (int k = 0; k < 2; k++) {
            n[k][0] = std::min(s->out.body_area_[k][0],
                               s->out.relax_area_[k][0]);
            n[k][1] = std::max(s->out.body_area_[k][1],
                               s->out.relax_area_[k][1]);
        }
        for (auto& c : sl)
            if (!in_area(n, c.first, c.second)) {
                R->fail("escape", "terrain of cell (" +
                    std::to_string(c.first) + "," + std::to_string(c.second) +
                    ") is unstable after a pass but outside the next area " +
                    area_str(n) + ": " + col_str(now.at(c.first, c.second)));
                break;
            }
    }
    v->prev = std::move(now);
    if (mon("C03")) v->recs = records_of(s->out);
    v->warn = n_warning;
}

// One step as the documented sequence of phases
static bool by_phases(Visit* v, Sim* s, const At& to) {
    auto& st = v->st;
    V3 pos = to.pos(), ori = to.ori();
    float tol = st.sc.p.tol;
    v->from = {s->body()->pos_, s->body()->ori_};
    v->prev = snap(s->out, st.sc.p.cz);
    v->v0 = volume(v->prev);
    v->recs = records_of(s->out);
    long w0 = n_warning;
    if (!ss::CheckBodyMovement(pos, ori, st.grid, s->body())) return false;
    v->moved_warning = n_warning - w0;
    v->moved = true;
    v->warn = n_warning;
    s->place(pos, ori, st.grid, st.par, tol);
    after_phase(v, s, "place");
    St placed;
    std::vector<Rec> rec0;
    if (mon("C10")) { placed = v->prev; rec0 = records_of(s->out); }
    bool was = oriented(*s->body());
    long nw = n_warning;
    ss::UpdateBodySoil(&s->out, pos, ori, st.grid, s->body(), tol);
    if (mon("C10")) {
        int amb = 0;
        R->count("records_followed", rec0.size());
        if (was || rec0.empty()) {
            std::string m = check_follow(
                st.sc.p, v->from, {pos, ori}, placed, rec0, s->out,
                *s->body(), n_warning - nw, &amb);
            if (!m.empty()) R->fail("follow", m);
        }
        R->count("ambiguous_records", amb);
    }
    after_phase(v, s, "carry");
    ss::MoveIntersectingCells(&s->out, st.grid, s->body(), tol);
    after_phase(v, s, "push");
    s->out.equilibrium_ = false;
    int it = 0;
    while (!s->out.equilibrium_ && it < st.par.max_iterations_) {
        it++;
        hull(&s->out);
        v->last_moved = false;
        if (mon("C07")) {
            // everything which slides now has to be examined by this pass
            for (auto& c : sliding_terrain(v->prev, st.sc.p.dh))
                if (!in_area(s->out.impact_area_, c.first, c.second)) {
                    R->fail("escape", "terrain of cell (" +
                        std::to_string(c.first) + "," +
                        std::to_string(c.second) + ") is unstable but the "
                        "area examined is " +
                        area_str(s->out.impact_area_) + ": " +
                        col_str(v->prev.at(c.first, c.second)));
                    break;
                }
            int area[2][2];
            std::memcpy(area, s->out.impact_area_, sizeof area);
            ss::RelaxTerrain(&s->out, st.grid, s->body(), st.par, tol);
            if (std::memcmp(area, s->out.impact_area_, sizeof area))
                R->fail("area", "the pass changed the area it was given");
        } else {
            ss::RelaxTerrain(&s->out, st.grid, s->body(), st.par, tol);
        }
        after_phase(v, s, "terrain");
        shuffle(&s->out);
        ss::RelaxBodySoil(&s->out, st.grid, s->body(), st.par, tol);
        after_phase(v, s, "soil pass");
        if (mon("C06") && v->last_moved && s->out.equilibrium_)
            R->fail("flag", "soil moved in a pass which reports equilibrium");
    }
    v->passes = it;
    return true;
}

// Executes one motion from `s`; *next is the state after the real Step
static bool transition(const Stage& st, const Sim& s, const At& to, int policy,
                       Sim* next) {
    auto& p = st.sc.p;
    cur_stage = &st;
    *next = s;
    bool done = false;
    ss::SoilDynamics sd;
    long w0 = n_warning;
    run_default([&] {
        done = next->step(&sd, to.pos(), to.ori(), st.grid, st.par, p.tol); },
        policy);
    long warned = n_warning - w0;
    auto draws = ch.arity;
    R->count("runs");
    if (!done) { R->count("refused"); return false; }
    R->max("draws_of_one_step", draws.size());
    // the same step phase by phase
    Visit v{st};
    bool phases = mon("C01") || mon("C03") || mon("C06") || mon("C07") ||
        mon("C10") || mon("C23");
    if (phases) {
        Sim b = s;
        bool q = false;
        run_default([&] { q = by_phases(&v, &b, to); }, policy);
        R->max("passes", v.passes);
        if (mon("C23")) {
            std::string m;
            if (q != done) m = "one is carried out, the other refused";
            else if (ch.arity != draws && same_shuffle)
                m = "the random draws differ";
            else m = same_bits(*next, b);
            if (!m.empty() && (same_shuffle ||
                               (s.out.body_soil_pos_.empty() &&
                                b.out.body_soil_pos_.empty() &&
                                next->out.body_soil_pos_.empty())))
                R->fail("phases", "Step and the sequence of its phases "
                        "disagree: " + m);
            R->count("passes", v.passes);
        }
    }
    St n = snap(next->out, p.cz);
    R->distinct("outcomes", hash_st(n));
    R->max("carried", next->out.body_soil_pos_.size());
    if (mon("C01")) {
        St o = snap(s.out, p.cz);
        long d = volume(n) - volume(o);
        if (d > 0 || (d < 0 && warned <= v.moved_warning))
            R->fail("volume", "the step changes the amount of soil by " +
                    std::to_string(d) + " cells without warning");
    }
    if (mon("C02")) {
        std::string m = n.bad;
        if (m.empty()) m = validity(n);
        if (!m.empty()) R->fail("validity", m);
    }
    if (mon("C03")) {
        std::string m = bookkeeping(n);
        if (!m.empty()) R->fail("records", m);
    }
    if (mon("C06") && next->out.equilibrium_) {
        R->count("equilibrium_reported");
        for (auto& c : sliding_terrain(n, p.dh))
            if (in_area(next->out.impact_area_, c.first, c.second)) {
                R->fail("slides", "equilibrium is reported but the terrain "
                    "of cell (" + std::to_string(c.first) + "," +
                    std::to_string(c.second) + ") can slide");
                break;
            }
        std::string m = sliding_soil(n, p.dh);
        if (!m.empty())
            R->fail("slides", "equilibrium is reported but " + m);
    }
    if (mon("C10") && (next->body()->pos_ != to.pos() ||
                       next->body()->ori_ != to.ori()))
        R->fail("pose", "the pose of the step was not recorded");
    return true;
}

static int policy_of(int seed, const std::vector<int>& path_) {
    std::uint64_t h = seed;
    for (int m : path_) h = mix(h, m + 11);
    return h % 8 < 3 ? h % 8 : 3 + (h >> 8) % 1000;
}

static void search(const Stage& st, const Sim& s, const At& at, int depth,
                   int seed, std::vector<int>* ms) {
    if (depth == 0) return;
    auto& al = alphabet();
    size_t keep = path.size();
    for (size_t m = 0; m < al.size(); m++) {
        At to = at.go(al[m], st.unit);
        if (!st.allowed(s, to)) { R->count("outside_the_domain"); continue; }
        ms->push_back(m);
        path += " -> " + at_str(to);
        Sim next = s;
        if (transition(st, s, to, policy_of(seed, *ms), &next))
            search(st, next, to, depth - 1, seed, ms);
        else
            search(st, s, to, depth - 1, seed, ms);
        path.resize(keep);
        ms->pop_back();
    }
}

// Runs the script up to k; false if a pose is outside the domain
static bool prefix(const Stage& st, int k, int policy, Sim* s, At* at) {
    *at = st.sc.start;
    path = "start " + at_str(*at) + " policy " + std::to_string(policy);
    cur_stage = &st;
    ss::SoilDynamics sd;
    for (int n = -1; n < k; n++) {
        if (n >= 0) *at = at->go(st.sc.script[n], st.unit);
        if (!st.allowed(*s, *at)) return false;
        run_default([&] { s->step(&sd, at->pos(), at->ori(), st.grid, st.par,
                                  st.sc.p.tol); }, policy);
    }
    path += " script " + std::to_string(k) + " to " + at_str(*at);
    return true;
}

static std::vector<Scene> all_scenes() {
    auto v = scenes(R->thorough());
    if (mon("C06")) {
        auto w = v;
        for (auto& s : w) { s.p.maxit = 60; s.name += "_settle"; }
        v.insert(v.end(), w.begin(), w.end());
    }
    if (mon("C23")) {
        auto w = v;
        for (int it : {0, 1, 2})
            for (auto s : w) {
                if (it == 2 && s.p.dh == 1 && !s.blade) continue;
                s.p.maxit = it; s.name += "_limit" + std::to_string(it);
                v.push_back(s);
            }
    }
    if (mon("C07")) {
        for (auto& s : v) s.p.maxit = 1;
        auto w = v;
        for (auto& s : w) {
            s.terrain = s.blade ? 6 : 7;
            s.name += "_border";
        }
        w[1].terrain = 6;
        v.insert(v.end(), w.begin(), w.end());
    }
    return v;
}

static void phases(const Rest& r, Sim* n) {
    Visit v{*r.st};
    by_phases(&v, n, r.to);
}
// Step has to draw as the composition does for its results to be compared
// draw by draw
static bool calibrate() {
    Rest r(3, 1);
    for (int k = 0; k < 6; k++) {
        Sim a = *r.s, b = *r.s;
        std::vector<int> ar;
        for (int w = 0; w < 2; w++) {
            ch.reset();
            ch.prefix.clear();
            // the first draws decided one at a time: other arities allowed
            ch.dev_at = k % 2 ? 0 : 1;
            ch.dev_value = k / 2 % (ch.dev_at ? 2 : 3);
            if (w) phases(r, &b); else r.step(&a);
            ch.dev_at = -1;
            if (w) { if (ch.arity != ar) return false; }
            else ar = ch.arity;
        }
        if (ar.size() < 2 || ar[0] != 3 || ar[1] != 2) return false;
        if (!same_bits(a, b).empty()) return false;
    }
    return true;
}
// The sets of results over all draws, whatever the order of the draws
static void rest_outcomes() {
    for (int nrec = 0; nrec <= 2; nrec++)
        for (int maxit : {0, 1, 2}) {
            if (!R->next()) continue;
            if (nrec == 2 && maxit == 2 && !R->thorough()) continue;
            Rest r(nrec, maxit);
            R->describe = [&] {
                return "settled bucket with " + std::to_string(nrec) +
                    " records, " + std::to_string(maxit) + " iterations"; };
            std::set<std::uint64_t> o[2];
            for (int w = 0; w < 2; w++) {
                ch.policy = 0;
                explore(-1, 400000, [&] {
                    Sim n = *r.s;
                    if (w) phases(r, &n); else r.step(&n);
                    R->count("runs");
                    o[w].insert(bits(n)); });
            }
            for (auto h : o[0]) R->distinct("outcomes", h);
            R->max("results_of_one_step", o[0].size());
            if (o[0] != o[1])
                R->fail("phases", "Step and the sequence of its phases have "
                        "different sets of possible results");
        }
}

// C06, C07: terrain alone -------------------------------------------------
static void settle() {
    // every terrain of a patch over a height alphabet, every random order:
    // the graph of the passes has no cycle but the rest states
    struct Cfg { int a, b, top, dh; int border; };
    std::vector<Cfg> cf = {{2, 2, 4, 1, 0}, {3, 1, 4, 1, 0}, {2, 2, 4, 2, 1},
                           {1, 3, 5, 2, 2}};
    if (R->thorough()) cf.push_back({3, 2, 3, 1, 0});
    for (auto& c : cf) {
        WP p; p.hx = (c.a + 3) / 2; p.hy = (c.b + 3) / 2; p.hz = 20;
        p.dh = c.dh; p.maxit = 1;
        World w(p);
        int nx = 2 * p.hx + 1, ny = 2 * p.hy + 1;
        int n = 1;
        for (int k = 0; k < c.a * c.b; k++) n *= c.top + 1;
        int x0 = 1, y0 = 1;
        for (int code = 0; code < n; code++) {
            if (!R->next()) continue;
            St s0 = w.empty(c.border);
            int q = code;
            for (int i = 0; i < c.a; i++)
                for (int j = 0; j < c.b; j++) {
                    s0.at(x0 + i, y0 + j).t = q % (c.top + 1);
                    q /= c.top + 1;
                }
            // passes until nothing moves, the orders of the first pass all
            // enumerated, the rest under fixed orders
            R->describe = [&] { return "dh " + std::to_string(c.dh) + " " +
                st_str(s0); };
            auto run = [&] {
                w.load(s0);
                St s = s0;
                int passes = 0;
                while (true) {
                    set_area(w.out.impact_area_, 1, nx - 1, 1, ny - 1);
                    size_t before = ch.taken.size();
                    ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par, p.tol);
                    St t = w.read();
                    R->count("runs");
                    bool moved = only_soil_differs(s, t);
                    bool rest = sliding_terrain(s, c.dh).empty();
                    if (rest && (moved || !w.out.equilibrium_))
                        R->fail("rest", "a pass over a terrain at rest moves "
                                "soil or reports that it is not at rest");
                    if (!rest && !moved)
                        R->fail("stuck", "an unstable terrain is not relaxed");
                    if (!rest && w.out.equilibrium_)
                        R->fail("flag", "equilibrium is reported by a pass "
                                "over an unstable terrain");
                    if (moved && energy(t) >= energy(s))
                        R->fail("energy", "a pass moves soil without lowering "
                                "it: " + st_str(t));
                    if (volume(s) != volume(t))
                        R->fail("volume", "a pass changes the volume");
                    R->distinct("outcomes", hash_st(t));
                    (void)before;
                    s = t;
                    if (!moved) break;
                    if (++passes > 400) {
                        R->fail("endless", "400 passes do not settle");
                        break;
                    }
                }
                R->max("passes_to_settle", passes);
            };
            if (R->thorough()) {
                for (ch.policy = 0; ch.policy < 6; ch.policy++)
                    explore(1, 0, run);
            } else {
                for (ch.policy = 0; ch.policy < 3; ch.policy++)
                    explore(0, 0, run);
                ch.policy = 3 + code % 50;
                if (code % 8 == 0) explore(1, 0, run);
            }
            ch.policy = 0;
        }
    }
}

static void areas() {
    // one spike, every position, every examined area
    WP p; p.hx = 4; p.hy = 3; p.hz = 20; p.dh = 1; p.maxit = 1;
    for (int buffer = 2; buffer <= 3; buffer++) {
        p.buffer = buffer;
        World w(p);
        int nx = 2 * p.hx + 1, ny = 2 * p.hy + 1;
        for (int si = 1; si < nx - 1; si++)
            for (int sj = 1; sj < ny - 1; sj++) {
                if (!R->next()) continue;
                for (int x0 = 1; x0 < nx - 1; x0++)
                for (int x1 = x0 + 1; x1 < nx; x1++)
                for (int y0 = 1; y0 < ny - 1; y0++)
                for (int y1 = y0 + 1; y1 < ny; y1++)
                for (int hgt : {3, -5}) {
                    St s0 = w.empty();
                    s0.at(si, sj).t = hgt;
                    w.load(s0);
                    int a[2][2] = {{x0, x1}, {y0, y1}};
                    R->describe = [&] {
                        return "terrain of height " + std::to_string(hgt) +
                            " at (" + std::to_string(si) + "," +
                            std::to_string(sj) + ") area " + area_str(a) +
                            " buffer " + std::to_string(buffer); };
                    set_area(w.out.impact_area_, x0, x1, y0, y1);
                    set_area(w.out.relax_area_, x0, x1, y0, y1);
                    set_area(w.out.body_area_, 3, 4, 3, 4);
                    auto sl = sliding_terrain(s0, p.dh);
                    bool any = false;
                    for (auto& c : sl)
                        if (in_area(a, c.first, c.second)) any = true;
                    run_default([&] {
                        ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par,
                                         p.tol); }, (x0 + y1) % 3);
                    R->count("runs");
                    St t = w.read();
                    R->distinct("outcomes", hash_st(t) ^ mix(x0 * 64 + x1,
                        y0 * 64 + y1));
                    bool moved = only_soil_differs(s0, t);
                    if (moved != any)
                        R->fail("examined", moved ? "soil moved although no "
                                "unstable cell is in the area" :
                                "an unstable cell of the area was left");
                    int g[2][2] = {{x0 - 1, x1 + 1}, {y0 - 1, y1 + 1}};
                    for (int i = 0; i < nx; i++)
                        for (int j = 0; j < ny; j++)
                            if (!(t.at(i, j) == s0.at(i, j)) &&
                                !in_area(g, i, j))
                                R->fail("reach", "a column farther than one "
                                        "cell from the area changed");
                    if (std::memcmp(w.out.impact_area_, a, sizeof a))
                        R->fail("area", "the pass changed its area");
                    if (!interior(w.out.relax_area_, p))
                        R->fail("interior", "relaxation area " +
                                area_str(w.out.relax_area_));
                    if (!any) {
                        if (std::memcmp(w.out.relax_area_, a, sizeof a))
                            R->fail("relax_area", "the relaxation area "
                                    "changed although nothing moved");
                        continue;
                    }
                    // what slides next, if it started in the area
                    for (auto& c : sliding_terrain(t, p.dh)) {
                        bool seen = false, was = false;
                        for (auto& o : sl) {
                            if (in_area(a, o.first, o.second) &&
                                std::abs(o.first - c.first) +
                                std::abs(o.second - c.second) <= 2)
                                seen = true;
                            if (o == c && !in_area(a, o.first, o.second))
                                was = true;
                        }
                        if (seen && !was && !in_area(w.out.relax_area_,
                                c.first, c.second))
                            R->fail("escape", "cell (" +
                                std::to_string(c.first) + "," +
                                std::to_string(c.second) + ") is unstable "
                                "after the pass but outside the relaxation "
                                "area " + area_str(w.out.relax_area_));
                    }
                }
            }
    }
}

// C07: heaps which spread over many passes next to the borders
static void spread() {
    struct H { int i, j, h; };
    for (int hx : {4, 6}) for (int dh = 1; dh <= 2; dh++)
    for (int buffer = 2; buffer <= 4; buffer++) {
        WP p; p.hx = hx; p.hy = 4; p.hz = 40; p.dh = dh; p.maxit = 1;
        p.buffer = buffer;
        World w(p);
        int nx = 2 * p.hx + 1, ny = 2 * p.hy + 1;
        for (int si = 0; si < nx; si++)
            for (int sj = 0; sj < ny; sj++)
                for (int h : {9, -9}) for (int pol = 0; pol < 4; pol++) {
                    if (!R->next()) continue;
                    St s = w.empty();
                    s.at(si, sj).t = h;
                    w.load(s);
                    set_area(w.out.relax_area_, 1, nx - 1, 1, ny - 1);
                    int passes = 0;
                    R->describe = [&] {
                        return "terrain of height " + std::to_string(h) +
                            " at (" + std::to_string(si) + "," +
                            std::to_string(sj) + ") of " + std::to_string(nx)
                            + "x" + std::to_string(ny) + " dh " +
                            std::to_string(dh) + " buffer " +
                            std::to_string(buffer) + " pass " +
                            std::to_string(passes); };
                    run_default([&] {
                        for (;; passes++) {
                            std::memcpy(w.out.impact_area_, w.out.relax_area_,
                                        sizeof w.out.impact_area_);
                            for (auto& c : sliding_terrain(s, dh))
                                if (!in_area(w.out.impact_area_, c.first,
                                             c.second)) {
                                    R->fail("escape", "cell (" +
                                        std::to_string(c.first) + "," +
                                        std::to_string(c.second) +
                                        ") is unstable but outside the area "
                                        + area_str(w.out.impact_area_));
                                    break;
                                }
                            ss::RelaxTerrain(&w.out, w.grid, &w.body, w.par,
                                             p.tol);
                            R->count("runs");
                            if (!interior(w.out.relax_area_, p))
                                R->fail("interior", "relaxation area " +
                                        area_str(w.out.relax_area_));
                            St t = w.read();
                            bool moved = only_soil_differs(s, t);
                            s = t;
                            R->distinct("outcomes", hash_st(t));
                            if (!moved || passes > 300) break;
                        }
                    }, pol == 3 ? 100 + si : pol);
                    if (!sliding_terrain(s, dh).empty())
                        R->fail("left", "the passes stop although the terrain "
                                "is unstable");
                    R->max("passes_to_settle", passes);
                }
    }
}

int main(int argc, char** argv) {
    Runner r(argc, argv);
    R = &r;
    P = r.arg("--prop", "C01");
    bool th = r.thorough();
    if (mon("C23")) {
        same_shuffle = calibrate();
        if (!same_shuffle) r.count("capped.other_shuffle");
        if (r.section("rest")) rest_outcomes();
    }
    if (mon("C06") && r.section("settle")) settle();
    if (mon("C07") && r.section("areas")) areas();
    if (mon("C07") && r.section("spread")) spread();
    auto sc = all_scenes();
    std::vector<std::unique_ptr<Stage>> st;
    for (auto& s : sc) st.push_back(std::make_unique<Stage>(s));
    int depth = std::stoi(r.arg("--depth", th ? "3" : "2"));
    if (r.section("script")) {
        // the scripts themselves, under many orders
        int np = th ? 60 : 12;
        for (auto& t : st)
            for (int pol = 0; pol < np; pol++) {
                if (!r.next()) continue;
                r.describe = text;
                Sim s = t->fresh();
                At at = t->sc.start;
                cur_stage = t.get();
                path = "script policy " + std::to_string(pol);
                for (int n = -1; n < static_cast<int>(t->sc.script.size());
                     n++) {
                    if (n >= 0) at = at.go(t->sc.script[n], t->unit);
                    if (!t->allowed(s, at)) {
                        r.count("script_cut." + t->sc.name + "." +
                                std::to_string(n));
                        break;
                    }
                    path += " -> " + at_str(at);
                    Sim next = s;
                    if (transition(*t, s, at, pol, &next)) s = next;
                }
                r.sample(text());
            }
    }
    if (r.section("big")) {
        // long work cycles of large bodies, under several orders
        std::vector<std::unique_ptr<Stage>> big;
        for (auto& s : big_scenes(th))
            big.push_back(std::make_unique<Stage>(s));
        for (int pol = 0; pol < (th ? 48 : 8); pol++)
            for (auto& t : big) {
                if (!r.next()) continue;
                r.describe = text;
                Sim s = t->fresh();
                At at = t->sc.start;
                cur_stage = t.get();
                int n = -1;
                for (; n < static_cast<int>(t->sc.script.size()); n++) {
                    if (n >= 0) at = at.go(t->sc.script[n], t->unit);
                    path = "script policy " + std::to_string(pol) + " motion "
                        + std::to_string(n) + " to " + at_str(at);
                    if (!t->allowed(s, at)) {
                        r.count("script_cut." + t->sc.name + "." +
                                std::to_string(n));
                        break;
                    }
                    Sim next = s;
                    if (transition(*t, s, at, pol, &next)) s = next;
                }
                r.max("motions_of_one_history", n + 1);
                r.sample(text());
            }
    }
    if (r.section("search")) {
        for (auto& t : st)
            for (int k = 0; k <= static_cast<int>(t->sc.script.size()); k++)
                for (size_t m = 0; m < alphabet().size(); m++) {
                    if (!r.next()) continue;
                    r.describe = text;
                    Sim s = t->fresh();
                    At at;
                    if (!prefix(*t, k, (k + m) % 5, &s, &at)) {
                        r.count("script_cut");
                        continue;
                    }
                    At to = at.go(alphabet()[m], t->unit);
                    if (!t->allowed(s, to)) {
                        r.count("outside_the_domain");
                        continue;
                    }
                    path += " -> " + at_str(to);
                    std::vector<int> ms{static_cast<int>(m)};
                    Sim next = s;
                    if (!transition(*t, s, to, policy_of(k, ms), &next))
                        next = s;
                    search(*t, next, to, depth, k, &ms);
                    if (k > 6) r.sample(text());
                }
    }
    if (r.section("orders")) {
        // every single deviation of the random draws of one step
        for (auto& t : st)
            for (int k = 2; k <= static_cast<int>(t->sc.script.size());
                 k += th ? 1 : 4)
                for (int m = 0; m < static_cast<int>(alphabet().size());
                     m += th ? 2 : 7) {
                    if (!r.next()) continue;
                    r.describe = text;
                    Sim s = t->fresh();
                    At at;
                    if (!prefix(*t, k, k % 4, &s, &at)) continue;
                    At to = at.go(alphabet()[m], t->unit);
                    if (!t->allowed(s, to)) continue;
                    path += " -> " + at_str(to) + " (deviating draws)";
                    // the draws of a reference run, then one changed
                    Sim next = s;
                    transition(*t, s, to, 0, &next);
                    auto arity = ch.arity;
                    long n = 0;
                    for (size_t d = 0; d < arity.size(); d++)
                        for (int a = 0; a + 1 < arity[d]; a++) {
                            if (arity[d] > 8 && a % 3) continue;
                            ch.dev_at = d;
                            ch.dev_value = a;
                            transition(*t, s, to, 0, &next);
                            ch.dev_at = -1;
                            if (++n % 64 == 0) r.count("deviations", 64);
                        }
                }
    }
    return r.finish();
}
