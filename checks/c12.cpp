// C12: bond listing is complete, sorted and filtered exactly.
#include "calcs.hpp"

using namespace mc;
using ref::Struct;
using ref::V3;

const Info mcinfo = {
    "C12", "model_checking",
    "Every sequence of setup operations (range limits, cone filters along and "
        "off the bond directions, filter reset, site and type masks, "
        "evaluation of an edited structure) up to the depth bound in every "
        "catalogued structure for the basic and optimized evaluator; the "
        "listed bonds are compared with brute force pairs filtered by "
        "their definition. An outcome is the list of bonds.",
    "22 structures, all sequences of <= 2 operations and of a cone replaced by "
        "another, every bond direction as "
        "a cone axis with 7 angles, 2 evaluators",
    "as quick with sequences of <= 3 operations",
    {"bonds within 1e-9 A of range limits and within 1e-6 degrees of a "
        "cone surface may be listed or not"},
    60
};

namespace {

struct Model
{
    double rmin = 0, rmax = 3.05;
    std::vector<std::pair<V3, double> > cones;
    std::set<std::pair<int, int> > off;     // disabled site pairs
    std::string offtype;
};

struct Op
{
    std::string name;
    std::function<void(BondCalculator&, Model&, Struct&)> act;
    bool cone;
};

double angle(const V3& a, const V3& b)
{
    return 180 / M_PI * std::atan2(ref::norm(ref::cross(a, b)), ref::dot(a, b));
}

struct Row
{
    double d;
    int i, j;
    V3 r;
};

bool before(const Row& a, const Row& b)
{
    if (a.i != b.i)  return a.i < b.i;
    if (a.j != b.j)  return a.j < b.j;
    for (int k = 0; k < 3; ++k)
        if (std::fabs(a.r[k] - b.r[k]) > 1e-4)  return a.r[k] < b.r[k];
    return false;
}

bool same(const Row& a, const Row& b)
{
    return a.i == b.i && a.j == b.j && std::fabs(a.d - b.d) < 5e-5 &&
        ref::norm(a.r - b.r) < 5e-5;
}

void verify(Ctx& ctx, BondCalculator& bc, const Struct& s, const Model& m,
        std::map<std::string, std::vector<ref::Pair> >& cache)
{
    bc.eval(ref::build(s));
    ctx.evaluation();
    QuantityType d = bc.distances();
    auto dir = bc.directions();
    auto s0 = bc.sites0(), s1 = bc.sites1();
    auto t0 = bc.types0(), t1 = bc.types1();
    size_t n = d.size();
    require(bc.value() == d, "value", "value differs from distances");
    require(dir.size() == n && s0.size() == n && s1.size() == n &&
            t0.size() == n && t1.size() == n, "sizes", "sizes differ");
    std::vector<Row> got;
    for (size_t i = 0; i < n; ++i)
    {
        Row r = { d[i], s0[i], s1[i], ref::v3(dir[i][0], dir[i][1], dir[i][2]) };
        got.push_back(r);
        require(std::fabs(ref::norm(r.r) - d[i]) < 1e-8, "direction",
                "length of direction is not the distance");
        require(t0[i] == s.atoms.at(s0[i]).type &&
                t1[i] == s.atoms.at(s1[i]).type, "types", "wrong types");
        if (!i)  continue;
        require(d[i - 1] <= d[i], "sorted", "distances are not sorted");
        if (d[i - 1] < d[i])  continue;
        require(s0[i - 1] < s0[i] || (s0[i - 1] == s0[i] &&
                    s1[i - 1] <= s1[i]), "sorted", "sites are not sorted");
    }
    std::vector<Row> expect, border;
    // equivalent positions next to a special position are averaged
    double atol = (s.kind == ref::CRYSTAL && s.ops.size() == 8) ? 0.01 : 1e-6;
    int na = s.atoms.size();
    std::string key;
    for (auto& a : s.atoms)  key += cat(a.type, a.xyz[0], a.xyz[2], ";");
    if (!cache.count(key))
    {
        auto& c = cache[key];
        for (int i = 0; i < na; ++i)
            for (int j = 0; j < na; ++j)
            {
                auto p = s.pairs(i, j, 0, 4.2);
                c.insert(c.end(), p.begin(), p.end());
            }
    }
    for (auto& p : cache[key])
    {
        if (m.off.count(std::make_pair(std::min(p.i, p.j), std::max(p.i, p.j))))
            continue;
        if (!m.offtype.empty() && (s.atoms[p.i].type == m.offtype ||
                    s.atoms[p.j].type == m.offtype))  continue;
        Row r = { p.d, p.i, p.j, p.r01 };
        bool edge = std::fabs(p.d - m.rmin) < 1e-9 ||
            std::fabs(p.d - m.rmax) < 1e-9;
        // exactly represented distances are in closed interval
        if (s.kind == ref::ATOMIC && p.d == std::floor(p.d))  edge = false;
        if (p.d < m.rmin - 1e-9 || p.d > m.rmax + 1e-9)  continue;
        if (m.cones.size())
        {
            int in = 0;
            for (auto& c : m.cones)
            {
                double a = angle(p.r01, c.first);
                if (c.second >= 180 || a < c.second - atol)  in = 2;
                else if (a < c.second + atol)  in = std::max(in, 1);
            }
            if (!in)  continue;
            if (in == 1)  edge = true;
        }
        (edge ? border : expect).push_back(r);
    }
    size_t nmatch = 0;
    std::vector<char> used(n, 0);
    auto take = [&](const Row& e)
    {
        for (size_t i = 0; i < n; ++i)
            if (!used[i] && same(got[i], e)) { used[i] = 1; return true; }
        return false;
    };
    for (auto& e : expect)
    {
        require(take(e), "missing", "missing bond ", e.i, "-", e.j, " d=", e.d,
                " range ", m.rmin, " ", m.rmax, ", ", m.cones.size(),
                " cones, listed ", n, " expected ", expect.size());
        ++nmatch;
    }
    for (auto& e : border)  take(e);
    for (size_t i = 0; i < n; ++i)
        require(used[i], "extra", "unexpected bond ", got[i].i, "-", got[i].j,
                " d=", got[i].d, " range ", m.rmin, " ", m.rmax, ", ",
                m.cones.size(), " cones");
    ctx.count("bonds compared", nmatch);
    ctx.trace();
}

}   // namespace

void explore(Ctx& ctx)
{
    std::vector<ref::Named> stru = ref::catalogue();
    const char* kinds[3] = { "mol", "per", "cry" };
    for (int k = 0; k < 3; ++k)
    {
        ref::Named x = { kinds[k], basestruct(ref::Kind(k)) };
        stru.push_back(x);
    }
    for (auto& ns : stru)
    {
        std::vector<Op> ops;
        auto add = [&](const std::string& n, bool cone,
            std::function<void(BondCalculator&, Model&, Struct&)> f)
        {
            Op o = { n, f, cone };
            ops.push_back(o);
        };
        // axes along bonds and some others
        std::vector<V3> axes = { ref::v3(0, 0, 1), ref::v3(1, 1, 0),
            ref::v3(-0.3, 2, 0.7) };
        std::vector<ref::Pair> pp;
        int na = ns.s.atoms.size();
        if (na)  pp = ns.s.pairs(0, na - 1, 0, 3.0);
        if (na > 1)
        {
            auto p2 = ns.s.pairs(1, 0, 0, 3.0);
            pp.insert(pp.end(), p2.begin(), p2.end());
        }
        std::sort(pp.begin(), pp.end(), [](const ref::Pair& a,
                    const ref::Pair& b) { return a.d < b.d; });
        size_t nax = ctx.thorough ? 5 : 12;
        for (auto& p : pp)
        {
            if (axes.size() >= nax)  break;
            bool dup = false;
            for (auto& a : axes)  dup = dup || angle(a, p.r01) < 1e-3;
            if (!dup)  axes.push_back(p.r01);
        }
        for (size_t ia = 0; ia < axes.size(); ++ia)
        {
            V3 ax = axes[ia];
            for (double deg : {1e-4, 20.0, 60.0, 91.0, 179.9, 180.0, -3.0})
            {
                if (ia > 5 && deg != 1e-4 && deg != 179.9)  continue;
                add(cat("fc", ia, "@", deg), true,
                    [ax, deg](BondCalculator& b, Model& m, Struct&) {
                        b.filterCone(R3::Vector(ax[0], ax[1], ax[2]), deg);
                        m.cones.push_back(std::make_pair(ax, deg)); });
            }
        }
        add("off", false, [](BondCalculator& b, Model& m, Struct&) {
                b.filterOff(); m.cones.clear(); });
        for (double x : {0.0, 1.0, 2.0, 3.0})
        {
            add(cat("rmin", x), false, [x](BondCalculator& b, Model& m, Struct&) {
                    b.setRmin(x); m.rmin = x; });
            add(cat("rmax", x), false, [x](BondCalculator& b, Model& m, Struct&) {
                    b.setRmax(x); m.rmax = x; });
        }
        add("eval", false, [](BondCalculator& b, Model&, Struct& s) {
                b.eval(ref::build(s)); });
        if (na)
        {
            add("pm00", false, [](BondCalculator& b, Model& m, Struct&) {
                    b.setPairMask(0, 0, false); m.off.insert({0, 0}); });
            std::string tp = ns.s.atoms[0].type;
            // type and site masks are exclusive
            add("tm", false, [tp](BondCalculator& b, Model& m, Struct&) {
                    b.maskAllPairs(true);
                    b.setTypeMask(tp, "all", false);
                    m.off.clear(); m.offtype = tp; });
            add("mvF", false, [](BondCalculator&, Model&, Struct& s) {
                    moveatom(s, 0, 0.21); });
            add("delL", false, [](BondCalculator& b, Model& m, Struct& s) {
                    if (s.atoms.size() > 1)  s.atoms.pop_back(); });
        }
        if (na > 1)
        {
            add("pm01", false, [](BondCalculator& b, Model& m, Struct&) {
                    if (m.offtype.size())
                    {
                        b.maskAllPairs(true);
                        m.offtype.clear();
                    }
                    b.setPairMask(0, 1, false); m.off.insert({0, 1}); });
        }
        auto go = [&](const std::vector<int>& seq, int ev)
        {
            std::string desc = cat("C12 ", ns.name, ev ? " optimized" : " basic");
            for (int k : seq)  desc += " " + ops[k].name;
            ctx.run(desc, [&]()
            {
                std::map<std::string, std::vector<ref::Pair> > cache;
                BondCalculator bc;
                bc.setEvaluatorType(ev ? OPTIMIZED : BASIC);
                Model m;
                bc.setRmax(m.rmax);
                Struct s = ns.s;
                uint64_t h = hashstr(ns.name);
                if (ev)  verify(ctx, bc, s, m, cache);
                for (size_t i = 0; i < seq.size(); ++i)
                {
                    // a type mask would be dropped by a site mask
                    if (ops[seq[i]].name == "pm00" && m.offtype.size())
                    {
                        bc.maskAllPairs(true);
                        m.offtype.clear();
                    }
                    ops[seq[i]].act(bc, m, s);
                    ctx.transition();
                    if (i + 1 == seq.size() || ev)
                        verify(ctx, bc, s, m, cache);
                }
                if (seq.empty())  verify(ctx, bc, s, m, cache);
                uint64_t o = hashouts(outputs(bc), h);
                ctx.outcome(o);
                h = mix(mix(h, hashdbl(m.rmin)), hashdbl(m.rmax));
                for (auto& c : m.cones)
                    h = mix(h, hashdbl(c.second) + hashdbl(c.first[0]));
                ctx.state(mix(mix(h, m.off.size()), m.offtype.size()));
            });
        };
        int n = ops.size();
        // cones that replace earlier ones
        int ioff = 0;
        while (ops[ioff].name != "off")  ++ioff;
        for (int ev = 0; ev < 2; ++ev)
            for (int a = 0; a < std::min(ioff, 28); ++a)
                for (int b = 0; b < ioff; ++b)  go({a, ioff, b}, ev);
        for (int ev = 0; ev < 2; ++ev)
        {
            go({}, ev);
            for (int a = 0; a < n; ++a)  go({a}, ev);
            for (int a = 0; a < n; ++a)
                for (int b = 0; b < n; ++b)
                {
                    // two cones commute
                    if (ops[a].cone && ops[b].cone && a > b)  continue;
                    go({a, b}, ev);
                    if (!ctx.thorough)  continue;
                    for (int c = 0; c < n; ++c)
                    {
                        if (ops[c].cone && ops[b].cone && b > c)  continue;
                        go({a, b, c}, ev);
                    }
                }
        }
    }
}
