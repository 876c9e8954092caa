// C10: overlap results equal the direct geometric sums.
#include "calcs.hpp"

using namespace mc;
using ref::Struct;
using ref::V3;

const Info mcinfo = {
    "C10", "model_checking",
    "Every combination of structure, radii assignment, distance range and "
        "mask, followed by every sequence of radii changes, edits, mask "
        "changes and queries up to the depth bound; all results are compared "
        "with sums over brute force pairs, every predicted flip with the model "
        "and with a new evaluation of the flipped structure, gradients with "
        "the model and numerical derivatives. An outcome is the list of "
        "results.",
    "22 structures x 6 radii assignments x 4 ranges x 6 masks, all site pairs "
        "for flips, followed by all sequences of <= 2 of 9 operations",
    "as quick followed by all sequences of <= 4 of 9 operations",
    {"configurations with atoms that touch within 1e-4 A are skipped",
     "results are compared to 1e-6, in crystals with averaged special "
        "positions to 1e-3"},
    60
};

namespace {

struct Setup
{
    Struct s;
    std::map<std::string, double> custom;
    double defr = 0.6;
    double rmin = 0, rmax = 100;
    int mask = 0;

    double radius(int i) const
    {
        auto it = custom.find(s.atoms[i].type);
        return it == custom.end() ? defr : it->second;
    }
    bool on(int i, int j) const
    {
        if (i > j)  std::swap(i, j);
        const std::string& a = s.atoms[i].type;
        const std::string& b = s.atoms[j].type;
        const std::string& f = s.atoms[0].type;
        switch (mask)
        {
            case 0: return true;
            case 1: return !(i == 0 && j == 1);
            case 2: return !(i == 0 || j == 0);
            case 3: return !(a == f && b == f);
            case 4: return i == 0 && j == 0;
            case 5: return false;
        }
        return true;
    }
    void setmask(PairQuantity& q) const
    {
        q.maskAllPairs(true);
        if (s.atoms.empty())  return;
        const std::string& f = s.atoms[0].type;
        switch (mask)
        {
            case 1: q.setPairMask(0, 1, false); break;
            case 2: q.setPairMask(0, -1, false); break;
            case 3: q.setTypeMask(f, f, false); break;
            case 4: q.maskAllPairs(false); q.setPairMask(0, 0, true); break;
            case 5: q.maskAllPairs(false); break;
        }
    }
    void configure(OverlapCalculator& q) const
    {
        boost::shared_ptr<ConstantRadiiTable> t(new ConstantRadiiTable);
        t->setDefault(defr);
        for (auto& kv : custom)  t->setCustom(kv.first, kv.second);
        q.setAtomRadiiTable(t);
        q.setRmin(rmin);
        q.setRmax(rmax);
        this->setmask(q);
    }
};

struct Expect
{
    std::vector<ref::Pair> pairs;   // all pairs within maximum separation
    std::vector<double> radii;
    double rmaxused = 0;
    bool touching = false;
};

typedef std::map<std::string, std::vector<ref::Pair> > Cache;

Expect model(const Setup& c, Cache& cache)
{
    Expect e;
    int n = c.s.atoms.size();
    double mx = 0;
    for (int i = 0; i < n; ++i)
    {
        e.radii.push_back(c.radius(i));
        mx = std::max(mx, e.radii[i]);
    }
    e.rmaxused = std::min(c.rmax, 2 * mx);
    std::string key;
    for (auto& a : c.s.atoms)
        key += cat(a.xyz[0], ",", a.xyz[1], ",", a.xyz[2], ";");
    if (!cache.count(key))
    {
        auto& v = cache[key];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                auto p = c.s.pairs(i, j, 0, 2.9);
                v.insert(v.end(), p.begin(), p.end());
            }
    }
    for (auto& p : cache[key])
    {
        if (!c.on(p.i, p.j))  continue;
        if (std::fabs(p.d - c.rmin) < 1e-4 && p.d < 2 * mx)  e.touching = true;
        if (std::fabs(p.d - e.rmaxused) < 1e-4)  e.touching = true;
        if (p.d < c.rmin || p.d > e.rmaxused)  continue;
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                if (std::fabs(p.d - e.radii[a] - e.radii[b]) < 1e-4)
                    e.touching = true;
        e.pairs.push_back(p);
    }
    return e;
}

double total(const Setup& c, const Expect& e, const std::vector<double>& radii)
{
    double rv = 0;
    for (auto& p : e.pairs)
    {
        double o = std::max(0.0, radii[p.i] + radii[p.j] - p.d);
        rv += 0.5 * c.s.mult(p.i) * c.s.atoms[p.i].occ * c.s.atoms[p.j].occ *
            o * o;
    }
    return rv;
}

bool near(double a, double b, double tol)
{
    return std::fabs(a - b) <= tol * (1 + std::fabs(b));
}

bool verify(Ctx& ctx, OverlapCalculator& q, const Setup& c, Cache& cache,
        bool deep)
{
    Expect e = model(c, cache);
    if (e.touching) { ctx.count("skipped, touching atoms"); return false; }
    int n = c.s.atoms.size();
    double tol = (c.s.kind == ref::CRYSTAL && c.s.ops.size() == 8) ?
        1e-3 : 1e-6;
    q.eval(ref::build(c.s));
    ctx.evaluation();
    require(near(q.getRmaxUsed(), e.rmaxused, 1e-12), "rmaxused",
            "rmaxused is ", q.getRmaxUsed(), " instead of ", e.rmaxused);
    // listed pairs
    QuantityType ol = q.overlaps(), d = q.distances();
    auto dir = q.directions();
    auto s0 = q.sites0(), s1 = q.sites1();
    auto t0 = q.types0(), t1 = q.types1();
    size_t cnt = ol.size();
    require(d.size() == cnt && dir.size() == cnt && s0.size() == cnt &&
            s1.size() == cnt && t0.size() == cnt && t1.size() == cnt,
            "sizes", "sizes of overlap data differ");
    std::vector<char> used(cnt, 0);
    std::vector<double> sq(n, 0.0), coord(n, 0.0);
    std::vector<V3> grad(n, ref::v3(0, 0, 0));
    std::vector<std::set<int> > nb(n);
    std::vector<std::map<std::string, double> > bytype(n);
    std::vector<int> comp(n);
    std::vector<char> present(n, 0);
    for (int i = 0; i < n; ++i)  comp[i] = i;
    size_t nex = 0;
    for (auto& p : e.pairs)
    {
        double o = e.radii[p.i] + e.radii[p.j] - p.d;
        if (o <= 0)  continue;
        ++nex;
        bool found = false;
        for (size_t k = 0; k < cnt && !found; ++k)
        {
            if (used[k] || s0[k] != p.i || s1[k] != p.j)  continue;
            V3 r = ref::v3(dir[k][0], dir[k][1], dir[k][2]);
            if (ref::norm(r - p.r01) > 5e-5 || !near(d[k], p.d, 5e-5))
                continue;
            require(near(ol[k], o, 5e-5), "overlap", "overlap ", p.i, "-", p.j,
                    " is ", ol[k], " instead of ", o);
            require(t0[k] == c.s.atoms[p.i].type &&
                    t1[k] == c.s.atoms[p.j].type, "types", "wrong types");
            used[k] = 1;
            found = true;
        }
        require(found, "missing", "missing overlap ", p.i, "-", p.j, " at ",
                p.d, " listed ", cnt);
        double oi = c.s.atoms[p.i].occ, oj = c.s.atoms[p.j].occ;
        sq[p.i] += o * o * oj / 2;
        coord[p.i] += oj;
        bytype[p.i][c.s.atoms[p.j].type] += oj;
        grad[p.i] = grad[p.i] + (2 * o / p.d * oi * oj) * p.r01;
        nb[p.i].insert(p.j);
        present[p.i] = present[p.j] = 1;
        int a = comp[p.i], b = comp[p.j];
        for (int& x : comp)  if (x == b)  x = a;
    }
    require(nex == cnt, "extra", "listed ", cnt, " overlaps instead of ", nex);
    auto cmp = [&](const QuantityType& a, const std::vector<double>& b,
            const char* w)
    {
        require(a.size() == b.size(), w, w, " has wrong size ", a.size());
        for (size_t i = 0; i < b.size(); ++i)
            require(near(a[i], b[i], tol), w, w, "[", i, "] is ", a[i],
                    " instead of ", b[i]);
    };
    cmp(q.siteSquareOverlaps(), sq, "siteSquareOverlaps");
    double tot = total(c, e, e.radii);
    require(near(q.totalSquareOverlap(), tot, tol), "total", "total ",
            q.totalSquareOverlap(), " instead of ", tot);
    double occ = c.s.totalocc();
    require(near(q.meanSquareOverlap(), occ > 0 ? tot / occ : 0.0, tol), "mean",
            "mean ", q.meanSquareOverlap(), " instead of ", tot / occ);
    cmp(q.coordinations(), coord, "coordinations");
    auto g = q.gradients();
    require(int(g.size()) == n, "gradients", "wrong size of gradients");
    for (int i = 0; i < n; ++i)
    {
        for (int k = 0; k < 3; ++k)
            require(std::fabs(g[i][k] - grad[i][k]) < tol * (1 + ref::norm(grad[i])),
                "gradients", "gradient at site ", i, " component ", k, " is ",
                g[i][k], " instead of ", grad[i][k]);
        auto sn = q.getNeighborSites(i);
        require(std::set<int>(sn.begin(), sn.end()) == nb[i], "neighbors",
                "neighbors of site ", i, " differ");
        auto ct = q.coordinationByTypes(i);
        require(ct.size() == bytype[i].size(), "bytypes",
                "coordinationByTypes of site ", i, " differs");
        for (auto& kv : bytype[i])
            require(ct.count(kv.first) && near(ct[kv.first], kv.second, tol),
                "bytypes", "coordinationByTypes of site ", i, " differs at ",
                kv.first);
    }
    // neighborhoods are connected components of sites that take part
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (c.on(i, j))  present[i] = present[j] = 1;
    std::set<std::set<int> > hoods, got;
    for (int i = 0; i < n; ++i)
    {
        if (!present[i])  continue;
        std::set<int> h;
        for (int j = 0; j < n; ++j)  if (comp[j] == comp[i])  h.insert(j);
        hoods.insert(h);
    }
    auto nh = q.neighborhoods();
    for (auto& h : nh)  got.insert(std::set<int>(h.begin(), h.end()));
    require(got.size() == nh.size(), "neighborhoods", "repeated neighborhood");
    require(got == hoods, "neighborhoods", "neighborhoods differ, ",
            got.size(), " instead of ", hoods.size());
    // flips
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            std::vector<double> r = e.radii;
            std::swap(r[i], r[j]);
            double f = total(c, e, r) - tot;
            require(near(q.flipDiffTotal(i, j), f, tol), "flip",
                    "flipDiffTotal of ", i, " ", j, " is ",
                    q.flipDiffTotal(i, j), " instead of ", f);
            require(near(q.flipDiffMean(i, j), occ > 0 ? f / occ : 0.0, tol),
                    "flip", "flipDiffMean of ", i, " ", j);
            if (!deep || c.mask == 3 || e.radii[i] == e.radii[j] || i > j)
                continue;
            // evaluate structure with flipped types
            Setup c1 = c;
            std::swap(c1.s.atoms[i].type, c1.s.atoms[j].type);
            OverlapCalculator q1;
            c1.configure(q1);
            q1.eval(ref::build(c1.s));
            require(near(q1.totalSquareOverlap() - q.totalSquareOverlap(),
                        q.flipDiffTotal(i, j), tol), "flipeval",
                    "flip of ", i, " ", j, " changes total by ",
                    q1.totalSquareOverlap() - q.totalSquareOverlap(),
                    " predicted ", q.flipDiffTotal(i, j));
            ctx.count("flips evaluated");
        }
    for (int i : {-1, 0, n, n + 7})
        for (int j : {-1, 0, n, n + 7})
        {
            const bool good = (0 <= i && i < n && 0 <= j && j < n);
            int thrown = 0;
            try { q.flipDiffTotal(i, j); }
            catch (std::invalid_argument&) { ++thrown; }
            try { q.flipDiffMean(i, j); }
            catch (std::invalid_argument&) { ++thrown; }
            // the mean of no atoms is zero
            const int errors = good ? 0 : (occ > 0) ? 2 : 1;
            require(thrown == errors, "flipindex", thrown,
                    " errors for sites ", i, " ", j);
        }
    // numerical gradient
    if (deep && c.s.kind != ref::CRYSTAL && c.rmin == 0 && c.rmax > 10)
    {
        const double h = 1e-5;
        for (int i = 0; i < n; ++i)
            for (int k = 0; k < 3; ++k)
            {
                double v[2];
                for (int m = 0; m < 2; ++m)
                {
                    auto st = ref::build(c.s);
                    st->at(i).xyz_cartn[k] += m ? h : -h;
                    OverlapCalculator q1;
                    c.configure(q1);
                    q1.eval(st);
                    v[m] = q1.totalSquareOverlap();
                }
                double num = (v[1] - v[0]) / (2 * h);
                // atoms at the same position have no gradient
                require(std::fabs(num - g[i][k]) < 1e-4 * (1 + std::fabs(num)),
                        "numgradient", "gradient at ", i, " component ", k,
                        " is ", g[i][k], ", numerical derivative ", num);
                ctx.count("numerical derivatives");
            }
    }
    ctx.count("overlaps compared", cnt);
    ctx.trace();
    return true;
}

}   // namespace

void explore(Ctx& ctx)
{
    std::vector<ref::Named> stru = ref::catalogue();
    const char* kinds[3] = { "mol", "per", "cry" };
    for (int k = 0; k < 3; ++k)
    {
        ref::Named x = { kinds[k], basestruct(ref::Kind(k)) };
        stru.push_back(x);
    }
    struct Op
    {
        const char* name;
        std::function<void(OverlapCalculator&, Setup&)> act;
    };
    auto table = [](OverlapCalculator& q) {
        return boost::dynamic_pointer_cast<ConstantRadiiTable>(
                q.getAtomRadiiTable()); };
    const Op ops[] = {
        { "def", [=](OverlapCalculator& q, Setup& c) {
            c.defr = 0.97; table(q)->setDefault(0.97); } },
        { "cus", [=](OverlapCalculator& q, Setup& c) {
            if (c.s.atoms.empty())  return;
            c.custom[c.s.atoms[0].type] = 1.23;
            table(q)->setCustom(c.s.atoms[0].type, 1.23); } },
        { "rst", [=](OverlapCalculator& q, Setup& c) {
            c.custom.clear(); table(q)->resetAll(); } },
        { "tab", [=](OverlapCalculator& q, Setup& c) {
            c.custom.clear(); c.custom["O"] = 0.77; c.defr = 0.55;
            boost::shared_ptr<ConstantRadiiTable> t(new ConstantRadiiTable);
            t->setDefault(0.55);
            t->fromString("O : 0.77");
            q.setAtomRadiiTable(t); } },
        { "mv", [=](OverlapCalculator& q, Setup& c) {
            if (c.s.atoms.size())  moveatom(c.s, 0, 0.13); } },
        { "del", [=](OverlapCalculator& q, Setup& c) {
            if (c.s.atoms.size() > 2)  c.s.atoms.pop_back(); } },
        { "mask", [=](OverlapCalculator& q, Setup& c) {
            if (c.s.atoms.size() < 2)  return;
            c.mask = (c.mask + 1) % 6; c.setmask(q); } },
        { "rmx", [=](OverlapCalculator& q, Setup& c) {
            c.rmax = 1.37; q.setRmax(1.37); } },
        { "par", [=](OverlapCalculator& q, Setup& c) {
            // results obtained by a merge, queried after each part
            std::vector<std::string> pd;
            for (int k = 0; k < 2; ++k)
            {
                OverlapCalculator w;
                c.configure(w);
                w.setupParallelRun(k, 2);
                w.eval(ref::build(c.s));
                pd.push_back(w.getParallelData());
            }
            OverlapCalculator f;
            c.configure(f);
            f.eval(ref::build(c.s));
            q.setStructure(StructureAdapterPtr(ref::build(c.s)));
            int n = c.s.atoms.size();
            for (auto& p : pd)
            {
                for (int i = 0; i < n; ++i)  q.getNeighborSites(i);
                q.mergeParallelData(p, 2);
            }
            compareouts(outputs(q), outputs(f), "merge",
                "merged overlaps"); } },
    };
    const int nops = sizeof(ops) / sizeof(ops[0]);
    for (auto& ns : stru)
    for (int rad = 0; rad < 6; ++rad)
    for (int rng = 0; rng < 4; ++rng)
    for (int mask = 0; mask < 6; ++mask)
    {
        if (mask && (rng == 1 || rng == 2))  continue;
        Setup c0;
        c0.s = ns.s;
        int n = c0.s.atoms.size();
        if (mask && n < 2)  continue;
        c0.mask = mask;
        std::string first = n ? c0.s.atoms[0].type : "C";
        switch (rad)
        {
            case 1: c0.defr = 1.11; break;
            case 2: c0.defr = 0; break;
            case 3: c0.defr = 0; c0.custom[first] = 1.21; break;
            case 4: c0.defr = 0.83; c0.custom[first] = 0.52;
                    c0.custom["O"] = 1.02; break;
            case 5: c0.defr = 1.34; c0.custom[first] = 0.31; break;
        }
        if (rng & 1)  c0.rmin = 1.13;
        if (rng & 2)  c0.rmax = 1.93;
        int depth = ctx.thorough ? 4 : 2;
        for (int len = 0; len <= depth; ++len)
        {
            if (len && !ctx.thorough && (rad == 2 || (rng && mask)))  continue;
            if (len > 1 && (rng || rad == 2))  continue;
            long tot = 1;
            for (int i = 0; i < len; ++i)  tot *= nops;
            for (long code = 0; code < tot; ++code)
            {
                std::string desc = cat("C10 ", ns.name, " radii", rad, " range",
                        rng, " mask", mask);
                std::vector<int> seq;
                long x = code;
                for (int i = 0; i < len; ++i, x /= nops)
                {
                    seq.push_back(x % nops);
                    desc += cat(" ", ops[x % nops].name);
                }
                ctx.run(desc, [&]()
                {
                    Setup c = c0;
                    Cache cache;
                    OverlapCalculator q;
                    c.configure(q);
                    verify(ctx, q, c, cache, seq.empty());
                    for (int k : seq)
                    {
                        ops[k].act(q, c);
                        ctx.transition();
                        verify(ctx, q, c, cache, false);
                    }
                    uint64_t h = hashouts(outputs(q));
                    ctx.outcome(h);
                    ctx.state(mix(h, mix(c.mask, hashdbl(c.rmax))));
                });
            }
        }
    }
}
