// C09: crystal symmetry expansion equals the explicit unit cell.
#include "calcs.hpp"

using namespace mc;
using ref::Struct;
using ref::V3;
using ref::M3;
using ref::v3;

const Info mcinfo = {
    "C09", "model_checking",
    "Expansion: for each of 15 sets of symmetry operations and each site on a "
        "grid of general, special and nearly special positions, with several "
        "lattice shifts of the atom and of operations, several orders of "
        "operations and precisions, the symmetry sites, multiplicities, "
        "displacement tensors and densities are compared with an independent "
        "expansion that clusters images by their distance modulo lattice.  "
        "Results: for each pair of a grid site and a fixed site, results of "
        "PDF, Debye, bond, overlap and bond valence calculators for the "
        "crystal are compared with those for all atoms written out in a "
        "periodic structure.  Updates: after all sequences of changes of "
        "atoms, lattice, operations and precision, mixed with reads, the "
        "expansion equals the expansion of a new crystal.  An outcome is the "
        "hash of the expansion or of results.",
    "grid 7x7x7 with 6 offsets, grid 5x5x5 for results, 4 changes",
    "grid 11x11x11 with 6 offsets, grid 7x7x7 for results, 5 changes",
    {"clusters of images must be clearly apart: distances are below 0.9 or "
         "above 1.1 of the symmetry precision, other sites are skipped",
     "displacement tensors of special positions are invariant to their site "
         "symmetry"},
    60
};

namespace {

const double TOL = 1e-9;

typedef std::vector<ref::SymOp> Ops;

Ops closure(Ops gen)
{
    Ops g = ref::groupP1();
    auto has = [&](const ref::SymOp& o)
    {
        for (auto& p : g)
        {
            double d = 0;
            for (int i = 0; i < 3; ++i)
            {
                double dt = p.t[i] - o.t[i];
                d += std::fabs(dt - std::round(dt));
                for (int j = 0; j < 3; ++j)
                    d += std::fabs(p.R[i][j] - o.R[i][j]);
            }
            if (d < 1e-6)  return true;
        }
        return false;
    };
    for (size_t i = 0; i < g.size(); ++i)  for (auto& q : gen)
    {
        ref::SymOp o;
        o.R = ref::mul(q.R, g[i].R);
        o.t = ref::mul(q.R, g[i].t) + q.t;
        for (int k = 0; k < 3; ++k)
        {
            o.t[k] -= std::floor(o.t[k] + 1e-9);
        }
        if (!has(o))  g.push_back(o);
        require(g.size() <= 192, "harness", "not a group");
    }
    return g;
}

struct Group
{
    std::string name;
    std::array<double, 6> lat;
    Ops ops;
};

std::vector<Group> groups()
{
    using namespace ref;
    const M3 i1 = iso(1), inv = iso(-1);
    const M3 z4 = m3(0, -1, 0, 1, 0, 0, 0, 0, 1);
    const M3 z4b = m3(0, 1, 0, -1, 0, 0, 0, 0, -1);
    const M3 c3 = m3(0, 0, 1, 1, 0, 0, 0, 1, 0);
    const M3 h3 = m3(0, -1, 0, 1, -1, 0, 0, 0, 1);
    const M3 h6 = m3(1, -1, 0, 1, 0, 0, 0, 0, 1);
    const M3 m2x = diag(1, -1, -1), m2z = diag(-1, -1, 1);
    std::vector<Group> rv;
    auto add = [&](const std::string& n, std::array<double, 6> l, Ops o)
    {
        Group g = { n, l, o };
        rv.push_back(g);
    };
    auto tric = lp(2.4, 2.7, 3.3, 82, 97, 105);
    auto hex = lp(2.8, 2.8, 3.5, 90, 90, 120);
    add("none", tric, Ops());
    add("P1", tric, groupP1());
    add("P-1", tric, closure({ op(inv) }));
    add("P21/c", lp(2.5, 3.2, 2.9, 90, 112, 90), groupP21c());
    add("C2", lp(3.5, 3.2, 2.9, 90, 112, 90), closure({
                op(diag(-1, 1, -1)), op(i1, v3(0.5, 0.5, 0)) }));
    add("Pmmm", lp(2.2, 2.6, 3.0), groupPmmm());
    add("Pca21", lp(3.2, 2.6, 3.0), closure({
                op(m2z, v3(0, 0, 0.5)), op(diag(1, -1, 1), v3(0.5, 0, 0)) }));
    add("P4", lp(2.9, 2.9, 3.8), groupP4());
    add("I-4", lp(2.9, 2.9, 3.8), closure({ op(z4b),
                op(i1, v3(0.5, 0.5, 0.5)) }));
    add("P31", hex, closure({ op(h3, v3(0, 0, 1.0/3)) }));
    add("P3", hex, groupP3());
    add("R-3", lp(3.8, 3.8, 5.5, 90, 90, 120), closure({ op(h3), op(inv),
                op(i1, v3(2.0/3, 1.0/3, 1.0/3)) }));
    add("P6/m", hex, closure({ op(h6), op(inv) }));
    add("P23", lp(3.6, 3.6, 3.6), closure({ op(c3), op(m2z), op(m2x) }));
    add("Fm-3", lp(5.2, 5.2, 5.2), closure({ op(c3), op(m2z), op(inv),
                op(i1, v3(0, 0.5, 0.5)), op(i1, v3(0.5, 0.5, 0)) }));
    return rv;
}

double wrap1(double x)  { return x - std::round(x); }

struct MSite
{
    V3 x;       // fractional
    M3 U;       // Cartesian
    int count;
};

/// model of symmetry expansion.  Return false when clusters are not clear.
bool expand(const Struct& s, int idx, double eps, std::vector<MSite>& rv)
{
    rv.clear();
    const ref::Atom& a = s.atoms[idx];
    M3 b = ref::latbase(s.lat), bi = ref::inv(b);
    Ops ops = s.ops.empty() ? ref::groupP1() : s.ops;
    std::vector<V3> xs;
    for (auto& o : ops)  xs.push_back(ref::mul(o.R, a.xyz) + o.t);
    std::vector<int> cl(xs.size(), -1);
    for (size_t i = 0; i < xs.size(); ++i)
    {
        if (cl[i] < 0)
        {
            cl[i] = rv.size();
            M3 Rc = ref::mul(ref::tr(b), ref::mul(ops[i].R, ref::tr(bi)));
            MSite m = { v3(0, 0, 0),
                s.ops.empty() ? a.U :
                    ref::mul(Rc, ref::mul(a.U, ref::tr(Rc))), 0 };
            rv.push_back(m);
        }
        int first = -1;
        for (size_t j = 0; j < xs.size(); ++j)
        {
            if (first < 0 && cl[j] == cl[i])  first = j;
            V3 d = xs[j] - xs[i];
            for (int k = 0; k < 3; ++k)  d[k] = wrap1(d[k]);
            double r = ref::norm(d[0] * b[0] + d[1] * b[1] + d[2] * b[2]);
            if (r > 0.9 * eps && r < 1.1 * eps)  return false;
            if (j > i && r < eps)
            {
                if (cl[j] >= 0 && cl[j] != cl[i])  return false;
                cl[j] = cl[i];
            }
            if (r > eps && cl[j] == cl[i])  return false;
        }
        MSite& m = rv[cl[i]];
        // image nearest to the first one
        V3 d = xs[i] - xs[first];
        for (int k = 0; k < 3; ++k)  d[k] = wrap1(d[k]);
        m.x = m.x + xs[first] + d;
        m.count++;
    }
    for (auto& m : rv)  m.x = (1.0 / m.count) * m.x;
    return true;
}

/// average of the tensor over operations that keep the site
M3 siteinvariant(const Struct& s, int idx, double eps)
{
    const ref::Atom& a = s.atoms[idx];
    M3 b = ref::latbase(s.lat), bi = ref::inv(b);
    M3 sum = ref::zero3();
    int n = 0;
    for (auto& o : s.ops)
    {
        V3 x = ref::mul(o.R, a.xyz) + o.t;
        V3 d = x - a.xyz;
        for (int k = 0; k < 3; ++k)  d[k] = wrap1(d[k]);
        if (ref::norm(d[0] * b[0] + d[1] * b[1] + d[2] * b[2]) > eps)  continue;
        M3 Rc = ref::mul(ref::tr(b), ref::mul(o.R, ref::tr(bi)));
        M3 u = ref::mul(Rc, ref::mul(a.U, ref::tr(Rc)));
        for (int i = 0; i < 3; ++i)  sum[i] = sum[i] + u[i];
        ++n;
    }
    if (!n)  return a.U;
    for (int i = 0; i < 3; ++i)  sum[i] = (1.0 / n) * sum[i];
    return sum;
}

typedef boost::shared_ptr<CrystalStructureAdapter> CPtr;
CPtr buildcrystal(const Struct& s, double eps)
{
    CPtr rv = boost::dynamic_pointer_cast<CrystalStructureAdapter>(
            ref::build(s));
    rv->setSymmetryPrecision(eps);
    return rv;
}

uint64_t checkexpansion(Ctx& ctx, CPtr p, const Struct& s, double eps,
        const std::string& what)
{
    M3 b = ref::latbase(s.lat), bi = ref::inv(b);
    double total = 0;
    uint64_t h = 3;
    bool clear = true;
    for (size_t i = 0; i < s.atoms.size(); ++i)
    {
        std::vector<MSite> ms;
        if (!expand(s, i, eps, ms))
        {
            clear = false;
            continue;
        }
        require(p->siteMultiplicity(i) == int(ms.size()), "multiplicity",
                what, " site ", i, " multiplicity ", p->siteMultiplicity(i),
                " instead of ", ms.size());
        auto eq = p->getEquivalentAtoms(i);
        require(eq.size() == ms.size(), "multiplicity", what, " site ", i);
        Atom fa = p->at(i);
        p->toFractional(fa);
        auto ex = p->expandLatticeAtom(fa);
        require(ex.size() == ms.size(), "expand", what, " site ", i,
                " expandLatticeAtom returns ", ex.size(), " sites");
        std::vector<bool> used(ms.size(), false);
        for (size_t k = 0; k < eq.size(); ++k)
        {
            V3 c = v3(eq[k].xyz_cartn[0], eq[k].xyz_cartn[1],
                    eq[k].xyz_cartn[2]);
            V3 f = c[0] * bi[0] + c[1] * bi[1] + c[2] * bi[2];
            for (int j = 0; j < 3; ++j)
            {
                require(f[j] > -TOL && f[j] < 1 + TOL, "outside", what,
                        " site ", i, " image ", k, " is outside of unit cell");
                require(std::fabs(ex[k].xyz_cartn[j] - f[j]) < TOL, "expand",
                        what, " site ", i, " image ", k,
                        " of expandLatticeAtom differs");
            }
            bool found = false;
            for (size_t l = 0; l < ms.size() && !found; ++l)
            {
                if (used[l])  continue;
                double d = 0, du = 0;
                for (int j = 0; j < 3; ++j)
                {
                    d = std::max(d, std::fabs(wrap1(f[j] - ms[l].x[j])));
                    for (int n = 0; n < 3; ++n)
                        du = std::max(du, std::fabs(
                                    eq[k].uij_cartn(j, n) - ms[l].U[j][n]));
                }
                if (d > 1e-8)  continue;
                found = used[l] = true;
                // tensors of merged images differ when sites are not special
                require(du < 1e-9 || ms[l].count > 1, "uij", what, " site ", i,
                        " image ", k, " displacement tensor differs by ", du);
            }
            require(found, "position", what, " site ", i, " image ", k,
                    " at ", f[0], " ", f[1], " ", f[2], " is not expected");
            require(eq[k].atomtype == s.atoms[i].type &&
                    eq[k].occupancy == s.atoms[i].occ &&
                    eq[k].anisotropy == s.atoms[i].aniso, "attributes", what,
                    " site ", i, " image ", k, " has other attributes");
        }
        total += s.atoms[i].occ * ms.size();
        h = mix(h, ms.size());
    }
    if (!clear)
    {
        ctx.count("structures with unclear clusters");
        return h;
    }
    require(std::fabs(p->totalOccupancy() - total) < TOL * (1 + total),
            "occupancy", what, " total occupancy ", p->totalOccupancy(),
            " instead of ", total);
    double nd = total / s.volume();
    require(std::fabs(p->numberDensity() - nd) < TOL * (1 + nd), "density",
            what, " number density ", p->numberDensity(), " instead of ", nd);
    return h;
}

std::vector<double> grid(int n)
{
    std::vector<double> g = { 0.0, 0.5, 0.25, 1.0/3, 0.1 };
    if (n > 5)  { g.push_back(2.0/3); g.push_back(0.75); }
    if (n > 7)  { g.push_back(0.9); g.push_back(0.2); g.push_back(1.0/6);
        g.push_back(0.37); }
    return g;
}

std::vector<Ops> orders(const Ops& ops)
{
    std::vector<Ops> rv(1, ops);
    if (ops.size() < 2)  return rv;
    Ops r = ops;
    std::reverse(r.begin(), r.end());
    rv.push_back(r);
    r = ops;
    std::rotate(r.begin(), r.begin() + ops.size() / 2, r.end());
    rv.push_back(r);
    // operations shifted by lattice vectors
    r = ops;
    for (size_t i = 0; i < r.size(); ++i)
    {
        r[i].t[0] += int(i % 3) - 1;
        r[i].t[1] -= int(i % 2);
        r[i].t[2] += 2 * int(i % 2);
    }
    rv.push_back(r);
    return rv;
}

void expansion(Ctx& ctx)
{
    const std::vector<double> g = grid(ctx.thorough ? 11 : 7);
    const int n = g.size();
    static const V3 shifts[] = { v3(0, 0, 0), v3(-1, 0, 0), v3(2, -3, 1) };
    static const V3 offsets[] = { v3(0, 0, 0), v3(1, 0, 0), v3(-0.5, 0.7, 0.3),
        v3(0, -1, -1), v3(0.75, 0, 0), v3(0, 0, 0.75) };
    for (auto& gr : groups())
    {
        std::vector<Ops> os = orders(gr.ops);
        for (int i = 0; i < n; ++i)  for (int j = 0; j < n; ++j)
        ctx.run(cat("C09 expansion ", gr.name, " ", i, " ", j), [&]()
        {
            for (int k = 0; k < n; ++k)
            for (size_t o = 0; o < os.size(); ++o)
            for (auto& sh : shifts)
            for (int off = 0; off < 6; ++off)
            for (double eps : { 5e-5, 0.02 })
            {
                Struct s;
                s.kind = ref::CRYSTAL;
                s.lat = gr.lat;
                s.ops = os[o];
                ref::Atom a("Na1+", g[i], g[j], g[k], 0.003, 0.75);
                a.setU(ref::uaniso1());
                s.atoms.push_back(a);
                if (off == 0)  s.atoms[0].U = siteinvariant(s, 0, eps);
                // offset within the precision and out of it
                double size = (off == 3 ? 3 : 0.2) * eps / 3;
                // images just above the precision remain apart
                if (off >= 4 && &sh != &shifts[0])  continue;
                if (off == 4)  size = eps / s.lat[0];
                if (off == 5)  size = eps / s.lat[2];
                s.atoms[0].xyz = s.atoms[0].xyz + sh + size * offsets[off];
                std::string w = cat(gr.name, " site ", g[i], " ", g[j], " ",
                        g[k], " order ", o, " shift ", sh[0], sh[1], sh[2],
                        " offset ", off, " eps ", eps);
                CPtr p = buildcrystal(s, eps);
                uint64_t h = checkexpansion(ctx, p, s, eps, w);
                ctx.transition();
                ctx.outcome(mix(h, hashstr(gr.name)));
                ctx.state(mix(hashstr(w), h));
                // exact special positions are merged completely
                std::vector<MSite> m0;
                if (off == 1 || off == 2)
                {
                    Struct s0 = s;
                    s0.atoms[0].xyz = v3(g[i], g[j], g[k]);
                    if (!expand(s0, 0, eps, m0))  continue;
                    require(p->siteMultiplicity(0) == int(m0.size()),
                            "nearspecial", w, " multiplicity ",
                            p->siteMultiplicity(0), " instead of ", m0.size());
                }
            }
            ctx.trace();
        });
    }
}

/// crystal with all atoms written out
Struct explicitcell(const Struct& s)
{
    Struct rv = s;
    rv.kind = ref::PERIODIC;
    rv.ops.clear();
    rv.atoms.clear();
    M3 bi = ref::inv(ref::latbase(s.lat));
    for (size_t i = 0; i < s.atoms.size(); ++i)
    {
        for (auto& im : s.images(i))
        {
            ref::Atom a = s.atoms[i];
            a.U = im.U;
            a.xyz = im.r[0] * bi[0] + im.r[1] * bi[1] + im.r[2] * bi[2];
            rv.atoms.push_back(a);
        }
    }
    return rv;
}

void closeto(const QuantityType& a, const QuantityType& b, double tol,
        const std::string& sig, const std::string& what)
{
    require(a.size() == b.size(), sig, what, " has size ", a.size(),
            " instead of ", b.size());
    double mx = 1e-3;
    for (double x : b)  mx = std::max(mx, std::fabs(x));
    for (size_t i = 0; i < a.size(); ++i)
        require(std::fabs(a[i] - b[i]) <= tol * mx, sig, what, "[", i, "] is ",
                a[i], " instead of ", b[i]);
}

void results(Ctx& ctx)
{
    const std::vector<double> g = grid(ctx.thorough ? 7 : 5);
    const int n = g.size();
    for (auto& gr : groups())
    for (int i = 0; i < n; ++i)  for (int j = 0; j < n; ++j)
    ctx.run(cat("C09 results ", gr.name, " ", i, " ", j), [&]()
    {
        std::vector<Ops> os = orders(gr.ops);
        for (int k = 0; k < n; ++k)
        {
            Struct s;
            s.kind = ref::CRYSTAL;
            s.lat = gr.lat;
            s.ops = os[(i + 2 * j + k) % os.size()];
            s.atoms.push_back(ref::Atom("Cl1-", 0, 0, 0.48, 0.003));
            ref::Atom a("Na1+", g[i], g[j], g[k], 0.003, 0.75);
            a.setU(ref::uaniso1());
            s.atoms.push_back(a);
            s.atoms[1].U = siteinvariant(s, 1, 5e-5);
            s.atoms[1].xyz = s.atoms[1].xyz + v3(1, 0, -1);
            Struct x = explicitcell(s);
            const std::string w = cat(gr.name, " site ", g[i], " ", g[j], " ",
                    g[k]);
            SPtr p = ref::build(s), q = ref::build(x);
            const int m0 = s.mult(0);
            require(int(x.atoms.size()) == m0 + s.mult(1), "harness", "images");
            uint64_t h = 0;
            for (auto& calc : { "pdf", "debye" })
            {
                QPtr c = makecalc(calc), d = makecalc(calc);
                c->eval(p);
                d->eval(q);
                closeto(c->value(), d->value(), 1e-7, calc, w + " " + calc);
                h = hashvec(c->value(), h);
            }
            {
                OverlapCalculator c, d;
                AtomRadiiTablePtr rt(new ConstantRadiiTable);
                rt->setCustom("Na1+", 0.813);
                rt->setCustom("Cl1-", 1.137);
                c.setAtomRadiiTable(rt);
                d.setAtomRadiiTable(rt);
                c.eval(p);
                d.eval(q);
                closeto(QuantityType { c.totalSquareOverlap(),
                        c.meanSquareOverlap() }, QuantityType {
                        d.totalSquareOverlap(), d.meanSquareOverlap() }, 1e-9,
                        "overlap", w + " overlap");
                for (int site = 0; site < 2; ++site)
                {
                    int lo = site ? m0 : 0, hi = site ? x.atoms.size() : m0;
                    for (int e = lo; e < hi; ++e)
                    {
                        closeto(QuantityType { c.siteSquareOverlaps()[site],
                                c.coordinations()[site] }, QuantityType {
                                d.siteSquareOverlaps()[e], d.coordinations()[e] },
                                1e-9, "overlap", cat(w, " overlap of site ",
                                    site, " image ", e - lo));
                    }
                }
            }
            {
                BVSCalculator c, d;
                c.setRmax(4);
                d.setRmax(4);
                c.eval(p);
                d.eval(q);
                for (int e = 0; e < int(x.atoms.size()); ++e)
                {
                    closeto(QuantityType(1, c.value()[e >= m0]),
                            QuantityType(1, d.value()[e]), 1e-9, "bvs",
                            cat(w, " bond valence sum of image ", e));
                }
                closeto(QuantityType { c.bvmsdiff(), c.bvrmsdiff() },
                        QuantityType { d.bvmsdiff(), d.bvrmsdiff() }, 1e-9,
                        "bvs", w + " bvmsdiff");
            }
            {
                BondCalculator c, d;
                c.setRmax(3);
                d.setRmax(3);
                c.eval(p);
                d.eval(q);
                QuantityType dc, dd;
                for (int site = 0; site < 2; ++site)
                for (int e = 0; e < int(x.atoms.size()); ++e)
                {
                    if ((e >= m0) != site)  continue;
                    dc.clear();
                    dd.clear();
                    for (size_t b = 0; b < c.sites0().size(); ++b)
                        if (c.sites0()[b] == site)
                            dc.push_back(c.distances()[b]);
                    SiteIndices s0 = d.sites0();
                    QuantityType ds = d.distances();
                    for (size_t b = 0; b < s0.size(); ++b)
                        if (s0[b] == e)  dd.push_back(ds[b]);
                    // pairs at the range limit may be on either side
                    while (dc.size() && dc.back() > 3 - 1e-7)  dc.pop_back();
                    while (dd.size() && dd.back() > 3 - 1e-7)  dd.pop_back();
                    closeto(dc, dd, 1e-9, "bonds", cat(w, " bonds of site ",
                                site, " image ", e));
                    // the same list for all images, one is enough for many
                    if (e > m0 + 2)  break;
                }
            }
            ctx.evaluation(10);
            ctx.trace();
            ctx.outcome(h);
            ctx.state(hashstr(w));
        }
    });
}

/// all sequences of changes and reads
void updates(Ctx& ctx, int depth)
{
    struct Op
    {
        std::string name;
        std::function<void(CrystalStructureAdapter&, Struct&, double&)> f;
    };
    typedef CrystalStructureAdapter C;
    auto set = [](C& c, Struct& s, int i)
    {
        c[i] = ref::latom(s, s.atoms[i]);
    };
    auto setops = [](C& c, const Ops& os)
    {
        c.clearSymOps();
        for (auto& o : os)
        {
            R3::Matrix R;
            R3::Vector t;
            for (int i = 0; i < 3; ++i)
            {
                t[i] = o.t[i];
                for (int j = 0; j < 3; ++j)  R(i, j) = o.R[i][j];
            }
            c.addSymOp(R, t);
        }
    };
    std::vector<Op> ops = {
        { "special", [=](C& c, Struct& s, double&) { if (s.atoms.size()) {
            s.atoms[0].xyz = v3(0.5, 0, 0.5); set(c, s, 0); } } },
        { "general", [=](C& c, Struct& s, double&) { if (s.atoms.size()) {
            s.atoms[0].xyz = v3(0.501, 0.002, 0.49); set(c, s, 0); } } },
        { "occ", [=](C& c, Struct& s, double&) { if (s.atoms.size()) {
            s.atoms.back().occ *= 0.5; set(c, s, s.atoms.size() - 1); } } },
        { "uij", [=](C& c, Struct& s, double&) { if (s.atoms.size()) {
            s.atoms.back().setU(ref::uaniso2());
            set(c, s, s.atoms.size() - 1); } } },
        { "append", [=](C& c, Struct& s, double&) {
            s.atoms.push_back(ref::Atom("Na1+", 0.1, 0.2, 0.3, 0.004));
            c.append(ref::latom(s, s.atoms.back())); } },
        { "erase", [=](C& c, Struct& s, double&) { if (s.atoms.size()) {
            s.atoms.erase(s.atoms.begin()); c.erase(0); } } },
        { "lattice", [=](C& c, Struct& s, double&) {
            // atoms keep Cartesian coordinates
            M3 b = ref::latbase(s.lat);
            s.lat = ref::lp(3.1, 2.9, 4.0, 90, 95 + s.atoms.size(), 90);
            M3 bi = ref::inv(ref::latbase(s.lat));
            for (auto& a : s.atoms)
            {
                V3 r = a.xyz[0] * b[0] + a.xyz[1] * b[1] + a.xyz[2] * b[2];
                a.xyz = r[0] * bi[0] + r[1] * bi[1] + r[2] * bi[2];
            }
            c.setLatPar(s.lat[0], s.lat[1], s.lat[2], s.lat[3], s.lat[4],
                    s.lat[5]); } },
        { "symops", [=](C& c, Struct& s, double&) {
            s.ops = (s.ops.size() == 4) ? ref::groupPm1() : ref::groupP21c();
            setops(c, s.ops); } },
        { "nosymops", [=](C& c, Struct& s, double&) {
            s.ops.clear(); c.clearSymOps(); } },
        { "addop", [=](C& c, Struct& s, double&) {
            ref::SymOp op = ref::groupPm1().back();
            op.t = v3(0.5, 0, 0.25);
            s.ops.push_back(op);
            R3::Matrix R;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)  R(i, j) = op.R[i][j];
            c.addSymOp(R, R3::Vector(0.5, 0, 0.25)); } },
        { "precision", [=](C& c, Struct& s, double& eps) {
            eps = (eps < 0.01) ? 0.1 : 5e-5; c.setSymmetryPrecision(eps); } },
        { "readmult", [=](C& c, Struct& s, double&) {
            if (s.atoms.size())  c.siteMultiplicity(s.atoms.size() - 1); } },
        { "readeq", [=](C& c, Struct& s, double&) {
            if (s.atoms.size())  c.getEquivalentAtoms(0); } },
        { "bonds", [=](C& c, Struct& s, double&) { c.createBondGenerator(); } },
        { "update", [=](C& c, Struct& s, double&) {
            c.updateSymmetryPositions(); } },
    };
    const int no = ops.size();
    long tot = 1;
    for (int i = 0; i < depth - 1; ++i)  tot *= no;
    for (long code = 0; code < tot; ++code)
    {
        std::string nm;
        long c = code;
        for (int i = 0; i < depth - 1; ++i, c /= no)
            nm += " " + ops[c % no].name;
        ctx.run(cat("C09 updates", nm), [&]()
        {
            for (int last = 0; last < no; ++last)
            {
                Struct s;
                s.kind = ref::CRYSTAL;
                s.lat = ref::lp(2.5, 3.2, 2.9, 90, 112, 90);
                s.ops = ref::groupP21c();
                s.atoms.push_back(ref::Atom("Na1+", 0.13, 0.21, 0.34, 0.004));
                s.atoms.push_back(ref::Atom("Cl1-", 0.5, 0.5, 0, 0.003));
                double eps = 5e-5;
                CPtr p = buildcrystal(s, eps);
                long c = code;
                for (int i = 0; i < depth; ++i, c /= no)
                    ops[i == depth - 1 ? last : c % no].f(*p, s, eps);
                std::string w = nm + " " + ops[last].name;
                uint64_t h = checkexpansion(ctx, p, s, eps, w);
                // walk over bonds in cached and new expansion
                CPtr q = buildcrystal(s, eps);
                auto b0 = p->createBondGenerator(), b1 = q->createBondGenerator();
                b0->setRmax(2.5);
                b1->setRmax(2.5);
                for (size_t i = 0; i < s.atoms.size(); ++i)
                {
                    b0->selectAnchorSite(i);
                    b1->selectAnchorSite(i);
                    b0->rewind();
                    b1->rewind();
                    for (; !b0->finished() && !b1->finished();
                            b0->next(), b1->next())
                    {
                        require(std::fabs(b0->distance() - b1->distance())
                                < 1e-7 && std::fabs(b0->msd() - b1->msd())
                                < 1e-9, "bonds", w, " bonds differ from a "
                                "new crystal");
                    }
                    require(b0->finished() && b1->finished(), "bonds", w,
                            " other number of bonds than in a new crystal");
                }
                ctx.transition(depth);
                ctx.trace();
                ctx.outcome(h);
                ctx.state(mix(h, hashstr(w)));
            }
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    expansion(ctx);
    results(ctx);
    updates(ctx, ctx.thorough ? 5 : 4);
}
