// C14: Debye sum equals the direct sum over pairs.
#include "calcs.hpp"
#include <diffpy/srreal/PDFUtils.hpp>
#include <diffpy/srreal/BaseDebyeSum.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C14", "model_checking",
    "Every combination of structure, r-grid with maximum extension, Q limits "
        "with Q step, peak width model, scattering factors with mask and "
        "Debye precision. Pair sums, F, Q grid, extended range, PDF with "
        "5 sets of envelopes, RDF and RDF/r are compared with a direct sum "
        "over brute force pairs and a direct sine transform. The bare Debye "
        "sum is compared for all its Q ranges. An outcome is the F curve.",
    "9 structures, 13 r-grids, 8 Q ranges, 4 widths, 4 scattering tables with "
        "4 masks, 2 precisions, 5 envelope sets",
    "as quick with 37 r-grids and 4 precisions",
    {"range of summed pairs may keep up to 50 more r-steps of an earlier wider "
        "range",
     "terms smaller than the Debye precision may be dropped",
     "scattering factors and peak width bound are taken from the library, "
        "they are checked by C15 and C24"},
    60
};

namespace {

const double LN2 = std::log(2.0);
const double PAIRSMAX = 24;

struct RG { std::string name; double lo, hi, step, ext; };
struct QR { const char* name; double lo, hi, step; };   // step 0 is optimum
struct Width { const char* name; const char* type; double p[4]; };

std::vector<ref::Named> structures()
{
    std::vector<ref::Named> rv;
    auto add = [&](const char* n, const Struct& s)
    {
        ref::Named x = { n, s };
        rv.push_back(x);
    };
    add("atomic", basestruct(ref::ATOMIC));
    add("periodic", basestruct(ref::PERIODIC));
    add("crystal", basestruct(ref::CRYSTAL));
    Struct s = basestruct(ref::ATOMIC);
    s.atoms.resize(1);
    add("one", s);
    s.atoms.clear();
    add("empty", s);
    s = basestruct(ref::CRYSTAL);
    s.ops = ref::groupPmmm();
    s.lat = ref::lp(5.6, 6.1, 6.7);
    s.atoms.resize(3);
    s.atoms[1].xyz = ref::v3(0.5, 0, 0.3);
    s.atoms[2].xyz = ref::v3(0, 0, 0);
    s.atoms[0].xyz = ref::v3(0.2, 0.31, 0.17);
    add("special", s);
    s = basestruct(ref::PERIODIC);
    for (auto& a : s.atoms)  a.occ = 0;
    add("void", s);
    // total occupancy below one
    s.atoms.resize(2);
    s.atoms[0].occ = 0.3;
    s.atoms[1].occ = 0.2;
    add("dilute", s);
    // same types with all different occupancies
    s = basestruct(ref::ATOMIC);
    for (size_t i = 0; i < s.atoms.size(); ++i)  s.atoms[i].occ = 1 - 0.13 * i;
    add("mixed", s);
    // atoms that coincide do not contribute
    s.atoms[1].xyz = s.atoms[0].xyz;
    s.atoms[1].occ = s.atoms[0].occ;
    s.atoms[1].type = s.atoms[0].type;
    s.atoms[2].occ = 0;
    add("coincide", s);
    return rv;
}

int pow2(int n)
{
    int rv = 1;
    while (rv < n)  rv *= 2;
    return rv;
}

/// smallest integer not less than x up to numerical noise
int ceileps(double x)  { return int(std::ceil(x - 1e-7)); }

double sharp(const Width& w, double r)
{
    return 1 - w.p[0] / r - w.p[1] / (r * r) + std::pow(w.p[2] * r, 2);
}

double fwhm(const Width& w, const ref::Pair& p)
{
    std::string tp = w.type;
    if (tp == "constant")  return w.p[0];
    double m = ref::msd(p);
    double dw = m > 0 ? 2 * std::sqrt(2 * LN2 * m) : 0.0;
    if (tp == "debye-waller")  return dw;
    double cr = sharp(w, p.d);
    return cr > 0 ? std::sqrt(cr) * dw + std::pow(w.p[3] * p.d, 2) : 0;
}

bool isoff(const Struct& s, int mask, int i, int j)
{
    if (mask == 1)
        return (i == 0 && j == 1) || (i == 1 && j == 0);
    if (mask == 2)
        return s.atoms[i].type == "Na1+" && s.atoms[j].type == "Na1+";
    if (mask == 3)
        return !(i == 0 && j == 0) && !(i + j == 1);
    return false;
}

void setwidth(PeakWidthModelOwner& o, const Width& w)
{
    o.setPeakWidthModelByType(w.type);
    diffpy::Attributes& a = *o.getPeakWidthModel();
    std::string wt = w.type;
    if (wt == "constant")  a.setDoubleAttr("width", w.p[0]);
    if (wt == "jeong")
    {
        a.setDoubleAttr("delta1", w.p[0]);
        a.setDoubleAttr("delta2", w.p[1]);
        a.setDoubleAttr("qbroad", w.p[2]);
        a.setDoubleAttr("qbroad_seperable", w.p[3]);
    }
}

void setmask(PairQuantity& pq, int mask)
{
    if (mask == 1)  pq.setPairMask(0, 1, false);
    if (mask == 2)  pq.setTypeMask("Na1+", "Na1+", false);
    if (mask == 3)
    {
        pq.maskAllPairs(false);
        pq.setPairMask(0, 0, true);
        pq.setPairMask(1, 0, true);
    }
}

void cmp(const QuantityType& got, const QuantityType& e,
        const QuantityType& slack, const char* what)
{
    require(got.size() == e.size(), what, what, " has size ", got.size(),
            " instead of ", e.size());
    double mx = 0;
    for (double x : e)  mx = std::max(mx, std::fabs(x));
    for (size_t i = 0; i < e.size(); ++i)
    {
        require(std::fabs(got[i] - e[i]) <= 1e-8 * mx + 1e-11 + slack[i], what,
                what, "[", i, "] is ", got[i], " instead of ", e[i],
                " largest ", mx);
    }
}

// direct sum over pairs, the pairs are sorted by distance

struct Sum
{
    QuantityType value, vslack, f, fslack;
};

typedef std::function<double(int, double)> SFun;

Sum directsum(Ctx& ctx, const Struct& s, const std::vector<ref::Pair>& pairs,
        double rlo, double rhi, int mask, const Width& w, double prec,
        double qstep, int kq0, int kq1, const SFun& sfun)
{
    const int n = s.atoms.size();
    Sum rv;
    rv.value = rv.vslack = rv.f = rv.fslack = QuantityType(kq1, 0.0);
    std::vector<int> mult(n);
    double totocc = 0;
    for (int i = 0; i < n; ++i)
    {
        mult[i] = s.mult(i);
        totocc += mult[i] * s.atoms[i].occ;
    }
    // sf[i][kq]
    std::vector<QuantityType> sf(n, QuantityType(kq1, 0.0));
    QuantityType sfavg(kq1, 0.0);
    for (int i = 0; i < n; ++i)
        for (int k = kq0; k < kq1; ++k)
        {
            sf[i][k] = sfun(i, k * qstep);
            sfavg[k] += mult[i] * sf[i][k];
        }
    if (totocc > 0)  for (auto& x : sfavg)  x /= totocc;
    long np = 0;
    for (auto& p : pairs)
    {
        if (p.d < rlo - 1e-9)  continue;
        if (p.d > rhi + 1e-9)  break;
        if (isoff(s, mask, p.i, p.j))  continue;
        bool border = p.d < rlo + 1e-9 || p.d > rhi - 1e-9;
        double sigma = fwhm(w, p) / (2 * std::sqrt(2 * LN2));
        ++np;
        for (int k = std::max(kq0, 1); k < kq1; ++k)
        {
            double q = k * qstep;
            double a = mult[p.i] * sf[p.i][k] * sf[p.j][k] *
                std::exp(-0.5 * sigma * sigma * q * q) / p.d;
            double y = a * std::sin(q * p.d);
            rv.value[k] += y;
            rv.vslack[k] += border ? std::fabs(y) : 0.0;
            // precision applies to directed pairs of either direction
            double amin = std::fabs(a) * std::min(mult[p.i], mult[p.j]) /
                mult[p.i];
            if (amin <= prec * 1.001)  rv.vslack[k] += std::fabs(y);
        }
    }
    ctx.transition(np);
    ctx.count("pairs", np);
    for (int k = 0; k < kq1; ++k)
    {
        double x = sfavg[k] * sfavg[k] * totocc;
        if (x == 0)  continue;
        rv.f[k] = rv.value[k] / x;
        rv.fslack[k] = rv.vslack[k] / std::fabs(x);
    }
    return rv;
}

void checkqgrid(const QuantityType& qg, double qmax, double qstep)
{
    int nq = qg.size();
    require(std::fabs(nq - qmax / qstep) < 1 + 1e-7 &&
            nq >= qmax / qstep - 1e-7, "qgridsize", "qgrid has ", nq,
            " points for qmax ", qmax, " step ", qstep);
    for (int k = 0; k < nq; ++k)
        require(close(qg[k], k * qstep), "qgrid", "qgrid[", k, "] is ", qg[k]);
}

struct Case
{
    const Struct* s;
    RG rg;
    QR q;
    Width w;
    const char* table;
    int mask;
    double prec;
};

struct EnvSet
{
    const char* name;
    double scale, qdamp, diameter, stepcut;     // not used when negative
};

void runcase(Ctx& ctx, const Case& c, const std::vector<ref::Pair>& pairs)
{
    const Struct& s = *c.s;
    DebyePDFCalculator pc;
    pc.setMaxExtension(c.rg.ext);
    pc.setRmin(c.rg.lo);
    pc.setRmax(c.rg.hi);
    pc.setRstep(c.rg.step);
    pc.setQmax(c.q.hi);
    pc.setQmin(c.q.lo);
    if (c.q.step > 0)  pc.setQstep(c.q.step);
    pc.setDebyePrecision(c.prec);
    setwidth(pc, c.w);
    pc.setScatteringFactorTableByType(c.table);
    setmask(pc, c.mask);
    SPtr stru = ref::build(s);
    pc.eval(stru);
    ctx.evaluation();
    ctx.trace();
    // r-grid
    const double dr = c.rg.step;
    const int k0 = std::max(0, ceileps(c.rg.lo / dr));
    QuantityType rg = pc.getRgrid();
    const int ng = rg.size();
    for (int i = 0; i < ng; ++i)
        require(std::fabs(rg[i] - (k0 + i) * dr) < 1e-12, "rgrid",
                "rgrid[", i, "] is ", rg[i]);
    int kin = k0;
    while (kin * dr < c.rg.hi - 1e-9)  ++kin;
    int kend = kin;
    while (kend * dr < c.rg.hi + 1e-9)  ++kend;
    require(ng == kin - k0 || ng == kend - k0, "rgridsize", "rgrid has ", ng,
            " points instead of ", kin - k0);
    // range of the summation
    double mw = pc.getPeakWidthModel()->maxWidth(stru, c.rg.lo, c.rg.hi);
    GaussianProfile gp;
    gp.setPrecision(3.33e-6);
    double ext = std::min(c.rg.ext, 12 * M_PI / c.q.hi + gp.xboundhi(mw));
    const double rlo = pc.getDoubleAttr("extendedrmin");
    const double rhi = pc.getDoubleAttr("extendedrmax");
    double elo = std::max(0.0, c.rg.lo - ext), ehi = c.rg.hi + ext;
    require(rlo > elo - 1e-7 && rlo < elo + dr + 1e-7, "extlo",
            "extended rmin is ", rlo, " for ", elo);
    require(rhi > ehi - 1e-7 && rhi < ehi + 51 * dr, "exthi",
            "extended rmax is ", rhi, " for ", ehi);
    require(rhi < PAIRSMAX, "harness", "too few pairs prepared");
    // Q grid
    double oq = (c.q.hi * rhi / M_PI > 4) ? M_PI / rhi : c.q.hi / 4;
    double qstep = (c.q.step > 0 && c.q.step < oq) ? c.q.step : oq;
    require(close(pc.getQstep(), qstep), "qstep", "qstep is ", pc.getQstep(),
            " instead of ", qstep);
    require(pc.isOptimumQstep() == (qstep == oq || c.q.step == 0), "optimum",
            "optimum flag is ", pc.isOptimumQstep());
    QuantityType qg = pc.getQgrid();
    checkqgrid(qg, c.q.hi, qstep);
    const int nq = qg.size();
    auto sft = pc.getScatteringFactorTable();
    auto sfun = [&](int i, double q)
    {
        if (s.atoms[i].occ == 0)  return 0.0;
        // electron scattering is not defined at Q=0, the value cancels there
        if (q == 0 && !strcmp(c.table, "electron"))  return 1.0;
        return sft->lookup(s.atoms[i].type, q) * s.atoms[i].occ;
    };
    Sum sum = directsum(ctx, s, pairs, rlo, rhi, c.mask, c.w, c.prec, qstep,
            0, nq, sfun);
    cmp(pc.value(), sum.value, sum.vslack, "value");
    cmp(pc.getF(), sum.f, sum.fslack, "f");
    ctx.outcome(hashvec(sum.f));
    // PDF
    int npad = std::max(nq, int(std::ceil(M_PI / dr / qstep - 1e-9)));
    npad = pow2(npad);
    std::vector<double> sn(2 * npad);
    for (int k = 0; k < 2 * npad; ++k)  sn[k] = std::sin(M_PI * k / npad);
    const double drpad = M_PI / (npad * qstep);
    auto transform = [&](double qmin, double& slack)
    {
        int kq0 = ceileps(qmin / qstep);
        slack = 0;
        QuantityType rv;
        for (int k = kq0; k < nq; ++k)
            slack += sum.fslack[k] * qstep * 2 / M_PI;
        auto at = [&](int m)
        {
            double g = 0;
            for (int k = kq0; k < nq; ++k)
                g += sum.f[k] * sn[(long(k) * m) % (2 * npad)];
            return g * qstep * 2 / M_PI;
        };
        std::map<int, double> cache;
        auto atc = [&](int m)
        {
            auto it = cache.find(m);
            if (it == cache.end())  it = cache.insert({m, at(m)}).first;
            return it->second;
        };
        for (int i = 0; i < ng; ++i)
        {
            double x = rg[i] / drpad;
            int lo = int(x + 1e-9);
            double wh = std::max(0.0, x - lo);
            // neighbors on the fine grid of the transform
            double y = (1 - wh) * atc(lo);
            if (wh > 1e-8)  y += wh * atc(lo + 1);
            rv.push_back(y);
        }
        return rv;
    };
    double slk;
    QuantityType g0 = transform(0.0, slk);
    QuantityType rslack(ng, slk);
    double mx = 0;
    for (double x : sum.f)  mx = std::max(mx, std::fabs(x) * c.q.hi);
    for (auto& x : rslack)  x += 1e-8 * mx;
    cmp(pc.getRDFperR(), g0, rslack, "rdfperr");
    for (int i = 0; i < ng; ++i)
    {
        g0[i] *= rg[i];
        rslack[i] *= rg[i];
    }
    cmp(pc.getRDF(), g0, rslack, "rdf");
    g0 = transform(c.q.lo, slk);
    const EnvSet envs[] = {
        { "default", 1, 0, -1, -1 },
        { "scaled", 2.5, 0.15, -1, -1 },
        { "shape", 1, -1, 3.1, -1 },
        { "none", -1, -1, -1, -1 },
        { "cut", 0.5, 0.1, 9, 2.3 } };
    for (const EnvSet& ev : envs)
    {
        pc.clearEnvelopes();
        auto use = [&](const char* tp, const char* attr, double x)
        {
            if (x < 0)  return;
            pc.addEnvelopeByType(tp);
            pc.setDoubleAttr(attr, x);
        };
        use("scale", "scale", ev.scale);
        use("qresolution", "qdamp", ev.qdamp);
        use("sphericalshape", "spdiameter", ev.diameter);
        use("stepcut", "stepcut", ev.stepcut);
        QuantityType g = g0;
        for (int i = 0; i < ng; ++i)
        {
            double r = rg[i];
            if (ev.scale >= 0)  g[i] *= ev.scale;
            if (ev.qdamp > 0)  g[i] *= std::exp(-0.5 * std::pow(r * ev.qdamp, 2));
            if (ev.diameter > 0)
            {
                double t = r / ev.diameter;
                g[i] *= t < 1 ? 1 - 1.5 * t + 0.5 * t * t * t : 0.0;
            }
            if (ev.stepcut > 0 && r > ev.stepcut)  g[i] = 0;
        }
        QuantityType gs(ng, 2.5 * (slk + 1e-8 * mx));
        cmp(pc.getPDF(), g, gs, "pdf");
        ctx.count("curves");
    }
    ctx.state(mix(mix(k0, ng), mix(nq, npad)));
}

void runbase(Ctx& ctx, const Case& c, const std::vector<ref::Pair>& pairs)
{
    const Struct& s = *c.s;
    BaseDebyeSum pc;
    pc.setRmin(c.rg.lo);
    pc.setRmax(c.rg.hi);
    pc.setQmax(c.q.hi);
    pc.setQmin(c.q.lo);
    double qstep = c.q.step > 0 ? c.q.step : 0.25;
    pc.setQstep(qstep);
    pc.setDebyePrecision(c.prec);
    setwidth(pc, c.w);
    setmask(pc, c.mask);
    pc.eval(ref::build(s));
    ctx.evaluation();
    ctx.trace();
    QuantityType qg = pc.getQgrid();
    checkqgrid(qg, c.q.hi, qstep);
    int kq0 = std::min(ceileps(c.q.lo / qstep), int(qg.size()));
    Sum sum = directsum(ctx, s, pairs, c.rg.lo, c.rg.hi, c.mask, c.w, c.prec,
            qstep, kq0, qg.size(), [](int, double) { return 1.0; });
    cmp(pc.value(), sum.value, sum.vslack, "basevalue");
    cmp(pc.getF(), sum.f, sum.fslack, "basef");
    ctx.outcome(hashvec(sum.f));
}

}   // namespace

void explore(Ctx& ctx)
{
    std::vector<RG> rgs = {
        { "plain", 0, 4.0, 0.1, 5 }, { "odd", 0.35, 3.05, 0.07, 5 },
        { "between", 1.033, 3.96, 0.08, 1.1 }, { "same", 2, 2, 0.1, 5 },
        { "reverse", 3, 2, 0.1, 1.1 }, { "tiny", 0, 0.05, 0.1, 5 },
        { "pow2", 0, 3.2, 0.05, 0 }, { "pow2odd", 0.15, 6.4, 0.1, 0 },
        { "pow2same", 0, 3.2, 0.1, 0 }, { "quarter", 0, 4, 0.25, 0 },
        { "far", 5.0, 6.5, 0.125, 1.1 }, { "none", 0, 0, 0.1, 0 },
        { "finestep", 1.0, 2.5, 0.03, 2 } };
    if (ctx.thorough)
    {
        for (double lo : { 0.0, 1.7 })
            for (double hi : { 2.0, 2.56, 4.1 })
                for (double st : { 0.04, 0.1 })
                    for (double ext : { 0.0, 3.0 })
                    {
                        RG x = { cat(lo, "-", hi, "-", st, "-", ext),
                            lo, hi, st, ext };
                        rgs.push_back(x);
                    }
    }
    const QR qs[] = {
        { "opt", 0, 12, 0 }, { "optmin", 1.1, 9.3, 0 },
        { "fine", 0.3, 10, 0.11 }, { "coarse", 0, 14, 3 },
        { "small", 0, 0.9, 0 }, { "swap", 8, 5, 0.2 },
        { "exact", 1, 10, 0.125 }, { "minuscule", 0.04, 12.3, 0.2 } };
    const Width ws[] = {
        { "jeong0", "jeong", { 0, 0, 0, 0 } },
        { "jeong", "jeong", { 0.3, 1.1, 0.06, 0.05 } },
        { "dw", "debye-waller", { 0, 0, 0, 0 } },
        { "const", "constant", { 0.21, 0, 0, 0 } } };
    const char* tables[] = { "xray", "neutron", "electronnumber", "electron" };
    std::vector<double> precs = { 1e-6, 0.01 };
    if (ctx.thorough)
    {
        precs.push_back(0);
        precs.push_back(0.3);
    }
    for (auto& ns : structures())
    {
        std::vector<ref::Pair> pairs;
        int n = ns.s.atoms.size();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                auto p = ns.s.pairs(i, j, 0, PAIRSMAX);
                pairs.insert(pairs.end(), p.begin(), p.end());
            }
        std::sort(pairs.begin(), pairs.end(),
                [](const ref::Pair& a, const ref::Pair& b)
                { return a.d < b.d; });
        for (auto& rg : rgs) for (auto& q : qs) for (int mask = 0; mask < 4;
                ++mask)
            for (auto& w : ws) for (double prec : precs)
        {
            if (n < 2 && mask)  continue;
            std::string d = cat(ns.name, " r-", rg.name, " q-", q.name, " m",
                    mask, " ", w.name, " prec", prec);
            for (auto table : tables)
            {
                Case c = { &ns.s, rg, q, w, table, mask, prec };
                ctx.run(cat("C14 ", d, " ", table),
                        [&]() { runcase(ctx, c, pairs); });
            }
            Case c = { &ns.s, rg, q, w, "", mask, prec };
            ctx.run(cat("C14 base ", d), [&]() { runbase(ctx, c, pairs); });
        }
    }
}
