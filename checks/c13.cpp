// C13: PDF output follows its definition on its grid.
#include "calcs.hpp"
#include <diffpy/srreal/PDFUtils.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C13", "model_checking",
    "Every combination of structure, r-grid, peak profile, peak width model, "
        "baseline, Q limits, maximum extension and scattering factors with "
        "mask, each with 5 sets of envelopes; grids, RDF, RDF/r, F and G are "
        "compared with direct sums over brute force pairs and a direct sine "
        "transform. All sequences of changes of envelopes in use. The transforms fftgtof and fftftog are checked on all unit "
        "vectors (they are linear) of all sizes and offsets up to the bound. "
        "An outcome is the G curve.",
    "8 structures, 8 r-grids, 2 profiles, 4 widths, 2 baselines, 11 Q limits, "
        "3 extensions, 3 scattering tables with 4 masks, 5 envelope sets; "
        "transforms up to 17 points at offsets up to 5; 4 envelope changes",
    "as quick with 56 r-grids and "
        "transforms up to 33 points at offsets up to 9; 5 envelope changes",
    {"transformed functions are zero at the origin",
     "the last grid point within 1e-9 of rmax may be included or not",
     "scattering factors, peak width bound and peak cutoff are taken from the "
        "library, they are checked by C15 and C24"},
    60
};

namespace {

const double LN2 = std::log(2.0);

struct RG { const char* name; double lo, hi, step; };
struct QL { const char* name; double lo, hi; };     // negative lo counts Qsteps
struct Width
{
    const char* name;
    const char* type;
    double p[4];    // width or delta1, delta2, qbroad, qbroad_seperable
};
struct SF { const char* name; const char* table; int mask; };

std::vector<ref::Named> structures()
{
    std::vector<ref::Named> rv;
    auto add = [&](const char* n, const Struct& s)
    {
        ref::Named x = { n, s };
        rv.push_back(x);
    };
    add("atomic", basestruct(ref::ATOMIC));
    add("periodic", basestruct(ref::PERIODIC));
    add("crystal", basestruct(ref::CRYSTAL));
    Struct s = basestruct(ref::ATOMIC);
    s.atoms.resize(1);
    add("one", s);
    s.atoms.clear();
    add("empty", s);
    s = basestruct(ref::CRYSTAL);
    s.ops = ref::groupPmmm();
    s.lat = ref::lp(5.6, 6.1, 6.7);
    s.atoms.resize(3);
    s.atoms[1].xyz = ref::v3(0.5, 0, 0.3);
    s.atoms[2].xyz = ref::v3(0, 0, 0);
    s.atoms[0].xyz = ref::v3(0.2, 0.31, 0.17);
    add("special", s);
    s = basestruct(ref::PERIODIC);
    for (auto& a : s.atoms)  a.occ = 0;
    add("void", s);
    // total occupancy below one
    s.atoms.resize(2);
    s.atoms[0].occ = 0.3;
    s.atoms[1].occ = 0.2;
    add("dilute", s);
    return rv;
}

QuantityType dst(const QuantityType& g, int offset, double step, int npad)
{
    // sine table for angles pi * k / npad
    std::vector<double> sn(2 * npad);
    for (int k = 0; k < 2 * npad; ++k)  sn[k] = std::sin(M_PI * k / npad);
    QuantityType f(npad, 0.0);
    for (int q = 0; q < npad; ++q)
    {
        double s = 0;
        for (size_t k = 0; k < g.size(); ++k)
        {
            if (g[k] == 0.0)  continue;
            s += g[k] * sn[(long(q) * (k + offset)) % (2 * npad)];
        }
        f[q] = s * step;
    }
    return f;
}

int pow2(int n)
{
    int rv = 1;
    while (rv < n)  rv *= 2;
    return rv;
}

int losteps(double r, double dr)
{
    int k = int(std::ceil(r / dr - 1e-7));
    return std::max(0, k);
}
int histeps(double r, double dr)  { return int(std::ceil(r / dr)); }

void checktransforms(Ctx& ctx)
{
    int nmax = ctx.thorough ? 33 : 17;
    int omax = ctx.thorough ? 9 : 5;
    const double steps[] = { 0.01, 0.3, 1.0 };
    for (double step : steps)
        for (int n = 0; n <= nmax; ++n)
            for (int off = 0; off <= omax; ++off)
    {
        ctx.run(cat("C13 fft step", step, " n", n, " off", off), [&]()
        {
            ctx.trace();
            if (!n)
            {
                require(fftgtof(QuantityType(), step, off * step).empty() &&
                        fftftog(QuantityType(), step, off * step).empty(),
                        "fft", "transform of no points");
                return;
            }
            for (int k = 0; k <= n; ++k)
            {
                // unit vectors, the last one is a sum of all
                QuantityType g(n, k == n ? 1.0 : 0.0);
                if (k < n)  g[k] = 1;
                else for (int i = 0; i < n; ++i)  g[i] = 1 + 0.1 * i;
                // odd function is zero at the origin
                if (!off)  g[0] = 0;
                int npad = pow2(n + off);
                QuantityType f = fftgtof(g, step, off * step);
                ctx.transition();
                QuantityType e = dst(g, off, step, npad);
                require(f.size() == e.size(), "fftsize", "transform of ", n,
                        " points at offset ", off, " has ", f.size(),
                        " points, expected ", e.size());
                requireclose(f, e, "fftgtof", "fftgtof", 1e-9, 1e-12);
                double dq = M_PI / (npad * step);
                QuantityType g1 = fftftog(f, dq);
                ctx.transition();
                QuantityType eg(npad, 0.0);
                for (int i = 0; i < n; ++i)
                    if (i + off > 0)  eg[i + off] = g[i];
                requireclose(g1, eg, "fftftog", "inverse transform",
                        1e-9, 1e-12);
                ctx.outcome(hashvec(f));
            }
            ctx.evaluation(2 * (n + 1));
        });
    }
}

struct Case
{
    const Struct* s;
    RG rg;
    const char* prof;
    Width w;
    const char* base;
    QL q;
    double ext;
    SF sf;
};

struct EnvSet
{
    const char* name;
    double scale, qdamp, diameter, stepcut;     // not used when negative
};

double sharp(const Width& w, double r)
{
    if (r < 1e-15)  return 0.0;
    return 1 - w.p[0] / r - w.p[1] / (r * r) + std::pow(w.p[2] * r, 2);
}

bool isoff(const Case& c, int i, int j)
{
    if (c.sf.mask == 1)
        return (i == 0 && j == 1) || (i == 1 && j == 0);
    if (c.sf.mask == 2)
        return c.s->atoms[i].type == "Na1+" && c.s->atoms[j].type == "Na1+";
    if (c.sf.mask == 3)
        return !(i == 0 && j == 0) && !(i + j == 1);
    return false;
}

void runcase(Ctx& ctx, const Case& c, const std::vector<ref::Pair>& pairs)
{
    const Struct& s = *c.s;
    const int n = s.atoms.size();
    PDFCalculator pc;
    pc.setRmin(c.rg.lo);
    pc.setRmax(c.rg.hi);
    pc.setRstep(c.rg.step);
    pc.setQmin(std::max(0.0, c.q.lo));
    pc.setQmax(c.q.hi);
    pc.setMaxExtension(c.ext);
    pc.setPeakProfileByType(c.prof);
    const double prec = 1e-8;
    pc.getPeakProfile()->setPrecision(prec);
    pc.setPeakWidthModelByType(c.w.type);
    std::string wt = c.w.type;
    if (wt == "constant")  pc.setDoubleAttr("width", c.w.p[0]);
    if (wt == "jeong")
    {
        pc.setDoubleAttr("delta1", c.w.p[0]);
        pc.setDoubleAttr("delta2", c.w.p[1]);
        pc.setDoubleAttr("qbroad", c.w.p[2]);
        pc.setDoubleAttr("qbroad_seperable", c.w.p[3]);
    }
    pc.setBaselineByType(c.base);
    pc.setScatteringFactorTableByType(c.sf.table);
    // components assigned as objects over those of another type
    uint64_t hc = mix(hashstr(cat(c.prof, wt, c.base, c.sf.table)),
            hashdbl(c.q.hi + c.rg.hi));
    if (hc % 2)
    {
        pc.setPeakProfileByType(
                c.prof == "gaussian" ? "croppedgaussian" : "gaussian");
        PeakProfilePtr pf = PeakProfile::createByType(c.prof);
        pf->setPrecision(prec);
        pc.setPeakProfile(pf);
        PeakWidthModelPtr pw = pc.getPeakWidthModel()->clone();
        pc.setPeakWidthModelByType("debye-waller");
        pc.setPeakWidthModel(pw);
        pc.setBaselineByType(c.base == "zero" ? "linear" : "zero");
        pc.setBaseline(PDFBaseline::createByType(c.base));
        pc.setScatteringFactorTableByType("electronnumber");
        pc.setScatteringFactorTable(
                ScatteringFactorTable::createByType(c.sf.table));
    }
    if (c.sf.mask == 1)  pc.setPairMask(0, 1, false);
    if (c.sf.mask == 2)  pc.setTypeMask("Na1+", "Na1+", false);
    if (c.sf.mask == 3)
    {
        pc.maskAllPairs(false);
        pc.setPairMask(0, 0, true);
        pc.setPairMask(1, 0, true);
    }
    SPtr stru = ref::build(s);
    pc.eval(stru);
    // limits around the first points of the Q-grid
    const double qmin = c.q.lo < 0 ? -c.q.lo * pc.getQstep() : c.q.lo;
    pc.setQmin(qmin);
    ctx.evaluation();
    ctx.trace();
    // grid
    const double dr = c.rg.step;
    int k0 = losteps(c.rg.lo, dr), k1 = std::max(k0, histeps(c.rg.hi, dr));
    QuantityType rg = pc.getRgrid();
    for (size_t i = 0; i < rg.size(); ++i)
        require(std::fabs(rg[i] - (k0 + int(i)) * dr) < 1e-12, "rgrid",
                "rgrid[", i, "] is ", rg[i]);
    // points within the range, the end point is optional
    int kin = k0;
    while (kin * dr < c.rg.hi - 1e-9)  ++kin;
    int kend = kin;
    while (kend * dr < c.rg.hi + 1e-9)  ++kend;
    int ng = rg.size();
    require(ng == kin - k0 || ng == kend - k0, "rgridsize", "rgrid has ", ng,
            " points instead of ", kin - k0);
    k1 = k0 + ng;
    require(pc.getPDF().size() == rg.size() && pc.getRDF().size() == rg.size()
            && pc.getRDFperR().size() == rg.size(), "size",
            "result sizes differ from the r-grid");
    // limits
    const double qnyq = M_PI / dr;
    const double qmaxin = (c.q.hi == 0) ? 1e300 : c.q.hi;
    const double qmax = std::min(qmaxin, qnyq);
    require(close(pc.getQmax(), qmax), "qmax", "qmax is ", pc.getQmax());
    double exttails = 0, extripples = 0;
    int e0 = 0, e1 = 0, c0 = 0, c1 = 0;
    if (k0 < k1)
    {
        double mw = pc.getPeakWidthModel()->maxWidth(stru, c.rg.lo, c.rg.hi);
        double bx = std::max(std::fabs(pc.getPeakProfile()->xboundlo(mw)),
                std::fabs(pc.getPeakProfile()->xboundhi(mw)));
        exttails = bx;
        extripples = (qmax < qnyq - 1e-8) ? (6 * 2 * M_PI / qmax) : 0.0;
        double tot = exttails + extripples;
        if (tot > c.ext)
        {
            extripples *= c.ext / tot;
            exttails *= c.ext / tot;
            tot = c.ext;
        }
        e0 = losteps(c.rg.lo - extripples, dr);
        e1 = histeps(c.rg.hi + extripples, dr);
        c0 = losteps(c.rg.lo - tot, dr);
        c1 = histeps(c.rg.hi + tot, dr);
    }
    require(close(pc.getExtendedRmin(), e0 * dr) &&
            close(pc.getExtendedRmax(), e1 * dr), "extrange",
            "extended range is ", pc.getExtendedRmin(), " ",
            pc.getExtendedRmax(), " instead of ", e0 * dr, " ", e1 * dr);
    // scattering factors
    QuantityType sf(n);
    double totocc = 0, sfavg = 0;
    std::vector<int> mult(n);
    for (int i = 0; i < n; ++i)
    {
        mult[i] = s.mult(i);
        sf[i] = pc.getScatteringFactorTable()->lookup(s.atoms[i].type) *
            s.atoms[i].occ;
        totocc += mult[i] * s.atoms[i].occ;
        sfavg += mult[i] * sf[i];
    }
    sfavg = totocc ? sfavg / totocc : 0.0;
    double invocc = 0;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (isoff(c, i, j))
                invocc += mult[i] * s.atoms[i].occ * mult[j] * s.atoms[j].occ;
    double slope = 0;
    if (totocc && s.kind != ref::ATOMIC && !strcmp(c.base, "linear"))
        slope = -4 * M_PI * (1 - invocc / totocc / totocc) *
            totocc / s.volume();
    // RDF over the extended range
    int ne = e1 - e0;
    QuantityType rdf(ne, 0.0), slack(ne, 0.0);
    const double rlo = c0 * dr, rhi = c1 * dr;
    const bool cropped = !strcmp(c.prof, "croppedgaussian");
    const double hb = std::sqrt(-std::log(prec) / (4 * LN2));
    const double cropscale = 1 / std::erf(std::sqrt(-std::log(prec)));
    long npairs = 0;
    for (auto& p : pairs)
    {
        if (p.d < rlo - 1e-9 || p.d > rhi + 1e-9)  continue;
        if (isoff(c, p.i, p.j))  continue;
        bool border = p.d < rlo + 1e-9 || p.d > rhi - 1e-9;
        double fw;
        double m = ref::msd(p);
        double dw = m > 0 ? 2 * std::sqrt(2 * LN2) * std::sqrt(m) : 0.0;
        if (wt == "constant")  fw = c.w.p[0];
        else if (wt == "debye-waller")  fw = dw;
        else
        {
            double cr = sharp(c.w, p.d);
            fw = cr > 0 ? std::sqrt(cr) * dw + std::pow(c.w.p[3] * p.d, 2) : 0;
        }
        if (fw <= 0)  continue;
        ++npairs;
        double pk = 2 * std::sqrt(LN2 / M_PI) / fw;
        double a = mult[p.i] * sf[p.i] * sf[p.j];
        int i0 = std::max(e0, int((p.d - 2 * hb * fw) / dr) - 2);
        int i1 = std::min(e1, int((p.d + 2 * hb * fw) / dr) + 3);
        for (int k = i0; k < i1; ++k)
        {
            double x = k * dr - p.d;
            double w = a * pk * (k * dr) / p.d;
            double xr = x / fw;
            double y = w * std::exp(-4 * LN2 * xr * xr);
            bool in = std::fabs(xr) < hb;
            if (cropped)  y = in ? y * cropscale : 0.0;
            // the library may leave out points outside of peak bounds
            rdf[k - e0] += y;
            slack[k - e0] += border ? std::fabs(y) : 0.0;
            slack[k - e0] += std::fabs(w) * prec;
        }
    }
    ctx.count("pairs", npairs);
    ctx.transition(npairs);
    double sc = (totocc * sfavg == 0) ? 0.0 : 1 / (totocc * sfavg * sfavg);
    double mxslack = 0;
    for (int k = 0; k < ne; ++k)
    {
        rdf[k] *= sc;
        slack[k] *= std::fabs(sc);
        double r = (k + e0) * dr;
        if (r > 0)  mxslack = std::max(mxslack, slack[k] / r);
    }
    auto cmp = [&](const QuantityType& got, const QuantityType& e,
            double slk, const char* what)
    {
        require(got.size() == e.size(), what, what, " has size ", got.size(),
                " instead of ", e.size());
        double mx = 0;
        for (double x : e)  mx = std::max(mx, std::fabs(x));
        for (size_t i = 0; i < e.size(); ++i)
        {
            require(std::fabs(got[i] - e[i]) <= 1e-8 * mx + 1e-10 + slk, what,
                    what, "[", i, "] is ", got[i], " instead of ", e[i],
                    " largest ", mx);
        }
    };
    QuantityType erdf, erpr, rpr(ne);
    for (int k = 0; k < ne; ++k)
    {
        double r = (k + e0) * dr;
        rpr[k] = r > 0 ? rdf[k] / r : 0.0;
        if (k + e0 < k0 || k + e0 >= k1)  continue;
        erdf.push_back(rdf[k]);
        erpr.push_back(rpr[k]);
    }
    double rmx = std::max(1.0, e1 * dr);
    cmp(pc.getRDF(), erdf, 2 * mxslack * rmx, "rdf");
    cmp(pc.getRDFperR(), erpr, 2 * mxslack, "rdfperr");
    // F
    QuantityType gb(ne);
    for (int k = 0; k < ne; ++k)  gb[k] = rpr[k] + slope * (k + e0) * dr;
    int npad = ne ? pow2(e1) : 0;
    double dq = npad ? M_PI / (npad * dr) : 0.0;
    require(close(pc.getQstep(), dq), "qstep", "qstep is ", pc.getQstep(),
            " instead of ", dq);
    QuantityType fext = npad ? dst(gb, e0, dr, npad) : QuantityType();
    int nq1 = npad ? int(std::ceil(qmax / dq)) : 0;
    if (npad && std::fabs(qmax / dq - std::round(qmax / dq)) < 1e-9)
        nq1 = pc.getQgrid().size();     // end point is optional
    require(!npad || std::fabs(nq1 - qmax / dq) <= 1 + 1e-9, "qgridsize",
            "qgrid has ", nq1, " points");
    nq1 = std::min(nq1, npad);
    QuantityType qg = pc.getQgrid();
    require(int(qg.size()) == nq1, "qgridsize", "qgrid has ", qg.size(),
            " points instead of ", nq1);
    for (int k = 0; k < nq1; ++k)
        require(close(qg[k], k * dq), "qgrid", "qgrid[", k, "] is ", qg[k]);
    QuantityType ef(fext.begin(), fext.begin() + nq1);
    cmp(pc.getF(), ef, mxslack * rmx * 2 + 1e-9, "f");
    // G before envelopes
    int nq0 = npad ? losteps(qmin, dq) : 0;
    bool fft = qmax < qnyq - 1e-8 || nq0 > 1;
    QuantityType g0;
    if (!fft)
    {
        for (int k = k0; k < k1; ++k)  g0.push_back(gb[k - e0]);
    }
    else if (npad)
    {
        for (int k = 0; k < npad; ++k)
            if (k < nq0 || k >= nq1)  fext[k] = 0;
        QuantityType g = dst(fext, 0, dq, npad);
        for (int k = k0; k < k1; ++k)  g0.push_back(g[k] * 2 / M_PI);
    }
    const EnvSet envs[] = {
        { "default", 1, 0, -1, -1 },
        { "scaled", 2.5, 0.15, -1, -1 },
        { "shape", 1, -1, 3.1, -1 },
        { "none", -1, -1, -1, -1 },
        { "cut", 0.5, 0.1, 9, 2.3 } };
    for (const EnvSet& ev : envs)
    {
        pc.clearEnvelopes();
        auto use = [&](const char* tp, const char* attr, double x)
        {
            if (x < 0)  return;
            pc.addEnvelopeByType(tp);
            pc.setDoubleAttr(attr, x);
        };
        use("scale", "scale", ev.scale);
        use("qresolution", "qdamp", ev.qdamp);
        use("sphericalshape", "spdiameter", ev.diameter);
        use("stepcut", "stepcut", ev.stepcut);
        QuantityType g = g0;
        for (size_t i = 0; i < g.size(); ++i)
        {
            double r = (k0 + int(i)) * dr;
            if (ev.scale >= 0)  g[i] *= ev.scale;
            if (ev.qdamp > 0)  g[i] *= std::exp(-0.5 * std::pow(r * ev.qdamp, 2));
            if (ev.diameter > 0)
            {
                double t = r / ev.diameter;
                g[i] *= t < 1 ? 1 - 1.5 * t + 0.5 * t * t * t : 0.0;
            }
            if (ev.stepcut > 0 && r > ev.stepcut)  g[i] = 0;
        }
        cmp(pc.getPDF(), g, (fft ? 30 : 5) * mxslack, "pdf");
        ctx.count("curves");
        ctx.outcome(hashvec(g));
    }
    uint64_t h = mix(mix(k0, k1), mix(e0, e1));
    ctx.state(mix(h, mix(c0, c1)));
}

/// envelopes in use after every sequence of changes of two calculators
void checkenvelopes(Ctx& ctx, int depth)
{
    const int NOP = 14;
    for (int c0 = 0; c0 < NOP; ++c0)
    ctx.run(cat("C13 envelopes first=", c0), [&]()
    {
        int tot = 1;
        for (int i = 1; i < depth; ++i)  tot *= NOP;
        for (int code = 0; code < tot; ++code)
        {
            PDFEnvelopePtr obj[3];
            const double scales[2] = { 2.5, -0.5 };
            for (int i = 0; i < 2; ++i)
            {
                obj[i] = PDFEnvelope::createByType("scale");
                obj[i]->setDoubleAttr("scale", scales[i]);
            }
            obj[2] = PDFEnvelope::createByType("stepcut");
            obj[2]->setDoubleAttr("stepcut", 1.5);
            PDFCalculator pc;
            DebyePDFCalculator dc;
            // indices of objects, -1 for those created by the calculator
            typedef std::map<std::string, int> Used;
            Used m[2];
            PDFEnvelopeOwner* o[2] = { &pc, &dc };
            for (int k = 0; k < 2; ++k)
            {
                o[k]->clearEnvelopes();
                o[k]->addEnvelopeByType("qresolution");
                m[k]["qresolution"] = -1;
            }
            std::string w;
            auto pop = [&](int k, int i)
            {
                o[k]->popEnvelope(obj[i]);
                auto it = m[k].find(obj[i]->type());
                if (it != m[k].end() && it->second == i)  m[k].erase(it);
            };
            auto use = [&](int k, int i)
            {
                o[k]->addEnvelope(obj[i]);
                m[k][obj[i]->type()] = i;
            };
            for (int i = 0, c = code; i < depth; ++i)
            {
                int op = i == 0 ? c0 : c % NOP;
                if (i)  c /= NOP;
                w += cat(" ", op);
                switch (op)
                {
                    case 0: case 1: case 2: use(0, op); break;
                    case 3: use(1, 0); break;
                    case 4:
                        o[0]->addEnvelopeByType("scale");
                        m[0]["scale"] = -1;
                        break;
                    case 5: case 6: case 7: pop(0, op - 5); break;
                    case 8: pop(1, 0); break;
                    case 9:
                        o[0]->popEnvelopeByType("scale");
                        m[0].erase("scale");
                        break;
                    case 10:
                        o[0]->popEnvelopeByType("stepcut");
                        m[0].erase("stepcut");
                        break;
                    case 11: o[0]->popEnvelopeByType("nosuch"); break;
                    case 12: o[0]->clearEnvelopes(); m[0].clear(); break;
                    case 13:
                        // a copy shares the objects, but not their list
                        dc.PDFEnvelopeOwner::operator=(pc);
                        m[1] = m[0];
                        break;
                }
                ctx.transition();
            }
            uint64_t h = 7;
            for (int k = 0; k < 2; ++k)
            {
                std::set<std::string> tps;
                double factor[2] = { 1, 1 };
                for (auto& kv : m[k])
                {
                    tps.insert(kv.first);
                    h = mix(h, hashstr(kv.first, kv.second));
                    if (kv.second >= 0)
                        require(o[k]->getEnvelopeByType(kv.first) ==
                                obj[kv.second], "envelope-object", w,
                                " calculator ", k, " ", kv.first);
                    if (kv.second == 0 || kv.second == 1)
                        for (double& f : factor)  f *= scales[kv.second];
                    if (kv.second == 2)  factor[1] = 0;
                }
                require(o[k]->usedEnvelopeTypes() == tps, "envelope-types", w,
                        " calculator ", k);
                QuantityType x(2, 1.0), y(2, 3.0);
                x[1] = 2;
                y[1] = 5;
                QuantityType z = o[k]->applyEnvelopes(x, y);
                for (int i = 0; i < 2; ++i)
                    require(z.size() == 2 && z[i] == y[i] * factor[i],
                            "envelope-factor", w, " calculator ", k,
                            " value at ", x[i], " is ", z[i], " instead of ",
                            y[i] * factor[i]);
            }
            ctx.state(h);
            ctx.trace();
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    checktransforms(ctx);
    checkenvelopes(ctx, ctx.thorough ? 5 : 4);
    std::vector<RG> rgs = {
        { "plain", 0, 4.0, 0.1 }, { "odd", 0.35, 3.05, 0.07 },
        { "between", 1.033, 3.96, 0.08 }, { "same", 2, 2, 0.1 },
        { "reverse", 3, 2, 0.1 }, { "tiny", 0, 0.05, 0.1 },
        { "pow2", 0, 3.2, 0.05 }, { "far", 5.0, 6.5, 0.125 } };
    if (ctx.thorough)
    {
        for (double lo : { 0.0, 0.3, 1.7, 2.5 })
            for (double hi : { 2.0, 2.5, 4.1, 5.0 })
                for (double st : { 0.03, 0.1, 0.25 })
                {
                    static std::vector<std::string> rn;
                    rn.reserve(100);
                    rn.push_back(cat(lo, "-", hi, "-", st));
                    RG x = { rn.back().c_str(), lo, hi, st };
                    rgs.push_back(x);
                }
    }
    const char* profs[] = { "gaussian", "croppedgaussian" };
    const Width ws[] = {
        { "jeong0", "jeong", { 0, 0, 0, 0 } },
        { "jeong", "jeong", { 0.3, 1.1, 0.06, 0.05 } },
        { "dw", "debye-waller", { 0, 0, 0, 0 } },
        { "const", "constant", { 0.21, 0, 0, 0 } } };
    const char* bases[] = { "linear", "zero" };
    const QL qs[] = {
        { "none", 0, 0 }, { "max", 0, 14 }, { "both", 1.5, 9.3 },
        { "min", 2.1, 0 }, { "swap", 5, 3 }, { "over", 0, 90 },
        { "smallmin", 0.05, 0 }, { "exact", 0, 10 * M_PI },
        { "step1", -1, 0 }, { "step1.5", -1.5, 0 }, { "step2", -2, 12 } };
    const double exts[] = { 5.0, 1.1, 0.0 };
    // electron scattering is not defined at zero Q
    const char* tt[] = { "xray", "neutron", "electronnumber" };
    std::vector<SF> sfs;
    static std::vector<std::string> names;
    names.reserve(20);
    for (auto t : tt)
        for (int m = 0; m < 4; ++m)
        {
            names.push_back(cat(t, "-m", m));
            SF x = { names.back().c_str(), t, m };
            sfs.push_back(x);
        }
    for (auto& ns : structures())
    {
        std::vector<ref::Pair> pairs;
        int n = ns.s.atoms.size();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                auto p = ns.s.pairs(i, j, 0, 11.7);
                pairs.insert(pairs.end(), p.begin(), p.end());
            }
        std::sort(pairs.begin(), pairs.end(),
                [](const ref::Pair& a, const ref::Pair& b)
                { return a.d < b.d; });
        for (auto& rg : rgs) for (auto& q : qs) for (double ext : exts)
            for (auto& sf : sfs) for (auto& w : ws)
                for (auto prof : profs) for (auto base : bases)
        {
            if (n < 2 && sf.mask)  continue;
            Case c = { &ns.s, rg, prof, w, base, q, ext, sf };
            ctx.run(cat("C13 ", ns.name, " r-", rg.name, " q-", q.name,
                        " ext", ext, " ", sf.name, " ", w.name, " ", prof, " ",
                        base),
                    [&]() { runcase(ctx, c, pairs); });
        }
    }
}
