// C25: crystals and molecules from ObjCryst are converted faithfully.
#include "mc.hpp"
#include "ref.hpp"
#include <ObjCryst/ObjCryst/Atom.h>
#include <ObjCryst/ObjCryst/Crystal.h>
#include <ObjCryst/ObjCryst/Molecule.h>
#include <ObjCryst/ObjCryst/ScatteringPower.h>
#include <diffpy/srreal/ObjCrystStructureAdapter.hpp>
#include <diffpy/srreal/StructureAdapter.hpp>

using namespace mc;
using namespace diffpy::srreal;
using ref::V3;
using ref::M3;
using ref::v3;
namespace OC = ObjCryst;

const Info mcinfo = {
    "C25", "model_checking",
    "All 230 space groups with their alternative origins and axes and further "
        "settings of monoclinic and orthorhombic groups.  For each of them a "
        "crystal with an isotropic and an anisotropic atom at all pairs of "
        "positions of a grid (general and special) is converted.  Lattice, "
        "atoms, occupancies and displacement parameters are compared with the "
        "crystal; positions, multiplicities and displacement tensors of all "
        "symmetry images with positions generated by ObjCryst and with "
        "operations recovered from images of four points.  All crystals and "
        "molecules with up to 4 components over an alphabet of components "
        "(dummy atoms, occupancies, isotropic and anisotropic powers).  "
        "An outcome is the multiplicity or the list of sites.",
    "grid 6x6x6, up to 3 components",
    "grid 9x9x9, up to 4 components",
    {"positions generated by ObjCryst::SpaceGroup are right"},
    60
};

namespace {

void silent(const std::string&)  { }

const double TOL = 1e-6;

double wrap1(double x)  { return x - std::round(x); }

std::vector<std::string> spacegroups()
{
    std::vector<std::string> rv;
    const std::set<int> two = { 48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129,
        130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228 };
    const std::set<int> rh = { 146, 148, 155, 160, 161, 166, 167 };
    for (int i = 1; i <= 230; ++i)
    {
        rv.push_back(cat(i));
        if (two.count(i))  { rv.push_back(cat(i, ":1")); rv.push_back(cat(i, ":2")); }
        if (rh.count(i))  { rv.push_back(cat(i, ":H")); rv.push_back(cat(i, ":R")); }
    }
    for (auto s : { "P 1 1 2", "P 2 1 1", "P 1 1 21", "A 1 2 1", "I 1 2 1",
            "P 1 21/n 1", "P 1 21/a 1", "P 1 1 21/b", "P 1 1 2/m", "I 1 2/a 1",
            "A 1 2/n 1", "B 1 1 2/b", "P b n m", "P m c n", "P n a m",
            "P m n b", "P c m n", "C c m b", "B b c m", "A c a m", "I c m a",
            "R 3 :H", "P 4/n :2" })
        rv.push_back(s);
    return rv;
}

struct Site
{
    V3 x;
    double b[6];        // B factor, only the first one if isotropic
    bool aniso;
    double occ;
};

/// Cartesian tensor from components relative to normalized reciprocal vectors
M3 ucart(const Site& s, const M3& b, const M3& bi)
{
    const double f = 1 / (8 * M_PI * M_PI);
    if (!s.aniso)  return ref::iso(s.b[0] * f);
    M3 u = ref::usym(s.b[0], s.b[1], s.b[2], s.b[3], s.b[4], s.b[5]);
    double n[3];
    for (int k = 0; k < 3; ++k)
        n[k] = ref::norm(v3(bi[0][k], bi[1][k], bi[2][k]));
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
        u[i][j] *= f * n[i] * n[j];
    return ref::mul(ref::tr(b), ref::mul(u, b));
}

std::vector<V3> images(const OC::SpaceGroup& sg, const V3& x)
{
    std::vector<V3> rv;
    CrystMatrix_REAL m = sg.GetAllSymmetrics(x[0], x[1], x[2], false, false,
            false);
    for (int i = 0; i < m.rows(); ++i)
        rv.push_back(v3(m(i, 0), m(i, 1), m(i, 2)));
    return rv;
}

/// crystal with the given sites
std::unique_ptr<OC::Crystal> makecrystal(const std::string& name)
{
    OC::fpObjCrystInformUser = silent;
    std::unique_ptr<OC::Crystal> rv;
    const double D = M_PI / 180;
    rv.reset(new OC::Crystal(5.1, 6.3, 7.2, 83 * D, 99 * D, 107 * D, name));
    return rv;
}

void symmetry(Ctx& ctx)
{
    std::vector<double> g = { 0.0, 0.5, 0.25, 0.13 };
    g.push_back(1.0/3);
    g.push_back(0.75);
    if (ctx.thorough)  { g.push_back(2.0/3); g.push_back(0.125); g.push_back(0.375); }
    const int n = g.size();
    for (auto& name : spacegroups())
    ctx.run("C25 symmetry " + name, [&]()
    {
        auto crst = makecrystal(name);
        const OC::SpaceGroup& sg = crst->GetSpaceGroup();
        const int nsym = sg.GetNbSymmetrics();
        require(nsym >= 1, "harness", "no symmetry operations");
        auto p0 = new OC::ScatteringPowerAtom("p0", "Na1+", 0.5);
        auto p1 = new OC::ScatteringPowerAtom("p1", "Cl1-", 0.5);
        crst->AddScatteringPower(p0);
        crst->AddScatteringPower(p1);
        const double bij[6] = { 0.3, 0.5, 0.7, 0.05, -0.1, 0.15 };
        p1->SetBij(1, 1, bij[0]);
        p1->SetBij(2, 2, bij[1]);
        p1->SetBij(3, 3, bij[2]);
        p1->SetBij(1, 2, bij[3]);
        p1->SetBij(1, 3, bij[4]);
        p1->SetBij(2, 3, bij[5]);
        auto a0 = new OC::Atom(0, 0, 0, "a0", p0, 0.8);
        auto a1 = new OC::Atom(0, 0, 0, "a1", p1, 1.0);
        crst->AddScatterer(a0);
        crst->AddScatterer(a1);
        // operations recovered from images of four points
        std::vector<V3> o = images(sg, v3(0, 0, 0));
        std::vector<V3> e[3] = { images(sg, v3(1, 0, 0)),
            images(sg, v3(0, 1, 0)), images(sg, v3(0, 0, 1)) };
        require(int(o.size()) == nsym, "harness", "images");
        std::array<double, 6> lat;
        for (int k = 0; k < 6; ++k)
            lat[k] = crst->GetLatticePar(k) * (k < 3 ? 1 : 180 / M_PI);
        M3 b = ref::latbase(lat), bi = ref::inv(b);
        for (int code = 0; code < n * n * n; ++code)
        {
            Site s[2];
            s[0].x = v3(g[code / n / n], g[code / n % n], g[code % n]);
            s[1].x = v3(g[code % n], g[code / n / n], g[code / n % n] - 1);
            s[0].aniso = false;
            s[1].aniso = true;
            s[0].b[0] = 0.5;
            std::copy(bij, bij + 6, s[1].b);
            s[0].occ = 0.8;
            s[1].occ = 1.0;
            a0->SetX(s[0].x[0]);
            a0->SetY(s[0].x[1]);
            a0->SetZ(s[0].x[2]);
            a1->SetX(s[1].x[0]);
            a1->SetY(s[1].x[1]);
            a1->SetZ(s[1].x[2]);
            // ObjCryst may move an atom by a lattice vector
            s[0].x = v3(a0->GetX(), a0->GetY(), a0->GetZ());
            s[1].x = v3(a1->GetX(), a1->GetY(), a1->GetZ());
            const std::string w = cat(name, " code=", code);
            StructureAdapterPtr q = createStructureAdapter(*crst);
            auto c = boost::dynamic_pointer_cast<CrystalStructureAdapter>(q);
            require(bool(c), "type", w, " is not a CrystalStructureAdapter");
            require(c->countSites() == 2, "sites", w, " has ",
                    c->countSites(), " sites");
            const Lattice& L = c->getLattice();
            const double lp[6] = { L.a(), L.b(), L.c(), L.alpha(), L.beta(),
                L.gamma() };
            for (int k = 0; k < 6; ++k)
                require(std::fabs(lp[k] - lat[k]) < TOL, "lattice", w,
                        " lattice parameter ", k, " is ", lp[k]);
            require(c->countSymOps() == nsym, "symops", w, " has ",
                    c->countSymOps(), " operations instead of ", nsym);
            double tot = 0;
            for (int i = 0; i < 2; ++i)
            {
                const Atom& a = c->at(i);
                require(a.atomtype == (i ? "Cl1-" : "Na1+") &&
                        std::fabs(a.occupancy - s[i].occ) < 1e-12 &&
                        a.anisotropy == s[i].aniso, "attributes", w, " site ",
                        i, " has other attributes");
                M3 u = ucart(s[i], b, bi);
                V3 x = s[i].x;
                V3 r = x[0] * b[0] + x[1] * b[1] + x[2] * b[2];
                for (int j = 0; j < 3; ++j)
                {
                    require(std::fabs(a.xyz_cartn[j] - r[j]) < TOL, "position",
                            w, " site ", i, " ", a.xyz_cartn[0], ",",
                            a.xyz_cartn[1], ",", a.xyz_cartn[2],
                            " expected ", r[0], ",", r[1], ",", r[2], " atom ",
                            a1->GetX(), ",", a1->GetY(), ",", a1->GetZ());
                    for (int k = 0; k < 3; ++k)
                        require(std::fabs(a.uij_cartn(j, k) - u[j][k]) < TOL,
                                "uij", w, " site ", i);
                }
                // images by ObjCryst
                std::vector<V3> im = images(sg, x), uq;
                std::vector<int> cnt;
                std::vector<M3> us;
                for (int k = 0; k < nsym; ++k)
                {
                    bool found = false;
                    for (size_t l = 0; l < uq.size() && !found; ++l)
                    {
                        double d = 0;
                        for (int j = 0; j < 3; ++j)
                            d = std::max(d, std::fabs(wrap1(uq[l][j] - im[k][j])));
                        if (d < 1e-5)  { found = true; cnt[l]++; }
                    }
                    if (found)  continue;
                    uq.push_back(im[k]);
                    cnt.push_back(1);
                    M3 R;
                    for (int j = 0; j < 3; ++j)  for (int l = 0; l < 3; ++l)
                        R[j][l] = std::round(e[l][k][j] - o[k][j]);
                    M3 Rc = ref::mul(ref::tr(b), ref::mul(R, ref::tr(bi)));
                    us.push_back(s[i].aniso ?
                            ref::mul(Rc, ref::mul(u, ref::tr(Rc))) : u);
                }
                require(c->siteMultiplicity(i) == int(uq.size()),
                        "multiplicity", w, " site ", i, " multiplicity ",
                        c->siteMultiplicity(i), " instead of ", uq.size());
                auto eq = c->getEquivalentAtoms(i);
                std::vector<bool> used(uq.size(), false);
                for (auto& ea : eq)
                {
                    V3 rc = v3(ea.xyz_cartn[0], ea.xyz_cartn[1], ea.xyz_cartn[2]);
                    V3 f = rc[0] * bi[0] + rc[1] * bi[1] + rc[2] * bi[2];
                    bool found = false;
                    for (size_t l = 0; l < uq.size() && !found; ++l)
                    {
                        if (used[l])  continue;
                        double d = 0, du = 0;
                        for (int j = 0; j < 3; ++j)
                        {
                            d = std::max(d, std::fabs(wrap1(uq[l][j] - f[j])));
                            for (int k = 0; k < 3; ++k)
                                du = std::max(du, std::fabs(
                                            ea.uij_cartn(j, k) - us[l][j][k]));
                        }
                        if (d > 1e-5)  continue;
                        found = used[l] = true;
                        require(du < TOL || cnt[l] > 1, "uij", w, " site ", i,
                                " image tensor differs by ", du);
                    }
                    require(found, "images", w, " site ", i,
                            " has an image that is not expected");
                }
                tot += s[i].occ * uq.size();
                ctx.outcome(mix(hashstr(name), uq.size()));
            }
            require(std::fabs(c->totalOccupancy() - tot) < TOL, "occupancy", w,
                    " total occupancy");
            ctx.transition();
            ctx.state(hashstr(w));
            ctx.trace();
        }
    });
}

/// one component of the alphabet
struct Component
{
    bool dummy;
    int power;
    double occ;
};

const Component components[] = {
    { true, 0, 1 }, { false, 0, 1 }, { false, 1, 0.5 }, { false, 2, 0.25 } };

const double powerb[3][6] = {
    { 0.4, 0, 0, 0, 0, 0 }, { 0, 0, 0, 0, 0, 0 },
    { 0.3, 0.5, 0.7, 0.05, -0.1, 0.15 } };
const char* powersymbol[3] = { "C", "O2-", "Na1+" };

void lists(Ctx& ctx, int maxlen)
{
    for (int mol = 0; mol < 3; ++mol)
    for (int len = 0; len <= maxlen; ++len)
    {
        int tot = 1;
        for (int i = 0; i < len; ++i)  tot *= 4;
        for (int code = 0; code < tot; ++code)
        ctx.run(cat("C25 list ", mol == 2 ? "molecule-in-crystal" :
                    mol ? "molecule" : "crystal", " len=", len, " code=",
                    code), [&]()
        {
            auto crst = makecrystal("P -1");
            std::vector<OC::ScatteringPowerAtom*> ps;
            for (int i = 0; i < 3; ++i)
            {
                ps.push_back(new OC::ScatteringPowerAtom(cat("p", i),
                            powersymbol[i], powerb[i][0]));
                crst->AddScatteringPower(ps.back());
            }
            ps[2]->SetBij(1, 1, powerb[2][0]);
            ps[2]->SetBij(2, 2, powerb[2][1]);
            ps[2]->SetBij(3, 3, powerb[2][2]);
            ps[2]->SetBij(1, 2, powerb[2][3]);
            ps[2]->SetBij(1, 3, powerb[2][4]);
            ps[2]->SetBij(2, 3, powerb[2][5]);
            std::array<double, 6> lat;
            for (int k = 0; k < 6; ++k)
                lat[k] = crst->GetLatticePar(k) * (k < 3 ? 1 : 180 / M_PI);
            M3 b = mol == 1 ? ref::iso(1) : ref::latbase(lat), bi = ref::inv(b);
            OC::Molecule* m = NULL;
            if (mol)
            {
                m = new OC::Molecule(*crst, "m");
                crst->AddScatterer(m);
            }
            std::vector<Component> cs;
            for (int i = 0, c = code; i < len; ++i, c /= 4)
                cs.push_back(components[c % 4]);
            std::vector<V3> xs;
            std::vector<int> nd;
            for (int i = 0; i < len; ++i)
            {
                V3 x = v3(0.1 + 0.11 * i, 0.27, 0.05 * i * i);
                xs.push_back(x);
                if (!cs[i].dummy)  nd.push_back(i);
                if (mol)
                {
                    m->AddAtom(x[0], x[1], x[2],
                            cs[i].dummy ? NULL : ps[cs[i].power], cat("m", i));
                    m->GetAtom(i).SetOccupancy(cs[i].occ);
                }
                else
                {
                    crst->AddScatterer(new OC::Atom(x[0], x[1], x[2],
                            cat("a", i), cs[i].dummy ? NULL : ps[cs[i].power],
                            cs[i].occ));
                }
            }
            StructureAdapterPtr q = (mol == 1) ? createStructureAdapter(*m) :
                createStructureAdapter(*crst);
            auto p = boost::dynamic_pointer_cast<AtomicStructureAdapter>(q);
            require(bool(p), "type", "other type of adapter");
            require(p->countSites() == int(nd.size()), "sites", "has ",
                    p->countSites(), " sites instead of ", nd.size());
            double tot = 0;
            for (size_t k = 0; k < nd.size(); ++k)
            {
                const Component& c = cs[nd[k]];
                const Atom& a = p->at(k);
                Site s;
                s.aniso = (c.power == 2);
                std::copy(powerb[c.power], powerb[c.power] + 6, s.b);
                M3 u = ucart(s, b, bi);
                require(a.atomtype == powersymbol[c.power] &&
                        a.occupancy == c.occ && a.anisotropy == s.aniso,
                        "attributes", "site ", k);
                V3 r = xs[nd[k]];
                if (mol == 0)  r = r[0] * b[0] + r[1] * b[1] + r[2] * b[2];
                for (int i = 0; i < 3; ++i)
                {
                    // molecule in crystal is placed by ObjCryst
                    require(mol == 2 || std::fabs(a.xyz_cartn[i] - r[i]) < TOL,
                            "position", "site ", k);
                    for (int j = 0; j < 3; ++j)
                        require(std::fabs(a.uij_cartn(i, j) - u[i][j]) < TOL,
                                "uij", "site ", k);
                }
                if (mol == 2)
                {
                    const OC::ScatteringComponent& sc =
                        crst->GetScatteringComponentList()(nd[k]);
                    r = sc.mX * b[0] + sc.mY * b[1] + sc.mZ * b[2];
                    for (int i = 0; i < 3; ++i)
                        require(std::fabs(a.xyz_cartn[i] - r[i]) < TOL,
                                "position", "site ", k);
                }
                tot += c.occ * q->siteMultiplicity(k);
            }
            require(std::fabs(q->totalOccupancy() - tot) < TOL, "occupancy",
                    "total occupancy");
            double nd0 = (mol == 1) ? 0 : tot / ref::det(b);
            require(std::fabs(q->numberDensity() - nd0) < TOL * (1 + nd0),
                    "density", "number density ", q->numberDensity(),
                    " instead of ", nd0);
            ctx.transition(len);
            ctx.trace();
            ctx.state(mix(code, mix(len, mol)));
            ctx.outcome(hashdbl(tot + 100 * mol));
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    symmetry(ctx);
    lists(ctx, ctx.thorough ? 4 : 3);
}
