// Plain reference model of structures and interatomic pairs.  Nothing here
// calls library code that computes something, the only link to the library is
// build(), which enters the described structure in a library adapter.
#ifndef REF_HPP_INCLUDED
#define REF_HPP_INCLUDED

#include <array>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>

namespace ref {

struct V3
{
    double v[3];
    double& operator[](int i)  { return v[i]; }
    const double& operator[](int i) const  { return v[i]; }
};
typedef std::array<V3, 3> M3;

inline V3 v3(double x, double y, double z)
{
    V3 rv;
    rv[0] = x; rv[1] = y; rv[2] = z;
    return rv;
}
inline V3 operator+(const V3& a, const V3& b)
{ return v3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(const V3& a, const V3& b)
{ return v3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator*(double s, const V3& a)
{ return v3(s * a[0], s * a[1], s * a[2]); }
inline double dot(const V3& a, const V3& b)
{ return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double norm(const V3& a)  { return std::sqrt(dot(a, a)); }
inline V3 cross(const V3& a, const V3& b)
{
    return v3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]);
}
inline M3 zero3()
{
    M3 m;
    for (auto& r : m)  r = v3(0, 0, 0);
    return m;
}
inline M3 diag(double a, double b, double c)
{
    M3 m = zero3();
    m[0][0] = a; m[1][1] = b; m[2][2] = c;
    return m;
}
inline M3 iso(double u)  { return diag(u, u, u); }
inline M3 m3(double a, double b, double c, double d, double e, double f,
        double g, double h, double i)
{
    M3 m;
    m[0] = v3(a, b, c);
    m[1] = v3(d, e, f);
    m[2] = v3(g, h, i);
    return m;
}
inline M3 usym(double u11, double u22, double u33,
        double u12, double u13, double u23)
{
    return m3(u11, u12, u13, u12, u22, u23, u13, u23, u33);
}
inline V3 mul(const M3& m, const V3& v)
{ return v3(dot(m[0], v), dot(m[1], v), dot(m[2], v)); }
inline M3 mul(const M3& a, const M3& b)
{
    M3 c = zero3();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k)  c[i][j] += a[i][k] * b[k][j];
    return c;
}
inline M3 tr(const M3& a)
{
    M3 c;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)  c[i][j] = a[j][i];
    return c;
}
inline double det(const M3& m)  { return dot(m[0], cross(m[1], m[2])); }
inline M3 inv(const M3& m)
{
    double d = det(m);
    V3 c0 = (1 / d) * cross(m[1], m[2]);
    V3 c1 = (1 / d) * cross(m[2], m[0]);
    V3 c2 = (1 / d) * cross(m[0], m[1]);
    M3 t;
    t[0] = c0; t[1] = c1; t[2] = c2;
    return tr(t);
}

/// lattice vectors in rows, orientation as in the library convention:
/// c along z, b in the yz plane.
inline M3 latbase(const std::array<double, 6>& lp)
{
    const double D = M_PI / 180;
    auto c_ = [&](double x) { return (x == 90) ? 0.0 : std::cos(x * D); };
    double a = lp[0], b = lp[1], c = lp[2];
    double ca = c_(lp[3]), cb = c_(lp[4]), cg = c_(lp[5]);
    double sa = std::sqrt(1 - ca * ca);
    M3 m;
    m[2] = v3(0, 0, c);
    m[1] = v3(0, b * sa, b * ca);
    double az = a * cb;
    double ay = (a * b * cg - az * b * ca) / (b * sa);
    m[0] = v3(std::sqrt(a * a - az * az - ay * ay), ay, az);
    return m;
}

struct Atom
{
    std::string type;
    V3 xyz;             // Cartesian for molecules, fractional in crystals
    double occ;
    bool aniso;
    M3 U;               // Cartesian
    Atom() : xyz(v3(0, 0, 0)), occ(1), aniso(false), U(zero3()) { }
    Atom(const std::string& t, double x, double y, double z,
            double u=0.0, double o=1.0) :
        type(t), xyz(v3(x, y, z)), occ(o), aniso(false), U(iso(u)) { }
    Atom& setU(const M3& u) { aniso = true; U = u; return *this; }
};

struct SymOp
{
    M3 R;
    V3 t;
};

enum Kind { ATOMIC=0, PERIODIC=1, CRYSTAL=2 };

/// atom of the unit cell
struct Site
{
    int idx;        // index in the asymmetric unit
    V3 r;           // Cartesian
    M3 U;
    bool aniso;
};

/// one directed pair
struct Pair
{
    int i, j;
    V3 r01;
    double d;
    M3 U0, U1;
    bool aniso0, aniso1;
};

struct Struct
{
    Kind kind = ATOMIC;
    std::array<double, 6> lat = {{1, 1, 1, 90, 90, 90}};
    std::vector<Atom> atoms;
    std::vector<SymOp> ops;

    V3 cart(const V3& x) const
    {
        if (kind == ATOMIC)  return x;
        M3 b = latbase(lat);
        return x[0] * b[0] + x[1] * b[1] + x[2] * b[2];
    }

    double volume() const  { return std::fabs(det(latbase(lat))); }

    /// symmetry images of site i modulo lattice, image of the first symop is
    /// the first.  Positions are Cartesian.
    std::vector<Site> images(int i, double eps=5e-5) const
    {
        const Atom& a = atoms[i];
        std::vector<Site> rv;
        if (kind != CRYSTAL || ops.empty())
        {
            Site s = { i, cart(a.xyz), a.U, a.aniso };
            rv.push_back(s);
            return rv;
        }
        M3 b = latbase(lat);
        M3 bi = inv(b);
        std::vector<V3> fr;
        for (auto& op : ops)
        {
            V3 x = mul(op.R, a.xyz) + op.t;
            bool dup = false;
            for (auto& y : fr)
            {
                V3 d = x - y;
                for (int k = 0; k < 3; ++k)  d[k] -= std::round(d[k]);
                V3 dc = d[0] * b[0] + d[1] * b[1] + d[2] * b[2];
                dup = dup || norm(dc) <= eps;
            }
            if (dup)  continue;
            fr.push_back(x);
            // Cartesian rotation:  r = x * b,  x' = R x
            M3 Rc = mul(tr(b), mul(op.R, tr(bi)));
            Site s = { i, cart(x), mul(Rc, mul(a.U, tr(Rc))), a.aniso };
            rv.push_back(s);
        }
        return rv;
    }

    int mult(int i) const  { return images(i).size(); }

    double totalocc() const
    {
        double rv = 0;
        for (size_t i = 0; i < atoms.size(); ++i)
            rv += atoms[i].occ * mult(i);
        return rv;
    }

    /// all directed pairs with first atom at (the first image of) site i and
    /// the second one at any image of site j, rmin - eps <= d <= rmax + eps
    std::vector<Pair> pairs(int i, int j, double rmin, double rmax) const
    {
        std::vector<Pair> rv;
        Site s0 = images(i)[0];
        std::vector<Site> im = images(j);
        M3 b = latbase(lat);
        int n[3] = {0, 0, 0};
        V3 mxv = v3(0, 0, 0);
        if (kind != ATOMIC)
        {
            // distances between lattice planes
            M3 bi = inv(b);
            for (auto& s1 : im)
            {
                V3 dc = s1.r - s0.r;
                for (int k = 0; k < 3; ++k)
                {
                    V3 rec = v3(bi[0][k], bi[1][k], bi[2][k]);
                    double f = std::fabs(dot(dc, rec));
                    int nn = int(std::ceil(rmax * norm(rec) + f)) + 1;
                    n[k] = std::max(n[k], nn);
                }
            }
        }
        for (auto& s1 : im)
        {
            for (int h = -n[0]; h <= n[0]; ++h)
            for (int k = -n[1]; k <= n[1]; ++k)
            for (int l = -n[2]; l <= n[2]; ++l)
            {
                V3 r = s1.r - s0.r;
                if (kind != ATOMIC)
                {
                    r = r + (double(h) * b[0] + double(k) * b[1] +
                            double(l) * b[2]);
                }
                double d = norm(r);
                if (d < 1e-7 || d < rmin || d > rmax)  continue;
                Pair p = { i, j, r, d, s0.U, s1.U, s0.aniso, s1.aniso };
                rv.push_back(p);
            }
        }
        (void) mxv;
        return rv;
    }
};

inline double msd1(const M3& U, const V3& s, bool aniso)
{
    if (!aniso)  return U[0][0];
    V3 n = (1 / norm(s)) * s;
    return dot(n, mul(U, n));
}
inline double msd(const Pair& p)
{
    return msd1(p.U0, p.r01, p.aniso0) + msd1(p.U1, p.r01, p.aniso1);
}

// conversion to library objects ----------------------------------------------

typedef diffpy::srreal::Atom LAtom;

inline LAtom latom(const Struct& s, const Atom& a)
{
    LAtom rv;
    rv.atomtype = a.type;
    V3 c = s.cart(a.xyz);
    for (int i = 0; i < 3; ++i)
    {
        rv.xyz_cartn[i] = c[i];
        for (int j = 0; j < 3; ++j)  rv.uij_cartn(i, j) = a.U[i][j];
    }
    rv.occupancy = a.occ;
    rv.anisotropy = a.aniso;
    return rv;
}

inline boost::shared_ptr<diffpy::srreal::AtomicStructureAdapter>
build(const Struct& s)
{
    using namespace diffpy::srreal;
    boost::shared_ptr<AtomicStructureAdapter> rv;
    const std::array<double, 6>& l = s.lat;
    if (s.kind == ATOMIC)  rv.reset(new AtomicStructureAdapter);
    if (s.kind == PERIODIC)
    {
        boost::shared_ptr<PeriodicStructureAdapter>
            p(new PeriodicStructureAdapter);
        p->setLatPar(l[0], l[1], l[2], l[3], l[4], l[5]);
        rv = p;
    }
    if (s.kind == CRYSTAL)
    {
        boost::shared_ptr<CrystalStructureAdapter>
            p(new CrystalStructureAdapter);
        p->setLatPar(l[0], l[1], l[2], l[3], l[4], l[5]);
        for (auto& op : s.ops)
        {
            R3::Matrix R;
            R3::Vector t;
            for (int i = 0; i < 3; ++i)
            {
                t[i] = op.t[i];
                for (int j = 0; j < 3; ++j)  R(i, j) = op.R[i][j];
            }
            p->addSymOp(R, t);
        }
        rv = p;
    }
    for (auto& a : s.atoms)  rv->append(latom(s, a));
    return rv;
}

// symmetry groups ------------------------------------------------------------

inline SymOp op(const M3& R, const V3& t=v3(0, 0, 0))
{
    SymOp o = { R, t };
    return o;
}
inline std::vector<SymOp> groupP1()
{ return std::vector<SymOp>(1, op(iso(1))); }
inline std::vector<SymOp> groupPm1()
{
    std::vector<SymOp> g = groupP1();
    g.push_back(op(iso(-1)));
    return g;
}
/// two-fold screw axis along b with inversion, P 21/c
inline std::vector<SymOp> groupP21c()
{
    std::vector<SymOp> g = groupPm1();
    g.push_back(op(diag(-1, 1, -1), v3(0, 0.5, 0.5)));
    g.push_back(op(diag(1, -1, 1), v3(0, 0.5, 0.5)));
    return g;
}
inline std::vector<SymOp> groupPmmm()
{
    std::vector<SymOp> g;
    for (int sx = 1; sx >= -1; sx -= 2)
        for (int sy = 1; sy >= -1; sy -= 2)
            for (int sz = 1; sz >= -1; sz -= 2)
                g.push_back(op(diag(sx, sy, sz)));
    return g;
}
/// four-fold axis along c, P 4
inline std::vector<SymOp> groupP4()
{
    std::vector<SymOp> g = groupP1();
    g.push_back(op(m3(0, -1, 0, 1, 0, 0, 0, 0, 1)));
    g.push_back(op(m3(-1, 0, 0, 0, -1, 0, 0, 0, 1)));
    g.push_back(op(m3(0, 1, 0, -1, 0, 0, 0, 0, 1)));
    return g;
}
/// three-fold axis along c in hexagonal lattice, P 3
inline std::vector<SymOp> groupP3()
{
    std::vector<SymOp> g = groupP1();
    g.push_back(op(m3(0, -1, 0, 1, -1, 0, 0, 0, 1)));
    g.push_back(op(m3(-1, 1, 0, -1, 0, 0, 0, 0, 1)));
    return g;
}
/// F centering
inline std::vector<SymOp> groupF()
{
    std::vector<SymOp> g = groupP1();
    g.push_back(op(iso(1), v3(0, 0.5, 0.5)));
    g.push_back(op(iso(1), v3(0.5, 0, 0.5)));
    g.push_back(op(iso(1), v3(0.5, 0.5, 0)));
    return g;
}
/// body centering combined with P4
inline std::vector<SymOp> groupI4()
{
    std::vector<SymOp> g = groupP4();
    size_t n = g.size();
    for (size_t i = 0; i < n; ++i)
    {
        SymOp o = g[i];
        o.t = o.t + v3(0.5, 0.5, 0.5);
        g.push_back(o);
    }
    return g;
}

}   // namespace ref

#endif  // REF_HPP_INCLUDED
