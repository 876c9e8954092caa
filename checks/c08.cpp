// C08: structure difference describes the exact change.
#include <limits>
#include "calcs.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>

using namespace mc;

const Info mcinfo = {
    "C08", "model_checking",
    "(1) All pairs of atoms from the product of attribute values: equality, "
        "ordering and hash are consistent.  (2) All pairs of lists of atoms "
        "up to the length bound over 4 atoms that differ in one attribute.  "
        "(3) All sequences of edits (change of every attribute, erase, insert, "
        "swap at every position) of lists of 1 to 7 atoms with and without "
        "duplicates.  (4) All pairs of environments: kind, lattice, symmetry "
        "operations, symmetry precision and nesting of wrappers, with equal, "
        "changed and permuted atoms.  (5) Removal, move and repetition of "
        "every block of lists of 9 and 12 atoms.  The reported difference is compared "
        "with multiset differences of the described structures, and bonds "
        "from a fast update are compared with bonds from a new calculator.  "
        "An outcome is the difference.",
    "lists of up to 4 atoms, 3 edits (2 for periodic structures and for 7 "
        "atoms)",
    "lists of up to 4 atoms, 4 edits of up to 4 atoms in molecules and 3 "
        "edits of other structures",
    {},
    60
};

namespace {

typedef std::vector<int> Ints;

/// the described atom; x is in Cartesian coordinates
struct MAtom
{
    std::string type;
    double x[3];
    double occ;
    bool aniso;
    double u[6];

    bool operator==(const MAtom& b) const
    {
        for (int i = 0; i < 3; ++i)  if (x[i] != b.x[i])  return false;
        for (int i = 0; i < 6; ++i)  if (u[i] != b.u[i])  return false;
        return type == b.type && occ == b.occ && aniso == b.aniso;
    }
};

Atom latom(const MAtom& m)
{
    Atom a;
    a.atomtype = m.type;
    for (int i = 0; i < 3; ++i)
    {
        a.xyz_cartn[i] = m.x[i];
        a.uij_cartn(i, i) = m.u[i];
    }
    a.uij_cartn(0, 1) = a.uij_cartn(1, 0) = m.u[3];
    a.uij_cartn(0, 2) = a.uij_cartn(2, 0) = m.u[4];
    a.uij_cartn(1, 2) = a.uij_cartn(2, 1) = m.u[5];
    a.occupancy = m.occ;
    a.anisotropy = m.aniso;
    return a;
}

MAtom matom(const char* t, double x, double y, double z, double occ=1,
        double u=0.004)
{
    MAtom m = { t, { x, y, z }, occ, false, { u, u, u, 0, 0, 0 } };
    return m;
}

typedef std::vector<MAtom> MList;

/// environment of atoms
struct Env
{
    int kind;       // 0 molecule, 1 periodic, 2 crystal
    int lat;
    int ops;
    int prec;
    int wrap;       // 0 none, 1 nometa, 2 nosym, 3 nometa(nosym), 4 nosym(nometa)

    bool nosym() const  { return wrap >= 2; }

    /// environments where equal atoms have equal pairs
    bool equivalent(const Env& b) const
    {
        if (nosym() != b.nosym())  return false;
        if (nosym())  return true;
        return kind == b.kind && lat == b.lat && ops == b.ops && prec == b.prec;
    }

    bool operator==(const Env& b) const
    {
        return kind == b.kind && lat == b.lat && ops == b.ops &&
            prec == b.prec && wrap == b.wrap;
    }

    std::string name() const
    {
        return cat("k", kind, "l", lat, "o", ops, "p", prec, "w", wrap);
    }
};

R3::Matrix rot(double s)
{
    R3::Matrix m = R3::identity();
    for (int i = 0; i < 3; ++i)  m(i, i) = s;
    return m;
}

StructureAdapterPtr wrap(StructureAdapterPtr s, int w)
{
    if (w == 1)  return nometa(s);
    if (w == 2)  return nosymmetry(s);
    if (w == 3)  return nometa(nosymmetry(s));
    if (w == 4)  return nosymmetry(nometa(s));
    return s;
}

SPtr plain(const Env& e, const MList& ms)
{
    SPtr rv;
    if (e.kind == 0)  rv.reset(new AtomicStructureAdapter);
    if (e.kind == 1)  rv.reset(new PeriodicStructureAdapter);
    if (e.kind == 2)  rv.reset(new CrystalStructureAdapter);
    auto p = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(rv);
    if (p && e.lat == 0)  p->setLatPar(3.5, 4, 4.5, 90, 90, 90);
    if (p && e.lat == 1)  p->setLatPar(3.5, 4, 4.5, 90, 90, 90.0001);
    // the same volume with other axes
    if (p && e.lat == 2)  p->setLatPar(4, 3.5, 4.5, 90, 90, 90);
    auto c = boost::dynamic_pointer_cast<CrystalStructureAdapter>(rv);
    if (c && e.ops >= 1)  c->addSymOp(rot(1), R3::zerovector);
    if (c && e.ops == 2)  c->addSymOp(rot(-1), R3::zerovector);
    if (c && e.ops == 3)  c->addSymOp(rot(-1), R3::Vector(0, 0, 0.5));
    if (c && e.prec)  c->setSymmetryPrecision(1e-3);
    for (auto& m : ms)  rv->append(latom(m));
    return rv;
}

std::string lst(const Ints& v)
{
    std::string rv = "[";
    for (int i : v)  rv += cat(" ", i);
    return rv + " ]";
}

void checkdiff(Ctx& ctx, const Env& e0, const MList& m0, const Env& e1,
        const MList& m1, const std::string& what, bool bonds)
{
    SPtr p0 = plain(e0, m0), p1 = plain(e1, m1);
    StructureAdapterPtr s0 = wrap(p0, e0.wrap), s1 = wrap(p1, e1.wrap);
    StructureDifference sd = s0->diff(s1);
    typedef StructureDifference::Method M;
    std::string d = cat(what, " ", e0.name(), "->", e1.name(), " pop0=",
            lst(Ints(sd.pop0.begin(), sd.pop0.end())), " add1=",
            lst(Ints(sd.add1.begin(), sd.add1.end())), " method=",
            int(sd.diffmethod));
    ctx.transition();
    require(sd.stru0 == s0 && sd.stru1 == s1, "pointers", d,
            " does not refer to the compared structures");
    const int n0 = m0.size(), n1 = m1.size();
    std::vector<bool> popped(n0, false), added(n1, false);
    for (int i : sd.pop0)
    {
        require(0 <= i && i < n0 && !popped[i], "indices", d);
        popped[i] = true;
    }
    for (int i : sd.add1)
    {
        require(0 <= i && i < n1 && !added[i], "indices", d);
        added[i] = true;
    }
    require(std::is_sorted(sd.pop0.begin(), sd.pop0.end()) &&
            std::is_sorted(sd.add1.begin(), sd.add1.end()), "indices", d,
            " indices are not sorted");
    // unchanged atoms are the same
    std::vector<int> rest0, rest1;
    for (int i = 0; i < n0; ++i)  if (!popped[i])  rest0.push_back(i);
    for (int i = 0; i < n1; ++i)  if (!added[i])  rest1.push_back(i);
    require(rest0.size() == rest1.size(), "inexact", d,
            " different numbers of unchanged atoms");
    std::vector<bool> used(rest1.size(), false);
    for (int i : rest0)
    {
        bool found = false;
        for (size_t k = 0; k < rest1.size() && !found; ++k)
            if (!used[k] && m0[i] == m1[rest1[k]])  used[k] = found = true;
        require(found, "inexact", d, " atom ", i,
                " is unchanged, but it is not in the new structure");
    }
    // the number of atoms common to both
    int common = 0, sameindex = 0;
    std::vector<bool> u1(n1, false);
    for (int i = 0; i < n0; ++i)  for (int j = 0; j < n1; ++j)
    {
        if (u1[j] || !(m0[i] == m1[j]))  continue;
        u1[j] = true;
        ++common;
        break;
    }
    for (int i = 0; i < std::min(n0, n1); ++i)  sameindex += (m0[i] == m1[i]);
    if (sd.diffmethod == M::SIDEBYSIDE)
    {
        require(int(rest0.size()) == sameindex, "inexact", d,
                " lists an atom with no change");
        require(rest0 == rest1, "sidebyside", d,
                " unchanged atoms have other indices");
    }
    if (sd.diffmethod == M::SORTED)
    {
        require(int(rest0.size()) == common, "inexact", d,
                " lists an atom with no change");
    }
    if (sd.diffmethod == M::NONE)
    {
        require(rest0.empty() && rest1.empty(), "inexact", d,
                " unchanged atoms without any comparison");
    }
    if (e0 == e1)
    {
        require(sd.diffmethod != M::NONE, "inexact", d,
                " complete change is reported for the same environment");
    }
    // number of pairs in fast update must be lower
    const double k = rest0.size();
    if (sd.allowsfastupdate())
    {
        require(sd.diffmethod != M::NONE, "fast", d, " allows fast update");
        require(e0.equivalent(e1), "fast", d,
                " allows fast update for a different kind of structure");
        require(double(n0) * n0 + double(n1) * n1 - 2 * k * k <
                double(n1) * n1, "fast", d,
                " fast update takes more work than a complete one");
    }
    if (e0.equivalent(e1))  {}
    else require(sd.diffmethod == M::NONE, "inexact", d,
            " is not a complete change for a different kind of structure");
    if (sd.pop0.empty() && sd.add1.empty() && n0 + n1 > 0)
    {
        require(n0 == n1 && common == n0 && e0.equivalent(e1), "nodiff", d,
                " no difference of different structures");
    }
    // comparison operators
    if (e0.kind == e1.kind)
    {
        bool samelist = (n0 == n1);
        for (int i = 0; samelist && i < n0; ++i)  samelist = (m0[i] == m1[i]);
        Env x0 = e0, x1 = e1;
        x0.wrap = x1.wrap = 0;
        bool same = samelist && (x0 == x1);
        bool eq = false, ne = false;
        if (e0.kind == 0)  { eq = (*p0 == *p1); ne = (*p0 != *p1); }
        if (e0.kind == 1)
        {
            auto& a = dynamic_cast<PeriodicStructureAdapter&>(*p0);
            auto& b = dynamic_cast<PeriodicStructureAdapter&>(*p1);
            eq = (a == b);
            ne = (a != b);
        }
        if (e0.kind == 2)
        {
            auto& a = dynamic_cast<CrystalStructureAdapter&>(*p0);
            auto& b = dynamic_cast<CrystalStructureAdapter&>(*p1);
            eq = (a == b);
            ne = (a != b);
        }
        require(eq == same && ne != same, "equality", d,
                " equality of structures is ", eq);
    }
    // difference in the other direction
    StructureDifference sb = s1->diff(s0);
    require(sb.diffmethod != M::SORTED || sd.diffmethod != M::SORTED ||
            (sb.pop0.size() == sd.add1.size() &&
             sb.add1.size() == sd.pop0.size()), "inexact", d,
            " reversed difference has other size");
    if (bonds)
    {
        BondCalculator bc, fresh;
        bc.setRmax(2.5);
        fresh.setRmax(2.5);
        fresh.setEvaluatorType(BASIC);
        bc.eval(s0);
        bc.eval(s1);
        fresh.eval(s1);
        require(bc.distances() == fresh.distances() &&
                bc.sites0() == fresh.sites0() &&
                bc.sites1() == fresh.sites1(), "bonds", d,
                " bonds after fast update differ");
        ctx.evaluation(2);
    }
    ctx.trace();
    uint64_t h = hashvec(sd.pop0, hashvec(sd.add1, int(sd.diffmethod)));
    ctx.outcome(h);
    ctx.state(mix(h, mix(mix(n0, n1), hashstr(e0.name() + e1.name()))));
}

const std::vector<Env>& basicenvs()
{
    static std::vector<Env> rv = { {0,0,0,0,0}, {1,0,0,0,0}, {2,0,2,0,0} };
    return rv;
}

void atoms(Ctx& ctx)
{
    std::vector<MAtom> ms;
    for (auto t : { "C", "O", "" })
    for (double x : { 0.0, -0.0, 0.5 })
    for (double y : { 0.0, -0.25 })
    for (double z : { 0.0, 0.5 })
    for (double o : { 1.0, 0.5 })
    for (int an = 0; an < 2; ++an)
    for (int u = 0; u < 7; ++u)
    {
        MAtom m = matom(t, x, y, z, o);
        m.aniso = an;
        if (u)  m.u[u - 1] += 0.001;
        ms.push_back(m);
    }
    std::vector<Atom> as;
    for (auto& m : ms)  as.push_back(latom(m));
    const int n = ms.size();
    for (int i = 0; i < n; ++i)
    ctx.run(cat("C08 atom ", i), [&]()
    {
        for (int j = 0; j < n; ++j)
        {
            bool same = (ms[i] == ms[j]);
            const Atom &a = as[i], &b = as[j];
            require((a == b) == same && (a != b) != same, "atomequal", i, ",",
                    j, " equality is not ", same);
            int sum = int(a < b) + int(b < a) + int(same);
            require(sum == 1, "atomorder", i, ",", j, " is not ordered");
            require((a > b) == (b < a) && (a <= b) == !(b < a) &&
                    (a >= b) == !(a < b), "atomorder", i, ",", j,
                    " inconsistent comparison");
            if (same)  require(hash_value(a) == hash_value(b), "atomhash",
                    i, ",", j, " equal atoms have other hash");
            // transitive
            if (a < b)  for (int k = 0; k < n; k += 7)
            {
                if (b < as[k])  require(a < as[k], "atomorder", i, ",", j,
                        ",", k, " is not transitive");
            }
            ctx.transition();
        }
        ctx.trace();
        ctx.outcome(hash_value(as[i]));
    });
}

void lists(Ctx& ctx, int maxlen)
{
    std::vector<MAtom> al = { matom("C", 0.3, 0.5, 1), matom("C", 0.3, 0.5, 1.75),
        matom("O", 0.3, 0.5, 1), matom("C", 0.3, 0.5, 1, 0.5) };
    std::vector<MList> ls;
    for (int len = 0; len <= maxlen; ++len)
    {
        long tot = 1;
        for (int i = 0; i < len; ++i)  tot *= al.size();
        for (long code = 0; code < tot; ++code)
        {
            MList m;
            long c = code;
            for (int i = 0; i < len; ++i, c /= al.size())
                m.push_back(al[c % al.size()]);
            ls.push_back(m);
        }
    }
    for (auto& e : basicenvs())
    for (size_t i = 0; i < ls.size(); ++i)
    ctx.run(cat("C08 list ", e.name(), " ", i), [&]()
    {
        for (size_t j = 0; j < ls.size(); ++j)
            checkdiff(ctx, e, ls[i], e, ls[j], cat("lists ", i, ",", j), false);
    });
}

struct LEdit
{
    std::string name;
    std::function<void(MList&)> apply;
};

std::vector<LEdit> listedits(int n)
{
    std::vector<LEdit> rv;
    auto add = [&](const std::string& s, std::function<void(MList&)> f)
    {
        LEdit e = { s, f };
        rv.push_back(e);
    };
    for (int i = 0; i < n; ++i)
    {
        auto at = [i](MList& m) -> MAtom& { return m[i % m.size()]; };
        auto ifany = [](std::function<void(MList&)> f)
        {
            return [f](MList& m) { if (!m.empty())  f(m); };
        };
        add(cat("mv", i), ifany([at](MList& m) { at(m).x[2] += 0.125; }));
        if (i < 4)
        {
            add(cat("ty", i), ifany([at](MList& m) { at(m).type = "O"; }));
            add(cat("oc", i), ifany([at](MList& m) { at(m).occ = 0.5; }));
            add(cat("an", i), ifany([at](MList& m) { at(m).aniso = true; }));
            add(cat("uu", i), ifany([at](MList& m) { at(m).u[2] += 0.001; }));
        }
        add(cat("er", i), ifany([i](MList& m) {
                    m.erase(m.begin() + i % m.size()); }));
        add(cat("in", i), [i](MList& m) {
                m.insert(m.begin() + i % (m.size() + 1),
                        matom("N", 1.1, 1.2, 0.125 * i)); });
        add(cat("du", i), ifany([i](MList& m) {
                    MAtom a = m[i % m.size()];
                    m.insert(m.begin(), a); }));
        add(cat("sw", i), ifany([i](MList& m) {
                    std::swap(m[i % m.size()], m[(i + 1) % m.size()]); }));
    }
    add("ap", [](MList& m) { m.push_back(matom("N", 1.1, 1.2, 0.1)); });
    add("rot", [](MList& m) { if (m.size())
            std::rotate(m.begin(), m.begin() + 1, m.end()); });
    add("rev", [](MList& m) { std::reverse(m.begin(), m.end()); });
    add("same", [](MList&) { });
    return rv;
}

void editsequences(Ctx& ctx, int depth)
{
    for (int ie = 0; ie < 3; ++ie)
    for (int n : { 1, 4, 5, 7 })
    for (int dup = 0; dup < 2; ++dup)
    {
        const Env& e = basicenvs()[ie];
        MList base;
        for (int i = 0; i < n; ++i)
        {
            base.push_back(matom("C", 0.25 * i, 0.5 + 0.1 * ((i * i) % 5), 1));
        }
        if (dup)  for (int i = 2; i < n; i += 2)  base[i] = base[0];
        if (dup && n < 4)  continue;
        const std::vector<LEdit> es = listedits(n);
        const int ne = es.size();
        int dp = ctx.thorough ? (n <= 4 && !ie ? depth + 1 : depth) :
            (ie || n == 7) ? depth - 1 : depth;
        long tot = 1;
        for (int i = 0; i < dp - 1; ++i)  tot *= ne;
        for (long code = 0; code < tot; ++code)
        {
            std::string nm;
            long c = code;
            for (int i = 0; i < dp - 1; ++i, c /= ne)
                nm += " " + es[c % ne].name;
            ctx.run(cat("C08 edit ", e.name(), " n=", n, " dup=", dup, nm),
                    [&]()
            {
                MList m = base;
                long c = code;
                for (int i = 0; i < dp - 1; ++i, c /= ne)
                    es[c % ne].apply(m);
                for (auto& ed : es)
                {
                    MList m1 = m;
                    ed.apply(m1);
                    // differences of the last step and of all steps
                    std::string w = cat(nm, " ", ed.name);
                    checkdiff(ctx, e, m, e, m1, "last of" + w, true);
                    checkdiff(ctx, e, base, e, m1, "all of" + w, false);
                }
            });
        }
    }
}

void environments(Ctx& ctx)
{
    std::vector<Env> es;
    for (int k = 0; k < 3; ++k)
    for (int l = 0; l < (k ? 3 : 1); ++l)
    for (int o = 0; o < (k == 2 ? 4 : 1); ++o)
    for (int p = 0; p < (k == 2 ? 2 : 1); ++p)
    for (int w = 0; w < 5; ++w)
    {
        Env e = { k, l, o, p, w };
        es.push_back(e);
    }
    MList base;
    for (int i = 0; i < 5; ++i)
        base.push_back(matom(i % 2 ? "C" : "O", 0.25 * i, 0.5 * (i % 3), 1));
    std::vector<MList> ms(4, base);
    ms[1][3].x[0] += 0.2;
    std::reverse(ms[2].begin(), ms[2].end());
    ms[3].clear();
    for (auto& e0 : es)  for (auto& e1 : es)
    ctx.run(cat("C08 env ", e0.name(), " ", e1.name()), [&]()
    {
        for (size_t k = 0; k < ms.size(); ++k)
            checkdiff(ctx, e0, base, e1, ms[k], cat("env list ", k), true);
        checkdiff(ctx, e0, ms[3], e1, ms[0], "env from empty", true);
        // wrappers of one structure and difference to itself
        if (!(e0 == e1))  return;
        SPtr p = plain(e0, base);
        StructureAdapterPtr a = wrap(p, e0.wrap), b = wrap(p, e0.wrap);
        for (auto& q : { a, b, a->clone() })
        {
            StructureDifference sd = a->diff(q);
            require(sd.pop0.empty() && sd.add1.empty() &&
                    sd.allowsfastupdate() && sd.stru0 == a && sd.stru1 == q,
                    "nodiff", e0.name(), " difference to itself");
        }
        // no structure and empty structure
        StructureAdapterPtr none;
        for (auto& q : { none, emptyStructureAdapter() })
        {
            StructureDifference sd = a->diff(q);
            require(int(sd.pop0.size()) == a->countSites() &&
                    sd.add1.empty() && !sd.allowsfastupdate(), "inexact",
                    e0.name(), " difference to nothing");
        }
        StructureDifference sd = emptyStructureAdapter()->diff(a);
        require(sd.pop0.empty() && int(sd.add1.size()) == a->countSites() &&
                !sd.allowsfastupdate(), "inexact", e0.name(),
                " difference of nothing");
    });
}

/// removal, move and repetition of any block of longer lists
void blocks(Ctx& ctx)
{
    for (int ie = 0; ie < 3; ++ie)
    for (int n : { 9, 12 })
    for (int dup = 0; dup < 3; ++dup)
    for (int lo = 0; lo < n; ++lo)
    for (int len = 1; lo + len <= n; ++len)
    ctx.run(cat("C08 block ", ie, " n=", n, " dup=", dup, " ", lo, "+", len),
            [&]()
    {
        const Env& e = basicenvs()[ie];
        MList base;
        for (int i = 0; i < n; ++i)
        {
            int k = dup == 0 ? i : dup == 1 ? i % 4 : (i * i) % 7;
            base.push_back(matom(k % 2 ? "C" : "O", 0.25 * k,
                    0.5 + 0.1 * ((k * k) % 5), 1));
        }
        MList cut = base, blk(base.begin() + lo, base.begin() + lo + len);
        cut.erase(cut.begin() + lo, cut.begin() + lo + len);
        MList front = cut, back = cut, plus = cut, twice = base;
        front.insert(front.begin(), blk.begin(), blk.end());
        back.insert(back.end(), blk.begin(), blk.end());
        plus.insert(plus.begin() + cut.size() / 2, matom("N", 1.1, 1.2, 0.1));
        twice.insert(twice.end(), blk.begin(), blk.end());
        int k = 0;
        for (auto& m : { cut, front, back, plus, twice, blk })
        {
            checkdiff(ctx, e, base, e, m, cat("block ", k), true);
            checkdiff(ctx, e, m, e, base, cat("block back ", k++), true);
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    atoms(ctx);
    blocks(ctx);
    environments(ctx);
    lists(ctx, 4);
    editsequences(ctx, 3);
}
