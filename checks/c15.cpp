// C15: lookup tables honor standard data, overrides and fallbacks.
#include "mc.hpp"
#include "tables.hpp"
#include <diffpy/runtimepath.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>

using namespace mc;
using namespace diffpy::srreal;

const Info mcinfo = {
    "C15", "model_checking",
    "Standard lookups: all symbols of all data files, all elements with all "
        "charge suffixes, isotope prefixes and invalid symbols, compared with "
        "an independent reader of the data files.  Overrides: every sequence "
        "of set, reset and clone operations up to the depth on two tables of "
        "each type (scattering factors, radii, bond valence parameters) "
        "followed by lookups of all symbols; the oracle is a map of "
        "overrides per table.  A state is the content of the two models, an "
        "outcome is a list of lookup results.",
    "depth 5 (4 for bond valence parameters)",
    "depth 6 (5 for bond valence parameters)",
    {"charge suffixes have the form [digit](+|-)"},
    60
};

namespace {

std::string rtfile(const std::string& f)
{
    return tables::readall(diffpy::runtimepath::datapath(f));
}

const double ERR = 1e300;       // marks an error

const tables::Xray& xray()
{
    static auto rv = tables::xray(tables::lines(rtfile("f0_WaasKirf.dat")));
    require(rv.size() > 200, "harness", "xray");
    return rv;
}

const tables::Values& electrons()
{
    static auto rv = tables::electrons(tables::lines(rtfile("ionlist.dat")));
    require(rv.size() > 400, "harness", "electrons");
    return rv;
}

const tables::Values& neutrons()
{
    static auto rv = tables::neutrons(tables::lines(rtfile("nsftable.dat")));
    require(rv.size() > 300, "harness", "neutrons");
    return rv;
}

struct Symbol
{
    std::string prefix, element, suffix;
    int charge;
    std::string str() const  { return prefix + element + suffix; }
};

using tables::xrayvalue;

/// reference for the standard lookup
double standard(const std::string& tp, const Symbol& s, double q)
{
    auto& x = xray();
    if (tp == "xray" || tp == "electron")
    {
        auto it = x.find(s.str());
        if (it == x.end() && s.charge == 0)  it = x.find(s.element);
        if (it == x.end() && std::abs(s.charge) == 1)
            it = x.find(s.element + (s.charge > 0 ? "1+" : "1-"));
        if (it == x.end())  return ERR;
        if (tp == "xray")  return xrayvalue(it->second, q);
        if (q == 0)  return std::numeric_limits<double>::max();
        double z = std::round(xrayvalue(it->second, 0));
        double stol = q / (4 * M_PI);
        return 0.023934 * (z - xrayvalue(it->second, q)) / (stol * stol);
    }
    if (tp == "electronnumber")
    {
        auto& e = electrons();
        auto it = e.find(s.str());
        if (it == e.end())
            it = e.find(s.element + (s.charge == 0 ? "" : cat(
                            std::abs(s.charge), s.charge > 0 ? "+" : "-")));
        return it == e.end() ? ERR : it->second;
    }
    auto& n = neutrons();
    auto it = n.find(s.str());
    if (it == n.end())  it = n.find(s.prefix + s.element);
    return it == n.end() ? ERR : it->second;
}

double safelookup(const ScatteringFactorTable& t, const std::string& s, double q)
{
    try  { return t.lookup(s, q); }
    catch (std::invalid_argument&)  { return ERR; }
}

bool same(double a, double b)
{
    if (a == ERR || b == ERR)  return a == b;
    return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b));
}

const std::vector<std::string> tabletypes = {
    "xray", "electron", "neutron", "electronnumber" };

std::set<std::string> elements()
{
    std::set<std::string> rv;
    auto add = [&](const std::string& k)
    {
        std::string s;
        for (char c : k)  if (isalpha(c))  s += c;
        rv.insert(s);
    };
    for (auto& kv : xray())  add(kv.first);
    for (auto& kv : electrons())  add(kv.first);
    for (auto& kv : neutrons())  add(kv.first);
    return rv;
}

void symbols(Ctx& ctx)
{
    const std::vector<std::string> prefixes = { "", "1-", "2-", "12-", "3-",
        "235-" };
    for (auto& tp : tabletypes)
    {
        // exactly the symbols of data files, lists of isotopes
        ctx.run(cat("C15 all symbols ", tp), [&]()
        {
            auto t = ScatteringFactorTable::createByType(tp);
            std::vector<std::string> ss;
            if (tp == "electronnumber")
                for (auto& kv : electrons())  ss.push_back(kv.first);
            else if (tp == "neutron")
                for (auto& kv : neutrons())  ss.push_back(kv.first);
            else
                for (auto& kv : xray())  ss.push_back(kv.first);
            for (auto& s : ss)  for (double q : { 0.0, 0.7, 3.0, 25.0 })
            {
                Symbol b = { "", s, "", 99 };
                double v = safelookup(*t, s, q), v0 = standard(tp, b, q);
                require(v0 != ERR, "harness", s);
                require(same(v, v0), "standard", tp, " ", s, " q=", q, " is ",
                        v, " instead of ", v0);
                require(same(v, t->standardLookup(s, q)), "standard",
                        "standardLookup ", s);
                ctx.transition();
            }
            ctx.trace();
            ctx.outcome(ss.size());
        });
        for (auto& el : elements())
        ctx.run(cat("C15 symbol ", tp, " ", el), [&]()
        {
            auto t = ScatteringFactorTable::createByType(tp);
            for (auto& p : prefixes)  for (int c = -9; c <= 18; ++c)
            {
                Symbol s = { p, el, "", 0 };
                if (c == 9 || c == 10)
                {
                    s.charge = (c == 9) ? 1 : -1;
                    s.suffix = (c == 9) ? "+" : "-";
                }
                else if (c == 11)  { s.suffix = "0+"; s.charge = 0; }
                else if (c > 11)  continue;
                else if (c == -9)  continue;
                else if (c)
                {
                    s.charge = c;
                    s.suffix = cat(std::abs(c), c > 0 ? "+" : "-");
                }
                for (double q : { 0.0, 1.3 })
                {
                    double v = safelookup(*t, s.str(), q);
                    double v0 = standard(tp, s, q);
                    require(same(v, v0), "fallback", tp, " ", s.str(), " is ",
                            v, " instead of ", v0);
                    ctx.outcome(mix(hashstr(tp), hashdbl(v)));
                    ctx.transition();
                }
                require(atomBareSymbol(s.str()) == el, "bare", s.str());
                require(atomValence(s.str()) == s.charge, "valence", s.str());
                ctx.state(hashstr(s.str() + tp));
            }
            for (auto& s : { el + "x", "x" + el, el + "9+", "?" + el,
                    std::string(), std::string(" "), el + "/" + el })
            {
                bool known = xray().count(s) || electrons().count(s) ||
                    neutrons().count(s);
                if (known)  continue;
                double v = safelookup(*t, s, 1.0);
                require(v == ERR, "unknown", tp, " symbol ", s, " gives ", v);
            }
            ctx.trace();
        });
    }
}

// overrides of scattering factors --------------------------------------------

struct Entry  { std::string src; double scale; };
typedef std::map<std::string, Entry> Custom;

void factors(Ctx& ctx, int depth)
{
    const int NOP = 14;
    for (auto& tp : tabletypes)
    for (int c0 = 0; c0 < NOP * NOP; ++c0)
    ctx.run(cat("C15 factors ", tp, " first=", c0), [&]()
    {
        auto lookup0 = [&](const std::string& s, double q)
        {
            Symbol b = { "", s, "", 99 };
            if (s == "H1+")  b = Symbol{ "", "H", "1+", 1 };
            return standard(tp, b, q);
        };
        int tot = 1;
        for (int i = 2; i < depth; ++i)  tot *= NOP;
        for (int code = 0; code < tot; ++code)
        {
            ScatteringFactorTablePtr t[2];
            Custom m[2];
            for (auto& x : t)  x = ScatteringFactorTable::createByType(tp);
            std::string w = tp;
            auto set = [&](int k, const std::string& a, const std::string& b)
            {
                t[k]->setCustomAs(a, b);
                m[k][a] = Entry{ b, 1.0 };
            };
            auto scaled = [&](int k, const std::string& a, const std::string& b,
                    double v, double q)
            {
                double f = lookup0(b, q);
                bool ok = f != ERR && f != 0, raised = false;
                try  { t[k]->setCustomAs(a, b, v, q); }
                catch (std::invalid_argument&)  { raised = true; }
                require(raised == !ok, "scale-error", w, " setCustomAs(", a,
                        ", ", b, ", ", v, ", ", q, ") raised=", raised);
                if (ok)  m[k][a] = Entry{ b, v / f };
            };
            for (int i = 0; i < depth; ++i)
            {
                int op = i == 0 ? c0 / NOP : i == 1 ? c0 % NOP : 0;
                if (i > 1)
                {
                    int c = code;
                    for (int j = 2; j < i; ++j)  c /= NOP;
                    op = c % NOP;
                }
                w += cat(" ", op);
                switch (op)
                {
                    case 0: set(0, "Na", "Cl"); break;
                    case 1: set(0, "Cl", "Na"); break;
                    case 2: set(1, "Na", "C"); break;
                    case 3: scaled(0, "X1", "Na", 2.5, 1.0); break;
                    case 4: scaled(0, "X1", "C", 0.0, 0.5); break;
                    case 5: scaled(0, "Na", "Na", 7.0, 2.0); break;
                    case 6: scaled(1, "X1", "H1+", 3.0, 1.0); break;
                    case 7: scaled(0, "C", "nosuch", 1.0, 1.0); break;
                    case 8: set(1, "C", "nosuch"); break;
                    case 9:
                        t[0]->resetCustom("Na");
                        m[0].erase("Na");
                        break;
                    case 10:
                        t[1]->resetCustom("C");
                        m[1].erase("C");
                        break;
                    case 11:
                        t[0]->resetAll();
                        m[0].clear();
                        break;
                    case 12:
                        t[1] = t[0]->clone();
                        m[1] = m[0];
                        break;
                    case 13: set(0, "X1", "Na"); break;
                }
                ctx.transition();
            }
            uint64_t h = hashstr(tp), ho = h;
            for (int k = 0; k < 2; ++k)
            {
                std::set<std::string> keys;
                for (auto& kv : m[k])
                {
                    keys.insert(kv.first);
                    h = mix(h, hashstr(kv.first + kv.second.src, k));
                    h = mix(h, hashdbl(kv.second.scale));
                }
                auto cs = t[k]->getCustomSymbols();
                require(std::set<std::string>(cs.begin(), cs.end()) == keys,
                        "custom-symbols", w, " table ", k);
                for (auto& s : { "Na", "Cl", "C", "X1", "O", "nosuch" })
                for (double q : { 0.0, 2.0 })
                {
                    double v = safelookup(*t[k], s, q), v0;
                    if (m[k].count(s))
                    {
                        v0 = lookup0(m[k][s].src, q);
                        if (v0 != ERR)  v0 *= m[k][s].scale;
                    }
                    else  v0 = lookup0(s, q);
                    require(same(v, v0), "override", w, " table ", k, " ", s,
                            " q=", q, " is ", v, " instead of ", v0);
                    ho = mix(ho, hashdbl(v));
                }
            }
            ctx.state(h);
            ctx.outcome(ho);
            ctx.trace();
        }
    });
}

// radii -----------------------------------------------------------------------

void radii(Ctx& ctx, int depth)
{
    const int NOP = 17;
    struct Str  { const char* s; bool ok; std::map<std::string, double> m; };
    const std::vector<Str> strs = {
        { "Na:1.5, Cl : 0.25,", true, { {"Na", 1.5}, {"Cl", 0.25} } },
        { "Na:1.5,Na:2e-1", true, { {"Na", 0.2} } },
        { "", true, { } },
        { "Cl:-0.5, Na:0", true, { {"Cl", -0.5}, {"Na", 0.0} } },
        { "Cl:1.25,Na", false, { } },
        { "Na:3;Cl:4", false, { } },
        { "Na:3 Cl:4", false, { } },
        { "Na:x", false, { } },
        { "Cl:", false, { } } };
    for (int c0 = 0; c0 < NOP * NOP; ++c0)
    ctx.run(cat("C15 radii first=", c0), [&]()
    {
        int tot = 1;
        for (int i = 2; i < depth; ++i)  tot *= NOP;
        for (int code = 0; code < tot; ++code)
        {
            AtomRadiiTablePtr t[2];
            std::map<std::string, double> m[2];
            double def[2] = { 0, 0 };
            for (auto& x : t)  x = AtomRadiiTable::createByType("constant");
            std::string w;
            for (int i = 0; i < depth; ++i)
            {
                int op = i == 0 ? c0 / NOP : i == 1 ? c0 % NOP : 0;
                if (i > 1)
                {
                    int c = code;
                    for (int j = 2; j < i; ++j)  c /= NOP;
                    op = c % NOP;
                }
                w += cat(" ", op);
                if (op < int(strs.size()))
                {
                    bool raised = false;
                    try  { t[0]->fromString(strs[op].s); }
                    catch (std::invalid_argument&)  { raised = true; }
                    require(raised == !strs[op].ok, "radii-string", w,
                            " string '", strs[op].s, "' raised=", raised);
                    for (auto& kv : strs[op].m)  m[0][kv.first] = kv.second;
                }
                else switch (op - strs.size())
                {
                    case 0:
                        t[0]->setCustom("Na", 0.75);
                        m[0]["Na"] = 0.75;
                        break;
                    case 1:
                        t[1]->setCustom("Cl", 0.5);
                        m[1]["Cl"] = 0.5;
                        break;
                    case 2: t[0]->resetCustom("Na"); m[0].erase("Na"); break;
                    case 3: t[1]->resetCustom("Cl"); m[1].erase("Cl"); break;
                    case 4: t[0]->resetAll(); m[0].clear(); break;
                    case 5:
                        dynamic_cast<ConstantRadiiTable&>(*t[0]).setDefault(1.1);
                        def[0] = 1.1;
                        break;
                    case 6:
                        t[1] = t[0]->clone();
                        m[1] = m[0];
                        def[1] = def[0];
                        break;
                    case 7:
                        // transfer by the string form
                        t[1]->fromString(t[0]->toString());
                        for (auto& kv : m[0])  m[1][kv.first] = kv.second;
                        break;
                }
                ctx.transition();
            }
            uint64_t h = 5;
            for (int k = 0; k < 2; ++k)
            {
                for (auto& s : { "Na", "Cl", "C", "" })
                {
                    double v = t[k]->lookup(s);
                    double v0 = m[k].count(s) ? m[k][s] : def[k];
                    require(v == v0, "radii", w, " table ", k, " radius of '",
                            s, "' is ", v, " instead of ", v0);
                    require(t[k]->standardLookup(s) == def[k], "radii-standard",
                            w, " table ", k);
                    h = mix(h, hashdbl(v));
                }
                auto& all = t[k]->getAllCustom();
                require(std::map<std::string, double>(all.begin(), all.end())
                        == m[k], "radii-custom", w, " table ", k);
                std::string s0;
                for (auto& kv : m[k])
                    s0 += cat(s0.empty() ? "" : "; ", kv.first, ":", kv.second);
                require(t[k]->toString("; ") == s0, "radii-tostring", w,
                        " table ", k, " is '", t[k]->toString("; "), "'");
                h = mix(h, m[k].size());
            }
            ctx.state(h);
            ctx.outcome(h);
            ctx.trace();
        }
    });
}

// bond valence parameters -----------------------------------------------------

using tables::Key;
using tables::BV;
using tables::bvkey;

const BV& bvstandard()
{
    static auto rv = tables::bondvalence(tables::lines(
                rtfile("bvparm2011sel.cif")));
    require(rv.size() > 1000, "harness", "bond valence parameters");
    return rv;
}

void checkbv(const BVParam& p, const BV& custom, const std::string& a, int va,
        const std::string& b, int vb, const std::string& w)
{
    Key k = bvkey(a, va, b, vb);
    std::pair<double, double> v(0, 0);
    bool found = false;
    auto search = [&](const BV& t, const Key& k)
    {
        if (found || !t.count(k))  return;
        v = t.at(k);
        found = true;
    };
    search(custom, k);
    search(bvstandard(), k);
    if (std::get<1>(k) > 0)
    {
        Key k9 = k;
        std::get<1>(k9) = 9;
        search(custom, k9);
        search(bvstandard(), k9);
    }
    require(p.mRo == v.first && p.mB == v.second, "bv", w, " lookup of ", a,
            va, " ", b, vb, " is ", p.mRo, ",", p.mB, " instead of ", v.first,
            ",", v.second);
    require(found == (p != BVParametersTable::none()), "bv-none", w,
            " lookup of ", a, va, " ", b, vb);
}

void bondvalence(Ctx& ctx, int depth)
{
    ctx.run("C15 bond valence standard", [&]()
    {
        BVParametersTable t;
        BV none;
        for (auto& kv : bvstandard())
        {
            const std::string &a = std::get<0>(kv.first),
                  &b = std::get<2>(kv.first);
            for (int dv = 0; dv < 12; ++dv)
            {
                int va = dv ? dv - 2 : std::get<1>(kv.first);
                int vb = std::get<3>(kv.first);
                checkbv(t.lookup(a, va, b, vb), none, a, va, b, vb, "");
                checkbv(t.lookup(b, vb, a, va), none, b, vb, a, va, "");
                auto sy = [](const std::string& s, int v)
                {
                    return v == 0 ? s : cat(s, std::abs(v), v > 0 ? "+" : "-");
                };
                if (va < 9)
                {
                    checkbv(t.lookup(sy(a, va), sy(b, vb)), none, a, va, b, vb,
                            "");
                    checkbv(t.lookup(sy(b, vb), sy(a, va)), none, a, va, b, vb,
                            "");
                }
                ctx.transition(4);
            }
        }
        require(t.getAll().size() == bvstandard().size(), "bv-all", "size ",
                t.getAll().size());
        ctx.outcome(t.getAll().size());
        ctx.trace();
    });
    const int NOP = 16;
    for (int c0 = 0; c0 < NOP; ++c0)
    for (int c1 = 0; c1 < NOP; ++c1)
    ctx.run(cat("C15 bond valence first=", c0, " ", c1), [&]()
    {
        int tot = 1;
        for (int i = 2; i < depth; ++i)  tot *= NOP;
        for (int code = 0; code < tot; ++code)
        {
            BVParametersTable t[2];
            BV m[2];
            std::map<std::string, int> val[2];
            std::string w;
            auto set = [&](int k, const std::string& a, int va,
                    const std::string& b, int vb, double ro, double bb)
            {
                t[k].setCustom(a, va, b, vb, ro, bb, "x");
                m[k][bvkey(a, va, b, vb)] = std::make_pair(ro, bb);
            };
            auto reset = [&](int k, const std::string& a, int va,
                    const std::string& b, int vb)
            {
                t[k].resetCustom(a, va, b, vb);
                m[k].erase(bvkey(a, va, b, vb));
            };
            auto valence = [&](int k, const std::string& s, int v)
            {
                t[k].setAtomValence(s, v);
                val[k][s] = v;
            };
            for (int i = 0, c = code; i < depth; ++i)
            {
                int op = i == 0 ? c0 : i == 1 ? c1 : c % NOP;
                if (i > 1)  c /= NOP;
                w += cat(" ", op);
                switch (op)
                {
                    case 0: set(0, "Na", 1, "Cl", -1, 2.5, 0.3); break;
                    case 1: set(0, "Cl", -1, "Na", 1, 2.75, 0.35); break;
                    case 2: set(1, "Na", 9, "Cl", -1, 1.5, 0.4); break;
                    case 3: set(0, "O", -2, "Na", 9, 1.25, 0.45); break;
                    case 4: set(0, "Q", 0, "P", 0, 1.125, 0.5); break;
                    case 5: set(0, "P", 0, "Q", 0, 3.125, 0.55); break;
                    case 6: reset(0, "Cl", -1, "Na", 1); break;
                    case 7: reset(0, "P", 0, "Q", 0); break;
                    case 8: reset(1, "Na", 9, "Cl", -1); break;
                    case 9: t[0].resetAll(); m[0].clear(); break;
                    case 10: valence(0, "Na", 1); break;
                    case 11: valence(0, "O2-", -1); break;
                    case 12: valence(0, "Cl", -1); break;
                    case 13: valence(1, "Na", 3); break;
                    case 14: t[0].resetAtomValences(); val[0].clear(); break;
                    case 15:
                        t[1] = t[0];
                        m[1] = m[0];
                        val[1] = val[0];
                        break;
                }
                ctx.transition();
            }
            uint64_t h = 3;
            const Symbol syms[] = { { "", "Na", "", 0 }, { "", "Na", "+", 1 },
                { "", "Na", "2+", 2 }, { "", "Cl", "", 0 }, { "", "Cl", "-", -1 },
                { "", "O", "2-", -2 }, { "", "O", "1-", -1 }, { "", "P", "", 0 },
                { "", "Q", "", 0 }, { "", "Ca", "2+", 2 } };
            for (int k = 0; k < 2; ++k)
            {
                int v[10];
                for (int i = 0; i < 10; ++i)
                {
                    v[i] = syms[i].charge;
                    if (val[k].count(syms[i].str()))  v[i] = val[k][syms[i].str()];
                    require(t[k].getAtomValence(syms[i].str()) == v[i],
                            "bv-valence", w, " table ", k, " valence of ",
                            syms[i].str());
                }
                for (int i = 0; i < 10; ++i)  for (int j = 0; j < 10; ++j)
                {
                    const BVParam& p = t[k].lookup(syms[i].str(), syms[j].str());
                    checkbv(p, m[k], syms[i].element, v[i], syms[j].element,
                            v[j], cat(w, " table ", k));
                    h = mix(h, hashdbl(p.mRo));
                }
                std::map<Key, std::pair<double, double> > c;
                for (auto& p : t[k].getAllCustom())
                    c[bvkey(p.matom0, p.mvalence0, p.matom1, p.mvalence1)] =
                        std::make_pair(p.mRo, p.mB);
                require(c == m[k] && t[k].getAllCustom().size() == c.size(),
                        "bv-custom", w, " table ", k);
            }
            ctx.state(h);
            ctx.outcome(h);
            ctx.trace();
        }
        BVParametersTable t;
        BV none;
        checkbv(t.lookup("Na", 1, "Cl", -1), none, "Na", 1, "Cl", -1, "fresh");
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    symbols(ctx);
    factors(ctx, ctx.thorough ? 6 : 5);
    radii(ctx, ctx.thorough ? 6 : 5);
    bondvalence(ctx, ctx.thorough ? 5 : 4);
}
