// Catalogue of small structures shared by the checks.
#ifndef STRUCTS_HPP_INCLUDED
#define STRUCTS_HPP_INCLUDED

#include "ref.hpp"

namespace ref {

struct Named
{
    std::string name;
    Struct s;
};

inline Struct mk(Kind kind, std::array<double, 6> lat,
        std::vector<Atom> atoms, std::vector<SymOp> ops={})
{
    Struct s;
    s.kind = kind;
    s.lat = lat;
    s.atoms = atoms;
    s.ops = ops;
    return s;
}

typedef std::array<double, 6> LP;
inline LP lp(double a, double b, double c, double al=90, double be=90,
        double ga=90)
{
    LP rv = {{a, b, c, al, be, ga}};
    return rv;
}

inline const M3& uaniso1()
{
    static M3 u = usym(0.004, 0.006, 0.009, 0.001, -0.0005, 0.0015);
    return u;
}
inline const M3& uaniso2()
{
    static M3 u = usym(0.012, 0.003, 0.005, -0.001, 0.002, 0.0005);
    return u;
}

/// structures for pair enumeration
inline std::vector<Named> catalogue()
{
    std::vector<Named> rv;
    auto add = [&](const std::string& n, const Struct& s)
    {
        Named x = { n, s };
        rv.push_back(x);
    };
    typedef Atom A;
    LP u = lp(1, 1, 1);
    add("mol0", mk(ATOMIC, u, {}));
    add("mol1", mk(ATOMIC, u, {A("C", 0.3, 0.1, -2, 0.003)}));
    add("mol3", mk(ATOMIC, u, {
        A("C", 0, 0, 0, 0.003),
        A("Cl", 1, 0, 0, 0.005, 0.5),
        A("C", 0, 2, 0, 0.004).setU(uaniso1())}));
    add("mol4same", mk(ATOMIC, u, {
        A("C", 0.5, 0.5, 0.5, 0.003),
        A("Na1+", 0.5, 0.5, 0.5, 0.002),
        A("Cl1-", -1.1, 0.4, 0.9).setU(uaniso2()),
        A("C", 0.5, 1.75, 0.5, 0.003)}));
    add("sc1", mk(PERIODIC, lp(1.5, 1.5, 1.5), {A("Ni", 0, 0, 0, 0.003)}));
    add("tric3", mk(PERIODIC, lp(2.0, 2.6, 3.1, 76, 98, 111), {
        A("Na1+", 0.1, 0.2, 0.3, 0.004),
        A("Cl1-", 0.9, 0.45, 0.8).setU(uaniso1()),
        A("Na1+", 0.55, 0.05, 0.6, 0.003, 0.75)}));
    add("outside", mk(PERIODIC, lp(2.0, 2.3, 2.7, 90, 105, 90), {
        A("Ti", -1.3, 0.2, 3.4, 0.004),
        A("O", 2.6, -1.55, 0.35).setU(uaniso2())}));
    add("skew60", mk(PERIODIC, lp(1.7, 1.7, 1.7, 60, 60, 60), {
        A("Ni", 0.05, 0.95, 0.5, 0.003),
        A("Pb", 0.4, 0.3, 0.999, 0.004)}));
    add("flat", mk(PERIODIC, lp(1.2, 1.3, 6.5, 90, 90, 120), {
        A("C", 1.0/3, 2.0/3, 0, 0.003),
        A("C", 2.0/3, 1.0/3, 0.5, 0.003)}));
    add("xP-1", mk(CRYSTAL, lp(2.4, 2.7, 3.3, 82, 97, 105), {
        A("Na1+", 0.11, 0.23, 0.31, 0.004).setU(uaniso1()),
        A("Cl1-", 0.5, 0, 0.5, 0.003)}, groupPm1()));
    add("xP21c", mk(CRYSTAL, lp(2.5, 3.2, 2.9, 90, 112, 90), {
        A("Ti", 0.15, 0.35, 0.42).setU(uaniso2()),
        A("O", 0, 0, 0, 0.003)}, groupP21c()));
    add("xPmmm", mk(CRYSTAL, lp(2.2, 2.6, 3.0), {
        A("Ni", 0, 0, 0, 0.003),
        A("O", 0.25, 0, 0.3).setU(usym(0.002, 0.003, 0.004, 0, 0, 0)),
        A("Pb", 0.5, 0.5, 0.1, 0.004, 0.5)}, groupPmmm()));
    add("xP3", mk(CRYSTAL, lp(2.8, 2.8, 3.5, 90, 90, 120), {
        A("Ni", 0.2, 0.05, 0.1).setU(uaniso1()),
        A("O", 0, 0, 0.4, 0.003),
        A("O", 1.0/3, 2.0/3, 0.75, 0.005)}, groupP3()));
    add("xI4", mk(CRYSTAL, lp(2.9, 2.9, 3.8), {
        A("Ti", 0, 0, 0.2, 0.003),
        A("O", 0.23, 0.11, 0.4).setU(uaniso2())}, groupI4()));
    add("xF", mk(CRYSTAL, lp(3.6, 3.6, 3.6), {
        A("Ni", 0, 0, 0, 0.003),
        A("Pb", -0.5, 0.5, 1.5, 0.004)}, groupF()));
    add("xnosymop", mk(CRYSTAL, lp(2.0, 2.3, 2.7, 90, 105, 90), {
        A("Ti", 0.3, 0.2, 0.4, 0.004),
        A("O", 0.6, 0.45, 0.35).setU(uaniso2())}));
    add("xnosymopout", mk(CRYSTAL, lp(2.0, 2.3, 2.7, 90, 105, 90), {
        A("Ti", -3.3, 0.2, 3.4, 0.004),
        A("O", 2.6, -2.55, 0.35).setU(uaniso2())}));
    add("xedge", mk(CRYSTAL, lp(3.0, 3.1, 3.2), {
        A("Ni", 4e-6, 0, 0.5, 0.003),
        A("O", 0.25, 0.999999, 0.3, 0.004)}, groupPmmm()));
    std::vector<SymOp> p4 = groupP4();
    std::rotate(p4.begin(), p4.begin() + 1, p4.end());
    add("xfirstop", mk(CRYSTAL, lp(2.9, 2.9, 3.8), {
        A("Ti", 0.1, 0.3, 0.2).setU(uaniso1()),
        A("O", 0.23, 0.11, 0.4).setU(uaniso2())}, p4));
    return rv;
}

}   // namespace ref

#endif  // STRUCTS_HPP_INCLUDED
