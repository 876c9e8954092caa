// Independent readers of the data files in src/runtime.
#ifndef TABLES_HPP_INCLUDED
#define TABLES_HPP_INCLUDED

#include "mc.hpp"

namespace tables {

using mc::require;

typedef std::vector<std::string> Lines;

inline std::string readall(const std::string& f)
{
    std::ifstream fp(f);
    std::ostringstream rv;
    rv << fp.rdbuf();
    return rv.str();
}

/// lines that are ended by a newline
inline Lines lines(const std::string& s)
{
    Lines rv;
    for (size_t p = 0, q; (q = s.find('\n', p)) != std::string::npos; p = q + 1)
    {
        std::string l = s.substr(p, q - p);
        while (!l.empty() && isspace(l.back()))  l.pop_back();
        rv.push_back(l);
    }
    return rv;
}

inline std::vector<std::string> words(const std::string& s)
{
    std::istringstream fp(s);
    std::vector<std::string> rv;
    for (std::string w; fp >> w; )  rv.push_back(w);
    return rv;
}

typedef std::map<std::string, std::vector<double> > Xray;

inline Xray xray(const Lines& ls)
{
    Xray rv;
    std::string smb;
    bool data = false;
    for (auto& l : ls)
    {
        auto w = words(l);
        if (w.empty())  continue;
        if (w[0] == "#S")  smb = w[2];
        if (w[0] == "#L")  data = true;
        else if (data)
        {
            for (auto& x : w)  rv[smb].push_back(std::stod(x));
            data = false;
        }
    }
    return rv;
}

inline double xrayvalue(const std::vector<double>& p, double q)
{
    double s2 = (q / 4 / M_PI) * (q / 4 / M_PI), rv = p[5];
    for (int i = 0; i < 5; ++i)  rv += p[i] * std::exp(-p[6 + i] * s2);
    return rv;
}

typedef std::map<std::string, double> Values;

inline Values electrons(const Lines& ls)
{
    Values rv;
    for (auto& l : ls)
    {
        auto w = words(l);
        if (w.empty() || w[0][0] == '#')  continue;
        int z = std::stoi(w[1]);
        rv[w[0]] = z;
        for (size_t i = 2; i < w.size(); ++i)
        {
            // "+2" is a suffix "2+"
            std::string s = w[i].substr(1) + w[i][0];
            rv[w[0] + s] = z - std::stoi(w[i]);
        }
    }
    return rv;
}

inline std::vector<std::string> columns(const std::string& l)
{
    std::vector<std::string> c(1);
    for (char x : l)
    {
        if (x == ',')  c.push_back("");
        else  c.back() += x;
    }
    return c;
}

inline Values neutrons(const Lines& ls)
{
    Values rv;
    struct Row  { std::string el, iso, chl; double b; };
    std::vector<Row> rows;
    for (auto& l : ls)
    {
        if (l.empty() || l[0] == '#')  continue;
        std::vector<std::string> c = columns(l);
        if (c[3].empty())  continue;
        Row r;
        size_t p = c[0].find('-');
        std::string t = c[0].substr(p + 1);
        size_t q = t.find('-');
        r.el = t.substr(0, q);
        r.iso = (q == std::string::npos) ? "" : t.substr(q + 1);
        r.chl = c[1];
        r.b = std::stod(c[3]);
        rows.push_back(r);
    }
    for (auto& r : rows)  if (r.iso.empty())  rv[r.el] = r.b;
    for (auto& r : rows)  if (!r.iso.empty())
    {
        rv[r.iso + "-" + r.el] = r.b;
        // the only natural isotope or the first one of unstable element
        if (!rv.count(r.el) && (r.chl == "100" || (!r.chl.empty() &&
                        r.chl.back() == 'Y')))
            rv[r.el] = r.b;
    }
    if (rv.count("1-n"))  rv["n"] = rv.at("1-n");
    if (rv.count("2-H"))  rv["D"] = rv.at("2-H");
    if (rv.count("3-H"))  rv["T"] = rv.at("3-H");
    return rv;
}

typedef std::tuple<std::string, int, std::string, int> Key;

inline Key bvkey(const std::string& a, int va, const std::string& b, int vb)
{
    // cation first, equal valences in alphabetical order
    if (va > vb || (va == vb && a <= b))  return Key(a, va, b, vb);
    return Key(b, vb, a, va);
}

typedef std::map<Key, std::pair<double, double> > BV;

inline BV bondvalence(const Lines& ls)
{
    BV rv;
    bool body = false;
    for (auto& l : ls)
    {
        auto w = words(l);
        if (w.size() == 1 && w[0] == "_valence_param_details")
        {
            body = true;
            continue;
        }
        if (!body || w.empty() || w[0][0] == '#')  continue;
        require(w.size() >= 7, "harness", l);
        Key k = bvkey(w[0], std::stoi(w[1]), w[2], std::stoi(w[3]));
        require(!rv.count(k), "harness", "duplicate ", l);
        rv[k] = std::make_pair(std::stod(w[4]), std::stod(w[5]));
    }
    return rv;
}

}   // namespace tables

#endif  // TABLES_HPP_INCLUDED
