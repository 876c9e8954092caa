// C19: broken data files are reported and leave no partial state.
#include "mc.hpp"
#include "tables.hpp"
#include <diffpy/srreal/scatteringfactordata.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>

using namespace mc;
using namespace diffpy::srreal;

const Info mcinfo = {
    "C19", "model_checking",
    "Every cut of each data file, every line of each file with every kind of "
        "damage (columns lost, numbers replaced or garbled, garbage, doubled "
        "or lost lines) and every sequence of states of a file (intact, "
        "missing, empty, a folder, cut at a record, cut inside of a record, "
        "damaged) up to the depth.  A new process loads the file at each "
        "lookup, looks up all symbols, then again after the file is repaired. "
        "The oracle is an independent reader of complete lines.",
    "cuts at all word boundaries and next to line ends, sequences of 3 file "
        "states, damage of all lines of each file; a quarter of these for the "
        "bond valence file",
    "cuts at all bytes, sequences of 4 file states, damage of all lines "
        "and garbled characters at all positions in numbers",
    {"a cut within the last number of a record or of trailing text cannot be "
        "recognized", "a cut at the end of a record removes the later entries, "
        "they are then unknown", "references of bond valence parameters are "
        "not compared"},
    120
};

namespace {

const std::vector<std::string> files = {
    "f0_WaasKirf.dat", "ionlist.dat", "nsftable.dat", "bvparm2011sel.cif" };

const std::string& runtime()
{
    static std::string rv = getenv("DIFFPYRUNTIME");
    return rv;
}

/// content of the intact file
const std::string& intact(int f)
{
    static std::string rv[4];
    if (rv[f].empty())
    {
        rv[f] = tables::readall(runtime() + "/" + files[f]);
        require(rv[f].size() > 1000, "harness", files[f]);
    }
    return rv[f];
}

/// entries of the file, missing ones are unknown
typedef std::map<std::string, std::vector<double> > Entries;

std::string bvname(const tables::Key& k)
{
    return cat(std::get<0>(k), " ", std::get<1>(k), " ", std::get<2>(k), " ",
            std::get<3>(k));
}

Entries entries(int f, const std::string& s)
{
    Entries rv;
    auto ls = tables::lines(s);
    if (f == 0)  rv = tables::xray(ls);
    else if (f == 3)
    {
        for (auto& kv : tables::bondvalence(ls))
            rv[bvname(kv.first)] = { kv.second.first, kv.second.second };
    }
    else
    {
        for (auto& kv : f == 1 ? tables::electrons(ls) : tables::neutrons(ls))
            rv[kv.first] = { kv.second };
    }
    return rv;
}

const Entries& all(int f)
{
    static Entries rv[4];
    if (rv[f].empty())  rv[f] = entries(f, intact(f));
    return rv[f];
}

/// lookup of an entry, false if it is unknown.  Other errors are passed on.
bool lookup(int f, const std::string& name, std::vector<double>& v)
{
    v.clear();
    try
    {
        if (f == 0)
        {
            v.push_back(fxrayatq(name, 1.0));
            v.push_back(fxrayatstol(name, 0.3));
        }
        if (f == 1)  v.push_back(electronnumber(name));
        if (f == 2)  v.push_back(bcneutron(name));
    }
    catch (std::invalid_argument& e)
    {
        if (std::string(e.what()).find("nknown") == std::string::npos)  throw;
        return false;
    }
    if (f == 3)
    {
        std::istringstream fp(name);
        std::string a, b;
        int va, vb;
        fp >> a >> va >> b >> vb;
        const BVParam& p = BVParametersTable().lookup(a, va, b, vb);
        if (p == BVParametersTable::none())  return false;
        v = { p.mRo, p.mB };
    }
    return true;
}

bool same(int f, const std::vector<double>& v, const std::vector<double>& e)
{
    std::vector<double> w = e;
    if (f == 0)
        w = { tables::xrayvalue(e, 1.0), tables::xrayvalue(e, 1.2 * M_PI) };
    for (size_t i = 0; i < w.size(); ++i)
        if (!(std::fabs(v[i] - w[i]) < 1e-9 * (1 + std::fabs(w[i]))))
            return false;
    return v.size() == w.size();
}

/// Scratch folder with data files
struct Folder
{
    std::string path;
    Folder()
    {
        char t[] = "/tmp/verif-c19-XXXXXX";
        path = mkdtemp(t);
        for (int f = 0; f < 4; ++f)
        {
            if (symlink((runtime() + "/" + files[f]).c_str(), name(f).c_str()))
                fail("harness", "symlink");
        }
    }
    ~Folder()
    {
        for (int f = 0; f < 4; ++f)  drop(f);
        rmdir(path.c_str());
    }
    std::string name(int f) const  { return path + "/" + files[f]; }
    void drop(int f)
    {
        unlink(name(f).c_str());
        rmdir(name(f).c_str());
    }
    void put(int f, const std::string& s)
    {
        drop(f);
        std::ofstream fp(name(f));
        fp << s;
    }
};

/// run the function in a new process, which has no tables loaded
template <class F>
std::string isolated(F fn)
{
    int p[2];
    if (pipe(p))  fail("harness", "pipe");
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        std::string r;
        try  { r = fn(); }
        catch (Fail& e)  { r = "!" + e.sig + "|" + e.msg; }
        catch (std::exception& e)  { r = cat("!exception|", e.what()); }
        if (write(p[1], r.data(), r.size()) < 0)  _exit(2);
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof(buf))) > 0; )  r.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        fail("crash", cat("the process was ended with status ", st));
    if (!r.empty() && r[0] == '!')
    {
        size_t q = r.find('|');
        throw Fail(r.substr(1, q - 1), r.substr(q + 1));
    }
    return r;
}

/// Look up entries.  Return true if the table was loaded.
/// must = entries that have to be found, skip = entries not compared
bool probe(int f, const Entries& must, const std::string& skip,
        const std::string& w, size_t* nfound=NULL)
{
    size_t found = 0, errors = 0, i = 0;
    for (auto& kv : all(f))
    {
        std::vector<double> v;
        bool ok = false, err = false;
        try  { ok = lookup(f, kv.first, v); }
        catch (std::exception& e)  { err = true; }
        ++i;
        errors += err;
        // the error is repeated for all entries
        require(errors == 0 || errors == i, "partial", w, " lookup of ",
                kv.first, " gave no error after an error");
        if (err)
        {
            if (i == 3)  return false;
            continue;
        }
        found += ok;
        require(ok || !must.count(kv.first), "lost", w, " entry ", kv.first,
                " is not found");
        if (kv.first == skip || skip == "*")  continue;
        require(!ok || same(f, v, kv.second), "value", w, " entry ", kv.first,
                " has wrong values ", v.size() ? v[0] : 0);
    }
    if (nfound)  *nfound = found;
    return true;
}

/// first look at the file in folder, repair it and look again
void scenario(Ctx& ctx, Folder& d, int f, const Entries& must,
        const std::string& skip, const std::string& w)
{
    std::string r = isolated([&]()
    {
        setenv("DIFFPYRUNTIME", d.path.c_str(), 1);
        size_t n = 0, n1 = 0;
        bool ok = probe(f, must, skip, w, &n);
        d.put(f, intact(f));
        if (!ok)
        {
            ok = probe(f, all(f), "", w + " after repair", &n1);
            require(ok, "repair", w, " error after repair");
            return cat("error ", n1);
        }
        return cat("loaded ", n);
    });
    ctx.outcome(hashstr(cat(f, r)));
    ctx.transition(2);
    ctx.trace();
}

void cuts(Ctx& ctx, int f)
{
    const std::string& s = intact(f);
    const size_t chunk = 256;
    for (size_t c = 0; c <= s.size(); c += chunk)
    ctx.run(cat("C19 cut ", files[f], " ", c), [&]()
    {
        Folder d;
        Entries must;
        size_t nlines = s.size();
        for (size_t i = c; i < c + chunk && i <= s.size(); ++i)
        {
            bool edge = i == 0 || i + 1 >= s.size() ||
                (isspace(s[i - 1]) || s[i - 1] == ',') !=
                (isspace(s[i]) || s[i] == ',') || s[i - 1] == '\n' ||
                s[i + 1] == '\n';
            if (!ctx.thorough && !edge)  continue;
            if (!ctx.thorough && f == 3 && i / 256 % 4 && i + 300 < s.size())
                continue;
            std::string t = s.substr(0, i);
            size_t n = std::count(t.begin(), t.end(), '\n');
            if (n != nlines)  must = entries(f, t);
            nlines = n;
            // the last record can have its last number cut
            std::string skip;
            size_t b = s.find_last_of('\n', i ? i - 1 : 0);
            b = (b == std::string::npos) ? 0 : b + 1;
            std::string part = s.substr(b, i - b);
            size_t e = s.find('\n', i);
            std::string line = s.substr(b, e - b);
            if (f == 0)
            {
                auto w = tables::words(part), wl = tables::words(line);
                if (w.size() == 11 && w[0][0] != '#' && w != wl)
                {
                    Entries m = entries(f, s.substr(0, e + 1));
                    for (auto& kv : m)  if (!must.count(kv.first))
                        skip = kv.first;
                }
            }
            d.put(f, t);
            scenario(ctx, d, f, must, skip, cat(files[f], " cut at ", i));
            ctx.state(mix(f, i));
        }
    });
}

/// file with the n-th line changed
void damage(Ctx& ctx, int f)
{
    const std::string& s = intact(f);
    tables::Lines ls;
    for (size_t p = 0, q; (q = s.find('\n', p)) != std::string::npos; p = q + 1)
        ls.push_back(s.substr(p, q - p));
    const size_t chunk = 8;
    for (size_t c = 0; c < ls.size(); c += chunk)
    ctx.run(cat("C19 damage ", files[f], " line=", c), [&]()
    {
        Folder d;
        for (size_t i = c; i < c + chunk && i < ls.size(); ++i)
        {
            // quick runs take every fourth line of the longest file
            if (f == 3 && i % 4 && i < ls.size() - 9 && !ctx.thorough)  continue;
            std::vector<std::pair<std::string, std::string> > v;
            const std::string& l = ls[i];
            v.emplace_back("garbage", "garbage");
            v.emplace_back("doubled", l + "\n" + l);
            // lost entries cannot be recognized in other files
            if (f < 2)  v.emplace_back("lost", "");
            // words
            const std::string sep = (f == 2) ? "," : " \t\r";
            bool comment = f == 0 ? l.compare(0, 2, "#S") && l.compare(0, 2, "#L")
                && l[0] == '#' : (l[0] == '#');
            for (size_t p = 0; p < l.size() && !comment; )
            {
                size_t b = l.find_first_not_of(sep, p);
                if (f == 2)  b = p;
                if (b == std::string::npos)  break;
                size_t e = std::min(l.size(), l.find_first_of(sep, b));
                std::string w = l.substr(b, e - b);
                if (b)  v.emplace_back(cat("cut before ", b), l.substr(0, b));
                bool num = w.find_first_of("0123456789") != std::string::npos &&
                    w.find_first_not_of("0123456789.+-()") == std::string::npos;
                // columns of nsftable other than b_c are not used
                if (f == 2)  num = num && 3 == std::count(l.begin(),
                        l.begin() + b, ',');
                // reference and details of bond valence parameters
                if (num)
                {
                    v.emplace_back(cat("replaced at ", b), l.substr(0, b) +
                            "x" + w + l.substr(e));
                    // uncertainty is not used
                    size_t e1 = std::min(e, l.find('(', b));
                    for (size_t k = b; k < e1; ++k)
                    {
                        if (!ctx.thorough && k != b + (e1 - b) / 2)  continue;
                        std::string t = l;
                        t[k] = 'x';
                        v.emplace_back(cat("garbled at ", k), t);
                    }
                }
                p = e + 1;
            }
            // all other entries are kept
            std::string u;
            for (size_t j = 0; j < ls.size(); ++j)
                if (j != i)  u += ls[j] + "\n";
            Entries must;
            if (f == 3 || f == 1)  must = entries(f, u);
            for (auto& kv : v)
            {
                std::string t;
                for (size_t j = 0; j < ls.size(); ++j)
                    t += (j == i ? kv.second : ls[j]) + "\n";
                d.put(f, t);
                scenario(ctx, d, f, must, "", cat(files[f], " line ", i + 1,
                            " ", kv.first));
                ctx.state(mix(f, hashstr(cat(i, kv.first))));
            }
        }
    });
}

const int NSTATES = 9;
const char* statenames[NSTATES] = { "intact", "missing", "empty", "folder",
    "comments", "cut at record", "cut in record", "damaged", "blank" };

/// change the file to the state, return records that are readable
void setstate(Folder& d, int f, int st, Entries& e, bool& ok)
{
    const std::string& s = intact(f);
    size_t h = s.size() * 3 / 4;
    h = s.find('\n', h) + 1;
    if (f == 0)
    {
        // records end after the data line
        h = s.find("#S", h);
    }
    std::string t;
    ok = false;
    switch (st)
    {
        case 0: t = s; ok = true; break;
        case 1: d.drop(f); return;
        case 2: break;
        case 3: d.drop(f); mkdir(d.name(f).c_str(), 0777); return;
        case 4: t = "# nothing here\n"; break;
        case 5: t = s.substr(0, h); ok = (f != 1); break;
        case 6:
            t = s.substr(0, h);
            while (isspace(t.back()))  t.pop_back();
            t.resize(t.find_last_of(" \t,") + 1);
            if (f == 2)  t.resize(s.rfind(',', h));
            if (f == 3)  t.resize(s.rfind("0.37", h));
            break;
        case 7: t = s.substr(0, h) + "broken 1 x\n" + s.substr(h); break;
        case 8: t = "\n\n\n"; break;
    }
    if (f == 0 && st == 7)
    {
        // between the definition and its data
        size_t p = s.find("#L", h);
        t = s.substr(0, p) + "#L\n" + s.substr(p);
    }
    if (ok)  e = entries(f, t);
    d.put(f, t);
}

void sequences(Ctx& ctx, int f, int depth)
{
    for (int c0 = 0; c0 < NSTATES * NSTATES; ++c0)
    ctx.run(cat("C19 sequence ", files[f], " first=", c0), [&]()
    {
        int tot = 1;
        for (int i = 2; i < depth; ++i)  tot *= NSTATES;
        for (int code = 0; code < tot; ++code)
        {
            Folder d;
            std::string r = isolated([&]()
            {
                setenv("DIFFPYRUNTIME", d.path.c_str(), 1);
                std::string w = files[f], r;
                bool loaded = false;
                Entries have;
                for (int i = 0, c = code; i <= depth; ++i)
                {
                    int st = i == 0 ? c0 / NSTATES : i == 1 ? c0 % NSTATES :
                        i < depth ? c % NSTATES : 0;
                    if (i > 1)  c /= NSTATES;
                    w += cat(", ", statenames[st]);
                    Entries e;
                    bool ok = false;
                    setstate(d, f, st, e, ok);
                    if (ok && !loaded)
                    {
                        loaded = true;
                        have = e;
                    }
                    size_t n = 0;
                    bool lo = probe(f, have, "", w, &n);
                    require(lo == loaded, "load", w, lo ? " was loaded" :
                            " could not be loaded");
                    require(!lo || n == have.size(), "entries", w, " has ", n,
                            " entries instead of ", have.size());
                    r += cat(n, " ");
                }
                return r;
            });
            ctx.outcome(hashstr(cat(f, r)));
            ctx.state(mix(f, mix(c0, code)));
            ctx.transition(depth + 1);
            ctx.trace();
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    for (int f = 0; f < 4; ++f)
    {
        sequences(ctx, f, ctx.thorough ? 4 : 3);
        damage(ctx, f);
        cuts(ctx, f);
    }
}
