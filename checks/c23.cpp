// C23: data files are found by the documented search order.
// The library is loaded from a shared object placed in all kinds of folders.
#include "mc.hpp"
#include <dlfcn.h>
#include <limits.h>

using namespace mc;

const Info mcinfo = {
    "C23", "model_checking",
    "The real shared library is placed in every layout of folders "
        "(installed, source tree, both, none, reached by symbolic links) and "
        "loaded in a new process.  In each of them all sequences up to the "
        "depth of setting the environment variable to any of its values, "
        "creating or removing folders, and looking files up.  The oracle is a "
        "model of the documented search order that works with identities of "
        "folders.  A state is the layout, environment and the presence of "
        "folders.",
    "sequences of 3 steps in all layouts",
    "sequences of 4 steps in two layouts, 3 in the other ones",
    {"when a folder in use is removed or replaced while the variable is "
        "unchanged, both the former and the current folder are accepted",
        "the current folder of the process does not change",
        "the library is loaded by its absolute path"},
    60
};

namespace {

typedef std::string (*DataPath)(const std::string&);

const char* const SYMBOL = "_ZN6diffpy11runtimepath8datapathERKNSt7__cxx1112"
    "basic_stringIcSt11char_traitsIcESaIcEEE";

template <class F> std::string isolated(F fn)
{
    int p[2];
    if (pipe(p))  fail("harness", "pipe");
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        std::string r;
        try  { r = fn(); }
        catch (Fail& e)  { r = "!" + e.sig + "|" + e.msg; }
        catch (std::exception& e)  { r = cat("!exception|", e.what()); }
        if (write(p[1], r.data(), r.size()) < 0)  _exit(2);
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof(buf))) > 0; )  r.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        fail("crash", cat("the process was ended with status ", st));
    if (!r.empty() && r[0] == '!')
    {
        size_t q = r.find('|');
        throw Fail(r.substr(1, q - 1), r.substr(q + 1));
    }
    return r;
}

// scratch folders -----------------------------------------------------------

void makedirs(const std::string& d)
{
    for (size_t p = 1; p != std::string::npos; )
    {
        p = d.find('/', p + 1);
        mkdir(d.substr(0, p).c_str(), 0755);
    }
}

void touch(const std::string& f)
{
    std::ofstream o(f.c_str());
    o << "x\n";
}

void symlinkto(const std::string& target, const std::string& f)
{
    if (symlink(target.c_str(), f.c_str()))  fail("harness", "symlink " + f);
}

void putlib(const std::string& f)
{
    const char* src = getenv("MC_LIB");
    if (link(src, f.c_str()) == 0)  return;
    std::ifstream i(src, std::ios::binary);
    std::ofstream o(f.c_str(), std::ios::binary);
    o << i.rdbuf();
    if (!o)  fail("harness", "cannot copy library to " + f);
}

// only used on folders made by this check
void removetree(const std::string& d)
{
    if (d.find("/c23-") == std::string::npos)  fail("harness", "remove " + d);
    std::string cmd = "rm -rf '" + d + "'";
    if (system(cmd.c_str()))  fail("harness", "rm");
}

const char* const SHARE = "share/diffpy/libdiffpy-1.4";

struct Layout
{
    std::string name;
    std::function<void(const std::string&)> make;
    std::string lib;            // path that is loaded
    std::string first, second;  // candidate folders without symbolic links
    std::string late1, late2;   // folders that may be created or removed
};

std::vector<Layout> layouts()
{
    typedef const std::string& S;
    std::vector<Layout> rv;
    auto add = [&](const std::string& name, std::function<void(S)> f,
            const std::string& lib, const std::string& first,
            const std::string& second)
    {
        rv.push_back(Layout{ name, f, lib, first, second, first, second });
    };
    const std::string share = SHARE;
    auto inst = [=](S d)
    {
        makedirs(d + "/p/lib");
        makedirs(d + "/p/" + share);
        putlib(d + "/p/lib/libdiffpy.so");
    };
    auto tree = [=](S d)
    {
        makedirs(d + "/p/build/fast");
        makedirs(d + "/p/src/runtime");
        putlib(d + "/p/build/fast/libdiffpy.so");
    };
    add("installed", inst, "/p/lib/libdiffpy.so", "/p/" + share,
            "/src/runtime");
    add("tree", tree, "/p/build/fast/libdiffpy.so", "/p/build/" + share,
            "/p/src/runtime");
    add("both", [=](S d) { tree(d); makedirs(d + "/p/build/" + share); },
            "/p/build/fast/libdiffpy.so", "/p/build/" + share,
            "/p/src/runtime");
    add("none", [=](S d)
            { makedirs(d + "/p/a/b"); putlib(d + "/p/a/b/libdiffpy.so"); },
            "/p/a/b/libdiffpy.so", "/p/a/" + share, "/p/src/runtime");
    auto linked = [=](S d)
    {
        tree(d);
        makedirs(d + "/q/x/lib");
        symlinkto("../../../p/build/fast/libdiffpy.so",
                d + "/q/x/lib/libdiffpy.so.1");
        symlinkto("libdiffpy.so.1", d + "/q/x/lib/libdiffpy.so");
        makedirs(d + "/q/src/runtime");         // not for this library
    };
    add("linked", linked, "/q/x/lib/libdiffpy.so", "/q/x/" + share,
            "/p/src/runtime");
    add("linked-share", [=](S d) { linked(d); makedirs(d + "/q/x/" + share); },
            "/q/x/lib/libdiffpy.so", "/q/x/" + share, "/p/src/runtime");
    add("linked-folder", [=](S d)
            {
                inst(d);
                symlinkto("p/lib", d + "/lib64");
                makedirs(d + "/" + share);      // not for this library
            },
            "/lib64/libdiffpy.so", "/p/" + share, "/src/runtime");
    add("dots", [=](S d) { inst(d); makedirs(d + "/r"); },
            "/r/../p/./lib//libdiffpy.so", "/p/" + share, "/src/runtime");
    add("space", [=](S d)
            {
                makedirs(d + "/p q@D/lib");
                makedirs(d + "/p q@D/" + share);
                putlib(d + "/p q@D/lib/libdiffpy.so");
            },
            "/p q@D/lib/libdiffpy.so", "/p q@D/" + share, "/src/runtime");
    // the first candidate is reached by a link or is a file
    Layout y = Layout{ "share-link", [=](S d)
            {
                makedirs(d + "/p/lib");
                makedirs(d + "/data/real");
                makedirs(d + "/p/share/diffpy");
                symlinkto("../../../data/real", d + "/p/" + share);
                putlib(d + "/p/lib/libdiffpy.so");
            },
            "/p/lib/libdiffpy.so", "/data/real", "/src/runtime",
            "/data/real", "/src/runtime" };
    rv.push_back(y);
    Layout z = Layout{ "share-file", [=](S d)
            {
                tree(d);
                makedirs(d + "/p/build/share/diffpy");
                touch(d + "/p/build/" + share);
            },
            "/p/build/fast/libdiffpy.so", "", "/p/src/runtime",
            "", "/p/src/runtime" };
    rv.push_back(z);
    return rv;
}

// values of the environment variable ----------------------------------------

struct Env
{
    std::string name;
    bool set;
    std::string value;          // @ stands for the scratch folder
    std::string dir;            // folder without links, empty for invalid
};

std::vector<Env> envs()
{
    return std::vector<Env>{
        { "unset", false, "", "" },
        { "empty", true, "", "" },
        { "good", true, "@/env/good", "@/env/good" },
        { "good/", true, "@/env/good/", "@/env/good" },
        { "good///", true, "@/env/good///", "@/env/good" },
        { "other", true, "@/env/other", "@/env/other" },
        { "//other", true, "@//env///other", "@/env/other" },
        { "dots", true, "@/env/good/../other/.", "@/env/other" },
        { "link", true, "@/env/link", "@/env/good" },
        { "link/", true, "@/env/link/", "@/env/good" },
        { "relative", true, "env/good", "@/env/good" },
        { "./relative/", true, "./env/other/", "@/env/other" },
        { ".", true, ".", "@" },
        { "/", true, "/", "/" },
        { "///", true, "///", "/" },
        { "spaces", true, "@/env/with space@D", "@/env/with space@D" },
        { "missing", true, "@/env/missing", "" },
        { "missing/", true, "@/env/missing/", "" },
        { "late", true, "@/env/late", "?@/env/late" },
        { "late/", true, "@/env/late/", "?@/env/late" },
        { "file", true, "@/env/file", "" },
        { "file/", true, "@/env/file/", "?file" },
        { "dangling", true, "@/env/dangling", "" },
        { "loop", true, "@/env/loop", "" },
        { "trailing space", true, "@/env/good ", "" },
        { "two", true, "@/env/good:@/env/other", "" },
        { "long", true, "@/" + std::string(PATH_MAX + 10, 'x'), "" },
        { "longname", true, "@/" + std::string(NAME_MAX + 1, 'x'), "" },
    };
}

std::string subst(const std::string& s, const std::string& d)
{
    std::string rv;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '@' && s.compare(i, 2, "@D"))  rv += d;
        else  rv += s[i];
    }
    return rv;
}

bool isdir(const std::string& d)
{
    struct stat s;
    return stat(d.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
}

void layoutcases(Ctx& ctx, const Layout& L, int depth)
{
    const auto es = envs();
    // steps: every value of environment, toggles of folders
    const int ne = es.size(), n = ne + 3;
    for (int first = 0; first < n; ++first)
    ctx.run(cat("C23 ", L.name, " first=", first), [&]()
    {
        char buf[PATH_MAX];
        std::string d = cat(realpath(getenv("MC_TMP"), buf), "/c23-",
                getpid(), "-", L.name, "-", first);
        int tot = 1;
        for (int i = 1; i < depth; ++i)  tot *= n;
        makedirs(d);
        auto setup = [&]()
        {
            L.make(d);
            makedirs(d + "/env/good/sub");
            makedirs(d + "/env/other");
            makedirs(d + "/env/with space@D");
            touch(d + "/env/file");
            symlinkto("good", d + "/env/link");
            symlinkto("nowhere", d + "/env/dangling");
            symlinkto("loop", d + "/env/loop");
        };
        setup();
        const std::string abs1 = L.first.empty() ? "" : d + L.first,
              abs2 = d + L.second, late = d + "/env/late";
        const bool has1 = !abs1.empty() && isdir(abs1), has2 = isdir(abs2);
        const std::string r = isolated([&]()
        {
            if (chdir(d.c_str()))  fail("harness", "chdir");
            unsetenv("DIFFPYRUNTIME");
            void* so = dlopen((d + L.lib).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!so)  fail("harness", dlerror());
            DataPath datapath = (DataPath) dlsym(so, SYMBOL);
            if (!datapath)  fail("harness", dlerror());
            // parents of folders have to exist when they are created
            auto toggle = [&](const std::string& x)
            {
                if (x.empty())  return;
                if (isdir(x))
                {
                    if (rmdir(x.c_str()))  fail("harness", "rmdir " + x);
                }
                else  makedirs(x);
            };
            uint64_t h = hashstr(L.name);
            unsigned long count = 0;
            for (int code = 0; code < tot; ++code)
            {
                // folders are as at the start
                if (!abs1.empty() && isdir(abs1) != has1)  toggle(abs1);
                if (isdir(abs2) != has2)  toggle(abs2);
                if (isdir(late))  toggle(late);
                std::string res = isolated([&]()
                {
                    std::string w = L.name;
                    int env = 0;
                    std::string res, libcache;
                    std::map<std::string, std::string> envcache;
                    for (int i = 0, c = code; i < depth; ++i)
                    {
                        int step = i ? c % n : first;
                        if (i)  c /= n;
                        if (step < ne)
                        {
                            env = step;
                            w += " env=" + es[env].name;
                            if (es[env].set)  setenv("DIFFPYRUNTIME",
                                    subst(es[env].value, d).c_str(), 1);
                            else  unsetenv("DIFFPYRUNTIME");
                        }
                        else
                        {
                            w += cat(" toggle", step - ne);
                            toggle(step == ne ? abs1 : step == ne + 1 ? abs2 :
                                    late);
                        }
                        // folders that may be used
                        std::set<std::string> ok;
                        bool mayfail = false;
                        const Env& e = es[env];
                        const bool useenv = e.set && !e.value.empty();
                        if (useenv)
                        {
                            std::string x = subst(e.dir, d);
                            if (x == "?file")
                            {
                                // a file is no folder whatever it is followed by
                                mayfail = true;
                            }
                            else if (!x.empty() && x[0] == '?')
                            {
                                if (isdir(x.substr(1)))  ok.insert(x.substr(1));
                                else  mayfail = true;
                                if (envcache.count(e.name))
                                    ok.insert(envcache[e.name]);
                            }
                            else if (!x.empty())  ok.insert(x);
                            else  mayfail = true;
                        }
                        else
                        {
                            if (!abs1.empty() && isdir(abs1))  ok.insert(abs1);
                            else if (isdir(abs2))  ok.insert(abs2);
                            else  mayfail = true;
                            if (!libcache.empty())  ok.insert(libcache);
                        }
                        const char* files[] = { "", "f0.dat", "sub/a b.txt",
                            "/x", ".." };
                        for (int k = 0; k < 5; ++k)
                        {
                            std::string f = files[k], p, base;
                            bool raised = false;
                            try  { p = datapath(f); }
                            catch (std::runtime_error& ex)
                            {
                                raised = true;
                                res += "E";
                            }
                            if (raised)
                            {
                                require(mayfail, "not-found", w, " file '", f,
                                        "' raised an error");
                                continue;
                            }
                            require(!ok.empty(), "no-error", w, " file '", f,
                                    "' gave ", p.substr(0, 200));
                            bool match = false;
                            for (auto& o : ok)
                            {
                                std::string x = o;
                                if (!f.empty())  x += "/" + f;
                                if (p != x)  continue;
                                match = true;
                                base = o;
                            }
                            require(match, "path", w, " file '", f, "' gave ", p,
                                    " instead of ", *ok.begin());
                            if (useenv)  envcache[e.name] = base;
                            else  libcache = base;
                            res += (base == abs1) ? "1" : (base == abs2) ? "2" :
                                base.size() > d.size() ? base.substr(d.size()) :
                                base.size() == 1 ? "/" : ".";
                        }
                    }
                    return res;
                });
                h = mix(h, hashstr(res));
                ++count;
            }
            return cat(h, " ", count);
        });
        std::istringstream is(r);
        uint64_t h = 0;
        unsigned long cnt = 0;
        is >> h >> cnt;
        removetree(d);
        require(cnt == (unsigned long) tot, "harness", "wrong count ", cnt);
        ctx.state(hashstr(cat(L.name, first)));
        ctx.outcome(h);
        ctx.transition(cnt * depth * 5);
        ctx.trace(cnt);
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    for (auto& L : layouts())
    {
        const bool deep = L.name == "linked" || L.name == "share-link";
        layoutcases(ctx, L, (ctx.thorough && deep) ? 4 : 3);
    }
}
