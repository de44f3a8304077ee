#include "vxlib.h"
#include <cstring>
#include <stdexcept>
#include "Caitlyn/__Caitlyn/Application.h"
using namespace Caitlyn;
#ifndef OPS
#define OPS 3
#endif
#ifndef ARGS
#define ARGS 2
#endif
#ifndef NMAX
#define NMAX 2
#endif
VX_HARNESS(app_start)
{
    std::vector<std::string> kept;
    bool up = false;
    const Application* app = nullptr;
    for (int i = 0; i < OPS; ++i)
    {
        bool with = vx::flip("with arguments"), threw = false;
        const Application* got = nullptr;
        std::vector<std::string> given;
        if (with)
        {
            unsigned n = vx::pick("count", ARGS + 2);
            int argc = n > ARGS ? -1 : (int)n;
            std::vector<std::string> own;
            for (int k = 0; k < argc; ++k) own.push_back(vx::bytes("argument", 0, NMAX));
            given = own;
            std::vector<const char*> argv;
            for (auto& s : own) argv.push_back(s.c_str());
            argv.push_back(nullptr);
            try { got = Application::Initialize(argc, argv.data()); } catch (const std::runtime_error&) { threw = true; }
            for (auto& s : own) for (auto& c : s) c = '?';       // the caller's arguments change and go away
        }
        else
            try { got = Application::Initialise(); } catch (const std::runtime_error&) { threw = true; }
        sym_check(threw == up, "only the first start succeeds");
        if (!up) { up = true; app = got; kept = given; sym_check(app != nullptr, "the application"); }
        const std::vector<const char*>& args = app->GetArgs();
        sym_check(args.size() == kept.size(), "as many arguments as given at the start");
        for (size_t k = 0; k < kept.size(); ++k) sym_check(vx::eq(args[k], kept[k]), "the arguments given at the start");
        sym_check(app->GetSystemName() && *app->GetSystemName() && app->GetCompilerInfo() && app->GetCaitlynInfo() && *app->GetCaitlynInfo(), "names");
    }
    sym_cover("started");
}

// many and long arguments, one of them with an arbitrary character
VX_HARNESS(app_many)
{
    static const unsigned counts[] = {1, 70, 300};
    unsigned n = counts[vx::pick("count", 3)], len = vx::pick("long", 2) * 300, at = vx::pick("position", 3), l = 1 + vx::pick("bytes", 4);
    std::vector<std::string> own;
    for (unsigned k = 0; k < n; ++k) own.push_back(std::string(k % 3 ? len : k, (char)('a' + k % 26)));
    std::string& x = own[at == 0 ? 0 : at == 1 ? n / 2 : n - 1];
    vx::put8(x, vx::scalar("c", l), l);
    x += std::string(len / 2, '=');
    const std::vector<std::string> given = own;
    std::vector<const char*> argv;
    for (auto& s : own) argv.push_back(s.c_str());
    argv.push_back(nullptr);
    const Application* app = Application::Initialize((int)n, argv.data());
    for (auto& s : own) for (auto& c : s) c = '?';
    own.clear();
    const std::vector<const char*>& args = app->GetArgs();
    sym_check(args.size() == n, "as many arguments as given at the start");
    for (unsigned k = 0; k < n && k < args.size(); ++k) sym_check(vx::eq(args[k], given[k]), "the arguments given at the start");
    bool threw = false;
    try { Application::Initialize(0, argv.data()); } catch (const std::runtime_error&) { threw = true; }
    sym_check(threw && app->GetArgs().size() == n, "only the first start succeeds");
    sym_cover("started");
}
