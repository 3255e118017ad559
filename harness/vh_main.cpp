#include "vh.hpp"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh
{
std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}

static char* g_cur = nullptr; // shared with the runner: the current case
static int g_case_cpu = 20;

static std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += char(c);
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += char(c);
    }
    return o;
}

static void arm(int sec)
{
    itimerval t {};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static void on_hang(int)
{
    static const char m[] = "VH-HANG: case exceeded its CPU budget\n";
    if (write(2, m, sizeof m - 1) < 0) {}
    _exit(97);
}

void Ctx::fail(const std::string& key, const std::string& msg)
{
    auto& k = this->fails[key];
    if (++k <= 5 && this->out)
    {
        std::fprintf(this->out,
            "{\"type\":\"fail\",\"prop\":\"%s\",\"key\":\"%s\",\"group\":\"%s\","
            "\"i\":%ld,\"msg\":\"%s\",\"case\":\"%s\"}\n",
            prop.c_str(), esc(key).c_str(), esc(cur_group).c_str(), cur_i,
            esc(msg).c_str(), esc(desc).c_str());
        std::fflush(this->out);
    }
}

void Ctx::sample(const std::string& s)
{
    if (this->sample_groups[this->cur_group]++ < 2 && samples.size() < 40)
        samples.push_back(cur_group + "#" + std::to_string(cur_i) + ": " +
            (s.size() > 600 ? s.substr(0, 600) + "..." : s));
}

void Ctx::group(const std::string& name, double count,
    const std::function<void(Rng&)>& body)
{
    if (!only_group.empty() && only_group != name)
        return;
    long n = long(count * scale);
    if (n < 1)
        n = 1;
    cur_group = name;
    const uint64_t base = mix(mix(hashs(prop), hashs(name)), seed);
    long lo = 0;
    long hi = n;
    if (only_i >= 0)
    {
        lo = only_i;
        hi = only_i + 1;
    }
    for (long i = lo; i < hi; ++i)
    {
        cur_i = i;
        desc.clear();
        if (g_cur)
            std::snprintf(g_cur, 256, "%s %ld", name.c_str(), i);
        Rng r(mix(base, uint64_t(i)));
        arm(valgrind ? 30 * g_case_cpu : g_case_cpu);
        try
        {
            body(r);
        }
        catch (const Overrun& e)
        {
            fail("overrun", e.what());
        }
        catch (const Skip&)
        {
            event("skipped");
        }
        catch (const std::exception& e)
        {
            fail("exception", e.what());
        }
        ++evaluations;
        if (fails.size() > 50)
            break;
    }
    arm(0);
    event("cases." + name, hi - lo);
}
} // namespace vh

int main(int argc, char** argv)
{
    using namespace vh;
    Ctx ctx;
    std::string outp, curp, prop = "all";
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        else if (a == "--seed") ctx.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--scale") ctx.scale = std::atof(v.c_str());
        else if (a == "--tier") ctx.thorough = v == "thorough";
        else if (a == "--variant") { ctx.variant = v; ctx.valgrind = v == "valgrind"; }
        else if (a == "--out") outp = v;
        else if (a == "--cur") curp = v;
        else if (a == "--case-cpu") g_case_cpu = std::atoi(v.c_str());
        else if (a == "--only")
        {
            auto p = v.rfind('#');
            ctx.only_group = v.substr(0, p);
            if (p != std::string::npos)
                ctx.only_i = std::atol(v.c_str() + p + 1);
        }
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    ctx.out = outp.empty() ? stdout : std::fopen(outp.c_str(), "w");
    if (!ctx.out)
        return 2;
    if (!curp.empty())
    {
        int fd = open(curp.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 256) != 0)
            return 2;
        g_cur = static_cast<char*>(
            mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    std::signal(SIGVTALRM, on_hang);
    bool any = false;
    for (auto& p : registry())
        if (prop == "all" || prop == p.id)
        {
            any = true;
            ctx.prop = p.id;
            p.fn(ctx);
        }
    if (!any)
        return 2;
    std::fprintf(ctx.out, "{\"type\":\"stats\",\"evaluations\":%ld,\"distinct\":%zu,\"events\":{",
        ctx.evaluations, ctx.distinct.size());
    bool first = true;
    for (auto& [k, v] : ctx.events)
    {
        std::fprintf(ctx.out, "%s\"%s\":%ld", first ? "" : ",", esc(k).c_str(), v);
        first = false;
    }
    std::fprintf(ctx.out, "},\"fails\":{");
    first = true;
    for (auto& [k, v] : ctx.fails)
    {
        std::fprintf(ctx.out, "%s\"%s\":%ld", first ? "" : ",", esc(k).c_str(), v);
        first = false;
    }
    std::fprintf(ctx.out, "},\"samples\":[");
    first = true;
    for (auto& s : ctx.samples)
    {
        std::fprintf(ctx.out, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
        first = false;
    }
    std::fprintf(ctx.out, "]}\n");
    std::fclose(ctx.out);
    return 0;
}
