// harness GRAMMAR INPUTFILE OUTPUTFILE [START]
// Each input line: "ID u1 u2 ..." (code units). Each output line: a JSON array of strings.
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <cstdio>
#include <cstdlib>

namespace vf
{
using units = std::vector<unsigned long>;
using fn    = std::vector<std::string> (*)(const units&);
std::map<std::string, fn>& registry()
{
    static std::map<std::string, fn> m;
    return m;
}
}
static std::string esc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7F) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
int main(int argc, char** argv)
{
    if (argc < 3)
        return 3;
    std::ifstream in(argv[1]);
    std::FILE*    out = std::fopen(argv[2], "a");
    long          skip = argc > 3 ? std::atol(argv[3]) : 0;
    std::string   line;
    while (std::getline(in, line))
    {
        if (skip-- > 0)
            continue;
        std::istringstream ls(line);
        std::string        g;
        ls >> g;
        vf::units     us;
        unsigned long u;
        while (ls >> u)
            us.push_back(u);
        auto it = vf::registry().find(g);
        if (it == vf::registry().end())
            return 4;
        ::alarm(10);
        auto        obs = it->second(us);
        ::alarm(0);
        std::string r = "[";
        for (std::size_t i = 0; i < obs.size(); ++i)
            r += (i ? "," : "") + esc(obs[i]);
        r += "]\n";
        std::fwrite(r.data(), 1, r.size(), out);
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
