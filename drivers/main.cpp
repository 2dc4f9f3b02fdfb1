// driver SCRIPT OUT [FIRST]: runs the scenarios of a script from number FIRST on
#include "driver.h"
#include <fstream>
#include <iostream>

const char *const NAMES[UNIVERSE + 1] = {"x", "y", "b_1", "alpha", "Z2", "\303\251 q", "x1", "X", "", "x10", "x11", "beta", "b", "b_", "p0", "p1", "longer_name_of_variable_0123456789", "A", "-y", "1", "\316\261", "absent"};

std::map<std::string, Runner> &runners()
{
    static std::map<std::string, Runner> m;
    return m;
}

int main(int argc, char **argv)
{
    std::ifstream in(argv[1]);
    Out out{std::fopen(argv[2], "ab")};
    long first = argc > 3 ? std::atol(argv[3]) : 0, number = -1;
    std::string line, type;
    vector<Cmd> cmds;
    auto flush = [&]
    {
        if (number >= first && !cmds.empty())
        {
            auto it = runners().find(type);
            if (it == runners().end())
            {
                std::fprintf(stderr, "no type %s\n", type.c_str());
                std::_Exit(78);
            }
            std::printf("%ld\n", number); // scenario being run
            std::fflush(stdout);
            it->second(cmds, out);
        }
        cmds.clear();
    };
    while (std::getline(in, line))
    {
        std::istringstream s(line);
        std::string head;
        s >> head;
        if (head == "S")
        {
            flush();
            number++;
            s >> type;
            continue;
        }
        Cmd c;
        c.op = std::stol(head);
        size_t nI, nD;
        s >> nI;
        c.I.resize(nI);
        for (auto &x : c.I)
            s >> x;
        s >> nD;
        c.D.resize(nD);
        for (auto &x : c.D)
        {
            std::string h;
            s >> h;
            Word w = std::stoull(h, nullptr, 16);
            std::memcpy(&x, &w, 8);
        }
        cmds.push_back(c);
    }
    flush();
    std::fclose(out.file);
    std::printf("done\n");
    return 0;
}
