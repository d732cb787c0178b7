#include "trace.hpp"
void histories_d(vp::rnd &, unsigned);
void histories_g(vp::rnd &, unsigned);
void numeric(vp::rnd &, unsigned);
void symbolic(vp::rnd &, unsigned);
int main(int, char **argv)
{
    vp::rnd R(std::stoull(argv[1]));
    std::string mode = argv[2];
    unsigned n = static_cast<unsigned>(std::stoul(argv[3]));
    if (mode == "hd") histories_d(R, n);
    if (mode == "hg") histories_g(R, n);
    if (mode == "num") numeric(R, n);
    if (mode == "sym") symbolic(R, n);
    return 0;
}
