#include "trace.hpp"
void cgp_pd(vp::rnd &, const std::string &, unsigned);
void cgp_pg(vp::rnd &, const std::string &, unsigned);
void cgp_wd(vp::rnd &, const std::string &, unsigned);
void cgp_wg(vp::rnd &, const std::string &, unsigned);
void cgp_an(vp::rnd &, const std::string &, unsigned);
int main(int, char **argv)
{
    vp::rnd R(std::stoull(argv[1]));
    std::string t = argv[2], mode = argv[3];
    unsigned n = static_cast<unsigned>(std::stoul(argv[4]));
    if (t == "pd") cgp_pd(R, mode, n);
    if (t == "pg") cgp_pg(R, mode, n);
    if (t == "wd") cgp_wd(R, mode, n);
    if (t == "wg") cgp_wg(R, mode, n);
    if (t == "an") cgp_an(R, mode, n);
    return 0;
}
