// The interactive prompt for the sampler's options, fed from a string.
#include "shim.hpp"
#include <iostream>
#include <sstream>
#include "include/random.hpp"
#include "include/samplers.hpp"

namespace {
// hands out the text, then throws: the prompt would otherwise ask for ever
struct Feed : std::streambuf {
    std::string text;
    explicit Feed(const std::string& s) : text(s) { setg(&text[0], &text[0], &text[0] + text.size()); }
    int_type underflow() override { throw std::runtime_error("the prompt asked for more than the answers given"); }
    size_t left() const { return egptr() - gptr(); }
};
}

extern "C" {

// num: sample size, thinning, burn-in, chains, characters left; names: data and output file, separated by a line end
int fn_prompt(const char* dir, const char* answers, int* num, char* names, int cap) {
    VTRY
    Feed feed(answers);
    std::streambuf* old = std::cin.rdbuf(&feed);
    std::ios::iostate ex = std::cin.exceptions();
    struct Back {
        std::streambuf* b; std::ios::iostate e;
        ~Back() { std::cin.exceptions(std::ios::goodbit); std::cin.rdbuf(b); std::cin.clear(); std::cin.exceptions(e); }
    } back = {old, ex};
    std::cin.clear();
    std::cin.exceptions(std::ios::badbit);
    MCMCOptions o = mcmc_options_prompt(dir);
    num[0] = o.sample_size; num[1] = o.thin; num[2] = o.burnin; num[3] = o.chains; num[4] = (int)feed.left();
    std::string s = o.data_file + "\n" + o.out_file;
    if ((int)s.size() + 1 > cap) { verif_error = "names too long"; return -3; }
    std::strcpy(names, s.c_str());
    return 0;
    VCATCH(-1)
}
int fn_readable(const char* f) { VTRY return read_from_file(f) ? 1 : 0; VCATCH(-1) }
int fn_writable(const char* f) { VTRY return write_to_file(f) ? 1 : 0; VCATCH(-1) }

}
