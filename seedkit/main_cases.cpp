// cases: lines of MODE <tab> TEXT (with \n for line ends)
#include <fstream>
#include <iostream>
#include <string>
#include "libqasm/v3x/cqasm_python.hpp"
static std::string text(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'n') { r += '\n'; ++i; } else { r += s[i]; }
    }
    return r;
}
int main(int, char** argv) {
    std::ifstream f(argv[1]);
    std::string l;
    while (std::getline(f, l)) {
        auto t = l.find('\t');
        auto mode = l.substr(0, t), prog = text(l.substr(t + 1));
        std::cout << (mode == "ast" ? V3xAnalyzer::parse_string_to_json(prog, "in.cq") : V3xAnalyzer{}.analyze_string_to_json(prog, "in.cq")) << "\n";
    }
}
