// Uses the public interface the way a client does, with its default arguments; analysed, never run.
#include <optional>
#include <string>
#include <vector>

#include "emscripten_wrapper.hpp"
#include "libqasm/cqasm.hpp"
#include "libqasm/v3x/cqasm_python.hpp"

namespace probe {

using Program = cqasm::tree::One<cqasm::v3x::semantic::Program>;

std::vector<std::string> parse_file(const std::string& p) {
    return V3xAnalyzer::parse_file(p);
}
std::string parse_file_to_json(const std::string& p) {
    return V3xAnalyzer::parse_file_to_json(p);
}
std::vector<std::string> parse_string(const std::string& d) {
    return V3xAnalyzer::parse_string(d);
}
std::string parse_string_to_json(const std::string& d) {
    return V3xAnalyzer::parse_string_to_json(d);
}
std::vector<std::string> analyze_file(const std::string& p) {
    return V3xAnalyzer{}.analyze_file(p);
}
std::string analyze_file_to_json(const std::string& p) {
    return V3xAnalyzer{}.analyze_file_to_json(p);
}
std::vector<std::string> analyze_string(const std::string& d) {
    return V3xAnalyzer{}.analyze_string(d);
}
std::string analyze_string_to_json(const std::string& d) {
    return V3xAnalyzer{}.analyze_string_to_json(d);
}
Program library_file(const std::string& p) {
    return cqasm::v3x::analyze_file(p);
}
Program library_file_of(const std::string& p, const std::string& v) {
    return cqasm::v3x::analyze_file(p, v);
}
Program library_string_of(const std::string& d, const std::optional<std::string>& n, const std::string& v) {
    return cqasm::v3x::analyze_string(d, n, v);
}
Program library_string(const std::string& d, const std::optional<std::string>& n) {
    return cqasm::v3x::analyze_string(d, n);
}
cqasm::v3x::analyzer::AnalysisResult default_string(const std::string& d, const std::optional<std::string>& n) {
    return cqasm::v3x::default_analyzer().analyze_string(d, n);
}
cqasm::v3x::analyzer::AnalysisResult default_file(const std::string& p) {
    return cqasm::v3x::default_analyzer().analyze_file(p);
}
cqasm::v3x::analyzer::AnalysisResult plain_string(const std::string& d, const std::optional<std::string>& n) {
    return cqasm::v3x::analyzer::Analyzer{}.analyze_string(d, n);
}
std::vector<std::string> registered(const std::string& d, const std::string& name, const std::string& types) {
    V3xAnalyzer a{ "3.0", true };
    a.register_instruction(name, types);
    return a.analyze_string(d);
}
std::string web_version() {
    return EmscriptenWrapper{}.get_version();
}
std::string web_parse(const std::string& d, const std::string& n) {
    return EmscriptenWrapper{}.parse_string_to_json(d, n);
}
std::string web_analyze(const std::string& d, const std::string& n) {
    return EmscriptenWrapper{}.analyze_string_to_json(d, n);
}

}  // namespace probe
