// Uses the special members of the tables and of an overload: rule "copies" of P09 interprets these functions.
#include <string>
#include <type_traits>
#include <utility>

#include "libqasm/overload.hpp"
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/resolver.hpp"

namespace probe_copies {

using cqasm::v3x::types::TypeBase;
using cqasm::v3x::types::Types;
using Tagged = cqasm::overload::Overload<std::string, TypeBase>;

// how: 0 copy, 1 move, 2 assign, 3 move-assign, 4 assign to itself; what a type does not offer gives the source back
template <class T>
T made(int how, T& source, T& target) {
    if constexpr (std::is_copy_constructible_v<T>) {
        if (how == 0) {
            T copy(source);
            return copy;
        }
    }
    if constexpr (std::is_copy_assignable_v<T>) {
        if (how == 2) {
            target = source;
            return std::move(target);
        }
        if (how == 4) {
            source = *&source;
        }
    }
    if constexpr (std::is_move_assignable_v<T>) {
        if (how == 3) {
            target = std::move(source);
            return std::move(target);
        }
    }
    T moved(std::move(source));
    return moved;
}

Tagged overload(const std::string& tag, const Types& types) {
    return Tagged(tag, types);
}
Tagged overload_made(int how, Tagged& source, Tagged& target) {
    return made(how, source, target);
}
std::string tag_of(const Tagged& x) {
    return x.get_tag();
}
unsigned long params_of(const Tagged& x) {
    return x.num_params();
}
const cqasm::v3x::types::Type& type_of(const Tagged& x, unsigned long i) {
    return x.param_type_at(i);
}

cqasm::v3x::resolver::ConstEvalCoreFunctionTable functions_made(
    int how, cqasm::v3x::resolver::ConstEvalCoreFunctionTable& source, cqasm::v3x::resolver::ConstEvalCoreFunctionTable& target) {
    return made(how, source, target);
}
void add_function(cqasm::v3x::resolver::ConstEvalCoreFunctionTable& t, const std::string& name, const Types& types, long answer) {
    t.add(name, types, [answer](const cqasm::v3x::values::Values&) -> cqasm::v3x::values::Value {
        return cqasm::tree::make<cqasm::v3x::values::ConstInt>(answer);
    });
}
void register_function(cqasm::v3x::analyzer::Analyzer& a, const std::string& name, const std::string& types, long answer) {
    a.register_consteval_core_function(name, types, [answer](const cqasm::v3x::values::Values&) -> cqasm::v3x::values::Value {
        return cqasm::tree::make<cqasm::v3x::values::ConstInt>(answer);
    });
}
void register_function_of(cqasm::v3x::analyzer::Analyzer& a, const std::string& name, const Types& types, long answer) {
    a.register_consteval_core_function(name, types, [answer](const cqasm::v3x::values::Values&) -> cqasm::v3x::values::Value {
        return cqasm::tree::make<cqasm::v3x::values::ConstInt>(answer);
    });
}
cqasm::v3x::resolver::InstructionTable instructions_made(
    int how, cqasm::v3x::resolver::InstructionTable& source, cqasm::v3x::resolver::InstructionTable& target) {
    return made(how, source, target);
}
cqasm::v3x::analyzer::Analyzer analyzer_made(
    int how, cqasm::v3x::analyzer::Analyzer& source, cqasm::v3x::analyzer::Analyzer& target) {
    return made(how, source, target);
}

}  // namespace probe_copies
