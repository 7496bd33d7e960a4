import sys; sys.path.insert(0,'/verif/seedkit')
from mk import mk
A='src/v3x/semantic_analyzer.cpp'
UT='#include <iostream>\n#include "libqasm/utils.hpp"\nusing namespace cqasm::utils;\nint bad = 0;\n#define CHECK(x) do { if (!(x)) { std::cout << "wrong: " #x "\\n"; bad = 1; } } while (0)\n'
mk('url_low_bytes','P01',[('src/utils.cpp','fmt::format("%{:02X}", static_cast<unsigned int>(c));','fmt::format("%{:X}", static_cast<unsigned int>(c));')],
   'a byte below 0x10 in the text, such as a tab or line end in a file name','url_encode writes one digit instead of two for bytes below 0x10, so the encoded text no longer decodes',
   plain='src/utils.cpp',main=UT+'int main() { CHECK(url_encode("a\\tb") == "a%09b"); CHECK(url_encode("\\n") == "%0A"); CHECK(url_encode(" ") == "%20"); return bad; }\n')
mk('case_fold_bit','P02',[('src/utils.cpp','''        return std::tolower(l) == std::tolower(r);''','''        return l == r || ((l ^ r) == 0x20 && std::isalpha(l | 0x20));'''),
   ],
   'two bytes that differ in bit 0x20 only and are letters once that bit is set: with "| 0x20" a byte such as 0x1B..0x1F is no letter, but @ and ` are compared by isalpha of the folded byte','nothing yet') if 0 else None
mk('case_compare_prefix','P02',[('src/utils.cpp','''    return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {
        return std::tolower(l) == std::tolower(r);
    });''','''    return lhs.size() <= rhs.size() && ranges::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.begin() + lhs.size(), [](unsigned char l, unsigned char r) {
        return std::tolower(l) == std::tolower(r);
    });''')],'a left text that is a proper prefix of the right one','equal_case_insensitive accepts a text as equal to one it is a prefix of',
   plain='src/utils.cpp',main=UT+'int main() { CHECK(!equal_case_insensitive("x", "X90")); CHECK(!equal_case_insensitive("X90", "x")); CHECK(equal_case_insensitive("aB", "Ab")); CHECK(!equal_case_insensitive("", "a")); return bad; }\n')
AN='#include <iostream>\n#include <sstream>\n#include "libqasm/annotations.hpp"\nusing namespace cqasm::annotations;\nint bad = 0;\n#define CHECK(x) do { if (!(x)) { std::cout << "wrong: " #x "\\n"; bad = 1; } } while (0)\n'
mk('expand_componentwise','P03',[('src/annotations.cpp','''    range.last = std::max<Index>(range.last, index);
}''','''    range.last.line = std::max(range.last.line, index.line);
    range.last.column = std::max(range.last.column, index.column);
}''')],'expanding to a position on a later line at a smaller column, or an earlier line at a greater one','the end of the location moves to a position that is in neither of the two',
   plain='src/annotations.cpp',main=AN+'''int main() {
    SourceLocation l{ "f", { { 1, 5 }, { 1, 20 } } };
    l.expand_to_include({ 2, 3 });
    CHECK(l.range.first.line == 1 && l.range.first.column == 5 && l.range.last.line == 2 && l.range.last.column == 3);
    SourceLocation m{ "f", { { 3, 1 }, { 3, 2 } } };
    m.expand_to_include({ 1, 9 });
    CHECK(m.range.last.line == 3 && m.range.last.column == 2);
    return bad;
}
''')
mk('print_multiline','P04',[('src/annotations.cpp','''    } else if (object.range.last.line > object.range.first.line) {
        // Range is on multiple lines.''','''    } else if (object.range.last.line > object.range.first.line && object.range.last.column >= object.range.first.column) {
        // Range is on multiple lines.''')],'a range that ends on a later line at a column left of where it starts','the end of the range is not printed',
   plain='src/annotations.cpp',main=AN+'''int main() {
    auto p = [](SourceLocation l) { std::ostringstream s; s << l; return s.str(); };
    CHECK((p(SourceLocation{ "f", { { 1, 5 }, { 2, 3 } } }) == "f:1:5..2:3"));
    CHECK((p(SourceLocation{ "f", { { 1, 5 }, { 2, 9 } } }) == "f:1:5..2:9"));
    CHECK((p(SourceLocation{ "f", { { 1, 5 }, { 1, 9 } } }) == "f:1:5..9"));
    return bad;
}
''')
mk('error_context_replaces','P05',[('src/error.cpp','''    if (!location_) {
        if (auto loc''','''    if (!location_ || !location_->file_name) {
        if (auto loc''')],'an error raised with a location that names no file, passing a node that has one','the precise location of an error in a program without file name is replaced by that of an enclosing node',
   plain='src/error.cpp src/annotations.cpp src/utils.cpp',standin=True,main='''#include <iostream>
#include "libqasm/error.hpp"
namespace error = cqasm::error;
namespace annotations = cqasm::annotations;
int main() {
    cqasm::tree::Annotatable n;
    n.set_annotation(annotations::SourceLocation{ "f", { { 9, 9 }, { 9, 9 } } });
    error::AnalysisError e{ "m", std::nullopt, { { 1, 2 }, { 1, 3 } } };
    e.context(n);
    std::string w = e.what();
    if (w != "Error at <unknown file name>:1:2..3: m") { std::cout << w << "\\n"; return 1; }
    error::AnalysisError g{ "m" };
    g.context(n);
    w = g.what();
    if (w != "Error at f:9:9: m") { std::cout << w << "\\n"; return 1; }
}
''')
mk('version_compare_short','P07',[('src/version.cpp','''    for (size_t i = 0; i < this->size() || i < other.size(); i++) {''','''    for (size_t i = 0; i < std::min(this->size(), other.size()) || i + 1 < std::max(this->size(), other.size()); i++) {''')],
   'versions of different lengths that differ in the last component only','3.0.1 compares equal to 3.0',
   plain='src/version.cpp src/error.cpp src/annotations.cpp src/utils.cpp',standin=True,main='''#include <iostream>
#include "libqasm/version.hpp"
using cqasm::version::Version;
int bad = 0;
#define CHECK(x) do { if (!(x)) { std::cout << "wrong: " #x "\\n"; bad = 1; } } while (0)
int main() {
    CHECK(Version("3.1") > Version("3"));
    CHECK(Version("3") < Version("3.1"));
    CHECK(Version("3.0") == Version("3"));
    CHECK(Version("3.0.0") == Version("3"));
    CHECK(Version("3.0.1") != Version("3.0"));
    return bad;
}
''')
mk('overload_stale_arguments','P09',[('include/libqasm/overload.hpp','''        for (auto overload = overloads.rbegin(); overload != overloads.rend(); ++overload) {
            if (overload->num_params() != args.size()) {
                continue;
            }
            Values promoted_args;
''','''        Values promoted_args;
        for (auto overload = overloads.rbegin(); overload != overloads.rend(); ++overload) {
            if (overload->num_params() != args.size()) {
                continue;
            }
''')],'an overload of the right arity whose first argument promotes and whose later one does not, tried before the right one','the arguments promoted for the refused overload stay in the argument list of the chosen one',
   cases=['sem\tversion 3.0; qubit q; Rx(1 < 2.5) q','sem\tversion 3.0; qubit q; Rx(true ? 1 : 2.5) q','sem\tversion 3.0; qubit q; Rx(3 + 0.5) q','sem\tversion 3.0; qubit[2] q; bit[2] b; b = measure q'])
mk('operand_sizes_ends','P14',[(A,'''    if (std::adjacent_find(qubit_operands_indices_size.begin(),
            qubit_operands_indices_size.end(),
            std::not_equal_to<>()) != qubit_operands_indices_size.end()) {''','''    if (!std::is_sorted(qubit_operands_indices_size.begin(), qubit_operands_indices_size.end())) {''')],
   'a two-qubit gate whose second operand has more qubits than the first','a gate is accepted with operands of different sizes',
   cases=['sem\tversion 3.0; qubit[3] q; qubit[2] r; CNOT q, r','sem\tversion 3.0; qubit[3] q; qubit[2] r; CNOT r, q','sem\tversion 3.0; qubit[3] q; CNOT q[0], q[1,2]','sem\tversion 3.0; qubit[3] q; CNOT q[0:1], q[1:2]'])
mk('variable_kept_on_redeclaration','P20',[('src/v3x/resolver.cpp','''    if (auto entry = table.find(name); entry != table.end()) {
        throw NameResolutionFailure{ fmt::format("trying to redeclare variable '{}'", name) };
    }
    table.insert(std::make_pair(name, value));''','''    if (auto entry = table.find(name); entry != table.end() && !entry->second->as_constant()) {
        throw NameResolutionFailure{ fmt::format("trying to redeclare variable '{}'", name) };
    }
    table.insert_or_assign(name, value);''')],'a variable declared under the name of a predefined constant','pi, tau and the like can be redeclared as variables, silently changing what they mean',
   cases=['sem\tversion 3.0; qubit pi; X pi','sem\tversion 3.0; qubit q; bit q','sem\tversion 3.0; qubit q; Rx(pi) q','sem\tversion 3.0; qubit tau; qubit q; Rx(tau) q'])
mk('octal_integers','P22',[('src/v3x/syntactic_analyzer.cpp','        return std::stoll(text);','        return std::stoll(text, nullptr, 0);')],'an integer with leading zeros','010 is read as eight, and 08 as zero',
   cases=['ast\tversion 3.0; g 010, 08, 0, 00','ast\tversion 3.0; g 10, 7, 0x','sem\tversion 3.0; qubit[010] q; X q[8]'])
mk('index_range_location','P28',[(A,'''        index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);
        ret.add(index_value_sp);''','''        if (ret.empty()) {
            index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);
        }
        ret.add(index_value_sp);''')],'looking at the location of any but the first index of a range','the indices of a range after the first have no source location',
   main='''#include <iostream>
#include "libqasm/v3x/analyzer.hpp"
#include "libqasm/v3x/cqasm.hpp"
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/semantic.hpp"
using namespace cqasm;
int main() {
    // positions of ranges come from the builder of the tree, so they are set here
    auto parsed = v3x::parser::parse_string("version 3.0; qubit[5] q; X q[1:3]", "in.cq");
    auto& statement = parsed.root->as_program()->block->statements[1];
    auto index = statement->as_gate_instruction()->operands->items[0]->as_index();
    index->indices->items[0]->set_annotation(annotations::SourceLocation{ "in.cq", { { 7, 8 }, { 7, 9 } } });
    auto analyzer = v3x::default_analyzer("3.0");
    auto result = analyzer.analyze(parsed);
    auto ref = result.root->block->statements[0]->as_gate_instruction()->operands[0]->as_index_ref();
    for (const auto& i : ref->indices) {
        auto l = i->get_annotation_ptr<annotations::SourceLocation>();
        if (l) { std::cout << i->value << " " << *l << "\\n"; } else { std::cout << i->value << " nowhere\\n"; }
    }
}
''')
mk('promote_bool_float','P12',[('src/v3x/values.cpp','''        return to_type->as_int() || to_type->as_float();''','''        return to_type->as_int();''')],'a boolean given for a floating-point parameter','a boolean is refused where it promotes to a floating-point number',
   cases=['sem\tversion 3.0; qubit q; Rx(true) q','sem\tversion 3.0; qubit q; Rx(1) q','sem\tversion 3.0; qubit q; wait(true) q'])
mk('gate_parameter_continues','P16',[(A,'''        ret->parameters = std::any_cast<values::Values>(visit_expression_list(*node.parameters));

        // Resolve the parameter
        ret->parameters = resolve_parameters(ret->name, ret->parameters);
''','''        try {
            ret->parameters = std::any_cast<values::Values>(visit_expression_list(*node.parameters));
        } catch (error::AnalysisError& err) {
            err.context(node);
            result_.errors.push_back(std::move(err));
        }

        // Resolve the parameter
        ret->parameters = resolve_parameters(ret->name, ret->parameters);
''')],'a gate parameter that is invalid in itself','an invalid gate parameter yields two errors for one statement, or one and a statement without it',
   cases=['sem\tversion 3.0; qubit q; Rx(1 / 0) q','sem\tversion 3.0; qubit q; Rx(nope) q; X q','sem\tversion 3.0; qubit q; X(nope) q','sem\tversion 3.0; qubit q; Rx(1.5) q'])
SY='src/v3x/syntactic_analyzer.cpp'
mk('errors_capped','P06',[('include/libqasm/result.hpp','fmt::join(errors | ranges::views::transform(','fmt::join(errors | ranges::views::take(20) | ranges::views::transform('),('include/libqasm/result.hpp','#include <range/v3/view/transform.hpp>','#include <range/v3/view/take.hpp>\n#include <range/v3/view/transform.hpp>')],
   'a program with more than 20 errors','only the first 20 errors are in the JSON result',
   cases=['sem\tversion 3.0; '+'; '.join('X nope%d'%i for i in range(n)) for n in (1,2,20,21,25)])
mk('unknown_escape_dropped','P08',[('src/string_builder.cpp','        stream << escape;','        stream << escape.substr(1);')],
   'an escape sequence that has no meaning','the backslash of an unknown escape sequence is lost',
   plain='src/string_builder.cpp',standin=True,main='''#include <iostream>
#include "libqasm/string_builder.hpp"
using cqasm::syntactic::StringBuilder;
int main() {
    int bad = 0;
    for (std::string e : { "\\\\q", "\\\\0", "\\\\x", "\\\\a" }) {
        StringBuilder b;
        b.push_string("<"); b.push_escape(e); b.push_string(">");
        if (b.stream.str() != "<" + e + ">") { std::cout << e << " gives " << b.stream.str() << "\\n"; bad = 1; }
    }
    StringBuilder b;
    b.push_escape("\\\\n"); b.push_escape("\\\\\\\\");
    return bad || b.stream.str() != "\\n\\\\";
}
''')
mk('xor_is_equivalence','P10',[('include/libqasm/v3x/register_consteval_core_functions.hpp','return !lhs ^ !rhs; };','return !(lhs ^ rhs); };')],
   'a logical exclusive or','a ^^ b is true exactly when it should be false',
   cases=['sem\tversion 3.0; qubit[4] q; Rx(true ^^ %s ? 1.5 : 2.5) q'%b for b in('true','false','true ^^ true')]+['sem\tversion 3.0; qubit q; Rx(1 | 6) q'])
mk('division_overload_order','P11',[('src/v3x/register_consteval_core_functions.cpp','''    analyzer->register_consteval_core_function("operator/", "ff", op_div_ff);
    analyzer->register_consteval_core_function("operator/", "ii", op_div_ii);''','''    analyzer->register_consteval_core_function("operator/", "ii", op_div_ii);
    analyzer->register_consteval_core_function("operator/", "ff", op_div_ff);''')],
   'a division of two integers that is not exact, or used as an index','integers are divided as floating-point numbers',
   cases=['sem\tversion 3.0; qubit[4] q; Rx(7 / 2) q','sem\tversion 3.0; qubit[4] q; X q[7 / 2]','sem\tversion 3.0; qubit[4] q; Rx(7.0 / 2) q','sem\tversion 3.0; qubit[4] q; CRk(9 / 2 + 1) q[0], q[1]'])
mk('gate_list_entry_lost','P13',[('src/v3x/instruction_set.cpp','"Y90", "Z", "Z90"\n','"Y90", "Z"\n')],
   'the gate Z90','Z90 is in the instruction map but in none of the lists, so it is no gate to the rest of the library',
   cases=['sem\tversion 3.0; qubit q; Z90 q','sem\tversion 3.0; qubit q; inv.Z90 q','sem\tversion 3.0; qubit q; Y90 q'])
mk('range_error_escapes','P15',[(A,'''        throw error::AnalysisError("last index is lower than first index", &index_range_ast);''','''        throw std::range_error("last index is lower than first index");''')],
   'a range whose last index is lower than its first','an invalid range makes the analysis throw instead of reporting an error',
   cases=['sem\tversion 3.0; qubit[5] q; X q[3:1]','sem\tversion 3.0; qubit[5] q; X q[1:3]','sem\tversion 3.0; qubit[5] q; X q[4:9]'])
mk('asm_returned_as_itself','P17',[(SY,'''    ret->backend_code = remove_triple_quotes(context->RAW_TEXT_STRING()->getText());
    return One<Statement>{ ret };''','''    ret->backend_code = remove_triple_quotes(context->RAW_TEXT_STRING()->getText());
    return ret;''')],'a program with an asm declaration','the node is put into an std::any as another type than the one it is taken out as',
   cases=["ast\tversion 3.0; asm (b) ''' code '''","ast\tversion 3.0; qubit q","sem\tversion 3.0; qubit q; asm (b) ''' x '''; X q"])
mk('power_regrouped','P18',[(SY,'''    return visitBinaryExpression<PowerExpression>(context, context->POWER_OP()->getSymbol());''','''    auto ret = std::any_cast<One<Expression>>(
        visitBinaryExpression<PowerExpression>(context, context->POWER_OP()->getSymbol()));
    // Group from right to left
    auto power = ret->as_power_expression();
    if (auto lhs = power->lhs->as_power_expression()) {
        auto rhs = tree::make<PowerExpression>(lhs->rhs, power->rhs);
        copyNodeAnnotation(ret, rhs);
        auto base = lhs->lhs;
        power->lhs = base;
        power->rhs = rhs;
    }
    return ret;''')],'a power whose base is a power in parentheses','(a ** b) ** c is grouped as a ** (b ** c)',
   cases=['ast\tversion 3.0; g (a ** b) ** c','ast\tversion 3.0; g a ** b ** c','ast\tversion 3.0; g a ** (b ** c)','sem\tversion 3.0; qubit q; Rx((2.0 ** 3) ** 2) q'])
mk('index_size_accepted','P19',[(A,'''        if (index_item->value < 0 || index_item->value >= size) {''','''        if (index_item->value < 0 || index_item->value > size) {''')],
   'an index equal to the size of the register','an index one past the end is accepted',
   cases=['sem\tversion 3.0; qubit[3] q; X q[3]','sem\tversion 3.0; qubit[3] q; X q[2]','sem\tversion 3.0; qubit[3] q; X q[0, 3]','sem\tversion 3.0; qubit[3] q; X q[-1]'])
mk('minor_version_column','P21',[(SY,'token->getCharPositionInLine() + matches.position(2), matches[2]','token->getCharPositionInLine() + matches.length(2), matches[2]')],
   'a minor version that does not fit an integer','the error points at the wrong column',
   cases=['ast\tversion 3.99999999999999999999','ast\t  version   12345.99999999999999999999','ast\tversion 99999999999999999999.0'])
mk('python_text_latin1','P23',[('python/module/cqasm/v3x/primitives.py',"return Str(val['x'], 'utf-8')","return Str(val['x'], 'latin-1')")],
   'a text with a character outside ASCII','Python reads non-ASCII texts wrongly',
   py='''import os, sys, types
root = sys.argv[1]
sys.path.insert(0, os.path.join(root, 'python', 'module'))
sys.modules['cqasm.v3x.types'] = t = types.ModuleType('cqasm.v3x.types')
class Node: pass
t.Node = Node
pkg = types.ModuleType('cqasm'); pkg.__path__ = [os.path.join(root, 'python', 'module', 'cqasm')]; sys.modules['cqasm'] = pkg
sub = types.ModuleType('cqasm.v3x'); sub.__path__ = [os.path.join(root, 'python', 'module', 'cqasm', 'v3x')]; sys.modules['cqasm.v3x'] = sub
pkg.v3x = sub; sub.types = t
from cqasm.v3x import primitives
for s in ('qubit', '\\u00e9', '\\u03b8 \\U0001d6fc'):
    got = primitives.deserialize(primitives.Str, {'x': s.encode('utf-8')})
    if got != s:
        print('wrong:', ascii(s), ascii(got)); sys.exit(1)
''')
mk('json_without_file_name','P24',[('src/v3x/cqasm_python.cpp','''[[nodiscard]] std::string V3xAnalyzer::analyze_string_to_json(
    const std::string& data, const std::string& file_name) const {
    auto file_name_op = !file_name.empty() ?''','''[[nodiscard]] std::string V3xAnalyzer::analyze_string_to_json(
    const std::string& data, const std::string& file_name) const {
    auto file_name_op = file_name.find('/') != std::string::npos ?''')],
   'a file name without a slash','analyze_string_to_json forgets the file name where analyze_string uses it',
   cases=['sem\tversion 3.0; X q','ast\tversion 3.0; X'])
mk('variables_remembered','P25',[('src/v3x/analyzer.cpp','''    for (const auto& scope : scope_stack_) {
        try {
            return scope.variable_table.resolve(name);
        } catch (const error::AnalysisError&) {''','''    static resolver::VariableTable resolved{};
    for (const auto& scope : scope_stack_) {
        try {
            return resolved.resolve(name);
        } catch (const error::AnalysisError&) {
            // Not resolved before
        }
        try {
            auto ret = scope.variable_table.resolve(name);
            resolved.add(name, ret);
            return ret;
        } catch (const error::AnalysisError&) {''')],'two programs that declare the same name differently','the second program sees the variable of the first',
   cases=['sem\tversion 3.0; qubit[3] q; X q[2]','sem\tversion 3.0; qubit[2] q; X q[2]','sem\tversion 3.0; X q[0]'])
mk('types_shared','P26',[('src/v3x/types.cpp','''    Types types;
    for (auto c : spec) {
        types.add(from_spec(c));
    }
    return types;''','''    static std::unordered_map<std::string, Types> known{};
    if (auto entry = known.find(spec); entry != known.end()) {
        return entry->second;
    }
    Types types;
    for (auto c : spec) {
        types.add(from_spec(c));
    }
    known.emplace(spec, types);
    return types;''')],'two users of the same specification, one of which changes its types, or two threads','all types made from the same specification are the same nodes, kept in an unguarded global table',
   main='''#include <iostream>
#include "libqasm/v3x/semantic.hpp"
#include "libqasm/v3x/types.hpp"
using namespace cqasm::v3x;
int main() {
    auto a = types::from_spec(std::string{ "VQ" });
    a[0]->as_qubit_array()->size = 7;
    auto b = types::from_spec(std::string{ "VQ" });
    std::cout << b[0]->as_qubit_array()->size << " " << (a[1].get_ptr() == b[1].get_ptr()) << "\\n";
}
''')
mk('ge_read_as_gt','P18',[(SY,'return visitBinaryExpression<CmpGeExpression>(','return visitBinaryExpression<CmpGtExpression>(')],
   'a comparison with >=','a >= b is read as a > b',
   cases=['ast\tversion 3.0; g a %s b'%o for o in('>','>=','<','<=','==','!=')])
mk('python_errors_deduplicated','P29',[('python/module/cqasm/v3x/__init__.py','''        ret = super().analyze_string(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="surrogateescape")
            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return [str(error) for error in ret[1:]]''','''        ret = super().analyze_string(*args)
        if len(ret) == 1:
            serialized_ast_str = str(ret[0])
            serialized_ast_bytes = serialized_ast_str.encode(encoding='utf-8', errors="surrogateescape")
            deserialized_ast = semantic.Program.deserialize(serialized_ast_bytes)
            return deserialized_ast
        return list(dict.fromkeys(str(error) for error in ret[1:]))''')],
   'a program with two errors of the same text, such as two without a location','the second of two equal errors is lost',
   py='''import os, sys, types
root = sys.argv[1]
def module(name, **members):
    m = types.ModuleType(name); m.__dict__.update(members); sys.modules[name] = m; return m
class V3xAnalyzer:
    ret = []
    def analyze_string(self, *args): return list(self.ret)
module('libqasm', V3xAnalyzer=V3xAnalyzer)
class Tree:
    @staticmethod
    def deserialize(b): return ('tree', b)
pkg = module('cqasm'); pkg.__path__ = []
sub = module('cqasm.v3x'); sub.__path__ = []
pkg.v3x = sub
sub.ast = module('cqasm.v3x.ast', Root=Tree)
sub.semantic = module('cqasm.v3x.semantic', Program=Tree)
g = {'__name__': 'cqasm.v3x.init'}
exec(compile(open(os.path.join(root, 'python/module/cqasm/v3x/__init__.py')).read(), '__init__.py', 'exec'), g)
a = g['Analyzer']()
for ret, want in ((['', 'e', 'e'], ['e', 'e']), (['', 'a', 'b', 'a'], ['a', 'b', 'a']), (['', 'a'], ['a']), (['xyz'], ('tree', b'xyz'))):
    V3xAnalyzer.ret = ret
    got = a.analyze_string('program')
    if got != want:
        print('wrong:', ret, got); sys.exit(1)
''')
A='src/v3x/semantic_analyzer.cpp'
SY='src/v3x/syntactic_analyzer.cpp'
mk('error_text_kept','P05',[('src/error.cpp','    what_message_ = fmt::format("Error{}: {}",','    if (what_message_.empty()) what_message_ = fmt::format("Error{}: {}",')],
   'the text of an error asked for before it is given the location of an enclosing construct, and again afterwards','the text stays that of the first time, without the location',
   plain='src/error.cpp src/annotations.cpp src/utils.cpp',standin=True,main='''#include <iostream>
#include "libqasm/error.hpp"
namespace error = cqasm::error;
namespace annotations = cqasm::annotations;
int main() {
    error::AnalysisError e{ "m" };
    std::string w = e.what();
    if (w != "Error: m") { std::cout << w << "\\n"; return 1; }
    cqasm::tree::Annotatable n;
    n.set_annotation(annotations::SourceLocation{ "f", { { 9, 9 }, { 9, 9 } } });
    e.context(n);
    w = e.what();
    if (w != "Error at f:9:9: m") { std::cout << w << "\\n"; return 1; }
}
''')
mk('instruction_equal_if_printed','P31',[('src/v3x/instruction.cpp','''    return name == rhs.name && operand_types.equals(rhs.operand_types);''','''    return fmt::format("{}", *this) == fmt::format("{}", rhs);''')],
   'two instructions that print alike: operand types of different sizes','instructions of different operand types compare equal',
   main='''#include <iostream>
#include "libqasm/v3x/instruction.hpp"
#include "libqasm/v3x/types.hpp"
using namespace cqasm::v3x;
int main() {
    instruction::Instruction a{ "X", "V" }, b{ "X", "V" }, c{ "X", "Q" }, d{ "Y", "V" };
    std::cout << (a == b) << (a == c) << (a == d) << "\\n";
    b.operand_types[0]->as_qubit_array()->size = 7;
    std::cout << (a == b) << (b == b) << "\\n";
}
''')
mk('name_cut','P20',[(A,'''        ret->name = identifier->name;
        ret->typ''','''        ret->name = identifier->name.substr(0, 63);
        ret->typ''')],'a name of more than 63 characters','the variable of the tree does not have the name it was declared under',
   cases=['sem\tversion 3.0; qubit q'+'x'*62,'sem\tversion 3.0; qubit q'+'x'*63+'; qubit q'+'x'*62+'y','sem\tversion 3.0; qubit q'+'y'*99+'; X q'+'y'*99])
mk('conditional_nested','P11',[(A,'''        tree::make<syntactic::ExpressionList>(
            tree::Any<syntactic::Expression>{ node.cond, node.if_true, node.if_false }));''','''        tree::make<syntactic::ExpressionList>(
            node.if_true->as_ternary_conditional_expression() ? tree::Any<syntactic::Expression>{ node.cond, node.if_false, node.if_true }
                                                              : tree::Any<syntactic::Expression>{ node.cond, node.if_true, node.if_false }));''')],
   'a conditional expression directly within the second operand of another','the wrong operand is chosen',
   cases=['sem\tversion 3.0; qubit q; Rx(true ? 1 : 2) q','sem\tversion 3.0; qubit q; Rx(true ? false ? 1 : 2 : 3) q','sem\tversion 3.0; qubit q; Rx(false ? 1 : true ? 2 : 3) q'])
mk('column_byte','P21',[(SY,'''        { { static_cast<std::uint32_t>(token->getLine()),
              static_cast<std::uint32_t>(token->getCharPositionInLine() + 1) },''','''        { { static_cast<std::uint32_t>(token->getLine()),
              static_cast<std::uint8_t>(token->getCharPositionInLine() + 1) },''')],
   'a construct beyond column 255','its location starts at the column modulo 256',
   main='''#include <iostream>
#include "libqasm/v3x/parse_helper.hpp"
#include "libqasm/v3x/syntactic.hpp"
using namespace cqasm;
int main() {
    for (size_t blanks : { size_t{ 1 }, size_t{ 300 } }) {
        auto parsed = v3x::parser::parse_string("version 3.0;" + std::string(blanks, ' ') + "X q", "in.cq");
        auto l = parsed.root->as_program()->block->statements[0]->get_annotation_ptr<annotations::SourceLocation>();
        if (l) { std::cout << *l << "\\n"; } else { std::cout << "nowhere\\n"; }
    }
}
''')
mk('list_file_name_kept','P26',[('src/v3x/antlr_custom_error_listener.cpp','''    throw error::ParseError{
        msg,
        file_name_,''','''    static const auto file_name = file_name_;
    throw error::ParseError{
        msg,
        file_name,''')],'syntax errors in two programs with different file names, in one process','the second error carries the file name of the first',
   main='''#include <iostream>
#include "libqasm/v3x/parse_helper.hpp"
using namespace cqasm;
int main() {
    for (std::string name : { "a.cq", "b.cq", "" }) {
        auto parsed = v3x::parser::parse_string("version 3.0; X", name);
        for (const auto& e : parsed.errors) { std::cout << e.what() << "\\n"; }
    }
}
''')
mk('promotion_unlocated','P12',[('src/v3x/values.cpp','''        ret->copy_annotation<parser::SourceLocation>(*value);''','''        if (value->as_const_int()) {
            ret->copy_annotation<parser::SourceLocation>(*value);
        }''')],'a boolean where a number is expected','the promoted value has no source location',
   main='''#include <iostream>
#include "libqasm/annotations.hpp"
#include "libqasm/v3x/types.hpp"
#include "libqasm/v3x/values.hpp"
#include "libqasm/v3x/semantic.hpp"
using namespace cqasm;
int main() {
    auto show = [](v3x::values::Value v, v3x::types::Type t) {
        v->set_annotation(annotations::SourceLocation{ "f", { { 3, 4 }, { 3, 8 } } });
        auto p = v3x::values::promote(v, t);
        auto l = p->get_annotation_ptr<annotations::SourceLocation>();
        if (l) { std::cout << *l << "\\n"; } else { std::cout << "nowhere\\n"; }
    };
    show(cqasm::tree::make<v3x::values::ConstInt>(1), cqasm::tree::make<v3x::types::Float>());
    show(cqasm::tree::make<v3x::values::ConstBool>(true), cqasm::tree::make<v3x::types::Float>());
    show(cqasm::tree::make<v3x::values::ConstBool>(true), cqasm::tree::make<v3x::types::Int>());
}
''')
mk('loader_path_entry','P30',[('python/module/libqasm/__init__.py','''if ld_lib_path:
    ld_lib_path += ':\'''','''if ld_lib_path and not ld_lib_path.endswith(':'):
    ld_lib_path += ':\'''')],'a loader path that ends in an empty entry (the current directory)','the last entry is lost when the library is imported',
   py='''import os, sys, types
root = sys.argv[1]
path = os.path.join(root, 'python', 'module', 'libqasm', '__init__.py')
for old in ('', '/a', '/a:/b', '/a:', ':/a'):
    for n in [n for n in sys.modules if n.startswith('demo')]: del sys.modules[n]
    pkg = types.ModuleType('demo'); pkg.__path__ = []; sys.modules['demo'] = pkg
    native = types.ModuleType('demo.libqasm'); sys.modules['demo.libqasm'] = native
    os.environ['LD_LIBRARY_PATH'] = old
    exec(compile(open(path).read(), path, 'exec'), {'__name__': 'demo', '__package__': 'demo', '__file__': '/own/__init__.py', '__path__': []})
    want = (old + ':' if old else '') + '/own'
    if os.environ['LD_LIBRARY_PATH'] != want:
        print('wrong:', repr(old), os.environ['LD_LIBRARY_PATH']); sys.exit(1)
''')
mk('indices_reserved','P19',[(A,'''    IndexListT ret{};
    for (auto index''','''    IndexListT ret{};
    ret.get_vec().reserve(static_cast<size_t>(last) * sizeof(primitives::Int));
    for (auto index''')],'an array of astronomic size and a short range near its end','the analysis throws length_error instead of giving a result',cases=['sem\tversion 3.0; qubit[9223372036854775807] q; X q[9223372036854775805:9223372036854775806]','sem\tversion 3.0; qubit[3] q; X q[1:2]'])
mk('inverses_cancelled','P28',[(A,'''        ret->name = node.name->name;
        if (!node.gate.empty()) {''','''        ret->name = node.name->name;
        if (!node.gate.empty() && ret->name == "inv" && node.gate->name->name == "inv" && !node.gate->gate.empty()) {
            return visit_gate(*node.gate->gate);
        }
        if (!node.gate.empty()) {''')],'a gate with the modifier inv applied twice in a row','both modifiers are missing from the tree',
   cases=['sem\tversion 3.0; qubit q; inv.inv.X q','sem\tversion 3.0; qubit q; inv.pow(2).inv.X q','sem\tversion 3.0; qubit q; inv.X q'])
mk('file_end_trimmed','P24',[('src/v3x/antlr_scanner.cpp','''    antlr4::ANTLRInputStream is{ data_ };''','''    antlr4::ANTLRInputStream is{ data_.substr(0, data_.find_last_not_of(" \\n") + 1) };''')],
   'a text, not a file, that ends in blanks or line ends and has a syntax error at its end','the error is located elsewhere than for a file with the same contents',
   cases=['ast\tversion 3.0; X\\n\\n','ast\tversion 3.0; X q\\n  ','ast\tversion 3.0; X   \\n'])

