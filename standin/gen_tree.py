"""Stand-in for the tree-gen executable: generates <header>/<cpp> for one .tree file."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tree_spec import parse_tree  # noqa: E402


def ftype(t, f):
    name, edge, target, ext = f
    if edge == "Prim":
        return target
    tgt = target if ext else t.nodes[target].cls
    return f"{edge}<{tgt}>"


def gen(path, outdir):
    t = parse_tree(path)
    h, c = [], []
    H, C = h.append, c.append
    ns = "::".join(t.namespace)
    H("#pragma once\n// Generated by the tree-gen stand-in from " + os.path.basename(path))
    H("#include <fmt/ostream.h>\n#include <iostream>\n#include <memory>\n#include <vector>")
    for i in t.includes:
        H(f'#include "{i}"')
    H(f"namespace {ns} {{")
    H("namespace base = cqasm::tree;")
    for k in ("One", "Maybe", "Any", "Many", "Link", "OptLink"):
        H(f"template <class T> using {k} = cqasm::tree::{k}<T>;")
    H("class Node;")
    for n in t.order:
        H(f"class {n.cls};")
    leaves = [n for n in t.order if not n.children]
    H("class VisitorBase;\ntemplate <typename T = void> class Visitor;\nclass Dumper;")
    H("enum class NodeType { " + ", ".join(n.cls for n in leaves) + " };")
    H("class Node : public cqasm::tree::Base {\npublic:\n"
      "    ~Node() override = default;\n"
      "    [[nodiscard]] virtual NodeType type() const = 0;\n"
      "    [[nodiscard]] virtual One<Node> copy() const = 0;\n"
      "    [[nodiscard]] virtual One<Node> clone() const = 0;\n"
      "    virtual bool equals(const Node& rhs) const = 0;\n"
      "    virtual bool operator==(const Node& rhs) const = 0;\n"
      "    inline bool operator!=(const Node& rhs) const { return !(*this == rhs); }\n"
      "    virtual void raw_visit(VisitorBase& visitor, void* retval) = 0;\n"
      "    template <typename T> T visit(Visitor<T>& visitor);\n"
      "    void dump(std::ostream& out = std::cout, int indent = 0);\n"
      "    void dump_raw_pointers(std::ostream& out = std::cout, int indent = 0);\n"
      "    void dump_json(std::ostream& out = std::cout);\n"
      "    virtual void dump_impl(std::ostream& out, int indent) const = 0;\n"
      "    virtual void dump_json_impl(std::ostream& out) const = 0;\n"
      "    virtual void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const = 0;\n"
      "    static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);")
    for n in t.order:
        H(f"    virtual {n.cls}* as_{n.name}();\n    virtual const {n.cls}* as_{n.name}() const;")
    H("};")
    for n in t.order:
        par = n.parent.cls if n.parent else "Node"
        H(f"class {n.cls} : public {par} {{\npublic:")
        for f in n.fields:
            H(f"    {ftype(t, f)} {f[0]};")
        af = n.all_fields()
        params = ", ".join(
            f"const {ftype(t, f)}& {f[0]} = " + (f"{t.init_fn}<{f[2]}>()" if f[1] == "Prim" else f"{ftype(t, f)}()")
            for f in af)
        H(f"    explicit {n.cls}({params});" if len(af) else f"    {n.cls}();")
        H(f"    {n.cls}* as_{n.name}() override;\n    const {n.cls}* as_{n.name}() const override;")
        if not n.children:
            H("    [[nodiscard]] NodeType type() const override;\n"
              "    [[nodiscard]] One<Node> copy() const override;\n"
              "    [[nodiscard]] One<Node> clone() const override;\n"
              "    bool equals(const Node& rhs) const override;\n"
              "    bool operator==(const Node& rhs) const override;\n"
              "    void raw_visit(VisitorBase& visitor, void* retval) override;\n"
              "    void find_reachable(::tree::base::PointerMap& map) const override;\n"
              "    void check_complete(const ::tree::base::PointerMap& map) const override;\n"
              "    void dump_impl(std::ostream& out, int indent) const override;\n"
              "    void dump_json_impl(std::ostream& out) const override;\n"
              "    void serialize(::tree::cbor::MapWriter& map, const ::tree::base::PointerMap& ids) const override;\n"
              f"    static std::shared_ptr<{n.cls}> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);")
        else:
            H("    static std::shared_ptr<Node> deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids);")
        H("};")
    H("std::ostream& operator<<(std::ostream& os, const Node& object);")
    H("class VisitorBase {\npublic:\n    virtual ~VisitorBase() = default;\n"
      "    virtual void raw_visit_node(Node& node, void* retval) = 0;")
    for n in t.order:
        H(f"    virtual void raw_visit_{n.name}({n.cls}& node, void* retval) = 0;")
    H("};")
    # Visitor<T> and Visitor<void>
    H("template <typename T>\nclass Visitor : public VisitorBase {\nprotected:")
    for nm, cls in [("node", "Node")] + [(n.name, n.cls) for n in t.order]:
        H(f"    void raw_visit_{nm}({cls}& node, void* retval) override {{\n"
          f"        if (retval == nullptr) {{ this->visit_{nm}(node); }} else {{ *static_cast<T*>(retval) = this->visit_{nm}(node); }}\n    }}")
    H("public:\n    virtual T visit_node(Node& node) = 0;")
    for n in t.order:
        H(f"    virtual T visit_{n.name}({n.cls}& node) {{ return visit_{n.parent.name if n.parent else 'node'}(node); }}")
    H("};")
    H("template <>\nclass Visitor<void> : public VisitorBase {\nprotected:")
    for nm, cls in [("node", "Node")] + [(n.name, n.cls) for n in t.order]:
        H(f"    void raw_visit_{nm}({cls}& node, void*) override {{ this->visit_{nm}(node); }}")
    H("public:\n    virtual void visit_node(Node& node) = 0;")
    for n in t.order:
        H(f"    virtual void visit_{n.name}({n.cls}& node) {{ visit_{n.parent.name if n.parent else 'node'}(node); }}")
    H("};")
    H("template <typename T>\nT Node::visit(Visitor<T>& visitor) {\n    T retval;\n    this->raw_visit(visitor, static_cast<void*>(&retval));\n    return retval;\n}")
    H("template <>\nvoid Node::visit(Visitor<void>& visitor);")
    H(f"}}  // namespace {ns}")
    for cls in ["Node"] + [n.cls for n in t.order]:
        H(f"template <> struct fmt::formatter<{ns}::{cls}> : fmt::ostream_formatter {{}};")

    # ---- source ----
    C(f'#include "{t.header}"\n#include <sstream>')
    for i in t.src_includes:
        C(f'#include "{i}"')
    C(f"namespace {ns} {{")
    C("namespace {\n"
      "[[maybe_unused]] void ind(std::ostream& o, int n) { for (int i = 0; i < n; ++i) { o << \"  \"; } }\n"
      "template <class T> [[maybe_unused]] void dump_prim(std::ostream& out, int indent, const char* type, const T& v) {\n"
      "    std::stringstream ss;\n    ss << v;\n"
      "    auto pos = ss.str().find_last_not_of(\" \\n\\r\\t\");\n"
      "    if (pos != std::string::npos) { ss.str(ss.str().erase(pos + 1)); }\n"
      "    if (ss.str().find('\\n') == std::string::npos) { out << ss.str() << std::endl; return; }\n"
      "    out << type << \"<<\" << std::endl;\n"
      "    std::string s;\n    while (!ss.eof()) { std::getline(ss, s); ind(out, indent + 1); out << s << std::endl; }\n"
      "    ind(out, indent); out << \">>\" << std::endl;\n}\n"
      "template <class T> [[maybe_unused]] std::string json_prim(const T& v) {\n"
      "    std::stringstream ss;\n    ss << v;\n    std::string r;\n"
      "    for (char c : ss.str()) {\n        switch (c) {\n"
      "            case '\"': r += \"\\\\\\\"\"; break;\n            case '\\\\': r += \"\\\\\\\\\"; break;\n"
      "            case '\\n': r += \"\\\\n\"; break;\n            case '\\t': r += \"\\\\t\"; break;\n            case '\\r': r += \"\\\\r\"; break;\n"
      "            default: r += c;\n        }\n    }\n    return r;\n}\n"
      "}  // namespace")
    C("template <>\nvoid Node::visit(Visitor<void>& visitor) { this->raw_visit(visitor, nullptr); }")
    C("void Node::dump(std::ostream& out, int indent) { dump_impl(out, indent); }")
    C("void Node::dump_raw_pointers(std::ostream& out, int indent) { dump_impl(out, indent); }")
    C("void Node::dump_json(std::ostream& out) { dump_json_impl(out); }")
    C("std::ostream& operator<<(std::ostream& os, const Node& object) { object.dump_impl(os, 0); return os; }")
    for n in t.order:
        C(f"{n.cls}* Node::as_{n.name}() {{ return nullptr; }}\nconst {n.cls}* Node::as_{n.name}() const {{ return nullptr; }}")
        C(f"{n.cls}* {n.cls}::as_{n.name}() {{ return this; }}\nconst {n.cls}* {n.cls}::as_{n.name}() const {{ return this; }}")
    C("std::shared_ptr<Node> Node::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {\n"
      "    auto type = map.at(\"@t\").as_string();")
    for n in leaves:
        C(f"    if (type == \"{n.cls}\") {{ return {n.cls}::deserialize(map, ids); }}")
    C("    throw std::runtime_error(\"Schema validation failed: unexpected node type \" + type);\n}")
    for n in t.order:
        af = n.all_fields()
        par = n.parent.cls if n.parent else "Node"
        params = ", ".join(f"const {ftype(t, f)}& {f[0]}" for f in af)
        pargs = ", ".join(f[0] for f in (n.parent.all_fields() if n.parent else []))
        inits = [f"{par}({pargs})"] if n.parent else []
        inits += [f"{f[0]}({f[0]})" for f in n.fields]
        C(f"{n.cls}::{n.cls}({params}){' : ' + ', '.join(inits) if inits else ''} {{}}")
        if n.children:
            C(f"std::shared_ptr<Node> {n.cls}::deserialize(const ::tree::cbor::MapReader& map, ::tree::base::IdentifierMap& ids) {{ return Node::deserialize(map, ids); }}")
            continue
        C(f"NodeType {n.cls}::type() const {{ return NodeType::{n.cls}; }}")
        C(f"One<Node> {n.cls}::copy() const {{ return One<Node>(std::make_shared<{n.cls}>(*this)); }}")
        C(f"One<Node> {n.cls}::clone() const {{\n    auto node = std::make_shared<{n.cls}>(*this);")
        for f in af:
            if f[1] in ("One", "Maybe", "Any", "Many"):
                C(f"    node->{f[0]} = this->{f[0]}.clone();")
        C("    return One<Node>(node);\n}")
        for op, eq in (("equals", ".equals"), ("operator==", None)):
            C(f"bool {n.cls}::{op}(const Node& rhs) const {{\n    if (rhs.type() != NodeType::{n.cls}) {{ return false; }}\n"
              f"    [[maybe_unused]] auto& r = dynamic_cast<const {n.cls}&>(rhs);")
            for f in af:
                if f[1] == "Prim" or eq is None:
                    C(f"    if (!(this->{f[0]} == r.{f[0]})) {{ return false; }}")
                else:
                    C(f"    if (!this->{f[0]}.equals(r.{f[0]})) {{ return false; }}")
            C("    return true;\n}")
        C(f"void {n.cls}::raw_visit(VisitorBase& visitor, void* retval) {{ visitor.raw_visit_{n.name}(*this, retval); }}")
        C(f"void {n.cls}::find_reachable([[maybe_unused]] ::tree::base::PointerMap& map) const {{")
        for f in af:
            if f[1] != "Prim":
                C(f"    {f[0]}.find_reachable(map);")
        C(f"}}\nvoid {n.cls}::check_complete([[maybe_unused]] const ::tree::base::PointerMap& map) const {{")
        for f in af:
            if f[1] != "Prim":
                C(f"    {f[0]}.check_complete(map);")
        C("}")
        C(f"void {n.cls}::serialize(::tree::cbor::MapWriter& map, [[maybe_unused]] const ::tree::base::PointerMap& ids) const {{\n    map.append_string(\"@t\", \"{n.cls}\");")
        for f in af:
            C(f"    {{ auto sub = map.append_map(\"{f[0]}\"); "
              + (f"{t.ser_fn}<{f[2]}>({f[0]}, sub);" if f[1] == "Prim" else f"{f[0]}.serialize_field(sub, ids);") + " sub.close(); }")
        C("}")
        C(f"std::shared_ptr<{n.cls}> {n.cls}::deserialize(const ::tree::cbor::MapReader& map, [[maybe_unused]] ::tree::base::IdentifierMap& ids) {{\n    auto node = std::make_shared<{n.cls}>();")
        for f in af:
            if f[1] == "Prim":
                C(f"    node->{f[0]} = {t.des_fn}<{f[2]}>(map.at(\"{f[0]}\").as_map());")
            else:
                tgt = f[2] if f[3] else t.nodes[f[2]].cls
                C(f"    node->{f[0]}.template deserialize_with<{tgt}>(map.at(\"{f[0]}\").as_map(), ids);")
        C("    return node;\n}")
        # text dump
        C(f"void {n.cls}::dump_impl(std::ostream& out, int indent) const {{\n    ind(out, indent);\n    out << \"{n.cls}(\";")
        if t.location:
            C(f"    if (auto loc = this->get_annotation_ptr<{t.location}>()) {{ out << \" # \" << *loc; }}")
        if not af:
            C("    out << \")\" << std::endl;\n}")
        else:
            C("    out << std::endl;")
            for f in af:
                C("    ind(out, indent + 1);")
                nm, e = f[0], f[1]
                if e == "Prim":
                    C(f"    out << \"{nm}: \"; dump_prim(out, indent + 1, \"{f[2]}\", {nm});")
                elif e in ("One", "Maybe"):
                    empty = "!MISSING" if e == "One" else "-"
                    C(f"    if ({nm}.empty()) {{ out << \"{nm}: {empty}\" << std::endl; }} else {{ out << \"{nm}: <\" << std::endl; {nm}->dump_impl(out, indent + 2); ind(out, indent + 1); out << \">\" << std::endl; }}")
                elif e in ("Any", "Many"):
                    empty = "[]" if e == "Any" else "!MISSING"
                    C(f"    if ({nm}.empty()) {{ out << \"{nm}: {empty}\" << std::endl; }} else {{ out << \"{nm}: [\" << std::endl; for (const auto& s : {nm}) {{ if (s.empty()) {{ ind(out, indent + 2); out << \"!NULL\" << std::endl; }} else {{ s->dump_impl(out, indent + 2); }} }} ind(out, indent + 1); out << \"]\" << std::endl; }}")
                else:
                    empty = "!MISSING" if e == "Link" else "-"
                    C(f"    if ({nm}.empty()) {{ out << \"{nm} --> {empty}\" << std::endl; }} else {{ out << \"{nm} --> <\" << std::endl; {nm}->dump_impl(out, indent + 2); ind(out, indent + 1); out << \">\" << std::endl; }}")
            C("    ind(out, indent);\n    out << \")\" << std::endl;\n}")
        # json dump
        C(f"void {n.cls}::dump_json_impl(std::ostream& out) const {{\n    out << \"{{\\\"{n.cls}\\\":{{\";")
        for k, f in enumerate(af):
            nm, e = f[0], f[1]
            sep = "," if k else ""
            C(f"    out << \"{sep}\\\"{nm}\\\":\";")
            if e == "Prim":
                C(f"    out << '\"' << json_prim({nm}) << '\"';")
            elif e in ("Any", "Many"):
                empty = "[]" if e == "Any" else '\\"!MISSING\\"'
                C(f"    if ({nm}.empty()) {{ out << \"{empty}\"; }} else {{ out << '['; bool first = true; for (const auto& s : {nm}) {{ if (!first) {{ out << ','; }} first = false; if (s.empty()) {{ out << \"\\\"!NULL\\\"\"; }} else {{ s->dump_json_impl(out); }} }} out << ']'; }}")
            else:
                empty = "!MISSING" if e in ("One", "Link") else "-"
                C(f"    if ({nm}.empty()) {{ out << \"\\\"{empty}\\\"\"; }} else {{ {nm}->dump_json_impl(out); }}")
        if t.location:
            C(f"    if (auto loc = this->get_annotation_ptr<{t.location}>()) {{ out << \"{',' if af else ''}\\\"source_location\\\":\\\"\" << *loc << '\"'; }}")
        C("    out << \"}}\";\n}")
    C(f"}}  // namespace {ns}")
    hp = os.path.join(outdir, t.header)
    os.makedirs(os.path.dirname(hp), exist_ok=True)
    open(hp, "w").write("\n".join(h) + "\n")
    open(hp[:-4] + ".cpp", "w").write("\n".join(c) + "\n")


if __name__ == "__main__":
    for p in sys.argv[2:]:
        gen(p, sys.argv[1])
