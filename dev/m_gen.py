G = "fcp/tracing/tools/tracing_traits_generator.cc"
M("G02", G, "tag.size() != 4", "tag.size() > 4")
M("G02", G, "tag.size() != 4", "tag.size() < 4")
M("G02", G, "if (!tags.insert(tag).second) {", "if (!tags.insert(fully_qualified_table_name).second) {")
M("G02", G, "if (!tags.insert(tag).second) {", "if (tags.contains(table_name)) {")
M("G02", G, "      return 8;", "      continue;")
M("G02", G, "      return 8;", "      return 0;")
M("G02", G, "      return 7;\n    }", "      tag = \"NONE\";\n    }")
M("G02", G, "        severity = fcp::TracingSeverity::kError;", "        severity = fcp::TracingSeverity::kWarning;")
M("G02", G, "a->key()->str() == \"error\"", "a->key()->str() == \"err\"")
M("G02", G, "      return \"fcp::TracingSeverity::kError\";", "      return \"fcp::TracingSeverity::kWarning\";")
M("G02", G, "(is_span ? \"true\" : \"false\")", "(is_span ? \"false\" : \"true\")")
M("G02", G, "{BaseType::ULong, \"std::uint64_t\"}", "{BaseType::ULong, \"std::uint32_t\"}")
M("G02", G, "      {BaseType::Bool, \"bool\"},\n", "")
M("G02", G, "      if (f->deprecated()) continue;\n", "")
M("G02", G, "fields_sorted[f->id()] = f;", "fields_sorted[f->offset() / 2 - 2] = f;")
M("G02", G, "for (const reflection::Field* const f : fields_sorted) {", "for (const reflection::Field* const f : *o->fields()) {")
M("G02", G, "if (f->type()->index() != -1) {", "if (f->type()->index() > 0) {")
M("G02", G, "schema.enums()->Get(f->type()->index())", "schema.enums()->Get(f->id())")
M("G02", G, "        return 4;\n", "        continue;\n")
M("G02", G, "    return 2;\n", "    bfbs_file.clear();\n")
M("G02", G, "    return 3;\n", "")
M("G02", G, "    if (o->is_struct()) continue;", "    if (o->is_struct() || o->fields()->size() == 0) continue;")
M("G02", G, "    if (o->is_struct()) continue;", "    if (o->is_struct()) break;")
M("G02", G, "const char* suffix = (type.flatbuf_type == BaseType::String) ? \"__\" : \"\";", "const char* suffix = \"\";")
M("G02", G, "        tuple_type += \"std::string\";\n", "        tuple_type += std::string(type.cpp_type);\n")
M("G02", G, "absl::ClippedSubstr(fully_qualified_table_name, pos + 1)", "absl::ClippedSubstr(fully_qualified_table_name, pos)")
M("G02", G, "  auto pos = fully_qualified_table_name.find_last_of(':');\n  if (pos != std::string::npos) {\n    return absl::ClippedSubstr(fully_qualified_table_name, pos + 1);", "  auto pos = fully_qualified_table_name.find_first_of(':');\n  if (pos != std::string::npos) {\n    return absl::ClippedSubstr(fully_qualified_table_name, pos + 1);")
M("G02", G, "<< \"    std::string fbs_file = \\\"\" << fbs_filename", "<< \"    std::string fbs_file = \\\"\" << bfbs_filename")
N("G02", G, "      if (a->key()->str() == \"span\") {", "      else if (a->key()->str() == \"span\") {")
N("G02", G, "      if (a->key()->str() == \"error\") {", "      else if (a->key()->str() == \"error\") {")
N("G02", G, "    if (!tags.insert(tag).second) {", "    const bool is_new = tags.insert(tag).second;\n    if (!is_new) {")
M("G02", G, "    if (!tags.insert(tag).second) {", "    if (tags.contains(tag)) {")
N("G02", G, "    if (tag.empty()) {", "    if (tag.size() == 0) {")
N("G02", G, "      const char* suffix = (type.flatbuf_type == BaseType::String) ? \"__\" : \"\";\n      std::cout << \", \" << name << suffix;", "      std::cout << \", \" << name;\n      if (type.flatbuf_type == BaseType::String) std::cout << \"__\";")
N("G02", G, "      if (f->deprecated()) continue;\n      BaseType", "      const bool gone = f->deprecated();\n      if (gone) {\n        continue;\n      }\n      BaseType")
N("G02", G, "    std::cout << \"  static constexpr TracingTag kTag = TracingTag(\\\"\" << tag\n              << \"\\\");\" << '\\n';", "    std::cout << \"  static constexpr TracingTag kTag = \";\n    std::cout << \"TracingTag(\\\"\";\n    std::cout << tag << \"\\\");\\n\";")
N("G02", G, "    std::vector<const reflection::Field*> fields_sorted;\n    fields_sorted.resize(o->fields()->size());\n", "    std::vector<const reflection::Field*> fields_sorted(o->fields()->size());\n")
N("G02", G, "    if (o->is_struct()) continue;\n", "    if (o->is_struct()) {\n      continue;\n    }\n    (void)schema;\n")
N("G02", G, "      auto type_map_entry = type_map.find(flatbuf_type);\n      if (type_map_entry == type_map.end()) {", "      const auto type_map_entry = type_map.find(flatbuf_type);\n      const bool known = type_map_entry != type_map.end();\n      if (!known) {")
N("G02", G, "    if (!tags.insert(tag).second) {", "    const bool used = tags.contains(tag);\n    tags.insert(tag);\n    if (used) {")
N("G02", G, "if (f->type()->index() != -1) {", "if (f->type()->index() >= 0) {")
N("G02", G, "if (f->type()->index() != -1) {", "if (f->type()->index() > -1) {")
