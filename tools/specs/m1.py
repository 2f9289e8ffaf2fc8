A="actions.cpp"
M=[
("hdr-clip","C08 C06",A,"if (level > 6) // The max","if (level > 7) // The max"),
("hdr-compat103","C07",A,"if (generic || state.document.compatibility_version() >= 103) {","if (generic || state.document.compatibility_version() > 103) {"),
("hdr-nogeneric","C07",A,"if (generic || state.document.compatibility_version() >= 103) {","if (state.document.compatibility_version() >= 103) {"),
("list-modenext","C13",A,"push_tagged_source_mode(source_mode_next);\n        source_mode_next = 0;","push_tagged_source_mode(source_mode_next);"),
("callout-depth","C31 C10",A,"state_save save(*this, state_save::scope_all);\n                ++template_depth;","state_save save(*this, state_save::scope_all);"),
("callout-scope","C31 C09",A,"state_save save(*this, state_save::scope_all);\n                ++template_depth;","state_save save(*this, state_save::scope_output);\n                ++template_depth;"),
("code-modenext","C13",A,"""state.source_mode_next = 0;

        if (inline_code) {""","""if (block) state.source_mode_next = 0;

        if (inline_code) {"""),
("code-anchor","C30",A,"""            paragraph_action para(state);
            para();
            write_anchors(state, state.out);
        }

        if (block) {""","""            paragraph_action para(state);
            para();
        }

        if (block) {"""),
("uni-digit7","C04",A,"*first > '0' && *first <= '7'","*first > '0' && *first <= '9'"),
("uni-lead0","C04",A,"hex_digits.size() == 2 && *first","hex_digits.size() <= 2 && *first"),
("img-dup","C30",A,"if (!attributes.insert(std::make_pair(name_str, value)).second) {","if (attributes.count(name_str) && (attributes[name_str] = value, true)) {"),
("img-stem","C30",A,"pos = stem.rfind('.');","pos = stem.find('.');"),
("brk-once","C15 C28",A,"if (!state.warned_about_breaks) {","{"),
("role-enc","C05 C03",A,"detail::print_string(\n            get_attribute_value(state, role), state.phrase.get());","state.phrase << get_attribute_value(state, role);"),
("macro-redef","C28 C09",A,"if (qbk_version_n < 106) return;","if (qbk_version_n < 105) return;"),
("sep-depth","C10",A,"if (depth > 0) --depth;","--depth;"),
("sep-escape","C10",A,"if (++begin == end) return begin;\n                        break;","break;"),
("brkargs-one","C10",A,"if (qbk_version_n < 105 ? args.size() : args.size() == 1) {","if (args.size() == 1) {"),
("brkargs-tag","C10 C28",A,"last_arg.get_tag());\n                    args.push_back","template_tags::phrase);\n                    args.push_back"),
("args-scope","C10",A,"template_symbol(*tpl, empty_params, *arg, &scope))) {","template_symbol(*tpl, empty_params, *arg, &state.templates.top_scope()))) {"),
("tmpl-ver","C28 C10",A,"qbk_version_n = symbol->content.get_file()->version();\n","if (symbol->content.get_file()->version() < 107u) qbk_version_n = symbol->content.get_file()->version();\n"),
("tmpl-minlevel","C08",A,"state.min_section_level = state.document.section_level();\n\n            ////","state.min_section_level = (std::max)(state.min_section_level, 0u + state.document.section_level());\n\n            ////"),
("tmpl-mismatch","C08",A,"if (state.document.section_level() != state.min_section_level) {","if (state.document.section_level() < state.min_section_level) {"),
("tmpl-pre107-block","C10 C06",A,"if (is_block || !save_block.empty()) {\n                    paragraph_action();\n","if (is_block || !save_block.empty()) {\n"),
("link-empty","C30",A,"if (content.empty())\n            detail::print_string(dst, state.phrase.get());","if (content.empty())\n            state.phrase << dst;"),
("link-uriall","C30",A,"            if (link.get_tag() == phrase_tags::url) {\n","            if (link.get_tag() != phrase_tags::funcref) {\n"),
("vl-title","C06 C03",A,"detail::print_string(title, state.out.get());\n        state.out << \"</title>\\n\";\n\n        QUICK","state.out << title;\n        state.out << \"</title>\\n\";\n\n        QUICK"),
("tbl-compat","C07",A,"if (state.document.compatibility_version() >= 105) {\n                table_id","if (qbk_version_n >= 105) {\n                table_id"),
("tbl-title106","C28 C06",A,"if (qbk_version_n < 106u) {\n                detail::print_string(title.get_quickbook(), state.out.get());","if (qbk_version_n < 105u) {\n                detail::print_string(title.get_quickbook(), state.out.get());"),
("tbl-span","C06 C31",A,"span_count = boost::distance(row);","span_count = (std::max)(span_count, (int) boost::distance(row));"),
("sec-mode","C13",A,": id_category::explicit_section_id,\n            state.current_source_mode());",""": id_category::explicit_section_id,
            state.source_mode);"""),
("sec-anchors","C30",A,"state.out << \"<title>\";\n\n            write_anchors(state, state.out);\n","state.out << \"<title>\";\n"),
("endsect-le","C08",A,"if (state.document.section_level() <= state.min_section_level) {","if (state.document.section_level() < state.min_section_level) {"),
("endsect-anch","C30",A,"values.finish();\n\n        write_anchors(state, state.out);\n\n        if (state.document.section_level() <=","values.finish();\n\n        if (state.document.section_level() <="),
("load-import-scope","C11",A,"? state_save::scope_output\n","? state_save::scope_templates\n"),
("load-old-macros","C11 C28",A,": state_save::scope_macros);",": state_save::scope_callables);"),
("load-imported","C11",A,"state.imported = (load_type == block_tags::import);","state.imported = state.imported || (load_type == block_tags::import);"),
("load-filename","C11",A,"// restore the __FILENAME__ macro\n        state.update_filename_macro();","// restore the __FILENAME__ macro"),
("load-keepmode","C13 C11 C28",A,"bool keep_inner_source_mode = (qbk_version_n < 106);","bool keep_inner_source_mode = (qbk_version_n < 105);"),
("src-pushpop","C14 C11",A,"            state.templates.pop();\n        }\n    }\n\n    void include_action","            ;\n        }\n    }\n\n    void include_action"),
("src-redef","C14 C02",A,"<< \"Template Redefinition: \" << tname << std::endl;\n                    ++state.error_count;","<< \"Template Redefinition: \" << tname << std::endl;"),
("incl-return","C11 C28",A,"include.get_tag() == block_tags::include)\n                        return;","include.get_tag() == block_tags::include)\n                        continue;"),
("incl-ext","C11 C14",A,'if (ext == ".qbk" || ext == ".quickbook") {','if (ext == ".qbk") {'),
("scoped-anch","C30",A,"write_anchors(state, state.out);\n            state.out.swap(value);","state.out.swap(value);"),
("snip-scope","C14 C10",A,"ts.lexical_parent = &state.templates.top_scope();\n                    call_code","call_code"),
("vl-anch","C30",A,"""    {
        write_anchors(state, state.out);

        value_consumer values = variable_list;""","""    {
        value_consumer values = variable_list;"""),
]
