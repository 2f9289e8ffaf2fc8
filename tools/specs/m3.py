D="doc_info_actions.cpp"; DG="doc_info_grammar.cpp"; S="state.cpp"; DS="document_state.cpp"; I="id_generation.cpp"; X="id_xml.cpp"; T="template_stack.cpp"; Q="quickbook.cpp"
M=[
("di-yrange","C29",D,"for (; year_start <= year_end; ++year_start)","for (; year_start < year_end || year_start == year_end; year_start += (year_end - year_start > 20 ? 2 : 1))"),
("di-version","C29",D,"out << ' ' << doc_info_output(version, 106);","out << ' ' << doc_info_output(version, 107);"),
("di-attr","C29",D,"state.out << doc_info_attribute_output(info.dirname, 106);","state.out << doc_info_output(info.dirname, 106);"),
("di-lang","C29 C03",D,"lang=\\\"\" << doc_info_attribute_output(info.lang, 106)","lang=\\\"\" << doc_info_output(info.lang, 106)"),
("di-defdir","C29",D,"else if (!info.include_doc_id_.empty()) {\n                detail","else if (!info.include_doc_id_.empty() && info.doc_title.empty()) {\n                detail"),
("di-dup","C29",D,"if (count > 1) duplicates","if (count > 2) duplicates"),
("di-license","C29 C28",D,"doc_info_output(info.license, 103)","doc_info_output(info.license, 106)"),
("di-purposelib","C29 C02",D,"if (info.doc_type != \"library\") {\n            std::vector","if (info.doc_type != \"library\" && nested_file) {\n            std::vector"),
("di-usever","C28",D,"if (before_docinfo || using_docinfo) {","if (using_docinfo) {"),
("di-cmpver","C07 C28",D,"use_doc_info ? qbk_version_n\n                             : state.document.compatibility_version();","qbk_version_n;"),
("di-nested16","C11 C28",D,"use_doc_info = !nested_file || qbk_version_n >= 106u;","use_doc_info = !nested_file || qbk_version_n >= 107u;"),
("di-minlevel","C08",D,"state.min_section_level = 1;","(void)0;"),
("di-idtrim","C29 C07",D,"info.id_.erase(info.id_.find_last_not_of(\" \\t\\r\\n\") + 1);","info.id_.erase(info.id_.find_last_not_of(\" \\t\") + 1);"),
("di-catval","C29",D,"while (author_values.check()) {","if (author_values.check()) {"),
("di-copy","C29",D,"while (copyright.check()) {","if (copyright.check()) {"),
("di-esc","C29",D,"state.values.builder","state.values.builder"),
("di-xmlbase","C11 C30 C18",D,"state.xinclude_base = path.file_path;","(void)path.file_path;"),
("di-postanch","C30 C07",D,"if (!doc_type.empty()) write_remaining_anchors(state);","if (!doc_type.empty() && state.document.section_level() <= 1) write_remaining_anchors(state);"),
("di-postsec","C08 C03",D,"while (state.document.section_level() > 1) {","if (state.document.section_level() > 1) {"),
("dg-titleblank","C29",DG,"~cl::eps_p(blank >> (cl::ch_p('[') | ']' | cl::eol_p))","~cl::eps_p(blank >> (cl::ch_p('[') | cl::eol_p))"),
("dg-defmode","C13 C29",DG,">>  !(qbk_ver(106u) >> cl::eps_p(ph::var(local.source_mode_unset))",">>  !(qbk_ver(105u) >> cl::eps_p(ph::var(local.source_mode_unset))"),
("dg-mode","C13",DG,"[ph::var(local.source_mode_unset) = false]\n","[ph::var(local.source_mode_unset) = true]\n"),
("dg-yearend","C29",DG,">>  !cl::ch_p(',')\n                >>  space\n                )\n            >>  to_value(doc_info_tags::copyright_name)",">>  space\n                )\n            >>  to_value(doc_info_tags::copyright_name)"),
("dg-holder","C29",DG,"',' >> space >> local.doc_copyright_year","',' >> cl::space_p >> local.doc_copyright_year"),
("dg-macro","C29 C09",DG,">>  ~cl::eps_p(cl::alpha_p | '_')\n","\n"),
("dg-sort","C29",DG,"                        >>  space\n                    )\n                )                           [state.values.sort()]","                        >>  space\n                    )\n                )                           "),
("dg-alnum","C29 C04",DG,"(local.doc_types >> ~cl::eps_p(cl::alnum_p | '_'))","(local.doc_types)"),
("st-fname","C09 C11",S,"boost::core::invoke_swap(state.current_path, current_path);","(void)0;"),
("st-xbase","C30 C11",S,"boost::core::invoke_swap(state.xinclude_base, xinclude_base);","(void)0;"),
("st-srcmode","C13 C11",S,"boost::core::invoke_swap(state.source_mode, source_mode);","(void)0;"),
("st-imported","C11 C14 C02",S,"boost::core::invoke_swap(state.imported, imported);","(void)0;"),
("st-ver","C28",S,"boost::core::invoke_swap(qbk_version_n, qbk_version);","(void)0;"),
("st-depth","C10 C02",S,"boost::core::invoke_swap(state.template_depth, template_depth);","(void)0;"),
("st-minlev","C08",S,"boost::core::invoke_swap(state.min_section_level, min_section_level);","(void)0;"),
("st-macro","C09 C11",S,"if (scope & scope_macros) state.macro = macro;","if ((scope & scope_macros) && !(scope & scope_templates)) state.macro = macro;"),
("st-fnenc","C09",S,"detail::encode_string(\n                detail::path_to_generic(current_path.abstract_file_path));","detail::path_to_generic(current_path.abstract_file_path);"),
("st-sectmode","C13",S,"result.update(document.section_source_mode());","(void)0;"),
("st-curtag","C13",S,"source_mode_info(s, s ? get_new_order_pos() : 0));","source_mode_info(s, get_new_order_pos()));"),
("ts-add","C10",T,"if (this->find_top_scope(ts.identifier)) {","if (this->find(ts.identifier)) {"),
("ts-pop","C10 C28",T,"parent_1_4 = scopes.front().parent_1_4;\n        scopes.pop_front();","scopes.pop_front();"),
("ts-parent","C10 C28",T,"parent_1_4 = scopes.front().parent_1_4;\n            scopes.front().parent_scope = symbol->lexical_parent;","scopes.front().parent_scope = symbol->lexical_parent;"),
("ts-ver","C10 C28",T,"symbol->content.get_file()->version() >= 105u","qbk_version_n >= 105u"),
("ts-14","C10 C28",T,"scopes.front().parent_scope = scopes.front().parent_1_4;","(void)0;"),
("id-dots","C07",I,"return x->num_dots < y->num_dots\n                       ? true","return x->num_dots < y->num_dots && x->num_dots < 4\n                       ? true"),
("id-expl","C07",I,"if (p->category.c > pos->second->category.c) pos->second = p;","if (p->category.c > pos->second->category.c + 1) pos->second = p;"),
("id-numbered","C07",I,"if (p->category.c > id_category::numbered &&\n            chosen","if (p->category.c >= id_category::numbered &&\n            chosen"),
("id-second","C07",I,"if (chosen_ids.emplace(generated_id, p).second) {","chosen_ids.emplace(generated_id, p);\n                {"),
("id-trim","C07",I,"base_id.erase(length);\n                count = 0;","base_id.erase(length);"),
("id-order","C07",I,"set_placeholder_order(p->parent);\n","\n"),
("id-enc","C07 C03",I,"result += detail::encode_string(id);","result.append(id.begin(), id.end());"),
("id-repl","C07",I,"if (p && !order[p->index]) {","if (p) {"),
("id-digits","C07",I,"base_id += '_';\n                ++length;","(void)0;"),
("idx-attr","C07 C30",X,"boost::find(id_attributes, name.to_s()) !=\n                            id_attributes.end()","boost::find(id_attributes, name.to_s()) !=\n                            id_attributes.end() && value.size() < 4"),
("idx-pi","C07",X,"read_past(it, end, \"?>\");\n                break;\n\n            case '!':\n                if (read(it, end, \"!--\"))\n                    read_past","read_past(it, end, \">\");\n                break;\n\n            case '!':\n                if (read(it, end, \"!--\"))\n                    read_past"),
("idx-esc","C04 C07",X,"read_past(it, end, \"<!--quickbook-escape-postfix-->\");","(void)0;"),
("idx-link","C30 C07 C03",X,"if (tag_name == \"link\") {","if (tag_name == \"ulink\") {"),
("ds-level","C08 C07",DS,"level(parent ? parent->level + 1 : 1)","level(parent ? parent->level + 1u : 0u)"),
("ds-override","C07 C11",DS,"section->file_depth < current_file->override_depth","section->file_depth <= current_file->override_depth"),
("ds-norm","C07",DS,"category.c < id_category::explicit_id) {\n            id_part","category.c <= id_category::explicit_id) {\n            id_part"),
("ds-incid","C07 C11",DS,"initial_doc_id = !include_doc_id.empty() ? include_doc_id : id;","initial_doc_id = !id.empty() ? id : include_doc_id;"),
("ds-curnull","C01 C02",DS,"if (!current_file) return add_placeholder(id, category);","\n"),
("ds-dots","C07",DS,"(parent_ ? parent_->num_dots + 1 : 0))","(parent_ ? parent_->num_dots : 0))"),
("q-strict","C02 C18",Q,"state.strict_mode = options_.strict_mode;\n            set_macros(state);","set_macros(state);\n            state.strict_mode = options_.strict_mode;"),
("q-dep","C12",Q,"if (!options_.deps_out.empty()) {","if (!options_.deps_out.empty() && !result) {"),
("q-full","C02",Q,"if (!info.full) {\n                file_position","if (!info.full && !nested_file) {\n                file_position"),
("q-locs","C12",Q,"options_.locations_out, dependency_tracker::checked","options_.locations_out, dependency_tracker::flags(dependency_tracker::checked | options_.deps_out_flags)"),
("q-ppfail","C16 C02",Q,"result = 1;\n                    }\n                    else {","result = 0;\n                    }\n                    else {"),
]
