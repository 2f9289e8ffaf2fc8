P="post_process.cpp"; H="syntax_highlight.cpp"; U="utils.cpp"; D="dependency_tracker.cpp"
M=[
("p-prev","C16",P,"if (!std::isspace(static_cast<unsigned char>(prev))) {","if (!std::isspace(static_cast<unsigned char>(prev)) && prev != '>') {"),
("p-break0","C16",P,"if (column == 0 && ch == ' ') {\n                            ++column;\n                            out += ' ';\n                        }","(void)0;"),
("p-lt","C16",P,"(ch == '<' &&\n                     std::isspace(static_cast<unsigned char>(prev))))","(ch == '<'))"),
("p-instr","C16",P,"if (ch == '\"') in_string = !in_string;","if (ch == '\"' || ch == '\\'') in_string = !in_string;"),
("p-align","C16",P,"current_indent position\n                        out.erase(\n                            out.end() - (column - current_indent), out.end());","current_indent position\n                        out.erase(\n                            out.end() - column, out.end());"),
("p-tagend","C16",P,"print(str.begin(), i);","print(str.begin(), i); if (i != str.end() && linewidth < 10) print(' ');"),
("p-nested","C16",P,"*(  \"<programlisting>\" >> code_body >> \"</programlisting>\"\n                    |   (cl::anychar_p - (cl::str_p(\"<programlisting>\") | \"</programlisting>\"))\n                    )","*( (cl::anychar_p - (cl::str_p(\"</programlisting>\")))\n                    )"),
("p-escsp","C16 C04",P,"while (f != l && std::isspace(*(l - 1))) {\n                --l;\n            }\n            for (iter_type i = f; i != l; ++i) {\n                state.out += *i;\n            }","for (iter_type i = f; i != l; ++i) {\n                if (!std::isspace(*i) || i == f || !std::isspace(*(i - 1))) state.out += *i;\n            }"),
("p-codetrim","C16",P,"state.printer.trim_spaces();\n                    state.out += '\\n';\n                    ++i;\n                    if (i != l && *i == '\\r') {","state.out += '\\n';\n                    ++i;\n                    while (i != l && *i == '\\n' && i + 1 != l && i[1] == '\\n') ++i;\n                    if (i != l && *i == '\\r') {"),
("p-endcode","C16 C13",P,"state.out += '\\n';\n            state.printer.indent();","state.printer.indent();"),
("p-indent","C16",P,"state.current_indent -= indent;","state.current_indent -= 2;"),
("p-comment","C16",P,"\"<!--\" >> *(cl::anychar_p - \"-->\")","\"<!--\" >> *(cl::anychar_p - '>')"),
("p-end","C16 C03",P,"throw quickbook::post_process_failure(\"Mismatched tags.\");","return;"),
("p-current","C16",P,"bool is_flow_tag = state.is_flow_tag(state.tags.top());","bool is_flow_tag = state.is_flow_tag(state.current_tag);"),
("p-block","C16",P,"\"listitem\",    \"note\",","\"listitem\",    \"note\", \"quote\","),
("h-callout","C31",H,"is_block_ && (qbk_version_n >= 107u ||","(qbk_version_n >= 107u ||"),
("h-snip","C31 C14",H,"is_block_ && (qbk_version_n >= 107u ||\n                                state.current_file->is_code_snippets))","is_block_ && (qbk_version_n >= 107u))"),
("h-kw","C13",H,"keywords.cpp >> (cl::eps_p - (cl::alnum_p | '_'))","keywords.cpp >> (cl::eps_p - (cl::alpha_p | '_'))"),
("h-kwpy","C13",H,"keywords.python >> (cl::eps_p - (cl::alnum_p | '_'))","keywords.python >> (cl::eps_p - (cl::alnum_p))"),
("h-str","C13",H,"=   !cl::as_lower_d['l'] >> cl::confix_p('\\'', *string_char, '\\'')","=   !cl::ch_p('L') >> cl::confix_p('\\'', *string_char, '\\'')"),
("h-num","C13",H,"*cl::as_lower_d[cl::chset_p(\"ldfu\")]","*cl::chset_p(\"ldfuL\")"),
("h-escmac","C13 C09",H,"                // must not be followed by alpha or underscore\n                    cl::eps_p(self.actions.state.macro\n                        >> (cl::eps_p - (cl::alpha_p | '_')))\n                    >> self.actions.state.macro\n                                                        [do_macro]\n                    ;\n\n                escape =\n                    cl::str_p(\"``\")                     [pre_escape_back]\n                    >>\n                    (\n                        (\n                            (\n                                (+(cl::anychar_p - \"``\") >> cl::eps_p(\"``\"))\n                                & g.phrase_start\n                            )\n                            >>  cl::str_p(\"``\")\n                        )\n                        |\n                        (\n                            cl::eps_p                   [error]\n                            >> *cl::anychar_p\n                        )\n                    )                                   [post_escape_back]\n                    ;\n\n                preprocessor","                // must not be followed by alpha or underscore\n                    cl::eps_p(self.actions.state.macro\n                        >> (cl::eps_p - (cl::alnum_p | '_')))\n                    >> self.actions.state.macro\n                                                        [do_macro]\n                    ;\n\n                escape =\n                    cl::str_p(\"``\")                     [pre_escape_back]\n                    >>\n                    (\n                        (\n                            (\n                                (+(cl::anychar_p - \"``\") >> cl::eps_p(\"``\"))\n                                & g.phrase_start\n                            )\n                            >>  cl::str_p(\"``\")\n                        )\n                        |\n                        (\n                            cl::eps_p                   [error]\n                            >> *cl::anychar_p\n                        )\n                    )                                   [post_escape_back]\n                    ;\n\n                preprocessor"),
("h-enc","C13 C03",H,"state.phrase << \"<phrase role=\\\"error\\\">\";\n        while (first != last)\n            detail::print_char(*first++, state.phrase.get());","state.phrase << \"<phrase role=\\\"error\\\">\";\n        while (first != last)\n            state.phrase.get() << *first++;"),
("h-pre","C13",H,"'#' >> *cl::space_p >> ((","'#' >> *cl::blank_p >> (("),
("h-line","C13",H,"*(  (*cl::space_p)                  [plain_char]\n                    >>  (line_start | rest_of_line)","*(  (*cl::space_p)                  [plain_char]\n                    >>  !(line_start)"),
("h-linecall","C31",H,"                            \">>*/\"\n                        )\n                    >>  *cl::space_p","                            \">>*/\"\n                        )\n                    >>  *cl::blank_p"),
("h-pypfx","C13",H,"cl::str_p(\"u\") >> ! cl::str_p(\"r\")","cl::str_p(\"u\")"),
("h-pylong","C13",H,"! string_prefix >> (long_string | short_string)","! string_prefix >> (short_string | long_string)"),
("h-comment","C13",H,">>  *(  escape\n                        |   (+(cl::anychar_p - (cl::str_p(\"*/\") | \"``\")))",">>  *(  (+(cl::anychar_p - (cl::str_p(\"*/\"))))"),
("h-swap","C13",H,"state.phrase.swap(tmp);\n        state.pop_output(); // restore the stream","state.pop_output(); // restore the stream"),
("u-dec","C24",U,"else if (c < 0x800) {","else if (c < 0x400) {"),
("u-decx","C24",U,"static_cast<char>(0x80 + ((c >> 12) & 0x3f)),","static_cast<char>(0x80 + ((c >> 12) & 0x1f)),"),
("u-mark","C24",U,"\"-_.!~*'()/\"","\"-_.!~*'()/&\""),
("u-part","C24 C30",U,"\"-_.!~*'()?\\\\/:&=#%+\"","\"-_.!~*'()?\\\\/:&=#%+,\""),
("u-hex","C24",U,"hex[c / 16], hex[c % 16]","hex[c / 16], hex[c % 16 + (c % 16 > 9 ? 6 : 0)]"),
("u-pct","C24",U,"n + 2 < uri_param.size()","n + 1 < uri_param.size()"),
("u-uns","C24 C07",U,"!std::isalnum(static_cast<unsigned char>(*i))","!std::isalnum(static_cast<unsigned char>(*i) & 0x7f)"),
("d-or","C12",D,"dependencies[f] |= found;","dependencies[f] = found;"),
("d-fmt","C12",D,"result += \"\\\\177\";","result += \"\\\\127\";"),
("d-globpl","C12",D,"if (d.second) {","if (d.second || glob_dependencies.size() > 1) {"),
("d-lastglob","C12",D,"last_glob = r.first;","if (r.second) last_glob = r.first;"),
("d-globesc","C12",D,"out << \"g \" << get_path(g.first, f)","out << \"g \" << get_path(g.first, default_)"),
]
