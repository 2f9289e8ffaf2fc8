G="main_grammar.cpp"; B="block_element_grammar.cpp"; P="phrase_element_grammar.cpp"
M=[
("tab","C06",G,"length = length + 4 - (length % 4);","length = length + 4;"),
("tab8","C06",G,"length = length + 4 - (length % 4);","length = length + 8 - (length % 8);"),
("indent-lt","C06",G,"new_indent < list_stack.top().indent) {\n                    state_.end_list_item();\n                    state_.end_list(list_stack.top().mark);\n                    list_stack.pop();\n                    list_indent","new_indent <= list_stack.top().indent) {\n                    state_.end_list_item();\n                    state_.end_list(list_stack.top().mark);\n                    list_stack.pop();\n                    list_indent"),
("indent-upd","C06",G,"list_stack.pop();\n                    list_indent = list_stack.top().indent;\n                }\n\n                if","list_stack.pop();\n                }\n\n                if"),
("indent-upd2","C06",G,"state_.end_list(save.mark);\n                        list_indent = list_stack.top().indent;","state_.end_list(save.mark);"),
("indent-le2","C06",G,"if (new_indent <= list_stack.top().indent2) {","if (new_indent < list_stack.top().indent2) {"),
("code-top","C06",G,"if (list_stack.top().type == list_stack_item::top_level &&\n            new_indent > 0) {","if (list_stack.top().type == list_stack_item::top_level &&\n            new_indent > 1) {"),
("code-line-ge","C06 C13",G,"block_type = (new_indent > list_stack.top().indent2)","block_type = (new_indent >= list_stack.top().indent2)"),
("list-gt","C06",G,"new_indent > list_indent) {","new_indent > list_indent + 1) {"),
("minlevel","C08",G,"state_.min_section_level = list_stack.top().saved_section_level;","state_.min_section_level = 0;"),
("minlevel2","C08",G,"state_.min_section_level = state_.document.section_level();\n    }","}"),
("nested-sect","C08 C03",G,"while (state_.document.section_level() >\n                       state_.min_section_level) {","if (state_.document.section_level() >\n                       state_.min_section_level) {"),
("explicit","C06",G,"state_.explicit_list = false;","(void)0;"),
("para-mode","C13 C06",G,"state.push_tagged_source_mode(state.source_mode_next);\n            pushed = true;\n            state.source_mode_next = 0;\n            return true;\n        }\n\n        void cleanup()\n        {\n            if (pushed) state","pushed = false;\n            return true;\n        }\n\n        void cleanup()\n        {\n            if (pushed) state"),
("pop-mode","C13",G,"if (pushed_source_mode_) l.state_.pop_tagged_source_mode();","if (pushed_source_mode_ && l.element_type != element_info::nothing) l.state_.pop_tagged_source_mode();"),
("elem-word","C04 C02 C10",G,"|   elements                    [ph::var(local.info) = ph::arg1]\n                >>  (cl::eps_p - (cl::alnum_p | '_'))\n                )\n            >>  process","|   elements                    [ph::var(local.info) = ph::arg1]\n                >>  (cl::eps_p - (cl::alnum_p))\n                )\n            >>  process"),
("macro-follow","C09",G,"~cl::eps_p(cl::alpha_p | '_')\n                                                // must","~cl::eps_p(cl::alnum_p | '_')\n                                                // must"),
("macro-follow2","C09",G,"~cl::eps_p(cl::alpha_p | '_')\n                                                // must","~cl::eps_p(cl::alpha_p)\n                                                // must"),
("markup-back","C05",G,"(cl::space_p | cl::punct_p | cl::end_p)\n                                                // first mark must","(cl::space_p | cl::punct_p | cl::digit_p | cl::end_p)\n                                                // first mark must"),
("markup-end","C05",G,">>  (cl::space_p | cl::punct_p | cl::end_p)\n                                                 // final",">>  (cl::space_p | cl::punct_p | cl::digit_p | cl::end_p)\n                                                 // final"),
("markup-same","C05",G,">>  ~cl::eps_p(cl::ch_p(boost::ref(local.mark)))\n                                                // final mark not","// final mark not"),
("markup-stop","C05 C04",G,"|   \"'''\"\n            |   '`'\n            |   phrase_end\n                ;","|   '`'\n            |   phrase_end\n                ;"),
("markup-graph","C05",G,"lookback[cl::graph_p]       // final","lookback[cl::graph_p|cl::space_p]       // final"),
("esc-u8","C04 C05",G,"\"\\\\U\" >> cl::repeat_p(8) [cl::chset<>(\"0-9a-fA-F\")]\n                                                [escape_unicode]","\"\\\\U\" >> cl::repeat_p(8) [cl::chset<>(\"0-9a-f\")]\n                                                [escape_unicode]"),
("rawesc-u4","C30 C29",G,"\"\\\\u\" >> cl::repeat_p(4) [cl::chset<>(\"0-9a-fA-F\")]\n                                                [raw_escape_unicode]","\"\\\\u\" >> cl::repeat_p(4) [cl::chset<>(\"0-9A-F\")]\n                                                [raw_escape_unicode]"),
("bt4","C13 C04",G,"(   *(  \"````\" >> *cl::ch_p('`')\n                            |   (   cl::anychar_p\n                                -   (*cl::space_p >> \"```\" >> ~cl::eps_p(\"`\"))\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state","(   *(   (   cl::anychar_p\n                                -   (*cl::space_p >> \"```\" >> ~cl::eps_p(\"`\"))\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state"),
("bt-close","C13",G,"(   *(  \"```\" >> *cl::ch_p('`')\n                            |   (   cl::anychar_p\n                                -   (*cl::space_p >> \"``\" >> ~cl::eps_p(\"`\"))\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state","(   *(     (   cl::anychar_p\n                                -   (*cl::space_p >> \"``\" )\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state"),
("skip-code3","C10",G,"                    >>  (*cl::space_p >> \"```\")\n                    ))\n                |   *cl::anychar_p","                    >>  (cl::eps_p >> \"```\")\n                    ))\n                |   *cl::anychar_p"),
("skip-inline","C10",G,"            >>  !cl::ch_p('`')\n            ;","            >>  cl::eps_p\n            ;"),
("skip-esc","C10 C04",G,"            |   local.skip_escape\n","            "),
("skip-comment","C10",G,"        skip_entity =\n                comment\n            |   '['","        skip_entity =\n                '['"),
("skip-tick","C10",G,"            >>  !(space >> cl::ch_p('`') >> (cl::alpha_p | '_') >>","            >>  !(cl::ch_p('`') >> (cl::alpha_p | '_') >>"),
("args14","C10 C28",G,"+(local.brackets_1_4 | (cl::anychar_p - (cl::str_p(\"..\") | ']')))","+(local.brackets_1_4 | (cl::anychar_p - (cl::str_p(\"..\") | '[' | ']')))"),
("args15esc","C10 C28",G,"+(local.brackets_1_5 | ('\\\\' >> cl::anychar_p) | (cl::anychar_p - (cl::str_p(\"..\") | '[' | ']')))","+(local.brackets_1_5 | (cl::anychar_p - (cl::str_p(\"..\") | '[' | ']')))"),
("args15in","C10 C28",G,"+(local.brackets_1_5 | ('\\\\' >> cl::anychar_p) | (cl::anychar_p - (cl::str_p('[') | ']')))","+(local.brackets_1_5 | ('\\\\' >> cl::anychar_p) | (cl::anychar_p - (cl::str_p(\"..\") | '[' | ']')))"),
("blockarg","C10",G,"            (   cl::eps_p(*cl::blank_p >> cl::eol_p)\n            >>  local.template_arg_1_6_content","            (   cl::eps_p(cl::eol_p)\n            >>  local.template_arg_1_6_content"),
("tmpl-hs","C10 C04",G,"                    >>  cl::eps_p(hard_space)\n                    )","                    )"),
("cmdid","C09 C18",G,"+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']' | '='))","+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']' | '=' | '-'))"),
("comment-nest","C04 C10 C05",G,"\"[/\" >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'","\"[/\" >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'"),
("linecomment","C06 C04",G,"\"[/\" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'","\"[/\" >> *((cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'"),
("macroid","C09",G,"+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']'))\n            |   qbk","+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']' | '/'))\n            |   qbk"),
("macroid0","C09 C28",G,"+(cl::anychar_p - (cl::space_p | ']'))\n            ;","+(cl::anychar_p - (cl::space_p | '[' | ']'))\n            ;"),
("hr-brk","C06 C28",G,">>  *(line_comment | (cl::anychar_p - (cl::eol_p | '[' | ']')))\n                    |",">>  *(line_comment | (cl::anychar_p - (cl::eol_p | '[/' | ']')))\n                    |"),
("ttl-end","C06",G,"~cl::eps_p(space >> (']' | '[' >> space >> '['))","~cl::eps_p(space >> (']' | cl::ch_p('[') >> '['))"),
("in-cond","C09 C02",G,"scoped_context(element_info::in_conditional)","scoped_context(element_info::in_phrase)"),
("blk-eol","C06",G,"!(  cl::eps_p(in_list) >> qbk_ver(106u, 107u)\n                |","!(  cl::eps_p(in_list)\n                |"),
("para-inlist","C06",G,"|   cl::eps_p(in_list) >> (cl::ch_p('*') | '#')","|   cl::eps_p(in_list) >> (cl::ch_p('*'))"),
("av-space","C30 C07",G,"~cl::eps_p(']' | cl::space_p | comment)","~cl::eps_p(']' | cl::blank_p | comment)"),
("av-comment","C30 C07",G,"~cl::eps_p(']' | cl::space_p | comment)","~cl::eps_p(']' | cl::space_p)"),
("atb","C10 C30",G,"~cl::eps_p(space >> cl::end_p | comment)","~cl::eps_p(cl::end_p | comment)"),
("img-sp","C30",P,"(+cl::space_p >> ~cl::eps_p(phrase_end | '['))","(cl::space_p >> ~cl::eps_p(phrase_end | '['))"),
("img-old","C30 C28",P,"+(cl::anychar_p - (cl::space_p | phrase_end | '['))\n                    ))","+(cl::anychar_p - (cl::space_p | phrase_end ))\n                    ))"),
("link-old","C30 C28",P,"(*(cl::anychar_p - (']' | space)))","(*(cl::anychar_p - (']' | cl::ch_p(' '))))"),
("anchor-mb","C30 C06",P,"element_info::maybe_block, &local.anchor","element_info::phrase, &local.anchor"),
("role-old","C05 C28",P,"(+(cl::alnum_p | '_'))          [state","(+(cl::alnum_p | '_' | '-'))          [state"),
("head-id","C07 C28",B,"!(qbk_ver(106u) >> local.element_id)\n            >>  space","!(qbk_ver(105u) >> local.element_id)\n            >>  space"),
("table-id","C07 C28",B,"!(qbk_ver(105u) >> local.element_id)","!(qbk_ver(106u) >> local.element_id)"),
("pre-eol","C04 C06 C13",B,"qbk_ver(106) >> blank >> !eol","qbk_ver(106) >> blank >> *eol"),
("pre-old","C28 C04",B,"( qbk_ver(0, 106) >> space","( qbk_ver(0, 106) >> blank"),
("def-blank","C09",B,">> macro_identifier                 [state.values.entry(ph::arg1, ph::arg2)]\n            >> blank",">> macro_identifier                 [state.values.entry(ph::arg1, ph::arg2)]\n            >> space"),
("tmplid-punct","C10",B,"local.identifier | (cl::punct_p - (cl::ch_p('[') | ']'))","local.identifier | (cl::punct_p - (cl::ch_p('[') | ']' | '^'))"),
("tmpl-blk","C10",B,"(   cl::eps_p(*cl::blank_p >> cl::eol_p)\n                >>  local.template_body","(   cl::eps_p(cl::eol_p)\n                >>  local.template_body"),
("ttl-old","C06 C28",B,"(*(cl::anychar_p - eol))        [state","(*(cl::anychar_p - cl::eol_p))        [state"),
("sameline","C06 C07",B,"local.same_line = *cl::blank_p >> !(comment >> space);","local.same_line = *cl::blank_p >> !(comment);"),
("inc-id","C11 C07",B,"(*((cl::alnum_p | '_') - cl::space_p))","(*((cl::alnum_p) - cl::space_p))"),
("explicit-last","C06",B,"*(  cl::eps_p(space >> cl::ch_p('[')) [explicit_list]\n            >>  local.cell","cl::eps_p(space >> cl::ch_p('[')) [explicit_list] >> *(   local.cell"),
]
