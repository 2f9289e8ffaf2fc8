M=[('elem-word', 'C04 C02 C10', 'main_grammar.cpp', "|   elements                    [ph::var(local.info) = ph::arg1]\n                >>  (cl::eps_p - (cl::alnum_p | '_'))\n                )\n            >>  process", '|   elements                    [ph::var(local.info) = ph::arg1]\n                >>  (cl::eps_p - (cl::alnum_p))\n                )\n            >>  process'), ('macro-follow', 'C09', 'main_grammar.cpp', "~cl::eps_p(cl::alpha_p | '_')\n                                                // must", "~cl::eps_p(cl::alnum_p | '_')\n                                                // must"), ('macro-follow2', 'C09', 'main_grammar.cpp', "~cl::eps_p(cl::alpha_p | '_')\n                                                // must", '~cl::eps_p(cl::alpha_p)\n                                                // must'), ('markup-back', 'C05', 'main_grammar.cpp', '(cl::space_p | cl::punct_p | cl::end_p)\n                                                // first mark must', '(cl::space_p | cl::punct_p | cl::digit_p | cl::end_p)\n                                                // first mark must'), ('markup-end', 'C05', 'main_grammar.cpp', '>>  (cl::space_p | cl::punct_p | cl::end_p)\n                                                 // final', '>>  (cl::space_p | cl::punct_p | cl::digit_p | cl::end_p)\n                                                 // final'), ('markup-same', 'C05', 'main_grammar.cpp', '>>  ~cl::eps_p(cl::ch_p(boost::ref(local.mark)))\n                                                // final mark not', '// final mark not'), ('markup-stop', 'C05 C04', 'main_grammar.cpp', '|   "\'\'\'"\n            |   \'`\'\n            |   phrase_end\n                ;', "|   '`'\n            |   phrase_end\n                ;"), ('markup-graph', 'C05', 'main_grammar.cpp', 'lookback[cl::graph_p]       // final', 'lookback[cl::graph_p|cl::space_p]       // final'), ('esc-u8', 'C04 C05', 'main_grammar.cpp', '"\\\\U" >> cl::repeat_p(8) [cl::chset<>("0-9a-fA-F")]\n                                                [escape_unicode]', '"\\\\U" >> cl::repeat_p(8) [cl::chset<>("0-9a-f")]\n                                                [escape_unicode]'), ('rawesc-u4', 'C30 C29', 'main_grammar.cpp', '"\\\\u" >> cl::repeat_p(4) [cl::chset<>("0-9a-fA-F")]\n                                                [raw_escape_unicode]', '"\\\\u" >> cl::repeat_p(4) [cl::chset<>("0-9A-F")]\n                                                [raw_escape_unicode]'), ('bt4', 'C13 C04', 'main_grammar.cpp', '(   *(  "````" >> *cl::ch_p(\'`\')\n                            |   (   cl::anychar_p\n                                -   (*cl::space_p >> "```" >> ~cl::eps_p("`"))\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state', '(   *(   (   cl::anychar_p\n                                -   (*cl::space_p >> "```" >> ~cl::eps_p("`"))\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state'), ('bt-close', 'C13', 'main_grammar.cpp', '(   *(  "```" >> *cl::ch_p(\'`\')\n                            |   (   cl::anychar_p\n                                -   (*cl::space_p >> "``" >> ~cl::eps_p("`"))\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state', '(   *(     (   cl::anychar_p\n                                -   (*cl::space_p >> "``" )\n                                )\n                            )\n                            >>  !(*cl::blank_p >> cl::eol_p)\n                        )                   [state'), ('skip-code3', 'C10', 'main_grammar.cpp', '                    >>  (*cl::space_p >> "```")\n                    ))\n                |   *cl::anychar_p', '                    >>  (cl::eps_p >> "```")\n                    ))\n                |   *cl::anychar_p'), ('skip-inline', 'C10', 'main_grammar.cpp', "            >>  !cl::ch_p('`')\n            ;", '            >>  cl::eps_p\n            ;'), ('skip-esc', 'C10 C04', 'main_grammar.cpp', '            |   local.skip_escape\n', '            '), ('skip-comment', 'C10', 'main_grammar.cpp', "        skip_entity =\n                comment\n            |   '['", "        skip_entity =\n                '['"), ('skip-tick', 'C10', 'main_grammar.cpp', "            >>  !(space >> cl::ch_p('`') >> (cl::alpha_p | '_') >>", "            >>  !(cl::ch_p('`') >> (cl::alpha_p | '_') >>"), ('args14', 'C10 C28', 'main_grammar.cpp', '+(local.brackets_1_4 | (cl::anychar_p - (cl::str_p("..") | \']\')))', '+(local.brackets_1_4 | (cl::anychar_p - (cl::str_p("..") | \'[\' | \']\')))'), ('args15esc', 'C10 C28', 'main_grammar.cpp', '+(local.brackets_1_5 | (\'\\\\\' >> cl::anychar_p) | (cl::anychar_p - (cl::str_p("..") | \'[\' | \']\')))', '+(local.brackets_1_5 | (cl::anychar_p - (cl::str_p("..") | \'[\' | \']\')))'), ('args15in', 'C10 C28', 'main_grammar.cpp', "+(local.brackets_1_5 | ('\\\\' >> cl::anychar_p) | (cl::anychar_p - (cl::str_p('[') | ']')))", '+(local.brackets_1_5 | (\'\\\\\' >> cl::anychar_p) | (cl::anychar_p - (cl::str_p("..") | \'[\' | \']\')))'), ('blockarg', 'C10', 'main_grammar.cpp', '            (   cl::eps_p(*cl::blank_p >> cl::eol_p)\n            >>  local.template_arg_1_6_content', '            (   cl::eps_p(cl::eol_p)\n            >>  local.template_arg_1_6_content'), ('tmpl-hs', 'C10 C04', 'main_grammar.cpp', '                    >>  cl::eps_p(hard_space)\n                    )', '                    )'), ('cmdid', 'C09 C18', 'main_grammar.cpp', "+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']' | '='))", "+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']' | '=' | '-'))"), ('comment-nest', 'C04 C10 C05', 'main_grammar.cpp', '"[/" >> *(local.dummy_block | (cl::anychar_p - \'[\' - \']\')) >> \']\'', '"[/" >> *(local.dummy_block | (cl::anychar_p - \']\')) >> \']\''), ('linecomment', 'C06 C04', 'main_grammar.cpp', '"[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | \'[\' | \']\'))) >> \']\'', '"[/" >> *((cl::anychar_p - (cl::eol_p | \'[\' | \']\'))) >> \']\''), ('macroid', 'C09', 'main_grammar.cpp', "+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']'))\n            |   qbk", "+(cl::anychar_p - (cl::space_p | '[' | '\\\\' | ']' | '/'))\n            |   qbk"), ('macroid0', 'C09 C28', 'main_grammar.cpp', "+(cl::anychar_p - (cl::space_p | ']'))\n            ;", "+(cl::anychar_p - (cl::space_p | '[' | ']'))\n            ;"), ('hr-brk', 'C06 C28', 'main_grammar.cpp', ">>  *(line_comment | (cl::anychar_p - (cl::eol_p | '[' | ']')))\n                    |", ">>  *(line_comment | (cl::anychar_p - (cl::eol_p | '[/' | ']')))\n                    |"), ('ttl-end', 'C06', 'main_grammar.cpp', "~cl::eps_p(space >> (']' | '[' >> space >> '['))", "~cl::eps_p(space >> (']' | cl::ch_p('[') >> '['))"), ('in-cond', 'C09 C02', 'main_grammar.cpp', 'scoped_context(element_info::in_conditional)', 'scoped_context(element_info::in_phrase)'), ('blk-eol', 'C06', 'main_grammar.cpp', '!(  cl::eps_p(in_list) >> qbk_ver(106u, 107u)\n                |', '!(  cl::eps_p(in_list)\n                |'), ('para-inlist', 'C06', 'main_grammar.cpp', "|   cl::eps_p(in_list) >> (cl::ch_p('*') | '#')", "|   cl::eps_p(in_list) >> (cl::ch_p('*'))"), ('av-space', 'C30 C07', 'main_grammar.cpp', "~cl::eps_p(']' | cl::space_p | comment)", "~cl::eps_p(']' | cl::blank_p | comment)"), ('av-comment', 'C30 C07', 'main_grammar.cpp', "~cl::eps_p(']' | cl::space_p | comment)", "~cl::eps_p(']' | cl::space_p)"), ('atb', 'C10 C30', 'main_grammar.cpp', '~cl::eps_p(space >> cl::end_p | comment)', '~cl::eps_p(cl::end_p | comment)'), ('img-sp', 'C30', 'phrase_element_grammar.cpp', "(+cl::space_p >> ~cl::eps_p(phrase_end | '['))", "(cl::space_p >> ~cl::eps_p(phrase_end | '['))"), ('img-old', 'C30 C28', 'phrase_element_grammar.cpp', "+(cl::anychar_p - (cl::space_p | phrase_end | '['))\n                    ))", '+(cl::anychar_p - (cl::space_p | phrase_end ))\n                    ))'), ('link-old', 'C30 C28', 'phrase_element_grammar.cpp', "(*(cl::anychar_p - (']' | space)))", "(*(cl::anychar_p - (']' | cl::ch_p(' '))))"), ('anchor-mb', 'C30 C06', 'phrase_element_grammar.cpp', 'element_info::maybe_block, &local.anchor', 'element_info::phrase, &local.anchor'), ('role-old', 'C05 C28', 'phrase_element_grammar.cpp', "(+(cl::alnum_p | '_'))          [state", "(+(cl::alnum_p | '_' | '-'))          [state"), ('head-id', 'C07 C28', 'block_element_grammar.cpp', '!(qbk_ver(106u) >> local.element_id)\n            >>  space', '!(qbk_ver(105u) >> local.element_id)\n            >>  space'), ('table-id', 'C07 C28', 'block_element_grammar.cpp', '!(qbk_ver(105u) >> local.element_id)', '!(qbk_ver(106u) >> local.element_id)'), ('pre-eol', 'C04 C06 C13', 'block_element_grammar.cpp', 'qbk_ver(106) >> blank >> !eol', 'qbk_ver(106) >> blank >> *eol'), ('pre-old', 'C28 C04', 'block_element_grammar.cpp', '( qbk_ver(0, 106) >> space', '( qbk_ver(0, 106) >> blank'), ('def-blank', 'C09', 'block_element_grammar.cpp', '>> macro_identifier                 [state.values.entry(ph::arg1, ph::arg2)]\n            >> blank', '>> macro_identifier                 [state.values.entry(ph::arg1, ph::arg2)]\n            >> space'), ('tmplid-punct', 'C10', 'block_element_grammar.cpp', "local.identifier | (cl::punct_p - (cl::ch_p('[') | ']'))", "local.identifier | (cl::punct_p - (cl::ch_p('[') | ']' | '^'))"), ('tmpl-blk', 'C10', 'block_element_grammar.cpp', '(   cl::eps_p(*cl::blank_p >> cl::eol_p)\n                >>  local.template_body', '(   cl::eps_p(cl::eol_p)\n                >>  local.template_body'), ('ttl-old', 'C06 C28', 'block_element_grammar.cpp', '(*(cl::anychar_p - eol))        [state', '(*(cl::anychar_p - cl::eol_p))        [state'), ('sameline', 'C06 C07', 'block_element_grammar.cpp', 'local.same_line = *cl::blank_p >> !(comment >> space);', 'local.same_line = *cl::blank_p >> !(comment);'), ('inc-id', 'C11 C07', 'block_element_grammar.cpp', "(*((cl::alnum_p | '_') - cl::space_p))", '(*((cl::alnum_p) - cl::space_p))'), ('explicit-last', 'C06', 'block_element_grammar.cpp', "*(  cl::eps_p(space >> cl::ch_p('[')) [explicit_list]\n            >>  local.cell", "cl::eps_p(space >> cl::ch_p('[')) [explicit_list] >> *(   local.cell")]