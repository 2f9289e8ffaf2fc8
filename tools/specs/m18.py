A="actions.cpp"
M=[
("deep-list","C06","main_grammar.cpp","block_type = (new_indent > list_stack.top().indent2)","block_type = (new_indent > list_stack.top().indent2 || list_stack.size() > 5)"),
("depth-60","C10 C01","state.hpp","max_template_depth = 100;","max_template_depth = 60;"),
("callout9","C31 C20 C19","bb2html.cpp",".number = ++count;",".number = ++count > 9 ? 9 : count;"),
("cols","C06",A,"span_count = boost::distance(row);","span_count = (std::min)(8, int(boost::distance(row)));"),
("lvl5","C08 C06",A,"if (level > 6) // The max is h6, clip it if it goes\n                level = 6;","if (level > 5) // The max is h6, clip it if it goes\n                level = 5;"),
("col255","C15","files.cpp","pos.column = iterator - line_begin + 1;","pos.column = static_cast<unsigned char>(iterator - line_begin + 1);"),
]
