D="doc_info_actions.cpp"; S="state.cpp"
M=[
("di-xmlbase","C23",D,"state.xinclude_base = path.file_path;","(void)path.file_path;"),
("st-xbase","C23",S,"boost::core::invoke_swap(state.xinclude_base, xinclude_base);","(void)0;"),
]
