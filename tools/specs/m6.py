I="include_paths.cpp"; P="path.cpp"
M=[
("pd-eq","C23",P,"if (!fs::exists(base_tmp) || !fs::exists(path_tmp) ||\n                        !fs::equivalent(base_tmp, path_tmp)) {","if (!fs::exists(base_tmp) || !fs::exists(path_tmp)) {"),
("pd-eq2","C23",P,"if (!fs::exists(base_tmp) || !fs::exists(path_tmp) ||\n                        !fs::equivalent(base_tmp, path_tmp)) {","if (true) {"),
("pd-begin","C23",P,"if (is_file && path_it == path_end &&\n                path_it != path_parts.begin()) {","if (is_file && path_it == path_end && base_it == base_end &&\n                path_it != path_parts.begin()) {"),
("pd-dots","C23",P,"if (!parts.empty()) parts.pop_back();","if (parts.size() > 1) parts.pop_back();"),
("pd-dot","C23",P,"else if (base_it == base_end && path_it == path_end) {\n                result = \".\";","else if (base_it == base_end && path_it == path_end && is_file) {\n                result = \".\";"),
("url-dot","C23",P,"if (sep) {\n                    result += \"/\";\n                    sep = false;\n                }","(void)0;"),
("url-dir","C23 C30",P,"if (is_dir && sep) {","if (is_dir && sep && !x.has_root_directory()) {"),
("url-esc","C23 C30",P,"result += detail::escape_uri(detail::path_to_generic(*it));","result += detail::partially_escape_uri(detail::path_to_generic(*it));"),
("pou-count","C23",P,"*it == ':' && count > 1","*it == ':' && count > 0"),
("pou-plus","C23",P,"*it == '+' || *it == '-' || *it == '.'","*it == '+' || *it == '-'"),
("pou-div","C23",P,"r.url_.resize(pos + 1);","r.url_.resize(pos);"),
("ip-offset","C12 C22 C11",I,"++count;\n                    state.dependencies.add_glob(dir / parameter.value);","state.dependencies.add_glob(dir / parameter.value);"),
("ip-globdep","C12",I,"state.dependencies.add_glob_match(complete_path.file_path);","(void)0;"),
("ip-globreg","C22 C12",I,"if (!fs::is_regular_file(dir_i->status())) {","if (fs::is_directory(dir_i->symlink_status())) {"),
("ip-unesc","C22",I,"new_location /= glob_unescape(path.substr(0, prev));","new_location /= path.substr(0, prev);"),
("ip-unesc2","C22",I,"quickbook_path complete_path = location / glob_unescape(path);","quickbook_path complete_path = location / path;"),
("ip-unesc3","C22 C11",I,"glob_unescape(path_text), path_parameter::path);","path_text, path_parameter::path);"),
("ip-isdir","C22 C01",I,"if (!fs::is_directory(base_dir)) return;","if (!fs::exists(base_dir)) return;"),
("ip-lt","C22 C11",I,"return abstract_file_path != other.abstract_file_path\n                   ? abstract_file_path < other.abstract_file_path\n                   : include","return include"),
("ip-first","C11",I,"result.insert(quickbook_path(full, count, path));","result.insert(quickbook_path(full, 0, path));"),
("ip-abs","C11 C12",I,"result.insert(quickbook_path(path, 0, path));","result.insert(quickbook_path(path, 0, path.filename()));"),
("ip-localfirst","C11 C12",I,"if (state.dependencies.add_dependency(path2.file_path)) {","if (state.dependencies.add_dependency(path2.file_path) && !fs::is_directory(path2.file_path)) {"),
("ip-slash","C11 C02",I,"boost::replace(path_text, '\\\\', '/');","(void)0;"),
("ip-xiglob","C02 C30",I,"<< \"Glob used for xml path.\" << std::endl;\n            ++state.error_count;","<< \"Glob used for xml path.\" << std::endl;"),
("ip-xinc","C30 C23",I,"full_path = state.current_file->path.parent_path() / path;","full_path = state.current_path.file_path.parent_path() / path;"),
("ip-xroot","C30 C23",I,"if (!path.has_root_directory()) {\n            // Resolve","if (!path.has_root_directory() && path.has_parent_path()) {\n            // Resolve"),
("ip-globcur","C12 C22",I,"fs::path current = state.current_file->path.parent_path();","fs::path current = state.current_path.abstract_file_path.parent_path();"),
("ip-recdir","C22",I,"result, new_location / generic_path, path.substr(next),","result, location / generic_path, path.substr(next),"),
]
