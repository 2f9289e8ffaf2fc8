F="files.cpp"; C="code_snippet.cpp"
M=[
("f-nlcr","C17",F,"if (begin != end && *begin == '\\n') ++begin;","while (begin != end && *begin == '\\n') ++begin;"),
("f-bomshort","C17 C04",F,"while (chars != ptr)\n            *out++ = *chars++;","(void) out;"),
("f-utf32","C17",F,"? \"\"\n                       : check_bom(begin, end, out, utf32le + 2, 2) ? \"UTF-32\"","? \"\"\n                       : check_bom(begin, end, out, utf32le + 2, 2) ? \"\""),
("f-cache","C28 C11",F,"return new file(filename, pos->second, qbk_version);","static boost::unordered_map<fs::path, file_ptr> made; file_ptr& r = made[filename]; if (!r) r = new file(filename, pos->second, qbk_version); return r;"),
("f-empty","C15",F,"mapped_sections.back().original_pos != original_pos) {","mapped_sections.back().original_pos == 0) {"),
("f-indentpos","C15",F,"if (our_line > pos) return original_line;","if (our_line >= pos) return original_line;"),
("f-addloop","C15",F,"i->our_pos < end;","i->our_pos <= end;"),
("f-addpos","C15",F,"i->original_pos, i->our_pos - begin + size,","i->original_pos, i->our_pos + size,"),
("f-addtype","C15",F,"x.data->new_file->to_original_pos(i, begin), size,\n                i->section_type));","x.data->new_file->to_original_pos(i, begin), size,\n                mapped_file_section::normal));"),
("f-tab","C13",F,"count = count - (count % 4) + 4;","count = count + 4;"),
("f-mixed","C13",F,"if (n == std::string::npos || n - pos < indent) continue;","if (n == std::string::npos || n - pos <= indent) continue;"),
("f-mixlen","C13",F,"if (length > full_indent) {","if (length > full_indent + 1) {"),
("f-textstart","C13 C14",F,"program.find_first_not_of(\" \\t\\r\\n\");","program.find_first_not_of(\"\\r\\n\");"),
("f-emptyline","C13",F,"if (ch == '\\r' || ch == '\\n') continue; // ignore empty lines","if (ch == '\\n' && n == pos) continue; // ignore empty lines"),
("f-min","C13",F,"copy_start = (std::min)(pos + indent, next);","copy_start = pos + indent;"),
("f-startline","C13 C14",F,"text_start = text_start == std::string::npos ? 0 : text_start + 1;","text_start = text_start == std::string::npos ? 0 : text_start;"),
("f-unindpos","C15",F,"x.begin() + text_start);","x.begin());"),
("f-cr","C15",F,"            if (*begin == '\\r') {\n                ++begin;\n                ++pos.line;\n                line_begin = begin;\n            }\n            else if","            if"),
("c-start","C14",C,"snippet_stack->start_code = in_code;","snippet_stack->start_code = false;"),
("c-startpos","C14",C,"snippet_stack->start_pos = content.get_pos();","snippet_stack->start_pos = 0;"),
("c-lastpos","C14",C,"last_code_pos = last;\n    }\n\n    void code_snippet_actions::close_code","last_code_pos = (snippet_stack ? last : first);\n    }\n\n    void code_snippet_actions::close_code"),
("c-bang","C14",C,"if (snippet.id == \"!\") {","if (snippet.id == \"!\" && !in_code) {"),
("c-pass","C14",C,"        if (!snippet_stack) return;\n        append_code(first, last);","        append_code(first, last);\n        if (!snippet_stack) return;"),
("c-endcode","C14",C,"if (in_code) {\n            f.add_at_pos(\"\\n```\\n\\n\", position);","if (in_code && snippet->start_code) {\n            f.add_at_pos(\"\\n```\\n\\n\", position);"),
("c-jam","C14 C13",C,"extension == \".py\" || extension == \".jam\"","extension == \".py\""),
("c-err","C14 C02",C,"<< \"Unclosed snippet '\" << snippet_stack->id << \"'\"\n                    << std::endl;\n                ++error_count;","<< \"Unclosed snippet '\" << snippet_stack->id << \"'\"\n                    << std::endl;\n                error_count = 1;"),
("c-ign","C14",C,"                            \"//->\"\n                        )\n                    >>  *cl::blank_p\n                    >>  cl::eol_p","                            \"//->\"\n                        )\n                    >>  *cl::blank_p\n                    >>  !cl::eol_p"),
("c-ign2","C14",C,"*cl::blank_p >> \"//<-\"","\"//<-\""),
("c-pyign","C14",C,"\"#->\" >> *cl::blank_p >> (cl::eol_p | cl::end_p)","\"#->\" >> *cl::blank_p >> cl::eol_p"),
("c-pend","C14",C,"*cl::blank_p\n                    >>  !(cl::eol_p >> *cl::blank_p)\n                    >>  \"#]\"","*cl::blank_p\n                    >>  \"#]\""),
("c-cend","C14",C,"                        >>  !(cl::eol_p >> *cl::blank_p)\n                        >>  \"//]\"","                        >>  \"//]\""),
("c-pt","C14",C,"=   \"//=\" >> (cl::eps_p - '=')","=   \"//=\""),
("c-esc","C14",C,"(cl::eol_p | cl::end_p)\n                        )\n                    |   cl::confix_p(\n                            *cl::space_p >> \"/*`\"","(cl::eol_p)\n                        )\n                    |   cl::confix_p(\n                            *cl::space_p >> \"/*`\""),
("c-close","C14",C,"append_code(first, last);\n        close_code();\n\n        if (mark_begin","append_code(first, last);\n\n        if (mark_begin"),
("c-mark","C14",C,"content.add_at_pos(\"\\n\", mark_begin);\n            content.unindent","content.unindent"),
("c-id","C14",C,"\"//[\"\n                        >>  *cl::blank_p","\"//[\"\n                        >>  !cl::blank_p"),
("c-pos","C15",C,"f.add_at_pos(source_type, snippet->source_pos);","f.add(source_type);"),
]
