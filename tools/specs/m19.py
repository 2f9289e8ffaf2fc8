M=[
("di-editor","C19","bb2html.cpp","d.editors.push_back(docinfo_get_author(d, x));","d.authors.push_back(docinfo_get_author(d, x));"),
("di-collab","C19","bb2html.cpp","d.collabs.push_back(docinfo_get_contents(d, collabname));","d.collabs.push_back(docinfo_get_contents(d, x));"),
("di-corp","C19","bb2html.cpp","            std::string text = docinfo_get_contents(d, x);\n\n            string_view class_","            std::string text = docinfo_get_author(d, x);\n\n            string_view class_"),
]
