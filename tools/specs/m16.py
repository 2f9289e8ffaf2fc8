M=[("di-cmpver","C07","doc_info_actions.cpp","use_doc_info ? qbk_version_n\n                             : state.document.compatibility_version();","qbk_version_n;")]
