import templates
CFG = {'*': dict(templates=[templates.witness_copy, templates.nullsup_budget, templates.word_pointer], unswitch=True)}
