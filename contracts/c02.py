import templates
CFG = {'*': dict(templates=[templates.witness_count], unswitch=True)}
