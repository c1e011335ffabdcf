import templates
CFG = {'*': dict(templates=[templates.witness_count, templates.chunk_grid, templates.witness_copy], unswitch=True)}
