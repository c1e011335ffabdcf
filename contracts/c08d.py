import templates
CFG = {'*': dict(templates=[templates.list_walk])}
