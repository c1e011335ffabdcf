import templates
CFG = {'*': dict(templates=[templates.same_advance], cut='accumulate_inner_product')}
