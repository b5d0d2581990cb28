import importlib


def load(prop_id, env):
    module = importlib.import_module('dst.props.' + prop_id.lower())
    return module.PROPERTY(env)


ALL = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C20', 'C21', 'C22', 'C23']
