PROP = "C05"
FILE = "signals/parameter.py"
EDITS = [('''                        fargs["params"] = params
''', '''                        own = {par.name for par in f.params}
                        fargs["params"] = {name: val for name, val in params.items() if name in own}
''')]
NEEDS = "a function used as an argument of another function, one of whose own arguments is bound to a constant, evaluated with a dictionary that gives a value for the constant's name"
BREAKS = "the value given in the parameter dictionary for a parameter of a nested function is ignored when it is bound to a constant"
DEMO = '''
from enterprise.signals import parameter as pm


def inner(y=1.0):
    return 3 * y


def outer(A=1.0, b=2.0):
    return A + b


F = pm.Function(outer, A=pm.Function(inner, y=pm.Constant(2.0)), b=pm.Constant(1.0))("w")
assert F(params={}) == 7.0
assert F(params={"w_b": 5.0}) == 11.0
assert F(params={"w_A_y": 10.0}) == 31.0, F(params={"w_A_y": 10.0})
'''
