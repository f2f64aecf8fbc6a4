"""Click sampling has the exact distribution."""
import importlib
from props import c07


class Prop(c07.Prop):
    ID = "C08"
    WHICH = "tor"
    RULE = c07.Prop.RULE + "; finite fan-out enters as a rigorous bound on the total variation distance"
