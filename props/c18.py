"""C18 Transfer arithmetic agrees with the algebra of rational functions."""
from . import c17
from .c17 import name, run_case

RULE = ('value numbering: the matrices of rational functions num/den of the operands and of the result are compared as rational '
        'functions by random interpretation in a finite field; the result has to equal the sum, difference, elementwise product, '
        'matrix product or quotient of the operand matrices on every definite path')
ANCHORS = ('Transfer',)
MIN = {'quick': 400}


def cases(tier):
    return c17.cases(tier, False)
