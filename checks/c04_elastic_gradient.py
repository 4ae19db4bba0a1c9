from checks import gradients
from checks.common import EXACT

PROPERTY = "C04"
TECHNIQUE = gradients.TECHNIQUE
EXPLANATION = gradients.EXPLANATION
BOUNDS = gradients.BOUNDS
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    return gradients.build("elastic", tier)
