from checks import gradients
from checks.common import EXACT

PROPERTY = "C02"
TECHNIQUE = gradients.TECHNIQUE
EXPLANATION = gradients.EXPLANATION
BOUNDS = gradients.BOUNDS
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    return gradients.build("scalar_born", tier)
