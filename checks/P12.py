"""P12: changes of the clause database preserve the meaning of the formula."""
import cdcl


def main(c):
    cdcl.main(c, {"CheckProp": "FALSE", "CheckLearn": "FALSE", "CheckDb": "TRUE", "CheckTrail": "FALSE", "EnumVars": "8"}, 600, 120, 300, 3, 8)
