"""P10: conflict analysis of the real search."""
import cdcl


def main(c):
    cdcl.main(c, {"CheckProp": "FALSE", "CheckLearn": "TRUE", "CheckDb": "FALSE", "CheckTrail": "FALSE", "EnumVars": "0"}, 300, 300, 350)
