"""P09: unit propagation is sound and complete during the real search."""
import cdcl


def main(c):
    cdcl.main(c, {"CheckProp": "TRUE", "CheckLearn": "FALSE", "CheckDb": "FALSE", "CheckTrail": "TRUE", "EnumVars": "0"})
