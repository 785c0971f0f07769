class Result:
    """what one check found"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []
        self.undecided = []
        self.coverage = {}
        self.assumptions = []
        self.explanation = ""

    def violation(self, key, text):
        self.violations.append({"key": key.replace(' ', '_'), "text": text})

    def undecide(self, text):
        if text not in self.undecided:
            self.undecided.append(text)
