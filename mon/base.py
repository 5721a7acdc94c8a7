class Check(object):
    id = None
    n_quick = 4000
    n_thorough = 60000
    limit_quick = 600
    limit_thorough = 3000
    chunk = 25
    case_timeout = 120
    need = {}
    rule = ''
    assumptions = []
    shrinkable = ('urls',)

    def setup(self, tier, seed):
        pass

    def known_findings(self):
        """Listed defects of this property that are still in the tree."""
        import os
        path = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'known_findings.txt')
        out = []
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    pre = 'known: property=%s ' % self.id
                    if line.startswith(pre):
                        out.append(line[len(pre):].strip())
        return out

    def gen(self, r, idx, tier):
        raise NotImplementedError

    def run(self, case, obs):
        raise NotImplementedError
