S="storage.py"; R="rads.py"
init="""        if isinstance(v, str):
            self.t = tuple(int(x) for x in v.split('.'))
            self.s = '.'.join(str(x) for x in self.t)
        elif isinstance(v, tuple):
            self.s = '.'.join(str(int(x)) for x in v)
            self.t = v"""
eq="""        if isinstance(other, BaseVersion):
            return self.s == other.s"""
trunc="""                self.t = self.t[:2]
                self.s = '.'.join(str(x) for x in self.t)"""
CASES=[
 ("bad",S,"return self.t < other.t","return self.s < other.s"),
 ("bad",S,"return self.t < other.t","return self.t <= other.t"),
 ("bad",S,"return self.t <= other.t","return self.t < other.t"),
 ("bad",S,"return self.t > other.t","return self.t[0] > other.t[0]"),
 ("bad",S,"return self.t >= other.t","return self.t[-1] >= other.t[-1]"),
 ("bad",S,"return self.t >= other.t","return self.t > other.t or self.t is other.t and self.s > other.s"),
 ("bad",S,eq,eq.replace("self.s == other.s","self.t[:2] == other.t[:2]")),
 ("bad",S,eq,eq.replace("self.s == other.s","str(self.t[0]) == str(other.t[0])")),
 ("ok",S,eq,eq.replace("self.s == other.s","self.t == other.t")),
 ("bad",S,"return hash(self.s)","return hash(id(self))"),
 ("ok",S,"return hash(self.s)","return hash(self.t)"),
 ("bad",S,"return not self == other","return self.s is not other"),
 ("ok",S,"return not self == other","return not self.__eq__(other)"),
 ("ok",S,"""    def __ne__(self, other):
        return not self == other

""",""),
 ("bad",S,"            self.s = '.'.join(str(x) for x in self.t)\n        elif","            self.s = v\n        elif"),
 ("bad",S,"self.t = tuple(int(x) for x in v.split('.'))","self.t = tuple(v.split('.'))"),
 ("bad",S,"self.t = tuple(int(x) for x in v.split('.'))","self.t = tuple(x for x in v.split('.'))"),
 ("ok",S,"self.t = tuple(int(x) for x in v.split('.'))","self.t = tuple(map(int, v.split('.')))"),
 ("ok",S,"self.t = tuple(int(x) for x in v.split('.'))","self.t = tuple([int(part) for part in v.split('.')])"),
 ("bad",S,trunc,"                self.t = self.t[:2]"),
 ("bad",S,trunc,trunc.replace("for x in self.t)","for x in self.t[:1])")),
 ("ok",S,trunc,"                self.t = (self.t[0], self.t[1])\n                self.s = f'{self.t[0]}.{self.t[1]}'"),
 ("ok",S,trunc,"                super().__init__(self.t[:2])"),
 ("ok",S,"        return self.t <= other.t","        return not other < self"),
 ("ok",S,"        return self.t <= other.t","        return self < other or self == other"),
 ("ok",S,"        return self.t > other.t","        return other < self"),
 ("ok",S,init,"""        if isinstance(v, str):
            t = []
            for x in v.split('.'):
                t.append(int(x))
            self.t = tuple(t)
        elif isinstance(v, tuple):
            self.t = v
        else:
            raise TypeError(v)
        self.s = '.'.join(str(int(x)) for x in self.t)
        if v:
            pass"""),
 ("bad",S,"class PatchVersion(BaseVersion):","class PatchVersion(BaseVersion):\n    def __eq__(self, other):\n        return super().__eq__(other)\n"),
 ("bad",R,"        super().__init__(v)\n        assert len(self.t) == 4","        super().__init__(v)\n        self.s = str(v)\n        assert len(self.t) == 4"),
]
