# Text notation. e_k goes to +-e_i when letter number k is the i-th letter of the alphabet ijklmn (capital: minus);
# a trailing ~ reverses time; digits in front give the pattern number.

@of('BaseMap.parse', props='C26 C29', opaque='none', values={'text': ['ij', 'Ji~', ' kIj ', 'KJi~', 'i', 'I~', 'lkJI', 'jIlk~']})
def bm_parse(cls, text: str):
    s = text.strip()
    rev = s[-1] == '~'
    letters = s[:-1] if rev else s
    where = {}
    for k in range(len(letters)):
        where['ijklmn'.index(letters[k].lower())] = (k, letters[k] != letters[k].lower())
    return BaseMap([where[i] for i in range(len(letters))], rev)

@of('BaseMap.__str__', props='C26', opaque='none')
def bm_str(self):
    out = [None] * self.dim
    for i in range(self.dim):
        k, minus = self.coords[i]
        out[k] = 'ijklmn'[i].upper() if minus else 'ijklmn'[i]
    return ''.join(out) + ('~' if self.time_rev else '')

@of('Spec.parse', props='C26 C29', opaque=['BaseMap.parse'], values={'text': ['ij', '3Ji~', '12kIj', '0KJi~', '10i', '05I~']})
def spec_parse(cls, text: str):
    rest = text.lstrip('0123456789')
    digits = text[:len(text) - len(rest)]
    return Spec(BaseMap.parse(rest), int(digits) if len(digits) > 0 else 0)

@of('Spec.__str__', props='C26')
def spec_str(self): return str(self.pnum) + str(self.base_map)

@of('Proto.parse', props='C26 C29', opaque='none', values={'text': ['ijI', '(ij)I(iJ)', 'IJi', 'iijIIjii', 'jjiJJijj', 'IIJiiJII', 'ijIkiJI', 'KJkIKjk', 'i', 'I']})
def proto_parse(cls, text: str):
    groups = [g.strip('()') for g in re.findall('\\w|\\(\\w+\\)', text)]
    dim = len(set(c.lower() for g in groups for c in g))
    cubes = [(0,) * dim]
    for g in groups:
        step = [0] * dim
        for c in g: step['ijklmn'.index(c.lower())] = 1 if c.islower() else -1
        last = cubes[len(cubes) - 1]
        cubes.append(tuple(last[j] + step[j] for j in range(dim)))
    low = [min(c[j] for c in cubes) for j in range(dim)]
    cubes = [tuple(c[j] - low[j] for j in range(dim)) for c in cubes]
    return Proto(dim, 1 + max(x for c in cubes for x in c), cubes)

@of('FuzzyCurve.__str__', props='C26')
def curve_str(self): return '\n'.join('@' + str(i) + ': ' + str(p) for i, p in enumerate(self.patterns))

@of('Junction.__str__', props='C26')
def junction_str(self): return str(self.spec1) + ' | dx=' + str(self.delta_x) + ', dt=' + str(self.delta_t) + ' | ' + str(self.spec2)
