# The boolean encoding of a family of curves and the use of the solver.

@of('CurveSATAdapter._get_spec_var', props='C17')
def spec_var(pnum: int, cnum: int, sp: Spec): return 'spec', (pnum, cnum, sp)

@of('CurveSATAdapter._get_junc_var', props='C17')
def junc_var(junc: Junction): return 'junc', (junc,)

@of('CurveSATAdapter._get_curve_var', props='C17')
def curve_var(curve: FuzzyCurve): return 'curve', tuple(curve.gen_defined_specs())

@of('CurveSATAdapter._append_clause', props='C17 C18')
def append_clause(self, clause: dict[Any, bool]):
    lits = []
    for var in clause:
        if var not in self._var_no: self._var_no[var] = len(self._var_no) + 1
        lits.append(self._var_no[var] if clause[var] else 0 - self._var_no[var])
    self._int_clauses.append(tuple(lits))

@of('CurveSATAdapter._make_only', props='C17', keep=['CurveSATAdapter._append_clause'])
def make_only(self, only_vars: Sequence[Any]):
    self._append_clause({v: True for v in only_vars})
    for i in range(len(only_vars)):
        for j in range(i + 1, len(only_vars)):
            self._append_clause({only_vars[i]: False, only_vars[j]: False})

@of('CurveSATAdapter._make_curve_var', props='C17', keep=['CurveSATAdapter._append_clause'])
def make_curve_var(self, curve: FuzzyCurve):
    z = ('curve', tuple(curve.gen_defined_specs()))
    if z not in self._curve_vars:
        specs = list(curve.gen_defined_specs())
        for pnum, cnum, sp in specs: self._append_clause({z: False, ('spec', (pnum, cnum, sp)): True})
        whole = {('spec', (pnum, cnum, sp)): False for pnum, cnum, sp in specs}
        whole[z] = True
        self._append_clause(whole)
        self._curve_vars.add(z)
    return z

@of('CurveSATAdapter._make_junc_var', props='C17', keep=['CurveSATAdapter._append_clause', 'CurveSATAdapter._make_curve_var'])
def make_junc_var(self, junc: Junction, curves: Sequence[FuzzyCurve]):
    j = ('junc', (junc,))
    zs = [self._make_curve_var(c) for c in curves]
    some = {z: True for z in zs}
    some[j] = False
    self._append_clause(some)
    for z in zs: self._append_clause({z: False, j: True})
    return j

@of('CurveSATAdapter.add_forbid_clause', props='C15 C17', keep=['CurveSATAdapter._append_clause'])
def add_forbid(self, junc: Junction, curve: FuzzyCurve):
    c = {('spec', (pnum, cnum, sp)): False for pnum, cnum, sp in curve.gen_defined_specs()}
    c[('junc', (junc,))] = False
    self._append_clause(c)

@of('CurveSATAdapter._load_curve', props='C17', keep=['CurveSATAdapter._append_clause', 'CurveSATAdapter._make_only', 'CurveSATAdapter._make_junc_var'])
def load_curve(self, curve: FuzzyCurve):
    self._curve = curve
    for pnum in range(curve.mult):
        for cnum in range(curve.genus):
            self._make_only([('spec', (pnum, cnum, sp)) for sp in curve.gen_allowed_specs(pnum, cnum)])
    for junc in curve.gen_auto_junctions(): self._append_clause({('junc', (junc,)): True})
    for junc, cs in curve.get_junction_templates().items(): self._make_junc_var(junc, cs)

@of('CurveSATAdapter._copy_from', props='C18')
def copy_from(self, other: CurveSATAdapter):
    assert other._solver is None
    self._int_clauses = [c for c in other._int_clauses]
    self._curve_vars = {v for v in other._curve_vars}
    self._var_no = {k: v for k, v in other._var_no.items()}
    self._curve = other._curve

@of('CurveSATAdapter.__init__', props='C17 C18', init=True, keep=['CurveSATAdapter._load_curve', 'CurveSATAdapter._copy_from'])
def sat_init(self, curve: FuzzyCurve | None, adapter: CurveSATAdapter | None):
    self._int_clauses = []
    self._curve_vars = set()
    self._var_no = {}
    self._solver = None
    if curve is not None: self._load_curve(curve)
    elif adapter is not None: self._copy_from(adapter)
    else: raise ValueError

@of('CurveSATAdapter.get_problem_size', props='C17')
def problem_size(self):
    return self.SATProblemSize(literals=sum(len(c) for c in self._int_clauses), clauses=len(self._int_clauses), variables=len(self._var_no))

@of('CurveSATAdapter.solve', props='C15 C18')
def solve(self):
    self._solver = Glucose3()
    self._solver.append_formula(self._int_clauses)
    return self._solver.solve()

@of('CurveSATAdapter._get_model', props='C18', values={'m:get_model': 'model'})
def get_model(self):
    names = {}
    for var in self._var_no: names[self._var_no[var]] = var
    return {names[abs(tok)]: tok > 0 for tok in self._solver.get_model()}

@of('CurveSATAdapter.get_model_curve', props='C18', enough=True, keep=['CurveSATAdapter._get_model'], values={'m:_get_model': 'probe', 'm:gen_allowed_specs': 'fewspecs', 'm:get_model': 'model'})
def get_model_curve(self):
    model = self._get_model()
    curve = self._curve
    patterns = []
    for pnum in range(curve.mult):
        specs = []
        for cnum in range(curve.genus):
            found = None
            for sp in curve.gen_allowed_specs(pnum, cnum):
                v = ('spec', (pnum, cnum, sp))
                if found is None and (v not in model or model[v]): found = sp
            if found is None: raise ValueError
            specs.append(found)
        patterns.append((curve.patterns[pnum].proto, specs))
    return Curve(dim=curve.dim, div=curve.div, patterns=patterns, pnum=curve.pnum)
