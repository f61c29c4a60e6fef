"""Small realistic changes of pyphs, for tools/mutate: id, properties, file, old, new."""
C = 'pyphs/core/core.py'
MV = 'pyphs/core/structure/moves.py'
SP = 'pyphs/core/structure/splits.py'
RZ = 'pyphs/core/structure/R.py'
AN = 'pyphs/graphs/analysis.py'
BU = 'pyphs/graphs/build.py'
GT = 'pyphs/graphs/tools.py'
SG = 'pyphs/graphs/subgraph.py'
GR = 'pyphs/graphs/graph.py'
NL = 'pyphs/graphs/netlists.py'
DC = 'pyphs/numerics/numerical_method/_discrete_calculus.py'
ME = 'pyphs/numerics/numerical_method/_method.py'
NC = 'pyphs/numerics/numerical_core/_numerical_core.py'
SI = 'pyphs/numerics/simulations/simulation.py'
H5 = 'pyphs/numerics/simulations/h5data/h5data.py'
LA = 'pyphs/numerics/tools/_lambdify.py'
EV = 'pyphs/numerics/tools/_evaluation.py'
WA = 'pyphs/misc/signals/waves.py'
MUT = [
 # id, props, file, old, new
 ('a01', 'P01', C, "Mba = -Jab.T - Rba", "Mba = -Jab.T - Rab"),
 ('a02', 'P01', C, "Mba = Jba - R.T", "Mba = Jba - R"),
 ('a03', 'P04', SP, "all(elt is sympy.sympify(0) for elt in hess_line[nxs+1:])", "all(elt is sympy.sympify(0) for elt in hess_line[nxs+1:nxs+2])"),
 ('a04', 'P04', SP, "hess = movesquarematrixcolnrow(hess, nxs, core.dims.xnl()-1)", "pass"),
 ('a05', 'P04', MV, "core.Zl = movesquarematrixcolnrow(core.Zl, indi, indf)", "core.Zl = movematrixcols(core.Zl, indi, indf)"),
 ('a06', 'P04', RZ, "core.M = Mnlwl*core.Zl*Dl*Mwlnl + Mnl", "core.M = Mnlwl*Dl*core.Zl*Mwlnl + Mnl"),
 ('a07', 'P02', C, "all_alpha.append(c['alpha'])", "all_alpha.insert(0, c['alpha']) if c['alpha'] == 0 else all_alpha.append(c['alpha'])"),
 ('a08', 'P02', C, "i_dual = getattr(self, 'cy').index(c['y'][1])", "i_dual = getattr(self, 'cu').index(c['u'][1])"),  # equivalent
 ('a09', 'P03', C, "core.observers.update(core2.observers)", "core.observers.update(dict((k, v) for k, v in core2.observers.items() if k not in core.subs))"),
 ('a10', 'P05', C, "if not isinstance(self.subs[k], (int, float)):", "if not isinstance(self.subs[k], (int, float, sympy.Symbol)):"),
 ('a11', 'P05,P01', C, "if par in self.subs:", "if par in list(self.subs)[:-1]:"),
 ('b01', 'P09', AN, "                    # move edge at top of edge list and set lambd to 0\n                    self.set_edge_ec(link_e)", "                    pass"),
 ('b02', 'P08', AN, "            self.iGamma_fc = numpy.linalg.inv(self.Gamma_fc)", "            self.iGamma_fc = numpy.linalg.pinv(self.Gamma_fc)"),
 ('b03', 'P08', BU, "if gyrator == (e in graph.analysis.ec_edges):", "if not gyrator and e in graph.analysis.fc_edges or gyrator and e in graph.analysis.fc_edges[-2:]:"),
 ('b04', 'P08', AN, "self.fc_edges = indices[-(nfc+1):]", "self.fc_edges = indices[-max(nfc, 1):]"),
 ('b05', 'P09', AN, "                if n in self.ic_nodes:\n                    self.set_node_dc((n, e))\n\n    def iteration", "                self.set_node_dc((n, e))\n\n    def iteration"),
 ('b06', 'P09', AN, "            if self.Lambda[n, :].sum() == 0:\n                raise UndefinedPotential(self.nodes[n])\n", ""),
 ('b07', 'P09,P08', AN, "self.Lambda[n, len(self.ec_edges) + e] = 0\n                    still_locked = False\n                    break\n        if still_locked:\n            lambd", "self.Lambda[n, e] = 0\n                    still_locked = False\n                    break\n        if still_locked:\n            lambd"),
 ('b08', 'P10,P08', GT, "        if e[0] == nodes[0]:", "        if e[0] == nodes[0] or e[1] == nodes[1]:"),
 ('b09', 'P10,P08', GT, "        if g.degree(node) > 1 and not node == datum:\n            nodes", "        if g.degree(node) > 1:\n            nodes"),
 ('c01', 'P12', DC, "dxh0 = dxh_continuous  + 0.5 * dxh_continuous.diff(x[i]).doit()*dx[i]", "dxh0 = dxh_continuous  + dxh_continuous.diff(x[i]).doit()*dx[i]"),
 ('c02', 'P12,P13', DC, "(0, squarred_norm_dx < numtol**2)", "(0, squarred_norm_dx < numtol)"),
 ('c03', 'P12,P13', DC, "                               (dxh0, dx[i] < numtol),", "                               (dxh0, dx[i] < numtol**0.5),"),
 ('c04', 'P12', ME, "    if method.dims.l() > 0:\n        method.implicit.append('Gl')\n", ""),
 ('c05', 'P12', ME, "method.preimplicit.append(('ijactempFll'))", "pass"),
 ('c06', 'P12', NC, "and getattr(self, step_name)() > self.config['eps']", "and getattr(self, step_name)() > self.config['epsdg']*1e3" if 0 else "and getattr(self, step_name)() > 1e-3"),
 ('c07', 'P12', NC, "        getattr(self, 'set_' + step_name)(1.)\n", ""),
 ('c08', 'P15', NC, "        self.args[:] = 0.\n", ""),
 ('c09', 'P12', ME, "    method.preimplicit.append('res_Fnl')\n", ""),
 ('c10', 'P12', ME, "        subs[xi] = xi+theta*dxi" if 0 else "            return expr.subs(subs_x).subs(subs_g)", "            return expr.subs(subs_g).subs(subs_x)"),
 ('c11', 'P13', DC, "corr = H.subs(dict((xi, xi + dxi) for xi, dxi in zip(x, dx))) - H", "corr = H.subs([(xi, xi + dxi) for xi, dxi in zip(x, dx)]) - H"),  # equivalent?
 ('c12', 'P12', ME, "mtype(method.bl)\n            )", "mtype([0]*len(method.bl))\n            )"),
 ('d01', 'P15', SI, "            self.inits.update(inits)\n\n        if config" if 0 else "        seq_p = data.p(tslice=tslice)", "        seq_p = sorted(data.p(tslice=tslice), key=len)"),  # equivalent
 ('d02', 'P15', SI, "        self.config.update(self.method.config)\n", ""),
 ('e01', 'P07', NL, "                    nodes = ''.join(si)", "                    nodes = si[0]"),
 ('e02', 'P07', NL, "        self.nodes.pop(n)\n", "        self.nodes.pop()\n"),
 ('e03', 'P07', NL, "                            value = tuple(map(eval, value))", "                            value = tuple(map(float, [eval(v) if isinstance(eval(v), float) else v for v in value])) if all(v[0] not in '\"\\'' for v in value) else tuple(map(eval, value))"),
 ('e05', 'P07', NL, "infos, _, parameters = line.partition(':')", "infos, _, parameters = line.rstrip('; \\n').partition(':')"),  # equivalent?
 ('g01', 'P18', WA, "        fadein = [n/(nfades) for n in range(nfades)]", "        fadein = [n/(nfades-1 or 1) for n in range(nfades)]"),
 ('g02', 'P18', WA, "    elif isinstance(normalize, bool) and normalize:\n        scale = np.max(np.abs(sig))", "    elif isinstance(normalize, bool) and normalize:\n        scale = np.abs(np.max(sig))"),
 ('g04', 'P18', WA, "int(nsig*fs_out*fs_sig**-1)", "int(nsig*fs_sig*fs_out**-1)"),
 ('g03', 'P18', WA, "    if nsig >= 2*nfades:", "    if nsig > 2*nfades:"),

 # recorded data
 ('h01', 'P16', H5, "numpy.ediff1d(self.E(tslice=tslice))*self.fs/tslice.step", "numpy.ediff1d(self.E(tslice=tslice))*self.fs"),
 ('h02', 'P16', H5, "        names = ['dtx', 'w', 'y']", "        names = ['dx', 'w', 'y']"),
 ('h03', 'P16', H5, "            vslice = inds[vslice]\n", "            vslice = inds[0] + vslice\n"),
 ('h04', 'P15,P16', 'pyphs/numerics/simulations/h5data/tools.py', "            buffer_rslice = slice(offset, offset+chunksize)", "            buffer_rslice = slice(offset, offset+1024)"),
 ('h05', 'P16', H5, "            return (i-1)/float(self.fs)", "            return i/float(self.fs)"),
 ('h06', 'P16', H5, "                data[name] = self[name, t, :]", "                data[name] = self[name, 0, :]"),
 ('h07', 'P16', H5, "                  self['u', tslice],\n                              self['y', tslice])" if 0 else "        sig = getattr(self, name)(vslice=index,\n                                  tslice=slice(self.start, self.stop, 1),", "        sig = getattr(self, name)(vslice=index,"),
 ('h08', 'P16', H5, "        self.config['nt'] = self._h5shape[0]", "        self.config['nt'] = max(self._h5shape[0], self.config.get('nt', 0) or 0)"),
 # evaluation
 ('v01', 'P14', LA, "        expr_ = sympy.Matrix(expr)", "        expr_ = sympy.Matrix(expr.T).T"),  # equivalent
 ('v02', 'P14', EV, "                    return numpy.array([fun(), ]*len(args[0]))", "                    return numpy.array([fun(), ]*len(args))"),
 ('v03', 'P14', 'pyphs/core/tools/_substitutions.py', "    return expr.subs(subs)\n\n\ndef substitute_dict", "    return expr.subs(list(subs.items()))\n\n\ndef substitute_dict"),
 # cpp
 ('k01', 'P17', 'pyphs/numerics/cpp/functions.py', "            if any(symb in method.args() for symb in symbs):\n                c = ccode", "            if any(symb in method.args()[:-1] for symb in symbs):\n                c = ccode"),
 ('k02', 'P17', 'pyphs/numerics/cpp/method2cpp.py', '"\\n_{0} = 1;".format(step_label)', '"\\n_{0} = 0.;".format(step_label)'),
 ('k03', 'P17', 'pyphs/numerics/cpp/method2cpp.py', "method.configcpp['maxit'])", "10)"),
 ('k04', 'P17', 'pyphs/numerics/cpp/arguments.py', "                    '\\n'+indent(\"*{0} = m({1}, 0);\".format(str(symb), i))", "                    '\\n'+indent(\"*{0} = m({1}, 0);\".format(str(symb), list(arg).index(symb) if i < 2 else len(arg)-1-(len(arg)-1-i)))"),  # equivalent
 ('k05', 'P17', 'pyphs/numerics/cpp/operations.py', "'norm': lambda s: 'sqrt(({0}).dot({1}))'.format(s, s),", "'norm': lambda s: '(({0}).dot({1}))'.format(s, s),"),
 ('k06', 'P17', 'pyphs/numerics/cpp/method2cpp.py', "        for i, s in enumerate(listOfSubs):", "        parameters = sorted(parameters, key=str)\n        for i, s in enumerate(listOfSubs):"),
 # components
 ('l01', 'P11', 'pyphs/dictionary/electronics/_bjt.py', "[-1, (betaF+1)/betaF]", "[-1, (betaF+1)/betaR]"),
 ('l02', 'P11', 'pyphs/dictionary/mechanics/_felt.py', "(xnl/L)**(B-1)", "(xnl/L)**B"),
 ('l03', 'P11', 'pyphs/dictionary/electronics/_diode.py', "zd_fctrl = mu*v0*sympy.log(w[0]/(Is)+1)", "zd_fctrl = v0*sympy.log(w[0]/(Is)+1)"),
 ('l04', 'P11', 'pyphs/dictionary/edges/dissipatives.py', "        if len(coeff.sub) == 0:\n            self.core.p  += [coeff.symb, ]", "        if len(coeff.sub) == 0:\n            self.core.p  += [coeff.symb**-1 if kwargs.get('inv_coeff') else coeff.symb, ]"),
 ('l05', 'P11', 'pyphs/dictionary/mechanics/_springsat.py', "Hsat = c1 * (sp.log(sp.cos(t1)) + (t1**2)/2.)", "Hsat = c1 * (sp.log(sp.cos(t1)) + (t1**2)/2.1)"),
 ('l06', 'P11', 'pyphs/dictionary/electronics/_potentiometer.py", "R2 = 1 + R*(1-A**E)' if 0 else 'pyphs/dictionary/electronics/_potentiometer.py', "R2 = 1 + R*(1-A**E)", "R2 = 1 + R*(1-A)**E"),
 ('l07', 'P11', 'pyphs/dictionary/thermics/_transfers.py', "z2 = R*(w[1]-w[0])/t2", "z2 = R*(w[1]-w[0])/t1"),
 ('l08', 'P11', 'pyphs/dictionary/transducers/_pickup.py', "f2 = (q + Rp + Lv)**2 + Lh**2", "f2 = (q + Rp - Lv)**2 + Lh**2"),
 ('l09', 'P11,P05', 'pyphs/dictionary/edges/connectors.py', "N1, N2, N3, N4 = nodes", "N1, N2, N4, N3 = nodes"),
 # subgraphs
 ('s01', 'P10,P08', SG, "                    oriented_z_rc[i] = -oriented_z_rc[i].subs(wn, -wn)", "                    oriented_z_rc[i] = oriented_z_rc[i].subs(wn, -wn)"),
 ('s02', 'P10,P08', SG, "                    oriented_dxH_arc[i] = -oriented_dxH_arc[i].subs(xn, -xn)", "                    oriented_dxH_arc[i] = oriented_dxH_arc[i].subs(xn, -xn)"),
 ('s03', 'P10,P08', SG, "            if tuple(e[:2]) == nodes:\n                orientation = +1", "            if tuple(e[:2]) == nodes or e[0] == nodes[0]:\n                orientation = +1"),
 ('s04', 'P10,P08', SG, "        if self.datum in self.nodes:\n            root = self.datum", "        if self.datum in self.terminals:\n            root = self.datum"),
 ('s05', 'P10,P08', SG, "    newZ = sympy.solve(iZ-newW, Y)[0]", "    newZ = sympy.solve(iZ-newW, Y)[-1]"),
 # core again
 ('a12', 'P06', C, "        core.label = copy.copy(self.label)\n", ""),
 ('a13', 'P06', C, "'connectors', 'force_wnl', 'subs', 'M', '_dxH',", "'connectors', 'subs', 'M', '_dxH',"),
 ('a14', 'P04,P06', C, "{('dims', '_xl'), ('dims', '_wl'), ('dims', '_xnl_mono'),", "{('dims', '_xl'), ('dims', '_wl'),"),
 ('a15', 'P02', C, "        sorted_indices.reverse()\n", ""),
 ('a16', 'P05', 'pyphs/core/tools/_substitutions.py', "        selfsubs.update(core.subsexprs)", "        selfsubs.update((k, v) for k, v in core.subsexprs.items() if k not in core.p)"),
 ('a17', 'P01,P14', C, "        for par in p:\n            if par in self.subs:\n                self.subs.pop(par)\n", ""),
 ('a18', 'P16,P13', C, "        output += sympy.SparseMatrix(self.a()).dot(matvecprod(self.R(),\n                                                              self.a()))\n", ""),
 ('w01', 'P19', 'pyphs/core/structure/output.py', "Vyu = core.Myy()*", "Vyu = core.Jyy()*"),
 ('w02', 'P19', 'pyphs/core/maths/_matrices.py', "Matrix(Mat).inv()", "Matrix(Mat).pinv()"),
 ('w03', 'P19', 'pyphs/core/maths/_vectors.py', "        assert len(v) == l, '{} not equal to {}'.format(len(v), l)\n", ""),
 ('w04', 'P19', 'pyphs/core/maths/_calculus.py', "    hess = jacobian(grad, vars_, simplify)", "    hess = jacobian(grad, sorted(vars_, key=str), simplify)"),
 ('w05', 'P19', C, "        return jacobian(self.z, self.w)", "        return jacobian(self.z, self.w).T"),
 ('w06', 'P19', 'pyphs/core/tools/_free_symbols.py', "free_symbols_vec([e for (_, _, e) in mat.row_list()])", "free_symbols_vec([mat[i, j] for i in range(m) for j in range(i, n)])"),
 ('w07', 'P19', 'pyphs/core/maths/_calculus.py', "    if simplify:\n        grad = simplify_func(grad)", "    if simplify:\n        grad = simplify_func([sympy.cancel(g).as_numer_denom()[0] if g.is_rational_function() and g.is_Mul and g.args[0] == -1 else g for g in grad])"),
 # components by their transfer function
 ('l10', 'P11', 'pyphs/dictionary/beams/_cantilever.py', "                if i == pars['N']-2:", "                if i == pars['N']-1:"),
 ('l11', 'P11', 'pyphs/dictionary/beams/_cantilever.py', "linspace(0, pars['D'],\n", "linspace(0, pars['D']-1,\n"),
 ('l12', 'P11', 'pyphs/dictionary/beams/_cantilever.py', "sqrt(-(1/km)*(-km*Lb*(2 + cos(2*km*Lb)", "sqrt(-(1/km)*(-km*Lb*(2 + cos(km*Lb)"),
 ('l13', 'P11', 'pyphs/dictionary/fraccalc/fractional_derivators.py', "                                alpha=Rn)", "                                alpha=Rn**-1)"),
 ('l14', 'P11', 'pyphs/dictionary/fraccalc/fractional_derivators.py', "            diagQ.append(p*Mu[n]*Xi[n])", "            diagQ.append(Mu[n]*Xi[n])"),
 ('l15', 'P11', 'pyphs/dictionary/fraccalc/fractional_integrators.py', "            diagR.append(pn*Xi[n])", "            diagR.append(Xi[n]/Mu[n])"),
 ('l16', 'P11', 'pyphs/dictionary/beams/_cantilever.py', "'Kb': (pars['E']*pi*pars['R']**4.)/4.", "'Kb': (pars['E']*pi*pars['R']**4.)/2."),
 ('s06', 'P08', 'pyphs/graphs/build.py', "            if e in graph.analysis.ec_edges:\n                alpha = -alpha**-1", "            if e in graph.analysis.ec_edges:\n                alpha = alpha**-1"),
]
