TECHNIQUE = ("static analysis: interprocedural abstract interpretation (gated value-flow, loop summaries, linear-inequality domain) of the "
             "type-checked, monomorphic MIR rustc produces for /repo, compared with the property's normal form")
LEVEL = ("sound for all inputs of the analysed functions relative to the stated trusted base (rustc's MIR, the operation models in vf/models.py); "
         "obligations the analysis cannot settle are reported as UNDECIDED in the evidence and do not alarm")
