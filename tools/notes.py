DEFAULT = ("Sound for the analysed scope up to the listed assumptions: every path of the analysed functions is covered over a finite partition of the inputs; "
           "trusts the Go type checker, x/tools SSA, the library summaries in checker/ and the written reference semantics.")
