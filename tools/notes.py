# level notes per property, read by mkmanifest.py
COMMON = ("Contracts of the named functions are discharged for all inputs from the source as it is; floats are treated "
          "as reals with infinities and nan, library calls by the models listed in the evidence. An executable form of "
          "the contract runs on the real code too (bounded, for failing inputs only).")
NA = {}
TECHNIQUE = "contract-based deductive verification: obligations generated from the current source, z3/cvc5"
BOUNDED_TECHNIQUE = ("contract-based deductive verification, z3/cvc5, for tables of seven kinds of columns and up to three "
                     "curves; executable contract run on the real code (bounded stand-in) beyond")
NOTES = {"P31": "Partly bounded: columns other than seven kinds of names and more than three curves are checked by the "
                "executable contract on random tables of up to nine rows; the rest, for any number of rows and "
                "windows, is proved over stand-ins for what pandas documents of groupby, agg, applymap and concat. "}
