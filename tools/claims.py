# overrides for mkmanifest.py
CLAIMED = ['P%02d' % i for i in range(1, 29)]
CTGEN = 'contract-based deductive verification: contracts on the class templates (metafunctions) of namespace result_of, extracted from clang\'s AST print of /repo on every run; one unit per specialisation, callees by contract, z3/cvc5'
TECH = {p: CTGEN for p in ['P16', 'P17', 'P18', 'P19', 'P20', 'P21']}
BASE_CT = 'The specialisations are read from clang\'s own -ast-print of the current tree and selected by the C++ rules; every obligation of every specialisation and function template is discharged for all argument types and constants. Integers are mathematical (narrowing to int is modelled, long overflow is not); instantiations the compiler rejects are outside. A bounded run compiles generated type applications against the real headers (never counted as proved) and supplies failing inputs. '
NA = {}
NOTES['P25'] = 'Strings, string streams and std::map are modelled as sequences of pieces (the runtime functions of libstdc++ they call are trusted); the text of an operand is the translator\'s contract; the text is read back by a reader with ordinary precedence. '
