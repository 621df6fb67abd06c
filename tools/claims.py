NA = {
    "C18": "No check yet: mutating the corpus token by token still finds many internal errors on the unchanged tree, so a check would only list known findings.",
}
CLAIMED["C01"] = (EXPL, "exploration", "Every operator, builtin, operand type pair and storage form at one operator, all operator pairs and trees up to three operators, on boundary values.")
CLAIMED["C05"] = (EXPL, "exploration", "Every loop shape (variable type, place, direction, bound form, body) for all pairs of boundary values; for-in over every subset of the probe elements of each set type.")
CLAIMED["C06"] = (EXPL, "exploration", "Every assignment of a window of 4 (thorough: 5) consecutive values to two branches or none, per selector type, window position and spelling, run for every value in and around the window; ranges around the 32-value limit; nested bodies.")
CLAIMED["C09"] = (EXPL, "exploration", "Every pair of subsets of the probe elements for every set operation and representation; every operation sequence up to the stated depth.")
CLAIMED["C04"] = (EXPL, "exploration", "Every statement tree up to depth 2 over all structured statements, gotos and labels, and chains of depth 3, each run on every tape of condition answers and compared with an interpreter of the tree.")
CLAIMED["C07"] = (EXPL, "exploration", "Every static nesting of up to 3 routines with up to two calls each (4 with one), direct and through procedural parameters, against an activation-record interpreter; every closure-passing pattern of up to 3 routines; every combination of type, mode, actual and routine kind.")
CLAIMED["C13"] = (EXPL, "exploration", "Every legal sequence of file operations to depth 5-7 on one file and 4-5 on two, for 26 component types and 5 ways of holding the file variable, driven through one compiled program per type and compared with a model of component sequences.")
CLAIMED["C15"] = (EXPL, "exploration", "Every combination of item type, probe value, expression form, field width, decimals and destination (186k fields), all pairs and triples of items in one statement, all sequences of write statements to depth 4, and round trips through every reading routine.")
CLAIMED["C10"] = (EXPL, "exploration", "Every pair of 19 operand forms (string variables of several capacities, chars, char arrays, fields, elements, results, literals, constants) over all pairs of probe values for every operator and routine; every unary use and destination; every sequence of 21 string statements to depth 3-4, with guards between the variables.")
CLAIMED["C02"] = (EXPL, "exploration", "Every constant expression tree over the atoms (all operators and functions, depth 1-2; chains) written once as a constant and once over variables, and every one used as bound, label, member, capacity and initial value.")
CLAIMED["C11"] = (EXPL, "exploration", "Every sequence of element writes, variant switches, whole and partial copies, value parameters and results (depth 2-4) on 376 nests of arrays, records and variants in 7 storage places, with constant and computed indexes, comparing the complete state after each; pack/unpack for every legal start index.")
CLAIMED["C12"] = (EXPL, "exploration", "Every legal sequence of new, dispose, pointer and content assignment, link updates and traversals to depth 3-5 for 36 pointed-to types and 6 storage places, on plain pointers, linked records and pointers to pointers, comparing identity classes and contents of everything reachable (6.6M sequences).")
CLAIMED["C14"] = (EXPL, "exploration", "Every text over the stated alphabets up to the stated length read by every sequence of read statements of the stated kinds, compared with a model of text files (1.2M sequences).")
CLAIMED["C16"] = (EXPL, "exploration", "Every index value around the bounds and at the extremes of the index type, for 20 index ranges, 5 element types, 9 kinds of array and 7 forms of access, alone and after every pair of legal accesses; multi-dimensional and nested arrays over their whole index rectangle; C11's histories with -Cr.")
CLAIMED["C08"] = (EXPL, "exploration", "Every chain of declarations of one name over levels, kinds and with-statements; every tree of equally named routines (procedures, functions, forward declared); every list of with-designators; every predefined name redefined as every kind of entity.")
CLAIMED["C24"] = (EXPL, "exploration", "Every index range x element type x kind of actual x var/value; every chain of calls of depth 2-3 (4) over five ways of passing the array on; recursion with up to 3 conformant parameters; all slices; every schema form with all discriminants in a small square, several instantiations in one program.")
CLAIMED["C03"] = (EXPL, "exploration", "1100 operations on reals and complex numbers (every operator, comparison, conversion and function; every storage place; all expressions of two operators) on every tuple of the probe values; over a million evaluations, reals compared bit for bit.")
CLAIMED["C20"] = (EXPL, "exploration", "Every separator and comment in every gap between tokens of fragments covering every kind of token, alone and in pairs; every spelling of letters and alternative tokens; every character in literals; integer literals in every base; real literals.")
CLAIMED["C19"] = (EXPL, "exploration", "Programs of all other checks, copies of values of every size and kind, and every way of halting, under option lists in which all pairs of options meet (thorough: all 64 lists), compared with the predicted output and exit status.")
CLAIMED["C21"] = (EXPL, "exploration", "Every hierarchy of three classes (chain and fork) x declarations of the method at each level (absent, static, virtual, override) x field layouts x places of the object x forms of call, and every sequence of assignments and calls on objects of related classes, against a model of dispatch.")
CLAIMED["C23"] = (EXPL, "exploration", "Every type x way of stating an initial value (single, range, otherwise, nested, named constants, in the type or at the variable) x place, each read at first use and after a change at every activation.")
CLAIMED["C25"] = (EXPL, "exploration", "Programs of all other checks and every type in every place, in every output mode under option lists in which all pairs meet: the IR is verified, compiled by llc and linked and its output compared with the prediction; the AST printed; all kinds of file name.")
CLAIMED["C17"] = (EXPL, "exploration", "Every pair of 35 types in assignments, parameters, fields, results and 16 operators, literals of every kind against every type, every type in every statement and builtin, every argument list, kind of name and label layout up to a bound, judged by a reference type checker.")
CLAIMED["C22"] = (EXPL, "exploration", "Every dependency graph of up to three units, every kind of entity of one name in two units and the program, sequences of calls on shared state, and programs of other checks moved into units.")
