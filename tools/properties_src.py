prop("C01", "Processing an engine computes the documented fuzzy inference",
     "For every engine and all input values, one processing cycle leaves exactly the documented result: every rule's activation degree and triggered flag, the activated terms and degrees of every output variable, and every crisp output value, as defined by the terms, hedges, rule weights, conjunction, disjunction, implication, activation, aggregation and defuzzification operators chosen. Disabled variables, rules and rule blocks and rules that are not loaded contribute exactly as documented, and rule blocks and rules take effect in order, so that later rules can use what earlier ones concluded.",
     ["programs", "inputs", "configurations"],
     "all combinations of conjunction x disjunction x implication x aggregation x integral defuzzifier; all pairs of term classes; all hedge sequences up to length 3; all antecedent trees up to 4 propositions; all enabled/loaded/weight flags of a two-block chained engine; all activation methods with their parameters; engines with up to 60 parts of one kind; a grid of input values incl. nan and infinities",
     "the tests run some dozens of fixed example engines on recorded data; they reach a few of the operator combinations and none of the flags in combination",
     ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/term/Aggregated.cpp", "src/term/Activated.cpp", "src/variable/OutputVariable.cpp"],
     [("Engine::process", "src/Engine.cpp"), ("Antecedent::activationDegree", "src/rule/Antecedent.cpp"), ("Consequent::modify", "src/rule/Consequent.cpp")],
     ("exhaustive enumeration of bounded engines and inputs on the real code, compared state by state with an executable reference model of the documented inference",
      "every engine built from the stated alphabets and bounds is run; tolerance 1e-9 relative; ties decided by rounding are accepted either way"))
prop("C02", "Activation methods trigger exactly the rules they document",
     "Given the activation degrees of the rules of a block, each activation method triggers exactly the rules its documentation says (all; the first or last n reaching a threshold; the n highest or lowest nonzero; those satisfying a comparison with a threshold; all with degrees normalised by their sum), with the degrees documented. Disabled or unloaded rules never trigger, and a block without a method behaves as the general one.",
     ["inputs", "configurations"],
     "all vectors of degrees over an alphabet with zeros, ties and nan for 3 to 7 rules, all numbers of rules and thresholds, all six comparison operators, all sets of disabled and unloaded rules, rule weights",
     "the tests check one or two degree vectors per method; ties, nan, limits larger than the block and disabled rules in combination are not reached",
     ["src/activation", "src/rule/RuleBlock.cpp"],
     [("Activation::activate", "src/activation"), ("Rule::trigger", "src/rule/Rule.cpp")],
     ("exhaustive enumeration of degree vectors and method parameters on the real code against a reference model of the selection rules",
      "blocks up to 7 rules; degrees from an alphabet of up to 6 values"))
prop("C03", "Output values follow the default, lock-previous, lock-range and enabled rules",
     "Over every history of processing cycles, restarts and property changes, an output variable takes the defuzzified value when there is one, otherwise the previous value when locking it is on, otherwise its default, and the result is bounded into the range when range locking is on. A disabled output variable keeps its value, restarting clears the value and the previous value, and an input variable always holds the value given to it, bounded only when range locking is on.",
     ["histories", "inputs"],
     "all histories of up to 6 (thorough: 8) operations out of 15 on an output variable, alone and inside an engine, with every class of defuzzified value (valid, nan, infinite, out of range); all histories of 12 operations on an input variable; all histories of inputs with every real defuzzifier",
     "the tests contain seven hand-written state machine sequences; interactions of toggles, restarts and infinite values over time are not reached",
     ["src/variable/OutputVariable.cpp", "src/variable/Variable.cpp", "src/variable/InputVariable.cpp", "src/Engine.cpp"],
     [("OutputVariable::defuzzify", "src/variable/OutputVariable.cpp"), ("Variable::setValue", "src/variable/Variable.cpp"), ("Engine::restart", "src/Engine.cpp")],
     ("explicit-state exploration of all operation histories on the real variable in lock step with a state machine model, with state caching",
      "depth 6 quick and 8 thorough, 15 operations; the known one-cycle lag of lock-previous is a listed finding and the model pins it"))
prop("C04", "Results depend only on the inputs and configuration, and restart forgets",
     "The result of processing an engine is a function of its configuration and the current input values only: whatever was processed, changed or failed before, an engine gives the same rule activations, fuzzy outputs and crisp values as a freshly built engine with that configuration, except through the previous output value where locking it is on. Restarting an engine forgets every value and every fuzzy output, so that any later history gives what it gives on a new engine, and changes of the configuration between cycles take effect in the next cycle.",
     ["histories", "inputs"],
     "all histories of 4 (thorough: 5) operations out of 21 (processing with three inputs and nan, restart, changes of operators, activation methods, enabled flags, weights, rules, terms, ranges, defuzzifiers) on three families of engines, each compared with a fresh engine and then continued after restart",
     "tests process an engine a handful of times in a row; state carried from one cycle to the next (rule degrees, fuzzy outputs, activation bookkeeping, cached references) only shows after particular orders of changes and cycles",
     ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/variable/OutputVariable.cpp", "src/term/Aggregated.cpp", "src/activation"],
     [("Engine::process", "src/Engine.cpp"), ("Engine::restart", "src/Engine.cpp"), ("RuleBlock::activate", "src/rule/RuleBlock.cpp")],
     ("explicit-state exploration of all operation histories on the real engine, each state compared with a freshly built engine, with state caching",
      "depth 4 quick, 5 thorough; 21 operations, three engine families"))
prop("C05", "A copied engine behaves as its original and is independent of it",
     "A copy of an engine (copy construction, assignment or clone), and the object that an engine is moved into, has the same configuration and, after any history, processes every input to the same results as the original. Nothing done to one of the two afterwards - processing, changing values, terms, operators or rules, or destroying it - changes or invalidates the other, and assignment over an engine or to itself leaves a complete engine.",
     ["histories", "inputs", "configurations"],
     "all histories of operations before the copy, all three ways of copying, moves and growing vectors, and all interleavings of operations on original and copy afterwards (including destruction of either), for three engine families with every kind of term that refers to its engine; run under address and undefined behaviour sanitizers",
     "tests copy a fixed engine and compare its exported text; a shared pointer or a dropped flag shows only when original and copy then diverge or one is destroyed",
     ["src/Engine.cpp", "src/variable", "src/rule", "src/term/Function.cpp", "src/term/Linear.cpp", "src/term/Activated.cpp", "src/term/Aggregated.cpp"],
     [("Engine::copyFrom", "src/Engine.cpp"), ("OutputVariable::copyFrom", "src/variable/OutputVariable.cpp"), ("RuleBlock::copyFrom", "src/rule/RuleBlock.cpp")],
     ("exhaustive exploration of operation histories before and after copying on the real engines, under AddressSanitizer and UBSan, in lock step with an uncopied twin",
      "histories of 2-3 operations before and after the copy; rules of the original are all loaded"))
prop("C06", "Rule texts are parsed according to the documented grammar",
     "Every rule text built from the grammar (if antecedent then conclusions, optionally with a weight) loads into exactly the tree its grammar gives - conjunctions bind tighter than disjunctions, parentheses group, hedges apply from right to left - whatever the spacing around the tokens, and writing the loaded rule out gives a text that loads to the same rule. Every text outside the grammar is refused with an exception that leaves the rule unloaded, and loading never depends on what the rule held before.",
     ["inputs", "programs"],
     "all token sequences up to length 7 (thorough: 9) over keywords, variables, hedges, terms, parentheses and unknown words; all trees of up to 4 propositions with all hedge sequences and several parenthesisations and spacings; trees of every shape with up to 55 propositions and 40 conclusions; all conclusions lists; weight clauses",
     "tests hold some dozens of good and bad rules; the shunting-yard and state-machine parsers fail on particular combinations of nesting, hedges and order",
     ["src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/term/Function.cpp"],
     [("Antecedent::load", "src/rule/Antecedent.cpp"), ("Consequent::load", "src/rule/Consequent.cpp"), ("Rule::parse", "src/rule/Rule.cpp"), ("Function::toPostfix", "src/term/Function.cpp")],
     ("exhaustive enumeration of token sequences and syntax trees up to a bound, each parsed by the real code and compared with a reference parser",
      "bounded length and tree size; the known looseness about misplaced operators (valid as postfix) is a listed finding; names contain no operator characters"))
prop("C07", "Formulas evaluate as infix mathematics with the documented precedences",
     "Every well-formed formula over numbers, names, the documented operators, functions and parentheses, however it is spaced, is accepted and evaluates to the value that the documented precedence and associativity give (! and ~, then ^ from the right, then * / %, then + and -, then and, then or), for all values of its variables; its prefix and postfix forms describe the same tree. A text that is not a formula is refused with an exception that leaves the function unloaded. Names take their values from the function's own variables, overridden by the current values of the engine's variables and by x, and copies, reloads and changes of engine keep to the current formula.",
     ["inputs", "programs", "histories"],
     "all expression trees with up to 2 operators out of 14, and with up to 4 (thorough: 5) operators of representative precedences, in several spacings and parenthesisations; chains and trees of up to 55 operators in every cyclic order; all token sequences up to length 6 (thorough: 8); every operator and function on a grid of values; all histories of loads, failed loads, unloads, copies and engine changes up to length 5",
     "the tests hold about thirty formulas; precedence and associativity errors show only for particular nestings of particular operators",
     ["src/term/Function.cpp", "src/factory/FunctionFactory.cpp", "fuzzylite/Operation.h"],
     [("Function::toPostfix", "src/term/Function.cpp"), ("Function::parse", "src/term/Function.cpp"), ("Function::membership", "src/term/Function.cpp"), ("FunctionFactory::registerOperators", "src/factory/FunctionFactory.cpp")],
     ("exhaustive enumeration of expression trees, token sequences and load histories up to a bound, each run on the real parser and compared with a reference parser and evaluator",
      "bounded size; numbers have no signed exponent; acceptance of misplaced operators that are valid as postfix is a listed finding"))
prop("C08", "Every term has its documented membership function and parameters",
     "For every class of term, documented parameters and height, the membership of every value is the documented function scaled by the height: within zero and the height for the shaped terms, undefined for an undefined value, and the same however the term was obtained (constructor, setters, parameter text, clone, assignment). The parameter text of a term configures an equal term, too few parameters are refused, and for monotonic terms the Tsukamoto value is the documented inverse, while other terms refuse it.",
     ["inputs", "configurations"],
     "all parameter vectors of the 17 shapes over grids with repeated and infinite vertices, five heights, six ways of obtaining the term, values at, between, just beside and far from every breakpoint, infinities and nan; all Discrete sequences of up to 4 (thorough: 5) pairs with repeated abscissas; all Linear coefficient and input vectors up to 4 x 3",
     "the tests check one parameterisation per term on a coarse grid; breakpoints, vertical edges, infinite vertices and heights in combination are not reached",
     ["src/term", "fuzzylite/term"],
     [("Term::membership", "src/term"), ("Term::configure", "src/term"), ("Term::tsukamoto", "src/term")],
     ("exhaustive enumeration of terms, parameters and values on the real code against reference functions written from the documentation",
      "finite grids of parameters and values; parameters within the documented domain; three decimals in texts"))
prop("C09", "Norms and hedges compute their documented functions and obey their laws",
     "Every conjunction and disjunction operator equals its documented formula and is commutative, associative, monotone, with the identity element of its kind and within the bounds of its kind (the unbounded sum excepted), and every hedge equals its documented function, stays within zero and one, and is monotone. Norms and hedges given by formulas evaluate the formula they were last given, and copies of any of them behave the same.",
     ["inputs"],
     "all pairs and triples over a grid of 21+18 (thorough: 65+18) degrees including values beside 0, 1/2 and 1, for 16 norms; all hedges on the fine grid; all orders of setting formulas and copying",
     "the tests evaluate each norm at a few points; laws such as associativity and monotonicity quantify over all triples",
     ["src/norm", "src/hedge"],
     [("Norm::compute", "src/norm"), ("Hedge::hedge", "src/hedge")],
     ("exhaustive enumeration of pairs and triples of degrees on the real operators against reference formulas and algebraic laws",
      "grid of degrees; laws are not asked within the 1e-5 neighbourhood of jumps where the comparison tolerance applies"))
prop("C10", "Integral defuzzifiers compute their documented value of any fuzzy set",
     "For every fuzzy set over a finite range and every resolution, the centroid, bisector, and smallest, mean and largest of maximum are the values the midpoint rule gives, lie within the range, and shift and scale with it; when there is no finite range, or the centroid or bisector of an empty set is asked, the value is undefined. A missing operator is reported as an exception, and new defuzzifiers take the default resolution of the moment.",
     ["inputs", "configurations"],
     "all vectors of membership values over {0, 0.3, 0.5, 1, undefined} for 1 to 7 (thorough: 8) sample points in three ranges; all pairs of term classes under three aggregations and two implications at five resolutions; all undefined ranges",
     "tests compare with a few recorded values; ties, plateaus, single samples and asymmetric vectors decide the boundary behaviour of these loops",
     ["src/defuzzifier", "fuzzylite/Operation.h"],
     [("Defuzzifier::defuzzify", "src/defuzzifier"), ("Operation::midpoints", "fuzzylite/Operation.h")],
     ("exhaustive enumeration of membership vectors at bounded resolution on the real defuzzifiers against a reference midpoint rule",
      "resolution up to 8 exhaustively; up to 1000 for term pairs; ties that rounding decides are accepted either way"))
prop("C15", "Weighted defuzzifiers compute Takagi-Sugeno and Tsukamoto values as documented",
     "For every sequence of activated terms, the weighted average and weighted sum combine the degree of each distinct term (repeated terms are joined by the aggregation operator, or added when there is none) with the value of its term: the function value for Takagi-Sugeno and the inverse for Tsukamoto. The automatic type is the one of the terms when they agree and an exception otherwise, an empty output is undefined, and anything but a fuzzy output is refused.",
     ["inputs", "configurations"],
     "all sequences of up to 3 activated terms out of 12 of all three kinds, with 4 degrees, 4 aggregations, 4 types, both defuzzifiers, with and without range",
     "tests contain a dozen sequences; grouping, type inference and undefined weights interact",
     ["src/defuzzifier/WeightedAverage.cpp", "src/defuzzifier/WeightedSum.cpp", "src/defuzzifier/WeightedDefuzzifier.cpp", "src/term/Aggregated.cpp"],
     [("WeightedDefuzzifier::defuzzify", "src/defuzzifier/WeightedDefuzzifier.cpp"), ("Aggregated::grouped", "src/term/Aggregated.cpp")],
     ("exhaustive enumeration of activated-term sequences and defuzzifier types on the real code against a reference model",
      "sequences up to 3 terms; degrees from a 4-value alphabet"))
prop("C25", "Queries on fuzzy outputs and variables agree with their activated terms",
     "For every sequence of activated terms, the degree per term, the grouped terms, the highest and all maximally activated terms, the membership and the textual fuzzy value are those that follow from the sequence in order, and adding, removing, clearing and copying change exactly the sequence concerned. For every variable and value, the activations, the fuzzified text, and the term of highest membership follow from the membership of each term, and sorting orders the same terms by their centroid.",
     ["inputs", "histories"],
     "all sequences of up to 4 (thorough: 5) activated terms with ties, zeros, negative and undefined degrees under five aggregations; all variables of up to 3 terms over the classes of terms at seven values; all orders of up to 4 terms to be sorted",
     "the tests query a few fixed outputs; ties, repeated terms and undefined degrees decide the results",
     ["src/term/Aggregated.cpp", "src/term/Activated.cpp", "src/variable/Variable.cpp", "src/variable/OutputVariable.cpp"],
     [("Aggregated::activationDegree", "src/term/Aggregated.cpp"), ("Aggregated::grouped", "src/term/Aggregated.cpp"), ("Variable::highestMembership", "src/variable/Variable.cpp")],
     ("exhaustive enumeration of activated-term sequences on the real code against a reference model",
      "sequences up to 5 terms over 6 degrees"))
prop("C11", "The FuzzyLite Language preserves engines: export and import are inverse",
     "Exporting an engine to the FuzzyLite Language and importing the text gives an engine with the same names, descriptions, flags, ranges, terms, operators, activation and defuzzification methods with their parameters, defaults and rules, which behaves the same and exports the same text again; numbers survive to the configured number of decimals. The importer reads every text of the language - comments, blank lines, spacing, keys in any order, omitted keys, other separators, former names of keys - as the engine it describes, from a string or a file. A line that is not of the language (no colon, an unknown key, or a value which is not a number, flag, range, operator or term) is refused with an exception.",
     ["inputs", "configurations"],
     "all combinations of operators and absent operators; all settings of every property of variables, defuzzifiers, activation methods and rule blocks over alphabets with undefined, infinite and degenerate values; every class of term with heights; all small structures of variables, terms, blocks and rules, and large ones of up to 60 parts of one kind; every line (thorough: every pair) in every style; one damage per line",
     "tests import and export some dozens of files, nearly all of the same shape; a property dropped, swapped or reset only for particular combinations passes them",
     ["src/imex/FllExporter.cpp", "src/imex/FllImporter.cpp", "src/imex/Exporter.cpp", "src/imex/Importer.cpp", "src/term", "src/activation", "src/Engine.cpp"],
     [("FllExporter::toString", "src/imex/FllExporter.cpp"), ("FllImporter::fromString", "src/imex/FllImporter.cpp"), ("Term::parameters/configure", "src/term")],
     ("exhaustive enumeration of bounded engine descriptions; each is built, exported, imported and run on the real code and compared field by field and cycle by cycle with the description, the reference text and the reference model",
      "names are identifiers; texts without line breaks and '#'; rules are enabled and loaded and carry their weight in their text; a formula that refers to a variable described later is a listed finding"))
prop("C12", "FIS and FCL files preserve the engines that these formats can express",
     "Exporting an engine to the Fuzzy Inference System or to the Fuzzy Control Language and importing the text gives an engine with the same names, ranges, terms, operators, defuzzifiers and rules (and in the control language also defaults and locks of previous values), which behaves the same, in whatever order conversions between the formats follow one another. The importers read both formats however they are styled, including the enabled, default and lock entries which exporters do not write. A rule that the Fuzzy Inference System cannot express (different connectives, several propositions about one variable, output variables in the antecedent) is refused on export, and on import an entry is refused when it names no operator, term, flag or key of the format or holds words for numbers.",
     ["inputs", "configurations", "programs"],
     "all combinations of operators, aggregations and defuzzifiers; every class of term; every rule over two inputs and two outputs whose hedges have a code, with both connectives and several weights; all small structures, and large ones of up to 60 parts of one kind; all styles with all combinations of optional entries; all sequences of 4 (thorough: 5) conversions among the three formats",
     "tests convert a few dozen example files that use the common classes of terms and operators; permuted parameters, wrong codes or dropped parts of the other classes pass them",
     ["src/imex/FisExporter.cpp", "src/imex/FisImporter.cpp", "src/imex/FclExporter.cpp", "src/imex/FclImporter.cpp"],
     [("FisExporter::toString", "src/imex/FisExporter.cpp"), ("FisImporter::fromString", "src/imex/FisImporter.cpp"), ("FclExporter::toString", "src/imex/FclExporter.cpp"), ("FclImporter::fromString", "src/imex/FclImporter.cpp")],
     ("exhaustive enumeration of bounded engine descriptions; each is exported and imported by the real code and compared with the description, with an independent writer of each format and with the reference model",
      "engines that the formats can express: one rule block and one operator of each kind in FIS, enabled parts, default resolutions and heights (FCL: heights except of discrete terms)"))
prop("C13", "Importers answer any text with a usable engine or with the library's exception",
     "Whatever text or file the importers of the FuzzyLite Language, the Fuzzy Inference System and the Fuzzy Control Language are given, they return an engine or raise the library's own exception: never another exception, a crash, an invalid memory access, or an endless loop, and refusing a text loses no memory. An engine they return can be exported, copied, queried, processed and restarted with the same guarantee, however incomplete it is.",
     ["inputs", "fault_points"],
     "all truncations of a text with every construct of each format, every single character deleted, replaced or inserted from 35 characters, every word replaced by 44 others, every pair of lines swapped, moved or repeated and every range of lines removed, every document of up to 3 (thorough: 4) lines over 34-39 lines in every context, every class of term, defuzzifier and method with every list of up to 5 parameters; files that do not exist or are empty; under address and undefined behaviour sanitizers",
     "tests contain about forty malformed texts; null objects, out-of-range positions and lost objects show only for particular damage",
     ["src/imex/FllImporter.cpp", "src/imex/FisImporter.cpp", "src/imex/FclImporter.cpp", "src/imex/Importer.cpp", "src/Engine.cpp", "src/rule", "src/term"],
     [("FllImporter::fromString", "src/imex/FllImporter.cpp"), ("FisImporter::fromString", "src/imex/FisImporter.cpp"), ("FclImporter::fromString", "src/imex/FclImporter.cpp")],
     ("exhaustive enumeration of damaged texts and short documents imported by the real code under AddressSanitizer, UBSan and a counter of live memory blocks",
      "one damage per text; documents up to 4 lines; integral resolutions above 2000 are lowered before processing to bound the time"))
prop("C14", "Exported datasets hold the requested inputs and the engine's outputs, row by row",
     "For every number of values, scope and selection of variables, an exported dataset has exactly the rows of the requested grid - for each variable as many values as asked, or for all variables the largest number per variable within the total - evenly from minimum to maximum with the last variable fastest, unselected variables keeping their values, and each row shows the inputs and what the engine makes of them after the rows before it, to the configured decimals and with the chosen separator, header and columns. Reading input values from a text skips comments and one header line, retains blank lines, ignores surplus values, and refuses lines with too few values or with words. Files and R scripts carry the same dataset (and the script the engine and the plots of the chosen variables), and what cannot be written is refused.",
     ["inputs", "configurations", "histories"],
     "engines with 1 to 4 inputs including outputs that depend on former rows; all numbers of values at and around perfect powers (thorough: all up to 1030), both scopes, all subsets of active variables; all combinations of columns, header, separators, decimals and ways to write, twice in a row; all input texts of up to 3 (thorough: 4) lines over 16 lines with three line endings; all rows of 0 to n+1 values; R scripts for all pairs of inputs and subsets of outputs",
     "tests export one engine with 1024 values and one reader; numbers whose root rounding loses, inactive variables, and rows that depend on former rows are not sampled",
     ["src/imex/FldExporter.cpp", "src/imex/RScriptExporter.cpp", "fuzzylite/Operation.h"],
     [("FldExporter::write", "src/imex/FldExporter.cpp"), ("FldExporter::toString", "src/imex/FldExporter.cpp"), ("RScriptExporter::writeScriptExportingDataFrame", "src/imex/RScriptExporter.cpp"), ("Op::increment", "fuzzylite/Operation.h")],
     ("exhaustive enumeration of export requests and input texts on the real code; every row is compared with the reference model run on the rows before it",
      "four engines with finite ranges; grids of up to 2401 values; texts up to 4 lines"))
prop("C16", "Readiness names exactly what is missing, and ready engines process",
     "An engine is reported ready exactly when it has input variables, output variables with terms, defuzzifiers and (for integral defuzzifiers) aggregation operators, and rule blocks with rules and all the operators that their rules require, however the rules are spaced; otherwise the status names each missing part. A ready engine processes every input without an exception, and processing a rule whose operator is missing raises one. The inferred type follows the documented table of defuzzifiers, terms and implications, and configuring operators by name or object gives every block and output its own copy, an unknown name changing nothing.",
     ["configurations", "inputs", "programs"],
     "all engines of 0-2 inputs, 0-2 outputs over seven shapes, 0-2 rule blocks with 0-2 rules over nine antecedents and three to four consequents, all combinations of missing operators, null parts, disabled and unloaded rules; all combinations of up to 2 (thorough: 3) output variables over 79 shapes and up to 2 blocks; all operator names in each position",
     "tests check readiness of three or four engines; a missing operator hidden by spacing, a second block or a second output is not sampled",
     ["src/Engine.cpp", "src/defuzzifier/WeightedDefuzzifier.cpp", "src/rule/RuleBlock.cpp"],
     [("Engine::isReady", "src/Engine.cpp"), ("Engine::type", "src/Engine.cpp"), ("Engine::configure", "src/Engine.cpp")],
     ("exhaustive enumeration of engine structures on the real code against a reference predicate, each ready engine being processed",
      "up to 2 inputs, outputs, blocks and rules per block; weighted defuzzifiers suit their terms"))
prop("C17", "Collections stay ordered, named and owned; loading reports every failing rule",
     "Whatever sequence of adding, inserting, replacing, removing, swapping and looking up is applied, the variables, blocks, terms and rules of an engine are exactly the resulting ordered list, names are found at their first position and unknown names refused, removed parts belong to the caller and the rest is destroyed exactly once with its owner. Loading rules loads every rule that can be loaded, reports all others in one exception, and leaves those unloaded and without effect; unloading and reloading, also after changing texts or the engine, follow the same rule.",
     ["histories"],
     "all sequences of up to 4-5 (thorough: 5-6) operations on the collections of input variables, output variables, rule blocks, terms and rules; all sequences of up to 4 (thorough: 5) operations of loading, unloading, reloading, changing a rule's text or the variables of the engine, and processing",
     "tests call each operation once or twice; lost, duplicated or stale entries need several operations in a particular order",
     ["src/Engine.cpp", "src/variable/Variable.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp"],
     [("Engine::insertInputVariable, removeInputVariable", "src/Engine.cpp"), ("RuleBlock::loadRules, reloadRules", "src/rule/RuleBlock.cpp"), ("Variable::addTerm, removeTerm", "src/variable/Variable.cpp")],
     ("exhaustive enumeration of operation sequences on the real code against an ordered-list model, with a counter of live memory blocks",
      "up to 3-4 elements at a time; positions within the collection"))
prop("C18", "Factories construct what is registered, and clones are equal and independent",
     "At any time and after any sequence of registering, deregistering, clearing, cloning and assigning, a factory constructs or clones exactly what is registered in it, lists exactly those keys, refuses unknown keys with an exception and leaks or shares nothing; initially every documented class is registered under its name, and an empty key gives a null object. What is registered in the factory manager is what rules, formulas and importers accept and use. A clone of any term, norm, hedge, defuzzifier or activation method has the same class, parameters and results as the original and stays so whatever happens to the original.",
     ["histories", "programs"],
     "all sequences of up to 4 (thorough: 5) operations on construction factories and on two function factories; all built-in names of seven factories in four kinds of manager; all sequences of registering or deregistering with rules, formulas and importers; all classes with parameters cloned",
     "tests register one object; replaced, deregistered and cloned entries in combination are not sampled",
     ["fuzzylite/factory", "src/factory", "src/term", "src/activation", "src/defuzzifier"],
     [("ConstructionFactory::registerConstructor", "fuzzylite/factory/ConstructionFactory.h"), ("CloningFactory::registerObject", "fuzzylite/factory/CloningFactory.h"), ("FactoryManager::instance", "src/factory/FactoryManager.cpp")],
     ("exhaustive enumeration of operation sequences on the real code against a map model, with a counter of live memory blocks",
      "three to four keys per factory; sequences up to 5 operations"))
prop("C19", "Engines in different threads do not disturb each other",
     "When several threads each build, import, export, copy, configure and process engines of their own at the same time, every thread gets exactly the results it gets alone, whatever the schedule: no data race, deadlock or crash, and no change of the library's settings. The same holds for threads running clones of one engine, and for threads that only copy, export or query one engine (without formula terms) that they share.",
     ["schedules", "programs"],
     "all pairs and all triples of eighteen programs that together use every part of the library, with race detection over the whole trace (where no accesses conflict, one execution stands for all interleavings); all pairs with one preemption at every access to static memory and every synchronisation, neighbouring pairs at every (quick: every eighth; all pairs in thorough: every fourth) function entry, small programs at every memory access, and representative pairs with two preemptions",
     "the tests are single-threaded; a shared buffer, an unguarded lazy table or a call that changes the locale shows only when two threads meet in it",
     ["src", "fuzzylite/factory/FactoryManager.h", "fuzzylite/fuzzylite.h", "fuzzylite/Operation.h"],
     [("FactoryManager::instance", "src/factory/FactoryManager.cpp"), ("fuzzylite::setDecimals and other library settings", "fuzzylite/fuzzylite.h"), ("Console::availableOptions and other static tables", "src/Console.cpp")],
     ("stateless model checking of the real code under a controlled scheduler: every memory access of the library is instrumented, executions are serialised, all preemption points within the bound are enumerated, and a vector-clock race detector covers the interleavings that are equivalent",
      "two to three threads; one preemption at static accesses and synchronisations (two for representative pairs); threads change neither the factories nor the library's settings meanwhile"))
prop("C20", "Number and text utilities follow their definitions for all values and texts",
     "Comparisons of numbers respect the tolerance, infinities and undefined values consistently; rounding, bounding, scaling, statistics and counters follow their definitions for every value. Splitting, joining, replacing, trimming and naming texts follow theirs for every text and delimiter. Every number is read exactly when its whole text is a number, and a written number reads back to within half a unit of its last decimal, or exactly for undefined and infinite values, for every number of decimals and format.",
     ["inputs", "configurations"],
     "all pairs of twenty values around four tolerances; all numbers in steps of an eighth and large ones; all counters of up to 3 (thorough: 4) digits; all vectors of up to 4 (thorough: 6) values; all texts of up to 5-6 (thorough: 6-8) characters over the alphabets that matter to each function, with all delimiters; all decimals, formats and magnitudes of a grid",
     "tests take a few texts and numbers per function; overlapping delimiters, empty pieces, incomplete exponents and values at the tolerance are not sampled",
     ["fuzzylite/Operation.h", "fuzzylite/fuzzylite.h"],
     [("Operation::isEq and other comparisons", "fuzzylite/Operation.h"), ("Operation::split, findReplace, trim, validName", "fuzzylite/Operation.h"), ("Operation::toScalar, str", "fuzzylite/Operation.h")],
     ("exhaustive enumeration of values and texts up to a bound on the real code against reference definitions",
      "the C locale; texts up to 8 characters"))
prop("C23", "Benchmarks evaluate the requested values afresh and report true errors and times",
     "However a benchmark is prepared - by a number of values per variable or in total, or from a text with comments and a header line - every run evaluates exactly those inputs in order on the restarted engine and obtains what the engine gives, whatever was run before, and the times of all runs accumulate until reset. Errors between expected and obtained outputs (all, not finite, of accuracy beyond the tolerance, and their mean square), per output and in total, count exactly what their definitions say, or are not given when rows do not match the engine. Results, headers and tables report those counts, the statistics of the times in the unit asked for, and the outputs chosen.",
     ["inputs", "histories", "configurations"],
     "all numbers of values up to 33 each and 740 (thorough: 1030) in total for engines of 1 to 3 inputs; all texts of up to 4 (thorough: 5) lines out of 11 with every limit; all histories of 4 (thorough: 5) of preparing, running, resetting and using the engine; all expected and obtained values out of 8 for up to two outputs and two rows, with two tolerances; all units, selections, shapes and contents of reports",
     "tests benchmark one engine with one grid; roots that are inexact, undefined or infinite differences, ragged rows and runs after other runs are not sampled",
     ["src/Benchmark.cpp"],
     [("Benchmark::prepare", "src/Benchmark.cpp"), ("Benchmark::run", "src/Benchmark.cpp"), ("Benchmark::numberOfErrors, meanSquaredError", "src/Benchmark.cpp"), ("Benchmark::results", "src/Benchmark.cpp")],
     ("exhaustive enumeration of requests, texts, histories and value tables on the real code against the reference model of inference and reference definitions of the errors",
      "up to three inputs and two outputs; elapsed times only have to be numbers that are not negative"))
prop("C21", "The command-line application does what its arguments and keys ask for",
     "For every list of arguments, the application either writes to the chosen file or the terminal exactly what the chosen exporter gives for the engine imported from the file or built-in example, with the chosen decimals and dataset options, and ends with success, or says what is wrong and ends with failure. In the interactive console, every sequence of keys sets, keeps, discards, restarts and processes as its help says, each processed row shows the outputs of the engine for those inputs, and file and terminal show the same. The benchmark commands report one row per pair of files with the errors of the benchmark, and exporting the examples writes every example in every format that can express it.",
     ["inputs", "histories", "configurations"],
     "all combinations of values (valid, missing, unknown) of the eleven options; all lists of up to 4 (thorough: 6) arguments out of 9-11 words; all sequences of up to 4 (thorough: 6) keys out of 12 and of up to 5 (thorough: 6) values and commands out of 11, on three engines; all combinations of benchmark files, runs and destinations; all lists of up to 3 pairs of files; the status of the program run as a process",
     "tests check the parsing of some options and run no command; orders, repetitions and combinations of options and keys are not sampled",
     ["src/Console.cpp", "src/main.cpp"],
     [("Console::main, parse, process", "src/Console.cpp"), ("Console::interactive", "src/Console.cpp"), ("Console::benchmarks", "src/Console.cpp"), ("main", "src/main.cpp")],
     ("exhaustive enumeration of argument lists and key sequences on the real application code, compared with the library's importers, exporters and engine driven by a reference model of the command language",
      "up to 6 arguments and keys; keys come from a file, not a terminal; single options given without others are not required to be refused by name"))
prop("C22", "Code generated for C++ and Java builds the engine it was generated from",
     "For every engine, the C++ code that the library generates for it - with or without namespaces, with or without the names of its variables - compiles against the library and builds an engine equal in every part and setting, which computes the same outputs. The Java code generated for it compiles against classes of the documented constructors and makes the same calls with the same values. This covers infinite and undefined numbers, heights, every operator and parameter, texts with any characters, every structure, and every number of decimals.",
     ["programs", "configurations"],
     "all classes of terms with special parameters and heights in all positions; all combinations of operators of a block, of aggregations and defuzzifiers, of activation methods and parameters; all combinations of flags, ranges and defaults; all structures of up to 3 variables and blocks, and large ones; all texts of up to 2 (thorough: 3) characters of those that the languages treat specially as names and descriptions; all decimals; the examples of the repository; the four styles of code",
     "the tests compare the generated text of three engines with a fixed text and never compile it: code that does not compile or builds another engine passes",
     ["src/imex/CppExporter.cpp", "src/imex/JavaExporter.cpp"],
     [("CppExporter::toString", "src/imex/CppExporter.cpp"), ("JavaExporter::toString", "src/imex/JavaExporter.cpp"), ("Discrete::create, Linear::create", "fuzzylite/term")],
     ("exhaustive enumeration of engines on the real exporters; the code is compiled, loaded and executed (Java against stand-in classes that record the calls) and the engine built is compared with the description it started from and with the reference model of inference",
      "engines that differ from a base engine in the part enumerated; variables named by distinct identifiers that are not reserved words; Java against stand-in classes"))
prop("C24", "Failures are reported and leave the engine and the library usable",
     "Whenever an operation fails - a component supplied by the user raises an error at any of its calls, a part of the engine is missing, a text is wrong, or memory runs out at any allocation - nothing crashes or hangs, what the operation only reads and the configuration of a processed engine are unchanged, and errors of components reach the caller of the processing as they are. Once the cause is gone, the same operation and all processing after a restart (and the next cycle, where no previous value is kept) give exactly what they give without the failure, for the engine and for its copies. Texts, rules and formulas that are refused leave no memory behind, and right ones load afterwards.",
     ["fault_points", "inputs"],
     "24 operations on five engines that together use every activation method and every kind of part, failing at every allocation and at every call of a term, norm, hedge, defuzzifier or activation method (and every allocation of the first use of the library); every missing part; every word of exported texts of three formats replaced by eleven others; every rule with up to two words changed and every formula of up to five symbols; everything else that reads a text or a name (98 readers) with all texts of up to three out of 25 words",
     "tests raise one error and stop there; what a failure at a particular call leaves behind shows only in later cycles, copies or in memory",
     ["src/Engine.cpp", "src/rule", "src/activation", "src/imex", "src/term/Function.cpp", "src/variable"],
     [("Engine::process", "src/Engine.cpp"), ("Rule::load", "src/rule/Rule.cpp"), ("Function::load, parse", "src/term/Function.cpp"), ("FllImporter::fromString", "src/imex/FllImporter.cpp"), ("Engine::copyFrom", "src/Engine.cpp")],
     ("exhaustive enumeration of fault points on the real code: every operation is run again and again, failing at the first, second, ... allocation or call until none is left, and compared with the run that does not fail; also with address and undefined-behaviour sanitizers",
      "one fault per execution; copies and exports that run out of memory may be incomplete instead of failing; leaks are only excluded for refused texts"))
prop("C26", "Debugging, logging and number formats do not change what is computed",
     "With any setting of debugging, logging, decimals, number format and test tolerance, changed at any moment, every operation - processing, copying, importing, loading rules and formulas, querying, exporting - computes exactly the same values, changes the same state and fails in the same cases; only printed text differs, and with neither debugging nor logging nothing is printed. The digits in texts are those of the setting of the moment, whatever texts were made before. Every comparison, including those made by activation methods, uses the comparison tolerance of the moment, and setting it back restores the previous results.",
     ["configurations", "histories", "inputs"],
     "all 37 settings of debugging, logging, decimals and format for 27 programs that together use every kind of operation; changes between four settings at every (quick: about 60) observable point of each program, and at every two of up to 60 (quick: 14) points; thirteen kinds of texts with every two of 13 numbers of decimals and two formats; comparisons of all values around every tolerance for all sequences of three of five tolerances; all eight activation methods for degrees around the tolerance",
     "tests set one format, run one thing and reset it; an operation that goes through text, caches a tolerance or does work only when debugging is right under the settings that tests use",
     ["fuzzylite/fuzzylite.h", "fuzzylite/Operation.h", "src/Engine.cpp", "src/rule", "src/activation", "src/imex", "src/term"],
     [("fuzzylite::setDecimals, setDebugging, setLogging, setMachEps", "fuzzylite/fuzzylite.h"), ("Operation::str, isEq", "fuzzylite/Operation.h"), ("FL_LOG, FL_DBG", "fuzzylite/fuzzylite.h"), ("Engine::process", "src/Engine.cpp")],
     ("exhaustive enumeration of settings and of the points at which they change on the real code, compared with the run under normal settings; comparisons and selections against reference definitions",
      "up to two changes during a program; the tolerance itself only changes between operations"))
