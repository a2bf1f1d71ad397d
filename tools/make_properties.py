import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None, **({"state":state} if state else {})}})
pp="src/calliope/preprocess/"; bk="src/calliope/backend/"
p("P01","Definition layers resolve by fixed precedence, per leaf setting",
"For every model definition, scenario, override dictionary and set of initialisation arguments, each leaf setting of the prepared definition has the value given by the highest-priority layer that sets it (initialisation arguments > override dictionary > scenario overrides > base definition), with `_REPLACE_` replacing a whole block and a null never erasing a block. Scenarios expand (also through nested scenarios and comma lists) to exactly the set of overrides they name, and the order in which they are named is irrelevant: two combined overrides that set the same leaf are rejected, unknown names are rejected. The caller's definition and override dictionaries are not changed.",
["inputs","configurations"],"all nested definitions x override sets x scenario graphs x override dicts x init kwargs",
"Tests check a handful of hand-written override pairs; the interaction of three layers with block replacement, nulls and nested scenarios is combinatorial.",
[pp+"model_definition.py","src/calliope/attrdict.py"],
[("prepare_model_definition / _load_scenario_overrides / _combine_overrides",pp+"model_definition.py"),("AttrDict.union / set_key / del_key","src/calliope/attrdict.py")],
["calliope.preprocess.prepare_model_definition(...).definition/.config/.runtime"])
p("P02","Template inheritance: local beats template, chains compose, no leakage",
"For every definition with templates, each section that names a template ends up with exactly the merge of its template chain and its own settings, where the section's own setting wins over its template's and a template's own setting wins over the template it inherits from; no `template` reference or `templates` block is left. Resolving one section never changes what another section or template resolves to, and the order in which templates are listed does not matter. Circular template chains are rejected.",
["inputs"],"all template graphs (chains, diamonds, cycles, any listing order) x referencing sections at any depth",
"Tests use two fixed template files; aliasing between resolved templates, listing order and cycle shapes are not enumerated.",
[pp+"model_definition.py","src/calliope/attrdict.py"],[("TemplateSolver",pp+"model_definition.py")],["calliope.preprocess.prepare_model_definition(...).definition"])
p("P03","YAML imports and dotted keys: nothing lost, importer and imports disjoint",
"Reading a YAML file with (nested) imports yields exactly the union of the settings of all files reached, resolving each relative import against the file that contains it; a setting defined in two of them is an error, unless overriding is allowed, in which case the importing file wins over its imports. Dotted keys mean the same as nested blocks, and writing a definition out to YAML and reading it back returns the same settings.",
["inputs","configurations"],"all import trees x dotted/nested spellings x duplicate placements",
"Tests have a couple of two-file imports; depth, diamond imports, directory-relative paths and duplicate placement vary freely in use.",
["src/calliope/io.py","src/calliope/attrdict.py"],[("read_rich_yaml/_resolve_yaml_imports/to_yaml","src/calliope/io.py"),("AttrDict","src/calliope/attrdict.py")],["calliope.io.read_rich_yaml","calliope.io.to_yaml"])
p("P04","Math layers stack as base, then mode, then extra math in listed order",
"The math a model is built with is the base math, overlaid by the math of the selected mode, overlaid by each extra math in the listed order, every later layer overriding single settings of earlier ones and keeping the rest; user files that reuse a pre-defined name replace that layer, and math passed as a dictionary is merged on top of the layer it names. Unknown math names are rejected, as is a name used for two active components of different kinds. Building never changes the stored layers nor the math of another model, so rebuilding in another mode uses only that mode's layers.",
["configurations","histories"],"all modes x extra-math lists x layer contents x rebuild sequences",
"Tests cover the shipped math files and a few customisations in one order.",
[pp+"model_math.py","src/calliope/schemas/math_schema.py","src/calliope/schemas/general.py","src/calliope/model.py"],[("initialise_math/build_math",pp+"model_math.py"),("CalliopeBaseModel.update","src/calliope/schemas/general.py")],["Model.math.init","Model.math.build","Model.build"])
p("P05","Model lifecycle: build, solve, force and failures follow one state machine",
"A model can be solved only once it has been built, a second build or a solve over existing results is refused unless forced, and a refused call changes nothing. A solve whose solver does not find an optimal solution replaces earlier results by empty ones and reports the solver's termination condition, while an optimal one stores the results; whether a model is built and whether it is solved is always reported according to the calls made so far. Options passed to build or solve are the ones in effect for that call and are recorded in the model's configuration.",
["histories"],"all sequences of build/solve (plain, forced, with options, feasible or infeasible, failing) calls",
"Tests run a few fixed short sequences.",
["src/calliope/model.py"],[("Model.build/solve/is_built/is_solved","src/calliope/model.py")],["Model.build","Model.solve","Model.is_built","Model.is_solved","Model.results","Model.runtime","Model.config"])
p("P06","Problem component registry and solver problem never diverge",
"After any sequence of additions (successful or failing) and deletions of problem components, the optimisation problem sent to the solver contains exactly the members of the components the interface lists, each component having members exactly where it is defined. A component name can be used only once; an addition that fails leaves the registered components and the solver problem as they were and the name can be used again afterwards. Component listings by kind are disjoint and complete.",
["histories"],"all interleavings of add/delete of variables, expressions, constraints, objectives, parameters with valid, empty, clashing and failing definitions",
"Tests check single additions and single deletions.",
[bk+"backend_model.py",bk+"pyomo_backend_model.py"],[("_raise_error_on_preexistence/_add_to_dataset/delete_component",bk+"backend_model.py"),("PyomoBackendModel instance dicts",bk+"pyomo_backend_model.py")],["Model.backend.add_*","Model.backend.delete_component","Model.backend.to_lp","Model.backend.<component kind>"])
p("P07","Updating a built problem equals building it from the updated data",
"After any sequence of input updates, variable-bound updates, objective switches and variable fixing/unfixing on a built problem, the problem sent to the solver is the one a fresh build with the resulting data, bounds, objective and fixed values would give. Values that an update does not mention (missing coordinates or undefined entries) keep their previous values, smaller updates are broadcast along missing dimensions, and exactly one objective is active at any time. Updates that cannot be applied are refused.",
["histories"],"all sequences of update_input (full, partial, scalar, missing values, lookups/masks that trigger rebuilds), update_variable_bounds, set_objective, fix/unfix",
"Tests apply one update to one component and look at that component only; history dependence and cross-component references are not covered.",
[bk+"backend_model.py",bk+"pyomo_backend_model.py"],[("_update_input/_rebuild_references/_find_all_references",bk+"backend_model.py"),("update_input/update_variable_bounds/set_objective/fix_variable/unfix_variable",bk+"pyomo_backend_model.py")],["Model.backend.update_input","Model.backend.update_variable_bounds","Model.backend.set_objective","Model.backend.fix_variable","Model.backend.to_lp"])
p("P08","Operate mode: windows tile the horizon, storage is handed over, re-runs agree",
"In operate mode every timestep of the model appears exactly once, in order, in the results, taken from the optimisation window it belongs to; each window is optimised over exactly its horizon of input data, clipped at the end of the data. Every window starts from the storage level at which the previous window's kept part ended, the first one from the initial level given in the inputs. Solving the same built model again gives the same results as the first time.",
["inputs","histories","configurations"],"all window/horizon lengths (dividing the data or not) x time series x storage/loss parameters x repeated solves",
"Tests use one model with a few window lengths and look at shapes of the results.",
["src/calliope/model.py",bk+"backend_model.py"],[("_prepare_operate_mode_inputs/_solve_operate/_recalculate_storage_initial","src/calliope/model.py")],["Model.build(mode=operate)","Model.solve","Model.results"])
p("P09","SPORES: every alternative respects the cost budget and scores accumulate",
"A SPORES run returns the baseline and the requested number of alternatives in order; the first is the plain optimum and no alternative costs more than the baseline cost times one plus the slack. The score that penalises each alternative is the sum of the score increments the chosen algorithm derives from the preceding alternatives, for tracked technologies only. Continuing from existing results yields the same alternatives as one longer run, and skipping the baseline uses the given results as the baseline.",
["inputs","histories","configurations"],"all models x scoring algorithms x tracking subsets x numbers x split/continued runs",
"Tests run one model with fixed numbers of alternatives and check selected values.",
["src/calliope/model.py","src/calliope/math/spores.yaml"],[("_solve_spores/_spores_update_model","src/calliope/model.py"),("spores math","src/calliope/math/spores.yaml")],["Model.solve","Model.results"])
p("P10","Saving and reloading a model loses nothing and changes nothing",
"Writing a model to NetCDF (at any stage: initialised, built, solved) and reading it back gives a model with equal inputs, results, configuration, definition, math and runtime information, and building or solving the reloaded model poses the same optimisation problem as the original. Saving never alters the model in memory, and CSV export contains every non-empty value of inputs and results at its index.",
["inputs","histories"],"all attribute values (booleans, None, nested dictionaries, lists, empty containers), dtypes (strings, datetimes, booleans with gaps), stages and save/load repetitions",
"Tests save a fixed national-scale model and compare it after one round trip.",
["src/calliope/io.py","src/calliope/model.py"],[("save_netcdf/save_csv/_serialise/_deserialise","src/calliope/io.py"),("Model.to_netcdf/dump_all_attrs","src/calliope/model.py"),("ModelDataCleaner",pp+"model_data.py")],["Model.to_netcdf","calliope.read_netcdf","Model.to_csv"])
p("P11","Tabular data: select, drop, add, rename, then later sources win per value",
"Each data table contributes exactly the values of its selected rows/columns, after dropping, adding and renaming dimensions in that order, at the index those dimensions give. Where several sources give a value for the same input and index, a later table wins over an earlier one and the YAML definition wins over tables, while missing values never erase earlier ones. The order or orientation (rows versus columns) of the same data in a table does not matter.",
["inputs","configurations"],"all table shapes x select/drop/add_dims/rename_dims combinations x overlapping tables and YAML values x gaps",
"Tests check single tables of fixed shape.",
[pp+"data_tables.py",pp+"model_data.py"],[("DataTable",pp+"data_tables.py"),("ModelDataBuilder._add_to_dataset/init_from_data_tables",pp+"model_data.py")],["calliope.read_dict(..., data_table_dfs=...)","Model.inputs"])
p("P12","Inputs contain exactly the active technologies, nodes, links and their values",
"The model inputs are defined for exactly the (node, technology, carrier) combinations that the definition activates: technologies listed at active nodes, transmission links at both of their (active) end nodes, and nothing that is set inactive at any level. Each value at a node is the node-level value if given there, else the technology's value; data given with explicit index and dimensions is placed at exactly that index (broadcast only if allowed). One-way links can only carry flow from their start to their end node.",
["inputs","configurations"],"all combinations of techs, nodes, node-level overrides, inactive flags, links (one-way or not), indexed data",
"Tests cover single features on a fixed test model.",
[pp+"model_data.py"],[("ModelDataBuilder/ModelDataCleaner",pp+"model_data.py")],["calliope.read_dict","Model.inputs"])
p("P13","Time: subset, resample and cluster conserve what they must",
"Subsetting keeps exactly the timesteps from the first to the last requested inclusive; resampling keeps each period's sum, mean or first value according to each input's rule, over exactly the original periods; clustering keeps the representative days' data with weights equal to the number of days each represents, so that weights total the original days. Timestep resolutions are the gaps between timesteps in hours and weights multiply to the original total duration. These are applied in the order subset, resample, cluster.",
["inputs","configurations"],"all series lengths/resolutions x subset bounds x resample frequencies x cluster maps and combinations of them",
"Tests use one data set and a few frequencies.",
[pp+"time.py",pp+"model_data.py"],[("resample/cluster/add_inferred_time_params",pp+"time.py"),("ModelDataCleaner._subset_dims/update_and_resample_dimensions",pp+"model_data.py")],["calliope.read_dict","Model.inputs"])
p("P14","Where strings select exactly the index items their logic describes",
"A math component has members exactly at the index items where its foreach combination exists, its where string is true and one of its equations' where strings is true. Where strings follow the documented logic (existence of data, comparison with values or configuration options, not/and/or and parentheses, subsets of dimension items, any/defined helpers), with undefined entries never satisfying an existence test and comparisons using the declared default value for undefined entries.",
["inputs","programs"],"all where-string programs over existence, comparison, subset, helper and boolean operators x all data with gaps and defaults",
"Tests evaluate a fixed list of strings on one data set.",
[bk+"where_parser.py",bk+"parsing.py",bk+"helper_functions.py"],[("where_parser Eval* classes",bk+"where_parser.py"),("ParsedBackendComponent.generate_top_level_where_array",bk+"parsing.py")],["Model.backend.<kind>[name].notnull()"])
p("P15","Expressions build exactly the linear terms their text denotes",
"For every component expression, each member's row in the optimisation problem has exactly the coefficients, constant and sense that ordinary arithmetic precedence gives to the text with parameter values (or their defaults) and the same-index members of variables inserted. Every combination of equation, sub-expression and slice alternatives applies exactly where all of their where strings hold, slices select the named items. Two alternatives that apply to the same member are refused, and so is an expression that is undefined for a selected member: undefined values never reach the solver.",
["inputs","programs"],"all expressions over + - * / **, signs, parentheses, parameters, variables, slices, sub-expressions and equation alternatives x data with gaps",
"Tests evaluate a fixed list of strings, mostly on numbers.",
[bk+"expression_parser.py",bk+"parsing.py",bk+"backend_model.py"],[("expression_parser Eval* classes",bk+"expression_parser.py"),("ParsedBackendComponent.parse_equations",bk+"parsing.py"),("_add_component",bk+"backend_model.py")],["Model.backend.to_lp","Model.backend.constraints/global_expressions"])
p("P16","Math helper functions compute their documented array operations",
"In any expression, sum, where, roll, group_sum, group_datetime, sum_next_n, select_from_lookup_arrays, get_val_at_index and reduce_carrier_dim give, at each index item, the terms their documentation describes: sums ignore undefined entries and are undefined only if all are, roll wraps around, lookups that are undefined give undefined members, group sums have values only for existing groups, and a rolling sum covers the current and following items up to the end of the dimension.",
["inputs","programs"],"all helper functions x arrays with gaps x dimension sizes x offsets/windows/groupings/lookups",
"Tests use a single small array per helper.",
[bk+"helper_functions.py"],[("ParsingHelperFunction subclasses",bk+"helper_functions.py")],["Model.backend.global_expressions","Model.backend.to_lp"])
p("P17","Solved systems conserve energy and respect capacities and costs",
"In every solved model, each carrier balances at every node and timestep, every storage level follows from the previous one, its losses and its in- and outflows starting from its initial (or cyclic) level, and conversion, transmission and supply outflows match their inflows times efficiencies. No flow, storage level, source use or capacity exceeds the limits given in the inputs, and demands are met exactly. Reported costs equal investment, fixed and variable costs computed from the reported capacities and flows, and the objective is their weighted total; capacity factors, generation and curtailment summarise the reported flows.",
["inputs","configurations"],"all small energy systems (technology mixes, links, efficiencies, losses, weights, cyclic or initial storage, cost classes)",
"Tests compare generated constraints with stored LP files for a fixed model and check few solutions.",
["src/calliope/math/base.yaml",bk+"helper_functions.py",bk+"backend_model.py"],[("base math","src/calliope/math/base.yaml"),("roll / sum / select helpers",bk+"helper_functions.py")],["Model.solve","Model.results","Model.inputs"])
p("P18","Generated run scripts run every requested scenario exactly once",
"A generated run script (bash, windows, LSF or SLURM) contains exactly one run command per requested scenario or override combination, in order, each loading the given model file with that scenario and writing to its own numbered output file; array scripts cover exactly the indices 1..N. The requested cluster resources (memory, time, threads) are passed on. Generated scenario files list every combination of one override per group exactly once.",
["inputs","configurations"],"all scenario lists, override groups, script kinds and extra arguments",
"Tests generate scripts for one scenario list and check that files exist or their command count.",
["src/calliope/util/generate_runs.py","src/calliope/cli.py"],[("generate_*_script","src/calliope/util/generate_runs.py"),("generate_scenarios","src/calliope/cli.py")],["calliope generate_runs","calliope generate_scenarios"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
