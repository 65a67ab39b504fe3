"""Writes /verif/properties.jsonl (kept as code so statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CH, UT, DM, BU, GO, PR, MO, SI, EN, VI, MT = ["pyactr/%s.py" % x for x in
    "chunks utilities declarative buffers goals productions model simulation environment vision motor".split()]

p("C01", "Chunk identity is determined by slot content",
  "Two chunks without pattern variables are equal, and have equal hashes, exactly when they have the same non-empty slots with the same values (values compared recursively when they are chunks), whatever their type name, the order in which slots were given, explicit versus omitted empty slots, and the way they were created. Pattern chunks built from the same set of constraints are likewise equal however the constraints were ordered, and constraining a slot differently makes them different (constraining a slot to be empty counts as leaving it out). Equality is an equivalence and agrees with use as a dictionary key.",
  ["inputs"], "all pairs/triples of chunks over a small vocabulary of slots, values (strings, numbers, None, nested chunks) and pattern constraints, and all construction routes",
  "Tests compare a handful of hand-written flat chunks; equality is implemented through a hash over a filtered slot sequence, so it can silently collapse or split identities for particular shapes (nesting, empties, many constraints, hash seeds).",
  [CH], [("hash-based equality over non-empty slots", CH+":Chunk.__hash__/__eq__/removeempty"), ("slot normalisation", CH+":Chunk.__init__")])

p("C02", "Pattern matching follows the declarative meaning of patterns",
  "A pattern matches a chunk exactly when there is one assignment of the pattern's variables, extending the bindings it starts with, under which every slot constraint holds: a value equals the slot's value, a negated value differs from it, every positive occurrence of a variable has the variable's value and every negated occurrence differs from it, with a slot the chunk lacks counting as empty and slots the pattern does not mention, as well as the type, being irrelevant. After a match the bindings are exactly that assignment, and the answer does not depend on the alphabetical order of slot names. A chunk is a proper part of another when it matches and is not equal to it.",
  ["inputs"], "all patterns (values, variables, negated values and variables, in any combination per slot, several slots sharing variables), all chunks, all initial bindings",
  "Tests check about twenty fixed pattern/chunk pairs; interactions between shared positive and negated variables across slots, initial bindings, missing slots and empties form a combinatorial space.",
  [CH, UT], [("slot-by-slot match with binding dictionary", CH+":Chunk.match/__le__/__lt__")], [("bound variables", "variable assignment collected while matching", CH+":Chunk.boundvars")])

p("C03", "Partial matching adds up declared similarities",
  "With partial matching, the score of a pattern of values and negated values against a chunk is 0 when the chunk satisfies every constraint, and otherwise the sum, over the values that disagree, of the similarity declared for the pair of values, or minus the mismatch penalty when none is declared, with a violated negation counting as a mismatch. Declared similarities are symmetric and the latest declaration for a pair wins. Only non-positive similarities are accepted.",
  ["inputs", "configurations"], "all value patterns, chunks, similarity tables and mismatch penalties",
  "No test uses partial matching at all.",
  [CH, UT, MO], [("partial match scoring", CH+":Chunk.match"), ("similarity lookup", UT+":get_similarity"), ("similarity declaration", MO+":ACTRModel.set_similarities")])

p("C04", "String notation and programmatic notation mean the same",
  "A chunk written as a string equals the chunk built from the corresponding keyword values (slots, type, constants, quoted literals, variables and negations in any order), and a bare word naming an existing chunk denotes that chunk while a quoted word is a literal. A production rule written as a string behaves like the same rule written as a generator function: same tests, same actions, same utility and reward, same simulation trace.",
  ["inputs", "programs"], "all chunk strings and rule strings expressible in the grammar over a small vocabulary",
  "Tests parse a few dozen fixed strings; quoting, repeated slots, numbers, negations and name resolution combine freely.",
  [CH, UT, MO], [("chunk grammar", UT+":getchunk"), ("rule grammar", UT+":getrule"), ("parse result to slot constraints", CH+":createchunkdict"), ("rule strings to rule generators", MO+":ACTRModel.productionstring")])

p("C05", "Chunk types, inheritance and chunk views are coherent",
  "A chunk has exactly the slots of its type (those declared, plus those inherited from all included types, plus those added by chunks that used further slots), each either given a value or its declared default or empty, no value given is lost or moved to another slot, and attribute access, iteration, indexing, length and printing all present the same slots and values. Redefining the slots of the built-in motor and visual types, including an unknown type, and declaring a slot named isa are rejected. Extending a type later leaves existing chunks unchanged.",
  ["histories"], "all sequences of chunk-type declarations (with includes and defaults) and chunk creations",
  "Tests declare a few types once; the effect of sequences (inherit, then extend, then create) is not sampled.",
  [CH], [("type registry and inheritance", CH+":chunktype"), ("automatic extension", CH+":Chunk.__init__"), ("views", CH+":Chunk.__iter__/__getitem__/__getattr__/__repr__/_asdict")])

p("C06", "Declarative memory keeps the exact presentation history of every chunk",
  "At any moment a declarative memory contains exactly the chunks ever stored in it, one entry per distinct chunk content, and each entry lists all presentation times of that content, in order of addition, those given as single numbers rounded to tenths of a millisecond. Adding never loses or alters other entries, whatever the form in which chunks and times are supplied (single, collections, initial data). A copy has the same content and later changes to either side do not show in the other.",
  ["histories"], "all sequences of creation, addition (single/batch, scalar/list times), item assignment, deletion and copying",
  "Tests add a few chunks at time 0.",
  [DM], [("history arrays keyed by chunk content", DM+":DecMem.add/__setitem__/__init__"), ("copying", DM+":DecMem.copy")], [("presentation times", "chunk -> times", DM+":DecMem._data")])

p("C07", "Buffers hold at most one chunk and clearing harvests it exactly once",
  "A buffer always holds at most one chunk. When a chunk is cleared from a goal, retrieval or visual buffer, or replaced in a retrieval or visual buffer, it is added to the buffer's declarative memory exactly once, at the time of clearing, and clearing an empty buffer adds nothing; replacing, discarding or modifying a goal chunk directly adds nothing. No other chunk appears in or disappears from any declarative memory, and full/empty queries agree with the content. In a model with one declarative memory that memory belongs to all buffers; with several memories of which exactly one has chunks in it, that one belongs to the buffers that were given no memory, and the others keep theirs.",
  ["histories"], "all sequences of add, clear, modify, create and discard on all buffer kinds sharing or not sharing memories, and all runs of models",
  "Tests exercise one short buffer sequence.",
  [BU, GO, DM, VI], [("buffer as a set of at most one chunk", BU+":Buffer.add"), ("harvest on clear", GO+":Goal.clear; "+DM+":DecMemBuffer.clear; "+VI+":Visual.clear/VisualLocation.clear")])

p("C08", "Modifying and creating buffer chunks changes only what was asked",
  "Modifying a buffer's chunk yields a chunk in which exactly the slots mentioned in the modification have the new values (with bound variables replaced by what they are bound to), all other slots keep their values, and the original chunk object, wherever else it is stored, is unaffected; creating a chunk in a goal buffer yields exactly the mentioned slots with variables substituted. A modification or creation that uses an unbound variable, a negated constraint, or two different values for one slot is rejected with the library's error, and so is the modification of a buffer without a chunk.",
  ["inputs"], "all original chunks, modification patterns and variable bindings",
  "Tests modify one slot of one chunk with one binding.",
  [BU, GO, UT], [("variable substitution", UT+":check_bound_vars"), ("slot update", BU+":Buffer.modify"), ("creation", GO+":Goal.create")])

p("C09", "Symbolic retrieval returns a chunk that satisfies the request, if there is one",
  "With subsymbolic computation off, a retrieval request ends with a chunk of the memory in the retrieval buffer that satisfies the request (variables and negated variables replaced by the values bound in the requesting rule) and was first stored at a time other than the present, whenever such a chunk exists, without extra delay. Otherwise it fails: the buffer keeps its previous content, its state becomes error, and the failure takes the rule-firing time. The retrieved chunk replaces the previous one, which is harvested into memory at that time.",
  ["inputs", "configurations"], "all memories, request patterns, bindings and previous buffer contents",
  "Tests retrieve from a few fixed memories with exactly one matching chunk.",
  [DM, PR], [("scan of memory", DM+":DecMemBuffer.retrieve"), ("retrieval process", PR+":ProductionRules.retrieve")])

p("C10", "Subsymbolic retrieval picks the most active match with the right latency",
  "With subsymbolic computation on and no noise, retrieval returns the chunk with the highest total activation (base level plus spreading activation plus partial-match score) among the matching chunks whose activation reaches the threshold, after latency factor times e to the minus (latency exponent times activation); when none reaches the threshold it fails after the latency computed from the threshold. With partial matching on all chunks compete, and with it off only those matching the request. Parameters set on the retrieval buffer override those of the model. The activation trace reports exactly these components of the retrieved chunk and changes nothing.",
  ["inputs", "configurations"], "all memories with presentation histories, requests, buffer contents and parameter settings, at all request times",
  "Tests check one base-level number and one model trace; ordering among several chunks, thresholds, exponents, spreading and partial matching are never combined.",
  [DM, UT], [("activation competition", DM+":DecMemBuffer.retrieve"), ("threshold and latency", UT+":retrieval_success/retrieval_latency")])

p("C11", "Base-level activation follows the ACT-R equation",
  "The base level of a chunk is ln of the sum of (now minus t) to the minus decay over its presentation times t, or, with optimised learning, ln(n/(1-decay)) minus decay times ln(now minus last presentation); a presentation at the present moment does not count, and a chunk with no other presentation cannot be retrieved unless its activation was set by hand. With base-level learning off it is 0; a manually set activation M is combined as ln(e^B + e^M). It grows with every extra presentation, falls as time passes, and does not depend on the order of presentations.",
  ["inputs"], "all presentation histories, times, decays, modes and manual activations",
  "Tests evaluate the formula at a few points in one mode.",
  [UT, DM], [("base-level equation", UT+":baselevel_learning"), ("manual activation", DM+":DecMem.add_activation")])

p("C12", "Spreading activation reflects the current buffers and memory",
  "The activation spread to a chunk is, summed over the source buffers and over the value slots of the chunk in each source buffer, the buffer's weight divided by its number of source values, times S minus ln(fan/occurrences) for sources associated with the chunk and 0 for others, where the fan is one plus the number of slots in memory (with the same slot name in restricted mode) holding the source. This holds at every moment while memory grows between computations, and sources are chunk values only or all values according to the model parameter.",
  ["inputs", "histories"], "all memories, buffer contents, parameter modes, and all interleavings of activation computations with additions to memory",
  "Tests evaluate six static memories; fan counts are cached and incrementally updated, and the caches are only wrong after particular histories.",
  [UT, DM], [("spreading equation", UT+":spreading_activation/calculate_strength_association/weigh_buffer/find_chunks"), ("fan caches updated on addition", DM+":DecMem.__setitem__")], [("fan counters", "cached fan per source", DM+":DecMem.(un)restricted_number_chunks")])

p("C13", "Recently retrieved chunks are tracked by the retrieval finst",
  "With a finst of n, a chunk counts as recently retrieved exactly when it is among the results of the last n retrievals made through that buffer. A request restricted to not recently retrieved chunks never returns such a chunk and a request restricted to recently retrieved chunks returns only such chunks, while unrestricted requests ignore the finst. With finst 0 the restriction has no effect, and a negative finst is rejected.",
  ["histories"], "all sequences of retrieval requests with and without the restriction, for all finst sizes",
  "No test uses finsts.",
  [DM, PR], [("queue of recent results", DM+":DecMemBuffer.retrieve/finst")])

p("C14", "Conflict resolution selects a matching rule of maximal utility",
  "At every conflict resolution a rule is selected if and only if the left-hand side of some rule holds in the current buffers, and without utility noise the selected rule has the highest current utility among those that hold. Left-hand sides test buffer content (with variables bound consistently across buffers), and query whether buffers are full or empty and the states of all modules (free, busy or in error; preparation, processor and execution for vision and motor), where all that is asked has to hold; testing and selecting change no buffer. The selected rule fires after the rule-firing time if its left-hand side still holds then, and otherwise is announced as stopped.",
  ["programs", "histories"], "all rule sets with utilities over several buffers, and all states reached when running them",
  "Tests use models in which rules rarely compete.",
  [PR], [("conflict resolution", PR+":ProductionRules.procedural_process"), ("left-hand side evaluation", PR+":ProductionRules.LHStest/test/query")])

p("C15", "Utility learning propagates rewards by temporal difference",
  "When utility learning is on and a rule with a reward fires, the utility U of every rule selected since the previous reward changes, once for each selection in order, by alpha times (reward minus time since that selection minus U), rounded to four decimals, and all other utilities stay; without utility learning or rewards utilities never change. The updated utilities are the ones used in later conflict resolutions. Starting a new simulation forgets earlier selections.",
  ["programs", "histories"], "all rule sets with rewards and all firing histories",
  "One test follows one fixed three-rule history.",
  [UT, PR, MO], [("reward propagation", UT+":modify_utilities"), ("selection log", PR+":ProductionRules.procedural_process")])

p("C16", "Production systems execute with the documented semantics",
  "Running a production system over goal, imaginal-like and retrieval buffers produces the same sequence of rule firings at the same times, the same buffer contents at every conflict resolution, and the same final declarative memory as the documented step semantics: select, wait the firing time, re-check, then modify at once, overwrite without harvesting (after the buffer's delay, which the rest of the rule waits for), clear with harvesting, create in a goal after its delay with harvesting of the old chunk, retrieve with its latency, and, under strict harvesting, clear the tested buffers the rule does not mention on its right. Requests run in parallel with further rules, and a later request to a busy retrieval buffer replaces the earlier one. A command to show slots prints each named slot with the value it has before the rule's changes, and changes nothing.",
  ["programs", "configurations"], "all small production systems (rule count, buffers, tests, queries, actions, variables), initial memories and parameter settings",
  "Tests run a dozen fixed models; the step semantics is a product of many action kinds, orders and timings.",
  [PR, SI, GO, DM, BU], [("right-hand side execution", PR+":ProductionRules.update and actions"), ("module processes", SI+":Simulation.__procprocessGenerator__/__extraprocessGenerator__/__localprocess__")])

p("C17", "Simulation traces are well formed and time never runs backwards",
  "The events of a simulation are reported in non-decreasing time, each at the simulation clock's current time rounded to tenths of a millisecond, and the printed trace lists the same events as stepping observes, in the same order (and nothing if it is switched off). Each conflict resolution is followed by exactly one of a rule selection or a no-rule event at the same time, and each selection by exactly one firing or stopping of the same rule exactly one rule-firing time later. A new conflict resolution starts only after that, so at most one rule is in progress at any moment.",
  ["programs", "configurations"], "all models (rules, delays, environments, motor and visual actions) and parameter settings",
  "Tests look at the first few events of fixed models.",
  [PR, SI], [("event stream", SI+":Simulation.__localprocess__/__printevent__/step"), ("procedural cycle", PR+":ProductionRules.procedural_process")])

p("C18", "Runs are reproducible and independent of how the simulation is driven",
  "The same model run again from the same state (and random seed, and any hash seed of the interpreter) yields the same trace, buffers and memories. Running in one go, in several consecutive stretches, in real time, or in single or several steps gives the same events and final state, and a shorter run is a prefix of a longer one. Starting at a different initial time shifts all event times and the presentation times of stored chunks by that amount and changes nothing else when no earlier presentations exist.",
  ["programs", "schedules"], "all models and all ways of dividing a run into stretches and steps",
  "Tests drive each model in one way.",
  [SI, PR, MO], [("run/step/steps", SI+":Simulation.run/step/steps"), ("simulation set-up", MO+":ACTRModel.simulation")])

p("C19", "Key presses take the documented motor time and never overlap",
  "A key press goes through preparation, initiation, execution and finishing with the documented durations for its key class; preparation is free when the motor module was prepared (first press only) or the key repeats, and is reduced by 100 ms for the same movement class with the same hand and by 50 ms for the same class with the other hand, and by nothing otherwise. Presses happen in the order requested, one press starts initiating only after the previous has finished, and every accepted request leads to exactly one press unless a newer request replaces it while it is still being prepared. The motor states queried by rules are busy exactly during the corresponding phases.",
  ["histories", "inputs"], "all sequences of key presses with all gaps between requests",
  "One test presses a few fixed keys with the previous movement finished.",
  [MT, PR], [("durations", MT+":Motor.TIME_PRESSES"), ("press process", PR+":ProductionRules.motorset/motorcontinue")], [("last key", "last key and end of its movement", MT+":Motor.last_key")])

p("C20", "Motor commands are validated and pressed keys are reported in upper case",
  "Every letter, digit and space key of either hand is accepted in any letter case and is reported to the environment in upper case at the moment of its press, with variables in the request replaced by their bindings. Every other key and every command other than a key press is rejected with the library's error before anything is pressed. Nothing can be put in the motor buffer directly.",
  ["inputs"], "all keys (strings), commands and bindings",
  "Tests press four different valid keys.",
  [MT, PR], [("command validation", MT+":Motor.create")])

p("C21", "The environment shows each stimulus for its time or until its trigger",
  "Stimuli appear in the given order, the first at the start of the simulation or at the start_time of the environment process if that is later (before it nothing is on the screen: searches find nothing and shifts of attention are rejected); each stays until its planned end time or until a key among its triggers (in any letter case) is pressed while it is shown, whichever is first, and keys that are not its triggers have no effect on it. A single stimulus, trigger or time is used for all screens, while lengths that cannot be reconciled and malformed stimuli are rejected. The arguments supplied by the caller are not altered, neither by the environment nor by what the model does.",
  ["inputs", "histories"], "all stimulus/trigger/time lists and all key-press sequences",
  "One test uses a single list of alternating screens.",
  [EN, SI], [("environment schedule", EN+":Environment.environment_process"), ("trigger wake-up", SI+":Simulation.__envGenerator__/__localprocess__")])

p("C22", "Visual search returns a stimulus that satisfies every search criterion",
  "A visual-location search returns the location of a stimulus on the current screen whose text, exact or relative position and attendedness satisfy the request and which is extremal (lowest, highest, closest, one-way closest) among those satisfying the other criteria when exactly one such criterion is used; it fails exactly when none satisfies it. The location chunk carries the integer coordinates and the externally visible features of that stimulus. The stimulus found, and no other, then counts as attended for as many further searches as the finst allows.",
  ["inputs", "histories"], "all screens, all combinations of search criteria, all focus positions, all sequences of searches",
  "Tests search a screen with one word by text.",
  [VI], [("search filter", VI+":VisualLocation.find"), ("attended stimuli", VI+":VisualLocation.add")])

p("C23", "Shifting visual attention encodes the attended object with EMMA timing",
  "Moving attention to a location encodes the object shown there (its text, position and all its visual features) into the visual buffer and moves the eyes exactly to it; without noise the encoding time is K*delay*e^(k*angle), eye preparation 135 ms and eye movement 70 ms plus 2 ms per degree, and with the EMMA model switched off attention and eyes take 85 ms. Events are ordered as the EMMA account prescribes, including encoding that outlasts the movement. The preparation of vision is busy while an eye movement is prepared, its execution while the eyes move, and its processor during both; the clear command gives up an eye movement in preparation but not one being executed. Asking to attend a location with no object or without a location is rejected, as is an unknown visual command.",
  ["inputs", "configurations"], "all screens, focus positions, delays, parameters and attended targets",
  "One test encodes one word at one distance.",
  [VI, UT, PR], [("attention shift", VI+":Visual.shift"), ("EMMA timing", UT+":calculate_visual_angle/calculate_delay_visual_attention/calculate_execution_time"), ("shift process", PR+":ProductionRules.visualshift/visualcontinue/visualencode")])

p("C24", "Newly shown stimuli are noticed and foveal objects are buffered automatically",
  "When a screen appears, the visual-location buffer receives the location of the stimulus closest to the current focus among those not yet attended (nothing when automatic search is off or there is none), and stimuli found automatically count as attended; it does so, too, when rules fire or make requests of other modules at that very moment. The visual buffer receives the object within the foveal region around the focus without being asked, until automatic buffering is stopped by the clear command and again after the next attention shift. Objects outside the foveal region are never buffered automatically, and chunks that are replaced automatically are not stored in memory.",
  ["inputs", "histories"], "all screens, focus positions and screen sequences, with and without the clear command",
  "Tests see one stimulus at the centre of the screen.",
  [VI, PR, SI], [("automatic search", VI+":VisualLocation.automatic_search"), ("automatic buffering", PR+":ProductionRules.automatic_buffering/automatic_search")])

p("C25", "A compiled rule does what its two parents did in sequence",
  "With production compilation on, when two different rules fire in succession and compilation is not blocked, a rule named after both is added, and firing it in the state in which the first parent fired leaves goal-type buffers and requests as the two parents did. The compiled rule matches in that state. A rule compiled without the use of a retrieval fires in the states in which both parents would fire in succession, with the same outcome, and in no others. Rules compiled from compiled rules do what all the rules in them do one after the other. Compilation never changes the behaviour of the run while the parents keep being selected, and compiling the same pair again re-creates the same rule rather than adding a duplicate.",
  ["programs"], "all pairs of rules over goal and retrieval buffers with variables, and all states in which they fire in succession",
  "Twelve fixed compilation scenarios are tested, each looking at one rule text.",
  [PR, UT], [("rule collapse", PR+":Productions.compile_rules/__collapse__/__rename__/__substitute__"), ("variable unification", UT+":match/make_chunkparts_*")])

p("C26", "Unsafe production compilations are blocked",
  "No rule is compiled when both parents set the same goal buffer by request or make requests to the same motor or visual buffer, when the second parent queries a requested motor or visual buffer for anything but busy, tests a requested visual buffer, or queries a requested retrieval buffer for error, when the second parent tests a buffer that the first one emptied or queries it for being full or busy, when the second parent acts on a buffer in which a request of the first parent is in progress or tests what was in such a buffer before, or, with strict harvesting, harvests what the first parent put in a buffer, when the retrieved chunk is still in the retrieval buffer, when the second parent uses the retrieval buffer after a failed retrieval, or when compilation is off or a rule follows itself. Otherwise the pair compiles. Existing rules are never altered, and with utility learning a re-created rule's utility moves toward the first parent's utility by the learning rate.",
  ["programs", "configurations"], "all pairs of rules over goal, retrieval and motor buffers and all parameter settings",
  "Only single blocked scenarios are tested.",
  [PR], [("validity check", PR+":Productions.__check_valid_compilation__"), ("compilation", PR+":Productions.compile_rules")])

p("C27", "Ill-formed input is rejected with an error and leaves state unchanged",
  "Unparsable rules and chunks, two values or two variables in one slot, unbound variables or negations in actions, unknown action or condition signs, unknown model parameters, positive similarities, negative delays and finsts, non-chunks in memories and buffers, bad commands and bad names are rejected by an exception (the library's own error where it defines one) at the point documented. A rejected operation leaves memories, buffers and registered rules as they were. Well-formed input is not rejected.",
  ["inputs"], "all single-fault mutations of well-formed inputs to the public interface",
  "Tests contain hardly any rejection cases.",
  [CH, UT, MO, DM, BU, GO, MT], [("validation sites", "raise statements throughout "+UT+", "+MO+", "+BU)])

p("C28", "Models do not influence one another",
  "Creating, configuring, running or learning in one model never changes the parameters, rules, utilities, similarities, buffers, memories, or trace of another model, even when their simulations are interleaved step by step. Parameters given to one model do not appear in the defaults, which are the documented ones for every new model. Only chunk types and named chunks are shared.",
  ["histories", "schedules"], "all pairs of models and all interleavings of their construction and execution",
  "Tests run one model at a time and check only within it.",
  [MO, PR, CH], [("per-model state", MO+":ACTRModel.__init__/simulation"), ("similarities installed at simulation set-up", MO+":ACTRModel.simulation")])

p("C29", "Copies of memories and buffers are faithful and independent",
  "A copy of a declarative memory, goal buffer or retrieval buffer has the same content and settings (presentation times, manual activations, fan counts; chunk, delay; chunk and associated memory as documented; the similarities by which it retrieves), and later operations on the copy or the original do not affect the other except through a memory they are documented to share.",
  ["histories"], "all states of memories and buffers and all later operations on either side",
  "No test copies a buffer; memories are copied once.",
  [DM, GO], [("copy methods", DM+":DecMem.copy/DecMemBuffer.copy; "+GO+":Goal.copy")])

p("C30", "Noise is centred, scaled as configured, and absent at zero",
  "With a noise parameter of 0 results are deterministic and equal the noiseless formula; negative noise is rejected. With noise s > 0 activation and utility noise follow a logistic distribution with mean 0 and scale s, drawn independently for each chunk or rule at each computation, and eye-movement times follow a gamma distribution whose mean is the noiseless value. Noise changes only the noised quantity.",
  ["configurations", "inputs"], "all noise settings and random seeds",
  "Tests never enable noise, and a single run cannot reveal a distribution.",
  [UT, DM, PR, VI], [("activation and utility noise", UT+":calculate_instantaneous_noise"), ("eye-movement noise", UT+":calculate_preparation_time/calculate_execution_time/calculate_delay_visual_attention")])

p("C31", "No wake-up is lost: a quiescent model has no applicable rule",
  "When a simulation runs out of events, no rule's left-hand side holds in the final buffers and module states, and no request is left pending: every retrieval, setting, key press or attention shift begun has completed or been replaced by a newer request to the same module (an attention shift still being prepared also by a change of the screen). After every change of a buffer or module state made by a module, a conflict resolution takes place at that time or, if a rule is in progress, right after it.",
  ["programs", "schedules"], "all models whose module completions fall at, before and after conflict resolutions and rule firings",
  "Tests follow prefixes of runs; lost wake-ups show only when completions coincide with particular points of the procedural cycle.",
  [SI, PR], [("procedural activation", SI+":Simulation.__activate__/__procprocessGenerator__")])

p("C32", "A model can be simulated again",
  "A simulation, whether it ran to its end or was abandoned at any point, leaves nothing behind in its model but contents: of memories and buffers, recently found items, focus, learned utilities and rules. Model parameters stay as they were set, and a new simulation of the model with these contents put back gives the same events and the same final state as a new model: no module waits for what the former simulation left unfinished.",
  ["histories", "crash points"], "all models and all points at which a former simulation of them was abandoned",
  "Tests simulate every model once.",
  [MO, PR, VI, BU], [("preparation of a simulation", MO+":ACTRModel.simulation"), ("module states", BU+":Buffer.state; "+VI+":Visual"), ("parameters during a run", PR+":ProductionRules.motorset")])

p("C33", "A model consists of what it was given",
  "The goal and retrieval buffers, memories, visual buffers, rules and parameters of a model are exactly those it was given, under the names they were given. A buffer made under a name is empty, has the delay, memory and finst asked for, is returned and found under that name, and replaces a former one of that name; rules refer to it by that name. Setting the memory replaces the only one; when there are several, it adds one. The only goal buffer, retrieval buffer or memory is available without its name; asking for it when there are several is a ValueError. A rule given under a name replaces the one of that name, a rule without a name gets a new one, setting the productions replaces all rules, and rules without utility and reward have utility 0 and no reward. Parameters are the defaults unless they were given, and unknown ones are rejected; parameters given to a retrieval or visual buffer hold for it instead of those of the model, and no run changes parameters. Buffers use the memory assigned to them, else the only memory of the model, or the only one that has chunks; clearing a buffer for which it is open to which memory is rejected with the library's error and loses nothing, but chunks can be written there.",
  ["configurations", "operation sequences"], "all sequences of configuration steps (buffers, memories, visual buffers, rules in all forms, parameters, rejected steps), and runs of rules that use all buffers by name",
  "Tests configure every model once, with at most two goal buffers and one memory.",
  [MO, PR, GO, DM, VI], [("configuration", MO+":ACTRModel.set_goal/set_retrieval/set_decmem/visualBuffer/productionstring/set_productions"), ("memories of buffers", MO+":ACTRModel.simulation; "+PR+":ProductionRules.clear"), ("rule base", PR+":Productions")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
