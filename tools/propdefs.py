L = "sdk/python/lib/pulumi/"
ORACLE_NOTE = ("Runtime monitoring: the property is checked on every execution of a large, seeded, generated workload against an "
               "independent reference model; no guarantee beyond the executions observed. Trusts the fake engine (pv/engine.py) to "
               "stand for the real one's RPC interface, and the reference model.")
NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, tech, note=ORACLE_NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=[f if f.startswith("sdk/") else L + f for f in files],
                      mech=[(n, w if w.startswith("sdk/") else L + w) for n, w in mech], observe=observe, tech=tech, note=note))


P("C01", "Output combinators compute the right value",
  "In an update, any expression built from Outputs, prompt values, awaitables, input types, lists and dicts with from_input, all, apply, "
  "secret, unsecret, concat, item and attribute access resolves to exactly the value that its parts determine, with nested Inputs deeply "
  "unwrapped. Every apply callback runs exactly once, with the resolved value of its source as its argument. An Output returned by a "
  "callback is flattened into the result.",
  ["programs", "inputs", "schedules"], "every expression over the combinators, every value, every order in which resources resolve",
  "tests evaluate a few dozen hand-written expressions of depth 1-2 on fixed values in one order; compositions, falsy values, awkward "
  "keys and orders are not sampled",
  ["output.py", "runtime/rpc.py"],
  [("apply, all, from_input, concat, lifting", "output.py")], ["value of each Output", "arguments and count of callback invocations"],
  "online monitoring of random Output expressions against a reference evaluator")
P("C02", "Previews don't run callbacks on, or claim to know, unknown values",
  "In a preview, an Output computed from a value that the engine reports as unknown (or leaves out), at any depth, is reported as not "
  "known, and an apply callback on such an Output does not run unless it asked to run with unknowns, in which case it sees explicit "
  "unknowns. Conversely an Output all of whose parts are known is known, has the value of an update, and its callbacks run exactly once. "
  "Item and attribute access reach the known parts of a partially unknown value.",
  ["programs", "inputs", "schedules"], "every expression over the combinators, every placement of unknowns",
  "tests check known-ness of single combinators on wholly unknown values; partially unknown values in compositions are the bulk of real "
  "previews",
  ["output.py", "runtime/rpc.py"], [("is_known propagation", "output.py"), ("contains_unknowns, resolve_outputs", "runtime/rpc.py")],
  ["is_known of each Output", "callback invocations"], "online monitoring of previews against a reference evaluator with unknowns")
P("C03", "Secretness is sticky",
  "An Output is secret if any value it was computed from (through from_input, all, apply, nested Outputs returned by callbacks, concat, "
  "item or attribute access) is secret, whether or not that value is known; only unsecret removes the mark. An Output with no secret among "
  "its sources is not secret.",
  ["programs", "inputs"], "every expression over the combinators, every placement of secrets, previews and updates",
  "tests check the flag after one or two combinators; loss happens in compositions, in previews or in nested Outputs",
  ["output.py", "runtime/rpc.py"], [("is_secret propagation", "output.py"), ("secret bubbling in deserialization", "runtime/rpc.py")],
  ["is_secret of each Output"], "online monitoring of secret flags against a reference information-flow model")
P("C04", "Outputs track the resources they come from",
  "The set of resources of an Output is exactly the union of those of everything it was computed from, including Outputs returned by apply "
  "callbacks that ran, whether or not the value is known; a resource's own outputs carry that resource plus what the engine reports as "
  "the property's dependencies.",
  ["programs", "inputs"], "every expression over the combinators, previews and updates",
  "tests check dependency sets of single combinators",
  ["output.py", "runtime/rpc.py", "runtime/resource.py"], [("resources propagation", "output.py"), ("transfer_properties", "runtime/rpc.py")],
  ["resources() of each Output"], "online monitoring of dependency sets against a reference model")
P("C05", "Inputs reach the engine exactly as the program gave them",
  "Every property that a program passes (nested lists, mappings, input types, enums, assets, archives, resources, awaitables, Outputs) "
  "arrives at the engine with its exact value under its Pulumi name: unknown Outputs as the unknown marker, secret ones as secrets, resources as "
  "references with URN and ID, and for remote components as output values with their secretness and dependencies. Where the engine "
  "doesn't support an encoding the documented fallback is used (plain value, ID or URN). Properties that are None at the top level are left out, "
  "no others.",
  ["inputs", "configurations"], "every property tree, every set of engine features, previews and updates",
  "tests serialize a few dozen fixed values; combinations of nesting, unknown, secret, feature sets are unbounded",
  ["runtime/rpc.py", "runtime/resource.py", "runtime/settings.py", "asset.py", "_types.py"],
  [("serialize_properties, serialize_property", "runtime/rpc.py"), ("monitor_supports_feature", "runtime/settings.py")],
  ["RegisterResource, ReadResource and RegisterResourceOutputs requests"], "wire monitor with an independent decoder and reference encoder")
P("C06", "Secrets never leave the program in plaintext",
  "When the engine supports secrets, data that a program got from or marked as a secret (secret Outputs, secret resource, function or stack "
  "reference outputs, secret config) and never passed to unsecret appears in messages to the engine (registrations, reads, component and stack "
  "outputs, function arguments) only inside secret-marked values, no matter what it was combined into.",
  ["programs", "inputs"], "every flow of secret data from any source to any sink through any combinators and containers",
  "tests check individual secret encodings, not flows",
  ["output.py", "runtime/rpc.py", "runtime/stack.py", "stack_reference.py", "config.py", "runtime/invoke.py"],
  [("is_secret propagation", "output.py"), ("secret encoding", "runtime/rpc.py"), ("massage", "runtime/stack.py")],
  ["all RPC requests"], "dynamic taint tracking with unique markers over all messages sent")
P("C07", "Values from the engine become the corresponding program values",
  "Whatever the engine answers for a registered, read, fetched or called resource or function is observed by the program as exactly the "
  "corresponding value: assets and archives as such, references as resources if their module is registered and otherwise as ID or URN, "
  "unknowns as unknown, null and engine-internal (double underscore) object fields as absent, a secret anywhere marking the whole property secret. "
  "A property that an update's answer leaves out has the value of the input of that name, or None.",
  ["inputs"], "every answer of the engine, previews and updates",
  "tests deserialize a few fixed messages",
  ["runtime/rpc.py", "runtime/resource.py", "runtime/invoke.py"], [("deserialize_properties, resolve_outputs", "runtime/rpc.py")],
  ["outputs of resources and functions"], "monitoring of decoded values against an independent reference decoder")
P("C08", "Registrations carry exactly the declared identity and options",
  "Each resource that a program declares or reads is requested from the engine under exactly its declared type, name, kind (custom, remote, component), "
  "ID or import ID and parent (the stack if none is given). Every option set on it (protect, delete_before_replace, ignore_changes, "
  "replace_on_changes, additional_secret_outputs, custom_timeouts, retain_on_delete, version, plugin_download_url, provider and providers, "
  "with property names translated to Pulumi's) arrives with its value, and options that weren't set arrive unset.",
  ["programs", "configurations"], "every kind of resource with every combination of options",
  "tests cover single options on one kind of resource; lost or swapped fields in combinations aren't seen",
  ["runtime/resource.py", "resource.py"], [("register_resource, read_resource, prepare_resource", "runtime/resource.py"), ("ResourceOptions", "resource.py")],
  ["RegisterResource and ReadResource requests"], "wire monitor comparing each request with the declaration")
P("C09", "Reported dependencies are complete and exact",
  "The dependencies in a resource's registration are exactly the URNs implied by depends_on (in all its forms: resources, lists, Outputs and "
  "awaitables of them, including the resources an Output in it came from) and by the resources its properties were computed from, where a local component "
  "stands for its custom and remote descendants, not going below those. Each property that is sent is also listed with exactly its own dependencies.",
  ["programs", "inputs"], "every resource graph, property tree and depends_on form",
  "tests use a few fixed graphs; dropped dependencies show only as wrong ordering in real deployments",
  ["runtime/resource.py", "runtime/rpc.py", "output.py", "resource.py"],
  [("prepare_resource, _expand_dependencies", "runtime/resource.py"), ("dependency collection", "runtime/rpc.py")],
  ["dependencies and propertyDependencies of requests"], "wire monitor against a reference dependency model")
P("C10", "Requests wait for what they need and for nothing else",
  "The request for a resource, function or component's outputs is sent only after the engine has answered everything that it uses: its parent, its provider, "
  "the resources it depends on and those its inputs come from. Nothing else delays it: a resource is requested even while unrelated requests are "
  "unanswered, and no acyclic program deadlocks, in whatever order the engine answers.",
  ["programs", "schedules"], "every program of resources, components, functions, callbacks and tasks; every order of answers",
  "tests answer at once, in request order; races and deadlocks show only with other orders and graphs",
  ["runtime/resource.py", "runtime/invoke.py", "runtime/rpc.py", "output.py"],
  [("prepare_resource, _add_dependency", "runtime/resource.py"), ("output value dependencies", "runtime/rpc.py")],
  ["order of requests and answers", "requests outstanding at quiescence"],
  "happens-before monitor on the RPC trace of random programs under adversarial answer orders")
P("C11", "Each declaration is requested exactly once before the program is done",
  "Every resource, function call and set of component outputs that a program declares, in the main program or in callbacks and asyncio tasks it starts, "
  "leads to exactly one request, and every callback on a known value runs exactly once. Before the program is reported as finished all of those were "
  "answered, all its tasks have ended and all its Outputs settle; the stack's outputs are registered exactly once.",
  ["programs", "schedules"], "every program of resources, functions, callbacks and tasks; every order and timing of answers",
  "tests use straight-line programs with prompt answers; what is declared late, in nested callbacks or tasks, is lost only under particular timings",
  ["runtime/stack.py", "runtime/rpc_manager.py", "runtime/resource.py", "runtime/invoke.py", "output.py"],
  [("wait_for_rpcs, run_in_stack", "runtime/stack.py"), ("RPCManager.do_rpc", "runtime/rpc_manager.py")],
  ["requests", "end of the program", "callback invocations"],
  "conservation monitor (declarations against requests) on random programs under adversarial schedules")
P("C12", "Failures surface with their reason, never hang, and stop dependents",
  "If the engine rejects a request, a provider reports failures, a callback, component or the main program raises, or an input can't be resolved or serialized, then the program "
  "ends (never hangs) and fails with that reason, and nothing that needs what failed is requested. A loss of the engine is reported as the SDK's RunError. "
  "A failing function invocation that the program catches leaves the rest of the program unaffected.",
  ["programs", "faults", "schedules"], "every program, every single failure at every place, every order of answers",
  "tests inject a handful of failures into programs of one or two resources; swallowed exceptions and deadlocks depend on where and when the failure occurs",
  ["runtime/stack.py", "runtime/rpc_manager.py", "runtime/resource.py", "runtime/invoke.py", "runtime/settings.py", "runtime/rpc.py", "output.py"],
  [("record_exception, wait_for_rpcs", "runtime/rpc_manager.py"), ("resolve_outputs_due_to_exception", "runtime/rpc.py"), ("handle_grpc_error", "runtime/settings.py")],
  ["how the program ends", "requests made"],
  "fault injection into random programs with a monitor for failure propagation and a logical hang detector")
P("C13", "Aliases sent are exactly those declared and inherited",
  "The aliases in a resource's registration are, without repetition, exactly the URNs that its declared aliases stand for (URNs as they are; Alias objects with each "
  "part that isn't given taken from the resource), and for each alias of its parent, declared or itself inherited, the URNs that the resource under its own type and "
  "name and under those of each of its aliases would have had below it, where a name that begins with the parent's name begins with that of the parent's alias.",
  ["programs", "inputs"], "every tree of resources with any aliases on any of them",
  "tests cover single inherited aliases of fixed trees of two levels; a lost alias means that a deployment replaces resources",
  ["resource.py", "runtime/resource.py", "urn.py"],
  [("all_aliases, inherited_child_alias", "resource.py"), ("collapse_alias_to_urn", "resource.py"), ("create_urn", "urn.py")],
  ["aliases of RegisterResource requests"], "wire monitor against a reference model of alias inheritance")
P("C14", "Transformations run once, in order, and their result is what's registered",
  "For each resource that a program declares, its own transformations, then those of its ancestors from its parent upwards, then those registered for the stack run exactly "
  "once each before the registration, in order. Each is given the resource, its type and name and the properties and options that the previous ones resulted in; a result "
  "of None changes nothing. The final properties and options are what is requested and what children inherit from; a transformation that changes the parent, or raises, "
  "fails the declaration, which isn't requested.",
  ["programs", "inputs"], "every tree of resources with any transformations on any of them and on the stack",
  "tests run a few transformations on fixed trees of two levels",
  ["resource.py", "runtime/stack.py"], [("Resource.__init__", "resource.py"), ("register_stack_transformation", "runtime/stack.py")],
  ["calls of transformations and their arguments", "RegisterResource and ReadResource requests"], "trace monitor of transformation calls against a reference fold")
P("C15", "Merging options keeps every setting and changes no operand",
  "The merge of two ResourceOptions (or InvokeOptions) has the elements of both operands' collections in order (also of depends_on in all its forms, and of providers by package, "
  "later ones winning), and for every other option the later operand's value unless it's None, else the earlier one's. It leaves both operands as they were, accepts None for either, "
  "is the same in its static and its instance form, and its result can be used and merged further like any other options.",
  ["inputs", "configurations"], "every sequence of merges of any options",
  "tests merge single options; lost options in combinations and shared state between merges aren't seen",
  ["resource.py", "invoke.py", "output.py"], [("ResourceOptions.merge, _merge_lists, _collapse_providers", "resource.py"), ("InvokeOptions.merge", "invoke.py"), ("_map2_input", "output.py")],
  ["merged options", "requests that use them"], "online monitoring of random merge trees against a reference merge")
P("C16", "Providers and protection are inherited from the nearest ancestor that sets them",
  "A custom resource or function is requested with the provider given in its own options, else in its own providers for its package, else with the one that its "
  "parent has for that package from its own options or its ancestors; nothing else leads to a provider reference, and one of the wrong package is rejected before anything is "
  "requested. A remote component is requested with the providers given to it and the one it would itself use. A resource is protected if its options say so or, where they don't say, if its parent is.",
  ["programs", "configurations"], "every tree of resources, functions and methods with any provider, providers and protect options",
  "tests use trees of two levels with one or two providers; a wrong provider deploys into the wrong account or region",
  ["resource.py", "runtime/resource.py", "runtime/invoke.py"],
  [("Resource._get_providers, get_provider", "resource.py"), ("prepare_resource, convert_providers", "runtime/resource.py"), ("invoke, call", "runtime/invoke.py")],
  ["provider, providers and protect of requests"], "wire monitor against a reference model of inheritance")
P("C17", "Declared property names and types apply in both directions at every depth",
  "For resources and functions with typed properties, in every supported style of writing them, each input arrives at the engine under its Pulumi name at every depth (objects as instances or "
  "as dicts, values as Outputs or not), while the keys of maps stay as they are. Whatever the engine answers is seen by the program as declared: objects as instances with each property "
  "under its Python name and None for absent ones, enums as enum members, ints as ints, lists and maps with converted elements, and Any unchanged. An object in the place of something else "
  "makes the program fail with an error that names the resource and the property's path.",
  ["inputs"], "every schema of types, every conforming value, previews and updates",
  "tests use a few fixed classes and values; combinations of nesting, styles and awkward names aren't sampled",
  ["_types.py", "runtime/rpc.py", "output.py", "runtime/resource.py", "runtime/invoke.py"],
  [("input_type, output_type, getter, property", "_types.py"), ("translate_output_properties, serialize_property", "runtime/rpc.py")],
  ["requests", "outputs of resources and results of functions"], "schema-driven generation of classes and values with a reference translation in both directions")
P("C18", "Invokes and calls carry their arguments and return the answer",
  "Each invoke or call makes exactly one request, with the token, version, plugin URL and arguments given (encoded as properties are; a call's with output values and "
  "the URNs that each argument depends on). An invoke returns only after its request and holds exactly the engine's answer, also when awaited or within callbacks; a call's "
  "Output has the answer's value, knownness, secretness and dependencies. A failure names the token and the reason and raises, rather than being taken for a result.",
  ["programs", "inputs", "schedules"], "every argument tree, answer (empty, partially unknown, secret, failing), place of the call and order of responses",
  "tests invoke a few functions with literal arguments and one answer; empty or unknown answers, dependencies and nesting are not sampled",
  ["runtime/invoke.py", "runtime/rpc.py"],
  [("invoke and call", "runtime/invoke.py"), ("synchronous waiting", "runtime/sync_await.py")], ["Invoke and Call requests", "InvokeResult, Output of a call"],
  "online monitoring of the functions called by random programs against a reference encoder and decoder of arguments and answers")
P("C19", "Stack outputs are exactly the exported values",
  "The outputs registered for the stack, once per program, hold exactly what was exported last under each name: dictionaries without their private keys, objects by their "
  "attributes, other iterables as lists, resources by their URN, ID and properties, with Outputs and awaitables resolved at any depth, secrets marked and unknowns kept. A value "
  "that is exported several times is emitted fully each time; a value that contains itself is cut off there (a resource by its URN).",
  ["programs", "inputs", "histories"], "every exported value, however nested, shared or cyclic, in updates and previews",
  "tests export about ten fixed values; nested awaitables, shared parts, private keys below Outputs and cycles through objects are not sampled",
  ["runtime/stack.py"],
  [("conversion of exports", "runtime/stack.py"), ("export", "runtime/stack.py")], ["outputs registered for the stack"],
  "online monitoring of random exports against a reference model of the conversion")
P("C20", "Stack references give the other stack's outputs",
  "A StackReference reads exactly the stack named by stack_name or else by its own name. get_output gives the value of the output of that name, or None if there is none; "
  "require_output fails with a KeyError instead. The result is unknown if the output or the name is; it is secret exactly if the engine lists the output as secret (or, if it "
  "doesn't list any names, if the outputs as a whole are secret), and it depends on the reference and what the name depends on.",
  ["inputs", "programs"], "every set of outputs and secret names, every form of the name, updates and previews, engines that list secret names or not",
  "tests read a handful of outputs through mocks; falsy or unknown outputs, names that are Outputs and older engines are not sampled",
  ["stack_reference.py"],
  [("lookup and secretness", "stack_reference.py")], ["ReadResource requests", "Outputs of get_output and require_output"],
  "online monitoring of random stack references against the fake engine's answers")
P("C21", "Configuration is read from the right key and source",
  "Config(bag).get*(key) yields the value set under exactly 'bag:key' (the bag defaults to the project), first by the host, else by PULUMI_CONFIG_<KEY>, else by PULUMI_CONFIG; "
  "converted exactly to the type asked for, with a ConfigTypeError naming key, value and type if that is impossible. A default is used exactly if nothing is set, even if a set "
  "value is falsy; require* raises ConfigMissingError then. *_secret* accessors return known secret Outputs, others the plain value; is_config_secret tells exactly the secret keys.",
  ["inputs"], "every combination of sources, bags, keys, accessors, values and defaults",
  "tests read about thirty fixed values; collisions of sources, awkward keys, falsy values against defaults are not sampled",
  ["config.py", "runtime/config.py", "metadata.py"],
  [("typed accessors", "config.py"), ("sources", "runtime/config.py")], ["results and errors of the accessors"],
  "online monitoring of random reads of random configurations against a reference model")
P("C22", "Providers serve Construct and Call faithfully, in isolation",
  "A provider method sees exactly the request's name, type, inputs (value, secretness, knownness and dependencies of each, references as resources), options, settings and configuration, and nothing "
  "of other requests, be they earlier, concurrent or failed. The response has exactly the URN, state or result computed, with marks and dependencies, or the failures returned; it "
  "comes after the registration of the resources that the method created, all of them at the request's monitor. If the method or a registration fails, then this request fails, but no other.",
  ["inputs", "histories", "schedules"], "every sequence and interleaving of requests, every input, option, state and failure",
  "tests convert a dozen fixed inputs; no test serves requests, runs them concurrently or after a failure",
  ["provider/server.py", "provider/provider.py", "runtime/rpc.py", "runtime/rpc_manager.py"],
  [("requests and responses", "provider/server.py"), ("tracking of RPCs", "runtime/rpc_manager.py")],
  ["Construct and Call responses", "what the provider's methods see", "registrations at each monitor"],
  "online monitoring of a provider process under random sequential and concurrent requests against a reference model")

P("C23", "Dynamic providers act remotely as in the program, and serialize stably",
  "A dynamic resource is registered under its class's type with its inputs and a serialized provider that is the same in every run of the same program. In the provider's process, each lifecycle method "
  "acts as the object in the program would have when the resource was created (state, closures, globals), sees exactly the request's inputs, id and unknowns, and its result, defaults included, is "
  "answered exactly along with the provider itself. A method's failure fails this request only; others, concurrent ones included, aren't affected.",
  ["inputs", "histories", "schedules"], "every provider object, hash seed, request and result, concurrent or not",
  "no test serializes a provider or serves its methods",
  ["dynamic/dynamic.py", "dynamic/__main__.py", "runtime/rpc.py"],
  [("serialization", "dynamic/dynamic.py"), ("lifecycle methods", "dynamic/__main__.py")],
  ["registrations in two runs of a program", "what the provider's methods see", "responses"],
  "offline comparison of traces of two runs, and online monitoring of a provider process under random concurrent requests against a reference model")
P("C24", "Unit tests with mocks see exactly what the mocks say",
  "In a pulumi.runtime.test, the mocks are asked exactly once for each resource and function call, with the type, name, inputs, ID and provider that the program gives, under the project, stack and preview "
  "mode set; the program sees exactly the mock's ID, state and results, secrets marked, before the test ends. The test fails if and only if the program, a callback of the returned "
  "Output or a mock does; such a failure doesn't affect later tests.",
  ["programs", "histories"], "every program, every answer of the mocks and every sequence of passing and failing tests",
  "each test uses one fixed set of mocks; failing mocks, sequences of tests after a failure, read and imported resources are not sampled",
  ["runtime/mocks.py", "runtime/rpc_manager.py", "runtime/settings.py"],
  [("mock monitor and test decorator", "runtime/mocks.py"), ("tracking of RPCs", "runtime/rpc_manager.py")],
  ["calls of the mocks", "outputs of resources", "outcome of each test"],
  "online monitoring of sequences of random mocked unit tests against a reference model")
P("C28", "The Automation API runs exactly the command asked for",
  "Each operation on a stack runs exactly one changing command of the CLI, for that stack, in the workspace's directory with its PULUMI_HOME and environment, non-interactively, with exactly "
  "the options given, each value verbatim. Its output is delivered line by line while it runs, and the result holds exactly the output, outputs and summary (secrets hidden on request), or "
  "else the operation raises with that output. Temporary files don't outlive the operation, even if it fails.",
  ["inputs", "histories", "schedules"], "every operation, combination of options and values, workspace, output and failure",
  "tests need the real CLI and are skipped without it; they use a few options with harmless values",
  ["automation/_stack.py", "automation/_local_workspace.py", "automation/_cmd.py"],
  [("operations and options", "automation/_stack.py"), ("running a command", "automation/_cmd.py")],
  ["command lines, directories and environments", "output delivered", "results", "files left"],
  "online monitoring of random operations against a simulated CLI that records how it is run and waits for its output to be delivered")
P("C29", "Data passes through the Automation API unchanged",
  "Whatever configuration is set (any value, secret or not) is what the stack's settings hold and what get_config and get_all_config return; outputs, history, summaries, stacks, plugins, deployments and the "
  "user are returned exactly as the CLI reports them, optional details included, secrets marked as such and hidden on request. Creating fails exactly for existing stacks, selecting for missing "
  "ones, and create_or_select for neither.",
  ["inputs", "histories"], "every sequence of calls, every key, value, secret and optional detail",
  "tests need the real CLI and are skipped without it; they use one stack with a few plain values",
  ["automation/_local_workspace.py", "automation/_stack.py", "automation/_workspace.py"],
  [("configuration, stacks, plugins", "automation/_local_workspace.py"), ("history", "automation/_stack.py")],
  ["results of calls", "state of the CLI"],
  "online monitoring of random sequences of calls over a stateful simulated CLI against a reference model")
P("C30", "Project and stack settings survive being saved and loaded",
  "Saved project and stack settings are exactly what is loaded later and what other YAML or JSON readers find in the one file of the project or stack (in the format it has, if any), whatever the strings, nested "
  "values, templates and encrypted values; what isn't set isn't written. Loading and saving again changes nothing else; loading without a file raises FileNotFoundError. An inline program without settings "
  "gets default ones exactly if its directory has none, and options are left untouched.",
  ["inputs", "histories"], "every settings object, file format, stack name and sequence of saving, loading and editing",
  "tests load a few fixed files and save one; ambiguous strings, templates, empty files and later edits are not sampled",
  ["automation/_project_settings.py", "automation/_stack_settings.py", "automation/_local_workspace.py"],
  [("project settings", "automation/_project_settings.py"), ("stack settings", "automation/_stack_settings.py"), ("files", "automation/_local_workspace.py")],
  ["contents of settings files", "loaded objects"],
  "online monitoring of random sequences of saving, loading and editing against a reference model, with an independent reader of the files")
P("C31", "Engine events are delivered exactly once, in order and complete",
  "While an operation runs, its on_event callback gets every event that the CLI has written so far, once, in the order written, before the operation returns; however the writes are split, paused or "
  "interleaved with other stacks' operations, and if the CLI dies. Each has exactly the fields written, under their documented names and types, absent ones being None; a preview's change_summary is the one of its "
  "summary event.",
  ["inputs", "schedules", "faults"], "every sequence of events of all kinds, every fragmentation and timing of the writes, concurrent operations",
  "tests need the real CLI and are skipped without it; no test parses an event with details or sees a partial write",
  ["automation/_stack.py", "automation/events.py"],
  [("watching the event log", "automation/_stack.py"), ("parsing of events", "automation/events.py")],
  ["events delivered", "their fields", "time of delivery"],
  "online monitoring of the events delivered while a simulated CLI writes the log in random fragments, waiting for some to be delivered")
P("C26", "Logged messages reach the engine exactly once, unchanged",
  "Each message that a program logs, wherever it does so, reaches the engine exactly once, before the program is done, with its severity, text, stream, ephemeral flag and the URN of the resource given (which may "
  "be registered later), even if the program fails afterwards; messages without resource arrive in the order logged. Without an engine, all but debug messages are printed to stderr, prefixed by severity.",
  ["programs", "inputs", "schedules"], "every place, severity, text and resource, every order of answers, failing programs",
  "no test logs about a resource that isn't registered yet, nor checks what arrives when the program fails",
  ["log.py", "runtime/stack.py", "runtime/settings.py"],
  [("sending messages", "log.py"), ("waiting for tasks", "runtime/stack.py")], ["log requests", "stderr"],
  "online monitoring of the log requests of random programs against what they logged")
P("C27", "The language host's exit code and logs tell how the program went",
  "The language host runs the program (file or directory) exactly once, as __main__, in the directory, with the arguments, settings, configuration and secret keys given. It exits with 0 exactly if the program and all it "
  "started succeeded, everything being registered; with 1 after a RunError, whose message it logs as an error; with 32 after any other exception, having logged one error with its reason and the traceback from "
  "the user's first frame on. What the program prints is kept.",
  ["programs", "inputs", "faults"], "every program, way and place of failing, arguments, settings and configuration",
  "no test runs the script",
  ["sdk/python/cmd/pulumi-language-python-exec", "runtime/stack.py", "runtime/config.py"],
  [("running the program", "sdk/python/cmd/pulumi-language-python-exec"), ("waiting for the program", "runtime/stack.py")],
  ["exit code", "error logs", "what the program sees", "registrations"],
  "online monitoring of processes of the language host running random programs against a fake engine")
P("C34", "Programs run in one process don't affect each other",
  "Inline programs that one process runs, at once or one after the other on any threads, each see only their own settings, configuration and secret keys, and register with their own engine exactly their own resources, "
  "stack outputs, log messages, transformations and dynamic providers. Each one's outcome is its own: the failure of one neither fails another nor is lost, whatever failed before.",
  ["schedules", "programs", "histories"], "every set of programs, overlap of their steps, order, and earlier failures",
  "tests run one program at a time, with no failures before it",
  ["automation/_server.py", "runtime/rpc_manager.py", "runtime/settings.py", "runtime/config.py", "runtime/stack.py", "dynamic/dynamic.py"],
  [("running inline programs", "automation/_server.py"), ("state of a program", "runtime/settings.py"), ("failures", "runtime/rpc_manager.py")],
  ["traces of the engines", "what programs see", "outcomes"],
  "online monitoring of inline programs run at once and in turns, each against its own engine and model")
P("C32", "An inline program's operation runs it once, as its own, and tells its outcome",
  "up and preview given an inline program (of the operation, else of the workspace) start a language server for the CLI alone that runs that program once per run the CLI asks for, with the settings it's given, whatever "
  "other operations run at once; the server is gone when the operation returns, even if the CLI dies. A program's exception makes the operation raise InlineSourceRuntimeError (a RunError, CommandError) with its "
  "reason and what was printed; else the result has the operation's stdout, outputs, summary and changes.",
  ["histories", "schedules", "faults"], "every sequence of operations and programs, concurrent stacks, failures of program and CLI",
  "tests of inline programs need the real CLI and are skipped without it",
  ["automation/_stack.py", "automation/_server.py", "automation/errors.py", "automation/_cmd.py"],
  [("operations", "automation/_stack.py"), ("language server", "automation/_server.py"), ("classification of errors", "automation/errors.py")],
  ["results and exceptions of operations", "traces of the engines", "arguments of the CLI"],
  "online monitoring of operations over a simulated CLI which runs the programs through the language server")
P("C36", "A failing CLI raises the error that tells why; unsupported CLIs are refused",
  "Whichever call of the Automation API runs it, a CLI command that fails (or is killed) makes the call raise a CommandError holding its exit code and all of its output: StackNotFoundError, StackAlreadyExistsError or "
  "ConcurrentUpdateError if its stderr says so, InlineSourceRuntimeError, RuntimeError or CompilationError if its stdout does, else none of them. A workspace is refused with InvalidVersionError exactly if the CLI's "
  "version is older than 3.1.0, of a later major version or unreadable, unless the check is opted out of; pulumi_version is that version.",
  ["inputs", "faults"], "every call, command, output, exit code and signal; every version",
  "tests classify errors with the real CLI only and compare a few versions",
  ["automation/errors.py", "automation/_cmd.py", "automation/_local_workspace.py", "automation/_minimum_version.py"],
  [("classification of errors", "automation/errors.py"), ("running the CLI", "automation/_cmd.py"), ("check of the version", "automation/_local_workspace.py")],
  ["exceptions", "versions"],
  "online monitoring of calls whose simulated CLI fails in random ways or has random versions against a reference model")
P("C35", "Programs with circular component dependencies or long chains finish",
  "A program in which resources depend on components that contain them, or on one another by way of components, finishes with each resource registered once: the dependencies reported are implied ones and "
  "form no cycle, an implied one is left out only if it would close one, and each resource is requested after those reported for it were answered. Chains of thousands of dependent resources, callbacks or Outputs, "
  "wide components and hundreds of nested parents work like short ones.",
  ["programs", "schedules"], "every tree of components and depends_on between its nodes, every order of answers, every length of chain",
  "tests have one small cycle and no chain longer than a few resources",
  ["runtime/resource_cycle_breaker.py", "runtime/resource.py", "output.py", "resource.py"],
  [("cycles", "runtime/resource_cycle_breaker.py"), ("dependencies", "runtime/resource.py"), ("parents and aliases", "resource.py")],
  ["registrations", "reported dependencies", "order of requests and answers"],
  "online monitoring of random circular programs and long chains under engines answering in adversarial order, with a reachability oracle")
P("C25", "What a program passes is left as it was, and can be used again",
  "Options, properties, arguments, outputs, input types, Alias objects and the lists and dictionaries in them that a program passes to resources, functions, components, exports, merges or the Automation API (workspace "
  "options, settings, configuration, targets) are not changed by it; using one of them several times leads to exactly the requests and commands that using equal ones would.",
  ["inputs", "histories"], "every object, nesting and sequence of uses",
  "tests pass each object once",
  ["resource.py", "runtime/resource.py", "runtime/invoke.py", "runtime/rpc.py", "dynamic/dynamic.py", "output.py", "automation/_local_workspace.py", "automation/_stack.py"],
  [("options of resources", "resource.py"), ("options of functions", "runtime/invoke.py"), ("dynamic providers", "dynamic/dynamic.py"), ("workspace options", "automation/_local_workspace.py")],
  ["requests", "commands of the CLI", "objects before and after"],
  "metamorphic monitoring: random programs with shared and with equal objects must send the same requests, and shared objects must keep their structure")
P("C33", "A reference becomes a resource of its module's best registered version",
  "A reference to a resource or provider in an answer becomes one constructed by the registered version of its module (provider: package) that fits the version wanted best: the highest that has the same major version "
  "and no lower minor and patch, any if no version is wanted; one registered for any version always fits. It's constructed once from the reference's name, type and URN. If none fits, the value is the "
  "reference's ID if it has one, else its URN. A version can't be registered twice, nor besides one for any version: that's a ValueError.",
  ["inputs", "histories"], "every set and order of registered versions, wanted version, type, name and position of the reference",
  "tests register two or three versions and look up a few",
  ["runtime/rpc.py", "urn.py", "runtime/resource.py"],
  [("choosing the version", "runtime/rpc.py"), ("reading the URN", "urn.py")], ["values of outputs", "refused registrations"],
  "online monitoring of programs receiving references while random versions are registered, against a model of the registry")
P("C37", "Policy packs and plugins start with the right interpreter and settings",
  "A policy pack, a file or directory, is run as __main__ in the launcher's directory: it sees the project, stack, organization, kind of run and configuration that the engine set, and ends with exit code 0 only if it "
  "succeeded, its own if it exits, else 1 with the exception's trace on stderr; what it prints is passed on. The launchers of policy packs and dynamic providers use the virtual environment they're given (relative to the "
  "directory, with its bin first in PATH and no PYTHONHOME), else PULUMI_PYTHON_CMD, else python3; one that's missing or invalid is reported with exit code 1 and nothing is run.",
  ["inputs", "failures"], "every pack, way of ending, virtual environment, setting and configuration",
  "no test runs a policy pack or a launcher",
  ["policy/__main__.py", "sdk/python/dist/pulumi-analyzer-policy-python", "sdk/python/dist/pulumi-resource-pulumi-python", "runtime/config.py", "runtime/settings.py"],
  [("running the pack", "policy/__main__.py"), ("configuration", "runtime/config.py")],
  ["exit code, output and errors of the launcher", "what the pack saw", "the interpreter used"],
  "monitoring of real processes started by the real launchers with random packs, environments and ends, against a model")
P("C38", "Mistakes in using the API are reported where they're made, leaving no traces",
  "A call given what it can't take (no name or type, options, parents, dependencies, providers of other packages, asset contents or attribute names of the wrong kind, IDs for components, merges of other things, iterating over an Output, "
  "types that aren't output types, transformations changing the parent) raises an exception of the documented class there and then. If the program handles it, it goes on as if the call hadn't been made: nothing is requested for "
  "it, no resource has it as a child, and nothing waits for it. If it doesn't, or if the mistake shows only later (values that can't be sent, aliases without name, dependencies that turn out not to be resources), the program "
  "fails with that error and the engine gets no request for what was wrong; it never hangs or succeeds.",
  ["programs", "inputs", "schedules"], "every program, place and kind of mistake, with every order of answers around it",
  "tests raise a few of these errors one by one, never within a program that handles them and goes on",
  ["resource.py", "asset.py", "output.py", "_types.py", "runtime/invoke.py", "runtime/rpc.py", "runtime/resource.py", "runtime/stack.py", "runtime/settings.py"],
  [("resources and options", "resource.py"), ("assets", "asset.py"), ("outputs", "output.py"), ("input types", "_types.py")],
  ["exceptions raised", "requests to the engine", "the program's outcome"],
  "online monitoring of random programs with mistakes in them, with a model of the program without the mistakes")
P("C39", "Stacks are created and selected as asked, for any program, directory and options",
  "create_stack makes a new stack or raises StackAlreadyExistsError, select_stack selects an existing one or raises StackNotFoundError, and create_or_select_stack does either, also if several threads or processes do so at once, of "
  "which exactly one creates it. Given a program and a project name, the stack runs that program in the directory of the options or a new one of its own (work_dir being ignored); else given a work_dir, what's there; given neither "
  "they raise ValueError. An old CLI or incomplete arguments leave no traces. Settings given, or default ones of an inline program whose directory has none, are in place before the CLI first sees the stack; the stack returned is "
  "the current one, with the workspace's program, directory, environment and secrets provider.",
  ["inputs", "histories", "schedules", "faults"], "every combination of arguments, options, existing files and stacks, every sequence and interleaving of calls",
  "tests need the real CLI and are skipped without it; select_stack and incomplete arguments are never tried",
  ["automation/_local_workspace.py", "automation/_stack.py", "automation/errors.py"],
  [("functions", "automation/_local_workspace.py"), ("stacks", "automation/_stack.py"), ("errors", "automation/errors.py")],
  ["commands run", "files there when they run", "stacks and workspaces returned", "exceptions raised"],
  "monitoring of real Automation API calls by means of a simulated CLI, with a model of stacks and settings, concurrent calls included")
P("C40", "Programs using generated packages say and see what the packages' schemas say",
  "For a package made by Pulumi's code generator, what a program passes to its resources, functions, methods and providers, as arguments or objects of its input types, by Python names, in any mixture of plain values, Outputs, secrets, "
  "resources, assets and enums, reaches the engine under the schema's names with the type token, version, plugin download URL, dependencies, secretness and additional secret outputs the schema and program ask for (as JSON for "
  "providers); and what the engine answers reaches the program as attributes by Python names with the schema's types: nested output types, enums, references, lists and maps, None for what's absent, and values of maps by their own keys.",
  ["programs", "inputs", "schedules"], "every schema, every program using the package, every answer fitting the schema",
  "tests of the code generator compare its text and only import a few packages; no test drives one end to end against an engine",
  ["_types.py", "runtime/rpc.py", "runtime/resource.py", "runtime/invoke.py", "resource.py", "output.py"],
  [("input and output types", "_types.py"), ("translation of names and types", "runtime/rpc.py"), ("functions and methods", "runtime/invoke.py"), ("registration", "runtime/resource.py")],
  ["requests to the engine", "values and types of attributes and results", "the program's outcome"],
  "online monitoring of random programs using real generated packages, with the packages' schemas as oracle")
