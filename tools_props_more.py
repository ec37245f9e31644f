SIM = "hermespy/simulation/"
prop("C06", "The seed of a scenario fixes everything its drops contain",
     "Two scenarios configured identically and given the same random seed generate bit-identical sequences of drops: transmissions, channel realizations, hardware effects, noise and receptions. This holds regardless of the process they run in, of hash randomisation, object addresses and garbage collection, of how often anybody else draws random numbers, of other scenarios dropping before, in between or concurrently, of whether the scenario was copied or pickled, and of whether drops are recorded. Reseeding a scenario restarts its sequence, and scenarios with different seeds differ.",
     ["environments", "histories", "schedules", "inputs"],
     "all processes (hash seeds, address layouts), all histories of foreign draws, garbage collections, recordings and copies between drops, all interleavings of concurrently dropping scenarios",
     "A test compares two runs within one process under one hash order; an order that stems from object addresses, an operator drawing from an unseeded generator or shared module state only shows in another process or another history.",
     ["hermespy/core/random_node.py", "hermespy/core/device.py", SIM + "scenario.py", SIM + "simulated_device.py", "hermespy/channel", "hermespy/simulation/rf"],
     [("random graph", "hermespy/core/random_node.py: RandomNode._rng"), ("mother assignment", "hermespy/core/device.py, " + SIM + "scenario.py")],
     ["SimulationScenario.drop", "Drop", "channel realizations"])
prop("C07", "Every sample of a simulation campaign is fresh, consistent and taken at its own parameters",
     "In a simulation campaign distributed over any number of workers, no two samples of a parameter combination contain the same random data or the same noise, workers draw uncorrelated randomness, each sample is evaluated with all parameters of its combination in force, the noise it contains has the power configured for it, and the transmission and reception handed to an evaluator stem from the same drop.",
     ["schedules", "configurations", "histories"],
     "all worker counts, batch histories, dimensions impacting any stage, drop intervals and trajectories, all message delays, reorderings and preemptions",
     "Statistical independence and staleness of intermediate results cannot be seen in the merged result of one campaign, and depend on the sequence of sections each worker was handed.",
     [SIM + "simulation.py", SIM + "scenario.py", SIM + "simulated_device.py", MC + "actors.py"],
     [("worker seeds", SIM + "simulation.py: SimulationActor.__init__"), ("stages", SIM + "simulation.py: SimulationRunner"), ("impact of parameters", SIM + "simulated_device.py, scenario.py: register(first_impact)")],
     ["Evaluator.evaluate", "transmit and receive callbacks"])
prop("C08", "A replayed recording reproduces the recorded drops exactly",
     "Replaying a campaign from a file yields exactly the drops which were recorded to it, in order and bit-identical in every transmission, realization and reception, also in another process which knows the scenario's configuration only, and whatever was recorded, stopped, appended, overwritten and replayed in the same files before. Recording never changes the drops it records, replay re-runs the receiving operators on the recorded samples, campaigns in one file are independent of each other, and an invalid transition between the default, record and replay modes is refused without changing anything.",
     ["histories", "configurations", "inputs"],
     "all histories of record, drop, stop, replay and overwrite over two scenarios, two files and several campaigns, all supported operator, channel and hardware configurations, including addresses of dead objects being reused",
     "The tests record and replay one drop of one configuration; wrong references between recorded objects need particular object life times, and lost campaigns need particular histories.",
     ["hermespy/core/scenario.py", "hermespy/core/factory.py", "hermespy/core/drop.py", SIM + "drop.py", "hermespy/channel"],
     [("mode transitions", "hermespy/core/scenario.py: Scenario.record/replay/stop"), ("object graph", "hermespy/core/factory.py: SerializationProcess, HDFSerializationProcess")],
     ["Scenario.drop in replay mode", "Drop.from file"])
prop("C09", "Faults while recording or replaying are never silent and cost only what they hit",
     "If a write fails, the disk is full, memory runs out, a callback raises, the user interrupts or the process dies at any instant while a scenario is recorded or replayed, then the call during which it happened reports it, all drops completed before remain replayable unaltered, no partially recorded drop is ever replayed as if it were complete, the file is released, and the scenario can be stopped and then used for further drops, recordings and replays.",
     ["fault_sequences", "crash_points", "histories"],
     "errors, interrupts and crashes at every HDF5 operation and every byte-level write, torn writes included, and arbitrary continuations afterwards",
     "No test injects a fault into a recording.",
     ["hermespy/core/scenario.py", "hermespy/core/factory.py"],
     [("recording of a drop", "hermespy/core/scenario.py: Scenario._record_drop"), ("file handling", "hermespy/core/factory.py: HDFSerializationProcess.finalize")],
     ["exceptions of Scenario.drop/record/replay/stop", "content of the file"])
HW = "hermespy/hardware_loop/"
prop("C10", "A hardware loop performs exactly the configured measurement, whatever fails or interrupts it",
     "A run of a hardware loop visits every cell of its parameter grid the configured number of times in the configured iteration priority; for each drop, the pre-drop hooks, the trigger of the hardware with all parameters of the cell in force, the evaluation by every evaluator and the post-drop hooks happen exactly once, in this order and about the same drop. Results collected, returned and saved combine exactly the artifacts of the drops attributed to their cell. A drop which fails is reported and costs only its own sample (or ends the run with the original error in debug mode), an interrupt ends the run after the drop during which it arrives, and however the run ends, the recording is closed, the scenario returns to its default mode, and the previous interrupt handler is back in place. Replaying a recorded run hands the recorded drops to the same evaluators in order and bit-identical without triggering the hardware.",
     ["fault_sequences", "crash_points", "histories", "configurations"],
     "all parameter grids, iteration priorities, hook, evaluator and plot configurations, failures of every hook, trigger, evaluator and file operation, interrupts at every step, and repeated runs and replays of one loop",
     "The unit tests run one complete loop against mocks. Lost sections, interrupts in the middle of a drop, stale handlers and open files appear only under faults at particular steps and over several runs.",
     [HW + "hardware_loop.py", HW + "physical_device.py", HW + "scenario.py", "hermespy/core/scenario.py"],
     [("iteration", HW + "hardware_loop.py: HardwareLoop.__run"), ("interrupts", HW + "hardware_loop.py: HardwareLoop.run"), ("replay", HW + "hardware_loop.py: HardwareLoop.replay")],
     ["HardwareLoop.run/replay", "pre_drop_hooks and post_drop_hooks", "Evaluator.evaluate", "results file"])
prop("C12", "Live plots observe a hardware loop, they neither disturb it nor lag behind it",
     "Live plots of a hardware loop never change what is measured: neither the drops, their receptions and artifacts nor the collected results differ from those of the same run without plots, whatever the plots do, however long they take and whenever they fail. A plot is prepared before its first update, is only ever shown samples which the loop produced, in their order and each at most once, shows the latest sample within a bounded time once the loop is idle, and what a figure displays is the data of the sample it was updated with. After the run no plotting thread, no figure of a failed plot, and no changed plotting style or warning filter is left behind.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of the measurement thread and the plotting threads at every lock operation and preemption, all drawing durations, failures of preparation and update, all built-in plots over random scenarios",
     "The plotting threads race with the loop; lost wake-ups and half-published samples need a particular interleaving, which no unit test controls.",
     [HW + "hardware_loop.py", HW + "visualizers.py", "hermespy/core/visualize.py", "hermespy/radar/cube.py"],
     [("plot threads", HW + "hardware_loop.py: PlotThread"), ("built-in plots", HW + "visualizers.py")],
     ["HardwareLoopPlot.prepare_plot/update_plot", "matplotlib figures", "results of HardwareLoop.run"])
prop("C13", "Default results directories are new and never shared",
     "The default results directory handed to an executable exists, lies below the current working directory (and below the directory of its experiment), is named after the date of the call and the first index not taken, has been created empty for this caller and is never handed to another one, however many processes ask at the same time, whatever foreign entries exist or appear meanwhile, and around midnight. A file-system error is raised or overcome, never answered with a directory that is missing or shared, and existing content is never altered.",
     ["schedules", "fault_sequences", "inputs"],
     "all interleavings of concurrent callers at every file-system operation, pre-existing and concurrently appearing entries, date changes during the call and clock skew, error codes at every operation",
     "The single-threaded test cannot observe the window between choosing a name and creating the directory.",
     ["hermespy/core/executable.py"],
     [("choice of the name", "hermespy/core/executable.py: Executable.default_results_dir")],
     ["return value of default_results_dir", "file system"])
prop("C14", "A saved configuration comes back as it was",
     "Saving a simulation scenario to a file, directly or as one of several objects and campaigns of a file, and restoring it, in any number of generations, yields a scenario whose drops equal those of the original bit for bit under the same seed: all devices with their antennas, trajectories, radio-frequency chains, couplings, isolations, triggers and noise models, all modems, radars and other operators with their waveforms, codings and precodings, all channels, and all sharing of parts between them. Saving leaves the original unchanged. If the disk, the memory or the library fails meanwhile, saving or restoring raises; it never passes for complete, holds no file open, and can be repeated.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "all configurations composed of the library's serializable parts, all save and restore histories, errors at every write, read and HDF5 operation, and arbitrary iteration orders of sets and contents of uninitialised memory meanwhile",
     "The round-trip tests compare the types of single default-constructed objects. A parameter which is dropped, a reference which is duplicated or an order which changes appears only in what a composed scenario does.",
     ["hermespy/core/factory.py", SIM + "simulated_device.py", SIM + "scenario.py", SIM + "rf", "hermespy/modem", "hermespy/radar", "hermespy/fec", "hermespy/channel"],
     [("object graph", "hermespy/core/factory.py: HDFSerializationProcess, HDFDeserializationProcess"), ("parts", "serialize and Deserialize of every serializable class")],
     ["Factory.to_HDF/from_HDF", "Factory.serialize/deserialize", "Scenario.drop"])
